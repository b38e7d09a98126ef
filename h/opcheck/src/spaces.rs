use std::sync::LazyLock;

use async_graphql_parser::{parse_query, parse_schema, types::ExecutableDocument};
use operation_checks::{CheckParams, FieldUsage, Operation, Schema, Severity, aggregate_field_usage, check, check_assuming_all_used};
use sdl::{Doc, Field, Kind, Roots, Ty};
use vmc::{Case, Check};

use crate::oracle::*;

// ---------------------------------------------------------------- documents

fn args_text(f: &Field) -> String {
    if f.args.is_empty() {
        return String::new();
    }
    let a: Vec<String> = f.args.iter().map(|(n, a)| input_text(n, a)).collect();
    format!("({})", a.join(", "))
}

fn input_text(n: &str, a: &Field) -> String {
    let d = a.default.as_ref().map(|d| format!(" = {d}")).unwrap_or_default();
    format!("{n}: {}{d}", a.ty)
}

/// `split` puts the first member of every type in an extension (written before the definition).
fn render(d: &Doc, split: bool) -> String {
    let mut out = String::new();
    if let Some(r) = &d.schema {
        out.push_str("schema {");
        for (k, v) in [("query", &r.query), ("mutation", &r.mutation), ("subscription", &r.subscription)] {
            if let Some(v) = v {
                out.push_str(&format!(" {k}: {v}"));
            }
        }
        out.push_str(" }\n");
    }
    for (n, t) in &d.types {
        let implements = if t.implements.is_empty() {
            String::new()
        } else {
            format!(" implements {}", t.implements.iter().cloned().collect::<Vec<_>>().join(" & "))
        };
        let members: Vec<String> = match t.kind {
            Kind::Scalar => {
                out.push_str(&format!("scalar {n}\n"));
                continue;
            }
            Kind::Union => {
                out.push_str(&format!("union {n} = {}\n", t.members.iter().cloned().collect::<Vec<_>>().join(" | ")));
                continue;
            }
            Kind::Enum => t.fields.keys().cloned().collect(),
            Kind::Input => t.fields.iter().map(|(n, f)| input_text(n, f)).collect(),
            _ => t.fields.iter().map(|(n, f)| format!("{n}{}: {}", args_text(f), f.ty)).collect(),
        };
        let word = match t.kind {
            Kind::Enum => "enum",
            Kind::Input => "input",
            Kind::Interface => "interface",
            _ => "type",
        };
        let at = if split && members.len() > 1 { 1 } else { 0 };
        if at > 0 {
            out.push_str(&format!("extend {word} {n} {{ {} }}\n", members[..at].join(" ")));
        }
        out.push_str(&format!("{word} {n}{implements} {{ {} }}\n", members[at..].join(" ")));
    }
    out
}

fn doc(text: &str) -> Doc {
    sdl::parse(text).unwrap_or_else(|e| panic!("vmc: {e}\n{text}"))
}

fn ty(kind: Kind, members: &[(&str, &str)]) -> Ty {
    let mut t = Ty { kind, desc: None, dirs: vec![], implements: Default::default(), members: Default::default(), fields: Default::default() };
    for (n, d) in members {
        t.fields.insert(n.to_string(), input(d));
    }
    t
}

/// `Int! = 1`
fn input(d: &str) -> Field {
    let (ty, default) = match d.split_once('=') {
        Some((a, b)) => (a.trim(), Some(b.trim().to_string())),
        None => (d, None),
    };
    Field { ty: ty.into(), default, ..Field::default() }
}

// ---------------------------------------------------------------- judging

struct Real {
    op: Operation,
    doc: ExecutableDocument,
}

fn op(text: &str) -> Real {
    let parse = || parse_query(text).unwrap_or_else(|e| panic!("vmc: {e}\n{text}"));
    Real { op: Operation::from(parse()), doc: parse() }
}

fn schema(text: &str) -> Schema {
    parse_schema(text).unwrap_or_else(|e| panic!("vmc: {e}\n{text}")).into()
}

#[derive(Default, Clone, Copy)]
struct How {
    split: bool,
    /// also ask whether each operation still works
    works: bool,
}

/// `ops`: operations with the number of requests they stand for; `threshold`: of requests.
fn judge(c: &mut Case, s: &Doc, t: &Doc, ops: &[(String, u64)], threshold: Option<u64>, how: How) {
    let (st, tt) = (render(s, how.split), render(t, how.split));
    c.note(|| format!("source:\n{st}   | target:\n{tt}   | operations: {ops:?} threshold {threshold:?}"));
    let changes = graphql_schema_diff::diff(&st, &tt).unwrap_or_else(|e| panic!("vmc: {e}\n{st}\n{tt}"));
    let real: Vec<(Real, u64)> = ops.iter().map(|(o, n)| (op(o), *n)).collect();
    let mut usage = Usage::default();
    for (r, n) in &real {
        usage.add(s, &r.doc, *n);
    }
    if let Some(n) = threshold {
        usage.threshold(n);
    }
    let got = vmc::guarded(|| {
        let (source, target) = (schema(&st), schema(&tt));
        let mut u = FieldUsage::default();
        for (i, (r, n)) in real.iter().enumerate() {
            // One request is the increment to start with.
            if i > 0 || *n != 1 {
                u.set_increment(*n);
            }
            aggregate_field_usage(&r.op, &source, &mut u);
        }
        if let Some(n) = threshold {
            u.apply_request_count_threshold(n);
        }
        let d = check(&CheckParams { source: &source, target: &target, diff: &changes, field_usage: &u });
        let all = check_assuming_all_used(&source, &target, &changes);
        [d, all].map(|d| {
            let mut v: Vec<(String, &'static str, &'static str)> = d
                .iter()
                .map(|d| (d.path.clone(), d.change_kind.as_str(), if matches!(d.severity, Severity::Error) { "Error" } else { "Warning" }))
                .collect();
            v.sort();
            v
        })
    });
    let [got, all] = match got {
        Err(p) => return c.fail(format!("panic:{}", p.chars().take(60).collect::<String>().replace(' ', "-")), p),
        Ok(g) => g,
    };
    c.outcome(&(&got, all.len()));
    if all.is_empty() && changes.is_empty() {
        c.trivial();
    }
    c.steps(changes.len() as u64);
    compare(c, "", &expected(s, t, &usage), &got);
    compare(c, "all-used:", &expected(s, t, &Usage { all: true, ..Usage::default() }), &all);
    if how.works && threshold.is_none() && got.is_empty() {
        for (r, _) in &real {
            if let Some((k, why)) = Works::check(s, t, &r.doc).first() {
                c.fail(format!("unflagged:{k}"), format!("an operation no longer works ({k}: {why}), and nothing is flagged"));
            }
        }
    }
}

fn compare(c: &mut Case, pre: &str, want: &Diags, got: &Diags) {
    for w in want {
        if !got.contains(w) {
            return c.fail(format!("{pre}missed:{}", w.1), format!("{w:?} is not flagged, got {got:?}"));
        }
    }
    for g in got {
        if !want.contains(g) {
            return c.fail(format!("{pre}flagged:{}", g.1), format!("{g:?} is flagged, want {want:?}"));
        }
    }
    c.check(want.len() == got.len(), &format!("{pre}repeated"), || format!("{got:?} instead of {want:?}"));
}

// ---------------------------------------------------------------- every edit of a schema

fn drop_type(d: &mut Doc, n: &str) {
    let kind = d.types.remove(n).unwrap().kind;
    for t in d.types.values_mut() {
        t.implements.remove(n);
        t.members.remove(n);
        // what returned or took it does so no longer
        let swap = if kind == Kind::Input || kind == Kind::Enum || kind == Kind::Scalar { "String" } else { "Spare" };
        for f in t.fields.values_mut() {
            if base(&f.ty) == n {
                f.ty = f.ty.replace(n, swap);
            }
            for a in f.args.values_mut() {
                if base(&a.ty) == n {
                    a.ty = a.ty.replace(n, swap);
                    a.default = None;
                }
            }
        }
    }
    d.types.retain(|_, t| t.kind != Kind::Union || !t.members.is_empty());
}

fn retypes(t: &str) -> Vec<String> {
    let b = base(t);
    let other = match b {
        "Int" => "Float",
        "String" => "ID",
        "ID" => "String",
        _ => "String",
    };
    let mut v: Vec<String> = ["X", "X!", "[X]", "[X!]", "[X]!", "[X!]!", "[[X]]", "[[X!]!]!"].iter().map(|w| w.replace('X', b)).collect();
    v.push(t.replace(b, other));
    v.retain(|x| x != t);
    v
}

/// Every single edit: removals, type changes, additions, default changes, of everything there is.
fn edits(d: &Doc) -> Vec<Doc> {
    let mut out: Vec<Doc> = Vec::new();
    let mut edit = |f: &dyn Fn(&mut Doc)| {
        let mut x = d.clone();
        f(&mut x);
        out.push(x);
    };
    for (n, t) in &d.types {
        if n != "Query" && n != "Spare" {
            edit(&|d| drop_type(d, n));
        }
        macro_rules! ty {
            ($d:ident) => {
                $d.types.get_mut(n).unwrap()
            };
        }
        for i in &t.implements {
            edit(&|d| drop(ty!(d).implements.remove(i)));
        }
        for i in t.members.iter().filter(|_| t.members.len() > 1) {
            edit(&|d| drop(ty!(d).members.remove(i)));
        }
        if t.kind == Kind::Union {
            edit(&|d| drop(ty!(d).members.insert("Spare".into())));
        }
        let extra: &[&str] = match t.kind {
            Kind::Enum => &[""],
            Kind::Input => &["Int", "Int!", "Int! = 1", "[Int!]", "[Int]!"],
            Kind::Object | Kind::Interface => &["Int", "Int!"],
            _ => &[],
        };
        for x in extra {
            edit(&|d| drop(ty!(d).fields.insert("new".into(), input(x))));
        }
        for (f, def) in &t.fields {
            macro_rules! field {
                ($d:ident) => {
                    ty!($d).fields.get_mut(f).unwrap()
                };
            }
            if t.fields.len() > 1 {
                edit(&|d| drop(ty!(d).fields.remove(f)));
            }
            if t.kind == Kind::Enum {
                continue;
            }
            for x in retypes(&def.ty) {
                edit(&|d| field!(d).ty = x.clone());
            }
            if def.default.is_some() {
                edit(&|d| field!(d).default = None);
            }
            if t.kind == Kind::Input {
                continue;
            }
            for x in ["Int", "Int!", "Int! = 1", "[Int!]!"] {
                edit(&|d| drop(field!(d).args.insert("new".into(), input(x))));
            }
            for (a, p) in &def.args {
                macro_rules! arg {
                    ($d:ident) => {
                        field!($d).args.get_mut(a).unwrap()
                    };
                }
                edit(&|d| drop(field!(d).args.remove(a)));
                for x in retypes(&p.ty) {
                    edit(&|d| *arg!(d) = input(&x));
                }
                let (loose, strict) = (p.ty.trim_end_matches('!').to_string(), format!("{}!", p.ty.trim_end_matches('!')));
                if p.default.is_some() {
                    edit(&|d| arg!(d).default = None);
                    edit(&|d| *arg!(d) = input(&loose));
                    edit(&|d| *arg!(d) = input(&strict));
                    edit(&|d| arg!(d).ty = strict.clone());
                    edit(&|d| arg!(d).ty = loose.clone());
                }
            }
        }
    }
    out.retain(|x| x != d);
    out.sort();
    out.dedup();
    out
}

// ---------------------------------------------------------------- spaces

const BASE: &str = r#"
scalar Date
enum E { A B C }
enum E2 { P Q }
input Filter { a: Int! b: Int = 3 e: E sub: Sub subs: [Sub!] n: Int! = 5 }
input Sub { x: Int es: [E2] back: Filter }
input Lone { x: Int! y: E }
interface Node { id(x: Int! = 4, y: Int): ID! rel(kind: E): Node }
interface Named { name(len: Int! = 9): String }
type Item implements Node & Named { id(x: Int! = 4, y: Int): ID! rel(kind: E): Node name(len: Int! = 9): String other: Other tags: [String!]! pick(f: Filter): Pick }
type Other implements Node { id(x: Int! = 4, y: Int): ID! rel(kind: E): Node when: Date e: E }
type Solo { a: Int b(s: Sub): Int }
type Spare { z: Int }
union Pick = Item | Other | Solo
type Query { item(id: ID!, f: Filter, n: Int! = 1, m: Int = 2): Item! node(e: E! = A, on: Date): Node list(l: [Int], ls: [[Filter!]]): [Item!] pick(e2: E2 = P): Pick named: Named }
type Mutation { add(s: Sub!, l: Lone): Int set(f: [Filter]): Boolean! }
type Subscription { tick(e: E): Int }
"#;

const OPS: &[&str] = &[
    r#"{ item(id: "1") { tags } }"#,
    r#"query($i: ID!, $n: Int!) { item(id: $i, n: $n) { id name } }"#,
    r#"query($f: Filter) { item(id: 1, f: $f, m: 3) { other { when e } } }"#,
    r#"{ item(id: 1, f: {a: 1, e: B, sub: {x: 1, es: [P, Q]}}) { id(x: 2, y: 1) } }"#,
    r#"{ item(id: 1, f: {a: 1, subs: [{es: Q}, {back: {a: 2, e: C}}]}) { name(len: 1) } }"#,
    r#"{ node { id rel { id rel { id(x: 1) } } } }"#,
    r#"query($e: E! = C) { node(e: $e) { rel(kind: A) { id } } }"#,
    r#"{ node(on: "x") { ... on Item { tags name } ... on Other { e } } }"#,
    r#"{ node { ...n } } fragment n on Node { id ...i } fragment i on Item { other { ...o } } fragment o on Other { when }"#,
    r#"{ item(id: 1) { ... on Node { id } ... on Named { name } ... { tags } } }"#,
    r#"{ item(id: 1) { pick { ... on Solo { b } ...x } ... on Pick { ... on Item { id } } } } fragment x on Other { id }"#,
    r#"query($s: Sub, $f: Filter = {a: 1, e: A}) { item(id: 1) { pick(f: $f) { ... on Solo { a b(s: $s) } } } }"#,
    r#"query($l: [Int] = [1]) { list(l: $l) { id } }"#,
    r#"query($ls: [[Filter!]] = [[{a: 1, sub: {es: [Q]}}]]) { list(ls: $ls) { a: id b: id(x: 3) } }"#,
    r#"{ list(l: [1, 2], ls: []) { tags __typename } }"#,
    r#"{ pick { __typename ... on Solo { a } ... on Item { rel(kind: C) { __typename } } } }"#,
    r#"query($e: E2) { pick(e2: $e) { ... on Solo { __typename } } named { name ... on Item { id } } }"#,
    r#"mutation($s: Sub!) { add(s: $s) }"#,
    r#"mutation { add(s: {es: P}, l: {x: 1, y: B}) set(f: [{a: 1, e: C}]) }"#,
    r#"mutation($l: Lone) { add(s: {}, l: $l) set }"#,
    r#"subscription { tick(e: A) }"#,
    r#"subscription($e: E = B) { tick(e: $e) }"#,
];

static EDITED: LazyLock<(Doc, Vec<Doc>)> = LazyLock::new(|| {
    let d = doc(BASE);
    let e = edits(&d);
    (d, e)
});

static RELATED: LazyLock<(Doc, Vec<Doc>)> = LazyLock::new(|| {
    let d = doc(
        "type Query { u: U i: I j: J a: A } union U = A | B  interface I { x: Int } interface J { y: Int } \
         type A implements I & J { x: Int y: Int a: Int } type B implements I { x: Int b: Int } type C implements J { y: Int } \
         union V = A | C type Spare { z: Int } type Uses { v: V c: C }",
    );
    let e = edits(&d);
    (d, e)
});

fn every_edit(c: &mut Case, pairs: bool) {
    let (base, first) = &*EDITED;
    let t = first[c.choose(first.len())].clone();
    let t = if pairs {
        let second = edits(&t);
        second[c.choose(second.len())].clone()
    } else {
        t
    };
    let ops = if c.flag() {
        // no operation, or all of them
        if c.flag() { OPS.iter().map(|o| (o.to_string(), 1)).collect() } else { vec![] }
    } else {
        vec![(OPS[c.choose(OPS.len())].to_string(), 1)]
    };
    judge(c, base, &t, &ops, None, How { split: false, works: true });
}

/// Adding is an edit too: from every edited schema back to the base, with its operations.
fn every_edit_back(c: &mut Case) {
    let (base, first) = &*EDITED;
    let s = first[c.choose(first.len())].clone();
    let o = OPS[c.choose(OPS.len())];
    if !Works::check(base, &s, &op(o).doc).is_empty() {
        c.skip(); // not an operation on that schema
    }
    judge(c, &s, base, &[(o.to_string(), 1)], None, How { split: true, works: true });
}

/// One argument, any type and default to any other, and each way of giving or leaving it.
fn argument(c: &mut Case) {
    let types = ["X", "X!", "[X]", "[X!]", "[X]!", "[X!]!", "[[X]]", "[[X!]]", "[[X!]!]!"];
    let pick = |c: &mut Case| -> Option<(String, bool)> {
        let t = c.pick(&types).replace('X', *c.pick(&["Int", "In"]));
        Some((t, c.flag()))
    };
    let side = |c: &mut Case| if c.choose(8) == 0 { None } else { pick(c) };
    let kind = *c.pick(&[Kind::Object, Kind::Interface]);
    let (a, b) = (side(c), side(c));
    let mk = |a: &Option<(String, bool)>| {
        let mut d = doc("type Query { o: O } input In { v: Int w: In } type Z { z: Int } interface Y { y: Int }");
        let mut o = ty(kind, &[("before", "Int"), ("f", "Int"), ("g", "Int")]);
        let f = o.fields.get_mut("f").unwrap();
        f.args.insert("k".into(), input("Int! = 1"));
        f.args.insert("z".into(), input("Int"));
        if let Some((t, def)) = a {
            let v = if base(t) == "Int" { "1" } else { "{v: 1}" };
            f.args.insert("m".into(), Field { ty: t.clone(), default: def.then(|| v.to_string()), ..Field::default() });
        }
        d.types.insert("O".into(), o);
        d
    };
    let o = match &a {
        None => *c.pick(&["{ o { before } }", "{ o { f } }", "{ o { f(k: 2) } }"]),
        Some((t, def)) => {
            let v = if base(t) == "Int" { "1" } else { "{v: 1}" };
            let mut ways = vec![format!("{{ o {{ f(m: {v}) }} }}"), format!("query($m: {t}) {{ o {{ f(m: $m, z: 1) }} }}"), "{ o { g } }".into()];
            if !nonnull(t) {
                ways.push("{ o { f(m: null) } }".into());
            }
            if !nonnull(t) || *def {
                ways.push("{ o { f } }".into());
            }
            let w = ways[c.choose(ways.len())].clone();
            return judge(c, &mk(&a), &mk(&b), &[(w, 1)], None, How { split: false, works: true });
        }
    };
    judge(c, &mk(&a), &mk(&b), &[(o.to_string(), 1)], None, How { split: false, works: true });
}

/// Elements are found by name: every arrangement of types, fields and arguments on both sides.
fn lookup(c: &mut Case) {
    let names = ["A", "B"];
    let iface = c.flag();
    let side = |c: &mut Case, n: usize| {
        let mut d = doc("type Query { a: A b: B }");
        for t in names {
            let k = if iface && t == "A" { Kind::Interface } else { Kind::Object };
            let mut x = ty(k, &[("s", "Int")]);
            for f in ["f", "g"] {
                let i = c.choose(n);
                if i == 0 {
                    continue;
                }
                let mut y = input("Int");
                if let Some(a) = [None, Some("Int! = 1"), Some("Int"), Some("Int!")][i - 1] {
                    y.args.insert("x".into(), input(a));
                }
                x.fields.insert(f.into(), y);
            }
            d.types.insert(t.into(), x);
        }
        d
    };
    let n = if c.thorough() { 5 } else { 4 };
    let (s, t) = (side(c, n), side(c, n));
    let give = c.flag();
    let mut sel = String::new();
    for (root, ty) in [("a", "A"), ("b", "B")] {
        let mut sub = String::from("s");
        for (f, def) in &s.types[ty].fields {
            sub.push(' ');
            sub.push_str(f);
            if let Some(x) = def.args.get("x") {
                if give || (nonnull(&x.ty) && x.default.is_none()) {
                    sub.push_str("(x: 1)");
                }
            }
        }
        sel.push_str(&format!("{root} {{ {sub} }} "));
    }
    judge(c, &s, &t, &[(format!("{{ {sel} }}"), 1)], None, How { split: false, works: true });
}

/// Fragments: how types are related by type conditions, spelled inline or as a named fragment,
/// nested, and every way in which those relations can go.
fn fragments(c: &mut Case) {
    let (base, first) = &*RELATED;
    let t = first[c.choose(first.len())].clone();
    let types = ["U", "I", "J", "A", "B", "V"];
    let leaf = |t: &str| match t {
        "U" | "V" => "__typename",
        "I" | "B" => "x",
        "J" => "y",
        _ => "a",
    };
    let (field, mut at) = *c.pick(&[("u", "U"), ("i", "I"), ("j", "J"), ("a", "A")]);
    let depth = 1 + c.choose(if c.thorough() { 3 } else { 2 });
    let mut path = Vec::new();
    for _ in 0..depth {
        let on = *c.pick(&types);
        if overlap(base, at, on) {
            path.push((on, c.choose(3)));
            at = on;
        } else {
            c.skip();
        }
    }
    let mut inner = leaf(at).to_string();
    let mut frags = String::new();
    for (i, (on, how)) in path.iter().enumerate().rev() {
        inner = match how {
            0 => format!("... on {on} {{ {inner} }}"),
            1 => {
                frags.push_str(&format!(" fragment f{i} on {on} {{ {inner} }}"));
                format!("...f{i}")
            }
            _ => format!("... {{ __typename ... on {on} {{ {inner} }} }}"),
        };
    }
    judge(c, base, &t, &[(format!("{{ {field} {{ {inner} }} }}{frags}"), 1)], None, How { split: false, works: true });
}

fn overlap(d: &Doc, a: &str, b: &str) -> bool {
    !possible(d, a).is_disjoint(&possible(d, b))
}

/// Enum values wherever a value can be, and each value removed.
fn enum_values(c: &mut Case) {
    let base = doc(
        "enum E { A B C } input In { e: E es: [E!] ess: [[E]] in: In ins: [In!] p: P } enum P { A B } \
         type Query { f(e: E, es: [E], ess: [[E!]!], in: In, ins: [In], p: P): Int g(in: In): T } type T { h(e: E, p: P): Int t(in: In): T }",
    );
    let e = *c.pick(&["E", "P"]);
    let v = *c.pick(&["A", "B", "C"]);
    if !base.types[e].fields.contains_key(v) {
        c.skip();
    }
    let mut t = base.clone();
    t.types.get_mut(e).unwrap().fields.remove(v);
    // a value of type In holding an enum value
    fn object(c: &mut Case, depth: usize) -> String {
        let (x, p) = (*c.pick(&["A", "B"]), *c.pick(&["A", "B"]));
        match c.choose(if depth == 0 { 4 } else { 6 }) {
            0 => format!("{{e: {x}}}"),
            1 => format!("{{es: [{x}, C]}}"),
            2 => format!("{{ess: [[{x}], null, C]}}"),
            3 => format!("{{p: {p}}}"),
            4 => format!("{{in: {}}}", object(c, depth - 1)),
            _ => format!("{{ins: [{{}}, {}]}}", object(c, depth - 1)),
        }
    }
    let depth = if c.thorough() { 3 } else { 2 };
    let (ty, value): (&str, String) = match c.choose(6) {
        0 => ("E", c.pick(&["A", "B"]).to_string()),
        1 => ("[E]", c.pick(&["A", "[B, C]", "[null, A]"]).to_string()),
        2 => ("[[E!]!]", c.pick(&["A", "[B, C]", "[[C], [A, B]]", "[]"]).to_string()),
        3 => ("P", c.pick(&["A", "B"]).to_string()),
        4 => ("In", object(c, depth)),
        _ => ("[In]", format!("[{}, null]", object(c, depth - 1))),
    };
    let arg = match ty {
        "E" => "e",
        "[E]" => "es",
        "[[E!]!]" => "ess",
        "P" => "p",
        "In" => "in",
        _ => "ins",
    };
    let ways = if ty == "In" { 6 } else if ty == "E" || ty == "P" { 4 } else { 3 };
    let o = match c.choose(ways) {
        0 => format!("{{ f({arg}: {value}) }}"),
        1 => format!("query($v: {ty} = {value}) {{ f({arg}: $v) }}"),
        2 => format!("query($v: {ty}) {{ f({arg}: $v) }}"),
        3 if ty == "In" => format!("{{ g(in: {value}) {{ h }} }}"),
        3 => format!("{{ g {{ h({arg}: {value}) }} }}"),
        4 => format!("{{ g {{ t(in: {value}) {{ ...x }} }} }} fragment x on T {{ h }}"),
        _ => format!("query($w: Int, $v: [In!]! = [{value}]) {{ f(ins: $v) }}"),
    };
    judge(c, &base, &t, &[(o, 1)], None, How { split: false, works: true });
}

/// Input types reach each other in every way; which are in use follows from the arguments.
fn input_graph(c: &mut Case) {
    let names = ["I0", "I1", "I2"];
    let mut s = doc("type Query { f(i0: I0, i1: [I1!], i2: I2): Int g: Int }");
    for (i, n) in names.iter().enumerate() {
        let mut t = ty(Kind::Input, &[("v", "Int"), ("r", "Int! = 1")]);
        for (j, m) in names.iter().enumerate() {
            if c.flag() {
                let w = ["X", "[X]", "[[X!]!]"][(i + j) % 3].replace('X', m);
                t.fields.insert(format!("to{j}"), input(&w));
            }
        }
        s.types.insert(n.to_string(), t);
    }
    let mut t = s.clone();
    let x = t.types.get_mut(*c.pick(&names)).unwrap();
    match c.choose(6) {
        0 => drop(x.fields.remove("v")),
        1 => drop(x.fields.remove("r")),
        2 => x.fields.get_mut("v").unwrap().ty = "Int!".into(),
        3 => x.fields.get_mut("v").unwrap().ty = "[Int]".into(),
        4 => drop(x.fields.insert("new".into(), input("Int!"))),
        _ => x.fields.get_mut("r").unwrap().ty = "Int".into(),
    }
    let used = c.subset(&[("i0", "I0"), ("i1", "[I1!]"), ("i2", "I2")]);
    let o = if used.is_empty() {
        "{ f }".to_string()
    } else {
        let v: Vec<String> = used.iter().map(|(a, t)| format!("${a}: {t}")).collect();
        let a: Vec<String> = used.iter().map(|(a, _)| format!("{a}: ${a}")).collect();
        format!("query({}) {{ f({}) }}", v.join(", "), a.join(", "))
    };
    let split = c.flag();
    judge(c, &s, &t, &[(o, 1)], None, How { split, works: true });
}

/// Histories of operations with request counts, and the threshold below which they do not count.
fn counts(c: &mut Case) {
    let base = doc(
        "enum E { A B } input In { v: Int e: E } interface I { x: Int } type T implements I { x: Int t(n: Int! = 1): Int } \
         type B implements I & J { x: Int } type N implements I { x: Int } interface J { x: Int } union U = T | B | N \
         type Query { i: I u: U f(e: E, in: In): Int }",
    );
    let ops = [
        "{ i { x ... on T { t } } }",
        "{ u { ...t } } fragment t on T { t(n: 2) x }",
        "{ f(e: A) }",
        "query($in: In, $e: E = B) { f(in: $in, e: $e) }",
        "{ i { ... on J { x } } }",
        "{ u { ... on N { x } } }",
    ];
    let targets: [(&str, &str); 11] = [
        ("T implements I {", "T {"),
        ("t(n: Int! = 1): Int", ""),
        ("t(n: Int! = 1)", "t(n: Int!)"),
        ("t(n: Int! = 1)", "t"),
        ("U = T | B", "U = B"),
        ("J", ""),
        ("N", ""),
        ("E { A B }", "E { B }"),
        ("E { A B }", "E { A }"),
        ("in: In", "other: In"),
        ("In { v: Int", "In {"),
    ];
    let (from, to) = targets[c.choose(targets.len())];
    let mut t = base.clone();
    match from {
        "T implements I {" => drop(t.types.get_mut("T").unwrap().implements.remove("I")),
        "t(n: Int! = 1): Int" => drop(t.types.get_mut("T").unwrap().fields.remove("t")),
        "t(n: Int! = 1)" => {
            let f = t.types.get_mut("T").unwrap().fields.get_mut("t").unwrap();
            if to == "t" { drop(f.args.remove("n")) } else { f.args.get_mut("n").unwrap().default = None }
        }
        "U = T | B" => drop(t.types.get_mut("U").unwrap().members.remove("T")),
        "J" => {
            t.types.remove("J");
            t.types.get_mut("B").unwrap().implements.remove("J");
        }
        "N" => {
            t.types.remove("N");
            t.types.get_mut("U").unwrap().members.remove("N");
        }
        "E { A B }" => drop(t.types.get_mut("E").unwrap().fields.remove(if to == "E { B }" { "A" } else { "B" })),
        "in: In" => {
            let f = t.types.get_mut("Query").unwrap().fields.get_mut("f").unwrap();
            let x = f.args.remove("in").unwrap();
            f.args.insert("other".into(), x);
        }
        _ => drop(t.types.get_mut("In").unwrap().fields.remove("v")),
    }
    let n = c.choose(4);
    let history: Vec<(String, u64)> = (0..n).map(|i| (c.pick(&ops).to_string(), [1, 2, 5][c.choose(if i < 2 { 3 } else { 1 })])).collect();
    let threshold = [None, Some(0), Some(1), Some(2), Some(3), Some(5), Some(6)][c.choose(7)];
    judge(c, &base, &t, &history, threshold, How::default());
}

/// A field's type, on an object, an interface and an input object, to any other.
fn field_type(c: &mut Case) {
    let wraps = ["X", "X!", "[X]", "[X!]", "[X]!", "[X!]!", "[[X]]", "[[X!]]", "[[X]!]", "[[X!]!]!"];
    let kind = *c.pick(&[Kind::Object, Kind::Interface, Kind::Input]);
    let bases: &[&str] = if kind == Kind::Input { &["Int", "In"] } else { &["Int", "O"] };
    let one = |c: &mut Case| {
        let t = c.pick(&wraps).replace('X', *c.pick(bases));
        let mut d = doc("type Query { o: O i(in: In): Int } input In { v: Int }");
        d.types.insert("O".into(), ty(if kind == Kind::Interface { kind } else { Kind::Object }, &[("v", "Int")]));
        let owner = if kind == Kind::Input { "In" } else { "O" };
        let def = if kind == Kind::Input { c.pick(&["", "=[]"]).to_string() } else { String::new() };
        let def = if base(&t) == "Int" && !t.starts_with('[') { def.replace("[]", "1") } else { def };
        let def = if base(&t) == "In" && !t.starts_with('[') { String::new() } else { def };
        d.types.get_mut(owner).unwrap().fields.insert("f".into(), input(&format!("{t}{def}")));
        d
    };
    let (s, t) = (one(c), one(c));
    let o = match kind {
        Kind::Input => *c.pick(&["query($in: In) { i(in: $in) }", "{ i }", "{ o { v } }"]),
        _ if base(&s.types["O"].fields["f"].ty) == "O" => *c.pick(&["{ o { f { v } } }", "{ o { v } }"]),
        _ => *c.pick(&["{ o { f } }", "{ o { v } }"]),
    };
    judge(c, &s, &t, &[(o.to_string(), 1)], None, How { split: false, works: true });
}

/// Root types: which exist, how they are named, on both sides.
fn roots(c: &mut Case) {
    let named = c.flag();
    let (m, su) = if named { ("M", "S") } else { ("Mutation", "Subscription") };
    let q = if named { "Q" } else { "Query" };
    let side = |with_m: bool, with_s: bool, fields: &str| {
        let mut d = doc(&format!("type {q} {{ a: Int }} type Extra {{ x: Int }}"));
        let mut r = Roots { query: Some(q.into()), ..Roots::default() };
        if with_m {
            d.types.insert(m.into(), ty(Kind::Object, &[("a", "Int"), (fields, "Int")]));
            r.mutation = Some(m.into());
        }
        if with_s {
            d.types.insert(su.into(), ty(Kind::Object, &[("a", "Int"), (fields, "Int")]));
            r.subscription = Some(su.into());
        }
        d.schema = named.then_some(r);
        d
    };
    let (a, b) = (*c.pick(&["f", "g"]), *c.pick(&["f", "g"]));
    let s = side(c.flag(), c.flag(), a);
    let t = side(c.flag(), c.flag(), b);
    let kind = *c.pick(&["query", "mutation", "subscription"]);
    let used = *c.pick(&["a", a]);
    let exists = match kind {
        "query" => used == "a",
        "mutation" => s.types.contains_key(m),
        _ => s.types.contains_key(su),
    };
    if !exists {
        c.skip();
    }
    let split = c.flag();
    judge(c, &s, &t, &[(format!("{kind} {{ {used} }}"), 1)], None, How { split, works: true });
}

/// A type turned into one of another kind, used as the type of a field, of an argument, in an
/// input object, as the root, or in a fragment.
fn kinds(c: &mut Case) {
    let kinds = [Kind::Scalar, Kind::Object, Kind::Interface, Kind::Union, Kind::Enum, Kind::Input];
    let place = c.choose(4);
    let side = |c: &mut Case| {
        let k = *c.pick(match place {
            0 => &kinds[..5],
            1 => &[Kind::Scalar, Kind::Enum, Kind::Input],
            2 => &[Kind::Object, Kind::Interface],
            _ => &[Kind::Object, Kind::Interface, Kind::Union],
        });
        let mut d = doc(match place {
            0 => "type Query { x: X y: Int } type A { v: Int } type S { y: Int }",
            1 => "type Query { x(x: X): Int z(in: In): Int y: Int } input In { v: Int x: [X!] } type A { v: Int } type S { y: Int }",
            2 => "schema { query: Query mutation: X } type Query { y: Int } type A { v: Int }",
            _ => "type Query { u: U y: Int } union U = A | S type A { v: Int } type S { y: Int }",
        });
        let members: &[(&str, &str)] = match k {
            Kind::Enum => &[("P", "")],
            Kind::Union | Kind::Scalar => &[],
            _ => &[("v", "Int")],
        };
        let mut t = ty(k, members);
        if k == Kind::Union {
            t.members.insert("A".into());
        }
        if k == Kind::Interface {
            d.types.get_mut("A").unwrap().implements.insert("X".into());
        }
        if k == Kind::Object && place == 3 {
            d.types.get_mut("U").unwrap().members.insert("X".into());
        }
        d.types.insert("X".into(), t);
        (d, k)
    };
    let ((s, k), (t, _)) = (side(c), side(c));
    let o = match (place, k) {
        (1, _) => *c.pick(&["query($x: X) { x(x: $x) }", "query($in: In) { z(in: $in) }", "{ x z }", "{ y }"]),
        (2, Kind::Object) => *c.pick(&["mutation { v }", "{ y }"]),
        (2, _) => "{ y }",
        (3, Kind::Union) => *c.pick(&["{ u { ... on X { __typename } } }", "{ u { ... on A { v } } }", "{ y }"]),
        (3, _) => *c.pick(&["{ u { ... on X { v } } }", "{ u { ... on A { v } } }", "{ y }"]),
        (_, Kind::Scalar | Kind::Enum) => *c.pick(&["{ x }", "{ y }"]),
        (_, Kind::Union) => *c.pick(&["{ x { __typename } }", "{ x { ... on A { v } } }", "{ y }"]),
        (_, Kind::Interface) => *c.pick(&["{ x { __typename v } }", "{ x { ... on A { v } } }", "{ y }"]),
        _ => *c.pick(&["{ x { v } }", "{ x { __typename } }", "{ y }"]),
    };
    let ops = if c.flag() { vec![(o.to_string(), 1)] } else { vec![] };
    let split = c.flag();
    judge(c, &s, &t, &ops, None, How { split, works: true });
}

/// Many elements of one kind, one of them edited, and many operations.
fn sizes(c: &mut Case) {
    let n = *c.pick(if c.thorough() { &[3usize, 17, 65, 260, 1030][..] } else { &[3usize, 17, 65, 260][..] });
    let at = *c.pick(&[0, 1, n / 2, n - 2, n - 1]);
    let used = *c.pick(&[0, n / 2, n - 1]);
    let edit = c.choose(4);
    let shape = c.choose(6);
    let name = |i: usize| format!("m{i:05}");
    let list = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(" ");
    let (s, ops) = match shape {
        0 => (format!("type Query {{ z: Int {} }}", list(&|i| format!("{}(a: Int): Int", name(i)))), vec![format!("{{ {}(a: 1) }}", name(used))]),
        1 => (
            format!("type Query {{ z: Int f({}): Int }}", list(&|i| format!("{}: Int", name(i)))),
            vec![format!("{{ f({}: 1) }}", name(used)), format!("query($v: Int) {{ f({}: $v) }}", name(used))],
        ),
        2 => (format!("type Query {{ z: Int {} }} {}", list(&|i| format!("{}: T{}", name(i), name(i))), list(&|i| format!("type T{} {{ a(a: Int): Int b: Int }}", name(i)))), vec![format!("{{ {} {{ a(a: 2) }} }}", name(used))]),
        3 => (format!("type Query {{ z: Int f(e: E = {}): E }} enum E {{ {} }}", name(0), list(&name)), vec![format!("{{ f(e: {}) }}", name(used)), "{ z }".to_string()]),
        4 => (format!("type Query {{ z: Int f(i: I): Int }} input I {{ {} }}", list(&|i| format!("{}: Int", name(i)))), vec![format!("{{ f(i: {{ {}: 1 }}) }}", name(used)), "query($i: I) { f(i: $i) }".to_string()]),
        _ => {
            // one operation per field
            (format!("type Query {{ z: Int {} }}", list(&|i| format!("{}(a: Int): Int", name(i)))), (0..n).filter(|i| *i != used).map(|i| format!("{{ {}(a: 1) }}", name(i))).collect())
        }
    };
    let s = doc(&s);
    let mut t = s.clone();
    let m = name(at);
    match shape {
        0 | 5 => {
            let fs = &mut t.types.get_mut("Query").unwrap().fields;
            match edit {
                0 => drop(fs.remove(&m)),
                1 => fs.get_mut(&m).unwrap().ty = "String".into(),
                2 => fs.get_mut(&m).unwrap().args.clear(),
                _ => drop(fs.get_mut(&m).unwrap().args.insert("b".into(), input("Int!"))),
            }
        }
        1 => {
            let args = &mut t.types.get_mut("Query").unwrap().fields.get_mut("f").unwrap().args;
            match edit {
                0 => drop(args.remove(&m)),
                1 => args.get_mut(&m).unwrap().ty = "Int!".into(),
                2 => args.get_mut(&m).unwrap().ty = "String".into(),
                _ => args.get_mut(&m).unwrap().default = Some("1".into()),
            }
        }
        2 => {
            let ty = t.types.get_mut(&format!("T{m}")).unwrap();
            match edit {
                0 => drop(ty.fields.remove("a")),
                1 => ty.fields.get_mut("a").unwrap().ty = "String".into(),
                2 => drop(ty.fields.remove("b")),
                _ => ty.fields.get_mut("a").unwrap().args.clear(),
            }
        }
        3 => match edit {
            0 => drop(t.types.get_mut("E").unwrap().fields.remove(&m)),
            1 => drop(t.types.get_mut("E").unwrap().fields.insert("zz".into(), Field::default())),
            _ => c.skip(),
        },
        _ => {
            let fs = &mut t.types.get_mut("I").unwrap().fields;
            match edit {
                0 => drop(fs.remove(&m)),
                1 => fs.get_mut(&m).unwrap().ty = "Int!".into(),
                2 => fs.get_mut(&m).unwrap().ty = "String".into(),
                _ => drop(fs.insert("zz".into(), input("Int!"))),
            }
        }
    }
    let ops: Vec<(String, u64)> = match shape {
        5 => ops.into_iter().map(|o| (o, 2)).collect(),
        _ => vec![(c.pick(&ops).clone(), 1)],
    };
    let split = c.flag();
    let threshold = if shape == 5 { *c.pick(&[None, Some(2), Some(3)]) } else { None };
    judge(c, &s, &t, &ops, threshold, How { split, works: n < 100 });
}

pub fn c14(ck: &Check) {
    ck.assume("operations are valid on the source schema; one operation per document; values of variables are not known");
    ck.space("every edit of a schema x operations", |c| every_edit(c, false));
    ck.space("from every edited schema back", every_edit_back);
    ck.space("one argument: any type to any type", argument);
    ck.space("one field: any type to any type", field_type);
    ck.space("arrangements of types, fields and arguments", lookup);
    ck.space("type conditions and the relations they need", fragments);
    ck.space("enum values in every position", enum_values);
    ck.space("graphs of input types", input_graph);
    ck.space("request counts and thresholds", counts);
    ck.space("root types", roots);
    ck.space("types changing kind", kinds);
    ck.space("sizes", sizes);
    if ck.thorough() {
        ck.space("every pair of edits of a schema x operations", |c| every_edit(c, true));
    }
}
