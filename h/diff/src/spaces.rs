use std::collections::BTreeMap;

use graphql_schema_diff::{ChangeKind, diff, patch, resolve_spans};
use sdl::{DirDef, Doc, Field, Kind, Roots, Ty};
use vmc::{Case, Check};

use crate::model::*;

#[derive(Clone, Copy, PartialEq)]
enum What {
    Diff,
    Patch,
}

fn with(mut t: Ty, members: &[(&str, &str)]) -> Ty {
    for (n, d) in members {
        match t.kind {
            Kind::Union => {
                t.members.insert(n.to_string());
            }
            _ => {
                let (ty, default) = match d.split_once('=') {
                    Some((a, b)) => (a.trim(), Some(b.trim().to_string())),
                    None => (*d, None),
                };
                t.fields.insert(n.to_string(), Field { ty: ty.into(), default, ..Field::default() });
            }
        }
    }
    t
}

fn with_arg(mut t: Ty, f: &str, a: &str, ty: &str) -> Ty {
    let v = with(crate::model::ty(Kind::Input), &[(a, ty)]).fields.remove(a).unwrap();
    t.fields.get_mut(f).unwrap().args.insert(a.into(), v);
    t
}

fn implementing(mut t: Ty, i: &[&str]) -> Ty {
    t.implements = i.iter().map(|s| s.to_string()).collect();
    t
}

fn doc(types: &[(&str, Option<Ty>)]) -> Doc {
    Doc {
        types: types.iter().filter_map(|(n, t)| t.clone().map(|t| (n.to_string(), t))).collect(),
        ..Doc::default()
    }
}

/// Runs the real diff (and patch) from `a` to `b` and compares with the model.
fn judge(c: &mut Case, what: What, a: &Doc, la: &Layout, b: &Doc, lb: &Layout) {
    let (src, tgt) = (render(a, la), render(b, lb));
    c.note(|| format!("source: {src}\n   | target: {tgt}"));
    let changes = match vmc::guarded(|| diff(&src, &tgt)) {
        Err(p) => return c.fail("diff-panic", p),
        Ok(Err(e)) => panic!("vmc: the harness renders invalid SDL: {e}\n{src}\n{tgt}"),
        Ok(Ok(x)) => x,
    };
    let resolved: Vec<&str> = match vmc::guarded(|| resolve_spans(&src, &tgt, &changes).collect()) {
        Err(p) => return c.fail("resolve-panic", p),
        Ok(x) => x,
    };
    c.outcome(&changes.iter().map(|c| (c.path.clone(), c.kind.as_str())).collect::<Vec<_>>());
    if changes.is_empty() {
        c.trivial();
    }
    if what == What::Diff {
        let mut want = expected(a, b, lb);
        let exts = a.schema_extensions.len().abs_diff(b.schema_extensions.len());
        let got_exts = changes.iter().filter(|c| matches!(c.kind, ChangeKind::AddSchemaExtension | ChangeKind::RemoveSchemaExtension)).count();
        c.check(exts == got_exts, "schema-extensions", || format!("{got_exts} schema extension changes for {exts}"));
        let mut seen = BTreeMap::new();
        for (ch, text) in changes.iter().zip(&resolved) {
            c.steps(1);
            let ext = matches!(ch.kind, ChangeKind::AddSchemaExtension | ChangeKind::RemoveSchemaExtension);
            if ext {
                continue;
            }
            if seen.insert((ch.path.clone(), ch.kind), ()).is_some() {
                c.fail("duplicate-change", format!("{} {} reported twice", ch.kind.as_str(), ch.path));
            }
            match want.remove(&(ch.path.clone(), ch.kind)) {
                None => c.fail(format!("unexpected-{}", ch.kind.as_str()), format!("{} {} is reported but nothing like it changed", ch.kind.as_str(), ch.path)),
                Some(Some(t)) => {
                    if clean(text) != clean(&t) {
                        c.fail(format!("text-{}", ch.kind.as_str()), format!("{} {} resolves to {text:?}, expected {t:?}", ch.kind.as_str(), ch.path));
                    }
                }
                Some(None) => {}
            }
            if let Err(_) = graphql_schema_diff::path::Path::parse(&ch.path) {
                c.fail("path", format!("{} is not a path", ch.path));
            }
        }
        for ((p, k), _) in want {
            if !matches!(k, ChangeKind::AddSchemaExtension | ChangeKind::RemoveSchemaExtension) {
                c.fail(format!("missing-{}", k.as_str()), format!("{} {p} is not reported", k.as_str()));
            }
        }
        let mut sorted = changes.clone();
        sorted.sort();
        c.check(sorted == changes, "unsorted", || "the changes are not sorted".into());
        return;
    }
    let patched_sdl = match vmc::guarded(|| patch(&src, &changes, &resolved)) {
        Err(p) => return c.fail("patch-panic", p),
        Ok(Err(e)) => return c.fail("patch-error", format!("patching fails: {e}")),
        Ok(Ok(p)) => p.into_schema(),
    };
    c.steps(1);
    let view = match sdl::parse(&patched_sdl) {
        Ok(v) => v,
        Err(e) => return c.fail("patched-invalid", format!("the patched document is invalid: {e}\n{patched_sdl}")),
    };
    let mut want = patched(a, b);
    let mut got = view;
    // The change that adds a type carries the text of its definition, which leaves out its extensions.
    let cut = b.types.keys().any(|n| a.types.get(n).is_none_or(|t| t.kind != b.types[n].kind) && lb.extended.iter().any(|e| e.starts_with(&format!("{n}."))));
    let suffix = if cut { "-of-added-type-with-extensions" } else { "" };
    if !c.check(got.schema_extensions.len() == want.schema_extensions.len(), "patched-extensions", || {
        format!("the patched document has {} schema extensions instead of {}\n{patched_sdl}", got.schema_extensions.len(), want.schema_extensions.len())
    }) {
        return;
    }
    got.schema_extensions.clear();
    want.schema_extensions.clear();
    if let Some(d) = want.difference(&got) {
        return c.fail(format!("patched-differs{suffix}"), format!("the patched document differs from the target:{d}\n{patched_sdl}"));
    }
    match vmc::guarded(|| diff(&patched_sdl, &tgt)) {
        Ok(Ok(v)) if v.is_empty() => {}
        r => c.fail(format!("patched-diff{suffix}"), format!("diff(patched, target) = {r:?}\n{patched_sdl}")),
    }
}

fn clean(s: &str) -> String {
    // a default value may be reported with its equal sign
    // and what separates an argument from the next one may be reported with it
    let s = s.replace(" # c ) , \n", " ");
    let s = s.split_whitespace().collect::<Vec<_>>().join(" ");
    s.trim_matches(|c: char| c == ',' || c.is_whitespace()).trim_start_matches('=').trim().to_string()
}

fn bodies() -> Vec<Option<Ty>> {
    use Kind::*;
    let o = |k| with(ty(k), &[("a", "Int")]);
    vec![
        None,
        Some(ty(Scalar)),
        Some(ty(Object)),
        Some(ty(Interface)),
        Some(ty(Enum)),
        Some(ty(Input)),
        Some(ty(Union)),
        Some(implementing(ty(Object), &["I", "J"])),
        Some(o(Object)),
        Some(with(o(Object), &[("b", "String!")])),
        Some(with(ty(Object), &[("a", "[Int!]!")])),
        Some(implementing(o(Object), &["I"])),
        Some(with_arg(o(Object), "a", "x", "Int")),
        Some(o(Interface)),
        Some(implementing(o(Interface), &["I"])),
        Some(with_arg(o(Interface), "a", "x", "Int! = 3")),
        Some(with(ty(Interface), &[("b", "Int")])),
        Some(with(ty(Union), &[("A", "")])),
        Some(with(ty(Union), &[("A", ""), ("B", "")])),
        Some(with(ty(Union), &[("B", "")])),
        Some(with(ty(Enum), &[("a", "")])),
        Some(with(ty(Enum), &[("a", ""), ("b", "")])),
        Some(with(ty(Enum), &[("b", "")])),
        Some(o(Input)),
        Some(with(ty(Input), &[("a", "Int = 1")])),
        Some(with(ty(Input), &[("a", "Int"), ("b", "[String!] = [\"}\",\"x\"]")])),
        Some(with(ty(Input), &[("b", "Int")])),
    ]
}

fn arg_options() -> Vec<Option<&'static str>> {
    vec![None, Some("Int"), Some("Int!"), Some("Int = 1"), Some("Int = 2"), Some("[Int] = [1,2]")]
}

fn decor(c: &mut Case) -> Decor {
    Decor { desc: c.flag(), dirs: c.flag() }
}

fn run(ck: &Check, what: What) {
    let thorough = ck.thorough();
    let l = Layout::default();
    let bodies = bodies();

    ck.space("kinds", |c| {
        let dec = decor(c);
        let mut docs = [Doc::default(), Doc::default()];
        for d in &mut docs {
            *d = doc(&[("T", c.pick(&bodies).clone())]);
            if c.thorough() {
                d.types.extend(doc(&[("U", c.pick(&bodies).clone())]).types);
            }
            decorate(d, dec);
        }
        judge(c, what, &docs[0], &l, &docs[1], &l);
    });

    ck.space("two types", |c| {
        let mut docs = [Doc::default(), Doc::default()];
        let n = if c.thorough() { bodies.len() } else { 12 };
        for d in &mut docs {
            *d = doc(&[("T", bodies[c.choose(bodies.len())].clone()), ("Ta", bodies[bodies.len() - 1 - c.choose(n)].clone())]);
        }
        judge(c, what, &docs[0], &l, &docs[1], &l);
    });

    ck.space("fields and arguments", |c| {
        let kind = *c.pick(&[Kind::Object, Kind::Interface]);
        let dec = if c.flag() { Decor { desc: true, dirs: true } } else { Decor::default() };
        let mut docs = [Doc::default(), Doc::default()];
        for d in &mut docs {
            let mut t = ty(kind);
            let a = c.choose(4);
            if a > 0 {
                t = with(t, &[("a", ["Int", "String!", "[Int]"][a - 1])]);
                if let Some(x) = c.pick(&arg_options()) {
                    t = with_arg(t, "a", "x", x);
                }
                if let Some(y) = c.pick(&[None, Some("Int"), Some("String = \"s)\"")]) {
                    t = with_arg(t, "a", "y", y);
                }
            }
            match c.choose(3) {
                0 => {}
                1 => t = with(t, &[("b", "Int")]),
                _ => t = with_arg(with(t, &[("b", "[String]!")]), "b", "x", "Int"),
            }
            *d = doc(&[("T", Some(t))]);
            decorate(d, dec);
        }
        if docs.iter().any(|d| d.types["T"].fields.is_empty()) {
            c.skip();
        }
        judge(c, what, &docs[0], &l, &docs[1], &l);
    });

    ck.space("three arguments", |c| {
        let dec = if c.flag() { Decor { desc: true, dirs: true } } else { Decor::default() };
        let l = Layout { arg_sep: *c.pick(&[", ", " ", "\n # c ) , \n"]), reverse_members: c.flag(), ..Layout::default() };
        let mut docs = [Doc::default(), Doc::default()];
        for d in &mut docs {
            let mut t = with(ty(Kind::Object), &[("a", "Int")]);
            for x in ["x", "y", "z"] {
                if let Some(v) = c.pick(&[None, Some("Int"), Some("Int = 1"), Some("[String!]!")]) {
                    t = with_arg(t, "a", x, v);
                }
            }
            *d = doc(&[("T", Some(t))]);
            decorate(d, dec);
        }
        judge(c, what, &docs[0], &l, &docs[1], &l);
    });

    ck.space("interfaces", |c| {
        let kind = *c.pick(&[Kind::Object, Kind::Interface]);
        let mut docs = [Doc::default(), Doc::default()];
        for d in &mut docs {
            let imp = c.subset(&["I", "b", "Node"]);
            let mut t = implementing(ty(kind), &imp);
            t = with(t, &[("id", "ID")]);
            if c.flag() {
                t = with(t, &[("I", "Int")]);
            }
            if c.flag() {
                t = with_arg(with(t, &[("c", "Int")]), "c", "I", "Int");
            }
            *d = doc(&[("T", Some(t))]);
            if c.flag() {
                d.types.extend(doc(&[("Ta", Some(implementing(with(ty(kind), &[("a", "Int")]), &["I"])))]).types);
            }
        }
        judge(c, what, &docs[0], &l, &docs[1], &l);
    });

    ck.space("members", |c| {
        let kind = *c.pick(&[Kind::Union, Kind::Enum, Kind::Input]);
        let dec = if c.flag() { Decor { desc: true, dirs: true } } else { Decor::default() };
        let mut docs = [Doc::default(), Doc::default()];
        for d in &mut docs {
            let mut t = ty(kind);
            for m in ["a", "B", "ba"] {
                let n = match kind {
                    Kind::Input => c.choose(5),
                    _ => c.choose(2),
                };
                if n > 0 {
                    t = with(t, &[(m, ["Int", "Int = 1", "String!", "[Int] = [1,2]"][n - 1])]);
                }
                if kind == Kind::Enum && n > 0 {
                    t.fields.get_mut(m).unwrap().ty.clear();
                    t.fields.get_mut(m).unwrap().default = None;
                }
            }
            if t.members.is_empty() && t.fields.is_empty() {
                c.skip();
            }
            *d = doc(&[("T", Some(t)), ("U", Some(with(ty(Kind::Object), &[("a", "Int")])))]);
            decorate(d, dec);
        }
        judge(c, what, &docs[0], &l, &docs[1], &l);
    });

    ck.space("schema definition", |c| {
        let dec = decor(c);
        let mut docs = [Doc::default(), Doc::default()];
        for d in &mut docs {
            *d = doc(&[("Q", Some(with(ty(Kind::Object), &[("a", "Int")])))]);
            if c.flag() {
                let s = |x: &'static str| (!x.is_empty()).then(|| x.to_string());
                d.schema = Some(Roots {
                    query: s(*c.pick(&["Q", "A", ""])),
                    mutation: s(*c.pick(&["", "M", "A"])),
                    subscription: s(*c.pick(&["", "S"])),
                    ..Roots::default()
                });
                if d.schema == Some(Roots::default()) {
                    c.skip();
                }
            }
            decorate(d, dec);
            let n = c.choose(3);
            for i in 0..n {
                d.schema_extensions.push(Roots { dirs: vec![format!("@tag(name:\"e{i}\")")], ..Roots::default() });
            }
        }
        judge(c, what, &docs[0], &l, &docs[1], &l);
    });

    ck.space("directive definitions", |c| {
        let dec = Decor { desc: c.flag(), dirs: false };
        let mut docs = [Doc::default(), Doc::default()];
        let ds: Vec<DirDef> = vec![
            DirDef { locations: ["OBJECT".to_string(), "FIELD".to_string()].into(), ..DirDef::default() },
            DirDef {
                locations: ["SCHEMA".to_string()].into(),
                repeatable: true,
                args: [("x".to_string(), Field { ty: "Int".into(), default: Some("1".into()), ..Field::default() })].into(),
                desc: None,
            },
        ];
        let pick = c.choose(2);
        for d in &mut docs {
            *d = doc(&[("T", bodies[c.choose(bodies.len())].clone())]);
            for n in ["T", "d"] {
                if c.flag() {
                    d.directives.insert(n.into(), ds[pick].clone());
                }
            }
            decorate(d, dec);
        }
        judge(c, what, &docs[0], &l, &docs[1], &l);
    });

    ck.space("layout", |c| {
        // the same document, written differently, and one more
        let mut a = doc(&[
            ("A", Some(with_arg(with(ty(Kind::Object), &[("a", "Int"), ("b", "[A!]")]), "a", "x", "Int = 1"))),
            ("E", Some(with(ty(Kind::Enum), &[("a", ""), ("b", "")]))),
            ("N", Some(with(ty(Kind::Input), &[("a", "Int = 1"), ("b", "String = \"x}\"")]))),
            ("U", Some(with(ty(Kind::Union), &[("A", ""), ("B", "")]))),
        ]);
        a = Doc { types: a.types, ..Doc::default() };
        decorate(&mut a, Decor { desc: c.flag(), dirs: c.flag() });
        let mut b = a.clone();
        let all: Vec<String> = a.types.keys().cloned().collect();
        match c.choose(3) {
            0 => {}
            1 => {
                let t = c.pick(&all).clone();
                b.types.remove(&t);
            }
            _ => {
                let t = b.types.get_mut("A").unwrap();
                t.fields.remove("b");
                t.fields.get_mut("a").unwrap().ty = "Float".into();
            }
        }
        let mut ls = Vec::new();
        for _ in 0..2 {
            ls.push(Layout {
                sep: *c.pick(&["\n  ", ", ", "\n# c }\n\n"]),
                reverse: c.flag(),
                reverse_members: c.flag(),
                extended: vec![],
                block_descriptions: c.flag(),
                comments: c.flag(),
                arg_sep: *c.pick(&[", ", "\n # c ) , \n"]),
            });
        }
        judge(c, what, &a, &ls[0], &b, &ls[1]);
    });

    ck.space("extensions", |c| {
        let kind = *c.pick(&[Kind::Object, Kind::Interface, Kind::Input, Kind::Enum, Kind::Union]);
        let mut docs = [Doc::default(), Doc::default()];
        let mut ls = [Layout::default(), Layout::default()];
        let absent = c.choose(3);
        for (i, (d, l)) in docs.iter_mut().zip(&mut ls).enumerate() {
            if absent == i + 1 {
                *d = doc(&[("U", Some(ty(Kind::Scalar)))]);
                continue;
            }
            let mut t = ty(kind);
            let imp = matches!(kind, Kind::Object | Kind::Interface);
            for m in ["a", "b", "c"] {
                let n = c.choose(3);
                if n > 0 {
                    t = with(t, &[(m, "Int")]);
                    if n == 2 {
                        l.extended.push(format!("T.{m}"));
                    }
                }
            }
            if imp {
                let n = c.choose(3);
                if n > 0 {
                    t.implements.insert("I".into());
                    if n == 2 {
                        l.extended.push("T.I".into());
                    }
                }
            }
            if kind == Kind::Enum {
                t.fields.values_mut().for_each(|f| f.ty.clear());
            }
            *d = doc(&[("T", Some(t))]);
        }
        judge(c, what, &docs[0], &ls[0], &docs[1], &ls[1]);
    });

    ck.space("sizes", |c| {
        // Many elements of one kind, one or two of them changed, anywhere among them.
        let n = *c.pick(if c.thorough() { &[3usize, 17, 65, 260, 1030][..] } else { &[3usize, 17, 65, 260][..] });
        let shape = c.choose(7);
        let extension = c.flag();
        let mut ls = [Layout::default(), Layout::default()];
        ls[1].reverse = c.flag();
        ls[1].reverse_members = ls[1].reverse;
        let name = |i: usize| format!("{}{i:05}", if shape == 0 { "T" } else { "m" });
        let build = |i: usize, changed: bool, d: &mut Doc| {
            let m = name(i);
            let t = if changed { "String" } else { "Int" };
            match shape {
                0 => {
                    d.types.insert(m, with(ty(if changed { Kind::Input } else { Kind::Object }), &[("a", "Int")]));
                }
                1 | 2 => {
                    let x = d.types.get_mut("T").unwrap();
                    *x = with(x.clone(), &[(m.as_str(), t)]);
                }
                3 => {
                    let x = d.types.get_mut("T").unwrap();
                    *x = with_arg(x.clone(), "a", &m, if changed { "Int = 7" } else { "Int" });
                }
                4 => {
                    d.types.get_mut("T").unwrap().members.insert(m);
                }
                5 => {
                    d.types.get_mut("T").unwrap().fields.insert(m, Field::default());
                }
                _ => {
                    d.types.get_mut("T").unwrap().implements.insert(m);
                }
            }
        };
        let kind = [Kind::Object, Kind::Object, Kind::Input, Kind::Object, Kind::Union, Kind::Enum, Kind::Interface][shape];
        let positions = [0, 1, n / 2, n - 2, n - 1];
        let (p, q) = (*c.pick(&positions), *c.pick(&positions));
        // what happens at these positions: changed, only in the source, only in the target
        let (x, y) = (c.choose(3), c.choose(3));
        let mut docs = [Doc::default(), Doc::default()];
        for (side, d) in docs.iter_mut().enumerate() {
            let mut t = ty(kind);
            if matches!(shape, 3 | 6) {
                t = with(t, &[("a", "Int")]);
            }
            *d = doc(&[("A", Some(ty(Kind::Scalar)))]);
            if shape > 0 {
                d.types.insert("T".into(), t);
            }
            for i in 0..n {
                let what = if i == p { Some(x) } else if i == q { Some(y) } else { None };
                match what {
                    None => build(i, false, d),
                    Some(0) => build(i, side == 1, d),
                    Some(w) => {
                        if (w == 1) == (side == 0) {
                            build(i, false, d)
                        }
                    }
                }
                if extension && i % 3 == 1 && matches!(shape, 1 | 2 | 4 | 5 | 6) {
                    ls[side].extended.push(format!("T.{}", name(i)));
                }
            }
        }
        judge(c, what, &docs[0], &ls[0], &docs[1], &ls[1]);
    });

    let _ = thorough;
}

pub fn c10(ck: &Check) {
    ck.assume("documents are syntactically valid; the diff is defined on the elements it has a change kind for");
    run(ck, What::Diff);
}

pub fn c11(ck: &Check) {
    ck.assume("descriptions, directives, input field defaults and the contents of directive definitions are not diffed: the patched document keeps those of the source");
    run(ck, What::Patch);
}
