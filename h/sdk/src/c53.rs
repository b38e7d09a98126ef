//! What a resolver extension sees of the field it resolves, of its arguments and of the schema.
use crate::{cbor::{enc, json, V}, common::*, res};
use grafbase_sdk::{types::*, vmc_hooks::{self, call, host::headers::Headers as HostHeaders, types as w}};
use std::{cell::RefCell, collections::BTreeMap};
use vmc::{Case, Check};

// ---------------------------------------------------------------- selections
#[derive(Clone, Debug)]
struct F {
    alias: Option<String>,
    def: u32,
    args: Option<u16>,
    typename: bool,
    sel: Option<Vec<F>>,
}
/// Trees of at most `left` fields, three deep.
fn tree(c: &mut Case, left: &mut usize, depth: usize, n: &mut u32) -> F {
    *left -= 1;
    *n += 1;
    let i = *n;
    let alias = (i % 3 == 0).then(|| format!("alias{i}"));
    let (args, sel) = match c.choose(if depth > 0 { 6 } else { 2 }) {
        0 => (None, None),
        1 => (Some(i as u16 * 3), None),
        k => {
            let width = [0, 1, 2, 3][k - 2];
            if width > *left {
                c.skip()
            }
            // Every child must still fit.
            let mut sel = Vec::new();
            for j in 0..width {
                if *left < width - j {
                    c.skip()
                }
                sel.push(tree(c, left, depth - 1, n));
            }
            ((i % 2 == 0).then_some(i as u16 * 3), Some(sel))
        }
    };
    F { alias, def: 1000 - i * 7, args, typename: i % 2 == 1, sel }
}
fn show_tree(f: &F, vars: &BTreeMap<u16, V>) -> String {
    let args = f.args.map_or("{}".into(), |a| json(&vars[&a]).to_string());
    let sel = f.sel.as_deref().unwrap_or_default();
    format!(
        "{:?}:{}({:?} {args}){} {}[{}]",
        f.alias,
        f.def,
        f.args,
        if f.sel.is_some() && f.typename { " typename" } else { "" },
        sel.len(),
        sel.iter().map(|f| show_tree(f, vars)).collect::<Vec<_>>().join(" ")
    )
}
/// The list the gateway sends: the fields of a selection set side by side.
fn flat(root: &F, depth_first: bool, pad: bool) -> (u16, Vec<w::Field>) {
    let dummy = || w::Field { alias: Some("pad".into()), definition_id: 1, arguments: None, selection_set: None };
    let mut out = Vec::new();
    if pad {
        out.push(dummy());
    }
    fn one(f: &F) -> w::Field {
        w::Field { alias: f.alias.clone(), definition_id: f.def, arguments: f.args, selection_set: None }
    }
    let at = out.len();
    out.push(one(root));
    let mut todo = std::collections::VecDeque::from([(at, root)]);
    while let Some((at, f)) = if depth_first { todo.pop_back() } else { todo.pop_front() } {
        if let Some(sel) = &f.sel {
            let start = out.len();
            for s in sel {
                todo.push_back((out.len(), s));
                out.push(one(s));
            }
            out[at].selection_set = Some(w::SelectionSet { requires_typename: f.typename, fields_ordered_by_parent_entity: (start as u16, out.len() as u16) });
        }
    }
    if pad {
        out.push(dummy());
    }
    (at as u16, out)
}
fn id(a: Option<ArgumentsId>) -> Option<u16> {
    a.map(|a| (0..200u16).find(|i| ArgumentsId::from(*i) == a).unwrap())
}
fn show_field(f: Field<'_>, vars: Option<&Variables>) -> String {
    let args = match vars {
        Some(v) => f.arguments::<serde_json::Value>(v).map_or_else(|e| format!("error {e}"), |v| v.to_string()),
        None => "-".into(),
    };
    let seed = vars.map(|v| f.arguments_seed(v, std::marker::PhantomData::<serde_json::Value>).map_or_else(|e| format!("error {e}"), |v| v.to_string()));
    let sel = f.selection_set();
    assert_eq!(sel.is_empty(), sel.fields().len() == 0);
    assert!(seed.is_none_or(|s| s == args), "arguments differ with a seed");
    let a: Vec<String> = sel.fields().map(|f| show_field(f, vars)).collect();
    let b: Vec<String> = sel.fields_ordered_by_parent_entity().map(|f| show_field(f, vars)).collect();
    assert_eq!(a, b);
    format!(
        "{:?}:{}({:?} {args}){} {}[{}]",
        f.alias(),
        u32::from(f.definition_id()),
        id(f.arguments_id()),
        if sel.requires_typename() { " typename" } else { "" },
        sel.fields().len(),
        a.join(" ")
    )
}
fn show_resolved(f: &ResolvedField<'_>, vars: Option<&Variables>) -> String {
    let d = f.directive();
    let s = show_field(f.as_ref(), vars);
    if let Some(v) = vars {
        assert_eq!(f.arguments::<serde_json::Value>(v).ok(), f.as_ref().arguments(v).ok());
    }
    assert_eq!(f.definition_id(), f.as_ref().definition_id());
    assert_eq!(f.arguments_id(), f.as_ref().arguments_id());
    assert_eq!(f.selection_set().fields().len(), f.as_ref().selection_set().fields().len());
    format!("{} @{} {} {s}", f.subgraph_name(), d.name(), d.arguments::<serde_json::Value>().map_or("error".into(), |v| v.to_string()))
}
thread_local! {
    static SEEN: RefCell<Vec<String>> = Default::default();
}
fn selections(c: &mut Case) {
    let mut left = if c.thorough() { 8 } else { 6 };
    let mut n = 0;
    let root = tree(c, &mut left, 3, &mut n);
    let (depth_first, pad, order, own) = (c.flag(), c.flag(), c.flag(), c.flag());
    // The same field more than once, with arguments of its own.
    fn same(f: &mut F) {
        f.def = 1000 - f.def % 2;
        f.alias = f.alias.as_ref().map(|_| "alias".into());
        f.sel.iter_mut().flatten().for_each(same);
    }
    let mut root = root;
    if pad {
        same(&mut root);
    }
    let (at, fields) = flat(&root, depth_first, pad);
    let args = V::map(&[("url", V::s("u")), ("n", V::Null)]);
    let mut vars = BTreeMap::new();
    let mut host_vars = Vec::new();
    for f in &fields {
        if let Some(a) = f.arguments {
            let v = V::map(&[("a", V::Int(a as i128)), ("b", V::Arr(vec![V::Null, V::Float(0.5)]))]);
            host_vars.push((a, enc(&v)));
            vars.insert(a, v);
        }
    }
    if order {
        host_vars.reverse();
    }
    c.note(|| format!("{root:?}, root at {at}"));
    let bare = |f: &F| {
        fn go(f: &F) -> String {
            let sel = f.sel.as_deref().unwrap_or_default();
            format!(
                "{:?}:{}({:?} -){} {}[{}]",
                f.alias,
                f.def,
                f.args,
                if f.sel.is_some() && f.typename { " typename" } else { "" },
                sel.len(),
                sel.iter().map(go).collect::<Vec<_>>().join(" ")
            )
        }
        go(f)
    };
    let prefix = "sub @rest {\"n\":null,\"url\":\"u\"}";
    let want = vec![format!("{prefix} {}", bare(&root)), format!("{prefix} {}", show_tree(&root, &vars)), "header Some(\"1\")".to_string()];
    SEEN.take();
    let see = |s: String| SEEN.with(|v| v.borrow_mut().push(s));
    if own {
        res::PREPARE.set(Some(Box::new(move |f| {
            see(show_resolved(&f, None));
            Ok(f.into())
        })));
    }
    let (q, host_q) = queue();
    let directive = w::schema::Directive { name: "rest".into(), arguments: enc(&args) };
    let prepared = match call::prepare(host_q, "sub".into(), directive, at, fields) {
        Ok(p) => p,
        Err(e) => return c.fail("prepare", e.message),
    };
    c.check_eq("queue-kept", &1, &q.borrow().dropped, "times the event queue was given back");
    if !own {
        see(want[0].clone());
    }
    // A prepared field that is cut off is an error.
    let cut = c.choose(4) * prepared.len() / 4;
    c.check(cut == prepared.len() || ResolvedField::try_from(&prepared[..cut]).is_err(), "cut-off", || format!("{cut} of {} bytes of a prepared field are taken for a field", prepared.len()));
    res::RESOLVE.set(Some(Box::new(move |_, prepared, headers, vars| {
        let f = ResolvedField::try_from(prepared)?;
        see(show_resolved(&f, Some(&vars)));
        see(format!("header {:?}", headers.get("x").map(|v| v.to_str().unwrap().to_string())));
        Ok(Response::null())
    })));
    let (_, ctx) = operation_ctx(&[], token(None), &[]);
    let r = call::resolve(queue().1, ctx, prepared, HostHeaders::from_entries(&[("x", "1")]), host_vars);
    c.check(r.data.is_none() && r.errors.is_empty(), "resolve", || format!("{r:?}"));
    SEEN.with(|s| c.check_eq("resolved-field", &want, &s.borrow(), "what the extension sees"));
    c.outcome(&want);
}

/// Selection sets of many fields.
fn wide(c: &mut Case) {
    let n: usize = *c.pick(&[17, 255, 256, 257, 300, 30_000]);
    let deep = c.flag();
    c.note(|| format!("{n} fields, each with a selection set: {deep}"));
    let leaf = |i: usize| F { alias: (i % 5 == 0).then(|| format!("a{i}")), def: (i * 3) as u32, args: (i % 2 == 0).then_some(i as u16), typename: i % 3 == 0, sel: None };
    let mut root = leaf(0);
    root.sel = Some(
        (0..n)
            .map(|i| {
                let mut f = leaf(i + 1);
                if deep {
                    f.sel = Some(vec![leaf(n + i + 1)]);
                }
                f
            })
            .collect(),
    );
    let (at, fields) = flat(&root, false, false);
    let vars: Vec<(u16, Vec<u8>)> = fields.iter().filter_map(|f| f.arguments).map(|a| (a, enc(&V::Int(a as i128)))).collect();
    let d = w::schema::Directive { name: "rest".into(), arguments: enc(&V::Null) };
    let (_, host_q) = queue();
    let prepared = match call::prepare(host_q, "sub".into(), d, at, fields) {
        Ok(p) => p,
        Err(e) => return c.fail("prepare", e.message),
    };
    SEEN.take();
    res::RESOLVE.set(Some(Box::new(move |_, prepared, _, vars| {
        fn go(f: Field<'_>, vars: &Variables, some: bool) {
            let args = if some { f.arguments::<serde_json::Value>(vars).map_or("error".into(), |v| v.to_string()) } else { String::new() };
            SEEN.with(|v| v.borrow_mut().push(format!("{:?} {} {args}", f.alias(), u32::from(f.definition_id()))));
            let s = f.selection_set();
            s.fields().enumerate().for_each(|(i, f)| go(f, vars, some && (i % 97 == 0 || i + 3 > s.fields().len())));
        }
        go(ResolvedField::try_from(prepared)?.as_ref().clone(), &vars, true);
        Ok(Response::null())
    })));
    let (_, ctx) = operation_ctx(&[], token(None), &[]);
    let r = call::resolve(queue().1, ctx, prepared, HostHeaders::new(), vars);
    c.check(r.errors.is_empty(), "resolve", || format!("{:?}", r.errors));
    let mut want = Vec::new();
    fn go(f: &F, want: &mut Vec<String>, some: bool) {
        let args = if !some { String::new() } else { f.args.map_or("{}".into(), |a| a.to_string()) };
        want.push(format!("{:?} {} {args}", f.alias, f.def));
        let s = f.sel.as_deref().unwrap_or_default();
        s.iter().enumerate().for_each(|(i, f)| go(f, want, some && (i % 97 == 0 || i + 3 > s.len())));
    }
    go(&root, &mut want, true);
    SEEN.with(|s| {
        let s = s.borrow();
        let at = want.iter().zip(s.iter()).position(|(a, b)| a != b);
        c.check(*s == want, "wide-field", || format!("{} fields of {}, first difference {:?}", s.len(), want.len(), at.map(|i| (&want[i], &s[i]))))
    });
    c.outcome(&(n, deep));
}

// ---------------------------------------------------------------- schema
fn show_dirs<'a>(d: impl Iterator<Item = Directive<'a>>) -> String {
    d.map(|d| format!(" @{}({})", d.name(), d.arguments::<serde_json::Value>().map_or("error".into(), |v| v.to_string()))).collect()
}
fn show_ty(t: Type<'_>) -> String {
    let w: Vec<_> = t.wrapping().collect();
    assert_eq!(w.len(), t.wrapping().len());
    format!("{}{w:?} non-null:{} list:{}", t.definition().name(), t.is_non_null(), t.is_list())
}
fn show_input(i: InputValueDefinition<'_>) -> String {
    format!("{}={} {}{}", u32::from(i.id()), i.name(), show_ty(i.ty()), show_dirs(i.directives()))
}
fn show_fd(f: FieldDefinition<'_>) -> String {
    let parent = match f.parent_entity() {
        EntityDefinition::Object(o) => format!("type {}", o.name()),
        EntityDefinition::Interface(o) => format!("interface {}", o.name()),
    };
    let args: Vec<String> = f.arguments().map(show_input).collect();
    format!("{}={} of {parent} [{}] {args:?}{} <{f}>", u32::from(f.id()), f.name(), show_ty(f.ty()), show_dirs(f.directives()))
}
fn show_td(t: TypeDefinition<'_>) -> String {
    let ids = format!("{}={} <{t}>", u32::from(t.id()), t.name());
    let _ = format!("{t:?}");
    match t {
        TypeDefinition::Scalar(s) => format!("scalar {ids} {:?}{}", s.specified_by_url(), show_dirs(s.directives())),
        TypeDefinition::Object(o) => format!(
            "type {ids} {:?} {:?}{}",
            o.interfaces().map(|i| i.name()).collect::<Vec<_>>(),
            o.fields().map(show_fd).collect::<Vec<_>>(),
            show_dirs(o.directives())
        ),
        TypeDefinition::Interface(o) => format!(
            "interface {ids} {:?} {:?}{}",
            o.interfaces().map(|i| i.name()).collect::<Vec<_>>(),
            o.fields().map(show_fd).collect::<Vec<_>>(),
            show_dirs(o.directives())
        ),
        TypeDefinition::Union(u) => format!("union {ids} {:?}{}", u.member_types().map(|i| i.name()).collect::<Vec<_>>(), show_dirs(u.directives())),
        TypeDefinition::Enum(e) => format!(
            "enum {ids} {:?}{}",
            e.values().map(|v| format!("{}{}", v.name(), show_dirs(v.directives()))).collect::<Vec<_>>(),
            show_dirs(e.directives())
        ),
        TypeDefinition::InputObject(i) => format!("input {ids} {:?}{}", i.input_fields().map(show_input).collect::<Vec<_>>(), show_dirs(i.directives())),
    }
}
pub fn show_schema(s: &SubgraphSchema) -> String {
    let _ = format!("{s:?}");
    let mut types: Vec<_> = s.type_definitions().map(|t| (u32::from(t.id()), show_td(t))).collect();
    types.sort();
    let mut fields: Vec<_> = s.iter_fields().map(|t| (u32::from(t.id()), show_fd(t))).collect();
    fields.sort();
    // Each is also found by its id, and only it.
    for id in 0..100 {
        let d = vmc_hooks::definition_id(id);
        let t = s.type_definition(d).map(|t| (u32::from(t.id()), show_td(t)));
        assert_eq!(t, types.iter().find(|t| t.0 == id).cloned(), "type {id}");
        let f = s.field_definition(d).map(|t| (u32::from(t.id()), show_fd(t)));
        assert_eq!(f, fields.iter().find(|t| t.0 == id).cloned(), "field {id}");
    }
    let roots: Vec<_> = [s.query(), s.mutation(), s.subscription()].iter().map(|o| o.map(|o| o.name().to_string())).collect();
    let strip = |v: Vec<(u32, String)>| v.into_iter().map(|v| v.1).collect::<Vec<_>>();
    format!("{} {roots:?}{}\n{}\n{}", s.subgraph_name(), show_dirs(s.directives()), strip(types).join("\n"), strip(fields).join("\n"))
}
const KINDS: [&str; 6] = ["object", "interface", "union", "enum", "scalar", "input"];
/// A schema of ours: what the gateway sends, and what the extension must see of it.
fn schema(c: &mut Case) -> (w::schema::Schema, String) {
    use w::schema as s;
    let kinds: Vec<&str> = KINDS.iter().filter(|_| c.flag()).copied().collect();
    let reverse = c.flag();
    let dense = c.flag();
    let wrap: Vec<bool> = { let n = c.choose(4); (0..n).map(|_| c.flag()).collect() };
    let dirs = c.choose(3);
    let roots = c.choose(8);
    // Every name has an id of its own.
    let mut next = 0;
    let mut ids: BTreeMap<String, u32> = BTreeMap::new();
    let mut id = |n: &str| -> u32 {
        *ids.entry(n.into()).or_insert_with(|| {
            next += 1;
            if dense { next } else { 97 - next * 3 % 97 }
        })
    };
    let directives = |n: usize, tag: &str| -> (Vec<s::Directive>, String) {
        let v: Vec<(String, V)> = (0..n).map(|i| (format!("d{i}"), V::map(&[("t", V::s(tag)), ("i", V::Int(i as i128))]))).collect();
        (
            v.iter().map(|(n, a)| s::Directive { name: n.clone(), arguments: enc(a) }).collect(),
            v.iter().map(|(n, a)| format!(" @{n}({})", json(a))).collect(),
        )
    };
    let mut ty = |name: &str, id: &mut dyn FnMut(&str) -> u32| -> (s::Ty, String) {
        let wrapping: Vec<s::WrappingType> = wrap.iter().map(|l| if *l { s::WrappingType::List } else { s::WrappingType::NonNull }).collect();
        let shown: Vec<&str> = wrap.iter().map(|l| if *l { "List" } else { "NonNull" }).collect();
        let text = format!("{name}[{}] non-null:{} list:{}", shown.join(", "), wrap.last() == Some(&false), wrap.contains(&true));
        (s::Ty { wrapping, definition_id: id(name) }, text)
    };
    let mut types: Vec<(u32, s::TypeDefinition, String)> = Vec::new();
    let mut fields: Vec<(u32, s::FieldDefinition, String)> = Vec::new();
    let scalar = "String";
    let (d, ds) = directives(dirs, "string");
    let i = id(scalar);
    types.push((i, s::TypeDefinition::Scalar(s::ScalarDefinition { id: i, name: scalar.into(), specified_by_url: None, directives: d }), format!("scalar {i}={scalar} <{scalar}> None{ds}")));
    let mut field = |parent: &str, kind: &str, name: &str, of: &str, args: bool, id: &mut dyn FnMut(&str) -> u32| -> (u32, String) {
        let (t, ts) = ty(of, id);
        let i = id(&format!("{parent}.{name}"));
        let mut av = Vec::new();
        let mut ash = Vec::new();
        if args {
            for a in ["x", "y"] {
                let (t, ts) = ty(scalar, id);
                let (d, ds) = directives(dirs, a);
                let i = id(&format!("{parent}.{name}.{a}"));
                ash.push(format!("{i}={a} {ts}{ds}"));
                av.push(s::InputValueDefinition { id: i, name: a.into(), ty: t, directives: d });
            }
        }
        let (d, ds) = directives(dirs, name);
        let text = format!("{i}={name} of {kind} {parent} [{ts}] {ash:?}{ds} <{parent}.{name}>");
        fields.push((i, s::FieldDefinition { id: i, name: name.into(), ty: t, parent_type_id: id(parent), arguments: av, directives: d }, text.clone()));
        (i, text)
    };
    let has = |k: &str| kinds.contains(&k);
    let mut objects = vec!["Q"];
    if has("object") {
        objects.push("O");
    }
    for o in objects {
        let inf: Vec<&str> = if has("interface") && o == "O" { vec!["I2", "I"] } else { vec![] };
        let mut fs = vec![field(o, "type", "s", scalar, o == "Q", &mut id)];
        if has("object") {
            fs.push(field(o, "type", "o", "O", false, &mut id));
        }
        if has("enum") && o == "Q" {
            fs.push(field(o, "type", "e", "E", true, &mut id));
        }
        let (d, ds) = directives(dirs, o);
        let i = id(o);
        let shown: Vec<&String> = fs.iter().map(|f| &f.1).collect();
        let text = format!("type {i}={o} <{o}> {inf:?} {shown:?}{ds}");
        let def = s::ObjectDefinition { id: i, name: o.into(), interface_ids: inf.iter().map(|n| id(n)).collect(), field_ids: fs.iter().map(|f| f.0).collect(), directives: d };
        types.push((i, s::TypeDefinition::Object(def), text));
    }
    if has("interface") {
        for o in ["I", "I2"] {
            let inf: Vec<&str> = if o == "I2" { vec!["I"] } else { vec![] };
            let fs = [field(o, "interface", "s", scalar, false, &mut id)];
            let (d, ds) = directives(dirs, o);
            let i = id(o);
            let shown: Vec<&String> = fs.iter().map(|f| &f.1).collect();
            let text = format!("interface {i}={o} <{o}> {inf:?} {shown:?}{ds}");
            let def = s::InterfaceDefinition { id: i, name: o.into(), interface_ids: inf.iter().map(|n| id(n)).collect(), field_ids: fs.iter().map(|f| f.0).collect(), directives: d };
            types.push((i, s::TypeDefinition::Interface(def), text));
        }
    }
    if has("union") {
        let m: Vec<&str> = if has("object") { vec!["O", "Q"] } else { vec!["Q"] };
        let (d, ds) = directives(dirs, "u");
        let i = id("U");
        types.push((i, s::TypeDefinition::Union(s::UnionDefinition { id: i, name: "U".into(), member_types: m.iter().map(|n| id(n)).collect(), directives: d }), format!("union {i}=U <U> {m:?}{ds}")));
    }
    if has("enum") {
        let (d, ds) = directives(dirs, "e");
        let vs: Vec<_> = ["A", "B"].iter().map(|v| (v, directives(dirs, v))).collect();
        let shown: Vec<String> = vs.iter().map(|(v, d)| format!("{v}{}", d.1)).collect();
        let i = id("E");
        let values = vs.into_iter().map(|(v, d)| s::EnumValue { name: v.to_string(), directives: d.0 }).collect();
        types.push((i, s::TypeDefinition::Enum(s::EnumDefinition { id: i, name: "E".into(), values, directives: d }), format!("enum {i}=E <E> {shown:?}{ds}")));
    }
    if has("scalar") {
        let (d, ds) = directives(dirs, "url");
        let i = id("Url");
        types.push((i, s::TypeDefinition::Scalar(s::ScalarDefinition { id: i, name: "Url".into(), specified_by_url: Some("http://u".into()), directives: d }), format!("scalar {i}=Url <Url> Some(\"http://u\"){ds}")));
    }
    if has("input") {
        let (d, ds) = directives(dirs, "in");
        let i = id("In");
        let mut vs = Vec::new();
        let mut shown = Vec::new();
        for n in ["a", "b"] {
            let wrapped = n == "b";
            let t = s::Ty { wrapping: if wrapped { vec![s::WrappingType::NonNull] } else { vec![] }, definition_id: id(scalar) };
            let (d, ds) = directives(dirs, n);
            let i = id(&format!("In.{n}"));
            shown.push(format!("{i}={n} {scalar}[{}] non-null:{wrapped} list:false{ds}", if wrapped { "NonNull" } else { "" }));
            vs.push(s::InputValueDefinition { id: i, name: n.into(), ty: t, directives: d });
        }
        types.push((i, s::TypeDefinition::InputObject(s::InputObjectDefinition { id: i, name: "In".into(), input_fields: vs, directives: d }), format!("input {i}=In <In> {shown:?}{ds}")));
    }
    let (d, ds) = directives(dirs, "schema");
    let q = id("Q");
    let o = if has("object") { "O" } else { "Q" };
    let oid = id(o);
    let root = |b: usize, i: u32| (roots >> b & 1 == 1).then_some(i);
    let name = |b: usize, n: &str| (roots >> b & 1 == 1).then(|| n.to_string());
    let root_types = s::RootTypes { query_id: root(0, q), mutation_id: root(1, oid), subscription_id: root(2, q) };
    let shown_roots = [name(0, "Q"), name(1, o), name(2, "Q")];
    let mut sorted: Vec<(u32, String)> = types.iter().map(|t| (t.0, t.2.clone())).collect();
    sorted.sort();
    let mut sorted_f: Vec<(u32, String)> = fields.iter().map(|t| (t.0, t.2.clone())).collect();
    sorted_f.sort();
    let strip = |v: Vec<(u32, String)>| v.into_iter().map(|v| v.1).collect::<Vec<_>>();
    let text = format!("{shown_roots:?}{ds}\n{}\n{}", strip(sorted).join("\n"), strip(sorted_f).join("\n"));
    if reverse {
        types.reverse();
        fields.reverse();
    }
    let schema = s::Schema {
        type_definitions: types.into_iter().map(|t| t.1).collect(),
        field_definitions: fields.into_iter().map(|t| t.1).collect(),
        directives: d,
        root_types,
    };
    (schema, text)
}
fn schemas(c: &mut Case) {
    let (s, want) = schema(c);
    let got = show_schema(&vmc_hooks::subgraph_schema("sub", s));
    c.check_eq("schema", &format!("sub {want}"), &got, "the schema");
    c.outcome(&want);
}
pub fn run(k: &Check) {
    grafbase_sdk::extension::resolver::register::<res::Ext>();
    init(vec![], &enc(&V::map(&[("a", V::Null)])), false, "off").unwrap();
    let seen = res::NEW.take();
    k.space_seq("initialization", move |c| {
        c.check_eq("initialization", &vec!["{\"a\":null}".to_string()], &seen, "what the extension is made with");
    });
    k.space_seq("selections", selections);
    k.space_seq("many fields", wide);
    k.space("schemas", schemas);
}
