//! Reference model: documents as `sdl::Doc`, their rendering and the expected difference.
use std::collections::BTreeMap;

use graphql_schema_diff::ChangeKind;
use sdl::{Doc, Field, Kind, Roots, Ty};

#[derive(Clone, Debug)]
pub struct Layout {
    /// separator between members of a block
    pub sep: &'static str,
    /// order in which the types are written (indexes into the sorted list, the rest follows)
    pub reverse: bool,
    pub reverse_members: bool,
    /// members written in an extension of their type, as `Type.member`
    pub extended: Vec<String>,
    pub block_descriptions: bool,
    pub comments: bool,
    /// separator between arguments
    pub arg_sep: &'static str,
}

impl Default for Layout {
    fn default() -> Self {
        Layout {
            sep: "\n  ",
            reverse: false,
            reverse_members: false,
            extended: vec![],
            block_descriptions: false,
            comments: false,
            arg_sep: ", ",
        }
    }
}

pub fn ty(kind: Kind) -> Ty {
    Ty {
        kind,
        desc: None,
        dirs: vec![],
        implements: Default::default(),
        members: Default::default(),
        fields: Default::default(),
    }
}

pub fn field(ty: &str) -> Field {
    Field {
        ty: ty.into(),
        ..Field::default()
    }
}

fn arg_text(n: &str, a: &Field, l: &Layout) -> String {
    let mut s = String::new();
    if let Some(d) = &a.desc {
        s.push_str(&format!("{} ", desc_text(d, l)));
    }
    s.push_str(&format!("{n}: {}", a.ty));
    if let Some(d) = &a.default {
        s.push_str(&format!(" = {d}"));
    }
    for d in &a.dirs {
        s.push(' ');
        s.push_str(d);
    }
    s
}

fn desc_text(d: &str, l: &Layout) -> String {
    if l.block_descriptions {
        format!("\"\"\"\n{d}\n\"\"\"")
    } else {
        format!("{d:?}")
    }
}

pub fn member_text(kind: Kind, n: &str, f: &Field, l: &Layout) -> String {
    match kind {
        Kind::Input => arg_text(n, f, l),
        Kind::Enum => {
            let mut s = f.desc.as_ref().map(|d| format!("{} ", desc_text(d, l))).unwrap_or_default();
            s.push_str(n);
            for d in &f.dirs {
                s.push(' ');
                s.push_str(d);
            }
            s
        }
        _ => {
            let mut s = f.desc.as_ref().map(|d| format!("{} ", desc_text(d, l))).unwrap_or_default();
            s.push_str(n);
            if !f.args.is_empty() {
                let mut a: Vec<String> = f.args.iter().map(|(n, a)| arg_text(n, a, l)).collect();
                if l.reverse_members {
                    a.reverse();
                }
                s.push_str(&format!("({})", a.join(l.arg_sep)));
            }
            s.push_str(": ");
            s.push_str(&f.ty);
            for d in &f.dirs {
                s.push(' ');
                s.push_str(d);
            }
            s
        }
    }
}

fn type_text(n: &str, t: &Ty, l: &Layout, ext: bool) -> Option<String> {
    let keep = |m: &str| l.extended.contains(&format!("{n}.{m}")) == ext;
    let mut s = String::new();
    if !ext {
        if let Some(d) = &t.desc {
            s.push_str(&format!("{}\n", desc_text(d, l)));
        }
    } else {
        s.push_str("extend ");
    }
    s.push_str(match t.kind {
        Kind::Scalar => "scalar",
        Kind::Object => "type",
        Kind::Interface => "interface",
        Kind::Union => "union",
        Kind::Enum => "enum",
        Kind::Input => "input",
    });
    s.push(' ');
    s.push_str(n);
    let mut some = false;
    let mut imp: Vec<&str> = t.implements.iter().map(|s| s.as_str()).filter(|i| keep(i)).collect();
    if l.reverse_members {
        imp.reverse();
    }
    if !imp.is_empty() {
        some = true;
        s.push_str(&format!(" implements {}", imp.join(" & ")));
    }
    if !ext {
        for d in &t.dirs {
            s.push(' ');
            s.push_str(d);
        }
    }
    let mut mem: Vec<&str> = t.members.iter().map(|s| s.as_str()).filter(|i| keep(i)).collect();
    if l.reverse_members {
        mem.reverse();
    }
    if !mem.is_empty() {
        some = true;
        s.push_str(&format!(" = {}", mem.join(" | ")));
    }
    let mut f: Vec<String> =
        t.fields.iter().filter(|(n, _)| keep(n)).map(|(n, f)| member_text(t.kind, n, f, l)).collect();
    if l.reverse_members {
        f.reverse();
    }
    if !f.is_empty() {
        some = true;
        s.push_str(&format!(" {{{}{}\n}}", l.sep, f.join(l.sep)));
    }
    (!ext || some).then_some(s)
}

fn roots_text(r: &Roots) -> String {
    let mut s = "schema".to_string();
    for d in &r.dirs {
        s.push(' ');
        s.push_str(d);
    }
    let ops: Vec<String> = [("query", &r.query), ("mutation", &r.mutation), ("subscription", &r.subscription)]
        .into_iter()
        .filter_map(|(k, v)| v.as_ref().map(|v| format!("{k}: {v}")))
        .collect();
    if !ops.is_empty() {
        s.push_str(&format!(" {{ {} }}", ops.join(" ")));
    }
    s
}

pub fn render(d: &Doc, l: &Layout) -> String {
    let mut defs = Vec::new();
    if let Some(s) = &d.schema {
        let desc = s.desc.as_ref().map(|d| format!("{}\n", desc_text(d, l))).unwrap_or_default();
        defs.push(format!("{desc}{}", roots_text(s)));
    }
    for s in &d.schema_extensions {
        defs.push(format!("extend {}", roots_text(s)));
    }
    for (n, dd) in &d.directives {
        let mut a: Vec<String> = dd.args.iter().map(|(n, a)| arg_text(n, a, l)).collect();
        if l.reverse_members {
            a.reverse();
        }
        let a = if a.is_empty() { String::new() } else { format!("({})", a.join(l.arg_sep)) };
        let desc = dd.desc.as_ref().map(|d| format!("{}\n", desc_text(d, l))).unwrap_or_default();
        let locs: Vec<&str> = dd.locations.iter().map(|s| s.as_str()).collect();
        defs.push(format!("{desc}directive @{n}{a}{} on {}", if dd.repeatable { " repeatable" } else { "" }, locs.join(" | ")));
    }
    for (n, t) in &d.types {
        defs.extend(type_text(n, t, l, false));
        defs.extend(type_text(n, t, l, true));
    }
    if l.reverse {
        defs.reverse();
    }
    defs.join(if l.comments { "\n# type Comment { x: Int }\n\n" } else { "\n\n" })
}

pub type Changes = BTreeMap<(String, ChangeKind), Option<String>>;

/// What must be reported between two documents, with the text the change must carry if any.
pub fn expected(a: &Doc, b: &Doc, lb: &Layout) -> Changes {
    use ChangeKind::*;
    let mut out = Changes::new();
    let mut put = |p: String, k: ChangeKind, t: Option<String>| {
        out.insert((p, k), t);
    };
    match (&a.schema, &b.schema) {
        (None, None) => {}
        (None, Some(s)) => put(":schema".into(), AddSchemaDefinition, s.desc.is_none().then(|| roots_text(s))),
        (Some(_), None) => put(":schema".into(), RemoveSchemaDefinition, None),
        (Some(x), Some(y)) => {
            for (k, p, q) in [
                (ChangeQueryType, &x.query, &y.query),
                (ChangeMutationType, &x.mutation, &y.mutation),
                (ChangeSubscriptionType, &x.subscription, &y.subscription),
            ] {
                if p != q {
                    put(":schema".into(), k, Some(q.clone().unwrap_or_default()));
                }
            }
        }
    }
    for n in a.directives.keys().filter(|n| !b.directives.contains_key(*n)) {
        put(n.clone(), RemoveDirectiveDefinition, None);
    }
    for n in b.directives.keys().filter(|n| !a.directives.contains_key(*n)) {
        put(n.clone(), AddDirectiveDefinition, None);
    }
    let removed = |k| match k {
        Kind::Scalar => RemoveScalar,
        Kind::Object => RemoveObjectType,
        Kind::Interface => RemoveInterface,
        Kind::Union => RemoveUnion,
        Kind::Enum => RemoveEnum,
        Kind::Input => RemoveInputObject,
    };
    let added = |k| match k {
        Kind::Scalar => AddScalar,
        Kind::Object => AddObjectType,
        Kind::Interface => AddInterface,
        Kind::Union => AddUnion,
        Kind::Enum => AddEnum,
        Kind::Input => AddInputObject,
    };
    let mut names: Vec<&String> = a.types.keys().chain(b.types.keys()).collect();
    names.sort();
    names.dedup();
    for n in names {
        let (x, y) = match (a.types.get(n), b.types.get(n)) {
            (Some(x), Some(y)) if x.kind == y.kind => (x, y),
            (x, y) => {
                if let Some(x) = x {
                    put(n.clone(), removed(x.kind), None);
                }
                if let Some(y) = y {
                    let whole = y.desc.is_none() && lb.extended.is_empty();
                    put(n.clone(), added(y.kind), whole.then(|| type_text(n, y, lb, false)).flatten());
                }
                continue;
            }
        };
        for i in x.implements.difference(&y.implements) {
            put(format!("{n}.&{i}"), RemoveInterfaceImplementation, None);
        }
        for i in y.implements.difference(&x.implements) {
            put(format!("{n}.&{i}"), AddInterfaceImplementation, None);
        }
        for i in x.members.difference(&y.members) {
            put(format!("{n}.{i}"), RemoveUnionMember, None);
        }
        for i in y.members.difference(&x.members) {
            put(format!("{n}.{i}"), AddUnionMember, Some(i.clone()));
        }
        let (add, rem) = if x.kind == Kind::Enum { (AddEnumValue, RemoveEnumValue) } else { (AddField, RemoveField) };
        for f in x.fields.keys().filter(|f| !y.fields.contains_key(*f)) {
            put(format!("{n}.{f}"), rem, None);
        }
        for (f, d) in &y.fields {
            let Some(old) = x.fields.get(f) else {
                put(format!("{n}.{f}"), add, Some(member_text(y.kind, f, d, lb)));
                continue;
            };
            if old.ty != d.ty {
                put(format!("{n}.{f}"), ChangeFieldType, Some(d.ty.clone()));
            }
            for g in old.args.keys().filter(|g| !d.args.contains_key(*g)) {
                put(format!("{n}.{f}.{g}"), RemoveFieldArgument, None);
            }
            for (g, v) in &d.args {
                let p = format!("{n}.{f}.{g}");
                let Some(o) = old.args.get(g) else {
                    put(p, AddFieldArgument, Some(arg_text(g, v, lb)));
                    continue;
                };
                if o.ty != v.ty {
                    put(p.clone(), ChangeFieldArgumentType, Some(v.ty.clone()));
                }
                match (&o.default, &v.default) {
                    (None, Some(d)) => put(p, AddFieldArgumentDefault, Some(d.clone())),
                    (Some(_), None) => put(p, RemoveFieldArgumentDefault, None),
                    (Some(c), Some(d)) if c != d => put(p, ChangeFieldArgumentDefault, Some(d.clone())),
                    _ => {}
                }
            }
        }
    }
    // Extensions of the schema are only compared by number.
    let (m, n) = (a.schema_extensions.len(), b.schema_extensions.len());
    if m != n {
        // counted separately by the caller, their paths repeat
        put(":schema[0]".into(), if m < n { AddSchemaExtension } else { RemoveSchemaExtension }, None);
    }
    out
}

/// What patching `a` with the difference to `b` must give: `b`, except for what is not diffed.
pub fn patched(a: &Doc, b: &Doc) -> Doc {
    let mut out = b.clone();
    for (n, t) in &mut out.types {
        if let Some(old) = a.types.get(n).filter(|o| o.kind == t.kind) {
            t.desc = old.desc.clone();
            t.dirs = old.dirs.clone();
            for (f, d) in &mut t.fields {
                if let Some(o) = old.fields.get(f) {
                    d.desc = o.desc.clone();
                    d.dirs = o.dirs.clone();
                    d.default = o.default.clone();
                    for (g, v) in &mut d.args {
                        if let Some(o) = o.args.get(g) {
                            v.desc = o.desc.clone();
                            v.dirs = o.dirs.clone();
                        }
                    }
                }
            }
        }
    }
    for (n, d) in &mut out.directives {
        if let Some(o) = a.directives.get(n) {
            *d = o.clone();
        }
    }
    if let (Some(x), Some(y)) = (&a.schema, &mut out.schema) {
        y.desc = x.desc.clone();
        y.dirs = x.dirs.clone();
    }
    out
}

/// Gives every element a description and a directive that only depend on its path.
pub fn decorate(d: &mut Doc, which: Decor) {
    let dec = |p: String, desc: &mut Option<String>, dirs: &mut Vec<String>| {
        if which.desc {
            *desc = Some(format!("about {p}, \u{e9} {{ # ( }}"));
        }
        if which.dirs {
            *dirs = vec![format!("@tag(name:{p:?})"), "@x".into()];
        }
    };
    for (n, t) in &mut d.types {
        dec(n.clone(), &mut t.desc, &mut t.dirs);
        for (f, v) in &mut t.fields {
            dec(format!("{n}.{f}"), &mut v.desc, &mut v.dirs);
            for (g, v) in &mut v.args {
                dec(format!("{n}.{f}.{g}"), &mut v.desc, &mut v.dirs);
            }
        }
    }
    if let Some(s) = &mut d.schema {
        dec("schema".into(), &mut s.desc, &mut s.dirs);
    }
    for (n, t) in &mut d.directives {
        let mut none = vec![];
        dec(format!("@{n}"), &mut t.desc, &mut none);
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Decor {
    pub desc: bool,
    pub dirs: bool,
}
