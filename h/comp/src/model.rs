//! Subgraphs, their SDL, and the composition rules in the most direct form.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

pub use sdl::Kind;

/// A field type: its name and whether each level is non-null, innermost first.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct T {
    pub name: String,
    pub nn: Vec<bool>,
}

impl T {
    pub fn parse(s: &str) -> T {
        let (s, nn) = match s.strip_suffix('!') {
            Some(r) => (r, true),
            None => (s, false),
        };
        match s.strip_prefix('[').and_then(|s| s.strip_suffix(']')) {
            Some(inner) => {
                let mut t = T::parse(inner);
                t.nn.push(nn);
                t
            }
            None => T { name: s.into(), nn: vec![nn] },
        }
    }
    pub fn show(&self) -> String {
        let mut s = self.name.clone();
        for (i, nn) in self.nn.iter().enumerate() {
            if i > 0 {
                s = format!("[{s}]");
            }
            if *nn {
                s.push('!');
            }
        }
        s
    }
    pub fn required(&self) -> bool {
        *self.nn.last().unwrap()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum D {
    Tag(&'static str),
    Inaccessible,
    Authenticated,
    Scopes(Vec<Vec<&'static str>>),
    Policy(Vec<Vec<&'static str>>),
    Cost(i32),
    ListSize(Option<i32>, Vec<&'static str>, Vec<&'static str>, Option<bool>),
    Deprecated(Option<&'static str>),
    OneOf,
}

#[derive(Clone, Debug, Default)]
pub struct Fd {
    pub name: String,
    pub ty: String,
    pub args: Vec<Fd>,
    pub dirs: Vec<D>,
    pub desc: Option<String>,
    pub default: Option<String>,
    pub shareable: bool,
    pub external: bool,
    pub over: Option<(String, Option<String>)>,
    pub requires: Option<String>,
    pub provides: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub kind: Kind,
    pub desc: Option<String>,
    pub keys: Vec<(String, bool)>,
    pub shareable: bool,
    pub external: bool,
    pub dirs: Vec<D>,
    pub implements: Vec<String>,
    pub members: Vec<String>,
    pub fields: Vec<Fd>,
}

/// How the subgraph refers to federation directives.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Link {
    V1,
    Import,
    Namespace,
    As,
    Alias,
}

#[derive(Clone, Debug)]
pub struct Sub {
    pub name: String,
    pub link: Link,
    /// custom names of the query, mutation and subscription types
    pub roots: [Option<String>; 3],
    pub types: Vec<Def>,
    /// render field lists and directives after the first half as type extensions
    pub split: bool,
}

pub fn f(name: &str, ty: &str) -> Fd {
    Fd { name: name.into(), ty: ty.into(), ..Default::default() }
}
impl Fd {
    pub fn arg(mut self, a: Fd) -> Fd {
        self.args.push(a);
        self
    }
    pub fn dir(mut self, d: D) -> Fd {
        self.dirs.push(d);
        self
    }
    pub fn share(mut self) -> Fd {
        self.shareable = true;
        self
    }
    pub fn def(mut self, d: &str) -> Fd {
        self.default = Some(d.into());
        self
    }
}
pub fn def(kind: Kind, name: &str, fields: Vec<Fd>) -> Def {
    Def {
        name: name.into(),
        kind,
        desc: None,
        keys: vec![],
        shareable: false,
        external: false,
        dirs: vec![],
        implements: vec![],
        members: vec![],
        fields,
    }
}
pub fn obj(name: &str, fields: Vec<Fd>) -> Def {
    def(Kind::Object, name, fields)
}
impl Def {
    pub fn key(mut self, k: &str) -> Def {
        self.keys.push((k.into(), true));
        self
    }
    pub fn share(mut self) -> Def {
        self.shareable = true;
        self
    }
    pub fn imp(mut self, i: &str) -> Def {
        self.implements.push(i.into());
        self
    }
    pub fn mem(mut self, i: &str) -> Def {
        self.members.push(i.into());
        self
    }
}
pub fn sub(name: &str, types: Vec<Def>) -> Sub {
    Sub { name: name.into(), link: Link::Import, roots: [None, None, None], types, split: false }
}

const DIRECTIVES: &[&str] = &[
    "key", "shareable", "inaccessible", "override", "external", "requires", "provides", "tag", "authenticated",
    "requiresScopes", "policy", "cost", "listSize",
];

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn lists(v: &[Vec<&str>]) -> String {
    let l: Vec<String> =
        v.iter().map(|l| format!("[{}]", l.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(","))).collect();
    format!("[{}]", l.join(","))
}
fn strs(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(","))
}

impl D {
    fn name(&self) -> &'static str {
        match self {
            D::Tag(_) => "tag",
            D::Inaccessible => "inaccessible",
            D::Authenticated => "authenticated",
            D::Scopes(_) => "requiresScopes",
            D::Policy(_) => "policy",
            D::Cost(_) => "cost",
            D::ListSize(..) => "listSize",
            D::Deprecated(_) => "deprecated",
            D::OneOf => "oneOf",
        }
    }
    fn args(&self) -> String {
        match self {
            D::Tag(n) => format!("(name:\"{n}\")"),
            D::Scopes(v) => format!("(scopes:{})", lists(v)),
            D::Policy(v) => format!("(policies:{})", lists(v)),
            D::Cost(w) => format!("(weight:{w})"),
            D::Deprecated(Some(r)) => format!("(reason:{})", quote(r)),
            D::ListSize(size, slicing, sized, one) => {
                let mut a = vec![];
                if let Some(s) = size {
                    a.push(format!("assumedSize:{s}"));
                }
                if let Some(o) = one {
                    a.push(format!("requireOneSlicingArgument:{o}"));
                }
                if !sized.is_empty() {
                    a.push(format!("sizedFields:{}", strs(sized)));
                }
                if !slicing.is_empty() {
                    a.push(format!("slicingArguments:{}", strs(slicing)));
                }
                format!("({})", a.join(","))
            }
            D::Inaccessible | D::Authenticated | D::OneOf | D::Deprecated(None) => String::new(),
        }
    }
}

impl Link {
    fn at(&self, name: &str) -> String {
        if matches!(name, "deprecated" | "oneOf") {
            return format!("@{name}");
        }
        match self {
            Link::V1 | Link::Import => format!("@{name}"),
            Link::Namespace => format!("@federation__{name}"),
            Link::As => format!("@fed__{name}"),
            Link::Alias => format!("@my_{name}"),
        }
    }
    fn header(&self) -> String {
        const U: &str = "url: \"https://specs.apollo.dev/federation/v2.9\"";
        match self {
            Link::V1 => String::new(),
            Link::Namespace => format!("@link({U})"),
            Link::As => format!("@link({U}, as: \"fed\")"),
            Link::Import => {
                let l: Vec<String> = DIRECTIVES.iter().map(|d| format!("\"@{d}\"")).collect();
                format!("@link({U}, import: [{}])", l.join(", "))
            }
            Link::Alias => {
                let l: Vec<String> =
                    DIRECTIVES.iter().map(|d| format!("{{ name: \"@{d}\", as: \"@my_{d}\" }}")).collect();
                format!("@link({U}, import: [{}])", l.join(", "))
            }
        }
    }
}

impl Sub {
    pub fn root(&self, i: usize) -> &str {
        self.roots[i].as_deref().unwrap_or(["Query", "Mutation", "Subscription"][i])
    }
    /// The name of the type in the supergraph.
    pub fn composed(&self, name: &str) -> String {
        for i in 0..3 {
            if self.root(i) == name && self.types.iter().any(|t| t.name == name && t.kind == Kind::Object) {
                return ["Query", "Mutation", "Subscription"][i].into();
            }
        }
        name.into()
    }
    fn dirs(&self, o: &mut String, ds: &[D]) {
        for d in ds {
            let _ = write!(o, " {}{}", self.link.at(d.name()), d.args());
        }
    }
    fn field(&self, o: &mut String, x: &Fd) {
        if let Some(d) = &x.desc {
            let _ = write!(o, "{} ", quote(d));
        }
        o.push_str(&x.name);
        if !x.args.is_empty() {
            o.push('(');
            for a in &x.args {
                self.field(o, a);
                o.push(' ');
            }
            o.push(')');
        }
        if !x.ty.is_empty() {
            let _ = write!(o, ": {}", x.ty);
        }
        if let Some(d) = &x.default {
            let _ = write!(o, " = {d}");
        }
        for (on, n) in [(x.shareable, "shareable"), (x.external, "external")] {
            if on {
                let _ = write!(o, " {}", self.link.at(n));
            }
        }
        if let Some((from, label)) = &x.over {
            let _ = write!(o, " {}(from: {}", self.link.at("override"), quote(from));
            if let Some(l) = label {
                let _ = write!(o, ", label: {}", quote(l));
            }
            o.push(')');
        }
        for (v, n) in [(&x.requires, "requires"), (&x.provides, "provides")] {
            if let Some(v) = v {
                let _ = write!(o, " {}(fields: {})", self.link.at(n), quote(v));
            }
        }
        self.dirs(o, &x.dirs);
    }
    pub fn sdl(&self) -> String {
        let mut o = String::new();
        let custom = self.roots.iter().any(|r| r.is_some());
        if custom {
            let _ = write!(o, "schema {} {{", self.link.header());
            for (i, n) in ["query", "mutation", "subscription"].iter().enumerate() {
                if self.roots[i].is_some() {
                    let _ = write!(o, " {n}: {}", self.root(i));
                }
            }
            o.push_str(" }\n");
        } else if self.link != Link::V1 {
            let _ = writeln!(o, "extend schema {}", self.link.header());
        }
        let mut late = String::new();
        for t in &self.types {
            if let Some(d) = &t.desc {
                let _ = writeln!(o, "{}", quote(d));
            }
            let head = |o: &mut String, first: bool, last: bool| {
                let kw = ["scalar", "type", "interface", "union", "enum", "input"][t.kind as usize];
                let _ = write!(o, "{}{kw} {}", if first { "" } else { "extend " }, t.name);
                if first && !t.implements.is_empty() {
                    let _ = write!(o, " implements {}", t.implements.join(" & "));
                }
                if first {
                    for (k, r) in &t.keys {
                        let _ = write!(o, " {}(fields: {}", self.link.at("key"), quote(k));
                        if !r {
                            o.push_str(", resolvable: false");
                        }
                        o.push(')');
                    }
                    for (on, n) in [(t.shareable, "shareable"), (t.external, "external")] {
                        if on {
                            let _ = write!(o, " {}", self.link.at(n));
                        }
                    }
                }
                if last {
                    self.dirs(o, &t.dirs);
                }
            };
            let body = |o: &mut String, fs: &[Fd], ms: &[String]| {
                if !fs.is_empty() {
                    o.push_str(" {\n");
                    for x in fs {
                        o.push_str("  ");
                        self.field(o, x);
                        o.push('\n');
                    }
                    o.push('}');
                }
                if !ms.is_empty() {
                    let _ = write!(o, " = {}", ms.join(" | "));
                }
                o.push('\n');
            };
            let n = t.fields.len().max(t.members.len());
            if self.split && n >= 2 && t.kind != Kind::Scalar {
                head(&mut o, true, false);
                let (fh, mh) = (t.fields.len().div_ceil(2), t.members.len().div_ceil(2));
                body(&mut o, &t.fields[..fh], &t.members[..mh]);
                head(&mut late, false, true);
                body(&mut late, &t.fields[fh..], &t.members[mh..]);
            } else {
                head(&mut o, true, true);
                body(&mut o, &t.fields, &t.members);
            }
        }
        o + &late
    }
}

// ------------------------------------------------------------------ expected supergraph

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Route {
    pub ty: String,
    pub external: bool,
    pub over: Option<(String, Option<String>)>,
    pub requires: Option<String>,
    pub provides: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct EF {
    pub ty: String,
    pub desc: Option<String>,
    pub default: Option<String>,
    /// directives other than join directives, in canonical form
    pub dirs: BTreeSet<String>,
    pub args: BTreeMap<String, EF>,
    pub routes: BTreeMap<String, Route>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ET {
    pub kind: Kind,
    pub desc: Option<String>,
    pub dirs: BTreeSet<String>,
    pub joins: BTreeSet<String>,
    pub implements: BTreeSet<String>,
    pub members: BTreeSet<String>,
    pub fields: BTreeMap<String, EF>,
}

pub type Graph = BTreeMap<String, ET>;

/// The value as the SDL reader shows it.
fn canon_value(v: &str) -> String {
    let doc = sdl::parse(&format!("input X {{ a: X = {v} }}")).expect("a value");
    doc.types["X"].fields["a"].default.clone().expect("a value")
}

/// `@requiresScopes` and `@policy` hold a set of alternatives.
pub fn canon(d: &str) -> String {
    if d.starts_with("@requiresScopes(") || d.starts_with("@policy(") {
        let (head, rest) = d.split_once(":[").unwrap();
        let inner = rest.strip_suffix("])").unwrap_or(rest);
        let mut parts: Vec<&str> = inner.trim_start_matches('[').trim_end_matches(']').split("],[").collect();
        parts.sort();
        parts.dedup();
        return format!("{head}:{{{}}}", parts.join("}{"));
    }
    d.to_string()
}

fn merge_dirs<'a>(sites: impl Iterator<Item = &'a Vec<D>> + Clone, args: Option<&BTreeSet<String>>, child: Option<&BTreeSet<String>>) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let (mut scopes, mut policies) = (vec![], vec![]);
    let mut list: Option<(Option<i32>, Vec<&str>, Vec<&str>, Option<bool>)> = None;
    let (mut cost, mut deprecated) = (None, None);
    for d in sites.flatten() {
        match d {
            D::Tag(_) | D::Inaccessible | D::Authenticated | D::OneOf => {
                out.insert(format!("@{}{}", d.name(), d.args()));
            }
            D::Scopes(v) => scopes.extend(v.iter().cloned()),
            D::Policy(v) => policies.extend(v.iter().cloned()),
            D::Cost(_) => {
                cost.get_or_insert(d);
            }
            D::Deprecated(_) => {
                deprecated.get_or_insert(d);
            }
            D::ListSize(a, b, c, e) => {
                list = Some(match list {
                    None => (*a, b.clone(), c.clone(), *e),
                    Some((a0, mut b0, mut c0, e0)) => {
                        b0.extend(b);
                        c0.extend(c);
                        (a0.max(*a), b0, c0, Some(e0.unwrap_or(true) || e.unwrap_or(true)))
                    }
                })
            }
        }
    }
    for d in cost.into_iter().chain(deprecated) {
        out.insert(match d {
            D::Deprecated(Some(reason)) => format!("@deprecated(reason:{reason:?})"),
            d => format!("@{}{}", d.name(), d.args()),
        });
    }
    if !scopes.is_empty() {
        out.insert(canon(&format!("@requiresScopes(scopes:{})", lists(&scopes))));
    }
    if !policies.is_empty() {
        out.insert(canon(&format!("@policy(policies:{})", lists(&policies))));
    }
    if let Some((a, mut b, mut c, e)) = list {
        b.retain(|n| args.is_some_and(|a| a.contains(*n)));
        c.retain(|n| child.is_some_and(|a| a.contains(*n)));
        for v in [&mut b, &mut c] {
            v.sort();
            v.dedup();
        }
        // requiring one slicing argument is the default
        let e = if e == Some(false) { Some(false) } else { None };
        out.insert(format!("@listSize{}", D::ListSize(a, b, c, e).args()));
    }
    out
}

fn merge_types(ts: &[T], input: bool) -> Option<T> {
    let first = &ts[0];
    let n = first.nn.len();
    let same = ts.iter().all(|t| t.name == first.name && t.nn.len() == n && t.nn[..n - 1] == first.nn[..n - 1]);
    let mut out = first.clone();
    out.nn[n - 1] = if input { ts.iter().any(T::required) } else { ts.iter().all(T::required) };
    same.then_some(out)
}

pub type Errors = BTreeSet<&'static str>;

const BUILTIN: [&str; 5] = ["ID", "String", "Int", "Float", "Boolean"];

/// Top level fields of a key, looking through inline fragments.
fn key_fields(k: &str) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let mut depth = 0;
    let toks: Vec<&str> = k.split_whitespace().collect();
    let mut fragment_depths = vec![];
    let mut i = 0;
    while i < toks.len() {
        match toks[i] {
            "..." => {
                i += 3; // ... on X {
                fragment_depths.push(depth);
            }
            "{" => depth += 1,
            "}" => {
                if fragment_depths.last() == Some(&depth) {
                    fragment_depths.pop();
                } else {
                    depth -= 1;
                }
            }
            t if depth == 0 => {
                out.insert(t.split('(').next().unwrap().to_string());
            }
            _ => {}
        }
        i += 1;
    }
    out
}

/// The join__Graph value of a subgraph.
fn graph_name(s: &str) -> String {
    s.to_uppercase().replace('-', "_")
}

/// The same definition in several subgraphs.
struct Group<'a> {
    name: String,
    root: bool,
    defs: Vec<(&'a Sub, &'a Def)>,
}

pub fn compose(subs: &[Sub]) -> (Graph, Errors) {
    let mut errs: Errors = BTreeSet::new();
    let mut out: Graph = BTreeMap::new();
    let mut groups: BTreeMap<(String, bool), Group> = BTreeMap::new();
    for s in subs {
        for t in &s.types {
            if (t.name == "_Service" && t.kind == Kind::Object) || (t.name == "_Entity" && t.kind == Kind::Union) {
                continue;
            }
            let is_root = t.kind == Kind::Object && (0..3).any(|i| s.root(i) == t.name);
            for i in 0..3 {
                if t.kind == Kind::Object && s.roots[i].is_some() && s.root(i) != t.name && ["Query", "Mutation", "Subscription"][i] == t.name
                    && !(0..3).any(|j| s.root(j) == t.name)
                {
                    errs.insert("default root name");
                }
            }
            let name = if is_root { s.composed(&t.name) } else { t.name.clone() };
            if name == "join__Graph" {
                errs.insert("reserved name");
                continue;
            }
            groups.entry((name.clone(), is_root)).or_insert_with(|| Group { name, root: is_root, defs: vec![] }).defs.push((s, t));
        }
    }
    if !groups.keys().any(|k| k.1) {
        errs.insert("no root");
    }

    // whether a type of the subgraph is inaccessible
    let hidden = |s: &Sub, ty: &T| s.types.iter().any(|t| t.name == ty.name && t.dirs.contains(&D::Inaccessible));
    let hidden_anywhere = |ty: &T| subs.iter().any(|s| hidden(s, ty));
    let ftype = |s: &Sub, ty: &str, output: bool| {
        let mut t = T::parse(ty);
        if output {
            t.name = s.composed(&t.name);
        }
        t
    };

    // how each enum is used
    let mut input_uses = BTreeSet::new();
    let mut output_uses = BTreeSet::new();
    for s in subs {
        for t in &s.types {
            for x in &t.fields {
                match t.kind {
                    Kind::Input => {
                        input_uses.insert(T::parse(&x.ty).name);
                    }
                    Kind::Object | Kind::Interface if !(["_entities", "_service"].contains(&x.name.as_str()) && s.root(0) == t.name) => {
                        output_uses.insert(T::parse(&x.ty).name);
                        for a in &x.args {
                            input_uses.insert(T::parse(&a.ty).name);
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    // the names of the fields each type ends up with, for @listSize(sizedFields:)
    let mut all_fields: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for g in groups.values() {
        let e = all_fields.entry(g.name.clone()).or_default();
        for (_, d) in &g.defs {
            e.extend(d.fields.iter().map(|x| x.name.clone()));
        }
    }

    for g in groups.values() {
        let kind = g.defs[0].1.kind;
        if g.defs.iter().any(|d| d.1.kind != kind) {
            errs.insert("kinds");
            continue;
        }
        let graphs: Vec<String> = g.defs.iter().map(|d| graph_name(&d.0.name)).collect();
        let mut t = ET {
            kind,
            desc: g.defs.iter().find_map(|d| d.1.desc.clone()),
            dirs: merge_dirs(g.defs.iter().map(|d| &d.1.dirs), None, None),
            joins: BTreeSet::new(),
            implements: BTreeSet::new(),
            members: BTreeSet::new(),
            fields: BTreeMap::new(),
        };
        for (s, d) in &g.defs {
            let graph = graph_name(&s.name);
            for i in &d.implements {
                t.implements.insert(i.clone());
                t.joins.insert(format!("@join__implements(graph:{graph},interface:\"{i}\")"));
            }
            for m in &d.members {
                t.members.insert(m.clone());
                t.joins.insert(format!("@join__unionMember(graph:{graph},member:\"{m}\")"));
            }
        }
        let is_entity = kind == Kind::Object && !g.root && g.defs.iter().any(|d| !d.1.keys.is_empty());
        if is_entity && g.defs.iter().any(|d| d.1.keys.is_empty() && d.0.link != Link::V1) {
            errs.insert("entity in some subgraphs only");
        }
        if !g.root && !matches!(kind, Kind::Scalar | Kind::Union) {
            for ((_, d), graph) in g.defs.iter().zip(&graphs) {
                if is_entity {
                    for (k, resolvable) in &d.keys {
                        let r = if *resolvable { "" } else { ",resolvable:false" };
                        t.joins.insert(format!("@join__type(graph:{graph},key:{k:?}{r})"));
                    }
                } else {
                    t.joins.insert(format!("@join__type(graph:{graph})"));
                }
            }
        }
        if g.root && g.name == "Query" && g.defs.iter().any(|d| d.1.dirs.contains(&D::Inaccessible)) {
            errs.insert("inaccessible query root");
        }
        if g.name == "Subscription" && g.root && g.defs.iter().any(|d| d.1.shareable || d.1.fields.iter().any(|x| x.shareable)) {
            errs.insert("shareable subscription");
        }
        // fields by name
        let mut names: BTreeMap<&str, Vec<(&Sub, &Def, &Fd)>> = BTreeMap::new();
        for (s, d) in &g.defs {
            for x in &d.fields {
                if g.root && g.name == "Query" && ["_entities", "_service"].contains(&x.name.as_str()) {
                    continue;
                }
                names.entry(&x.name).or_default().push((s, d, x));
            }
        }
        match kind {
            Kind::Scalar | Kind::Union => {}
            Kind::Enum => {
                let all = g.defs.len();
                let (i, o) = (input_uses.contains(&g.name), output_uses.contains(&g.name));
                let common = names.values().filter(|v| v.len() == all).count();
                if i && o && common != names.len() {
                    errs.insert("enum values differ");
                }
                if i && !o && common == 0 {
                    errs.insert("enum values disjoint");
                }
                for (n, v) in &names {
                    if i && !o && v.len() != all {
                        continue;
                    }
                    t.fields.insert(
                        n.to_string(),
                        EF {
                            desc: v.iter().find_map(|x| x.2.desc.clone()),
                            dirs: merge_dirs(v.iter().map(|x| &x.2.dirs), None, None),
                            routes: v.iter().map(|x| (graph_name(&x.0.name), Route::default())).collect(),
                            ..Default::default()
                        },
                    );
                }
            }
            Kind::Input => {
                let all = g.defs.len();
                if names.values().all(|v| v.len() != all) {
                    errs.insert("no common input field");
                }
                for (n, v) in &names {
                    let ts: Vec<T> = v.iter().map(|x| T::parse(&x.2.ty)).collect();
                    if v.len() != all {
                        if ts.iter().any(T::required) {
                            errs.insert("required input field missing");
                        }
                        continue;
                    }
                    let Some(ty) = merge_types(&ts, true) else {
                        errs.insert("input field types");
                        continue;
                    };
                    if ts.iter().any(hidden_anywhere) && !v.iter().any(|x| x.2.dirs.contains(&D::Inaccessible)) {
                        errs.insert("accessible input field of an inaccessible type");
                    }
                    t.fields.insert(
                        n.to_string(),
                        EF {
                            ty: ty.show(),
                            desc: v.iter().find_map(|x| x.2.desc.clone()),
                            default: v.iter().find_map(|x| x.2.default.clone()).map(|d| canon_value(&d)),
                            dirs: merge_dirs(v.iter().map(|x| &x.2.dirs), None, None),
                            routes: v
                                .iter()
                                .zip(&ts)
                                .map(|(x, t)| (graph_name(&x.0.name), Route { ty: t.show(), ..Default::default() }))
                                .collect(),
                            ..Default::default()
                        },
                    );
                }
            }
            Kind::Object | Kind::Interface => {
                if kind == Kind::Interface && names.values().flatten().any(|x| x.2.shareable) {
                    errs.insert("shareable interface field");
                }
                if kind == Kind::Object && !g.root && g.defs.iter().any(|d| d.1.shareable) {
                    for v in names.values() {
                        if v.len() != g.defs.len() && !v.iter().any(|x| x.2.dirs.contains(&D::Inaccessible)) {
                            errs.insert("shareable types differ");
                        }
                    }
                }
                for (n, v) in &names {
                    let in_key = |d: &Def| d.keys.iter().any(|k| key_fields(&k.0).contains(*n));
                    let external = |d: &Def, x: &Fd| d.external || x.external;
                    if kind == Kind::Object && !v.iter().any(|(_, d, x)| x.shareable || d.shareable || in_key(d)) {
                        let sources = v
                            .iter()
                            .filter(|(s, d, x)| x.over.is_none() && !external(d, x) && s.link != Link::V1)
                            .count();
                        if sources > 1 {
                            errs.insert("not shareable");
                        }
                    }
                    if v.iter().any(|(s, _, x)| !x.dirs.contains(&D::Inaccessible) && hidden(s, &T::parse(&x.ty)))
                        || v.iter().any(|(_, _, x)| hidden_anywhere(&T::parse(&x.ty)))
                            && !v.iter().any(|(_, _, x)| x.dirs.contains(&D::Inaccessible))
                    {
                        errs.insert("accessible field of an inaccessible type");
                    }
                    // overrides
                    let over: BTreeMap<&str, &str> =
                        v.iter().filter_map(|(s, _, x)| Some((s.name.as_str(), x.over.as_ref()?.0.as_str()))).collect();
                    let targets: BTreeSet<&str> = over.values().copied().collect();
                    if targets.len() != over.len() {
                        errs.insert("overridden twice");
                    }
                    for (s, _, x) in v {
                        let Some((from, _)) = &x.over else { continue };
                        if *from == s.name {
                            errs.insert("overrides itself");
                        }
                        let mut at = from.as_str();
                        for _ in 0..over.len() {
                            match over.get(at) {
                                Some(next) if at != s.name => at = next,
                                _ => break,
                            }
                        }
                        if at == s.name && *from != s.name {
                            errs.insert("override cycle");
                        }
                    }
                    for (_, d, x) in v {
                        if external(d, x) && (x.requires.is_some() || x.provides.is_some()) {
                            errs.insert("external with requires or provides");
                        }
                    }
                    // arguments
                    let mut args: BTreeMap<&str, Vec<(&Sub, &Fd)>> = BTreeMap::new();
                    for (s, _, x) in v {
                        for a in &x.args {
                            args.entry(&a.name).or_default().push((s, a));
                        }
                    }
                    let mut eargs = BTreeMap::new();
                    for (an, av) in &args {
                        let defaults: BTreeSet<&String> = av.iter().filter_map(|a| a.1.default.as_ref()).collect();
                        if defaults.len() > 1 {
                            errs.insert("argument defaults");
                        }
                        let ts: Vec<T> = av.iter().map(|a| T::parse(&a.1.ty)).collect();
                        if av.len() != v.len() {
                            if ts.iter().any(T::required) {
                                errs.insert("required argument missing");
                            }
                            continue;
                        }
                        let Some(ty) = merge_types(&ts, true) else {
                            errs.insert("argument types");
                            continue;
                        };
                        if !av.iter().any(|a| a.1.dirs.contains(&D::Inaccessible)) && av.iter().any(|a| hidden_anywhere(&T::parse(&a.1.ty))) {
                            errs.insert("accessible argument of an inaccessible type");
                        }
                        eargs.insert(
                            an.to_string(),
                            EF {
                                ty: ty.show(),
                                desc: av.iter().find_map(|a| a.1.desc.clone()),
                                default: av.iter().find_map(|a| a.1.default.clone()).map(|d| canon_value(&d)),
                                dirs: merge_dirs(av.iter().map(|a| &a.1.dirs), None, None),
                                ..Default::default()
                            },
                        );
                    }
                    let ts: Vec<T> = v.iter().map(|(s, _, x)| ftype(s, &x.ty, true)).collect();
                    let Some(ty) = merge_types(&ts, false) else {
                        errs.insert("field types");
                        continue;
                    };
                    let overridden: BTreeSet<&str> = v
                        .iter()
                        .filter_map(|(_, _, x)| x.over.as_ref())
                        .filter(|o| o.1.is_none() || o.1.as_deref() == Some("percent(100)"))
                        .map(|o| o.0.as_str())
                        .collect();
                    let routes = v
                        .iter()
                        .zip(&ts)
                        .filter(|((s, _, _), _)| !overridden.contains(s.name.as_str()))
                        .map(|((s, d, x), t)| {
                            (
                                graph_name(&s.name),
                                Route {
                                    ty: t.show(),
                                    external: external(d, x) && !in_key(d),
                                    over: x.over.clone(),
                                    requires: x.requires.clone(),
                                    provides: x.provides.clone(),
                                },
                            )
                        })
                        .collect();
                    let arg_names: BTreeSet<String> = eargs.keys().cloned().collect();
                    t.fields.insert(
                        n.to_string(),
                        EF {
                            desc: v.iter().find_map(|x| x.2.desc.clone()),
                            dirs: merge_dirs(v.iter().map(|x| &x.2.dirs), Some(&arg_names), all_fields.get(&ty.name)),
                            ty: ty.show(),
                            default: None,
                            args: eargs,
                            routes,
                        },
                    );
                }
            }
        }
        if out.insert(g.name.clone(), t).is_some() {
            errs.insert("ambiguous root name");
        }
    }

    // interfaces are implemented
    for s in subs {
        for d in &s.types {
            for i in &d.implements {
                let Some(iface) = out.get(i) else { continue };
                if iface.kind != Kind::Interface {
                    continue;
                }
                let own = out.get(&d.name);
                for n in iface.fields.keys() {
                    if !own.is_some_and(|o| o.fields.contains_key(n)) {
                        errs.insert("interface field not implemented");
                    }
                }
            }
        }
    }
    // all types exist
    for s in subs {
        for t in &s.types {
            for x in &t.fields {
                let n = match t.kind {
                    Kind::Enum => continue,
                    Kind::Input => T::parse(&x.ty).name,
                    _ => ftype(s, &x.ty, true).name,
                };
                for n in x.args.iter().map(|a| T::parse(&a.ty).name).chain([n]) {
                    let known = BUILTIN.contains(&n.as_str()) || out.contains_key(&n);
                    if !known && errs.is_empty() {
                        errs.insert("undefined type");
                    }
                }
            }
        }
    }
    (out, errs)
}

// ------------------------------------------------------------------ reading the composed SDL

/// `@name(a:1,b:"x,y")` -> name and arguments
pub fn split_directive(d: &str) -> (String, BTreeMap<String, String>) {
    let Some((name, rest)) = d.split_once('(') else {
        return (d.into(), BTreeMap::new());
    };
    let rest = rest.strip_suffix(')').unwrap_or(rest);
    let mut args = BTreeMap::new();
    let (mut depth, mut quoted, mut escaped) = (0, false, false);
    let mut cur = String::new();
    let mut parts = vec![];
    for c in rest.chars() {
        if quoted {
            if escaped {
                escaped = false;
            } else if c == '\\' {
                escaped = true;
            } else if c == '"' {
                quoted = false;
            }
        } else {
            match c {
                '"' => quoted = true,
                '[' | '{' => depth += 1,
                ']' | '}' => depth -= 1,
                ',' if depth == 0 => {
                    parts.push(std::mem::take(&mut cur));
                    continue;
                }
                _ => {}
            }
        }
        cur.push(c);
    }
    parts.push(cur);
    for p in parts {
        if let Some((k, v)) = p.split_once(':') {
            args.insert(k.to_string(), v.trim_matches('"').to_string());
        }
    }
    (name.into(), args)
}

fn list_size(d: &str) -> String {
    if !d.starts_with("@listSize") {
        return canon(d);
    }
    let (_, mut a) = split_directive(d);
    if a.get("requireOneSlicingArgument").map(String::as_str) == Some("true") {
        a.remove("requireOneSlicingArgument");
    }
    for k in ["slicingArguments", "sizedFields"] {
        if let Some(v) = a.get_mut(k) {
            let mut items: Vec<String> = v.trim_matches(['[', ']']).split(',').filter(|s| !s.is_empty()).map(str::to_string).collect();
            items.sort();
            items.dedup();
            *v = format!("[{}]", items.join(","));
        }
        if a.get(k).map(String::as_str) == Some("[]") {
            a.remove(k);
        }
    }
    format!("@listSize({})", a.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(","))
}

fn plain_dirs(ds: &[String]) -> BTreeSet<String> {
    ds.iter().filter(|d| !d.starts_with("@join__")).map(|d| list_size(d)).collect()
}

fn read_field(x: &sdl::Field, type_graphs: &BTreeSet<String>, enum_value: bool, inherit: bool) -> EF {
    let mut routes = BTreeMap::new();
    for d in &x.dirs {
        let (n, mut a) = split_directive(d);
        if enum_value && n == "@join__enumValue" {
            routes.insert(a.remove("graph").unwrap_or_default(), Route::default());
        }
        if n == "@join__field" {
            let Some(graph) = a.remove("graph") else {
                routes.insert("(interface)".into(), Route::default());
                continue;
            };
            let from = a.remove("override");
            let label = a.remove("overrideLabel");
            routes.insert(
                graph,
                Route {
                    ty: a.remove("type").unwrap_or_else(|| x.ty.clone()),
                    external: a.remove("external").as_deref() == Some("true"),
                    over: from.map(|f| (f, label)),
                    requires: a.remove("requires"),
                    provides: a.remove("provides"),
                },
            );
        }
    }
    if routes.is_empty() && !enum_value && inherit {
        for g in type_graphs {
            routes.insert(g.clone(), Route { ty: x.ty.clone(), ..Default::default() });
        }
    }
    EF {
        ty: x.ty.clone(),
        desc: x.desc.clone(),
        default: x.default.clone(),
        dirs: plain_dirs(&x.dirs),
        args: x.args.iter().map(|(n, a)| (n.clone(), read_field(a, type_graphs, false, false))).collect(),
        routes,
    }
}

/// The supergraph a federated SDL describes, and its join__Graph values.
pub fn read(doc: &sdl::Doc) -> (Graph, BTreeSet<String>) {
    let mut out = Graph::new();
    let mut graphs = BTreeSet::new();
    for (n, t) in &doc.types {
        if n == "join__Graph" {
            for (v, x) in &t.fields {
                for d in &x.dirs {
                    let (_, a) = split_directive(d);
                    graphs.insert(format!("{v}={}@{}", a.get("name").cloned().unwrap_or_default(), a.get("url").cloned().unwrap_or_default()));
                }
            }
            continue;
        }
        let type_graphs: BTreeSet<String> = t
            .dirs
            .iter()
            .filter(|d| d.starts_with("@join__type"))
            .filter_map(|d| split_directive(d).1.remove("graph"))
            .collect();
        out.insert(
            n.clone(),
            ET {
                kind: t.kind,
                desc: t.desc.clone(),
                dirs: plain_dirs(&t.dirs),
                joins: t.dirs.iter().filter(|d| d.starts_with("@join__")).cloned().collect(),
                implements: t.implements.clone(),
                members: t.members.clone(),
                fields: t.fields.iter().map(|(n, x)| (n.clone(), read_field(x, &type_graphs, t.kind == Kind::Enum, true))).collect(),
            },
        );
    }
    (out, graphs)
}

/// What clients may see of a supergraph.
pub fn api(g: &Graph, leak_arguments: bool) -> Graph {
    let hidden = |d: &BTreeSet<String>| d.contains("@inaccessible");
    let public = |d: &BTreeSet<String>| d.iter().filter(|d| d.starts_with("@deprecated")).cloned().collect();
    let mut out = Graph::new();
    for (n, t) in g {
        if hidden(&t.dirs) || (t.kind == Kind::Scalar && BUILTIN.contains(&n.as_str())) {
            continue;
        }
        let strip = |x: &EF, args: BTreeMap<String, EF>| EF {
            ty: x.ty.clone(),
            desc: x.desc.clone(),
            default: x.default.clone(),
            dirs: public(&x.dirs),
            args,
            routes: BTreeMap::new(),
        };
        let fields: BTreeMap<String, EF> = t
            .fields
            .iter()
            .filter(|(_, x)| !hidden(&x.dirs))
            .map(|(n, x)| {
                let args = x
                    .args
                    .iter()
                    .filter(|(_, a)| leak_arguments || !hidden(&a.dirs))
                    .map(|(n, a)| (n.clone(), strip(a, BTreeMap::new())))
                    .collect();
                (n.clone(), strip(x, args))
            })
            .collect();
        if fields.is_empty() && t.kind == Kind::Object {
            continue;
        }
        out.insert(
            n.clone(),
            ET {
                kind: t.kind,
                desc: t.desc.clone(),
                dirs: public(&t.dirs),
                joins: BTreeSet::new(),
                implements: BTreeSet::new(),
                members: t.members.iter().filter(|m| g.get(*m).is_none_or(|m| !hidden(&m.dirs))).cloned().collect(),
                fields,
            },
        );
    }
    out
}
