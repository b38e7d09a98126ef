//! Order insensitive view of a GraphQL type system document, with extensions merged.
//! Shared by the harnesses to compare documents for meaning instead of for text.
use std::collections::{BTreeMap, BTreeSet};

use cynic_parser::{ConstValue, type_system as ts};

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Doc {
    pub schema: Option<Roots>,
    pub schema_extensions: Vec<Roots>,
    pub types: BTreeMap<String, Ty>,
    pub directives: BTreeMap<String, DirDef>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Roots {
    pub desc: Option<String>,
    pub dirs: Vec<String>,
    pub query: Option<String>,
    pub mutation: Option<String>,
    pub subscription: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct DirDef {
    pub args: BTreeMap<String, Field>,
    pub locations: BTreeSet<String>,
    pub repeatable: bool,
    pub desc: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Scalar,
    Object,
    Interface,
    Union,
    Enum,
    Input,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Ty {
    pub kind: Kind,
    pub desc: Option<String>,
    pub dirs: Vec<String>,
    pub implements: BTreeSet<String>,
    pub members: BTreeSet<String>,
    /// object, interface and input object fields; enum values (without type)
    pub fields: BTreeMap<String, Field>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Field {
    pub ty: String,
    pub desc: Option<String>,
    pub dirs: Vec<String>,
    pub default: Option<String>,
    pub args: BTreeMap<String, Field>,
}

pub fn value(v: ConstValue<'_>) -> String {
    match v {
        ConstValue::Int(i) => i.value().to_string(),
        ConstValue::Float(f) => format!("{:?}f", f.value()),
        ConstValue::String(s) => format!("{:?}", s.value()),
        ConstValue::Boolean(b) => b.value().to_string(),
        ConstValue::Null(_) => "null".into(),
        ConstValue::Enum(e) => e.name().to_string(),
        ConstValue::List(l) => format!("[{}]", l.items().map(value).collect::<Vec<_>>().join(",")),
        ConstValue::Object(o) => {
            let mut f: Vec<String> = o.fields().map(|f| format!("{}:{}", f.name(), value(f.value()))).collect();
            f.sort();
            format!("{{{}}}", f.join(","))
        }
    }
}

pub fn directive(d: ts::Directive<'_>) -> String {
    let mut a: Vec<String> = d.arguments().map(|a| format!("{}:{}", a.name(), value(a.value()))).collect();
    if a.is_empty() {
        return format!("@{}", d.name());
    }
    a.sort();
    format!("@{}({})", d.name(), a.join(","))
}

fn dirs<'a>(it: impl Iterator<Item = ts::Directive<'a>>) -> Vec<String> {
    let mut v: Vec<String> = it.map(directive).collect();
    v.sort();
    v
}

fn desc(d: Option<ts::Description<'_>>) -> Option<String> {
    d.map(|d| d.to_cow().into_owned())
}

fn ins<V>(m: &mut BTreeMap<String, V>, path: &str, k: &str, v: V) -> Result<(), String> {
    if m.insert(k.to_string(), v).is_some() {
        return Err(format!("{path}{k} is defined twice"));
    }
    Ok(())
}

pub fn input_value(i: ts::InputValueDefinition<'_>) -> Field {
    Field {
        ty: i.ty().to_string(),
        desc: desc(i.description()),
        dirs: dirs(i.directives()),
        default: i.default_value().map(value),
        args: BTreeMap::new(),
    }
}

fn args<'a>(path: &str, it: impl Iterator<Item = ts::InputValueDefinition<'a>>) -> Result<BTreeMap<String, Field>, String> {
    let mut m = BTreeMap::new();
    for a in it {
        ins(&mut m, path, a.name(), input_value(a))?;
    }
    Ok(m)
}

fn fields<'a>(ty: &mut Ty, path: &str, it: impl Iterator<Item = ts::FieldDefinition<'a>>) -> Result<(), String> {
    for f in it {
        let v = Field {
            ty: f.ty().to_string(),
            desc: desc(f.description()),
            dirs: dirs(f.directives()),
            default: None,
            args: args(&format!("{path}.{}.", f.name()), f.arguments())?,
        };
        ins(&mut ty.fields, &format!("{path}."), f.name(), v)?;
    }
    Ok(())
}

fn roots(s: ts::SchemaDefinition<'_>) -> Roots {
    let n = |t: Option<ts::RootOperationTypeDefinition<'_>>| t.map(|t| t.named_type().to_string());
    Roots {
        desc: desc(s.description()),
        dirs: dirs(s.directives()),
        query: n(s.query_type()),
        mutation: n(s.mutation_type()),
        subscription: n(s.subscription_type()),
    }
}

pub fn parse(sdl: &str) -> Result<Doc, String> {
    if sdl.trim().is_empty() {
        return Ok(Doc::default());
    }
    let doc = cynic_parser::parse_type_system_document(sdl).map_err(|e| format!("invalid GraphQL: {e}"))?;
    view(&doc)
}

pub fn view(doc: &cynic_parser::TypeSystemDocument) -> Result<Doc, String> {
    let mut out = Doc::default();
    let mut defined = BTreeSet::new();
    for d in doc.definitions() {
        match d {
            ts::Definition::Schema(s) => {
                if out.schema.replace(roots(s)).is_some() {
                    return Err("two schema definitions".into());
                }
            }
            ts::Definition::SchemaExtension(s) => out.schema_extensions.push(roots(s)),
            ts::Definition::Directive(d) => {
                let v = DirDef {
                    args: args(&format!("@{}.", d.name()), d.arguments())?,
                    locations: d.locations().map(|l| l.to_string()).collect(),
                    repeatable: d.is_repeatable(),
                    desc: desc(d.description()),
                };
                ins(&mut out.directives, "@", d.name(), v)?;
            }
            ts::Definition::Type(t) | ts::Definition::TypeExtension(t) => {
                if matches!(d, ts::Definition::Type(_)) && !defined.insert(t.name().to_string()) {
                    return Err(format!("type {} is defined twice", t.name()));
                }
                let kind = match t {
                    ts::TypeDefinition::Scalar(_) => Kind::Scalar,
                    ts::TypeDefinition::Object(_) => Kind::Object,
                    ts::TypeDefinition::Interface(_) => Kind::Interface,
                    ts::TypeDefinition::Union(_) => Kind::Union,
                    ts::TypeDefinition::Enum(_) => Kind::Enum,
                    ts::TypeDefinition::InputObject(_) => Kind::Input,
                };
                let ty = out.types.entry(t.name().to_string()).or_insert_with(|| Ty {
                    kind,
                    desc: None,
                    dirs: vec![],
                    implements: BTreeSet::new(),
                    members: BTreeSet::new(),
                    fields: BTreeMap::new(),
                });
                if ty.kind != kind {
                    return Err(format!("type {} is extended as another kind", t.name()));
                }
                if ty.desc.is_none() {
                    ty.desc = desc(t.description());
                }
                ty.dirs.extend(dirs(t.directives()));
                ty.dirs.sort();
                let name = t.name();
                match t {
                    ts::TypeDefinition::Scalar(_) => {}
                    ts::TypeDefinition::Object(o) => {
                        ty.implements.extend(o.implements_interfaces().map(str::to_string));
                        fields(ty, name, o.fields())?;
                    }
                    ts::TypeDefinition::Interface(o) => {
                        ty.implements.extend(o.implements_interfaces().map(str::to_string));
                        fields(ty, name, o.fields())?;
                    }
                    ts::TypeDefinition::Union(u) => {
                        for m in u.members() {
                            if !ty.members.insert(m.name().to_string()) {
                                return Err(format!("{name} has member {} twice", m.name()));
                            }
                        }
                    }
                    ts::TypeDefinition::Enum(e) => {
                        for v in e.values() {
                            let f = Field { desc: desc(v.description()), dirs: dirs(v.directives()), ..Field::default() };
                            ins(&mut ty.fields, &format!("{name}."), v.value(), f)?;
                        }
                    }
                    ts::TypeDefinition::InputObject(i) => {
                        for f in i.fields() {
                            ins(&mut ty.fields, &format!("{name}."), f.name(), input_value(f))?;
                        }
                    }
                }
            }
        }
    }
    Ok(out)
}

impl Doc {
    /// One line per fact, for readable comparisons.
    pub fn facts(&self) -> BTreeSet<String> {
        let mut o = BTreeSet::new();
        let r = |p: &str, r: &Roots, o: &mut BTreeSet<String>| {
            o.insert(format!("{p} {:?} {:?} {:?} {:?} {}", r.query, r.mutation, r.subscription, r.desc, r.dirs.join(" ")));
        };
        if let Some(s) = &self.schema {
            r("schema", s, &mut o);
        }
        for s in &self.schema_extensions {
            r("extend schema", s, &mut o);
        }
        for (n, d) in &self.directives {
            o.insert(format!("directive @{n} {:?} repeatable={} on {:?}", d.desc, d.repeatable, d.locations));
            for (a, f) in &d.args {
                o.insert(f.line(&format!("directive @{n}({a})")));
            }
        }
        for (n, t) in &self.types {
            o.insert(format!("{:?} {n} {:?} {}", t.kind, t.desc, t.dirs.join(" ")));
            for i in &t.implements {
                o.insert(format!("{n} implements {i}"));
            }
            for i in &t.members {
                o.insert(format!("{n} = {i}"));
            }
            for (f, d) in &t.fields {
                o.insert(d.line(&format!("{n}.{f}")));
                for (a, d) in &d.args {
                    o.insert(d.line(&format!("{n}.{f}({a})")));
                }
            }
        }
        o
    }

    /// Human readable difference, None when equal.
    pub fn difference(&self, other: &Doc) -> Option<String> {
        if self == other {
            return None;
        }
        let (a, b) = (self.facts(), other.facts());
        let mut s = String::new();
        for x in a.difference(&b) {
            s.push_str(&format!("\n     missing:    {x}"));
        }
        for x in b.difference(&a) {
            s.push_str(&format!("\n     unexpected: {x}"));
        }
        if s.is_empty() {
            s = "\n     (order of schema extensions)".into();
        }
        Some(s)
    }
}

impl Field {
    fn line(&self, path: &str) -> String {
        let mut s = format!("{path}: {}", self.ty);
        if let Some(d) = &self.default {
            s.push_str(&format!(" = {d}"));
        }
        if let Some(d) = &self.desc {
            s.push_str(&format!(" desc={d:?}"));
        }
        for d in &self.dirs {
            s.push(' ');
            s.push_str(d);
        }
        s
    }
}
