//! A type system document and its text.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    N(String),
    L(Box<Ty>),
    R(Box<Ty>),
}

impl Ty {
    /// "[A!]!" and the like.
    pub fn new(s: &str) -> Ty {
        if let Some(inner) = s.strip_suffix('!') {
            Ty::R(Box::new(Ty::new(inner)))
        } else if let Some(inner) = s.strip_prefix('[') {
            Ty::L(Box::new(Ty::new(inner.strip_suffix(']').unwrap())))
        } else {
            Ty::N(s.to_owned())
        }
    }
    pub fn name(&self) -> &str {
        match self {
            Ty::N(n) => n,
            Ty::L(t) | Ty::R(t) => t.name(),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Ty::N(n) => n.clone(),
            Ty::L(t) => format!("[{}]", t.text()),
            Ty::R(t) => format!("{}!", t.text()),
        }
    }
    pub fn required(&self) -> bool {
        matches!(self, Ty::R(_))
    }
}

#[derive(Clone, Debug)]
pub struct Input {
    pub name: String,
    pub ty: Ty,
    pub default: Option<String>,
    pub dirs: Vec<String>,
}

pub fn input(name: &str, ty: &str) -> Input {
    Input { name: name.into(), ty: Ty::new(ty), default: None, dirs: vec![] }
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub args: Vec<Input>,
    pub ty: Ty,
    pub dirs: Vec<String>,
}

pub fn field(name: &str, ty: &str) -> Field {
    Field { name: name.into(), args: vec![], ty: Ty::new(ty), dirs: vec![] }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Scalar,
    Object,
    Interface,
    Union,
    Enum,
    Input,
    Directive,
    Schema,
}

pub const TYPE_KINDS: [Kind; 6] = [Kind::Scalar, Kind::Object, Kind::Interface, Kind::Union, Kind::Enum, Kind::Input];

#[derive(Clone, Debug)]
pub struct Def {
    pub kind: Kind,
    pub ext: bool,
    pub name: String,
    pub dirs: Vec<String>,
    pub implements: Vec<String>,
    pub fields: Vec<Field>,
    pub members: Vec<String>,
    pub values: Vec<(String, Vec<String>)>,
    pub inputs: Vec<Input>,
    pub repeatable: bool,
    pub locations: Vec<&'static str>,
    pub roots: Vec<(&'static str, String)>,
}

pub fn def(kind: Kind, name: &str) -> Def {
    Def {
        kind,
        ext: false,
        name: name.into(),
        dirs: vec![],
        implements: vec![],
        fields: vec![],
        members: vec![],
        values: vec![],
        inputs: vec![],
        repeatable: false,
        locations: vec![],
        roots: vec![],
    }
}

impl Def {
    pub fn ext(mut self) -> Def {
        self.ext = true;
        self
    }
    pub fn extend_if(mut self, ext: bool) -> Def {
        self.ext = ext;
        self
    }
    pub fn imp(mut self, i: &str) -> Def {
        self.implements.push(i.into());
        self
    }
    pub fn f(mut self, f: Field) -> Def {
        self.fields.push(f);
        self
    }
    pub fn i(mut self, i: Input) -> Def {
        self.inputs.push(i);
        self
    }
    pub fn m(mut self, m: &str) -> Def {
        self.members.push(m.into());
        self
    }
    pub fn v(mut self, v: &str) -> Def {
        self.values.push((v.into(), vec![]));
        self
    }
    pub fn d(mut self, d: &str) -> Def {
        self.dirs.push(d.into());
        self
    }
    pub fn on(mut self, l: &'static str) -> Def {
        self.locations.push(l);
        self
    }
    pub fn root(mut self, op: &'static str, ty: &str) -> Def {
        self.roots.push((op, ty.into()));
        self
    }
}

fn dirs(out: &mut String, dirs: &[String]) {
    for d in dirs {
        write!(out, " @{d}").unwrap();
    }
}

fn inp(out: &mut String, i: &Input) {
    write!(out, "{}: {}", i.name, i.ty.text()).unwrap();
    if let Some(d) = &i.default {
        write!(out, " = {d}").unwrap();
    }
    dirs(out, &i.dirs);
}

fn args(out: &mut String, args: &[Input]) {
    if args.is_empty() {
        return;
    }
    out.push('(');
    for (n, a) in args.iter().enumerate() {
        if n > 0 {
            out.push_str(", ");
        }
        inp(out, a);
    }
    out.push(')');
}

pub fn text(defs: &[Def]) -> String {
    let mut o = String::new();
    for d in defs {
        if d.ext {
            o.push_str("extend ");
        }
        match d.kind {
            Kind::Scalar => {
                write!(o, "scalar {}", d.name).unwrap();
                dirs(&mut o, &d.dirs);
            }
            Kind::Object | Kind::Interface => {
                write!(o, "{} {}", if d.kind == Kind::Object { "type" } else { "interface" }, d.name).unwrap();
                if !d.implements.is_empty() {
                    write!(o, " implements {}", d.implements.join(" & ")).unwrap();
                }
                dirs(&mut o, &d.dirs);
                // The parser (a dependency) takes no interface extension that only adds interfaces.
                if d.ext && d.kind == Kind::Interface && d.fields.is_empty() && d.dirs.is_empty() {
                    o.push_str(" @filler");
                }
                if !d.fields.is_empty() {
                    o.push_str(" {");
                    for f in &d.fields {
                        write!(o, "\n  {}", f.name).unwrap();
                        args(&mut o, &f.args);
                        write!(o, ": {}", f.ty.text()).unwrap();
                        dirs(&mut o, &f.dirs);
                    }
                    o.push_str("\n}");
                }
            }
            Kind::Union => {
                write!(o, "union {}", d.name).unwrap();
                dirs(&mut o, &d.dirs);
                if !d.members.is_empty() {
                    write!(o, " = {}", d.members.join(" | ")).unwrap();
                }
            }
            Kind::Enum => {
                write!(o, "enum {}", d.name).unwrap();
                dirs(&mut o, &d.dirs);
                if !d.values.is_empty() {
                    o.push_str(" {");
                    for (v, ds) in &d.values {
                        write!(o, " {v}").unwrap();
                        dirs(&mut o, ds);
                    }
                    o.push_str(" }");
                }
            }
            Kind::Input => {
                write!(o, "input {}", d.name).unwrap();
                dirs(&mut o, &d.dirs);
                if !d.inputs.is_empty() {
                    o.push_str(" {");
                    for i in &d.inputs {
                        o.push_str("\n  ");
                        inp(&mut o, i);
                    }
                    o.push_str("\n}");
                }
            }
            Kind::Directive => {
                write!(o, "directive @{}", d.name).unwrap();
                args(&mut o, &d.inputs);
                if d.repeatable {
                    o.push_str(" repeatable");
                }
                write!(o, " on {}", d.locations.join(" | ")).unwrap();
            }
            Kind::Schema => {
                o.push_str("schema");
                dirs(&mut o, &d.dirs);
                if !d.roots.is_empty() {
                    o.push_str(" {");
                    for (op, t) in &d.roots {
                        write!(o, " {op}: {t}").unwrap();
                    }
                    o.push_str(" }");
                }
            }
        }
        o.push('\n');
    }
    o
}
