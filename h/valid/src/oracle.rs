//! The type system validation rules of the GraphQL specification (October 2021), written over the document model.
use crate::doc::*;
use std::collections::{BTreeMap, BTreeSet};

pub const BUILTIN: [&str; 5] = ["Int", "Float", "String", "Boolean", "ID"];

/// A type with its extensions merged.
#[derive(Default)]
struct T<'a> {
    kind: Option<Kind>,
    implements: Vec<&'a str>,
    fields: Vec<&'a Field>,
    members: Vec<&'a str>,
    values: Vec<&'a str>,
    inputs: Vec<&'a Input>,
}

struct S<'a> {
    types: BTreeMap<&'a str, T<'a>>,
    directives: BTreeMap<&'a str, &'a Def>,
    errs: BTreeSet<String>,
}

pub struct Opts {
    pub forbid_unknown_extensions: bool,
    pub draft: bool,
}

/// The rules the document breaks.
pub fn broken(doc: &[Def], opts: &Opts) -> BTreeSet<String> {
    let mut s = S { types: BTreeMap::new(), directives: BTreeMap::new(), errs: BTreeSet::new() };
    for d in doc.iter().filter(|d| !d.ext) {
        match d.kind {
            Kind::Directive => {
                if s.directives.insert(&d.name, d).is_some() {
                    s.err("unique directive name");
                }
                reserved(&mut s, &d.name);
                s.inputs(&d.inputs, "ARGUMENT_DEFINITION", opts, "argument");
            }
            Kind::Schema => (),
            kind => {
                if kind != Kind::Scalar && BUILTIN.contains(&d.name.as_str()) {
                    s.err("builtin scalar name");
                }
                if s.types.contains_key(d.name.as_str()) {
                    s.err("unique type name");
                }
                s.types.insert(&d.name, T { kind: Some(kind), ..T::default() });
            }
        }
    }
    for d in doc {
        if matches!(d.kind, Kind::Directive | Kind::Schema) {
            continue;
        }
        reserved(&mut s, &d.name);
        if d.ext {
            let builtin = d.kind == Kind::Scalar && BUILTIN.contains(&d.name.as_str());
            match s.types.get(d.name.as_str()).and_then(|t| t.kind) {
                Some(k) if k == d.kind => (),
                _ if builtin => continue,
                Some(_) => s.err("extension of another kind"),
                None => {
                    if opts.forbid_unknown_extensions {
                        s.err("extension of an unknown type");
                    }
                    s.types.insert(&d.name, T { kind: Some(d.kind), ..T::default() });
                }
            }
        }
        let t = s.types.get_mut(d.name.as_str()).unwrap();
        t.implements.extend(d.implements.iter().map(|i| i.as_str()));
        t.fields.extend(&d.fields);
        t.members.extend(d.members.iter().map(|i| i.as_str()));
        t.values.extend(d.values.iter().map(|i| i.0.as_str()));
        t.inputs.extend(&d.inputs);
        let loc = match d.kind {
            Kind::Scalar => "SCALAR",
            Kind::Object => "OBJECT",
            Kind::Interface => "INTERFACE",
            Kind::Union => "UNION",
            Kind::Enum => "ENUM",
            _ => "INPUT_OBJECT",
        };
        s.applied(doc, &d.dirs, loc);
        for (_, ds) in &d.values {
            s.applied(doc, ds, "ENUM_VALUE");
        }
        for f in &d.fields {
            s.applied(doc, &f.dirs, "FIELD_DEFINITION");
            for a in &f.args {
                s.applied(doc, &a.dirs, "ARGUMENT_DEFINITION");
            }
        }
        for i in &d.inputs {
            s.applied(doc, &i.dirs, "INPUT_FIELD_DEFINITION");
        }
    }
    for d in doc.iter().filter(|d| d.kind == Kind::Directive) {
        for i in &d.inputs {
            s.applied(doc, &i.dirs, "ARGUMENT_DEFINITION");
            s.position(&i.ty, true);
        }
    }

    let names: Vec<&str> = s.types.keys().copied().collect();
    for n in names {
        s.ty(n, opts);
    }
    s.schema(doc);
    s.errs
}

fn reserved(s: &mut S, n: &str) {
    if n.starts_with("__") {
        s.err("reserved name");
    }
}

fn dup<'x>(names: impl Iterator<Item = &'x str>) -> bool {
    let mut seen = BTreeSet::new();
    let mut d = false;
    for n in names {
        d |= !seen.insert(n);
    }
    d
}

impl<'a> S<'a> {
    fn err(&mut self, e: &str) {
        self.errs.insert(e.to_owned());
    }

    fn kind(&self, n: &str) -> Option<Kind> {
        if BUILTIN.contains(&n) {
            return Some(Kind::Scalar);
        }
        self.types.get(n).and_then(|t| t.kind)
    }

    fn applied(&mut self, doc: &'a [Def], dirs: &[String], location: &str) {
        for (n, d) in dirs.iter().enumerate() {
            let name = d.split('(').next().unwrap();
            let Some(def) = doc.iter().find(|x| x.kind == Kind::Directive && x.name == name) else { continue };
            if !def.locations.contains(&location) {
                self.err("directive location");
            }
            if !def.repeatable && dirs[..n].iter().any(|o| o.split('(').next().unwrap() == name) {
                self.err("repeated directive");
            }
        }
    }

    fn position(&mut self, ty: &Ty, input: bool) {
        match (self.kind(ty.name()), input) {
            (None, _) => self.err("unknown type"),
            (Some(Kind::Object | Kind::Interface | Kind::Union), true) => self.err("output type in input position"),
            (Some(Kind::Input), false) => self.err("input type in output position"),
            _ => (),
        }
    }

    fn inputs(&mut self, inputs: &[Input], _loc: &str, opts: &Opts, what: &str) {
        if dup(inputs.iter().map(|i| i.name.as_str())) {
            self.err(&format!("unique {what} name"));
        }
        for i in inputs {
            reserved(self, &i.name);
            if opts.draft && i.ty.required() && i.default.is_none() && i.dirs.iter().any(|d| d.starts_with("deprecated")) {
                self.err("required deprecated");
            }
        }
    }

    fn ty(&mut self, n: &'a str, opts: &Opts) {
        let t = self.types.remove(n).unwrap();
        let (implements, fields, members, values, inputs) =
            (t.implements.clone(), t.fields.clone(), t.members.clone(), t.values.clone(), t.inputs.clone());
        let kind = t.kind.unwrap();
        self.types.insert(n, t);
        match kind {
            Kind::Scalar | Kind::Directive | Kind::Schema => (),
            Kind::Object | Kind::Interface => {
                if fields.is_empty() {
                    self.err("no fields");
                }
                if dup(fields.iter().map(|f| f.name.as_str())) {
                    self.err("unique field name");
                }
                for f in &fields {
                    reserved(self, &f.name);
                    self.position(&f.ty, false);
                    self.inputs(&f.args, "", opts, "argument");
                    for a in &f.args {
                        self.position(&a.ty, true);
                    }
                }
                if dup(implements.iter().copied()) {
                    self.err("implements twice");
                }
                for i in &implements {
                    match self.kind(i) {
                        Some(Kind::Interface) => (),
                        _ => {
                            self.err("implements a non-interface");
                            continue;
                        }
                    }
                    if *i == n {
                        self.err("implements itself");
                    }
                    let iface = &self.types[i];
                    let missing = iface.implements.iter().any(|j| !implements.contains(j));
                    let bad = iface.fields.iter().any(|want| !fields.iter().any(|have| have.name == want.name && self.covariant(have, want)));
                    if missing {
                        self.err("transitive interface");
                    }
                    if bad {
                        self.err("interface field");
                    }
                }
            }
            Kind::Union => {
                if members.is_empty() {
                    self.err("no members");
                }
                if dup(members.iter().copied()) {
                    self.err("unique member");
                }
                for m in members {
                    if self.kind(m) != Some(Kind::Object) {
                        self.err("member is no object");
                    }
                }
            }
            Kind::Enum => {
                if values.is_empty() {
                    self.err("no values");
                }
                if dup(values.iter().copied()) {
                    self.err("unique value");
                }
                for v in values {
                    reserved(self, v);
                    if matches!(v, "true" | "false" | "null") {
                        self.err("value name");
                    }
                }
            }
            Kind::Input => {
                if inputs.is_empty() {
                    self.err("no input fields");
                }
                let owned: Vec<Input> = inputs.iter().map(|i| (*i).clone()).collect();
                self.inputs(&owned, "", opts, "input field");
                for i in &inputs {
                    self.position(&i.ty, true);
                }
                if self.reaches(n) {
                    self.err("input cycle");
                }
            }
        }
    }

    /// Does a chain of required fields lead from the input object back to it?
    fn reaches(&self, from: &str) -> bool {
        let mut seen = BTreeSet::new();
        let mut todo = vec![from];
        while let Some(n) = todo.pop() {
            let Some(t) = self.types.get(n) else { continue };
            for i in &t.inputs {
                if let Ty::R(inner) = &i.ty
                    && let Ty::N(next) = &**inner
                {
                    if next == from {
                        return true;
                    }
                    if seen.insert(next.as_str()) {
                        todo.push(next);
                    }
                }
            }
        }
        false
    }

    fn covariant(&self, have: &Field, want: &Field) -> bool {
        want.args.iter().all(|w| have.args.iter().any(|h| h.name == w.name && h.ty == w.ty))
            && have.args.iter().all(|h| !(h.ty.required() && h.default.is_none()) || want.args.iter().any(|w| w.name == h.name))
            && self.subtype(&have.ty, &want.ty)
    }

    fn subtype(&self, have: &Ty, want: &Ty) -> bool {
        match (have, want) {
            (Ty::R(h), Ty::R(w)) => self.subtype(h, w),
            (Ty::R(h), w) => self.subtype(h, w),
            (_, Ty::R(_)) => false,
            (Ty::L(h), Ty::L(w)) => self.subtype(h, w),
            (Ty::N(h), Ty::N(w)) => {
                h == w
                    || match self.kind(w) {
                        Some(Kind::Union) => self.types[w.as_str()].members.contains(&h.as_str()),
                        Some(Kind::Interface) => self.types.get(h.as_str()).is_some_and(|t| t.implements.contains(&w.as_str())),
                        _ => false,
                    }
            }
            _ => false,
        }
    }

    fn schema(&mut self, doc: &'a [Def]) {
        let defs: Vec<&Def> = doc.iter().filter(|d| d.kind == Kind::Schema).collect();
        if defs.iter().filter(|d| !d.ext).count() > 1 {
            self.err("one schema definition");
        }
        for d in &defs {
            self.applied(doc, &d.dirs, "SCHEMA");
            if !d.ext && !d.roots.iter().any(|(op, _)| *op == "query") {
                self.err("query root");
            }
        }
        let named: Vec<(&str, &str)> = defs.iter().flat_map(|d| d.roots.iter().map(|(op, t)| (*op, t.as_str()))).collect();
        let roots: Vec<(&str, &str)> = if defs.iter().all(|d| d.ext) && named.is_empty() {
            // Without a schema definition, the default names are the roots.
            ["query", "mutation", "subscription"]
                .into_iter()
                .zip(["Query", "Mutation", "Subscription"])
                .filter(|(_, t)| self.types.contains_key(t))
                .collect()
        } else {
            named
        };
        if dup(roots.iter().map(|r| r.0)) {
            self.err("operation twice");
        }
        if dup(roots.iter().map(|r| r.1)) {
            self.err("root type twice");
        }
        for (_, t) in roots {
            if self.kind(t) != Some(Kind::Object) {
                self.err("root is no object");
            }
        }
    }
}
