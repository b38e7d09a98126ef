//! What operation checks mean: a reference for the usage an operation has of a schema, for the
//! diagnostics a schema change deserves given that usage, and (independently of those rules) for
//! whether an operation still works the same on the changed schema.
use std::collections::{BTreeMap, BTreeSet};

use async_graphql_parser::types::{
    BaseType, ExecutableDocument, Field as OpField, OperationType, Selection, SelectionSet, Type, VariableDefinition,
};
use async_graphql_value::{ConstValue, Value};
use sdl::{Doc, Field, Kind, Ty};

#[derive(Default, Debug, Clone)]
pub struct Usage {
    /// everything counts as used
    pub all: bool,
    pub fields: BTreeMap<(String, String), u64>,
    pub args: BTreeMap<(String, String, String), u64>,
    pub left_out: BTreeMap<(String, String, String), u64>,
    pub enums: BTreeMap<(String, String), u64>,
    /// fragment on the second inside of the first
    pub conds: BTreeMap<(String, String), u64>,
    /// fragment on the type, anywhere
    pub cond_types: BTreeMap<String, u64>,
}

fn bump<K: Ord>(m: &mut BTreeMap<K, u64>, k: K, by: u64) {
    *m.entry(k).or_insert(0) += by;
}

fn s3(a: &str, b: &str, c: &str) -> (String, String, String) {
    (a.into(), b.into(), c.into())
}

pub fn base(ty: &str) -> &str {
    ty.trim_matches(['[', ']', '!'])
}

pub fn nonnull(ty: &str) -> bool {
    ty.ends_with('!')
}

/// Non-null marks from the outermost list to the named type.
fn levels(ty: &str) -> Vec<bool> {
    let mut out = Vec::new();
    let mut t = ty;
    loop {
        let nn = t.ends_with('!');
        if nn {
            t = &t[..t.len() - 1];
        }
        out.push(nn);
        match t.strip_prefix('[') {
            Some(inner) => t = &inner[..inner.len() - 1],
            None => return out,
        }
    }
}

fn ty_text(t: &Type) -> String {
    let b = match &t.base {
        BaseType::Named(n) => n.to_string(),
        BaseType::List(i) => format!("[{}]", ty_text(i)),
    };
    if t.nullable { b } else { format!("{b}!") }
}

pub fn root(d: &Doc, op: OperationType) -> String {
    let r = d.schema.clone().unwrap_or_default();
    match op {
        OperationType::Query => r.query.unwrap_or("Query".into()),
        OperationType::Mutation => r.mutation.unwrap_or("Mutation".into()),
        OperationType::Subscription => r.subscription.unwrap_or("Subscription".into()),
    }
}

impl Usage {
    pub fn add(&mut self, s: &Doc, doc: &ExecutableDocument, by: u64) {
        for (_, op) in doc.operations.iter() {
            for v in &op.node.variable_definitions {
                if let Some(d) = &v.node.default_value {
                    self.literal(s, base(&ty_text(&v.node.var_type.node)), &d.node.clone().into_value(), by);
                }
            }
            self.set(s, &root(s, op.node.ty), &op.node.selection_set.node, doc, by);
        }
    }

    fn literal(&mut self, s: &Doc, ty: &str, v: &Value, by: u64) {
        match v {
            Value::Enum(e) => bump(&mut self.enums, (ty.to_string(), e.to_string()), by),
            Value::List(l) => l.iter().for_each(|v| self.literal(s, ty, v, by)),
            Value::Object(o) => {
                for (k, v) in o {
                    if let Some(f) = s.types.get(ty).and_then(|t| t.fields.get(k.as_str())) {
                        self.literal(s, base(&f.ty), v, by);
                    }
                }
            }
            _ => {}
        }
    }

    fn set(&mut self, s: &Doc, parent: &str, set: &SelectionSet, doc: &ExecutableDocument, by: u64) {
        for sel in &set.items {
            match &sel.node {
                Selection::Field(f) => {
                    let f = &f.node;
                    let name = f.name.node.as_str();
                    let Some(def) = s.types.get(parent).and_then(|t| t.fields.get(name)) else { continue };
                    bump(&mut self.fields, (parent.into(), name.into()), by);
                    for (a, d) in &def.args {
                        match f.arguments.iter().find(|(n, _)| n.node.as_str() == a) {
                            Some((_, v)) => {
                                bump(&mut self.args, s3(parent, name, a), by);
                                self.literal(s, base(&d.ty), &v.node, by);
                            }
                            None if nonnull(&d.ty) && d.default.is_some() => bump(&mut self.left_out, s3(parent, name, a), by),
                            None => {}
                        }
                    }
                    self.set(s, base(&def.ty), &f.selection_set.node, doc, by);
                }
                Selection::InlineFragment(i) => match &i.node.type_condition {
                    Some(on) => self.cond(s, parent, on.node.on.node.as_str(), &i.node.selection_set.node, doc, by),
                    None => self.set(s, parent, &i.node.selection_set.node, doc, by),
                },
                Selection::FragmentSpread(n) => {
                    if let Some(f) = doc.fragments.get(&n.node.fragment_name.node) {
                        self.cond(s, parent, f.node.type_condition.node.on.node.as_str(), &f.node.selection_set.node, doc, by)
                    }
                }
            }
        }
    }

    fn cond(&mut self, s: &Doc, parent: &str, on: &str, set: &SelectionSet, doc: &ExecutableDocument, by: u64) {
        bump(&mut self.conds, (parent.into(), on.into()), by);
        bump(&mut self.cond_types, on.into(), by);
        self.set(s, on, set, doc, by);
    }

    pub fn threshold(&mut self, n: u64) {
        self.fields.retain(|_, c| *c >= n);
        self.args.retain(|_, c| *c >= n);
        self.left_out.retain(|_, c| *c >= n);
        self.enums.retain(|_, c| *c >= n);
        self.conds.retain(|_, c| *c >= n);
        self.cond_types.retain(|_, c| *c >= n);
    }

    fn field(&self, t: &str, f: &str) -> bool {
        self.all || self.fields.contains_key(&(t.into(), f.into()))
    }
    fn arg(&self, t: &str, f: &str, a: &str) -> bool {
        self.all || self.args.contains_key(&s3(t, f, a))
    }
    fn left(&self, t: &str, f: &str, a: &str) -> bool {
        self.all || self.left_out.contains_key(&s3(t, f, a))
    }
    fn enum_value(&self, t: &str, v: &str) -> bool {
        self.all || self.enums.contains_key(&(t.into(), v.into()))
    }
    /// A fragment relates the two types, one inside of the other.
    fn related(&self, a: &str, b: &str) -> bool {
        self.all || self.conds.contains_key(&(a.into(), b.into())) || self.conds.contains_key(&(b.into(), a.into()))
    }
    fn conditioned(&self, t: &str) -> bool {
        self.all || self.cond_types.contains_key(t)
    }

    /// A field or argument in use has the type, or a field of an input type in use, or there is a
    /// fragment on it.
    fn type_in_use(&self, s: &Doc, name: &str) -> bool {
        let inputs = self.inputs(s);
        self.conditioned(name)
            || inputs.contains(name)
            || s.types.iter().any(|(t, d)| {
                d.fields.iter().any(|(f, x)| {
                    let used = if d.kind == Kind::Input { inputs.contains(t) } else { self.field(t, f) };
                    (used && base(&x.ty) == name) || x.args.iter().any(|(a, y)| base(&y.ty) == name && self.arg(t, f, a))
                })
            })
    }

    /// Input types reachable from the arguments in use.
    fn inputs(&self, s: &Doc) -> BTreeSet<String> {
        if self.all {
            return s.types.iter().filter(|(_, t)| t.kind == Kind::Input).map(|(n, _)| n.clone()).collect();
        }
        let mut seen = BTreeSet::new();
        let mut todo: Vec<String> = self.args.keys().map(|(t, f, a)| base(&s.types[t].fields[f].args[a].ty).to_string()).collect();
        while let Some(t) = todo.pop() {
            if let Some(def) = s.types.get(&t).filter(|d| d.kind == Kind::Input) {
                if seen.insert(t) {
                    todo.extend(def.fields.values().map(|f| base(&f.ty).to_string()));
                }
            }
        }
        seen
    }
}

pub type Diags = Vec<(String, &'static str, &'static str)>;

#[derive(PartialEq, Clone, Copy)]
enum Change {
    Same,
    Looser,
    Stricter,
    Other,
}

fn change(a: &str, b: &str) -> Change {
    let (x, y) = (levels(a), levels(b));
    if base(a) != base(b) || x.len() != y.len() {
        return Change::Other;
    }
    let lost = x.iter().zip(&y).any(|(p, q)| *p && !*q);
    let won = x.iter().zip(&y).any(|(p, q)| !*p && *q);
    match (lost, won) {
        (false, false) => Change::Same,
        (true, false) => Change::Looser,
        (false, true) => Change::Stricter,
        (true, true) => Change::Other,
    }
}

/// The diagnostics the change from `s` to `t` deserves, for types which keep their kind.
pub fn expected(s: &Doc, t: &Doc, u: &Usage) -> Diags {
    let inputs = u.inputs(s);
    let mut out: Diags = Vec::new();
    let roots: Vec<String> = [OperationType::Query, OperationType::Mutation, OperationType::Subscription].map(|o| root(s, o)).into();
    for (name, a) in &s.types {
        let Some(b) = t.types.get(name) else {
            match a.kind {
                Kind::Object => {
                    let by_fragment = a.implements.iter().any(|i| u.related(i, name));
                    let as_root = roots.contains(name) && a.fields.keys().any(|f| u.field(name, f));
                    if by_fragment || as_root {
                        out.push((name.clone(), "RemoveObjectType", "Error"));
                    }
                }
                Kind::Interface if u.conditioned(name) => out.push((name.clone(), "RemoveInterface", "Error")),
                Kind::Union if u.conditioned(name) => out.push((name.clone(), "RemoveUnion", "Error")),
                _ => {}
            }
            continue;
        };
        if a.kind != b.kind {
            let kind = match a.kind {
                Kind::Scalar => "RemoveScalar",
                Kind::Object => "RemoveObjectType",
                Kind::Interface => "RemoveInterface",
                Kind::Union => "RemoveUnion",
                Kind::Enum => "RemoveEnum",
                Kind::Input => "RemoveInputObject",
            };
            if u.type_in_use(s, name) || (roots.contains(name) && a.fields.keys().any(|f| u.field(name, f))) {
                out.push((name.clone(), kind, "Error"));
            }
            continue;
        }
        for i in a.implements.difference(&b.implements) {
            if u.related(i, name) {
                out.push((format!("{name}.&{i}"), "RemoveInterfaceImplementation", "Error"));
            }
        }
        for m in a.members.difference(&b.members) {
            if u.related(name, m) {
                out.push((format!("{name}.{m}"), "RemoveUnionMember", "Error"));
            }
        }
        for (f, x) in &a.fields {
            let path = format!("{name}.{f}");
            match (a.kind, b.fields.get(f)) {
                (Kind::Enum, None) if u.enum_value(name, f) => out.push((path, "RemoveEnumValue", "Error")),
                (Kind::Enum, _) => {}
                (Kind::Input, None) if inputs.contains(name) => {
                    out.push((path, "RemoveField", if nonnull(&x.ty) { "Error" } else { "Warning" }))
                }
                (Kind::Input, Some(y)) if inputs.contains(name) => match change(&x.ty, &y.ty) {
                    Change::Other => out.push((path, "ChangeFieldType", "Error")),
                    Change::Stricter => out.push((path, "ChangeFieldType", "Warning")),
                    _ => {}
                },
                (Kind::Input, _) => {}
                (_, None) if u.field(name, f) => out.push((path, "RemoveField", "Error")),
                (_, None) => {}
                (_, Some(y)) if u.field(name, f) => {
                    if matches!(change(&x.ty, &y.ty), Change::Other | Change::Looser) {
                        out.push((path.clone(), "ChangeFieldType", "Error"));
                    }
                    arguments(&mut out, u, [name, f], x, y);
                }
                (_, Some(_)) => {}
            }
        }
        if a.kind == Kind::Input && inputs.contains(name) {
            for (f, y) in &b.fields {
                if !a.fields.contains_key(f) && nonnull(&y.ty) && y.default.is_none() {
                    out.push((format!("{name}.{f}"), "AddField", "Error"));
                }
            }
        }
    }
    out.sort();
    out
}

fn arguments(out: &mut Diags, u: &Usage, [t, f]: [&str; 2], x: &Field, y: &Field) {
    for (a, p) in &x.args {
        let path = format!("{t}.{f}.{a}");
        let used = u.arg(t, f, a);
        let Some(q) = y.args.get(a) else {
            if used {
                out.push((path, "RemoveFieldArgument", "Error"));
            }
            continue;
        };
        let became_required = !nonnull(&p.ty) && nonnull(&q.ty);
        let outer_only = became_required && levels(&p.ty)[1..] == levels(&q.ty)[1..] && base(&p.ty) == base(&q.ty);
        let breaks = match change(&p.ty, &q.ty) {
            Change::Same | Change::Looser => false,
            _ if became_required && q.default.is_none() => true,
            Change::Stricter if outer_only => false,
            _ => used,
        };
        if breaks {
            out.push((path.clone(), "ChangeFieldArgumentType", "Error"));
        }
        if p.default.is_some() && q.default.is_none() && nonnull(&q.ty) && u.left(t, f, a) {
            out.push((path, "RemoveFieldArgumentDefault", "Error"));
        }
    }
    for (a, q) in &y.args {
        if !x.args.contains_key(a) && nonnull(&q.ty) && q.default.is_none() {
            out.push((format!("{t}.{f}.{a}"), "AddFieldArgument", "Error"));
        }
    }
}

// ---------------------------------------------------------------- does it still work

/// Why an operation which is fine on `s` is not, or does not get the same kind of data, on `t`.
pub struct Works<'a> {
    pub s: &'a Doc,
    pub t: &'a Doc,
    pub doc: &'a ExecutableDocument,
    pub why: Vec<(&'static str, String)>,
}

fn composite(k: Kind) -> bool {
    matches!(k, Kind::Object | Kind::Interface | Kind::Union)
}

pub fn possible(d: &Doc, t: &str) -> BTreeSet<String> {
    match d.types.get(t) {
        Some(Ty { kind: Kind::Object, .. }) => [t.to_string()].into(),
        Some(Ty { kind: Kind::Union, members, .. }) => members.clone(),
        _ => d.types.iter().filter(|(_, x)| x.kind == Kind::Object && x.implements.contains(t)).map(|(n, _)| n.clone()).collect(),
    }
}

impl<'a> Works<'a> {
    pub fn check(s: &'a Doc, t: &'a Doc, doc: &'a ExecutableDocument) -> Vec<(&'static str, String)> {
        let mut w = Works { s, t, doc, why: vec![] };
        for (_, op) in doc.operations.iter() {
            let r = root(t, op.node.ty);
            let vars: BTreeMap<&str, &VariableDefinition> =
                op.node.variable_definitions.iter().map(|v| (v.node.name.node.as_str(), &v.node)).collect();
            for v in vars.values() {
                if let Some(d) = &v.default_value {
                    w.value(&ty_text(&v.var_type.node), &d.node.clone().into_value(), None, &vars);
                }
            }
            if !t.types.contains_key(&r) {
                w.why.push(("root", r));
            } else {
                w.set(&r, &op.node.selection_set.node, &vars);
            }
        }
        w.why
    }

    fn set(&mut self, parent: &str, set: &SelectionSet, vars: &BTreeMap<&str, &VariableDefinition>) {
        for sel in &set.items {
            match &sel.node {
                Selection::Field(f) => self.field(parent, &f.node, vars),
                Selection::InlineFragment(i) => match &i.node.type_condition {
                    Some(on) => self.fragment(parent, on.node.on.node.as_str(), &i.node.selection_set.node, vars),
                    None => self.set(parent, &i.node.selection_set.node, vars),
                },
                Selection::FragmentSpread(n) => {
                    let f = &self.doc.fragments[&n.node.fragment_name.node].node;
                    self.fragment(parent, f.type_condition.node.on.node.as_str(), &f.selection_set.node, vars)
                }
            }
        }
    }

    fn fragment(&mut self, parent: &str, on: &str, set: &SelectionSet, vars: &BTreeMap<&str, &VariableDefinition>) {
        match self.t.types.get(on) {
            None => return self.why.push(("condition-type", on.into())),
            Some(t) if !composite(t.kind) => return self.why.push(("condition-kind", on.into())),
            _ => {}
        }
        let abstract_in_abstract = [parent, on].iter().all(|t| self.s.types[*t].kind != Kind::Object);
        if possible(self.t, parent).is_disjoint(&possible(self.t, on)) {
            let k = if abstract_in_abstract { "abstract-condition" } else { "condition" };
            return self.why.push((k, format!("{on} in {parent}")));
        }
        self.set(on, set, vars);
    }

    fn field(&mut self, parent: &str, f: &OpField, vars: &BTreeMap<&str, &VariableDefinition>) {
        let name = f.name.node.as_str();
        if name == "__typename" {
            return;
        }
        let path = format!("{parent}.{name}");
        let was = &self.s.types[parent].fields[name];
        let Some(now) = self.t.types.get(parent).and_then(|t| t.fields.get(name)) else {
            return self.why.push(("field", path));
        };
        let now = now.clone();
        if !matches!(change(&was.ty, &now.ty), Change::Same | Change::Stricter) {
            return self.why.push(("result", path));
        }
        let (k0, k1) = (self.s.types.get(base(&was.ty)).map(|t| t.kind), self.t.types.get(base(&now.ty)).map(|t| t.kind));
        if k0 != k1 && (k0.is_some_and(composite) || k1.is_some_and(composite)) {
            return self.why.push(("kind", path));
        }
        for (a, v) in &f.arguments {
            match now.args.get(a.node.as_str()) {
                None => self.why.push(("argument", format!("{path}.{}", a.node))),
                Some(d) => self.value(&d.ty, &v.node, d.default.as_ref(), vars),
            }
        }
        for (a, d) in &now.args {
            if nonnull(&d.ty) && d.default.is_none() && f.arguments.iter().all(|(n, _)| n.node.as_str() != a) {
                self.why.push(("required", format!("{path}.{a}")));
            }
        }
        self.set(base(&now.ty), &f.selection_set.node, vars);
    }

    /// The value is acceptable for the type in the new schema.
    fn value(&mut self, ty: &str, v: &Value, default: Option<&String>, vars: &BTreeMap<&str, &VariableDefinition>) {
        if let Value::Variable(n) = v {
            let def = vars[n.as_str()];
            let vt = ty_text(&def.var_type.node);
            let has_default = default.is_some() || def.default_value.as_ref().is_some_and(|d| d.node != ConstValue::Null);
            let at = if has_default && nonnull(ty) && !nonnull(&vt) { &ty[..ty.len() - 1] } else { ty };
            if !matches!(change(&vt, at), Change::Same | Change::Looser) {
                return self.why.push(("variable", format!("{vt} for {ty}")));
            }
            return self.any_value(base(ty), &mut BTreeSet::new());
        }
        if let Some(inner) = ty.strip_suffix('!') {
            if *v == Value::Null {
                return self.why.push(("null", ty.into()));
            }
            return self.value(inner, v, None, vars);
        }
        if *v == Value::Null {
            return;
        }
        if let Some(item) = ty.strip_prefix('[') {
            let item = &item[..item.len() - 1];
            return match v {
                Value::List(l) => l.iter().for_each(|v| self.value(item, v, None, vars)),
                _ => self.value(item, v, None, vars),
            };
        }
        let ok = match (v, ty, self.t.types.get(ty).map(|t| t.kind)) {
            (Value::Enum(e), _, Some(Kind::Enum)) => self.t.types[ty].fields.contains_key(e.as_str()),
            (Value::Object(o), _, Some(Kind::Input)) => {
                let def = self.t.types[ty].clone();
                for (k, v) in o {
                    match def.fields.get(k.as_str()) {
                        None => self.why.push(("input-field", format!("{ty}.{k}"))),
                        Some(d) => self.value(&d.ty, v, d.default.as_ref(), vars),
                    }
                }
                for (k, d) in &def.fields {
                    if nonnull(&d.ty) && d.default.is_none() && !o.contains_key(k.as_str()) {
                        let had_default = self.s.types.get(ty).and_then(|t| t.fields.get(k)).is_some_and(|f| f.default.is_some());
                        self.why.push((if had_default { "input-default" } else { "input-required" }, format!("{ty}.{k}")));
                    }
                }
                true
            }
            (_, _, Some(Kind::Scalar)) => true,
            (Value::Number(_), "Int" | "Float" | "ID", None) => true,
            (Value::String(_), "String" | "ID", None) => true,
            (Value::Boolean(_), "Boolean", None) => true,
            _ => false,
        };
        if !ok {
            self.why.push(("literal", format!("{v} for {ty}")));
        }
    }

    /// A variable may hold any value of the type in the old schema. (Which enum values clients
    /// send cannot be known, so that is not asked for.)
    fn any_value(&mut self, ty: &str, seen: &mut BTreeSet<String>) {
        let Some(a) = self.s.types.get(ty) else { return };
        if a.kind != Kind::Input || !seen.insert(ty.to_string()) {
            return;
        }
        let Some(b) = self.t.types.get(ty).filter(|b| b.kind == a.kind) else {
            return self.why.push(("input-type", ty.into()));
        };
        for (f, x) in &a.fields {
            match b.fields.get(f) {
                None => self.why.push(("input-field", format!("{ty}.{f}"))),
                Some(y) => {
                    let outer_only = levels(&x.ty)[1..] == levels(&y.ty)[1..] && y.default.is_some();
                    match change(&x.ty, &y.ty) {
                        Change::Same if nonnull(&y.ty) && x.default.is_some() && y.default.is_none() => {
                            self.why.push(("input-default", format!("{ty}.{f}")))
                        }
                        Change::Same | Change::Looser => {}
                        Change::Stricter if outer_only => {}
                        _ => self.why.push(("input-change", format!("{ty}.{f}"))),
                    }
                    self.any_value(base(&x.ty), seen);
                }
            }
        }
        for (f, y) in &b.fields {
            if !a.fields.contains_key(f) && nonnull(&y.ty) && y.default.is_none() {
                self.why.push(("input-required", format!("{ty}.{f}")));
            }
        }
    }
}
