use crate::{doc::*, oracle::*};
use graphql_schema_validation::{Options, validate, validate_with_options};
use vmc::{Case, Check};

fn judge(c: &mut Case, doc: Vec<Def>) {
    judge_opts(c, doc, &[(true, true), (true, false), (false, false)]);
}

fn judge_opts(c: &mut Case, mut doc: Vec<Def>, options: &[(bool, bool)]) {
    // The rules do not depend on the order of the definitions.
    if c.flag() {
        doc.reverse();
    }
    let &(forbid, draft) = c.pick(options);
    let sdl = text(&doc);
    let t = sdl.clone();
    c.note(move || t);
    let mut o = Options::empty();
    o.set(Options::FORBID_EXTENDING_UNKNOWN_TYPES, forbid);
    o.set(Options::DRAFT_VALIDATIONS, draft);
    let want = broken(&doc, &Opts { forbid_unknown_extensions: forbid, draft });
    let verdict = || {
        let d = if o.is_empty() { validate(&sdl) } else { validate_with_options(&sdl, o) };
        (d.has_errors(), d.iter().map(|e| e.to_string()).collect::<Vec<_>>())
    };
    let got = match vmc::guarded(verdict) {
        Ok((has, errors)) => {
            c.check(has != errors.is_empty(), "has-errors", || format!("has_errors() is {has} for {errors:?}\n{sdl}"));
            errors
        }
        Err(e) => {
            c.fail("panic", format!("validation panicked: {e}\n{sdl}"));
            return;
        }
    };
    c.outcome(&want);
    if want.is_empty() && !got.is_empty() {
        c.fail("rejected", format!("rejected a valid document: {got:?}\n{sdl}"));
    }
    if !want.is_empty() && got.is_empty() {
        let key = match want.len() {
            1 => format!("accepted:{}", want.first().unwrap().replace(' ', "-")),
            _ => "accepted:several".to_owned(),
        };
        c.fail(&key, format!("accepted a document that breaks {want:?}\n{sdl}"));
    }
}

fn query() -> Def {
    def(Kind::Object, "Query").f(field("q", "Int"))
}

/// A type of the kind with some content.
fn some(kind: Kind, name: &str, n: usize) -> Def {
    let d = def(kind, name);
    match kind {
        Kind::Object | Kind::Interface => d.f(field(&format!("f{n}"), "Int")),
        Kind::Union => d.m(if n == 0 { "Query" } else { "Obj" }),
        Kind::Enum => d.v(&format!("V{n}")),
        Kind::Input => d.i(input(&format!("i{n}"), "Int")),
        Kind::Directive => d.on("OBJECT"),
        _ => d,
    }
}

pub fn run(k: &Check) {
    k.space("unique names", |c| {
        let kinds = [Kind::Scalar, Kind::Object, Kind::Interface, Kind::Union, Kind::Enum, Kind::Input, Kind::Directive];
        let names = ["A", "B", "__A", "_A", "Int", "ID"];
        let mut doc = vec![query(), some(Kind::Object, "Obj", 0)];
        for n in 0..2 {
            let kind = *c.pick(&kinds);
            let name = *c.pick(&names);
            doc.push(some(kind, name, n));
        }
        if c.flag() {
            let kind = *c.pick(&TYPE_KINDS);
            let name = *c.pick(&["A", "B", "C", "String"]);
            let d = some(kind, name, 1);
            // Extending a type of another kind is only judged when unknown extensions are forbidden.
            if !(kind == Kind::Scalar) {
                doc.push(d.ext());
            } else {
                doc.push(d.d("x").ext());
            }
            judge_opts(c, doc, &[(true, false)]);
        } else {
            judge(c, doc);
        }
    });

    k.space("member names", |c| {
        let names: &[&str] = &["a", "b", "__a", "_a"];
        let mut doc = vec![query()];
        let kind = *c.pick(&[Kind::Object, Kind::Interface, Kind::Enum, Kind::Input, Kind::Union, Kind::Directive]);
        let mut parts = vec![];
        // Up to two members in the definition and two in an extension.
        let count = if kind == Kind::Directive { 1 } else { 2 };
        for p in 0..count {
            let n = c.choose(3);
            let mut d = def(kind, "T").extend_if(p == 1);
            if kind == Kind::Directive {
                d = d.on("OBJECT");
            }
            for _ in 0..n {
                let name = *c.pick(names);
                d = match kind {
                    Kind::Object | Kind::Interface => d.f(field(name, "Int")),
                    Kind::Enum => d.v(name),
                    Kind::Union => d.m(if name == "a" { "Query" } else { "Obj" }),
                    _ => d.i(input(name, "Int")),
                };
            }
            if p == 0 || n > 0 {
                parts.push(d);
            }
        }
        doc.extend(parts);
        if kind == Kind::Union {
            doc.push(some(Kind::Object, "Obj", 0));
        }
        judge(c, doc);
    });

    k.space("argument names", |c| {
        let names: &[&str] = &["a", "b", "__a"];
        let kind = *c.pick(&[Kind::Object, Kind::Interface]);
        let mut parts = vec![];
        for p in 0..2 {
            let mut f = field(if p == 0 { "f" } else { "g" }, "Int");
            for n in 0..c.choose(3) {
                let mut a = input(*c.pick(names), "Int!");
                if n == 0 || c.thorough() {
                    a.ty = Ty::new(*c.pick(&["Int", "Int!"]));
                    a.default = c.flag().then(|| "1".to_owned());
                    if c.flag() {
                        a.dirs.push("deprecated".into());
                    }
                }
                f.args.push(a);
            }
            parts.push(def(kind, "T").extend_if(p == 1).f(f));
        }
        parts.push(query());
        judge(c, parts);
    });

    k.space("deprecated inputs", |c| {
        let mut doc = vec![query()];
        for (p, kind) in [Kind::Input, Kind::Input, Kind::Directive].into_iter().enumerate() {
            let mut i = input(&format!("i{p}"), *c.pick(&["Int", "Int!", "[Int!]"]));
            i.default = c.flag().then(|| if i.ty.text().starts_with('[') { "[1]".into() } else { "1".into() });
            if c.flag() {
                i.dirs.push("deprecated(reason: \"r\")".into());
            }
            let d = def(kind, if p == 2 { "d" } else { "In" }).extend_if(p == 1).i(i);
            doc.push(if p == 2 { d.on("OBJECT") } else { d });
        }
        judge(c, doc);
    });

    k.space("empty types", |c| {
        // Each kind with or without members in the definition and in two extensions.
        let mut doc = vec![query(), some(Kind::Object, "Obj", 0), some(Kind::Object, "Obk", 0)];
        let kind = *c.pick(&[Kind::Object, Kind::Interface, Kind::Enum, Kind::Input, Kind::Union]);
        for p in 0..3 {
            let mut d = if c.flag() {
                match kind {
                    Kind::Union => def(kind, "T").m(["Query", "Obj", "Obk"][p]),
                    _ => some(kind, "T", p),
                }
            } else {
                def(kind, "T").d("x")
            };
            d.ext = p > 0;
            if p == 0 || c.flag() {
                doc.push(d);
            }
        }
        judge(c, doc);
    });

    k.space("positions", |c| {
        let names = ["Int", "ID", "Sc", "En", "In", "Obj", "If", "Un", "Nope", "ExtObj", "ExtIn", "ExtEn", "ExtIf", "ExtUn", "ExtSc"];
        let name = *c.pick(&names);
        let ty = *c.pick(&["{}", "{}!", "[{}]", "[{}!]!", "[[{}]]"]);
        let ty = ty.replace("{}", name);
        let mut doc = vec![
            query(),
            def(Kind::Scalar, "Sc"),
            some(Kind::Enum, "En", 0),
            some(Kind::Input, "In", 0),
            some(Kind::Object, "Obj", 0),
            some(Kind::Interface, "If", 0),
            some(Kind::Union, "Un", 0),
        ];
        if name.starts_with("Ext") {
            let kind = match name {
                "ExtObj" => Kind::Object,
                "ExtIn" => Kind::Input,
                "ExtEn" => Kind::Enum,
                "ExtIf" => Kind::Interface,
                "ExtUn" => Kind::Union,
                _ => Kind::Scalar,
            };
            let d = some(kind, name, 0);
            doc.push(if kind == Kind::Scalar { d.d("x") } else { d }.ext());
        }
        let ext = c.flag();
        let kind = *c.pick(&[Kind::Object, Kind::Interface]);
        let target = |k: Kind| match k {
            Kind::Object => "Obj",
            Kind::Interface => "If",
            Kind::Input => "In",
            _ => "Un",
        };
        // The position: in a definition, in an extension of another type that exists.
        let host = |k: Kind| if ext { def(k, target(k)).ext() } else { def(k, "Host") };
        let arg = |ty: &str| {
            let mut f = field("g", "Int");
            f.args.push(input("a", ty));
            f
        };
        let d = match c.choose(8) {
            0 => host(kind).f(field("g", &ty)),
            1 => host(kind).f(arg(&ty)),
            2 => host(Kind::Input).i(input("j", &ty)),
            3 => {
                if ext || kind == Kind::Interface {
                    return c.skip();
                }
                def(Kind::Directive, "dir").on("OBJECT").i(input("a", &ty))
            }
            4 => {
                if ty != name || kind == Kind::Interface {
                    return c.skip();
                }
                host(Kind::Union).m(name)
            }
            5 => {
                if ty != name {
                    return c.skip();
                }
                let mut d = host(kind).imp(name).f(field("f0", "Int"));
                if ext {
                    d.fields.clear();
                }
                d
            }
            6 => {
                if ty != name || ext || kind == Kind::Interface {
                    return c.skip();
                }
                def(Kind::Schema, "").root("query", name)
            }
            _ => {
                if ty != name || !ext || kind == Kind::Interface {
                    return c.skip();
                }
                def(Kind::Schema, "").root("mutation", name).ext()
            }
        };
        doc.push(d);
        judge(c, doc);
    });

    // Which field types implement which.
    k.space("interface field types", |c| {
        let names = ["Int", "Obj", "If", "If2", "Un", "En"];
        let wraps = ["{}", "{}!", "[{}]", "[{}]!", "[{}!]", "[{}!]!", "[[{}!]]", "[[{}]!]"];
        let want = c.pick(&wraps).replace("{}", *c.pick(&names));
        let have = c.pick(&wraps).replace("{}", *c.pick(&names));
        let mut doc = vec![
            query(),
            some(Kind::Enum, "En", 0),
            some(Kind::Interface, "If", 0),
        ];
        // Which types are below which others is said in the definition or in an extension.
        let obj_if = c.choose(3);
        let obj_un = c.choose(3);
        let if2_if = c.choose(3);
        let mut obj = some(Kind::Object, "Obj", 0);
        let mut if2 = some(Kind::Interface, "If2", 0);
        let mut un = def(Kind::Union, "Un").m("Query");
        match obj_if {
            0 => (),
            1 => obj = obj.imp("If"),
            _ => doc.push(def(Kind::Object, "Obj").imp("If").ext()),
        }
        match if2_if {
            0 => (),
            1 => if2 = if2.imp("If"),
            _ => doc.push(def(Kind::Interface, "If2").imp("If").ext()),
        }
        match obj_un {
            0 => (),
            1 => un = un.m("Obj"),
            _ => doc.push(def(Kind::Union, "Un").m("Obj").ext()),
        }
        doc.extend([obj, if2, un]);
        let kind = *c.pick(&[Kind::Object, Kind::Interface]);
        doc.push(def(Kind::Interface, "Face").f(field("x", &want)));
        doc.push(def(kind, "Impl").imp("Face").f(field("x", &have)));
        judge_opts(c, doc, &[(true, true)]);
    });

    // The same with interface, fields and implements spread over definitions and extensions.
    k.space("interface parts", |c| {
        let mut doc = vec![query()];
        let kind = *c.pick(&[Kind::Object, Kind::Interface]);
        let place = |c: &mut Case, n: usize| c.choose(n);
        let mut face = def(Kind::Interface, "Face").f(field("base", "Int"));
        let mut face_x = def(Kind::Interface, "Face").ext();
        let mut imp = def(kind, "Impl");
        let mut imp_x = def(kind, "Impl").ext();
        for f in ["x", "y"] {
            match place(c, 3) {
                0 => (),
                1 => face = face.f(field(f, "Int")),
                _ => face_x = face_x.f(field(f, "Int")),
            }
        }
        for f in ["base", "x", "y"] {
            match place(c, 3) {
                0 => (),
                1 => imp = imp.f(field(f, "Int")),
                _ => imp_x = imp_x.f(field(f, "Int")),
            }
        }
        match place(c, 4) {
            0 => (),
            1 => imp = imp.imp("Face"),
            2 => imp_x = imp_x.imp("Face"),
            _ => {
                imp = imp.imp("Face");
                imp_x = imp_x.imp("Face");
            }
        }
        doc.extend([face, imp]);
        if !face_x.fields.is_empty() {
            doc.push(face_x);
        }
        if !imp_x.fields.is_empty() || !imp_x.implements.is_empty() {
            doc.push(imp_x);
        }
        judge(c, doc);
    });

    k.space("interface arguments", |c| {
        let types: &[&str] = &["Int", "Int!", "[Int]", "String"];
        let kind = *c.pick(&[Kind::Object, Kind::Interface]);
        let mut want = field("x", "Int");
        let mut have = field("x", "Int");
        for f in [&mut want, &mut have] {
            for a in ["a", "b"] {
                if c.flag() {
                    let mut i = input(a, *c.pick(types));
                    if c.flag() {
                        i.default = Some(match i.ty.text().as_str() {
                            "[Int]" => "[1]".into(),
                            "String" => "\"s\"".into(),
                            _ => "1".to_owned(),
                        });
                    }
                    f.args.push(i);
                }
            }
        }
        if c.flag() {
            have.args.reverse();
        }
        let ext = c.flag();
        let mut doc = vec![query()];
        let mut imp = def(kind, "Impl").imp("Face");
        if ext {
            doc.push(def(kind, "Impl").f(have).ext());
            imp = imp.f(field("other", "Int"));
        } else {
            imp = imp.f(have);
        }
        doc.push(def(Kind::Interface, "Face").f(want));
        doc.push(imp);
        judge_opts(c, doc, &[(true, true)]);
    });

    k.space("interface hierarchies", |c| {
        // Three interfaces and an object; each implements any of the interfaces, in its definition or in an extension.
        let names = ["A", "B", "C", "Obj"];
        let mut doc = vec![query()];
        let all = c.thorough();
        for (n, name) in names.iter().enumerate() {
            let kind = if n == 3 { Kind::Object } else { Kind::Interface };
            let mut d = def(kind, name).f(field("x", "Int"));
            let mut x = def(kind, name).ext();
            for i in &names[..3] {
                match c.choose(if all || n == 3 { 3 } else { 2 }) {
                    0 => (),
                    1 => d = d.imp(i),
                    _ => x = x.imp(i),
                }
            }
            if !all && n < 3 && c.flag() {
                std::mem::swap(&mut d.implements, &mut x.implements);
                if x.implements.is_empty() {
                    return c.skip();
                }
            }
            doc.push(d);
            if !x.implements.is_empty() {
                doc.push(x);
            }
        }
        judge_opts(c, doc, &[(true, false)]);
    });

    k.space("implements lists", |c| {
        let kind = *c.pick(&[Kind::Object, Kind::Interface]);
        let mut d = def(kind, "T").f(field("f0", "Int"));
        let names = ["If", "If2", "Obj", "Un", "Nope", "T"];
        let n = c.choose(3);
        for _ in 0..n {
            d = d.imp(*c.pick(&names));
        }
        let mut x = def(kind, "T").ext();
        let n = c.choose(3);
        for _ in 0..n {
            x = x.imp(*c.pick(&names));
        }
        let mut doc = vec![query(), some(Kind::Interface, "If", 0), some(Kind::Interface, "If2", 0), some(Kind::Object, "Obj", 0), some(Kind::Union, "Un", 0), d];
        if n > 0 {
            doc.push(x);
        }
        judge_opts(c, doc, &[(true, false)]);
    });

    k.space("input cycles", |c| {
        // Three input objects, each with a field of each of the three or none, required, nullable or in a list,
        // in the definition or in an extension.
        let names = ["A", "B", "C"];
        let mut doc = vec![query()];
        for name in names {
            let mut d = def(Kind::Input, name).i(input("z", "Int"));
            let mut x = def(Kind::Input, name).ext();
            for other in names {
                let opts = if c.thorough() { 5 } else { 3 };
                match c.choose(opts) {
                    0 => (),
                    1 => d = d.i(input(&other.to_lowercase(), &format!("{other}!"))),
                    2 => x = x.i(input(&other.to_lowercase(), &format!("{other}!"))),
                    3 => d = d.i(input(&other.to_lowercase(), other)),
                    _ => d = d.i(input(&other.to_lowercase(), &format!("[{other}!]!"))),
                }
            }
            doc.push(d);
            if !x.inputs.is_empty() {
                doc.push(x);
            }
        }
        judge_opts(c, doc, &[(true, false)]);
    });

    k.space("input cycle wrappers", |c| {
        let names = ["A", "B", "C", "D"];
        let mut doc = vec![query()];
        for (n, name) in names.iter().enumerate() {
            let next = names[(n + 1) % 4];
            let ty = c.pick(&["{}", "{}!", "[{}!]!", "[{}]", "Int!"]).replace("{}", next);
            let mut i = input("x", &ty);
            if ty.ends_with('!') && ty.starts_with('I') && c.flag() {
                i.default = Some("1".into());
            }
            let mut d = def(Kind::Input, name).i(i);
            if c.flag() {
                d = d.i(input("y", "Int"));
                if c.flag() {
                    d.inputs.reverse();
                }
            }
            doc.push(d);
        }
        judge_opts(c, doc, &[(true, false)]);
    });

    k.space("directives", |c| {
        let locations: [&'static str; 11] = [
            "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE",
            "INPUT_OBJECT", "INPUT_FIELD_DEFINITION",
        ];
        let mut dir = def(Kind::Directive, "dir").on(*c.pick(&locations));
        if c.flag() {
            let second = *c.pick(&["QUERY", "OBJECT", "ENUM_VALUE", "ARGUMENT_DEFINITION"]);
            dir = dir.on(second);
        }
        dir.repeatable = c.flag();
        let used: Vec<String> = match c.choose(5) {
            0 => vec!["dir".to_owned()],
            1 => vec!["dir".to_owned(), "dir".to_owned()],
            2 => vec!["dir".to_owned(), "unknown".to_owned(), "dir".to_owned()],
            3 => vec!["unknown".to_owned(), "unknown".to_owned()],
            _ => vec!["unknown".to_owned(), "dir".to_owned()],
        };
        let ext = c.flag();
        let host = |k: Kind, name: &str| if ext { def(k, name).ext() } else { def(k, "Host") };
        let with_args = |f: Field, dirs: Vec<String>| {
            let mut f = f;
            let mut a = input("a", "Int");
            a.dirs = dirs;
            f.args.push(a);
            f
        };
        let with = |f: Field, dirs: Vec<String>| Field { dirs, ..f };
        let mut doc = vec![query(), def(Kind::Scalar, "Sc")];
        for (k, n) in [(Kind::Object, "Obj"), (Kind::Interface, "If"), (Kind::Union, "Un"), (Kind::Enum, "En"), (Kind::Input, "In")] {
            doc.push(some(k, n, 0));
        }
        let mut d = match c.choose(15) {
            0 => def(Kind::Schema, "").extend_if(ext).root(if ext { "mutation" } else { "query" }, "Obj"),
            1 => host(Kind::Scalar, "Sc"),
            2 => host(Kind::Object, "Obj").f(field("g", "Int")),
            3 => host(Kind::Interface, "If").f(field("g", "Int")),
            4 => host(Kind::Union, "Un").m("Obj"),
            5 => host(Kind::Enum, "En").v("W"),
            6 => host(Kind::Input, "In").i(input("j", "Int")),
            7 => {
                doc.push(host(Kind::Object, "Obj").f(with(field("g", "Int"), used.clone())));
                def(Kind::Schema, "")
            }
            8 => {
                doc.push(host(Kind::Interface, "If").f(with(field("g", "Int"), used.clone())));
                def(Kind::Schema, "")
            }
            9 => {
                doc.push(host(Kind::Object, "Obj").f(with_args(field("g", "Int"), used.clone())));
                def(Kind::Schema, "")
            }
            10 => {
                doc.push(host(Kind::Interface, "If").f(with_args(field("g", "Int"), used.clone())));
                def(Kind::Schema, "")
            }
            11 => {
                let mut e = host(Kind::Enum, "En");
                e.values.push(("W".into(), used.clone()));
                doc.push(e);
                def(Kind::Schema, "")
            }
            12 => {
                let mut i = input("j", "Int");
                i.dirs = used.clone();
                doc.push(host(Kind::Input, "In").i(i));
                def(Kind::Schema, "")
            }
            13 => {
                if ext {
                    return c.skip();
                }
                let mut i = input("j", "Int");
                i.dirs = used.clone();
                doc.push(def(Kind::Directive, "other").i(i).on("OBJECT"));
                def(Kind::Schema, "")
            }
            _ => {
                if !ext {
                    return c.skip();
                }
                def(Kind::Schema, "").ext()
            }
        };
        if d.kind != Kind::Schema || d.ext || !d.roots.is_empty() {
            d.dirs = used;
            doc.push(d);
        }
        doc.push(dir);
        judge_opts(c, doc, &[(true, false)]);
    });

    k.space("directive definitions", |c| {
        let names = ["Int", "Sc", "En", "In", "Obj", "Nope", "Later"];
        let mut doc = vec![query(), def(Kind::Scalar, "Sc"), some(Kind::Enum, "En", 0), some(Kind::Input, "In", 0), some(Kind::Object, "Obj", 0)];
        for n in 0..2 {
            let name = *c.pick(&["d", "e", "__d", "deprecated"]);
            let mut d = def(Kind::Directive, name).on("OBJECT");
            for a in 0..c.choose(if n == 0 { 3 } else { 2 }) {
                let ty = c.pick(&["{}", "[{}!]!"]).replace("{}", *c.pick(&names));
                d = d.i(input(["a", "b"][a], &ty));
            }
            doc.push(d);
        }
        doc.push(some(Kind::Input, "Later", 0));
        judge_opts(c, doc, &[(true, false)]);
    });

    k.space("root operations", |c| {
        // Types with the default names of any kind, any roots in a schema definition and in an extension.
        let mut doc = vec![some(Kind::Object, "Obj", 0), some(Kind::Object, "Obj2", 0), some(Kind::Interface, "If", 0)];
        for name in ["Query", "Mutation", "Subscription"] {
            match c.choose(3) {
                0 => (),
                1 => doc.push(some(Kind::Object, name, 0)),
                _ => doc.push(some(Kind::Interface, name, 0)),
            }
        }
        let types = ["", "Obj", "Obj2", "Query", "Mutation", "If", "Nope"];
        let shape = c.choose(4);
        if shape & 1 == 1 {
            let mut d = def(Kind::Schema, "");
            for op in ["query", "mutation", "subscription"] {
                let t = *c.pick(&types);
                if !t.is_empty() {
                    d = d.root(op, t);
                }
            }
            if d.roots.is_empty() {
                return c.skip();
            }
            doc.push(d);
        }
        if shape & 2 == 2 {
            let mut d = def(Kind::Schema, "").ext().d("x");
            for op in ["query", "mutation"] {
                let t = *c.pick(&types);
                if !t.is_empty() {
                    d = d.root(op, t);
                }
            }
            // Whether default names are roots when only an extension names roots is not settled by the specification.
            let default = |d: &Def| d.kind == Kind::Interface && d.name != "If";
            if shape == 2 && !d.roots.is_empty() && doc.iter().any(default) {
                return c.skip();
            }
            doc.push(d);
        }
        judge_opts(c, doc, &[(true, false)]);
    });

    k.space("several schema definitions", |c| {
        let mut doc = vec![query(), some(Kind::Object, "M", 0)];
        for _ in 0..c.choose(4) {
            let mut d = def(Kind::Schema, "").extend_if(c.flag());
            match c.choose(3) {
                0 => d = d.root("query", "Query"),
                1 => d = d.root("query", "Query").root("mutation", "M"),
                _ => {
                    if !d.ext {
                        return c.skip();
                    }
                    d = d.root("mutation", "M")
                }
            }
            doc.push(d);
        }
        judge(c, doc);
    });

    k.space("union members", |c| {
        let names = ["Obj", "Obj2", "If", "Un", "Un2", "En", "In", "Sc", "Int", "Nope"];
        let mut doc = vec![
            query(),
            some(Kind::Object, "Obj", 0),
            some(Kind::Object, "Obj2", 0),
            some(Kind::Interface, "If", 0),
            some(Kind::Union, "Un2", 0),
            some(Kind::Enum, "En", 0),
            some(Kind::Input, "In", 0),
            def(Kind::Scalar, "Sc"),
        ];
        let mut d = def(Kind::Union, "Un");
        for _ in 0..1 + c.choose(2) {
            d = d.m(*c.pick(&names));
        }
        doc.push(d);
        let n = c.choose(3);
        if n > 0 {
            let mut d = def(Kind::Union, "Un").ext();
            for _ in 0..n {
                d = d.m(*c.pick(&names));
            }
            doc.push(d);
        }
        judge_opts(c, doc, &[(true, false), (false, false)]);
    });

    k.space("sizes", |c| {
        // Many members, one of them wrong, anywhere: a second one of the same name, a missing type, ...
        let n = *c.pick(if c.thorough() { &[3usize, 17, 65, 260, 1030][..] } else { &[3usize, 17, 65, 260][..] });
        let at = *c.pick(&[0, 1, n / 2, n - 1]);
        let extend = c.flag();
        let wrong = c.choose(4);
        let shape = c.choose(9);
        let name = |i: usize| if wrong == 1 && i == n - 1 { format!("m{at:04}") } else { format!("m{i:04}") };
        let ty = |i: usize| if wrong == 2 && i == at { "Missing" } else { "Int" };
        if wrong == 1 && at == n - 1 || wrong == 3 && !matches!(shape, 0 | 2 | 5 | 6) {
            return c.skip();
        }
        let mut doc = vec![query(), some(Kind::Object, "Obj", 0)];
        match shape {
            0 | 1 | 2 | 3 => {
                // members in one definition, or every third in one extension
                let kind = [Kind::Object, Kind::Input, Kind::Interface, Kind::Enum][shape];
                if kind == Kind::Enum && wrong == 2 {
                    return c.skip();
                }
                let (mut d, mut x) = (def(kind, "D"), def(kind, "D").ext());
                for i in 0..n {
                    let (name, ty) = (name(i), ty(i));
                    let to = if extend && i % 3 == 2 { &mut x } else { &mut d };
                    *to = match kind {
                        Kind::Input => to.clone().i(input(&name, ty)),
                        Kind::Enum => to.clone().v(&name),
                        _ => to.clone().f(field(&name, ty)),
                    };
                }
                if wrong == 3 {
                    // an interface with as many fields, one of which is different
                    let mut i = def(Kind::Interface, "I");
                    for f in 0..n {
                        i = i.f(field(&name(f), if f == at { "Int!" } else { "Int" }));
                    }
                    doc.push(i);
                    d = d.imp("I");
                }
                doc.push(d);
                if extend {
                    doc.push(x);
                }
            }
            4 => {
                let mut f = field("f", "Int");
                f.args = (0..n).map(|i| input(&name(i), ty(i))).collect();
                doc.push(def(Kind::Object, "D").f(f));
            }
            5 => {
                let mut u = def(Kind::Union, "D");
                let mut x = def(Kind::Union, "D").ext();
                for i in 0..n {
                    let m = if wrong == 2 && i == at { "Missing".to_string() } else { name(i) };
                    let to = if extend && i % 3 == 2 { &mut x } else { &mut u };
                    *to = to.clone().m(&m);
                    if wrong != 1 || i < n - 1 {
                        doc.push(some(if wrong == 3 && i == at { Kind::Interface } else { Kind::Object }, &name(i), 0));
                    }
                }
                doc.push(u);
                if extend {
                    doc.push(x);
                }
            }
            6 => {
                // an object of many interfaces
                let mut d = def(Kind::Object, "D");
                for i in 0..n {
                    let at = wrong == 3 && i == at;
                    doc.push(def(Kind::Interface, &format!("m{i:04}")).f(field("f0", if at { "String" } else { "Int" })));
                    d = d.imp(&if wrong == 2 && i == n / 2 { "Missing".to_string() } else { name(i) });
                }
                doc.push(d.f(field("f0", "Int")));
            }
            7 => {
                // many types
                for i in 0..n {
                    doc.push(def(if extend { Kind::Input } else { Kind::Object }, &name(i)).f(field("a", ty(i))).i(input("a", ty(i))));
                    let d = doc.last_mut().unwrap();
                    if extend { d.fields.clear() } else { d.inputs.clear() }
                }
            }
            _ => {
                // a chain of required inputs, closed or not
                if wrong == 1 {
                    return c.skip();
                }
                for i in 0..n {
                    let to = if i + 1 < n { format!("m{:04}!", i + 1) } else if wrong == 0 { format!("m{at:04}!") } else { "Int!".into() };
                    let to = if extend && i == at { to.replace('!', "") } else { to };
                    doc.push(def(Kind::Input, &format!("m{i:04}")).i(input("x", &to)));
                }
            }
        }
        judge(c, doc);
    });

    k.space("mixtures", |c| {
        // Many things in one document, at most one of them wrong.
        let mut doc = vec![query(), some(Kind::Object, "Obj", 0)];
        if c.flag() {
            doc.push(def(Kind::Interface, "Node").f(field("id", "ID!")));
            doc.push(def(Kind::Object, "Item").imp("Node").f(field("id", "ID!")).f(field("name", "String")));
            doc.push(def(Kind::Interface, "Named").imp("Node").f(field("id", "ID!")).f(field("name", "String")));
            if c.flag() {
                doc.push(def(Kind::Object, "Item").imp("Named").ext());
            }
        }
        if c.flag() {
            doc.push(def(Kind::Union, "Un").m("Obj"));
            doc.push(def(Kind::Union, "Un").m("Query").ext());
            doc.push(def(Kind::Object, "Query").f(field("un", "[Un!]!")).ext());
        }
        if c.flag() {
            doc.push(def(Kind::Enum, "En").v("A").v("B"));
            doc.push(def(Kind::Enum, "En").v("C").ext());
            let mut i = input("en", "En!");
            i.default = Some("C".into());
            doc.push(def(Kind::Input, "In").i(i).i(input("self", "In")).i(input("list", "[In!]!")));
        }
        if c.flag() {
            let mut f = field("withArgs", "Obj");
            f.args = vec![input("x", "Int"), input("y", "[ID!]!")];
            f.dirs.push("cost(weight: 3)".into());
            doc.push(def(Kind::Object, "Obj").f(f).ext());
            let mut d = def(Kind::Directive, "cost").on("FIELD_DEFINITION").on("ENUM_VALUE").i(input("weight", "Int!"));
            d.repeatable = true;
            doc.push(d);
        }
        if c.flag() {
            doc.push(def(Kind::Schema, "").root("query", "Query"));
            if c.flag() {
                doc.push(some(Kind::Object, "Mut", 0));
                doc.push(def(Kind::Schema, "").root("mutation", "Mut").ext());
            }
        }
        if c.flag() {
            doc.push(def(Kind::Scalar, "Sc").d("specifiedBy(url: \"https://x.example\")"));
            doc.push(def(Kind::Scalar, "Int").d("x").ext());
        }
        match c.choose(16) {
            0 => (),
            1 => doc.push(some(Kind::Enum, "Obj", 0)),
            2 => doc.push(def(Kind::Object, "Obj").f(field("f0", "Int")).ext()),
            3 => doc.push(def(Kind::Object, "Bad").f(field("x", "Missing"))),
            4 => doc.push(def(Kind::Object, "Bad").imp("Obj").f(field("f0", "Int"))),
            5 => doc.push(def(Kind::Union, "Bad").m("Obj").m("Obj")),
            6 => doc.push(def(Kind::Enum, "Bad").v("A").v("A")),
            7 => doc.push(def(Kind::Input, "Bad").i(input("x", "Bad!"))),
            8 => doc.push(def(Kind::Input, "Bad").i(input("x", "Obj"))),
            9 => doc.push(def(Kind::Object, "Bad").d("cost(weight: 1)").f(field("x", "Int"))),
            10 => doc.push(def(Kind::Schema, "").root("mutation", "Query").ext().d("x")),
            11 => {
                doc.push(def(Kind::Interface, "Face").f(field("a", "Int!")));
                doc.push(def(Kind::Object, "Bad").imp("Face").f(field("a", "Int")));
            }
            12 => doc.push(def(Kind::Object, "__Bad").f(field("a", "Int"))),
            13 => doc.push(def(Kind::Object, "Bad").d("x")),
            14 => doc.push(some(Kind::Input, "Bad", 0).ext()),
            _ => {
                doc.push(def(Kind::Interface, "FaceA").f(field("a", "Int")));
                doc.push(def(Kind::Interface, "FaceB").imp("FaceA").f(field("a", "Int")));
                doc.push(def(Kind::Object, "Bad").imp("FaceB").f(field("a", "Int")));
            }
        }
        judge_opts(c, doc, &[(true, true), (true, false)]);
    });
}
