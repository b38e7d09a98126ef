//! The linter against the conventions its README lists.
use crate::doc::*;
use vmc::{Case, Check};

/// Words of an identifier: separated by underscores, by a lower case letter before an upper case one, and by the last
/// of several upper case letters before a lower case one. Digits continue a word.
fn words(name: &str) -> Vec<String> {
    let mut out = vec![];
    for part in name.split('_') {
        let cs: Vec<char> = part.chars().collect();
        let mut word = String::new();
        // The case of the last letter of the current word.
        let mut upper: Option<bool> = None;
        for (i, &ch) in cs.iter().enumerate() {
            let next_lower = cs.get(i + 1).is_some_and(|n| n.is_ascii_lowercase());
            if ch.is_ascii_uppercase() && (upper == Some(false) || (upper == Some(true) && next_lower)) && !word.is_empty() {
                out.push(std::mem::take(&mut word));
                upper = None;
            }
            if ch.is_ascii_alphabetic() {
                upper = Some(ch.is_ascii_uppercase());
            }
            word.push(ch);
        }
        if !word.is_empty() {
            out.push(word);
        }
    }
    out
}

fn capital(w: &str) -> String {
    let l = w.to_ascii_lowercase();
    let mut cs = l.chars();
    cs.next().map(|c| c.to_ascii_uppercase().to_string() + cs.as_str()).unwrap_or_default()
}

fn pascal(n: &str) -> String {
    words(n).iter().map(|w| capital(w)).collect()
}

fn camel(n: &str) -> String {
    words(n).iter().enumerate().map(|(i, w)| if i == 0 { w.to_ascii_lowercase() } else { capital(w) }).collect()
}

fn shouty(n: &str) -> String {
    words(n).iter().map(|w| w.to_ascii_uppercase()).collect::<Vec<_>>().join("_")
}

/// Names with a leading underscore and names in the namespace of a specification (`join__Graph`) are free.
fn exempt(n: &str) -> bool {
    if n.starts_with('_') {
        return true;
    }
    match n.find("__") {
        Some(at) => n[..at].chars().all(|c| c.is_ascii_alphabetic()) && n.len() > at + 2,
        None => false,
    }
}

fn rename(n: &str, to: fn(&str) -> String) -> Option<String> {
    if exempt(n) {
        return None;
    }
    let fix = to(n);
    (fix != n).then_some(fix)
}

fn affixes(out: &mut Vec<String>, what: &str, n: &str, prefixes: &[&str], suffix: &str) {
    if let Some(p) = prefixes.iter().find(|p| n.starts_with(**p)) {
        out.push(format!("{what} has a forbidden prefix: '{p}'"));
    }
    if n.ends_with(suffix) {
        out.push(format!("{what} has a forbidden suffix: '{suffix}'"));
    }
}

fn deprecated(out: &mut Vec<String>, dirs: &[String], what: &str) {
    for d in dirs {
        if d == "deprecated" || d.starts_with("deprecated(") && !d.contains("reason:") {
            out.push(format!("usage of directive 'deprecated' on {what} does not populate the 'reason' argument"));
        }
    }
}

pub fn expected(doc: &[Def]) -> Vec<String> {
    let mut o = vec![];
    for d in doc {
        let n = &d.name;
        let word = match d.kind {
            Kind::Scalar => "scalar",
            Kind::Object => "type",
            Kind::Interface => "interface",
            Kind::Union => "union",
            Kind::Enum => "enum",
            Kind::Input => "input",
            Kind::Directive => {
                if let Some(fix) = rename(n, camel) {
                    o.push(format!("directive '{n}' should be renamed to '{fix}'"));
                }
                for a in &d.inputs {
                    if let Some(fix) = rename(&a.name, camel) {
                        o.push(format!("argument '{}' on directive '{n}' should be renamed to '{fix}'", a.name));
                    }
                    deprecated(&mut o, &a.dirs, &format!("argument '{}' on directive '{n}'", a.name));
                }
                continue;
            }
            Kind::Schema => continue,
        };
        if matches!(d.kind, Kind::Object | Kind::Enum)
            && let Some(fix) = rename(n, pascal)
        {
            o.push(format!("{word} '{n}' should be renamed to '{fix}'"));
        }
        let affix = match d.kind {
            Kind::Object => "Type",
            Kind::Enum => "Enum",
            Kind::Union => "Union",
            Kind::Interface => "Interface",
            _ => "",
        };
        if !affix.is_empty() {
            affixes(&mut o, &format!("{word} '{n}'"), n, &[affix], affix);
        }
        deprecated(&mut o, &d.dirs, &format!("{word} '{n}'"));
        for f in &d.fields {
            if !f.name.starts_with("__") {
                if let Some(fix) = rename(&f.name, camel) {
                    o.push(format!("field '{}' on {word} '{n}' should be renamed to '{fix}'", f.name));
                }
                let what = format!("field '{}' on type '{n}'", f.name);
                match n.as_str() {
                    "Query" => affixes(&mut o, &what, &f.name, &["query", "get", "list"], "Query"),
                    "Mutation" => affixes(&mut o, &what, &f.name, &["mutation", "put", "post", "patch"], "Mutation"),
                    "Subscription" => affixes(&mut o, &what, &f.name, &["subscription"], "Subscription"),
                    _ => (),
                }
            }
            for a in &f.args {
                let what = format!("argument '{}' on field '{}' on {word} '{n}'", a.name, f.name);
                if let Some(fix) = rename(&a.name, camel) {
                    o.push(format!("{what} should be renamed to '{fix}'"));
                }
                deprecated(&mut o, &a.dirs, &what);
            }
            deprecated(&mut o, &f.dirs, &format!("field '{}' on {word} '{n}'", f.name));
        }
        for (v, dirs) in &d.values {
            if let Some(fix) = rename(v, shouty) {
                o.push(format!("value '{v}' on enum '{n}' should be renamed to '{fix}'"));
            }
            deprecated(&mut o, dirs, &format!("enum value '{v}' on enum '{n}'"));
        }
        for i in d.inputs.iter() {
            let what = format!("input value '{}' on input '{n}'", i.name);
            if let Some(fix) = rename(&i.name, camel) {
                o.push(format!("{what} should be renamed to '{fix}'"));
            }
            deprecated(&mut o, &i.dirs, &what);
        }
    }
    o.sort();
    o
}

fn judge(c: &mut Case, doc: Vec<Def>) {
    let sdl = text(&doc);
    let t = sdl.clone();
    c.note(move || t);
    let mut got: Vec<String> = match graphql_lint::lint(&sdl) {
        Ok(d) => d.into_iter().map(|(m, graphql_lint::Severity::Warning)| m).collect(),
        Err(e) => {
            c.fail("parse", format!("{e}\n{sdl}"));
            return;
        }
    };
    got.sort();
    let want = expected(&doc);
    c.outcome(&want);
    if want.is_empty() {
        c.trivial();
    }
    let missing: Vec<_> = want.iter().filter(|w| count(&want, w) > count(&got, w)).collect();
    let extra: Vec<_> = got.iter().filter(|g| count(&got, g) > count(&want, g)).collect();
    if let Some(m) = missing.first() {
        c.fail(&format!("missing: {}", shape(m)), format!("not reported: {missing:?}\n{sdl}"));
    }
    if let Some(m) = extra.first() {
        c.fail(&format!("extra: {}", shape(m)), format!("reported without reason: {extra:?}\n{sdl}"));
    }
}

fn count(l: &[String], x: &str) -> usize {
    l.iter().filter(|y| *y == x).count()
}

/// The message without its names.
fn shape(m: &str) -> String {
    m.split('\'').step_by(2).collect::<Vec<_>>().join("_")
}

/// One definition with `name` at the position.
fn at(position: usize, ext: bool, name: &str, dirs: Vec<String>) -> Option<Def> {
    use Kind::*;
    let f = |n: &str| Field { dirs: dirs.clone(), ..field(n, "Int") };
    let i = |n: &str| crate::doc::Input { dirs: dirs.clone(), ..input(n, "Int") };
    let arg = || {
        let mut f = field("a", "Int");
        f.args.push(i(name));
        f
    };
    let d = match position {
        0 => def(Object, name).f(field("a", "Int")),
        1 => def(Interface, name).f(field("a", "Int")),
        2 => def(Union, name).m("A"),
        3 => def(Enum, name).v("A"),
        4 => def(Input, name).i(input("a", "Int")),
        5 => def(Scalar, name),
        6 => def(Object, "A").f(f(name)),
        7 => def(Interface, "A").f(f(name)),
        8 => def(Object, "Query").f(f(name)),
        9 => def(Object, "Mutation").f(f(name)),
        10 => def(Object, "Subscription").f(f(name)),
        11 => def(Object, "A").f(arg()),
        12 => def(Interface, "A").f(arg()),
        13 => def(Object, "Query").f(arg()),
        14 => def(Input, "A").i(i(name)),
        15 => {
            let mut d = def(Enum, "A");
            d.values.push((name.into(), dirs.clone()));
            d
        }
        16 => def(Directive, name).on("OBJECT"),
        17 => def(Directive, "a").on("OBJECT").i(i(name)),
        _ => def(Interface, "Query").f(f(name)),
    };
    if d.kind == Directive && ext {
        return None;
    }
    let mut d = d.extend_if(ext);
    if position < 6 {
        d.dirs = dirs;
        if ext && d.kind == Scalar && d.dirs.is_empty() {
            d.dirs.push("x".into());
        }
    }
    Some(d)
}

const POSITIONS: usize = 19;

pub fn run(k: &Check) {
    // Every name up to the bound over the classes of characters that conventions distinguish, at every position.
    k.space("name shapes", |c| {
        let max = if c.thorough() { 6 } else { 5 };
        let position = c.choose(POSITIONS);
        let ext = c.flag();
        let len = 1 + c.choose(max);
        let mut name = String::new();
        for n in 0..len {
            let chars: &[char] = if n == 0 { &['a', 'B', '_'] } else { &['a', 'B', '_', '1'] };
            name.push(*c.pick(chars));
        }
        if matches!(name.as_str(), "true" | "false" | "null") {
            return c.skip();
        }
        match at(position, ext, &name, vec![]) {
            Some(d) => judge(c, vec![d]),
            None => c.skip(),
        }
    });

    // Every combination of the affixes some convention forbids with a stem, at every position.
    k.space("affixes", |c| {
        let affixes = [
            "", "Type", "Enum", "Union", "Interface", "Query", "query", "Mutation", "mutation", "Subscription", "subscription", "get", "Get",
            "list", "put", "post", "patch", "Patch", "type", "enum", "set", "Input",
        ];
        let position = c.choose(POSITIONS);
        let ext = c.flag();
        let name = format!("{}{}{}", c.pick(&affixes), c.pick(&["", "A", "a", "_", "Ab", "s", "join__"]), c.pick(&affixes));
        if name.is_empty() {
            return c.skip();
        }
        match at(position, ext, &name, vec![]) {
            Some(d) => judge(c, vec![d]),
            None => c.skip(),
        }
    });

    k.space("deprecations", |c| {
        let uses = [
            "deprecated",
            "deprecated(reason: \"r\")",
            "deprecated(reason: \"\")",
            "Deprecated",
            "other",
            "other(reason: \"r\")",
            "deprecated(because: \"r\")",
            "deprecated(because: \"b\", reason: \"r\")",
        ];
        let position = c.choose(POSITIONS);
        let ext = c.flag();
        let mut dirs = vec![];
        for _ in 0..c.choose(4) {
            dirs.push(c.pick(&uses).to_string());
        }
        let name = *c.pick(&["a", "A", "Ab"]);
        match at(position, ext, name, dirs) {
            Some(d) => judge(c, vec![d]),
            None => c.skip(),
        }
    });

    // Definitions do not influence each other, and extensions are treated like definitions.
    k.space("several definitions", |c| {
        let names = ["a", "A", "a_b", "AB", "getType", "TypeQuery"];
        let mut doc = vec![];
        for _ in 0..2 + c.thorough() as usize {
            let position = c.choose(POSITIONS);
            let ext = c.flag();
            let name = *c.pick(&names);
            let dirs = if c.flag() { vec!["deprecated".to_owned()] } else { vec![] };
            match at(position, ext, name, dirs) {
                Some(d) => doc.push(d),
                None => return c.skip(),
            }
        }
        judge(c, doc);
    });

    k.space("sizes", |c| {
        use Kind::*;
        let n = *c.pick(if c.thorough() { &[3usize, 17, 65, 260, 1030][..] } else { &[3usize, 17, 65, 260][..] });
        let bad = [*c.pick(&[0, 1, n / 2, n - 1]), *c.pick(&[0, n / 3, n - 1])];
        let shape = c.choose(7);
        let ext = c.flag();
        let deprecated = c.flag();
        let dirs = |i: usize| if deprecated && bad.contains(&i) { vec!["deprecated".to_owned()] } else { vec![] };
        let name = |i: usize| if bad.contains(&i) && !deprecated { format!("a_B{i}") } else if shape == 2 { format!("A{i}") } else { format!("a{i}") };
        let i = |n: usize| crate::doc::Input { dirs: dirs(n), ..input(&name(n), "Int") };
        let doc = match shape {
            0 | 1 => {
                let mut d = def([Object, Interface][shape], "Ab").extend_if(ext);
                for n in 0..n {
                    d = d.f(Field { dirs: dirs(n), ..field(&name(n), "Int") });
                }
                vec![d]
            }
            2 => {
                let mut d = def(Enum, "Ab").extend_if(ext);
                for n in 0..n {
                    d.values.push((name(n), dirs(n)));
                }
                vec![d]
            }
            3 => vec![(0..n).fold(def(Input, "Ab").extend_if(ext), |d, n| d.i(i(n)))],
            4 => {
                let mut f = field("a", "Int");
                f.args = (0..n).map(i).collect();
                vec![def(Object, "Ab").extend_if(ext).f(f)]
            }
            5 => {
                if ext {
                    return c.skip();
                }
                vec![(0..n).fold(def(Directive, "ab").on("OBJECT"), |d, n| d.i(i(n)))]
            }
            _ => (0..n)
                .map(|n| {
                    let mut d = def(Object, &if bad.contains(&n) && !deprecated { format!("A_b{n}") } else { format!("A{n}") }).extend_if(ext).f(field("a", "Int"));
                    d.dirs = dirs(n);
                    d
                })
                .collect(),
        };
        judge(c, doc);
    });

    // Several members in one definition.
    k.space("several members", |c| {
        use Kind::*;
        let kind = *c.pick(&[Object, Interface, Enum, Input, Directive]);
        let names = ["a", "A_b", "getA", "aQuery", "__a", "__aQuery"];
        let mut d = def(kind, *c.pick(&["Query", "a", "EnumType"]));
        if kind == Directive {
            d = d.on("OBJECT");
        }
        for n in 0..1 + c.choose(3) {
            let name = format!("{}{}", c.pick(&names), ["", "1", "Z"][n]);
            let dirs = if c.flag() { vec!["deprecated".to_owned()] } else { vec![] };
            match kind {
                Object | Interface => {
                    let mut f = field(&name, "Int");
                    f.dirs = dirs;
                    if c.flag() {
                        f.args = vec![input("b_c", "Int"), input("d", "Int")];
                    }
                    d = d.f(f);
                }
                Enum => d.values.push((name, dirs)),
                _ => d.inputs.push(crate::doc::Input { dirs, ..input(&name, "Int") }),
            }
        }
        judge(c, vec![d]);
    });
}
