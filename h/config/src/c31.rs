//! The configuration is read strictly.
use crate::model::*;
use gateway_config::Config;
use std::collections::BTreeSet;
use vmc::{Case, Check};

/// Every string tried as a value.
pub fn strings() -> Vec<&'static str> {
    let mut all = vec![
        "", "a", "/p", "p/q", "*", "any", "GET", "get", "POST", "info", "INFO", "Warn", "trace", "off", "ed25516",
        "1s", "500ms", "0s", "1m", "1h30m", "10", "10s", "-1s", "1x", "2KiB", "2 kB", "1.5KiB", "-2KiB", "2é", "é",
        "127.0.0.1:80", "[::1]:80", "localhost:80", "127.0.0.1", "http://a.b:1/c", "https://example.com", "redis://h:1",
        "1.2.3", "~1.2", "1.2.3.4", "size", "true", "1",
    ];
    let enums: [&[(&'static str, &'static str)]; 3] = [STORAGE, AUTH, ALGORITHMS];
    for (name, _) in enums.iter().flat_map(|e| e.iter()).chain(METHODS.iter()) {
        if !all.contains(name) {
            all.push(name);
        }
    }
    for name in [
        "never", "minutely", "hourly", "daily", "Never", "blocking", "non_blocking", "nonblocking", "grpc", "http",
        "Http", "measure", "enforce", "server_sent_events", "websocket", "streaming-http", "sse", "method",
        "target_uri", "path", "nonce", "debug", "error",
    ] {
        all.push(name);
    }
    all
}

fn table(v: &[(&str, Lit)]) -> Lit {
    Lit::T(v.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}

pub fn literals() -> Vec<Lit> {
    let mut all = vec![Lit::B(true), Lit::B(false), Lit::Date];
    for i in [-1, 0, 1, 2, 100, 255, 256, 65535, 65536, 4294967295, 4294967296, i64::MAX, i64::MIN] {
        all.push(Lit::I(i));
    }
    for f in [0.0, -0.0, 0.15, 1.0, 1.0000001, -0.1, 1.5, 1e10, f64::NAN, f64::INFINITY] {
        all.push(Lit::F(f));
    }
    all.extend(strings().into_iter().map(s));
    all.push(Lit::A(vec![]));
    for v in ["a", "*", "GET", "https://example.com", "é", "method", "nonce", "10"] {
        all.push(Lit::A(vec![s(v)]));
    }
    all.push(Lit::A(vec![s("GET"), s("POST")]));
    all.push(Lit::A(vec![s("method"), s("path")]));
    all.push(Lit::A(vec![s("GET"), s("get")]));
    all.push(Lit::A(vec![Lit::I(1)]));
    all.push(Lit::A(vec![s("a"), Lit::I(1)]));
    all.push(Lit::A(vec![Lit::A(vec![s("a")])]));
    all.push(table(&[]));
    all.push(table(&[("a", s("b"))]));
    all.push(table(&[("a", s("b")), ("c", s("d"))]));
    all.push(table(&[("a", s("é"))]));
    all.push(table(&[("é", s("a"))]));
    all.push(table(&[("a", Lit::I(1))]));
    for v in [s("2KiB"), s("x"), s("-2KiB"), Lit::I(0), Lit::I(2048), Lit::I(-1)] {
        all.push(table(&[("size", v)]));
    }
    // Lists of tables: preopened directories and access control rules.
    let dir = [
        ("host_path", s("/h")),
        ("guest_path", s("g")),
        ("read_permission", Lit::B(true)),
        ("write_permission", Lit::B(false)),
    ];
    all.push(Lit::A(vec![table(&dir)]));
    for skip in 0..4 {
        let rest: Vec<_> = dir.iter().enumerate().filter(|(i, _)| *i != skip).map(|(_, v)| v.clone()).collect();
        all.push(Lit::A(vec![table(&rest)]));
    }
    let mut more = dir.to_vec();
    more.push(("write", Lit::B(true)));
    all.push(Lit::A(vec![table(&more)]));
    let rules: [&[(&str, Lit)]; 8] = [
        &[("rule", s("deny"))],
        &[("rule", s("deny")), ("name", s("x"))],
        &[("rule", s("header"))],
        &[("rule", s("header")), ("name", s("x"))],
        &[("rule", s("header")), ("name", s("x")), ("value", s("v"))],
        &[("rule", s("header")), ("name", s("x")), ("values", s("v"))],
        &[("rule", s("allow"))],
        &[("name", s("x"))],
    ];
    for rule in rules {
        all.push(Lit::A(vec![table(rule)]));
    }
    all.push(Lit::A(vec![table(rules[4]), table(rules[0])]));
    all
}

/// The settings a document needs for `path` to be allowed to be there.
pub fn complete(schema: &Schema, doc: &mut Doc) {
    loop {
        let before = doc.set.len();
        for leaf in &schema.leaves {
            if doc.set.iter().any(|(path, _)| *path == leaf.path) {
                continue;
            }
            let there = doc.set.iter().any(|(path, _)| path.starts_with(&format!("{}.", leaf.section)));
            if leaf.default.is_none() && !leaf.section.is_empty() && there {
                doc.set.push((leaf.path.clone(), valid(leaf)[0].clone()));
            }
            let key = leaf.path.ends_with(".message_signatures.key.file");
            if key && there && !doc.set.iter().any(|(path, _)| path.ends_with("key.inline")) {
                doc.set.push((leaf.path.clone(), s("a")));
            }
        }
        if before == doc.set.len() {
            return;
        }
    }
}

/// Two values which may be written, differing from the default.
pub fn valid(leaf: &Leaf) -> Vec<Lit> {
    let mut seen = BTreeSet::new();
    seen.extend(leaf.default.clone());
    let mut out = Vec::new();
    for lit in literals() {
        if let Some(v) = leaf.read(&lit)
            && out.len() < 2
            && seen.insert(v)
        {
            out.push(lit);
        }
    }
    if out.is_empty() {
        out.extend(literals().into_iter().find(|l| leaf.read(l).is_some()));
    }
    out
}

pub fn compare(c: &mut Case, schema: &Schema, doc: &Doc, got: Result<&Config, &str>) {
    let expected = doc.expected(schema);
    c.outcome(&(expected.is_ok(), doc.set.len()));
    c.validated(1);
    match (&expected, got) {
        (Ok(expected), Ok(config)) => {
            for (leaf, expected) in schema.leaves.iter().zip(expected) {
                let got = (leaf.get)(config);
                if got != *expected {
                    c.fail(
                        format!("value:{}", leaf.path),
                        format!("{} is {got} instead of {expected} in\n{}", leaf.path, doc.toml()),
                    );
                }
            }
        }
        (Err(why), Ok(_)) => {
            let path = doc.set.last().map(|(path, _)| path.as_str()).unwrap_or("");
            c.fail(format!("accepted:{path}"), format!("accepted although {why}:\n{}", doc.toml()))
        }
        (Ok(_), Err(err)) => c.fail("refused", format!("{err}\n{}", doc.toml())),
        (Err(_), Err(err)) => {
            c.check(!err.is_empty(), "silent", || "an empty error".into());
        }
    }
}

fn judge(c: &mut Case, schema: &Schema, doc: &Doc) {
    let text = doc.toml();
    c.note(|| text.clone());
    let got = toml::from_str::<Config>(&text).map_err(|e| e.to_string());
    compare(c, schema, doc, got.as_ref().map_err(|e| e.as_str()));
}

/// The tables with a fixed set of keys, and these keys.
fn tables(schema: &Schema) -> Vec<(String, Vec<String>)> {
    let mut out: Vec<(String, Vec<String>)> = Vec::new();
    for leaf in &schema.leaves {
        let parts: Vec<&str> = leaf.path.split('.').collect();
        for i in 0..parts.len() {
            let table = parts[..i].join(".");
            if ["subgraphs", "extensions"].contains(&table.as_str()) {
                continue;
            }
            match out.iter_mut().find(|(t, _)| *t == table) {
                Some((_, keys)) if keys.contains(&parts[i].to_string()) => {}
                Some((_, keys)) => keys.push(parts[i].to_string()),
                None => out.push((table, vec![parts[i].to_string()])),
            }
        }
    }
    out
}

fn misspellings(key: &str) -> Vec<String> {
    let mut chars = key.chars();
    let first: String = chars.next().map(|c| c.to_uppercase().to_string()).unwrap_or_default();
    let mut camel = String::new();
    for (i, part) in key.split('_').enumerate() {
        let mut chars = part.chars();
        match chars.next() {
            Some(c) if i > 0 => camel.push_str(&format!("{}{}", c.to_uppercase(), chars.as_str())),
            Some(c) => camel.push_str(&format!("{c}{}", chars.as_str())),
            None => {}
        }
    }
    vec![
        format!("{key}s"),
        key[..key.len() - 1].to_string(),
        key.to_uppercase(),
        format!("{first}{}", chars.as_str()),
        key.replace('_', "-"),
        camel,
    ]
}

pub fn run(check: &Check) {
    check.assume("Sections written as arrays of their values are not judged.");
    check.assume("Dates in place of maps are not judged: the TOML reader makes maps of them.");
    check.assume("Durations, sizes, URLs, addresses and versions are represented by a few spellings each.");
    let schema = schema();
    let schema = &schema;
    let all = literals();
    check.info("settings", schema.leaves.len().to_string());
    check.info("values per setting", all.len().to_string());

    check.space("one setting", |c| {
        let leaf = c.pick(&schema.leaves);
        let lit = c.pick(&all);
        if *lit == Lit::Date && matches!(leaf.base, Base::Map | Base::MapAscii) {
            // The TOML reader shows dates as maps.
            c.skip();
        }
        if leaf.path == "extensions.short" && matches!(lit, Lit::T(_)) {
            // The long form, which is another setting.
            c.skip();
        }
        let mut doc = Doc::default();
        doc.set.push((leaf.path.clone(), lit.clone()));
        if c.flag() {
            complete(schema, &mut doc);
            if doc.set.len() == 1 {
                c.skip();
            }
            doc.set.rotate_left(1);
        }
        judge(c, schema, &doc);
    });

    let choices: Vec<(usize, Vec<Lit>)> = schema.leaves.iter().enumerate().map(|(i, l)| (i, valid(l))).collect();
    let several = |c: &mut Case, count: usize| {
        let mut doc = Doc::default();
        let mut from = 0;
        for n in 0..count {
            let left = choices.len() - from - (count - 1 - n);
            let (i, values) = &choices[from + c.choose(left)];
            from = i + 1;
            let lit = if count < 3 { c.pick(values).clone() } else { values[0].clone() };
            doc.set.push((schema.leaves[*i].path.clone(), lit));
        }
        if count < 3 && c.flag() {
            let before = doc.set.len();
            complete(schema, &mut doc);
            if before == doc.set.len() {
                c.skip();
            }
        } else if count == 3 {
            complete(schema, &mut doc);
        }
        judge(c, schema, &doc);
    };
    check.space("two settings", |c| several(c, 2));
    if check.thorough() {
        check.space("three settings", |c| several(c, 3));
    }

    let sections: Vec<String> = tables(schema).into_iter().map(|(t, _)| t).filter(|t| !t.is_empty()).collect();
    let sections = &sections;
    check.space("empty sections", |c| {
        let mut doc = Doc::default();
        for _ in 0..if c.thorough() { 3 } else { 2 } {
            let section = c.pick(sections).clone();
            if doc.mentioned.iter().any(|m| m.starts_with(&section) || section.starts_with(m.as_str())) {
                c.skip();
            }
            doc.mentioned.push(section);
        }
        judge(c, schema, &doc);
    });

    let tables = tables(schema);
    let tables = &tables;
    check.space("unknown keys", |c| {
        let (table, keys) = c.pick(tables);
        let full = c.flag();
        let mut doc = Doc::default();
        if full {
            for leaf in &schema.leaves {
                let inside = table.is_empty() || leaf.path.starts_with(&format!("{table}."));
                if inside && !leaf.path.ends_with("key.inline") {
                    doc.set.push((leaf.path.clone(), valid(leaf)[0].clone()));
                }
            }
        } else if !table.is_empty() {
            doc.set.push((format!("{table}.x"), s("x")));
            complete(schema, &mut doc);
            doc.set.remove(0);
        }
        complete(schema, &mut doc);
        if let Err(why) = doc.expected(schema) {
            panic!("the document should be fine: {why}");
        }
        let mut names = vec!["unknown".to_string(), "x".to_string(), "name".to_string(), "include".to_string()];
        let key = c.pick(keys);
        names.extend(misspellings(key));
        let name = c.pick(&names).clone();
        if keys.contains(&name) || name.is_empty() || (table.is_empty() && name == "name") {
            c.skip();
        }
        let lit = c.pick(&[Lit::B(true), Lit::I(1), s("a"), table_lit(), Lit::A(vec![])]).clone();
        let path = if table.is_empty() { name.clone() } else { format!("{table}.{name}") };
        let line = format!("{path} = {}", lit.toml());
        if c.flag() {
            doc.extra.push(line);
        } else {
            doc.set.push((path.clone(), lit));
        }
        let text = doc.toml();
        c.note(|| text.clone());
        c.outcome(&table);
        c.validated(1);
        match toml::from_str::<Config>(&text) {
            Ok(_) => c.fail(format!("unknown:{table}"), format!("the unknown key {path} is accepted:\n{text}")),
            Err(err) => {
                c.check(err.to_string().contains(&name), "unknown-unnamed", || {
                    format!("the error does not name {name}: {err}")
                });
            }
        }
    });

    // Header rules.
    const RULES: &[&str] = &["forward", "insert", "remove", "rename_duplicate", "drop"];
    const KEYS: &[&str] = &["name", "pattern", "value", "default", "rename", "extra"];
    check.space("header rules", |c| {
        let count = if c.flag() { 2 } else { 1 };
        let mut text = String::new();
        let mut expected: Result<Vec<String>, ()> = Ok(Vec::new());
        for n in 0..count {
            text.push_str("[[headers]]\n");
            let top = c.flag();
            let rule = (n > 0 || c.choose(8) > 0).then(|| *c.pick(RULES));
            let mut lines: Vec<String> = rule.iter().map(|r| format!("rule = \"{r}\"\n")).collect();
            let keys: Vec<(&str, &str)> = if n == 0 {
                let keys = c.subset(KEYS);
                keys.into_iter().map(|k| (k, *c.pick(&["x-a", "é"]))).collect()
            } else {
                vec![("name", "x-b")]
            };
            for (k, v) in &keys {
                lines.push(format!("{k} = \"{v}\"\n"));
            }
            if top && !lines.is_empty() {
                lines.rotate_left(1);
            }
            text.extend(lines);
            let read = header_rule(rule, &keys);
            expected = match (expected, read) {
                (Ok(mut all), Some(r)) => {
                    all.push(r);
                    Ok(all)
                }
                _ => Err(()),
            };
        }
        let subgraph = c.flag();
        if subgraph {
            text = text.replace("[[headers]]", "[[subgraphs.products.headers]]");
        }
        c.note(|| text.clone());
        c.validated(1);
        let got = toml::from_str::<Config>(&text);
        c.outcome(&expected);
        match (&expected, &got) {
            (Ok(e), Ok(g)) => {
                let rules = if subgraph { &g.subgraphs["products"].headers } else { &g.headers };
                c.check_eq("headers", e, &rules.iter().map(render).collect(), &text);
            }
            (Err(()), Ok(g)) => c.fail("headers-accepted", format!("{:?} from\n{text}", g.headers)),
            (Ok(_), Err(err)) => c.fail("headers-refused", format!("{err}\n{text}")),
            (Err(()), Err(_)) => {}
        }
    });

    check.space("names of algorithms", |c| {
        let (name, _) = c.pick(ALGORITHMS);
        let text = format!("gateway.message_signatures.algorithm = \"{name}\"\n");
        c.note(|| text.clone());
        let config: Config = toml::from_str(&text).unwrap();
        let shown = config.gateway.message_signatures.algorithm.unwrap().to_string();
        c.check_eq("algorithm-name", &name.to_string(), &shown, "the algorithm is shown under another name");
    });
}

fn table_lit() -> Lit {
    table(&[("a", s("b"))])
}

fn render(rule: &gateway_config::HeaderRule) -> String {
    use gateway_config::{HeaderRule as H, NameOrPattern as N};
    let name = |n: &N| match n {
        N::Name(n) => format!("name {n}"),
        N::Pattern(p) => format!("pattern {}", p.0.as_str()),
    };
    let opt = |v: &Option<ascii::AsciiString>| v.as_ref().map(|v| v.to_string()).r();
    match rule {
        H::Forward(f) => format!("forward {} {} {}", name(&f.name), opt(&f.default), opt(&f.rename)),
        H::Insert(i) => format!("insert {} {}", i.name, i.value),
        H::Remove(r) => format!("remove {}", name(&r.name)),
        H::RenameDuplicate(r) => format!("rename_duplicate {} {} {}", r.name, opt(&r.default), r.rename),
    }
}

fn header_rule(rule: Option<&str>, keys: &[(&str, &str)]) -> Option<String> {
    let get = |k: &str| keys.iter().find(|(name, _)| *name == k).map(|(_, v)| *v);
    let only = |allowed: &[&str]| keys.iter().all(|(k, _)| allowed.contains(k));
    // Everything but a pattern is ASCII.
    if keys.iter().any(|(k, v)| *k != "pattern" && !v.is_ascii()) {
        return None;
    }
    let name = match (get("name"), get("pattern")) {
        (Some(n), None) => Some(format!("name {n}")),
        (None, Some(p)) => Some(format!("pattern {p}")),
        _ => None,
    };
    let opt = |k: &str| get(k).map(|v| v.to_string()).r();
    match rule? {
        "forward" if only(&["name", "pattern", "default", "rename"]) => {
            Some(format!("forward {} {} {}", name?, opt("default"), opt("rename")))
        }
        "insert" if only(&["name", "value"]) => Some(format!("insert {} {}", get("name")?, get("value")?)),
        "remove" if only(&["name", "pattern"]) => Some(format!("remove {}", name?)),
        "rename_duplicate" if only(&["name", "default", "rename"]) => {
            Some(format!("rename_duplicate {} {} {}", get("name")?, opt("default"), get("rename")?))
        }
        _ => None,
    }
}
