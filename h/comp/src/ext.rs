//! Directives that composition passes through: those of extensions, composed ones and those of composite schemas.
use std::collections::{BTreeMap, BTreeSet};

use cynic_parser::type_system as ts;
use graphql_composition::{FederatedGraph, render_api_sdl, render_federated_sdl};
use vmc::{Case, Check};

use crate::judge::{Real, orders, real, show};

const GRAPHS: [&str; 3] = ["a", "b", "c"];

/// Where a directive can be written in [template].
const SITES: &[&str] = &[
    "schema", "Query", "Query.q", "Query.q(x)", "T", "T.f", "I", "I.f", "I.g(x)", "E", "E.A", "U", "S", "In", "In.v", "T.g(x)",
];

/// A subgraph in which every element says the same, apart from what `at` puts there.
fn template(header: &str, own: &str, at: &dyn Fn(&str) -> String, split: bool) -> String {
    let a = |s: &str| at(s);
    let ext = |kw: &str, name: &str, body: &str, site: &str| {
        // the directives of a type on an extension of it
        if split {
            format!("{kw} {name} {body}\nextend {kw} {name} {}\n", if a(site).is_empty() { "@tag(name: \"t\")".into() } else { a(site) })
        } else {
            format!("{kw} {name} {} {body}\n", a(site))
        }
    };
    let mut s = String::new();
    s += &format!("{header}\n");
    if !a("schema").is_empty() {
        s += &format!("extend schema {}\n", a("schema"));
    }
    let object = |name: &str, imp: &str, body: &str, site: &str| {
        if split {
            format!("type {name} {imp} {body}\nextend type {name} {}\n", if a(site).is_empty() { "@tag(name: \"t\")".into() } else { a(site) })
        } else {
            format!("type {name} {imp} {} {body}\n", a(site))
        }
    };
    s += &object(
        "Query",
        "",
        &format!("{{ q(x: Int {}): Int {} t: T u: U i: I s: S e(i: In): E own{own}: Int }}", a("Query.q(x)"), a("Query.q")),
        "Query",
    );
    s += &object("T", "implements I", &format!("{{ f: Int {} g(x: Int {}): Int }}", a("T.f"), a("T.g(x)")), "T");
    s += &ext("interface", "I", &format!("{{ f: Int {} g(x: Int {}): Int }}", a("I.f"), a("I.g(x)")), "I");
    s += &ext("enum", "E", &format!("{{ A {} B }}", a("E.A")), "E");
    s += &format!("union U {} = T\n", a("U"));
    s += &format!("scalar S {}\n", a("S"));
    s += &ext("input", "In", &format!("{{ v: Int = 3 {} }}", a("In.v")), "In");
    s
}

/// What the supergraph says about extensions, with the value of `extension__Link` replaced by its url.
struct Seen {
    sites: BTreeMap<String, Vec<String>>,
    /// url -> schema directives
    links: BTreeMap<String, Vec<String>>,
}

fn look(text: &str) -> Result<Seen, String> {
    // also refuses what is defined twice
    sdl::parse(text)?;
    let doc = cynic_parser::parse_type_system_document(text).map_err(|e| format!("{e}"))?;
    let types = || {
        doc.definitions().filter_map(|d| match d {
            ts::Definition::Type(t) | ts::Definition::TypeExtension(t) => Some(t),
            _ => None,
        })
    };
    let mut urls: BTreeMap<String, String> = BTreeMap::new();
    let mut links = BTreeMap::new();
    for t in types() {
        let ts::TypeDefinition::Enum(e) = t else { continue };
        if e.name() != "extension__Link" {
            continue;
        }
        for v in e.values() {
            let value = v.value();
            let ds: Vec<_> = v.directives().collect();
            let [d] = ds.as_slice() else { return Err(format!("extension__Link.{value} has {} directives", ds.len())) };
            if d.name() != "extension__link" {
                return Err(format!("extension__Link.{value} has @{}", d.name()));
            }
            let url = d.argument("url").map(|u| sdl::value(u.value())).ok_or("no url")?;
            urls.insert(value.to_string(), url.clone());
            let mut on_schema: Vec<String> = match d.argument("schemaDirectives") {
                Some(l) => l.value().as_items().ok_or("not a list")?.map(sdl::value).collect(),
                None => vec![],
            };
            on_schema.sort();
            if links.insert(url.clone(), on_schema).is_some() {
                return Err(format!("{url} is linked twice"));
            }
        }
    }
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut put = |site: String, ds: &mut dyn Iterator<Item = ts::Directive<'_>>| -> Result<(), String> {
        let mut v = vec![];
        for d in ds {
            if d.name().starts_with("join__") || d.name() == "tag" {
                continue;
            }
            if d.name() != "extension__directive" {
                v.push(sdl::directive(d));
                continue;
            }
            let mut args = vec![];
            for a in d.arguments() {
                let x = sdl::value(a.value());
                let x = match a.name() {
                    "extension" => urls.get(&x).ok_or_else(|| format!("{x} is not in extension__Link"))?.clone(),
                    _ => x,
                };
                args.push(format!("{}:{x}", a.name()));
            }
            args.sort();
            v.push(format!("@extension__directive({})", args.join(",")));
        }
        v.sort();
        if !v.is_empty() {
            m.entry(site).or_default().extend(v);
        }
        Ok(())
    };
    for t in types() {
        let n = t.name();
        if n.starts_with("extension__") || n.starts_with("join__") {
            continue;
        }
        put(n.into(), &mut t.directives())?;
        let fields = |it: &mut dyn Iterator<Item = ts::FieldDefinition<'_>>, put: &mut dyn FnMut(String, &mut dyn Iterator<Item = ts::Directive<'_>>) -> Result<(), String>| {
            for f in it {
                put(format!("{n}.{}", f.name()), &mut f.directives())?;
                for a in f.arguments() {
                    put(format!("{n}.{}({})", f.name(), a.name()), &mut a.directives())?;
                }
            }
            Ok::<_, String>(())
        };
        match t {
            ts::TypeDefinition::Object(o) => fields(&mut o.fields(), &mut put)?,
            ts::TypeDefinition::Interface(o) => fields(&mut o.fields(), &mut put)?,
            ts::TypeDefinition::Enum(e) => {
                for v in e.values() {
                    put(format!("{n}.{}", v.value()), &mut v.directives())?;
                }
            }
            ts::TypeDefinition::InputObject(i) => {
                for f in i.fields() {
                    put(format!("{n}.{}", f.name()), &mut f.directives())?;
                }
            }
            _ => {}
        }
    }
    Ok(Seen { sites: m, links })
}

/// Argument lists: as written in a subgraph, and as [sdl::value] renders the object of them.
const ARGS: &[(&str, &str)] = &[
    ("", "{}"),
    ("(n: 1)", "{n:1}"),
    ("(n: -5, m: null)", "{m:null,n:-5}"),
    ("(s: \"\")", "{s:\"\"}"),
    ("(s: \"q\\\"b\\\\ \\n\\u00e9\")", "{s:\"q\\\"b\\\\ \\né\"}"),
    ("(s: \"\"\"\n  block\n    text\n  \"\"\")", "{s:\"block\\n  text\"}"),
    ("(f: 1.5)", "{f:1.5f}"),
    ("(f: 2.0)", "{f:2.0f}"),
    ("(f: 1e10)", "{f:10000000000.0f}"),
    ("(b: true, c: false)", "{b:true,c:false}"),
    ("(e: ONE)", "{e:ONE}"),
    ("(l: [])", "{l:[]}"),
    ("(l: [[1, 2], [], [null]])", "{l:[[1,2],[],[null]]}"),
    ("(l: [1, \"x\", ONE, true, 2.5])", "{l:[1,\"x\",ONE,true,2.5f]}"),
    ("(o: {})", "{o:{}}"),
    ("(o: {b: {c: [{d: 1}]}, a: \"{{ args.x }}\"})", "{o:{a:\"{{ args.x }}\",b:{c:[{d:1}]}}}"),
    ("(i: 2147483648)", "{i:2147483648}"),
    ("(i: 9007199254740993)", "{i:9007199254740993}"),
    ("(type: 1, input: 2, on: 3)", "{input:2,on:3,type:1}"),
];

#[derive(Clone, Copy, PartialEq)]
enum Is {
    /// an extension, known to the supergraph by this url
    Extension(&'static str),
    /// some schema that composition knows nothing about
    Foreign,
    Nothing,
}

/// What a directive is linked from, how, how it is written, and its own name.
struct Linked {
    link: &'static str,
    is: Is,
    /// (written, original name, whether the link names it)
    uses: &'static [(&'static str, &'static str, bool)],
}

const REST: &str = "https://extensions.grafbase.com/rest/v1";
const REST2: &str = "https://grafbase.com/extensions/rest/v0.3.1";
const KAFKA: &str = "file:///exts/kafka/build";
const DASH: &str = "https://extensions.grafbase.com/my-ext.x/v1.2.3";
const FOREIGN: &str = "https://x.dev/foo/v1.0";

const LINKS: &[Linked] = &[
    Linked {
        link: "@link(url: \"https://extensions.grafbase.com/rest/v1\", import: [\"@e\", {name: \"@f\", as: \"@z\"}, \"NotADirective\"])",
        is: Is::Extension(REST),
        uses: &[("e", "e", true), ("z", "f", true), ("rest__g", "g", true), ("f", "f", false), ("other", "other", false), ("other__g", "g", false)],
    },
    Linked {
        link: "@link(url: \"https://extensions.grafbase.com/rest/v1\", as: \"ns\", import: [\"@e\"])",
        is: Is::Extension(REST),
        uses: &[("e", "e", true), ("ns__g", "g", true), ("ns__a__b", "a__b", true), ("rest__g", "g", false)],
    },
    Linked {
        link: "@link(url: \"https://grafbase.com/extensions/rest/v0.3.1\", import: [\"@e\"], as: \"old\")",
        is: Is::Extension(REST2),
        uses: &[("e", "e", true), ("old__e", "e", true)],
    },
    Linked {
        link: "@link(url: \"file:///exts/kafka/build\", as: \"kf\", import: [{name: \"@e\", as: \"@kafka\"}])",
        is: Is::Extension(KAFKA),
        uses: &[("kafka", "e", true), ("kf__e", "e", true)],
    },
    Linked {
        link: "@link(url: \"file:///exts/kafka/build\", import: [\"@e\"])",
        is: Is::Extension(KAFKA),
        uses: &[("e", "e", true)],
    },
    Linked {
        link: "@link(url: \"https://extensions.grafbase.com/my-ext.x/v1.2.3\", import: [\"@e\"])",
        is: Is::Extension(DASH),
        uses: &[("e", "e", true)],
    },
    Linked {
        link: "@link(url: \"https://x.dev/foo/v1.0\", import: [\"@e\", {name: \"@f\", as: \"@z\"}])",
        is: Is::Foreign,
        uses: &[("e", "e", true), ("z", "f", true), ("foo__g", "g", true)],
    },
    Linked { link: "", is: Is::Nothing, uses: &[("e", "e", true), ("rest__g", "g", true)] },
];

/// How the subgraph gets at `@composeDirective`, and the attributes of federation it needs then.
const FEDERATION: &[(&str, &str)] = &[
    ("", ""),
    ("@link(url: \"https://specs.apollo.dev/federation/v2.3\", import: [\"@shareable\", \"@composeDirective\", \"@tag\"])", " @shareable"),
];

/// One directive written in one subgraph.
struct Written {
    graph: usize,
    link: usize,
    used: usize,
    args: usize,
    composed: bool,
}

impl Written {
    fn text(&self) -> String {
        format!("@{}{}", LINKS[self.link].uses[self.used].0, ARGS[self.args].0)
    }
    /// What the supergraph has for it.
    fn expected(&self) -> Option<String> {
        let l = &LINKS[self.link];
        let (written, original, named) = l.uses[self.used];
        let args = ARGS[self.args].1;
        match l.is {
            _ if !named => None,
            Is::Extension(url) => {
                Some(format!("@extension__directive(arguments:{args},extension:{url:?},graph:{},name:{original:?})", GRAPHS[self.graph].to_uppercase()))
            }
            Is::Foreign if self.composed => Some(composed(original, args)),
            // a composed directive that no @link names keeps its name
            Is::Nothing if self.composed => Some(composed(written.rsplit("__").next().unwrap(), args)),
            _ => None,
        }
    }
}

fn composed(name: &str, args: &str) -> String {
    let args = &args[1..args.len() - 1];
    if args.is_empty() { format!("@{name}") } else { format!("@{name}({args})") }
}

/// Compares the supergraph of the subgraphs with what is expected in it.
struct Expected {
    sites: BTreeMap<String, BTreeSet<String>>,
    links: BTreeMap<String, Vec<String>>,
    error: Option<&'static str>,
}

fn judge(c: &mut Case, prop: &str, sdls: &[(String, String)], exp: &Expected) {
    c.note(|| show(sdls));
    let r = real(sdls);
    c.steps(1);
    c.outcome(&(r.graph.is_some(), exp.error.is_some()));
    if r.graph.is_none() && !r.has_error {
        return c.fail("failure-without-error", "composition fails without an error diagnostic".to_string());
    }
    match (exp.error, &r.graph) {
        (None, None) => return c.fail("rejected", format!("composition rejects subgraphs that break no rule: {:?}", r.diagnostics)),
        (Some(e), Some(_)) => {
            if prop == "C07" || prop == "C09" {
                c.fail(format!("accepted:{e}"), format!("composition accepts subgraphs that break a rule: {e}"));
            }
            return;
        }
        (Some(_), None) if prop != "C03" => return,
        _ => {}
    }
    let text = |r: &Real| r.graph.as_ref().map(|g| render_federated_sdl(g).unwrap());
    if prop == "C03" {
        let read = |r: &Real| match text(r) {
            None => Ok(None),
            Some(t) => look(&t).map(|s| {
                let d = sdl::parse(&t).unwrap().directives;
                let sites: BTreeMap<_, BTreeSet<_>> = s.sites.into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect();
                Some((sites, s.links, d))
            }),
        };
        let base = read(&r);
        for p in orders(sdls.len()).into_iter().skip(1) {
            let other: Vec<_> = p.iter().map(|i| sdls[*i].clone()).collect();
            let o = real(&other);
            c.steps(1);
            if !c.check_eq("supergraph", &base, &read(&o), &format!("the supergraph depends on the order ({p:?})")) {
                return;
            }
        }
        return;
    }
    let Some(graph) = &r.graph else { return };
    let fed = text(&r).unwrap();
    match prop {
        "C05" => {
            if let Err(e) = sdl::parse(&fed) {
                return c.fail("federated-unparseable", format!("{e}\n{fed}"));
            }
            let again = match FederatedGraph::from_sdl(&fed) {
                Ok(g) => g,
                Err(e) => return c.fail("reload", format!("{e}\n{fed}")),
            };
            c.validated(1);
            let fed2 = render_federated_sdl(&again).unwrap();
            if fed2 != fed {
                let same = sdl::parse(&fed) == sdl::parse(&fed2);
                c.fail(if same { "federated-text" } else { "federated" }, format!("--- first\n{fed}\n--- reloaded\n{fed2}"));
            } else if render_api_sdl(&again) != render_api_sdl(graph) {
                c.fail("api", format!("--- first\n{}\n--- reloaded\n{}", render_api_sdl(graph), render_api_sdl(&again)));
            }
        }
        "C04" => {
            let api = render_api_sdl(graph);
            c.validated(1);
            match sdl::parse(&api) {
                Err(e) => c.fail("api-unparseable", format!("{e}\n{api}")),
                Ok(_) if ["extension__", "composite__", "join__", "@link"].iter().any(|m| api.contains(m)) => {
                    c.fail("machinery", format!("federation machinery in the API schema\n{api}"))
                }
                Ok(_) => {}
            }
        }
        "C09" => {
            let seen = match look(&fed) {
                Ok(s) => s,
                Err(e) => return c.fail("unreadable", format!("{e}\n{fed}")),
            };
            c.validated(1);
            let none = BTreeSet::new();
            for k in exp.sites.keys().chain(seen.sites.keys()) {
                let e: Vec<&String> = exp.sites.get(k).unwrap_or(&none).iter().collect();
                let g: Vec<&String> = seen.sites.get(k).into_iter().flatten().collect();
                if e != g {
                    let kind = if g.len() < e.len() { "lost" } else if g.len() > e.len() { "extra" } else { "changed" };
                    return c.fail(format!("{kind}-directive"), format!("{k}: expected {e:?}, got {g:?}\n{fed}"));
                }
            }
            c.check_eq("extensions", &exp.links, &seen.links, &format!("the extensions of the supergraph\n{fed}"));
        }
        _ => {}
    }
}

/// Composes subgraphs in which the given directives are written at the given sites.
fn written(c: &mut Case, prop: &str, n: usize, uses: &[(usize, Written)], federation: usize, split: bool) {
    let mut exp = Expected { sites: BTreeMap::new(), links: BTreeMap::new(), error: None };
    let mut sdls = vec![];
    let mut names: BTreeMap<String, &str> = BTreeMap::new();
    for g in 0..n {
        let (fed, shareable) = FEDERATION[federation];
        let mut header = format!("extend schema {}\n", if fed.is_empty() { "@tag(name: \"t\")" } else { fed });
        let mut linked = BTreeSet::new();
        for (_, w) in uses.iter().filter(|u| u.1.graph == g) {
            let l = &LINKS[w.link];
            if linked.insert(w.link) && !l.link.is_empty() {
                header += &format!("extend schema {}\n", l.link);
            }
            if w.composed {
                header += &format!("extend schema @composeDirective(name: \"@{}\")\n", l.uses[w.used].0);
            }
        }
        let at = |site: &str| -> String {
            let mut s: Vec<String> = uses.iter().filter(|(s, w)| w.graph == g && SITES[*s] == site).map(|(_, w)| w.text()).collect();
            if matches!(site, "Query" | "T") && !shareable.is_empty() {
                s.push(shareable.trim().into());
            }
            s.join(" ")
        };
        sdls.push((GRAPHS[g].to_string(), template(&header, GRAPHS[g], &at, split)));
    }
    for (site, w) in uses {
        let Some(e) = w.expected() else { continue };
        if let Is::Extension(url) = LINKS[w.link].is {
            if w.composed {
                exp.error = Some("composed directive of an extension");
            }
            let on_schema = exp.links.entry(format!("{url:?}")).or_default();
            if SITES[*site] == "schema" {
                let (_, name, _) = LINKS[w.link].uses[w.used];
                on_schema.push(format!("{{arguments:{},graph:{},name:{name:?}}}", ARGS[w.args].1, GRAPHS[w.graph].to_uppercase()));
                on_schema.sort();
            }
        }
        if SITES[*site] != "schema" {
            exp.sites.entry(SITES[*site].to_string()).or_default().insert(e);
        }
    }
    // extensions are told apart by their names, whether or not they are used
    for (_, w) in uses {
        let (name, url) = match w.link {
            0 => ("rest", "https://extensions.grafbase.com/rest"),
            1 => ("ns", "https://extensions.grafbase.com/rest"),
            2 => ("old", "https://grafbase.com/extensions/rest"),
            3 => ("kf", KAFKA),
            4 => ("kafka", KAFKA),
            5 => ("my_ext_x", "https://extensions.grafbase.com/my-ext.x"),
            _ => continue,
        };
        if names.insert(name.into(), url).is_some_and(|u| u != url) {
            exp.error = Some("extension names");
        }
    }
    judge(c, prop, &sdls, &exp);
}

/// One directive at any place, in any form, with any argument.
fn places(c: &mut Case, prop: &str) {
    let site = c.choose(SITES.len());
    let link = c.choose(LINKS.len());
    let used = c.choose(LINKS[link].uses.len());
    let args = c.choose(ARGS.len());
    let composed = c.flag();
    let federation = c.choose(2);
    let split = c.flag();
    if SITES[site] == "schema" && (composed || split) || split && federation == 1 {
        c.skip();
    }
    // composing the name of a namespaced or unknown directive of a link is not defined
    if composed && !LINKS[link].uses[used].2 {
        c.skip();
    }
    let uses = [(site, Written { graph: c.choose(2), link, used, args, composed })];
    written(c, prop, 2, &uses, federation, split);
}

/// Two directives on an element, in the same subgraph or not.
fn pairs(c: &mut Case, prop: &str) {
    let site = *c.pick(&[0usize, 2, 3, 4, 7, 9, 10, 12, 14]);
    let mut uses = vec![];
    for i in 0..2 {
        let link = c.choose(LINKS.len());
        let used = c.choose(LINKS[link].uses.len());
        if !LINKS[link].uses[used].2 {
            c.skip();
        }
        let args = c.choose(3);
        let graph = if i == 0 { 0 } else { c.choose(2) };
        let composed = matches!(LINKS[link].is, Is::Foreign | Is::Nothing) && SITES[site] != "schema" && c.flag();
        uses.push((site, Written { graph, link, used, args, composed }));
    }
    conflicts(c, &uses);
    written(c, prop, 2, &uses, 0, false);
}

/// Directives spread over three elements and three subgraphs.
fn spread(c: &mut Case, prop: &str) {
    let mut uses = vec![];
    for (i, site) in [2usize, 4, 10].into_iter().enumerate() {
        // the subgraphs are alike
        let graph = c.choose(i + 1);
        let (link, used) = *c.pick(&[(0usize, 0usize), (0, 2), (1, 1), (2, 0), (3, 0), (5, 0), (6, 0), (6, 2), (7, 0)]);
        let args = c.choose(2);
        let composed = link >= 6 && c.flag();
        uses.push((site, Written { graph, link, used, args, composed }));
    }
    let on_schema = c.choose(4);
    if on_schema > 0 {
        let (link, used) = [(0, 2), (2, 1), (5, 0)][on_schema - 1];
        uses.push((0, Written { graph: if c.thorough() { c.choose(3) } else { 1 }, link, used, args: 2, composed: false }));
    }
    conflicts(c, &uses);
    written(c, prop, 3, &uses, 0, false);
}

/// Leaves out what has two meanings within a subgraph.
fn conflicts(c: &mut Case, uses: &[(usize, Written)]) {
    for (i, (s, x)) in uses.iter().enumerate() {
        for (r, y) in &uses[..i] {
            // a composed directive which only one of the subgraphs links
            if s == r && x.link != y.link && x.expected() == y.expected() {
                c.skip();
            }
            if x.graph != y.graph {
                continue;
            }
            let same_word = LINKS[x.link].uses.iter().any(|u| LINKS[y.link].uses.iter().any(|v| u.0 == v.0));
            // the same name linked twice, a name composed for one link and used from another
            if x.link != y.link && same_word || x.composed != y.composed {
                c.skip();
            }
            // an extension's directive repeated as it is
            if s == r && x.args == y.args && x.expected() == y.expected() {
                c.skip();
            }
            // two links of one schema to a name each
            if x.link != y.link && x.composed && y.composed {
                c.skip();
            }
        }
    }
}

/// The definitions of a composed directive in several subgraphs.
fn definitions(c: &mut Case, prop: &str) {
    const ARGUMENTS: &[&[(&str, &str)]] =
        &[&[], &[("n", "Int")], &[("n", "Int!")], &[("n", "Int = 3")], &[("n", "String")], &[("m", "[String!]")], &[("n", "Int"), ("m", "[String!]")], &[("n", "E")]];
    const PLACES: &[&[&str]] = &[&["FIELD_DEFINITION"], &["OBJECT", "FIELD_DEFINITION"], &["ENUM", "FIELD_DEFINITION", "ARGUMENT_DEFINITION"]];
    let n = 1 + c.choose(3);
    let mut sdls = vec![];
    let mut defined: Vec<(&[(&str, &str)], &[&str])> = vec![];
    let mut users = 0;
    for g in GRAPHS.iter().take(n) {
        let link = c.choose(4);
        let mut s = String::new();
        // 0 plain, 1 linked and composed, 2 linked and defined but not composed, 3 another alias of it
        if link > 0 {
            let a = *c.pick(ARGUMENTS);
            let p = *c.pick(PLACES);
            let (import, name) = if link == 3 { ("{name: \"@c\", as: \"@d\"}", "d") } else { ("\"@c\"", "c") };
            s += &format!("extend schema @link(url: \"{FOREIGN}\", import: [{import}])");
            if link != 2 {
                s += &format!(" @composeDirective(name: \"@{name}\")");
                defined.push((a, p));
                users += 1;
            }
            let args: Vec<String> = a.iter().map(|(n, t)| format!("{n}: {t}")).collect();
            let args = if args.is_empty() { String::new() } else { format!("({})", args.join(", ")) };
            s += &format!("\ndirective @{name}{args} on {}\n", p.join(" | "));
            s += &format!("type Query {{ q: Int @{name}{} e: E own{g}: Int }}\n", if a.iter().any(|a| a.0 == "n" && a.1.starts_with("Int")) { "(n: 1)" } else { "" });
        } else {
            s += &format!("type Query {{ q: Int e: E own{g}: Int }}\n");
        }
        s += "enum E { A }\n";
        if link == 3 && (n > 1 || users > 1) {
            // which name it gets is not said
            c.skip();
        }
        sdls.push((g.to_string(), s));
    }
    c.note(|| show(&sdls));
    let mut error = false;
    let mut want: BTreeMap<&str, &str> = BTreeMap::new();
    for (i, (a, _)) in defined.iter().enumerate() {
        for (b, _) in &defined[..i] {
            for (n, t) in a.iter() {
                match b.iter().find(|x| x.0 == *n) {
                    Some(x) => error |= x.1 != *t,
                    None => error |= t.ends_with('!'),
                }
            }
            error |= b.iter().any(|(n, t)| t.ends_with('!') && !a.iter().any(|x| x.0 == *n));
        }
        want.extend(a.iter().copied());
    }
    let r = real(&sdls);
    c.steps(1);
    c.outcome(&(r.graph.is_some(), error));
    if r.graph.is_some() == error {
        if matches!(prop, "C07" | "C09" | "C03") {
            c.fail(if error { "accepted:directive definitions" } else { "rejected" }, format!("composition gives {:?}", r.diagnostics));
        }
        return;
    }
    let text = |r: &Real| r.graph.as_ref().map(|g| render_federated_sdl(g).unwrap());
    if prop == "C03" {
        let read = |r: &Real| text(r).map(|t| sdl::parse(&t).map(|d| (d.directives, d.types)));
        let base = read(&r);
        for p in orders(n).into_iter().skip(1) {
            let other: Vec<_> = p.iter().map(|i| sdls[*i].clone()).collect();
            c.steps(1);
            if !c.check_eq("supergraph", &base, &read(&real(&other)), &format!("the supergraph depends on the order ({p:?})")) {
                return;
            }
        }
        return;
    }
    let Some(graph) = &r.graph else { return };
    let fed = text(&r).unwrap();
    let doc = match sdl::parse(&fed) {
        Ok(d) => d,
        Err(e) => return c.fail("federated-unparseable", format!("{e}\n{fed}")),
    };
    c.validated(1);
    match prop {
        "C05" => match FederatedGraph::from_sdl(&fed) {
            Err(e) => c.fail("reload", format!("{e}\n{fed}")),
            Ok(again) => {
                let fed2 = render_federated_sdl(&again).unwrap();
                if fed2 != fed {
                    let same = sdl::parse(&fed) == sdl::parse(&fed2);
                    c.fail(if same { "federated-text" } else { "federated" }, format!("--- first\n{fed}\n--- reloaded\n{fed2}"));
                } else if render_api_sdl(&again) != render_api_sdl(graph) {
                    c.fail("api", format!("--- first\n{}\n--- reloaded\n{}", render_api_sdl(graph), render_api_sdl(&again)));
                }
            }
        },
        "C04" => {
            let api = render_api_sdl(graph);
            if let Err(e) = sdl::parse(&api) {
                c.fail("api-unparseable", format!("{e}\n{api}"));
            }
        }
        "C09" => {
            let got = doc.directives.get("c");
            let alias = sdls.len() == 1 && sdls[0].1.contains("@d");
            if alias {
                return;
            }
            if !c.check(got.is_some() != defined.is_empty(), "definition", || format!("the definition of @c\n{fed}")) {
                return;
            }
            let Some(got) = got else { return };
            let e: BTreeMap<String, String> = want.iter().map(|(n, t)| (n.to_string(), t.to_string())).collect();
            let g: BTreeMap<String, String> =
                got.args.iter().map(|(n, x)| (n.clone(), x.default.as_ref().map_or(x.ty.clone(), |d| format!("{} = {d}", x.ty)))).collect();
            let places: BTreeSet<String> = defined.iter().flat_map(|d| d.1.iter().map(|s| s.to_string())).collect();
            if c.check_eq("definition-arguments", &e, &g, &format!("the arguments of @c\n{fed}")) {
                c.check_eq("definition-locations", &places, &got.locations, &format!("the locations of @c\n{fed}"));
            }
        }
        _ => {}
    }
}

/// The directives of composite schemas in two subgraphs.
fn composite(c: &mut Case, prop: &str) {
    const URL: &str = "https://specs.grafbase.com/composite-schemas/v1";
    let mut sdls = vec![];
    let mut exp = Expected { sites: BTreeMap::new(), links: BTreeMap::new(), error: None };
    let form = c.choose(3);
    for g in GRAPHS.iter().take(2) {
        let on = g == &"a" || c.flag();
        if !on {
            sdls.push((g.to_string(), format!("type Query {{ own{g}: P }} type P @key(fields: \"id\") {{ id: ID! }}")));
            continue;
        }
        let names = ["lookup", "is", "require", "internal", "key", "shareable", "inaccessible"];
        let (header, at): (String, fn(&str) -> String) = match form {
            0 => (format!("import: [{}]", names.map(|n| format!("\"@{n}\"")).join(", ")), |n| format!("@{n}")),
            1 => (format!("import: [{}]", names.map(|n| format!("{{name: \"@{n}\", as: \"@my_{n}\"}}")).join(", ")), |n| format!("@my_{n}")),
            _ => ("as: \"cs\"".to_string(), |n| format!("@cs__{n}")),
        };
        let graph = g.to_uppercase();
        let mut put = |c: &mut Case, site: &str, written: &str, there: &str| -> String {
            if !c.flag() {
                return String::new();
            }
            let (name, args) = written.split_once('(').map_or((written, String::new()), |(n, a)| (n, format!("({a}")));
            exp.sites.entry(site.into()).or_default().insert(there.replace("GRAPH", &graph));
            format!("{}{args}", at(name))
        };
        let lookup = put(c, &format!("Query.p{g}"), "lookup", "@composite__lookup(graph:GRAPH)");
        let is = put(c, &format!("Query.p{g}(key)"), "is(field: \"id\")", "@composite__is(field:\"id\",graph:GRAPH)");
        let require = put(c, &format!("P.w{g}(d)"), "require(field: \"x\")", "@composite__require(field:\"x\",graph:GRAPH)");
        let internal = put(c, &format!("Query.i{g}"), "internal", "@composite__internal(graph:GRAPH)");
        let inner = put(c, &format!("P.v{g}"), "internal", "@composite__internal(graph:GRAPH)");
        let shared = put(c, "Query.k", "internal", "@composite__internal(graph:GRAPH)");
        let hidden = put(c, &format!("P.h{g}"), "inaccessible", "@inaccessible");
        sdls.push((
            g.to_string(),
            format!(
                "extend schema @link(url: \"{URL}\", {header})\n\
                 type Query {{ p{g}(key: ID! {is}): P {lookup} i{g}: Int {internal} own{g}: Int k: Int {} {shared} }}\n\
                 type P {} {{ id: ID! {} x: Int {} w{g}(d: Int {require}): Int v{g}: Int {inner} h{g}: Int {hidden} }}\n",
                at("shareable"),
                at("key") + "(fields: \"id\")",
                at("shareable"),
                at("shareable"),
            ),
        ));
    }
    judge(c, prop, &sdls, &exp);
}

const SPACES: &[(&str, fn(&mut Case, &str), &[&str])] = &[
    ("places and forms of a directive", places, &["C05", "C09"]),
    ("two directives on an element", pairs, &["C03", "C04", "C05", "C07", "C09"]),
    ("directives in three subgraphs", spread, &["C03", "C04", "C05", "C07", "C09"]),
    ("definitions of a composed directive", definitions, &["C03", "C04", "C05", "C07", "C09"]),
    ("directives of composite schemas", composite, &["C03", "C04", "C05", "C07", "C09"]),
];

pub fn run(k: &Check, prop: &'static str) {
    for (name, body, props) in SPACES {
        if props.contains(&prop) {
            k.space(name, |c| body(c, prop));
        }
    }
}

pub fn c09(k: &Check) {
    k.assume("the order-insensitive SDL reader h/sdl (cynic-parser) reads the rendered supergraph");
    run(k, "C09")
}
