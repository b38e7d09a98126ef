//! Composes subgraphs for real and compares the result with the model, one property at a time.
use std::collections::{BTreeMap, BTreeSet};

use graphql_composition::{FederatedGraph, Subgraphs, compose as real_compose, render_api_sdl, render_federated_sdl};
use vmc::Case;

use crate::model::*;

pub struct Real {
    pub graph: Option<FederatedGraph>,
    pub diagnostics: Vec<String>,
    pub has_error: bool,
}

pub fn real(sdls: &[(String, String)]) -> Real {
    let mut s = Subgraphs::default();
    for (name, sdl) in sdls {
        if let Err(e) = s.ingest_str(sdl, name, Some(&format!("http://{name}"))) {
            return Real { graph: None, diagnostics: vec![format!("ingest: {e:?}")], has_error: true };
        }
    }
    let r = real_compose(&mut s);
    let mut diagnostics = vec![];
    let mut has_error = false;
    for d in r.diagnostics().iter() {
        has_error |= d.severity().is_error();
        diagnostics.push(d.message().to_string());
    }
    Real { graph: r.into_result().ok(), diagnostics, has_error }
}

pub fn show(sdls: &[(String, String)]) -> String {
    sdls.iter().map(|(n, s)| format!("--- {n}\n{s}")).collect()
}

/// What a property says about a supergraph, as named facts.
fn facts(prop: &str, g: &Graph) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let join = |d: &BTreeSet<String>| d.iter().cloned().collect::<Vec<_>>().join(" ");
    for (n, t) in g {
        let k = t.kind;
        match prop {
            "C02" => {
                m.insert(format!("{k:?} {n}"), String::new());
                for i in &t.implements {
                    m.insert(format!("implements {n} {i}"), String::new());
                }
                for i in &t.members {
                    m.insert(format!("member {n} {i}"), String::new());
                }
            }
            "C06" => {
                m.insert(format!("{k:?} {n}"), join(&t.joins));
            }
            "C08" => {
                m.insert(format!("{k:?}.directives {n}"), join(&t.dirs));
                m.insert(format!("{k:?}.description {n}"), format!("{:?}", t.desc));
            }
            _ => {}
        }
        for (fname, x) in &t.fields {
            let el = match k {
                Kind::Enum => "value",
                Kind::Input => "inputfield",
                Kind::Interface => "interfacefield",
                _ => "field",
            };
            let mut elements = vec![(el, format!("{n}.{fname}"), x)];
            elements.extend(x.args.iter().map(|(a, y)| ("argument", format!("{n}.{fname}({a})"), y)));
            for (el, path, x) in elements {
                match prop {
                    "C01" => {
                        m.insert(format!("{el} {path}"), x.ty.clone());
                    }
                    "C02" => {
                        m.insert(format!("{el} {path}"), String::new());
                    }
                    "C06" if el != "argument" => {
                        m.insert(format!("{el} {path}"), format!("{:?}", x.routes));
                    }
                    "C08" => {
                        m.insert(format!("{el}.directives {path}"), join(&x.dirs));
                        m.insert(format!("{el}.description {path}"), format!("{:?}", x.desc));
                        m.insert(format!("{el}.default {path}"), format!("{:?}", x.default));
                    }
                    _ => {}
                }
            }
        }
    }
    m
}

/// The first difference: its kind and its description.
fn differ(prop: &str, expected: &Graph, got: &Graph) -> Option<(String, String)> {
    let (e, g) = (facts(prop, expected), facts(prop, got));
    let kind = |k: &str| k.split(' ').next().unwrap().to_string();
    for (k, v) in &e {
        match g.get(k) {
            // membership is judged by C02
            None if prop == "C02" => return Some((format!("missing-{}", kind(k)), format!("{k} is missing"))),
            None => {}
            Some(x) if x != v => {
                return Some((kind(k), format!("{k}: expected `{v}`, got `{x}`")));
            }
            Some(_) => {}
        }
    }
    if prop == "C02" {
        for k in g.keys() {
            if !e.contains_key(k) && !k.starts_with("Scalar join__") && !BUILTINS.iter().any(|b| *k == format!("Scalar {b}")) {
                return Some((format!("extra-{}", kind(k)), format!("{k} is not declared by the subgraphs")));
            }
        }
    }
    None
}

const BUILTINS: [&str; 5] = ["ID", "String", "Int", "Float", "Boolean"];

/// Everything that may not depend on the order of the subgraphs. What is documented to be taken
/// from the first subgraph is reduced to its presence.
fn unordered(g: &Graph) -> BTreeMap<String, String> {
    let dirs = |d: &BTreeSet<String>| {
        d.iter()
            .map(|d| {
                let first_wins = ["@deprecated", "@cost", "@listSize"].into_iter().find(|p| d.starts_with(p));
                first_wins.unwrap_or(d).to_string()
            })
            .collect::<Vec<_>>()
            .join(" ")
    };
    let mut m = BTreeMap::new();
    for (n, t) in g {
        m.insert(n.clone(), format!("{:?} {} {} {:?} {:?} {:?}", t.kind, t.desc.is_some(), dirs(&t.dirs), t.joins, t.implements, t.members));
        for (fname, x) in &t.fields {
            let input = t.kind == Kind::Input;
            m.insert(
                format!("{n}.{fname}"),
                format!("{} {} {} {:?}", x.ty, x.desc.is_some(), dirs(&x.dirs), x.routes) + if input && x.default.is_some() { " default" } else { "" },
            );
            for (a, y) in &x.args {
                m.insert(format!("{n}.{fname}({a})"), format!("{} {} {} {:?}", y.ty, y.desc.is_some(), dirs(&y.dirs), y.default));
            }
        }
    }
    m
}

/// Whether every visible type has something visible in it.
fn inhabited(g: &Graph) -> bool {
    let hidden = |d: &BTreeSet<String>| d.contains("@inaccessible");
    g.values().filter(|t| !hidden(&t.dirs)).all(|t| match t.kind {
        Kind::Scalar => true,
        Kind::Union => t.members.iter().any(|m| g.get(m).is_none_or(|m| !hidden(&m.dirs))),
        _ => t.fields.values().any(|x| !hidden(&x.dirs)),
    })
}

fn api_differs(expected: &Graph, got: &Graph) -> Option<(String, String)> {
    for (n, t) in expected {
        let Some(g) = got.get(n) else { return Some((format!("missing-{:?}", t.kind), format!("{n} is missing from the API schema"))) };
        if g != t {
            let part = if g.members != t.members {
                "members"
            } else if g.fields.keys().ne(t.fields.keys()) {
                "fields"
            } else if g.fields != t.fields {
                "field"
            } else {
                "type"
            };
            return Some((format!("{:?}-{part}", t.kind), format!("{n} in the API schema: expected {t:?}\ngot {g:?}")));
        }
    }
    got.keys().find(|n| !expected.contains_key(*n)).map(|n| ("extra-type".into(), format!("{n} is in the API schema")))
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}

/// All orders of a few, some of many.
pub fn orders(n: usize) -> Vec<Vec<usize>> {
    if n <= 5 {
        return permutations(n);
    }
    let all: Vec<usize> = (0..n).collect();
    let rotated = |k: usize| all.iter().map(|i| (i + k) % n).collect::<Vec<_>>();
    vec![all.clone(), all.iter().rev().copied().collect(), rotated(1), rotated(n / 2)]
}

pub fn judge(c: &mut Case, prop: &str, subs: &[Sub]) {
    judge_with(c, prop, subs, None)
}

/// `also` are errors the model does not know about.
pub fn judge_with(c: &mut Case, prop: &str, subs: &[Sub], also: Option<&'static str>) {
    let sdls: Vec<(String, String)> = subs.iter().map(|s| (s.name.clone(), s.sdl())).collect();
    c.note(|| show(&sdls));
    let (exp, mut errs) = compose(subs);
    errs.extend(also);
    let r = real(&sdls);
    c.steps(1);
    let verdict: Vec<&str> = errs.iter().copied().collect();
    c.outcome(&(r.graph.is_some(), &verdict));

    if r.graph.is_none() {
        c.check(r.has_error, "failure-without-error", || "composition fails without an error diagnostic".into());
    }
    if errs.is_empty() && r.graph.is_none() {
        c.fail("rejected", format!("composition rejects subgraphs that break no rule: {:?}", r.diagnostics));
        return;
    }
    if !errs.is_empty() && r.graph.is_some() {
        let reported = match prop {
            "C07" => true,
            "C01" => verdict.iter().all(|e| e.ends_with("types")),
            "C04" => verdict.iter().all(|e| e.contains("inaccessible")),
            _ => false,
        };
        if reported {
            c.fail(format!("accepted:{}", verdict.join(",")), format!("composition accepts subgraphs that break a rule: {verdict:?}"));
        }
        return;
    }
    if prop == "C03" {
        let baseline = r.graph.as_ref().map(|g| {
            let fed = render_federated_sdl(g).unwrap();
            let doc = sdl::parse(&fed).map(|d| { let (g, graphs) = read(&d); (unordered(&g), graphs) });
            let api = sdl::parse(&render_api_sdl(g)).map(|d| unordered(&read(&d).0));
            (doc, api)
        });
        for p in orders(subs.len()).into_iter().skip(1) {
            let other: Vec<_> = p.iter().map(|i| sdls[*i].clone()).collect();
            let o = real(&other);
            c.steps(1);
            if o.graph.is_some() != r.graph.is_some() {
                c.fail("verdict", format!("order {p:?} gives another verdict: {:?} instead of {:?}", o.diagnostics, r.diagnostics));
                return;
            }
            let (Some(g), Some((doc, api))) = (&o.graph, &baseline) else { continue };
            let fed = render_federated_sdl(g).unwrap();
            let odoc = sdl::parse(&fed).map(|d| { let (g, graphs) = read(&d); (unordered(&g), graphs) });
            let oapi = sdl::parse(&render_api_sdl(g)).map(|d| unordered(&read(&d).0));
            if !c.check_eq("supergraph", doc, &odoc, &format!("the supergraph depends on the order ({p:?})"))
                || !c.check_eq("api", api, &oapi, &format!("the API schema depends on the order ({p:?})"))
            {
                return;
            }
        }
        return;
    }
    let Some(graph) = r.graph else { return };
    if prop == "C07" {
        return;
    }
    let fed = match render_federated_sdl(&graph) {
        Ok(f) => f,
        Err(e) => return c.fail("render", format!("{e}")),
    };
    match prop {
        "C05" => {
            let api = render_api_sdl(&graph);
            if !inhabited(&exp) {
                return;
            }
            for (what, s) in [("federated", &fed), ("api", &api)] {
                if let Err(e) = sdl::parse(s) {
                    c.fail(format!("{what}-unparseable"), format!("{e}\n{s}"));
                    return;
                }
            }
            let again = match FederatedGraph::from_sdl(&fed) {
                Ok(g) => g,
                Err(e) => return c.fail("reload", format!("{e}\n{fed}")),
            };
            c.validated(1);
            let fed2 = match render_federated_sdl(&again) {
                Ok(f) => f,
                Err(e) => return c.fail("render", format!("{e}")),
            };
            let api2 = render_api_sdl(&again);
            if fed2 != fed {
                // layout aside, the meaning has to be the same
                let same = sdl::parse(&fed) == sdl::parse(&fed2);
                c.fail(if same { "federated-text" } else { "federated" }, format!("--- first\n{fed}\n--- reloaded\n{fed2}"));
            } else if api2 != api {
                c.fail("api", format!("--- first\n{api}\n--- reloaded\n{api2}"));
            }
        }
        "C04" => {
            if !inhabited(&exp) {
                c.trivial();
                return;
            }
            let text = render_api_sdl(&graph);
            let doc = match sdl::parse(&text) {
                Ok(d) => d,
                Err(e) => return c.fail("api-unparseable", format!("{e}\n{text}")),
            };
            // custom directive definitions are public, applications of federation directives are not
            if !doc.directives.keys().all(|d| ["cost", "listSize", "deprecated"].contains(&d.trim_start_matches('@'))) || text.contains("join__") || text.contains("@link") {
                c.fail("machinery", format!("federation machinery in the API schema\n{text}"));
                return;
            }
            let (got, _) = read_api(&doc);
            c.validated(1);
            match api_differs(&api(&exp, false), &got) {
                None => {
                    for (n, t) in &got {
                        let refs = t.fields.values().flat_map(|x| x.args.values().map(|a| &a.ty).chain([&x.ty]));
                        for ty in refs.map(|t| T::parse(t).name).filter(|n| !n.is_empty()).chain(t.members.iter().cloned()) {
                            if !got.contains_key(&ty) && !BUILTINS.contains(&ty.as_str()) {
                                c.fail("dangling", format!("{n} refers to {ty}, which is not in the API schema\n{text}"));
                                return;
                            }
                        }
                    }
                }
                Some(_) if api_differs(&api(&exp, true), &got).is_none() => {
                    c.fail("inaccessible-argument", format!("an @inaccessible argument is in the API schema\n{text}"))
                }
                Some((k, m)) => c.fail(k, format!("{m}\n{text}")),
            }
        }
        _ => {
            let doc = match sdl::parse(&fed) {
                Ok(d) => d,
                Err(e) => return c.fail("federated-unparseable", format!("{e}\n{fed}")),
            };
            let (got, graphs) = read(&doc);
            c.validated(1);
            if let Some((k, m)) = differ(prop, &exp, &got) {
                c.fail(k, format!("{m}\n{fed}"));
                return;
            }
            if prop == "C06" {
                let urls: BTreeSet<String> = graphs.iter().map(|g| g.split_once('=').unwrap().1.to_string()).collect();
                let want: BTreeSet<String> = subs.iter().map(|s| format!("{0}@http://{0}", s.name)).collect();
                if urls != want || graphs.len() != subs.len() {
                    c.fail("graphs", format!("join__Graph is {graphs:?}, the subgraphs are {want:?}"));
                }
            }
        }
    }
}

fn read_api(doc: &sdl::Doc) -> (Graph, BTreeSet<String>) {
    let (mut g, s) = read(doc);
    for t in g.values_mut() {
        for x in t.fields.values_mut() {
            x.routes.clear();
        }
    }
    (g, s)
}
