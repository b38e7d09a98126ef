//! Authorization: what the extension sees of the elements, and what the gateway gets of its decisions.
use crate::{cbor::{enc, V}, common::*};
use grafbase_sdk::{
    host_io::event_queue,
    types::*,
    vmc_hooks::{call, host::headers::Headers as HostHeaders, types as w},
    AuthorizationExtension, IntoAuthorizeQueryOutput,
};
use std::cell::RefCell;
use vmc::{Case, Check};

struct Ext;
pub struct Out(AuthorizeQueryOutput);
impl IntoAuthorizeQueryOutput for Out {
    fn into_authorize_query_output(self) -> AuthorizeQueryOutput {
        self.0
    }
}
type Query = Box<dyn FnOnce(&AuthenticatedRequestContext, &SubgraphHeaders, QueryElements<'_>) -> Result<AuthorizeQueryOutput, ErrorResponse>>;
type Resp = Box<dyn FnOnce(&AuthorizedOperationContext, Vec<u8>, ResponseElements<'_>) -> Result<AuthorizationDecisions, Error>>;
thread_local! {
    static QUERY: RefCell<Option<Query>> = Default::default();
    static RESP: RefCell<Option<Resp>> = Default::default();
    static SEEN: RefCell<Vec<String>> = Default::default();
}
impl AuthorizationExtension for Ext {
    fn new(_: Configuration) -> Result<Self, Error> {
        Ok(Ext)
    }
    fn authorize_query(&mut self, ctx: &AuthenticatedRequestContext, headers: &SubgraphHeaders, elements: QueryElements<'_>) -> Result<impl IntoAuthorizeQueryOutput, ErrorResponse> {
        QUERY.take().unwrap()(ctx, headers, elements).map(Out)
    }
    fn authorize_response(&mut self, ctx: &AuthorizedOperationContext, state: Vec<u8>, elements: ResponseElements<'_>) -> Result<AuthorizationDecisions, Error> {
        RESP.take().unwrap()(ctx, state, elements)
    }
}
fn seen(s: String) {
    SEEN.with(|v| v.borrow_mut().push(s))
}

// ---------------------------------------------------------------- decisions
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Step {
    /// deny(element, error)
    Deny(usize),
    Push,
    /// deny_with_error_id(element, the nth pushed error)
    With(usize, usize),
}
#[derive(Clone, Debug, Hash)]
enum Decide {
    Grant,
    DenyAll,
    Some(Vec<Step>),
}
fn decide(c: &mut Case, n: usize, max: usize) -> Decide {
    match c.choose(3) {
        0 => Decide::Grant,
        1 => Decide::DenyAll,
        _ => {
            let mut steps = Vec::new();
            let mut pushed = 0;
            for _ in 0..c.choose(max + 1) {
                steps.push(match c.choose(3) {
                    0 if n > 0 => {
                        pushed += 1;
                        Step::Deny(c.choose(n))
                    }
                    1 => {
                        pushed += 1;
                        Step::Push
                    }
                    2 if n > 0 && steps.contains(&Step::Push) => {
                        let pushes = steps.iter().filter(|s| **s == Step::Push).count();
                        Step::With(c.choose(n), c.choose(pushes))
                    }
                    _ => c.skip(),
                });
            }
            let _ = pushed;
            Decide::Some(steps)
        }
    }
}
/// Errors of the same message are different errors when their extensions are.
const MESSAGES: [&str; 4] = ["error", "error", "other", "error"];
fn error(i: usize) -> Error {
    Error::new(MESSAGES[i % 4]).extension("n", i as u64).unwrap()
}
fn expected_error(i: usize) -> E {
    (MESSAGES[i % 4].into(), vec![("n".into(), enc(&V::Int(i as i128)))])
}
macro_rules! perform {
    ($d:expr, $items:expr) => {
        match $d {
            Decide::Grant => AuthorizationDecisions::grant_all(),
            Decide::DenyAll => AuthorizationDecisions::deny_all(error(0)),
            Decide::Some(steps) => {
                let mut b = AuthorizationDecisions::deny_some_builder();
                let (mut ids, mut n) = (Vec::new(), 0);
                for s in steps {
                    match s {
                        Step::Deny(i) => {
                            b.deny($items.clone().nth(*i).unwrap(), error(n));
                            n += 1;
                        }
                        Step::Push => {
                            ids.push(b.push_error(error(n)));
                            n += 1;
                        }
                        Step::With(i, id) => b.deny_with_error_id($items.clone().nth(*i).unwrap(), ids[*id]),
                    }
                }
                b.build()
            }
        }
    };
}
type Shown = (&'static str, Vec<(u32, E)>);
/// What the gateway does with the decisions: the elements denied, each with its error.
fn expected(d: &Decide, ix: &dyn Fn(usize) -> u32) -> Shown {
    match d {
        Decide::Grant => ("grant", vec![]),
        Decide::DenyAll => ("deny", vec![(0, expected_error(0))]),
        Decide::Some(steps) => {
            let (mut ids, mut n, mut out) = (Vec::new(), 0, Vec::new());
            for s in steps {
                match s {
                    Step::Deny(i) => {
                        out.push((ix(*i), expected_error(n)));
                        n += 1;
                    }
                    Step::Push => {
                        ids.push(n);
                        n += 1;
                    }
                    Step::With(i, id) => out.push((ix(*i), expected_error(ids[*id]))),
                }
            }
            ("some", out)
        }
    }
}
fn shown(d: &w::AuthorizationDecisions) -> Result<Shown, String> {
    Ok(match d {
        w::AuthorizationDecisions::GrantAll => ("grant", vec![]),
        w::AuthorizationDecisions::DenyAll(e) => ("deny", vec![(0, err(e))]),
        w::AuthorizationDecisions::DenySome(d) => (
            "some",
            d.element_to_error
                .iter()
                .map(|(i, e)| Ok((*i, err(d.errors.get(*e as usize).ok_or(format!("element {i} has error {e} of {}", d.errors.len()))?))))
                .collect::<Result<_, String>>()?,
        ),
    })
}

// ---------------------------------------------------------------- elements
const IDS: [u32; 4] = [7, 3, 7, 900];
fn site(k: usize) -> (w::schema::DirectiveSite, String) {
    use w::schema::*;
    match k {
        0 => (DirectiveSite::Object(ObjectDirectiveSite { object_name: "O".into() }), "object O".into()),
        1 => (
            DirectiveSite::FieldDefinition(FieldDefinitionDirectiveSite { parent_type_name: "P".into(), field_name: "f".into() }),
            "field P.f".into(),
        ),
        2 => (DirectiveSite::Interface(InterfaceDirectiveSite { interface_name: "I".into() }), "interface I".into()),
        3 => (DirectiveSite::Union(UnionDirectiveSite { union_name: "U".into() }), "union U".into()),
        4 => (DirectiveSite::Enum(EnumDirectiveSite { enum_name: "E".into() }), "enum E".into()),
        _ => (DirectiveSite::Scalar(ScalarDirectiveSite { scalar_name: "S".into() }), "scalar S".into()),
    }
}
fn show_site(s: &grafbase_sdk::types::DirectiveSite<'_>) -> String {
    use grafbase_sdk::types::DirectiveSite::*;
    match s {
        Object(o) => format!("object {}", o.name()),
        FieldDefinition(f) => format!("field {}.{}", f.parent_type_name(), f.name()),
        Interface(o) => format!("interface {}", o.name()),
        Union(o) => format!("union {}", o.name()),
        Enum(o) => format!("enum {}", o.name()),
        Scalar(o) => format!("scalar {}", o.name()),
    }
}
const NAMES: [&str; 2] = ["auth", "owner"];
/// Groups of elements: sizes per directive name.
fn sizes(c: &mut Case, per: usize) -> Vec<usize> {
    let g = c.choose(2) + 1;
    let s: Vec<usize> = (0..g).map(|_| c.choose(per) + 1).collect();
    s
}
fn ranges(s: &[usize]) -> Vec<(String, u32, u32)> {
    let mut at = 0;
    s.iter()
        .enumerate()
        .map(|(i, n)| {
            let r = (NAMES[i].to_string(), at as u32, (at + n) as u32);
            at += n;
            r
        })
        .collect()
}
fn show_args(r: Result<serde_json::Value, grafbase_sdk::SdkError>) -> String {
    match r {
        Ok(v) => v.to_string(),
        Err(_) => "error".into(),
    }
}
fn show_query(e: &QueryElement<'_>) -> String {
    format!("{} {} {:?} {}", u32::from(e.id()), show_site(&e.directive_site()), e.subgraph_name(), show_args(e.directive_arguments()))
}

fn query(c: &mut Case) {
    let sizes = sizes(c, 2);
    let n: usize = sizes.iter().sum();
    let sites = c.choose(6);
    let d = decide(c, n, 3);
    let form = c.choose(5);
    let fail = c.choose(4) == 3;
    let mut elements = Vec::new();
    let mut want = Vec::new();
    for i in 0..n {
        let (s, shown) = site((sites + i) % 6);
        let sub = (i % 2 == 0).then(|| format!("sub{i}"));
        let args = V::map(&[("i", V::Int(i as i128)), ("s", V::Arr(vec![V::s("a"), V::Null]))]);
        want.push(format!("{} {} {:?} {}", IDS[i], shown, sub, crate::cbor::json(&args)));
        elements.push(w::QueryElement { id: IDS[i], site: s, arguments: enc(&args), subgraph_name: sub });
    }
    c.note(|| format!("groups {sizes:?}, first site {sites}, {d:?}, form {form}, fail {fail}"));
    let names = ranges(&sizes);
    let mut w_seen = vec![format!("len {n}")];
    w_seen.extend(want.iter().cloned());
    w_seen.extend(want.iter().cloned());
    for (name, a, b) in &names {
        w_seen.push(format!("group {name} {}", b - a));
        w_seen.extend(want[*a as usize..*b as usize].iter().cloned());
    }
    w_seen.push("hooks [1, 2] token Some([9]) header Some(\"v\")".into());
    let headers = HostHeaders::from_entries(&[("x-a", "v")]);
    let subgraph = headers.0.clone();
    let (q, host_q) = queue();
    let (returned, ctx) = authenticated_ctx(&[1, 2], token(Some(&[9])), &[]);
    SEEN.with(|s| s.borrow_mut().clear());
    let d2 = d.clone();
    QUERY.set(Some(Box::new(move |ctx, headers, elements| {
        seen(format!("len {}", elements.len()));
        let mut left = elements.len();
        let mut it = elements.iter();
        while let Some(e) = { assert_eq!(it.len(), left); it.next() } {
            left -= 1;
            seen(show_query(&e));
        }
        elements.into_iter().for_each(|e| seen(show_query(&e)));
        let mut grouped = Vec::new();
        for (name, es) in elements.iter_grouped_by_directive_name() {
            seen(format!("group {name} {}", es.len()));
            for e in es {
                seen(show_query(&e));
                grouped.push(e);
            }
        }
        seen(format!("hooks {:?} token {:?} header {:?}", ctx.hooks_context(), ctx.token().into_bytes(), headers.get("x-a").map(|v| v.to_str().unwrap().to_string())));
        event_queue::send("seen", serde_json::json!({ "form": form }))?;
        // Through the elements of the groups, or those of the plain iteration.
        let decisions = if form % 2 == 0 { perform!(&d2, grouped.iter().copied()) } else { perform!(&d2, elements.into_iter().collect::<Vec<_>>().into_iter()) };
        let out = match form {
            0 => AuthorizeQueryOutput::new(decisions),
            1 => AuthorizeQueryOutput::new(decisions).context(vec![5u8]).state("st").header("x-b", "1").header("X-B", b"2".as_slice()),
            2 => {
                let mut h = Headers::new();
                h.append("x-c", "3");
                (decisions, h).into_authorize_query_output().state(vec![])
            }
            3 => {
                let mut h = Headers::new();
                h.append("x-c", "3");
                (h, decisions).into_authorize_query_output().context("c").header("x-b", "1")
            }
            _ => decisions.into_authorize_query_output(),
        };
        if fail {
            let e = match form {
                0 => ErrorResponse::from("plain"),
                1 => ErrorResponse::unauthorized().with_error("one").with_error(error(2)).with_error(error(1)).with_error(error(0)).with_header("www-authenticate", b"Bearer").unwrap(),
                2 => ErrorResponse::from(error(4)),
                3 => ErrorResponse::new(http::StatusCode::IM_A_TEAPOT),
                _ => {
                    let mut e = ErrorResponse::forbidden().with_header("a", b"1").unwrap();
                    e.push_header("a", b"2").unwrap();
                    assert!(e.push_header("b c", b"2").is_err());
                    e.push_error(error(1));
                    e
                }
            };
            return Err(e);
        }
        Ok(out)
    })));
    let res = call::authorize_query(host_q, ctx, headers, w::QueryElements { directive_names: names, elements });
    SEEN.with(|s| c.check_eq("query-elements", &w_seen, &s.borrow(), "what the extension sees of the elements"));
    c.check(returned.get(), "context-kept", || "the request context is not given back when the call returns".into());
    check_queue(c, &q, &[("seen", V::map(&[("form", V::Int(form as i128))]))]);
    match res {
        Err(e) => {
            let got = (e.status_code, e.errors.iter().map(err).collect::<Vec<_>>(), e.headers.map(|h| h.entries()));
            let want: (u16, Vec<E>, Option<Vec<(String, Vec<u8>)>>) = match form {
                _ if !fail => {
                    c.fail("query-error", format!("the extension succeeds, the gateway gets {got:?}"));
                    return;
                }
                0 => (500, vec![("plain".into(), vec![])], None),
                1 => (401, vec![("one".into(), vec![]), expected_error(2), expected_error(1), expected_error(0)], Some(vec![("www-authenticate".into(), b"Bearer".to_vec())])),
                2 => (500, vec![expected_error(4)], None),
                3 => (418, vec![], None),
                // A header that is refused leaves those already there.
                _ => {
                    c.check_eq("error-response", &(403u16, vec![expected_error(1)]), &(got.0, got.1.clone()), "the error response");
                    let h = got.2.unwrap_or_default();
                    let two = vec![("a".to_string(), b"1".to_vec()), ("a".to_string(), b"2".to_vec())];
                    c.check_eq("error-headers-lost", &two, &h, "the headers after one that is refused");
                    return;
                }
            };
            c.check_eq("error-response", &want, &got, "the error response");
        }
        Ok(o) => {
            if fail {
                c.fail("query-error", "the extension fails, the gateway gets a success");
                return;
            }
            match shown(&o.decisions) {
                Ok(got) => {
                    c.check_eq("query-decisions", &expected(&d, &|i| i as u32), &got, "the decisions");
                    c.outcome(&got);
                }
                Err(e) => c.fail("query-decisions", e),
            }
            let h = |e: &[(&str, &str)]| Some(HostHeaders::from_entries(e).entries());
            let want = match form {
                0 | 4 => (vec![], vec![], None),
                1 => (vec![5u8], b"st".to_vec(), h(&[("x-b", "1"), ("x-b", "2")])),
                2 => (vec![], vec![], h(&[("x-c", "3")])),
                _ => (b"c".to_vec(), vec![], h(&[("x-c", "3"), ("x-b", "1")])),
            };
            c.check_eq("query-output", &want, &(o.context, o.state, o.additional_headers.map(|h| h.entries())), "context, state and additional headers");
            c.check(std::rc::Rc::ptr_eq(&o.subgraph_headers.0, &subgraph), "subgraph-headers", || "the gateway gets other subgraph headers back than its own".into());
        }
    }
}
pub fn check_queue(c: &mut Case, q: &Queue, want: &[(&str, V)]) {
    let q = q.borrow();
    let got: Vec<(String, Result<V, String>)> = q.pushed.iter().map(|(n, b)| (n.clone(), crate::cbor::dec(b))).collect();
    let want: Vec<(String, Result<V, String>)> = want.iter().map(|(n, v)| (n.to_string(), Ok(v.clone()))).collect();
    c.check_eq("events", &want, &got, "the events of the call");
    c.check_eq("queue-kept", &1, &q.dropped, "times the event queue was given back");
}

fn response(c: &mut Case) {
    let sizes = sizes(c, 2);
    let n: usize = sizes.iter().sum();
    // How many items every element has; 0..=2, laid one after the other, or from the start.
    let counts: Vec<usize> = (0..n).map(|_| c.choose(3)).collect();
    let overlap = c.flag();
    let d = {
        let total: usize = counts.iter().sum();
        decide(c, total, 2)
    };
    let form = c.choose(3);
    let mut at = 1; // the first item belongs to no element
    let (mut elements, mut ixs, mut want) = (Vec::new(), Vec::new(), Vec::new());
    for (i, k) in counts.iter().enumerate() {
        let start = if overlap { 1 } else { at };
        elements.push(w::ResponseElement { query_element_id: IDS[i], items_range: (start as u32, (start + k) as u32) });
        let ix: Vec<u32> = (start..start + k).map(|i| i as u32).collect();
        want.push(format!("{} {:?}", IDS[i], ix.iter().map(|i| format!("{{\"item\":{i}}}")).collect::<Vec<_>>()));
        ixs.extend(ix);
        at += k;
    }
    let items: Vec<Vec<u8>> = (0..at + 1).map(|i| enc(&V::map(&[("item", V::Int(i as i128))]))).collect();
    c.note(|| format!("groups {sizes:?}, items {counts:?}, overlap {overlap}, {d:?}, form {form}"));
    let names = ranges(&sizes);
    let mut w_seen = vec![format!("len {n}")];
    w_seen.extend(want.iter().cloned());
    w_seen.extend(want.iter().cloned());
    for (name, a, b) in &names {
        w_seen.push(format!("group {name} {}", b - a));
        w_seen.extend(want[*a as usize..*b as usize].iter().cloned());
    }
    w_seen.push("state [4, 0] hooks [3] token None auth Ok([8]) Ok([6]) err".into());
    let (q, host_q) = queue();
    let (returned, ctx) = operation_ctx(&[3], token(None), &[(None, &[8]), (Some("k"), &[6])]);
    SEEN.with(|s| s.borrow_mut().clear());
    let d2 = d.clone();
    RESP.set(Some(Box::new(move |ctx, state, elements| {
        fn show(e: &ResponseElement<'_>) -> String {
            let n = e.items().len();
            let items: Vec<String> = e.items().map(|i| show_args(i.directive_arguments())).collect();
            assert_eq!(n, items.len());
            format!("{} {items:?}", u32::from(e.query_element_id()))
        }
        seen(format!("len {}", elements.len()));
        assert_eq!(elements.iter().len(), elements.len());
        elements.iter().for_each(|e| seen(show(&e)));
        elements.into_iter().for_each(|e| seen(show(&e)));
        let mut grouped = Vec::new();
        for (name, es) in elements.iter_grouped_by_directive_name() {
            seen(format!("group {name} {}", es.len()));
            for e in es {
                seen(show(&e));
                grouped.push(e);
            }
        }
        let key = |k: &str| ctx.authorization_context_by_key(k);
        seen(format!(
            "state {state:?} hooks {:?} token {:?} auth {:?} {:?} {}",
            ctx.hooks_context(),
            ctx.token().into_bytes(),
            ctx.authorization_context().map_err(|e| e.to_string()),
            key("k").map_err(|e| e.to_string()),
            if key("z").is_err() { "err" } else { "ok" }
        ));
        event_queue::send("response", serde_json::json!([1, "x"]))?;
        match form {
            0 => Ok(perform!(&d2, GroupItems(grouped.clone()))),
            1 => Ok(perform!(&d2, GroupItems(elements.into_iter().collect()))),
            _ => Err(error(9)),
        }
    })));
    let res = call::authorize_response(host_q, ctx, vec![4, 0], w::ResponseElements { directive_names: names, elements, items });
    SEEN.with(|s| c.check_eq("response-elements", &w_seen, &s.borrow(), "what the extension sees of the elements"));
    c.check(returned.get(), "context-kept", || "the operation context is not given back when the call returns".into());
    check_queue(c, &q, &[("response", V::Arr(vec![V::Int(1), V::s("x")]))]);
    match res {
        Err(e) => {
            c.check_eq("response-error", &(2, expected_error(9)), &(form, err(&e)), "the error");
        }
        Ok(d2) => {
            c.check(form != 2, "response-error", || "the extension fails, the gateway gets a success".into());
            match shown(&d2) {
                Ok(got) => {
                    c.check_eq("response-decisions", &expected(&d, &|i| ixs[i]), &got, "the decisions");
                    c.outcome(&got);
                }
                Err(e) => c.fail("response-decisions", e),
            }
        }
    }
}
/// The items of the elements, one after the other (an item cannot be cloned).
#[derive(Clone)]
struct GroupItems<'a>(Vec<ResponseElement<'a>>);
impl<'a> GroupItems<'a> {
    fn nth(self, n: usize) -> Option<ResponseItem<'a>> {
        self.0.into_iter().flat_map(|e| e.items().collect::<Vec<_>>()).nth(n)
    }
}

/// Histories of calls: each one's events are in its own queue, in order, whether it succeeds or not; an event sent
/// outside of any call is in none.
fn calls(c: &mut Case) {
    let n = c.choose(if c.thorough() { 4 } else { 3 }) + 1;
    let mut queues = Vec::new();
    let mut trace = Vec::new();
    for nth in 0..n {
        let (kind, ok, events, outside) = (c.choose(2), c.flag(), c.choose(3), c.flag());
        trace.push((kind, ok, events, outside));
        if outside {
            event_queue::send("outside", 1).unwrap();
        }
        let (q, host_q) = queue();
        let mut want = Vec::new();
        for e in 0..events {
            want.push((format!("event{e}"), V::Arr(vec![V::Int(nth as i128), V::Int(e as i128)])));
        }
        let send = move || {
            for e in 0..events {
                event_queue::send(&format!("event{e}"), (nth as u32, e as u32)).unwrap();
            }
        };
        if kind == 0 {
            QUERY.set(Some(Box::new(move |_, _, _| {
                send();
                if ok { Ok(AuthorizeQueryOutput::new(AuthorizationDecisions::grant_all())) } else { Err("no".into()) }
            })));
            let (_, ctx) = authenticated_ctx(&[], token(None), &[]);
            let r = call::authorize_query(host_q, ctx, HostHeaders::new(), w::QueryElements { directive_names: vec![], elements: vec![] });
            c.check_eq("call-result", &ok, &r.is_ok(), "whether the call succeeds");
        } else {
            RESP.set(Some(Box::new(move |_, _, _| {
                send();
                if ok { Ok(AuthorizationDecisions::grant_all()) } else { Err("no".into()) }
            })));
            let (_, ctx) = operation_ctx(&[], token(None), &[]);
            let r = call::authorize_response(host_q, ctx, vec![], w::ResponseElements { directive_names: vec![], elements: vec![], items: vec![] });
            c.check_eq("call-result", &ok, &r.is_ok(), "whether the call succeeds");
        }
        queues.push((q, want));
    }
    c.note(|| format!("{trace:?}"));
    for (q, want) in &queues {
        let want: Vec<(&str, V)> = want.iter().map(|(n, v)| (n.as_str(), v.clone())).collect();
        check_queue(c, q, &want);
    }
    c.outcome(&trace);
    c.steps(n as u64);
}

/// Many elements, items and errors.
fn many(c: &mut Case) {
    let n: usize = *c.pick(&[17, 255, 256, 257, 300, 70_000]);
    let (shape, respond) = (c.choose(4), c.flag());
    c.note(|| format!("{n} elements, shape {shape}, of the response: {respond}"));
    if n > 300 && !c.thorough() && shape != 1 {
        c.skip();
    }
    let bare = |i: usize| (format!("e{i}"), vec![]);
    // The elements denied in order, and the error of each.
    let denied: Vec<(usize, usize)> = match shape {
        0 => (0..n).map(|i| (i, i)).collect(),
        1 => (0..n).rev().map(|i| (i, n - 1 - i)).collect(),
        2 => (0..n).map(|i| (i, 0)).collect(),
        _ => (0..n).map(|i| (i, n - 1)).collect(),
    };
    let build = move |b: &mut DenySomeBuilder, deny: &mut dyn FnMut(&mut DenySomeBuilder, usize, Option<ErrorId>, Option<Error>)| match shape {
        0 => (0..n).for_each(|i| deny(b, i, None, Some(Error::new(format!("e{i}"))))),
        1 => (0..n).rev().for_each(|i| deny(b, i, None, Some(Error::new(format!("e{}", n - 1 - i))))),
        _ => {
            let ids: Vec<ErrorId> = (0..n).map(|i| b.push_error(format!("e{i}"))).collect();
            let id = ids[if shape == 2 { 0 } else { n - 1 }];
            (0..n).for_each(|i| deny(b, i, Some(id), None));
        }
    };
    let groups = vec![("a".to_string(), 0u32, (n / 2) as u32), ("b".to_string(), (n / 2) as u32, n as u32)];
    let want_seen: Vec<String> = (0..n).map(|i| format!("{} {i}", if i < n / 2 { "a" } else { "b" })).collect();
    SEEN.take();
    let decisions = if respond {
        RESP.set(Some(Box::new(move |_, _, elements| {
            let mut b = AuthorizationDecisions::deny_some_builder();
            let mut items = Vec::new();
            for (name, es) in elements.iter_grouped_by_directive_name() {
                for e in es {
                    seen(format!("{name} {}", u32::from(e.query_element_id())));
                    items.extend(e.items());
                }
            }
            let mut items: Vec<_> = items.into_iter().map(Some).collect();
            build(&mut b, &mut |b, i, id, e| {
                let x = items[i].take().unwrap();
                match id {
                    Some(id) => b.deny_with_error_id(x, id),
                    None => b.deny(x, e.unwrap()),
                }
            });
            Ok(b.build())
        })));
        let (_, ctx) = operation_ctx(&[], token(None), &[]);
        let elements = (0..n as u32).map(|i| w::ResponseElement { query_element_id: i, items_range: (i, i + 1) }).collect();
        let items = (0..n).map(|i| enc(&V::Int(i as i128))).collect();
        call::authorize_response(queue().1, ctx, vec![], w::ResponseElements { directive_names: groups, elements, items }).map_err(|e| e.message)
    } else {
        QUERY.set(Some(Box::new(move |_, _, elements| {
            let mut b = AuthorizationDecisions::deny_some_builder();
            let mut all = Vec::new();
            for (name, es) in elements.iter_grouped_by_directive_name() {
                for e in es {
                    seen(format!("{name} {}", u32::from(e.id())));
                    all.push(e);
                }
            }
            build(&mut b, &mut |b, i, id, e| match id {
                Some(id) => b.deny_with_error_id(all[i], id),
                None => b.deny(all[i], e.unwrap()),
            });
            Ok(AuthorizeQueryOutput::new(b.build()))
        })));
        let (_, ctx) = authenticated_ctx(&[], token(None), &[]);
        let elements = (0..n as u32).map(|i| w::QueryElement { id: i, site: site(i as usize % 6).0, arguments: enc(&V::Null), subgraph_name: None }).collect();
        call::authorize_query(queue().1, ctx, HostHeaders::new(), w::QueryElements { directive_names: groups, elements }).map(|o| o.decisions).map_err(|e| format!("{:?}", e.errors))
    };
    SEEN.with(|s| c.check(want_seen == *s.borrow(), "many-elements", || format!("of {n} elements the extension sees {}", s.borrow().len())));
    match decisions.and_then(|d| shown(&d)) {
        Ok((kind, got)) => {
            let want: Vec<(u32, E)> = denied.iter().map(|(i, e)| (*i as u32, bare(*e))).collect();
            let at = want.iter().zip(&got).position(|(a, b)| a != b);
            c.check(kind == "some" && want == got, "many-decisions", || format!("{kind}: {} denied of {n}, first difference {:?}", got.len(), at.map(|i| (&want[i], &got[i]))));
        }
        Err(e) => c.fail("many-decisions", e),
    }
    c.outcome(&(n, shape, respond));
}

pub fn run(k: &Check) {
    grafbase_sdk::extension::authorization::register::<Ext>();
    init(vec![], &enc(&V::Null), false, "off").unwrap();
    k.space_seq("query elements and decisions", query);
    k.space_seq("response elements and decisions", response);
    k.space_seq("histories of calls", calls);
    k.space_seq("many elements", many);
}
