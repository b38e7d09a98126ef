//! Hooks: what a hook sees of the request and of the response, what the gateway gets back, and the events it reads.
use crate::{c50::check_queue, cbor::{enc, json, V}, common::*, errs};
use grafbase_sdk::{
    host_io::event_queue::{self, Event, EventQueue, GraphqlResponseStatus as Status, RequestExecution},
    types::*,
    vmc_hooks::{call, host::headers::{Entries, Headers as HostHeaders}, types::{self as w, event_types as t, http_types::HttpMethod as M}},
    HooksExtension, IntoOnRequestOutput,
};
use http::{Method, StatusCode};
use std::{cell::RefCell, rc::Rc};
use vmc::{Case, Check};

struct Ext;
struct Out(OnRequestOutput);
impl IntoOnRequestOutput for Out {
    fn into_on_request_output(self) -> OnRequestOutput {
        self.0
    }
}
type Request = Box<dyn FnOnce(&str, Method, &mut GatewayHeaders) -> Result<OnRequestOutput, ErrorResponse>>;
type Respond = Box<dyn FnOnce(&RequestContext, &mut StatusCode, &mut Headers, EventQueue) -> Result<(), Error>>;
type Graphql = Box<dyn FnOnce(&AuthorizedOperationContext, &str, &mut HttpRequestParts) -> Result<(), Error>>;
type Virtual = Box<dyn FnOnce(&AuthorizedOperationContext, &str, &mut Headers) -> Result<(), Error>>;
thread_local! {
    static REQUEST: RefCell<Option<Request>> = Default::default();
    static RESPOND: RefCell<Option<Respond>> = Default::default();
    static GRAPHQL: RefCell<Option<Graphql>> = Default::default();
    static VIRTUAL: RefCell<Option<Virtual>> = Default::default();
}
impl HooksExtension for Ext {
    fn new(_: Configuration) -> Result<Self, Error> {
        Ok(Ext)
    }
    fn on_request(&mut self, url: &str, method: Method, headers: &mut GatewayHeaders) -> Result<impl IntoOnRequestOutput, ErrorResponse> {
        REQUEST.take().unwrap()(url, method, headers).map(Out)
    }
    fn on_response(&mut self, ctx: &RequestContext, status: &mut StatusCode, headers: &mut Headers, q: EventQueue) -> Result<(), Error> {
        RESPOND.take().unwrap()(ctx, status, headers, q)
    }
    fn on_graphql_subgraph_request(&mut self, ctx: &AuthorizedOperationContext, name: &str, parts: &mut HttpRequestParts) -> Result<(), Error> {
        GRAPHQL.take().unwrap()(ctx, name, parts)
    }
    fn on_virtual_subgraph_request(&mut self, ctx: &AuthorizedOperationContext, name: &str, headers: &mut Headers) -> Result<(), Error> {
        VIRTUAL.take().unwrap()(ctx, name, headers)
    }
}
const METHODS: [(M, Method); 9] = [
    (M::Get, Method::GET),
    (M::Post, Method::POST),
    (M::Put, Method::PUT),
    (M::Delete, Method::DELETE),
    (M::Patch, Method::PATCH),
    (M::Head, Method::HEAD),
    (M::Options, Method::OPTIONS),
    (M::Connect, Method::CONNECT),
    (M::Trace, Method::TRACE),
];
const URLS: [&str; 3] = ["/graphql", "http://h:1/a?b=é#c", ""];
fn start_headers(k: usize) -> (HostHeaders, Vec<(&'static str, &'static str)>) {
    let e: Vec<_> = [&[][..], &[("a", "1")], &[("a", "1"), ("b", "x"), ("a", "2")]][k].to_vec();
    (HostHeaders::from_entries(&e), e)
}
fn owned(e: &[(&str, &str)]) -> Entries {
    e.iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect()
}
/// A change of the headers, as a model and on the real ones.
#[derive(Clone, Copy, Debug, Hash)]
enum Change {
    Set(&'static str, usize),
    Append(&'static str),
    Remove(&'static str),
}
fn change(c: &mut Case) -> Change {
    let name = *c.pick(&["a", "b"]);
    match c.choose(5) {
        0 => Change::Append(name),
        1 => Change::Remove(name),
        n => Change::Set(name, n - 2),
    }
}
fn sorted(mut e: Entries) -> Entries {
    // The values of one name keep their order.
    e.sort_by(|a, b| a.0.cmp(&b.0));
    e
}
fn model(e: &[(&str, &str)], changes: &[Change]) -> Entries {
    let mut e = owned(e);
    for c in changes {
        match c {
            Change::Set(n, k) => {
                e.retain(|(name, _)| name != n);
                e.extend((0..*k).map(|i| (n.to_string(), format!("s{i}").into_bytes())));
            }
            Change::Append(n) => e.push((n.to_string(), b"more".to_vec())),
            Change::Remove(n) => e.retain(|(name, _)| name != n),
        }
    }
    sorted(e)
}
fn apply(h: &mut Headers, changes: &[Change]) {
    for c in changes {
        match c {
            Change::Set(n, k) => h.set(*n, (0..*k).map(|i| format!("s{i}"))),
            Change::Append(n) => h.append(*n, "more"),
            Change::Remove(n) => {
                h.remove(n.to_uppercase());
            }
        }
    }
}
fn all(h: &Headers) -> Entries {
    sorted(h.iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect())
}
type Seen<T> = Rc<RefCell<Option<T>>>;
fn send(n: usize) {
    for i in 0..n {
        event_queue::send(EVENTS[i % 3], i / 2).unwrap();
    }
}
/// The first two are the same.
const EVENTS: [&str; 3] = ["é b", "é b", ""];
fn sent(c: &mut Case, q: &Queue, n: usize) {
    let e: Vec<_> = (0..n).map(|i| (EVENTS[i % 3], V::Int(i as i128 / 2))).collect();
    check_queue(c, q, &e);
}
fn changes(c: &mut Case, most: usize) -> Vec<Change> {
    (0..c.choose(most + 1)).map(|_| change(c)).collect()
}

fn request(c: &mut Case, deep: bool) {
    let (m, method) = METHODS[c.choose(if deep { 9 } else { 2 })].clone();
    let url = URLS[c.choose(if deep { 3 } else { 2 })];
    let (headers, before) = start_headers(c.choose(3));
    let changes = changes(c, if deep { 2 } else { 1 });
    let events = [0, 1, 3][c.choose(3)];
    let form = c.choose(if deep { 6 + errs::RESPONSES } else { 8 });
    c.note(|| format!("on_request {method} {url:?} {before:?} {changes:?}, {events} events, answer {form}"));
    let (q, host_q) = queue();
    let seen: Seen<(String, Method, Entries)> = Default::default();
    let (s, ch) = (seen.clone(), changes.clone());
    REQUEST.set(Some(Box::new(move |url, method, h| {
        *s.borrow_mut() = Some((url.to_string(), method, all(h)));
        apply(h, &ch);
        send(events);
        Ok(match form {
            0 => ().into_on_request_output(),
            1 => OnRequestOutput::new(),
            2 => OnRequestOutput::new().contract_key("key"),
            3 => OnRequestOutput::default().context([1u8, 0, 255]),
            4 => OnRequestOutput::new().context("first").contract_key(String::from("é")).context(vec![]),
            5 => OnRequestOutput::new().contract_key("a").context("c").contract_key(""),
            n => return Err(errs::response(n - 6).0),
        })
    })));
    let out = call::on_request(host_q, w::HttpRequestParts { url: url.into(), method: m, headers });
    c.check_eq("request-seen", &Some((url.to_string(), method, model(&before, &[]))), &*seen.borrow(), "what on_request sees");
    let want = match form {
        0 | 1 => Ok((vec![], None)),
        2 => Ok((vec![], Some("key"))),
        3 => Ok((vec![1, 0, 255], None)),
        4 => Ok((vec![], Some("é"))),
        5 => Ok((b"c".to_vec(), Some(""))),
        n => Err(errs::response(n - 6).1),
    }
    .map(|(context, key)| (context, key.map(str::to_string), model(&before, &changes)));
    let got = out.map(|o| (o.context, o.contract_key, sorted(o.headers.entries()))).map_err(errs::shown);
    c.check_eq("request-output", &want, &got, "what the gateway gets of on_request");
    sent(c, &q, events);
    c.outcome(&got.is_ok());
}

const STATUS: [u16; 4] = [100, 200, 404, 599];
fn response(c: &mut Case, deep: bool) {
    let status = STATUS[c.choose(if deep { 4 } else { 2 })];
    let new = [None, Some(503u16), Some(200)][c.choose(if deep { 3 } else { 2 })];
    let (headers, before) = start_headers(c.choose(3));
    let changes = changes(c, if deep { 2 } else { 1 });
    let hooks = *c.pick(&[&b"ctx"[..], b""]);
    let n = c.choose(3);
    let pops = c.choose(n + 2);
    let fail = c.choose(if deep { errs::ERRORS + 1 } else { 2 });
    c.note(|| format!("on_response {status} {new:?} {before:?} {changes:?}, {n} events, {pops} read, fails {fail}"));
    let (q, host_q) = queue();
    q.borrow_mut().events.extend((0..n).map(|i| t::Event::Http(t::ExecutedHttpRequest { method: M::Get, url: format!("u{i}"), status_code: 200 })));
    let (returned, ctx) = request_ctx(hooks, token(None), &[]);
    let seen: Seen<(Vec<u8>, u16, Entries, Vec<Option<String>>)> = Default::default();
    let (s, ch) = (seen.clone(), changes.clone());
    RESPOND.set(Some(Box::new(move |ctx, status, h, q| {
        let popped = (0..pops)
            .map(|_| {
                q.pop().map(|e| match e {
                    Event::Http(h) => h.url,
                    _ => "other".into(),
                })
            })
            .collect();
        *s.borrow_mut() = Some((ctx.hooks_context(), status.as_u16(), all(h), popped));
        apply(h, &ch);
        if let Some(n) = new {
            *status = StatusCode::from_u16(n).unwrap();
        }
        if fail > 0 { Err(errs::error(fail - 1).0) } else { Ok(()) }
    })));
    let out = call::on_response(host_q, ctx, status, headers);
    let popped = (0..pops).map(|i| (i < n).then(|| format!("u{i}"))).collect::<Vec<_>>();
    c.check_eq("response-seen", &Some((hooks.to_vec(), status, model(&before, &[]), popped)), &*seen.borrow(), "what on_response sees");
    let want = if fail > 0 { Err(errs::error(fail - 1).1 .0) } else { Ok((new.unwrap_or(status), model(&before, &changes))) };
    let got = out.map(|o| (o.status, sorted(o.headers.entries())));
    c.check_eq("response-output", &want, &got, "what the gateway gets of on_response");
    c.check(returned.get(), "context-kept", || "the request context is not given back".into());
    c.check_eq("events-left", &(n.saturating_sub(pops), 1), &(q.borrow().events.len(), q.borrow().dropped), "events left in the queue, times it was given back");
    c.outcome(&got.is_ok());
}

type Ctx = (Vec<u8>, Option<Vec<u8>>, [Option<Vec<u8>>; 3]);
fn context(k: usize) -> (Returned, grafbase_sdk::vmc_hooks::host::context::AuthorizedOperationContext, Ctx) {
    let b = |s: &[u8]| Some(s.to_vec());
    let (h, t, auth, want): (&[u8], Option<&[u8]>, &[(Option<&str>, &[u8])], _) = match k {
        0 => (b"", None, &[], [None, None, None]),
        1 => (b"ctx", Some(b"tok"), &[(None, b"n"), (Some("k"), b"v")], [b(b"n"), b(b"v"), None]),
        _ => (b"c2", Some(b""), &[(Some("k"), b""), (Some("l"), b"w")], [None, b(b""), b(b"w")]),
    };
    let (r, ctx) = operation_ctx(h, token(t), auth);
    (r, ctx, (h.to_vec(), t.map(|t| t.to_vec()), want))
}
fn show_ctx(c: &AuthorizedOperationContext) -> Ctx {
    let by = |k: &str| c.authorization_context_by_key(k).ok();
    assert_eq!(c.token().is_anonymous(), c.token().as_bytes().is_none());
    (c.hooks_context(), c.token().into_bytes(), [c.authorization_context().ok(), by("k"), by("l")])
}
fn graphql(c: &mut Case, deep: bool) {
    let (m, method) = METHODS[c.choose(if deep { 9 } else { 1 })].clone();
    let to = [None, Some(5), Some(1)][c.choose(if deep { 3 } else { 2 })];
    let (url, to_url) = [("http://s/", None), ("", Some("http://é/?a"))][c.choose(2)];
    let (headers, before) = start_headers(c.choose(3));
    let changes = changes(c, if deep { 2 } else { 1 });
    let ctx = c.choose(3);
    let name = *c.pick(&["accounts", ""]);
    let fail = c.choose(if deep { errs::ERRORS + 1 } else { 2 });
    c.note(|| format!("on_graphql_subgraph_request {method} -> {to:?}, {url:?} -> {to_url:?}, {before:?} {changes:?}, context {ctx}, fails {fail}"));
    let (q, host_q) = queue();
    let (returned, host_ctx, want_ctx) = context(ctx);
    let seen: Seen<(Ctx, String, Method, String, Entries)> = Default::default();
    let (s, ch) = (seen.clone(), changes.clone());
    GRAPHQL.set(Some(Box::new(move |ctx, name, parts| {
        *s.borrow_mut() = Some((show_ctx(ctx), name.to_string(), parts.method.clone(), parts.url.clone(), all(&parts.headers)));
        apply(&mut parts.headers, &ch);
        if let Some(i) = to {
            parts.method = METHODS[i].1.clone();
        }
        if let Some(u) = to_url {
            parts.url = u.into();
        }
        send(1);
        if fail > 0 { Err(errs::error(fail - 1).0) } else { Ok(()) }
    })));
    let out = call::on_graphql_subgraph_request(host_q, host_ctx, name.into(), w::HttpRequestParts { url: url.into(), method: m, headers });
    c.check_eq("graphql-seen", &Some((want_ctx, name.to_string(), method.clone(), url.to_string(), model(&before, &[]))), &*seen.borrow(), "what on_graphql_subgraph_request sees");
    let want = if fail > 0 { Err(errs::error(fail - 1).1) } else { Ok((to.map_or(format!("{m:?}"), |i| format!("{:?}", METHODS[i].0)), to_url.unwrap_or(url).to_string(), model(&before, &changes))) };
    let got = out.map(|o| (format!("{:?}", o.method), o.url, sorted(o.headers.entries()))).map_err(|e| err(&e));
    c.check_eq("graphql-output", &want, &got, "what the gateway gets of on_graphql_subgraph_request");
    c.check(returned.get(), "context-kept", || "the operation context is not given back".into());
    sent(c, &q, 1);
    c.outcome(&got.is_ok());
}
fn virt(c: &mut Case, deep: bool) {
    let (headers, before) = start_headers(c.choose(3));
    let changes = changes(c, if deep { 3 } else { 1 });
    let ctx = c.choose(3);
    let name = *c.pick(&["accounts", "é"]);
    let fail = c.choose(if deep { errs::ERRORS + 1 } else { 2 });
    c.note(|| format!("on_virtual_subgraph_request {before:?} {changes:?}, context {ctx}, fails {fail}"));
    let (q, host_q) = queue();
    let (returned, host_ctx, want_ctx) = context(ctx);
    let seen: Seen<(Ctx, String, Entries)> = Default::default();
    let (s, ch) = (seen.clone(), changes.clone());
    VIRTUAL.set(Some(Box::new(move |ctx, name, h| {
        *s.borrow_mut() = Some((show_ctx(ctx), name.to_string(), all(h)));
        apply(h, &ch);
        send(2);
        if fail > 0 { Err(errs::error(fail - 1).0) } else { Ok(()) }
    })));
    let out = call::on_virtual_subgraph_request(host_q, host_ctx, name.into(), headers);
    c.check_eq("virtual-seen", &Some((want_ctx, name.to_string(), model(&before, &[]))), &*seen.borrow(), "what on_virtual_subgraph_request sees");
    let want = if fail > 0 { Err(errs::error(fail - 1).1) } else { Ok(model(&before, &changes)) };
    let got = out.map(|o| sorted(o.entries())).map_err(|e| err(&e));
    c.check_eq("virtual-output", &want, &got, "what the gateway gets of on_virtual_subgraph_request");
    c.check(returned.get(), "context-kept", || "the operation context is not given back".into());
    sent(c, &q, 2);
    c.outcome(&got.is_ok());
}
/// Calls one after the other: none leaves anything to the next.
fn history(c: &mut Case) {
    let n = 1 + c.choose(2);
    for i in 0..n {
        // Every call of a pair is a simple one, the first of few kinds.
        if i + 1 < n {
            match c.choose(4) {
                0 => fixed(c, 0),
                1 => fixed(c, 1),
                2 => fixed(c, 2),
                _ => fixed(c, 3),
            }
        } else {
            match c.choose(4) {
                0 => request(c, false),
                1 => response(c, false),
                2 => graphql(c, false),
                _ => virt(c, false),
            }
        }
        c.steps(1);
        if c.failed() {
            return;
        }
    }
}
fn fixed(c: &mut Case, k: usize) {
    let fail = c.flag();
    let (q, host_q) = queue();
    let result = move || if fail { Err(Error::new("earlier")) } else { Ok(()) };
    let h = HostHeaders::from_entries(&[("earlier", "1")]);
    let failed = match k {
        0 => {
            REQUEST.set(Some(Box::new(move |_, _, h| {
                h.append("b", "earlier");
                send(1);
                result().map(|_| OnRequestOutput::new().contract_key("earlier").context("earlier")).map_err(Into::into)
            })));
            call::on_request(host_q, w::HttpRequestParts { url: "earlier".into(), method: M::Trace, headers: h }).is_err()
        }
        1 => {
            RESPOND.set(Some(Box::new(move |_, s, _, _| {
                *s = StatusCode::IM_A_TEAPOT;
                result()
            })));
            call::on_response(host_q, request_ctx(b"earlier", token(None), &[]).1, 201, h).is_err()
        }
        2 => {
            GRAPHQL.set(Some(Box::new(move |_, _, p| {
                p.method = Method::TRACE;
                send(1);
                result()
            })));
            call::on_graphql_subgraph_request(host_q, context(1).1, "earlier".into(), w::HttpRequestParts { url: "earlier".into(), method: M::Trace, headers: h }).is_err()
        }
        _ => {
            VIRTUAL.set(Some(Box::new(move |_, _, _| {
                send(1);
                result()
            })));
            call::on_virtual_subgraph_request(host_q, context(1).1, "earlier".into(), h).is_err()
        }
    };
    c.check_eq("earlier", &(fail, (k != 1) as usize, 1), &(failed, q.borrow().pushed.len(), q.borrow().dropped), "whether an earlier call fails, its events, and the times its queue was given back");
}

// ---------------------------------------------------------------- events
const NS: [u64; 4] = [0, 1, 1_500_000_000, u64::MAX];
fn event(c: &mut Case, full: bool) -> (t::Event, String) {
    let few = |n: usize| if full { n } else { 1 };
    match c.choose(4) {
        0 => {
            let name = [Some("é"), None, Some("")][c.choose(few(3))];
            let (a, b) = (NS[c.choose(few(4))], NS[3 - c.choose(few(4))]);
            let cached = c.flag();
            let (status, shown) = match c.choose(if full { 6 } else { 4 }) {
                0 => (t::GraphqlResponseStatus::Success, "success".to_string()),
                1 => (t::GraphqlResponseStatus::FieldError(t::FieldError { count: 3, data_is_null: true }), "field 3 true".into()),
                2 => (t::GraphqlResponseStatus::RequestError(t::RequestError { count: 2 }), "request 2".into()),
                3 => (t::GraphqlResponseStatus::RefusedRequest, "refused".into()),
                4 => (t::GraphqlResponseStatus::FieldError(t::FieldError { count: u64::MAX, data_is_null: false }), format!("field {} false", u64::MAX)),
                _ => (t::GraphqlResponseStatus::RequestError(t::RequestError { count: 0 }), "request 0".into()),
            };
            let (ty, ty_shown) = [(t::OperationType::Query, "Query"), (t::OperationType::Mutation, "Mutation"), (t::OperationType::Subscription, "Subscription")][c.choose(3)];
            let complexity = [None, Some(0), Some(u64::MAX)][c.choose(few(3))];
            let deprecated = c.flag();
            (
                t::Event::Operation(t::ExecutedOperation {
                    name: name.map(Into::into),
                    document: "query { a }".into(),
                    prepare_duration_ns: a,
                    cached_plan: cached,
                    duration_ns: b,
                    status,
                    operation_type: ty,
                    complexity,
                    has_deprecated_fields: deprecated,
                }),
                format!("operation {name:?} \"query {{ a }}\" {a} {b} {cached} {shown} {ty_shown} {complexity:?} {deprecated}"),
            )
        }
        1 => {
            let n = c.choose(if full { 4 } else { 2 });
            let mut kinds = Vec::new();
            let mut shown = Vec::new();
            for _ in 0..n {
                match c.choose(4) {
                    0 => {
                        kinds.push(t::SubgraphRequestExecutionKind::InternalServerError);
                        shown.push("internal".to_string());
                    }
                    1 => {
                        kinds.push(t::SubgraphRequestExecutionKind::RequestError);
                        shown.push("request".into());
                    }
                    2 => {
                        kinds.push(t::SubgraphRequestExecutionKind::RateLimited);
                        shown.push("rate".into());
                    }
                    _ => {
                        let i = kinds.len();
                        let (h, e) = start_headers(i % 3);
                        kinds.push(t::SubgraphRequestExecutionKind::Response(t::SubgraphResponse { connection_time_ns: NS[i], response_time_ns: NS[3 - i], status_code: STATUS[i], response_headers: h }));
                        shown.push(format!("response {} {} {} {:?}", NS[i], NS[3 - i], STATUS[i], model(&e, &[])));
                    }
                }
            }
            let (m, method) = METHODS[c.choose(few(9))].clone();
            let (cache, cache_shown) = [(t::CacheStatus::Hit, "hit"), (t::CacheStatus::PartialHit, "partial_hit"), (t::CacheStatus::Miss, "miss")][c.choose(3)];
            let errors = c.flag();
            let total = NS[c.choose(few(2)) * 2];
            (
                t::Event::Subgraph(t::ExecutedSubgraphRequest {
                    subgraph_name: "sub é".into(),
                    method: m,
                    url: "http://s".into(),
                    executions: kinds,
                    cache_status: cache,
                    total_duration_ns: total,
                    has_errors: errors,
                }),
                format!("subgraph \"sub é\" {method} \"http://s\" {cache_shown} {total} {errors} {shown:?}"),
            )
        }
        2 => {
            let (m, method) = METHODS[c.choose(9)].clone();
            let status = STATUS[c.choose(few(4))];
            let url = URLS[c.choose(few(3))];
            (t::Event::Http(t::ExecutedHttpRequest { method: m, url: url.into(), status_code: status }), format!("http {status} {method} {url:?}"))
        }
        _ => {
            let v = [V::Int(7), V::Null, V::map(&[("a", V::Arr(vec![V::s("é"), V::Bool(true)]))])][c.choose(3)].clone();
            let (e, x) = *c.pick(&[("ev", "ext"), ("", "é")]);
            (t::Event::Extension(t::ExtensionEvent { extension_name: x.into(), event_name: e.into(), data: enc(&v) }), format!("extension {e:?} of {x:?} {}", json(&v)))
        }
    }
}
fn show(e: Event) -> String {
    match e {
        Event::Operation(o) => {
            let status = match o.status {
                Status::Success => "success".to_string(),
                Status::FieldError(e) => format!("field {} {}", e.count, e.data_is_null),
                Status::RequestError(e) => format!("request {}", e.count),
                Status::RefusedRequest => "refused".into(),
            };
            format!(
                "operation {:?} {:?} {} {} {} {status} {:?} {:?} {}",
                o.name, o.document, o.prepare_duration.as_nanos(), o.duration.as_nanos(), o.cached_plan, o.operation_type, o.complexity, o.has_deprecated_fields
            )
        }
        Event::Subgraph(s) => {
            let head = format!("subgraph {:?} {} {:?} {} {} {}", s.subgraph_name, s.method, s.url, s.cache_status.as_str(), s.total_duration.as_nanos(), s.has_errors);
            assert_eq!(s.cache_status.as_ref(), s.cache_status.as_str());
            let runs: Vec<_> = s
                .into_executions()
                .map(|e| match e {
                    RequestExecution::InternalServerError => "internal".to_string(),
                    RequestExecution::RequestError => "request".into(),
                    RequestExecution::RateLimited => "rate".into(),
                    RequestExecution::Response(r) => format!("response {} {} {} {:?}", r.connection_time.as_nanos(), r.response_time.as_nanos(), r.status_code.as_u16(), all(&r.response_headers)),
                    _ => "unknown".into(),
                })
                .collect();
            format!("{head} {runs:?}")
        }
        Event::Http(h) => format!("http {} {} {:?}", h.status_code.as_u16(), h.method, h.url),
        Event::Extension(e) => format!("extension {:?} of {:?} {}", e.event_name, e.extension_name, e.deserialize::<serde_json::Value>().map_or("unreadable".into(), |v| v.to_string())),
        _ => "unknown".into(),
    }
}
fn events(c: &mut Case) {
    let n = 1 + c.choose(if c.thorough() { 3 } else { 2 });
    let mut want = Vec::new();
    let (q, host_q) = queue();
    for _ in 0..n {
        let (e, s) = event(c, n == 1);
        q.borrow_mut().events.push_back(e);
        want.push(Some(s));
    }
    want.push(None);
    c.note(|| format!("{want:?}"));
    let q = EventQueue::from(host_q);
    let got: Vec<_> = (0..=n).map(|_| q.pop().map(show)).collect();
    c.check_eq("event", &want, &got, "the events the hook reads");
    c.outcome(&want);
}

pub fn run(k: &Check) {
    grafbase_sdk::extension::hooks::register::<Ext>();
    init(vec![], &enc(&V::Null), false, "off").unwrap();
    k.space("events", events);
    k.space_seq("requests", |c| request(c, true));
    k.space_seq("responses", |c| response(c, true));
    k.space_seq("requests to GraphQL subgraphs", |c| graphql(c, true));
    k.space_seq("requests to virtual subgraphs", |c| virt(c, true));
    k.space_seq("histories of calls", history);
}
