//! Headers are a multimap of names without case, and the gateway runs the very HTTP request that was built.
use grafbase_sdk::{
    host_io::http::{self as sdk, BatchHttpRequest, HttpError, HttpRequest, HttpRequestBuilder, HttpResponse, Url},
    types::Headers,
    vmc_hooks::{
        host::{headers::{Entries, Headers as HostHeaders}, http_client::HANDLER},
        types::http_types as w,
    },
};
use http::{HeaderMap, HeaderName, HeaderValue, Method};
use serde::Serialize;
use std::{cell::RefCell, collections::BTreeMap, rc::Rc, time::Duration};
use vmc::{Case, Check};

// ---------------------------------------------------------------- headers
const NAMES: [&str; 3] = ["a", "x-b", "c"];
/// The same name in several forms, passed as several types.
macro_rules! named {
    ($form:expr, $name:expr, |$n:ident| $e:expr) => {{
        let lower: String = $name.to_string();
        let upper = lower.to_uppercase();
        match $form {
            0 => { let $n = lower.as_str(); $e }
            1 => { let $n = upper.as_str(); $e }
            2 => { let $n = upper.clone(); $e }
            3 => { let $n = &upper; $e }
            4 => { let $n = HeaderName::from_bytes(upper.as_bytes()).unwrap(); $e }
            _ => { let h = HeaderName::from_bytes(lower.as_bytes()).unwrap(); let $n = &h; $e }
        }
    }};
}
macro_rules! valued {
    ($form:expr, $value:expr, |$v:ident| $e:expr) => {{
        let owned: String = $value.to_string();
        let bytes = owned.clone().into_bytes();
        match $form {
            0 => { let $v = owned.as_str(); $e }
            1 => { let $v = owned; $e }
            2 => { let $v = &owned; $e }
            3 => { let $v = HeaderValue::from_str(&owned).unwrap(); $e }
            4 => { let h = HeaderValue::from_str(&owned).unwrap(); let $v = &h; $e }
            5 => { let $v = bytes; $e }
            6 => { let $v = &bytes; $e }
            _ => { let $v = &bytes[..]; $e }
        }
    }};
}
const NAME_FORMS: usize = 6;
const VALUE_FORMS: usize = 8;
type Model = BTreeMap<String, Vec<String>>;
fn str(v: &HeaderValue) -> String {
    String::from_utf8(v.as_bytes().to_vec()).unwrap()
}
fn listed(e: impl Iterator<Item = (HeaderName, HeaderValue)>) -> Model {
    let mut m = Model::new();
    for (k, v) in e {
        m.entry(k.as_str().to_string()).or_default().push(str(&v));
    }
    m
}
fn compare(c: &mut Case, h: &Headers, m: &Model, form: usize) {
    c.check_eq("iter", m, &listed(h.iter()), "all headers");
    let map = HeaderMap::from(h);
    c.check_eq("header-map", m, &listed(map.iter().map(|(k, v)| (k.clone(), v.clone()))), "all headers as a HeaderMap");
    for n in NAMES {
        let want = m.get(n).cloned().unwrap_or_default();
        named!(form, n, |n| c.check_eq("has", &!want.is_empty(), &h.has(n), "has"));
        named!(form, n, |n| c.check_eq("get", &want.first().cloned(), &h.get(n).map(|v| str(&v)), "get"));
        named!(form, n, |n| c.check_eq("get-all", &want, &h.get_all(n).map(|v| str(&v)).collect(), "get_all"));
    }
}
fn operations(c: &mut Case, depth: usize, names: usize) {
    let start = c.choose(3);
    let mut m = Model::new();
    let mut h = match start {
        0 => Headers::new(),
        1 => Headers::default(),
        _ => {
            let e = [("x-b", "1"), ("a", "2"), ("x-b", "")];
            for (k, v) in e {
                m.entry(k.into()).or_default().push(v.into());
            }
            HostHeaders::from_entries(&e).into()
        }
    };
    compare(c, &h, &m, 0);
    let mut said = Vec::new();
    for i in 0..depth {
        let n = NAMES[c.choose(names)];
        let form = i % NAME_FORMS;
        match c.choose(5) {
            0 => {
                // Some values are the same.
                let v = ["v", "v", "w", "v", "x"][i % 5];
                said.push(format!("append {n} {v}"));
                named!(form, n, |n| h.append(n, v));
                m.entry(n.into()).or_default().push(v.into());
            }
            1 => {
                said.push(format!("remove {n}"));
                let want = m.remove(n).map(|v| v[0].clone());
                let got = named!(form, n, |n| h.remove(n)).map(|v| str(&v));
                c.check_eq("remove", &want, &got, &format!("{said:?}"));
            }
            k => {
                let values: Vec<_> = (0..k - 2).map(|j| if i % 2 == 0 { "v".to_string() } else { format!("s{i}{j}") }).collect();
                said.push(format!("set {n} {values:?}"));
                named!(form, n, |n| h.set(n, &values));
                m.remove(n);
                if !values.is_empty() {
                    m.insert(n.into(), values);
                }
            }
        }
        compare(c, &h, &m, (form + 1) % NAME_FORMS);
    }
    c.note(|| format!("headers {start} {said:?}"));
    c.outcome(&m.len());
    // What the gateway has.
    let mut got = Model::new();
    for (k, v) in HostHeaders::from(h).entries() {
        got.entry(k).or_default().push(String::from_utf8(v).unwrap());
    }
    c.check_eq("host", &m, &got, &format!("what the gateway has after {said:?}"));
}
const VALUES: [&str; 5] = ["", "v", "a b, c=\"d\"; \t!", "é", "~"];
/// Every type of a name with every type of a value.
fn types(c: &mut Case) {
    let (nf, vf) = (c.choose(NAME_FORMS), c.choose(VALUE_FORMS));
    let value = VALUES[c.choose(VALUES.len())];
    let op = c.choose(3);
    c.note(|| format!("operation {op}, name form {nf}, value form {vf}, {value:?}"));
    let mut h = Headers::from(HostHeaders::from_entries(&[("x-b", "0"), ("a", "1")]));
    let bytes = value.as_bytes().to_vec();
    match op {
        0 => named!(nf, "x-b", |n| valued!(vf, value, |v| h.append(n, v))),
        1 => named!(nf, "x-b", |n| valued!(vf, value, |v| h.set(n, [v]))),
        _ => named!(nf, "x-b", |n| valued!(vf, value, |v| h.set(n, Some(v)))),
    }
    let mut want: Vec<Vec<u8>> = if op == 0 { vec![b"0".to_vec()] } else { vec![] };
    want.push(bytes);
    let got: Vec<Vec<u8>> = named!(nf, "x-b", |n| h.get_all(n).map(|v| v.as_bytes().to_vec()).collect());
    c.check_eq("types", &want, &got, "all values of the name");
    c.check_eq("types-first", &Some(want[0].clone()), &named!(nf, "x-b", |n| h.get(n)).map(|v| v.as_bytes().to_vec()), "get");
    c.check_eq("types-other", &Some("1".to_string()), &h.get("a").map(|v| str(&v)), "the other name");
    c.check_eq("types-removed", &Some(want[0].clone()), &named!(nf, "x-b", |n| h.remove(n)).map(|v| v.as_bytes().to_vec()), "remove");
    c.check_eq("types-left", &1, &h.iter().count(), "headers left");
}

// ---------------------------------------------------------------- requests
const METHODS: [(w::HttpMethod, Method); 9] = [
    (w::HttpMethod::Get, Method::GET),
    (w::HttpMethod::Post, Method::POST),
    (w::HttpMethod::Put, Method::PUT),
    (w::HttpMethod::Delete, Method::DELETE),
    (w::HttpMethod::Patch, Method::PATCH),
    (w::HttpMethod::Head, Method::HEAD),
    (w::HttpMethod::Options, Method::OPTIONS),
    (w::HttpMethod::Connect, Method::CONNECT),
    (w::HttpMethod::Trace, Method::TRACE),
];
fn builder(k: usize, url: Url, by_name: bool) -> HttpRequestBuilder {
    if !by_name {
        return HttpRequest::builder(url, METHODS[k].1.clone());
    }
    match k {
        0 => HttpRequest::get(url),
        1 => HttpRequest::post(url),
        2 => HttpRequest::put(url),
        3 => HttpRequest::delete(url),
        4 => HttpRequest::patch(url),
        5 => HttpRequest::head(url),
        6 => HttpRequest::options(url),
        7 => HttpRequest::connect(url),
        _ => HttpRequest::trace(url),
    }
}
type Sent = (u8, String, Entries, Vec<u8>, Option<u64>);
fn sent(r: &w::HttpRequest) -> Sent {
    (r.method as u8, r.url.clone(), r.headers.entries(), r.body.clone(), r.timeout_ms)
}
#[derive(Serialize)]
struct Form {
    name: &'static str,
    n: i32,
    on: bool,
    none: Option<u8>,
}
const URLS: [&str; 3] = ["http://h:1/a?b=c#d", "https://u:p@[::1]/%C3%A9?x=%20", "ws://example.com/"];
/// A request and what the gateway must get of it.
fn built(c: &mut Case, deep: bool) -> (HttpRequest, Sent) {
    let k = c.choose(if deep { 9 } else { 2 });
    let by_name = !deep || c.flag();
    let url = URLS[c.choose(if deep { 3 } else { 2 })];
    let mut want: Sent = (METHODS[k].0 as u8, url.to_string(), vec![], vec![], None);
    let mut b = builder(k, url.parse().unwrap(), by_name);
    let mut said = Vec::new();
    for _ in 0..c.choose(if deep { 3 } else { 2 }) {
        match c.choose(5) {
            0 => {
                b.header("X-b", "1").header(String::from("a"), b"2".to_vec());
                want.2.extend([("x-b".into(), b"1".to_vec()), ("a".into(), b"2".to_vec())]);
                said.push("header");
            }
            1 => {
                b.headers().set("x-b", ["3", "4"]);
                want.2.retain(|e| e.0 != "x-b");
                want.2.extend([("x-b".into(), b"3".to_vec()), ("x-b".into(), b"4".to_vec())]);
                said.push("headers");
            }
            2 => {
                b.timeout(Duration::from_millis(1500));
                want.4 = Some(1500);
                said.push("timeout 1.5s");
            }
            3 => {
                b.timeout(Duration::from_secs(3600)).timeout(Duration::ZERO);
                want.4 = Some(0);
                said.push("timeout 0");
            }
            _ => {
                b.url().query_pairs_mut().clear().append_pair("q", "a&b");
                want.1 = b.url().to_string();
                assert!(want.1.contains("?q=a%26b"));
                said.push("query");
            }
        }
    }
    let body = c.choose(7);
    c.note(|| format!("{} {url} {said:?} body {body}", METHODS[k].1));
    let mut typed = |t: &str, b: &[u8]| {
        want.2.push(("content-type".into(), t.as_bytes().to_vec()));
        want.3 = b.to_vec();
    };
    let form = Form { name: "é &=+", n: -1, on: true, none: None };
    let r = match body {
        0 => b.build(),
        1 => b.into(),
        2 => {
            want.3 = vec![0, 255, 10];
            b.body(vec![0, 255, 10])
        }
        3 => {
            typed("application/json", r#"{"name":"é &=+","n":-1,"on":true,"none":null}"#.as_bytes());
            b.json(form)
        }
        4 => {
            typed("application/json", b"[1,null,\"a\"]");
            b.json(serde_json::json!([1, null, "a"]))
        }
        5 => {
            typed("application/x-www-form-urlencoded", b"name=%C3%A9+%26%3D%2B&n=-1&on=true");
            b.form(form)
        }
        _ => {
            typed("application/x-www-form-urlencoded", b"a=1&a=2&b=");
            b.form([("a", "1"), ("a", "2"), ("b", "")])
        }
    };
    (r, want)
}
/// What the server answers.
const STATUS: [u16; 5] = [200, 100, 404, 599, 299];
const BODIES: [&[u8]; 4] = ["{\"a\":[1,\"é\"]}".as_bytes(), b"", b"plain", &[0xff, b'1']];
#[derive(Debug, Clone, PartialEq, Hash)]
enum Answer {
    Ok(usize, usize, usize),
    Timeout,
    Request,
    Connect,
}
const ENTRIES: [&[(&str, &str)]; 2] = [&[], &[("a", "1"), ("b", ""), ("a", "2")]];
fn answer(c: &mut Case, deep: bool) -> Answer {
    match c.choose(4) {
        0 => Answer::Ok(c.choose(if deep { 5 } else { 1 }), c.choose(2), c.choose(if deep { 4 } else { 1 })),
        1 => Answer::Timeout,
        2 => Answer::Request,
        _ => Answer::Connect,
    }
}
fn give(a: &Answer) -> Result<w::HttpResponse, w::HttpError> {
    match a {
        Answer::Ok(s, h, b) => Ok(w::HttpResponse {
            status: STATUS[*s],
            headers: HostHeaders::from_entries(ENTRIES[*h]),
            body: BODIES[*b].to_vec(),
        }),
        Answer::Timeout => Err(w::HttpError::Timeout),
        Answer::Request => Err(w::HttpError::Request("bad é".into())),
        Answer::Connect => Err(w::HttpError::Connect("refused".into())),
    }
}
fn judge(c: &mut Case, a: &Answer, got: impl Fn() -> Result<HttpResponse, HttpError>) {
    let r = got();
    match (a, r) {
        (Answer::Ok(s, h, b), Ok(r)) => {
            c.check_eq("status", &STATUS[*s], &r.status().as_u16(), "status");
            let e: Entries = r.headers().iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect();
            c.check_eq("response-headers", &HostHeaders::from_entries(ENTRIES[*h]).entries(), &e, "headers of the response");
            let body = BODIES[*b].to_vec();
            c.check_eq("body", &body, &r.body().to_vec(), "body");
            c.check_eq("json", &serde_json::from_slice::<serde_json::Value>(&body).ok(), &r.json::<serde_json::Value>().ok(), "json");
            c.check_eq("text", &std::str::from_utf8(&body).ok().map(str::to_string), &r.text().ok(), "text");
            c.check_eq("bytes", &body, &got().unwrap().into_bytes(), "into_bytes");
        }
        (a, Err(e)) => {
            let text = match a {
                Answer::Timeout => "The request timed out",
                Answer::Request => "The request could not be built correctly: bad é",
                Answer::Connect => "The request failed due to an error: refused",
                Answer::Ok(..) => "(a response)",
            };
            c.check_eq("error", &text.to_string(), &e.to_string(), "error");
            let kind = matches!(
                (a, &e),
                (Answer::Timeout, HttpError::Timeout) | (Answer::Request, HttpError::Request(_)) | (Answer::Connect, HttpError::Connect(_))
            );
            c.check(kind, "error-kind", || format!("{e:?} of {a:?}"));
        }
        (a, Ok(r)) => c.fail("response", format!("a response with status {} instead of {a:?}", r.status())),
    }
}
fn serve(answers: Vec<Answer>) -> Rc<RefCell<Vec<Sent>>> {
    let log: Rc<RefCell<Vec<Sent>>> = Default::default();
    let l = log.clone();
    HANDLER.with(|h| {
        *h.borrow_mut() = Some(Box::new(move |r| {
            l.borrow_mut().push(sent(&r));
            let n = l.borrow().len() - 1;
            give(&answers[n % answers.len()])
        }))
    });
    log
}
fn requests(c: &mut Case) {
    let (r, want) = built(c, true);
    let log = serve(vec![Answer::Ok(0, 0, 0)]);
    let got = sdk::execute(r);
    c.check_eq("request", &vec![want], &*log.borrow(), "what the gateway sends");
    c.check(got.is_ok(), "executed", || format!("{:?}", got.err()));
}
fn responses(c: &mut Case) {
    let a = answer(c, true);
    let many = c.flag();
    c.note(|| format!("{a:?}, batch {many}"));
    let log = serve(vec![a.clone()]);
    let url: Url = URLS[0].parse().unwrap();
    judge(c, &a, || {
        if many {
            let mut b = BatchHttpRequest::new();
            b.push(HttpRequest::get(url.clone()).build());
            sdk::execute_many(b).remove(0)
        } else {
            sdk::execute(HttpRequest::get(url.clone()))
        }
    });
    c.outcome(&a);
    c.check(!log.borrow().is_empty(), "sent", || "nothing was sent".into());
}
/// A batch is answered in its order.
fn batches(c: &mut Case, most: usize) {
    let n = c.choose(most + 1);
    let mut b = if c.flag() { BatchHttpRequest::new() } else { BatchHttpRequest::default() };
    c.check(b.is_empty(), "empty", || "a new batch".into());
    let (mut want, mut answers) = (Vec::new(), Vec::new());
    for i in 0..n {
        let k = c.choose(2);
        let mut r = builder(k, format!("http://h/{}", i / 2).parse().unwrap(), true);
        // Two of them may be the same.
        r.header("i", (i / 2).to_string());
        let mut w: Sent = (METHODS[k].0 as u8, format!("http://h/{}", i / 2), vec![("i".into(), (i / 2).to_string().into_bytes())], vec![], None);
        if c.flag() {
            w.3 = vec![i as u8 / 2];
            b.push(r.body(vec![i as u8 / 2]));
        } else {
            b.push(r.build());
        }
        want.push(w);
        answers.push(match c.choose(3) {
            0 => Answer::Ok(i, 0, i),
            1 => Answer::Timeout,
            _ => Answer::Connect,
        });
    }
    c.note(|| format!("batch {answers:?}"));
    c.check_eq("len", &(n, n == 0), &(b.len(), b.is_empty()), "len");
    let log = serve(answers.clone());
    let got = sdk::execute_many(b);
    c.check_eq("batch", &want, &*log.borrow(), "what the gateway sends");
    c.check_eq("answers", &n, &got.len(), "answers");
    for (a, r) in answers.iter().zip(got) {
        let got: Result<_, String> = r.map(|r| (r.status().as_u16(), r.into_bytes())).map_err(|e| e.to_string());
        let want = give(a).map(|r| (r.status, r.body)).map_err(|e| HttpError::from_host(e));
        c.check_eq("answer", &want, &got, "an answer of the batch");
    }
}
trait FromHost {
    fn from_host(e: w::HttpError) -> String;
}
impl FromHost for HttpError {
    fn from_host(e: w::HttpError) -> String {
        match e {
            w::HttpError::Timeout => "The request timed out".into(),
            w::HttpError::Request(m) => format!("The request could not be built correctly: {m}"),
            w::HttpError::Connect(m) => format!("The request failed due to an error: {m}"),
        }
    }
}
/// A request that is built from another one's parts.
fn pairs(c: &mut Case) {
    let (a, wa) = built(c, false);
    let (b, wb) = built(c, false);
    let log = serve(vec![Answer::Ok(0, 0, 0), Answer::Timeout]);
    let first = c.flag();
    let (x, y) = if first { (a, b) } else { (b, a) };
    c.check(sdk::execute(x).is_ok(), "first", || "the first request".into());
    c.check(sdk::execute(y).is_err(), "second", || "the second request".into());
    let want = if first { vec![wa, wb] } else { vec![wb, wa] };
    c.check_eq("pair", &want, &*log.borrow(), "what the gateway sends");
}

pub fn run(k: &Check) {
    let deep = k.thorough();
    k.space("types of names and values", types);
    k.space("operations on headers", |c| operations(c, 5, if deep { 3 } else { 2 }));
    k.space("requests", requests);
    k.space("responses", responses);
    k.space("batches", |c| batches(c, if deep { 4 } else { 3 }));
    k.space("pairs of requests", pairs);
}
