//! Authentication: what an authentication extension sees, and what the gateway gets of each of its answers.
use crate::{c50::check_queue, cbor::{enc, V}, common::*, errs};
use grafbase_sdk::{
    host_io::event_queue,
    types::*,
    vmc_hooks::{call, host::headers::{Entries, Headers as HostHeaders}, types as w},
    AuthenticationExtension,
};
use std::{cell::RefCell, rc::Rc};
use vmc::{Case, Check};

type Auth = Box<dyn FnOnce(&RequestContext, &GatewayHeaders) -> Result<Token, ErrorResponse>>;
type Meta = Box<dyn FnOnce() -> Result<Vec<PublicMetadataEndpoint>, Error>>;
thread_local! {
    static AUTH: RefCell<Option<Auth>> = Default::default();
    static META: RefCell<Option<Meta>> = Default::default();
}
struct Ext;
impl AuthenticationExtension for Ext {
    fn new(_: Configuration) -> Result<Self, Error> {
        Ok(Ext)
    }
    fn authenticate(&mut self, ctx: &RequestContext, headers: &GatewayHeaders) -> Result<Token, ErrorResponse> {
        AUTH.take().unwrap()(ctx, headers)
    }
    fn public_metadata(&mut self) -> Result<Vec<PublicMetadataEndpoint>, Error> {
        META.take().unwrap()()
    }
}
/// An extension that leaves the metadata as it is by default.
struct Plain;
impl AuthenticationExtension for Plain {
    fn new(_: Configuration) -> Result<Self, Error> {
        Ok(Plain)
    }
    fn authenticate(&mut self, _: &RequestContext, _: &GatewayHeaders) -> Result<Token, ErrorResponse> {
        Ok(Token::from_bytes(b"plain".to_vec()))
    }
}
struct Fails;
impl AuthenticationExtension for Fails {
    fn new(_: Configuration) -> Result<Self, Error> {
        Err(errs::error(2).0)
    }
    fn authenticate(&mut self, _: &RequestContext, _: &GatewayHeaders) -> Result<Token, ErrorResponse> {
        unreachable!()
    }
}
const HEADERS: [&[(&str, &str)]; 4] =
    [&[], &[("authorization", "Bearer x")], &[("a", "1"), ("authorization", "Bearer x"), ("a", "2")], &[("a", ""), ("b", "é")]];
fn owned(e: &[(&str, &str)]) -> Entries {
    e.iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect()
}
fn seen(h: &Headers) -> Entries {
    h.iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect()
}
const TOKENS: [Option<&[u8]>; 4] = [None, Some(b""), Some(b"tok"), Some(&[0, 255, 10])];
fn shown(t: w::Token) -> Option<Vec<u8>> {
    match t {
        w::Token::Anonymous => None,
        w::Token::Bytes(b) => Some(b),
    }
}
fn make(t: Option<&[u8]>) -> Token {
    match t {
        None => Token::anonymous(),
        Some(b) => Token::from_bytes(b.to_vec()),
    }
}
type Out = Result<(Entries, Option<Vec<u8>>), errs::Response>;

/// One request: what it must give, having checked what the extension saw.
fn request(c: &mut Case, label: &str, headers: usize, hooks: &[u8], events: usize, answer: usize) {
    let (q, host_q) = queue();
    let (returned, ctx) = request_ctx(hooks, token(None), &[]);
    let saw: Rc<RefCell<Option<(Vec<u8>, Entries)>>> = Default::default();
    let s = saw.clone();
    AUTH.set(Some(Box::new(move |ctx, h| {
        *s.borrow_mut() = Some((ctx.hooks_context(), seen(h)));
        for i in 0..events {
            event_queue::send(["", "e", "e"][i % 3], i / 2).unwrap();
        }
        match answer.checked_sub(TOKENS.len()) {
            None => Ok(make(TOKENS[answer])),
            Some(k) => Err(errs::response(k).0),
        }
    })));
    let got: Out = call::authenticate(host_q, ctx, HostHeaders::from_entries(HEADERS[headers]))
        .map(|(h, t)| (h.entries(), shown(t)))
        .map_err(errs::shown);
    c.check_eq(&format!("seen{label}"), &Some((hooks.to_vec(), owned(HEADERS[headers]))), &*saw.borrow(), "what authenticate sees");
    let want: Out = match answer.checked_sub(TOKENS.len()) {
        None => Ok((owned(HEADERS[headers]), TOKENS[answer].map(<[u8]>::to_vec))),
        Some(k) => Err(errs::response(k).1),
    };
    c.check_eq(&format!("answer{label}"), &want, &got, "what the gateway gets");
    c.check(returned.get(), "context-kept", || "the context of the request is not given back".into());
    let e: Vec<_> = (0..events).map(|i| (["", "e", "e"][i % 3], V::Int(i as i128 / 2))).collect();
    check_queue(c, &q, &e);
    c.outcome(&got.is_ok());
}
const ANSWERS: usize = TOKENS.len() + errs::RESPONSES;
fn hooks(c: &mut Case) -> &'static [u8] {
    *c.pick(&[&b""[..], b"ctx", &[0, 255]])
}

fn requests(c: &mut Case, most: usize) {
    let n = 1 + c.choose(most);
    for i in 0..n {
        let headers = c.choose(if n == 1 { 4 } else { 2 });
        let (ctx, events) = if n == 1 { (hooks(c), c.choose(3)) } else { (&b"ctx"[..], c.choose(2)) };
        let answer = if n == 1 { c.choose(ANSWERS) } else { [0, 2, TOKENS.len() + 1][c.choose(3)] };
        c.note(|| format!("request {i}: headers {headers}, hooks {ctx:?}, {events} events, answer {answer}"));
        request(c, "", headers, ctx, events, answer);
    }
}

/// Tokens themselves.
fn tokens(c: &mut Case) {
    let k = c.choose(TOKENS.len());
    let t = make(TOKENS[k]);
    c.check_eq("anonymous", &TOKENS[k].is_none(), &t.is_anonymous(), "is_anonymous");
    c.check_eq("as-bytes", &TOKENS[k], &t.as_bytes(), "as_bytes");
    c.check_eq("into-bytes", &TOKENS[k].map(<[u8]>::to_vec), &t.clone().into_bytes(), "into_bytes");
    let host: w::Token = t.into();
    c.check_eq("host", &TOKENS[k].map(<[u8]>::to_vec), &shown(host), "what the gateway gets");
    let back: Token = token(TOKENS[k]).into();
    c.check_eq("from-host", &TOKENS[k], &back.as_bytes(), "a token of the gateway");
}

/// The endpoints with public metadata.
type Endpoint = (String, Vec<u8>, Entries);
const BODIES: [&[u8]; 4] = [b"{\"resource\":1}", b"", &[0, 255], b"x"];
fn endpoint(c: &mut Case, full: bool) -> (PublicMetadataEndpoint, Endpoint) {
    let path = *c.pick(if full { &["/.well-known/a", "/b?c=é", ""] } else { &["/a", "/b"][..] });
    let body: &[u8] = BODIES[c.choose(if full { 4 } else { 2 })];
    let form = c.choose(if full { 5 } else { 2 });
    let mut want: Entries = Vec::new();
    let mut e = PublicMetadataEndpoint::new(path.to_string(), body.to_vec());
    let add = |h: &mut Headers, want: &mut Entries, n: &str, v: &str| {
        h.append(n, v);
        want.push((n.to_lowercase(), v.as_bytes().to_vec()));
    };
    if form == 1 || form == 3 || form == 4 {
        // Those of before are replaced.
        if form == 4 {
            e.response_headers_mut().append("old", "1");
        }
        let mut h = Headers::new();
        add(&mut h, &mut want, "Content-Type", "application/json");
        add(&mut h, &mut want, "a", "1");
        e = e.with_headers(h);
    }
    if form == 2 || form == 3 {
        add(e.response_headers_mut(), &mut want, "A", "2");
        add(e.response_headers_mut(), &mut want, "z", "");
    }
    (e, (path.to_string(), body.to_vec(), want))
}
fn metadata(c: &mut Case, most: usize) {
    let (endpoints, want): (Vec<_>, Vec<_>);
    let fail = c.choose(errs::ERRORS + 1);
    let want = if fail > 0 {
        endpoints = Vec::new();
        Err(errs::error(fail - 1).1)
    } else {
        let n = c.choose(most + 1);
        (endpoints, want) = (0..n).map(|_| endpoint(c, n == 1)).unzip();
        Ok(want)
    };
    c.note(|| format!("public metadata {want:?}"));
    META.set(Some(Box::new(move || if fail > 0 { Err(errs::error(fail - 1).0) } else { Ok(endpoints) })));
    let got = call::public_metadata()
        .map(|l| l.into_iter().map(|e| (e.path, e.response_body, e.response_headers.entries())).collect::<Vec<Endpoint>>())
        .map_err(|e| err(&e));
    c.check_eq("metadata", &want, &got, "the endpoints the gateway gets");
    c.outcome(&got.is_ok());
    // Authentication goes on as before.
    request(c, "-after-metadata", 1, b"ctx", 1, 2);
}

/// An extension without metadata of its own, and one that cannot be built, each in a process of its own.
pub const ENV: &str = "VMC_C46";
pub fn child(which: &str) {
    if which == "0" {
        init_with(grafbase_sdk::extension::authentication::register::<Plain>).unwrap();
        let endpoints = call::public_metadata().map(|l| l.len()).map_err(|e| err(&e));
        let (q, host_q) = queue();
        let (returned, ctx) = request_ctx(b"", token(None), &[]);
        let got = call::authenticate(host_q, ctx, HostHeaders::from_entries(&[])).map(|(_, t)| shown(t)).map_err(errs::shown);
        println!("{endpoints:?} {got:?} {} {}", q.borrow().dropped, returned.get());
    } else {
        println!("{:?}", init_with(grafbase_sdk::extension::authentication::register::<Fails>).map_err(|e| e.contains("two")));
    }
}
fn starts(c: &mut Case) {
    let which = c.choose(2);
    let out = std::process::Command::new(std::env::current_exe().unwrap()).env(ENV, which.to_string()).output().unwrap();
    let want = [format!("Ok(0) {:?} 1 true\n", Ok::<_, ()>(Some(b"plain".to_vec()))), "Err(true)\n".to_string()];
    c.check_eq("start", &want[which], &String::from_utf8_lossy(&out.stdout).into_owned(), "what the gateway gets of the extension");
}
fn init_with(register: impl Fn()) -> Result<(), String> {
    register();
    init(vec![], &enc(&V::Null), false, "off")
}

pub fn run(k: &Check) {
    let deep = k.thorough();
    init_with(|| grafbase_sdk::extension::authentication::register::<Ext>()).unwrap();
    k.space("tokens", tokens);
    k.space_seq("requests", |c| requests(c, if deep { 5 } else { 3 }));
    k.space_seq("public metadata", |c| metadata(c, if deep { 3 } else { 2 }));
    k.space("other extensions", starts);
}
