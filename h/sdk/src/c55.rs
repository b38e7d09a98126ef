//! The life of a resolver extension: calls one after the other, and subscriptions from their creation to their end.
use crate::{c50::check_queue, c52::WATCH, cbor::{enc, V}, common::*, res};
use grafbase_sdk::{host_io::event_queue, types::*, vmc_hooks::{call, host::headers::Headers as HostHeaders, types as w}, IntoSubscription, Subscription};
use std::{cell::{Cell, RefCell}, rc::Rc};
use vmc::{Case, Check};

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Next {
    Single,
    Multiple(usize),
    End,
    Fail,
}
#[derive(Default)]
struct Log {
    next: Cell<Option<Next>>,
    wrong: RefCell<Vec<String>>,
    dropped: Cell<usize>,
    called: Cell<usize>,
}
/// Borrows all that it is lent.
struct Sub<'s> {
    own: &'s mut String,
    ctx: &'s AuthorizedOperationContext,
    prepared: &'s [u8],
    returned: Returned,
    log: Rc<Log>,
    n: u32,
}
impl Sub<'_> {
    /// What must still be there when it is used; it is only read when it is.
    fn alive(&self, when: &str) -> bool {
        let mut ok = true;
        if self.returned.get() {
            self.log.wrong.borrow_mut().push(format!("the context is gone {when}"));
            ok = false;
        }
        if WATCH.with(|w| w.get().1) {
            self.log.wrong.borrow_mut().push(format!("the prepared data is gone {when}"));
            ok = false;
        }
        ok
    }
}
fn item(n: u32, part: usize) -> serde_json::Value {
    // Some items are the same.
    serde_json::json!({ "n": n / 2, "part": part / 2 })
}
impl Subscription for Sub<'_> {
    fn next(&mut self) -> Result<Option<SubscriptionItem>, Error> {
        self.n += 1;
        event_queue::send("next", self.n).unwrap();
        if self.alive("when the subscription is asked for an item") {
            if self.prepared != b"prepared" || self.ctx.hooks_context() != [1, 2, 3] {
                self.log.wrong.borrow_mut().push("the prepared data or the context is another".into());
            }
            self.own.push('.');
        }
        match self.log.next.take().unwrap() {
            Next::Single => Ok(Some(Response::data(item(self.n, 0)).into())),
            Next::Multiple(k) => Ok(Some((0..k).map(|i| Response::data(item(self.n, i))).collect::<Vec<_>>().into())),
            Next::End => Ok(None),
            Next::Fail => Err(Error::new(format!("next {}", self.n)).extension("k", 1).unwrap()),
        }
    }
}
impl Drop for Sub<'_> {
    fn drop(&mut self) {
        self.alive("when the subscription is dropped");
        self.log.dropped.set(self.log.dropped.get() + 1);
    }
}
/// Something a callback that is never called holds on to.
struct Held<'s>(Sub<'s>);

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Op {
    Prepare(bool),
    Resolve(usize),
    /// Key, whether the creation and its callback fail.
    Create(usize, usize),
    Next(Next),
    Drop,
}
#[derive(Clone, Copy, PartialEq)]
enum State {
    None,
    Pending(bool),
    Active,
}
const NO: &str = "No active subscription.";
fn data(r: &w::Response) -> (Option<Result<V, String>>, Vec<E>) {
    (
        r.data.as_ref().map(|d| match d {
            w::Data::Cbor(b) => crate::cbor::dec(b),
            w::Data::Json(b) => serde_json::from_slice(b).map(|j| crate::cbor::from_json(&j)).map_err(|e| e.to_string()),
        }),
        r.errors.iter().map(err).collect(),
    )
}
fn want_item(n: u32, part: usize) -> (Option<Result<V, String>>, Vec<E>) {
    (Some(Ok(crate::cbor::from_json(&item(n, part)))), vec![])
}
fn op(c: &mut Case, state: State) -> Op {
    if state == State::None {
        match c.choose(5) {
            0 => Op::Prepare(c.flag()),
            1 => Op::Resolve(c.choose(6)),
            2 => Op::Create(c.choose(2), c.choose(3)),
            3 => Op::Next(Next::Single),
            _ => Op::Drop,
        }
    } else {
        match c.choose(6) {
            0 => Op::Next(Next::Single),
            1 => Op::Next(Next::Multiple(3)),
            2 => Op::Next(Next::Multiple(0)),
            3 => Op::Next(Next::End),
            4 => Op::Next(Next::Fail),
            _ => Op::Drop,
        }
    }
}
fn life(c: &mut Case) {
    // A fresh start, whatever the case before left.
    call::drop_subscription();
    let len = c.choose(if c.thorough() { 6 } else { 5 }) + 1;
    let mut state = State::None;
    let mut trace = Vec::new();
    let log = Rc::new(Log::default());
    // The queue and the context of the subscription, and the events it must have.
    let mut sub: Option<(Queue, Returned, Vec<(&str, V)>)> = None;
    let (mut n, mut subs) = (0u32, 0usize);
    for step in 0..len {
        let o = op(c, state);
        trace.push(o);
        c.note(|| format!("step {step}: {o:?}"));
        c.steps(1);
        match o {
            Op::Prepare(ok) => {
                res::PREPARE.set(Some(Box::new(move |f| {
                    event_queue::send("prepare", f.subgraph_name()).unwrap();
                    if ok { Ok(vec![1, 2]) } else { Err("not prepared".into()) }
                })));
                let (q, host_q) = queue();
                let d = w::schema::Directive { name: "d".into(), arguments: enc(&V::Map(vec![])) };
                let f = vec![w::Field { alias: None, definition_id: 1, arguments: None, selection_set: None }];
                let r = call::prepare(host_q, "s".into(), d, 0, f).map_err(|e| err(&e));
                c.check_eq("prepare", &(if ok { Ok(vec![1, 2]) } else { Err(("not prepared".to_string(), vec![])) }), &r, "what is prepared");
                check_queue(c, &q, &[("prepare", V::s("s"))]);
            }
            Op::Resolve(k) => {
                res::RESOLVE.set(Some(Box::new(move |ctx, prepared, headers, vars| {
                    assert_eq!((ctx.hooks_context(), prepared), (vec![7], b"p".as_slice()));
                    assert!(headers.has("h"));
                    assert_eq!(vars.get::<serde_json::Value>(4.into()).unwrap(), serde_json::json!([true]));
                    event_queue::send("resolve", k as u32).unwrap();
                    let e = || Error::new("e").extension("x", [1]).unwrap();
                    match k {
                        0 => Ok(Response::null()),
                        1 => Ok(Response::json(b"{\"a\": null}".to_vec())),
                        2 => Ok(Response::cbor(vec![0xf5])),
                        3 => Ok(Response { data: Some(Data::new("x")?), errors: vec![e(), "f".into()] }),
                        4 => Ok(Response::error(e())),
                        _ => Err(e()),
                    }
                })));
                let (q, host_q) = queue();
                let (returned, ctx) = operation_ctx(&[7], token(None), &[]);
                let r = call::resolve(host_q, ctx, b"p".to_vec(), HostHeaders::from_entries(&[("h", "")]), vec![(9, vec![]), (4, enc(&V::Arr(vec![V::Bool(true)])))]);
                let e = || ("e".to_string(), vec![("x".to_string(), enc(&V::Arr(vec![V::Int(1)])))]);
                let want = match k {
                    0 => (None, vec![]),
                    1 => (Some(Ok(V::map(&[("a", V::Null)]))), vec![]),
                    2 => (Some(Ok(V::Bool(true))), vec![]),
                    3 => (Some(Ok(V::s("x"))), vec![e(), ("f".into(), vec![])]),
                    _ => (None, vec![e()]),
                };
                c.check_eq("resolve", &want, &data(&r), "the response");
                c.check(matches!(r.data, Some(w::Data::Json(_))) == (k == 1), "resolve", || format!("the data is in the wrong format: {:?}", r.data));
                check_queue(c, &q, &[("resolve", V::Int(k as i128))]);
                c.check(returned.get(), "context-kept", || "the context is not given back when the call returns".into());
            }
            Op::Create(key, fails) => {
                let (q, host_q) = queue();
                let (returned, ctx) = operation_ctx(&[1, 2, 3], token(None), &[]);
                let (log2, returned2) = (log.clone(), returned.clone());
                res::SUBSCRIBE.set(Some(Box::new(move |ext, ctx, prepared, headers, vars| {
                    assert!(headers.has("h"));
                    assert_eq!(vars.get::<u32>(0.into()).unwrap(), 1);
                    event_queue::send("create", true).unwrap();
                    if fails == 1 {
                        return Err("not created".into());
                    }
                    WATCH.with(|w| w.set((prepared.as_ptr() as usize, false)));
                    let held = Held(Sub { own: &mut ext.own, ctx, prepared, returned: returned2, log: log2.clone(), n: 0 });
                    let cb: res::Callback<'_> = Box::new(move || {
                        let held = held;
                        log2.called.set(log2.called.get() + 1);
                        held.0.alive("when the subscription starts");
                        event_queue::send("start", ()).unwrap();
                        if fails == 2 { Err("not started".into()) } else { Ok(Box::new(held.0)) }
                    });
                    Ok(((key == 1).then(|| b"key".to_vec()), cb))
                })));
                let r = call::create_subscription(host_q, ctx, b"prepared".to_vec(), HostHeaders::from_entries(&[("h", "")]), vec![(0, enc(&V::Int(1)))]);
                n = 0;
                if fails == 1 {
                    c.check_eq("create", &Err(("not created".to_string(), vec![])), &r.map_err(|e| err(&e)), "the creation");
                    c.check(returned.get(), "context-kept", || "the context is not given back when no subscription is created".into());
                    c.check_eq("events", &vec!["create".to_string()], &q.borrow().pushed.iter().map(|e| e.0.clone()).collect(), "the events of the creation");
                } else {
                    c.check_eq("create", &Ok((key == 1).then(|| b"key".to_vec())), &r.map_err(|e| err(&e)), "the key of the subscription");
                    c.check_eq("started-early", &subs, &log.called.get(), "callbacks called");
                    c.check(!returned.get(), "context-lost", || "the context is given back while the subscription is there".into());
                    state = State::Pending(fails == 2);
                    sub = Some((q, returned, vec![("create", V::Bool(true))]));
                }
            }
            Op::Next(next) => {
                log.next.set(Some(next));
                let r = call::resolve_next_subscription_item().map_err(|e| err(&e)).map(|i| {
                    i.map(|i| match i {
                        w::SubscriptionItem::Single(r) => (false, vec![data(&r)]),
                        w::SubscriptionItem::Multiple(r) => (true, r.iter().map(data).collect()),
                    })
                });
                if let State::Pending(_) = state {
                    subs += 1;
                    sub.as_mut().unwrap().2.push(("start", V::Null));
                }
                let want = match state {
                    State::None => Err((NO.to_string(), vec![])),
                    State::Pending(true) => {
                        state = State::None;
                        let (q, returned, want) = sub.take().unwrap();
                        c.check(returned.get(), "context-kept", || "the context is not given back when the subscription does not start".into());
                        check_pushed(c, &q, &want);
                        Err(("not started".to_string(), vec![]))
                    }
                    State::Pending(false) | State::Active => {
                        state = State::Active;
                        n += 1;
                        sub.as_mut().unwrap().2.push(("next", V::Int(n as i128)));
                        match next {
                            Next::Single => Ok(Some((false, vec![want_item(n, 0)]))),
                            Next::Multiple(k) => Ok(Some((true, (0..k).map(|i| want_item(n, i)).collect()))),
                            Next::End => Ok(None),
                            Next::Fail => Err((format!("next {n}"), vec![("k".to_string(), enc(&V::Int(1)))])),
                        }
                    }
                };
                c.check_eq("next", &want, &r, "the next item");
                c.check_eq("started", &subs, &log.called.get(), "callbacks called");
            }
            Op::Drop => {
                let before = log.dropped.get();
                call::drop_subscription();
                if let Some((q, returned, want)) = sub.take() {
                    c.check_eq("subscription-kept", &(before + 1), &log.dropped.get(), "subscriptions dropped");
                    c.check(returned.get(), "context-kept", || "the context is not given back when the subscription is dropped".into());
                    check_queue(c, &q, &want);
                }
                state = State::None;
            }
        }
        for wrong in log.wrong.take() {
            c.fail("borrowed-data-gone", wrong);
        }
        if let Some((_, returned, _)) = &sub {
            c.check(!returned.get(), "context-lost", || "the context is given back while the subscription is there".into());
        }
    }
    c.outcome(&trace);
    call::drop_subscription();
    if let Some((q, _, want)) = sub {
        check_queue(c, &q, &want);
    }
}
fn check_pushed(c: &mut Case, q: &Queue, want: &[(&str, V)]) {
    let got: Vec<_> = q.borrow().pushed.iter().map(|(n, b)| (n.clone(), crate::cbor::dec(b))).collect();
    let want: Vec<_> = want.iter().map(|(n, v)| (n.to_string(), Ok(v.clone()))).collect();
    c.check_eq("events", &want, &got, "the events of the subscription");
}

/// Many items, at once and one after the other.
fn long(c: &mut Case) {
    call::drop_subscription();
    let at_once: usize = *c.pick(&[17, 256, 257, 1000]);
    let then: usize = *c.pick(&[0, 300]);
    c.note(|| format!("{at_once} items at once, {then} after them"));
    let log = Rc::new(Log::default());
    let (_, host_q) = queue();
    let (returned, ctx) = operation_ctx(&[1, 2, 3], token(None), &[]);
    let log2 = log.clone();
    res::SUBSCRIBE.set(Some(Box::new(move |ext, ctx, prepared, _, _| {
        WATCH.with(|w| w.set((prepared.as_ptr() as usize, false)));
        let sub = Sub { own: &mut ext.own, ctx, prepared, returned, log: log2, n: 0 };
        let cb: res::Callback<'_> = Box::new(move || Ok(Box::new(sub)));
        Ok((None, cb))
    })));
    let r = call::create_subscription(host_q, ctx, b"prepared".to_vec(), HostHeaders::new(), vec![]);
    c.check(r.is_ok(), "create", || format!("{r:?}"));
    for n in 1..=then + 1 {
        let next = if n == 1 { Next::Multiple(at_once) } else { Next::Single };
        log.next.set(Some(next));
        let want: Vec<_> = (0..if n == 1 { at_once } else { 1 }).map(|i| want_item(n as u32, i)).collect();
        let got = match call::resolve_next_subscription_item() {
            Ok(Some(w::SubscriptionItem::Single(r))) => vec![data(&r)],
            Ok(Some(w::SubscriptionItem::Multiple(r))) => r.iter().map(data).collect(),
            r => return c.fail("next", format!("item {n}: {:?}", r.map(|r| r.is_some()).map_err(|e| e.message))),
        };
        if want != got {
            return c.fail("next", format!("item {n}: {} responses of {}, or other ones", got.len(), want.len()));
        }
    }
    call::drop_subscription();
    c.check_eq("dropped", &1, &log.dropped.get(), "subscriptions dropped");
    c.outcome(&(at_once, then));
}

/// Every form a subscription can be returned in: its key, and that it starts only when it is asked to.
fn forms(c: &mut Case) {
    struct S(Rc<Cell<u32>>);
    impl Subscription for S {
        fn next(&mut self) -> Result<Option<SubscriptionItem>, Error> {
            self.0.set(self.0.get() + 1);
            Ok(Some(Response::data(self.0.get()).into()))
        }
    }
    let form = c.choose(9);
    let some = c.flag();
    let fail = c.flag();
    let key = c.pick(&["", "k", "a key\u{e9}"]).to_string();
    let (started, nexts) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
    let cb = {
        let (started, nexts) = (started.clone(), nexts.clone());
        move || {
            started.set(started.get() + 1);
            if fail { Err(Error::new("no")) } else { Ok(S(nexts)) }
        }
    };
    let bytes = key.clone().into_bytes();
    let opt = |s| if some { Some(s) } else { None };
    let (got, start) = match form {
        0 => S(nexts.clone()).into_deduplication_key_and_subscription_callback(),
        1 => (bytes.clone(), cb).into_deduplication_key_and_subscription_callback(),
        2 => (some.then(|| bytes.clone()), cb).into_deduplication_key_and_subscription_callback(),
        3 => (key.clone(), cb).into_deduplication_key_and_subscription_callback(),
        4 => (opt(key.clone()), cb).into_deduplication_key_and_subscription_callback(),
        5 => (cb, bytes.clone()).into_deduplication_key_and_subscription_callback(),
        6 => (cb, some.then(|| bytes.clone())).into_deduplication_key_and_subscription_callback(),
        7 => (cb, key.clone()).into_deduplication_key_and_subscription_callback(),
        _ => (cb, opt(key.clone())).into_deduplication_key_and_subscription_callback(),
    };
    c.note(|| format!("form {form}, key {key:?}, some {some}, fail {fail}"));
    let want = match form {
        0 => None,
        1 | 3 | 5 | 7 => Some(bytes),
        _ => some.then_some(bytes),
    };
    c.check_eq("key", &want, &got, "the deduplication key");
    c.check_eq("started-early", &(0, 0), &(started.get(), nexts.get()), "starts and items before the callback is called");
    match start() {
        Err(e) => {
            c.check(form != 0 && fail && e.to_string() == "no", "callback", || format!("the callback fails: {e}"));
        }
        Ok(mut s) => {
            c.check(form == 0 || !fail, "callback", || "the callback succeeds".into());
            c.check_eq("callback", &0, &nexts.get(), "items before the first is asked for");
            for i in 1..3u32 {
                s.next().ok().flatten();
                c.check_eq("callback", &i, &nexts.get(), "items");
            }
        }
    }
    c.outcome(&(form, want));
}
pub fn run(k: &Check) {
    grafbase_sdk::extension::resolver::register::<res::Ext>();
    init(vec![], &enc(&V::Null), false, "off").unwrap();
    k.space_seq("lives", life);
    k.space_seq("many items", long);
    k.space("forms of subscriptions", forms);
}
