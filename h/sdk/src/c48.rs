//! NATS, Kafka and gRPC: the gateway is asked for exactly what the extension asks, and what it answers comes back as it is.
use crate::{common::*, res};
use grafbase_sdk::{
    host_io::{grpc, kafka, nats},
    types::*,
    vmc_hooks::{
        call,
        host::{
            asked::{BYTES, FAIL, GRPC, KAFKA, LOG},
            grpc::{GrpcStatus, GrpcStatusCode as HostCode},
            headers::Headers as HostHeaders,
            kafka_client as hk, nats_client as hn,
        },
        types as w,
    },
    Subscription,
};
use serde_json::{json, Value};
use std::time::Duration;
use vmc::{Case, Check};

fn reset() {
    LOG.take();
    FAIL.take();
    BYTES.take();
    KAFKA.take();
    GRPC.take();
}
/// The call must have been made, and been the only one since the last one looked at.
fn asked(c: &mut Case, key: &str, want: String) {
    c.check_eq(&format!("asked-{key}"), &vec![want], &LOG.take(), "what the gateway is asked");
}
fn failing(c: &mut Case, what: &'static str) -> bool {
    let f = c.flag();
    if f {
        FAIL.set(vec![what]);
    }
    f
}
type R<T> = Result<T, String>;
fn failed<T>(what: &str) -> R<T> {
    Err(format!("{what} failed"))
}
fn text<T>(r: Result<T, grafbase_sdk::SdkError>) -> R<T> {
    r.map_err(|e| e.to_string())
}
const PAYLOADS: [&[u8]; 4] = ["{\"a\":[1,null,\"é\"]}".as_bytes(), b"null", b"", &[0, 255]];
fn parsed(b: &[u8]) -> Option<Value> {
    serde_json::from_slice(b).ok()
}
const MS: [u64; 4] = [0, 1, 1500, 3_600_000];

// ---------------------------------------------------------------- NATS
const SERVERS: [&[&str]; 3] = [&[], &["nats://a:4222"], &["a", "b é"]];
fn nats_client() -> nats::NatsClient {
    let client = nats::connect(["s"]).unwrap();
    LOG.take();
    client
}
fn nats_connect(c: &mut Case) {
    reset();
    let servers: Vec<String> = SERVERS[c.choose(3)].iter().map(|s| s.to_string()).collect();
    let auth = match c.choose(4) {
        0 => None,
        1 => Some(hn::NatsAuth::UsernamePassword(("u".into(), "pä".into()))),
        2 => Some(hn::NatsAuth::Token("t".into())),
        _ => Some(hn::NatsAuth::Credentials("c".into())),
    };
    let fail = failing(c, "connect");
    c.note(|| format!("connect {servers:?} {auth:?} fails {fail}"));
    let got = match &auth {
        None => nats::connect(servers.clone()),
        Some(a) => nats::connect_with_auth(servers.clone(), a),
    };
    asked(c, "connect", format!("connect {:?}", (&servers, auth.as_ref())));
    c.check_eq("connect", &(if fail { failed("connect") } else { Ok(()) }), &text(got.map(|_| ())), "the connection");
}
fn nats_calls(c: &mut Case) {
    reset();
    let client = nats_client();
    let subject = *c.pick(&["s.a", "s.>", ""]);
    let p = c.choose(PAYLOADS.len());
    let value = parsed(PAYLOADS[p]);
    let timeout = if c.flag() { Some(*c.pick(&MS)) } else { None };
    let op = c.choose(3);
    let what = if op == 0 { "publish" } else { "request" };
    let fail = failing(c, what);
    let answer = if op == 0 { 0 } else { c.choose(PAYLOADS.len()) };
    c.note(|| format!("{what} {subject:?} payload {p}, {timeout:?} ms, fails {fail}, answer {answer}"));
    let dur = timeout.map(Duration::from_millis);
    BYTES.set([Ok(Some(PAYLOADS[answer].to_vec()))].into());
    match op {
        0 => {
            let Some(v) = value else { c.skip() };
            let got = text(client.publish(subject, &v));
            asked(c, "publish", format!("publish {:?}", (subject, v.to_string().as_bytes())));
            c.check_eq("publish", &(if fail { failed("publish") } else { Ok(()) }), &got, "the publication");
        }
        1 => {
            let got = text(client.request_bytes(subject, PAYLOADS[p], dur));
            asked(c, "request", format!("request {:?}", (subject, PAYLOADS[p], timeout)));
            c.check_eq("request", &(if fail { failed("request") } else { Ok(PAYLOADS[answer].to_vec()) }), &got, "the answer");
        }
        _ => {
            let Some(v) = value else { c.skip() };
            let got = text(client.request::<_, Value>(subject, &v, dur));
            asked(c, "request", format!("request {:?}", (subject, v.to_string().as_bytes(), timeout)));
            match (fail, parsed(PAYLOADS[answer])) {
                (true, _) => c.check_eq("request-json", &failed("request"), &got, "the answer"),
                (false, Some(v)) => c.check_eq("request-json", &Ok(v), &got, "the answer"),
                (false, None) => c.check(got.is_err(), "request-json", || format!("{got:?} of what is no JSON")),
            };
        }
    }
}
fn nats_kv(c: &mut Case) {
    reset();
    let client = nats_client();
    if failing(c, "key_value") {
        let got = text(client.key_value("b").map(|_| ()));
        c.check_eq("bucket", &failed("key_value"), &got, "the bucket");
        return asked(c, "bucket", "key_value \"b\"".into());
    }
    let bucket = *c.pick(&["b", "ü"]);
    let kv = client.key_value(bucket).unwrap();
    asked(c, "bucket", format!("key_value {bucket:?}"));
    let key = *c.pick(&["k", "k.é"]);
    let p = c.choose(PAYLOADS.len());
    let (bytes, value) = (PAYLOADS[p], parsed(PAYLOADS[p]));
    let op = c.choose(7);
    let what = ["create", "create", "put", "put", "get", "get", "delete"][op];
    let fail = failing(c, what);
    let seq = |n: u64| if fail { failed(what) } else { Ok(n) };
    c.note(|| format!("{what} {op} {key:?} payload {p}, fails {fail}"));
    let json = op % 2 == 1;
    match op {
        0..4 => {
            if json && value.is_none() {
                c.skip();
            }
            let v = value.unwrap_or_default();
            let got = match op {
                0 => kv.create_bytes(key, bytes),
                1 => kv.create(key, &v),
                2 => kv.put_bytes(key, bytes),
                _ => kv.put(key, &v),
            };
            let sent = if json { v.to_string().into_bytes() } else { bytes.to_vec() };
            asked(c, what, format!("{what} {:?}", (bucket, key, &sent)));
            c.check_eq(what, &seq(if op < 2 { 7 } else { u64::MAX }), &text(got), "the sequence number");
        }
        4 | 5 => {
            let there = c.choose(3);
            BYTES.set([match there {
                0 => Ok(Some(bytes.to_vec())),
                1 => Ok(None),
                _ => Err("gone".to_string()),
            }]
            .into());
            let host: R<Option<Vec<u8>>> = match (fail, there) {
                (true, _) => failed("get"),
                (_, 0) => Ok(Some(bytes.to_vec())),
                (_, 1) => Ok(None),
                _ => Err("gone".into()),
            };
            if op == 4 {
                c.check_eq("get", &host, &text(kv.get_bytes(key)), "the value");
            } else {
                let got = text(kv.get::<Value>(key));
                match host {
                    Err(e) => c.check_eq("get-json", &Err(e), &got, "the value"),
                    Ok(None) => c.check_eq("get-json", &Ok(None), &got, "the value"),
                    Ok(Some(_)) => match value {
                        Some(v) => c.check_eq("get-json", &Ok(Some(v)), &got, "the value"),
                        None => c.check(got.is_err(), "get-json", || format!("{got:?} of what is no JSON")),
                    },
                };
            }
            asked(c, "get", format!("get {:?}", (bucket, key)));
        }
        _ => {
            let got = text(kv.delete(key));
            asked(c, "delete", format!("delete {:?}", (bucket, key)));
            c.check_eq("delete", &seq(0).map(|_| ()), &got, "the deletion");
        }
    }
}
/// What cannot be JSON is an error, and nothing is sent.
fn nats_refused(c: &mut Case) {
    reset();
    let client = nats_client();
    let kv = client.key_value("b").unwrap();
    LOG.take();
    let payload = std::collections::BTreeMap::from([((1, *c.pick(&["a", ""])), c.choose(2))]);
    let op = c.choose(4);
    let timeout = if c.flag() { Some(Duration::from_millis(1)) } else { None };
    c.note(|| format!("{} {payload:?}", ["publish", "request", "create", "put"][op]));
    let got = vmc::guarded(|| match op {
        0 => text(client.publish("s", &payload)),
        1 => text(client.request::<_, Value>("s", &payload, timeout).map(|_| ())),
        2 => text(kv.create("k", &payload).map(|_| ())),
        _ => text(kv.put("k", &payload).map(|_| ())),
    });
    match got {
        Err(p) => c.fail("refused-panic", p),
        Ok(r) => {
            c.check(r.is_err(), "refused", || "it was sent".into());
        }
    }
    c.check_eq("refused-calls", &Vec::<String>::new(), &LOG.take(), "what the gateway is asked");
}
fn nats_stream(c: &mut Case) -> (Option<nats::NatsStreamConfig>, Option<hn::NatsStreamConfig>) {
    use hn::NatsStreamDeliverPolicy as H;
    use nats::NatsStreamDeliverPolicy as P;
    let k = c.choose(9);
    if k == 8 {
        return (None, None);
    }
    let at = |ms: i128| nats::OffsetDateTime::from_unix_timestamp_nanos(ms * 1_000_000).unwrap();
    let (p, h) = match k {
        0 => (P::All, H::All),
        1 => (P::Last, H::Last),
        2 => (P::New, H::New),
        3 => (P::ByStartSequence(0), H::ByStartSequence(0)),
        4 => (P::ByStartSequence(u64::MAX), H::ByStartSequence(u64::MAX)),
        5 => (P::ByStartTime(at(0)), H::ByStartTimeMs(0)),
        6 => (P::ByStartTime(at(1_700_000_000_123)), H::ByStartTimeMs(1_700_000_000_123)),
        _ => (P::LastPerSubject, H::LastPerSubject),
    };
    let ms = *c.pick(&MS);
    let mut host = hn::NatsStreamConfig {
        stream_name: "stream".into(),
        consumer_name: "consumer é".into(),
        durable_name: None,
        description: None,
        deliver_policy: h,
        inactive_threshold_ms: ms,
    };
    let mut config = nats::NatsStreamConfig::new("stream".into(), "consumer é".into(), p, Duration::from_millis(ms));
    if c.flag() {
        config = config.with_durable_name("durable".into());
        host.durable_name = Some("durable".into());
    }
    if c.flag() {
        config = config.with_description("description".into());
        host.description = Some("description".into());
    }
    (Some(config), Some(host))
}
/// What comes of a subscription: messages, an error, or the end.
#[derive(Debug, Clone, Copy, Hash)]
enum Item {
    Message(usize),
    Fail,
    End,
}
fn items(c: &mut Case, most: usize) -> Vec<Item> {
    (0..c.choose(most + 1))
        .map(|_| match c.choose(6) {
            0 => Item::Message(0),
            1 => Item::Message(1),
            2 => Item::Message(3),
            3 => Item::Fail,
            4 => Item::Message(2),
            _ => Item::End,
        })
        .collect()
}
fn nats_subscribe(c: &mut Case) {
    reset();
    let client = nats_client();
    let (config, host) = nats_stream(c);
    let subject = *c.pick(&["s.a", "s.*"]);
    let fail = failing(c, "subscribe");
    c.note(|| format!("subscribe {subject:?} {host:?}, fails {fail}"));
    let got = client.subscribe(subject, config);
    asked(c, "subscribe", format!("subscribe {:?}", (subject, host.as_ref())));
    c.check_eq("subscribe", &(if fail { failed("subscribe") } else { Ok(()) }), &text(got.map(|_| ())), "the subscription");
}
fn nats_items(c: &mut Case, most: usize) {
    reset();
    let items = items(c, most);
    c.note(|| format!("messages {items:?}"));
    BYTES.set(
        items
            .iter()
            .map(|i| match i {
                Item::Message(p) => Ok(Some(PAYLOADS[*p].to_vec())),
                Item::Fail => Err("lost".to_string()),
                Item::End => Ok(None),
            })
            .collect(),
    );
    let sub = nats_client().subscribe("s", None).unwrap();
    if c.flag() {
        return answered(c, sub, &items, "NATS");
    }
    for i in &items {
        let got = text(sub.next());
        match (i, got) {
            (Item::Message(p), Ok(Some(m))) => {
                c.check_eq("subject", &"s sub".to_string(), &m.subject().to_string(), "the subject");
                c.check_eq("payload", &PAYLOADS[*p].to_vec(), &m.payload_bytes().to_vec(), "the payload");
                c.check_eq("payload-json", &parsed(PAYLOADS[*p]), &m.payload::<Value>().ok(), "the payload as JSON");
            }
            (Item::Fail, Err(e)) => {
                c.check_eq("next-error", &"lost".to_string(), &e, "the error");
            }
            (Item::End, Ok(None)) => {}
            (i, r) => c.fail("next", format!("{} for {i:?}", match r { Ok(m) => format!("a message: {}", m.is_some()), Err(e) => e })),
        }
    }
}
/// The subscription as the answer of a resolver.
fn answered<S: Subscription + 'static>(c: &mut Case, sub: S, items: &[Item], who: &str) {
    res::SUBSCRIBE.set(Some(Box::new(move |_, _, _, _, _| Ok((None, Box::new(move || Ok(Box::new(sub) as Box<dyn Subscription>)))))));
    let (_, host_q) = queue();
    let (_, ctx) = operation_ctx(&[], token(None), &[]);
    call::create_subscription(host_q, ctx, vec![], HostHeaders::from_entries(&[]), vec![]).unwrap();
    for i in items {
        let got = call::resolve_next_subscription_item().map_err(|e| err(&e)).map(|i| {
            i.map(|i| match i {
                w::SubscriptionItem::Single(r) => match r.data {
                    Some(w::Data::Json(b)) if r.errors.is_empty() => Some(b),
                    _ => None,
                },
                w::SubscriptionItem::Multiple(_) => None,
            })
        });
        let want = match i {
            Item::Message(p) => Ok(Some(Some(PAYLOADS[*p].to_vec()))),
            Item::Fail => Err((format!("Error receiving {who} message: lost"), vec![])),
            Item::End => Ok(None),
        };
        c.check_eq("answered", &want, &got, "the item of the subscription");
    }
    call::drop_subscription();
}

// ---------------------------------------------------------------- Kafka
fn client_config(c: &mut Case, tls: &mut dyn FnMut(kafka::KafkaTlsConfig), auth: &mut dyn FnMut(kafka::KafkaAuthentication), partitions: &mut dyn FnMut(Vec<i32>)) -> hk::KafkaClientConfig {
    use kafka::{KafkaAuthentication as A, KafkaTlsConfig as T};
    let mut want = hk::KafkaClientConfig { partitions: None, tls: None, authentication: None };
    match c.choose(4) {
        0 => {}
        1 => {
            tls(T::system_ca());
            want.tls = Some(hk::KafkaTlsConfig::SystemCa);
        }
        2 => {
            tls(T::custom_ca("/ca é.pem"));
            want.tls = Some(hk::KafkaTlsConfig::CustomCa("/ca é.pem".into()));
        }
        _ => {
            tls(T::custom_ca("/old"));
            tls(T::SystemCa);
            want.tls = Some(hk::KafkaTlsConfig::SystemCa);
        }
    }
    let scram = |m| Some(hk::KafkaAuthentication::SaslScram(hk::KafkaSaslScramAuth { username: "u".into(), password: "p".into(), mechanism: m }));
    want.authentication = match c.choose(5) {
        0 => None,
        1 => {
            auth(A::sasl_plain("u", String::from("p")));
            Some(hk::KafkaAuthentication::SaslPlain(hk::KafkaSaslPlainAuth { username: "u".into(), password: "p".into() }))
        }
        2 => {
            auth(A::sasl_scram_sha256("u", "p"));
            scram(hk::KafkaScramMechanism::Sha256)
        }
        3 => {
            auth(A::sasl_scram_sha512("u", "p"));
            scram(hk::KafkaScramMechanism::Sha512)
        }
        _ => {
            auth(A::mtls("/cert", "/key"));
            Some(hk::KafkaAuthentication::Mtls(hk::KafkaMtlsAuth { client_cert_path: "/cert".into(), client_key_path: "/key".into() }))
        }
    };
    want.partitions = [None, Some(vec![]), Some(vec![2, 0, -1])][c.choose(3)].clone();
    if let Some(p) = &want.partitions {
        partitions(p.clone());
    }
    want
}
fn kafka_producer(c: &mut Case) {
    use kafka::KafkaProducerCompression as K;
    reset();
    let config = std::cell::RefCell::new(kafka::KafkaProducerConfig::default());
    let client_config = client_config(c, &mut |t| config.borrow_mut().tls(t), &mut |a| config.borrow_mut().authentication(a), &mut |p| config.borrow_mut().partitions(p));
    let mut config = config.into_inner();
    let k = c.choose(6);
    let compression = [hk::KafkaProducerCompression::None, hk::KafkaProducerCompression::None, hk::KafkaProducerCompression::Gzip, hk::KafkaProducerCompression::Snappy, hk::KafkaProducerCompression::Lz4, hk::KafkaProducerCompression::Zstd][k];
    if let Some(v) = [None, Some(K::None), Some(K::Gzip), Some(K::Snappy), Some(K::Lz4), Some(K::Zstd)].into_iter().nth(k).unwrap() {
        config.compression(v);
    }
    let batching = match c.choose(3) {
        0 => None,
        n => {
            let (size, ms) = [(0, 1500), (u64::MAX, 0)][n - 1];
            config.batching(kafka::KafkaBatchConfig { max_size_bytes: size, linger: Duration::from_millis(ms) });
            Some(hk::KafkaBatchConfig { linger_ms: ms, batch_size_bytes: size })
        }
    };
    let host = hk::KafkaProducerConfig { compression, batching, client_config };
    let servers = SERVERS[c.choose(2) + 1];
    let fail = failing(c, "producer");
    c.note(|| format!("producer {servers:?} {host:?}, fails {fail}"));
    let got = kafka::producer("name", servers.iter(), "topic", config);
    asked(c, "producer", format!("producer {:?}", ("name", servers, "topic", &host)));
    c.check_eq("producer", &(if fail { failed("producer") } else { Ok(()) }), &text(got.map(|_| ())), "the producer");
}
fn kafka_produce(c: &mut Case) {
    reset();
    let p = kafka::producer("name", ["s"], "topic", Default::default()).unwrap();
    LOG.take();
    for _ in 0..2 {
        let key = *c.pick(&[None, Some(""), Some("é")]);
        let value = PAYLOADS[c.choose(4)];
        FAIL.take();
        let fail = failing(c, "produce");
        c.note(|| format!("produce {key:?} {value:?}, fails {fail}"));
        let got = p.produce(key, value);
        asked(c, "produce", format!("produce {:?}", (key, value)));
        c.check_eq("produce", &(if fail { failed("produce") } else { Ok(()) }), &text(got), "the message");
    }
}
fn kafka_consumer(c: &mut Case) {
    reset();
    let config = std::cell::RefCell::new(kafka::KafkaConsumerConfig::default());
    let client_config = client_config(c, &mut |t| config.borrow_mut().tls(t), &mut |a| config.borrow_mut().authentication(a), &mut |p| config.borrow_mut().partitions(p));
    let mut config = config.into_inner();
    let mut host = hk::KafkaConsumerConfig { min_batch_size: None, max_batch_size: None, max_wait_ms: None, client_config, start_offset: hk::KafkaConsumerStartOffset::Latest };
    if c.flag() {
        config.min_batch_size(1);
        host.min_batch_size = Some(1);
    }
    if c.flag() {
        config.max_batch_size(i32::MAX);
        host.max_batch_size = Some(i32::MAX);
    }
    match c.choose(5) {
        0 => {}
        n => {
            // What the gateway cannot be told is as long as it can be told.
            let (d, ms) = [
                (Duration::ZERO, 0),
                (Duration::from_millis(1500), 1500),
                (Duration::from_millis(1 << 31), i32::MAX),
                (Duration::MAX, i32::MAX),
            ][n - 1];
            config.max_wait_time(d);
            host.max_wait_ms = Some(ms);
        }
    }
    match c.choose(5) {
        0 => {}
        1 => {
            config.from_earliest_offset();
            host.start_offset = hk::KafkaConsumerStartOffset::Earliest;
        }
        2 => {
            config.from_earliest_offset();
            config.from_latest_offset();
        }
        n => {
            let o = [-1, i64::MAX][n - 3];
            config.from_specific_offset(o);
            host.start_offset = hk::KafkaConsumerStartOffset::Specific(o);
        }
    }
    let servers = SERVERS[c.choose(2) + 1];
    let fail = failing(c, "consumer");
    c.note(|| format!("consumer {servers:?} {host:?}, fails {fail}"));
    let got = kafka::consumer(servers.iter(), "topic", config);
    asked(c, "consumer", format!("consumer {:?}", (servers, "topic", &host)));
    c.check_eq("consumer", &(if fail { failed("consumer") } else { Ok(()) }), &text(got.map(|_| ())), "the consumer");
}
fn message(value: Option<&[u8]>) -> hk::KafkaMessage {
    hk::KafkaMessage { offset: 5, key: None, value: value.map(<[u8]>::to_vec), headers: vec![], timestamp: 0, high_watermark: 6 }
}
fn kafka_items(c: &mut Case, most: usize) {
    reset();
    let items = items(c, most);
    c.note(|| format!("messages {items:?}"));
    KAFKA.set(
        items
            .iter()
            .map(|i| match i {
                // A message without a value answers null.
                Item::Message(1) => Ok(Some(message(None))),
                Item::Message(p) => Ok(Some(message(Some(PAYLOADS[*p])))),
                Item::Fail => Err("lost".to_string()),
                Item::End => Ok(None),
            })
            .collect(),
    );
    let sub = kafka::consumer(["s"], "topic", Default::default()).unwrap();
    if c.flag() {
        return answered(c, sub, &items, "Kafka");
    }
    for i in &items {
        match (i, text(sub.next())) {
            (Item::Message(p), Ok(Some(m))) => {
                let want = (*p != 1).then(|| PAYLOADS[*p].to_vec());
                c.check_eq("value", &want, &m.raw_value().map(<[u8]>::to_vec), "the value");
            }
            (Item::Fail, Err(e)) => {
                c.check_eq("next-error", &"lost".to_string(), &e, "the error");
            }
            (Item::End, Ok(None)) => {}
            (i, r) => c.fail("next", format!("{} for {i:?}", match r { Ok(m) => format!("a message: {}", m.is_some()), Err(e) => e })),
        }
    }
}
const HEADERS: [(&str, &[u8]); 5] = [("a", b"1"), ("a-b", b"{\"x\":2}"), ("b", b""), ("é", b"[null]"), ("ab", &[0, 255])];
fn kafka_message(c: &mut Case) {
    reset();
    let mut m = message(None);
    m.offset = *c.pick(&[0, i64::MAX, -1]);
    m.high_watermark = *c.pick(&[0, i64::MAX]);
    m.timestamp = *c.pick(&[0, 1_700_000_000, -1]);
    m.key = [None, Some(vec![]), Some("é".as_bytes().to_vec()), Some(vec![b'a', 255])][c.choose(4)].clone();
    m.value = [None, Some(0), Some(1), Some(2), Some(3)][c.choose(5)].map(|p: usize| PAYLOADS[p].to_vec());
    let mut headers = c.subset(&HEADERS);
    // As the gateway sends them.
    headers.sort();
    m.headers = headers.iter().map(|(k, v)| (k.to_string(), v.to_vec())).collect();
    c.note(|| format!("{m:?}"));
    KAFKA.set([Ok(Some(m.clone()))].into());
    let got = kafka::consumer(["s"], "topic", Default::default()).unwrap().next().unwrap().unwrap();
    c.check_eq("offset", &(m.offset, m.high_watermark), &(got.offset(), got.high_watermark()), "offsets");
    c.check_eq("timestamp", &m.timestamp, &got.timestamp().timestamp(), "timestamp");
    c.check_eq("raw-key", &m.key, &got.raw_key().map(<[u8]>::to_vec), "key");
    let key = m.key.as_ref().map(|k| std::str::from_utf8(k).unwrap_or("a\u{fffd}").to_string());
    c.check_eq("key", &key, &got.key().map(|k| k.into_owned()), "key as text");
    c.check_eq("raw-value", &m.value, &got.raw_value().map(<[u8]>::to_vec), "value");
    let value = got.value::<Value>();
    match &m.value {
        None => {
            c.check(matches!(value, Ok(None)), "value", || format!("{:?} without a value", value.ok()));
        }
        Some(b) => match parsed(b) {
            // null is a value or none.
            Some(Value::Null) => {
                c.check(matches!(value, Ok(None | Some(Value::Null))), "value", || format!("{:?} for null", value.ok()));
            }
            Some(v) => {
                c.check_eq("value", &Some(Some(v)), &value.ok(), "value as JSON");
            }
            None => {
                c.check(value.is_err(), "value", || format!("{:?} of what is no JSON", value.ok()));
            }
        },
    }
    for n in HEADERS.iter().map(|h| h.0).chain(["", "c", "a-"]) {
        let want = headers.iter().find(|h| h.0 == n).map(|h| h.1.to_vec());
        c.check_eq("raw-header", &want, &got.get_raw_header_value(n).map(<[u8]>::to_vec), &format!("header {n:?}"));
        let json = got.get_header_value::<Value>(n);
        match want.map(|b| parsed(&b)) {
            None => c.check(matches!(json, Ok(None)), "header", || format!("header {n:?}")),
            Some(None) => c.check(json.is_err(), "header", || format!("{:?} of what is no JSON in {n:?}", json.ok())),
            Some(v) => c.check_eq("header", &Some(v), &json.ok(), &format!("header {n:?} as JSON")),
        };
    }
    c.check_eq("into-raw-value", &m.value, &got.into_raw_value(), "value");
}

// ---------------------------------------------------------------- gRPC
macro_rules! codes {
    ($($c:ident),*) => { [$((HostCode::$c, grpc::GrpcStatusCode::$c)),*] };
}
const CODES: [(HostCode, grpc::GrpcStatusCode); 17] = codes!(
    Ok, Cancelled, Unknown, InvalidArgument, DeadlineExceeded, NotFound, AlreadyExists, PermissionDenied, ResourceExhausted, FailedPrecondition,
    Aborted, OutOfRange, Unimplemented, Internal, Unavailable, DataLoss, Unauthenticated
);
fn metadata() -> Vec<(String, Vec<u8>)> {
    vec![("m".into(), b"1".to_vec()), ("m".into(), vec![0, 255]), ("a-bin".into(), vec![])]
}
fn status(k: usize) -> GrpcStatus {
    GrpcStatus { code: CODES[k].0, message: format!("status {k} é"), metadata: if k % 2 == 0 { metadata() } else { vec![] } }
}
fn check_status(c: &mut Case, k: usize, e: &grpc::GrpcStatus) {
    let s = status(k);
    c.check_eq("code", &CODES[k].1, &e.code(), "the code");
    c.check_eq("status", &(s.message, s.metadata), &(e.message().to_string(), e.metadata().to_vec()), "the status");
}
fn grpc_client() -> grpc::GrpcClient {
    let client = grpc::GrpcClient::new("http://h:1").unwrap();
    LOG.take();
    client
}
fn grpc_calls(c: &mut Case) {
    reset();
    if failing(c, "grpc") {
        let uri = *c.pick(&["http://h:1", ""]);
        let got = grpc::GrpcClient::new(uri).map(|_| ()).map_err(|e| e.to_string());
        c.check_eq("connect", &failed("grpc"), &got, "the client");
        return asked(c, "connect", format!("grpc GrpcClientConfiguration {{ uri: {uri:?} }}"));
    }
    let client = grpc_client();
    let message = PAYLOADS[c.choose(4)];
    let md = [vec![], metadata()][c.choose(2)].clone();
    let timeout = if c.flag() { Some(*c.pick(&MS)) } else { None };
    let dur = timeout.map(Duration::from_millis);
    let stream = c.flag();
    let answer = c.choose(2 + CODES.len());
    let method = *c.pick(&["M", "é"]);
    c.note(|| format!("{message:?} {md:?} {timeout:?} stream {stream} answer {answer}"));
    let reply = PAYLOADS[[0, 2].get(answer).copied().unwrap_or(0)];
    GRPC.set([if answer < 2 { Ok(Some(reply.to_vec())) } else { Err(status(answer - 2)) }].into());
    let args = format!("{:?}", (message, "a.S", method, &md[..], timeout));
    if stream {
        match client.streaming(message, "a.S", method, &md, dur) {
            Ok(r) => {
                c.check(answer < 2, "streaming", || "a stream instead of an error".into());
                c.check_eq("stream-metadata", &metadata(), &r.metadata(), "the metadata of the stream");
            }
            Err(_) if answer < 2 => c.fail("streaming", "an error instead of a stream"),
            Err(e) => check_status(c, answer - 2, &e),
        }
        asked(c, "streaming", format!("streaming {args}"));
    } else {
        match client.unary(message, "a.S", method, &md, dur) {
            Ok(r) => {
                c.check(answer < 2, "unary", || "a response instead of an error".into());
                c.check_eq("unary-message", &reply.to_vec(), &r.message().to_vec(), "the message");
                c.check_eq("unary-metadata", &metadata(), &r.metadata().to_vec(), "the metadata");
                c.check_eq("unary-message", &reply.to_vec(), &r.into_message(), "the message");
            }
            Err(_) if answer < 2 => c.fail("unary", "an error instead of a response"),
            Err(e) => check_status(c, answer - 2, &e),
        }
        asked(c, "unary", format!("unary {args}"));
    }
}
fn grpc_stream(c: &mut Case, most: usize) {
    reset();
    let n = c.choose(most + 1);
    let items: Vec<_> = (0..n).map(|_| c.choose(5)).collect();
    c.note(|| format!("messages {items:?}"));
    let first = [Ok(Some(vec![]))];
    GRPC.set(
        first
            .into_iter()
            .chain(items.iter().map(|i| match i {
                0..3 => Ok(Some(PAYLOADS[*i + 1].to_vec())),
                3 => Err(status(14)),
                _ => Ok(None),
            }))
            .collect(),
    );
    let s = grpc_client().streaming(b"", "S", "M", &[], None).unwrap();
    for i in &items {
        match (i, s.next_message()) {
            (0..3, Ok(Some(m))) => {
                c.check_eq("message", &PAYLOADS[*i + 1].to_vec(), &m, "the message");
            }
            (3, Err(e)) => check_status(c, 14, &e),
            (4, Ok(None)) => {}
            (i, r) => c.fail("message", format!("{r:?} for {i}")),
        }
    }
}

pub fn run(k: &Check) {
    let deep = k.thorough();
    grafbase_sdk::extension::resolver::register::<res::Ext>();
    init(vec![], &crate::cbor::enc(&crate::cbor::V::Null), false, "off").unwrap();
    k.space("NATS: connections", nats_connect);
    k.space("NATS: messages", nats_calls);
    k.space("NATS: key-value stores", nats_kv);
    k.space("NATS: payloads that are no JSON", nats_refused);
    k.space("NATS: streams", nats_subscribe);
    k.space_seq("NATS: subscriptions", |c| nats_items(c, if deep { 5 } else { 3 }));
    k.space("Kafka: producers", kafka_producer);
    k.space("Kafka: messages produced", kafka_produce);
    k.space("Kafka: consumers", kafka_consumer);
    k.space("Kafka: messages consumed", kafka_message);
    k.space_seq("Kafka: subscriptions", |c| kafka_items(c, if deep { 5 } else { 3 }));
    k.space("gRPC: calls", grpc_calls);
    k.space("gRPC: streams", |c| grpc_stream(c, if deep { 6 } else { 4 }));
}
