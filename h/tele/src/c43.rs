//! Log records exported for tracing events.
use grafbase_telemetry::otel::logs::bridge::OtelLogsLayer;
use opentelemetry::{
    InstrumentationScope, SpanId, TraceFlags, TraceId,
    logs::{AnyValue, Severity},
    KeyValue,
    trace::{Link, SamplingDecision, SamplingResult, SpanContext, SpanKind, TraceContextExt, TraceState, TracerProvider},
};
use opentelemetry_sdk::{
    error::OTelSdkResult,
    logs::{LogProcessor, SdkLogRecord, SdkLoggerProvider},
    trace::{IdGenerator, Sampler, SdkTracerProvider, ShouldSample, SpanData, SpanProcessor},
};
use std::{
    collections::HashMap,
    fmt,
    sync::{
        Arc, Mutex, OnceLock,
        atomic::{AtomicU64, Ordering},
    },
};
use tracing::{Level, Metadata, Value};
use tracing_core::{Callsite, Event, Interest, Kind, callsite::Identifier, field::FieldSet};
use tracing_opentelemetry::OpenTelemetrySpanExt;
use tracing_subscriber::layer::SubscriberExt;
use vmc::{Case, Check};

// ------------------------------------------------------------------ events made at run time

struct Site {
    meta: OnceLock<Metadata<'static>>,
}

impl Callsite for Site {
    fn set_interest(&self, _: Interest) {}
    fn metadata(&self) -> &Metadata<'_> {
        self.meta.get().unwrap()
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct Shape {
    fields: Vec<String>,
    level: usize,
    place: usize,
}

const LEVELS: [(Level, Severity, &str); 5] = [
    (Level::ERROR, Severity::Error, "ERROR"),
    (Level::WARN, Severity::Warn, "WARN"),
    (Level::INFO, Severity::Info, "INFO"),
    (Level::DEBUG, Severity::Debug, "DEBUG"),
    (Level::TRACE, Severity::Trace, "TRACE"),
];

/// File, its last part, line, module.
type Place = (Option<&'static str>, Option<&'static str>, Option<u32>, Option<&'static str>);
const PLACES: [Place; 5] = [
    (Some("src/a/b.rs"), Some("b.rs"), Some(7), Some("a::b")),
    (None, None, None, None),
    (Some("src\\b.rs"), Some("b.rs"), Some(u32::MAX), None),
    (Some("b.rs"), Some("b.rs"), None, Some("")),
    (Some("a/c/"), Some(""), Some(0), Some("m")),
];

const NAME: &str = "event name";
const TARGET: &str = "target::of";

fn site(shape: &Shape) -> &'static Metadata<'static> {
    static SITES: OnceLock<Mutex<HashMap<Shape, &'static Metadata<'static>>>> = OnceLock::new();
    let mut sites = SITES.get_or_init(Default::default).lock().unwrap();
    *sites.entry(shape.clone()).or_insert_with(|| {
        let site: &'static Site = Box::leak(Box::new(Site { meta: OnceLock::new() }));
        let names: Vec<&'static str> = shape.fields.iter().map(|f| &*Box::leak(f.clone().into_boxed_str())).collect();
        let fields = FieldSet::new(Box::leak(names.into_boxed_slice()), Identifier(site));
        let (file, _, line, module) = PLACES[shape.place];
        let meta = Metadata::new(NAME, TARGET, LEVELS[shape.level].0, file, line, module, fields, Kind::EVENT);
        site.meta.set(meta).unwrap();
        site.meta.get().unwrap()
    })
}

fn dispatch(meta: &'static Metadata<'static>, values: &[&dyn Value], parent: Option<Option<tracing::Id>>) {
    fn go<const N: usize>(meta: &'static Metadata<'static>, values: &[&dyn Value], parent: Option<Option<tracing::Id>>) {
        let fields: Vec<_> = meta.fields().iter().collect();
        let pairs: [(&tracing::field::Field, Option<&dyn Value>); N] = std::array::from_fn(|i| (&fields[i], Some(values[i])));
        let set = meta.fields().value_set(&pairs);
        match parent {
            None => Event::dispatch(meta, &set),
            Some(parent) => Event::child_of(parent, meta, &set),
        }
    }
    macro_rules! sizes {
        ($($n:literal)*) => { match values.len() { $($n => go::<$n>(meta, values, parent),)* n => panic!("{n} values") } };
    }
    sizes!(0 1 2 3 4 48 49 50 51 52 53 60 120)
}

#[derive(Clone)]
enum V {
    Str(String),
    Debug(String),
    Bool(bool),
    I64(i64),
    U64(u64),
    F64(f64),
    I128(i128),
    U128(u128),
    Bytes(Vec<u8>),
    Error(Failure),
}

#[derive(Debug, Clone)]
struct Failure(String);

impl fmt::Display for Failure {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for Failure {}

impl V {
    fn value(&self) -> Box<dyn Value + '_> {
        match self {
            V::Str(s) => Box::new(s.as_str()),
            V::Debug(s) => Box::new(tracing::field::display(s)),
            V::Bool(b) => Box::new(*b),
            V::I64(b) => Box::new(*b),
            V::U64(b) => Box::new(*b),
            V::F64(b) => Box::new(*b),
            V::I128(b) => Box::new(*b),
            V::U128(b) => Box::new(*b),
            V::Bytes(b) => Box::new(b.as_slice()),
            V::Error(e) => Box::new(e as &(dyn std::error::Error + 'static)),
        }
    }
    fn shown(&self) -> Shown {
        match self {
            V::Str(s) | V::Debug(s) | V::Error(Failure(s)) => Shown::S(cut(s, 1024)),
            V::Bool(b) => Shown::B(*b),
            V::I64(i) => Shown::I(*i),
            V::U64(i) => i64::try_from(*i).map(Shown::I).unwrap_or_else(|_| Shown::S(i.to_string())),
            V::I128(i) => i64::try_from(*i).map(Shown::I).unwrap_or_else(|_| Shown::S(i.to_string())),
            V::U128(i) => i64::try_from(*i).map(Shown::I).unwrap_or_else(|_| Shown::S(i.to_string())),
            V::F64(f) => Shown::F(f.to_bits()),
            V::Bytes(b) => Shown::Raw(b[..b.len().min(1024)].to_vec()),
        }
    }
}

/// The text cut to so many bytes at most, never inside of a character.
fn cut(text: &str, limit: usize) -> String {
    if text.len() <= limit {
        return text.to_string();
    }
    let mut kept = String::new();
    for c in text.chars() {
        if kept.len() + c.len_utf8() > limit {
            break;
        }
        kept.push(c);
    }
    kept + "...[truncated]"
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
enum Shown {
    S(String),
    B(bool),
    I(i64),
    F(u64),
    Raw(Vec<u8>),
    Other(String),
}

fn shown(value: &AnyValue) -> Shown {
    match value {
        AnyValue::String(s) => Shown::S(s.to_string()),
        AnyValue::Boolean(b) => Shown::B(*b),
        AnyValue::Int(i) => Shown::I(*i),
        AnyValue::Double(f) => Shown::F(f.to_bits()),
        AnyValue::Bytes(b) => Shown::Raw(b.to_vec()),
        other => Shown::Other(format!("{other:?}")),
    }
}

// ------------------------------------------------------------------ what was exported

#[derive(Debug, Clone, Default)]
struct Log {
    body: Option<Shown>,
    severity: Option<Severity>,
    level: Option<&'static str>,
    target: Option<String>,
    event: Option<&'static str>,
    attributes: Vec<(String, Shown)>,
    trace: Option<(TraceId, SpanId, Option<TraceFlags>)>,
}

#[derive(Debug, Clone, Default)]
struct Logs(Arc<Mutex<Vec<Log>>>);

impl LogProcessor for Logs {
    fn emit(&self, record: &mut SdkLogRecord, _: &InstrumentationScope) {
        self.0.lock().unwrap().push(Log {
            body: record.body().map(shown),
            severity: record.severity_number(),
            level: record.severity_text(),
            target: record.target().map(|t| t.to_string()),
            event: record.event_name(),
            attributes: record.attributes_iter().map(|(k, v)| (k.to_string(), shown(v))).collect(),
            trace: record.trace_context().map(|t| (t.trace_id, t.span_id, t.trace_flags)),
        })
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
}

/// Spans by their name.
#[derive(Debug, Clone, Default)]
struct Spans(Arc<Mutex<HashMap<String, SpanContext>>>);

impl SpanProcessor for Spans {
    fn on_start(&self, _: &mut opentelemetry_sdk::trace::Span, _: &opentelemetry::Context) {}
    fn on_end(&self, span: SpanData) {
        self.0.lock().unwrap().insert(span.name.to_string(), span.span_context);
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _: std::time::Duration) -> OTelSdkResult {
        Ok(())
    }
}

fn logged(emit: impl FnOnce()) -> Vec<Log> {
    let logs = Logs::default();
    let provider = SdkLoggerProvider::builder().with_log_processor(logs.clone()).build();
    let subscriber = tracing_subscriber::registry().with(OtelLogsLayer::new(provider));
    tracing::subscriber::with_default(subscriber, emit);
    std::mem::take(&mut *logs.0.lock().unwrap())
}

// ------------------------------------------------------------------ the model

struct Emitted {
    level: usize,
    place: usize,
    fields: Vec<(String, V)>,
}

impl Emitted {
    fn meta(&self) -> &'static Metadata<'static> {
        site(&Shape { fields: self.fields.iter().map(|(n, _)| n.clone()).collect(), level: self.level, place: self.place })
    }
    fn send(&self, parent: Option<Option<tracing::Id>>) {
        let values: Vec<_> = self.fields.iter().map(|(_, v)| v.value()).collect();
        let values: Vec<&dyn Value> = values.iter().map(|v| &**v).collect();
        dispatch(self.meta(), &values, parent)
    }
    fn body(&self) -> String {
        let message = self.fields.iter().rev().find_map(|(n, v)| match v {
            V::Str(s) | V::Debug(s) if n == "message" => Some(s),
            _ => None,
        });
        cut(message.map(|m| m.as_str()).unwrap_or(NAME), 8192)
    }
    fn attributes(&self) -> Vec<(String, Shown)> {
        let text = |s: &str| Shown::S(s.to_string());
        let mut out = Vec::new();
        let (file, last, line, module) = PLACES[self.place];
        out.extend(module.map(|m| ("code.namespace".to_string(), text(m))));
        out.extend(file.map(|f| ("code.filepath".to_string(), text(f))));
        out.extend(last.map(|f| ("code.filename".to_string(), text(f))));
        out.extend(line.map(|l| ("code.lineno".to_string(), Shown::I(l as i64))));
        let mut kept = 0;
        let mut dropped = 0;
        let mut exception = None;
        for (name, value) in &self.fields {
            if name == "message" && matches!(value, V::Str(_) | V::Debug(_)) {
                continue;
            }
            if let V::Error(_) = value {
                exception = Some(value.shown());
            }
            if kept == 50 {
                dropped += 1;
                continue;
            }
            kept += 1;
            out.push((name.clone(), value.shown()));
        }
        if dropped > 0 {
            out.push(("otel.fields_dropped".to_string(), Shown::I(dropped)));
        }
        out.extend(exception.map(|e| ("exception.message".to_string(), e)));
        out.sort();
        out
    }
    fn judge(&self, c: &mut Case, log: &Log) {
        let (_, severity, level) = LEVELS[self.level];
        c.check_eq("severity", &Some(severity), &log.severity, "severity");
        c.check_eq("severity-text", &Some(level), &log.level, "name of the severity");
        c.check_eq("target", &Some(TARGET.to_string()), &log.target, "target");
        c.check_eq("event-name", &Some(NAME), &log.event, "event name");
        c.check_eq("body", &Some(Shown::S(self.body())), &log.body, "body");
        let mut attributes = log.attributes.clone();
        attributes.sort();
        c.check_eq("attributes", &self.attributes(), &attributes, "attributes");
        c.outcome(&(self.level, self.place, &log.body, &attributes));
    }
}

fn once(c: &mut Case, event: Emitted) {
    match &logged(|| event.send(None))[..] {
        [log] => event.judge(c, log),
        logs => c.fail("one-record", format!("{} records for one event", logs.len())),
    }
}

// ------------------------------------------------------------------ spaces

fn values() -> Vec<V> {
    let mut out: Vec<V> = Vec::new();
    for s in ["", "a", "a b\"\n", "é🦀", "null", "7"] {
        out.push(V::Str(s.to_string()));
        out.push(V::Debug(s.to_string()));
        out.push(V::Error(Failure(s.to_string())));
        out.push(V::Bytes(s.as_bytes().to_vec()));
    }
    out.extend([false, true].map(V::Bool));
    out.extend([0, 1, -1, i64::MAX, i64::MIN].map(V::I64));
    out.extend([0, 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX].map(V::U64));
    out.extend([0.0, -0.0, 1.5, f64::MAX, f64::INFINITY, f64::NAN].map(V::F64));
    let edge = i64::MAX as i128;
    out.extend([0, -1, edge, edge + 1, -edge - 1, -edge - 2, i128::MAX, i128::MIN].map(V::I128));
    out.extend([0, 1, edge as u128, edge as u128 + 1, u128::MAX].map(V::U128));
    out.push(V::Bytes(vec![0xff, 0]));
    out
}

fn one_field(c: &mut Case) {
    let values = values();
    let level = c.choose(LEVELS.len());
    let place = c.choose(PLACES.len());
    let name = *c.pick(&["x", "message", "exception.message", "otel.fields_dropped", "code.lineno", "log.target", ""]);
    let value = c.pick(&values).clone();
    once(c, Emitted { level, place, fields: vec![(name.to_string(), value)] });
}

fn some_fields(c: &mut Case) {
    let pool = [
        ("x", V::Str("1".into())),
        ("y", V::I64(1)),
        ("message", V::Str("said".into())),
        ("message", V::Debug("shown".into())),
        ("message", V::I64(4)),
        ("message", V::Error(Failure("as an error".into()))),
        ("error", V::Error(Failure("first".into()))),
        ("cause", V::Error(Failure("second".into()))),
        ("raw", V::Bytes(vec![1])),
    ];
    let count = c.choose(if c.thorough() { 5 } else { 4 });
    let mut fields: Vec<(String, V)> = Vec::new();
    for _ in 0..count {
        let (name, value) = c.pick(&pool).clone();
        // A field has one value only.
        if fields.iter().any(|(n, _)| n == name) {
            c.skip()
        }
        fields.push((name.to_string(), value));
    }
    once(c, Emitted { level: 2, place: 1, fields });
}

fn long_values(c: &mut Case) {
    let kind = c.choose(7);
    let limit: usize = *c.pick(&[1024, 8192]);
    let offset = c.choose(11);
    let size = limit - 5 + offset;
    let unit = *c.pick(&["a", "é", "€", "🦀"]);
    let lead = c.choose(4);
    let mut text = "b".repeat(lead);
    while text.len() < size {
        text.push_str(unit);
    }
    c.note(|| format!("{} bytes: {lead} of one, then {unit:?}; as {kind}", text.len()));
    let raw = text.clone().into_bytes();
    let fields = match kind {
        0 => vec![("message", V::Str(text))],
        1 => vec![("message", V::Debug(text))],
        2 => vec![("x", V::Str(text))],
        3 => vec![("x", V::Debug(text))],
        4 => vec![("x", V::Error(Failure(text)))],
        5 => vec![("x", V::Bytes(raw))],
        _ => vec![("message", V::Error(Failure(text)))],
    };
    once(c, Emitted { level: 2, place: 1, fields: fields.into_iter().map(|(n, v)| (n.to_string(), v)).collect() });
}

fn many_fields(c: &mut Case) {
    let count = *c.pick(&[48usize, 49, 50, 51, 52, 60, 120]);
    let message = *c.pick(&[None, Some(0), Some(1), Some(48), Some(49), Some(50), Some(51)]);
    let error = *c.pick(&[None, Some(0), Some(48), Some(49), Some(50), Some(51)]);
    let kind = c.choose(2);
    let mut fields: Vec<_> = (0..count)
        .map(|i| (format!("f{i}"), if kind == 0 { V::I64(i as i64) } else { V::Str(i.to_string()) }))
        .collect();
    for (at, value) in [
        (message, ("message".to_string(), V::Str("said".into()))),
        (error, ("error".to_string(), V::Error(Failure("failed".into())))),
    ] {
        match at {
            Some(at) if at < count => fields[at] = value,
            Some(_) => c.skip(),
            None => {}
        }
    }
    once(c, Emitted { level: 0, place: 1, fields });
}

/// Ids counted up, so that those of different spans differ.
#[derive(Debug, Default)]
struct Ids(AtomicU64);

impl IdGenerator for Ids {
    fn new_trace_id(&self) -> TraceId {
        TraceId::from((self.0.fetch_add(1, Ordering::SeqCst) + 1) as u128)
    }
    fn new_span_id(&self) -> SpanId {
        SpanId::from(self.0.fetch_add(1, Ordering::SeqCst) + 1)
    }
}

/// Spans below each other, events somewhere between them: steps of a history on a stack of spans.
fn spans(c: &mut Case) {
    let sampler = match c.choose(2) {
        0 => Sampler::AlwaysOn,
        _ => Sampler::ParentBased(Box::new(Sampler::AlwaysOn)),
    };
    let remote = match c.choose(3) {
        0 => None,
        1 => Some(TraceFlags::SAMPLED),
        _ => Some(TraceFlags::default()),
    };
    let logs = Logs::default();
    let ended = Spans::default();
    let tracers = SdkTracerProvider::builder()
        .with_id_generator(Ids::default())
        .with_sampler(Ends(sampler))
        .with_span_processor(ended.clone())
        .build();
    let provider = SdkLoggerProvider::builder().with_log_processor(logs.clone()).build();
    let subscriber = tracing_subscriber::registry()
        .with(tracing_opentelemetry::layer().with_tracer(tracers.tracer("spans")))
        .with(OtelLogsLayer::new(provider));
    let event = Emitted { level: 2, place: 1, fields: vec![("x".to_string(), V::I64(1))] };
    // What each record has to name: a span, and how it is known.
    let mut expected: Vec<Option<usize>> = Vec::new();
    let depth = if c.thorough() { 6 } else { 5 };
    let mut log = Vec::new();
    tracing::subscriber::with_default(subscriber, || {
        let mut made: Vec<tracing::Span> = Vec::new();
        let mut entered: Vec<(usize, tracing::span::EnteredSpan)> = Vec::new();
        for _ in 0..depth {
            match c.choose(7) {
                0 => break,
                // a new span below the current one
                1 => {
                    let span = named(made.len());
                    if made.is_empty() {
                        if let Some(flags) = remote {
                            span.set_parent(opentelemetry::Context::new().with_remote_span_context(SpanContext::new(
                                TraceId::from(0xabcd),
                                SpanId::from(0xef),
                                flags,
                                true,
                                TraceState::default(),
                            )));
                        }
                    }
                    entered.push((made.len(), span.clone().entered()));
                    made.push(span);
                    log.push("span".to_string());
                }
                2 => {
                    if entered.pop().is_none() {
                        c.skip()
                    }
                    log.push("leave".to_string());
                }
                3 => {
                    expected.push(entered.last().map(|(i, _)| *i));
                    event.send(None);
                    log.push("event".to_string());
                }
                // an event of no span whatever the current one is
                4 => {
                    expected.push(None);
                    event.send(Some(None));
                    log.push("event of none".to_string());
                }
                // an event of the first span
                5 => {
                    let Some(first) = made.first() else { c.skip() };
                    expected.push(Some(0));
                    event.send(Some(first.id()));
                    log.push("event of the first".to_string());
                }
                // of the last made, which may have been left
                _ => {
                    let Some(last) = made.last() else { c.skip() };
                    expected.push(Some(made.len() - 1));
                    event.send(Some(last.id()));
                    log.push("event of the last".to_string());
                }
            }
        }
        while entered.pop().is_some() {}
        drop(made);
    });
    c.note(|| format!("remote parent {remote:?}: {}", log.join(", ")));
    let spans = ended.0.lock().unwrap().clone();
    let logs = logs.0.lock().unwrap().clone();
    c.check_eq("one-record", &expected.len(), &logs.len(), "records for as many events");
    if c.failed() {
        return;
    }
    for (expected, got) in expected.iter().zip(&logs) {
        event.judge(c, got);
        let got = got.trace.clone().map(|(trace, span, _)| (trace, span));
        let want = expected.map(|i| {
            let context = &spans[&NAMES[i].to_string()];
            (context.trace_id(), context.span_id())
        });
        c.check_eq("trace-context", &want, &got, "trace and span of a record");
    }
    c.outcome(&(expected, spans.len()));
}

const NAMES: [&str; 6] = ["s0", "s1", "s2", "s3", "s4", "s5"];

fn named(i: usize) -> tracing::Span {
    match i {
        0 => tracing::info_span!("s0"),
        1 => tracing::info_span!("s1"),
        2 => tracing::info_span!("s2"),
        3 => tracing::info_span!("s3"),
        4 => tracing::info_span!("s4"),
        _ => tracing::info_span!("s5"),
    }
}

/// Decides like the sampler, yet at least records spans, so that they can be looked at.
#[derive(Clone, Debug)]
struct Ends(Sampler);

impl ShouldSample for Ends {
    fn should_sample(
        &self,
        parent: Option<&opentelemetry::Context>,
        trace: TraceId,
        name: &str,
        kind: &SpanKind,
        attributes: &[KeyValue],
        links: &[Link],
    ) -> SamplingResult {
        let mut result = self.0.should_sample(parent, trace, name, kind, attributes, links);
        if result.decision == SamplingDecision::Drop {
            result.decision = SamplingDecision::RecordOnly;
        }
        result
    }
}

pub fn run(check: &Check) {
    check.space("one-field", one_field);
    check.space("some-fields", some_fields);
    check.space("long-values", long_values);
    check.space("many-fields", many_fields);
    check.space("spans", spans);
}
