//! Where telemetry is sent, and with what.
use crate::{
    collector::{self, Collector, Export},
    otlp::*,
};
use opentelemetry::metrics::MeterProvider;
use opentelemetry_proto::tonic::metrics::v1::{AggregationTemporality, metric::Data, number_data_point};
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
};
use toml::Table;
use vmc::{Case, Check};

const PATHS: [&str; 7] = ["", "/", "/x", "/x/", "/v1/traces", "/v1/metrics", "/?key=1"];

fn path(endpoint: &str, global: bool, signal: usize) -> String {
    let signal = format!("/v1/{}", SIGNALS[signal]);
    match endpoint {
        "" | "/" if global => signal,
        "/?key=1" if global => format!("{signal}?key=1"),
        "" => "/".to_string(),
        path => path.to_string(),
    }
}

/// What one signal has to arrive as.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Arrival {
    collector: usize,
    signal: usize,
    grpc: bool,
    path: String,
}

fn judge(c: &mut Case, expected: &[Arrival], got: &[(usize, Export)]) {
    let mut found = Vec::new();
    for (collector, export) in got {
        match decode(export) {
            Ok(content) => found.push(Arrival {
                collector: *collector,
                signal: content.signal(),
                grpc: export.grpc,
                path: export.path.clone(),
            }),
            Err(e) => c.fail("unreadable", e),
        }
    }
    found.sort();
    let mut expected = expected.to_vec();
    expected.sort();
    c.check_eq("arrived", &expected, &found, "exports by the collector, signal, protocol and path they arrived at");
}

fn sent(c: &mut Case, table: Table, pool: &[Arc<Collector>]) -> Option<Vec<(usize, Export)>> {
    c.note(|| toml::to_string(&table).unwrap());
    let built = match build(&config(table)) {
        Ok(built) => built,
        Err(e) => {
            c.fail("not-built", e.to_string());
            return None;
        }
    };
    if let Err(e) = emit(built) {
        c.fail("not-sent", e);
        return None;
    }
    Some(arrived(pool))
}

fn protocol(c: &mut Case, table: &mut Table, path: &[&str]) -> bool {
    match c.choose(3) {
        0 => true,
        1 => {
            put(table, path, "grpc");
            true
        }
        _ => {
            put(table, path, "http");
            false
        }
    }
}

/// One signal, its endpoint in the global part, the local one, or both.
fn endpoints(c: &mut Case) {
    collector::with(2, |pool| {
        let signal = c.choose(3);
        let section = SECTIONS[signal];
        let mut table = Table::new();
        put(&mut table, &["tracing", "sampling"], 1.0);
        put(&mut table, &[section, "exporters", "otlp", "enabled"], true);
        let at = *c.pick(&[true, false]);
        let grpc = match at {
            true => protocol(c, &mut table, &["exporters", "otlp", "protocol"]),
            false => protocol(c, &mut table, &[section, "exporters", "otlp", "protocol"]),
        };
        let mut expected = None;
        let paths = if grpc { &PATHS[..3] } else { &PATHS[..] };
        for (i, keys) in [&["exporters", "otlp", "endpoint"][..], &[section, "exporters", "otlp", "endpoint"]].into_iter().enumerate() {
            let Some(p) = c.pick(&[None].into_iter().chain(paths.iter().map(Some)).collect::<Vec<_>>()).copied() else { continue };
            put(&mut table, keys, text(&format!("http://127.0.0.1:{}{p}", pool[i].port)));
            expected = Some(Arrival {
                collector: i,
                signal,
                grpc,
                path: if grpc { SERVICES[signal].to_string() } else { path(p, i == 0, signal) },
            });
        }
        // Both absent: elsewhere.
        let Some(expected) = expected else { c.skip() };
        if let Some(got) = sent(c, table, pool) {
            c.outcome(&(expected.collector, signal, grpc, &expected.path));
            judge(c, &[expected], &got);
        }
    })
}

/// Without an endpoint: the standard ports of the local host.
fn defaults(c: &mut Case) {
    let signal = c.choose(3);
    let mut table = Table::new();
    put(&mut table, &["tracing", "sampling"], 1.0);
    let grafbase = c.flag();
    let mut signals = vec![signal];
    let keys: &[&str] = if grafbase {
        signals = vec![0, 1];
        &["grafbase"]
    } else {
        &[SECTIONS[signal], "exporters", "otlp"]
    };
    put(&mut table, &[keys, &["enabled"]].concat(), true);
    let grpc = protocol(c, &mut table, &[keys, &["protocol"]].concat());
    if grafbase && signal > 0 {
        c.skip()
    }
    let (Ok(a), Ok(b)) = (Collector::bind(4317), Collector::bind(4318)) else { c.skip() };
    let pool = [Arc::new(a), Arc::new(b)];
    if let Some(got) = sent(c, table, &pool) {
        let expected: Vec<_> = signals
            .into_iter()
            .map(|signal| Arrival {
                collector: if grpc { 0 } else { 1 },
                signal,
                grpc,
                path: if grpc { SERVICES[signal].to_string() } else { format!("/v1/{}", SIGNALS[signal]) },
            })
            .collect();
        judge(c, &expected, &got);
        c.outcome(&(signal, grpc));
    }
    for collector in pool {
        collector.stop();
    }
}

/// Which of the signals are exported where, over all ways to enable them.
fn switches(c: &mut Case) {
    collector::with(5, |pool| {
        let mut table = Table::new();
        put(&mut table, &["tracing", "sampling"], 1.0);
        let grpc = protocol(c, &mut table, &["exporters", "otlp", "protocol"]);
        let global = *c.pick(&[None, Some(true), Some(false)]);
        if let Some(enabled) = global {
            put(&mut table, &["exporters", "otlp", "enabled"], enabled);
        }
        put(&mut table, &["exporters", "otlp", "endpoint"], text(&format!("http://127.0.0.1:{}", pool[0].port)));
        let mut expected = Vec::new();
        for signal in 0..3 {
            let local = *c.pick(&[None, Some((true, false)), Some((true, true)), Some((false, true))]);
            let mut on = global.unwrap_or(false);
            let mut to = 0;
            if let Some((enabled, endpoint)) = local {
                on = enabled;
                put(&mut table, &[SECTIONS[signal], "exporters", "otlp", "enabled"], enabled);
                if endpoint {
                    to = 1 + signal;
                    let endpoint = format!("http://127.0.0.1:{}/own", pool[to].port);
                    put(&mut table, &[SECTIONS[signal], "exporters", "otlp", "endpoint"], text(&endpoint));
                }
            }
            if on {
                let path = match (grpc, to) {
                    (true, _) => SERVICES[signal].to_string(),
                    (false, 0) => format!("/v1/{}", SIGNALS[signal]),
                    _ => "/own".to_string(),
                };
                expected.push(Arrival { collector: to, signal, grpc, path });
            }
        }
        let grafbase = *c.pick(&[None, Some(None), Some(Some(false)), Some(Some(true))]);
        if let Some(enabled) = grafbase {
            if let Some(enabled) = enabled {
                put(&mut table, &["grafbase", "enabled"], enabled);
            }
            put(&mut table, &["grafbase", "protocol"], "http");
            put(&mut table, &["grafbase", "endpoint"], text(&format!("http://127.0.0.1:{}", pool[4].port)));
            if enabled != Some(false) {
                for signal in 0..2 {
                    let path = format!("/v1/{}", SIGNALS[signal]);
                    expected.push(Arrival { collector: 4, signal, grpc: false, path });
                }
            }
        }
        if let Some(got) = sent(c, table, pool) {
            judge(c, &expected, &got);
            c.outcome(&expected.iter().map(|e| (e.collector, e.signal, e.grpc)).collect::<Vec<_>>());
        }
    })
}

const HEADERS: [(&str, &str, bool); 12] = [
    ("x-a", "1", true),
    ("X-Upper", "Value", true),
    ("x-b", "two words", true),
    ("x_c", "=;,\"", true),
    ("authorization", "Bearer a.b", true),
    ("x-empty", "", true),
    ("x-tab", "a\tb", true),
    ("x a", "1", false),
    ("", "1", false),
    ("x-newline", "a\nb", false),
    ("x-delete", "\x7f", false),
    ("x-bin", "1", false),
];

/// Headers in the global part, the local one or both, where those replace these.
fn headers(c: &mut Case) {
    collector::with(1, |pool| {
        let signal = c.choose(3);
        let section = SECTIONS[signal];
        let mut table = Table::new();
        put(&mut table, &["tracing", "sampling"], 1.0);
        put(&mut table, &["exporters", "otlp", "endpoint"], text(&format!("http://127.0.0.1:{}/x", pool[0].port)));
        put(&mut table, &[section, "exporters", "otlp", "enabled"], true);
        let grpc = c.flag();
        let kind = if grpc { "grpc" } else { "http" };
        put(&mut table, &["exporters", "otlp", "protocol"], kind);
        let mut own: Option<Vec<usize>> = None;
        let mut used: Option<Vec<usize>> = None;
        for (i, keys) in [&["exporters", "otlp", kind, "headers"][..], &[section, "exporters", "otlp", kind, "headers"]].into_iter().enumerate() {
            let count = c.choose(if i == 0 || c.thorough() { 4 } else { 3 });
            if count == 0 {
                continue;
            }
            let mut chosen = Vec::new();
            for _ in 1..count {
                let from = chosen.last().map(|l| l + 1).unwrap_or(0);
                if from == HEADERS.len() {
                    c.skip()
                }
                chosen.push(from + c.choose(HEADERS.len() - from));
            }
            put(&mut table, keys, Table::new());
            for h in &chosen {
                let (name, value, _) = HEADERS[*h];
                put(&mut table, &[keys, &[name]].concat(), text(value));
            }
            if i == 0 {
                own = Some(chosen.clone());
            }
            used = Some(chosen);
        }
        let _ = own;
        let used = used.unwrap_or_default();
        c.note(|| toml::to_string(&table).unwrap());
        let valid = used.iter().all(|h| HEADERS[*h].2);
        let built = match build(&config(table)) {
            Ok(built) => built,
            Err(e) => {
                c.check(!valid, "not-built", || e.to_string());
                c.outcome(&(grpc, "refused"));
                return;
            }
        };
        if let Err(e) = emit(built) {
            c.check(!valid, "not-sent", || e);
            return;
        }
        let got = arrived(pool);
        let [(_, export)] = &got[..] else {
            c.fail("one-export", format!("{} exports", got.len()));
            return;
        };
        for (i, (name, value, ok)) in HEADERS.iter().enumerate() {
            let name = name.to_lowercase();
            let found = export.headers.get(&name);
            if used.contains(&i) {
                if *ok {
                    c.check_eq("header", &Some(value.to_string()), &found.cloned(), &name);
                }
            } else {
                c.check(found.is_none(), "other-header", || format!("{name} was sent"));
            }
        }
        c.outcome(&(grpc, used.len(), valid));
    })
}

/// The resource all signals are of.
fn resources(c: &mut Case) {
    collector::with(1, |pool| {
        let mut table = Table::new();
        let grpc = c.flag();
        put(&mut table, &["tracing", "sampling"], 1.0);
        put(&mut table, &["exporters", "otlp", "enabled"], true);
        put(&mut table, &["exporters", "otlp", "protocol"], if grpc { "grpc" } else { "http" });
        put(&mut table, &["exporters", "otlp", "endpoint"], text(&format!("http://127.0.0.1:{}", pool[0].port)));
        let mut expected: BTreeMap<String, String> = BTreeMap::new();
        for key in ["a", "service.version", "service.name", "telemetry.sdk.name", ""] {
            let value = match c.choose(3) {
                0 => continue,
                1 => "1",
                _ => "another value",
            };
            put(&mut table, &["resource_attributes", key], text(value));
            // What no attribute can be called.
            if !key.is_empty() {
                expected.insert(key.to_string(), value.to_string());
            }
        }
        let name = *c.pick(&[None, Some("mine"), Some("mine é"), Some("")]);
        if let Some(name) = name {
            put(&mut table, &["service_name"], text(name));
        }
        expected.insert("service.name".to_string(), name.unwrap_or("grafbase-gateway").to_string());
        let Some(got) = sent(c, table, pool) else { return };
        let mut signals = BTreeSet::new();
        for (_, export) in &got {
            let content = match decode(export) {
                Ok(content) => content,
                Err(e) => return c.fail("unreadable", e),
            };
            signals.insert(content.signal());
            let resources = content.resources();
            c.check_eq("resources", &1, &resources.len(), "resources");
            for mut resource in resources {
                // What the SDK itself says.
                for own in ["telemetry.sdk.name", "telemetry.sdk.language", "telemetry.sdk.version", ""] {
                    if !expected.contains_key(own) {
                        resource.remove(own);
                    }
                }
                c.check_eq("resource", &expected, &resource, SIGNALS[content.signal()]);
            }
        }
        c.check_eq("signals", &BTreeSet::from([0, 1, 2]), &signals, "signals");
        c.outcome(&expected);
    })
}

/// Counts and exports in any order: what is exported is what was counted since.
fn counts(c: &mut Case) {
    collector::with(2, |pool| {
        let grpc = c.flag();
        let both = c.flag();
        let mut table = Table::new();
        put(&mut table, &["metrics", "exporters", "otlp", "enabled"], true);
        put(&mut table, &["exporters", "otlp", "protocol"], if grpc { "grpc" } else { "http" });
        put(&mut table, &["exporters", "otlp", "endpoint"], text(&format!("http://127.0.0.1:{}", pool[0].port)));
        put(&mut table, &["exporters", "otlp", "batch_export", "scheduled_delay"], text("1h"));
        if both {
            put(&mut table, &["grafbase", "endpoint"], text(&format!("http://127.0.0.1:{}", pool[1].port)));
            put(&mut table, &["grafbase", "batch_export", "scheduled_delay"], text("1h"));
        }
        let meters = match build(&config(table)) {
            Ok(built) => built.meter_provider.unwrap(),
            Err(e) => return c.fail("not-built", e.to_string()),
        };
        let meter = meters.meter("m");
        let counter = meter.u64_counter("counter").build();
        let histogram = meter.u64_histogram("histogram").build();
        let mut log = Vec::new();
        // Counter by attribute, then histogram.
        let mut pending: BTreeMap<&str, u64> = BTreeMap::new();
        let mut taken: Vec<u64> = Vec::new();
        let depth = if c.thorough() { 6 } else { 4 };
        for step in 0..depth {
            let op = if step + 1 == depth { 4 } else { c.choose(5) };
            match op {
                0 | 1 => {
                    let key = ["a", "b"][op];
                    log.push(format!("count {key}"));
                    counter.add(1 + op as u64, &[opentelemetry::KeyValue::new("k", key)]);
                    *pending.entry(key).or_default() += 1 + op as u64;
                }
                2 | 3 => {
                    let value = [1, 1000][op - 2];
                    log.push(format!("record {value}"));
                    histogram.record(value, &[]);
                    taken.push(value);
                }
                _ => {
                    log.push("export".to_string());
                    if let Err(e) = meters.force_flush() {
                        return c.fail("not-sent", format!("{log:?}: {e}"));
                    }
                    let got = arrived(&pool[..1 + both as usize]);
                    for at in 0..1 + both as usize {
                        let mut counts: BTreeMap<String, u64> = BTreeMap::new();
                        let mut records = Vec::new();
                        for (_, export) in got.iter().filter(|(i, _)| *i == at) {
                            let Ok(Content::Metrics(metrics)) = decode(export) else { continue };
                            for metric in metrics.resource_metrics.iter().flat_map(|r| &r.scope_metrics).flat_map(|s| &s.metrics) {
                                let delta = AggregationTemporality::Delta as i32;
                                match metric.data.as_ref() {
                                    Some(Data::Sum(sum)) => {
                                        c.check_eq("temporality", &delta, &sum.aggregation_temporality, "counter");
                                        for point in &sum.data_points {
                                            let Some(number_data_point::Value::AsInt(n)) = point.value else { continue };
                                            *counts.entry(attributes(&point.attributes)["k"].clone()).or_default() += n as u64;
                                        }
                                    }
                                    Some(Data::ExponentialHistogram(h)) => {
                                        c.check_eq("temporality", &delta, &h.aggregation_temporality, "histogram");
                                        for point in &h.data_points {
                                            records.push((point.count, point.sum.unwrap_or_default() as u64));
                                        }
                                    }
                                    other => c.fail("kind", format!("{}: {other:?}", metric.name)),
                                }
                            }
                        }
                        counts.retain(|_, n| *n > 0);
                        records.retain(|r| r.0 > 0);
                        let expected: BTreeMap<String, u64> = pending.iter().map(|(k, n)| (k.to_string(), *n)).collect();
                        let ctx = format!("collector {at} after {log:?}");
                        c.check_eq("counts", &expected, &counts, &ctx);
                        let expected: Vec<(u64, u64)> = match taken.len() {
                            0 => vec![],
                            n => vec![(n as u64, taken.iter().sum())],
                        };
                        c.check_eq("records", &expected, &records, &ctx);
                    }
                    c.outcome(&(&pending, &taken));
                    pending.clear();
                    taken.clear();
                }
            }
            c.steps(1);
        }
        let _ = meters.shutdown();
    })
}

/// As many spans and logs as batches and queues of these sizes take.
fn batches(c: &mut Case) {
    use opentelemetry::trace::{Span, Tracer, TracerProvider};
    use tracing_subscriber::layer::SubscriberExt;
    collector::with(1, |pool| {
        let logs = c.flag();
        let size = *c.pick(&[1usize, 2, 3, 7]);
        let queue = *c.pick(&[8usize, 16]);
        let count = c.choose(9);
        let section = if logs { "logs" } else { "tracing" };
        let local = c.flag();
        let mut table = Table::new();
        put(&mut table, &["tracing", "sampling"], 1.0);
        put(&mut table, &[section, "exporters", "otlp", "enabled"], true);
        put(&mut table, &[section, "exporters", "otlp", "protocol"], "http");
        put(&mut table, &[section, "exporters", "otlp", "endpoint"], text(&format!("http://127.0.0.1:{}/x", pool[0].port)));
        let local: &[&str] = if local { &[section, "exporters", "otlp", "batch_export"] } else { &["exporters", "otlp", "batch_export"] };
        put(&mut table, &[local, &["max_export_batch_size"]].concat(), size as i64);
        put(&mut table, &[local, &["max_queue_size"]].concat(), queue as i64);
        put(&mut table, &[local, &["scheduled_delay"]].concat(), text("1h"));
        c.note(|| format!("{count} of\n{}", toml::to_string(&table).unwrap()));
        let built = match build(&config(table)) {
            Ok(built) => built,
            Err(e) => return c.fail("not-built", e.to_string()),
        };
        let flushed = if logs {
            let Some(logger) = built.logger else { return c.fail("no-logger", "") };
            // Shut down before the layer does when dropped, which may be with locks of `tracing` held.
            let subscriber = tracing::Dispatch::new(tracing_subscriber::registry().with(logger.layer));
            tracing::dispatcher::with_default(&subscriber, || {
                for i in 0..count {
                    tracing::info!("{i}")
                }
            });
            let flushed = logger.provider.force_flush();
            let _ = logger.provider.shutdown();
            flushed
        } else {
            let Some(tracer) = built.tracer else { return c.fail("no-tracer", "") };
            let spans = tracer.provider.tracer("t");
            for i in 0..count {
                spans.start(i.to_string()).end();
            }
            let flushed = tracer.provider.force_flush();
            let _ = tracer.provider.shutdown();
            flushed
        };
        if let Err(e) = flushed {
            return c.fail("not-sent", e.to_string());
        }
        let mut names = Vec::new();
        for (_, export) in arrived(pool) {
            let mut of = Vec::new();
            match decode(&export) {
                Ok(Content::Logs(logs)) => {
                    for record in logs.resource_logs.iter().flat_map(|r| &r.scope_logs).flat_map(|s| &s.log_records) {
                        of.push(value(&record.body));
                    }
                }
                Ok(content) => of.extend(content.spans().iter().map(|s| s.name.clone())),
                Err(e) => c.fail("unreadable", e),
            }
            c.check(of.len() <= size, "batch-size", || format!("{} at once where {size} may be", of.len()));
            names.extend(of);
        }
        names.sort();
        let exported = names.len();
        let expected: Vec<String> = (0..count).map(|i| i.to_string()).collect();
        if count < size {
            c.check_eq("all-exported", &expected, &names, "spans or logs exported");
        } else {
            // The processor of spans may lose some of those that end while it exports a batch.
            names.dedup();
            let other: Vec<_> = names.iter().filter(|n| !expected.contains(n)).collect();
            c.check(other.is_empty(), "other", || format!("{other:?} exported"));
            c.check(names.len() == exported, "twice", || format!("{exported} exported, {} different ones", names.len()));
        }
        c.outcome(&(logs, size, count));
    })
}

pub fn run(check: &Check) {
    check.space("endpoints", endpoints);
    check.space_seq("default-endpoints", defaults);
    check.space("switches", switches);
    check.space("headers", headers);
    check.space("resources", resources);
    check.space("counts", counts);
    check.space("batches", batches);
}
