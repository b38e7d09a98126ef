//! What of a trace is kept: the limits on spans and the sampler.
use crate::{
    collector::{self, Collector},
    otlp::*,
};
use grafbase_telemetry::otel::layer::OtelTelemetry;
use opentelemetry::{
    Context, KeyValue, SpanId, TraceFlags, TraceId,
    trace::{Link, Span, SpanContext, TraceContextExt, TraceState, Tracer, TracerProvider},
};
use opentelemetry_proto::tonic::trace::v1 as proto;
use std::{collections::BTreeSet, sync::Arc};
use toml::Table;
use tracing_opentelemetry::OpenTelemetrySpanExt;
use tracing_subscriber::{Registry, layer::SubscriberExt};
use vmc::{Case, Check};

const LIMITS: [&str; 5] = [
    "max_attributes_per_span",
    "max_events_per_span",
    "max_links_per_span",
    "max_attributes_per_event",
    "max_attributes_per_link",
];

fn base(pool: &[Arc<Collector>]) -> Table {
    let mut table = Table::new();
    put(&mut table, &["tracing", "sampling"], 1.0);
    put(&mut table, &["tracing", "exporters", "otlp", "enabled"], true);
    put(&mut table, &["tracing", "exporters", "otlp", "protocol"], "http");
    put(&mut table, &["tracing", "exporters", "otlp", "endpoint"], text(&format!("http://127.0.0.1:{}/", pool[0].port)));
    table
}

fn built(c: &mut Case, table: Table, ids: Fixed) -> Option<OtelTelemetry<Registry>> {
    match build_with(&config(table), ids) {
        Ok(built) if built.tracer.is_some() => Some(built),
        Ok(_) => {
            c.fail("no-tracer", "");
            None
        }
        Err(e) => {
            c.fail("not-built", e.to_string());
            None
        }
    }
}

fn spans(c: &mut Case, pool: &[Arc<Collector>]) -> Vec<proto::Span> {
    let mut out = Vec::new();
    for (_, export) in arrived(pool) {
        match decode(&export) {
            Ok(content) => out.extend(content.spans()),
            Err(e) => c.fail("unreadable", e),
        }
    }
    out
}

fn many(n: usize) -> Vec<KeyValue> {
    (0..n).map(|i| KeyValue::new(format!("k{i}"), i as i64)).collect()
}

fn names(attributes: &[opentelemetry_proto::tonic::common::v1::KeyValue]) -> Vec<String> {
    attributes.iter().map(|a| a.key.clone()).collect()
}

/// Exports a span with so many of everything, and compares with what the limits leave.
fn limited(c: &mut Case, limits: [Option<u64>; 5], sizes: [usize; 5]) {
    collector::with(1, |pool| {
        let mut table = base(pool);
        for (key, limit) in LIMITS.iter().zip(limits) {
            if let Some(limit) = limit {
                put(&mut table, &["tracing", "collect", key], limit as i64);
            }
        }
        let Some(OtelTelemetry { tracer: Some(tracer), .. }) = built(c, table, Fixed::new(1)) else { return };
        let [attributes, events, links, of_event, of_link] = sizes;
        let linked = |i: usize| SpanContext::new(TraceId::from(7), SpanId::from(i as u64 + 1), TraceFlags::SAMPLED, true, TraceState::default());
        let from = tracer.provider.tracer("t");
        let at_start = links / 2;
        let mut span = from
            .span_builder("a span")
            .with_attributes(many(attributes / 2))
            .with_links((0..at_start).map(|i| Link::new(linked(i), many(of_link), 0)).collect())
            .start(&from);
        for attribute in many(attributes).into_iter().skip(attributes / 2) {
            span.set_attribute(attribute);
        }
        for i in 0..events {
            span.add_event(format!("e{i}"), many(of_event));
        }
        for i in at_start..links {
            span.add_link(linked(i), many(of_link));
        }
        span.end();
        if let Err(e) = tracer.provider.force_flush() {
            return c.fail("not-sent", e.to_string());
        }
        let _ = tracer.provider.shutdown();
        let got = spans(c, pool);
        let [got] = &got[..] else { return c.fail("one-span", format!("{} spans", got.len())) };
        let limit = |i: usize| limits[i].unwrap_or(128).min(1 << 20) as usize;
        let kept = |n: usize, i: usize| n.min(limit(i));
        let keys = |n: usize| many(n).iter().map(|a| a.key.to_string()).collect::<Vec<_>>();
        c.check_eq("span-attributes", &keys(kept(attributes, 0)), &names(&got.attributes), "attributes of the span");
        c.check_eq("span-attributes-dropped", &(attributes - kept(attributes, 0)), &(got.dropped_attributes_count as usize), "attributes left out");
        let expected: Vec<String> = (0..kept(events, 1)).map(|i| format!("e{i}")).collect();
        c.check_eq("events", &expected, &got.events.iter().map(|e| e.name.clone()).collect::<Vec<_>>(), "events");
        c.check_eq("events-dropped", &(events - kept(events, 1)), &(got.dropped_events_count as usize), "events left out");
        for event in &got.events {
            c.check_eq("event-attributes", &keys(kept(of_event, 3)), &names(&event.attributes), "attributes of an event");
            let dropped = of_event - kept(of_event, 3);
            c.check_eq("event-attributes-dropped", &dropped, &(event.dropped_attributes_count as usize), "attributes of an event left out");
        }
        let expected: Vec<u64> = (0..kept(links, 2)).map(|i| i as u64 + 1).collect();
        let found: Vec<u64> = got.links.iter().map(|l| u64::from_be_bytes(l.span_id.clone().try_into().unwrap_or_default())).collect();
        c.check_eq("links", &expected, &found, "links");
        c.check_eq("links-dropped", &(links - kept(links, 2)), &(got.dropped_links_count as usize), "links left out");
        for link in &got.links {
            c.check_eq("link-attributes", &keys(kept(of_link, 4)), &names(&link.attributes), "attributes of a link");
            let dropped = of_link - kept(of_link, 4);
            c.check_eq("link-attributes-dropped", &dropped, &(link.dropped_attributes_count as usize), "attributes of a link left out");
        }
        c.outcome(&(got.attributes.len(), got.events.len(), got.links.len()));
    })
}

/// Every combination of small limits.
fn small_limits(c: &mut Case) {
    let top = if c.thorough() { 5 } else { 4 };
    let mut limits = [None; 5];
    for limit in &mut limits {
        *limit = match c.choose(top) {
            0 => None,
            n => Some(n as u64 - 1),
        };
    }
    let size = *c.pick(&[2usize, 3, 4]);
    c.note(|| format!("{size} of everything; {:?}", LIMITS.iter().zip(limits).collect::<Vec<_>>()));
    limited(c, limits, [size; 5]);
}

/// One limit, and as many as it leaves, or one less or more.
fn one_limit(c: &mut Case) {
    let which = c.choose(5);
    let limit = *c.pick(&[None, Some(0u64), Some(1), Some(2), Some(127), Some(128), Some(129), Some(200), Some(u32::MAX as u64), Some(1 << 32), Some((1 << 32) + 1)]);
    let near = limit.unwrap_or(128);
    let size = if near > 1000 { 130 } else { near as usize };
    let size = match c.choose(4) {
        0 => 0,
        1 => size.saturating_sub(1),
        2 => size,
        _ => size + 1,
    };
    let mut limits = [None; 5];
    limits[which] = limit;
    let mut sizes = [1; 5];
    sizes[which] = size;
    c.note(|| format!("{} = {limit:?}, {size}", LIMITS[which]));
    limited(c, limits, sizes);
}

/// Spans made by `tracing`: the limits hold for all that is recorded then, too.
fn recorded(c: &mut Case) {
    collector::with(1, |pool| {
        let mut table = base(pool);
        let attributes = c.choose(8);
        let events = c.choose(4);
        let of_event = c.choose(4);
        put(&mut table, &["tracing", "collect", "max_attributes_per_span"], attributes as i64);
        put(&mut table, &["tracing", "collect", "max_events_per_span"], events as i64);
        put(&mut table, &["tracing", "collect", "max_attributes_per_event"], of_event as i64);
        let Some(OtelTelemetry { tracer: Some(tracer), .. }) = built(c, table, Fixed::new(1)) else { return };
        let subscriber = tracing_subscriber::registry().with(tracer.layer);
        tracing::subscriber::with_default(subscriber, || {
            let span = tracing::info_span!("s", a = 1, b = 2, c = 3).entered();
            for i in 0..3 {
                tracing::info!(x = i, y = 2, z = 3, "event");
            }
            drop(span);
        });
        let _ = tracer.provider.force_flush();
        let _ = tracer.provider.shutdown();
        let got = spans(c, pool);
        let [got] = &got[..] else { return c.fail("one-span", format!("{} spans", got.len())) };
        c.check(got.attributes.len() <= attributes, "span-attributes", || format!("{} of {attributes}", got.attributes.len()));
        c.check_eq("events", &events.min(3), &got.events.len(), "events");
        for event in &got.events {
            c.check(event.attributes.len() <= of_event, "event-attributes", || format!("{} of {of_event}", event.attributes.len()));
        }
        c.outcome(&(got.attributes.len(), got.events.len()));
    })
}

const RATIOS: [Option<f64>; 9] = [None, Some(0.0), Some(1e-18), Some(0.1), Some(0.25), Some(0.5), Some(0.75), Some(0.999), Some(1.0)];

/// The sampler by the ratio, the trace id and who is above.
fn sampling(c: &mut Case) {
    collector::with(1, |pool| {
        let ratio = *c.pick(&RATIOS);
        let parent_based = *c.pick(&[None, Some(false), Some(true)]);
        let r = ratio.unwrap_or(0.15);
        // Ids are compared without their last bit.
        let bound = (r * (1u64 << 63) as f64) as u64;
        let low = match c.choose(5) {
            0 => 1,
            1 => (bound.saturating_sub(1)) << 1 | 1,
            2 => bound.min((1 << 63) - 1) << 1,
            3 => (bound.min((1 << 63) - 1) << 1) | 1,
            _ => u64::MAX,
        };
        let high = *c.pick(&[0u64, u64::MAX]);
        let id = (high as u128) << 64 | low as u128;
        if id == 0 {
            c.skip()
        }
        let above = *c.pick(&[None, Some(false), Some(true)]);
        let by_layer = c.flag();
        let mut table = base(pool);
        table["tracing"].as_table_mut().unwrap().remove("sampling");
        if let Some(ratio) = ratio {
            put(&mut table, &["tracing", "sampling"], ratio);
        }
        if let Some(p) = parent_based {
            put(&mut table, &["tracing", "parent_based_sampler"], p);
        }
        c.note(|| format!("ratio {ratio:?}, trace {id:032x}, parent based {parent_based:?}, parent sampled {above:?}, by a layer {by_layer}"));
        let Some(OtelTelemetry { tracer: Some(tracer), .. }) = built(c, table, Fixed::new(id)) else { return };
        let mut context = Context::new();
        if let Some(sampled) = above {
            let flags = if sampled { TraceFlags::SAMPLED } else { TraceFlags::default() };
            context = context.with_remote_span_context(SpanContext::new(TraceId::from(id), SpanId::from(0xf00), flags, true, TraceState::default()));
        }
        if by_layer {
            let subscriber = tracing_subscriber::registry().with(tracer.layer);
            tracing::subscriber::with_default(subscriber, || {
                let root = tracing::info_span!("root");
                if above.is_some() {
                    root.set_parent(context);
                }
                let root = root.entered();
                let child = tracing::info_span!("child").entered();
                drop(child);
                drop(root);
            });
        } else {
            let from = tracer.provider.tracer("t");
            let root = from.start_with_context("root", &context);
            let context = context.with_span(root);
            let mut child = from.start_with_context("child", &context);
            child.end();
            context.span().end();
        }
        let _ = tracer.provider.force_flush();
        let _ = tracer.provider.shutdown();
        let got: BTreeSet<(String, Vec<u8>, Vec<u8>)> =
            spans(c, pool).into_iter().map(|s| (s.name, s.trace_id, s.parent_span_id)).collect();
        let by_ratio = r >= 1.0 || (low >> 1) < bound;
        let sampled = match (parent_based, above) {
            (Some(true), Some(sampled)) => sampled,
            _ => by_ratio,
        };
        let trace = id.to_be_bytes().to_vec();
        let mut expected = BTreeSet::new();
        if sampled {
            let parent = if above.is_some() { 0xf00u64.to_be_bytes().to_vec() } else { vec![] };
            expected.insert(("root".to_string(), trace.clone(), parent));
            expected.insert(("child".to_string(), trace, 1u64.to_be_bytes().to_vec()));
        }
        c.check_eq("sampled", &expected, &got, "spans exported: name, trace, parent");
        c.outcome(&(sampled, above, parent_based, low > bound));
    })
}

pub fn run(check: &Check) {
    check.space("small-limits", small_limits);
    check.space("one-limit", one_limit);
    check.space("recorded", recorded);
    check.space("sampling", sampling);
}
