//! What the exporters send, read back.
use crate::collector::{self, Collector, Export};
use grafbase_telemetry::{config::TelemetryConfig, error::TracingError, otel::layer::OtelTelemetry};
use opentelemetry::{
    SpanId, TraceId,
    metrics::MeterProvider,
    trace::{Span, Tracer, TracerProvider},
};
use opentelemetry_proto::tonic::{
    collector::{
        logs::v1::ExportLogsServiceRequest, metrics::v1::ExportMetricsServiceRequest, trace::v1::ExportTraceServiceRequest,
    },
    common::v1::{AnyValue, KeyValue, any_value},
    resource::v1::Resource,
};
use opentelemetry_sdk::trace::{IdGenerator, RandomIdGenerator};
use prost::Message;
use std::{collections::BTreeMap, sync::Arc};
use tracing_subscriber::{Registry, layer::SubscriberExt};

pub const SIGNALS: [&str; 3] = ["traces", "metrics", "logs"];
pub const SECTIONS: [&str; 3] = ["tracing", "metrics", "logs"];
pub const SERVICES: [&str; 3] = [
    "/opentelemetry.proto.collector.trace.v1.TraceService/Export",
    "/opentelemetry.proto.collector.metrics.v1.MetricsService/Export",
    "/opentelemetry.proto.collector.logs.v1.LogsService/Export",
];

pub fn config(table: toml::Table) -> TelemetryConfig {
    toml::Value::Table(table).try_into().expect("a valid configuration")
}

pub fn text(s: &str) -> toml::Value {
    toml::Value::String(s.to_string())
}

/// Puts a value at a path of keys.
pub fn put(table: &mut toml::Table, path: &[&str], value: impl Into<toml::Value>) {
    let (last, tables) = path.split_last().unwrap();
    let mut at = table;
    for key in tables {
        at = at
            .entry(key.to_string())
            .or_insert_with(|| toml::Value::Table(Default::default()))
            .as_table_mut()
            .unwrap();
    }
    at.insert(last.to_string(), value.into());
}

pub fn build(config: &TelemetryConfig) -> Result<OtelTelemetry<Registry>, TracingError> {
    build_with(config, RandomIdGenerator::default())
}

pub fn build_with(
    config: &TelemetryConfig,
    ids: impl IdGenerator + 'static,
) -> Result<OtelTelemetry<Registry>, TracingError> {
    let _guard = collector::runtime().enter();
    grafbase_telemetry::otel::layer::build(config, ids)
}

/// One span, one count and one log, all pushed out.
pub fn emit(built: OtelTelemetry<Registry>) -> Result<(), String> {
    let OtelTelemetry { tracer, meter_provider, logger } = built;
    if let Some(tracer) = tracer {
        tracer.provider.tracer("t").start("a span").end();
        tracer.provider.force_flush().map_err(|e| format!("traces: {e}"))?;
        let _ = tracer.provider.shutdown();
    }
    if let Some(meters) = meter_provider {
        meters.meter("m").u64_counter("a_count").build().add(1, &[]);
        meters.force_flush().map_err(|e| format!("metrics: {e}"))?;
        let _ = meters.shutdown();
    }
    if let Some(logger) = logger {
        // Shut down before the layer does when dropped, which may be with locks of `tracing` held.
        let subscriber = tracing::Dispatch::new(tracing_subscriber::registry().with(logger.layer));
        tracing::dispatcher::with_default(&subscriber, || tracing::info!("a log"));
        let flushed = logger.provider.force_flush().map_err(|e| format!("logs: {e}"));
        let _ = logger.provider.shutdown();
        drop(subscriber);
        flushed?;
    }
    Ok(())
}

#[derive(Clone, Debug)]
pub enum Content {
    Traces(ExportTraceServiceRequest),
    Metrics(ExportMetricsServiceRequest),
    Logs(ExportLogsServiceRequest),
}

pub fn decode(export: &Export) -> Result<Content, String> {
    let signal = if export.grpc {
        SERVICES.iter().position(|s| *s == export.path).ok_or_else(|| format!("no such service: {}", export.path))?
    } else {
        // A request of one signal may be read as one of another: they tell by what is within.
        let traces = ExportTraceServiceRequest::decode(&export.message[..]).ok();
        let metrics = ExportMetricsServiceRequest::decode(&export.message[..]).ok();
        if traces.is_some_and(|t| t.resource_spans.iter().flat_map(|r| &r.scope_spans).any(|s| s.spans.iter().any(|s| s.trace_id.len() == 16))) {
            0
        } else if metrics.is_some_and(|m| m.resource_metrics.iter().flat_map(|r| &r.scope_metrics).any(|s| s.metrics.iter().any(|m| m.data.is_some()))) {
            1
        } else {
            2
        }
    };
    let bytes = &export.message[..];
    Ok(match signal {
        0 => Content::Traces(ExportTraceServiceRequest::decode(bytes).map_err(|e| e.to_string())?),
        1 => Content::Metrics(ExportMetricsServiceRequest::decode(bytes).map_err(|e| e.to_string())?),
        _ => Content::Logs(ExportLogsServiceRequest::decode(bytes).map_err(|e| e.to_string())?),
    })
}

impl Content {
    pub fn signal(&self) -> usize {
        match self {
            Content::Traces(_) => 0,
            Content::Metrics(_) => 1,
            Content::Logs(_) => 2,
        }
    }
    pub fn resources(&self) -> Vec<BTreeMap<String, String>> {
        let one = |r: &Option<Resource>| r.as_ref().map(|r| attributes(&r.attributes)).unwrap_or_default();
        match self {
            Content::Traces(t) => t.resource_spans.iter().map(|r| one(&r.resource)).collect(),
            Content::Metrics(t) => t.resource_metrics.iter().map(|r| one(&r.resource)).collect(),
            Content::Logs(t) => t.resource_logs.iter().map(|r| one(&r.resource)).collect(),
        }
    }
    pub fn spans(&self) -> Vec<opentelemetry_proto::tonic::trace::v1::Span> {
        match self {
            Content::Traces(t) => {
                t.resource_spans.iter().flat_map(|r| &r.scope_spans).flat_map(|s| s.spans.iter().cloned()).collect()
            }
            _ => vec![],
        }
    }
}

pub fn value(value: &Option<AnyValue>) -> String {
    match value.as_ref().and_then(|v| v.value.as_ref()) {
        Some(any_value::Value::StringValue(s)) => s.clone(),
        other => format!("{other:?}"),
    }
}

pub fn attributes(attributes: &[KeyValue]) -> BTreeMap<String, String> {
    attributes.iter().map(|a| (a.key.clone(), value(&a.value))).collect()
}

pub fn arrived(pool: &[Arc<Collector>]) -> Vec<(usize, Export)> {
    pool.iter().enumerate().flat_map(|(i, c)| c.take().into_iter().map(move |e| (i, e))).collect()
}

/// Always the same trace id; span ids counted up.
#[derive(Debug)]
pub struct Fixed(pub TraceId, pub std::sync::atomic::AtomicU64);

impl Fixed {
    pub fn new(trace: u128) -> Self {
        Fixed(TraceId::from(trace), Default::default())
    }
}

impl IdGenerator for Fixed {
    fn new_trace_id(&self) -> TraceId {
        self.0
    }
    fn new_span_id(&self) -> SpanId {
        SpanId::from(self.1.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1)
    }
}
