//! What is recorded of requests and responses: statuses, span attributes, metrics.
use crate::{
    collector,
    otlp::{self, Content},
};
use grafbase_telemetry::{
    grafbase_client::Client,
    graphql::{
        GraphqlExecutionTelemetry, GraphqlOperationAttributes, GraphqlResponseStatus as Status, OperationName, OperationType,
        SubgraphResponseStatus,
    },
    metrics::*,
    span::{
        CacheRecorderSpanExt, ResolverInvocationRecorderSpanExt,
        cache::CacheSpan,
        graphql::GraphqlOperationSpan,
        http_request::HttpRequestSpanBuilder,
        resolver::ResolverInvocationSpan,
        subgraph::{SubgraphHttpRequestSpan, SubgraphRequestSpanBuilder},
    },
};
use http::{HeaderValue, StatusCode};
use http_body_util::Full;
use opentelemetry_proto::tonic::metrics::v1::{metric::Data, number_data_point};
use std::{
    borrow::Cow,
    collections::BTreeMap,
    fmt,
    sync::{Arc, Mutex},
    time::Duration,
};
use toml::Table;
use tracing::field::{Field, Visit};
use tracing_subscriber::{Layer, layer::SubscriberExt};
use vmc::{Case, Check};

// ------------------------------------------------------------------ statuses

fn statuses() -> Vec<Status> {
    let mut out = vec![Status::Success, Status::RefusedRequest];
    for count in [0, 1, 3] {
        out.push(Status::FieldError { count, data_is_null: false });
        out.push(Status::FieldError { count, data_is_null: true });
        out.push(Status::RequestError { count });
    }
    out
}

/// How bad, with what is known of field errors.
fn kind(status: Status) -> (u8, Option<(u64, bool)>, &'static str) {
    match status {
        Status::Success => (0, None, "SUCCESS"),
        Status::FieldError { count, data_is_null: false } => (1, Some((count, false)), "FIELD_ERROR"),
        Status::FieldError { count, data_is_null: true } => (1, Some((count, true)), "FIELD_ERROR_NULL_DATA"),
        Status::RequestError { .. } => (2, None, "REQUEST_ERROR"),
        Status::RefusedRequest => (3, None, "REFUSED_REQUEST"),
    }
}

/// The status of a stream of responses, whichever way it is put together.
fn combined(c: &mut Case) {
    let pool = statuses();
    let count = 1 + c.choose(if c.thorough() { 5 } else { 4 });
    let parts: Vec<Status> = (0..count).map(|_| *c.pick(&pool)).collect();
    let from_left = parts[1..].iter().fold(parts[0], |a, b| a.union(*b));
    let from_right = parts[..count - 1].iter().rev().fold(parts[count - 1], |a, b| b.union(a));
    let worst = parts.iter().map(|s| kind(*s).0).max().unwrap();
    let errors = parts.iter().filter_map(|s| kind(*s).1).fold((0, false), |a, b| (a.0 + b.0, a.1 || b.1));
    let expected = (worst, (worst == 1).then_some(errors));
    c.note(|| format!("{parts:?}"));
    for (way, got) in [("left", from_left), ("right", from_right)] {
        let (bad, fields, name) = kind(got);
        c.check_eq("combined", &expected, &(bad, fields), &format!("{parts:?} combined from the {way}"));
        c.check_eq("name", &name, &got.as_str(), "name of the status");
        c.check_eq("is-success", &(worst == 0), &got.is_success(), "success");
        c.check_eq("is-request-error", &(worst == 2), &got.is_request_error(), "request error");
        let subgraph = SubgraphResponseStatus::WellFormedGraphqlResponse(got);
        c.check_eq("subgraph-name", &name, &subgraph.as_str(), "name of the status of a subgraph");
    }
    c.outcome(&expected);
}

// ------------------------------------------------------------------ spans

type Recorded = BTreeMap<String, String>;

#[derive(Clone, Default)]
struct Spans(Arc<Mutex<BTreeMap<u64, (String, Recorded)>>>);

struct Into_<'a>(&'a mut Recorded);

impl Visit for Into_<'_> {
    fn record_debug(&mut self, field: &Field, value: &dyn fmt::Debug) {
        self.0.insert(field.name().to_string(), format!("{value:?}"));
    }
    fn record_str(&mut self, field: &Field, value: &str) {
        self.0.insert(field.name().to_string(), value.to_string());
    }
}

impl<S: tracing::Subscriber> Layer<S> for Spans {
    fn on_new_span(&self, attributes: &tracing::span::Attributes<'_>, id: &tracing::Id, _: tracing_subscriber::layer::Context<'_, S>) {
        let mut recorded = Recorded::new();
        attributes.record(&mut Into_(&mut recorded));
        self.0.lock().unwrap().insert(id.into_u64(), (attributes.metadata().name().to_string(), recorded));
    }
    fn on_record(&self, id: &tracing::Id, record: &tracing::span::Record<'_>, _: tracing_subscriber::layer::Context<'_, S>) {
        let mut spans = self.0.lock().unwrap();
        record.record(&mut Into_(&mut spans.get_mut(&id.into_u64()).unwrap().1));
    }
}

/// What the one span made is left with.
fn recorded(make: impl FnOnce() -> tracing::Span) -> (String, Recorded) {
    let spans = Spans::default();
    let subscriber = tracing_subscriber::registry().with(spans.clone());
    let _kept = tracing::subscriber::with_default(subscriber, make);
    let mut spans = spans.0.lock().unwrap();
    let (_, span) = spans.pop_first().expect("a span");
    span
}

fn judge(c: &mut Case, name: &str, expected: Vec<(&str, String)>, got: (String, Recorded)) {
    c.check_eq("span-name", &name.to_string(), &got.0, "span");
    let expected: Recorded = expected.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    c.check_eq("span-attributes", &expected, &got.1, name);
    c.outcome(&got.1);
}

fn operation(c: &mut Case) -> GraphqlOperationAttributes {
    GraphqlOperationAttributes {
        ty: *c.pick(&[OperationType::Query, OperationType::Mutation, OperationType::Subscription]),
        name: c.pick(&[OperationName::Original("Mine".into()), OperationName::Computed("computed".into()), OperationName::Unknown]).clone(),
        sanitized_query: Arc::from(*c.pick(&["query { a }", ""])),
        complexity_cost: *c.pick(&[None, Some(0), Some(7)]),
    }
}

fn ty(ty: OperationType) -> &'static str {
    match ty {
        OperationType::Query => "query",
        OperationType::Mutation => "mutation",
        OperationType::Subscription => "subscription",
    }
}

const CODES: [&[(&str, u16)]; 4] = [&[], &[("A", 1)], &[("A", 2), ("B", 1)], &[("B", 40000), ("A", 40000)]];

fn codes(codes: &[(&str, u16)]) -> String {
    codes.iter().map(|(c, n)| format!("{c}:{n}")).collect::<Vec<_>>().join(",")
}

/// The attributes a response leaves.
fn of_response(status: Status) -> Vec<(&'static str, String)> {
    let mut out = Vec::new();
    match status {
        Status::Success => out.push(("graphql.response.data.is_present", "true".into())),
        Status::FieldError { count, data_is_null } => {
            out.push(("graphql.response.data.is_present", "true".into()));
            out.push(("graphql.response.errors.count", count.to_string()));
            if data_is_null {
                out.push(("graphql.response.data.is_null", "true".into()));
            }
        }
        Status::RequestError { count } => out.push(("graphql.response.errors.count", count.to_string())),
        Status::RefusedRequest => {}
    }
    out
}

fn operation_span(c: &mut Case) {
    let known = c.flag();
    let operation = operation(c);
    let answered = c.flag();
    let status = *c.pick(&statuses());
    let by_code = *c.pick(&CODES);
    c.note(|| format!("{operation:?} {status:?} {by_code:?}"));
    let got = recorded(|| {
        let span = GraphqlOperationSpan::default();
        if known {
            span.record_operation(&operation);
        }
        if answered {
            span.record_response(status, by_code);
        }
        span.span
    });
    let mut expected = vec![("grafbase.kind", "graphql-operation".to_string()), ("otel.kind", "Server".to_string())];
    if known {
        match &operation.name {
            OperationName::Original(name) => {
                expected.push(("graphql.operation.name", name.clone()));
                expected.push(("otel.name", name.clone()));
            }
            OperationName::Computed(name) => {
                expected.push(("grafbase.operation.computed_name", name.clone()));
                expected.push(("otel.name", name.clone()));
            }
            OperationName::Unknown => {}
        }
        expected.push(("graphql.operation.document", operation.sanitized_query.to_string()));
        expected.push(("graphql.operation.type", ty(operation.ty).to_string()));
        expected.extend(operation.complexity_cost.map(|n| ("graphql.operation.complexity", n.to_string())));
    }
    if answered {
        expected.extend(of_response(status));
        expected.push(("graphql.response.errors.count_by_code", codes(by_code)));
    }
    judge(c, "graphql", expected, got);
}

/// Values of a header, and whether they can be shown.
fn header_values() -> Vec<Option<(HeaderValue, Option<&'static str>)>> {
    vec![
        None,
        Some((HeaderValue::from_static("a b"), Some("a b"))),
        Some((HeaderValue::from_static(""), Some(""))),
        Some((HeaderValue::from_bytes(&[0xff, b'a']).unwrap(), None)),
    ]
}

fn http_request(c: &mut Case) {
    let headers = header_values();
    let method = c.pick(&[http::Method::GET, http::Method::POST]).clone();
    let (uri, path, scheme) = *c.pick(&[("/graphql", "/graphql", None), ("https://h:1/a/b?c=d", "/a/b", Some("https")), ("*", "*", None)]);
    let size = *c.pick(&[0usize, 12]);
    let mut request = http::Request::builder().method(method.clone()).uri(uri).body(Full::new(bytes::Bytes::from(vec![0; size]))).unwrap();
    let mut expected = vec![
        ("grafbase.kind", "http-request".to_string()),
        ("otel.kind", "Server".to_string()),
        ("otel.name", format!("{method} {path}")),
        ("url.path", path.to_string()),
        ("http.request.body.size", size.to_string()),
        ("http.request.method", method.to_string()),
    ];
    expected.extend(scheme.map(|s| ("url.scheme", s.to_string())));
    let mut shown = BTreeMap::new();
    for name in ["host", "user-agent", "x-forwarded-for", "x-grafbase-client-name", "x-grafbase-client-version"] {
        if let Some((value, text)) = c.pick(&headers) {
            request.headers_mut().insert(name, value.clone());
            shown.extend(text.map(|t| (name, t.to_string())));
        }
    }
    // A version is that of a client with a name.
    if !shown.contains_key("x-grafbase-client-name") {
        shown.remove("x-grafbase-client-version");
    }
    for (name, attribute) in [
        ("host", "server.address"),
        ("user-agent", "user_agent.original"),
        ("x-forwarded-for", "http.request.header.x-forwarded-for"),
        ("x-grafbase-client-name", "http.request.header.x-grafbase-client-name"),
        ("x-grafbase-client-version", "http.request.header.x-grafbase-client-version"),
    ] {
        expected.extend(shown.get(name).map(|v| (attribute, v.clone())));
    }
    let client = Client::extract_from(request.headers()).map(|c| (c.name, c.version));
    let of_headers = shown.get("x-grafbase-client-name").map(|n| (n.clone(), shown.get("x-grafbase-client-version").cloned()));
    c.check_eq("client", &of_headers, &client, "client by its headers");
    c.note(|| format!("{request:?}"));
    let got = recorded(|| HttpRequestSpanBuilder::from_http(&request).build().span);
    judge(c, "http-request", expected, got);
}

fn http_response(c: &mut Case) {
    let code = 100 + c.choose(500) as u16;
    let status = StatusCode::from_u16(code).unwrap();
    let ray = c.pick(&[None, Some("ray"), ]).map(HeaderValue::from_static);
    let what = c.choose(4);
    let by_code = *c.pick(&CODES);
    let operations: Vec<(OperationType, OperationName)> = match c.choose(3) {
        0 => vec![],
        1 => vec![(OperationType::Mutation, OperationName::Original("a".into()))],
        _ => vec![
            (OperationType::Query, OperationName::Computed("b".into())),
            (OperationType::Subscription, OperationName::Unknown),
            (OperationType::Query, OperationName::Original("c".into())),
        ],
    };
    let names = operations.iter().map(|o| match &o.1 {
        OperationName::Original(n) | OperationName::Computed(n) => n.as_str(),
        OperationName::Unknown => "",
    });
    let names = names.collect::<Vec<_>>().join(",");
    let types = operations.iter().map(|o| ty(o.0)).collect::<Vec<_>>().join(",");
    let telemetry = GraphqlExecutionTelemetry { operations, errors_count_by_code: by_code.to_vec() };
    let errors: u64 = by_code.iter().map(|(_, n)| *n as u64).sum();
    c.check_eq("errors-count", &errors, &telemetry.errors_count(), "errors");
    c.note(|| format!("{status} {telemetry:?} {what}"));
    let request = http::Request::new(Full::new(bytes::Bytes::new()));
    let got = recorded(|| {
        let builder = HttpRequestSpanBuilder::from_http(&request);
        let span = builder.with_ray_id(ray.as_ref().map(Cow::Borrowed)).build();
        match what {
            0 => span.record_response(&http::Response::builder().status(status).body(Full::new(bytes::Bytes::from_static(b"abc"))).unwrap()),
            1 => span.record_graphql_execution_telemetry(&telemetry),
            2 => span.record_internal_server_error(),
            _ => span.record_status_code(status),
        }
        span.span
    });
    let mut expected = vec![
        ("grafbase.kind", "http-request".to_string()),
        ("otel.kind", "Server".to_string()),
        ("otel.name", "GET /".to_string()),
        ("url.path", "/".to_string()),
        ("http.request.body.size", "0".to_string()),
        ("http.request.method", "GET".to_string()),
    ];
    expected.extend(ray.map(|r| ("http.response.header.ray_id", r.to_str().unwrap().to_string())));
    match what {
        0 => {
            expected.push(("http.response.status_code", code.to_string()));
            expected.push(("http.response.body.size", "3".to_string()));
            expected.push(("otel.status_code", if code >= 500 { "Error" } else { "Ok" }.to_string()));
            if code >= 500 {
                expected.push(("error.type", code.to_string()));
            }
        }
        1 => {
            expected.push(("graphql.operations.name", names));
            expected.push(("graphql.operations.type", types));
            expected.push(("graphql.response.errors.count", errors.to_string()));
            expected.push(("graphql.response.errors.count_by_code", codes(by_code)));
        }
        2 => {
            for (key, value) in [("otel.status_code", "Error"), ("error.type", "500"), ("http.response.status_code", "500")] {
                expected.push((key, value.to_string()));
            }
        }
        _ => expected.push(("http.response.status_code", code.to_string())),
    }
    judge(c, "http-request", expected, got);
}

fn subgraph_spans(c: &mut Case) {
    if c.flag() {
        let pool: Vec<SubgraphResponseStatus> = [SubgraphResponseStatus::HookError, SubgraphResponseStatus::HttpError, SubgraphResponseStatus::InvalidGraphqlResponseError]
            .into_iter()
            .chain(statuses().into_iter().map(SubgraphResponseStatus::WellFormedGraphqlResponse))
            .collect();
        let status = *c.pick(&pool);
        c.note(|| format!("{status:?}"));
        let got = recorded(|| {
            let span = SubgraphRequestSpanBuilder { subgraph_name: "sub", operation_type: "query", sanitized_query: "{ a }" }.build();
            span.record_graphql_response_status(status);
            span.span
        });
        let mut expected: Vec<(&str, String)> = [
            ("grafbase.kind", "subgraph-graphql-request"),
            ("otel.name", "sub"),
            ("otel.kind", "Client"),
            ("subgraph.name", "sub"),
            ("graphql.operation.type", "query"),
            ("graphql.operation.document", "{ a }"),
        ]
        .map(|(k, v)| (k, v.to_string()))
        .to_vec();
        let failed = match status {
            SubgraphResponseStatus::HookError => Some("HOOK_ERROR"),
            SubgraphResponseStatus::HttpError => Some("HTTP_ERROR"),
            SubgraphResponseStatus::InvalidGraphqlResponseError => Some("INVALID_RESPONSE"),
            SubgraphResponseStatus::WellFormedGraphqlResponse(status) => {
                expected.extend(of_response(status));
                status.is_request_error().then_some("REQUEST_ERROR")
            }
        };
        if let Some(failed) = failed {
            expected.push(("otel.status_code", "Error".to_string()));
            expected.push(("error.type", failed.to_string()));
        }
        return judge(c, "subgraph-request", expected, got);
    }
    let (url, path, host, port) = *c.pick(&[
        ("http://h/p", "/p", "h", None),
        ("https://h:8443/a/b?c#d", "/a/b", "h", Some("8443")),
        ("http://127.0.0.1/", "/", "127.0.0.1", None),
    ]);
    let code = 100 + c.choose(500) as u16;
    let status = StatusCode::from_u16(code).unwrap();
    let resent = c.choose(3);
    let what = c.choose(3);
    c.note(|| format!("{url} {status} {resent} {what}"));
    let got = recorded(|| {
        let span = SubgraphHttpRequestSpan::new(&url::Url::parse(url).unwrap(), &http::Method::POST);
        match what {
            0 => span.record_http_status_code(status),
            1 => span.set_as_http_error(Some(status)),
            _ => span.set_as_http_error(None),
        }
        span.record_resend_count(resent);
        span.span()
    });
    let mut expected = vec![
        ("otel.name", format!("POST {path}")),
        ("http.request.method", "POST".to_string()),
        ("server.address", host.to_string()),
        ("url.full", url.to_string()),
    ];
    expected.extend(port.map(|p| ("server.port", p.to_string())));
    let success = (200..300).contains(&code);
    if what < 2 {
        expected.push(("http.response.status_code", code.to_string()));
        if !success {
            expected.push(("error.type", code.to_string()));
        }
    }
    if what > 0 || !success {
        expected.push(("otel.status_code", "Error".to_string()));
    }
    if resent > 0 {
        expected.push(("http.request.resend_count", resent.to_string()));
    }
    judge(c, "subgraph-http-request", expected, got);
}

fn other_spans(c: &mut Case) {
    if c.flag() {
        let first = *c.pick(&["HIT", "MISS"]);
        let then = *c.pick(&[None, Some("MISS"), Some("BYPASS")]);
        let error = c.flag();
        let got = recorded(|| {
            let span = CacheSpan::new(HeaderValue::from_static(first)).into_span();
            if let Some(then) = then {
                span.record_status(HeaderValue::from_static(then));
            }
            if error {
                span.record_error();
            }
            span
        });
        let mut expected = vec![("cache.status", then.unwrap_or(first).to_string())];
        if error {
            expected.push(("cache.is_error", "true".to_string()));
        }
        judge(c, "cache", expected, got);
    } else {
        let name = *c.pick(&["r", ""]);
        let error = *c.pick(&[None, Some("it failed"), Some("")]);
        let got = recorded(|| {
            let span = ResolverInvocationSpan::new(name).into_span();
            if let Some(error) = error {
                span.record_failure(error);
            }
            span
        });
        let mut expected = vec![
            ("resolver.name", name.to_string()),
            ("otel.name", format!("resolver:{name}")),
            ("resolver.invocation.is_error", error.is_some().to_string()),
        ];
        expected.extend(error.map(|e| ("resolver.invocation.error", e.to_string())));
        judge(c, "resolver", expected, got);
    }
}

// ------------------------------------------------------------------ metrics

type Point = (String, Vec<(String, String)>);
type Points = BTreeMap<Point, (u64, i64)>;

struct Model {
    points: Points,
}

impl Model {
    fn add(&mut self, metric: &str, attributes: &[(&str, &str)], value: i64) {
        let mut attributes: Vec<_> = attributes.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        attributes.sort();
        let point = self.points.entry((metric.to_string(), attributes)).or_default();
        point.0 += 1;
        point.1 += value;
    }
}

fn shown(value: &Option<opentelemetry_proto::tonic::common::v1::AnyValue>) -> String {
    use opentelemetry_proto::tonic::common::v1::any_value::Value;
    match value.as_ref().and_then(|v| v.value.as_ref()) {
        Some(Value::StringValue(s)) => s.clone(),
        Some(Value::IntValue(i)) => i.to_string(),
        Some(Value::BoolValue(b)) => b.to_string(),
        other => format!("{other:?}"),
    }
}

/// Every history of measures, and what is exported of it.
fn metrics(c: &mut Case) {
    collector::with(1, |pool| {
        let version = *c.pick(&[None, Some("v1")]);
        let mut table = Table::new();
        otlp::put(&mut table, &["metrics", "exporters", "otlp", "enabled"], true);
        otlp::put(&mut table, &["exporters", "otlp", "protocol"], "http");
        otlp::put(&mut table, &["exporters", "otlp", "endpoint"], otlp::text(&format!("http://127.0.0.1:{}", pool[0].port)));
        otlp::put(&mut table, &["exporters", "otlp", "batch_export", "scheduled_delay"], otlp::text("1h"));
        let meters = match otlp::build(&otlp::config(table)) {
            Ok(built) => built.meter_provider.unwrap(),
            Err(e) => return c.fail("not-built", e.to_string()),
        };
        let meter = meter(&meters);
        let engine = EngineMetrics::build(&meter, version.map(str::to_string));
        let requests = RequestMetrics::build(&meter);
        let mut model = Model { points: Default::default() };
        let mut log = Vec::new();
        let depth = if c.thorough() { 3 } else { 2 };
        for _ in 0..depth {
            let op = c.choose(20);
            let name = || "sub".to_string();
            let of = [("graphql.subgraph.name", "sub")];
            let took = Duration::from_micros(*c.pick(&[1999, 7000]));
            let ms = took.as_millis() as i64;
            log.push(format!("{op} {took:?}"));
            match op {
                0 | 1 => {
                    let operation = GraphqlOperationAttributes {
                        ty: [OperationType::Query, OperationType::Subscription][op],
                        name: OperationName::Original("Mine".into()),
                        sanitized_query: "{ a }".into(),
                        complexity_cost: None,
                    };
                    let status = *c.pick(&[Status::Success, Status::FieldError { count: 1, data_is_null: true }]);
                    let client = c.pick(&[None, Some(("cl", None)), Some(("cl", Some("2")))]).clone();
                    let mut attributes = vec![
                        ("graphql.document", "{ a }"),
                        ("graphql.operation.type", "query"),
                        ("graphql.operation.name", "Mine"),
                        ("graphql.response.status", kind(status).2),
                    ];
                    attributes.extend(version.map(|v| ("grafbase.graph.version", v)));
                    if let Some((name, version)) = client {
                        attributes.push(("http.headers.x-grafbase-client-name", name));
                        attributes.extend(version.map(|v| ("http.headers.x-grafbase-client-version", v)));
                    }
                    let client = client.and_then(|(n, v)| Client::maybe_new(Some(n.to_string()), v.map(str::to_string)));
                    engine.record_query_or_mutation_duration(GraphqlRequestMetricsAttributes { operation, status, client }, took);
                    // Subscriptions have no latency.
                    if op == 0 {
                        model.add("graphql.operation.duration", &attributes, ms);
                    }
                }
                2 => {
                    let code = *c.pick(&[None, Some(200u16), Some(503)]);
                    let status = *c.pick(&[SubgraphResponseStatus::HttpError, SubgraphResponseStatus::WellFormedGraphqlResponse(Status::Success)]);
                    let shown = code.map(|c| c.to_string());
                    let mut attributes = vec![of[0], ("graphql.subgraph.response.status", status.as_str())];
                    attributes.extend(shown.as_ref().map(|c| ("http.response.status_code", c.as_str())));
                    model.add("graphql.subgraph.request.duration", &attributes, ms);
                    let http_status_code = code.map(|c| StatusCode::from_u16(c).unwrap());
                    engine.record_subgraph_request_duration(SubgraphRequestDurationAttributes { name: name(), status, http_status_code }, took);
                }
                3 => {
                    let aborted = c.flag();
                    engine.record_subgraph_retry(SubgraphRequestRetryAttributes { name: name(), aborted });
                    model.add("graphql.subgraph.request.retries", &[of[0], ("graphql.subgraph.aborted", &aborted.to_string())], 1);
                }
                4 => {
                    engine.record_subgraph_request_size(SubgraphRequestBodySizeAttributes { name: name() }, 5);
                    model.add("graphql.subgraph.request.body.size", &of, 5);
                }
                5 => {
                    engine.record_subgraph_response_size(SubgraphResponseBodySizeAttributes { name: name() }, 6);
                    model.add("graphql.subgraph.response.body.size", &of, 6);
                }
                6 => {
                    engine.increment_subgraph_inflight_requests(SubgraphInFlightRequestAttributes { name: name() });
                    model.add("graphql.subgraph.request.inflight", &of, 1);
                }
                7 => {
                    engine.decrement_subgraph_inflight_requests(SubgraphInFlightRequestAttributes { name: name() });
                    model.add("graphql.subgraph.request.inflight", &of, -1);
                }
                8 => {
                    engine.record_subgraph_cache_hit(SubgraphCacheHitAttributes { name: name() });
                    model.add("graphql.subgraph.request.cache.hit", &of, 1);
                }
                9 => {
                    engine.record_subgraph_cache_partial_hit(name());
                    model.add("graphql.subgraph.request.cache.partial_hit", &of, 1);
                }
                10 => {
                    engine.record_subgraph_cache_miss(SubgraphCacheMissAttributes { name: name() });
                    model.add("graphql.subgraph.request.cache.miss", &of, 1);
                }
                11 => {
                    engine.record_operation_cache_hit();
                    model.add("graphql.operation.cache.hit", &[], 1);
                }
                12 => {
                    engine.record_operation_cache_miss();
                    model.add("graphql.operation.cache.miss", &[], 1);
                }
                13 | 14 => {
                    let operation = c.flag().then(|| GraphqlOperationAttributes {
                        ty: OperationType::Mutation,
                        name: OperationName::Computed("made up".into()),
                        sanitized_query: "{ b }".into(),
                        complexity_cost: Some(1),
                    });
                    let mut attributes = vec![("graphql.operation.success", if op == 13 { "false" } else { "true" })];
                    if operation.is_some() {
                        attributes.push(("graphql.document", "{ b }"));
                        attributes.push(("graphql.operation.type", "mutation"));
                        attributes.push(("grafbase.operation.computed_name", "made up"));
                    }
                    match operation {
                        Some(operation) if op == 14 => engine.record_successful_preparation_duration(operation, took),
                        None if op == 14 => c.skip(),
                        operation => engine.record_failed_preparation_duration(operation, took),
                    }
                    model.add("graphql.operation.prepare.duration", &attributes, ms);
                }
                15 => {
                    engine.record_batch_size(3);
                    model.add("graphql.operation.batch.size", &[], 3);
                }
                16 => {
                    engine.record_request_body_size(9);
                    model.add("http.server.request.body.size", &[], 9);
                }
                17 => {
                    let operation = *c.pick(&[None, Some("Mine")]);
                    let client = *c.pick(&[None, Some(None), Some(Some("2"))]);
                    let mut attributes = vec![("graphql.response.error.code", "CODE")];
                    attributes.extend(operation.map(|o| ("graphql.operation.name", o)));
                    if let Some(version) = client {
                        attributes.push(("http.headers.x-grafbase-client-name", "cl"));
                        attributes.extend(version.map(|v| ("http.headers.x-grafbase-client-version", v)));
                    }
                    engine.increment_graphql_errors(GraphqlErrorAttributes {
                        code: "CODE",
                        operation_name: operation.map(str::to_string),
                        client: client.map(|v| Client { name: "cl".to_string(), version: v.map(str::to_string) }),
                    });
                    model.add("graphql.operation.errors", &attributes, 1);
                }
                18 => {
                    let has_graphql_errors = c.flag();
                    let full = c.flag();
                    let status_code = *c.pick(&[200u16, 500]);
                    let shown = status_code.to_string();
                    let mut attributes = vec![("http.response.status_code", shown.as_str())];
                    if full {
                        attributes.extend([
                            ("http.request.method", "POST"),
                            ("http.route", "/graphql"),
                            ("network.protocol.version", "HTTP/2.0"),
                            ("server.address", "127.0.0.1"),
                            ("server.port", "5000"),
                            ("url.scheme", "https"),
                            ("http.response.headers.cache.status", "HIT"),
                            ("http.headers.x-grafbase-client-name", "cl"),
                            ("http.headers.x-grafbase-client-version", "2"),
                        ]);
                    }
                    if has_graphql_errors {
                        attributes.push(("graphql.response.has_errors", "true"));
                    }
                    model.add("http.server.request.duration", &attributes, ms);
                    requests.record_http_duration(
                        RequestMetricsAttributes {
                            status_code,
                            cache_status: full.then(|| "HIT".to_string()),
                            client: full.then(|| Client { name: "cl".to_string(), version: Some("2".to_string()) }),
                            url_scheme: full.then(|| "https".to_string()),
                            route: full.then(|| "/graphql".to_string()),
                            listen_address: full.then(|| "127.0.0.1:5000".parse().unwrap()),
                            version: full.then_some(http::Version::HTTP_2),
                            method: full.then_some(http::Method::POST),
                            has_graphql_errors,
                        },
                        took,
                    );
                }
                _ => match c.choose(3) {
                    0 => {
                        requests.increment_connected_clients();
                        model.add("http.server.connected.clients", &[], 1);
                    }
                    1 => {
                        requests.decrement_connected_clients();
                        model.add("http.server.connected.clients", &[], -1);
                    }
                    _ => {
                        requests.record_response_body_size(11);
                        model.add("http.server.response.body.size", &[], 11);
                    }
                },
            }
            c.steps(1);
        }
        c.note(|| format!("{log:?}"));
        if let Err(e) = meters.force_flush() {
            return c.fail("not-sent", e.to_string());
        }
        let _ = meters.shutdown();
        let mut got = Points::new();
        let mut expected = model.points;
        for (_, export) in otlp::arrived(pool) {
            let Ok(Content::Metrics(metrics)) = otlp::decode(&export) else { continue };
            for metric in metrics.resource_metrics.iter().flat_map(|r| &r.scope_metrics).flat_map(|s| &s.metrics) {
                let point = |attributes: &[opentelemetry_proto::tonic::common::v1::KeyValue]| {
                    let mut attributes: Vec<_> = attributes.iter().map(|a| (a.key.clone(), shown(&a.value))).collect();
                    attributes.sort();
                    (metric.name.clone(), attributes)
                };
                match metric.data.as_ref() {
                    Some(Data::Sum(sum)) => {
                        for p in &sum.data_points {
                            let Some(number_data_point::Value::AsInt(n)) = p.value else { continue };
                            let at = point(&p.attributes);
                            // How often it was added to is not told.
                            if let Some(e) = expected.get_mut(&at) {
                                e.0 = 0;
                            }
                            got.insert(at, (0, n));
                        }
                    }
                    Some(Data::ExponentialHistogram(h)) => {
                        for p in &h.data_points {
                            got.insert(point(&p.attributes), (p.count, p.sum.unwrap_or_default() as i64));
                        }
                    }
                    other => c.fail("metric-kind", format!("{}: {other:?}", metric.name)),
                }
            }
        }
        c.check_eq("metrics", &expected, &got, "metrics by name and attributes: count and sum");
        c.outcome(&got);
    })
}

pub fn run(check: &Check) {
    check.space("combined-statuses", combined);
    check.space("operation-span", operation_span);
    check.space("http-request", http_request);
    check.space("http-response", http_response);
    check.space("subgraph-spans", subgraph_spans);
    check.space("other-spans", other_spans);
    check.space("metrics", metrics);
}
