// Included by grafbase-sdk as `crate::vmc_hooks` when built with --cfg vmc_hooks: stand-ins for the gateway's side of
// the interfaces (everything is in memory and recorded), and access to the private items the harness drives.
/// The gateway's calls of an extension.
pub mod call {
    use super::types::*;
    use crate::{
        component::Component,
        vmc_hooks::host::{context::*, event_queue::EventQueue, headers::Headers},
        wit,
    };
    macro_rules! forward {
        ($($tr:ident::$f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
            $(pub fn $f($($a: $t),*) -> $r { <Component as wit::$tr>::$f($($a),*) })*
        };
    }
    type Args = Vec<(u16, Vec<u8>)>;
    forward! {
        Guest::init(schemas: Vec<(String, schema::Schema)>, configuration: Vec<u8>, can_skip: bool, level: String) -> Result<(), String>;
        AuthenticationGuest::authenticate(q: EventQueue, c: RequestContext, h: Headers) -> Result<(Headers, Token), ErrorResponse>;
        AuthenticationGuest::public_metadata() -> Result<Vec<PublicMetadataEndpoint>, Error>;
        AuthorizationGuest::authorize_query(q: EventQueue, c: AuthenticatedRequestContext, h: Headers, e: QueryElements) -> Result<AuthorizationOutput, ErrorResponse>;
        AuthorizationGuest::authorize_response(q: EventQueue, c: AuthorizedOperationContext, s: Vec<u8>, e: ResponseElements) -> Result<AuthorizationDecisions, Error>;
        ContractsGuest::construct(key: String, d: Vec<schema::Directive>, s: Vec<GraphqlSubgraph>) -> Result<Contract, String>;
        HooksGuest::on_request(q: EventQueue, p: HttpRequestParts) -> Result<OnRequestOutput, ErrorResponse>;
        HooksGuest::on_response(q: EventQueue, c: RequestContext, s: u16, h: Headers) -> Result<OnResponseOutput, String>;
        HooksGuest::on_virtual_subgraph_request(q: EventQueue, c: AuthorizedOperationContext, n: String, h: Headers) -> Result<Headers, Error>;
        HooksGuest::on_graphql_subgraph_request(q: EventQueue, c: AuthorizedOperationContext, n: String, p: HttpRequestParts) -> Result<HttpRequestParts, Error>;
        ResolverGuest::prepare(q: EventQueue, s: String, d: schema::Directive, root: u16, f: Vec<Field>) -> Result<Vec<u8>, Error>;
        ResolverGuest::resolve(q: EventQueue, c: AuthorizedOperationContext, p: Vec<u8>, h: Headers, a: Args) -> Response;
        ResolverGuest::create_subscription(q: EventQueue, c: AuthorizedOperationContext, p: Vec<u8>, h: Headers, a: Args) -> Result<Option<Vec<u8>>, Error>;
        ResolverGuest::resolve_next_subscription_item() -> Result<Option<SubscriptionItem>, Error>;
        ResolverGuest::drop_subscription() -> ();
    }
}

pub mod types {
    pub use crate::wit::exports::grafbase::sdk::authentication::PublicMetadataEndpoint;
    pub use crate::wit::grafbase::sdk::{
        authorization_types::{
            AuthorizationDecisions, AuthorizationDecisionsDenySome, AuthorizationOutput, QueryElement, QueryElements,
            ResponseElement, ResponseElements,
        },
        contracts_types::{Contract, GraphqlSubgraph},
        error::{Error, ErrorResponse},
        event_types,
        hooks_types::{HttpRequestParts, OnRequestOutput, OnResponseOutput},
        http_types, schema,
        token::Token,
    };
    pub type Data = crate::wit::Data;
    pub type Field = crate::wit::Field;
    pub type Response = crate::wit::Response;
    pub type SelectionSet = crate::wit::SelectionSet;
    pub type SubscriptionItem = crate::wit::SubscriptionItem;
}

pub fn subgraph_schema(name: &str, schema: types::schema::Schema) -> crate::types::SubgraphSchema {
    crate::types::SubgraphSchema((name.to_string(), schema).into())
}
pub fn configuration(bytes: Vec<u8>) -> crate::types::Configuration {
    crate::types::Configuration::new(bytes)
}
pub fn definition_id(id: u32) -> crate::types::DefinitionId {
    crate::types::DefinitionId(id)
}

pub mod host {
    pub mod headers {
        use std::{cell::RefCell, rc::Rc};
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum HeaderError {
            InvalidSyntax,
            Forbidden,
            Immutable,
        }
        impl std::fmt::Display for HeaderError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{self:?}")
            }
        }
        impl std::error::Error for HeaderError {}
        pub type Entries = Vec<(String, Vec<u8>)>;
        /// Entries in the order they were added; names in lower case.
        #[derive(Debug)]
        pub struct Headers(pub Rc<RefCell<Entries>>);
        fn name(n: &str) -> Result<String, HeaderError> {
            http::HeaderName::from_bytes(n.as_bytes())
                .map(|n| n.as_str().to_string())
                .map_err(|_| HeaderError::InvalidSyntax)
        }
        fn value(v: &[u8]) -> Result<Vec<u8>, HeaderError> {
            http::HeaderValue::from_bytes(v).map(|v| v.as_bytes().to_vec()).map_err(|_| HeaderError::InvalidSyntax)
        }
        impl Headers {
            pub fn from_entries(e: &[(&str, &str)]) -> Self {
                Headers(Rc::new(RefCell::new(e.iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect())))
            }
            pub fn new() -> Self {
                Headers(Default::default())
            }
            pub fn get(&self, n: &str) -> Vec<Vec<u8>> {
                let Ok(n) = name(n) else { return Vec::new() };
                self.0.borrow().iter().filter(|(k, _)| *k == n).map(|(_, v)| v.clone()).collect()
            }
            pub fn has(&self, n: &str) -> bool {
                !self.get(n).is_empty()
            }
            pub fn set(&self, n: &str, values: &[Vec<u8>]) -> Result<(), HeaderError> {
                let n = name(n)?;
                let values = values.iter().map(|v| value(v)).collect::<Result<Vec<_>, _>>()?;
                let mut e = self.0.borrow_mut();
                e.retain(|(k, _)| *k != n);
                e.extend(values.into_iter().map(|v| (n.clone(), v)));
                Ok(())
            }
            pub fn delete(&self, n: &str) -> Result<(), HeaderError> {
                self.get_and_delete(n).map(|_| ())
            }
            pub fn get_and_delete(&self, n: &str) -> Result<Vec<Vec<u8>>, HeaderError> {
                let n = name(n)?;
                let out = self.get(&n);
                self.0.borrow_mut().retain(|(k, _)| *k != n);
                Ok(out)
            }
            pub fn append(&self, n: &str, v: &[u8]) -> Result<(), HeaderError> {
                let (n, v) = (name(n)?, value(v)?);
                self.0.borrow_mut().push((n, v));
                Ok(())
            }
            pub fn entries(&self) -> Entries {
                self.0.borrow().clone()
            }
            pub unsafe fn from_handle(_: u32) -> Self {
                unimplemented!()
            }
            pub fn take_handle(&self) -> u32 {
                unimplemented!()
            }
            pub fn handle(&self) -> u32 {
                unimplemented!()
            }
        }
    }

    pub mod event_queue {
        use std::{
            cell::RefCell,
            collections::VecDeque,
            rc::Rc,
        };
        #[derive(Default)]
        pub struct Queue {
            pub pushed: Vec<(String, Vec<u8>)>,
            pub events: VecDeque<crate::wit::grafbase::sdk::event_types::Event>,
            /// Handles given back to the host.
            pub dropped: usize,
        }
        pub struct EventQueue(pub Rc<RefCell<Queue>>);
        impl std::fmt::Debug for EventQueue {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("EventQueue")
            }
        }
        impl Drop for EventQueue {
            fn drop(&mut self) {
                self.0.borrow_mut().dropped += 1;
            }
        }
        impl EventQueue {
            pub fn push(&self, name: &str, data: &[u8]) {
                self.0.borrow_mut().pushed.push((name.to_string(), data.to_vec()));
            }
            pub fn pop(&self) -> Option<crate::wit::grafbase::sdk::event_types::Event> {
                self.0.borrow_mut().events.pop_front()
            }
            pub unsafe fn from_handle(_: u32) -> Self {
                unimplemented!()
            }
            pub fn take_handle(&self) -> u32 {
                unimplemented!()
            }
            pub fn handle(&self) -> u32 {
                unimplemented!()
            }
        }
    }

    pub mod context {
        use crate::wit::grafbase::sdk::token::Token;
        use std::{cell::Cell, rc::Rc};
        macro_rules! resource {
            ($($name:ident),*) => {$(
                #[derive(Debug)]
                pub struct $name {
                    pub hooks: Vec<u8>,
                    pub token: Token,
                    pub authorization: Vec<(Option<String>, Vec<u8>)>,
                    /// Whether the host has the resource back.
                    pub returned: Rc<Cell<bool>>,
                }
                impl $name {
                    pub fn hooks_context(&self) -> Vec<u8> {
                        assert!(!self.returned.get(), "the context was used after it was given back");
                        self.hooks.clone()
                    }
                    pub fn token(&self) -> Token {
                        assert!(!self.returned.get(), "the context was used after it was given back");
                        self.token.clone()
                    }
                    pub fn authorization_context(&self, key: Option<&str>) -> Result<Vec<u8>, String> {
                        self.authorization
                            .iter()
                            .find(|(k, _)| k.as_deref() == key)
                            .map(|(_, v)| v.clone())
                            .ok_or_else(|| format!("no authorization context for {key:?}"))
                    }
                    pub unsafe fn from_handle(_: u32) -> Self {
                        unimplemented!()
                    }
                    pub fn take_handle(&self) -> u32 {
                        unimplemented!()
                    }
                    pub fn handle(&self) -> u32 {
                        unimplemented!()
                    }
                }
                impl Drop for $name {
                    fn drop(&mut self) {
                        self.returned.set(true);
                    }
                }
            )*};
        }
        resource!(RequestContext, AuthenticatedRequestContext, AuthorizedOperationContext);
    }

    pub mod cache {
        use std::{
            cell::RefCell,
            collections::BTreeMap,
        };
        #[derive(Default)]
        pub struct State {
            /// (cache, key) -> value, None while reserved.
            pub entries: BTreeMap<(String, String), Option<Vec<u8>>>,
            pub log: Vec<String>,
        }
        thread_local! {
            pub static STATE: RefCell<State> = Default::default();
        }
        #[derive(Debug)]
        pub struct Cache(String);
        impl Cache {
            pub fn init(name: &str, size: u32, ttl_ms: Option<u64>) -> Cache {
                STATE.with(|s| s.borrow_mut().log.push(format!("init {name} {size} {ttl_ms:?}")));
                Cache(name.to_string())
            }
            pub fn get_or_reserve(&self, key: &str, timeout_ms: u64) -> Option<Vec<u8>> {
                STATE.with(|s| {
                    let mut s = s.borrow_mut();
                    s.log.push(format!("get {} {key} {timeout_ms}", self.0));
                    s.entries.entry((self.0.clone(), key.to_string())).or_insert(None).clone()
                })
            }
            pub fn insert(&self, key: &str, value: &[u8]) {
                STATE.with(|s| {
                    let mut s = s.borrow_mut();
                    s.log.push(format!("insert {} {key}", self.0));
                    s.entries.insert((self.0.clone(), key.to_string()), Some(value.to_vec()));
                })
            }
            pub fn remove(&self, key: &str) {
                STATE.with(|s| {
                    let mut s = s.borrow_mut();
                    s.log.push(format!("remove {} {key}", self.0));
                    s.entries.remove(&(self.0.clone(), key.to_string()));
                })
            }
        }
    }

    pub mod logger {
        use std::cell::RefCell;
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum LogLevel {
            Error,
            Warn,
            Info,
            Debug,
            Trace,
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum FileLoggerRotation {
            Size(u64),
            Minutely,
            Hourly,
            Daily,
            Weekly,
            Monthly,
            Yearly,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub enum LogField {
            String(String),
            I64(i64),
            Bool(bool),
            U64(u64),
            F64(f64),
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct LogEntry {
            pub level: LogLevel,
            pub message: String,
            pub fields: Vec<(String, LogField)>,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct FileLoggerOptions {
            pub path: String,
            pub rotate: Option<FileLoggerRotation>,
        }
        thread_local! {
            pub static ENTRIES: RefCell<Vec<LogEntry>> = Default::default();
            pub static FILES: RefCell<Vec<(FileLoggerOptions, Vec<Vec<u8>>)>> = Default::default();
        }
        #[derive(Debug)]
        pub struct FileLogger(usize);
        impl FileLogger {
            pub fn init(o: &FileLoggerOptions) -> Result<Self, String> {
                if o.path.ends_with("fail") {
                    return Err(format!("cannot open {}", o.path));
                }
                FILES.with(|f| {
                    let mut f = f.borrow_mut();
                    f.push((o.clone(), Vec::new()));
                    Ok(FileLogger(f.len() - 1))
                })
            }
            pub fn log(&self, data: &[u8]) -> Result<(), String> {
                FILES.with(|f| f.borrow_mut()[self.0].1.push(data.to_vec()));
                if data.ends_with(b"fail\"") { Err("cannot write".into()) } else { Ok(()) }
            }
        }
        #[derive(Debug)]
        pub struct SystemLogger;
        impl SystemLogger {
            pub fn log(e: &LogEntry) {
                ENTRIES.with(|l| l.borrow_mut().push(e.clone()));
            }
        }
    }

    pub mod http_client {
        use crate::wit::grafbase::sdk::http_types::{HttpError, HttpRequest, HttpResponse};
        use std::cell::RefCell;
        type Handler = Box<dyn FnMut(HttpRequest) -> Result<HttpResponse, HttpError>>;
        thread_local! {
            pub static HANDLER: RefCell<Option<Handler>> = Default::default();
        }
        #[derive(Debug)]
        pub struct HttpClient;
        impl HttpClient {
            pub fn execute(r: HttpRequest) -> Result<HttpResponse, HttpError> {
                HANDLER.with(|h| h.borrow_mut().as_mut().unwrap()(r))
            }
            pub fn execute_many(r: Vec<HttpRequest>) -> Vec<Result<HttpResponse, HttpError>> {
                r.into_iter().map(Self::execute).collect()
            }
        }
    }

    /// What the messaging clients asked of the gateway, and what it answers, one after the other.
    pub mod asked {
        use std::{
            cell::RefCell,
            collections::VecDeque,
        };
        thread_local! {
            pub static LOG: RefCell<Vec<String>> = Default::default();
            pub static FAIL: RefCell<Vec<&'static str>> = Default::default();
            pub static BYTES: RefCell<VecDeque<Result<Option<Vec<u8>>, String>>> = Default::default();
            pub static KAFKA: RefCell<VecDeque<Result<Option<super::kafka_client::KafkaMessage>, String>>> = Default::default();
            pub static GRPC: RefCell<VecDeque<Result<Option<Vec<u8>>, super::grpc::GrpcStatus>>> = Default::default();
        }
        /// Notes the call, which fails when it should.
        pub(super) fn log(what: &str, args: &dyn std::fmt::Debug) -> Result<(), String> {
            LOG.with(|l| l.borrow_mut().push(format!("{what} {args:?}")));
            if FAIL.with(|f| f.borrow().contains(&what)) { Err(format!("{what} failed")) } else { Ok(()) }
        }
        pub(super) fn bytes() -> Result<Option<Vec<u8>>, String> {
            BYTES.with(|b| b.borrow_mut().pop_front()).expect("an answer")
        }
    }

    pub mod nats_client {
        use super::asked::{bytes, log};
        #[derive(Debug, Clone, PartialEq)]
        pub enum NatsAuth {
            UsernamePassword((String, String)),
            Token(String),
            Credentials(String),
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct NatsMessage {
            pub subject: String,
            pub payload: Vec<u8>,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct NatsStreamConfig {
            pub stream_name: String,
            pub consumer_name: String,
            pub durable_name: Option<String>,
            pub description: Option<String>,
            pub deliver_policy: NatsStreamDeliverPolicy,
            pub inactive_threshold_ms: u64,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub enum NatsStreamDeliverPolicy {
            All,
            Last,
            New,
            ByStartSequence(u64),
            ByStartTimeMs(u64),
            LastPerSubject,
        }
        #[derive(Debug)]
        pub struct NatsClient;
        #[derive(Debug)]
        pub struct NatsKeyValue(String);
        #[derive(Debug)]
        pub struct NatsSubscriber(String);
        impl NatsClient {
            pub fn connect(servers: &[String], auth: Option<&NatsAuth>) -> Result<NatsClient, String> {
                log("connect", &(servers, auth)).map(|_| NatsClient)
            }
            pub fn publish(&self, subject: &str, message: &[u8]) -> Result<(), String> {
                log("publish", &(subject, message))
            }
            pub fn subscribe(&self, subject: &str, c: Option<&NatsStreamConfig>) -> Result<NatsSubscriber, String> {
                log("subscribe", &(subject, c)).map(|_| NatsSubscriber(subject.to_string()))
            }
            pub fn request(&self, subject: &str, message: &[u8], timeout_ms: Option<u64>) -> Result<NatsMessage, String> {
                log("request", &(subject, message, timeout_ms))?;
                Ok(NatsMessage { subject: subject.to_string(), payload: bytes()?.unwrap() })
            }
            pub fn key_value(&self, bucket: &str) -> Result<NatsKeyValue, String> {
                log("key_value", &bucket).map(|_| NatsKeyValue(bucket.to_string()))
            }
        }
        impl NatsKeyValue {
            pub fn create(&self, key: &str, value: &[u8]) -> Result<u64, String> {
                log("create", &(&self.0, key, value)).map(|_| 7)
            }
            pub fn put(&self, key: &str, value: &[u8]) -> Result<u64, String> {
                log("put", &(&self.0, key, value)).map(|_| u64::MAX)
            }
            pub fn get(&self, key: &str) -> Result<Option<Vec<u8>>, String> {
                log("get", &(&self.0, key))?;
                bytes()
            }
            pub fn delete(&self, key: &str) -> Result<(), String> {
                log("delete", &(&self.0, key))
            }
        }
        impl NatsSubscriber {
            pub fn next(&self) -> Result<Option<NatsMessage>, String> {
                Ok(bytes()?.map(|payload| NatsMessage { subject: format!("{} sub", self.0), payload }))
            }
        }
    }

    pub mod kafka_client {
        use super::asked::{KAFKA, log};
        #[derive(Debug, Clone, PartialEq)]
        pub struct KafkaSaslPlainAuth {
            pub username: String,
            pub password: String,
        }
        #[derive(Debug, Clone, Copy, PartialEq)]
        pub enum KafkaScramMechanism {
            Sha256,
            Sha512,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct KafkaSaslScramAuth {
            pub username: String,
            pub password: String,
            pub mechanism: KafkaScramMechanism,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct KafkaMtlsAuth {
            pub client_cert_path: String,
            pub client_key_path: String,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub enum KafkaAuthentication {
            SaslPlain(KafkaSaslPlainAuth),
            SaslScram(KafkaSaslScramAuth),
            Mtls(KafkaMtlsAuth),
        }
        #[derive(Debug, Clone, Copy, PartialEq)]
        pub enum KafkaProducerCompression {
            None,
            Gzip,
            Snappy,
            Lz4,
            Zstd,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct KafkaBatchConfig {
            pub linger_ms: u64,
            pub batch_size_bytes: u64,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub enum KafkaTlsConfig {
            SystemCa,
            CustomCa(String),
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct KafkaClientConfig {
            pub partitions: Option<Vec<i32>>,
            pub tls: Option<KafkaTlsConfig>,
            pub authentication: Option<KafkaAuthentication>,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct KafkaProducerConfig {
            pub compression: KafkaProducerCompression,
            pub batching: Option<KafkaBatchConfig>,
            pub client_config: KafkaClientConfig,
        }
        #[derive(Debug, Clone, Copy, PartialEq)]
        pub enum KafkaConsumerStartOffset {
            Earliest,
            Latest,
            Specific(i64),
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct KafkaConsumerConfig {
            pub min_batch_size: Option<i32>,
            pub max_batch_size: Option<i32>,
            pub max_wait_ms: Option<i32>,
            pub client_config: KafkaClientConfig,
            pub start_offset: KafkaConsumerStartOffset,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct KafkaMessage {
            pub offset: i64,
            pub key: Option<Vec<u8>>,
            pub value: Option<Vec<u8>>,
            pub headers: Vec<(String, Vec<u8>)>,
            pub timestamp: i64,
            pub high_watermark: i64,
        }
        #[derive(Debug)]
        pub struct KafkaProducer;
        impl KafkaProducer {
            pub fn connect(name: &str, servers: &[String], topic: &str, c: &KafkaProducerConfig) -> Result<Self, String> {
                log("producer", &(name, servers, topic, c)).map(|_| KafkaProducer)
            }
            pub fn produce(&self, key: Option<&str>, value: &[u8]) -> Result<(), String> {
                log("produce", &(key, value))
            }
        }
        #[derive(Debug)]
        pub struct KafkaConsumer;
        impl KafkaConsumer {
            pub fn connect(servers: &[String], topic: &str, c: &KafkaConsumerConfig) -> Result<Self, String> {
                log("consumer", &(servers, topic, c)).map(|_| KafkaConsumer)
            }
            pub fn next(&self) -> Result<Option<KafkaMessage>, String> {
                KAFKA.with(|k| k.borrow_mut().pop_front()).expect("an answer")
            }
        }
    }

    pub mod grpc {
        use super::asked::{GRPC, log};
        pub type MetadataMap = Vec<(String, Vec<u8>)>;
        #[derive(Debug, Clone, PartialEq)]
        pub struct GrpcClientConfiguration {
            pub uri: String,
        }
        #[derive(Debug, Clone, Copy, PartialEq)]
        pub enum GrpcStatusCode {
            Ok,
            Cancelled,
            Unknown,
            InvalidArgument,
            DeadlineExceeded,
            NotFound,
            AlreadyExists,
            PermissionDenied,
            ResourceExhausted,
            FailedPrecondition,
            Aborted,
            OutOfRange,
            Unimplemented,
            Internal,
            Unavailable,
            DataLoss,
            Unauthenticated,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct GrpcStatus {
            pub code: GrpcStatusCode,
            pub message: String,
            pub metadata: MetadataMap,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct GrpcUnaryResponse {
            pub metadata: MetadataMap,
            pub message: Vec<u8>,
        }
        fn next() -> Result<Option<Vec<u8>>, GrpcStatus> {
            GRPC.with(|k| k.borrow_mut().pop_front()).expect("an answer")
        }
        fn metadata() -> MetadataMap {
            vec![("m".into(), b"1".to_vec()), ("m".into(), vec![0, 255]), ("a-bin".into(), vec![])]
        }
        #[derive(Debug)]
        pub struct GrpcStreamingResponse;
        impl GrpcStreamingResponse {
            pub fn get_metadata(&self) -> MetadataMap {
                metadata()
            }
            pub fn get_next_message(&self) -> Result<Option<Vec<u8>>, GrpcStatus> {
                next()
            }
        }
        #[derive(Debug)]
        pub struct GrpcClient;
        impl GrpcClient {
            pub fn new(c: &GrpcClientConfiguration) -> Result<Self, String> {
                log("grpc", c).map(|_| GrpcClient)
            }
            pub fn unary(&self, m: &[u8], s: &str, f: &str, md: &[(String, Vec<u8>)], t: Option<u64>) -> Result<GrpcUnaryResponse, GrpcStatus> {
                let _ = log("unary", &(m, s, f, md, t));
                next().map(|m| GrpcUnaryResponse { metadata: metadata(), message: m.unwrap() })
            }
            pub fn streaming(&self, m: &[u8], s: &str, f: &str, md: &[(String, Vec<u8>)], t: Option<u64>) -> Result<GrpcStreamingResponse, GrpcStatus> {
                let _ = log("streaming", &(m, s, f, md, t));
                next().map(|_| GrpcStreamingResponse)
            }
        }
    }

    pub mod postgres {
        use std::cell::RefCell;
        #[derive(Debug, Clone, Copy)]
        pub struct PgPoolOptions {
            pub max_connections: Option<u32>,
            pub min_connections: Option<u32>,
            pub idle_timeout_ms: Option<u64>,
            pub acquisition_timeout_ms: Option<u64>,
            pub max_lifetime_ms: Option<u64>,
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub enum PgType {
            Boolean, Int16, Int32, Int64, Float32, Float64, String, Bytes, Point, Interval, Cidr, Xml, Macaddr, Macaddr8,
            Bit, Varbit, Oid, Json, Jsonb, Money, Numeric, Decimal, Time, Timetz, Date, Datetime, Inet, Timestamp,
            Timestamptz, Uuid,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub enum PgValue {
            Null,
            Boolean(bool),
            Int16(i16),
            Int32(i32),
            Int64(i64),
            Float32(f32),
            Float64(f64),
            String(String),
            Bytes(Vec<u8>),
            Array(Vec<u64>),
            Point((f64, f64)),
            Interval((i32, i32, i64)),
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct PgBoundValue {
            pub value: PgValue,
            pub type_: PgType,
            pub is_array: bool,
        }
        pub type PgValueTree = Vec<PgValue>;
        pub type Params<'a> = (&'a [PgBoundValue], &'a [PgValue]);
        /// What the host saw, and what it answers: rows of columns, Err for a column that cannot be read.
        pub type Row = Vec<Result<Option<Vec<u8>>, String>>;
        thread_local! {
            pub static LOG: RefCell<Vec<String>> = Default::default();
            pub static BOUND: RefCell<Vec<(Vec<PgBoundValue>, Vec<PgValue>)>> = Default::default();
            pub static ROWS: RefCell<Vec<Row>> = Default::default();
            /// Statements, commits and rollbacks that fail.
            pub static FAIL: RefCell<Vec<String>> = Default::default();
        }
        fn log(s: String) -> Result<(), String> {
            let fails = FAIL.with(|f| f.borrow().contains(&s));
            LOG.with(|l| l.borrow_mut().push(s.clone()));
            if fails { Err(format!("{s} failed")) } else { Ok(()) }
        }
        fn run(who: &str, what: &str, query: &str, p: Params<'_>) -> Result<Vec<PgRow>, String> {
            log(format!("{who} {what} {query}"))?;
            BOUND.with(|b| b.borrow_mut().push((p.0.to_vec(), p.1.to_vec())));
            Ok(ROWS.with(|r| r.borrow().iter().cloned().map(PgRow).collect()))
        }
        #[derive(Debug)]
        pub struct PgRow(Row);
        impl PgRow {
            pub fn columns(&self) -> Vec<String> {
                (0..self.0.len()).map(|i| format!("c{i}")).collect()
            }
            pub fn as_bytes(&self, i: u64) -> Result<Option<Vec<u8>>, String> {
                self.0.get(i as usize).cloned().unwrap_or_else(|| Err("no such column".into()))
            }
            pub fn len(&self) -> u64 {
                self.0.len() as u64
            }
        }
        #[derive(Debug)]
        pub struct PgPool;
        impl PgPool {
            pub fn connect(name: &str, url: &str, o: PgPoolOptions) -> Result<Self, String> {
                log(format!("connect {name} {url} {o:?}"))?;
                Ok(PgPool)
            }
            pub fn acquire(&self) -> Result<PgConnection, String> {
                log("acquire".into())?;
                Ok(PgConnection)
            }
            pub fn begin_transaction(&self) -> Result<PgTransaction, String> {
                log("begin".into())?;
                Ok(PgTransaction)
            }
        }
        #[derive(Debug)]
        pub struct PgConnection;
        impl PgConnection {
            pub fn query(&self, q: &str, p: Params<'_>) -> Result<Vec<PgRow>, String> {
                run("connection", "query", q, p)
            }
            pub fn execute(&self, q: &str, p: Params<'_>) -> Result<u64, String> {
                run("connection", "execute", q, p).map(|r| r.len() as u64)
            }
        }
        #[derive(Debug)]
        pub struct PgTransaction;
        impl PgTransaction {
            pub fn query(&self, q: &str, p: Params<'_>) -> Result<Vec<PgRow>, String> {
                run("transaction", "query", q, p)
            }
            pub fn execute(&self, q: &str, p: Params<'_>) -> Result<u64, String> {
                run("transaction", "execute", q, p).map(|r| r.len() as u64)
            }
            pub fn commit(&self) -> Result<(), String> {
                log("commit".into())
            }
            pub fn rollback(&self) -> Result<(), String> {
                log("rollback".into())
            }
        }
    }
}
