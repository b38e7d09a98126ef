//! The reference: every setting of the gateway configuration, what may be written there, its default, and how to read
//! what the gateway made of it.
use gateway_config::*;
use std::{collections::BTreeMap, net::SocketAddr, path::PathBuf, time::Duration};

// ---------------------------------------------------------------- literals

#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    B(bool),
    I(i64),
    F(f64),
    S(String),
    A(Vec<Lit>),
    T(Vec<(String, Lit)>),
    Date,
}

pub fn s(v: &str) -> Lit {
    Lit::S(v.to_string())
}

pub fn quoted(v: &str) -> String {
    let mut out = String::from("\"");
    for c in v.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

impl Lit {
    pub fn toml(&self) -> String {
        match self {
            Lit::B(b) => b.to_string(),
            Lit::I(i) => i.to_string(),
            Lit::F(f) if f.is_nan() => "nan".into(),
            Lit::F(f) if f.is_infinite() => "inf".into(),
            Lit::F(f) => format!("{f:?}"),
            Lit::S(v) => quoted(v),
            Lit::A(v) => format!("[{}]", v.iter().map(Lit::toml).collect::<Vec<_>>().join(", ")),
            Lit::T(v) => format!(
                "{{{}}}",
                v.iter()
                    .map(|(k, v)| format!("{} = {}", quoted(k), v.toml()))
                    .collect::<Vec<_>>()
                    .join(", ")
            ),
            Lit::Date => "1979-05-27".into(),
        }
    }
}

// ---------------------------------------------------------------- types of settings

#[derive(Clone, Debug)]
pub enum Base {
    Bool,
    Int(u64),
    F32,
    Sampling,
    Str,
    Ascii,
    Dur,
    RateDur,
    Url,
    Addr,
    Size,
    Level,
    Enum(&'static [(&'static str, &'static str)]),
    VecStr,
    VecEnum(&'static [(&'static str, &'static str)]),
    Map,
    MapAscii,
    AnyUrl,
    AnyMethod,
    AnyAscii,
    Rotate,
    Version,
    Anything,
    Preopened,
    Access,
}

fn dur(v: &str) -> Option<Duration> {
    Some(match v {
        "1" | "1s" => Duration::from_secs(1),
        "500ms" => Duration::from_millis(500),
        "0s" => Duration::from_secs(0),
        "1m" => Duration::from_secs(60),
        "1h30m" => Duration::from_secs(5400),
        "10" | "10s" => Duration::from_secs(10),
        _ => return None,
    })
}

fn size(v: &str) -> Option<i64> {
    Some(match v {
        "10" => 10,
        "2KiB" => 2048,
        "2 kB" => 2000,
        "1.5KiB" => 1536,
        // The unit may be left out, and written in the plural.
        "1" | "1s" => 1,
        "10s" => 10,
        "0s" => 0,
        _ => return None,
    })
}

fn url(v: &str) -> Option<&'static str> {
    Some(match v {
        "http://a.b:1/c" => "http://a.b:1/c",
        "https://example.com" => "https://example.com/",
        "redis://h:1" => "redis://h:1",
        "localhost:80" => "localhost:80",
        _ => return None,
    })
}

pub const METHODS: [(&str, &str); 9] = [
    ("GET", "Get"),
    ("POST", "Post"),
    ("PUT", "Put"),
    ("DELETE", "Delete"),
    ("HEAD", "Head"),
    ("OPTIONS", "Options"),
    ("CONNECT", "Connect"),
    ("PATCH", "Patch"),
    ("TRACE", "Trace"),
];

fn list(v: Option<Vec<String>>) -> Option<String> {
    v.map(|v| format!("[{}]", v.join(", ")))
}

fn any(lit: &Lit, item: &dyn Fn(&str) -> Option<String>) -> Option<String> {
    match lit {
        Lit::S(v) if v == "*" || v == "any" => Some("any".into()),
        Lit::S(v) => Some(format!("[{}]", item(v)?)),
        Lit::A(v) => list(
            v.iter()
                .map(|v| match v {
                    Lit::S(v) => item(v),
                    _ => None,
                })
                .collect(),
        ),
        _ => None,
    }
}

impl Base {
    /// What the literal means here, if it may be written here.
    pub fn read(&self, lit: &Lit) -> Option<String> {
        match (self, lit) {
            (Base::Bool, Lit::B(b)) => Some(b.r()),
            (Base::Int(max), Lit::I(i)) => (*i >= 0 && *i as u64 <= *max).then(|| i.to_string()),
            (Base::F32, Lit::F(f)) => Some((*f as f32).r()),
            (Base::F32, Lit::I(f)) => Some((*f as f32).r()),
            (Base::Sampling, Lit::F(f)) => (*f >= 0.0 && *f <= 1.0).then(|| f.r()),
            (Base::Sampling, Lit::I(f)) => (*f == 0 || *f == 1).then(|| (*f as f64).r()),
            (Base::Str, Lit::S(v)) => Some(v.r()),
            (Base::Ascii, Lit::S(v)) => v.is_ascii().then(|| v.r()),
            (Base::Dur, Lit::S(v)) => dur(v).map(|d| d.r()),
            (Base::RateDur, Lit::S(v)) => dur(v).filter(|d| d.as_secs() > 0).map(|d| d.r()),
            (Base::Url, Lit::S(v)) => url(v).map(|v| v.to_string().r()),
            (Base::Addr, Lit::S(v)) => matches!(v.as_str(), "127.0.0.1:80" | "[::1]:80").then(|| v.clone()),
            (Base::Size, Lit::S(v)) => size(v).map(|v| v.to_string()),
            (Base::Size, Lit::I(v)) => (*v >= 0).then(|| v.to_string()),
            (Base::Level, Lit::S(v)) => ["off", "debug", "info", "warn", "error"]
                .into_iter()
                .find(|l| *l == v.to_lowercase())
                .map(String::from),
            (Base::Enum(all), Lit::S(v)) => all.iter().find(|(name, _)| name == v).map(|(_, r)| r.to_string()),
            (Base::VecStr, Lit::A(v)) => list(
                v.iter()
                    .map(|v| match v {
                        Lit::S(v) => Some(v.r()),
                        _ => None,
                    })
                    .collect(),
            ),
            (Base::VecEnum(all), Lit::A(v)) => list(v.iter().map(|v| Base::Enum(all).read(v)).collect()),
            (Base::Map | Base::MapAscii, Lit::T(v)) => {
                let ascii = matches!(self, Base::MapAscii);
                let mut map = BTreeMap::new();
                for (k, v) in v {
                    match v {
                        Lit::S(v) if !ascii || (v.is_ascii() && k.is_ascii()) => map.insert(k.clone(), v.clone()),
                        _ => return None,
                    };
                }
                Some(map.r())
            }
            (Base::AnyUrl, lit) => any(lit, &|v| url(v).map(|v| v.to_string().r())),
            (Base::AnyMethod, lit) => any(lit, &|v| {
                METHODS.iter().find(|(name, _)| *name == v).map(|(_, r)| r.to_string())
            }),
            (Base::AnyAscii, lit) => any(lit, &|v| v.is_ascii().then(|| v.to_string().r())),
            (Base::Rotate, Lit::S(v)) => match v.as_str() {
                "never" => Some("Never".into()),
                "minutely" => Some("Minutely".into()),
                "hourly" => Some("Hourly".into()),
                "daily" => Some("Daily".into()),
                _ => None,
            },
            (Base::Rotate, Lit::T(v)) => match v.as_slice() {
                [(k, v)] if k == "size" => Base::Size.read(v).map(|v| format!("Size({v})")),
                _ => None,
            },
            (Base::Version, Lit::S(v)) => match v.as_str() {
                "*" => Some("*".into()),
                "10" => Some("^10".into()),
                "1" => Some("^1".into()),
                "1.2.3" => Some("^1.2.3".into()),
                "~1.2" => Some("~1.2".into()),
                _ => None,
            },
            (Base::Anything, lit) => Some(lit.r()),
            (Base::Preopened, Lit::A(v)) => list(
                v.iter()
                    .map(|v| match v {
                        Lit::T(v) => {
                            let get = |k: &str| v.iter().find(|(name, _)| name == k).map(|(_, v)| v);
                            if v.len() != 4 {
                                return None;
                            }
                            match (
                                get("host_path")?,
                                get("guest_path")?,
                                get("read_permission")?,
                                get("write_permission")?,
                            ) {
                                (Lit::S(h), Lit::S(g), Lit::B(r), Lit::B(w)) => Some(format!("{h}|{g}|{r}|{w}")),
                                _ => None,
                            }
                        }
                        _ => None,
                    })
                    .collect(),
            ),
            (Base::Access, Lit::A(v)) => list(
                v.iter()
                    .map(|v| match v {
                        Lit::T(v) => {
                            let get = |k: &str| v.iter().find(|(name, _)| name == k).map(|(_, v)| v);
                            match get("rule")? {
                                Lit::S(r) if r == "deny" => (v.len() == 1).then(|| "deny".to_string()),
                                Lit::S(r) if r == "header" => {
                                    let name = match get("name")? {
                                        Lit::S(v) if v.is_ascii() => v.clone(),
                                        _ => return None,
                                    };
                                    let value = match get("value") {
                                        None => None,
                                        Some(Lit::S(v)) if v.is_ascii() => Some(v.clone()),
                                        Some(_) => return None,
                                    };
                                    (v.len() == 2 + value.is_some() as usize)
                                        .then(|| format!("header({name}, {})", value.r()))
                                }
                                _ => None,
                            }
                        }
                        _ => None,
                    })
                    .collect(),
            ),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- rendering what was read

pub trait R {
    fn r(&self) -> String;
}

macro_rules! plain { ($($t:ty),*) => { $(impl R for $t { fn r(&self) -> String { format!("{self}") } })* } }
macro_rules! debug { ($($t:ty),*) => { $(impl R for $t { fn r(&self) -> String { format!("{self:?}") } })* } }

plain!(bool, u8, u16, u32, usize, SocketAddr, f32, f64, LogLevel, semver::VersionReq);
debug!(
    Duration,
    LogMode,
    McpTransport,
    RateLimitStorage,
    EntityCachingStorage,
    ComplexityControlMode,
    DefaultAuthenticationBehavior,
    SubscriptionProtocol,
    OtlpExporterProtocol,
    HttpMethod,
    gateway_config::message_signatures::MessageSigningAlgorithm,
    gateway_config::message_signatures::DerivedComponent,
    gateway_config::message_signatures::SignatureParameter
);

impl R for String {
    fn r(&self) -> String {
        format!("{self:?}")
    }
}
impl R for &str {
    fn r(&self) -> String {
        format!("{self:?}")
    }
}
impl R for PathBuf {
    fn r(&self) -> String {
        format!("{self:?}")
    }
}
impl R for ascii::AsciiString {
    fn r(&self) -> String {
        format!("{:?}", self.as_str())
    }
}
impl R for url::Url {
    fn r(&self) -> String {
        format!("{:?}", self.as_str())
    }
}
impl R for size::Size {
    fn r(&self) -> String {
        self.bytes().to_string()
    }
}
impl<T: R> R for Option<T> {
    fn r(&self) -> String {
        match self {
            None => "None".into(),
            Some(v) => format!("Some({})", v.r()),
        }
    }
}
impl<T: R> R for Vec<T> {
    fn r(&self) -> String {
        format!("[{}]", self.iter().map(R::r).collect::<Vec<_>>().join(", "))
    }
}
impl R for BTreeMap<String, String> {
    fn r(&self) -> String {
        format!("{self:?}")
    }
}
impl R for RotateMode {
    fn r(&self) -> String {
        match self {
            RotateMode::Size(size) => format!("Size({})", size.bytes()),
            other => format!("{other:?}"),
        }
    }
}
impl<T: R> R for AnyOrArray<T> {
    fn r(&self) -> String {
        match self {
            AnyOrArray::Any => "any".into(),
            AnyOrArray::Explicit(v) => v.r(),
        }
    }
}
impl R for Headers {
    fn r(&self) -> String {
        self.clone().into_map().into_iter().collect::<BTreeMap<_, _>>().r()
    }
}
impl R for PreopenedDirectory {
    fn r(&self) -> String {
        format!(
            "{}|{}|{}|{}",
            self.host_path.display(),
            self.guest_path,
            self.read_permission,
            self.write_permission
        )
    }
}
impl R for AccessControl {
    fn r(&self) -> String {
        match self {
            AccessControl::Header(h) => format!("header({}, {})", h.name, h.value.as_ref().map(|v| v.to_string()).r()),
            AccessControl::Deny => "deny".into(),
        }
    }
}
impl R for Lit {
    fn r(&self) -> String {
        match self {
            Lit::B(b) => b.r(),
            Lit::I(i) => i.to_string(),
            Lit::F(f) => format!("{f:?}"),
            Lit::S(v) => v.r(),
            Lit::A(v) => v.r(),
            Lit::T(v) => format!(
                "{:?}",
                v.iter().map(|(k, v)| (k.clone(), v.r())).collect::<BTreeMap<_, _>>()
            ),
            Lit::Date => "1979-05-27".into(),
        }
    }
}
impl R for toml::Value {
    fn r(&self) -> String {
        match self {
            toml::Value::String(v) => v.r(),
            toml::Value::Integer(i) => i.to_string(),
            toml::Value::Float(f) => format!("{f:?}"),
            toml::Value::Boolean(b) => b.r(),
            toml::Value::Datetime(d) => d.to_string(),
            toml::Value::Array(v) => v.r(),
            toml::Value::Table(v) => format!(
                "{:?}",
                v.iter().map(|(k, v)| (k.clone(), v.r())).collect::<BTreeMap<_, _>>()
            ),
        }
    }
}

// ---------------------------------------------------------------- the settings

pub struct Leaf {
    pub path: String,
    pub base: Base,
    /// The setting may be left out of its section, and that is visible.
    pub opt: bool,
    /// What it is when the section is there and the setting is not. `None`: the section needs it.
    pub default: Option<String>,
    /// The innermost table on the way which may be missing as a whole.
    pub section: String,
    pub get: Box<dyn Fn(&Config) -> String + Send + Sync>,
}

pub struct Schema {
    pub leaves: Vec<Leaf>,
}

/// What a setting is when the section it belongs to is not there.
pub const ABSENT: &str = "-";

impl Leaf {
    pub fn read(&self, lit: &Lit) -> Option<String> {
        let value = self.base.read(lit)?;
        Some(if self.opt { format!("Some({value})") } else { value })
    }
}

fn o<T>(v: Option<&T>, f: impl FnOnce(&T) -> String) -> String {
    v.map(f).unwrap_or_else(|| ABSENT.to_string())
}

struct B {
    leaves: Vec<Leaf>,
}

impl B {
    fn add(
        &mut self,
        section: &str,
        path: &str,
        base: Base,
        opt: bool,
        default: Option<String>,
        get: impl Fn(&Config) -> String + Send + Sync + 'static,
    ) {
        self.leaves.push(Leaf {
            path: path.to_string(),
            base,
            opt,
            default: if opt { Some("None".into()) } else { default },
            section: section.to_string(),
            get: Box::new(get),
        });
    }
}

const U16: u64 = u16::MAX as u64;
const U32: u64 = u32::MAX as u64;
const USIZE: u64 = u64::MAX;

pub const STORAGE: &[(&str, &str)] = &[("memory", "Memory"), ("redis", "Redis")];
pub const AUTH: &[(&str, &str)] = &[("anonymous", "Anonymous"), ("deny", "Deny")];
pub const ALGORITHMS: &[(&str, &str)] = &[
    ("hmac-sha256", "HmacSha256"),
    ("ed25519", "Ed25519"),
    ("ecdsa-p256-sha256", "EcdsaP256"),
    ("ecdsa-p384-sha384", "EcdsaP384"),
];
const COMPONENTS: &[(&str, &str)] = &[
    ("method", "Method"),
    ("target_uri", "TargetUri"),
    ("authority", "Authority"),
    ("scheme", "Scheme"),
    ("request_target", "RequestTarget"),
    ("path", "Path"),
];

fn q(v: &str) -> Option<String> {
    Some(v.r())
}
fn p(v: &str) -> Option<String> {
    Some(v.to_string())
}

type Get<T> = fn(&Config) -> Option<&T>;

fn exporters(b: &mut B, section: &str, prefix: &str, get: Get<OpenTelemetryExportersConfig>) {
    let sp = format!("{prefix}.stdout");
    let stdout = move |c: &Config| get(c).and_then(|e| e.stdout.clone());
    stdout_leaves(b, &sp, stdout);
    let op = format!("{prefix}.otlp");
    let otlp = move |c: &Config| get(c).and_then(|e| e.otlp.clone());
    otlp_leaves(b, &op, otlp);
    let _ = section;
}

fn batch_leaves(b: &mut B, sec: &str, get: impl Fn(&Config) -> Option<BatchExportConfig> + Copy + Send + Sync + 'static) {
    b.add(sec, &format!("{sec}.scheduled_delay"), Base::Dur, false, p("5s"), move |c| {
        o(get(c).as_ref(), |x| x.scheduled_delay.r())
    });
    b.add(sec, &format!("{sec}.max_queue_size"), Base::Int(USIZE), false, p("2048"), move |c| {
        o(get(c).as_ref(), |x| x.max_queue_size.r())
    });
    b.add(sec, &format!("{sec}.max_export_batch_size"), Base::Int(USIZE), false, p("512"), move |c| {
        o(get(c).as_ref(), |x| x.max_export_batch_size.r())
    });
    b.add(sec, &format!("{sec}.max_concurrent_exports"), Base::Int(USIZE), false, p("1"), move |c| {
        o(get(c).as_ref(), |x| x.max_concurrent_exports.r())
    });
}

fn stdout_leaves(b: &mut B, sec: &str, get: impl Fn(&Config) -> Option<StdoutExporterConfig> + Copy + Send + Sync + 'static) {
    b.add(sec, &format!("{sec}.enabled"), Base::Bool, false, p("true"), move |c| {
        o(get(c).as_ref(), |x| x.enabled.r())
    });
    b.add(sec, &format!("{sec}.timeout"), Base::Dur, false, p("60s"), move |c| {
        o(get(c).as_ref(), |x| x.timeout.r())
    });
    batch_leaves(b, &format!("{sec}.batch_export"), move |c| get(c).and_then(|x| x.batch_export));
}

fn tls_leaves<T: 'static>(
    b: &mut B,
    sec: &str,
    get: impl Fn(&Config) -> Option<T> + Copy + Send + Sync + 'static,
    parts: fn(&T) -> [Option<PathBuf>; 3],
) {
    for (i, name) in ["cert", "key", "ca"].into_iter().enumerate() {
        b.add(sec, &format!("{sec}.{name}"), Base::Str, true, None, move |c| {
            o(get(c).as_ref(), |x| parts(x)[i].r())
        });
    }
}

fn otlp_leaves(b: &mut B, sec: &str, get: impl Fn(&Config) -> Option<OtlpExporterConfig> + Copy + Send + Sync + 'static) {
    b.add(sec, &format!("{sec}.enabled"), Base::Bool, true, None, move |c| {
        o(get(c).as_ref(), |x| x.enabled.r())
    });
    b.add(sec, &format!("{sec}.endpoint"), Base::Url, true, None, move |c| {
        o(get(c).as_ref(), |x| x.endpoint.r())
    });
    b.add(
        sec,
        &format!("{sec}.protocol"),
        Base::Enum(&[("grpc", "Grpc"), ("http", "Http")]),
        true,
        None,
        move |c| o(get(c).as_ref(), |x| x.protocol.r()),
    );
    b.add(sec, &format!("{sec}.timeout"), Base::Dur, true, None, move |c| {
        o(get(c).as_ref(), |x| x.timeout.r())
    });
    batch_leaves(b, &format!("{sec}.batch_export"), move |c| get(c).and_then(|x| x.batch_export));
    let grpc = format!("{sec}.grpc");
    b.add(&grpc, &format!("{grpc}.headers"), Base::MapAscii, false, p("{}"), move |c| {
        o(get(c).and_then(|x| x.grpc).as_ref(), |x| x.headers.r())
    });
    let tls = format!("{grpc}.tls");
    let get_tls = move |c: &Config| get(c).and_then(|x| x.grpc).and_then(|x| x.tls);
    b.add(&tls, &format!("{tls}.domain_name"), Base::Str, true, None, move |c| {
        o(get_tls(c).as_ref(), |x| x.domain_name.r())
    });
    tls_leaves(b, &tls, get_tls, |x| [x.cert.clone(), x.key.clone(), x.ca.clone()]);
    let http = format!("{sec}.http");
    b.add(&http, &format!("{http}.headers"), Base::MapAscii, false, p("{}"), move |c| {
        o(get(c).and_then(|x| x.http).as_ref(), |x| x.headers.r())
    });
}

fn signature_leaves(
    b: &mut B,
    sec: &str,
    prefix: &str,
    get: impl Fn(&Config) -> Option<&MessageSignaturesConfig> + Copy + Send + Sync + 'static,
) {
    b.add(sec, &format!("{prefix}.enabled"), Base::Bool, true, None, move |c| o(get(c), |x| x.enabled.r()));
    b.add(sec, &format!("{prefix}.algorithm"), Base::Enum(ALGORITHMS), true, None, move |c| {
        o(get(c), |x| x.algorithm.r())
    });
    b.add(sec, &format!("{prefix}.expiry"), Base::Dur, true, None, move |c| o(get(c), |x| x.expiry.r()));
    b.add(sec, &format!("{prefix}.headers.include"), Base::VecStr, true, None, move |c| {
        o(get(c), |x| x.headers.include.r())
    });
    b.add(sec, &format!("{prefix}.headers.exclude"), Base::VecStr, true, None, move |c| {
        o(get(c), |x| x.headers.exclude.r())
    });
    b.add(sec, &format!("{prefix}.derived_components"), Base::VecEnum(COMPONENTS), true, None, move |c| {
        o(get(c), |x| x.derived_components.r())
    });
    b.add(sec, &format!("{prefix}.signature_parameters"), Base::VecEnum(&[("nonce", "Nonce")]), true, None, move |c| {
        o(get(c), |x| x.signature_parameters.r())
    });
    use gateway_config::message_signatures::MessageSigningKey as K;
    let key = format!("{prefix}.key");
    let k = move |c: &Config| get(c).and_then(|x| x.key.clone());
    b.add(&key, &format!("{key}.file"), Base::Str, true, None, move |c| {
        o(k(c).as_ref(), |x| match x {
            K::File { name, .. } => Some(name.clone()).r(),
            _ => "None".into(),
        })
    });
    b.add(&key, &format!("{key}.inline"), Base::Str, true, None, move |c| {
        o(k(c).as_ref(), |x| match x {
            K::Inline { contents, .. } => Some(contents.clone()).r(),
            _ => "None".into(),
        })
    });
    b.add(&key, &format!("{key}.id"), Base::Str, true, None, move |c| {
        o(k(c).as_ref(), |x| x.id().map(|x| x.to_string()).r())
    });
}

fn retry_leaves(b: &mut B, sec: &str, prefix: &str, get: impl Fn(&Config) -> Option<RetryConfig> + Copy + Send + Sync + 'static) {
    b.add(sec, &format!("{prefix}.enabled"), Base::Bool, false, p("false"), move |c| o(get(c).as_ref(), |x| x.enabled.r()));
    b.add(sec, &format!("{prefix}.min_per_second"), Base::Int(U32), true, None, move |c| {
        o(get(c).as_ref(), |x| x.min_per_second.r())
    });
    b.add(sec, &format!("{prefix}.ttl"), Base::Dur, true, None, move |c| o(get(c).as_ref(), |x| x.ttl.r()));
    b.add(sec, &format!("{prefix}.retry_percent"), Base::F32, true, None, move |c| {
        o(get(c).as_ref(), |x| x.retry_percent.r())
    });
    b.add(sec, &format!("{prefix}.retry_mutations"), Base::Bool, false, p("false"), move |c| {
        o(get(c).as_ref(), |x| x.retry_mutations.r())
    });
}

macro_rules! leaf {
    ($b:expr, $section:expr, $path:expr, $base:expr, opt, $get:expr) => {
        $b.add($section, $path, $base, true, None, $get)
    };
    ($b:expr, $section:expr, $path:expr, $base:expr, $default:expr, $get:expr) => {
        $b.add($section, $path, $base, false, $default, $get)
    };
}

pub fn schema() -> Schema {
    let mut builder = B { leaves: Vec::new() };
    let b = &mut builder;

    leaf!(b, "", "graph.path", Base::Str, q("/graphql"), |c| c.graph.path.r());
    leaf!(b, "", "graph.websocket_path", Base::Str, q("/ws"), |c| c.graph.websocket_path.r());
    leaf!(b, "", "graph.introspection", Base::Bool, opt, |c| c.graph.introspection.r());
    leaf!(b, "", "graph.contracts.default_key", Base::Str, opt, |c| c.graph.contracts.default_key.r());
    leaf!(b, "", "graph.contracts.cache.max_size", Base::Int(USIZE), p("100"), |c| {
        c.graph.contracts.cache.max_size.r()
    });
    leaf!(b, "", "graph.error_code_mapping", Base::Map, p("{}"), |c| {
        c.graph
            .error_code_mapping
            .iter()
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect::<BTreeMap<_, _>>()
            .r()
    });

    leaf!(b, "", "network.listen_address", Base::Addr, opt, |c| c.network.listen_address.r());

    leaf!(b, "", "gateway.timeout", Base::Dur, p("30s"), |c| c.gateway.timeout.r());
    leaf!(b, "", "gateway.subgraph_timeout", Base::Dur, opt, |c| c.gateway.subgraph_timeout.r());
    leaf!(b, "gateway.rate_limit.global", "gateway.rate_limit.global.limit", Base::Int(USIZE), None, |c| {
        o(c.gateway.rate_limit.as_ref().and_then(|r| r.global.as_ref()), |x| x.limit.r())
    });
    leaf!(b, "gateway.rate_limit.global", "gateway.rate_limit.global.duration", Base::RateDur, None, |c| {
        o(c.gateway.rate_limit.as_ref().and_then(|r| r.global.as_ref()), |x| x.duration.r())
    });
    leaf!(b, "gateway.rate_limit", "gateway.rate_limit.storage", Base::Enum(STORAGE), p("Memory"), |c| {
        o(c.gateway.rate_limit.as_ref(), |x| x.storage.r())
    });
    leaf!(b, "gateway.rate_limit", "gateway.rate_limit.redis.url", Base::Url, q("redis://localhost:6379"), |c| {
        o(c.gateway.rate_limit.as_ref(), |x| x.redis.url.r())
    });
    leaf!(b, "gateway.rate_limit", "gateway.rate_limit.redis.key_prefix", Base::Str, q("grafbase"), |c| {
        o(c.gateway.rate_limit.as_ref(), |x| x.redis.key_prefix.r())
    });
    tls_leaves(
        b,
        "gateway.rate_limit.redis.tls",
        |c| c.gateway.rate_limit.as_ref().and_then(|x| x.redis.tls.clone()),
        |x| [x.cert.clone(), x.key.clone(), x.ca.clone()],
    );
    retry_leaves(b, "", "gateway.retry", |c| Some(c.gateway.retry));
    leaf!(b, "", "gateway.access_logs.enabled", Base::Bool, p("false"), |c| c.gateway.access_logs.enabled.r());
    leaf!(b, "", "gateway.access_logs.path", Base::Str, q(""), |c| c.gateway.access_logs.path.r());
    leaf!(b, "", "gateway.access_logs.rotate", Base::Rotate, p("Never"), |c| c.gateway.access_logs.rotate.r());
    leaf!(
        b,
        "",
        "gateway.access_logs.mode",
        Base::Enum(&[("blocking", "Blocking/false"), ("non_blocking", "NonBlocking/true")]),
        p("Blocking/false"),
        |c| format!("{}/{}", c.gateway.access_logs.mode.r(), c.gateway.access_logs.lossy_log())
    );
    leaf!(b, "", "gateway.batching.enabled", Base::Bool, p("false"), |c| c.gateway.batching.enabled.r());
    leaf!(b, "", "gateway.batching.limit", Base::Int(255), opt, |c| c.gateway.batching.limit.r());
    signature_leaves(b, "", "gateway.message_signatures", |c| Some(&c.gateway.message_signatures));

    leaf!(b, "", "request_body_limit", Base::Size, p("2097152"), |c| c.request_body_limit.r());
    leaf!(b, "", "executable_document_limit", Base::Size, p("32768"), |c| c.executable_document_limit.r());
    leaf!(b, "", "csrf.enabled", Base::Bool, p("false"), |c| c.csrf.enabled.r());
    leaf!(b, "", "csrf.header_name", Base::Str, q("X-Grafbase-CSRF-Protection"), |c| c.csrf.header_name.r());

    leaf!(b, "cors", "cors.allow_credentials", Base::Bool, p("false"), |c| o(c.cors.as_ref(), |x| {
        x.allow_credentials.r()
    }));
    leaf!(b, "cors", "cors.allow_origins", Base::AnyUrl, opt, |c| o(c.cors.as_ref(), |x| x.allow_origins.r()));
    leaf!(b, "cors", "cors.max_age", Base::Dur, opt, |c| o(c.cors.as_ref(), |x| x.max_age.r()));
    leaf!(b, "cors", "cors.allow_methods", Base::AnyMethod, opt, |c| o(c.cors.as_ref(), |x| x.allow_methods.r()));
    leaf!(b, "cors", "cors.allow_headers", Base::AnyAscii, opt, |c| o(c.cors.as_ref(), |x| x.allow_headers.r()));
    leaf!(b, "cors", "cors.expose_headers", Base::AnyAscii, opt, |c| o(c.cors.as_ref(), |x| x.expose_headers.r()));
    leaf!(b, "cors", "cors.allow_private_network", Base::Bool, p("false"), |c| o(c.cors.as_ref(), |x| {
        x.allow_private_network.r()
    }));

    leaf!(b, "tls", "tls.certificate", Base::Str, None, |c| o(c.tls.as_ref(), |x| x.certificate.r()));
    leaf!(b, "tls", "tls.key", Base::Str, None, |c| o(c.tls.as_ref(), |x| x.key.r()));

    leaf!(b, "", "traffic_shaping.inflight_deduplication", Base::Bool, p("true"), |c| {
        c.traffic_shaping.inflight_deduplication.r()
    });

    let ol: fn(&Config, fn(&OperationLimitsConfig) -> Option<u16>) -> String =
        |c, f| o(c.operation_limits.as_ref(), |x| f(x).r());
    leaf!(b, "operation_limits", "operation_limits.depth", Base::Int(U16), opt, move |c| ol(c, |x| x.depth));
    leaf!(b, "operation_limits", "operation_limits.height", Base::Int(U16), opt, move |c| ol(c, |x| x.height));
    leaf!(b, "operation_limits", "operation_limits.aliases", Base::Int(U16), opt, move |c| ol(c, |x| x.aliases));
    leaf!(b, "operation_limits", "operation_limits.root_fields", Base::Int(U16), opt, move |c| ol(c, |x| x
        .root_fields));
    leaf!(b, "operation_limits", "operation_limits.complexity", Base::Int(U16), opt, move |c| ol(c, |x| x
        .complexity));

    leaf!(b, "", "telemetry.service_name", Base::Str, q("grafbase-gateway"), |c| c.telemetry.service_name.r());
    leaf!(b, "", "telemetry.resource_attributes", Base::MapAscii, p("{}"), |c| {
        c.telemetry
            .resource_attributes
            .iter()
            .map(|(k, v)| (k.to_string(), v.to_string()))
            .collect::<BTreeMap<_, _>>()
            .r()
    });
    stdout_leaves(b, "telemetry.exporters.stdout", |c| c.telemetry.exporters.stdout.clone());
    otlp_leaves(b, "telemetry.exporters.otlp", |c| c.telemetry.exporters.otlp.clone());
    let re = "telemetry.exporters.response_extension";
    leaf!(b, re, &format!("{re}.trace_id"), Base::Bool, p("true"), |c| o(
        c.telemetry.exporters.response_extension.as_ref(),
        |x| x.trace_id.r()
    ));
    leaf!(b, re, &format!("{re}.query_plan"), Base::Bool, p("true"), |c| o(
        c.telemetry.exporters.response_extension.as_ref(),
        |x| x.query_plan.r()
    ));
    leaf!(b, re, &format!("{re}.access_control"), Base::Access, p("[header(x-grafbase-telemetry, None)]"), |c| o(
        c.telemetry.exporters.response_extension.as_ref(),
        |x| x.access_control.r()
    ));
    exporters(b, "telemetry.logs", "telemetry.logs.exporters", |c| c.telemetry.logs.as_ref().map(|x| &x.exporters));
    exporters(b, "telemetry.metrics", "telemetry.metrics.exporters", |c| {
        c.telemetry.metrics.as_ref().map(|x| &x.exporters)
    });
    exporters(b, "", "telemetry.tracing.exporters", |c| Some(&c.telemetry.tracing.exporters));
    otlp_leaves(b, "telemetry.grafbase", |c| c.telemetry.grafbase.clone());
    leaf!(b, "", "telemetry.tracing.sampling", Base::Sampling, p("0.15"), |c| c.telemetry.tracing.sampling.r());
    leaf!(b, "", "telemetry.tracing.parent_based_sampler", Base::Bool, p("false"), |c| {
        c.telemetry.tracing.parent_based_sampler.r()
    });
    let tc: [(&str, fn(&TracingCollectConfig) -> usize); 5] = [
        ("max_events_per_span", |x| x.max_events_per_span),
        ("max_attributes_per_span", |x| x.max_attributes_per_span),
        ("max_links_per_span", |x| x.max_links_per_span),
        ("max_attributes_per_event", |x| x.max_attributes_per_event),
        ("max_attributes_per_link", |x| x.max_attributes_per_link),
    ];
    for (name, f) in tc {
        leaf!(b, "", &format!("telemetry.tracing.collect.{name}"), Base::Int(USIZE), p("128"), move |c| {
            f(&c.telemetry.tracing.collect).r()
        });
    }
    leaf!(b, "", "telemetry.tracing.propagation.trace_context", Base::Bool, p("false"), |c| {
        c.telemetry.tracing.propagation.trace_context.r()
    });
    leaf!(b, "", "telemetry.tracing.propagation.baggage", Base::Bool, p("false"), |c| {
        c.telemetry.tracing.propagation.baggage.r()
    });
    leaf!(b, "", "telemetry.tracing.propagation.aws_xray", Base::Bool, p("false"), |c| {
        c.telemetry.tracing.propagation.aws_xray.r()
    });

    leaf!(b, "", "trusted_documents.enabled", Base::Bool, p("false"), |c| c.trusted_documents.enabled.r());
    leaf!(b, "", "trusted_documents.enforced", Base::Bool, p("false"), |c| c.trusted_documents.enforced.r());
    leaf!(b, "", "trusted_documents.bypass_header_name", Base::Ascii, opt, |c| {
        c.trusted_documents.bypass_header.bypass_header_name.r()
    });
    leaf!(b, "", "trusted_documents.bypass_header_value", Base::Str, opt, |c| {
        c.trusted_documents.bypass_header.bypass_header_value.r()
    });
    leaf!(b, "", "trusted_documents.document_id_unknown_log_level", Base::Level, p("info"), |c| {
        c.trusted_documents.document_id_unknown_log_level.r()
    });
    leaf!(b, "", "trusted_documents.document_id_and_query_mismatch_log_level", Base::Level, p("info"), |c| {
        c.trusted_documents.document_id_and_query_mismatch_log_level.r()
    });
    leaf!(b, "", "trusted_documents.inline_document_unknown_log_level", Base::Level, p("info"), |c| {
        c.trusted_documents.inline_document_unknown_log_level.r()
    });

    leaf!(b, "", "authentication.default", Base::Enum(AUTH), opt, |c| c.authentication.default.r());
    leaf!(b, "", "authentication.protected_resources.graphql.extensions", Base::VecStr, opt, |c| {
        c.authentication.protected_resources.graphql.extensions.r()
    });
    leaf!(b, "", "authentication.protected_resources.graphql.default", Base::Enum(AUTH), opt, |c| {
        c.authentication.protected_resources.graphql.default.r()
    });
    leaf!(b, "", "authentication.protected_resources.mcp.extensions", Base::VecStr, opt, |c| {
        c.authentication.protected_resources.mcp.extensions.r()
    });
    leaf!(b, "", "authentication.protected_resources.mcp.default", Base::Enum(AUTH), opt, |c| {
        c.authentication.protected_resources.mcp.default.r()
    });

    type Sub = fn(&Config) -> Option<&SubgraphConfig>;
    let sg: Sub = |c| c.subgraphs.get("products");
    let sp = "subgraphs.products";
    leaf!(b, sp, &format!("{sp}.url"), Base::Url, opt, move |c| o(sg(c), |x| x.url.r()));
    leaf!(b, sp, &format!("{sp}.websocket_url"), Base::Url, opt, move |c| o(sg(c), |x| x.websocket_url.r()));
    let rl = format!("{sp}.rate_limit");
    leaf!(b, &rl, &format!("{rl}.limit"), Base::Int(USIZE), None, move |c| o(
        sg(c).and_then(|x| x.rate_limit.as_ref()),
        |x| x.limit.r()
    ));
    leaf!(b, &rl, &format!("{rl}.duration"), Base::RateDur, None, move |c| o(
        sg(c).and_then(|x| x.rate_limit.as_ref()),
        |x| x.duration.r()
    ));
    leaf!(b, sp, &format!("{sp}.timeout"), Base::Dur, p("30s"), move |c| o(sg(c), |x| x.timeout.r()));
    retry_leaves(b, &format!("{sp}.retry"), &format!("{sp}.retry"), move |c| sg(c).and_then(|x| x.retry));
    let ec = format!("{sp}.entity_caching");
    leaf!(b, &ec, &format!("{ec}.enabled"), Base::Bool, opt, move |c| o(
        sg(c).and_then(|x| x.entity_caching.as_ref()),
        |x| x.enabled.r()
    ));
    leaf!(b, &ec, &format!("{ec}.ttl"), Base::Dur, opt, move |c| o(
        sg(c).and_then(|x| x.entity_caching.as_ref()),
        |x| x.ttl.r()
    ));
    signature_leaves(
        b,
        &format!("{sp}.message_signatures"),
        &format!("{sp}.message_signatures"),
        move |c| sg(c).and_then(|x| x.message_signatures.as_ref()),
    );
    leaf!(b, sp, &format!("{sp}.schema_path"), Base::Str, opt, move |c| o(sg(c), |x| x.schema_path.r()));
    leaf!(b, sp, &format!("{sp}.introspection_url"), Base::Url, opt, move |c| o(sg(c), |x| x.introspection_url.r()));
    leaf!(b, sp, &format!("{sp}.introspection_headers"), Base::Map, opt, move |c| o(sg(c), |x| x
        .introspection_headers
        .r()));
    leaf!(
        b,
        sp,
        &format!("{sp}.subscription_protocol"),
        Base::Enum(&[("server_sent_events", "ServerSentEvents"), ("websocket", "Websocket")]),
        opt,
        move |c| o(sg(c), |x| x.subscription_protocol.r())
    );
    let mt = format!("{sp}.mtls");
    leaf!(b, &mt, &format!("{mt}.identity"), Base::Str, opt, move |c| o(
        sg(c).and_then(|x| x.mtls.as_ref()),
        |x| x.identity.r()
    ));
    leaf!(b, &mt, &format!("{mt}.accept_invalid_certs"), Base::Bool, p("false"), move |c| o(
        sg(c).and_then(|x| x.mtls.as_ref()),
        |x| x.accept_invalid_certs.r()
    ));
    let rt = format!("{mt}.root");
    leaf!(b, &rt, &format!("{rt}.certificate"), Base::Str, None, move |c| o(
        sg(c).and_then(|x| x.mtls.as_ref()).and_then(|x| x.root.as_ref()),
        |x| x.certificate.r()
    ));
    leaf!(b, &rt, &format!("{rt}.is_bundle"), Base::Bool, p("false"), move |c| o(
        sg(c).and_then(|x| x.mtls.as_ref()).and_then(|x| x.root.as_ref()),
        |x| x.is_bundle.r()
    ));

    leaf!(b, "hooks", "hooks.location", Base::Str, q(""), |c| o(c.hooks.as_ref(), |x| x.location.r()));
    leaf!(b, "hooks", "hooks.networking", Base::Bool, p("false"), |c| o(c.hooks.as_ref(), |x| x.networking.r()));
    leaf!(b, "hooks", "hooks.environment_variables", Base::Bool, p("false"), |c| o(c.hooks.as_ref(), |x| {
        x.environment_variables.r()
    }));
    leaf!(b, "hooks", "hooks.stdout", Base::Bool, p("false"), |c| o(c.hooks.as_ref(), |x| x.stdout.r()));
    leaf!(b, "hooks", "hooks.stderr", Base::Bool, p("false"), |c| o(c.hooks.as_ref(), |x| x.stderr.r()));
    leaf!(b, "hooks", "hooks.preopened_directories", Base::Preopened, p("[]"), |c| o(c.hooks.as_ref(), |x| {
        x.preopened_directories.r()
    }));
    leaf!(b, "hooks", "hooks.max_pool_size", Base::Int(USIZE), opt, |c| o(c.hooks.as_ref(), |x| x.max_pool_size.r()));

    type Ext = fn(&Config) -> Option<&ExtensionConfig>;
    let ex: Ext = |c| c.extensions.get("auth");
    let ep = "extensions.auth";
    leaf!(b, ep, &format!("{ep}.version"), Base::Version, p("*"), move |c| o(ex(c), |x| x.version().r()));
    leaf!(b, ep, &format!("{ep}.path"), Base::Str, opt, move |c| o(ex(c), |x| x.path().map(|p| p.to_path_buf()).r()));
    leaf!(b, ep, &format!("{ep}.networking"), Base::Bool, opt, move |c| o(ex(c), |x| x.networking().r()));
    leaf!(b, ep, &format!("{ep}.stdout"), Base::Bool, opt, move |c| o(ex(c), |x| x.stdout().r()));
    leaf!(b, ep, &format!("{ep}.stderr"), Base::Bool, opt, move |c| o(ex(c), |x| x.stderr().r()));
    leaf!(b, ep, &format!("{ep}.environment_variables"), Base::Bool, opt, move |c| o(ex(c), |x| x
        .environment_variables()
        .r()));
    leaf!(b, ep, &format!("{ep}.max_pool_size"), Base::Int(USIZE), opt, move |c| o(ex(c), |x| x.max_pool_size().r()));
    leaf!(b, ep, &format!("{ep}.config"), Base::Anything, opt, move |c| o(ex(c), |x| x.config().cloned().r()));
    leaf!(b, "extensions.short", "extensions.short", Base::Version, None, |c| o(c.extensions.get("short"), |x| {
        x.version().r()
    }));

    leaf!(b, "", "health.enabled", Base::Bool, p("true"), |c| c.health.enabled.r());
    leaf!(b, "", "health.listen", Base::Addr, opt, |c| c.health.listen.r());
    leaf!(b, "", "health.path", Base::Str, q("/health"), |c| c.health.path.to_string().r());

    leaf!(b, "", "entity_caching.enabled", Base::Bool, p("false"), |c| c.entity_caching.enabled.r());
    leaf!(b, "", "entity_caching.storage", Base::Enum(STORAGE), p("Memory"), |c| c.entity_caching.storage.r());
    leaf!(b, "", "entity_caching.ttl", Base::Dur, p("60s"), |c| c.entity_caching.ttl.r());
    leaf!(b, "", "entity_caching.redis.url", Base::Url, q("redis://localhost:6379"), |c| {
        c.entity_caching.redis.url.r()
    });
    leaf!(b, "", "entity_caching.redis.key_prefix", Base::Str, q("grafbase-cache"), |c| {
        c.entity_caching.redis.key_prefix.r()
    });
    tls_leaves(
        b,
        "entity_caching.redis.tls",
        |c| c.entity_caching.redis.tls.clone(),
        |x| [x.cert.clone(), x.key.clone(), x.ca.clone()],
    );

    leaf!(
        b,
        "",
        "complexity_control.mode",
        Base::Enum(&[("measure", "Measure"), ("enforce", "Enforce")]),
        opt,
        |c| c.complexity_control.mode.r()
    );
    leaf!(b, "", "complexity_control.limit", Base::Int(USIZE), opt, |c| c.complexity_control.limit.r());
    leaf!(b, "", "complexity_control.list_size", Base::Int(USIZE), opt, |c| c.complexity_control.list_size.r());
    leaf!(b, "", "apq.enabled", Base::Bool, p("true"), |c| c.apq.enabled.r());

    leaf!(b, "", "operation_caching.enabled", Base::Bool, p("true"), |c| c.operation_caching.enabled.r());
    leaf!(b, "", "operation_caching.limit", Base::Int(USIZE), p("1000"), |c| c.operation_caching.limit.r());
    leaf!(b, "", "operation_caching.warm_on_reload", Base::Bool, p("false"), |c| {
        c.operation_caching.warm_on_reload.r()
    });
    leaf!(b, "", "operation_caching.warming_percent", Base::Int(255), p("100"), |c| {
        c.operation_caching.warming_percent.r()
    });
    let or = "operation_caching.redis";
    leaf!(b, or, "operation_caching.redis.url", Base::Url, q("redis://localhost:6379"), |c| o(
        c.operation_caching.redis.as_ref(),
        |x| x.url.r()
    ));
    leaf!(b, or, "operation_caching.redis.key_prefix", Base::Str, q("grafbase-operation-cache"), |c| o(
        c.operation_caching.redis.as_ref(),
        |x| x.key_prefix.r()
    ));
    tls_leaves(
        b,
        "operation_caching.redis.tls",
        |c| c.operation_caching.redis.as_ref().and_then(|x| x.tls.clone()),
        |x| [x.cert.clone(), x.key.clone(), x.ca.clone()],
    );

    leaf!(b, "", "websockets.forward_connection_init_payload", Base::Bool, p("true"), |c| {
        c.websockets.forward_connection_init_payload.r()
    });

    leaf!(b, "mcp", "mcp.enabled", Base::Bool, p("false"), |c| o(c.mcp.as_ref(), |x| x.enabled.r()));
    leaf!(b, "mcp", "mcp.path", Base::Str, q("/mcp"), |c| o(c.mcp.as_ref(), |x| x.path.r()));
    leaf!(b, "mcp", "mcp.execute_mutations", Base::Bool, p("false"), |c| o(c.mcp.as_ref(), |x| {
        x.execute_mutations.r()
    }));
    leaf!(
        b,
        "mcp",
        "mcp.transport",
        Base::Enum(&[("streaming-http", "StreamingHttp"), ("sse", "Sse")]),
        p("StreamingHttp"),
        |c| o(c.mcp.as_ref(), |x| x.transport.r())
    );
    leaf!(b, "wasm", "wasm.cache_path", Base::Str, opt, |c| o(c.wasm.as_ref(), |x| x.cache_path.r()));

    Schema { leaves: builder.leaves }
}

/// A document: the settings it makes, and sections that it only mentions.
#[derive(Clone, Default, Debug)]
pub struct Doc {
    pub set: Vec<(String, Lit)>,
    pub mentioned: Vec<String>,
    pub extra: Vec<String>,
}

fn below(path: &str, section: &str) -> bool {
    section.is_empty() || path == section || (path.starts_with(section) && path[section.len()..].starts_with('.'))
}

impl Doc {
    pub fn toml(&self) -> String {
        let mut out = String::new();
        for line in &self.extra {
            out.push_str(line);
            out.push('\n');
        }
        for (path, lit) in &self.set {
            out.push_str(&format!("{path} = {}\n", lit.toml()));
        }
        for section in &self.mentioned {
            out.push_str(&format!("{section} = {{}}\n"));
        }
        out
    }

    fn present(&self, section: &str) -> bool {
        self.set.iter().any(|(path, _)| below(path, section)) || self.mentioned.iter().any(|m| below(m, section))
    }

    /// What every setting should be, or why the document has to be refused.
    pub fn expected(&self, schema: &Schema) -> Result<Vec<String>, String> {
        // A signing key is a file or an inline key.
        for key in ["gateway.message_signatures.key", "subgraphs.products.message_signatures.key"] {
            if self.present(key) {
                let has = |name: &str| self.set.iter().any(|(path, _)| *path == format!("{key}.{name}"));
                if has("file") == has("inline") {
                    return Err(format!("{key} needs one of file and inline"));
                }
            }
        }
        schema
            .leaves
            .iter()
            .map(|leaf| {
                if let Some((_, lit)) = self.set.iter().find(|(path, _)| *path == leaf.path) {
                    return leaf.read(lit).ok_or_else(|| format!("{} cannot be {}", leaf.path, lit.toml()));
                }
                if !self.present(&leaf.section) {
                    return Ok(ABSENT.to_string());
                }
                leaf.default.clone().ok_or_else(|| format!("{} is missing", leaf.path))
            })
            .collect()
    }
}
