//! Which exporter settings a signal ends up with.
use gateway_config::*;
use std::time::Duration;
use vmc::{Case, Check};

/// One `otlp` table: what it sets.
#[derive(Clone, Copy, Default, Debug)]
struct Table {
    there: bool,
    enabled: Option<bool>,
    endpoint: Option<&'static str>,
    protocol: Option<&'static str>,
    timeout: Option<u64>,
    delay: Option<u64>,
    grpc: Option<&'static str>,
    http: Option<&'static str>,
}

impl Table {
    fn toml(&self, path: &str) -> String {
        if !self.there {
            return String::new();
        }
        let mut out = format!("[{path}]\n");
        if let Some(v) = self.enabled {
            out.push_str(&format!("enabled = {v}\n"));
        }
        if let Some(v) = self.endpoint {
            out.push_str(&format!("endpoint = \"{v}\"\n"));
        }
        if let Some(v) = self.protocol {
            out.push_str(&format!("protocol = \"{v}\"\n"));
        }
        if let Some(v) = self.timeout {
            out.push_str(&format!("timeout = \"{v}s\"\n"));
        }
        if let Some(v) = self.delay {
            out.push_str(&format!("batch_export.scheduled_delay = \"{v}s\"\n"));
        }
        if let Some(v) = self.grpc {
            out.push_str(&format!("grpc.headers = {{ x = \"{v}\" }}\n"));
        }
        if let Some(v) = self.http {
            out.push_str(&format!("http.headers = {{ x = \"{v}\" }}\n"));
        }
        out
    }
}

fn table(c: &mut Case, base: u64, names: [&'static str; 3], full: bool) -> Table {
    if !c.flag() {
        return Table::default();
    }
    let opt = |c: &mut Case| c.flag();
    Table {
        there: true,
        enabled: *c.pick(&[None, Some(true), Some(false)]),
        endpoint: (full && opt(c)).then_some(names[0]),
        protocol: *c.pick(&[None, Some("http"), Some("grpc")]),
        timeout: opt(c).then_some(base),
        delay: opt(c).then_some(base + 1),
        grpc: opt(c).then_some(names[1]),
        http: opt(c).then_some(names[2]),
    }
}

type Otlp = fn(&TelemetryConfig) -> Option<LayeredOtlExporterConfig>;
const SIGNALS: [(&str, Otlp); 3] = [
    ("tracing", |c| c.tracing_otlp_config()),
    ("metrics", |c| c.metrics_otlp_config()),
    ("logs", |c| c.logs_otlp_config()),
];

fn header(headers: &Headers) -> Option<String> {
    headers.inner().first().map(|(_, v)| v.to_string())
}

/// What the signal should use, given its own table and the global one.
fn judge(c: &mut Case, signal: &str, own: &Table, global: &Table, got: Option<LayeredOtlExporterConfig>) {
    let enabled = own.enabled.or(global.enabled).unwrap_or(false);
    c.outcome(&(signal, enabled));
    if !c.check(got.is_some() == enabled, &format!("{signal}:enabled"), || {
        format!("{signal} is {}, own {own:?}, global {global:?}", if enabled { "off" } else { "on" })
    }) {
        return;
    }
    let Some(got) = got else { return };
    let secs = |v: Option<u64>, default: u64| Duration::from_secs(v.unwrap_or(default));
    c.check_eq(&format!("{signal}:timeout"), &secs(own.timeout.or(global.timeout), 60), &got.timeout(), "timeout");
    let batch = got.batch_export();
    c.check_eq(
        &format!("{signal}:batch"),
        &(secs(own.delay.or(global.delay), 5), 2048, 512, 1),
        &(batch.scheduled_delay, batch.max_queue_size, batch.max_export_batch_size, batch.max_concurrent_exports),
        "batch_export",
    );
    let protocol = own.protocol.or(global.protocol).unwrap_or("grpc");
    let expected = (
        protocol,
        if protocol == "grpc" { own.grpc.or(global.grpc) } else { own.http.or(global.http) }.map(String::from),
    );
    let read = match got.protocol() {
        OtlpExporterProtocolConfig::Grpc(g) => ("grpc", header(&g.headers)),
        OtlpExporterProtocolConfig::Http(h) => ("http", header(&h.headers)),
    };
    c.check_eq(&format!("{signal}:protocol"), &expected, &read, "protocol and headers");
    let endpoint = |c: &OtlpExporterConfig| c.endpoint.as_ref().map(|u| u.to_string());
    c.check_eq(
        &format!("{signal}:endpoint"),
        &(own.endpoint.map(String::from), global.endpoint.map(String::from)),
        &(endpoint(&got.local), endpoint(&got.global)),
        "endpoints of the signal and of all signals",
    );
    c.check(got.is_enabled(), &format!("{signal}:is-enabled"), || "an exporter in use is not enabled".into());
}

fn stdout(c: &mut Case, base: u64) -> Option<(Option<bool>, Option<u64>, Option<u64>)> {
    c.flag().then(|| (*c.pick(&[None, Some(true), Some(false)]), c.flag().then_some(base), c.flag().then_some(base + 1)))
}

type Stdout = Option<(Option<bool>, Option<u64>, Option<u64>)>;

fn stdout_toml(table: &Stdout, path: &str) -> String {
    let Some((enabled, timeout, delay)) = table else { return String::new() };
    let mut out = format!("[{path}]\n");
    if let Some(v) = enabled {
        out.push_str(&format!("enabled = {v}\n"));
    }
    if let Some(v) = timeout {
        out.push_str(&format!("timeout = \"{v}s\"\n"));
    }
    if let Some(v) = delay {
        out.push_str(&format!("batch_export.scheduled_delay = \"{v}s\"\n"));
    }
    out
}

/// The table of the signal counts as a whole when it is there, otherwise the global one.
fn stdout_expected(own: &Stdout, global: &Stdout) -> Option<(u64, Option<u64>)> {
    let (enabled, timeout, delay) = (*own).or(*global)?;
    enabled.unwrap_or(true).then_some((timeout.unwrap_or(60), delay))
}

fn read(c: &mut Case, text: &str) -> Option<Config> {
    c.note(|| text.to_string());
    match toml::from_str::<Config>(text) {
        Ok(config) => Some(config),
        Err(err) => {
            c.fail("refused", err.to_string());
            None
        }
    }
}

pub fn run(check: &Check) {
    check.assume("The tables `batch_export`, `grpc` and `http`, and `stdout`, count as one setting each.");
    check.space("otlp", |c| {
        let which = c.choose(3);
        let global = table(c, 10, ["http://global:1/", "gg", "gh"], true);
        let own = table(c, 20, ["http://own:1/", "og", "oh"], true);
        let others = c.flag();
        let mut text = global.toml("telemetry.exporters.otlp");
        text.push_str(&own.toml(&format!("telemetry.{}.exporters.otlp", SIGNALS[which].0)));
        let far = Table {
            there: true,
            enabled: Some(!own.enabled.or(global.enabled).unwrap_or(false)),
            endpoint: Some("http://far:1/"),
            protocol: Some("http"),
            timeout: Some(70),
            delay: Some(71),
            grpc: Some("fg"),
            http: Some("fh"),
        };
        for (i, (name, _)) in SIGNALS.iter().enumerate() {
            if i != which && others {
                text.push_str(&far.toml(&format!("telemetry.{name}.exporters.otlp")));
            }
        }
        let Some(config) = read(c, &text) else { return };
        let t = &config.telemetry;
        for (i, (name, get)) in SIGNALS.iter().enumerate() {
            let table = if i == which {
                own
            } else if others {
                far
            } else {
                Table::default()
            };
            judge(c, name, &table, &global, get(t));
        }
        let on = |i: usize| SIGNALS[i].1(t).is_some();
        c.check_eq("tracing:any", &on(0), &t.tracing_exporters_enabled(), "some exporter for traces");
        c.check_eq("logs:any", &on(2), &t.logs_exporters_enabled(), "some exporter for logs");
        c.validated(1);
    });

    check.space("stdout", |c| {
        let tables: Vec<Stdout> = (0..4).map(|i| stdout(c, 10 * (i + 1))).collect();
        let mut text = stdout_toml(&tables[3], "telemetry.exporters.stdout");
        for (i, (name, _)) in SIGNALS.iter().enumerate() {
            text.push_str(&stdout_toml(&tables[i], &format!("telemetry.{name}.exporters.stdout")));
        }
        let Some(config) = read(c, &text) else { return };
        let t = &config.telemetry;
        let got = [t.tracing_stdout_config(), t.metrics_stdout_config(), t.logs_stdout_config()];
        for (i, (name, _)) in SIGNALS.iter().enumerate() {
            let read = got[i].map(|s| (s.timeout.as_secs(), s.batch_export.map(|b| b.scheduled_delay.as_secs())));
            c.check_eq(&format!("{name}:stdout"), &stdout_expected(&tables[i], &tables[3]), &read, "stdout exporter");
        }
        c.check_eq("tracing:any-stdout", &got[0].is_some(), &t.tracing_exporters_enabled(), "some exporter for traces");
        c.check_eq("logs:any-stdout", &got[2].is_some(), &t.logs_exporters_enabled(), "some exporter for logs");
        c.outcome(&(got[0].is_some(), got[1].is_some(), got[2].is_some()));
        c.validated(1);
    });

    check.space("grafbase", |c| {
        let own = table(c, 10, ["http://gb:1/", "gg", "gh"], true);
        let global = if c.flag() {
            Table { there: true, enabled: Some(c.flag()), endpoint: Some("http://global:1/"), protocol: Some("http"), timeout: Some(30), delay: Some(31), grpc: Some("x"), http: Some("y") }
        } else {
            Table::default()
        };
        let mut text = own.toml("telemetry.grafbase");
        text.push_str(&global.toml("telemetry.exporters.otlp"));
        let Some(config) = read(c, &text) else { return };
        let t = &config.telemetry;
        let expected = own.there && own.enabled.unwrap_or(true);
        let got = t.grafbase_otlp_config();
        c.check_eq("grafbase:enabled", &expected, &got.is_some(), "export to Grafbase");
        if let Some(got) = got {
            let secs = |v: Option<u64>, default: u64| Duration::from_secs(v.unwrap_or(default));
            c.check_eq("grafbase:timeout", &secs(own.timeout, 60), &got.timeout(), "timeout");
            c.check_eq("grafbase:batch", &secs(own.delay, 5), &got.batch_export().scheduled_delay, "batch_export");
            let read = match got.protocol() {
                OtlpExporterProtocolConfig::Grpc(g) => ("grpc", header(&g.headers)),
                OtlpExporterProtocolConfig::Http(h) => ("http", header(&h.headers)),
            };
            let protocol = own.protocol.unwrap_or("grpc");
            let expected = (protocol, if protocol == "grpc" { own.grpc } else { own.http }.map(String::from));
            c.check_eq("grafbase:protocol", &expected, &read, "protocol and headers");
        }
        c.check_eq(
            "tracing:any-grafbase",
            &(expected || t.tracing_otlp_config().is_some()),
            &t.tracing_exporters_enabled(),
            "some exporter for traces",
        );
        for (name, get) in SIGNALS {
            judge(c, name, &Table::default(), &global, get(t));
        }
        c.validated(1);
    });
}
