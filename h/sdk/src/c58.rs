//! Logging: what an extension logs reaches the gateway when the filter lets it, with its level, text and fields.
use crate::common::init;
use grafbase_sdk::{
    host_io::logger::{log, FileLogger, LogRotation},
    types::*,
    vmc_hooks::host::logger::{FileLoggerOptions, FileLoggerRotation, LogEntry, LogField, LogLevel, ENTRIES, FILES},
    ContractsExtension,
};
use log::{kv::Value, Level, LevelFilter, Log, Record};
use serde_json::json;
use std::{collections::BTreeMap, process::Command};
use vmc::{Case, Check};

struct Ext;
impl ContractsExtension for Ext {
    fn new(_: Configuration) -> Result<Self, Error> {
        Ok(Ext)
    }
    fn construct(&mut self, _: String, _: Vec<ContractDirective<'_>>, _: Vec<GraphqlSubgraph>) -> Result<Contract, Error> {
        unreachable!()
    }
}
fn start(filter: &str) {
    grafbase_sdk::extension::contracts::register::<Ext>();
    init(vec![], &crate::cbor::enc(&crate::cbor::V::Map(vec![])), true, filter).unwrap();
}
const LEVELS: [Level; 5] = [Level::Error, Level::Warn, Level::Info, Level::Debug, Level::Trace];
const TARGETS: [&str; 5] = ["app", "app::sub", "application", "other", "extension"];
pub const ENV: &str = "VMC_LOG_FILTER";
/// In a process of its own: which records reach the gateway with the filter.
pub fn child(filter: &str) {
    start(filter);
    for t in TARGETS {
        for l in LEVELS {
            let enabled = log::log_enabled!(target: t, l);
            log::log!(target: t, l, "m");
            let got = ENTRIES.with(|e| std::mem::take(&mut *e.borrow_mut()));
            print!("{}", if enabled != (got.len() == 1) { 'x' } else { (b'0' + got.len() as u8) as char });
        }
    }
}

/// A part of a filter, its meaning.
#[derive(Clone, Copy)]
enum Part {
    Level(LevelFilter),
    Extension(LevelFilter),
    Target(&'static str, LevelFilter),
    Nothing,
}
fn parts(few: bool) -> Vec<(String, Part)> {
    use LevelFilter::*;
    let levels = [("off", Off), ("error", Error), ("warn", Warn), ("info", Info), ("debug", Debug), ("trace", Trace)];
    let mut v = Vec::new();
    for (s, l) in levels {
        v.push((s.to_string(), Part::Level(l)));
        v.push((format!("extension={s}"), Part::Extension(l)));
    }
    v.push(("INFO".into(), Part::Level(Info)));
    v.push(("extension=DEBUG".into(), Part::Extension(Debug)));
    v.push(("app=debug".into(), Part::Target("app", Debug)));
    v.push(("app::sub=off".into(), Part::Target("app::sub", Off)));
    v.push(("".into(), Part::Nothing));
    if !few {
        v.push((" warn ".into(), Part::Level(Warn)));
        v.push((" extension=trace".into(), Part::Extension(Trace)));
        v.push(("app=wat".into(), Part::Nothing));
        v.push(("app=info".into(), Part::Target("app", Info)));
        v.push(("app::sub".into(), Part::Target("app::sub", Trace)));
        v.push(("other=warn".into(), Part::Target("other", Warn)));
        v.push(("extensions=trace".into(), Part::Target("extensions", Trace)));
        v.push(("a=b=debug".into(), Part::Nothing));
    }
    v
}
fn filters(c: &mut Case) {
    let n = 1 + c.choose(3);
    let vocabulary = parts(n == 3 && !c.thorough());
    let chosen: Vec<_> = (0..n).map(|_| vocabulary[c.choose(vocabulary.len())].clone()).collect();
    let filter = chosen.iter().map(|p| p.0.as_str()).collect::<Vec<_>>().join(",");
    c.note(|| format!("{filter:?}"));
    // The model.
    let (mut global, mut extension) = (None, None);
    let mut targets: BTreeMap<&str, LevelFilter> = BTreeMap::new();
    for (_, p) in &chosen {
        match *p {
            Part::Level(l) => global = Some(l),
            Part::Extension(l) => extension = Some(l),
            Part::Target(t, l) => {
                targets.insert(t, l);
            }
            Part::Nothing => {}
        }
    }
    let fallback = extension.or(global).unwrap_or(if targets.is_empty() { LevelFilter::Error } else { LevelFilter::Off });
    let mut want = String::new();
    for t in TARGETS {
        let own = targets.iter().filter(|(p, _)| t.starts_with(**p)).max_by_key(|(p, _)| p.len());
        let max = own.map_or(fallback, |o| *o.1);
        for l in LEVELS {
            want.push(if l <= max { '1' } else { '0' });
        }
    }
    // The code.
    let out = Command::new(std::env::current_exe().unwrap()).env(ENV, &filter).output().unwrap();
    let got = String::from_utf8_lossy(&out.stdout).into_owned();
    c.check_eq("logged", &want, &got, &format!("{filter:?}: per target {TARGETS:?} and level"));
    c.outcome(&got);
}

// ---------------------------------------------------------------- fields
struct Shown;
impl std::fmt::Debug for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Debug é")
    }
}
impl std::fmt::Display for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Display \n")
    }
}
fn s(v: impl ToString) -> Option<LogField> {
    Some(LogField::String(v.to_string()))
}
fn values() -> Vec<(Value<'static>, Option<LogField>)> {
    let (i, u, f) = (LogField::I64, LogField::U64, LogField::F64);
    vec![
        (Value::from(true), Some(LogField::Bool(true))),
        (Value::from(false), Some(LogField::Bool(false))),
        (Value::from(-1i8), Some(i(-1))),
        (Value::from(i16::MIN), Some(i(i16::MIN as i64))),
        (Value::from(7i32), Some(i(7))),
        (Value::from(i64::MIN), Some(i(i64::MIN))),
        (Value::from(i64::MAX), Some(i(i64::MAX))),
        (Value::from(isize::MIN), Some(i(i64::MIN))),
        (Value::from(255u8), Some(u(255))),
        (Value::from(u16::MAX), Some(u(u16::MAX as u64))),
        (Value::from(u32::MAX), Some(u(u32::MAX as u64))),
        (Value::from(u64::MAX), Some(u(u64::MAX))),
        (Value::from(usize::MAX), Some(u(u64::MAX))),
        (Value::from(1.5f32), Some(f(1.5))),
        (Value::from(-0.1f64), Some(f(-0.1))),
        (Value::from(f64::INFINITY), Some(f(f64::INFINITY))),
        (Value::from('é'), s("é")),
        (Value::from(""), s("")),
        (Value::from("text \"é\"\n"), s("text \"é\"\n")),
        (Value::from_debug(&Shown), s("Debug é")),
        (Value::from_display(&Shown), s("Display \n")),
        (Value::null(), None),
    ]
}
fn fields(c: &mut Case) {
    ENTRIES.with(|e| e.borrow_mut().clear());
    let values = values();
    let wide = [i128::MIN, i128::MAX];
    let uwide = u128::MAX;
    let n = c.choose(4);
    let level = LEVELS[if n > 2 { 2 } else { c.choose(5) }];
    // The last ones are literals, without arguments.
    let m = c.choose(5);
    let message = ["", "plain", "é {} \n", " literal \n ", ""][m];
    let mut kv: Vec<(&str, Value)> = Vec::new();
    let mut want = Vec::new();
    for k in 0..n {
        let key = if n > 2 { ["a", "b", "a"][k] } else { *c.pick(&["a", "", "é b"]) };
        let (v, w) = match c.choose(if n > 2 { 8 } else { values.len() + 3 }) {
            i if n > 2 => values[[0, 4, 12, 13, 16, 17, 19, 21][i]].clone(),
            i if i < values.len() => values[i].clone(),
            i if i < values.len() + 2 => (Value::from(&wide[i - values.len()]), s(wide[i - values.len()])),
            _ => (Value::from(&uwide), s(uwide)),
        };
        kv.push((key, v));
        want.extend(w.map(|w| (key.to_string(), w)));
    }
    c.note(|| format!("{level} {message:?} {kv:?}"));
    let case = format!("{level} {message:?} {kv:?}");
    let pairs = &kv[..];
    let mut record = Record::builder();
    record.level(level).target("t").key_values(&pairs);
    match m {
        3 => log::logger().log(&record.args(format_args!(" literal \n ")).build()),
        4 => log::logger().log(&record.args(format_args!("")).build()),
        _ => log::logger().log(&record.args(format_args!("{message}")).build()),
    }
    let level = match level {
        Level::Error => LogLevel::Error,
        Level::Warn => LogLevel::Warn,
        Level::Info => LogLevel::Info,
        Level::Debug => LogLevel::Debug,
        Level::Trace => LogLevel::Trace,
    };
    let got = ENTRIES.with(|e| e.borrow().clone());
    c.check_eq("entry", &vec![LogEntry { level, message: message.to_string(), fields: want }], &got, &case);
    c.outcome(&format!("{got:?}"));
}

// ---------------------------------------------------------------- files
fn files(c: &mut Case) {
    FILES.with(|f| f.borrow_mut().clear());
    let mut open = Vec::new();
    let mut want: Vec<(FileLoggerOptions, Vec<Vec<u8>>)> = Vec::new();
    let mut said = Vec::new();
    let loggers = 1 + c.choose(2);
    for _ in 0..loggers {
        let path = *c.pick(&["a.log", "/tmp/é b/log", "fail"]);
        let (rotate, exp) = match c.choose(if loggers == 1 { 10 } else { 3 }) {
            0 => (None, None),
            1 => (Some(LogRotation::Size(u64::MAX)), Some(FileLoggerRotation::Size(u64::MAX))),
            2 => (Some(LogRotation::Daily), Some(FileLoggerRotation::Daily)),
            3 => (Some(LogRotation::Minutely), Some(FileLoggerRotation::Minutely)),
            4 => (Some(LogRotation::Hourly), Some(FileLoggerRotation::Hourly)),
            5 => (Some(LogRotation::Weekly), Some(FileLoggerRotation::Weekly)),
            6 => (Some(LogRotation::Monthly), Some(FileLoggerRotation::Monthly)),
            7 => (Some(LogRotation::Yearly), Some(FileLoggerRotation::Yearly)),
            n => (Some(LogRotation::Size(n as u64 - 8)), Some(FileLoggerRotation::Size(n as u64 - 8))),
        };
        said.push(format!("open {path} {exp:?}"));
        let logger = FileLogger::new(path, rotate);
        c.check_eq("opened", &(path == "fail"), &logger.is_err(), &format!("{said:?}"));
        match logger {
            Ok(l) => {
                open.push(l);
                want.push((FileLoggerOptions { path: path.into(), rotate: exp }, Vec::new()));
            }
            Err(e) => {
                c.check_eq("error", &format!("cannot open {path}"), &e.to_string(), &format!("{said:?}"));
            }
        }
    }
    let depth = if c.thorough() { 4 } else { 3 };
    let n = if open.is_empty() { 0 } else { c.choose(depth + 1) };
    for _ in 0..n {
        let i = c.choose(open.len());
        let k = c.choose(7);
        let (data, result) = match k {
            0 => (Some(vec![]), open[i].log(b"")),
            1 => (Some(vec![0, 255, b'\n']), open[i].log(&[0, 255, b'\n'])),
            2 => (Some(b"fail\"".to_vec()), open[i].log(b"fail\"")),
            3 => {
                let v = json!({"é": [1, null, 2.5]});
                (Some("{\"é\":[1,null,2.5]}".into()), open[i].log_json(&v))
            }
            4 => (Some(b"\"fail\"".to_vec()), open[i].log_json("fail")),
            5 => (Some(b"null".to_vec()), open[i].log_json(())),
            // Not JSON.
            _ => (None, open[i].log_json(BTreeMap::from([((1, 2), 3)]))),
        };
        said.push(format!("log {i} {k}"));
        let fails = data.as_ref().is_none_or(|d| d.ends_with(b"fail\""));
        c.check_eq("written", &fails, &result.is_err(), &format!("{said:?}"));
        want[i].1.extend(data);
    }
    c.note(|| format!("{said:?}"));
    let got = FILES.with(|f| f.borrow().clone());
    c.check_eq("files", &want, &got, &format!("{said:?}"));
    c.steps(n as u64);
    c.outcome(&format!("{got:?}"));
}

pub fn run(k: &Check) {
    start("trace");
    k.space("filters", filters);
    k.space("fields", fields);
    k.space("files", files);
}
