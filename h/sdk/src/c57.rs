//! Postgres: the gateway gets the very statement and values, and the extension the very rows.
use chrono::{DateTime, NaiveDate, NaiveTime, Utc};
use grafbase_sdk::{
    host_io::postgres::{types::*, Connection, Pool, PoolOptions, Query, QueryBuilder, Transaction},
    vmc_hooks::host::postgres::{PgBoundValue, PgValue, BOUND, FAIL, LOG, ROWS},
};
use serde_json::{json, Value};
use std::{collections::BTreeMap, fmt::Write, time::{Duration, SystemTime}};
use vmc::{Case, Check};

fn reset() {
    LOG.with(|l| l.borrow_mut().clear());
    BOUND.with(|l| l.borrow_mut().clear());
    ROWS.with(|l| l.borrow_mut().clear());
    FAIL.with(|l| l.borrow_mut().clear());
}
fn log() -> Vec<String> {
    LOG.with(|l| l.borrow().clone())
}
/// What a parameter is, arrays with their elements.
type Param = (PgType, bool, Result<Vec<PgValue>, PgValue>);
fn one(t: PgType, v: PgValue) -> Param {
    (t, false, Err(v))
}
/// As the gateway reads the parameters.
fn read((values, tree): &(Vec<PgBoundValue>, Vec<PgValue>)) -> Result<Vec<Param>, String> {
    values
        .iter()
        .map(|v| {
            Ok((
                v.type_,
                v.is_array,
                match &v.value {
                    PgValue::Array(ix) => Ok(ix
                        .iter()
                        .map(|i| tree.get(*i as usize).cloned().ok_or_else(|| format!("element {i} of {}", tree.len())))
                        .collect::<Result<_, _>>()?),
                    v => Err(v.clone()),
                },
            ))
        })
        .collect()
}
fn connection() -> Connection {
    Pool::connect("p", "url").unwrap().acquire().unwrap()
}
/// The value as the gateway gets it when it is the only one.
fn bound(v: DatabaseValue) -> Result<Param, String> {
    reset();
    let mut b = Query::builder();
    b.bind_value(v);
    b.finalize().execute(&connection()).unwrap();
    read(&BOUND.with(|b| b.borrow()[0].clone())).map(|mut v| v.remove(0))
}

// ---------------------------------------------------------------- rust values
/// A Rust value in some form, its type, and what the gateway should get.
struct Typed {
    name: String,
    make: Box<dyn Fn() -> DatabaseValue>,
    bind: Box<dyn Fn(&mut QueryBuilder)>,
    want: Param,
}
fn forms<T: DatabaseType + Clone + std::fmt::Debug + 'static>(out: &mut Vec<Typed>, ty: PgType, values: Vec<(T, PgValue)>)
where
    Vec<T>: DatabaseType,
    Vec<Option<T>>: DatabaseType,
{
    let mut add = |name: String, make: Box<dyn Fn() -> DatabaseValue>, bind: Box<dyn Fn(&mut QueryBuilder)>, want: Param| {
        out.push(Typed { name, make, bind, want })
    };
    macro_rules! add {
        ($v:expr, $want:expr) => {{
            let v = $v;
            let name = format!("{ty:?} {v:?}");
            let (a, b) = (v.clone(), v);
            add(name, Box::new(move || a.clone().into_bound_value(0)), Box::new(move |q| q.bind(b.clone())), $want);
        }};
    }
    for (v, p) in &values {
        add!(v.clone(), one(ty, p.clone()));
        add!(Some(v.clone()), one(ty, p.clone()));
    }
    add!(None::<T>, one(ty, PgValue::Null));
    let (v, p) = (values[0].clone(), values[values.len() - 1].clone());
    let n = PgValue::Null;
    add!(Vec::<T>::new(), (ty, true, Ok(vec![])));
    add!(vec![v.0.clone()], (ty, true, Ok(vec![v.1.clone()])));
    add!(vec![v.0.clone(), p.0.clone(), v.0.clone()], (ty, true, Ok(vec![v.1.clone(), p.1.clone(), v.1.clone()])));
    add!(vec![None, Some(v.0.clone()), Some(p.0.clone()), None], (ty, true, Ok(vec![n.clone(), v.1.clone(), p.1.clone(), n.clone()])));
    add!(Some(vec![p.0.clone(), v.0.clone()]), (ty, true, Ok(vec![p.1.clone(), v.1.clone()])));
    add!(None::<Vec<T>>, (ty, true, Err(n)));
}
fn typed() -> Vec<Typed> {
    use PgValue as P;
    let mut o = Vec::new();
    forms(&mut o, PgType::Int16, [0i16, 1, -1, i16::MIN, i16::MAX].map(|v| (v, P::Int16(v))).to_vec());
    forms(&mut o, PgType::Int32, [0i32, -1, i32::MIN, i32::MAX].map(|v| (v, P::Int32(v))).to_vec());
    forms(&mut o, PgType::Int64, [0u32, 1, u32::MAX].map(|v| (v, P::Int64(v as i64))).to_vec());
    forms(&mut o, PgType::Int64, [0i64, -1, i64::MIN, i64::MAX].map(|v| (v, P::Int64(v))).to_vec());
    forms(&mut o, PgType::Float32, [0f32, -1.5, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY].map(|v| (v, P::Float32(v))).to_vec());
    forms(&mut o, PgType::Float64, [0f64, -1.5, f64::MAX, f64::MIN_POSITIVE, f64::NEG_INFINITY].map(|v| (v, P::Float64(v))).to_vec());
    forms(&mut o, PgType::Boolean, [true, false].map(|v| (v, P::Boolean(v))).to_vec());
    forms(&mut o, PgType::String, ["", "é'\"\\\0\n$1", "{1,2}"].map(|v| (v.to_string(), P::String(v.into()))).to_vec());
    let bytes: [&[u8]; 3] = [&[1, 0, 255], b"", &[0x7f; 300]];
    forms(&mut o, PgType::Bytes, bytes.map(|v| (v.to_vec(), P::Bytes(v.to_vec()))).to_vec());
    let times = [(0i64, false), (1, false), (1, true), (86_400_000_000, true), (4_000_000_000_000_001, false)];
    forms(
        &mut o,
        PgType::Int64,
        times
            .map(|(us, before)| {
                let d = Duration::from_micros(us as u64);
                let t = if before { SystemTime::UNIX_EPOCH - d } else { SystemTime::UNIX_EPOCH + d };
                (t, P::Int64(if before { -us } else { us }))
            })
            .to_vec(),
    );
    forms(
        &mut o,
        PgType::Timestamp,
        [0i64, 1, -1, 1_700_000_000_123_456, -62_135_596_800_000_000].map(|us| (DateTime::<Utc>::from_timestamp_micros(us).unwrap(), P::Int64(us))).to_vec(),
    );
    forms(
        &mut o,
        PgType::Date,
        [(1970, 1, 1, "1970-01-01"), (2024, 2, 29, "2024-02-29"), (9, 12, 31, "0009-12-31")]
            .map(|(y, m, d, s)| (NaiveDate::from_ymd_opt(y, m, d).unwrap(), P::String(s.into())))
            .to_vec(),
    );
    forms(
        &mut o,
        PgType::Time,
        [(0, 0, 0, 0, "00:00:00"), (23, 59, 59, 999_999, "23:59:59.999999"), (1, 2, 3, 40_000, "01:02:03.040")]
            .map(|(h, m, s, us, t)| (NaiveTime::from_hms_micro_opt(h, m, s, us).unwrap(), P::String(t.into())))
            .to_vec(),
    );
    forms(
        &mut o,
        PgType::Uuid,
        [(0u128, "00000000-0000-0000-0000-000000000000"), (0x0123456789abcdef_fedcba9876543210, "01234567-89ab-cdef-fedc-ba9876543210")]
            .map(|(u, s)| (uuid::Uuid::from_u128(u), P::String(s.into())))
            .to_vec(),
    );
    forms(
        &mut o,
        PgType::Decimal,
        ["0", "-1.50", "79228162514264337593543950335", "0.0000000000000000000000000001"]
            .map(|s| (s.parse::<rust_decimal::Decimal>().unwrap(), P::String(s.into())))
            .to_vec(),
    );
    forms(&mut o, PgType::Point, [(0.0, -0.5), (f64::MAX, f64::MIN)].map(|(x, y)| (Point { x, y }, P::Point((x, y)))).to_vec());
    forms(
        &mut o,
        PgType::Interval,
        [(1, -2, 3), (i32::MIN, i32::MAX, i64::MIN)].map(|(months, days, microseconds)| (Interval { months, days, microseconds }, P::Interval((months, days, microseconds)))).to_vec(),
    );
    forms(
        &mut o,
        PgType::Jsonb,
        [(json!({"a": [1, null]}), r#"{"a":[1,null]}"#), (json!(null), "null"), (json!("x\"y"), r#""x\"y""#)].map(|(v, s)| (v, P::String(s.into()))).to_vec(),
    );
    o
}
/// The type a parameter has to be cast to, if any.
fn cast(t: PgType, array: bool) -> Option<String> {
    let s = match t {
        PgType::Boolean | PgType::Int16 | PgType::Int32 | PgType::Float32 | PgType::Float64 | PgType::String | PgType::Bytes
        | PgType::Point | PgType::Interval | PgType::Datetime => return None,
        PgType::Xml => "XML".to_string(),
        PgType::Int64 => "bigint".to_string(),
        PgType::Bit | PgType::Varbit => "bit varying".to_string(),
        t => format!("{t:?}").to_lowercase(),
    };
    Some(if array { s + "[]" } else { s })
}
/// Everything that can be asked of the value.
fn judge_value(c: &mut Case, v: &DatabaseValue, want: &Param, case: &str) {
    c.check_eq("bound", &Ok(want.clone()), &bound(v.clone()), &case);
    let str = match &want.2 {
        Err(PgValue::String(s)) => Some(s.as_str()),
        _ => None,
    };
    c.check_eq("as_str", &str, &v.as_str(), &case);
    c.check_eq("is_null", &(want.2 == Err(PgValue::Null)), &v.is_null(), &case);
    c.check_eq("type_cast", &cast(want.0, want.1), &v.type_cast().map(str::to_string), &case);
    let each = |l: Vec<DatabaseValue>| l.into_iter().map(bound).collect::<Vec<_>>();
    let elements = |l: &Vec<PgValue>| l.iter().map(|e| Ok(one(want.0, e.clone()))).collect::<Vec<_>>();
    c.check_eq("to_list", &want.2.as_ref().ok().map(elements), &v.to_list().map(each), &case);
    let iter = match &want.2 {
        Ok(l) => elements(l),
        Err(v) => vec![Ok(one(want.0, v.clone()))],
    };
    c.check_eq("iter", &iter, &each(v.clone().iter().take(20).collect()), &case);
}

fn rust_values(c: &mut Case, all: &[Typed]) {
    let t = &all[c.choose(all.len())];
    c.note(|| t.name.clone());
    judge_value(c, &(t.make)(), &t.want, &t.name);
    c.outcome(&format!("{:?}", t.want));
}

// ---------------------------------------------------------------- statements
fn statements(c: &mut Case, all: &[Typed], few: &[usize]) {
    reset();
    let rows = c.choose(3);
    ROWS.with(|r| *r.borrow_mut() = vec![vec![Ok(Some(b"1".to_vec()))]; rows]);
    let depth = if c.thorough() { 4 } else { 3 };
    let n = c.choose(depth + 1);
    let mut b = Query::builder();
    let (mut text, mut want, mut said) = (String::from("SELECT "), Vec::new(), Vec::new());
    b.write_str("SELECT ").unwrap();
    for i in 0..n {
        // The last of a short list is any value.
        let t = &all[if n <= 2 && i + 1 == n { c.choose(all.len()) } else { few[c.choose(few.len())] }];
        if c.flag() {
            said.push(format!("bind {}", t.name));
            (t.bind)(&mut b);
        } else {
            said.push(format!("bind_value {}", t.name));
            b.bind_value((t.make)());
        }
        want.push(t.want.clone());
        write!(b, "${} ", b.bound_values()).unwrap();
        text += &format!("${} ", i + 1);
    }
    let fetch = c.flag();
    let transaction = c.flag();
    c.note(|| format!("{said:?}, fetch {fetch}, transaction {transaction}, {rows} rows"));
    let case = format!("{said:?}");
    let query = b.finalize();
    c.check_eq("text", &text, &query.to_string(), &case);
    let again = query.clone();
    let pool = Pool::connect("p", "url").unwrap();
    let (connection, tx) = (pool.acquire().unwrap(), pool.begin_transaction().unwrap());
    LOG.with(|l| l.borrow_mut().clear());
    let mut got = Vec::new();
    for q in [query, again] {
        got.push(match (fetch, transaction) {
            (true, true) => q.fetch(&tx).unwrap().count(),
            (true, false) => q.fetch(&connection).unwrap().count(),
            (false, true) => q.execute(&tx).unwrap() as usize,
            (false, false) => q.execute(&connection).unwrap() as usize,
        });
    }
    c.check_eq("answer", &vec![rows; 2], &got, &case);
    let line = format!("{} {} {text}", if transaction { "transaction" } else { "connection" }, if fetch { "query" } else { "execute" });
    c.check_eq("calls-of-the-host", &vec![line.clone(), line], &log(), &case);
    let params: Vec<_> = BOUND.with(|b| b.borrow().iter().map(read).collect());
    c.check_eq("parameters", &vec![Ok(want.clone()); 2], &params, &case);
    tx.commit().unwrap();
    c.outcome(&format!("{want:?}"));
}

fn many(c: &mut Case) {
    reset();
    let n: usize = *c.pick(&[9, 10, 11, 12, 99, 100, 101, 300, 70_000]);
    let (nulls, arrays) = (c.flag(), c.flag());
    c.note(|| format!("{n} parameters and rows, nulls {nulls}, arrays {arrays}"));
    ROWS.with(|r| *r.borrow_mut() = (0..n).map(|i| vec![Ok(Some(i.to_string().into_bytes())); 1 + i % 3]).collect());
    let mut b = Query::builder();
    let (mut text, mut want) = (String::new(), Vec::new());
    for i in 0..n {
        if nulls && i % 3 == 1 {
            b.bind(None::<i32>);
            want.push(one(PgType::Int32, PgValue::Null));
        } else if arrays && i % 3 == 2 {
            let l: Vec<i32> = (0..if i == 2 { n } else { 2 }).map(|j| (i + j) as i32).collect();
            want.push((PgType::Int32, true, Ok(l.iter().map(|v| PgValue::Int32(*v)).collect())));
            b.bind(l);
        } else {
            b.bind(i as i32 / 2);
            want.push(one(PgType::Int32, PgValue::Int32(i as i32 / 2)));
        }
        write!(b, "${},", b.bound_values()).unwrap();
        text += &format!("${},", i + 1);
    }
    let q = b.finalize();
    c.check(q.to_string() == text, "text", || format!("the text of {n} parameters"));
    let got: Vec<Vec<String>> = q.fetch(&connection()).unwrap().map(|r| r.take(9).map(|v| v.unwrap().as_str().unwrap().unwrap().to_string()).collect()).collect();
    let rows: Vec<Vec<String>> = (0..n).map(|i| vec![i.to_string(); 1 + i % 3]).collect();
    c.check(rows == got, "rows", || format!("{} rows of {n}, or other ones", got.len()));
    let params = read(&BOUND.with(|b| b.borrow()[0].clone()));
    c.check(params.as_ref() == Ok(&want), "parameters", || match params {
        Ok(p) => format!("{} parameters of {n}, first difference {:?}", p.len(), p.iter().zip(&want).find(|(a, b)| a != b)),
        Err(e) => e,
    });
    c.outcome(&(n, nulls, arrays));
}

// ---------------------------------------------------------------- JSON
const TYPES: [PgType; 30] = {
    use PgType::*;
    [
        Boolean, Int16, Int32, Int64, Float32, Float64, String, Bytes, Point, Interval, Cidr, Xml, Macaddr, Macaddr8, Bit, Varbit, Oid, Json, Jsonb,
        Money, Numeric, Decimal, Time, Timetz, Date, Datetime, Inet, Timestamp, Timestamptz, Uuid,
    ]
};
fn numbers() -> Vec<Value> {
    let mut v = vec![json!(0), json!(-0.0), json!(1.5), json!(0.1), json!(-3.25e300), json!(f64::MAX), json!(3.0), json!(f32::MAX as f64), json!(f32::MAX as f64 * 2.0), json!(1e-300), json!(u64::MAX), json!(i64::MAX as u64 + 1)];
    for b in [8u32, 15, 16, 24, 31, 32, 53, 63] {
        for d in [-1i128, 0, 1] {
            for s in [-1i128, 1] {
                if let Ok(i) = i64::try_from(s * (1i128 << b) + d) {
                    v.push(json!(i));
                }
            }
        }
    }
    v
}
fn strings() -> Vec<&'static str> {
    vec!["", "\\x", "\\x00ff", "\\xABcd", "\\x0", "\\x0g", "x00", "\\X00", "\\x+f", "\\x-1", "\\x 1", "\\xé", "\\xaéb", "\\x€1", "\\xé1é", "00", "12", "é", "null", "\\", "\\x00\\x00"]
}
/// What a JSON value gives: a value, nothing as it is refused, or anything.
enum Want {
    Is(PgValue),
    Refused,
    /// Refused, or the text.
    Text(String),
}
fn element(v: &Value, t: PgType) -> Want {
    use PgValue as P;
    match v {
        Value::Null => Want::Is(P::Null),
        Value::Bool(b) => Want::Is(P::Boolean(*b)),
        Value::Number(n) => {
            let int: Option<i128> = n.as_i64().map(i128::from).or(n.as_u64().map(i128::from));
            let float = n.as_f64().unwrap();
            match t {
                PgType::Int16 | PgType::Int32 | PgType::Int64 => match (t, int) {
                    (PgType::Int16, Some(i)) if (-32768..=32767).contains(&i) => Want::Is(P::Int16(i as i16)),
                    (PgType::Int32, Some(i)) if (-2147483648..=2147483647).contains(&i) => Want::Is(P::Int32(i as i32)),
                    (PgType::Int64, Some(i)) if i <= i64::MAX as i128 => Want::Is(P::Int64(i as i64)),
                    _ => Want::Refused,
                },
                PgType::Float32 if (float as f32).is_finite() => Want::Is(P::Float32(float as f32)),
                PgType::Float32 => Want::Refused,
                PgType::Float64 => Want::Is(P::Float64(float)),
                _ => Want::Text(n.to_string()),
            }
        }
        Value::String(s) if t == PgType::Bytes => {
            let hex = s.strip_prefix("\\x").filter(|h| h.len() % 2 == 0 && h.chars().all(|c| "0123456789abcdefABCDEF".contains(c)));
            match hex {
                Some(h) => Want::Is(P::Bytes((0..h.len() / 2).map(|i| u8::from_str_radix(&h[i * 2..i * 2 + 2], 16).unwrap()).collect())),
                None => Want::Refused,
            }
        }
        Value::String(s) => Want::Is(P::String(s.clone())),
        Value::Array(_) => Want::Refused,
        Value::Object(_) => Want::Is(P::String(v.to_string())),
    }
}
/// None: not judged.
fn from_json(v: &Value, t: PgType, array: bool) -> Option<Result<Param, ()>> {
    if t == PgType::Json || t == PgType::Jsonb {
        let text = |v: &Value| PgValue::String(v.to_string());
        return match v {
            Value::Array(l) if array => Some(Ok((t, true, Ok(l.iter().map(text).collect())))),
            _ if array => None,
            v => Some(Ok(one(t, text(v)))),
        };
    }
    match v {
        Value::Null => Some(Ok((t, array, Err(PgValue::Null)))),
        Value::Array(l) => {
            let mut out = Vec::new();
            for v in l {
                match element(v, t) {
                    Want::Is(v) => out.push(v),
                    Want::Refused => return Some(Err(())),
                    Want::Text(_) => return None,
                }
            }
            Some(Ok((t, true, Ok(out))))
        }
        // The type of the parameter is then not that of the column.
        Value::Bool(_) if t != PgType::Boolean => None,
        v => match element(v, t) {
            Want::Is(v) => Some(Ok(one(t, v))),
            Want::Refused => Some(Err(())),
            Want::Text(_) => None,
        },
    }
}
fn json_inputs(c: &mut Case) {
    let mut scalars = vec![json!(null), json!(true), json!(false), json!({}), json!({"a": [1, {"b": "c\""}]})];
    scalars.extend(numbers());
    scalars.extend(strings().into_iter().map(|s| json!(s)));
    let t = *c.pick(&TYPES);
    let array = c.flag();
    let n = c.choose(5);
    let v = match n {
        0 => scalars[c.choose(scalars.len())].clone(),
        n => {
            let mut l = Vec::new();
            for i in 1..n {
                // Two of them are any values, the others of the first ones.
                l.push(match i {
                    1 | 2 if n < 4 => scalars[c.choose(scalars.len())].clone(),
                    _ => [json!(7), json!(null), json!("s"), json!("\\x07"), json!([1]), json!([])][c.choose(6)].clone(),
                });
            }
            Value::Array(l)
        }
    };
    let case = format!("{v} for {t:?}, array {array}");
    c.note(|| case.clone());
    let got = DatabaseValue::from_json_input(v.clone(), t, array);
    match (from_json(&v, t, array), got) {
        // A number for a column of another type: refused, or its text.
        (None, Ok(g)) if v.is_number() && g.as_str() != Some(&v.to_string()) => c.fail("json-accepted", format!("{case}: is {:?}", bound(g))),
        (None, _) => c.trivial(),
        (Some(Err(())), Ok(v)) => c.fail("json-accepted", format!("{case}: should be refused, is {:?}", bound(v))),
        (Some(Err(())), Err(_)) => c.outcome(&"refused"),
        (Some(Ok(w)), Err(e)) => c.fail("json-refused", format!("{case}: should be {w:?}, is refused: {e:?}")),
        (Some(Ok(w)), Ok(v)) => {
            judge_value(c, &v, &w, &case);
            c.outcome(&format!("{w:?}"));
        }
    }
}

// ---------------------------------------------------------------- rows
fn cells() -> Vec<Result<Option<Vec<u8>>, String>> {
    let s = |s: &str| Ok(Some(s.as_bytes().to_vec()));
    vec![Ok(None), Err("unreadable".into()), s(""), s("é"), Ok(Some(vec![1, 2, 3, 4])), Ok(Some(vec![0xff, 0xfe])), s("null"), s("[1]"), s(" 1 "), s("1x"), Ok(Some(vec![0; 4])), s("{\"a\":1}"), s("\"é\"")]
}
fn rows(c: &mut Case) {
    reset();
    let all = cells();
    let n = c.choose(3);
    let mut rows = Vec::new();
    for _ in 0..n {
        let m = c.choose(4);
        rows.push((0..m).map(|i| all[if i == 0 && n < 2 { c.choose(all.len()) } else { c.choose(4) }].clone()).collect::<Vec<_>>());
    }
    let transaction = c.flag();
    c.note(|| format!("{rows:?}, transaction {transaction}"));
    ROWS.with(|r| *r.borrow_mut() = rows.clone());
    let pool = Pool::connect("p", "url").unwrap();
    let (connection, tx) = (pool.acquire().unwrap(), pool.begin_transaction().unwrap());
    let b = Query::builder().finalize();
    let case = format!("{rows:?}");
    let mut got = Vec::new();
    let mut judge = |r: grafbase_sdk::host_io::postgres::ColumnIterator| {
        let mut row = Vec::new();
        // One that does not end is seen as well.
        for v in r.take(10) {
            row.push(v.map(|v| {
                if let Some(b) = v.bytes() {
                    let s = std::str::from_utf8(b).ok();
                    c.check_eq("as_str", &s, &v.as_str().ok().flatten(), &case);
                    let four = <[u8; 4]>::try_from(b).ok();
                    c.check_eq("as_value", &four.map(u32::from_ne_bytes), &v.as_value::<u32>().ok().flatten(), &case);
                    c.check_eq("as_value-error", &four.is_none(), &v.as_value::<u32>().is_err(), &case);
                    let j = serde_json::from_slice::<Value>(b);
                    c.check_eq("as_json-error", &j.is_err(), &v.as_json::<Value>().is_err(), &case);
                    let j = j.ok().filter(|j| !j.is_null());
                    c.check_eq("as_json", &j, &v.as_json::<Value>().ok().flatten(), &case);
                    let m = j.and_then(|j| serde_json::from_value::<BTreeMap<String, u8>>(j).ok());
                    c.check_eq("as_json-map", &m, &v.as_json().ok().flatten(), &case);
                } else {
                    c.check_eq("null", &(true, true, true), &(matches!(v.as_str(), Ok(None)), matches!(v.as_value::<u32>(), Ok(None)), matches!(v.as_json::<Value>(), Ok(None))), &case);
                }
                v.into_bytes()
            }).map_err(|e| e.to_string()));
        }
        got.push(row);
    };
    if transaction {
        b.fetch(&tx).unwrap().for_each(&mut judge);
    } else {
        b.fetch(&connection).unwrap().for_each(&mut judge);
    }
    c.check_eq("rows", &rows, &got, &case);
    c.outcome(&case);
}

// ---------------------------------------------------------------- transactions and pools
fn transactions(c: &mut Case) {
    reset();
    let two = c.flag();
    let mut want = Vec::new();
    let mut fails = |what: &str, c: &mut Case| {
        let f = c.flag();
        FAIL.with(|l| {
            let mut l = l.borrow_mut();
            l.retain(|x| x != what);
            if f {
                l.push(what.into());
            }
        });
        f
    };
    let pool = Pool::connect("p", "url").unwrap();
    let other = pool.acquire().unwrap();
    want.extend(log());
    let mut said: Vec<String> = Vec::new();
    for _ in 0..1 + two as usize {
        let f = fails("begin", c);
        want.push("begin".into());
        let tx = pool.begin_transaction();
        c.check_eq("begin", &f, &tx.is_err(), &format!("{said:?}"));
        let Ok(tx) = tx else { continue };
        let n = c.choose(if two { 2 } else { 4 });
        for i in 0..n {
            let on_tx = c.flag();
            let who = if on_tx { "transaction" } else { "connection" };
            let fetch = c.flag();
            let what = if fetch { "query" } else { "execute" };
            let line = format!("{who} {what} S{i}");
            let f = fails(&line, c);
            said.push(format!("{line} fails {f}"));
            let mut b = Query::builder();
            write!(b, "S{i}").unwrap();
            let q = b.finalize();
            let out = match (on_tx, fetch) {
                (true, true) => q.fetch(&tx).map(|r| r.count()).map_err(|e| e.to_string()),
                (false, true) => q.fetch(&other).map(|r| r.count()).map_err(|e| e.to_string()),
                (true, false) => q.execute(&tx).map(|r| r as usize).map_err(|e| e.to_string()),
                (false, false) => q.execute(&other).map(|r| r as usize).map_err(|e| e.to_string()),
            };
            c.check_eq("statement", &if f { Err(format!("{line} failed")) } else { Ok(0) }, &out, &format!("{said:?}"));
            want.push(line);
        }
        let end = c.choose(3);
        let what = if end == 0 { "commit" } else { "rollback" };
        let f = fails(what, c);
        said.push(format!("{} fails {f}", ["commit", "rollback", "drop"][end]));
        want.push(what.into());
        let case = format!("{said:?}");
        let exp = if f { Err(format!("{what} failed")) } else { Ok(()) };
        let finish = |tx: Transaction| -> Option<Result<(), String>> {
            match end {
                0 => Some(tx.commit().map_err(|e| e.to_string())),
                1 => Some(tx.rollback().map_err(|e| e.to_string())),
                _ => {
                    drop(tx);
                    None
                }
            }
        };
        match vmc::guarded(|| finish(tx)) {
            Ok(Some(out)) => {
                c.check_eq("end", &exp, &out, &case);
            }
            Ok(None) => {}
            Err(p) => return c.fail("panic-at-the-end", format!("{case}: {p}")),
        }
    }
    c.note(|| format!("{said:?}"));
    c.check_eq("calls-of-the-host", &want, &log(), &format!("{said:?}"));
    c.steps(want.len() as u64);
    c.outcome(&want);
}

fn pools(c: &mut Case) {
    reset();
    let n = c.choose(4);
    let mut o = if c.flag() { PoolOptions::new() } else { PoolOptions::default() };
    let mut want: [Option<u64>; 5] = [None; 5];
    let mut said = Vec::new();
    for _ in 0..n {
        let k = c.choose(5);
        let v = if k < 2 { *c.pick(&[0u64, 7, u32::MAX as u64]) } else { *c.pick(&[0u64, 1500, u64::MAX]) };
        let d = if v == u64::MAX { Duration::MAX } else { Duration::from_millis(v) };
        said.push((k, v));
        want[k] = Some(v);
        o = match k {
            0 => o.max_connections(v as u32),
            1 => o.min_connections(v as u32),
            2 => o.idle_timeout(d),
            3 => o.acquire_timeout(d),
            _ => o.max_lifetime(d),
        };
    }
    let (name, url) = *c.pick(&[("", ""), ("db", "postgres://u:p@h/é")]);
    let plain = n == 0 && c.flag();
    let text = format!(
        "PgPoolOptions {{ max_connections: {:?}, min_connections: {:?}, idle_timeout_ms: {:?}, acquisition_timeout_ms: {:?}, max_lifetime_ms: {:?} }}",
        want[0], want[1], want[2], want[3], want[4]
    );
    let line = format!("connect {name} {url} {text}");
    let (fail_connect, fail_acquire) = (c.flag(), c.flag());
    FAIL.with(|l| {
        if fail_connect {
            l.borrow_mut().push(line.clone());
        }
        if fail_acquire {
            l.borrow_mut().push("acquire".into());
        }
    });
    let case = format!("{said:?}, {name:?} {url:?}, fails {fail_connect} {fail_acquire}");
    c.note(|| case.clone());
    let pool = if plain { Pool::connect(name, url) } else { Pool::connect_with_options(name, url, o) };
    let mut lines = vec![line.clone()];
    match pool {
        Err(e) => {
            c.check_eq("connect", &(true, format!("{line} failed")), &(fail_connect, e.to_string()), &case);
        }
        Ok(pool) => {
            c.check_eq("connect", &false, &fail_connect, &case);
            lines.push("acquire".into());
            let got = pool.acquire().map(|_| ()).map_err(|e| e.to_string());
            c.check_eq("acquire", &if fail_acquire { Err("acquire failed".to_string()) } else { Ok(()) }, &got, &case);
        }
    }
    c.check_eq("calls-of-the-host", &lines, &log(), &case);
    c.outcome(&lines);
}
pub fn run(k: &Check) {
    k.space("rust values", |c| {
        let all = typed();
        rust_values(c, &all)
    });
    k.space("statements", |c| {
        thread_local! { static ALL: Vec<Typed> = typed(); }
        ALL.with(|all| {
            // Of every kind: scalars, null, arrays of any length.
            let few: Vec<usize> = (0..all.len()).filter(|i| all[*i].want.0 == PgType::Int16 && (*i < 2 || all[*i].want.1) || all[*i].want.0 == PgType::Bytes && all[*i].want.1).collect();
            statements(c, all, &few)
        })
    });
    k.space("many parameters and rows", many);
    k.space("JSON inputs", json_inputs);
    k.space("rows", rows);
    k.space("transactions", transactions);
    k.space("pools", pools);
}
