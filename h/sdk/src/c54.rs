//! Data an extension gives to the gateway and gets from it is what the other side wrote.
use crate::{cbor::{self, dec, enc, json, V}, common::*, res};
use grafbase_sdk::{host_io::event_queue, types::{Error, *}, vmc_hooks::{self, call, host::headers::Headers as HostHeaders, types as w}};
use serde::{ser::*, Deserialize};

use vmc::{Case, Check};

/// Something an extension serializes.
#[derive(Clone, Debug)]
enum S {
    Unit,
    None,
    Some(Box<S>),
    Bool(bool),
    I8(i8),
    I64(i64),
    U8(u8),
    U64(u64),
    F32(f32),
    F64(f64),
    Str(String),
    Bytes(Vec<u8>),
    UnitStruct,
    Newtype(Box<S>),
    UnitVariant,
    NewtypeVariant(Box<S>),
    TupleVariant(Vec<S>),
    StructVariant(Vec<S>),
    Seq(Vec<S>, bool),
    Tuple(Vec<S>),
    Map(Vec<(String, S)>, bool),
    Struct(Vec<S>),
    Json(serde_json::Value),
}
const NAMES: [&str; 4] = ["a", "b", "c", "d"];
impl Serialize for S {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            S::Unit => z.serialize_unit(),
            S::None => z.serialize_none(),
            S::Some(s) => z.serialize_some(s),
            S::Bool(b) => z.serialize_bool(*b),
            S::I8(n) => z.serialize_i8(*n),
            S::I64(n) => z.serialize_i64(*n),
            S::U8(n) => z.serialize_u8(*n),
            S::U64(n) => z.serialize_u64(*n),
            S::F32(n) => z.serialize_f32(*n),
            S::F64(n) => z.serialize_f64(*n),
            S::Str(n) => z.serialize_str(n),
            S::Bytes(n) => z.serialize_bytes(n),
            S::UnitStruct => z.serialize_unit_struct("U"),
            S::Newtype(s) => z.serialize_newtype_struct("N", s),
            S::UnitVariant => z.serialize_unit_variant("E", 0, "Unit"),
            S::NewtypeVariant(s) => z.serialize_newtype_variant("E", 1, "New", s),
            S::TupleVariant(v) => {
                let mut t = z.serialize_tuple_variant("E", 2, "Tuple", v.len())?;
                v.iter().try_for_each(|s| t.serialize_field(s))?;
                t.end()
            }
            S::StructVariant(v) => {
                let mut t = z.serialize_struct_variant("E", 3, "Struct", v.len())?;
                NAMES.iter().zip(v).try_for_each(|(n, s)| t.serialize_field(n, s))?;
                t.end()
            }
            S::Seq(v, len) => {
                let mut t = z.serialize_seq(len.then_some(v.len()))?;
                v.iter().try_for_each(|s| t.serialize_element(s))?;
                t.end()
            }
            S::Tuple(v) => {
                let mut t = z.serialize_tuple(v.len())?;
                v.iter().try_for_each(|s| t.serialize_element(s))?;
                t.end()
            }
            S::Map(v, len) => {
                let mut t = z.serialize_map(len.then_some(v.len()))?;
                v.iter().try_for_each(|(k, s)| t.serialize_entry(k, s))?;
                t.end()
            }
            S::Struct(v) => {
                let mut t = z.serialize_struct("S", v.len())?;
                NAMES.iter().zip(v).try_for_each(|(n, s)| t.serialize_field(n, s))?;
                t.end()
            }
            S::Json(v) => v.serialize(z),
        }
    }
}
/// As serde_json has it, with bytes as bytes.
fn value(s: &S) -> V {
    let all = |v: &Vec<S>| V::Arr(v.iter().map(value).collect());
    let named = |v: &Vec<S>| V::Map(NAMES.iter().zip(v).map(|(n, s)| (V::s(n), value(s))).collect());
    match s {
        S::Unit | S::None | S::UnitStruct => V::Null,
        S::Some(s) | S::Newtype(s) => value(s),
        S::Bool(b) => V::Bool(*b),
        S::I8(n) => V::Int(*n as i128),
        S::I64(n) => V::Int(*n as i128),
        S::U8(n) => V::Int(*n as i128),
        S::U64(n) => V::Int(*n as i128),
        S::F32(n) => V::Float(*n as f64),
        S::F64(n) => V::Float(*n),
        S::Str(s) => V::s(s),
        S::Bytes(b) => V::Bytes(b.clone()),
        S::UnitVariant => V::s("Unit"),
        S::NewtypeVariant(s) => V::map(&[("New", value(s))]),
        S::TupleVariant(v) => V::map(&[("Tuple", all(v))]),
        S::StructVariant(v) => V::map(&[("Struct", named(v))]),
        S::Seq(v, _) | S::Tuple(v) => all(v),
        S::Map(m, _) => V::Map(m.iter().map(|(k, s)| (V::s(k), value(s))).collect()),
        S::Struct(v) => named(v),
        S::Json(v) => cbor::from_json(v),
    }
}
fn leaves() -> Vec<S> {
    use serde_json::json;
    let mut v = vec![
        S::Unit, S::None, S::UnitStruct, S::UnitVariant, S::Bool(true), S::Bool(false), S::I8(-128), S::I8(127), S::I64(i64::MIN),
        S::I64(i64::MAX), S::I64(-1), S::I64(-24), S::I64(-25), S::I64(-257), S::U8(0), S::U8(23), S::U8(24), S::U8(255), S::U64(256), S::U64(65535),
        S::U64(65536), S::U64(u32::MAX as u64), S::U64(1 << 32), S::U64(u64::MAX), S::F32(0.1), S::F32(-1.5), S::F64(0.1), S::F64(1e300), S::F64(2.0),
        S::F64(-0.0), S::F64(f64::INFINITY), S::Str("".into()), S::Str("a\"\n\u{1F600}".into()), S::Bytes(vec![]), S::Bytes(vec![0, 255]),
    ];
    v.extend([json!(null), json!({}), json!([]), json!([null]), json!({"a": null}), json!(-0.5), json!({"": [1, {"x": null}]})].map(S::Json));
    v.extend([23, 24, 255, 256, 70000].map(|n| S::Str("x".repeat(n))));
    v
}
fn few() -> Vec<S> {
    vec![S::None, S::Unit, S::U64(300), S::Str("k".into()), S::Json(serde_json::json!({"n": null})), S::F64(0.5)]
}
fn thing(c: &mut Case, depth: usize, all: bool) -> S {
    let leaves = || if all { leaves() } else { few() };
    let items = |c: &mut Case| -> Vec<S> {
        let n = c.choose(3);
        (0..n).map(|_| if depth > 1 { thing(c, depth - 1, all) } else { c.pick(&few()).clone() }).collect()
    };
    let one = |c: &mut Case| Box::new(if depth > 1 { thing(c, depth - 1, all) } else { c.pick(&leaves()).clone() });
    match c.choose(if depth == 0 { 1 } else { 12 }) {
        0 => c.pick(&if depth > 1 { few() } else { leaves() }).clone(),
        1 => S::Some(one(c)),
        2 => S::Newtype(one(c)),
        3 => S::NewtypeVariant(one(c)),
        4 => S::TupleVariant(items(c)),
        5 => S::StructVariant(items(c)),
        6 => S::Seq(items(c), true),
        7 => S::Seq(items(c), false),
        8 => S::Tuple(items(c)),
        k => {
            let v = items(c);
            match k {
                9 => S::Map(NAMES.iter().map(|n| n.to_string()).zip(v).collect(), true),
                10 => S::Map(["", "\u{e9}"].iter().map(|n| n.to_string()).zip(v).collect(), false),
                _ => S::Struct(v),
            }
        }
    }
}
fn written(c: &mut Case, depth: usize, all: bool) {
    let s = thing(c, depth, all);
    let want = value(&s);
    c.note(|| format!("{s:?}").chars().take(200).collect());
    let s2 = s.clone();
    res::RESOLVE.set(Some(Box::new(move |_, _, _, _| {
        event_queue::send("e", &s2)?;
        let mut r = Response::data(&s2);
        r.errors.push(Error::new("m").extension("first", 1)?.extension("x", &s2)?);
        // A clone and a conversion keep what there is.
        r.errors.push(Error::from(w::Error::from(r.errors[0].clone())));
        Ok(r)
    })));
    let (q, host_q) = queue();
    let (_, ctx) = operation_ctx(&[], token(None), &[]);
    let r = call::resolve(host_q, ctx, vec![], HostHeaders::new(), vec![]);
    let got = match &r.data {
        Some(w::Data::Cbor(b)) => dec(b),
        d => Err(format!("{d:?}")),
    };
    c.check_eq("response-data", &Ok(want.clone()), &got, "the data of a response");
    let ext = |e: &w::Error| (e.message.clone(), e.extensions.iter().map(|(k, v)| (k.clone(), dec(v))).collect::<Vec<_>>());
    let want_ext = ("m".to_string(), vec![("first".to_string(), Ok(V::Int(1))), ("x".to_string(), Ok(want.clone()))]);
    c.check_eq("error-extensions", &vec![want_ext.clone(), want_ext], &r.errors.iter().map(ext).collect(), "the errors");
    crate::c50::check_queue(c, &q, &[("e", want.clone())]);
    match Data::new(&s) {
        Ok(Data::Cbor(b)) => {
            c.check_eq("data", &Ok(want.clone()), &dec(&b), "data");
        }
        d => c.fail("data", format!("{d:?}")),
    }
    c.outcome(&format!("{want:?}"));
}

// ---------------------------------------------------------------- read
/// What the gateway writes: every length known, or none.
fn enc_indefinite(v: &V, out: &mut Vec<u8>) {
    match v {
        V::Arr(a) => {
            out.push(0x9f);
            a.iter().for_each(|v| enc_indefinite(v, out));
            out.push(0xff);
        }
        V::Map(m) => {
            out.push(0xbf);
            for (k, v) in m {
                enc_indefinite(k, out);
                enc_indefinite(v, out);
            }
            out.push(0xff);
        }
        v => out.extend(enc(v)),
    }
}
/// All the places an extension reads data in, with what it reads there.
fn places<T: for<'a> Deserialize<'a>>(bytes: &[u8], show: fn(T) -> serde_json::Value) -> Vec<(&'static str, Result<serde_json::Value, String>)> {
    let mut out = Vec::new();
    let r = |r: Result<T, grafbase_sdk::SdkError>| r.map(show).map_err(|e| e.to_string());
    let config = vmc_hooks::configuration(bytes.to_vec());
    out.push(("configuration", r(config.deserialize::<T>())));
    let vars: Variables = vec![(3u16, vec![]), (1, bytes.to_vec()), (1, vec![])].into();
    out.push(("variables", r(vars.get(1.into()))));
    out.push(("variables with a seed", r(vars.get_seed(1.into(), std::marker::PhantomData))));
    let s = w::schema::Schema {
        type_definitions: vec![],
        field_definitions: vec![],
        directives: vec![w::schema::Directive { name: "d".into(), arguments: bytes.to_vec() }],
        root_types: w::schema::RootTypes { query_id: None, mutation_id: None, subscription_id: None },
    };
    let s = vmc_hooks::subgraph_schema("s", s);
    let d = s.directives().next().unwrap();
    out.push(("directive", r(d.arguments())));
    out.push(("directive with a seed", r(d.arguments_seed(std::marker::PhantomData))));
    let e = w::QueryElements {
        directive_names: vec![("d".into(), 0, 1)],
        elements: vec![w::QueryElement {
            id: 0,
            site: w::schema::DirectiveSite::Scalar(w::schema::ScalarDirectiveSite { scalar_name: "S".into() }),
            arguments: bytes.to_vec(),
            subgraph_name: None,
        }],
    };
    out.push(("query element", r(QueryElements::from(&e).iter().next().unwrap().directive_arguments())));
    let e = w::ResponseElements { directive_names: vec![("d".into(), 0, 1)], elements: vec![w::ResponseElement { query_element_id: 0, items_range: (0, 1) }], items: vec![bytes.to_vec()] };
    out.push(("response item", r(ResponseElements::from(&e).iter().next().unwrap().items().next().unwrap().directive_arguments())));
    let ev = event_queue::EventQueue::from({
        let (q, host_q) = queue();
        q.borrow_mut().events.push_back(w::event_types::Event::Extension(w::event_types::ExtensionEvent { extension_name: "x".into(), event_name: "n".into(), data: bytes.to_vec() }));
        host_q
    });
    match ev.pop() {
        Some(event_queue::Event::Extension(e)) => out.push(("event", r(e.deserialize()))),
        _ => out.push(("event", Err("no event".into()))),
    }
    out
}
fn read(c: &mut Case, depth: usize, all: bool) {
    let s = thing(c, depth, all);
    let v = value(&s);
    fn no_json(v: &V) -> bool {
        match v {
            V::Bytes(_) => true,
            V::Float(f) => !f.is_finite(),
            V::Arr(a) => a.iter().any(no_json),
            V::Map(a) => a.iter().any(|e| no_json(&e.1)),
            _ => false,
        }
    }
    if no_json(&v) {
        c.skip()
    }
    let indefinite = c.flag();
    let bytes = if indefinite {
        let mut b = Vec::new();
        enc_indefinite(&v, &mut b);
        b
    } else {
        enc(&v)
    };
    c.note(|| format!("{v:?}").chars().take(200).collect());
    for (place, got) in places::<serde_json::Value>(&bytes, |v| v) {
        c.check_eq("read", &Ok(json(&v)), &got, place);
    }
    // Cut off anywhere, it is an error.
    let cut = c.choose(5) * bytes.len() / 5;
    for (place, got) in places::<serde_json::Value>(&bytes[..cut], |v| v) {
        c.check(got.is_err(), "cut-off", || format!("{place}: {cut} of {} bytes are read as {got:?}", bytes.len()));
    }
    c.outcome(&format!("{v:?}"));
}
/// Into types of the extension's own.
fn typed(c: &mut Case) {
    #[derive(Deserialize, Debug)]
    #[serde(rename_all = "camelCase")]
    struct Own {
        some_name: Option<String>,
        #[serde(default)]
        list: Vec<Option<i8>>,
        kind: Kind,
    }
    #[derive(Deserialize, Debug)]
    #[serde(rename_all = "UPPERCASE")]
    enum Kind {
        A,
        B(u8),
        C { x: bool },
    }
    type Opt<T> = Option<(V, Result<T, ()>)>;
    let name: Opt<Option<&str>> = c.pick(&[None, Some((V::Null, Ok(None))), Some((V::s("x"), Ok(Some("x")))), Some((V::Int(1), Err(())))]).clone();
    let list: Opt<Vec<Option<i64>>> = c
        .pick(&[
            None,
            Some((V::Arr(vec![]), Ok(vec![]))),
            Some((V::Arr(vec![V::Null, V::Int(-128)]), Ok(vec![None, Some(-128)]))),
            Some((V::Arr(vec![V::Int(128)]), Err(()))),
            Some((V::Arr(vec![V::Float(1.0)]), Err(()))),
            Some((V::Null, Err(()))),
        ])
        .clone();
    let kind: Opt<&str> = c
        .pick(&[
            None,
            Some((V::s("A"), Ok("A"))),
            Some((V::map(&[("B", V::Int(255))]), Ok("B(255)"))),
            Some((V::map(&[("B", V::Int(256))]), Err(()))),
            Some((V::map(&[("C", V::map(&[("x", V::Bool(true))]))]), Ok("C { x: true }"))),
            Some((V::s("D"), Err(()))),
        ])
        .clone();
    let extra = c.flag();
    let order = c.flag();
    let mut m = Vec::new();
    let mut put = |k: &str, v: Option<&V>| {
        if let Some(v) = v {
            m.push((V::s(k), v.clone()))
        }
    };
    put("someName", name.as_ref().map(|v| &v.0));
    put("list", list.as_ref().map(|v| &v.0));
    put("kind", kind.as_ref().map(|v| &v.0));
    if extra {
        put("other", Some(&V::map(&[("a", V::Arr(vec![V::Null]))])));
    }
    if order {
        m.reverse();
    }
    let v = V::Map(m);
    c.note(|| format!("{v:?}"));
    let want = (|| {
        let name = name.map_or(Ok(None), |v| v.1)?;
        let list = list.map_or(Ok(vec![]), |v| v.1)?;
        let kind = kind.ok_or(())?.1?;
        Ok::<_, ()>(serde_json::json!([name, list, kind]))
    })();
    for (place, got) in places::<Own>(&enc(&v), |o| serde_json::json!([o.some_name, o.list, match o.kind { Kind::A => "A".into(), Kind::B(n) => format!("B({n})"), Kind::C { x } => format!("C {{ x: {x} }}") }])) {
        c.check_eq("typed", &want, &got.map_err(|_| ()), place);
    }
    c.outcome(&format!("{want:?}"));
}
pub fn run(k: &Check) {
    grafbase_sdk::extension::resolver::register::<res::Ext>();
    init(vec![], &enc(&V::Null), false, "off").unwrap();
    let deep = k.thorough();
    k.space_seq("any data written", move |c| written(c, 1, true));
    k.space_seq("nested data written", move |c| written(c, 2, deep));
    k.space("any data read", move |c| read(c, 1, true));
    k.space("nested data read", move |c| read(c, 2, deep));
    k.space("data read into types", typed);
}
