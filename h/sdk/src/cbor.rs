//! A reader and a writer of CBOR (RFC 8949) of our own, for what the gateway and an extension exchange.
#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Bytes(Vec<u8>),
    Arr(Vec<V>),
    Map(Vec<(V, V)>),
}
use V::*;

impl V {
    pub fn s(s: &str) -> V {
        Str(s.into())
    }
    pub fn map(e: &[(&str, V)]) -> V {
        Map(e.iter().map(|(k, v)| (V::s(k), v.clone())).collect())
    }
}

fn head(out: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    match n {
        0..=23 => out.push(m | n as u8),
        24..=0xff => out.extend([m | 24, n as u8]),
        0x100..=0xffff => {
            out.push(m | 25);
            out.extend((n as u16).to_be_bytes())
        }
        0x1_0000..=0xffff_ffff => {
            out.push(m | 26);
            out.extend((n as u32).to_be_bytes())
        }
        _ => {
            out.push(m | 27);
            out.extend(n.to_be_bytes())
        }
    }
}
pub fn enc(v: &V) -> Vec<u8> {
    let mut out = Vec::new();
    enc_to(v, &mut out);
    out
}
fn enc_to(v: &V, out: &mut Vec<u8>) {
    match v {
        Null => out.push(0xf6),
        Bool(b) => out.push(0xf4 + *b as u8),
        Int(i) if *i >= 0 => head(out, 0, *i as u64),
        Int(i) => head(out, 1, (-1 - *i) as u64),
        Float(f) => {
            out.push(0xfb);
            out.extend(f.to_be_bytes())
        }
        Str(s) => {
            head(out, 3, s.len() as u64);
            out.extend(s.as_bytes())
        }
        Bytes(b) => {
            head(out, 2, b.len() as u64);
            out.extend(b)
        }
        Arr(a) => {
            head(out, 4, a.len() as u64);
            a.iter().for_each(|v| enc_to(v, out))
        }
        Map(m) => {
            head(out, 5, m.len() as u64);
            for (k, v) in m {
                enc_to(k, out);
                enc_to(v, out)
            }
        }
    }
}
/// The one item the bytes are, or why they are not.
pub fn dec(bytes: &[u8]) -> Result<V, String> {
    let mut p = bytes;
    let v = item(&mut p)?.ok_or("a break outside of an indefinite item")?;
    if p.is_empty() { Ok(v) } else { Err(format!("{} bytes after the item", p.len())) }
}
fn take<'a>(p: &mut &'a [u8], n: u64) -> Result<&'a [u8], String> {
    if (p.len() as u64) < n {
        return Err("the item is cut off".into());
    }
    let (a, b) = p.split_at(n as usize);
    *p = b;
    Ok(a)
}
fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, b| a << 8 | *b as u64)
}
fn half(h: u16) -> f64 {
    let (e, m) = ((h >> 10 & 31) as i32, (h & 1023) as f64);
    let v = match e {
        0 => m * 2f64.powi(-24),
        31 if m == 0.0 => f64::INFINITY,
        31 => f64::NAN,
        _ => (m + 1024.0) * 2f64.powi(e - 25),
    };
    if h >> 15 == 1 { -v } else { v }
}
fn item(p: &mut &[u8]) -> Result<Option<V>, String> {
    let b = take(p, 1)?[0];
    let (major, info) = (b >> 5, b & 31);
    if major == 7 {
        return Ok(Some(match info {
            20 => Bool(false),
            21 => Bool(true),
            22 | 23 => Null,
            25 => Float(half(be(take(p, 2)?) as u16)),
            26 => Float(f32::from_bits(be(take(p, 4)?) as u32) as f64),
            27 => Float(f64::from_bits(be(take(p, 8)?))),
            31 => return Ok(None),
            n => return Err(format!("simple value {n}")),
        }));
    }
    let n = match info {
        0..=23 => Some(info as u64),
        24..=27 => Some(be(take(p, 1 << (info - 24))?)),
        31 => None,
        n => return Err(format!("reserved length {n}")),
    };
    let mut left = n;
    let mut more = |p: &mut &[u8]| -> Result<Option<V>, String> {
        match &mut left {
            Some(0) => Ok(None),
            Some(l) => {
                *l -= 1;
                item(p)?.map(Some).ok_or("a break inside of a definite item".into())
            }
            None => item(p),
        }
    };
    Ok(Some(match (major, n) {
        (0, Some(n)) => Int(n as i128),
        (1, Some(n)) => Int(-1 - n as i128),
        (2, Some(n)) => Bytes(take(p, n)?.to_vec()),
        (3, Some(n)) => Str(String::from_utf8(take(p, n)?.to_vec()).map_err(|e| e.to_string())?),
        (2, None) => {
            let mut out = Vec::new();
            while let Some(v) = item(p)? {
                match v {
                    Bytes(b) => out.extend(b),
                    v => return Err(format!("a chunk of bytes is {v:?}")),
                }
            }
            Bytes(out)
        }
        (3, None) => {
            let mut out = String::new();
            while let Some(v) = item(p)? {
                match v {
                    Str(b) => out += &b,
                    v => return Err(format!("a chunk of text is {v:?}")),
                }
            }
            Str(out)
        }
        (4, _) => {
            let mut out = Vec::new();
            while let Some(v) = more(p)? {
                out.push(v)
            }
            Arr(out)
        }
        (5, _) => {
            let mut out = Vec::new();
            while let Some(k) = more2(p, &mut left)? {
                let v = item(p)?.ok_or("a key without a value")?;
                out.push((k, v))
            }
            Map(out)
        }
        _ => return Err(format!("major type {major} info {info}")),
    }))
}
fn more2(p: &mut &[u8], left: &mut Option<u64>) -> Result<Option<V>, String> {
    match left {
        Some(0) => Ok(None),
        Some(l) => {
            *l -= 1;
            item(p)?.map(Some).ok_or("a break inside of a definite item".into())
        }
        None => item(p),
    }
}
/// As JSON with string keys; bytes are no JSON.
pub fn json(v: &V) -> serde_json::Value {
    match v {
        Null => serde_json::Value::Null,
        Bool(b) => (*b).into(),
        Int(i) => u64::try_from(*i).map(Into::into).unwrap_or_else(|_| (*i as i64).into()),
        Float(f) => (*f).into(),
        Str(s) => s.clone().into(),
        Bytes(b) => b.clone().into(),
        Arr(a) => a.iter().map(json).collect(),
        Map(m) => m
            .iter()
            .map(|(k, v)| (if let Str(k) = k { k.clone() } else { format!("{k:?}") }, json(v)))
            .collect::<serde_json::Map<_, _>>()
            .into(),
    }
}
pub fn from_json(v: &serde_json::Value) -> V {
    match v {
        serde_json::Value::Null => Null,
        serde_json::Value::Bool(b) => Bool(*b),
        serde_json::Value::Number(n) => match (n.as_u64(), n.as_i64()) {
            (Some(u), _) => Int(u as i128),
            (_, Some(i)) => Int(i as i128),
            _ => Float(n.as_f64().unwrap()),
        },
        serde_json::Value::String(s) => Str(s.clone()),
        serde_json::Value::Array(a) => Arr(a.iter().map(from_json).collect()),
        serde_json::Value::Object(o) => Map(o.iter().map(|(k, v)| (Str(k.clone()), from_json(v))).collect()),
    }
}
