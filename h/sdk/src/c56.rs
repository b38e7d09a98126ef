//! The cache: what is stored is what was computed, once, and each call has its own timeout.
use grafbase_sdk::{host_io::cache::Cache, vmc_hooks::host::cache::STATE};
use std::{borrow::Cow, collections::BTreeMap, time::Duration};
use vmc::{Case, Check};

fn reset() {
    STATE.with(|s| *s.borrow_mut() = Default::default());
}
fn log() -> Vec<String> {
    STATE.with(|s| s.borrow().log.clone())
}
const MS: [u64; 6] = [0, 1, 999, 5_000, 3_600_000, u64::MAX];
fn dur(ms: u64) -> Duration {
    if ms == u64::MAX { Duration::MAX } else { Duration::from_millis(ms) }
}

/// What a call computes, if it is called.
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Make {
    Ok(usize),
    Err,
    /// Asks for the other key (which is then computed as well) before it answers.
    Nested,
}
const VALUES: [&[u8]; 3] = [b"", b"one", &[0, 255]];
const VARIANTS: usize = 8;
/// The variant of the API with a default or an explicit timeout: what comes back, the state made by the closure if any.
fn get(cache: &Cache, variant: usize, key: &str, t: Duration, f: &mut dyn FnMut() -> Result<(u32, Vec<u8>), String>) -> Result<(Option<Option<u32>>, Vec<u8>), String> {
    let some = |(v, b): (Option<u32>, Vec<u8>)| (Some(v), b);
    Ok(match variant {
        0 => (None, cache.get_or_insert_bytes(key, || f().unwrap().1)),
        1 => (None, cache.get_or_insert_bytes_with_timeout(key, t, || f().unwrap().1)),
        2 => some(cache.get_or_insert(key, || f().unwrap())),
        3 => some(cache.get_or_insert_with_timeout(key, t, || f().unwrap())),
        4 => (None, cache.try_get_or_insert_bytes(key, || f().map(|f| f.1))?),
        5 => (None, cache.try_get_or_insert_bytes_with_timeout(key, t, || f().map(|f| f.1))?),
        6 => some(cache.try_get_or_insert(key, || f())?),
        _ => some(cache.try_get_or_insert_with_timeout(key, t, || f())?),
    })
}
fn explicit(variant: usize) -> bool {
    variant % 2 == 1
}
fn fallible(variant: usize) -> bool {
    variant >= 4
}

fn building(c: &mut Case) {
    reset();
    let name: Cow<'static, str> = if c.flag() { "static".into() } else { String::from("own é").into() };
    let size = *c.pick(&[0usize, 1, 1000, u32::MAX as usize]);
    let (mut ttl, mut timeout, mut said) = (None, 5000u64, Vec::new());
    let mut b = Cache::builder(name.clone(), size);
    let n = c.choose(4);
    for _ in 0..n {
        if c.flag() {
            ttl = if c.flag() { None } else { Some(*c.pick(&MS)) };
            said.push(format!("ttl {ttl:?}"));
            b = b.time_to_live(ttl.map(dur));
        } else {
            timeout = *c.pick(&MS[..if n < 3 { 6 } else { 2 }]);
            said.push(format!("timeout {timeout}"));
            b = b.timeout(dur(timeout));
        }
    }
    let variant = c.choose(VARIANTS);
    let own = *c.pick(&MS[..if n < 3 { 6 } else { 2 }]);
    c.note(|| format!("{name:?}, {size}, {said:?}; call {variant} with {own}"));
    let cache = b.build();
    let out = get(&cache, variant, "key", dur(own), &mut || Ok((7, b"x".to_vec())));
    let state = (variant & 2 != 0).then_some(Some(7));
    c.check_eq("computed", &Ok((state, b"x".to_vec())), &out, "what the call gives");
    let t = if explicit(variant) { own } else { timeout };
    c.check_eq(
        "calls-of-the-host",
        &vec![format!("init {name} {size} {ttl:?}"), format!("get {name} key {t}"), format!("insert {name} key")],
        &log(),
        "what the gateway is asked",
    );
    c.outcome(&log());
}

fn histories(c: &mut Case) {
    reset();
    let depth = if c.thorough() { 4 } else { 3 };
    let names = ["a", "b"];
    let keys = ["k", "", "a k"];
    let defaults = [10u64, 0];
    let caches: Vec<Cache> = names.iter().zip(defaults).map(|(n, t)| Cache::builder(*n, 10).timeout(dur(t)).build()).collect();
    let mut model: BTreeMap<(usize, usize), Vec<u8>> = BTreeMap::new();
    let mut want: Vec<String> = names.iter().map(|n| format!("init {n} 10 None")).collect();
    let mut said = Vec::new();
    let n = 1 + c.choose(depth);
    for step in 0..n {
        let (a, k) = (c.choose(2), c.choose(if n > 2 { 2 } else { 3 }));
        if step > 0 && c.flag() {
            // The gateway lets go of an entry.
            said.push(format!("{}/{:?} is evicted", names[a], keys[k]));
            model.remove(&(a, k));
            STATE.with(|s| s.borrow_mut().entries.remove(&(names[a].to_string(), keys[k].to_string())));
            continue;
        }
        // With a long history the variants with and without a timeout take turns.
        let variant = if n > 2 { c.choose(VARIANTS / 2) * 2 + step % 2 } else { c.choose(VARIANTS) };
        let make = match c.choose(if fallible(variant) { 5 } else { 4 }) {
            4 => Make::Err,
            3 => Make::Nested,
            i => Make::Ok(i),
        };
        if n > 2 && make == Make::Ok(2) {
            c.skip();
        }
        let own = if !explicit(variant) || n > 2 { [77, 0][step / 2 % 2] } else { *c.pick(&[77, 0]) };
        said.push(format!("call {variant} of {}/{:?} making {make:?} within {own}", names[a], keys[k]));
        let other = (k + 1) % 2;
        let t = if explicit(variant) { own } else { defaults[a] };
        want.push(format!("get {} {} {t}", names[a], keys[k]));
        // The model.
        let hit = model.get(&(a, k)).cloned();
        let (exp, calls) = match (&hit, make) {
            (Some(v), _) => (Ok((None, v.clone())), 0),
            (None, Make::Err) => {
                want.push(format!("remove {} {}", names[a], keys[k]));
                (Err("failed".to_string()), 1)
            }
            (None, make) => {
                let v = match make {
                    Make::Ok(i) => VALUES[i].to_vec(),
                    _ => {
                        want.push(format!("get {} {} 5", names[a], keys[other]));
                        let inner = model.entry((a, other)).or_insert_with(|| {
                            want.push(format!("insert {} {}", names[a], keys[other]));
                            b"inner".to_vec()
                        });
                        [b"outer ".to_vec(), inner.clone()].concat()
                    }
                };
                want.push(format!("insert {} {}", names[a], keys[k]));
                model.insert((a, k), v.clone());
                (Ok((Some(step as u32), v)), 1)
            }
        };
        let exp = exp.map(|(s, v)| ((variant & 2 != 0).then_some(s), v));
        // The code.
        let mut called = 0;
        let cache = &caches[a];
        let got = get(cache, variant, keys[k], dur(own), &mut || {
            called += 1;
            Ok((
                step as u32,
                match make {
                    Make::Err => return Err("failed".into()),
                    Make::Ok(i) => VALUES[i].to_vec(),
                    Make::Nested => [b"outer ".to_vec(), cache.get_or_insert_bytes_with_timeout(keys[other], dur(5), || b"inner".to_vec())].concat(),
                },
            ))
        });
        let case = format!("{said:?}");
        c.check_eq("answer", &exp, &got, &case);
        c.check_eq("calls-of-the-closure", &calls, &called, &case);
        c.steps(1);
        if c.failed() {
            return;
        }
    }
    c.note(|| format!("{said:?}"));
    let case = format!("{said:?}");
    c.check_eq("calls-of-the-host", &want, &log(), &case);
    let entries: Vec<_> = STATE.with(|s| s.borrow().entries.clone().into_iter().collect());
    let expected: Vec<_> = {
        let mut e: Vec<_> = model.iter().map(|((a, k), v)| ((names[*a].to_string(), keys[*k].to_string()), Some(v.clone()))).collect();
        e.sort();
        e
    };
    c.check_eq("kept", &expected, &entries, &case);
    c.outcome(&format!("{entries:?}"));
}

pub fn run(k: &Check) {
    k.space("building and timeouts", building);
    k.space("histories of calls", histories);
}
