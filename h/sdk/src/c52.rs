//! jq selections: an instance that has compiled filters before answers as a new one does, and compiles each once.
use grafbase_sdk::jq_selection::JqSelection;
use serde_json::{json, Value};
use std::{alloc::{GlobalAlloc, Layout, System}, cell::Cell};
use vmc::{Case, Check};

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
thread_local! {
    /// An allocation, and whether it has been freed.
    pub static WATCH: Cell<(usize, bool)> = const { Cell::new((0, false)) };
}
fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = WATCH.try_with(|w| if w.get().0 == p as usize { w.set((p as usize, true)) });
        add(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}

type Res = Result<Vec<Result<Value, String>>, String>;
/// Filters and what each is, in Rust: None where the filter itself is no jq.
type Reference = fn(&Value) -> Vec<Result<Value, ()>>;
fn field(v: &Value, k: &str) -> Result<Value, ()> {
    match v {
        Value::Object(o) => Ok(o.get(k).cloned().unwrap_or(Value::Null)),
        _ => Err(()),
    }
}
fn each(v: &Value) -> Vec<Result<Value, ()>> {
    match v {
        Value::Array(a) => a.iter().cloned().map(Ok).collect(),
        Value::Object(o) => o.values().cloned().map(Ok).collect(),
        _ => vec![Err(())],
    }
}
const FILTERS: [(&str, Option<Reference>); 14] = [
    (".", Some(|v| vec![Ok(v.clone())])),
    (".a", Some(|v| vec![field(v, "a")])),
    (".b", Some(|v| vec![field(v, "b")])),
    (".[]", Some(each)),
    (".a, .b", Some(|v| vec![field(v, "a"), field(v, "b")])),
    ("[.a]", Some(|v| vec![field(v, "a").map(|v| json!([v]))])),
    ("{x: .a}", Some(|v| vec![field(v, "a").map(|v| json!({ "x": v }))])),
    ("empty", Some(|_| vec![])),
    ("length", Some(|v| {
        vec![match v {
            Value::Null => Ok(json!(0)),
            Value::Array(a) => Ok(json!(a.len())),
            Value::Object(o) => Ok(json!(o.len())),
            Value::String(s) => Ok(json!(s.chars().count())),
            Value::Number(n) => Ok(n.as_i64().map_or(json!(n.as_f64().unwrap().abs()), |n| json!(n.abs()))),
            Value::Bool(_) => Err(()),
        }]
    })),
    (".a | .[]", Some(|v| match field(v, "a") {
        Ok(v) => each(&v),
        e => vec![e],
    })),
    // Not jq, or not defined.
    (".a |", None),
    ("nope(.)", None),
    ("", None),
    ("[", None),
];
fn data() -> Vec<Value> {
    vec![
        json!(null),
        json!({"a": 1, "b": "x"}),
        json!({"a": [1, {"b": null}], "c": true}),
        json!([{"a": 2}, 1.5, "é"]),
        json!("a"),
        json!(-3),
    ]
}
fn run1(jq: &mut JqSelection, f: &str, d: &Value) -> Res {
    match jq.select(f, d.clone()) {
        Ok(it) => Ok(it.map(|r| r.map_err(|e| e.to_string())).collect()),
        Err(e) => Err(e.to_string()),
    }
}
fn selections(c: &mut Case) {
    let n = c.choose(if c.thorough() { 4 } else { 3 }) + 1;
    let fs = if n > 3 { 6 } else { FILTERS.len() };
    let data = data();
    let ds = if n > 2 { 2 } else { data.len() };
    let mut jq = JqSelection::new();
    let mut trace = Vec::new();
    for _ in 0..n {
        let (f, d) = (c.choose(fs), c.choose(ds));
        let (src, reference) = FILTERS[f];
        trace.push((src, d));
        let got = run1(&mut jq, src, &data[d]);
        c.steps(1);
        let ctx = format!("{trace:?} of {}", data[d]);
        match (reference, &got) {
            (None, got) => {
                c.check(got.is_err(), "invalid-filter", || format!("{ctx}: the filter is not valid, the answer is {got:?}"));
            }
            (Some(_), Err(e)) => c.fail("valid-filter", format!("{ctx}: {e}")),
            (Some(r), Ok(got)) => {
                // After an error a stream may end.
                let want = r(&data[d]);
                let got: Vec<Result<Value, ()>> = got.iter().cloned().map(|r| r.map_err(|_| ())).collect();
                c.check_eq("selection", &want, &got, &ctx);
            }
        }
        c.outcome(&format!("{got:?}"));
    }
    c.note(|| format!("{trace:?}"));
}
/// Selecting with filters an instance knows takes no more memory, however often and in whatever order.
fn memory(c: &mut Case) {
    let data = data();
    let n = c.choose(3) + 1;
    let known: Vec<&str> = (0..n).map(|_| FILTERS[c.choose(10)].0).collect();
    if (1..n).any(|i| known[..i].contains(&known[i])) {
        c.skip()
    }
    let d = &data[c.choose(2) * 2];
    let mut jq = JqSelection::new();
    for _ in 0..2 {
        for f in &known {
            drop(run1(&mut jq, f, d));
        }
    }
    let live = || LIVE.with(|l| l.get());
    let before = live();
    for round in 0..20 {
        for f in &known {
            drop(run1(&mut jq, f, d));
        }
        let _ = round;
    }
    let after = live();
    c.note(|| format!("{known:?} of {d}"));
    c.check(after <= before, "filters-kept-again", || format!("20 more selections with {known:?}, all of them known to the instance, keep {} bytes", after - before));
    c.outcome(&known);
    drop(jq);
}
/// Many filters, more than the table first has room for: each is found again.
fn many(c: &mut Case) {
    let n = *c.pick(&[1, 3, 4, 7, 8, 14, 15, 28, 29, 60]);
    let reverse = c.flag();
    let mut jq = JqSelection::new();
    let d = json!({"f3": "three"});
    let filter = |i: usize| format!(".f{i}");
    for _ in 0..2 {
        (0..n).for_each(|i| drop(run1(&mut jq, &filter(i), &d).unwrap()));
    }
    let before = LIVE.with(|l| l.get());
    for i in 0..n {
        let i = if reverse { n - 1 - i } else { i };
        let got = run1(&mut jq, &filter(i), &d);
        c.check_eq("selection", &Ok(vec![Ok(if i == 3 { json!("three") } else { Value::Null })]), &got, &filter(i));
    }
    let after = LIVE.with(|l| l.get());
    c.note(|| format!("{n} filters"));
    c.check(after <= before, "filters-kept-again", || format!("selecting once more with {n} known filters keeps {} bytes", after - before));
    c.steps(3 * n as u64);
}
pub fn run(k: &Check) {
    k.space("histories of selections", selections);
    k.space("memory of known filters", memory);
    k.space("tables of filters", many);
}
