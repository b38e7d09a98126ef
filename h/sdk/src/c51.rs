//! Contracts: the accessibility and priority the gateway gets for every directive.
use crate::{cbor::{enc, json, V}, common::init};
use grafbase_sdk::{types::*, vmc_hooks::{call, types as w}, ContractsExtension};
use std::cell::RefCell;
use vmc::{Case, Check};

struct Ext;
type Construct = Box<dyn FnOnce(String, Vec<ContractDirective<'_>>, Vec<GraphqlSubgraph>) -> Result<Contract, Error>>;
thread_local! {
    static CONSTRUCT: RefCell<Option<Construct>> = Default::default();
    static SEEN: RefCell<Vec<String>> = Default::default();
}
impl ContractsExtension for Ext {
    fn new(_: Configuration) -> Result<Self, Error> {
        Ok(Ext)
    }
    fn construct(&mut self, key: String, directives: Vec<ContractDirective<'_>>, subgraphs: Vec<GraphqlSubgraph>) -> Result<Contract, Error> {
        CONSTRUCT.take().unwrap()(key, directives, subgraphs)
    }
}
#[derive(Clone, Copy, Debug, Hash)]
enum Op {
    Accessible(usize, bool),
    Override(usize, bool),
    Priority(usize, i8),
    Hide(bool),
    /// The nth subgraph, with another URL or not.
    Subgraph(usize, bool),
}
fn op(c: &mut Case, n: usize, subgraphs: &mut Vec<usize>) -> Op {
    match c.choose(5) {
        0 => Op::Accessible(c.choose(n), c.flag()),
        1 => Op::Override(c.choose(n), c.flag()),
        2 => Op::Priority(c.choose(n), *c.pick(&[-128, -127, -3, -2, -1, 0, 1, 2, 126, 127])),
        3 => Op::Hide(c.flag()),
        _ if subgraphs.is_empty() => c.skip(),
        _ => {
            let i = c.choose(subgraphs.len());
            Op::Subgraph(subgraphs.remove(i), c.flag())
        }
    }
}
fn rules(c: &mut Case) {
    let n = c.choose(3) + 1;
    let default = c.flag();
    let nsub = c.choose(4);
    // Two of them have the same URL.
    let url = |i: usize| format!("http://s{}/", i / 2);
    let steps = c.choose(if c.thorough() { 5 } else { 4 });
    if nsub == 3 && steps > 3 {
        c.skip();
    }
    let mut left = (0..nsub).collect();
    let ops: Vec<Op> = (0..steps).map(|_| op(c, n, &mut left)).collect();
    let fail = steps == 0 && c.flag();
    c.note(|| format!("{n} directives, accessible by default: {default}, {nsub} subgraphs, {ops:?}"));
    let args = |i: usize| V::map(&[("names", V::Arr(vec![V::Int(i as i128)]))]);
    let directives = (0..n).map(|i| w::schema::Directive { name: format!("d{}", i % 2), arguments: enc(&args(i)) }).collect();
    let subgraphs = (0..nsub).map(|i| w::GraphqlSubgraph { name: format!("s{i}"), url: url(i) }).collect();
    let mut want_seen = vec!["key k".to_string()];
    want_seen.extend((0..n).map(|i| format!("d{} {}", i % 2, json(&args(i)))));
    want_seen.extend((0..nsub).map(|i| format!("s{i} {}", url(i))));
    SEEN.take();
    let ops2 = ops.clone();
    CONSTRUCT.set(Some(Box::new(move |key, directives, subgraphs| {
        let mut seen = vec![format!("key {key}")];
        for d in &directives {
            seen.push(format!("{} {}", d.name(), d.arguments::<serde_json::Value>().map_or("error".into(), |v| v.to_string())));
        }
        seen.extend(subgraphs.iter().map(|s| format!("{} {}", s.name(), s.url())));
        SEEN.set(seen);
        if fail {
            return Err(Error::new("no contract").extension("a", 1).unwrap());
        }
        let mut subgraphs: Vec<_> = subgraphs.into_iter().map(Some).collect();
        let mut k = Contract::new(&directives, default);
        for o in ops2 {
            match o {
                Op::Accessible(d, a) => k.accessible(directives[d], a),
                Op::Override(d, a) => k.override_accessible(directives[d], a),
                Op::Priority(d, p) => k.accessible_with_priority(directives[d], p),
                Op::Hide(h) => k.hide_unreachable_types(h),
                Op::Subgraph(i, change) => {
                    let mut s = subgraphs[i].take().unwrap();
                    if change {
                        s.url_mut().push_str("v2");
                    }
                    k.subgraph(s)
                }
            };
        }
        Ok(k)
    })));
    let r = call::construct("k".into(), directives, subgraphs);
    SEEN.with(|s| c.check_eq("contract-inputs", &want_seen, &s.borrow(), "what the extension sees"));
    let k = match r {
        Ok(k) => k,
        Err(e) => {
            c.check_eq("contract-error", &(true, "no contract".to_string()), &(fail, e), "the error");
            return;
        }
    };
    c.check(!fail, "contract-error", || "the extension fails, the gateway gets a contract".into());
    // (accessible, priority)
    let level = |v: i8| if v >= 0 { (true, v as i32) } else { (false, -1 - v as i32) };
    let mut acc = vec![(default, 0); n];
    let mut hide = true;
    let mut subs = Vec::new();
    for o in &ops {
        match *o {
            Op::Accessible(d, a) => acc[d] = (a, 1),
            Op::Override(d, a) => acc[d] = (a, 127),
            Op::Priority(d, p) => acc[d] = level(p),
            Op::Hide(h) => hide = h,
            Op::Subgraph(i, change) => subs.push((format!("s{i}"), format!("{}{}", url(i), if change { "v2" } else { "" }))),
        }
    }
    let got: Vec<_> = k.accessible.iter().map(|v| level(*v)).collect();
    c.check_eq("accessibility", &acc, &got, "accessibility and priority of the directives");
    c.check_eq("contract-default", &(default, hide), &(k.accessible_by_default, k.hide_unreachable_types), "(accessible by default, hide unreachable types)");
    c.check_eq("contract-subgraphs", &subs, &k.subgraphs.into_iter().map(|s| (s.name, s.url)).collect(), "updated subgraphs");
    c.outcome(&(acc, hide, subs));
    c.steps(steps as u64);
}
pub fn run(k: &Check) {
    grafbase_sdk::extension::contracts::register::<Ext>();
    init(vec![], &enc(&V::Null), false, "off").unwrap();
    k.space_seq("contract rules", rules);
}
