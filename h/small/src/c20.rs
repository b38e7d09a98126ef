//! Wrapping: explicit sequence-of-wrappers reference model.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vmc::{Case, Check, guarded};
use wrapping::{ListWrapping, MutableWrapping, Wrapping, WrappingType};

const MAX: usize = 10;

/// Reference: inner required, then list wrappers from innermost to outermost (true = required).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct M {
    inner: bool,
    lists: Vec<bool>,
}

impl M {
    fn show(&self, name: &str) -> String {
        let mut s = "[".repeat(self.lists.len());
        s.push_str(name);
        if self.inner {
            s.push('!');
        }
        for l in &self.lists {
            s.push_str(if *l { "]!" } else { "]" });
        }
        s
    }
    fn non_null(&self) -> bool {
        *self.lists.last().unwrap_or(&self.inner)
    }
    fn lenient(&self, o: &M) -> bool {
        self.lists.len() == o.lists.len()
            && (!self.inner || o.inner)
            && self.lists.iter().zip(&o.lists).all(|(a, b)| !a || *b)
    }
    fn build(&self) -> Wrapping {
        let mut w = Wrapping::new();
        if self.inner {
            w = w.non_null();
        }
        for l in &self.lists {
            w = if *l { w.list_non_null() } else { w.list() };
        }
        w
    }
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut d = DefaultHasher::new();
    t.hash(&mut d);
    d.finish()
}

fn observe(c: &mut Case, m: &M, w: Wrapping, ctx: &str) {
    c.steps(1);
    let lists: Vec<bool> = w.list_wrappings().map(|l| l == ListWrapping::ListNonNull).collect();
    c.check_eq("list_wrappings", &m.lists, &lists, ctx);
    let mut rev: Vec<bool> = w.list_wrappings().rev().map(|l| l == ListWrapping::ListNonNull).collect();
    rev.reverse();
    c.check_eq("list_wrappings-rev", &m.lists, &rev, ctx);
    c.check_eq("len", &m.lists.len(), &w.list_wrappings().len(), ctx);
    let mut it = Vec::new();
    if m.inner {
        it.push(WrappingType::NonNull);
    }
    for l in &m.lists {
        it.push(WrappingType::List);
        if *l {
            it.push(WrappingType::NonNull);
        }
    }
    c.check_eq("iter", &it, &w.iter().collect::<Vec<_>>(), ctx);
    c.check_eq("inner_is_required", &m.inner, &w.inner_is_required(), ctx);
    c.check_eq("is_non_null", &m.non_null(), &w.is_non_null(), ctx);
    c.check_eq("is_nullable", &!m.non_null(), &w.is_nullable(), ctx);
    c.check_eq("is_list", &!m.lists.is_empty(), &w.is_list(), ctx);
    c.check_eq("display", &m.show("Ty"), &w.type_display("Ty").to_string(), ctx);
    let fresh = m.build();
    c.check(fresh == w && h(&fresh) == h(&w) && fresh.cmp(&w).is_eq(), "canonical", || {
        format!("{ctx}: {w:?} is not equal to the same wrapping built directly {fresh:?}")
    });
    let mw: MutableWrapping = w.to_mutable();
    c.check_eq("mut-required", &m.non_null(), &mw.is_required(), ctx);
    c.check_eq("mut-nullable", &!m.non_null(), &mw.is_nullable(), ctx);
    c.check_eq("mut-list", &!m.lists.is_empty(), &mw.is_list(), ctx);
    c.check(mw == w && Wrapping::from(mw) == w, "mut-roundtrip", || format!("{ctx}: mutable differs"));
}

fn any(c: &mut Case, max: usize) -> M {
    let n = c.choose(max + 1);
    let inner = c.flag();
    let lists = (0..n).map(|_| c.flag()).collect();
    M { inner, lists }
}

pub fn run(ck: &Check) {
    ck.assume("wrappings are bounded by the type's own maximum of 10 list levels");
    // 1. every wrapping value; every operation on it.
    ck.space("every value x every operation", |c| {
        let m = any(c, MAX);
        let w = m.build();
        c.outcome(&m.show("T"));
        observe(c, &m, w, "built");
        let op = c.choose(9);
        c.note(|| format!("{} then op {op}", m.show("T")));
        let mut e = m.clone();
        match op {
            0 => {
                let r = guarded(|| w.list());
                overflow(c, &m, r.is_err());
                if let Ok(w2) = r {
                    e.lists.push(false);
                    observe(c, &e, w2, "list()");
                }
            }
            1 => {
                let r = guarded(|| w.list_non_null());
                overflow(c, &m, r.is_err());
                if let Ok(w2) = r {
                    e.lists.push(true);
                    observe(c, &e, w2, "list_non_null()");
                }
            }
            2 => {
                match e.lists.last_mut() {
                    Some(l) => *l = true,
                    None => e.inner = true,
                }
                observe(c, &e, w.non_null(), "non_null()");
            }
            3 => {
                let got = w.without_list();
                if e.lists.pop().is_some() {
                    match got {
                        Some(g) => observe(c, &e, g, "without_list()"),
                        None => c.fail("without_list", format!("{} lost its list", m.show("T"))),
                    }
                } else {
                    c.check(got.is_none(), "without_list", || "without_list of a non list".into());
                }
            }
            4 => {
                match e.lists.last_mut() {
                    Some(l) => *l = false,
                    None => e.inner = false,
                }
                observe(c, &e, w.without_non_null(), "without_non_null()");
            }
            5 => {
                let mut mw = w.to_mutable();
                // pop everything
                loop {
                    let got = mw.pop_outermost_list_wrapping().map(|l| l == ListWrapping::ListNonNull);
                    let exp = e.lists.pop();
                    c.check_eq("pop", &exp, &got, "pop_outermost_list_wrapping()");
                    observe(c, &e, mw.clone().into(), "after pop");
                    if exp.is_none() {
                        break;
                    }
                }
            }
            6 | 7 => {
                // pop k, push back the other way round
                let mut mw = w.to_mutable();
                let k = c.choose(e.lists.len().min(3) + 1);
                let mut popped = vec![];
                for _ in 0..k {
                    mw.pop_outermost_list_wrapping();
                    popped.push(e.lists.pop().unwrap());
                }
                for p in popped.iter() {
                    let p = if op == 6 { *p } else { !*p };
                    mw.push_outermost_list_wrapping(if p { ListWrapping::ListNonNull } else { ListWrapping::List });
                    e.lists.push(p);
                    observe(c, &e, mw.clone().into(), "after push");
                }
            }
            _ => {
                observe(c, &M { inner: false, lists: vec![] }, Wrapping::default(), "default()");
            }
        }
    });
    // 2. every pair: leniency & equality
    let max = if ck.thorough() { 10 } else { 8 };
    ck.space("every pair", move |c| {
        let a = any(c, max);
        let b = any(c, max);
        let (wa, wb) = (a.build(), b.build());
        c.note(|| format!("{} vs {}", a.show("T"), b.show("T")));
        let got = wa.is_equal_or_more_lenient_than(wb);
        c.outcome(&(a.lists.len(), b.lists.len(), got));
        c.check(got == a.lenient(&b), "lenient", || {
            format!("{} more lenient than {}: got {got}", a.show("T"), b.show("T"))
        });
        c.check((wa == wb) == (a == b), "equality", || format!("{} == {}", a.show("T"), b.show("T")));
        c.check(wa.cmp(&wb).is_eq() == (a == b) && wa.cmp(&wb) == wb.cmp(&wa).reverse(), "order", || {
            format!("ordering of {} and {}", a.show("T"), b.show("T"))
        });
        c.check((wa.to_mutable() == wb) == (a == b), "mut-equality", || format!("{} == {}", a.show("T"), b.show("T")));
        c.steps(1);
    });
    // 2b. leniency at full depth: pairs that differ from a base in up to two positions
    ck.space("deep pairs", move |c| {
        let n = 6 + c.choose(5);
        let fill = c.choose(3);
        let base = M {
            inner: c.flag(),
            lists: (0..n).map(|i| match fill { 0 => false, 1 => true, _ => i % 2 == 0 }).collect(),
        };
        let mut b = base.clone();
        for _ in 0..2 {
            let p = c.choose(n + 2);
            if p < n {
                b.lists[p] = !b.lists[p];
            } else if p == n {
                b.inner = !b.inner;
            }
        }
        let drop = c.flag();
        if drop {
            b.lists.pop();
        }
        c.note(|| format!("{} vs {}", base.show("T"), b.show("T")));
        for (x, y) in [(&base, &b), (&b, &base)] {
            let got = x.build().is_equal_or_more_lenient_than(y.build());
            c.outcome(&(got, x.lists.len() == y.lists.len()));
            c.check(got == x.lenient(y), "lenient", || format!("{} more lenient than {}: got {got}", x.show("T"), y.show("T")));
        }
        c.steps(2);
    });
    // 3. operation sequences (also from non initial states)
    let depth = if ck.thorough() { 8 } else { 6 };
    ck.space("operation sequences", move |c| {
        let start = c.choose(3);
        let mut m = match start {
            0 => M { inner: false, lists: vec![] },
            1 => M { inner: true, lists: vec![true, false, true, false, false, true, true, false] },
            _ => M { inner: false, lists: vec![true; 9] },
        };
        let mut w = m.build();
        for _ in 0..depth {
            match c.choose(6) {
                0 => {
                    if m.lists.len() == MAX {
                        continue;
                    }
                    m.lists.push(false);
                    w = w.list();
                }
                1 => {
                    if m.lists.len() == MAX {
                        continue;
                    }
                    m.lists.push(true);
                    w = w.list_non_null();
                }
                2 => {
                    match m.lists.last_mut() {
                        Some(l) => *l = true,
                        None => m.inner = true,
                    }
                    w = w.non_null();
                }
                3 => {
                    let got = w.without_list();
                    if m.lists.pop().is_some() {
                        match got {
                            Some(g) => w = g,
                            None => return c.fail("without_list", "lost list"),
                        }
                    } else if got.is_some() {
                        return c.fail("without_list", "list out of nothing");
                    }
                }
                4 => {
                    match m.lists.last_mut() {
                        Some(l) => *l = false,
                        None => m.inner = false,
                    }
                    w = w.without_non_null();
                }
                _ => {
                    let mut mw = w.to_mutable();
                    let got = mw.pop_outermost_list_wrapping().map(|l| l == ListWrapping::ListNonNull);
                    let exp = m.lists.last().copied();
                    c.check_eq("pop", &exp, &got, "pop");
                    if let Some(l) = exp {
                        mw.push_outermost_list_wrapping(if l { ListWrapping::List } else { ListWrapping::ListNonNull });
                        *m.lists.last_mut().unwrap() = !l;
                        w = mw.into();
                    }
                }
            }
            observe(c, &m, w, "step");
        }
        c.outcome(&m);
        c.note(|| m.show("T"));
    });
}

fn overflow(c: &mut Case, m: &M, failed: bool) {
    c.check(failed == (m.lists.len() >= MAX), "overflow", || {
        format!("adding a list to {}: refused={failed}", m.show("T"))
    });
}
