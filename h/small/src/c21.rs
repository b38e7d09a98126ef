//! Id containers against std collections.
use id_newtypes::{BitSet, IdRange, IdToMany, IdToOne};
use std::collections::BTreeSet;
use vmc::{Case, Check, guarded};
use walker::Walk;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, id_derives::Id)]
struct SmallId(u8);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, id_derives::Id)]
struct U16Id(u16);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, id_derives::Id)]
struct U32Id(u32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, id_derives::Id)]
struct Nz8Id(std::num::NonZero<u8>);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, id_derives::Id)]
struct Nz16Id(std::num::NonZero<u16>);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, id_derives::Id)]
struct Nz32Id(std::num::NonZero<u32>);

#[derive(id_derives::IndexedFields)]
struct Table {
    #[indexed_by(SmallId)]
    items: Vec<i32>,
    #[indexed_by(Nz16Id)]
    names: Vec<&'static str>,
}

impl<'t> Walk<&'t [i32]> for U16Id {
    type Walker<'a>
        = i32
    where
        Self: 'a,
        &'t [i32]: 'a;
    fn walk<'a>(self, ctx: impl Into<&'t [i32]>) -> i32
    where
        Self: 'a,
        &'t [i32]: 'a,
    {
        ctx.into()[usize::from(self)]
    }
}

#[derive(Clone, Debug, PartialEq)]
struct M {
    len: usize,
    set: BTreeSet<usize>,
}

fn observe(c: &mut Case, m: &M, b: &BitSet<U16Id>, ctx: &str) {
    c.steps(1);
    let ones: Vec<usize> = b.ones().map(usize::from).collect();
    let exp: Vec<usize> = m.set.iter().copied().collect();
    c.check_eq("ones", &exp, &ones, ctx);
    let zeroes: Vec<usize> = b.zeroes().map(usize::from).collect();
    let expz: Vec<usize> = (0..m.len).filter(|i| !m.set.contains(i)).collect();
    c.check_eq("zeroes", &expz, &zeroes, ctx);
    c.check_eq("len", &m.len, &b.len(), ctx);
    c.check_eq("is_empty", &(m.len == 0), &b.is_empty(), ctx);
    for i in 0..m.len {
        if b[U16Id::from(i)] != m.set.contains(&i) {
            c.fail("index", format!("{ctx}: bit {i} is {}", b[U16Id::from(i)]));
            break;
        }
    }
    let bin: String = (0..m.len).map(|i| if m.set.contains(&i) { '1' } else { '0' }).collect();
    c.check_eq("binary", &bin, &format!("{b:b}"), ctx);
}

const LENS: [usize; 6] = [0, 1, 3, 64, 65, 130];
fn positions(len: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 1, 63, 64, 65, 129].into_iter().filter(|p| *p < len).collect();
    if len > 0 && !v.contains(&(len - 1)) {
        v.push(len - 1);
    }
    v
}

fn preset(c: &mut Case, len: usize) -> (M, BitSet<U16Id>) {
    let mut b = BitSet::with_capacity(len);
    let mut m = M { len, set: BTreeSet::new() };
    let kind = c.choose(4);
    for i in 0..len {
        let on = match kind {
            0 => false,
            1 => true,
            2 => i % 3 == 0,
            _ => i >= 60,
        };
        if on {
            b.set(i.into(), true);
            m.set.insert(i);
        }
    }
    (m, b)
}

fn ids<T, I>(ck: &Check, name: &str, max: usize)
where
    T: From<usize> + From<I> + Copy + PartialEq + std::fmt::Display + std::fmt::Debug,
    usize: From<T>,
    I: TryFrom<usize> + From<T> + PartialEq,
{
    let values: Vec<usize> = if max < 70000 {
        (0..max + 4).collect()
    } else {
        vec![0, 1, 2, 255, 256, 65535, 65536, max - 2, max - 1, max, max + 1, max + 2]
    };
    ck.space(&format!("id conversions {name}"), |c| {
        let v = *c.pick(&values);
        c.note(|| format!("{name}::from({v})"));
        let r = guarded(|| T::from(v));
        c.outcome(&r.is_ok());
        if v < max {
            match r {
                Ok(id) => {
                    c.check_eq("roundtrip", &v, &usize::from(id), name);
                    if let Ok(i) = I::try_from(v) {
                        let id2 = T::from(i);
                        c.check(id2 == id, "from-inner", || format!("{name}: {v} differs through its inner type"));
                        c.check(I::try_from(v).ok() == Some(I::from(id)), "to-inner", || format!("{name}: {v}"));
                    }
                    let s = name.strip_suffix("Id").unwrap_or(name);
                    c.check_eq("display", &format!("{s}#{v}"), &id.to_string(), name);
                    c.check_eq("debug", &format!("{s}#{v}"), &format!("{id:?}"), name);
                }
                Err(e) => c.fail("refused", format!("{name}: {v} refused: {e}")),
            }
        } else if let Ok(id) = r {
            c.fail("lossy", format!("{name}: {v} became {}", usize::from(id)));
        }
        c.steps(1);
    });
}

pub fn run(ck: &Check) {
    ck.assume("bit sets of length 0,1,3,64,65,130; positions at the ends and around the 64-bit block boundary");
    ids::<SmallId, u8>(ck, "SmallId", 256);
    ids::<U16Id, u16>(ck, "U16Id", 65536);
    ids::<U32Id, u32>(ck, "U32Id", 1 << 32);
    ids::<Nz8Id, u8>(ck, "Nz8Id", 255);
    ids::<Nz16Id, u16>(ck, "Nz16Id", 65535);
    ids::<Nz32Id, u32>(ck, "Nz32Id", (1 << 32) - 1);

    let depth = if ck.thorough() { 3 } else { 2 };
    ck.space("bit set histories", move |c| {
        let len = *c.pick(&LENS);
        let (mut m, mut b) = preset(c, len);
        c.note(|| format!("len {len}, {} ones", m.set.len()));
        observe(c, &m, &b, "initial");
        for _ in 0..depth {
            let pos = positions(m.len);
            let op = c.choose(8);
            c.note(|| format!("op {op}"));
            match op {
                0..=3 if pos.is_empty() => continue,
                0 => {
                    let p = *c.pick(&pos);
                    b.insert(p.into());
                    m.set.insert(p);
                }
                1 => {
                    let p = *c.pick(&pos);
                    let v = c.flag();
                    b.set(p.into(), v);
                    if v { m.set.insert(p); } else { m.set.remove(&p); }
                }
                2 => {
                    let p = *c.pick(&pos);
                    let was = b.put(p.into());
                    c.check_eq("put", &!m.set.insert(p), &was, "put returns the previous value");
                }
                3 => {
                    let s = *c.pick(&pos);
                    let mut ends: Vec<usize> = pos.iter().copied().filter(|e| *e >= s).collect();
                    ends.push(m.len);
                    let e = *c.pick(&ends);
                    let v = c.flag();
                    b.set_range(IdRange::from_start_and_end(U16Id::from(s), U16Id::from(e)), v);
                    for i in s..e {
                        if v { m.set.insert(i); } else { m.set.remove(&i); }
                    }
                }
                4 => {
                    let v = c.flag();
                    b.set_all(v);
                    m.set = if v { (0..m.len).collect() } else { BTreeSet::new() };
                }
                5 => {
                    let n = *c.pick(&[0usize, 1, 64, 70, 131]);
                    b.grow(n);
                    m.len = m.len.max(n);
                }
                6 => {
                    b = !b;
                    m.set = (0..m.len).filter(|i| !m.set.contains(i)).collect();
                }
                _ => {
                    let l2 = *c.pick(&LENS);
                    let (m2, b2) = preset(c, l2);
                    let assign = c.flag();
                    match c.choose(3) {
                        0 => {
                            if assign { b |= b2 } else { b = b | b2 }
                            m.set = &m.set | &m2.set;
                        }
                        1 => {
                            if assign { b &= b2 } else { b = b & b2 }
                            m.set = &m.set & &m2.set;
                        }
                        _ => {
                            if assign { b ^= b2 } else { b = b ^ b2 }
                            m.set = &m.set ^ &m2.set;
                        }
                    }
                    // the capacity of a combination of sets of different capacities is unspecified
                    c.check(b.len() >= m.set.iter().last().map(|l| l + 1).unwrap_or(0), "capacity", || "members beyond the capacity".into());
                    if l2 == m.len {
                        c.check_eq("capacity", &m.len, &b.len(), "same capacity operands");
                    }
                    m.len = b.len();
                }
            }
            observe(c, &m, &b, "step");
        }
        c.outcome(&m.set);
    });

    ck.space("id ranges", |c| {
        let s = c.choose(6);
        let n = c.choose(6);
        let e = s + n;
        let r: IdRange<U16Id> = match c.choose(4) {
            0 => IdRange::from_start_and_length((s, n)),
            1 => IdRange::from_start_and_end(s, e),
            2 => IdRange::from(s..e),
            _ => IdRange { start: s.into(), end: e.into() },
        };
        c.note(|| format!("{s}..{e}"));
        c.outcome(&(s, e));
        c.check_eq("len", &n, &r.len(), "len");
        c.check_eq("is_empty", &(n == 0), &r.is_empty(), "is_empty");
        c.check_eq("as_usize", &(s..e), &r.as_usize(), "as_usize");
        for i in 0..12usize {
            let exp = (i < n).then_some(s + i);
            c.check_eq("get", &exp, &r.get(i).map(usize::from), &format!("{s}..{e} get({i})"));
            let exp = (s..e).contains(&i).then(|| i.wrapping_sub(s));
            c.check_eq("index_of", &exp, &r.index_of(i.into()), &format!("{s}..{e} index_of({i})"));
            c.check_eq("single", &vec![i], &IdRange::from_single(U16Id::from(i)).into_iter().map(usize::from).collect::<Vec<_>>(), "from_single");
        }
        // iteration from both ends in every order
        let mut it = r.into_iter();
        let (mut a, mut z) = (s, e);
        loop {
            c.check_eq("iter-len", &(z - a), &it.len(), "remaining");
            c.check_eq("size_hint", &(z - a, Some(z - a)), &it.size_hint(), "size_hint");
            let front = c.flag();
            let (got, exp) = if front {
                let exp = (a < z).then(|| { a += 1; a - 1 });
                (it.next(), exp)
            } else {
                let exp = (a < z).then(|| { z -= 1; z });
                (it.next_back(), exp)
            };
            c.check_eq("iter", &exp, &got.map(usize::from), "iteration");
            c.steps(1);
            if exp.is_none() {
                break;
            }
        }
        // walking the range reads the same ids through a context, forward and backward
        let data: Vec<i32> = (0..12).map(|i| i * 10).collect();
        let exp: Vec<i32> = (s..e).map(|i| i as i32 * 10).collect();
        let w = r.walk(data.as_slice());
        c.check_eq("walk-len", &n, &w.len(), "walk");
        c.check_eq("walk", &exp, &w.clone().collect::<Vec<_>>(), "walk");
        c.check_eq("walk-rev", &exp.iter().rev().copied().collect::<Vec<_>>(), &w.rev().collect::<Vec<_>>(), "walk");
        c.check_eq("empty", &true, &IdRange::<U16Id>::empty().is_empty(), "empty");
    });

    ck.space("walk comparisons", |c| {
        let (a, an) = (c.choose(4), c.choose(4));
        let (b, bn) = (c.choose(4), c.choose(4));
        let da: Vec<i32> = (0..8).map(|_| 0).enumerate().map(|(i, _)| (i as i32 * 3) % 4).collect();
        let ra: IdRange<U16Id> = IdRange::from_start_and_length((a, an));
        let rb: IdRange<U16Id> = IdRange::from_start_and_length((b, bn));
        let va = &da[a..a + an];
        let vb = &da[b..b + bn];
        c.note(|| format!("{va:?} ? {vb:?}"));
        let (wa, wb) = (ra.walk(da.as_slice()), rb.walk(da.as_slice()));
        let exp = va.len().cmp(&vb.len()).then_with(|| va.cmp(vb));
        c.outcome(&exp);
        c.check_eq("cmp", &exp, &Ord::cmp(&wa, &wb), "cmp");
        c.check_eq("partial_cmp", &Some(exp), &PartialOrd::partial_cmp(&wa, &wb), "partial_cmp");
        c.check_eq("eq", &(va == vb), &(wa == wb), "eq");
        c.check_eq("debug", &format!("{va:?}"), &format!("{wa:?}"), "debug");
        c.steps(1);
    });

    ck.space("from_slice", |c| {
        let n = c.choose(6);
        let v: Vec<usize> = (0..n).map(|_| c.choose(5)).collect();
        let ids: Vec<U16Id> = v.iter().map(|i| U16Id::from(*i)).collect();
        c.note(|| format!("{v:?}"));
        let consecutive = v.windows(2).all(|w| w[1] == w[0] + 1);
        let got = IdRange::from_slice(&ids).map(|r| r.into_iter().map(usize::from).collect::<Vec<_>>());
        let exp = consecutive.then_some(v);
        c.outcome(&exp);
        c.check_eq("from_slice", &exp, &got, "from_slice");
        c.steps(1);
    });

    let n = if ck.thorough() { 6 } else { 5 };
    ck.space("one-to-many", move |c| {
        let k = c.choose(n + 1);
        let pad = *c.pick(&[0usize, 30]);
        let mut rel: Vec<(U16Id, usize)> = (0..k).map(|i| (U16Id::from(c.choose(4)), i)).collect();
        // long inputs take another sorting path
        for p in 0..pad {
            rel.push((U16Id::from((p * 7) % 9), 100 + p));
        }
        c.note(|| format!("{rel:?}"));
        let m: IdToMany<U16Id, usize> = match c.choose(3) {
            0 => rel.iter().copied().collect(),
            1 => IdToMany::from(rel.clone()),
            _ => {
                let mut s = rel.clone();
                s.sort();
                IdToMany::from_sorted_vec(s)
            }
        };
        for id in 0..10usize {
            let mut exp: Vec<usize> = rel.iter().filter(|r| usize::from(r.0) == id).map(|r| r.1).collect();
            let mut got: Vec<usize> = m.find_all(id.into()).copied().collect();
            exp.sort();
            got.sort();
            c.check_eq("find_all", &exp, &got, &format!("find_all({id})"));
        }
        let exp: Vec<usize> = rel.iter().map(|r| usize::from(r.0)).collect::<BTreeSet<_>>().into_iter().collect();
        c.check_eq("ids", &exp, &m.ids().map(usize::from).collect::<Vec<_>>(), "ids");
        c.check_eq("as_ref", &rel.len(), &m.as_ref().len(), "as_ref");
        c.outcome(&exp);
        c.steps(1);
    });

    ck.space("one-to-one and indexed fields", |c| {
        let n = c.choose(5);
        let mut m: IdToOne<U16Id, i32> = IdToOne::init(7, n);
        let mut r = vec![7; n];
        for _ in 0..3 {
            if n == 0 {
                break;
            }
            let i = c.choose(n);
            let v = c.choose(3) as i32;
            m[i.into()] = v;
            r[i] = v;
            c.check_eq("index", &r[i], &m[U16Id::from(i)], "index");
        }
        let exp: Vec<(usize, i32)> = r.iter().copied().enumerate().collect();
        c.check_eq("iter", &exp, &m.iter().map(|(i, v)| (usize::from(i), *v)).collect::<Vec<_>>(), "iter");
        c.check_eq("into_iter", &exp, &m.into_iter().map(|(i, v)| (usize::from(i), v)).collect::<Vec<_>>(), "into_iter");
        c.outcome(&r);
        let mut t = Table { items: vec![10, 11, 12, 13], names: vec!["a", "b", "c"] };
        let i = c.choose(4);
        c.check_eq("table", &(10 + i as i32), &t[SmallId::from(i)], "indexed field");
        t[SmallId::from(i)] = 5;
        c.check_eq("table", &5, &t.items[i], "indexed field");
        let j = c.choose(3);
        c.check_eq("table", &["a", "b", "c"][j], &t[Nz16Id::from(j)], "indexed field");
        let e = i + c.choose(5 - i);
        c.check_eq("table-range", &t.items[i..e].to_vec(), &t[IdRange::<SmallId>::from_start_and_end(i, e)].to_vec(), "indexed range");
        c.steps(1);
    });
}
