//! Very large sets: trees of more levels, and size ratios, that the histories of the other machines do not reach.
//! Model: std's BTreeSet.
use crate::tall::{alive_now, keys, size, start, tk, Counted, Mark, TK};
use crate::*;
use fc::btree::set::BTreeSet;
use std::collections::BTreeSet as Model;
use std::ops::Bound;

const KINDS: [&str; 12] = ["insert", "remove", "look up", "iterate", "range", "split off", "append", "relate", "combine", "compare", "consume", "extend"];
const NKIND: u64 = 12;

pub fn gen(r: &mut Rng, algebra: bool) -> Vec<Op> {
    let mut ops = vec![[0, size(r), r.below(6), r.below(1 << 20)]];
    //                          ins rem look it rng spl app rel com cmp con ext
    let w: [u64; 12] = if algebra { [2, 2, 0, 0, 0, 1, 1, 3, 8, 3, 0, 1] } else { [4, 4, 3, 3, 3, 3, 3, 1, 1, 0, 2, 2] };
    if algebra {
        ops.push([7, size(r), r.below(10), r.next() >> 24]);
        ops.push([8 + 32 * r.below(2), size(r), r.below(6), r.next() >> 24]);
    }
    for _ in 0..r.range(2, 6) {
        let k = r.weighted(&w) as u64;
        ops.push([k + 32 * r.below(4) / 2, size(r), r.below(60), r.next() >> 24]);
    }
    ops
}
pub fn text(o: &Op) -> String {
    format!("s{} {} {} variant {} from {}", o[0] / 32 % 2, KINDS[(o[0] % 32 % NKIND) as usize], o[1], o[2], o[3])
}

struct T<G: Mark> {
    t: BTreeSet<TK<G>>,
    m: Model<u64>,
}

fn same<'a>(what: &str, mut it: impl Iterator<Item = u64>, exp: impl Iterator<Item = &'a u64>) {
    let mut n = 0usize;
    for e in exp {
        match it.next() {
            Some(x) if x == *e => {}
            x => fail!("{}: element {} is {:?} instead of {}", what, n, x, e),
        }
        n += 1;
    }
    ck!(it.next().is_none(), "{}: more than {} elements", what, n);
    ck!(it.next().is_none(), "{}: yields after its end", what);
}
fn whole<G: Mark>(s: &T<G>, what: &str) {
    ckeq!(s.t.len(), s.m.len(), "{}: length", what);
    ckeq!(s.t.is_empty(), s.m.is_empty(), "{}: emptiness", what);
    same(what, s.t.iter().map(|k| k.0), s.m.iter());
    same(what, s.t.iter().rev().map(|k| k.0), s.m.iter().rev());
}

pub fn run(c: &Case, cx: &mut Cx) {
    if c.hv(6) % 2 == 1 {
        go::<Counted>(c, cx)
    } else {
        go::<()>(c, cx)
    }
}

fn go<G: Mark>(c: &Case, cx: &mut Cx) {
    start();
    let mut s: [T<G>; 2] = [T { t: BTreeSet::new(), m: Model::new() }, T { t: BTreeSet::new(), m: Model::new() }];
    for o in &c.ops {
        step(&mut s, o, cx);
        check_errs();
        alive_now::<G>((s[0].m.len() + s[1].m.len()) as i64, KINDS[(o[0] % 32 % NKIND) as usize]);
    }
    let [a, b] = s;
    sut(move || drop((a.t, b.t)));
    ckeq!(live(), (0, 0), "blocks and bytes owned at the end");
    alive_now::<G>(0, "dropping the sets");
}

fn step<G: Mark>(s: &mut [T<G>; 2], o: &Op, cx: &mut Cx) {
    let kind = o[0] % 32 % NKIND;
    let what = KINDS[kind as usize];
    cx.hit(what);
    cx.steps += o[1];
    let (x, y) = {
        let (l, r) = s.split_at_mut(1);
        if o[0] / 32 % 2 == 0 { (&mut l[0], &mut r[0]) } else { (&mut r[0], &mut l[0]) }
    };
    arm(Plan::None);
    let seed = mix(o[3] ^ o[1]);
    let mut r = Rng::new(seed);
    match kind {
        0 => {
            for k in keys(o) {
                let g = if mix(k) % 8 == 0 {
                    sut(|| x.t.replace(tk(k))).unwrap_or_else(|e| fail!("replace failed: {:?}", e)).is_none()
                } else {
                    sut(|| x.t.try_insert(tk(k))).unwrap_or_else(|e| fail!("insert failed: {:?}", e))
                };
                ckeq!(g, x.m.insert(k), "whether {} was new among {}", k, x.m.len());
            }
        }
        1 => {
            for k in keys(o) {
                let g = if mix(k) % 4 == 0 { sut(|| x.t.take(&tk(k))).map_or(false, |q| q.0 == k) } else { sut(|| x.t.remove(&tk(k))) };
                ckeq!(g, x.m.remove(&k), "removal of {} from {}", k, x.m.len());
            }
        }
        2 => {
            for k in keys(o).into_iter().take(60_000) {
                ckeq!((sut(|| x.t.contains(&tk(k))), sut(|| x.t.get(&tk(k))).map(|q| q.0)), (x.m.contains(&k), x.m.get(&k).copied()), "lookup of {} among {}", k, x.m.len());
            }
        }
        3 => {
            let (mut a, mut e) = (x.t.iter(), x.m.iter());
            for left in (0..=x.m.len()).rev() {
                ckeq!(a.len(), left, "remaining length of an iterator");
                let (g, w) = if r.chance(1, 2) { (a.next(), e.next()) } else { (a.next_back(), e.next_back()) };
                ckeq!(g.map(|k| k.0), w.copied(), "iteration with {} left", left);
            }
        }
        4 => {
            let top = x.m.iter().next_back().copied().unwrap_or(0) + 2;
            for _ in 0..300 {
                let (a, b) = (r.below(top), r.below(top));
                let (lo, hi) = (a.min(b), a.max(b) + 1);
                let bl = [Bound::Included(lo), Bound::Excluded(lo), Bound::Unbounded][r.below(3) as usize];
                let bh = [Bound::Included(hi), Bound::Excluded(hi), Bound::Unbounded][r.below(3) as usize];
                let tb = |b: Bound<u64>| match b {
                    Bound::Included(x) => Bound::Included(tk(x)),
                    Bound::Excluded(x) => Bound::Excluded(tk(x)),
                    Bound::Unbounded => Bound::Unbounded,
                };
                let mut g = sut(|| x.t.range((tb(bl), tb(bh))));
                let mut w = x.m.range((bl, bh));
                for q in 0..r.below(40) {
                    let (a, b) = if q % 3 == 1 { (g.next_back(), w.next_back()) } else { (g.next(), w.next()) };
                    ckeq!(a.map(|k| k.0), b.copied(), "range {:?} .. {:?}", bl, bh);
                }
            }
        }
        5 => {
            let top = x.m.iter().next_back().copied().unwrap_or(0) + 2;
            let k = match o[2] % 5 {
                0 => o[3] % top,
                1 => 0,
                2 => top,
                3 => top - 2,
                _ => mix(o[3]) % top,
            };
            let t = sut(|| x.t.try_split_off(&tk(k))).unwrap_or_else(|e| fail!("split_off failed: {:?}", e));
            let m = x.m.split_off(&k);
            let old = std::mem::replace(y, T { t, m });
            sut(move || drop(old.t));
            whole(y, "split off part");
        }
        6 => {
            sut(|| x.t.append(&mut y.t));
            x.m.append(&mut y.m);
            ck!(y.t.is_empty() && y.t.iter().next().is_none(), "the appended set kept elements");
        }
        7 => {
            // the other set is made from this one
            let small = 1 + r.below(40) as usize;
            let m: Model<u64> = match o[2] % 10 {
                0 => x.m.iter().step_by(small).copied().collect(),
                1 => x.m.iter().skip(small).copied().collect(),
                2 => x.m.iter().filter(|k| mix(**k ^ seed) % 17 != 0).copied().collect(),
                3 => x.m.iter().take(small * 50).map(|k| k + (k % 2)).collect(),
                4 => x.m.iter().map(|k| k + 1).collect(),
                5 => x.m.iter().map(|k| k + (1 << 22)).collect(),
                6 => x.m.iter().filter(|k| mix(**k ^ seed) % 400 == 0).map(|k| k ^ (mix(*k) % 5 / 4)).collect(),
                7 => x.m.iter().copied().chain(x.m.iter().next_back().map(|k| k + 1)).collect(),
                8 => x.m.iter().rev().take(x.m.len() / 16 + small % 3).copied().collect(),
                _ => x.m.clone(),
            };
            let mut t: BTreeSet<TK<G>> = BTreeSet::new();
            if o[3] % 2 == 0 {
                let it = m.iter().map(|k| tk(*k));
                t = sut(|| it.collect());
            } else {
                for k in &m {
                    sut(|| t.try_insert(tk(*k))).unwrap_or_else(|e| fail!("insert failed: {:?}", e));
                }
            }
            let old = std::mem::replace(y, T { t, m });
            sut(move || drop(old.t));
            whole(y, what);
        }
        8 => {
            let (a, b) = (&x.t, &y.t);
            let (p, q) = (&x.m, &y.m);
            same("union", a.union(b).map(|k| k.0), p.union(q));
            same("intersection", a.intersection(b).map(|k| k.0), p.intersection(q));
            same("difference", a.difference(b).map(|k| k.0), p.difference(q));
            same("symmetric difference", a.symmetric_difference(b).map(|k| k.0), p.symmetric_difference(q));
            macro_rules! hints {
                ($f:ident) => {{
                    let mut left = p.$f(q).count();
                    let mut it = sut(|| a.$f(b));
                    loop {
                        if left % 97 == 0 || left < 5 {
                            let (lo, hi) = it.size_hint();
                            ck!(lo <= left && hi.map_or(true, |h| h >= left), "size hint {:?} of {} with {} left", (lo, hi), stringify!($f), left);
                        }
                        if it.next().is_none() {
                            break;
                        }
                        left -= 1;
                        if left % 9973 == 17 {
                            ckeq!(it.clone().count(), left, "what a copy of {} yields", stringify!($f));
                        }
                    }
                    ckeq!(left, 0, "elements {} left out", stringify!($f));
                }};
            }
            match r.below(4) {
                0 => hints!(union),
                1 => hints!(intersection),
                2 => hints!(difference),
                _ => hints!(symmetric_difference),
            }
            let (c, m): (BTreeSet<TK<G>>, Model<u64>) = match r.below(4) {
                0 => (sut(|| a | b), p | q),
                1 => (sut(|| a & b), p & q),
                2 => (sut(|| a - b), p - q),
                _ => (sut(|| a ^ b), p ^ q),
            };
            let c = T { t: c, m };
            whole(&c, "a combination by operator");
            sut(move || drop(c.t));
        }
        9 => {
            let (a, b) = (&x.t, &y.t);
            let (p, q) = (&x.m, &y.m);
            ckeq!(sut(|| (a.is_subset(b), a.is_superset(b), a.is_disjoint(b))), (p.is_subset(q), p.is_superset(q), p.is_disjoint(q)), "subset, superset and disjointness of {} and {} elements", p.len(), q.len());
            ckeq!(sut(|| (b.is_subset(a), b.is_superset(a), b.is_disjoint(a))), (q.is_subset(p), q.is_superset(p), q.is_disjoint(p)), "subset, superset and disjointness of {} and {} elements", q.len(), p.len());
            ck!(sut(|| a.is_subset(a) && a.is_superset(a) && a.is_disjoint(a) == a.is_empty()), "a set of {} elements as a subset of itself", p.len());
            ckeq!(sut(|| a == b), p == q, "equality of {} and {} elements", p.len(), q.len());
            ckeq!(sut(|| a.cmp(b)), p.cmp(q), "order of {} and {} elements", p.len(), q.len());
            // nearly the same
            if let Some(&k) = p.range(mix(seed) % (1 << 20)..).next().or_else(|| p.iter().next_back()) {
                let g = sut(|| x.t.take(&tk(k)));
                x.m.remove(&k);
                let (a, b, p, q) = (&x.t, &y.t, &x.m, &y.m);
                ck!(g.map_or(false, |g| g.0 == k), "taking {}", k);
                ckeq!(sut(|| (a.is_subset(b), a.is_superset(b), a.is_disjoint(b), a == b, a.cmp(b))), (p.is_subset(q), p.is_superset(q), p.is_disjoint(q), p == q, p.cmp(q)), "relations without {}", k);
            }
        }
        10 => {
            let m = std::mem::take(&mut x.m);
            let t = std::mem::replace(&mut x.t, BTreeSet::new());
            let n = m.len();
            let stop = r.below(n as u64 + 1) * r.below(2);
            let (mut a, mut e) = (sut(|| t.into_iter()), m.into_iter());
            for left in (stop as usize..=n).rev() {
                ckeq!(a.len(), left, "remaining length of a consuming iterator");
                let (g, w) = if r.chance(1, 2) { (a.next(), e.next()) } else { (a.next_back(), e.next_back()) };
                ckeq!(g.map(|k| k.0), w, "consuming iteration with {} left", left);
            }
            sut(move || drop(a));
        }
        _ => {
            let ks = keys(o);
            let it = ks.iter().map(|k| tk(*k));
            if o[3] % 2 == 0 {
                sut(|| x.t.extend(it));
            } else {
                let t: BTreeSet<TK<G>> = sut(|| it.collect());
                let old = std::mem::replace(&mut x.t, t);
                sut(move || drop(old));
                x.m.clear();
            }
            x.m.extend(ks);
        }
    }
    whole(x, what);
    if x.m.len() >= 20_000 {
        cx.nontrivial = true;
        cx.hit("20000 elements or more");
        if y.m.len() > 0 && y.m.len() * 16 < x.m.len() {
            cx.hit("a large set next to one of less than a sixteenth");
        }
    }
    if x.m.len() >= 120_000 {
        cx.hit("120000 elements or more");
    }
}
