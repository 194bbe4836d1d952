//! P01: what operations cost. Elements count how often they are compared, hashed, tested for equality and cloned; large
//! containers are worked on under a limit of CPU time that only a needless pass over all elements can exceed.
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use vh::fc::{FallibleArc, FallibleBox, FallibleRc, FallibleVec, TryBox, TryClone, TryCollect, TryReserveError, TryVec};
use vh::*;

// ---------------------------------------------------------------- counted elements

#[derive(Clone, Copy, Default, Debug, PartialEq)]
struct Cnt {
    cmp: u64,
    eq: u64,
    hash: u64,
    clone: u64,
}
static mut CNT: Cnt = Cnt { cmp: 0, eq: 0, hash: 0, clone: 0 };
fn cnt() -> &'static mut Cnt {
    unsafe { &mut CNT }
}
/// runs f, and what it cost
fn cost<R>(f: impl FnOnce() -> R) -> (R, Cnt) {
    *cnt() = Cnt::default();
    let r = sut(f);
    (r, *cnt())
}

struct E<const N: usize>(u64, [u8; N]);
impl<const N: usize> E<N> {
    fn mk(v: u64) -> Self {
        E(v, [0; N])
    }
}
impl<const N: usize> PartialEq for E<N> {
    fn eq(&self, o: &Self) -> bool {
        cnt().eq += 1;
        self.0 == o.0
    }
}
impl<const N: usize> Eq for E<N> {}
impl<const N: usize> PartialOrd for E<N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for E<N> {
    fn cmp(&self, o: &Self) -> Ordering {
        cnt().cmp += 1;
        self.0.cmp(&o.0)
    }
}
impl<const N: usize> Hash for E<N> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        cnt().hash += 1;
        self.0.hash(h)
    }
}
impl<const N: usize> Clone for E<N> {
    fn clone(&self) -> Self {
        cnt().clone += 1;
        E(self.0, self.1)
    }
}
impl<const N: usize> TryClone for E<N> {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        cnt().clone += 1;
        Ok(E(self.0, self.1))
    }
}
impl<const N: usize> std::fmt::Debug for E<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

/// no comparisons, hashes, equality tests or clones
#[track_caller]
fn free(c: Cnt, what: &str) {
    ck!(c == Cnt::default(), "{}: needs to look at no element, but did: {:?}", what, c);
}
/// at most that many of each, and nothing else
fn within(c: Cnt, cmp: u64, eq: u64, hash: u64, clone: u64, what: &str) {
    let b = Cnt { cmp, eq, hash, clone };
    ck!(c.cmp <= cmp && c.eq <= eq && c.hash <= hash && c.clone <= clone, "{}: cost {:?}, where at most {:?} is needed", what, c, b);
}

// ---------------------------------------------------------------- CPU time

#[repr(C)]
struct Ts(i64, i64);
extern "C" {
    fn clock_gettime(c: i32, t: *mut Ts) -> i32;
}
fn cpu_ms() -> u64 {
    let mut t = Ts(0, 0);
    unsafe { clock_gettime(3, &mut t) };
    (t.0 * 1000 + t.1 / 1_000_000) as u64
}
const LIMIT: u64 = 4000;
/// f(0) .. f(n - 1): together within a limit that is some hundred times what they need
fn quick(n: u64, what: &str, mut f: impl FnMut(u64)) {
    let t = cpu_ms();
    for i in 0..n {
        f(i);
        if i % 64 == 0 {
            let d = cpu_ms() - t;
            ck!(d <= LIMIT, "{}: {} of {} calls on a large container took {} ms of CPU time", what, i + 1, n, d);
        }
    }
    let d = cpu_ms() - t;
    ck!(d <= LIMIT, "{}: {} calls on a large container took {} ms of CPU time", what, n, d);
}

/// distinct values below n in some order
fn order(n: u64, how: u64) -> impl Fn(u64) -> u64 {
    // a permutation of 0..2^k, skipping what is not below n
    let m = n.max(1).next_power_of_two() - 1;
    move |i| match how % 3 {
        0 => i,
        1 => n - 1 - i,
        _ => {
            let mut x = i;
            loop {
                x = (x.wrapping_mul(0x9E37_79B1).wrapping_add(0x1234_5677)) & m;
                if x < n {
                    return x;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- ordered maps and sets

#[cfg(feature = "btree")]
mod bt {
    use super::*;
    use vh::fc::btree::map::Entry;
    use vh::fc::btree::{BTreeMap, BTreeSet};

    /// the greatest height of a tree of n entries whose nodes hold 4 to 11
    fn height(n: usize) -> u64 {
        let (mut h, mut need) = (0, 10);
        while need - 1 <= n {
            h += 1;
            need *= 5;
        }
        h
    }
    fn path(n: usize) -> u64 {
        11 * (height(n) + 1)
    }
    /// an iterator that is good for anything a caller may do with it, and free of charge
    fn walk<I: Iterator>(mut it: I, r: &mut Rng, back: Option<fn(&mut I) -> Option<I::Item>>) -> usize {
        let mut n = 0;
        let _ = it.size_hint();
        loop {
            let x = match back {
                Some(b) if r.chance(1, 2) => b(&mut it),
                _ => it.next(),
            };
            if x.is_none() {
                return n;
            }
            n += 1;
        }
    }

    pub fn map<const N: usize, const M: usize>(ops: &[Op], cx: &mut Cx) {
        type Mp<const N: usize, const M: usize> = BTreeMap<E<N>, E<M>>;
        let mut s: Vec<Mp<N, M>> = vec![sut(BTreeMap::new), sut(BTreeMap::new)];
        for o in ops {
            let i = (o[0] / 32 % 2) as usize;
            let dom = 1 + o[3] % 4096;
            let k = o[1] % dom;
            let n = s[i].len();
            let m = s[1 - i].len();
            let p = path(n + 1);
            if n >= 30 {
                cx.nontrivial = true;
            }
            cx.steps += 1;
            match o[0] % 32 {
                0 | 1 => {
                    // grow
                    let (from, by) = (o[1], 1 + o[2] % 40);
                    for j in 0..by {
                        let n = s[i].len();
                        let (_, c) = cost(|| s[i].try_insert(E::mk(from.wrapping_add(j.wrapping_mul(o[3] % 7 + 1)) % 8192), E::mk(j)).unwrap());
                        within(c, path(n + 1), 0, 0, 0, "try_insert");
                    }
                    cx.hit("insertions");
                }
                2 => {
                    for j in 0..o[2] % 20 {
                        let (_, c) = cost(|| s[i].remove(&E::mk(k + j)));
                        within(c, p, 0, 0, 0, "remove");
                    }
                }
                3 => {
                    let (_, c) = cost(|| (s[i].get(&E::mk(k)).is_some(), 0));
                    within(c, p, 0, 0, 0, "get");
                    let (_, c) = cost(|| s[i].get_mut(&E::mk(k)).is_some());
                    within(c, p, 0, 0, 0, "get_mut");
                    let (_, c) = cost(|| s[i].contains_key(&E::mk(k)));
                    within(c, p, 0, 0, 0, "contains_key");
                    let (_, c) = cost(|| s[i].get_key_value(&E::mk(k)).is_some());
                    within(c, p, 0, 0, 0, "get_key_value");
                }
                4 => {
                    // one search for an entry, whatever is done with it
                    let how = o[2] % 8;
                    let (_, c) = cost(|| match s[i].try_entry(E::mk(k)).unwrap() {
                        Entry::Vacant(v) => match how {
                            0 => drop(v.into_key()),
                            1 => drop(v.key().0),
                            _ => v.try_insert(E::mk(1)).unwrap().0 = 3,
                        },
                        Entry::Occupied(mut v) => match how {
                            0 => drop(v.remove_entry()),
                            1 => drop(v.remove()),
                            2 => drop(v.insert(E::mk(2))),
                            3 => v.get_mut().0 = 4,
                            4 => drop(v.get().0),
                            _ => v.into_mut().0 = 5,
                        },
                    });
                    within(c, p, 0, 0, 0, "entry");
                    let (_, c) = cost(|| s[i].try_entry(E::mk(k + 1)).unwrap().and_modify(|v| v.0 += 1).or_try_insert_with(|| E::mk(7)).unwrap().0 += 1);
                    within(c, path(n + 2), 0, 0, 0, "entry with and_modify and or_try_insert_with");
                    cx.hit("entries");
                }
                5 => {
                    let hi = k + o[2] % 200;
                    let (mut it, c) = cost(|| s[i].range(E::mk(k)..E::mk(hi)));
                    within(c, 2 * p + 2, 2, 0, 0, "range");
                    let mut r = Rng::new(o[2]);
                    let (_, c) = cost(|| walk(&mut it, &mut r, Some(|i| i.next_back())));
                    free(c, "iterating over a range");
                    let (mut it, c) = cost(|| s[i].range_mut(E::mk(k)..=E::mk(hi)));
                    within(c, 2 * p + 2, 2, 0, 0, "range_mut");
                    let (_, c) = cost(|| walk(&mut it, &mut r, Some(|i| i.next_back())));
                    free(c, "iterating over a mutable range");
                    let (_, c) = cost(|| s[i].range(E::mk(k)..).next().is_some());
                    within(c, p + 1, 2, 0, 0, "range with one bound");
                    let (_, c) = cost(|| (s[i].range(..).next_back().is_some(), s[i].range(..).count()));
                    free(c, "a range without bounds");
                    cx.hit("ranges");
                }
                6 => {
                    let mut r = Rng::new(o[2]);
                    let t = &mut s[i];
                    let (x, c) = cost(|| {
                        [
                            walk(t.iter(), &mut r, Some(|i| i.next_back())),
                            walk(t.iter_mut(), &mut r, Some(|i| i.next_back())),
                            walk(t.keys(), &mut r, Some(|i| i.next_back())),
                            walk(t.values(), &mut r, Some(|i| i.next_back())),
                            walk(t.values_mut(), &mut r, Some(|i| i.next_back())),
                            t.len(),
                            t.iter().clone().count(),
                        ]
                    });
                    free(c, "iterating over a map");
                    ckeq!(x, [n; 7], "number of entries seen");
                    let (_, c) = cost(|| (t.iter().last().is_some(), t.keys().nth(3).is_some(), t.values().size_hint(), t.is_empty(), t.iter().next_back().is_some()));
                    free(c, "iterators of a map");
                    cx.hit("iterations");
                }
                7 => {
                    let (t, c) = cost(|| s[i].try_clone().unwrap());
                    within(c, 0, 0, 0, 2 * n as u64, "try_clone of a map");
                    ckeq!(t.len(), n, "length of the clone");
                    let (e, c) = cost(|| t == s[i]);
                    ck!(e, "the clone is different");
                    within(c, 0, 2 * n as u64, 0, 0, "equality of maps");
                    let (_, c) = cost(|| t.cmp(&s[i]));
                    within(c, 2 * n as u64, 2 * n as u64, 0, 0, "comparing maps");
                    let (_, c) = cost(|| t < s[1 - i]);
                    within(c, 2 * n.min(m) as u64, 2 * n.min(m) as u64, 0, 0, "comparing maps");
                    let (_, c) = cost(|| {
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        t.hash(&mut h)
                    });
                    within(c, 0, 0, 2 * n as u64, 0, "hashing a map");
                    let mut r = Rng::new(o[2]);
                    let part = o[2] % (n as u64 + 1);
                    let (_, c) = cost(|| {
                        let mut it = t.into_iter();
                        for _ in 0..part {
                            if r.chance(1, 2) {
                                it.next()
                            } else {
                                it.next_back()
                            };
                        }
                        drop(it)
                    });
                    free(c, "consuming and dropping a map");
                    cx.hit("clones");
                }
                8 => {
                    let (t, c) = cost(|| s[i].clone());
                    within(c, 0, 0, 0, 2 * n as u64, "clone of a map");
                    let (_, c) = cost(|| {
                        s[1 - i] = t;
                        s[i].clear()
                    });
                    free(c, "clearing and replacing a map");
                }
                9 => {
                    let (a, b) = s.split_at_mut(1);
                    let (a, b) = if i == 0 { (&mut a[0], &mut b[0]) } else { (&mut b[0], &mut a[0]) };
                    let (_, c) = cost(|| a.append(b));
                    within(c, 2 * (n + m) as u64, (n + m) as u64, 0, 0, "append");
                    if n == 0 || m == 0 {
                        free(c, "append with an empty map");
                    }
                    cx.hit("appends");
                }
                10 => {
                    let (t, c) = cost(|| s[i].split_off(&E::mk(k)).unwrap());
                    within(c, p, 0, 0, 0, "split_off");
                    s[1 - i] = t;
                    cx.hit("splits");
                }
                11 => {
                    // collecting: an insertion each
                    let q = o[2] % 300;
                    let f = order(q, o[1]);
                    let (t, c) = cost(|| (0..q).map(|j| (E::mk(f(j) * 2), E::mk(j))).collect::<Mp<N, M>>());
                    within(c, q * path(q as usize), 0, 0, 0, "collecting a map");
                    let (_, c) = cost(|| s[i].extend(t));
                    within(c, q * path(n + q as usize), 0, 0, 0, "extending a map");
                    cx.hit("collections");
                }
                _ => {
                    let (_, c) = cost(|| {
                        let _g = pause();
                        format!("{:?}", s[i])
                    });
                    free(c, "debug text of a map");
                    if let Some(x) = s[i].keys().nth((o[2] % 64) as usize).map(|k| k.0) {
                        let (_, c) = cost(|| s[i][&E::mk(x)].0);
                        within(c, p, 0, 0, 0, "indexing");
                    }
                }
            }
            while s[i].len() > 3000 {
                s[i] = sut(|| s[i].split_off(&E::mk(4000)).unwrap());
                if s[i].len() > 3000 {
                    s[i] = BTreeMap::new();
                }
            }
        }
        let (_, c) = cost(|| s.clear());
        free(c, "dropping maps");
    }

    pub fn set<const N: usize>(ops: &[Op], cx: &mut Cx) {
        let mut s: Vec<BTreeSet<E<N>>> = vec![sut(BTreeSet::new), sut(BTreeSet::new)];
        for o in ops {
            let i = (o[0] / 32 % 2) as usize;
            let n = s[i].len();
            let m = s[1 - i].len();
            let p = path(n + 1);
            let k = o[1] % 8192;
            if n >= 30 && m > 0 {
                cx.nontrivial = true;
            }
            cx.steps += 1;
            match o[0] % 32 {
                0..=2 => {
                    let (by, step) = (1 + o[2] % if o[2] % 8 == 0 { 1500 } else { 30 }, o[3] % 7 + 1);
                    for j in 0..by {
                        let n = s[i].len();
                        let (_, c) = cost(|| s[i].try_insert(E::mk((k + j * step) % 16384)).unwrap());
                        within(c, path(n + 1), 0, 0, 0, "try_insert into a set");
                    }
                }
                3 => {
                    let t = &mut s[i];
                    let e = E::mk(k);
                    let (_, c) = cost(|| t.contains(&e));
                    within(c, p, 0, 0, 0, "contains");
                    let (_, c) = cost(|| t.get(&e).is_some());
                    within(c, p, 0, 0, 0, "get of a set");
                    let (_, c) = cost(|| t.replace(E::mk(k)).unwrap());
                    within(c, p, 0, 0, 0, "replace");
                    let (_, c) = cost(|| t.take(&e));
                    within(c, path(n + 2), 0, 0, 0, "take");
                    let (_, c) = cost(|| t.remove(&E::mk(k + 1)));
                    within(c, path(n + 2), 0, 0, 0, "remove from a set");
                }
                4 => {
                    // algebra: one pass over both, or, if one is far smaller, a search for each of its elements
                    let (a, b) = (&s[i], &s[1 - i]);
                    let (n, m) = (n as u64, m as u64);
                    let merge = 2 * (n + m) + 4;
                    let search = |small: u64, large: u64| small * path(large as usize) + 4;
                    let bound = |small: u64, large: u64| {
                        if small * 32 < large {
                            search(small, large)
                        } else {
                            merge.max(search(small, large).min(search(large / 16, large)))
                        }
                    };
                    let (_, c) = cost(|| a.union(b).count());
                    within(c, merge, merge, 0, 0, "union");
                    let (_, c) = cost(|| a.symmetric_difference(b).count());
                    within(c, merge, merge, 0, 0, "symmetric difference");
                    let either = bound(n.min(m), n.max(m));
                    let (x, c) = cost(|| a.intersection(b).count());
                    within(c, either, either, 0, 0, "intersection");
                    let (d, c) = cost(|| a.is_disjoint(b));
                    within(c, either, either, 0, 0, "is_disjoint");
                    ckeq!(d, x == 0, "is_disjoint");
                    let first = bound(n, m);
                    let (_, c) = cost(|| a.difference(b).count());
                    within(c, first, first, 0, 0, "difference");
                    let (_, c) = cost(|| a.is_subset(b));
                    within(c, first, first, 0, 0, "is_subset");
                    let (_, c) = cost(|| b.is_superset(a));
                    within(c, first, first, 0, 0, "is_superset");
                    if n > m {
                        let (_, c) = cost(|| (a.is_subset(b), b.is_superset(a)));
                        within(c, 0, 0, 0, 0, "is_subset of a smaller set");
                    }
                    // lazily: nothing before it is asked for
                    let (its, c) = cost(|| (a.union(b), a.symmetric_difference(b), a.difference(b), a.intersection(b)));
                    free(c, "making iterators over two sets");
                    let (_, c) = cost(|| (its.0.clone().size_hint(), its.1.size_hint(), its.2.size_hint(), its.3.size_hint()));
                    free(c, "size hints of set operations");
                    let mut u = its.0;
                    for _ in 0..o[2] % 16 {
                        let (x, c) = cost(|| u.next().is_some());
                        within(c, 2, 2, 0, 0, "a step of a union");
                        if !x {
                            break;
                        }
                    }
                    let (x, c) = cost(|| a & b);
                    within(c, either + x.len() as u64 * path(x.len()), either, 0, x.len() as u64, "the operator &");
                    let (x, c) = cost(|| a | b);
                    within(c, merge + x.len() as u64 * path(x.len()), merge, 0, x.len() as u64, "the operator |");
                    let (x, c) = cost(|| a - b);
                    within(c, first + x.len() as u64 * path(x.len()), first, 0, x.len() as u64, "the operator -");
                    let (x, c) = cost(|| a ^ b);
                    within(c, merge + x.len() as u64 * path(x.len()), merge, 0, x.len() as u64, "the operator ^");
                    cx.hit("pairs of sets");
                    if n.min(m) > 0 && n.min(m) * 32 < n.max(m) {
                        cx.hit("pairs of which one is far smaller");
                    }
                }
                5 => {
                    let hi = k + o[2] % 400;
                    let (it, c) = cost(|| s[i].range(E::mk(k)..=E::mk(hi)));
                    within(c, 2 * p + 2, 2, 0, 0, "range of a set");
                    let mut r = Rng::new(o[2]);
                    let (_, c) = cost(|| walk(it, &mut r, Some(|i| i.next_back())));
                    free(c, "iterating over a range of a set");
                    let (x, c) = cost(|| walk(s[i].iter(), &mut r, Some(|i| i.next_back())));
                    free(c, "iterating over a set");
                    ckeq!(x, n, "elements seen");
                    let (_, c) = cost(|| (s[i].len(), s[i].is_empty(), s[i].iter().len(), s[i].iter().next_back().is_some()));
                    free(c, "length and ends of a set");
                }
                6 => {
                    let (a, b) = s.split_at_mut(1);
                    let (a, b) = if i == 0 { (&mut a[0], &mut b[0]) } else { (&mut b[0], &mut a[0]) };
                    let (_, c) = cost(|| a.append(b));
                    within(c, 2 * (n + m) as u64, (n + m) as u64, 0, 0, "append of sets");
                }
                7 => {
                    let (t, c) = cost(|| s[i].try_split_off(&E::mk(k)).unwrap());
                    within(c, p, 0, 0, 0, "try_split_off");
                    s[1 - i] = t;
                }
                8 => {
                    let (t, c) = cost(|| s[i].clone());
                    within(c, 0, 0, 0, n as u64, "clone of a set");
                    let (e, c) = cost(|| t == s[i]);
                    ck!(e, "the clone is different");
                    within(c, 0, n as u64, 0, 0, "equality of sets");
                    let (_, c) = cost(|| t.cmp(&s[i]));
                    within(c, n as u64, n as u64, 0, 0, "comparing sets");
                    let (_, c) = cost(|| t.into_iter().rev().take((o[2] % 50) as usize).count());
                    free(c, "consuming a set");
                }
                9 if o[2] % 4 == 0 => {
                    let (_, c) = cost(|| s[i].clear());
                    free(c, "clearing a set");
                }
                _ => {
                    let q = o[2] % 200;
                    let f = order(q, o[1]);
                    let (t, c) = cost(|| (0..q).map(|j| E::mk(f(j) * 3)).collect::<BTreeSet<E<N>>>());
                    within(c, q * path(q as usize), 0, 0, 0, "collecting a set");
                    if o[2] % 3 == 0 {
                        s[1 - i] = t;
                    }
                }
            }
        }
        let (_, c) = cost(|| s.clear());
        free(c, "dropping sets");
    }

    /// large maps and sets against the clock
    pub fn large(c: &Case, cx: &mut Cx) {
        let n = 20_000 + c.hv(2) % 30_000;
        let f = order(n, c.hv(3));
        let mut m: BTreeMap<u64, u64> = sut(BTreeMap::new);
        quick(n, "try_insert", |i| drop(sut(|| m.try_insert(f(i) * 2, i).unwrap())));
        for o in &c.ops {
            cx.steps += 1;
            cx.nontrivial = true;
            let len = m.len() as u64;
            let at = |i: u64| mix(o[1] ^ i) % (2 * n);
            match o[0] % 16 {
                0 => quick(n, "len and is_empty", |_| ck!(sut(|| (m.len() as u64, m.is_empty())) == (len, len == 0), "length")),
                1 => quick(n, "an iterator's ends and length", |_| {
                    sut(|| (m.iter().next(), m.iter().next_back(), m.iter().len(), m.keys().next_back(), m.values().next(), m.iter().size_hint()));
                }),
                2 => quick(n, "a mutable iterator's ends", |_| {
                    sut(|| {
                        (m.iter_mut().next().is_some(), m.values_mut().next_back().is_some(), m.iter_mut().len());
                    })
                }),
                3 => quick(n, "the ends of a range", |i| {
                    sut(|| (m.range(at(i)..).next(), m.range(..at(i)).next_back(), m.range(at(i)..).next_back(), m.range(..).next()));
                }),
                4 => quick(n, "the ends of a mutable range", |i| {
                    sut(|| {
                        m.range_mut(at(i)..).next().map(|x| *x.1 += 1);
                        m.range_mut(..=at(i)).next_back().map(|x| *x.1 += 1);
                    })
                }),
                5 => quick(n, "lookups", |i| {
                    sut(|| (m.get(&at(i)), m.contains_key(&at(i + 1)), m.get_key_value(&at(i + 2))));
                }),
                6 => quick(n, "removal and insertion", |i| {
                    sut(|| {
                        m.remove(&at(i));
                        m.try_insert(at(i + 1), i).unwrap();
                    })
                }),
                7 => quick(n, "entries", |i| {
                    sut(|| {
                        if let Entry::Occupied(e) = m.try_entry(at(i)).unwrap() {
                            e.remove();
                        }
                        *m.try_entry(at(i)).unwrap().or_try_insert(0).unwrap() += 1;
                    })
                }),
                8 => quick(8, "try_clone, comparison and drop of a large map", |_| {
                    let t = sut(|| m.try_clone().unwrap());
                    ck!(sut(|| t == m && t.cmp(&m) == Ordering::Equal), "the clone is different");
                    sut(|| drop(t));
                }),
                9 => quick(8, "iteration from both ends", |_| {
                    let x = sut(|| {
                        let mut it = m.iter();
                        let mut x = 0u64;
                        while let (Some(_), y) = (it.next(), it.next_back()) {
                            x += 1 + y.is_some() as u64;
                        }
                        x
                    });
                    ckeq!(x, len, "entries seen");
                }),
                10 => quick(n, "append of and to an empty map", |_| {
                    sut(|| {
                        let mut e = BTreeMap::new();
                        m.append(&mut e);
                        e.append(&mut m);
                        m = e;
                    })
                }),
                11 => quick(4, "append and split_off", |i| {
                    let t = sut(|| m.split_off(&at(i)).unwrap());
                    let mut t = t;
                    sut(|| m.append(&mut t));
                }),
                12 => quick(4, "a consuming iterator", |i| {
                    let t = sut(|| m.clone());
                    let mut it = sut(|| t.into_iter());
                    for j in 0..len / 2 {
                        sut(|| if (i + j) % 2 == 0 { it.next() } else { it.next_back() });
                        if j % 64 == 0 {
                            ck!(it.len() as u64 == len - j - 1, "length of a consuming iterator");
                        }
                    }
                    sut(|| drop(it));
                }),
                13 => {
                    let a: BTreeSet<u64> = sut(|| m.keys().copied().collect());
                    let b: BTreeSet<u64> = sut(|| m.keys().map(|k| k + 1).collect());
                    quick(n, "first elements of set operations", |_| {
                        sut(|| (a.union(&b).next(), a.symmetric_difference(&b).next(), a.difference(&b).size_hint(), a.intersection(&a).next(), a.len(), a.iter().next_back(), a.is_disjoint(&a)));
                    });
                    quick(2, "set operations", |_| {
                        sut(|| (a.union(&b).count(), a.is_subset(&b), a.intersection(&b).count(), (&a - &b).len(), (&a ^ &b).len()));
                    });
                }
                14 => quick(3, "a queue and a stack", |_| {
                    let mut t = sut(|| m.clone());
                    for i in 0..len / 2 {
                        let k = if i % 2 == 0 { t.keys().next().copied() } else { t.keys().next_back().copied() };
                        if let Some(k) = k {
                            sut(|| t.remove(&k));
                        }
                    }
                }),
                _ => quick(2, "extension and collection", |_| {
                    let mut t: BTreeMap<u64, u64> = sut(|| m.iter().map(|(k, v)| (*k, *v)).collect());
                    sut(|| t.extend(m.iter().map(|(k, v)| (k + 1, *v))));
                }),
            }
        }
        quick(1, "dropping a large map", |_| sut(|| m.clear()));
        cx.hit("large maps");
    }
}

// ---------------------------------------------------------------- vectors, boxes, pointers

fn vecs<const N: usize>(ops: &[Op], cx: &mut Cx) {
    let mut v: Vec<E<N>> = Vec::new();
    let mut t: TryVec<E<N>> = TryVec::new();
    for o in ops {
        cx.steps += 1;
        let n = v.len() as u64;
        let m = t.len() as u64;
        if n + m >= 10 {
            cx.nontrivial = true;
        }
        let k = o[1] % 40;
        match o[0] % 16 {
            0 | 1 => {
                for j in 0..k {
                    let (_, c) = cost(|| {
                        v.try_push(E::mk(j)).unwrap();
                        v.try_push_give_back(E::mk(j)).unwrap();
                        t.push(E::mk(j)).unwrap()
                    });
                    free(c, "push");
                }
            }
            2 => {
                let (_, c) = cost(|| v.try_insert((o[2] % (n + 1)) as usize, E::mk(k)).unwrap());
                free(c, "insert");
                let (_, c) = cost(|| (t.pop(), t.len(), t.iter().count(), t.iter_mut().count(), t.is_empty()));
                free(c, "pop, length and iteration");
            }
            3 => {
                let mut w: Vec<E<N>> = (0..k).map(E::mk).collect();
                let mut u: TryVec<E<N>> = (0..k).map(E::mk).collect::<Vec<_>>().into();
                let (_, c) = cost(|| (v.try_append(&mut w).unwrap(), t.append(&mut u).unwrap()));
                free(c, "append");
            }
            4 => {
                let s: Vec<E<N>> = (0..k).map(E::mk).collect();
                let (_, c) = cost(|| v.try_extend_from_slice_no_copy(&s).unwrap());
                within(c, 0, 0, 0, k, "try_extend_from_slice_no_copy");
                let (_, c) = cost(|| t.extend_from_slice(&s).unwrap());
                within(c, 0, 0, 0, k, "extend_from_slice");
            }
            5 => {
                let to = o[1] % (2 * n + 4);
                let (_, c) = cost(|| v.try_resize_no_copy(to as usize, E::mk(1)).unwrap());
                within(c, 0, 0, 0, to.saturating_sub(n), "try_resize_no_copy");
                let (_, c) = cost(|| t.resize_with((o[2] % (2 * m + 4)) as usize, || E::mk(2)).unwrap());
                free(c, "resize_with");
            }
            6 => {
                let (x, c) = cost(|| v.try_clone().unwrap());
                within(c, 0, 0, 0, n, "try_clone of a vector");
                let (_, c) = cost(|| x == v);
                within(c, 0, n, 0, 0, "equality of vectors");
                let (y, c) = cost(|| t.try_clone().unwrap());
                within(c, 0, 0, 0, m, "try_clone of a try-vector");
                let (_, c) = cost(|| (y == t, y == v));
                within(c, 0, 2 * m, 0, 0, "equality of try-vectors");
                let (_, c) = cost(|| (drop(x), y.into_iter().count()));
                free(c, "dropping and consuming vectors");
            }
            7 => {
                let (x, c) = cost(|| TryVec::<E<N>>::try_from(&v[..]).unwrap());
                within(c, 0, 0, 0, n, "try-vector from a slice");
                let mut vv: TryVec<TryVec<E<N>>> = TryVec::new();
                vv.push(x).unwrap();
                for j in 0..o[2] % 5 {
                    vv.push((0..j).map(E::mk).collect::<Vec<_>>().into()).unwrap();
                }
                let total: usize = vv.iter().map(|x| x.len()).sum();
                let (_, c) = cost(|| vv.concat().unwrap());
                within(c, 0, 0, 0, total as u64, "concat");
                let (z, c) = cost(|| vv.try_clone().unwrap());
                within(c, 0, 0, 0, total as u64, "try_clone of nested vectors");
                let (_, c) = cost(|| drop(z));
                free(c, "dropping nested vectors");
            }
            8 => {
                let (_, c) = cost(|| (0..k).map(E::<N>::mk).try_collect::<Vec<_>>().unwrap());
                free(c, "try_collect");
                let (_, c) = cost(|| (TryVec::<E<N>>::with_capacity(k as usize).unwrap(), t.reserve(k as usize).unwrap()));
                free(c, "reserve");
            }
            9 => {
                #[cfg(feature = "btree")]
                {
                    let (_, c) = cost(|| vh::fc::try_vec![E::<N>::mk(1); k as usize].unwrap());
                    within(c, 0, 0, 0, k, "try_vec! of one element repeated");
                    let (_, c) = cost(|| vh::fc::try_vec![E::<N>::mk(1), E::mk(2)].unwrap());
                    free(c, "try_vec! of a list");
                }
            }
            10 => {
                let (b, c) = cost(|| <Box<E<N>> as FallibleBox<_>>::try_new(E::mk(1)).unwrap());
                free(c, "box");
                let (_, c) = cost(|| b.try_clone().unwrap());
                within(c, 0, 0, 0, 1, "try_clone of a box");
                let (b, c) = cost(|| TryBox::try_new(E::<N>::mk(1)).unwrap());
                free(c, "try-box");
                let (_, c) = cost(|| b.try_clone().unwrap());
                within(c, 0, 0, 0, 1, "try_clone of a try-box");
                #[allow(deprecated)]
                let (_, c) = cost(|| {
                    let a = <std::sync::Arc<E<N>> as FallibleArc<_>>::try_new(E::mk(1)).unwrap();
                    let b = a.try_clone().unwrap();
                    let c = <std::rc::Rc<E<N>> as FallibleRc<_>>::try_new(E::mk(1)).unwrap();
                    (b, c)
                });
                free(c, "shared pointers");
                let (_, c) = cost(|| (Some(E::<N>::mk(1)).try_clone().unwrap(), None::<E<N>>.try_clone().unwrap()));
                within(c, 0, 0, 0, 1, "try_clone of options");
                cx.hit("boxes and pointers");
            }
            _ => {
                let (_, c) = cost(|| t.clear());
                free(c, "clear");
                if o[2] % 3 == 0 {
                    let (_, c) = cost(|| v.try_resize_no_copy((n / 2) as usize, E::mk(0)).unwrap());
                    free(c, "shrinking");
                }
            }
        }
        if v.len() > 4000 {
            v = Vec::new();
        }
        cx.hit("vector operations");
    }
    let (_, c) = cost(|| (drop(v), drop(t)));
    free(c, "dropping vectors");
}

fn large_vecs(c: &Case, cx: &mut Cx) {
    let n = 20_000 + c.hv(2) % 40_000;
    for o in &c.ops {
        cx.steps += 1;
        cx.nontrivial = true;
        match o[0] % 8 {
            0 => {
                let mut v: Vec<[u64; 4]> = Vec::new();
                quick(n, "try_push", |i| sut(|| v.try_push([i; 4]).unwrap()));
                let mut u: TryVec<[u64; 4]> = v.into();
                quick(n, "pop and push", |i| {
                    sut(|| {
                        u.pop();
                        u.push([i; 4]).unwrap();
                        (u.len(), u.is_empty(), u.iter().size_hint(), u[u.len() - 1]);
                    })
                });
            }
            1 => {
                let mut v: TryVec<u64> = TryVec::new();
                quick(n, "extend_from_slice by a few", |i| sut(|| v.extend_from_slice(&[i, i + 1, i + 2]).unwrap()));
                let mut w: TryVec<u64> = TryVec::new();
                quick(n, "append of one", |i| {
                    let mut x: TryVec<u64> = TryVec::new();
                    sut(|| {
                        x.push(i).unwrap();
                        w.append(&mut x).unwrap();
                    })
                });
            }
            2 => {
                let mut v: Vec<u64> = Vec::new();
                quick(n, "try_resize by one", |i| sut(|| v.try_resize(i as usize + 1, i).unwrap()));
                quick(n, "try_resize_no_copy by one", |i| sut(|| v.try_resize_no_copy((n + i) as usize, i).unwrap()));
                quick(n, "try_resize_with by one", |i| sut(|| v.try_resize_with((2 * n + i) as usize, || i).unwrap()));
                quick(n, "shrinking by one", |i| sut(|| v.try_resize_no_copy((3 * n - i - 1) as usize, 0).unwrap()));
            }
            3 => {
                let mut v: Vec<String> = Vec::new();
                quick(n, "reserve and push", |_| {
                    sut(|| {
                        FallibleVec::try_reserve(&mut v, 1).unwrap();
                        v.try_push(String::new()).unwrap()
                    })
                });
                quick(n, "reserving what is there", |_| sut(|| FallibleVec::try_reserve(&mut v, 0).unwrap()));
            }
            4 => quick(10, "try_collect and try_clone", |_| {
                let v: Vec<u64> = sut(|| (0..n).try_collect().unwrap());
                let w: TryVec<u64> = sut(|| v.try_clone().unwrap()).into();
                ck!(sut(|| w == v), "the clone is different");
                sut(|| drop(w.try_clone().unwrap()));
            }),
            5 => {
                let mut vv: TryVec<TryVec<u8>> = TryVec::new();
                quick(n / 4, "nested vectors", |i| sut(|| vv.push(TryVec::try_from(&[i as u8, 1][..]).unwrap()).unwrap()));
                quick(4, "concat of many", |_| ck!(sut(|| vv.concat().unwrap()).len() as u64 == n / 4 * 2, "length"));
            }
            6 => {
                #[cfg(feature = "stdio")]
                {
                    use std::io::{Read, Write};
                    use vh::fc::vec::std_io::*;
                    let mut v: TryVec<u8> = TryVec::new();
                    quick(n, "writing a byte", |i| sut(|| v.write_all(&[i as u8]).unwrap()));
                    quick(n, "reading a few bytes", |_| drop(sut(|| (&b"abc"[..]).take(2).try_read_to_end(&mut v).unwrap())));
                    let src = vec![3u8; n as usize];
                    quick(4, "reading all", |_| ck!(sut(|| (&src[..]).take(n).read_into_try_vec().unwrap()).len() as u64 == n, "length"));
                    quick(n, "writing formatted text", |i| sut(|| write!(v, "{}", i).unwrap()));
                }
            }
            _ => {
                quick(200, "formatting", |i| drop(sut(|| vh::fc::tryformat!(100, "{} {}", i, "x").unwrap())));
                let long = "ab".repeat(n as usize);
                quick(4, "formatting a long text", |_| ck!(sut(|| vh::fc::tryformat!(100_000, "{}{}", &long[..40_000], long.len()).unwrap()).len() > 40_000, "length"));
                quick(4, "a try-vector from a long text", |_| ck!(sut(|| TryVec::<u8>::try_from(&long[..]).unwrap()) == &long[..], "text"));
            }
        }
    }
    cx.hit("large vectors");
}

// ---------------------------------------------------------------- hash maps

#[cfg(all(feature = "hash", not(feature = "btree")))]
mod hs {
    use super::*;
    use vh::fc::TryHashMap;
    // tag matches within a group are chance; so many are not
    const EQ: u64 = 40;

    pub fn hash<const N: usize>(ops: &[Op], cx: &mut Cx) {
        let mut t: TryHashMap<E<N>, E<N>> = TryHashMap::default();
        let mut built = 0; // insertions since the map was made
        let mut hashed = 0;
        for o in ops {
            cx.steps += 1;
            let n = t.len() as u64;
            if n >= 20 {
                cx.nontrivial = true;
            }
            let k = o[1] % 4096;
            match o[0] % 10 {
                0..=3 => {
                    for j in 0..1 + o[2] % 60 {
                        let n = t.len() as u64;
                        arm(Plan::None);
                        let (_, c) = cost(|| t.insert(E::mk((k + j * 3) % 4096), E::mk(j)).unwrap());
                        within(c, 0, EQ, 2 + n, 0, "insert");
                        if st().cnt == 0 && c.hash > 2 {
                            // growth in place after many removals is the only other reason to hash again
                            cx.hit("rehash in place");
                        }
                        built += 1;
                        hashed += c.hash;
                    }
                    ck!(hashed <= 8 * built + 64, "{} insertions into a map hashed {} keys", built, hashed);
                }
                4 => {
                    for j in 0..o[2] % 20 {
                        let (_, c) = cost(|| t.remove(&E::mk(k + j)));
                        within(c, 0, EQ, 2, 0, "remove");
                    }
                }
                5 => {
                    let (_, c) = cost(|| t.get(&E::mk(k)).is_some());
                    within(c, 0, EQ, 2, 0, "get");
                }
                6 => {
                    let (x, c) = cost(|| (t.iter().count(), t.len()));
                    free(c, "iterating over a hash map");
                    ckeq!(x, (n as usize, n as usize), "number of entries");
                }
                7 => {
                    let (x, c) = cost(|| t.try_clone().unwrap());
                    within(c, 0, EQ * (n + 1) / 4, 2 * n + 2, 2 * n, "try_clone of a hash map");
                    let (y, c) = cost(|| x.into_iter().count());
                    free(c, "consuming a hash map");
                    ckeq!(y as u64, n, "entries of the clone");
                    cx.hit("clones");
                }
                8 => {
                    // room made once: no key is hashed twice
                    let q = o[2] % 300;
                    let (mut x, c) = cost(|| TryHashMap::<E<N>, E<N>>::with_capacity(q as usize).unwrap());
                    free(c, "with_capacity");
                    let (_, c) = cost(|| {
                        for j in 0..q {
                            x.insert(E::mk(j * 7), E::mk(j)).unwrap();
                        }
                    });
                    within(c, 0, EQ * (q + 1) / 4, 2 * q, 0, "filling a hash map within its capacity");
                    cx.hit("capacities");
                }
                _ => {
                    if o[2] % 4 == 0 {
                        let (_, c) = cost(|| t = TryHashMap::default());
                        free(c, "dropping a hash map");
                        built = 0;
                        hashed = 0;
                    }
                }
            }
        }
        let (_, c) = cost(|| drop(t));
        free(c, "dropping a hash map");
    }

    pub fn large(c: &Case, cx: &mut Cx) {
        let n = 20_000 + c.hv(2) % 40_000;
        let f = order(n, c.hv(3));
        let mut t: TryHashMap<u64, u64> = TryHashMap::default();
        quick(n, "insert", |i| drop(sut(|| t.insert(f(i), i).unwrap())));
        for o in &c.ops {
            cx.steps += 1;
            cx.nontrivial = true;
            match o[0] % 5 {
                0 => quick(n, "get and len", |i| {
                    sut(|| (t.get(&(i * 2)), t.len()));
                }),
                1 => quick(n, "remove and insert", |i| {
                    sut(|| {
                        t.remove(&f(i));
                        t.insert(f(i), i).unwrap();
                    })
                }),
                2 => quick(n, "overwriting", |i| drop(sut(|| t.insert(f(i), 1).unwrap()))),
                3 => quick(4, "try_clone", |_| ck!(sut(|| t.try_clone().unwrap().into_iter().count()) as u64 == n, "entries")),
                _ => quick(4, "iteration", |_| ck!(sut(|| t.iter().count()) as u64 == n, "entries")),
            }
        }
        cx.hit("large hash maps");
    }
}

// ---------------------------------------------------------------- the property

struct P01;
fn area(c: &Case) -> u64 {
    // one case in some hundred is large
    if c.hv(1) == 1 {
        10 + c.hv(0) % 2
    } else {
        c.hv(0) % 4
    }
}
impl Prop for P01 {
    fn id(&self) -> &'static str {
        "P01"
    }
    fn rule(&self) -> &'static str {
        "a container of 30 elements or more (10 for vectors, 20 for hash maps) was worked on, or a large one against the clock"
    }
    fn gen(&self, r: &mut Rng) -> Case {
        let large = r.chance(1, 250);
        let n = if large { r.range(1, 3) } else { r.range(2, 60) };
        let h = vec![r.below(4), large as u64, r.next() >> 20, r.below(3), r.below(3)];
        let mut ops = Vec::new();
        for _ in 0..n {
            ops.push([r.below(32) + 32 * r.below(2), r.next() >> 20, r.next() >> 20, r.next() >> 30]);
        }
        if !large {
            for o in ops.iter_mut() {
                // build up more often than not
                o[0] = match r.below(3) {
                    0 => o[0] / 32 * 32 + r.below(2),
                    _ => o[0] / 32 * 32 + r.below(13),
                };
            }
        }
        Case { h, ops }
    }
    fn desc(&self, c: &Case) -> String {
        format!("{}: {}", ["maps", "sets", "vectors", "more", "", "", "", "", "", "", "large containers", "large containers"][area(c) as usize], c.text().replace('\n', "; "))
    }
    fn run(&self, c: &Case, cx: &mut Cx) {
        #[cfg(feature = "btree")]
        match (area(c), c.hv(4) % 3) {
            (0 | 3, 0) => bt::map::<0, 0>(&c.ops, cx),
            (0 | 3, 1) => bt::map::<0, 120>(&c.ops, cx),
            (0 | 3, _) => bt::map::<56, 1>(&c.ops, cx),
            (1, 0) => bt::set::<0>(&c.ops, cx),
            (1, _) => bt::set::<24>(&c.ops, cx),
            (2, 0) => vecs::<0>(&c.ops, cx),
            (2, _) => vecs::<40>(&c.ops, cx),
            (10, _) => bt::large(c, cx),
            _ => large_vecs(c, cx),
        }
        #[cfg(all(feature = "hash", not(feature = "btree")))]
        match (area(c), c.hv(4) % 3) {
            (0 | 1, 0) => hs::hash::<0>(&c.ops, cx),
            (0 | 1, _) => hs::hash::<40>(&c.ops, cx),
            (2 | 3, 0) => vecs::<0>(&c.ops, cx),
            (2 | 3, _) => vecs::<40>(&c.ops, cx),
            (10, _) => hs::large(c, cx),
            _ => large_vecs(c, cx),
        }
    }
}

fn main() {
    main_with(&[&P01])
}
