//! Very large maps: trees of more levels than the histories of the other machines reach.
//! Model: std's BTreeMap. Keys count how often they are compared.
use crate::giant::free;
use crate::*;
use fc::btree::map::{BTreeMap, Entry};
use fc::TryClone;
use std::collections::BTreeMap as Model;
use std::ops::Bound;

static mut CMPS: u64 = 0;

/// what else a key or value does: nothing, or count that it exists
pub trait Mark: Default + 'static {
    const LIVE: bool;
    fn copy(&self) -> Result<Self, fc::TryReserveError>;
}
impl Mark for () {
    const LIVE: bool = false;
    fn copy(&self) -> Result<(), fc::TryReserveError> {
        Ok(())
    }
}
static mut LIVE: i64 = 0;
static mut COPIES: u64 = 0;
static mut COPY_FAIL: u64 = u64::MAX;
/// has no size; the number of those alive is known, and its copy can be made to fail
pub struct Counted;
impl Default for Counted {
    fn default() -> Counted {
        unsafe { LIVE += 1 };
        Counted
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        unsafe { LIVE -= 1 };
    }
}
impl Mark for Counted {
    const LIVE: bool = true;
    fn copy(&self) -> Result<Counted, fc::TryReserveError> {
        unsafe {
            COPIES += 1;
            if COPIES - 1 == COPY_FAIL {
                return Err(some_error());
            }
        }
        Ok(Counted::default())
    }
}

pub struct TK<G: Mark>(pub u64, G);
pub struct TV<G: Mark>(pub u64, G);
pub fn tk<G: Mark>(k: u64) -> TK<G> {
    TK(k, G::default())
}
pub fn tv<G: Mark>(v: u64) -> TV<G> {
    TV(v, G::default())
}
impl<G: Mark> PartialEq for TK<G> {
    fn eq(&self, o: &TK<G>) -> bool {
        self.0 == o.0
    }
}
impl<G: Mark> Eq for TK<G> {}
impl<G: Mark> PartialOrd for TK<G> {
    fn partial_cmp(&self, o: &TK<G>) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<G: Mark> Ord for TK<G> {
    fn cmp(&self, o: &TK<G>) -> std::cmp::Ordering {
        unsafe { CMPS += 1 };
        self.0.cmp(&o.0)
    }
}
impl<G: Mark> TryClone for TK<G> {
    fn try_clone(&self) -> Result<TK<G>, fc::TryReserveError> {
        Ok(TK(self.0, self.1.copy()?))
    }
}
impl<G: Mark> Clone for TK<G> {
    fn clone(&self) -> TK<G> {
        tk(self.0)
    }
}
impl<G: Mark> std::hash::Hash for TK<G> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<G: Mark> PartialEq for TV<G> {
    fn eq(&self, o: &TV<G>) -> bool {
        self.0 == o.0
    }
}
impl<G: Mark> Eq for TV<G> {}
impl<G: Mark> PartialOrd for TV<G> {
    fn partial_cmp(&self, o: &TV<G>) -> Option<std::cmp::Ordering> {
        Some(self.0.cmp(&o.0))
    }
}
impl<G: Mark> Ord for TV<G> {
    fn cmp(&self, o: &TV<G>) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<G: Mark> TryClone for TV<G> {
    fn try_clone(&self) -> Result<TV<G>, fc::TryReserveError> {
        Ok(TV(self.0, self.1.copy()?))
    }
}
impl<G: Mark> Clone for TV<G> {
    fn clone(&self) -> TV<G> {
        tv(self.0)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tall {
    Point,
    Entry,
    Iter,
    Bulk,
    Cmp,
    Shape,
    NoMem,
    Oom,
    Errs,
    Drops,
    Clone,
    CloneFail,
}

pub const KINDS: [&str; 16] = ["insert", "remove", "look up", "iterate", "range", "split off", "append", "clone and compare", "consume", "extend", "entries", "iterate mutably", "use without memory", "insert under refusals", "split off under refusals", "clone under refusals"];
const NKIND: u64 = 16;

pub fn gen(r: &mut Rng, m: Tall) -> Vec<Op> {
    let mut ops = vec![[0, size(r), r.below(6), r.below(1 << 20)]];
    let w: [u64; 16] = match m {
        //               ins rem look it rng spl app cln con ext ent mut nom rfi rfs rfc
        Tall::Point => [4, 6, 6, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0],
        Tall::Entry => [2, 3, 1, 1, 0, 1, 1, 0, 0, 0, 8, 0, 0, 0, 0, 0],
        Tall::Iter => [2, 2, 0, 6, 6, 1, 1, 1, 4, 1, 0, 4, 0, 0, 0, 0],
        Tall::Bulk => [3, 2, 2, 1, 1, 5, 5, 2, 1, 3, 0, 0, 0, 0, 0, 0],
        Tall::Cmp => [3, 3, 1, 0, 0, 1, 1, 6, 0, 2, 0, 1, 0, 0, 0, 0],
        Tall::Shape => [4, 4, 6, 0, 5, 3, 3, 0, 0, 0, 4, 0, 0, 0, 0, 0],
        Tall::NoMem => [2, 4, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 8, 0, 0, 0],
        Tall::Oom | Tall::Errs => [1, 3, 0, 0, 0, 1, 2, 0, 0, 0, 0, 0, 0, 8, 4, 4],
        Tall::Drops => [2, 4, 0, 0, 0, 2, 3, 1, 6, 3, 2, 0, 0, 2, 1, 3],
        Tall::Clone => [2, 3, 0, 0, 0, 1, 1, 8, 0, 0, 0, 2, 0, 0, 0, 0],
        Tall::CloneFail => [2, 3, 0, 0, 0, 1, 1, 1, 0, 0, 0, 1, 0, 0, 0, 8],
    };
    for _ in 0..r.range(2, 5) {
        let k = r.weighted(&w) as u64;
        ops.push([k + 32 * r.below(8), size(r), r.below(6), r.next() >> 24]);
    }
    ops
}
pub fn size(r: &mut Rng) -> u64 {
    let top = 1 << r.range(14, 19);
    r.range(top / 2, top)
}
pub fn text(o: &Op) -> String {
    format!("m{} {} {} pattern {} from {}", (o[0] / 32) % 2, KINDS[(o[0] % 32 % NKIND) as usize], o[1], o[2] % 6, o[3])
}

struct T<G: Mark> {
    t: BTreeMap<TK<G>, TV<G>>,
    m: Model<u64, u64>,
}

pub fn keys(o: &Op) -> Vec<u64> {
    let n = o[1].min(1 << 21);
    let base = o[3] % (1 << 20);
    let span = n.max(1);
    (0..n)
        .map(|x| match o[2] % 6 {
            0 => base + x,
            1 => base + n - 1 - x,
            2 => base + mix(base ^ x) % (2 * span),
            3 => base + 2 * x,
            4 => base + if x % 2 == 0 { x / 2 } else { n - 1 - x / 2 },
            _ => (base + n).wrapping_add(if x % 2 == 0 { x / 2 } else { (x / 2 + 1).wrapping_neg() }),
        })
        .collect()
}

/// greatest number of levels below the root
fn height(n: usize) -> u64 {
    let mut h = 0u64;
    let mut need = 10usize;
    while need - 1 <= n {
        h += 1;
        need *= 5;
    }
    h
}

fn whole<G: Mark>(s: &T<G>, what: &str) {
    ckeq!(s.t.len(), s.m.len(), "{}: length", what);
    let mut it = s.t.iter();
    for (i, (k, v)) in s.m.iter().enumerate() {
        match it.next() {
            Some((a, b)) if a.0 == *k && b.0 == *v => {}
            x => fail!("{}: entry {} of {} is {:?} instead of ({}, {})", what, i, s.m.len(), x.map(|x| (x.0 .0, x.1 .0)), k, v),
        }
    }
    ck!(it.next().is_none(), "{}: more than {} entries", what, s.m.len());
    let mut it = s.t.iter();
    for (i, (k, v)) in s.m.iter().rev().enumerate() {
        match it.next_back() {
            Some((a, b)) if a.0 == *k && b.0 == *v => {}
            x => fail!("{}: entry {} from the back of {} is {:?} instead of ({}, {})", what, i, s.m.len(), x.map(|x| (x.0 .0, x.1 .0)), k, v),
        }
    }
    ck!(it.next_back().is_none(), "{}: more than {} entries from the back", what, s.m.len());
}

/// one operation on one key: bounded number of comparisons and requests
fn cost(what: &str, n: usize, c0: u64) {
    if !shape() {
        return;
    }
    let (c, r) = (unsafe { CMPS } - c0, st().cnt);
    let h = height(n + 1);
    ck!(c <= 11 * (h + 1), "{} in a map of {} entries compared keys {} times; height is at most {}", what, n, c, h);
    ck!(r <= h + 2, "{} in a map of {} entries requested {} blocks; height is at most {}", what, n, r, h);
}

fn judge(what: &str, e: &fc::TryReserveError) {
    ck!(st().refused > 0, "{} failed although nothing was refused: {:?}", what, e);
    if unsafe { JUDGE } {
        giant::judge(what, e)
    }
}

static mut JUDGE: bool = false;
static mut SHAPE: bool = false;
fn shape() -> bool {
    unsafe { SHAPE }
}

pub fn run(t: Tall, c: &Case, cx: &mut Cx) {
    if c.hv(6) % 2 == 1 {
        go::<Counted>(t, c, cx)
    } else {
        go::<()>(t, c, cx)
    }
}

fn go<G: Mark>(t: Tall, c: &Case, cx: &mut Cx) {
    unsafe {
        SHAPE = t == Tall::Shape;
        JUDGE = t == Tall::Errs;
        LIVE = 0;
        COPY_FAIL = u64::MAX;
    }
    let mut s: [T<G>; 2] = [T { t: BTreeMap::new(), m: Model::new() }, T { t: BTreeMap::new(), m: Model::new() }];
    for o in &c.ops {
        step(t, &mut s, o, cx);
        alive(&s, KINDS[(o[0] % 32 % NKIND) as usize]);
    }
    let [a, b] = s;
    let n = a.m.len() + b.m.len();
    arm(if t == Tall::NoMem { Plan::All } else { Plan::None });
    sut(move || drop((a.t, b.t)));
    ckeq!(st().refused, 0, "requests made dropping maps of {} entries", n);
    arm(Plan::None);
    let (blocks, bytes) = live();
    ck!(blocks == 0, "{} blocks ({} bytes) never returned after dropping maps of {} entries", blocks, bytes, n);
    ck!(!G::LIVE || unsafe { LIVE } == 0, "{} keys and values exist after dropping maps of {} entries", unsafe { LIVE }, n);
}

/// forget what earlier cases left
pub fn start() {
    unsafe {
        SHAPE = false;
        JUDGE = false;
        LIVE = 0;
        COPY_FAIL = u64::MAX;
    }
}
pub fn alive_now<G: Mark>(held: i64, what: &str) {
    if G::LIVE {
        ckeq!(unsafe { LIVE }, held, "elements that exist after {}, against those held", what);
    }
}

fn alive<G: Mark>(s: &[T<G>; 2], what: &str) {
    if G::LIVE {
        let held = 2 * (s[0].m.len() + s[1].m.len()) as i64;
        ckeq!(unsafe { LIVE }, held, "keys and values that exist after {}, against those held by the maps", what);
    }
}

fn step<G: Mark>(t: Tall, s: &mut [T<G>; 2], o: &Op, cx: &mut Cx) {
    let kind = o[0] % 32 % NKIND;
    let i = (o[0] / 32 % 2) as usize;
    let what = KINDS[kind as usize];
    cx.hit(what);
    let (x, y) = {
        let (l, r) = s.split_at_mut(1);
        if i == 0 { (&mut l[0], &mut r[0]) } else { (&mut r[0], &mut l[0]) }
    };
    cx.steps += o[1];
    arm(Plan::None);
    let seed = mix(o[3] ^ o[1]);
    match kind {
        0 => {
            for k in keys(o) {
                let n = x.m.len();
                arm(Plan::None);
                let c0 = unsafe { CMPS };
                let r = sut(|| x.t.try_insert(tk(k), tv(k ^ seed))).unwrap_or_else(|e| fail!("insert failed: {:?}", e)).map(|v| v.0);
                cost(what, n, c0);
                let e = x.m.insert(k, k ^ seed);
                ckeq!(r, e, "insert of {} into {} entries", k, n);
            }
        }
        1 => {
            for k in keys(o) {
                let n = x.m.len();
                arm(Plan::All);
                let c0 = unsafe { CMPS };
                let r = sut(|| x.t.remove(&tk(k))).map(|v| v.0);
                cost(what, n, c0);
                ckeq!(r, x.m.remove(&k), "remove of {} from {} entries", k, n);
            }
            arm(Plan::None);
        }
        2 => {
            let n = x.m.len();
            for k in keys(o).into_iter().take(60_000) {
                let c0 = unsafe { CMPS };
                let r = sut(|| x.t.get(&tk(k))).map(|v| &v.0);
                cost(what, n, c0);
                ckeq!(r, x.m.get(&k), "get of {} among {} entries", k, n);
                if k % 64 == 0 {
                    ckeq!(sut(|| x.t.contains_key(&tk(k))), x.m.contains_key(&k), "contains_key of {}", k);
                    ckeq!(sut(|| x.t.get_key_value(&tk(k))).map(|(a, b)| (a.0, b.0)), x.m.get_key_value(&k).map(|(a, b)| (*a, *b)), "get_key_value of {}", k);
                    let mm = x.m.get_mut(&k);
                    match (sut(|| x.t.get_mut(&tk(k))).map(|v| &mut v.0), mm) {
                        (Some(a), Some(b)) => {
                            ckeq!(*a, *b, "get_mut of {}", k);
                            *a = seed;
                            *b = seed;
                        }
                        (None, None) => {}
                        (a, b) => fail!("get_mut of {}: got {:?}, expected {:?}", k, a, b),
                    }
                }
            }
        }
        3 => {
            // from both ends, in a random interleaving
            let mut r = Rng::new(seed);
            let mut a = x.t.iter();
            let mut e = x.m.iter();
            let mut left = x.m.len();
            loop {
                ckeq!(a.len(), left, "remaining length of an iterator");
                let (g, w) = if r.chance(1, 2) { (a.next(), e.next()) } else { (a.next_back(), e.next_back()) };
                ckeq!(g.map(|(k, v)| (k.0, v.0)), w.map(|(k, v)| (*k, *v)), "iteration with {} entries left", left);
                if g.is_none() {
                    break;
                }
                left -= 1;
            }
            ckeq!(sut(|| x.t.keys().next_back()).map(|k| k.0), x.m.keys().next_back().copied(), "last key");
            ckeq!(sut(|| x.t.values().count()), x.m.len(), "number of values");
        }
        4 => {
            let mut r = Rng::new(seed);
            let top = x.m.keys().next_back().copied().unwrap_or(0) + 2;
            for _ in 0..400 {
                let (a, b) = (r.below(top), r.below(top));
                let (lo, hi) = (a.min(b), a.max(b) + 1);
                let bl = match r.below(3) {
                    0 => Bound::Included(lo),
                    1 => Bound::Excluded(lo),
                    _ => Bound::Unbounded,
                };
                let bh = match r.below(3) {
                    0 => Bound::Included(hi),
                    1 => Bound::Excluded(hi),
                    _ => Bound::Unbounded,
                };
                let tb = |b: Bound<u64>| match b {
                    Bound::Included(x) => Bound::Included(tk(x)),
                    Bound::Excluded(x) => Bound::Excluded(tk(x)),
                    Bound::Unbounded => Bound::Unbounded,
                };
                let n = x.m.len();
                let c0 = unsafe { CMPS };
                let mut g = sut(|| x.t.range((tb(bl), tb(bh))));
                let cm = unsafe { CMPS } - c0;
                let h = height(n);
                ck!(!shape() || cm <= 22 * (h + 1) + 2, "range in a map of {} entries compared keys {} times; height is at most {}", n, cm, h);
                let mut w = x.m.range((bl, bh));
                for q in 0..r.below(40) {
                    let (a, b) = if q % 3 == 1 { (g.next_back(), w.next_back()) } else { (g.next(), w.next()) };
                    ckeq!(a.map(|(k, v)| (k.0, v.0)), b.map(|(k, v)| (*k, *v)), "range {:?} .. {:?}", bl, bh);
                    if a.is_none() {
                        break;
                    }
                }
            }
        }
        5 => {
            let n = x.m.len();
            let top = x.m.keys().next_back().copied().unwrap_or(0) + 2;
            let k = match o[2] % 6 {
                0 => o[3] % top,
                1 => 0,
                2 => top,
                3 => x.m.keys().next_back().copied().unwrap_or(0),
                _ => mix(o[3]) % top,
            };
            let c0 = unsafe { CMPS };
            let t = sut(|| x.t.split_off(&tk(k))).unwrap_or_else(|e| fail!("split_off failed: {:?}", e));
            let (cm, rq) = (unsafe { CMPS } - c0, st().cnt);
            let h = height(n);
            ck!(!shape() || cm <= 11 * (h + 1), "split_off in a map of {} entries compared keys {} times; height is at most {}", n, cm, h);
            ck!(!shape() || rq <= h + 2, "split_off in a map of {} entries requested {} blocks; height is at most {}", n, rq, h);
            let m = x.m.split_off(&k);
            let old = std::mem::replace(y, T { t, m });
            sut(move || drop(old.t));
            whole(y, "split off part");
        }
        6 => {
            let n = (x.m.len() + y.m.len()) as u64;
            let c0 = unsafe { CMPS };
            sut(|| x.t.append(&mut y.t));
            let cm = unsafe { CMPS } - c0;
            ck!(!shape() || cm <= 2 * n + 2, "appending to {} entries in all compared keys {} times", n, cm);
            x.m.append(&mut y.m);
            ckeq!(y.t.len(), 0, "length of the appended map");
            ck!(y.t.iter().next().is_none(), "the appended map kept entries");
        }
        7 => {
            let c = if o[2] % 2 == 0 { sut(|| x.t.clone()) } else { sut(|| x.t.try_clone()).unwrap_or_else(|e| fail!("try_clone failed: {:?}", e)) };
            ck!(sut(|| c == x.t), "a clone of {} entries differs", x.m.len());
            ckeq!(sut(|| c.cmp(&x.t)), std::cmp::Ordering::Equal, "order of a clone");
            let mut c = T { t: c, m: x.m.clone() };
            whole(&c, "clone");
            if let Some((&k, &v)) = x.m.range(mix(o[3]) % (1 << 20)..).next().or_else(|| x.m.iter().next_back()) {
                sut(|| c.t.get_mut(&tk(k))).unwrap().0 = v.wrapping_add(1);
                c.m.insert(k, v.wrapping_add(1));
                ck!(sut(|| c.t != x.t), "a clone with another value at {} is equal", k);
                ckeq!(sut(|| c.t.cmp(&x.t)), c.m.cmp(&x.m), "order of a clone with another value at {}", k);
                ckeq!(sut(|| x.t.partial_cmp(&c.t)), x.m.partial_cmp(&c.m), "partial order of a clone with another value at {}", k);
                sut(|| c.t.remove(&tk(k)));
                c.m.remove(&k);
                ck!(sut(|| c.t != x.t), "a clone without {} is equal", k);
                whole(&c, "clone without an entry");
            }
            ck!(sut(|| y.t == x.t) == (y.m == x.m), "equality of two maps");
            ckeq!(sut(|| y.t.cmp(&x.t)), y.m.cmp(&x.m), "order of two maps");
            let old = std::mem::replace(y, c);
            sut(move || drop(old.t));
        }
        8 => {
            // taken apart by value, partly
            let n = x.m.len();
            let m = std::mem::replace(&mut x.m, Model::new());
            let t = std::mem::replace(&mut x.t, BTreeMap::new());
            let mut r = Rng::new(seed);
            let (mut a, mut e) = (sut(|| t.into_iter()), m.into_iter());
            let stop = r.below(n as u64 + 1) * r.below(2);
            for left in (stop as usize..=n).rev() {
                ckeq!(a.len(), left, "remaining length of a consuming iterator");
                let (g, w) = if r.chance(1, 2) { (a.next(), e.next()) } else { (a.next_back(), e.next_back()) };
                ckeq!(g.map(|(k, v)| (k.0, v.0)), w, "consuming iteration with {} entries left", left);
            }
            sut(move || drop(a));
        }
        9 => {
            let ks = keys(o);
            let it = ks.iter().map(|k| (tk(*k), tv(k ^ seed)));
            if o[3] % 2 == 0 {
                sut(|| x.t.extend(it));
            } else {
                let t: BTreeMap<TK<G>, TV<G>> = sut(|| it.collect());
                let old = std::mem::replace(&mut x.t, t);
                sut(move || drop(old));
                x.m.clear();
            }
            x.m.extend(ks.iter().map(|k| (*k, k ^ seed)));
        }
        10 => {
            for k in keys(o) {
                let n = x.m.len();
                arm(Plan::None);
                let c0 = unsafe { CMPS };
                let e = sut(|| x.t.try_entry(tk(k))).unwrap_or_else(|e| fail!("try_entry failed: {:?}", e));
                match e {
                    Entry::Vacant(v) => {
                        ck!(!x.m.contains_key(&k), "{} among {} entries is reported vacant", k, n);
                        if k % 4 != 3 {
                            let g = sut(|| v.try_insert(tv(k ^ seed))).unwrap_or_else(|e| fail!("try_insert failed: {:?}", e));
                            let g = &mut g.0;
                            ckeq!(*g, k ^ seed, "value just inserted for {}", k);
                            *g ^= 5;
                            x.m.insert(k, k ^ seed ^ 5);
                        } else {
                            ckeq!(sut(|| v.into_key()).0, k, "key of a vacant entry");
                        }
                    }
                    Entry::Occupied(mut e) => {
                        ckeq!(Some(&e.get().0), x.m.get(&k), "value of the occupied entry for {} among {}", k, n);
                        ckeq!(e.key().0, k, "key of an occupied entry");
                        if mix(k ^ seed) % 3 == 0 {
                            ckeq!(sut(|| e.remove_entry()).1 .0, x.m.remove(&k).unwrap(), "entry removed for {}", k);
                        } else {
                            e.get_mut().0 ^= 9;
                            *x.m.get_mut(&k).unwrap() ^= 9;
                        }
                    }
                }
                cost(what, n, c0);
            }
        }
        11 => {
            for (n, v) in sut(|| x.t.values_mut()).enumerate() {
                v.0 = v.0.wrapping_mul(3) ^ n as u64;
            }
            for (n, v) in x.m.values_mut().enumerate() {
                *v = v.wrapping_mul(3) ^ n as u64;
            }
            for (k, v) in sut(|| x.t.iter_mut()).rev() {
                v.0 ^= k.0;
            }
            for (k, v) in x.m.iter_mut() {
                *v ^= k;
            }
            let top = x.m.keys().next_back().copied().unwrap_or(0) + 1;
            let lo = mix(o[3]) % top;
            for (_, v) in sut(|| x.t.range_mut(tk(lo)..)).take(5000) {
                v.0 += 1;
            }
            for (_, v) in x.m.range_mut(lo..).take(5000) {
                *v += 1;
            }
        }
        12 => {
            let n = x.m.len();
            let hs = |h: u64, k: u64, v: u64| mix(h ^ k ^ mix(v));
            let want = x.m.iter().fold(1u64, |h, (k, v)| hs(h, *k, *v));
            let back = x.m.iter().rev().fold(1u64, |h, (k, v)| hs(h, *k, *v));
            let top = x.m.keys().next_back().copied().unwrap_or(0) + 2;
            let lo = mix(o[3]) % top;
            let part = x.m.range(lo..).fold(1u64, |h, (k, v)| hs(h, *k, *v));
            free("iter", n, || ckeq!(x.t.iter().fold(1u64, |h, (k, v)| hs(h, k.0, v.0)), want, "iteration over {} entries", n));
            free("reversed iter", n, || ckeq!(x.t.iter().rev().fold(1u64, |h, (k, v)| hs(h, k.0, v.0)), back, "reversed iteration over {} entries", n));
            free("iter_mut", n, || ckeq!(x.t.iter_mut().fold(1u64, |h, (k, v)| hs(h, k.0, v.0)), want, "iter_mut over {} entries", n));
            free("keys, values and values_mut", n, || ckeq!((x.t.keys().count(), x.t.values().count(), x.t.values_mut().count()), (n, n, n), "numbers of keys and values"));
            free("range", n, || ckeq!(x.t.range(tk(lo)..).fold(1u64, |h, (k, v)| hs(h, k.0, v.0)), part, "range from {} of {} entries", lo, n));
            free("range_mut", n, || ckeq!(x.t.range_mut(tk(lo)..).fold(1u64, |h, (k, v)| hs(h, k.0, v.0)), part, "range_mut from {} of {} entries", lo, n));
            free("first, last, min and max", n, || {
                ckeq!(x.t.iter().next().map(|e| e.0 .0), x.m.keys().next().copied(), "first key");
                ckeq!(x.t.iter().last().map(|e| e.0 .0), x.m.keys().next_back().copied(), "last key");
                ckeq!(x.t.keys().min().map(|e| e.0), x.m.keys().next().copied(), "least key");
                ckeq!(x.t.keys().max().map(|e| e.0), x.m.keys().next_back().copied(), "greatest key");
            });
            free("comparison", n, || ck!(x.t == x.t && x.t.cmp(&x.t).is_eq(), "a map of {} entries differs from itself", n));
            for q in 0..2000u64 {
                let k = mix(o[3] ^ q) % top;
                match q % 5 {
                    0 => free("get", n, || ckeq!(x.t.get(&tk(k)).map(|v| &v.0), x.m.get(&k), "get of {} among {}", k, n)),
                    1 => free("get_mut and contains_key", n, || ckeq!((x.t.get_mut(&tk(k)).map(|v| v.0), x.t.contains_key(&tk(k))), (x.m.get(&k).copied(), x.m.contains_key(&k)), "get_mut of {} among {}", k, n)),
                    2 => {
                        let was = x.m.remove(&k);
                        free("remove", n, || ckeq!(x.t.remove(&tk(k)).map(|v| v.0), was, "remove of {} among {}", k, n));
                    }
                    _ => {
                        if let Some((&k, _)) = x.m.range(k..).next() {
                            let was = if q % 5 == 3 { x.m.remove(&k) } else { x.m.insert(k, q) };
                            let now = free("an occupied entry", n, || match x.t.try_entry(tk(k)) {
                                Ok(Entry::Occupied(e)) if q % 5 == 3 => Some(e.remove().0),
                                Ok(Entry::Occupied(mut e)) => Some(e.insert(tv(q)).0),
                                Ok(Entry::Vacant(_)) => None,
                                Err(e) => fail!("entry of a present key: {:?}", e),
                            });
                            ckeq!(now, was, "occupied entry of {} among {}", k, n);
                        }
                    }
                }
            }
            whole(x, what);
            match o[2] % 3 {
                0 => {
                    free("clear", n, || x.t.clear());
                    x.m.clear();
                }
                1 => {
                    let t = std::mem::replace(&mut x.t, BTreeMap::new());
                    let n = x.m.len();
                    let stop = if o[3] % 2 == 0 { n } else { (mix(seed) % (n as u64 + 1)) as usize };
                    let left = free("into_iter", n, || {
                        let mut i = t.into_iter();
                        let mut c = 0;
                        for q in 0..stop {
                            c += if q % 3 == 0 { i.next_back() } else { i.next() }.is_some() as usize;
                        }
                        c + i.len()
                    });
                    ckeq!(left, n, "entries yielded and left");
                    x.m.clear();
                }
                _ => {}
            }
        }
        13 => {
            // every request of insertions that need one is refused in turn
            let (mut seen, mut deepest, mut checked) = (0u64, 0u64, 0u64);
            for k in keys(o) {
                let n = x.m.len();
                let mut at = if t == Tall::Drops { mix(k) % 4 } else { u64::MAX };
                loop {
                    // first none at all, then all but the first, and so on
                    arm(if at == u64::MAX { Plan::All } else { Plan::Once(at) });
                    let by_entry = mix(k ^ seed) % 4 == 0;
                    let r = sut(|| {
                        if by_entry {
                            match x.t.try_entry(tk(k))? {
                                Entry::Vacant(e) => e.try_insert(tv(k ^ seed)).map(|_| None),
                                Entry::Occupied(mut e) => Ok(Some(e.insert(tv(k ^ seed)).0)),
                            }
                        } else {
                            x.t.try_insert(tk(k), tv(k ^ seed)).map(|v| v.map(|v| v.0))
                        }
                    });
                    let refused = st().refused;
                    match r {
                        Ok(r) => {
                            ckeq!(refused, 0, "insertion of {} into {} entries succeeded; refused requests", k, n);
                            ckeq!(r, x.m.insert(k, k ^ seed), "insertion of {} into {} entries", k, n);
                            break;
                        }
                        Err(e) => {
                            judge("insertion", &e);
                            seen += 1;
                            ckeq!(x.t.len(), n, "length after a refused insertion");
                            ckeq!(sut(|| x.t.get(&tk(k))).map(|v| v.0), x.m.get(&k).copied(), "the key of a refused insertion");
                            ckeq!(sut(|| x.t.range(tk(k)..).next()).map(|e| (e.0 .0, e.1 .0)), x.m.range(k..).next().map(|e| (*e.0, *e.1)), "the entry after that of a refused insertion");
                            ckeq!(sut(|| x.t.range(..tk(k)).next_back()).map(|e| (e.0 .0, e.1 .0)), x.m.range(..k).next_back().map(|e| (*e.0, *e.1)), "the entry before that of a refused insertion");
                            at = at.wrapping_add(1);
                            if at > deepest {
                                deepest = at;
                                checked = 0;
                            }
                            if at >= 3 && at >= deepest && checked < 3 {
                                checked += 1;
                                whole(x, "refused insertion");
                            }
                        }
                    }
                }
            }
            arm(Plan::None);
            cx.add("refused insertions", seen);
            if deepest >= 4 {
                cx.hit("insertions refused at their fourth request or later");
            }
        }
        14 => {
            let n = x.m.len();
            let top = x.m.keys().next_back().copied().unwrap_or(0) + 2;
            let k = mix(o[3]) % top;
            let mut at = u64::MAX;
            let part = loop {
                arm(if at == u64::MAX { Plan::All } else { Plan::Once(at) });
                let r = sut(|| x.t.split_off(&tk(k)));
                let refused = st().refused;
                match r {
                    Ok(p) => {
                        ckeq!(refused, 0, "split_off of {} entries succeeded; refused requests", n);
                        break p;
                    }
                    Err(e) => {
                        judge("split_off", &e);
                        cx.hit("refused split_off");
                        arm(Plan::None);
                        whole(x, "refused split_off");
                        at = at.wrapping_add(1);
                    }
                }
            };
            arm(Plan::None);
            let m = x.m.split_off(&k);
            let old = std::mem::replace(y, T { t: part, m });
            sut(move || drop(old.t));
            whole(y, "split off part");
        }
        _ => {
            // a clone, with requests or copies of entries refused
            let n = x.m.len();
            let before = (live(), unsafe { LIVE });
            arm(Plan::None);
            unsafe { COPIES = 0 };
            let c = sut(|| x.t.try_clone()).unwrap_or_else(|e| fail!("try_clone failed: {:?}", e));
            let (reqs, copies) = (st().cnt, unsafe { COPIES });
            let mut c = T { t: c, m: x.m.clone() };
            whole(&c, "clone");
            let mut r = Rng::new(seed);
            for q in 0..6 {
                let mut at = 0;
                let copy = G::LIVE && q % 2 == 1;
                if copy {
                    at = if q == 1 { copies.saturating_sub(1) } else { r.below(copies + 1) };
                    unsafe {
                        COPIES = 0;
                        COPY_FAIL = at;
                    }
                    arm(Plan::None);
                } else if q == 0 {
                    arm(Plan::All);
                } else {
                    at = if q == 2 { reqs.saturating_sub(1) } else { r.below(reqs + 1) };
                    arm(Plan::Once(at));
                }
                let held = (live(), unsafe { LIVE });
                let res = sut(|| x.t.try_clone());
                let hit = if copy { (unsafe { COPIES } > at) as u64 } else { st().refused };
                unsafe { COPY_FAIL = u64::MAX };
                match res {
                    Ok(d) => {
                        ckeq!(hit, 0, "clone of {} entries succeeded; refused", n);
                        ck!(sut(|| d == x.t), "a clone of {} entries differs", n);
                        sut(move || drop(d));
                    }
                    Err(e) => {
                        ck!(hit > 0, "clone of {} entries failed although nothing was refused", n);
                        if !copy {
                            judge("clone", &e);
                        } else {
                            ckeq!(format!("{:?}", e), format!("{:?}", some_error()), "error of a clone one of whose entries failed");
                        }
                        cx.hit(if copy { "entries that could not be copied" } else { "refused clones" });
                    }
                }
                arm(Plan::None);
                ckeq!((live(), unsafe { LIVE }), held, "blocks, bytes, keys and values after a clone of {} entries that failed ({} {})", n, if copy { "copy" } else { "request" }, at);
            }
            // either goes on without the other
            for (k, v) in keys(o).into_iter().take(500).zip(0..) {
                sut(|| c.t.remove(&tk(k)));
                c.m.remove(&k);
                if let Some(e) = sut(|| x.t.get_mut(&tk(k))) {
                    e.0 = v;
                    x.m.insert(k, v);
                }
            }
            whole(&c, "clone used further");
            let _ = before;
            let old = std::mem::replace(y, c);
            sut(move || drop(old.t));
        }
    }
    arm(Plan::None);
    check_errs();
    if kind != 12 {
        whole(x, what);
    }
    if x.m.len() >= 20_000 {
        cx.nontrivial = true;
        cx.hit("20000 entries or more");
    }
    if x.m.len() >= 120_000 {
        cx.hit("120000 entries or more");
    }
}
