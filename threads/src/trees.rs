use crate::*;
use fc::btree::map::Entry;
use fc::btree::{BTreeMap, BTreeSet};
use std::collections::BTreeSet as RefSet;
use std::ops::Bound::*;

pub struct Map<K: El, V: El> {
    t: BTreeMap<K, V>,
    m: Ref<u64, u64>,
}
fn kv<K: El, V: El>((k, v): (&K, &V)) -> (u64, u64) {
    (k.val(), v.val())
}
fn rkv((k, v): (&u64, &u64)) -> (u64, u64) {
    (*k, *v)
}
/// a key of the map (or nearly)
fn near<X>(m: &Ref<u64, X>, x: u64) -> u64 {
    let n = m.len();
    if n == 0 || x % 5 == 0 {
        return x;
    }
    let k = match m.range(mix(x)..).next() {
        Some(e) => *e.0,
        None => *m.keys().next().unwrap(),
    };
    k.wrapping_add((x % 7 == 0) as u64)
}

impl<K: El, V: El> Con for Map<K, V> {
    type V = V;
    fn name() -> String {
        format!("maps {}->{}", K::NAME, V::NAME)
    }
    fn new() -> Self {
        Map { t: BTreeMap::new(), m: Ref::new() }
    }
    fn len(&self) -> usize {
        self.m.len()
    }
    fn read(&self, o: &Self, op: &Op) {
        let (t, m) = (&self.t, &self.m);
        match op[0] % 8 {
            0 | 1 => {
                for x in 0..6 {
                    let k = near(m, mix(op[1] ^ x));
                    let key = K::mk(k);
                    tckeq!(t.get(&key).map(|v| v.val()), m.get(&k).copied(), "look-up of {} by several threads", k);
                    tckeq!(t.contains_key(&key), m.contains_key(&k), "contains_key {} by several threads", k);
                    tckeq!(t.get_key_value(&key).map(|(k, v)| (k.val(), v.val())), m.get_key_value(&k).map(rkv), "entry");
                    if m.contains_key(&k) {
                        tckeq!(t[&key].val(), m[&k], "indexed");
                    }
                }
            }
            2 => {
                let (a, b) = (near(m, op[1]), near(m, op[2]));
                let (a, b) = (a.min(b), a.max(b));
                let (ka, kb) = (K::mk(a), K::mk(b));
                let lo = if op[3] & 2 == 0 { Included(&ka) } else { Unbounded };
                let hi = if op[3] & 4 == 0 { Included(&kb) } else { Unbounded };
                let mut it = t.range((lo, hi));
                let mut e = m.range((if op[3] & 2 == 0 { Included(&a) } else { Unbounded }, if op[3] & 4 == 0 { Included(&b) } else { Unbounded }));
                for i in 0..40 {
                    if op[2] >> (i % 40) & 1 == 0 {
                        tckeq!(it.next().map(kv), e.next().map(rkv), "range");
                    } else {
                        tckeq!(it.next_back().map(kv), e.next_back().map(rkv), "range from the back");
                    }
                }
            }
            3 => {
                tckeq!(t.iter().map(kv).collect::<Vec<_>>(), m.iter().map(rkv).collect::<Vec<_>>(), "iteration by several threads");
                tck!(t.keys().rev().map(|k| k.val()).eq(m.keys().rev().copied()), "keys backwards");
                tck!(t.values().map(|k| k.val()).eq(m.values().copied()), "values");
                tckeq!((t.len(), t.is_empty()), (m.len(), m.is_empty()), "length");
            }
            4 | 5 => {
                let c = if op[2] % 3 == 0 {
                    Some(t.clone())
                } else {
                    let (r, refused) = refusing(op[2] / 3 % 12, || t.try_clone());
                    tckeq!(r.is_err(), refused, "failure of a clone while others read");
                    r.ok()
                };
                if let Some(t) = c {
                    let mut c = Map { t, m: m.clone() };
                    c.whole("of a clone made while others read");
                    let mut e = Self::new();
                    for x in 0..op[3] % 30 {
                        c.change(&mut e, &[mix(op[3] ^ x) % 8, near(&c.m, mix(op[1] ^ x)), 2 * x, op[3]]);
                    }
                    c.whole("of a clone changed while others read the original");
                }
            }
            6 => {
                tckeq!(t == &o.t, *m == o.m, "equality");
                tckeq!(t.cmp(&o.t), m.iter().cmp(o.m.iter()), "order");
                tckeq!(hash_of(t) == hash_of(&o.t), *m == o.m, "hashes equal");
            }
            _ => {
                if m.len() < 80 {
                    tckeq!(format!("{:?}", t), format!("{:?}", m), "debug text");
                }
                let it = t.iter();
                tckeq!(it.clone().last().map(kv), m.iter().last().map(rkv), "last");
                tckeq!(it.len(), m.len(), "length of an iterator");
            }
        }
    }
    fn change(&mut self, o: &mut Self, op: &Op) {
        let f = if op[2] % 2 == 0 { 0 } else { op[2] / 2 % 6 };
        let (t, m) = (&mut self.t, &mut self.m);
        match op[0] % 8 {
            0 | 1 => {
                let k = if op[0] % 8 == 0 { op[1] } else { near(m, op[1]) };
                let (key, v) = (K::mk(k), V::mk(op[2]));
                let (r, refused) = refusing(f, || t.try_insert(key, v).map(|x| x.map(|x| x.val())));
                match r {
                    Ok(x) => {
                        tck!(!refused, "an insertion succeeded without memory");
                        tckeq!(x, m.insert(k, op[2]), "replaced");
                    }
                    Err(_) => tck!(refused, "an insertion failed though nothing was refused in its thread"),
                }
            }
            2 | 3 => {
                for x in 0..1 + op[2] % 9 {
                    let k = near(m, mix(op[1] ^ x));
                    tckeq!(t.remove(&K::mk(k)).map(|x| x.val()), m.remove(&k), "removed");
                }
            }
            4 => {
                let k = near(m, op[1]);
                let v = V::mk(op[2]);
                let key = K::mk(k);
                let (r, refused) = refusing(f, || match t.try_entry(key) {
                    Ok(e) => e.or_try_insert(v).map(|v| v.val()),
                    Err(e) => Err(e),
                });
                match r {
                    Ok(x) => tckeq!(x, *m.entry(k).or_insert(op[2]), "value of an entry"),
                    Err(_) => tck!(refused, "an entry failed though nothing was refused in its thread"),
                }
            }
            5 => {
                let k = near(m, op[1]);
                if let Some(x) = t.get_mut(&K::mk(k)) {
                    *x = V::mk(op[2]);
                }
                if let Some(x) = m.get_mut(&k) {
                    *x = op[2];
                }
                tckeq!(t.first_key(), m.keys().next().copied(), "first key");
            }
            6 => {
                if op[2] % 4 < 2 {
                    t.append(&mut o.t);
                    m.append(&mut o.m);
                } else {
                    let k = near(m, op[1]);
                    match t.split_off(&K::mk(k)) {
                        Ok(x) => {
                            o.t = x;
                            o.m = m.split_off(&k);
                        }
                        Err(e) => tf!("split_off failed: {:?}", e),
                    }
                }
            }
            _ => {
                if op[2] % 5 == 0 {
                    t.clear();
                    m.clear();
                } else {
                    let n = op[2] % 60;
                    t.extend((0..n).map(|x| (K::mk(op[1] ^ x), V::mk(x))));
                    m.extend((0..n).map(|x| (op[1] ^ x, x)));
                }
            }
        }
        tckeq!(t.len(), m.len(), "length after a change");
    }
    fn cells(&mut self, how: u64) -> Vec<&mut V> {
        match how % 4 {
            0 => self.t.iter_mut().map(|x| x.1).collect(),
            1 => self.t.values_mut().collect(),
            2 => self.t.range_mut(..).map(|x| x.1).collect(),
            _ => {
                let mut v: Vec<&mut V> = self.t.iter_mut().rev().map(|x| x.1).collect();
                v.reverse();
                v
            }
        }
    }
    fn rewrote(&mut self, f: &dyn Fn(usize, u64) -> u64) {
        for (i, v) in self.m.values_mut().enumerate() {
            *v = f(i, *v);
        }
    }
    fn travel(&mut self, o: &mut Self, op: &Op) {
        let n = self.m.len();
        let a = op[1] as usize % (n + 1);
        let b = op[2] as usize % (n - a + 1);
        let all: Vec<(u64, u64)> = self.m.iter().map(rkv).collect();
        let rest = &all[a..n - b];
        macro_rules! part {
            ($it:expr) => {{
                let mut it = $it;
                for _ in 0..a {
                    it.next();
                }
                for _ in 0..b {
                    it.next_back();
                }
                it
            }};
        }
        match op[0] % 8 {
            0 => {
                let it = part!(std::mem::replace(&mut self.t, BTreeMap::new()).into_iter());
                self.m.clear();
                if op[3] & 8 == 0 {
                    tckeq!(elsewhere(it, |it| it.map(|(k, v)| (k.val(), v.val())).collect::<Vec<_>>()), rest, "consumed by another thread");
                } else {
                    elsewhere(it, drop);
                }
            }
            1 => tckeq!(elsewhere(part!(self.t.iter()), |it| it.map(kv).collect::<Vec<_>>()), rest, "iterated by another thread"),
            2 => tckeq!(elsewhere(part!(self.t.range(..)), |it| it.rev().map(kv).collect::<Vec<_>>()), rest.iter().rev().copied().collect::<Vec<_>>(), "range of another thread"),
            3 | 4 => {
                let w = op[3];
                if op[0] % 8 == 3 {
                    elsewhere(part!(self.t.iter_mut()), |it| it.for_each(|(_, v)| *v = V::mk(v.val() ^ w)));
                } else {
                    elsewhere(part!(self.t.range_mut(..)), |it| it.for_each(|(_, v)| *v = V::mk(v.val() ^ w)));
                }
                for (i, v) in self.m.values_mut().enumerate() {
                    if i >= a && i < n - b {
                        *v ^= w;
                    }
                }
            }
            5 => {
                let k = near(&self.m, op[1]);
                let e = self.t.try_entry(K::mk(k)).unwrap_or_else(|e| tf!("try_entry failed: {:?}", e));
                let w = op[2];
                let x = elsewhere(e, |e| match e {
                    Entry::Occupied(e) if w % 3 == 0 => Some(e.remove().val()),
                    e => {
                        let r = e.or_try_insert(V::mk(w));
                        tck!(r.is_ok(), "or_try_insert failed");
                        None
                    }
                });
                if w % 3 == 0 && self.m.contains_key(&k) {
                    tckeq!(x, self.m.remove(&k), "removed by another thread");
                } else {
                    self.m.entry(k).or_insert(w);
                }
            }
            6 => {
                let x = std::mem::replace(&mut self.t, BTreeMap::new());
                let y = std::mem::replace(&mut o.t, BTreeMap::new());
                self.t = elsewhere((x, y), |(mut x, mut y)| {
                    x.append(&mut y);
                    x
                });
                self.m.append(&mut o.m);
            }
            _ => {
                let c = self.t.try_clone().unwrap_or_else(|e| tf!("try_clone failed: {:?}", e));
                let m = self.m.clone();
                elsewhere(Map { t: c, m }, |c| c.whole("of a clone in another thread"));
            }
        }
    }
    fn whole(&self, what: &str) {
        tckeq!(self.t.len(), self.m.len(), "length {}", what);
        tck!(self.t.iter().map(kv).eq(self.m.iter().map(rkv)), "contents {}: {:?}, expected {:?}", what, self.t, self.m);
    }
}
trait First {
    fn first_key(&self) -> Option<u64>;
}
impl<K: El, V: El> First for BTreeMap<K, V> {
    fn first_key(&self) -> Option<u64> {
        self.keys().next().map(|k| k.val())
    }
}

pub struct Set<K: El> {
    t: BTreeSet<K>,
    m: Ref<u64, ()>,
}
fn v<K: El>(k: &K) -> u64 {
    k.val()
}
impl<K: El> Set<K> {
    fn rs(&self) -> RefSet<u64> {
        self.m.keys().copied().collect()
    }
}
impl<K: El> Con for Set<K> {
    type V = K;
    fn name() -> String {
        format!("sets of {}", K::NAME)
    }
    fn new() -> Self {
        Set { t: BTreeSet::new(), m: Ref::new() }
    }
    fn len(&self) -> usize {
        self.m.len()
    }
    fn read(&self, o: &Self, op: &Op) {
        let (t, m) = (&self.t, &self.m);
        match op[0] % 8 {
            0 | 1 => {
                for x in 0..6 {
                    let k = near(m, mix(op[1] ^ x));
                    tckeq!(t.contains(&K::mk(k)), m.contains_key(&k), "contains {} by several threads", k);
                    tckeq!(t.get(&K::mk(k)).map(v), m.get_key_value(&k).map(|x| *x.0), "get");
                }
            }
            2 => {
                let (a, b) = (near(m, op[1]), near(m, op[2]));
                let (a, b) = (a.min(b), a.max(b));
                tck!(t.range(K::mk(a)..=K::mk(b)).map(v).eq(m.range(a..=b).map(|x| *x.0)), "range");
                tck!(t.iter().map(v).eq(m.keys().copied()), "iteration");
                tck!(t.iter().rev().map(v).eq(m.keys().rev().copied()), "iteration backwards");
            }
            3 => {
                let mut c = Set { t: t.clone(), m: m.clone() };
                let mut e = Self::new();
                for x in 0..op[3] % 30 {
                    c.change(&mut e, &[mix(op[3] ^ x) % 8, near(&c.m, mix(op[1] ^ x)), 2 * x, op[3]]);
                }
                c.whole("of a clone changed while others read the original");
            }
            4 | 5 => {
                let (x, y) = (self.rs(), o.rs());
                match op[3] / 8 % 4 {
                    0 => tck!(t.union(&o.t).map(v).eq(x.union(&y).copied()), "union"),
                    1 => tck!(t.intersection(&o.t).map(v).eq(x.intersection(&y).copied()), "intersection"),
                    2 => tck!(t.difference(&o.t).map(v).eq(x.difference(&y).copied()), "difference"),
                    _ => tck!(t.symmetric_difference(&o.t).map(v).eq(x.symmetric_difference(&y).copied()), "symmetric difference"),
                }
            }
            6 => {
                let (x, y) = (self.rs(), o.rs());
                tckeq!((t.is_subset(&o.t), t.is_superset(&o.t), t.is_disjoint(&o.t)), (x.is_subset(&y), x.is_superset(&y), x.is_disjoint(&y)), "subset, superset, disjoint");
                tckeq!((t == &o.t, t.cmp(&o.t)), (x == y, x.cmp(&y)), "equality and order");
            }
            _ => {
                if m.len() + o.m.len() < 100 {
                    let (x, y) = (self.rs(), o.rs());
                    let z = match op[3] / 8 % 4 {
                        0 => (t | &o.t, &x | &y),
                        1 => (t & &o.t, &x & &y),
                        2 => (t - &o.t, &x - &y),
                        _ => (t ^ &o.t, &x ^ &y),
                    };
                    tckeq!(format!("{:?}", z.0), format!("{:?}", z.1), "a set made from two that are shared");
                }
            }
        }
    }
    fn change(&mut self, o: &mut Self, op: &Op) {
        let f = if op[2] % 2 == 0 { 0 } else { op[2] / 2 % 6 };
        let (t, m) = (&mut self.t, &mut self.m);
        match op[0] % 8 {
            0 | 1 | 4 => {
                let k = if op[0] % 8 == 0 { op[1] } else { near(m, op[1]) };
                let key = K::mk(k);
                let (r, refused) = refusing(f, || if op[3] & 32 == 0 { t.try_insert(key) } else { t.replace(key).map(|x| x.is_none()) });
                match r {
                    Ok(x) => {
                        tck!(!refused, "an insertion succeeded without memory");
                        tckeq!(x, m.insert(k, ()).is_none(), "new");
                    }
                    Err(_) => tck!(refused, "an insertion failed though nothing was refused in its thread"),
                }
            }
            2 | 3 | 5 => {
                for x in 0..1 + op[2] % 9 {
                    let k = near(m, mix(op[1] ^ x));
                    if op[3] & 64 == 0 {
                        tckeq!(t.remove(&K::mk(k)), m.remove(&k).is_some(), "removed");
                    } else {
                        tckeq!(t.take(&K::mk(k)).map(|x| x.val()), m.remove_entry(&k).map(|x| x.0), "taken");
                    }
                }
            }
            6 => {
                if op[2] % 4 < 2 {
                    t.append(&mut o.t);
                    m.append(&mut o.m);
                } else {
                    let k = near(m, op[1]);
                    match t.try_split_off(&K::mk(k)) {
                        Ok(x) => {
                            o.t = x;
                            o.m = m.split_off(&k);
                        }
                        Err(e) => tf!("split_off failed: {:?}", e),
                    }
                }
            }
            _ => {
                if op[2] % 5 == 0 {
                    t.clear();
                    m.clear();
                } else {
                    let n = op[2] % 60;
                    t.extend((0..n).map(|x| K::mk(op[1] ^ x)));
                    m.extend((0..n).map(|x| (op[1] ^ x, ())));
                }
            }
        }
        tckeq!(t.len(), m.len(), "length after a change");
    }
    const LENDS: bool = false;
    fn cells(&mut self, _how: u64) -> Vec<&mut K> {
        Vec::new()
    }
    fn rewrote(&mut self, _f: &dyn Fn(usize, u64) -> u64) {}
    fn travel(&mut self, o: &mut Self, op: &Op) {
        let n = self.m.len();
        let a = op[1] as usize % (n + 1);
        let all: Vec<u64> = self.m.keys().copied().collect();
        let rest = &all[a..];
        macro_rules! part {
            ($it:expr) => {{
                let mut it = $it;
                for _ in 0..a {
                    it.next();
                }
                it
            }};
        }
        match op[0] % 8 {
            0 => {
                let it = part!(std::mem::replace(&mut self.t, BTreeSet::new()).into_iter());
                self.m.clear();
                tckeq!(elsewhere(it, |it| it.map(|k| k.val()).collect::<Vec<_>>()), rest, "consumed by another thread");
            }
            1 => tckeq!(elsewhere(part!(self.t.iter()), |it| it.map(v).collect::<Vec<_>>()), rest, "iterated by another thread"),
            2 => tckeq!(elsewhere(part!(self.t.range::<K, _>(..)), |it| it.map(v).collect::<Vec<_>>()), rest, "range of another thread"),
            3 | 4 => {
                let (x, y) = (self.rs(), o.rs());
                let s = op[2] as usize % 9;
                macro_rules! lazy {
                    ($f:ident) => {{
                        let (mut it, mut e) = (self.t.$f(&o.t), x.$f(&y));
                        for _ in 0..s {
                            tckeq!(it.next().map(v), e.next().copied(), stringify!($f));
                        }
                        tckeq!(elsewhere(it, |it| it.map(v).collect::<Vec<_>>()), e.copied().collect::<Vec<_>>(), "continued by another thread");
                    }};
                }
                match op[3] / 8 % 4 {
                    0 => lazy!(union),
                    1 => lazy!(intersection),
                    2 => lazy!(difference),
                    _ => lazy!(symmetric_difference),
                }
            }
            5 | 6 => {
                let x = std::mem::replace(&mut self.t, BTreeSet::new());
                let y = std::mem::replace(&mut o.t, BTreeSet::new());
                self.t = elsewhere((x, y), |(mut x, mut y)| {
                    x.append(&mut y);
                    x
                });
                self.m.append(&mut o.m);
            }
            _ => {
                let c = self.t.clone();
                let m = self.m.clone();
                elsewhere(Set { t: c, m }, |c| c.whole("of a clone in another thread"));
            }
        }
    }
    fn whole(&self, what: &str) {
        tckeq!(self.t.len(), self.m.len(), "length {}", what);
        tck!(self.t.iter().map(v).eq(self.m.keys().copied()), "contents {}: {:?}, expected {:?}", what, self.t, self.m);
    }
}
