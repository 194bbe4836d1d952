//! Stateful machine over a few ordered sets next to a reference model.
use crate::engine::*;
use crate::world::{bad_range, two, with_bounds};
use crate::*;
use fc::btree::set::BTreeSet;
use std::collections::{BTreeMap as Ref, HashSet};
use std::ops::Bound;

pub const SINS: u64 = 0;
pub const SREP: u64 = 1;
pub const SREM: u64 = 2;
pub const STAKE: u64 = 3;
pub const SLOOK: u64 = 4;
pub const SBULKI: u64 = 5;
pub const SBULKR: u64 = 6;
pub const SCLEAR: u64 = 7;
pub const SAPPEND: u64 = 8;
pub const SSPLIT: u64 = 9;
pub const SCLONE: u64 = 10;
pub const SCOLLECT: u64 = 11;
pub const SEXTEND: u64 = 12;
pub const SINTO: u64 = 13;
pub const SRANGE: u64 = 14;
pub const SNEW: u64 = 15;
pub const NSOPS: u64 = 16;
pub const SNAMES: [&str; NSOPS as usize] = ["insert", "replace", "remove", "take", "lookup", "bulk-insert", "bulk-remove", "clear", "append", "split_off", "clone", "collect", "extend", "into_iter", "range", "new"];
pub const SSLOTS: usize = 3;

pub struct SSlot<K: Key> {
    pub t: BTreeSet<K>,
    /// value -> identity of the stored element
    pub m: Ref<u64, u64>,
}

pub struct Sets<'a, K: Key> {
    pub s: Vec<SSlot<K>>,
    pub cx: &'a mut Cx,
    pub dom: u64,
    pub plan: Plan,
    pub cbset: Option<Cb>,
    pub clos: u64,
    pub refused: u64,
    pub cmps: u64,
    pub fired: u64,
    pub supplied: Vec<u64>,
    pub leak_ok: bool,
    pub obs: bool,
}

type Out = Result<bool, Pn>;

impl<'a, K: Key> Sets<'a, K> {
    pub fn new(cx: &'a mut Cx, dom: u64) -> Self {
        let mut s = Vec::with_capacity(SSLOTS);
        for _ in 0..SSLOTS {
            s.push(SSlot { t: sut(|| BTreeSet::new()), m: Ref::new() });
        }
        Sets { s, cx, dom: dom.max(1), plan: Plan::None, cbset: None, clos: NEVER, refused: 0, cmps: 0, fired: 0, supplied: Vec::new(), leak_ok: false, obs: false }
    }
    pub fn key(&self, x: u64) -> u64 {
        K::norm(x % self.dom)
    }
    fn see(&mut self, tag: &'static str, v: u64) {
        if self.obs {
            self.cx.obs(tag, v);
        }
    }
    fn go<R>(&mut self, f: impl FnOnce(&mut Vec<SSlot<K>>, &mut u64) -> R) -> Result<R, Pn> {
        if let Some(c) = self.cbset {
            *cb() = c;
        }
        let c0 = cb().cmps;
        let mut clos = self.clos;
        arm(self.plan);
        let s = &mut self.s;
        let r = sut_catch(|| f(s, &mut clos));
        self.refused = st().refused;
        arm(Plan::None);
        self.cmps = cb().cmps - c0;
        self.fired = cb().fired;
        if self.cbset.is_some() {
            disarm();
        }
        r
    }

    pub fn slots(op: &Op) -> (usize, usize) {
        ((op[0] / 32 % 4) as usize % SSLOTS, (op[0] / 128 % 4) as usize % SSLOTS)
    }

    pub fn exec(&mut self, op: &Op) -> Out {
        let (i, j) = Self::slots(op);
        self.supplied.clear();
        (self.refused, self.cmps, self.fired) = (0, 0, 0);
        match op[0] % 32 % NSOPS {
            SINS => self.insert(i, op[1], false),
            SREP => self.insert(i, op[1], true),
            SREM => self.remove(i, op[1]),
            STAKE => self.take(i, op[1]),
            SLOOK => self.look(i, op[1], op[2]),
            SCLEAR => {
                self.go(|s, _| s[i].t.clear())?;
                for id in self.s[i].m.values() {
                    ck!(*id == 0 || !is_live(*id), "clear kept an element");
                }
                self.s[i].m.clear();
                Ok(true)
            }
            SAPPEND => self.append(i, j),
            SSPLIT => self.split(i, j, op[1]),
            SCLONE => self.clone(i, j, op[3] % 3 == 0),
            SCOLLECT => self.collect(i, op[1], op[2], op[3], false),
            SEXTEND => self.collect(i, op[1], op[2], op[3], true),
            SINTO => self.into(i, op[1], op[2]),
            SRANGE => self.range(i, op[1], op[2], op[3]),
            SNEW => {
                self.go(|s, _| s[i].t = if op[1] % 2 == 0 { BTreeSet::new() } else { BTreeSet::default() })?;
                self.s[i].m.clear();
                Ok(true)
            }
            _ => Ok(true),
        }
    }

    pub fn expand(&self, op: &Op) -> Option<Vec<Op>> {
        let i = Self::slots(op).0 as u64;
        let mut r = Vec::new();
        match op[0] % 32 % NSOPS {
            SBULKI => {
                let n = op[1].min(20_000);
                for x in 0..n {
                    let key = match op[2] % 5 {
                        0 => op[3].wrapping_add(x),
                        1 => op[3].wrapping_add(n - 1 - x),
                        2 => mix(op[3].wrapping_add(x)),
                        3 => op[3].wrapping_add(x * 2),
                        _ => op[3].wrapping_add(if x % 2 == 0 { x / 2 } else { n - 1 - x / 2 }),
                    };
                    r.push([SINS + 32 * i + 0, key % self.dom, 0, 0]);
                }
            }
            SBULKR => {
                let keys: Vec<u64> = self.s[i as usize].m.keys().copied().collect();
                let n = (op[1] as usize).min(keys.len());
                let start = if keys.is_empty() { 0 } else { op[3] as usize % keys.len() };
                let mut rest = keys.clone();
                for x in 0..n {
                    let key = match op[2] % 4 {
                        0 => keys[x],
                        1 => keys[keys.len() - 1 - x],
                        2 => {
                            let q = (mix(op[3].wrapping_add(x as u64)) % rest.len() as u64) as usize;
                            rest.swap_remove(q)
                        }
                        _ => keys[(start + x) % keys.len()],
                    };
                    r.push([if x % 3 == 0 { STAKE } else { SREM } + 32 * i, key, 0, 0]);
                }
            }
            _ => return None,
        }
        Some(r)
    }

    fn insert(&mut self, i: usize, k: u64, rep: bool) -> Out {
        let k = self.key(k);
        let key = K::mk(k);
        let kid = key.id();
        self.supplied.push(k);
        let old = self.s[i].m.get(&k).copied();
        if rep {
            match self.go(|s, _| s[i].t.replace(key))? {
                Ok(r) => {
                    match (&r, old) {
                        (None, None) => {}
                        (Some(x), Some(id)) => {
                            x.check();
                            ckeq!((x.val(), x.id()), (k, id), "element returned by replace({})", k);
                        }
                        (r, o) => fail!("replace({}) returned {:?}, present: {}", k, r, o.is_some()),
                    }
                    self.s[i].m.insert(k, kid);
                }
                Err(_) => {
                    ck!(kid == 0 || !is_live(kid), "failed replace kept the element");
                    self.see("rep-err", 0);
                    return Ok(false);
                }
            }
        } else {
            match self.go(|s, _| s[i].t.try_insert(key))? {
                Ok(r) => {
                    ckeq!(r, old.is_none(), "insert({}) reports a new element", k);
                    match old {
                        None => {
                            self.s[i].m.insert(k, kid);
                        }
                        Some(_) => ck!(kid == 0 || !is_live(kid), "insert of a present element kept the new one"),
                    }
                }
                Err(_) => {
                    ck!(kid == 0 || !is_live(kid), "failed insert kept the element");
                    self.see("ins-err", 0);
                    return Ok(false);
                }
            }
        }
        self.see("ins", old.is_some() as u64);
        Ok(true)
    }

    fn remove(&mut self, i: usize, k: u64) -> Out {
        let k = self.key(k);
        let r = self.go(|s, _| K::with_q(k, |q| s[i].t.remove(q)))?;
        let e = self.s[i].m.remove(&k);
        ckeq!(r, e.is_some(), "remove({})", k);
        if let Some(id) = e {
            ck!(id == 0 || !is_live(id), "remove kept the element");
        }
        self.see("rem", r as u64);
        Ok(true)
    }
    fn take(&mut self, i: usize, k: u64) -> Out {
        let k = self.key(k);
        let r = self.go(|s, _| K::with_q(k, |q| s[i].t.take(q)))?;
        let e = self.s[i].m.remove(&k);
        if let Some(x) = &r {
            x.check();
        }
        ckeq!(r.as_ref().map(|x| (x.val(), x.id())), e.map(|id| (k, id)), "take({})", k);
        self.see("take", r.is_some() as u64);
        Ok(true)
    }
    fn look(&mut self, i: usize, k: u64, how: u64) -> Out {
        let k = self.key(k);
        let e = self.s[i].m.get(&k).copied();
        match how % 3 {
            0 => {
                let r = self.go(|s, _| K::with_q(k, |q| s[i].t.get(q)).map(|x| (x.val(), x.id(), x.check())))?;
                ckeq!(r.map(|x| (x.0, x.1)), e.map(|id| (k, id)), "get({})", k);
            }
            1 => {
                let r = self.go(|s, _| K::with_q(k, |q| s[i].t.contains(q)))?;
                ckeq!(r, e.is_some(), "contains({})", k);
            }
            _ => {
                let r = self.go(|s, _| (s[i].t.len(), s[i].t.is_empty()))?;
                let n = self.s[i].m.len();
                ckeq!(r, (n, n == 0), "length");
            }
        }
        self.see("look", e.is_some() as u64);
        Ok(true)
    }
    fn append(&mut self, i: usize, j: usize) -> Out {
        if i == j {
            return Ok(true);
        }
        self.go(|s, _| {
            let (a, b) = two(s, i, j);
            a.t.append(&mut b.t);
        })?;
        let mj = std::mem::take(&mut self.s[j].m);
        let mut alts = Vec::new();
        for (k, id) in mj {
            if let Some(o) = self.s[i].m.insert(k, id) {
                alts.push((k, o));
            }
        }
        for (k, alt) in alts {
            let r = self.s[i].m.get_mut(&k).unwrap();
            if *r != 0 && !is_live(*r) && is_live(alt) {
                *r = alt;
            }
        }
        self.see("append", self.s[i].m.len() as u64);
        Ok(true)
    }
    fn split(&mut self, i: usize, j: usize, k: u64) -> Out {
        if i == j {
            return Ok(true);
        }
        let k = self.key(k);
        match self.go(|s, _| K::with_q(k, |q| s[i].t.try_split_off(q)))? {
            Ok(t) => {
                let m = self.s[i].m.split_off(&k);
                self.see("split", m.len() as u64);
                let old = std::mem::replace(&mut self.s[j], SSlot { t, m });
                sut(move || drop(old.t));
                Ok(true)
            }
            Err(_) => Ok(false),
        }
    }
    fn clone(&mut self, i: usize, j: usize, from: bool) -> Out {
        let mark = if from { 0 } else { reg_mark() };
        let d = if i == j { (j + 1) % SSLOTS } else { j };
        let t = if from {
            // into what another set held
            self.s[d].m = Ref::new();
            self.go(|s, _| {
                let mut t = std::mem::replace(&mut s[d].t, BTreeSet::new());
                t.clone_from(&s[i].t);
                t
            })?
        } else {
            self.go(|s, _| s[i].t.clone())?
        };
        let mut m = Ref::new();
        ckeq!(t.len(), self.s[i].m.len(), "length of the clone");
        for (k, (e, id)) in t.iter().zip(self.s[i].m.iter()) {
            k.check();
            ckeq!(k.val(), *e, "element of the clone");
            ck!(k.id() == 0 || k.id() != *id, "clone shares an element with the original");
            ck!(k.id() == 0 || k.id() as usize >= mark, "clone shares an element with the original");
            m.insert(*e, k.id());
        }
        let old = std::mem::replace(&mut self.s[d], SSlot { t, m });
        sut(move || drop(old.t));
        Ok(true)
    }
    fn collect(&mut self, i: usize, n: u64, pat: u64, seed: u64, extend: bool) -> Out {
        let n = n.min(20_000);
        let dom = self.dom;
        let mut alts: Ref<u64, Vec<u64>> = Ref::new();
        let mut items = Vec::with_capacity(n as usize);
        let mut m = if extend { self.s[i].m.clone() } else { Ref::new() };
        for x in 0..n {
            let k = K::norm(match pat % 4 {
                0 => seed.wrapping_add(x) % dom,
                1 => seed.wrapping_add(n - x) % dom,
                2 => mix(seed.wrapping_add(x)) % dom,
                _ => mix(seed.wrapping_add(x)) % (dom / 2 + 1),
            });
            let kk = K::mk(k);
            self.supplied.push(k);
            alts.entry(k).or_default().push(kk.id());
            if let Some(o) = m.insert(k, kk.id()) {
                alts.get_mut(&k).unwrap().push(o);
            }
            items.push(kk);
        }
        let it = items.into_iter();
        let r = self.go(|s, clos| {
            let it = it.map(|x| {
                closure_tick(clos);
                x
            });
            if extend {
                s[i].t.extend(it);
                None
            } else {
                Some(it.collect::<BTreeSet<K>>())
            }
        })?;
        if let Some(t) = r {
            let old = std::mem::replace(&mut self.s[i].t, t);
            sut(move || drop(old));
        }
        for (k, ids) in alts {
            let e = m.get_mut(&k).unwrap();
            if *e != 0 && !is_live(*e) {
                if let Some(a) = ids.iter().copied().find(|&a| is_live(a)) {
                    *e = a;
                }
            }
        }
        self.s[i].m = m;
        self.see("collect", self.s[i].m.len() as u64);
        if seed % 8 == 0 {
            plain_extend(n.min(300), pat, seed);
        }
        Ok(true)
    }
    fn into(&mut self, i: usize, steps: u64, pat: u64) -> Out {
        let m = std::mem::take(&mut self.s[i].m);
        let t = std::mem::replace(&mut self.s[i].t, BTreeSet::new());
        let exp: Vec<(u64, u64)> = m.into_iter().collect();
        let n = exp.len();
        let steps = (steps as usize).min(n + 2);
        let mut it = sut(|| t.into_iter());
        let (mut f, mut b) = (0, n);
        for x in 0..steps {
            let back = pat >> (x % 60) & 1 == 1;
            let r = sut(|| if back { it.next_back() } else { it.next() });
            let e = if f == b {
                None
            } else if back {
                b -= 1;
                Some(exp[b])
            } else {
                f += 1;
                Some(exp[f - 1])
            };
            ckeq!(r.as_ref().map(|k| (k.val(), k.id())), e, "owning set iteration step {} (back: {})", x, back);
            ckeq!(it.len(), b - f, "remaining length of owning set iteration");
        }
        self.go(move |_, _| drop(it))?;
        for (_, id) in &exp {
            ck!(*id == 0 || !is_live(*id), "owning set iteration leaked an element");
        }
        Ok(true)
    }
    fn range(&mut self, i: usize, lo: u64, hi: u64, how: u64) -> Out {
        let b = |x: u64, w: u64| match w % 3 {
            0 => Bound::Included(self.key(x)),
            1 => Bound::Excluded(self.key(x)),
            _ => Bound::Unbounded,
        };
        let (a, b) = (b(lo, how), b(hi, how / 3));
        let bad = bad_range(&a, &b);
        let back = how / 9 % 2 == 1;
        let r = self.go(|s, _| {
            with_bounds::<K, _>(a, b, |x, y| {
                let (mut n, mut h) = (0u64, 0u64);
                let mut it = s[i].t.range::<K::Q, _>((x, y));
                while let Some(k) = if back { it.next_back() } else { it.next() } {
                    k.check();
                    n += 1;
                    h = mix(h ^ k.val());
                    if n > 1 << 20 {
                        break;
                    }
                }
                (n, h)
            })
        });
        match r {
            Ok(x) => {
                ck!(!bad, "set range {:?} did not panic", (a, b));
                let (mut n, mut h) = (0, 0);
                let mut it = self.s[i].m.range((a, b));
                while let Some((k, _)) = if back { it.next_back() } else { it.next() } {
                    n += 1;
                    h = mix(h ^ *k);
                }
                ckeq!(x, (n, h), "elements of the set range {:?} (back: {}) (count, checksum)", (a, b), back);
                self.see("range", n);
                Ok(true)
            }
            Err(Pn::Other(m)) => {
                ck!(bad, "set range {:?} panicked: {}", (a, b), m);
                Ok(true)
            }
            Err(p) => Err(p),
        }
    }

    pub fn verify(&mut self, i: usize, what: &str) {
        let s = &self.s[i];
        ckeq!(s.t.len(), s.m.len(), "{}: set length", what);
        ckeq!(s.t.is_empty(), s.m.is_empty(), "{}: set is_empty", what);
        let mut it = sut(|| s.t.iter());
        for (k, id) in &s.m {
            match sut(|| it.next()) {
                None => fail!("{}: set iteration ended before {}", what, k),
                Some(x) => {
                    x.check();
                    ckeq!((x.val(), x.id()), (*k, *id), "{}: element (value, identity) yielded", what);
                }
            }
        }
        ck!(sut(|| it.next()).is_none(), "{}: set iteration yields more", what);
        for (k, id) in &s.m {
            let r = sut(|| K::with_q(*k, |q| s.t.get(q)).map(|x| (x.val(), x.id())));
            ckeq!(r, Some((*k, *id)), "{}: get({})", what, k);
            let n = K::norm(k.wrapping_add(1));
            if !s.m.contains_key(&n) {
                ck!(!sut(|| K::with_q(n, |q| s.t.contains(q))), "{}: absent element {} found", what, n);
            }
        }
        check_errs();
    }
    pub fn verify_back(&self, i: usize, what: &str) {
        let s = &self.s[i];
        let mut it = sut(|| s.t.range::<K::Q, _>((Bound::Unbounded, Bound::Unbounded)));
        for (k, _) in s.m.iter().rev() {
            match sut(|| it.next_back()) {
                Some(x) if x.val() == *k => {}
                x => fail!("{}: backward set range yielded {:?} instead of {}", what, x, k),
            }
        }
        ck!(sut(|| it.next_back()).is_none(), "{}: backward set range yields more", what);
    }
    pub fn balance(&self, what: &str) {
        if !K::TRACK {
            return;
        }
        let want: i64 = self.s.iter().map(|s| s.m.len() as i64).sum();
        let (a, z) = live_elems();
        let have = a + z;
        if have < want || (!self.leak_ok && have != want) {
            fail!("{}: {} tracked elements exist but the sets hold {}", what, have, want);
        }
    }
    /// use a set hard after a panic: grow it at its ends, then take it apart in some order
    pub fn aftermath(&mut self, i: usize, r: &mut Rng, what: &str) {
        let i64_ = i as u64;
        let top = self.s[i].m.keys().next_back().copied().unwrap_or(0);
        for x in 0..r.pick(&[0u64, 0, 1, 3, 14]) {
            self.must(&[SINS + 32 * i64_, top.wrapping_add(1 + x) % self.dom, 0, 0], what);
        }
        let mut keys: Vec<u64> = self.s[i].m.keys().copied().collect();
        match r.below(4) {
            0 => keys.reverse(),
            1 => {}
            _ => {
                for x in (1..keys.len()).rev() {
                    let y = r.below(x as u64 + 1) as usize;
                    keys.swap(x, y);
                }
            }
        }
        let stop = if r.chance(1, 2) { keys.len() } else { r.below(keys.len() as u64 + 1) as usize };
        keys.truncate(stop.min(600));
        for k in keys {
            self.must(&[r.pick(&[SREM, STAKE]) + 32 * i64_, k, 0, 0], what);
        }
        self.verify(i, what);
        self.verify_back(i, what);
        self.cx.hit("set used further after a panic");
    }
    fn must(&mut self, op: &Op, what: &str) {
        if let Err(p) = self.exec(op) {
            fail!("{} of {} after a caught panic in {}: unexpected panic {:?}", SNAMES[(op[0] % 32) as usize], op[1], what, p)
        }
    }

    pub fn resync(&mut self, involved: &[usize], what: &str) {
        let mut ids: HashSet<u64> = HashSet::new();
        let mut allowed: HashSet<u64> = self.supplied.iter().copied().collect();
        for &i in involved {
            allowed.extend(self.s[i].m.keys().copied());
        }
        for &i in involved {
            let s = &mut self.s[i];
            let mut m = Ref::new();
            let mut last: Option<u64> = None;
            let mut n = 0;
            let mut r = sut(|| s.t.range::<K::Q, _>((Bound::Unbounded, Bound::Unbounded)));
            while let Some(k) = sut(|| r.next()) {
                k.check();
                check_errs();
                n += 1;
                ck!(n <= allowed.len() + 8, "{}: more elements than were ever there", what);
                if let Some(l) = last {
                    ck!(l < k.val(), "{}: elements out of order ({} then {})", what, l, k.val());
                }
                last = Some(k.val());
                ck!(allowed.contains(&k.val()), "{}: element {} was neither present nor supplied", what, k.val());
                ck!(k.id() == 0 || ids.insert(k.id()), "{}: the same element occurs twice", what);
                m.insert(k.val(), k.id());
            }
            ckeq!(s.t.len(), n, "{}: length of the set after a panic, against the elements it holds", what);
            s.m = m;
        }
        for &i in involved {
            self.verify(i, what);
        }
    }
    pub fn safety(&mut self, what: &str) {
        let mut ids: HashSet<u64> = HashSet::new();
        let mut tot = 0;
        for s in &self.s {
            let mut n = 0usize;
            let mut r = sut(|| s.t.range::<K::Q, _>((Bound::Unbounded, Bound::Unbounded)));
            while let Some(k) = sut(|| r.next()) {
                k.check();
                check_errs();
                n += 1;
                ck!(n < 1 << 20, "{}: endless iteration", what);
                ck!(k.id() == 0 || ids.insert(k.id()), "{}: the same element occurs twice", what);
            }
            ckeq!(s.t.len(), n, "{}: set length under inconsistent comparisons, against the elements it holds", what);
            tot += n as i64;
        }
        if K::TRACK && !self.leak_ok {
            let (a, z) = live_elems();
            ckeq!(a + z, tot, "{}: elements that exist against elements held", what);
        }
    }
    pub fn finish(self, leaks: bool) {
        let ok = self.leak_ok;
        for x in self.s {
            let t = x.t;
            sut(move || drop(t));
        }
        if leaks && !ok {
            let (a, z) = live_elems();
            ck!(a + z == 0, "{} elements still exist after all sets were dropped", a + z);
            let (b, by) = live();
            ck!(b == 0, "{} blocks ({} bytes) never returned after all sets were dropped", b, by);
        }
    }
}

pub trait KFn {
    fn call<K: Key>(self);
}
pub const NK: u64 = 12;
pub fn k_name(i: u64) -> &'static str {
    ["E", "E", "u64", "string", "Big(256B)", "u8", "tracked-zst", "BE(boxed)", "K1(1.5KiB)", "E16(align 16)", "E64(align 64)", "u16"][(i % NK) as usize]
}
pub fn with_k<F: KFn>(i: u64, f: F) {
    match i % NK {
        0 | 1 => f.call::<E>(),
        2 => f.call::<u64>(),
        3 => f.call::<KS>(),
        4 => f.call::<Big>(),
        5 => f.call::<u8>(),
        6 => f.call::<Z>(),
        7 => f.call::<BE>(),
        8 => f.call::<K1>(),
        9 => f.call::<E16>(),
        10 => f.call::<E64>(),
        _ => f.call::<u16>(),
    }
}
pub fn sop_text(o: &Op) -> String {
    format!("s{}.{}(s{}; {},{},{})", (o[0] / 32 % 4) as usize % SSLOTS, SNAMES[(o[0] % 32 % NSOPS) as usize], (o[0] / 128 % 4) as usize % SSLOTS, o[1], o[2], o[3])
}

/// elements that can be copied: extending by references, against the standard library's set
pub fn plain_extend(n: u64, pat: u64, seed: u64) {
    let items: Vec<u64> = (0..n).map(|x| mix(seed ^ x) % (n * 2 / (1 + pat % 3) + 1)).collect();
    let half = (mix(seed) % (n + 1)) as usize;
    let want: std::collections::BTreeSet<u64> = items.iter().copied().collect();
    let mut t: BTreeSet<u64> = BTreeSet::default();
    sut(|| {
        t.extend(&items[..half]);
        t.extend(&items[half..]);
    });
    ckeq!(t.len(), want.len(), "length after extending by references with {:?}", items);
    ck!(t.iter().eq(want.iter()), "extending by references with {:?} gave {:?}", items, t);
    for k in 0..5 {
        let k = mix(seed ^ k) % (n + 2);
        ckeq!(t.contains(&k), want.contains(&k), "lookup of {} after extending by references", k);
    }
    sut(move || drop(t));
}
