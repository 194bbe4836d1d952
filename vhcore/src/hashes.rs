//! Stateful machine over a few fallible hash maps, each next to a reference model.
use crate::engine::*;
use crate::kv::*;
use crate::*;
use fc::{TryClone, TryHashMap};
use std::collections::{BTreeMap as Ref, HashSet};

pub type HModel = Ref<u64, Ent>;

pub const HINS: u64 = 0;
pub const HREM: u64 = 1;
pub const HGET: u64 = 2;
pub const HITER: u64 = 3;
pub const HINTO: u64 = 4;
pub const HCLONE: u64 = 5;
pub const HCAP: u64 = 6;
pub const HNEW: u64 = 7;
pub const HDBG: u64 = 8;
pub const HOVER: u64 = 9; // overwrite a present key
pub const HBULKI: u64 = 10;
pub const HBULKR: u64 = 11;
pub const HCHURN: u64 = 12;
pub const NHOPS: u64 = 13;
pub const HNAMES: [&str; NHOPS as usize] = ["insert", "remove", "get", "iter", "into_iter", "try_clone", "with_capacity", "default", "debug", "overwrite", "bulk-insert", "bulk-remove", "churn"];
pub const HSLOTS: usize = 3;

pub struct HSlot<K: Key, V: Elem> {
    pub t: TryHashMap<K, V>,
    pub m: HModel,
    /// distinct keys promised room, nothing was removed since
    pub room: Option<u64>,
}

pub struct Hashes<'a, K: Key, V: Elem> {
    pub s: Vec<HSlot<K, V>>,
    pub cx: &'a mut Cx,
    pub dom: u64,
    pub plan: Plan,
    pub cbset: Option<Cb>,
    pub reqs: u64,
    pub refused: u64,
    pub supplied: Vec<u64>,
    pub leak_ok: bool,
    pub obs: bool,
}

type Out = Result<bool, Pn>;

impl<'a, K: Key, V: Elem> Hashes<'a, K, V> {
    pub fn new(cx: &'a mut Cx, dom: u64) -> Self {
        let mut s = Vec::with_capacity(HSLOTS);
        for _ in 0..HSLOTS {
            s.push(HSlot { t: sut(TryHashMap::default), m: Ref::new(), room: None });
        }
        Hashes { s, cx, dom: dom.max(1), plan: Plan::None, cbset: None, reqs: 0, refused: 0, supplied: Vec::new(), leak_ok: false, obs: false }
    }
    pub fn key(&self, x: u64) -> u64 {
        K::norm(x % self.dom)
    }
    fn see(&mut self, tag: &'static str, v: u64) {
        if self.obs {
            self.cx.obs(tag, v);
        }
    }
    fn go<R>(&mut self, f: impl FnOnce(&mut Vec<HSlot<K, V>>) -> R) -> Result<R, Pn> {
        if let Some(c) = self.cbset {
            let h = cb().hash_mode;
            *cb() = c;
            cb().hash_mode = h;
        }
        arm(self.plan);
        let s = &mut self.s;
        let r = sut_catch(|| f(s));
        self.reqs = st().cnt;
        self.refused = st().refused;
        arm(Plan::None);
        if self.cbset.is_some() {
            disarm();
        }
        r
    }
    pub fn slots(op: &Op) -> (usize, usize) {
        ((op[0] / 32 % 4) as usize % HSLOTS, (op[0] / 128 % 4) as usize % HSLOTS)
    }

    /// Ok(false): the call reported an error
    pub fn exec(&mut self, op: &Op) -> Out {
        let (i, j) = Self::slots(op);
        self.supplied.clear();
        (self.reqs, self.refused) = (0, 0);
        match op[0] % 32 % NHOPS {
            HINS => self.insert(i, op[1], op[2]),
            HOVER => {
                let n = self.s[i].m.len() as u64;
                if n == 0 {
                    return Ok(true);
                }
                let k = *self.s[i].m.keys().nth((op[1] % n) as usize).unwrap();
                self.insert(i, k, op[2])
            }
            HREM => self.remove(i, op[1]),
            HGET => self.get(i, op[1]),
            HITER => self.iter(i, op[1]),
            HINTO => self.into(i, op[1]),
            HCLONE => self.tclone(i, j),
            HCAP => self.cap(i, op[1]),
            HNEW => {
                let t = self.go(|_| TryHashMap::default())?;
                ckeq!(self.reqs, 0, "requests made by an empty map");
                self.put(i, t, Ref::new(), Some(0));
                Ok(true)
            }
            HDBG => self.debug(i),
            _ => Ok(true),
        }
    }

    pub fn expand(&self, op: &Op) -> Option<Vec<Op>> {
        let i = Self::slots(op).0 as u64;
        let mut r = Vec::new();
        match op[0] % 32 % NHOPS {
            HBULKI => {
                let n = op[1].min(20_000);
                for x in 0..n {
                    let k = match op[2] % 3 {
                        0 => op[3].wrapping_add(x),
                        1 => mix(op[3].wrapping_add(x)),
                        _ => op[3].wrapping_add(x * 64),
                    };
                    r.push([HINS + 32 * i, k % self.dom, mix(op[3] ^ x) >> 40, 0]);
                }
            }
            HBULKR => {
                let keys: Vec<u64> = self.s[i as usize].m.keys().copied().collect();
                if !keys.is_empty() {
                    let n = op[1].min(keys.len() as u64) as usize;
                    let start = (op[3] % keys.len() as u64) as usize;
                    for x in 0..n {
                        let k = if op[2] % 2 == 0 { keys[(start + x) % keys.len()] } else { keys[(x * 2 + start) % keys.len()] };
                        r.push([HREM + 32 * i, k, 0, 0]);
                    }
                }
            }
            HCHURN => {
                for x in 0..op[1].min(3000) {
                    let k = mix(op[3].wrapping_add(x)) % self.dom;
                    r.push([HINS + 32 * i, k, x, 0]);
                    r.push([HREM + 32 * i, if op[2] % 2 == 0 { k } else { mix(op[3].wrapping_add(x.saturating_sub(op[2] % 40))) % self.dom }, 0, 0]);
                }
            }
            _ => return None,
        }
        Some(r)
    }

    fn put(&mut self, i: usize, t: TryHashMap<K, V>, m: HModel, room: Option<u64>) {
        let old = std::mem::replace(&mut self.s[i], HSlot { t, m, room });
        sut(move || drop(old.t));
        for e in old.m.values() {
            ck!(e.kid == 0 || !is_live(e.kid), "dropping a map kept a key");
            ck!(e.vid == 0 || !is_live(e.vid), "dropping a map kept a value");
        }
    }

    fn insert(&mut self, i: usize, k: u64, v: u64) -> Out {
        let k = self.key(k);
        let (key, val) = (K::mk(k), V::mk(v));
        let (kid, vv, vid) = (key.id(), val.val(), val.id());
        self.supplied.push(k);
        let r = self.go(|s| s[i].t.insert(key, val))?;
        let e = self.s[i].m.get(&k).copied();
        match r {
            Ok(old) => {
                match (&old, e) {
                    (None, None) => {
                        self.s[i].m.insert(k, Ent { kid, v: vv, vid });
                        self.see("ins", 0);
                    }
                    (Some(o), Some(e)) => {
                        ck!(same(o, e.v, e.vid), "insert of {} returned old value {} (id {}) instead of {} (id {})", k, o.val(), o.id(), e.v, e.vid);
                        ck!(kid == 0 || is_live(kid) != is_live(e.kid), "overwriting {}: of the old and the new key, not exactly one is kept", k);
                        let kid = if kid != 0 && is_live(kid) { kid } else { e.kid };
                        self.s[i].m.insert(k, Ent { kid, v: vv, vid });
                        self.see("old", e.v);
                    }
                    (o, e) => fail!("insert of {} returned {:?}, the key was {}", k, o, if e.is_some() { "present" } else { "absent" }),
                }
                Ok(true)
            }
            Err(_) => {
                self.see("ins-err", 0);
                ck!(kid == 0 || !is_live(kid), "failed insert kept the key");
                ck!(vid == 0 || !is_live(vid), "failed insert kept the value");
                Ok(false)
            }
        }
    }

    fn remove(&mut self, i: usize, k: u64) -> Out {
        let k = self.key(k);
        let r = self.go(|s| K::with_q(k, |q| s[i].t.remove(q)))?;
        ckeq!(self.reqs, 0, "requests made by remove");
        let e = self.s[i].m.remove(&k);
        match (&r, e) {
            (None, None) => self.see("rem", 0),
            (Some(x), Some(e)) => {
                ck!(same(x, e.v, e.vid), "remove of {} returned {} (id {}) instead of {} (id {})", k, x.val(), x.id(), e.v, e.vid);
                ck!(e.kid == 0 || !is_live(e.kid), "remove kept the key");
                self.s[i].room = None;
                self.see("removed", e.v);
            }
            (x, e) => fail!("remove of {} returned {:?}, the key was {}", k, x, if e.is_some() { "present" } else { "absent" }),
        }
        Ok(true)
    }

    fn get(&mut self, i: usize, k: u64) -> Out {
        let k = self.key(k);
        let e = self.s[i].m.get(&k).copied();
        let r = self.go(|s| (K::with_q(k, |q| s[i].t.get(q)).map(|x| (x.val(), x.id(), x.check())), s[i].t.len()))?;
        ckeq!(self.reqs, 0, "requests made by get");
        ckeq!(r.0.map(|x| (x.0, x.1)), e.map(|e| (e.v, e.vid)), "get({})", k);
        ckeq!(r.1, self.s[i].m.len(), "length");
        self.see("get", e.map_or(0, |e| e.v + 1));
        Ok(true)
    }

    fn iter(&mut self, i: usize, seed: u64) -> Out {
        let mut r = Rng::new(seed);
        let n = self.s[i].m.len();
        let stop = if r.chance(1, 3) { r.below(n as u64 + 1) as usize } else { n };
        let s = &self.s[i];
        arm(Plan::None);
        let mut it = sut(|| s.t.iter());
        let mut seen: HashSet<u64> = HashSet::new();
        let mut sum = 0u64;
        for x in 0..stop {
            ckeq!(sut(|| it.size_hint()), (n - x, Some(n - x)), "size_hint after {} of {} entries", x, n);
            if r.chance(1, 6 + n as u64 / 8) {
                let c = sut(|| it.clone());
                ckeq!(sut(|| c.count()), n - x, "entries left in a cloned iterator");
            }
            match sut(|| it.next()) {
                None => fail!("iteration ended after {} of {} entries", x, n),
                Some((k, v)) => {
                    k.check();
                    v.check();
                    ck!(seen.insert(k.val()), "iteration yields key {} twice", k.val());
                    ckeq!(s.m.get(&k.val()).copied(), Some(Ent { kid: k.id(), v: v.val(), vid: v.id() }), "entry of key {} met in iteration", k.val());
                    sum = sum.wrapping_add(mix(k.val() ^ mix(v.val())));
                }
            }
        }
        if stop == n {
            for _ in 0..2 {
                ck!(sut(|| it.next()).is_none(), "iteration yields more than {} entries", n);
            }
            self.see("iter", sum);
        }
        ckeq!(st().cnt, 0, "requests made by iteration");
        check_errs();
        Ok(true)
    }

    fn into(&mut self, i: usize, seed: u64) -> Out {
        let mut r = Rng::new(seed);
        let m = std::mem::take(&mut self.s[i].m);
        let t = std::mem::take(&mut self.s[i].t);
        self.s[i].room = Some(0);
        let n = m.len();
        let stop = if r.chance(1, 2) { r.below(n as u64 + 1) as usize } else { n };
        arm(Plan::None);
        let mut it = sut(|| t.into_iter());
        let mut seen: HashSet<u64> = HashSet::new();
        let mut sum = 0u64;
        for x in 0..stop {
            ckeq!(sut(|| it.size_hint()), (n - x, Some(n - x)), "size_hint after {} of {} owned entries", x, n);
            match sut(|| it.next()) {
                None => fail!("owning iteration ended after {} of {} entries", x, n),
                Some((k, v)) => {
                    k.check();
                    v.check();
                    ck!(seen.insert(k.val()), "owning iteration yields key {} twice", k.val());
                    ckeq!(m.get(&k.val()).copied(), Some(Ent { kid: k.id(), v: v.val(), vid: v.id() }), "entry of key {} met in owning iteration", k.val());
                    sum = sum.wrapping_add(mix(k.val() ^ mix(v.val())));
                }
            }
        }
        if stop == n {
            ck!(sut(|| it.next()).is_none(), "owning iteration yields more than {} entries", n);
            self.see("into", sum);
        }
        ckeq!(st().cnt, 0, "requests made by owning iteration");
        self.go(move |_| drop(it))?;
        for e in m.values() {
            ck!(e.kid == 0 || !is_live(e.kid), "owning iteration leaked a key");
            ck!(e.vid == 0 || !is_live(e.vid), "owning iteration leaked a value");
        }
        Ok(true)
    }

    fn tclone(&mut self, i: usize, j: usize) -> Out {
        let mark = reg_mark();
        let r = self.go(|s| s[i].t.try_clone());
        match r {
            Err(p) => Err(p),
            Ok(Err(_)) => {
                ckeq!(live_since(mark), 0, "elements left by a failed clone");
                self.see("clone-err", 0);
                Ok(false)
            }
            Ok(Ok(t)) => {
                let mut m = Ref::new();
                ckeq!(t.len(), self.s[i].m.len(), "length of the clone");
                for (k, v) in t.iter() {
                    k.check();
                    v.check();
                    let e = self.s[i].m.get(&k.val()).copied();
                    ckeq!(Some(v.val()), e.map(|e| e.v), "value of key {} in the clone", k.val());
                    for id in [k.id(), v.id()] {
                        ck!(id == 0 || id as usize >= mark, "clone shares an element with the original");
                    }
                    ck!(m.insert(k.val(), Ent { kid: k.id(), v: v.val(), vid: v.id() }).is_none(), "key {} twice in the clone", k.val());
                }
                ckeq!(m.len(), self.s[i].m.len(), "entries of the clone");
                let d = if i == j { (j + 1) % HSLOTS } else { j };
                self.see("clone", m.len() as u64);
                self.put(d, t, m, None);
                Ok(true)
            }
        }
    }

    fn cap(&mut self, i: usize, n: u64) -> Out {
        match self.go(|_| TryHashMap::with_capacity(n as usize))? {
            Ok(t) => {
                ckeq!(t.len(), 0, "length of a new map");
                self.see("cap", n);
                self.put(i, t, Ref::new(), Some(n));
                Ok(true)
            }
            Err(_) => {
                self.see("cap-err", n);
                Ok(false)
            }
        }
    }

    fn debug(&mut self, i: usize) -> Out {
        let s = &self.s[i];
        if s.m.len() > 200 {
            return Ok(true);
        }
        let t = sut(|| format!("{:?}", s.t));
        let want: usize = s.m.iter().map(|(k, e)| format!("{:?}: {:?}", KD::<K>(*k, Default::default()), VD::<V>(e.v, Default::default())).len()).sum::<usize>() + 2 + 2 * s.m.len().saturating_sub(1);
        if !K::zst() && !V::zst() {
            ckeq!(t.len(), want, "length of the debug text {}", t);
            for (k, e) in &s.m {
                let x = format!("{:?}: {:?}", KD::<K>(*k, Default::default()), VD::<V>(e.v, Default::default()));
                ck!(t.contains(&x), "debug text {} lacks {}", t, x);
            }
        }
        Ok(true)
    }

    pub fn verify(&mut self, i: usize, what: &str) {
        let s = &self.s[i];
        ckeq!(s.t.len(), s.m.len(), "{}: length", what);
        let mut n = 0;
        for (k, v) in sut(|| s.t.iter()) {
            k.check();
            v.check();
            n += 1;
            ck!(n <= s.m.len(), "{}: iteration yields more than {} entries", what, s.m.len());
            ckeq!(s.m.get(&k.val()).copied(), Some(Ent { kid: k.id(), v: v.val(), vid: v.id() }), "{}: entry (identities and value) of key {}", what, k.val());
        }
        ckeq!(n, s.m.len(), "{}: entries iterated", what);
        for (k, e) in &s.m {
            let r = sut(|| K::with_q(*k, |q| s.t.get(q)).map(|x| (x.val(), x.id())));
            ckeq!(r, Some((e.v, e.vid)), "{}: get({})", what, k);
            let x = K::norm(k.wrapping_add(1));
            if !s.m.contains_key(&x) {
                ck!(sut(|| K::with_q(x, |q| s.t.get(q)).is_none()), "{}: absent key {} found", what, x);
            }
        }
        check_errs();
    }

    pub fn balance(&self, what: &str) {
        let n: usize = self.s.iter().map(|s| s.m.len()).sum();
        let want = (n * (K::TRACK as usize + V::TRACK as usize)) as i64;
        let (a, z) = live_elems();
        if a + z < want || (!self.leak_ok && a + z != want) {
            fail!("{}: {} tracked elements exist but the maps hold {}", what, a + z, want);
        }
    }

    /// after a panic: read what is there, check that it is sane and adopt it
    pub fn resync(&mut self, i: usize, what: &str, lookups: bool) {
        let mut ids: HashSet<u64> = HashSet::new();
        let allowed: HashSet<u64> = self.supplied.iter().copied().chain(self.s[i].m.keys().copied()).collect();
        let s = &mut self.s[i];
        let mut m = Ref::new();
        let mut n = 0usize;
        for (k, v) in sut(|| s.t.iter()) {
            k.check();
            v.check();
            check_errs();
            n += 1;
            ck!(n <= allowed.len() + 1 || !lookups, "{}: more entries than were ever there", what);
            ck!(allowed.contains(&k.val()) || !lookups, "{}: key {} was neither present nor supplied", what, k.val());
            for id in [k.id(), v.id()] {
                ck!(id == 0 || ids.insert(id), "{}: the same element occurs twice", what);
            }
            let dup = m.insert(k.val(), Ent { kid: k.id(), v: v.val(), vid: v.id() }).is_some();
            ck!(!dup || !lookups, "{}: key {} occurs twice", what, k.val());
        }
        ckeq!(s.t.len(), n, "{}: length after a panic, against the entries it holds", what);
        s.m = m;
        s.room = None;
        if lookups {
            self.verify(i, what);
        }
    }

    pub fn finish(self, leaks: bool) {
        let leak_ok = self.leak_ok;
        for x in self.s {
            let t = x.t;
            sut(move || drop(t));
        }
        if leaks && !leak_ok {
            let (a, z) = live_elems();
            ck!(a + z == 0, "{} elements still exist after all maps were dropped", a + z);
            let (b, by) = live();
            ck!(b == 0, "{} blocks ({} bytes) still owned after all maps were dropped", b, by);
        }
    }
}

struct KD<K>(u64, std::marker::PhantomData<K>);
impl<K: Key> std::fmt::Debug for KD<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        K::mk(self.0).fmt(f)
    }
}
struct VD<V>(u64, std::marker::PhantomData<V>);
impl<V: Elem> std::fmt::Debug for VD<V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        V::mk(self.0).fmt(f)
    }
}

pub fn hop_text(o: &Op) -> String {
    format!("h{}.{}({}, {}, {}; h{})", o[0] / 32 % 4 % 3, HNAMES[(o[0] % 32 % NHOPS) as usize], o[1], o[2], o[3], o[0] / 128 % 4 % 3)
}
