//! Stateful machine over a few ordered maps, each next to a reference model (std's map over plain integers,
//! plus the identities of the stored keys and values).
use crate::engine::*;
pub use crate::kv::*;
use crate::*;
use fc::btree::map::{BTreeMap, Entry};
use fc::TryClone;
use std::collections::{BTreeMap as Ref, HashSet};
use std::ops::Bound;

pub type Model = Ref<u64, Ent>;

pub const INS: u64 = 0;
pub const REM: u64 = 1;
pub const LOOK: u64 = 2;
pub const ENTRY: u64 = 3;
pub const BULKI: u64 = 4;
pub const BULKR: u64 = 5;
pub const CLEAR: u64 = 6;
pub const APPEND: u64 = 7;
pub const SPLIT: u64 = 8;
pub const TCLONE: u64 = 9;
pub const CLONE: u64 = 10;
pub const COLLECT: u64 = 11;
pub const EXTEND: u64 = 12;
pub const INTO: u64 = 13;
pub const NEW: u64 = 14;
pub const RANGE: u64 = 15;
pub const NOPS: u64 = 16;
pub const ONAMES: [&str; NOPS as usize] = ["insert", "remove", "lookup", "entry", "bulk-insert", "bulk-remove", "clear", "append", "split_off", "try_clone", "clone", "collect", "extend", "into_iter", "new", "range"];
pub const SLOTS: usize = 4;

/// op word 0: kind + 32 * slot + 128 * other slot
pub fn opk(kind: u64, i: u64, j: u64) -> u64 {
    kind + 32 * i + 128 * j
}

pub struct Slot<K: Key, V: Elem> {
    pub t: BTreeMap<K, V>,
    pub m: Model,
}

pub struct World<'a, K: Key, V: Elem> {
    pub s: Vec<Slot<K, V>>,
    pub cx: &'a mut Cx,
    pub dom: u64,
    // per-call set-up and results
    pub plan: Plan,
    pub cbset: Option<Cb>,
    pub clos: u64,
    pub reqs: u64,
    pub refused: u64,
    pub cmps: u64,
    pub fired: u64,
    pub frees: u64,
    pub supplied: Vec<u64>, // keys supplied to the last call
    pub leak_ok: bool,
    pub obs: bool,
    pub frozen: u64,
}

/// what a call did
pub type Out = Result<bool, Pn>;


impl<'a, K: Key, V: Elem> World<'a, K, V> {
    pub fn new(cx: &'a mut Cx, dom: u64) -> Self {
        let mut s = Vec::with_capacity(SLOTS);
        for _ in 0..SLOTS {
            s.push(Slot { t: sut(|| BTreeMap::new()), m: Model::new() });
        }
        World { s, cx, dom: dom.max(1), plan: Plan::None, cbset: None, clos: NEVER, reqs: 0, refused: 0, cmps: 0, fired: 0, frees: 0, supplied: Vec::new(), leak_ok: false, obs: false, frozen: 0 }
    }
    pub fn key(&self, x: u64) -> u64 {
        K::norm(x % self.dom)
    }
    fn see(&mut self, tag: &'static str, v: u64) {
        if self.obs {
            self.cx.obs(tag, v);
        }
    }

    /// run one call of the code under test with the armed faults
    fn go<R>(&mut self, f: impl FnOnce(&mut Vec<Slot<K, V>>, &mut u64) -> R) -> Result<R, Pn> {
        let c0;
        if let Some(c) = self.cbset {
            *cb() = c;
            c0 = c.cmps;
        } else {
            c0 = cb().cmps;
        }
        let f0 = st().frees;
        let mut clos = self.clos;
        arm(self.plan);
        let s = &mut self.s;
        let r = sut_catch(|| f(s, &mut clos));
        self.reqs = st().cnt;
        self.refused = st().refused;
        arm(Plan::None);
        self.frees = st().frees - f0;
        self.cmps = cb().cmps - c0;
        self.fired = cb().fired;
        if self.cbset.is_some() {
            let fuel = cb().fuel;
            disarm();
            let _ = fuel;
        }
        r
    }

    // ------------------------------------------------------------ calls

    pub fn exec(&mut self, op: &Op) -> Out {
        let k = op[0] % 32 % NOPS;
        let i = (op[0] / 32 % 4) as usize;
        let j = (op[0] / 128 % 4) as usize;
        self.supplied.clear();
        (self.reqs, self.refused, self.cmps, self.fired, self.frees) = (0, 0, 0, 0, 0);
        match k {
            INS => self.insert(i, op[1], op[2]),
            REM => self.remove(i, op[1]),
            LOOK => self.look(i, op[1], op[2], op[3]),
            ENTRY => self.entry(i, op[1], op[2], op[3]),
            CLEAR => self.clear(i),
            APPEND => self.append(i, j),
            SPLIT => self.split(i, j, op[1]),
            TCLONE => self.tclone(i, j, true, false),
            CLONE => self.tclone(i, j, false, op[3] % 3 == 0),
            COLLECT => self.collect(i, op[1], op[2], op[3], false),
            EXTEND => self.collect(i, op[1], op[2], op[3], true),
            INTO => self.into(i, op[1], op[2]),
            NEW => {
                let r = self.go(|s, _| s[i].t = if op[1] % 2 == 0 { BTreeMap::new() } else { BTreeMap::default() });
                match r {
                    Ok(()) => {
                        self.s[i].m.clear();
                        Ok(true)
                    }
                    Err(p) => Err(p),
                }
            }
            RANGE => self.range(i, op[1], op[2], op[3]),
            _ => Ok(true),
        }
    }

    /// expand bulk operations into single calls
    pub fn expand(&self, op: &Op) -> Option<Vec<Op>> {
        let k = op[0] % 32 % NOPS;
        let i = op[0] / 32 % 4;
        let mut r = Vec::new();
        match k {
            BULKI => {
                let n = op[1].min(20_000);
                let base = op[3];
                for x in 0..n {
                    let key = match op[2] % 6 {
                        0 => base.wrapping_add(x),
                        1 => base.wrapping_add(n - 1 - x),
                        2 => mix(base.wrapping_add(x)),
                        3 => base.wrapping_add(x * 2),
                        4 => base.wrapping_add(if x % 2 == 0 { x / 2 } else { n - 1 - x / 2 }), // alternate ends
                        _ => base.wrapping_add(n / 2).wrapping_add(if x % 2 == 0 { x / 2 } else { (x / 2 + 1).wrapping_neg() }), // from the middle
                    };
                    r.push([opk(INS, i, 0), key % self.dom, mix(op[3] ^ x), 0]);
                }
            }
            BULKR => {
                let keys: Vec<u64> = self.s[i as usize].m.keys().copied().collect();
                let n = (op[1] as usize).min(keys.len());
                let start = if keys.is_empty() { 0 } else { (op[3] as usize) % keys.len() };
                let mut rest = keys.clone();
                for x in 0..n {
                    let key = match op[2] % 6 {
                        0 => keys[x],
                        1 => keys[keys.len() - 1 - x],
                        2 => {
                            let q = (mix(op[3].wrapping_add(x as u64)) % rest.len() as u64) as usize;
                            rest.swap_remove(q)
                        }
                        3 => keys[(x * 2) % keys.len()],
                        4 => keys[(start + x) % keys.len()],
                        _ => keys[(start + keys.len() - x) % keys.len()],
                    };
                    r.push([opk(REM, i, 0), key, 1, 0]);
                }
            }
            _ => return None,
        }
        Some(r)
    }

    fn insert(&mut self, i: usize, k: u64, v: u64) -> Out {
        let k = self.key(k);
        let (key, val) = (K::mk(k), V::mk(v));
        let (kid, vv, vid) = (key.id(), val.val(), val.id());
        self.supplied.push(k);
        let r = self.go(|s, _| s[i].t.try_insert(key, val))?;
        match r {
            Ok(old) => {
                let e = self.s[i].m.get(&k).copied();
                match (&old, e) {
                    (None, None) => {
                        self.s[i].m.insert(k, Ent { kid, v: vv, vid });
                        self.see("ins", 0);
                    }
                    (Some(o), Some(e)) => {
                        ck!(same(o, e.v, e.vid), "insert of {} returned old value {} (id {}) instead of {} (id {})", k, o.val(), o.id(), e.v, e.vid);
                        self.s[i].m.insert(k, Ent { kid: e.kid, v: vv, vid });
                        self.see("old", e.v);
                    }
                    (o, e) => fail!("insert of {} returned {:?}, the key was {}", k, o, if e.is_some() { "present" } else { "absent" }),
                }
                Ok(true)
            }
            Err(_) => {
                self.see("ins-err", 0);
                ck!(kid == 0 || !is_live(kid), "failed insert kept the key");
                ck!(vid == 0 || !is_live(vid), "failed insert kept the value");
                Ok(false)
            }
        }
    }

    fn remove(&mut self, i: usize, k: u64) -> Out {
        let k = self.key(k);
        let r = self.go(|s, _| K::with_q(k, |q| s[i].t.remove(q)))?;
        let e = self.s[i].m.remove(&k);
        match (&r, e) {
            (None, None) => self.see("rem", 0),
            (Some(x), Some(e)) => {
                ck!(same(x, e.v, e.vid), "remove of {} returned {} (id {}) instead of {} (id {})", k, x.val(), x.id(), e.v, e.vid);
                ck!(e.kid == 0 || !is_live(e.kid), "remove kept the key");
                self.see("removed", e.v);
            }
            (x, e) => fail!("remove of {} returned {:?}, the key was {}", k, x, if e.is_some() { "present" } else { "absent" }),
        }
        Ok(true)
    }

    fn look(&mut self, i: usize, k: u64, how: u64, v: u64) -> Out {
        let k = self.key(k);
        let e = self.s[i].m.get(&k).copied();
        match how % 6 {
            0 => {
                let r = self.go(|s, _| K::with_q(k, |q| s[i].t.get(q)).map(|x| (x.val(), x.id(), x.check())))?;
                ckeq!(r.map(|x| (x.0, x.1)), e.map(|e| (e.v, e.vid)), "get({})", k);
            }
            1 => {
                let r = self.go(|s, _| K::with_q(k, |q| s[i].t.get_key_value(q)).map(|(a, x)| (a.val(), a.id(), a.check(), x.val(), x.id(), x.check())))?;
                ckeq!(r.map(|x| (x.0, x.1, x.3, x.4)), e.map(|e| (k, e.kid, e.v, e.vid)), "get_key_value({})", k);
            }
            2 => {
                let r = self.go(|s, _| K::with_q(k, |q| s[i].t.contains_key(q)))?;
                ckeq!(r, e.is_some(), "contains_key({})", k);
            }
            3 => {
                let nv = V::norm(v);
                let r = self.go(|s, _| {
                    K::with_q(k, |q| s[i].t.get_mut(q)).map(|x| {
                        x.check();
                        let o = (x.val(), x.id());
                        x.set(nv);
                        o
                    })
                })?;
                ckeq!(r, e.map(|e| (e.v, e.vid)), "get_mut({})", k);
                if let Some(e) = self.s[i].m.get_mut(&k) {
                    e.v = nv;
                }
            }
            4 => {
                let r = self.go(|s, _| {
                    K::with_q(k, |q| {
                        let x = &s[i].t[q];
                        (x.val(), x.id())
                    })
                });
                match (r, e) {
                    (Ok(x), Some(e)) => ckeq!(x, (e.v, e.vid), "index [{}]", k),
                    (Err(Pn::Other(_)), None) => {}
                    (Err(p @ (Pn::Inj(_) | Pn::Fuel)), _) => return Err(p),
                    (r, e) => fail!("index [{}] gave {:?}, model {:?}", k, r, e),
                }
            }
            _ => {
                let r = self.go(|s, _| (s[i].t.len(), s[i].t.is_empty()))?;
                let n = self.s[i].m.len();
                ckeq!(r, (n, n == 0), "length");
            }
        }
        self.see("look", e.map_or(0, |e| e.v + 1));
        Ok(true)
    }

    fn clear(&mut self, i: usize) -> Out {
        let r = self.go(|s, _| s[i].t.clear());
        match r {
            Ok(()) => {
                for e in self.s[i].m.values() {
                    ck!(e.kid == 0 || !is_live(e.kid), "clear kept a key");
                    ck!(e.vid == 0 || !is_live(e.vid), "clear kept a value");
                }
                self.s[i].m.clear();
                Ok(true)
            }
            Err(p) => Err(p),
        }
    }

    fn entry(&mut self, i: usize, k: u64, how: u64, v: u64) -> Out {
        let k = self.key(k);
        let key = K::mk(k);
        let kid = key.id();
        self.supplied.push(k);
        let e = self.s[i].m.get(&k).copied();
        let (val, val2) = (V::mk(v), V::norm(v ^ 0x1111));
        let (vv, vid) = (val.val(), val.id());
        // observations: [seen?, a, b, c, d, calls]
        let mut o = [0u64; 8];
        let obs = &mut o;
        let mut newv: Option<V> = Some(val);
        let nvr = &mut newv;
        let h = how % 14;
        let r: Result<bool, Pn> = self.go(|s, clos| {
            let t = &mut s[i].t;
            let mut en = match t.try_entry(key) {
                Ok(x) => x,
                Err(_) => return false,
            };
            {
                // the key it reports
                let kk = en.key();
                kk.check();
                obs[0] = 1;
                obs[1] = kk.val();
                obs[2] = kk.id();
                obs[3] = matches!(en, Entry::Occupied(_)) as u64;
            }
            match h {
                0 => true,
                1 => match en.or_try_insert(nvr.take().unwrap()) {
                    Ok(x) => {
                        x.check();
                        obs[4] = x.val();
                        obs[5] = x.id();
                        x.set(val2);
                        true
                    }
                    Err(_) => false,
                },
                2 => {
                    let calls = &mut obs[6];
                    match en.or_try_insert_with(|| {
                        *calls += 1;
                        closure_tick(clos);
                        nvr.take().unwrap()
                    }) {
                        Ok(x) => {
                            x.check();
                            obs[4] = x.val();
                            obs[5] = x.id();
                            x.set(val2);
                            true
                        }
                        Err(_) => false,
                    }
                }
                3 => match en.or_default() {
                    Ok(x) => {
                        x.check();
                        obs[4] = x.val();
                        obs[5] = x.id();
                        x.set(val2);
                        true
                    }
                    Err(_) => false,
                },
                4 | 5 => {
                    let (calls, seen) = obs.split_at_mut(7);
                    let calls = &mut calls[6];
                    let seen = &mut seen[0];
                    en = en.and_modify(|x| {
                        *calls += 1;
                        closure_tick(clos);
                        x.check();
                        *seen = x.val();
                        x.set(val2);
                    });
                    if h == 4 {
                        return true;
                    }
                    match en.or_try_insert(nvr.take().unwrap()) {
                        Ok(x) => {
                            x.check();
                            obs[4] = x.val();
                            obs[5] = x.id();
                            true
                        }
                        Err(_) => false,
                    }
                }
                _ => match en {
                    Entry::Vacant(x) => {
                        if h % 2 == 0 {
                            let kk = x.into_key();
                            kk.check();
                            obs[4] = kk.val();
                            obs[5] = kk.id();
                            true
                        } else {
                            match x.try_insert(nvr.take().unwrap()) {
                                Ok(x) => {
                                    x.check();
                                    obs[4] = x.val();
                                    obs[5] = x.id();
                                    x.set(val2);
                                    true
                                }
                                Err(_) => false,
                            }
                        }
                    }
                    Entry::Occupied(mut x) => {
                        {
                            let g = x.get();
                            g.check();
                            obs[4] = g.val();
                            obs[5] = g.id();
                        }
                        match h {
                            6 | 7 => true,
                            8 | 9 => {
                                x.get_mut().set(val2);
                                let nv = nvr.take().unwrap();
                                let old = x.insert(nv);
                                old.check();
                                obs[6] = old.val();
                                obs[7] = old.id();
                                true
                            }
                            10 => {
                                let m = x.into_mut();
                                m.check();
                                obs[6] = m.val();
                                obs[7] = m.id();
                                m.set(val2);
                                true
                            }
                            11 | 12 => {
                                let old = x.remove();
                                old.check();
                                obs[6] = old.val();
                                obs[7] = old.id();
                                true
                            }
                            _ => {
                                let (ok, ov) = x.remove_entry();
                                ok.check();
                                ov.check();
                                obs[6] = ov.val();
                                obs[7] = ov.id();
                                obs[1] = ok.val();
                                obs[2] = ok.id();
                                true
                            }
                        }
                    }
                },
            }
        });
        drop(newv);
        let r = r?;
        if !r {
            self.see("entry-err", 0);
            ck!(kid == 0 || !is_live(kid), "failed entry operation kept the key");
            return Ok(false);
        }
        let occ = e.is_some();
        ckeq!(o[3] == 1, occ, "entry({}) occupied", k);
        ckeq!(o[1], k, "key reported by entry");
        ckeq!(o[2], e.map_or(kid, |e| e.kid), "identity of the key reported by entry({}) (occupied: {})", k, occ);
        let m = &mut self.s[i].m;
        match h {
            0 => {}
            1 | 2 | 3 => {
                if h == 2 {
                    ckeq!(o[6], !occ as u64, "calls of the closure given to or_try_insert_with (occupied: {})", occ);
                }
                match e {
                    Some(e) => ckeq!((o[4], o[5]), (e.v, e.vid), "reference handed out by or-insert on an occupied entry"),
                    None if h == 3 => ckeq!(o[4], V::norm(0), "value of or_default"),
                    None => ckeq!((o[4], o[5]), (vv, vid), "reference handed out by or-insert on a vacant entry"),
                }
                m.insert(k, Ent { kid: e.map_or(kid, |e| e.kid), v: val2, vid: o[5] });
            }
            4 | 5 => {
                ckeq!(o[6], occ as u64, "calls of the closure given to and_modify (occupied: {})", occ);
                if let Some(e) = e {
                    ckeq!(o[7], e.v, "value given to the closure of and_modify");
                    m.get_mut(&k).unwrap().v = val2;
                }
                if h == 5 {
                    match e {
                        Some(e) => ckeq!((o[4], o[5]), (val2, e.vid), "value after and_modify"),
                        None => {
                            ckeq!((o[4], o[5]), (vv, vid), "value inserted behind and_modify");
                            m.insert(k, Ent { kid, v: vv, vid });
                        }
                    }
                }
            }
            _ => match e {
                None => {
                    if h % 2 == 0 {
                        ckeq!((o[4], o[5]), (k, kid), "key taken back from a vacant entry");
                    } else {
                        ckeq!((o[4], o[5]), (vv, vid), "reference to the inserted value");
                        m.insert(k, Ent { kid, v: val2, vid });
                    }
                }
                Some(e) => {
                    ckeq!((o[4], o[5]), (e.v, e.vid), "get on an occupied entry");
                    match h {
                        6 | 7 => {}
                        8 | 9 => {
                            ckeq!((o[6], o[7]), (val2, e.vid), "old value returned by insert on an occupied entry");
                            m.insert(k, Ent { kid: e.kid, v: vv, vid });
                        }
                        10 => {
                            ckeq!((o[6], o[7]), (e.v, e.vid), "into_mut");
                            m.get_mut(&k).unwrap().v = val2;
                        }
                        _ => {
                            ckeq!((o[6], o[7]), (e.v, e.vid), "value removed through an entry");
                            m.remove(&k);
                        }
                    }
                }
            },
        }
        self.see("entry", h * 2 + occ as u64);
        Ok(true)
    }

    fn append(&mut self, i: usize, j: usize) -> Out {
        if i == j {
            return Ok(true);
        }
        self.go(|s, _| {
            let (a, b) = two(s, i, j);
            a.t.append(&mut b.t);
        })?;
        let mj = std::mem::take(&mut self.s[j].m);
        let mut common = 0;
        let mut kids = Vec::new();
        for (k, e) in mj {
            if let Some(o) = self.s[i].m.insert(k, e) {
                common += 1;
                kids.push((k, o.kid));
            }
        }
        self.cx.add("append: common keys", common);
        // the key kept for a common entry is not specified
        for (k, alt) in kids {
            let r = self.s[i].m.get_mut(&k).unwrap();
            if r.kid != 0 && !is_live(r.kid) && is_live(alt) {
                r.kid = alt;
            }
        }
        self.see("append", self.s[i].m.len() as u64);
        Ok(true)
    }

    fn split(&mut self, i: usize, j: usize, k: u64) -> Out {
        if i == j {
            return Ok(true);
        }
        let k = self.key(k);
        let r = self.go(|s, _| K::with_q(k, |q| s[i].t.split_off(q)))?;
        match r {
            Ok(t) => {
                let m = self.s[i].m.split_off(&k);
                self.see("split", m.len() as u64);
                if m.is_empty() || self.s[i].m.is_empty() {
                    self.cx.hit("split_off: one side empty");
                }
                let old = std::mem::replace(&mut self.s[j], Slot { t, m });
                sut(move || drop(old.t));
                Ok(true)
            }
            Err(_) => {
                self.see("split-err", 0);
                Ok(false)
            }
        }
    }

    fn tclone(&mut self, i: usize, j: usize, tr: bool, from: bool) -> Out {
        let mark = reg_mark();
        let d = if i == j { (j + 1) % SLOTS } else { j };
        let r = if tr {
            self.go(|s, _| s[i].t.try_clone().ok())?
        } else if from {
            // into what another map held
            self.s[d].m = Model::new();
            self.go(|s, _| {
                let mut t = std::mem::replace(&mut s[d].t, BTreeMap::new());
                t.clone_from(&s[i].t);
                Some(t)
            })?
        } else {
            self.go(|s, _| Some(s[i].t.clone()))?
        };
        match r {
            None => {
                ckeq!(live_since(mark), 0, "elements left behind by a failed clone");
                self.see("clone-err", 0);
                Ok(false)
            }
            Some(t) => {
                let mut m = Model::new();
                let exp = &self.s[i].m;
                ckeq!(t.len(), exp.len(), "length of the clone");
                let mark = if from { 0 } else { mark };
                for ((k, v), (ek, ee)) in t.iter().zip(exp.iter()) {
                    k.check();
                    v.check();
                    ckeq!((k.val(), v.val()), (*ek, ee.v), "entry of the clone");
                    ck!((k.id() == 0 || k.id() != ee.kid) && (v.id() == 0 || v.id() != ee.vid), "clone shares an entry with the original");
                    ck!(k.id() == 0 || (k.id() as usize) >= mark, "clone shares a key with the original");
                    ck!(v.id() == 0 || (v.id() as usize) >= mark, "clone shares a value with the original");
                    m.insert(*ek, Ent { kid: k.id(), v: ee.v, vid: v.id() });
                }
                self.see("clone", m.len() as u64);
                let old = std::mem::replace(&mut self.s[d], Slot { t, m });
                sut(move || drop(old.t));
                Ok(true)
            }
        }
    }

    fn collect(&mut self, i: usize, n: u64, pat: u64, seed: u64, extend: bool) -> Out {
        let n = n.min(20_000);
        let dom = self.dom;
        let keyat = |x: u64| {
            K::norm(match pat % 4 {
                0 => seed.wrapping_add(x) % dom,
                1 => seed.wrapping_add(n - x) % dom,
                2 => mix(seed.wrapping_add(x)) % dom,
                _ => mix(seed.wrapping_add(x)) % (dom / 2 + 1),
            })
        };
        let mut m = if extend { self.s[i].m.clone() } else { Model::new() };
        let mut alts: Ref<u64, Vec<u64>> = Ref::new();
        let mut items: Vec<(K, V)> = Vec::with_capacity(n as usize);
        for x in 0..n {
            let k = keyat(x);
            let (kk, v) = (K::mk(k), V::mk(mix(seed ^ x)));
            self.supplied.push(k);
            let ent = Ent { kid: kk.id(), v: v.val(), vid: v.id() };
            alts.entry(k).or_default().push(kk.id());
            if let Some(o) = m.insert(k, ent) {
                alts.get_mut(&k).unwrap().push(o.kid);
            }
            items.push((kk, v));
        }
        let it = items.into_iter();
        let r = self.go(|s, clos| {
            let it = it.map(|x| {
                closure_tick(clos);
                x
            });
            if extend {
                s[i].t.extend(it);
                None
            } else {
                Some(it.collect::<BTreeMap<K, V>>())
            }
        });
        let r = r?;
        if let Some(t) = r {
            let old = std::mem::replace(&mut self.s[i].t, t);
            sut(move || drop(old));
        }
        // which of several equal keys is kept is not specified
        for (k, ids) in alts {
            let e = m.get_mut(&k).unwrap();
            if e.kid != 0 && !is_live(e.kid) {
                if let Some(a) = ids.iter().copied().find(|&a| is_live(a)) {
                    e.kid = a;
                }
            }
        }
        self.s[i].m = m;
        self.see("collect", self.s[i].m.len() as u64);
        if seed % 8 == 0 {
            plain_extend(n.min(300), pat, seed);
        }
        Ok(true)
    }

    /// consume the map from both ends, then drop the rest
    fn into(&mut self, i: usize, steps: u64, pat: u64) -> Out {
        let m = std::mem::take(&mut self.s[i].m);
        let t = std::mem::replace(&mut self.s[i].t, BTreeMap::new());
        let exp: Vec<(u64, Ent)> = m.into_iter().collect();
        let n = exp.len();
        let steps = (steps as usize).min(n + 2);
        let mut it = Some(sut(|| t.into_iter()));
        let (mut f, mut b) = (0, n);
        for x in 0..steps {
            let back = pat >> (x % 60) & 1 == 1;
            let itr = it.as_mut().unwrap();
            let l0 = itr.len();
            let r = sut(|| if back { itr.next_back() } else { itr.next() });
            ckeq!(l0, b - f, "remaining length of owning iteration");
            let e = if f == b {
                None
            } else if back {
                b -= 1;
                Some(exp[b])
            } else {
                f += 1;
                Some(exp[f - 1])
            };
            match (&r, e) {
                (None, None) => {}
                (Some((k, v)), Some((ek, e))) => {
                    ck!(same(k, ek, e.kid) && same(v, e.v, e.vid), "owning iteration step {} (back: {}) yielded ({}, {}) instead of ({}, {})", x, back, k.val(), v.val(), ek, e.v);
                }
                (r, e) => fail!("owning iteration step {} (back: {}) yielded {:?} instead of {:?}", x, back, r.is_some(), e),
            }
            check_errs();
            drop(r);
        }
        self.see("into", (b - f) as u64);
        if b > f {
            self.cx.hit("owning iteration dropped early");
        }
        let it2 = it.take();
        self.go(move |_, _| drop(it2))?;
        for (_, e) in &exp {
            ck!(e.kid == 0 || !is_live(e.kid), "owning iteration leaked a key");
            ck!(e.vid == 0 || !is_live(e.vid), "owning iteration leaked a value");
        }
        Ok(true)
    }

    pub fn bounds(&self, lo: u64, hi: u64, how: u64) -> (Bound<u64>, Bound<u64>) {
        let b = |x: u64, w: u64| match w % 3 {
            0 => Bound::Included(self.key(x)),
            1 => Bound::Excluded(self.key(x)),
            _ => Bound::Unbounded,
        };
        (b(lo, how), b(hi, how / 3))
    }

    fn range(&mut self, i: usize, lo: u64, hi: u64, how: u64) -> Out {
        let (a, b) = self.bounds(lo, hi, how);
        let bad = bad_range(&a, &b);
        let r = self.go(|s, _| with_bounds::<K, _>(a, b, |x, y| {
            let mut n = 0u64;
            let mut h = 0u64;
            let r = s[i].t.range::<K::Q, _>((x, y));
            for (k, v) in r {
                k.check();
                v.check();
                n += 1;
                h = mix(h ^ k.val() ^ v.val().rotate_left(17));
                if n > 1 << 20 {
                    break;
                }
            }
            (n, h)
        }));
        match r {
            Ok(x) => {
                ck!(!bad, "range {:?} did not panic", (a, b));
                let mut n = 0;
                let mut h = 0;
                for (k, e) in self.s[i].m.range((a, b)) {
                    n += 1;
                    h = mix(h ^ *k ^ e.v.rotate_left(17));
                }
                ckeq!(x, (n, h), "entries of the range {:?} (count, checksum)", (a, b));
                self.see("range", n);
                Ok(true)
            }
            Err(Pn::Other(m)) => {
                ck!(bad, "range {:?} panicked: {}", (a, b), m);
                self.cx.hit("range: documented panic");
                Ok(true)
            }
            Err(p) => Err(p),
        }
    }

    // ------------------------------------------------------------ verification

    /// point lookups of every present key and of neighbours of present keys
    pub fn verify_points(&mut self, i: usize, what: &str) {
        let s = &self.s[i];
        ckeq!(s.t.len(), s.m.len(), "{}: length", what);
        ckeq!(s.t.is_empty(), s.m.is_empty(), "{}: is_empty", what);
        for (k, e) in &s.m {
            let r = sut(|| K::with_q(*k, |q| s.t.get_key_value(q)));
            match r {
                None => fail!("{}: key {} not found", what, k),
                Some((kk, v)) => {
                    ck!(same(kk, *k, e.kid), "{}: key {} found as {} (id {} instead of {})", what, k, kk.val(), kk.id(), e.kid);
                    ck!(same(v, e.v, e.vid), "{}: value of {} is {} (id {}) instead of {} (id {})", what, k, v.val(), v.id(), e.v, e.vid);
                }
            }
            let n = K::norm(k.wrapping_add(1));
            if !s.m.contains_key(&n) {
                ck!(sut(|| K::with_q(n, |q| s.t.get(q)).is_none()), "{}: absent key {} found", what, n);
            }
        }
        check_errs();
    }

    /// contents by iteration
    pub fn verify_iter(&mut self, i: usize, what: &str) {
        let s = &self.s[i];
        ckeq!(s.t.len(), s.m.len(), "{}: length", what);
        let mut it = sut(|| s.t.iter());
        for (k, e) in &s.m {
            match sut(|| it.next()) {
                None => fail!("{}: iteration ended before key {}", what, k),
                Some((kk, v)) => {
                    ck!(same(kk, *k, e.kid), "{}: iteration yielded key {} (id {}) instead of {} (id {})", what, kk.val(), kk.id(), k, e.kid);
                    ck!(same(v, e.v, e.vid), "{}: iteration yielded value {} (id {}) instead of {} (id {}) for key {}", what, v.val(), v.id(), e.v, e.vid, k);
                }
            }
        }
        ck!(sut(|| it.next().is_none()), "{}: iteration yields more than the length", what);
        // the same through an iterator that does not count
        let mut n = 0;
        let mut r = sut(|| s.t.range::<K::Q, _>((Bound::Unbounded, Bound::Unbounded)));
        let mut mi = s.m.iter().rev();
        while let Some((k, _)) = sut(|| r.next_back()) {
            k.check();
            n += 1;
            match mi.next() {
                Some((ek, _)) if *ek == k.val() => {}
                x => fail!("{}: backward range yielded {} instead of {:?}", what, k.val(), x),
            }
        }
        ckeq!(n, s.m.len(), "{}: entries in the full range", what);
        check_errs();
    }

    /// elements held by all maps = elements that exist
    pub fn balance(&self, what: &str) {
        let n: usize = self.s.iter().map(|s| s.m.len()).sum();
        let per = K::TRACK as usize + V::TRACK as usize;
        let want = (n * per) as i64;
        let (a, z) = live_elems();
        let have = a + z;
        if have < want || (!self.leak_ok && have != want) {
            fail!("{}: {} tracked elements exist but the maps hold {}", what, have, want);
        }
    }

    /// after a panic: read what is there, check that it is a sane map and adopt it
    pub fn resync(&mut self, involved: &[usize], what: &str) {
        let mut ids: HashSet<u64> = HashSet::new();
        let mut allowed: HashSet<u64> = self.supplied.iter().copied().collect();
        for &i in involved {
            allowed.extend(self.s[i].m.keys().copied());
        }
        for &i in involved {
            let s = &mut self.s[i];
            let mut m = Model::new();
            let mut last: Option<u64> = None;
            let mut n = 0usize;
            let mut r = sut(|| s.t.range::<K::Q, _>((Bound::Unbounded, Bound::Unbounded)));
            let limit = allowed.len() + 8;
            while let Some((k, v)) = sut(|| r.next()) {
                k.check();
                v.check();
                check_errs();
                n += 1;
                ck!(n <= limit, "{}: more entries than were ever there", what);
                if let Some(l) = last {
                    ck!(l < k.val(), "{}: entries out of order ({} then {})", what, l, k.val());
                }
                last = Some(k.val());
                ck!(allowed.contains(&k.val()), "{}: key {} was neither present nor supplied", what, k.val());
                for id in [k.id(), v.id()] {
                    ck!(id == 0 || ids.insert(id), "{}: the same element occurs twice", what);
                }
                m.insert(k.val(), Ent { kid: k.id(), v: v.val(), vid: v.id() });
            }
            ckeq!(s.t.len(), n, "{}: length after a panic, against the entries it holds", what);
            ckeq!(s.t.iter().count(), n, "{}: entries iterated", what);
            s.m = m;
        }
        for &i in involved {
            self.verify_points(i, what);
        }
    }

    /// use a map hard after a panic: grow it at its ends, then take it apart in some order
    pub fn aftermath(&mut self, i: usize, r: &mut Rng, what: &str) {
        if self.s[i].m.is_empty() && r.chance(1, 2) {
            return;
        }
        let i64_ = i as u64;
        let top = self.s[i].m.keys().next_back().copied().unwrap_or(0);
        let bot = self.s[i].m.keys().next().copied().unwrap_or(0);
        let grow = r.pick(&[0u64, 0, 1, 3, 14]);
        for x in 0..grow {
            for k in [top.wrapping_add(1 + x), bot.wrapping_sub(1 + x)] {
                self.must(&[opk(INS, i64_, 0), k % self.dom, r.next() >> 32, 0], what);
            }
        }
        let mut keys: Vec<u64> = self.s[i].m.keys().copied().collect();
        match r.below(5) {
            0 => keys.reverse(),
            1 => {}
            2 => {
                // from the right edge inwards, leaving the very last entries for later
                let cut = keys.len() - keys.len().min(1 + r.below(25) as usize);
                let tail = keys.split_off(cut);
                keys.reverse();
                keys.splice(0..0, tail);
            }
            _ => {
                for x in (1..keys.len()).rev() {
                    let y = r.below(x as u64 + 1) as usize;
                    keys.swap(x, y);
                }
            }
        }
        let stop = if r.chance(1, 2) { keys.len() } else { r.below(keys.len() as u64 + 1) as usize };
        keys.truncate(stop.min(600));
        for (x, k) in keys.iter().enumerate() {
            self.must(&[opk(REM, i64_, 0), *k, 0, 0], what);
            if x % 64 == 63 {
                self.verify_points(i, what);
            }
        }
        self.verify_points(i, what);
        if r.chance(1, 4) {
            let k = r.next() % self.dom;
            self.must(&[opk(SPLIT, i64_, (i64_ + 1) % 4), k, 0, 0], what);
            self.verify_points(i, what);
        }
        self.cx.hit("map used further after a panic");
    }
    fn must(&mut self, op: &Op, what: &str) {
        if let Err(p) = self.exec(op) {
            fail!("{} of key {} after a caught panic in {}: unexpected panic {:?}", ONAMES[(op[0] % 32) as usize], op[1], what, p)
        }
    }

    /// after inconsistent comparisons: only safety
    pub fn safety(&mut self, what: &str) {
        let mut ids: HashSet<u64> = HashSet::new();
        for s in &self.s {
            let mut n = 0usize;
            let mut r = sut(|| s.t.range::<K::Q, _>((Bound::Unbounded, Bound::Unbounded)));
            while let Some((k, v)) = sut(|| r.next()) {
                k.check();
                v.check();
                check_errs();
                n += 1;
                ck!(n < 1 << 20, "{}: endless iteration", what);
                for id in [k.id(), v.id()] {
                    ck!(id == 0 || ids.insert(id), "{}: the same element occurs twice", what);
                }
            }
            ckeq!(s.t.len(), n, "{}: length under inconsistent comparisons, against the entries it holds", what);
            let mut m = 0;
            let mut r = sut(|| s.t.range::<K::Q, _>((Bound::Unbounded, Bound::Unbounded)));
            while sut(|| r.next_back()).is_some() {
                m += 1;
            }
            ckeq!(m, n, "{}: backward iteration", what);
        }
        if K::TRACK && V::TRACK && !self.leak_ok {
            let n: usize = self.s.iter().map(|s| s.t.len()).sum();
            let (a, z) = live_elems();
            ckeq!(a + z, 2 * n as i64, "{}: elements that exist against entries held", what);
        }
        check_errs();
    }

    /// drop every map; nothing may be left
    pub fn finish(self, leaks: bool) {
        let leak_ok = self.leak_ok;
        let s = self.s;
        for x in s {
            let t = x.t;
            sut(move || drop(t));
        }
        if leaks && !leak_ok {
            let (a, z) = live_elems();
            ck!(a + z == 0, "{} elements still exist after all maps were dropped", a + z);
            let (b, by) = live();
            ck!(b == 0, "{} blocks ({} bytes) never returned after all maps were dropped", b, by);
        }
    }
}

pub fn two<T>(s: &mut [T], i: usize, j: usize) -> (&mut T, &mut T) {
    if i < j {
        let (a, b) = s.split_at_mut(j);
        (&mut a[i], &mut b[0])
    } else {
        let (a, b) = s.split_at_mut(i);
        (&mut b[0], &mut a[j])
    }
}

pub fn bad_range(a: &Bound<u64>, b: &Bound<u64>) -> bool {
    use Bound::*;
    match (a, b) {
        (Excluded(x), Excluded(y)) if x == y => true,
        (Included(x) | Excluded(x), Included(y) | Excluded(y)) if x > y => true,
        _ => false,
    }
}

/// call f with the bounds in the borrowed form of the key
pub fn with_bounds<K: Key, R>(a: Bound<u64>, b: Bound<u64>, f: impl FnOnce(Bound<&K::Q>, Bound<&K::Q>) -> R) -> R {
    use Bound::*;
    let with = |x: Bound<u64>, g: &mut dyn FnMut(Bound<&K::Q>)| match x {
        Unbounded => g(Unbounded),
        Included(v) => K::with_q(v, |q| g(Included(q))),
        Excluded(v) => K::with_q(v, |q| g(Excluded(q))),
    };
    let mut f = Some(f);
    let mut out = None;
    with(a, &mut |x| {
        with(b, &mut |y| {
            out = Some((f.take().unwrap())(x, y));
        })
    });
    out.unwrap()
}

// ---------------------------------------------------------------- key/value layouts

pub fn op_text(o: &Op) -> String {
    format!("m{}.{}(m{}; {},{},{})", o[0] / 32 % 4, ONAMES[(o[0] % 32 % NOPS) as usize], o[0] / 128 % 4, o[1], o[2], o[3])
}

/// keys and values that can be copied: extending by references, against the standard library's map and set
pub fn plain_extend(n: u64, pat: u64, seed: u64) {
    let items: Vec<(u64, u64)> = (0..n).map(|x| (mix(seed ^ x) % (n * 2 / (1 + pat % 3) + 1), x)).collect();
    let half = (mix(seed) % (n + 1)) as usize;
    let mut want: Ref<u64, u64> = Ref::new();
    want.extend(items.iter().map(|x| (&x.0, &x.1)));
    let mut t: BTreeMap<u64, u64> = BTreeMap::default();
    sut(|| {
        t.extend(items[..half].iter().map(|x| (&x.0, &x.1)));
        t.extend(items[half..].iter().map(|x| (&x.0, &x.1)));
    });
    ckeq!(t.len(), want.len(), "length after extending by references with {:?}", items);
    ck!(t.iter().eq(want.iter()), "extending by references with {:?} gave {:?}", items, t);
    for k in 0..5 {
        let k = mix(seed ^ k) % (n + 2);
        ckeq!(t.get(&k), want.get(&k), "lookup of {} after extending by references", k);
    }
    sut(move || drop(t));
}
