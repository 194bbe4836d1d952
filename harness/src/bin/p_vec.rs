//! V01 V02 V03 V04 V06 (one interpreter), V05.
use std::marker::PhantomData;
use vh::vecs::*;
use vh::*;

extern crate alloc;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Model,   // V01
    Oom,     // V02
    Lossless, // V03
    Cap,     // V04
    Drops,   // V06
}

// operation kinds
const PUSH: u64 = 0;
const PUSHGB: u64 = 1;
const INSERT: u64 = 2;
const APPEND: u64 = 3;
const RESIZE: u64 = 4;
const RESIZEW: u64 = 5;
const RESIZENC: u64 = 6;
const EXT: u64 = 7;
const EXTNC: u64 = 8;
const RESERVE: u64 = 9;
const POP: u64 = 10;
const CLEAR: u64 = 11;
const MUTATE: u64 = 12;
const INSBEYOND: u64 = 13;
const REBUILD: u64 = 14; // exact-capacity storage
const WITHCAP: u64 = 15;
const HUGE: u64 = 16; // impossible or refused sizes
const BUILD: u64 = 17; // n elements one at a time
const COLLECT: u64 = 18;
const CONV: u64 = 19; // derive a new vector: clone, from a slice or string, concatenation, try_vec!
const LARGE: u64 = 20; // room for very many elements
const NK: u64 = 21;
const NAMES: [&str; NK as usize] = [
    "push", "push_give_back", "insert", "append", "resize(copy)", "resize_with", "resize_no_copy", "extend_from_slice(copy)", "extend_from_slice_no_copy", "reserve", "pop", "clear", "mutate", "insert-beyond-end", "rebuild-exact", "with_capacity", "huge-size", "build-one-by-one", "try_collect", "derive-new", "large-room",
];

struct W<'a, T: Elem, V: VL<T>> {
    v: V,
    m: Vec<(u64, u64)>,
    cx: &'a mut Cx,
    mode: Mode,
    leak_ok: bool,
    room: usize, // elements that must be addable without a memory request
    big: bool,   // much longer vectors than usual
    _p: PhantomData<T>,
}

#[derive(Debug)]
enum R {
    Ok,
    Err,
    Back(u64, u64),
    Done, // infallible operation
}

fn lim<T: Elem>(big: bool) -> u64 {
    let n = match std::mem::size_of::<T>() {
        0 => 3000,
        1 => 70_000,
        2..=8 => 20_000,
        9..=64 => 3000,
        _ => 400,
    };
    if big {
        n * 24
    } else {
        n
    }
}

/// is a vector of n elements of T possible at all?
fn representable<T>(len: usize, add: usize) -> bool {
    match len.checked_add(add) {
        None => false,
        Some(n) => std::mem::size_of::<T>() == 0 || n.checked_mul(std::mem::size_of::<T>()).map_or(false, |b| b <= isize::MAX as usize),
    }
}

struct Exp {
    ok: Vec<(u64, Option<u64>)>,
    prefix: bool, // on failure a prefix of the addition may have been appended
    back: Option<(u64, u64)>,
    add: usize,
}

impl<'a, T: Elem, V: VL<T>> W<'a, T, V> {
    fn vals(&self, seed: u64, n: usize) -> Vec<u64> {
        (0..n).map(|i| T::norm(mix(seed.wrapping_add(i as u64)))).collect()
    }
    fn base(&self) -> Vec<(u64, Option<u64>)> {
        self.m.iter().map(|&(v, i)| (v, Some(i))).collect()
    }

    /// compare with exp, then take over the actual identities
    fn settle(&mut self, exp: &[(u64, Option<u64>)], what: &str) {
        let s = self.v.slice();
        if s.len() != exp.len() {
            fail!("{}: length {} instead of {}", what, s.len(), exp.len());
        }
        self.m.clear();
        for (i, (x, e)) in s.iter().zip(exp).enumerate() {
            x.check();
            let (v, id) = (x.val(), x.id());
            if v != e.0 {
                fail!("{}: element {} is {} instead of {}", what, i, v, e.0);
            }
            if let Some(w) = e.1 {
                if w != id {
                    fail!("{}: element {} has the right value but is not the same element (id {} instead of {})", what, i, id, w);
                }
            }
            self.m.push((v, id));
        }
        check_errs();
    }
    /// read whatever is there
    fn resync(&mut self, what: &str) {
        let s = self.v.slice();
        let mut ids = std::collections::HashSet::new();
        let mut m = Vec::new();
        for x in s {
            x.check();
            check_errs();
            if x.id() != 0 && !ids.insert(x.id()) {
                fail!("{}: the same element occurs twice", what);
            }
            m.push((x.val(), x.id()));
        }
        check_errs();
        self.m = m;
    }
    fn balance(&self, extra: usize, what: &str) {
        if T::TRACK {
            let (a, z) = live_elems();
            let want = (self.m.len() + extra) as i64;
            let have = a + z;
            if have < want || (!self.leak_ok && have != want) {
                fail!("{}: {} elements exist but {} are held", what, have, want);
            }
        }
    }

    /// One attempt at a fallible operation under the armed plans.
    fn attempt(&mut self, k: u64, op: &Op, plan: Plan, clos: &mut u64) -> (Result<R, Pn>, Exp, u64, u64, Vec<(u64, u64)>, Option<V>) {
        let len = self.m.len();
        let mut exp = Exp { ok: self.base(), prefix: false, back: None, add: 0 };
        let l = lim::<T>(self.big);
        let small = |x: u64| (x % (l + 1)) as usize;
        let v = &mut self.v;
        let mut srcm = Vec::new();
        let mut src: Option<V> = None;
        let r = match k {
            PUSH | PUSHGB | INSERT => {
                let x = T::mk(op[1]);
                let (xv, xi) = (x.val(), x.id());
                exp.add = 1;
                let idx = if k == INSERT && !V::TV { (op[2] as usize) % (len + 1) } else { len };
                exp.ok.insert(idx, (xv, Some(xi)));
                if k != PUSH && !V::TV {
                    exp.back = Some((xv, xi));
                }
                arm(plan);
                let f = |r: Result<(), (T, _)>| match r {
                    Ok(()) => R::Ok,
                    Err((b, _)) => {
                        b.check();
                        R::Back(b.val(), b.id())
                    }
                };
                if k == PUSH {
                    sut_catch(|| v.push(x).map_or(R::Err, |_| R::Ok))
                } else if k == PUSHGB {
                    sut_catch(|| f(v.push_gb(x)))
                } else {
                    sut_catch(|| f(v.insert(idx, x)))
                }
            }
            APPEND => {
                let n = small(op[1]);
                let mut sv: Vec<T> = Vec::with_capacity(n + (op[2] % 3) as usize);
                for i in 0..n {
                    sv.push(T::mk(mix(op[2].wrapping_add(i as u64))));
                }
                srcm = sv.iter().map(|x| (x.val(), x.id())).collect();
                exp.add = n;
                exp.ok.extend(srcm.iter().map(|&(a, b)| (a, Some(b))));
                let mut o = V::from_vec(sv);
                arm(plan);
                let r = sut_catch(|| v.append(&mut o).map_or(R::Err, |_| R::Ok));
                src = Some(o);
                r
            }
            RESIZE | RESIZEW | RESIZENC => {
                let n = if op[2] % 4 == 0 { small(op[1]) } else if op[2] % 2 == 0 { len.saturating_sub((op[1] % 9) as usize) } else { len + (op[1] % 40) as usize };
                let n = n.min(l as usize);
                exp.add = n.saturating_sub(len);
                exp.ok.truncate(n);
                let xv = T::norm(op[3] >> 8);
                let want = |i: usize, w: bool| if w { T::norm(mix(op[3].wrapping_add(i as u64))) } else { xv };
                let is_w = k == RESIZEW || V::TV;
                for i in len..n {
                    exp.ok.push((want(i - len, is_w), None));
                }
                if is_w {
                    arm(plan);
                    let mut i = 0u64;
                    sut_catch(|| {
                        v.resize_with(n, || {
                            closure_tick(clos);
                            let x = T::mk(mix(op[3].wrapping_add(i)));
                            i += 1;
                            x
                        })
                        .map_or(R::Err, |_| R::Ok)
                    })
                } else if k == RESIZE && T::COPY {
                    let x = T::mk(xv);
                    let vm = v.vec_mut().unwrap();
                    arm(plan);
                    sut_catch(|| T::copy_resize(vm, n, x).unwrap().map_or(R::Err, |_| R::Ok))
                } else {
                    exp.prefix = true;
                    let x = T::mk(xv);
                    let vm = v.vec_mut().unwrap();
                    arm(plan);
                    sut_catch(|| fc::FallibleVec::try_resize_no_copy(vm, n, x).map_or(R::Err, |_| R::Ok))
                }
            }
            EXT | EXTNC => {
                let n = small(op[1]);
                let mut s: Vec<T> = Vec::with_capacity(n);
                for i in 0..n {
                    s.push(T::mk(mix(op[2].wrapping_add(i as u64))));
                }
                exp.add = n;
                exp.ok.extend(s.iter().map(|x| (x.val(), None)));
                arm(plan);
                let r = if k == EXT && T::COPY && !V::TV {
                    let vm = v.vec_mut().unwrap();
                    sut_catch(|| T::copy_extend(vm, &s).unwrap().map_or(R::Err, |_| R::Ok))
                } else {
                    exp.prefix = true;
                    sut_catch(|| v.extend_nc(&s).map_or(R::Err, |_| R::Ok))
                };
                // the source must be untouched
                for (i, x) in s.iter().enumerate() {
                    x.check();
                    if x.val() != T::norm(mix(op[2].wrapping_add(i as u64))) {
                        fail!("extend changed its source slice at {}", i);
                    }
                }
                check_errs();
                let (cbs, st_) = (*cb(), (st().cnt, st().refused));
                cb().drop_panic = NEVER;
                drop(s);
                let d = cbs.drops;
                *cb() = cbs;
                cb().drops = d;
                st().cnt = st_.0;
                st().refused = st_.1;
                r
            }
            RESERVE => {
                let n = small(op[1]);
                arm(plan);
                sut_catch(|| v.reserve(n).map_or(R::Err, |_| R::Ok))
            }
            COLLECT => {
                // replaces the vector by a collected one
                let n = small(op[1]);
                let mut i = 0u64;
                exp.ok = (0..n).map(|i| (T::norm(mix(op[2].wrapping_add(i as u64))), None)).collect();
                exp.add = n;
                arm(plan);
                let hint = op[3] % 8;
                let r = sut_catch(|| {
                    let it = Lie { n: n as u64, hint, next: || {
                        closure_tick(clos);
                        let x = T::mk(mix(op[2].wrapping_add(i)));
                        i += 1;
                        x
                    } };
                    fc::TryCollect::try_collect::<Vec<T>>(it)
                });
                match r {
                    Ok(Ok(nv)) => {
                        let st_ = (st().cnt, st().refused);
                        let c = *cb();
                        disarm();
                        self.v = V::from_vec(nv);
                        *cb() = c;
                        st().cnt = st_.0;
                        st().refused = st_.1;
                        Ok(R::Ok)
                    }
                    Ok(Err(_)) => Ok(R::Err),
                    Err(p) => Err(p),
                }
            }
            CONV => {
                let n = small(op[1]);
                let seed = op[2] / 8;
                let mut text = String::new();
                let mut items: Vec<T> = Vec::new();
                let mut nested: Option<fc::TryVec<fc::TryVec<T>>> = None;
                let mut want: Vec<u64> = (0..n).map(|i| T::norm(mix(seed.wrapping_add(i as u64)))).collect();
                let mut sub = op[2] % 8;
                if cfg!(not(feature = "btree")) && (4..7).contains(&sub) {
                    sub %= 4;
                }
                match sub {
                    0 => want = self.m.iter().map(|x| x.0).collect(),
                    1 => items.extend(want.iter().map(|&x| T::mk(x))),
                    2 | 7 => {
                        let mut parts: Vec<fc::TryVec<T>> = Vec::new();
                        let mut i = 0;
                        for j in 0.. {
                            let len = ((mix(seed + j) % (n as u64 + 1)) as usize / 2).max((j % 2) as usize).min(n - i);
                            let mut q: Vec<T> = Vec::with_capacity(len);
                            q.extend(want[i..i + len].iter().map(|&x| T::mk(x)));
                            parts.push(q.into());
                            i += len;
                            if i == n {
                                break;
                            }
                        }
                        nested = Some(parts.into());
                    }
                    3 => {
                        for i in 0..n.min(4000) {
                            text.push(['a', 'é', '漢', '\u{1F600}', '\0'][(mix(seed + i as u64) % 5) as usize]);
                        }
                    }
                    4 | 5 => {
                        let large = T::COPY && std::mem::size_of::<T>() <= 8 && seed % 16 == 3 && !cfg!(miri);
                        let n = if large { n + 4096 * (1 + (seed / 16 % 4) as usize) } else { n };
                        let x = T::norm(if mix(seed) % 3 == 0 { 0 } else { seed });
                        want = vec![x; n];
                        items.push(T::mk(x));
                    }
                    _ => {
                        want = (0..4).map(|i| T::norm(mix(seed.wrapping_add(i)))).collect();
                        items.extend(want.iter().map(|&x| T::mk(x)));
                    }
                }
                enum D<T> {
                    P(Vec<T>),
                    T(fc::TryVec<T>),
                    B(fc::TryVec<u8>),
                }
                use std::convert::TryFrom;
                let before: std::collections::HashSet<u64> = self.m.iter().map(|x| x.1).chain(items.iter().map(|x| x.id())).filter(|&x| x != 0).collect();
                let nested_ids: Vec<u64> = nested.iter().flat_map(|v| v.iter()).flat_map(|v| v.iter()).map(|x| x.id()).collect();
                arm(plan);
                let r = match sub {
                    0 => sut_catch(|| v.tclone().map(|c| D::P(c.into_vec()))),
                    1 => sut_catch(|| fc::TryVec::try_from(&items[..]).map(D::T)),
                    2 | 7 => {
                        let nn = nested.as_ref().unwrap();
                        sut_catch(|| nn.concat().map(D::T))
                    }
                    3 => sut_catch(|| fc::TryVec::<u8>::try_from(text.as_str()).map(D::B)),
                    #[cfg(feature = "btree")]
                    4 => {
                        let x = items.pop().unwrap();
                        let n = want.len();
                        sut_catch(|| fc::try_vec![x; n].map(D::P))
                    }
                    #[cfg(feature = "btree")]
                    5 => {
                        let x = items.pop().unwrap();
                        let n = want.len();
                        sut_catch(|| fc::vec::try_from_elem(x, n).map(D::P))
                    }
                    #[cfg(feature = "btree")]
                    6 => {
                        let d = items.pop().unwrap();
                        let c = items.pop().unwrap();
                        let b = items.pop().unwrap();
                        let a = items.pop().unwrap();
                        sut_catch(|| fc::try_vec![a, b, c, d].map(D::P))
                    }
                    _ => unreachable!(),
                };
                let (cbs, st_) = (*cb(), (st().cnt, st().refused));
                disarm();
                let moved = (4..7).contains(&sub);
                let names = ["try_clone", "conversion from a slice", "concat", "conversion from a string", "try_vec![x; n]", "try_from_elem", "try_vec![list]", "concat"];
                let name = names[sub as usize];
                let chk = |s: &[T]| {
                    ckeq!(s.len(), want.len(), "length after {}", name);
                    for (i, (x, w)) in s.iter().zip(&want).enumerate() {
                        x.check();
                        ckeq!(x.val(), *w, "element {} after {}", i, name);
                        ck!(moved || !before.contains(&x.id()), "{} shares element {} with its source", name, i);
                        ck!(x.id() == 0 || !nested_ids.contains(&x.id()) || nested_ids.len() > 300, "{} shares element {} with its source", name, i);
                    }
                    check_errs();
                };
                let r = match r {
                    Ok(Ok(d)) => {
                        match &d {
                            D::P(x) => chk(x),
                            D::T(x) => chk(x.as_slice()),
                            D::B(x) => ckeq!(x.as_slice(), text.as_bytes(), "bytes after {}", name),
                        }
                        drop(d);
                        Ok(R::Ok)
                    }
                    Ok(Err(_)) => Ok(R::Err),
                    Err(p) => Err(p),
                };
                // the sources must be untouched
                if sub == 1 {
                    for (x, w) in items.iter().zip(&want) {
                        x.check();
                        ckeq!(x.val(), *w, "source of {}", name);
                    }
                }
                if let Some(nn) = &nested {
                    let mut got: Vec<u64> = Vec::new();
                    let mut gid: Vec<u64> = Vec::new();
                    for p in nn.iter() {
                        for x in p.iter() {
                            x.check();
                            got.push(x.val());
                            gid.push(x.id());
                        }
                    }
                    ckeq!(got, want, "operand of {}", name);
                    ckeq!(gid, nested_ids, "operand of {} (identity)", name);
                }
                check_errs();
                drop(nested);
                drop(items);
                let d = cb().drops;
                *cb() = cbs;
                cb().drops = d;
                st().cnt = st_.0;
                st().refused = st_.1;
                self.cx.hit(name);
                r
            }
            _ => unreachable!(),
        };
        let (a, b) = (st().cnt, st().refused);
        arm(Plan::None);
        (r, exp, a, b, srcm, src)
    }

    fn check_src(&self, src: &Option<V>, srcm: &[(u64, u64)], emptied: bool) {
        if let Some(o) = src {
            if emptied {
                ck!(o.slice().is_empty(), "append left {} elements in its source", o.slice().len());
            } else {
                ckeq!(o.slice().len(), srcm.len(), "failed append changed the length of its source");
                for (x, e) in o.slice().iter().zip(srcm) {
                    x.check();
                    ckeq!((x.val(), x.id()), *e, "failed append changed its source");
                }
            }
        }
        check_errs();
    }

    /// fallible operation, without callback faults
    fn fallible(&mut self, k: u64, op: &Op) {
        let name = NAMES[k as usize];
        let strat = match self.mode {
            Mode::Model => 0,
            Mode::Cap => {
                return self.capped(k, op);
            }
            _ => op[3] % 4,
        };
        let mut plans: Vec<Plan> = Vec::new();
        match strat {
            1 => plans.extend((0..40).map(Plan::Once)),
            2 => plans.push(Plan::All),
            3 => plans.extend((0..40).map(Plan::From)),
            _ => {}
        }
        let mut failed = false;
        for p in plans {
            let mut never = NEVER;
            let (r, exp, reqs, refused, srcm, src) = self.attempt(k, op, p, &mut never);
            let r = match r {
                Ok(r) => r,
                Err(p) => fail!("{} with refused memory panicked: {:?}", name, p),
            };
            if refused == 0 {
                self.done(k, &r, exp, name);
                self.check_src(&src, &srcm, true);
                let _ = reqs;
                if failed {
                    self.cx.hit("retried after refusal");
                }
                return;
            }
            failed = true;
            self.cx.hit("refused");
            self.cx.nontrivial = true;
            match r {
                R::Ok | R::Done => fail!("{} reported success although its memory request was refused", name),
                R::Err => {}
                R::Back(v, i) => {
                    if self.mode == Mode::Lossless || self.mode == Mode::Drops {
                        if let Some(b) = exp.back {
                            ckeq!((v, i), b, "{} failed but did not give back the element passed in", name);
                        }
                    }
                }
            }
            if self.mode != Mode::Oom {
                // unchanged, except for an allowed prefix
                let old = self.base();
                let n = self.v.slice().len();
                if exp.prefix && n > old.len() && n <= exp.ok.len() {
                    let e: Vec<_> = exp.ok[..n].to_vec();
                    self.settle(&e, name);
                    self.v_truncate(old.len());
                    self.m.truncate(old.len());
                } else {
                    self.settle(&old, &format!("failed {}", name));
                }
                self.check_src(&src, &srcm, false);
                drop(src);
                self.balance(0, name);
            } else {
                self.resync(name);
            }
        }
        let mut never = NEVER;
        let (r, exp, _, refused, srcm, src) = self.attempt(k, op, Plan::None, &mut never);
        let r = match r {
            Ok(r) => r,
            Err(p) => fail!("{} panicked: {:?}", name, p),
        };
        ck!(refused == 0, "{} asked for more than 1 GiB", name);
        self.done(k, &r, exp, name);
        self.check_src(&src, &srcm, true);
        if failed {
            self.cx.hit("retried after refusal");
        }
    }
    fn v_truncate(&mut self, n: usize) {
        while self.v.slice().len() > n {
            let v = &mut self.v;
            sut(|| drop(v.pop()));
        }
    }
    fn done(&mut self, _k: u64, r: &R, exp: Exp, name: &str) {
        match r {
            R::Ok | R::Done => {}
            R::Err | R::Back(..) => fail!("{} failed although no memory was refused", name),
        }
        self.settle(&exp.ok, name);
        self.balance(0, name);
    }

    /// V04: the operation must not request memory when the result fits
    fn capped(&mut self, k: u64, op: &Op) {
        let name = NAMES[k as usize];
        let (cap0, ptr0) = (self.v.cap(), self.v.slice().as_ptr());
        if k == RESERVE {
            let n = (op[1] % (lim::<T>(self.big) + 1)) as usize;
            let (len0, room0) = (self.m.len(), self.room);
            let (r, exp, reqs, _, _, _) = self.attempt(k, op, Plan::None, &mut NEVER.clone());
            self.done(k, &r.unwrap_or_else(|p| fail!("reserve panicked {:?}", p)), exp, name);
            if let (Some(c0), Some(c1)) = (cap0, self.v.cap()) {
                ck!(c1 - len0 >= n, "capacity {} after reserving {} at length {}", c1, n, len0);
                if c0 - len0 >= n {
                    ckeq!(c1, c0, "satisfied reservation changed the capacity");
                    ckeq!(reqs, 0, "satisfied reservation requested memory");
                    self.cx.hit("satisfied reservation");
                }
            }
            if room0 >= n {
                ckeq!(reqs, 0, "reservation of {} requested memory although {} were reserved", n, room0);
            }
            self.room = room0.max(n);
            // repeat
            let c1 = self.v.cap();
            let p1 = self.v.slice().as_ptr();
            let (r, exp, reqs, _, _, _) = self.attempt(k, op, Plan::None, &mut NEVER.clone());
            self.done(k, &r.unwrap_or_else(|p| fail!("reserve panicked {:?}", p)), exp, name);
            ckeq!(reqs, 0, "repeated reservation of {} requested memory", n);
            ckeq!(self.v.cap(), c1, "repeated reservation changed the capacity");
            ckeq!(self.v.slice().as_ptr(), p1, "repeated reservation moved the elements");
            self.cx.hit("reservation repeated");
            return;
        }
        if k == CONV {
            return;
        }
        if k == COLLECT {
            self.room = 0;
            let (r, exp, reqs, _, _, _) = self.attempt(k, op, Plan::None, &mut NEVER.clone());
            let n = exp.ok.len();
            self.done(k, &r.unwrap_or_else(|p| fail!("{} panicked {:?}", name, p)), exp, name);
            self.log_bound(n, reqs, name);
            return;
        }
        // what does it add?
        let len0 = self.m.len();
        let fits_known = cap0.map(|c| c - len0);
        let mut clos = NEVER;
        // dry computation of the addition happens inside attempt; run unrestricted first if nothing is known
        let (r, exp, reqs, _, _, _) = self.attempt(k, op, Plan::None, &mut clos);
        let add = exp.add;
        let shrunk = exp.ok.len() < len0;
        self.done(k, &r.unwrap_or_else(|p| fail!("{} panicked {:?}", name, p)), exp, name);
        let fits = add <= self.room || fits_known.map_or(false, |f| add <= f);
        if fits {
            ck!(reqs == 0, "{} of {} elements at length {} requested memory although {} had been reserved (capacity {:?})", name, add, len0, self.room, cap0);
            ckeq!(self.v.slice().as_ptr(), ptr0, "{} moved the elements although the result fits", name);
            if cap0.is_some() {
                ckeq!(self.v.cap(), cap0, "{} changed the capacity although the result fits", name);
            }
            if add > 0 {
                self.cx.hit("added within reservation");
                self.cx.nontrivial = true;
            }
        } else {
            ck!(reqs <= 1, "{} made {} memory requests", name, reqs);
        }
        if shrunk {
            self.room += len0 - self.m.len();
        } else {
            self.room = self.room.saturating_sub(add);
        }
    }
    fn log_bound(&mut self, n: usize, reqs: u64, what: &str) {
        let b = 2 * (usize::BITS - n.leading_zeros()) as u64 + 4;
        ck!(reqs <= b, "building {} elements one at a time with {} made {} memory requests", n, what, reqs);
        if n >= 64 {
            self.cx.hit("amortised build");
            self.cx.nontrivial = true;
        }
    }

    fn build(&mut self, op: &Op) {
        let l = lim::<T>(self.big).min(20_000);
        let n = (op[1] % (l + 1)) as usize;
        let how = op[2] % 11;
        // how many elements an addition adds, where it can add several
        let piece = if matches!(how, 0 | 1 | 2 | 9) { 1 } else { 1 + (op[3] / 5 % 3) as usize };
        let n = n - n % piece;
        let start_cap = (op[3] % 5) as usize;
        let mut nv = sut(|| V::with_cap(start_cap)).unwrap_or_else(|_| fail!("with_capacity({}) failed", start_cap));
        let mut reqs = 0;
        #[cfg(feature = "stdio")]
        if how == 10 {
            // the same through the writer
            use std::io::Write;
            let mut w: fc::TryVec<u8> = fc::TryVec::new();
            for i in (0..n).step_by(piece) {
                let s: Vec<u8> = (i..i + piece).map(|j| j as u8).collect();
                arm(Plan::None);
                let ok = sut(|| w.write_all(&s).is_ok());
                reqs += st().cnt;
                ck!(ok, "writing byte {} failed although no memory was refused", i);
            }
            arm(Plan::None);
            ck!(w.len() == n && w.iter().enumerate().all(|(i, b)| *b == i as u8), "{} bytes written in small pieces", n);
            self.log_bound(n, reqs, "write");
            return;
        }
        let mut i = 0;
        while i < n {
            let x = T::mk(i as u64);
            let e = i + piece;
            let some = |from: usize| {
                let mut q: Vec<T> = Vec::with_capacity(piece);
                q.extend((from..e).map(|j| T::mk(j as u64)));
                q
            };
            arm(Plan::None);
            let ok = match how {
                0 => sut(|| nv.push(x).is_ok()),
                1 => sut(|| nv.push_gb(x).is_ok()),
                2 => {
                    let l = nv.slice().len();
                    sut(|| nv.insert(l, x).is_ok())
                }
                3 => {
                    let mut xs = some(i).into_iter();
                    arm(Plan::None);
                    sut(|| nv.resize_with(e, || xs.next().unwrap()).is_ok())
                }
                4 | 10 => {
                    let s = some(i);
                    arm(Plan::None);
                    sut(|| nv.extend_nc(&s).is_ok())
                }
                5 => {
                    let mut o = V::from_vec(some(i));
                    arm(Plan::None);
                    sut(|| nv.append(&mut o).is_ok())
                }
                7 if T::COPY && !V::TV => {
                    let s = some(i);
                    arm(Plan::None);
                    let vm = nv.vec_mut().unwrap();
                    sut(|| T::copy_extend(vm, &s).unwrap().is_ok())
                }
                6 | 8 => match nv.vec_mut() {
                    Some(vm) if how == 8 && T::COPY => sut(|| T::copy_resize(vm, e, x).unwrap().is_ok()),
                    Some(vm) => sut(|| fc::FallibleVec::try_resize_no_copy(vm, e, x).is_ok()),
                    None => {
                        let mut xs = some(i).into_iter();
                        arm(Plan::None);
                        sut(|| nv.resize_with(e, || xs.next().unwrap()).is_ok())
                    }
                },
                _ => {
                    let ok = sut(|| nv.reserve(1).is_ok());
                    let so_far = st().cnt;
                    let ok = sut(|| nv.push(x).is_ok()) && ok;
                    ckeq!(st().cnt, so_far, "memory requests for one element after reserving for one");
                    ok
                }
            };
            reqs += st().cnt;
            ck!(ok, "adding element {} failed although no memory was refused", i);
            i = nv.slice().len();
            ckeq!(i, if matches!(how, 0 | 1 | 2 | 9) || how == 7 && !(T::COPY && !V::TV) { e.min(e - piece + 1) } else { e }, "length after an addition");
        }
        arm(Plan::None);
        self.v = nv;
        self.room = 0;
        self.resync("build");
        ckeq!(self.m.len(), n, "building one at a time");
        for (i, e) in self.m.iter().enumerate() {
            let same = matches!(how, 6 | 8) && !V::TV;
            ckeq!(e.0, T::norm((if same { i - i % piece } else { i }) as u64), "element built one at a time");
        }
        if std::mem::size_of::<T>() == 0 {
            ckeq!(reqs, 0, "zero-sized elements requested memory");
        }
        self.log_bound(n, reqs, ["push", "push_give_back", "insert", "resize_with", "extend", "append", "resize_no_copy", "extend(copy)", "resize(copy)", "reserve and push", "extend"][how as usize]);
    }

    /// V04: room for so many elements that they are never all added
    fn large(&mut self, op: &Op) {
        let sz = std::mem::size_of::<T>();
        let n = ((op[1] & ((1 << 26) - 1)) as usize / sz.max(1)).max(1);
        let k = (op[2] % 9) as usize;
        let few = (op[2] / 9 % 24) as usize;
        let before = st().live_bytes;
        arm(Plan::None);
        let (mut v, len0, name) = match op[3] % 3 {
            0 => (sut(|| V::with_cap(n)).unwrap_or_else(|_| fail!("with_capacity({}) failed", n)), 0, "with_capacity"),
            _ => {
                let mut v = V::new();
                for i in 0..k {
                    let x = T::mk(i as u64);
                    ck!(sut(|| v.push(x).is_ok()), "push failed");
                }
                ck!(sut(|| v.reserve(n).is_ok()), "reserving {} at length {} failed", n, k);
                (v, k, "reserve")
            }
        };
        if sz > 0 {
            let owned = (st().live_bytes - before) as usize;
            ck!(owned / sz >= len0 + n, "{}({}) at length {} of {}-byte elements left {} bytes allocated", name, n, len0, sz, owned);
        }
        if let Some(c) = v.cap() {
            ck!(c - len0 >= n, "{}({}) at length {} gave capacity {}", name, n, len0, c);
        }
        // a piece of it, and reservations that are covered by it
        let p = v.slice().as_ptr();
        let src: Vec<T> = (0..few.min(n)).map(|i| T::mk(i as u64)).collect();
        arm(Plan::All);
        let ok = sut(|| v.reserve(n).is_ok() && v.extend_nc(&src).is_ok() && v.reserve(n - src.len()).is_ok() && v.reserve(0).is_ok());
        let (reqs, _) = (st().cnt, ());
        arm(Plan::None);
        ck!(ok && reqs == 0, "memory requests within {}({}) of {}-byte elements", name, n, sz);
        ckeq!(v.slice().as_ptr(), p, "the elements moved within {}({})", name, n);
        ckeq!(v.slice().len(), len0 + src.len(), "length");
        for (i, x) in v.slice().iter().enumerate() {
            x.check();
            ckeq!(x.val(), T::norm(if i < len0 { i } else { i - len0 } as u64), "element {}", i);
        }
        if sz > 0 && n * sz > 1 << 20 {
            self.cx.hit("room for more than 1 MiB");
            self.cx.nontrivial = true;
        }
        sut(|| drop(v));
        drop(src);
        self.balance(0, "large room");
    }

    fn huge(&mut self, op: &Op) {
        let len = self.m.len();
        let sz = std::mem::size_of::<T>().max(1);
        let r = op[2] % 17;
        let n = match op[1] % 9 {
            0 => usize::MAX,
            1 => usize::MAX - r as usize,
            2 => isize::MAX as usize,
            3 => (isize::MAX as usize / sz).wrapping_add(r as usize).wrapping_sub(8),
            4 => (usize::MAX / sz).wrapping_add(r as usize).wrapping_sub(8),
            5 => (usize::MAX - len).saturating_add(r as usize % 2),
            6 => (1usize << if usize::BITS == 64 { 40 } else { 30 }) / sz + 1,
            7 => usize::MAX / 2 + 1 + r as usize,
            _ if usize::BITS == 64 => 1u64.checked_shl(32 + r as u32).unwrap() as usize,
            _ => usize::MAX / 4 + r as usize,
        }
        .max(1 << if usize::BITS == 64 { 31 } else { 30 });
        let zst = std::mem::size_of::<T>() == 0;
        let which = (op[2] >> 8) % 6;
        let v = &mut self.v;
        arm(Plan::None);
        let name;
        let (res, rep) = match which {
            0 => {
                name = "reserve";
                (sut_catch(|| v.reserve(n).is_ok()), representable::<T>(len, n))
            }
            1 => {
                name = "with_capacity";
                (sut_catch(|| V::with_cap(n).is_ok()), representable::<T>(0, n))
            }
            2 if !zst && n > len => {
                name = "resize_with";
                (sut_catch(|| v.resize_with(n, || T::mk(1)).is_ok()), representable::<T>(n, 0))
            }
            3 if !zst && n > len && !V::TV => {
                name = "resize_no_copy";
                let vm = v.vec_mut().unwrap();
                let x = T::mk(1);
                (sut_catch(|| fc::FallibleVec::try_resize_no_copy(vm, n, x).is_ok()), representable::<T>(n, 0))
            }
            4 if !zst && n > len && !V::TV && T::COPY => {
                name = "resize";
                let vm = v.vec_mut().unwrap();
                let x = T::mk(1);
                (sut_catch(|| T::copy_resize(vm, n, x).unwrap().is_ok()), representable::<T>(n, 0))
            }
            #[cfg(feature = "btree")]
            5 if !zst => {
                name = "try_vec![x; n]";
                let x = T::mk(1);
                (sut_catch(|| fc::try_vec![x; n].is_ok()), representable::<T>(n, 0))
            }
            _ => {
                name = "reserve";
                (sut_catch(|| v.reserve(n).is_ok()), representable::<T>(len, n))
            }
        };
        let refd = st().refused;
        arm(Plan::None);
        match res {
            Err(p) => fail!("{}({}) at length {} panicked: {:?}", name, n, len, p),
            Ok(true) => ck!(rep && refd == 0, "{}({}) at length {} reported success", name, n, len),
            Ok(false) => {
                ck!(!rep || refd > 0, "{}({}) at length {} failed although the size is representable and nothing was refused", name, n, len);
                self.cx.hit("impossible size refused");
                self.cx.nontrivial = true;
            }
        }
        let b = self.base();
        if self.mode == Mode::Oom {
            self.resync(name);
        } else {
            self.settle(&b, name);
        }
        self.balance(0, name);
    }

    fn step(&mut self, op: &Op) {
        self.cx.steps += 1;
        let k = op[0] % NK;
        let l = lim::<T>(self.big) as usize;
        // keep the vector within bounds
        if self.m.len() > 2 * l && !matches!(k, POP | CLEAR | REBUILD | MUTATE | BUILD) {
            return;
        }
        self.cx.hit(NAMES[k as usize]);
        if self.mode == Mode::Drops && matches!(k, PUSH..=EXTNC | COLLECT | CLEAR | CONV) {
            return self.faulty(k, op);
        }
        match k {
            PUSH..=RESERVE | COLLECT | CONV => self.fallible(k, op),
            POP => {
                let v = &mut self.v;
                arm(Plan::All);
                let r = sut(|| v.pop());
                arm(Plan::None);
                let e = self.m.pop();
                let got = r.as_ref().map(|x| (x.val(), x.id()));
                ckeq!(got, e, "pop");
                if e.is_some() {
                    self.room += 1;
                }
                drop(r);
                let b = self.base();
                self.settle(&b, "pop");
            }
            CLEAR => {
                let v = &mut self.v;
                let (c, p) = (v.cap(), v.slice().as_ptr());
                sut(|| v.clear());
                self.room += self.m.len();
                self.m.clear();
                self.settle(&[], "clear");
                if self.mode == Mode::Cap {
                    ckeq!(self.v.cap(), c, "clear changed the capacity");
                    let _ = p;
                }
                self.balance(0, "clear");
            }
            MUTATE => {
                let n = self.m.len();
                if n == 0 {
                    return;
                }
                let i = (op[1] as usize) % n;
                let nv = T::norm(op[2]);
                match op[3] % 3 {
                    0 => {
                        let v = &mut self.v;
                        sut(|| v.slice_mut()[i].set(nv));
                        self.m[i].0 = nv;
                    }
                    1 => {
                        let v = &mut self.v;
                        sut(|| v.slice_mut().reverse());
                        self.m.reverse();
                    }
                    _ => {
                        let j = (op[2] as usize) % n;
                        let v = &mut self.v;
                        sut(|| v.slice_mut().swap(i, j));
                        self.m.swap(i, j);
                    }
                }
                let b = self.base();
                self.settle(&b, "mutation in place");
            }
            INSBEYOND => {
                if V::TV {
                    return;
                }
                let idx = self.m.len() + 1 + (op[1] % 5) as usize;
                let idx = if op[1] % 7 == 0 { usize::MAX } else { idx };
                let x = T::mk(op[2]);
                let v = &mut self.v;
                match sut_catch(|| v.insert(idx, x).is_ok()) {
                    Err(Pn::Other(_)) => {}
                    r => fail!("insert at {} with length {} gave {:?} instead of a panic", idx, self.m.len(), r),
                }
                let b = self.base();
                self.settle(&b, "insert beyond the end");
                self.balance(0, "insert beyond the end");
            }
            REBUILD => {
                let n = (op[1] % 40) as usize;
                let spare = (op[2] % 4) as usize;
                let mut nv: Vec<T> = Vec::with_capacity(n + spare);
                for i in 0..n {
                    nv.push(T::mk(mix(op[2].wrapping_add(i as u64))));
                }
                let m: Vec<_> = nv.iter().map(|x| (x.val(), Some(x.id()))).collect();
                arm(Plan::All);
                let nv = sut(|| V::from_vec(nv));
                arm(Plan::None);
                self.v = nv;
                self.room = spare;
                self.settle(&m, "conversion from a vector");
            }
            WITHCAP => {
                let n = (op[1] % (lim::<T>(self.big) + 1)) as usize;
                let plan = if self.mode == Mode::Oom && op[2] % 2 == 0 { Plan::All } else { Plan::None };
                arm(plan);
                let r = sut(|| V::with_cap(n));
                let (reqs, refd) = (st().cnt, st().refused);
                arm(Plan::None);
                ckeq!(r.is_ok(), refd == 0, "with_capacity({}) success", n);
                if refd > 0 {
                    self.cx.hit("refused");
                    self.cx.nontrivial = true;
                }
                if let Ok(nv) = r {
                    if n == 0 || std::mem::size_of::<T>() == 0 {
                        ckeq!(reqs, 0, "with_capacity({}) of a {}-byte type requested memory", n, std::mem::size_of::<T>());
                    }
                    self.v = nv;
                    self.settle(&[], "with_capacity");
                    self.room = n;
                    if let Some(c) = self.v.cap() {
                        ck!(c >= n, "with_capacity({}) has capacity {}", n, c);
                    }
                }
            }
            HUGE => self.huge(op),
            LARGE => self.large(op),
            _ => self.build(op),
        }
        if matches!(self.mode, Mode::Model) && self.m.len() >= 2 && k <= EXTNC {
            self.cx.add("elements", self.m.len() as u64);
            self.cx.nontrivial = true;
        }
    }

    /// V06: refusals and failing / panicking callbacks
    fn faulty(&mut self, k: u64, op: &Op) {
        let name = NAMES[k as usize];
        let f = op[3];
        let kk = (f >> 8) % 12;
        let mut clos = NEVER;
        let mut plan = Plan::None;
        disarm();
        match f % 7 {
            0 => plan = Plan::Once(kk % 3),
            1 => cb().clone_fail = kk,
            2 => cb().clone_panic = kk,
            3 => clos = kk,
            4 => cb().drop_panic = kk,
            5 => plan = Plan::All,
            _ => {}
        }
        let before: std::collections::HashSet<u64> = self.m.iter().map(|x| x.1).collect();
        let old = self.m.clone();
        if k == CLEAR {
            let v = &mut self.v;
            let r = sut_catch(|| v.clear());
            disarm();
            if let Err(p) = r {
                match p {
                    Pn::Inj(_) => {
                        self.leak_ok = true;
                        self.cx.hit("panicking drop");
                        self.cx.nontrivial = true;
                    }
                    p => fail!("clear panicked: {:?}", p),
                }
            }
            self.resync("clear");
            return self.balance(0, "clear");
        }
        let (r, exp, _reqs, refused, _srcm, src) = self.attempt(k, op, plan, &mut clos);
        let fired = cb().fired;
        disarm();
        drop(src);
        match r {
            Ok(R::Ok) | Ok(R::Done) => {
                ck!(refused == 0, "{} reported success although memory was refused", name);
                self.settle(&exp.ok, name);
            }
            Ok(e) => {
                ck!(refused > 0 || fired > 0, "{} failed ({:?}) without cause", name, e);
                self.cx.hit("error path");
                self.cx.nontrivial = true;
                self.resync(name);
                if !exp.prefix {
                    ckeq!(self.m, old, "{} failed but changed the vector", name);
                }
            }
            Err(Pn::Inj(w)) => {
                self.cx.hit(match w {
                    "clone" => "panicking clone",
                    "closure" => "panicking closure or iterator",
                    _ => "panicking drop",
                });
                self.cx.nontrivial = true;
                if w == "drop" {
                    self.leak_ok = true;
                }
                self.resync(name);
                for e in &self.m {
                    if e.1 != 0 && !before.contains(&e.1) && !exp.ok.iter().any(|x| x.0 == e.0) {
                        fail!("{} panicked and left an element {} that was never there", name, e.0);
                    }
                }
            }
            Err(p) => fail!("{} panicked: {:?}", name, p),
        }
        self.balance(0, name);
    }
}

struct Lie<F> {
    n: u64,
    hint: u64,
    next: F,
}
impl<T, F: FnMut() -> T> Iterator for Lie<F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.n == 0 {
            // one that is not fused: asked again, it would go on
            if self.hint >= 4 {
                self.n = 1000;
            }
            None
        } else {
            self.n -= 1;
            Some((self.next)())
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.n as usize;
        match self.hint % 4 {
            0 => (0, None),
            1 => (n, Some(n)),
            2 => (n / 3, Some(n / 2)),
            _ => (n + n / 2 + 3, None),
        }
    }
}

/// V02: vectors of zero-sized elements with lengths near the top of the range
fn huge_zst(c: &Case, cx: &mut Cx) {
    use fc::{FallibleVec, TryVec};
    for op in &c.ops {
        let len = usize::MAX - (op[1] % 6) as usize;
        let n = (op[2] % 9) as usize;
        let mk = |l: usize| {
            let mut v: Vec<U0> = Vec::new();
            unsafe { v.set_len(l) };
            v
        };
        let mut v = mk(len);
        let small: Vec<U0> = mk(n);
        let rep = len.checked_add(n).is_some();
        let rep1 = len.checked_add(1).is_some();
        let mut want_len = len;
        let (name, r, rep) = match op[0] % 10 {
            0 => {
                want_len = len.wrapping_add(1);
                ("push", sut_catch(|| v.try_push(U0).is_ok()), rep1)
            }
            1 => {
                want_len = len.wrapping_add(1);
                ("push_give_back", sut_catch(|| v.try_push_give_back(U0).is_ok()), rep1)
            }
            2 => {
                want_len = len.wrapping_add(1);
                ("insert", sut_catch(|| v.try_insert(3, U0).is_ok()), rep1)
            }
            3 => {
                want_len = len.wrapping_add(n);
                let mut s = small;
                ("append", sut_catch(|| v.try_append(&mut s).is_ok()), rep)
            }
            4 => {
                want_len = len.wrapping_add(n);
                ("extend_from_slice", sut_catch(|| v.try_extend_from_slice(&small).is_ok()), rep)
            }
            5 => {
                want_len = len.wrapping_add(n);
                ("extend_from_slice_no_copy", sut_catch(|| v.try_extend_from_slice_no_copy(&small).is_ok()), rep)
            }
            6 => ("reserve", sut_catch(|| FallibleVec::try_reserve(&mut v, n).is_ok()), rep),
            7 => {
                let m = len.saturating_add(n);
                want_len = m;
                ("resize_with", sut_catch(|| v.try_resize_with(m, || U0).is_ok()), true)
            }
            8 => {
                let m = len.saturating_add(n);
                want_len = m;
                ("resize_no_copy", sut_catch(|| v.try_resize_no_copy(m, U0).is_ok()), true)
            }
            _ => {
                // concatenation whose total length cannot be represented (never one that can: it would take forever)
                let extra = usize::MAX - len + 1 + n;
                let parts: Vec<TryVec<U0>> = vec![mk(len).into(), mk(extra).into()];
                let tv: TryVec<TryVec<U0>> = parts.into();
                ("concat", sut_catch(|| tv.concat().is_ok()), false)
            }
        };
        cx.steps += 1;
        cx.hit("zero-sized length near usize::MAX");
        match r {
            Err(p) => fail!("{} at length {} of zero-sized elements panicked: {:?}", name, len, p),
            Ok(ok) => {
                ckeq!(ok, rep, "{} of {} at length {} of zero-sized elements: success", name, n, len);
                if !ok {
                    cx.nontrivial = true;
                    want_len = len;
                }
                ckeq!(v.len(), want_len, "length after {} ({} elements) at length {} of zero-sized elements", name, n, len);
            }
        }
    }
}

struct Run<'a, 'b> {
    c: &'a Case,
    cx: &'b mut Cx,
    mode: Mode,
}
impl<'a, 'b> ElemFn for Run<'a, 'b> {
    fn call<T: Elem>(self) {
        if self.c.hv(1) % 2 == 0 {
            go::<T, Vec<T>>(self.c, self.cx, self.mode)
        } else {
            go::<T, fc::TryVec<T>>(self.c, self.cx, self.mode)
        }
    }
}
fn go<T: Elem, V: VL<T>>(c: &Case, cx: &mut Cx, mode: Mode) {
    let v = sut(|| V::new());
    let mut w = W::<T, V> { v, m: vec![], cx, mode, leak_ok: false, room: 0, big: c.hv(3) == 1, _p: PhantomData };
    for op in &c.ops {
        w.step(op);
    }
    let leak_ok = w.leak_ok;
    let v = w.v;
    sut(move || drop(v));
    if mode == Mode::Drops || mode == Mode::Lossless {
        let (a, z) = live_elems();
        ck!(leak_ok || a + z == 0, "{} elements still exist after the vector was dropped", a + z);
        let (b, by) = live();
        ck!(leak_ok || b == 0, "{} blocks ({} bytes) never returned", b, by);
    }
}

struct VP {
    id: &'static str,
    mode: Mode,
    rule: &'static str,
    w: [u64; NK as usize],
}

impl VP {
    fn giant(&self) -> Option<giant::Giant> {
        match self.mode {
            Mode::Oom | Mode::Lossless => Some(giant::Giant::Keep),
            Mode::Drops => Some(giant::Giant::Life),
            Mode::Model | Mode::Cap => None,
        }
    }
}
impl Prop for VP {
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn gen(&self, r: &mut Rng) -> Case {
        if self.giant().is_some() && r.chance(1, 800) {
            return giant::gen(r, self.giant().unwrap(), &[0, 1]);
        }
        let mut c = Case::default();
        let hz = self.mode == Mode::Oom && r.chance(1, 12);
        let ty = r.below(NELEM);
        c.h = vec![ty, r.below(2), hz as u64];
        let w = r.swarm(&self.w, &[0]);
        let big = r.chance(1, 500);
        c.h.push(big as u64);
        let (nops, max) = match r.below(10) {
            _ if big => (r.range(1, 6), 24 * 70_000),
            0..=3 => (r.range(1, 12), 12),
            4..=7 => (r.range(5, 60), 60),
            8 => (r.range(20, 200), 900),
            _ => (r.range(3, 25), 70_000),
        };
        for _ in 0..nops {
            let k = r.weighted(&w) as u64;
            let op = match k {
                HUGE => [k, r.next(), r.next() >> 8, 0],
                LARGE => [k, 1 << r.range(12, 26) | r.next() >> 42, r.next() >> 40, r.below(3)],
                PUSH | PUSHGB => [k, r.next() >> r.below(64), 0, r.next() >> r.below(50)],
                INSERT => [k, r.next() >> r.below(64), r.next() >> 16, r.next() >> 48],
                RESIZE | RESIZEW | RESIZENC => [k, r.size(max), r.below(8), r.next() >> 32],
                REBUILD => [k, r.size(40), r.below(1000), 0],
                MUTATE => [k, r.below(1 << 20), r.next() >> r.below(60), r.below(3)],
                INSBEYOND => [k, r.below(40), r.below(100), 0],
                _ => [k, r.size(max), r.below(10_000), r.next() >> 40],
            };
            c.ops.push(op);
        }
        c
    }
    fn run(&self, c: &Case, cx: &mut Cx) {
        if giant::is(c) {
            return giant::run(self.giant().unwrap(), c, cx);
        }
        if self.mode == Mode::Oom && c.hv(2) == 1 {
            return huge_zst(c, cx);
        }
        // in capacity histories no element may request memory of its own
        let ty = if self.mode == Mode::Cap && c.hv(0) % NELEM == 5 { 0 } else { c.hv(0) };
        with_elem(ty, Run { c, cx, mode: self.mode });
    }
    fn desc(&self, c: &Case) -> String {
        if giant::is(c) {
            return giant::desc(c);
        }
        if self.mode == Mode::Oom && c.hv(2) == 1 {
            return format!("zero-sized elements, lengths near usize::MAX; {} operations {:?}", c.ops.len(), c.ops);
        }
        let mut s = format!("{} of {}:", if c.hv(1) % 2 == 0 { "Vec" } else { "TryVec" }, elem_name(c.hv(0)));
        for o in &c.ops {
            s += &format!(" {}({},{},{})", NAMES[(o[0] % NK) as usize], o[1], o[2], o[3]);
        }
        s
    }
}

// ---------------------------------------------------------------- V05

struct V05;
struct C5<'a, 'b>(&'a Case, &'b mut Cx);
impl<'a, 'b> ElemFn for C5<'a, 'b> {
    fn call<T: Elem>(self) {
        conv::<T>(self.0, self.1)
    }
}

fn mkvec<T: Elem>(seed: u64, n: usize, dom: u64) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(T::mk(mix(seed.wrapping_add(i as u64)) % dom.max(1)));
    }
    v
}
fn vals<T: Elem>(s: &[T]) -> Vec<u64> {
    s.iter()
        .map(|x| {
            x.check();
            x.val()
        })
        .collect()
}
fn ids<T: Elem>(s: &[T]) -> Vec<u64> {
    s.iter().map(|x| x.id()).collect()
}

fn conv<T: Elem>(c: &Case, cx: &mut Cx) {
    use fc::{TryCollect, TryFromIterator, TryVec};
    use std::convert::TryFrom;
    let l = lim::<T>(c.hv(1) == 1);
    for op in &c.ops {
        cx.steps += 1;
        let n = (op[1] % (l + 1)) as usize;
        let dom = [1, 2, 3, 1 << 16, 1 << 40][(op[2] % 5) as usize];
        let src: Vec<T> = mkvec(op[2], n, dom);
        let want = vals(&src);
        let wid = ids(&src);
        if n > 1 {
            cx.nontrivial = true;
        }
        match op[0] % 17 {
            0 => {
                cx.hit("try_collect");
                let mut it = src.into_iter();
                let mut calls = 0u64;
                let lie = Lie { n: n as u64, hint: op[3] / 8 % 8, next: || {
                    calls += 1;
                    it.next().unwrap()
                } };
                let v: Vec<T> = match op[3] / 4 % 2 {
                    0 => sut(|| lie.try_collect()).unwrap_or_else(|e| fail!("try_collect failed: {:?}", e)),
                    _ => sut(|| Vec::try_from_iterator(lie)).unwrap_or_else(|e| fail!("try_from_iterator failed: {:?}", e)),
                };
                ckeq!(vals(&v), want, "collected values");
                ckeq!(ids(&v), wid, "collected elements (identity)");
                ckeq!(calls, n as u64, "times the iterator was advanced");
            }
            1 => {
                cx.hit("collect of other iterators");
                // chained / filtered / fused-less iterators
                let k = (op[3] % 7 + 1) as usize;
                let want: Vec<u64> = want.iter().copied().filter(|v| v % k as u64 != 0).chain([1, 2]).map(T::norm).collect();
                let it = src.into_iter().filter(|x| x.val() % k as u64 != 0).chain([T::mk(1), T::mk(2)]);
                let v: Vec<T> = sut(|| it.try_collect()).unwrap_or_else(|e| fail!("try_collect failed: {:?}", e));
                ckeq!(vals(&v), want, "collected values");
            }
            2 => {
                cx.hit("from Vec");
                let p = src.as_ptr();
                arm(Plan::All);
                let tv = sut(|| TryVec::from(src));
                ckeq!(st().cnt, 0, "conversion from a vector requested memory");
                arm(Plan::None);
                ckeq!(vals(tv.as_slice()), want, "converted values");
                ckeq!(ids(tv.as_slice()), wid, "converted elements");
                ckeq!(tv.as_slice().as_ptr(), p, "storage after conversion from a vector");
            }
            3 => {
                cx.hit("from slice");
                let tv = sut(|| TryVec::try_from(&src[..])).unwrap_or_else(|e| fail!("conversion from a slice failed: {:?}", e));
                ckeq!(vals(tv.as_slice()), want, "values from slice");
                ckeq!(ids(&src), wid, "source slice");
            }
            4 => {
                cx.hit("from str");
                let mut s = String::new();
                for i in 0..n.min(3000) {
                    s.push(['a', 'é', '漢', '\u{1F600}', '\0'][(mix(op[2] + i as u64) % 5) as usize]);
                }
                let tv = sut(|| TryVec::<u8>::try_from(s.as_str())).unwrap_or_else(|e| fail!("conversion from a string failed: {:?}", e));
                ckeq!(tv.as_slice(), s.as_bytes(), "bytes from string");
                ck!(sut(|| tv == s.as_str()), "try-vector of bytes differs from its own string");
                let mut s2 = s.clone();
                match op[3] % 8 {
                    0 => s2.push('x'),
                    // lengths that agree in their low bits
                    3 => s2.push_str(&"x".repeat(256)),
                    4 => s2.push_str(&"a".repeat(if op[3] % 5 == 0 { 65536 } else { 512 })),
                    5 if s2.len() > 256 && s2.is_char_boundary(s2.len() - 256) => s2.truncate(s2.len() - 256),
                    6 => s2.insert(s2.char_indices().map(|x| x.0).nth((op[3] / 8) as usize % (n + 1)).unwrap_or(0), 'q'),
                    7 if s2.len() > 1 => {
                        // one character changed, anywhere
                        let at = s2.char_indices().map(|x| x.0).nth((op[3] / 8) as usize % n.min(3000)).unwrap_or(0);
                        let c = s2.remove(at);
                        s2.insert(at, if c == 'a' { 'A' } else { 'a' });
                    }
                    1 => {
                        if s2.pop().is_none() {
                            s2.push('y')
                        }
                    }
                    _ => {
                        s2 = s2.replacen('a', "b", 1);
                        if s2 == s {
                            s2.push('z')
                        }
                    }
                }
                ck!(!sut(|| tv == s2.as_str()), "try-vector of bytes equals a different string {:?} vs {:?}", s, s2);
                // and the other way round (the vector may be the longer one)
                let tv2 = sut(|| TryVec::<u8>::try_from(s2.as_str())).unwrap_or_else(|e| fail!("conversion from a string failed: {:?}", e));
                ck!(sut(|| tv2 == s2.as_str()), "try-vector of bytes differs from its own string");
                ck!(!sut(|| tv2 == s.as_str()), "try-vector of bytes equals a different string {:?} vs {:?}", s2, s);
                let r: &[u8] = sut(|| tv.as_ref());
                ckeq!(r, s.as_bytes(), "as_ref");
            }
            5 | 6 => {
                cx.hit("concat");
                let parts = (op[3] % 9) as usize;
                let mut vv: Vec<TryVec<T>> = vec![];
                let mut all = vec![];
                for j in 0..parts {
                    let pn = match mix(op[2] + j as u64) % 4 {
                        0 => 0,
                        1 => 1,
                        _ => (mix(op[3] + j as u64) % (n as u64 / 4 + 2)) as usize,
                    };
                    let p: Vec<T> = mkvec(op[2] ^ j as u64, pn, dom);
                    all.extend(vals(&p));
                    vv.push(p.into());
                }
                let tv: TryVec<TryVec<T>> = vv.into();
                arm(Plan::None);
                let r = sut(|| tv.concat()).unwrap_or_else(|e| fail!("concat failed: {:?}", e));
                ckeq!(vals(r.as_slice()), all, "concatenated values");
                // operand unchanged
                let again: Vec<u64> = tv.iter().flat_map(|v| vals(v.as_slice())).collect();
                ckeq!(again, all, "operand of concat");
            }
            7 => {
                cx.hit("consuming iteration");
                let steps = (op[3] % (n as u64 + 2)) as usize;
                let tv: TryVec<T> = src.into();
                let mut it = sut(|| tv.into_iter());
                for i in 0..steps {
                    ckeq!(it.size_hint(), (n.saturating_sub(i), Some(n.saturating_sub(i))), "size hint of consuming iteration");
                    let x = sut(|| it.next());
                    ckeq!(x.as_ref().map(|x| (x.val(), x.id())), want.get(i).map(|&v| (v, wid[i])), "consuming iteration step {}", i);
                }
                let rest: Vec<T> = sut(|| it.collect());
                ckeq!(vals(&rest), want[steps.min(n)..].to_vec(), "rest of consuming iteration");
            }
            8 => {
                cx.hit("borrowing iteration");
                let tv: TryVec<T> = src.into();
                let mut it = tv.iter();
                for i in 0..=n {
                    ckeq!(it.size_hint(), (n - i, Some(n - i)), "size hint of iteration");
                    let x = sut(|| it.next());
                    ckeq!(x.map(|x| (x.val(), x.id())), want.get(i).map(|&v| (v, wid[i])), "iteration step {}", i);
                }
                let w2: Vec<u64> = sut(|| (&tv).into_iter()).map(|x| x.val()).collect();
                ckeq!(w2, want, "iteration by reference");
                ckeq!(vals(&tv[..]), want, "deref");
                ckeq!(tv.is_empty(), n == 0, "is_empty");
                ckeq!(tv.len(), n, "len");
            }
            9 => {
                cx.hit("mutable iteration");
                let mut tv: TryVec<T> = src.into();
                let m = (op[3] % 5 + 1) as usize;
                let mut exp = want.clone();
                {
                    let mut it = tv.iter_mut();
                    for i in 0..=n {
                        ckeq!(it.size_hint(), (n - i, Some(n - i)), "size hint of mutable iteration");
                        match sut(|| it.next()) {
                            Some(x) => {
                                x.check();
                                ckeq!(Some(x.val()), exp.get(i).copied(), "mutable iteration step {}", i);
                                if i % m == 0 {
                                    let nv = T::norm(x.val() ^ 0x55);
                                    x.set(nv);
                                    exp[i] = nv;
                                }
                            }
                            None => ckeq!(i, n, "mutable iteration ended"),
                        }
                    }
                }
                ckeq!(vals(tv.as_slice()), exp, "values after mutable iteration");
                if n > 0 {
                    let i = (op[3] as usize) % n;
                    let nv = T::norm(exp[i].wrapping_add(1));
                    tv[i].set(nv);
                    exp[i] = nv;
                    ckeq!(vals(tv.as_mut_slice()), exp, "values after mutation through deref");
                }
            }
            10 => {
                cx.hit("equality");
                let tv: TryVec<T> = src.into();
                // a variant of the same contents
                let mut o: Vec<T> = mkvec(op[2], n, dom);
                match op[3] % 5 {
                    0 => {}
                    1 => {
                        o.pop();
                    }
                    2 => o.push(T::mk(1)),
                    3 if n > 0 => {
                        let i = (op[3] / 5) as usize % n;
                        let nv = T::norm(o[i].val() ^ 1);
                        o[i].set(nv)
                    }
                    _ if n > 0 => {
                        let i = (op[3] / 5) as usize % n;
                        let j = (op[3] / 50) as usize % n;
                        o.swap(i, j)
                    }
                    _ => {}
                }
                let eq = vals(&o) == want;
                ckeq!(sut(|| tv == o), eq, "equality with a vector");
                ckeq!(sut(|| tv == &o[..]), eq, "equality with a slice");
                ckeq!(sut(|| tv != o), !eq, "inequality with a vector");
                let ov: TryVec<T> = o.into();
                ckeq!(sut(|| tv == ov), eq, "equality with a try-vector");
                ckeq!(sut(|| ov == tv), eq, "equality with a try-vector");
                ckeq!(sut(|| ov != tv), !eq, "inequality with a try-vector");
                cx.hit(if eq { "equal" } else { "unequal" });
                // parts of its own storage
                let i = (op[3] / 7) as usize % (n + 1);
                let own = tv.as_slice();
                ckeq!(sut(|| tv == &own[..i]), i == n, "equality with the first {} of its own {} elements", i, n);
                ckeq!(sut(|| tv == &own[i..]), i == 0, "equality with the last {} of its own {} elements", n - i, n);
                #[allow(clippy::eq_op)]
                {
                    ck!(sut(|| tv == tv), "equality with itself");
                }
            }
            15 | 16 => {
                cx.hit("iterators driven by every method");
                let all: Vec<(u64, u64)> = want.iter().copied().zip(wid.iter().copied()).collect();
                let mut tv: TryVec<T> = src.into();
                let seed = mix(op[3] ^ op[2] << 20);
                match op[3] % 5 {
                    0 | 1 => iters::methods(cx, tv.iter(), &all, &mut |x| (x.val(), x.id()), true, seed, "iteration"),
                    2 | 3 => iters::methods(cx, tv.iter_mut(), &all, &mut |x| (x.val(), x.id()), true, seed, "mutable iteration"),
                    4 if op[3] % 2 == 0 => iters::methods(cx, sut(|| (&tv).into_iter()), &all, &mut |x| (x.val(), x.id()), true, seed, "iteration by reference"),
                    _ => iters::methods(cx, sut(|| tv.into_iter()), &all, &mut |x| (x.val(), x.id()), true, seed, "consuming iteration"),
                }
            }
            13 => {
                // equality is the elements' own, and a partial one at that
                cx.hit("float equality");
                let f = |s: u64| -> Vec<f64> { (0..n.min(300)).map(|i| [0.0, -0.0, 1.5, f64::NAN, f64::INFINITY][(mix(s + i as u64) % if op[3] % 3 == 0 { 5 } else { 3 }) as usize]).collect() };
                let a = f(op[2]);
                let b = if op[3] % 2 == 0 { a.clone() } else { f(op[2] + 1) };
                let (e1, e2) = (a == b, a == a.clone());
                let p = a.clone();
                let tv: TryVec<f64> = a.into();
                ckeq!(sut(|| tv == b), e1, "equality of floats with a vector: {:?} {:?}", p, b);
                ckeq!(sut(|| tv == &b[..]), e1, "equality of floats with a slice: {:?} {:?}", p, b);
                ckeq!(sut(|| tv == tv.as_slice()), e2, "equality of floats with their own slice: {:?}", p);
                #[allow(clippy::eq_op)]
                {
                    ckeq!(sut(|| tv == tv), e2, "equality of floats with themselves: {:?}", p);
                }
                let bv: TryVec<f64> = b.into();
                ckeq!(sut(|| tv == bv), e1, "equality of floats with a try-vector: {:?}", p);
                ckeq!(format!("{:?}", tv), format!("{:?}", p), "debug output of floats");
            }
            11 => {
                cx.hit("debug");
                let a = format!("{:?}", src);
                let b = format!("{:#?}", src);
                let tv: TryVec<T> = src.into();
                ckeq!(format!("{:?}", tv), a, "debug output");
                ckeq!(format!("{:#?}", tv), b, "pretty debug output");
            }
            12 => {
                cx.hit("try_vec!");
                #[cfg(feature = "btree")]
                {
                    let xv = T::norm(op[2]);
                    let x = T::mk(xv);
                    let v = sut(|| fc::try_vec![x; n]).unwrap_or_else(|e| fail!("try_vec![x; {}] failed: {:?}", n, e));
                    ckeq!(vals(&v), vec![xv; n], "try_vec![x; n]");
                    let x = T::mk(xv);
                    let v = sut(|| fc::vec::try_from_elem(x, n)).unwrap_or_else(|e| fail!("try_from_elem failed: {:?}", e));
                    ckeq!(vals(&v), vec![xv; n], "try_from_elem");
                    let f = |i: u64| T::mk(op[2].wrapping_add(i));
                    let g = |i: u64| T::norm(op[2].wrapping_add(i));
                    let (a, b, c2, d, e) = (f(0), f(1), f(2), f(3), f(4));
                    match op[3] % 4 {
                        0 => {
                            let v = sut(|| fc::try_vec![a]).unwrap_or_else(|e| fail!("try_vec![..] failed: {:?}", e));
                            ckeq!(vals(&v), vec![g(0)], "try_vec! of one");
                        }
                        1 => {
                            let v = sut(|| fc::try_vec![a, b, c2]).unwrap_or_else(|e| fail!("try_vec![..] failed: {:?}", e));
                            ckeq!(vals(&v), vec![g(0), g(1), g(2)], "try_vec! of three");
                        }
                        2 => {
                            let v = sut(|| fc::try_vec![a, b, c2, d, e,]).unwrap_or_else(|e| fail!("try_vec![..] failed: {:?}", e));
                            ckeq!(vals(&v), vec![g(0), g(1), g(2), g(3), g(4)], "try_vec! of five, trailing comma");
                        }
                        _ => {
                            let inner = (n % 30) as usize;
                            let v: Vec<Vec<T>> = sut(|| -> TRes<_> { fc::try_vec![fc::try_vec![a; inner]?; 7] }).unwrap_or_else(|e| fail!("try_vec![try_vec!] failed: {:?}", e));
                            ckeq!(v.iter().map(|x| vals(x)).collect::<Vec<_>>(), vec![vec![g(0); inner]; 7], "nested try_vec!");
                        }
                    }
                }
            }
            _ => {
                cx.hit("clone of a try-vector");
                use fc::TryClone;
                let tv: TryVec<T> = src.into();
                let c2 = sut(|| tv.try_clone()).unwrap_or_else(|e| fail!("try_clone failed: {:?}", e));
                ckeq!(vals(c2.as_slice()), want, "values of the clone");
                ckeq!(ids(tv.as_slice()), wid, "original of the clone");
                let v2: Vec<T> = c2.into_iter().collect();
                ckeq!(vals(&v2), want, "values out of the clone");
            }
        }
        check_errs();
    }
    let (a, z) = live_elems();
    ckeq!(a + z, 0, "elements still existing at the end");
}

impl Prop for V05 {
    fn id(&self) -> &'static str {
        "V05"
    }
    fn rule(&self) -> &'static str {
        "case = element type and 1-12 conversions (collect with true/false/absent size hints, From<Vec>, TryFrom slice/str, concat, try_vec!, iteration, equality against variants, debug) of random contents; non-trivial: some source has at least two elements"
    }
    fn gen(&self, r: &mut Rng) -> Case {
        let mut c = Case::default();
        c.h = vec![r.below(NELEM)];
        let big = r.chance(1, 400);
        c.h.push(big as u64);
        let max = if big { 24 * 70_000 } else { r.pick(&[4, 12, 40, 300, 70_000]) };
        let n = if max > 1000 { r.range(1, 3) } else { r.range(1, 12) };
        for _ in 0..n {
            c.ops.push([r.below(17), r.size(max), r.below(100_000), r.below(1_000_000)]);
        }
        c
    }
    fn run(&self, c: &Case, cx: &mut Cx) {
        with_elem(c.hv(0), C5(c, cx));
    }
    fn desc(&self, c: &Case) -> String {
        format!("{}: conversions [kind, length, seed, variant] {:?}", elem_name(c.hv(0)), c.ops)
    }
}

fn main() {
    //         push pgb ins app rsz rsw rnc ext enc rsv pop clr mut beyond reb wcap huge build coll conv large
    let m = [10, 5, 12, 6, 4, 5, 6, 5, 7, 3, 6, 1, 4, 2, 2, 1, 0, 0, 2, 2, 0];
    let o = [8, 6, 8, 7, 5, 6, 7, 6, 8, 6, 4, 1, 0, 0, 6, 3, 8, 0, 4, 8, 0];
    let l = [8, 8, 10, 8, 5, 6, 7, 6, 8, 4, 3, 1, 1, 0, 8, 1, 2, 0, 3, 3, 0];
    let cp = [8, 6, 8, 7, 5, 6, 7, 6, 8, 12, 4, 2, 0, 0, 3, 6, 0, 3, 1, 0, 2];
    let d = [6, 5, 8, 7, 3, 8, 12, 3, 10, 2, 3, 3, 0, 1, 4, 1, 0, 0, 6, 8, 0];
    let v01 = VP { id: "V01", mode: Mode::Model, w: m, rule: "case = element type, plain or try-vector, history of 1-200 operations; non-trivial: some mutating operation ran on a vector of at least two elements" };
    let v02 = VP { id: "V02", mode: Mode::Oom, w: o, rule: "case = element type, wrapper, history where each fallible operation is repeated with its 1st, 2nd, ... (or every) memory request refused, impossible sizes, zero-sized vectors near the maximal length; non-trivial: at least one request was refused or size rejected" };
    let v03 = VP { id: "V03", mode: Mode::Lossless, w: l, rule: "as V02, contents compared by element identity around every refusal and the operation repeated with memory; non-trivial: at least one request was refused" };
    let v04 = VP { id: "V04", mode: Mode::Cap, w: cp, rule: "case = element type, wrapper, history of reservations, capacity constructions, additions and one-at-a-time builds; non-trivial: elements were added within a reservation, or at least 64 were added one at a time" };
    let v06 = VP { id: "V06", mode: Mode::Drops, w: d, rule: "case = element type, wrapper, history where operations meet a refused request, a failing or panicking clone, a panicking closure/iterator or a panicking drop; non-trivial: at least one such event happened" };
    main_with(&[&v01, &v02, &v03, &v04, &V05, &v06]);
}
