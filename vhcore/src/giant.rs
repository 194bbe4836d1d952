//! Very large vectors and hash maps: sizes the histories of the other machines do not reach. Models: lists and std's BTreeMap.
use crate::vecs::*;
use crate::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Giant {
    NoMem,
    Clone,
    CloneFail,
    Errs,
    Keep,
    Life,
}

const KINDS: [&str; 6] = ["grow", "grow under refusals", "shrink", "use without memory", "clone", "clone under refusals"];
const NKIND: u64 = 6;
const HKINDS: [&str; 6] = ["grow", "insert under refusals", "remove", "use without memory", "clone", "clone under refusals"];

/// header: 6 what tall maps are made of, 7 area + 1, 8 layout
pub fn gen(r: &mut Rng, g: Giant, areas: &[u64]) -> Case {
    let area = r.pick(areas);
    let mut h = vec![0, 0, 0, 0, 0, 0, r.below(2), 1 + area, r.below(64)];
    if matches!(g, Giant::CloneFail | Giant::Life) {
        h[6] = 1;
        if r.chance(2, 3) {
            h[8] = r.pick(&[0, 2, 3, 5]);
        }
    }
    #[cfg(feature = "btree")]
    if area >= 2 {
        return Case { h, ops: tall::gen(r, tall_of(g)) };
    }
    let w: [u64; 6] = match g {
        //             gro ref shr use cln cfl
        Giant::NoMem => [5, 0, 2, 6, 1, 0],
        Giant::Clone => [4, 0, 2, 0, 7, 0],
        Giant::CloneFail => [4, 0, 2, 0, 0, 7],
        Giant::Errs => [3, 7, 2, 0, 0, 3],
        Giant::Keep => [2, 7, 2, 1, 0, 1],
        Giant::Life => [3, 4, 3, 2, 2, 3],
    };
    let mut ops = vec![[0, size(r), r.below(8), r.below(1 << 20)]];
    for _ in 0..r.range(2, 5) {
        let k = r.weighted(&w) as u64;
        ops.push([k + 32 * r.below(4) / 2, size(r), r.next() >> 40, r.next() >> 24]);
        if k % 32 == 0 && r.chance(1, 3) {
            ops.push([3, size(r), r.next() >> 40, r.next() >> 24]);
        }
    }
    Case { h, ops }
}
fn size(r: &mut Rng) -> u64 {
    let top = 1 << r.range(10, 17);
    r.range(top / 2, top)
}
#[cfg(feature = "btree")]
fn tall_of(g: Giant) -> tall::Tall {
    match g {
        Giant::NoMem => tall::Tall::NoMem,
        Giant::Clone => tall::Tall::Clone,
        Giant::CloneFail => tall::Tall::CloneFail,
        Giant::Errs => tall::Tall::Errs,
        Giant::Keep => tall::Tall::Oom,
        Giant::Life => tall::Tall::Drops,
    }
}
pub fn is(c: &Case) -> bool {
    c.hv(7) > 0
}
fn area(c: &Case) -> u64 {
    (c.hv(7) - 1) % 4
}
pub fn desc(c: &Case) -> String {
    let a = area(c);
    #[cfg(feature = "btree")]
    if a >= 2 {
        return format!("large maps: {}", c.ops.iter().map(tall::text).collect::<Vec<_>>().join("; "));
    }
    let t = |o: &Op| format!("{}{} {} variant {} from {}", ['a', 'b'][(o[0] / 32 % 2) as usize], if a < 2 { KINDS } else { HKINDS }[(o[0] % 32 % NKIND) as usize], o[1], o[2], o[3]);
    format!("large {} of {}: {}", ["Vec", "TryVec", "hash maps", "hash maps"][a as usize], elem_name(c.hv(8)), c.ops.iter().map(t).collect::<Vec<_>>().join("; "))
}

struct Go<'a>(Giant, &'a Case, &'a mut Cx);
impl<'a> ElemFn for Go<'a> {
    fn call<T: Elem>(self) {
        match area(self.1) {
            0 => vecs::<T, Vec<T>>(self.0, self.1, self.2),
            1 => vecs::<T, fc::TryVec<T>>(self.0, self.1, self.2),
            #[cfg(all(feature = "hash", not(feature = "btree")))]
            _ => hash::maps::<T>(self.0, self.1, self.2),
            #[cfg(any(feature = "btree", not(feature = "hash")))]
            _ => {}
        }
    }
}
pub fn run(g: Giant, c: &Case, cx: &mut Cx) {
    #[cfg(feature = "btree")]
    if area(c) >= 2 {
        return tall::run(tall_of(g), c, cx);
    }
    with_elem(c.hv(8), Go(g, c, cx));
    arm(Plan::None);
    ckeq!(live(), (0, 0), "blocks and bytes owned at the end");
    ckeq!(live_elems(), (0, 0), "tracked elements at the end");
}

/// f neither fails nor asks for memory
pub fn free<R>(what: &str, n: usize, f: impl FnOnce() -> R) -> R {
    arm(Plan::All);
    let r = sut(f);
    let c = st().cnt;
    arm(Plan::None);
    ckeq!(c, 0, "memory requests made by {} on {} entries", what, n);
    r
}

/// the error of an operation whose requests were refused tells of one of them
pub fn judge(what: &str, e: &fc::TryReserveError) {
    let s = st();
    let (no, refused) = (s.no, s.refused);
    let _g = pause();
    ck!(refused > 0, "{} failed although nothing was refused: {:?}", what, e);
    let said = format!("{:?}", e);
    let ok = no.iter().any(|q| q.refused && said.contains(&format!("size: {},", q.size)) && said.contains(&format!("align: {} ", q.align)));
    ck!(ok, "{}: refused was {:?}, the error is {}", what, no[0], said);
}

type Id = (u64, u64);
fn id<T: Elem>(x: &T) -> Id {
    (x.val(), x.id())
}

struct S<V> {
    v: V,
    m: Vec<Id>,
}
fn whole<T: Elem, V: VL<T>>(s: &S<V>, what: &str) {
    ckeq!(s.v.slice().len(), s.m.len(), "{}: length", what);
    for (i, (x, e)) in s.v.slice().iter().zip(&s.m).enumerate() {
        x.check();
        ck!(id(x) == *e, "{}: element {} of {} is {:?} instead of {:?}", what, i, s.m.len(), id(x), e);
    }
}

fn refused(g: Giant, what: &str, e: &fc::TryReserveError, cx: &mut Cx) {
    ck!(st().refused > 0, "{} failed although nothing was refused", what);
    if g == Giant::Errs {
        judge(what, e);
    }
    arm(Plan::None);
    cx.nontrivial = true;
    cx.hit("refused");
}

fn vecs<T: Elem, V: VL<T>>(g: Giant, c: &Case, cx: &mut Cx) {
    let mut s: [S<V>; 2] = [S { v: V::new(), m: vec![] }, S { v: V::new(), m: vec![] }];
    let top = ((6 << 20) / std::mem::size_of::<T>().max(8)).min(1 << 17);
    let mut spare: Vec<T> = Vec::new();
    for o in &c.ops {
        let kind = o[0] % 32 % NKIND;
        let what = KINDS[kind as usize];
        cx.hit(what);
        let (x, y) = {
            let (l, r) = s.split_at_mut(1);
            if o[0] / 32 % 2 == 0 { (&mut l[0], &mut r[0]) } else { (&mut r[0], &mut l[0]) }
        };
        let n = (o[1] as usize).min(top).min((2 * top).saturating_sub(x.m.len()));
        cx.steps += n as u64;
        let seed = mix(o[3]);
        let mk = |i: usize| T::mk(T::norm(mix(seed ^ i as u64)));
        let mks = |n: usize| (0..n).map(mk).collect::<Vec<T>>();
        arm(Plan::None);
        match kind {
            0 => match o[2] % 4 {
                0 => {
                    sut(|| x.v.reserve(n)).unwrap_or_else(|e| fail!("reserve({}) failed: {:?}", n, e));
                    for i in 0..n {
                        let e = mk(i);
                        x.m.push(id(&e));
                        free("push within reserved room", i, || x.v.push(e)).unwrap_or_else(|e| fail!("push failed: {:?}", e));
                    }
                }
                1 => {
                    for i in 0..n {
                        let e = mk(i);
                        x.m.push(id(&e));
                        sut(|| x.v.push(e)).unwrap_or_else(|e| fail!("push failed: {:?}", e));
                    }
                }
                2 => {
                    let mut i = 0;
                    let m = &mut x.m;
                    let len = m.len() + n;
                    sut(|| {
                        x.v.resize_with(len, || {
                            let _g = pause();
                            let e = mk(i);
                            i += 1;
                            m.push(id(&e));
                            e
                        })
                    })
                    .unwrap_or_else(|e| fail!("resize_with failed: {:?}", e));
                }
                _ => {
                    let src = mks(n);
                    sut(|| x.v.extend_nc(&src)).unwrap_or_else(|e| fail!("extend failed: {:?}", e));
                    let l = x.m.len();
                    ckeq!(x.v.slice().len(), l + n, "length after extending");
                    for (i, e) in x.v.slice()[l..].iter().enumerate() {
                        ckeq!(e.val(), src[i].val(), "element {} of those copied", i);
                        ck!(!T::TRACK || e.id() == 0 || e.id() != src[i].id(), "a copied element is the one copied from");
                        x.m.push(id(e));
                    }
                }
            },
            1 => grow_refused::<T, V>(g, x, y, o, n, &mk, &mut spare, cx),
            2 => match o[2] % 3 {
                0 => {
                    for _ in 0..n.min(x.m.len()) {
                        ckeq!(free("pop", x.m.len(), || x.v.pop()).map(|e| id(&e)), x.m.pop(), "popped element");
                    }
                }
                1 => {
                    let k = x.m.len() - n.min(x.m.len());
                    free("shrinking", x.m.len(), || x.v.resize_with(k, || fail!("asked for an element"))).unwrap_or_else(|e| fail!("shrinking failed: {:?}", e));
                    x.m.truncate(k);
                }
                _ => {
                    if n % 2 == 0 {
                        free("clear", x.m.len(), || x.v.clear());
                        x.m.clear();
                    }
                }
            },
            3 => use_free::<T, V>(x, o, cx),
            4 => {
                let mark = reg_mark();
                let z = live_elems();
                let cv = sut(|| x.v.tclone()).unwrap_or_else(|e| fail!("clone of {} elements failed: {:?}", x.m.len(), e));
                whole(x, "original after cloning");
                let mut c = S { v: cv, m: vec![] };
                ckeq!(c.v.slice().len(), x.m.len(), "length of a clone");
                for (i, (e, w)) in c.v.slice().iter().zip(&x.m).enumerate() {
                    e.check();
                    ckeq!(e.val(), w.0, "element {} of a clone of {}", i, x.m.len());
                    ck!(e.id() == 0 || e.id() as usize >= mark, "element {} of a clone of {} is not new", i, x.m.len());
                    c.m.push(id(e));
                }
                let made = live_elems();
                ckeq!(made.0 - z.0 + made.1 - z.1, if T::TRACK { x.m.len() as i64 } else { 0 }, "tracked elements made by a clone of {}", x.m.len());
                if x.m.len() > 0 && std::mem::size_of::<T>() > 0 {
                    let (p, q) = (x.v.slice().as_ptr_range(), c.v.slice().as_ptr_range());
                    ck!(p.end <= q.start || q.end <= p.start, "a clone of {} elements shares their storage", x.m.len());
                }
                // either changes without the other noticing
                let mut r = Rng::new(seed);
                for _ in 0..40 {
                    if x.m.is_empty() {
                        break;
                    }
                    let k = r.below(x.m.len() as u64) as usize;
                    let side = if r.chance(1, 2) { &mut *x } else { &mut c };
                    side.v.slice_mut()[k].set(T::norm(r.next()));
                    side.m[k].0 = side.v.slice()[k].val();
                }
                whole(x, "original after changes on either side");
                whole(&c, "clone after changes on either side");
                if r.chance(1, 2) {
                    std::mem::swap(x, &mut c);
                }
                let old = std::mem::replace(y, c);
                sut(move || drop(old.v));
                whole(x, "a copy after the other slot's old contents were dropped");
                if r.chance(1, 2) {
                    let old = std::mem::replace(x, S { v: V::new(), m: vec![] });
                    sut(move || drop(old.v));
                    whole(y, "a copy after the other was dropped");
                } else {
                    for i in 0..n.min(300) {
                        let e = mk(i);
                        x.m.push(id(&e));
                        sut(|| x.v.push(e)).unwrap_or_else(|e| fail!("push failed: {:?}", e));
                    }
                    whole(y, "a copy after the other grew");
                }
                cx.nontrivial |= x.m.len() + y.m.len() > 4096;
            }
            _ => {
                arm(Plan::None);
                cb().clones = 0;
                cb().fired = 0;
                let first = sut(|| x.v.tclone()).unwrap_or_else(|e| fail!("clone of {} elements failed: {:?}", x.m.len(), e));
                let (reqs, clones) = (st().cnt, cb().clones);
                let mut r = Rng::new(seed);
                let held = (live(), live_elems());
                for q in 0..6 {
                    let copy = q % 2 == 1 && clones > 0;
                    let of = if copy { clones } else { reqs };
                    let at = match q {
                        0 | 1 => of.saturating_sub(1),
                        2 => 0,
                        _ => r.below(of + 1),
                    };
                    cb().clones = 0;
                    cb().fired = 0;
                    if copy {
                        arm(Plan::None);
                        cb().clone_fail = at;
                    } else {
                        arm(if q == 2 { Plan::All } else { Plan::Once(at) });
                    }
                    let res = sut(|| x.v.tclone());
                    let hit = st().refused + cb().fired;
                    cb().clone_fail = NEVER;
                    match res {
                        Ok(c) => {
                            ckeq!(hit, 0, "clone of {} elements succeeded; {} {} of {} refused", x.m.len(), if copy { "copy" } else { "request" }, at, of);
                            sut(move || drop(c));
                        }
                        Err(e) => {
                            ck!(hit > 0, "clone of {} elements failed although nothing was refused", x.m.len());
                            if g == Giant::Errs {
                                if copy {
                                    let _g = pause();
                                    ckeq!(format!("{:?}", e), format!("{:?}", some_error()), "error of a clone one of whose elements failed");
                                } else {
                                    judge("clone", &e);
                                }
                            }
                            cx.hit(if copy { "elements that could not be copied" } else { "refused clones" });
                            cx.nontrivial |= x.m.len() > 1000;
                        }
                    }
                    arm(Plan::None);
                    ckeq!((live(), live_elems()), held, "blocks, bytes and elements after a clone of {} elements that failed ({} {})", x.m.len(), if copy { "copy" } else { "request" }, at);
                }
                sut(move || drop(first));
            }
        }
        arm(Plan::None);
        check_errs();
        whole(x, what);
        if T::TRACK {
            let l = live_elems();
            ckeq!(l.0 + l.1, (x.m.len() + y.m.len() + spare.len()) as i64, "tracked elements that exist after {}", what);
        }
        if x.m.len() >= 10_000 {
            cx.nontrivial |= matches!(g, Giant::NoMem | Giant::Life) && kind != 0;
            cx.hit("10000 elements or more");
        }
        if x.m.len() >= 60_000 {
            cx.hit("60000 elements or more");
        }
    }
    let [a, b] = s;
    drop(spare);
    let n = a.m.len() + b.m.len();
    free("drop", n, move || drop((a.v, b.v)));
}

/// one way to grow, first with every request refused, then (for elements that need memory themselves) with a later one refused
#[allow(clippy::too_many_arguments)]
fn grow_refused<T: Elem, V: VL<T>>(g: Giant, x: &mut S<V>, y: &mut S<V>, o: &Op, n: usize, mk: &dyn Fn(usize) -> T, spare: &mut Vec<T>, cx: &mut Cx) {
    let at = o[2] / 8 % 4;
    let mut plan = [Plan::All, Plan::All, Plan::Once(o[2] / 32 % 64), Plan::From(o[2] / 32 % 4)][at as usize];
    match o[2] % 8 {
        0 | 1 => {
            // one at a time; a refusal each time the room is used up
            let gb = o[2] % 8 == 1;
            for i in 0..n {
                let e = mk(i);
                let w = id(&e);
                arm(Plan::All);
                let r = if gb { sut(|| x.v.push_gb(e)) } else { sut(|| x.v.push(e)).map_err(|e| (T::default(), e)) };
                match r {
                    Ok(()) => x.m.push(w),
                    Err((e, err)) => {
                        refused(g, "push", &err, cx);
                        if gb && !V::TV {
                            ckeq!(id(&e), w, "the element given back");
                        }
                        drop(e);
                        whole(x, "refused push");
                        let e = mk(i);
                        x.m.push(id(&e));
                        sut(|| x.v.push(e)).unwrap_or_else(|e| fail!("push failed: {:?}", e));
                    }
                }
            }
        }
        2 => {
            let mut o = S { v: V::new(), m: vec![] };
            sut(|| o.v.reserve(n)).unwrap_or_else(|e| fail!("reserve failed: {:?}", e));
            for i in 0..n {
                let e = mk(i);
                o.m.push(id(&e));
                sut(|| o.v.push(e)).unwrap_or_else(|e| fail!("push failed: {:?}", e));
            }
            let before = live();
            arm(plan);
            while let Err(e) = sut(|| x.v.append(&mut o.v)) {
                refused(g, "append", &e, cx);
                whole(x, "refused append");
                whole(&o, "argument of a refused append");
                ckeq!(live(), before, "blocks and bytes owned after a refused append");
                plan = Plan::None;
                arm(plan);
            }
            ckeq!(st().refused, 0, "append succeeded; refused requests");
            x.m.append(&mut o.m);
            whole(&o, "argument of an append");
            let old = std::mem::replace(y, o);
            sut(move || drop(old.v));
        }
        3 => {
            // copies of elements; their own requests may be refused, and they may fail
            let src: Vec<T> = (0..n).map(mk).collect();
            let l = x.m.len();
            let fail = o[3] % 3 == 0;
            loop {
                arm(plan);
                cb().clones = 0;
                cb().fired = 0;
                if fail && plan != Plan::None {
                    arm(Plan::None);
                    cb().clone_fail = o[3] / 3 % (n as u64 + 1);
                }
                let r = sut(|| x.v.extend_nc(&src));
                let fired = cb().fired;
                cb().clone_fail = NEVER;
                match r {
                    Ok(()) => break,
                    Err(e) => {
                        if fired > 0 {
                            if g == Giant::Errs {
                                let _g = pause();
                                ckeq!(format!("{:?}", e), format!("{:?}", some_error()), "error of an extension one of whose copies failed");
                            }
                            cx.nontrivial = true;
                        } else {
                            refused(g, "extend", &e, cx);
                        }
                        // what was there before is still there; some copies may follow
                        let now = x.v.slice().len();
                        ck!(now >= l && now <= l + n, "length {} after a refused extension of {} by {}", now, l, n);
                        for (i, e) in x.v.slice()[..l].iter().enumerate() {
                            ck!(id(e) == x.m[i], "element {} of {} after a refused extension is {:?} instead of {:?}", i, l, id(e), x.m[i]);
                        }
                        for (i, e) in x.v.slice()[l..].iter().enumerate() {
                            e.check();
                            ckeq!(e.val(), src[i].val(), "element {} copied by a refused extension", i);
                        }
                        sut(|| x.v.resize_with(l, || fail!("asked for an element"))).unwrap_or_else(|e| fail!("shrinking failed: {:?}", e));
                        whole(x, "refused extension");
                        plan = Plan::None;
                    }
                }
            }
            ckeq!(st().refused, 0, "extension succeeded; refused requests");
            for (i, e) in x.v.slice()[l..].iter().enumerate() {
                ckeq!(e.val(), src[i].val(), "element {} of those copied", i);
                x.m.push(id(e));
            }
        }
        4 => {
            let l = x.m.len() + n;
            loop {
                arm(plan);
                let mut i = 0;
                let m = &mut x.m;
                let r = sut(|| {
                    x.v.resize_with(l, || {
                        let _g = pause();
                        let e = mk(i);
                        i += 1;
                        m.push(id(&e));
                        e
                    })
                });
                match r {
                    Ok(()) => break,
                    Err(e) => {
                        refused(g, "resize_with", &e, cx);
                        whole(x, "refused resize");
                        plan = Plan::None;
                    }
                }
            }
        }
        5 => {
            let before = live();
            arm(plan);
            while let Err(e) = sut(|| x.v.reserve(n)) {
                refused(g, "reserve", &e, cx);
                ckeq!(live(), before, "blocks and bytes owned after a refused reservation");
                whole(x, "refused reservation");
                plan = Plan::None;
                arm(plan);
            }
            let p = x.v.slice().as_ptr();
            for i in 0..n {
                let e = mk(i);
                x.m.push(id(&e));
                free("push within reserved room", i, || x.v.push(e)).unwrap_or_else(|e| fail!("push within reserved room failed: {:?}", e));
            }
            ck!(x.v.slice().as_ptr() == p, "the elements moved within reserved room");
        }
        6 => {
            // in the middle, until that needs memory
            let mut done = 0;
            for i in 0..n {
                if let Some(c) = x.v.cap() {
                    if x.m.len() < c && i < n - 1 {
                        let e = mk(i);
                        x.m.push(id(&e));
                        sut(|| x.v.push(e)).unwrap_or_else(|e| fail!("push failed: {:?}", e));
                        continue;
                    }
                }
                let e = mk(i);
                let w = id(&e);
                let k = if V::TV { x.m.len() } else { (mix(o[3] ^ i as u64) % (x.m.len() as u64 + 1)) as usize };
                arm(Plan::All);
                match sut(|| x.v.insert(k, e)) {
                    Ok(()) => x.m.insert(k, w),
                    Err((e, err)) => {
                        refused(g, "insert", &err, cx);
                        ck!(V::TV || id(&e) == w, "the element given back is {:?} instead of {:?}", id(&e), w);
                        drop(e);
                        whole(x, "refused insert");
                        let e = mk(i);
                        let w = id(&e);
                        match sut(|| x.v.insert(k, e)) {
                            Ok(()) => x.m.insert(k, w),
                            Err((_, e)) => fail!("insert failed: {:?}", e),
                        }
                        done += 1;
                        if done == 3 {
                            break;
                        }
                    }
                }
            }
        }
        _ => {
            // the forms for elements that are copied bit by bit
            let src: Vec<T> = (0..n.min(1000)).map(mk).collect();
            if let (Some(v), false) = (x.v.vec_mut(), src.is_empty()) {
                let l = v.len();
                let to = l + n;
                loop {
                    arm(plan);
                    let one = T::mk(src[0].val());
                    let r = if o[3] % 2 == 0 { sut(|| T::copy_resize(v, to, one)) } else { sut(|| T::copy_extend(v, &src)) };
                    match r {
                        None => break,
                        Some(Ok(())) => {
                            for (i, e) in v[l..].iter().enumerate() {
                                ckeq!(e.val(), if o[3] % 2 == 0 { src[0].val() } else { src[i].val() }, "element {} of those copied", i);
                                x.m.push(id(e));
                            }
                            break;
                        }
                        Some(Err(e)) => {
                            refused(g, "resize or extend", &e, cx);
                            ckeq!(v.len(), l, "length after a refusal");
                            plan = Plan::None;
                        }
                    }
                }
                arm(Plan::None);
            }
        }
    }
    let _ = spare;
    arm(Plan::None);
}

fn use_free<T: Elem, V: VL<T>>(x: &mut S<V>, o: &Op, cx: &mut Cx) {
    let n = x.m.len();
    let hs = |h: u64, e: Id| mix(h ^ e.0);
    let want = x.m.iter().fold(n as u64, |h, e| hs(h, *e));
    free("iteration", n, || ckeq!(x.v.slice().iter().fold(n as u64, |h, e| hs(h, id(e))), want, "iteration over {} elements", n));
    let back = x.m.iter().rev().fold(n as u64, |h, e| hs(h, *e));
    free("reversed iteration", n, || ckeq!(x.v.slice().iter().rev().fold(n as u64, |h, e| hs(h, id(e))), back, "reversed iteration over {} elements", n));
    free("comparison", n, || ck!(x.v.slice() == x.v.slice(), "a vector of {} elements differs from itself", n));
    free("in-place reversal", n, || x.v.slice_mut().reverse());
    x.m.reverse();
    whole(x, "in-place reversal");
    {
        let mut e = free("new", 0, || V::new());
        free("append of nothing", n, || x.v.append(&mut e)).unwrap_or_else(|e| fail!("appending nothing failed: {:?}", e));
        free("extension by nothing", n, || x.v.extend_nc(&[])).unwrap_or_else(|e| fail!("extending by nothing failed: {:?}", e));
        free("reservation of nothing", n, || x.v.reserve(0)).unwrap_or_else(|e| fail!("reserving nothing failed: {:?}", e));
        free("drop", 0, move || drop(e));
    }
    for _ in 0..(o[1] as usize % 64).min(n) {
        ckeq!(free("pop", n, || x.v.pop()).map(|e| id(&e)), x.m.pop(), "popped element");
    }
    // a vector made to hold them takes over what is there
    let k = o[1] as usize / 64 % (x.m.len() + 1);
    free("shrinking", n, || x.v.resize_with(k.max(x.m.len() / 2), || fail!("asked for an element"))).unwrap_or_else(|e| fail!("shrinking failed: {:?}", e));
    x.m.truncate(k.max(x.m.len() / 2));
    match o[2] % 3 {
        0 => {
            let n = x.m.len();
            let v = std::mem::replace(&mut x.v, V::new());
            let raw: Vec<T> = sut(|| v.into_vec());
            let t: fc::TryVec<T> = free("taking over storage", n, || fc::TryVec::from(raw));
            let stop = if o[3] % 2 == 0 { n + 1 } else { (mix(o[3]) % (n as u64 + 1)) as usize };
            let m = &x.m;
            let left = free("consuming", n, || {
                let mut i = t.into_iter();
                let (mut f, mut b) = (0, n);
                for q in 0..stop {
                    if q % 3 == 2 {
                        ckeq!(i.next_back().map(|e| id(&e)), if f < b { Some(m[b - 1]) } else { None }, "element {} from the back", n - b);
                        b = b.max(f + 1) - 1;
                    } else {
                        ckeq!(i.next().map(|e| id(&e)), if f < b { Some(m[f]) } else { None }, "element {}", f);
                        f = (f + 1).min(b);
                    }
                }
                (i.len(), b - f)
            });
            ckeq!(left.0, left.1, "elements left");
            x.m.clear();
        }
        1 => {
            free("clear", n, || x.v.clear());
            x.m.clear();
        }
        _ => {}
    }
    cx.nontrivial |= n > 1000;
}

#[cfg(all(feature = "hash", not(feature = "btree")))]
mod hash {
    use super::*;
    use fc::{TryClone, TryHashMap};
    use std::collections::BTreeMap as Model;

    struct H<V: Elem> {
        t: TryHashMap<u64, V>,
        m: Model<u64, Id>,
    }
    fn whole<V: Elem>(s: &H<V>, what: &str) {
        ckeq!(s.t.len(), s.m.len(), "{}: length", what);
        let mut n = 0;
        for (k, v) in s.t.iter() {
            v.check();
            match s.m.get(k) {
                Some(e) if *e == id(v) => {}
                e => fail!("{}: the value of {} is {:?} instead of {:?}", what, k, id(v), e),
            }
            n += 1;
        }
        ckeq!(n, s.m.len(), "{}: entries iterated", what);
        for (q, (k, e)) in s.m.iter().enumerate() {
            if q % 7 == 0 {
                ckeq!(s.t.get(k).map(id), Some(*e), "{}: get of {}", what, k);
            }
        }
    }
    pub fn maps<V: Elem>(g: Giant, c: &Case, cx: &mut Cx) {
        let fresh = || H::<V> { t: sut(TryHashMap::default), m: Model::new() };
        let mut s = [fresh(), fresh()];
        let top = ((3 << 20) / std::mem::size_of::<V>().max(8)).min(1 << 17) as u64;
        for o in &c.ops {
            let kind = o[0] % 32 % NKIND;
            let what = HKINDS[kind as usize];
            cx.hit(what);
            let (x, y) = {
                let (l, r) = s.split_at_mut(1);
                if o[0] / 32 % 2 == 0 { (&mut l[0], &mut r[0]) } else { (&mut r[0], &mut l[0]) }
            };
            let n = o[1].min(top);
            cx.steps += n;
            let seed = o[3] % (1 << 20);
            let mk = |i: u64| V::mk(V::norm(mix(seed ^ i)));
            let key = |i: u64| match o[2] % 3 {
                0 => seed.wrapping_add(i),
                1 => mix(seed.wrapping_add(i)),
                _ => seed.wrapping_add(i) << 32,
            };
            arm(Plan::None);
            match kind {
                0 => {
                    let few = o[2] / 3 % 3 == 2;
                    if o[2] / 3 % 3 > 0 {
                        let t = sut(|| TryHashMap::with_capacity(n as usize)).unwrap_or_else(|e| fail!("with_capacity({}) failed: {:?}", n, e));
                        let old = std::mem::replace(x, H { t, m: Model::new() });
                        sut(move || drop(old.t));
                    }
                    // much room for few entries, or all of it used
                    for i in 0..if few { n.min(1 + seed % 300) } else { n } {
                        let (k, v) = (key(i), mk(i));
                        let w = id(&v);
                        let r = sut(|| x.t.insert(k, v)).unwrap_or_else(|e| fail!("insert failed: {:?}", e));
                        ckeq!(r.map(|v| id(&v)), x.m.insert(k, w), "insert of {} into {} entries", k, x.m.len());
                    }
                }
                1 => {
                    let mut refusals = 0;
                    for i in 0..n {
                        let (k, v) = (key(i), mk(i));
                        let mut w = id(&v);
                        arm(Plan::All);
                        let r = match sut(|| x.t.insert(k, v)) {
                            Ok(r) => r,
                            Err(_) => {
                                ck!(st().refused > 0, "insert failed although nothing was refused");
                                arm(Plan::None);
                                whole(x, "refused insert");
                                refusals += 1;
                                cx.nontrivial = true;
                                cx.hit("refused");
                                let v = mk(i);
                                w = id(&v);
                                sut(|| x.t.insert(k, v)).unwrap_or_else(|e| fail!("insert failed: {:?}", e))
                            }
                        };
                        ckeq!(r.map(|v| id(&v)), x.m.insert(k, w), "insert of {} into {} entries", k, x.m.len());
                    }
                    let _ = refusals;
                }
                2 => {
                    // some, most, or all but a few
                    let ks: Vec<u64> = x.m.keys().copied().collect();
                    let keep = match o[2] % 3 {
                        0 => 0,
                        1 => 1 + seed as usize % 60,
                        _ => ks.len() / 2,
                    };
                    for k in ks.iter().skip(keep) {
                        let r = free("remove", x.m.len(), || x.t.remove(k));
                        ckeq!(r.map(|v| id(&v)), x.m.remove(k), "remove of {} from {} entries", k, x.m.len());
                    }
                    let k = mix(seed) | 1 << 63;
                    ckeq!(free("remove of an absent key", x.m.len(), || x.t.remove(&k)).map(|v| id(&v)), x.m.remove(&k), "remove of {}", k);
                    cx.nontrivial |= g == Giant::NoMem && ks.len() > 1000;
                }
                3 => {
                    let len = x.m.len();
                    let want = x.m.iter().fold(0u64, |h, (k, e)| h.wrapping_add(mix(k ^ mix(e.0))));
                    let got = free("iteration", len, || {
                        let it = x.t.iter();
                        ckeq!(it.len(), len, "length of an iterator");
                        it.fold(0u64, |h, (k, v)| h.wrapping_add(mix(k ^ mix(v.val()))))
                    });
                    ckeq!(got, want, "entries iterated");
                    for i in 0..2000 {
                        let k = key(i * 7);
                        ckeq!(free("get", len, || x.t.get(&k).map(id)), x.m.get(&k).copied(), "get of {}", k);
                    }
                    cx.nontrivial |= len > 1000;
                    if o[3] % 3 == 0 {
                        let old = std::mem::replace(x, fresh());
                        let mut m = old.m;
                        let t = old.t;
                        let stop = if o[2] % 2 == 0 { usize::MAX } else { n as usize / 2 };
                        let mut it = free("into_iter", len, || t.into_iter());
                        for _ in 0..stop {
                            ckeq!(it.len(), m.len(), "length of a consuming iterator");
                            match free("consuming", len, || it.next()) {
                                None => {
                                    ck!(m.is_empty(), "consuming iteration ended with {} entries missing", m.len());
                                    break;
                                }
                                Some((k, v)) => ckeq!(Some(id(&v)), m.remove(&k), "value of {} when consuming", k),
                            }
                        }
                        free("drop of a consuming iterator", len, move || drop(it));
                    }
                }
                4 => {
                    let mark = reg_mark();
                    let t = sut(|| x.t.try_clone()).unwrap_or_else(|e| fail!("try_clone of {} entries failed: {:?}", x.m.len(), e));
                    whole(x, "original after cloning");
                    ckeq!(t.len(), x.m.len(), "length of a clone");
                    let mut c = H { t, m: Model::new() };
                    for (k, v) in c.t.iter() {
                        v.check();
                        ckeq!(Some(v.val()), x.m.get(k).map(|e| e.0), "value of {} in a clone of {} entries", k, x.m.len());
                        ck!(v.id() == 0 || v.id() as usize >= mark, "the value of {} in a clone is not new", k);
                        c.m.insert(*k, id(v));
                    }
                    whole(&c, "clone");
                    let mut r = Rng::new(seed);
                    for i in 0..60 {
                        let (k, v) = (key(r.below(n + 1)), mk(i));
                        let side = if r.chance(1, 2) { &mut *x } else { &mut c };
                        if r.chance(1, 2) {
                            ckeq!(sut(|| side.t.remove(&k)).map(|v| id(&v)), side.m.remove(&k), "remove of {}", k);
                        } else {
                            let w = id(&v);
                            let old = sut(|| side.t.insert(k, v)).unwrap_or_else(|e| fail!("insert failed: {:?}", e));
                            ckeq!(old.map(|v| id(&v)), side.m.insert(k, w), "insert of {}", k);
                        }
                    }
                    whole(x, "original after changes on either side");
                    whole(&c, "clone after changes on either side");
                    if r.chance(1, 2) {
                        std::mem::swap(x, &mut c);
                    }
                    let old = std::mem::replace(y, c);
                    sut(move || drop(old.t));
                    if r.chance(1, 2) {
                        let old = std::mem::replace(x, fresh());
                        sut(move || drop(old.t));
                        whole(y, "a copy after the other was dropped");
                    }
                    cx.nontrivial |= y.m.len() > 1000;
                }
                _ => {
                    cb().clones = 0;
                    cb().fired = 0;
                    arm(Plan::None);
                    let first = sut(|| x.t.try_clone()).unwrap_or_else(|e| fail!("clone of {} entries failed: {:?}", x.m.len(), e));
                    let (reqs, clones) = (st().cnt, cb().clones);
                    let mut r = Rng::new(seed);
                    let held = (live(), live_elems());
                    for q in 0..6 {
                        let copy = q % 2 == 1 && clones > 0;
                        let of = if copy { clones } else { reqs };
                        let at = match q {
                            0 | 1 => of.saturating_sub(1),
                            2 => 0,
                            _ => r.below(of + 1),
                        };
                        cb().clones = 0;
                        cb().fired = 0;
                        if copy {
                            arm(Plan::None);
                            cb().clone_fail = at;
                        } else {
                            arm(if q == 2 { Plan::All } else { Plan::Once(at) });
                        }
                        let res = sut(|| x.t.try_clone());
                        let hit = st().refused + cb().fired;
                        cb().clone_fail = NEVER;
                        match res {
                            Ok(c) => {
                                ckeq!(hit, 0, "clone of {} entries succeeded; {} {} of {} refused", x.m.len(), if copy { "copy" } else { "request" }, at, of);
                                sut(move || drop(c));
                            }
                            Err(e) => {
                                ck!(hit > 0, "clone of {} entries failed although nothing was refused", x.m.len());
                                if g == Giant::Errs && copy {
                                    let _g = pause();
                                    ckeq!(format!("{:?}", e), format!("{:?}", some_error()), "error of a clone one of whose values failed");
                                }
                                cx.hit(if copy { "values that could not be copied" } else { "refused clones" });
                                cx.nontrivial |= x.m.len() > 1000;
                            }
                        }
                        arm(Plan::None);
                        ckeq!((live(), live_elems()), held, "blocks, bytes and values after a clone of {} entries that failed ({} {})", x.m.len(), if copy { "copy" } else { "request" }, at);
                    }
                    sut(move || drop(first));
                }
            }
            arm(Plan::None);
            check_errs();
            whole(x, what);
            if V::TRACK {
                let l = live_elems();
                ckeq!(l.0 + l.1, (x.m.len() + y.m.len()) as i64, "tracked values that exist after {}", what);
            }
            if x.m.len() > 20_000 {
                cx.hit("20000 entries or more");
            }
        }
        let [a, b] = s;
        let n = a.m.len() + b.m.len();
        free("drop", n, move || drop((a.t, b.t)));
    }
}
