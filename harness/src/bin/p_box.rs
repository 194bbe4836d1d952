//! B01, B02: fallible boxes and shared pointers.
#![allow(deprecated)]
use std::rc::{Rc, Weak as RW};
use std::sync::{Arc, Weak as AW};
use vh::fc::{FallibleArc, FallibleBox, FallibleRc, TryBox, TryClone};
use vh::*;

const UNSTABLE: bool = cfg!(feature = "btree");

struct PB(&'static str, bool);

pub type Z64 = Zs<A64>;

trait F1 {
    fn call<T: Elem>(self);
}
// the ones after FEW are rare
const NL: u64 = 24;
const FEW: u64 = 17;
const NAMES: [&str; NL as usize] = ["tracked 16B", "tracked 256B", "tracked align 64", "tracked align 128", "tracked 256B align 64", "tracked zst", "tracked zst align 64", "owning a box", "u8", "u64", "u16", "bool", "zst", "[u8;3]", "1.5KiB", "tracked 2KiB", "string", "tracked 4KiB", "tracked 8KiB", "tracked 10232B", "tracked 12KiB align 64", "tracked 64KiB", "tracked 256KiB", "tracked align 4096"];
fn with<F: F1>(i: u64, f: F) {
    match i % NL {
        0 => f.call::<E>(),
        1 => f.call::<Big>(),
        2 => f.call::<E64>(),
        3 => f.call::<E128>(),
        4 => f.call::<Big64>(),
        5 => f.call::<Z>(),
        6 => f.call::<Z64>(),
        7 => f.call::<BE>(),
        8 => f.call::<u8>(),
        9 => f.call::<u64>(),
        10 => f.call::<u16>(),
        11 => f.call::<bool>(),
        12 => f.call::<U0>(),
        13 => f.call::<B3>(),
        14 => f.call::<K1>(),
        15 => f.call::<Huge>(),
        16 => f.call::<KS>(),
        17 => f.call::<Page>(),
        18 => f.call::<Pages>(),
        19 => f.call::<Odd>(),
        20 => f.call::<Pages3>(),
        21 => f.call::<Giant>(),
        22 => f.call::<Giant4>(),
        _ => f.call::<AlignPage>(),
    }
}

const SL: usize = 6;
const BNAMES: [&str; 12] = ["Box::try_new", "TryBox::try_new", "into_raw", "from_raw", "try_clone", "set", "drop", "take value", "Box<Box>", "Option<TryBox>", "failing clone", "into_raw/Box::from_raw"];
const RNAMES: [&str; 10] = ["Rc::try_new", "Arc::try_new", "clone", "downgrade", "upgrade", "drop", "try_unwrap", "get_mut", "new in a vector of pointers", "drop all of a group"];

impl Prop for PB {
    fn id(&self) -> &'static str {
        self.0
    }
    fn rule(&self) -> &'static str {
        if self.1 {
            "a pointer was cloned or downgraded and later released, or a construction was refused memory"
        } else {
            "a box was cloned, converted to or from a raw pointer, or a construction or clone was refused memory"
        }
    }
    fn gen(&self, r: &mut Rng) -> Case {
        let ty = if r.chance(1, 40) { r.range(FEW, NL - 1) } else { r.below(FEW) };
        let n = r.range(2, if ty == 22 { 8 } else { 30 });
        let mut ops = Vec::new();
        for _ in 0..n {
            let k = if self.1 { r.weighted(&[8, 8, 8, 3, 3, 6, 2, 2, 2, 2]) } else { r.weighted(&[8, 8, 4, 4, 8, 3, 5, 2, 4, 3, 3, 2]) } as u64;
            ops.push([k + 32 * r.below(SL as u64) + 512 * r.below(SL as u64), r.below(1 << 20), r.below(4), r.below(3)]);
        }
        Case { h: vec![ty, r.next() >> 16], ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) {
        struct G<'a>(bool, &'a Case, &'a mut Cx);
        impl<'a> F1 for G<'a> {
            fn call<T: Elem>(self) {
                if self.0 {
                    shared::<T>(self.1, self.2)
                } else {
                    boxes::<T>(self.1, self.2)
                }
            }
        }
        with(c.hv(0), G(self.1, c, cx))
    }
    fn desc(&self, c: &Case) -> String {
        let mut s = format!("{}: ", NAMES[(c.hv(0) % NL) as usize]);
        for o in &c.ops {
            let k = (o[0] % 32) as usize;
            s += &format!("{} #{} #{} ({}, plan {}); ", if self.1 { RNAMES[k % RNAMES.len()] } else { BNAMES[k % BNAMES.len()] }, o[0] / 32 % 16, o[0] / 512, o[1], o[2]);
        }
        s
    }
}

enum O<T> {
    B(Box<T>),
    T(TryBox<T>),
    Raw(*mut T),
    N(Box<Box<T>>),
    Op(Option<TryBox<T>>),
}
struct S<T> {
    o: O<T>,
    v: u64,
    id: u64,
}

/// a sized value's own memory
fn own_block<T: Elem>(p: *const T, what: &str) {
    ck!(p as usize % std::mem::align_of::<T>() == 0, "{}: the value is at {:?}, not aligned to {}", what, p, std::mem::align_of::<T>());
    if std::mem::size_of::<T>() > 0 {
        let b = unsafe { alloc::block_info(p as *const u8) };
        ckeq!(b, Some((std::mem::size_of::<T>(), std::mem::align_of::<T>())), "{}: block (size, alignment) holding the value", what);
    }
}

fn look<T: Elem>(s: &S<T>, what: &str) {
    let r: &T = match &s.o {
        O::B(b) => &**b,
        O::T(b) => sut(|| &**b),
        O::Raw(p) => unsafe { &**p },
        O::N(b) => &***b,
        O::Op(b) => &**b.as_ref().unwrap(),
    };
    r.check();
    own_block(r as *const T, what);
    ckeq!((r.val(), r.id()), (s.v, s.id), "{}: value and identity held", what);
}

fn blocks<T: Elem>(s: &[Option<S<T>>]) -> i64 {
    let z = (std::mem::size_of::<T>() > 0) as i64;
    s.iter().flatten().map(|s| z + matches!(s.o, O::N(_)) as i64).sum()
}

/// run a construction: first with every one of its requests refused (when `faulty`), then freely
fn build<R>(cx: &mut Cx, faulty: u64, limit: u64, what: &str, mut mk: impl FnMut() -> (u64, Box<dyn FnOnce() -> Result<R, vh::fc::TryReserveError>>)) -> R {
    if faulty > 0 {
        let mut k = 0;
        loop {
            if k >= limit {
                break;
            }
            let before = live();
            let n0 = live_elems();
            let (id, f) = mk();
            let plan = if faulty == 1 { Plan::Once(k) } else { Plan::From(k) };
            arm(plan);
            let r = sut_catch(f);
            let refused = st().refused;
            arm(Plan::None);
            match r {
                Err(p) => fail!("{} with request {} refused: panic {:?}", what, k, p),
                Ok(Ok(_)) => {
                    ckeq!(refused, 0, "refused requests in a successful {}", what);
                    break;
                }
                Ok(Err(_)) => {
                    ck!(refused > 0, "{} failed although nothing was refused", what);
                    ck!(id == 0 || !is_live(id), "failed {} kept the value", what);
                    ckeq!(live_elems(), n0, "tracked elements after a failed {}", what);
                    ckeq!(live(), before, "blocks and bytes owned after a failed {}", what);
                    cx.nontrivial = true;
                    cx.hit("refused requests");
                }
            }
            k += 1;
        }
    }
    let (_, f) = mk();
    arm(Plan::None);
    match sut_catch(f) {
        Ok(Ok(x)) => x,
        Ok(Err(_)) => fail!("{} failed although memory is available", what),
        Err(p) => fail!("{}: panic {:?}", what, p),
    }
}

fn boxes<T: Elem>(c: &Case, cx: &mut Cx) {
    let mut s: Vec<Option<S<T>>> = (0..SL).map(|_| None).collect();
    let sized = (std::mem::size_of::<T>() > 0) as u64;
    for op in &c.ops {
        let kind = op[0] % 32;
        let i = (op[0] / 32 % 16) as usize % SL;
        let j = (op[0] / 512 % 16) as usize % SL;
        let v = T::norm(op[1]);
        let faulty = if op[2] < 2 { 0 } else { op[2] - 1 };
        cx.steps += 1;
        let what = BNAMES[kind as usize % BNAMES.len()];
        macro_rules! drop_slot {
            ($i:expr) => {{
                if let Some(x) = s[$i].take() {
                    let (id, have) = (x.id, live().0);
                    let nb = sized as i64 + matches!(x.o, O::N(_)) as i64;
                    sut(move || match x.o {
                        O::Raw(p) => drop(unsafe { TryBox::from_raw(p) }),
                        o => drop(o),
                    });
                    ck!(id == 0 || !is_live(id), "dropping a box kept its value");
                    if !T::HEAP {
                        ckeq!(live().0, have - nb, "blocks owned after dropping a box");
                    }
                }
            }};
        }
        match kind {
            0 | 1 | 9 => {
                drop_slot!(i);
                let e0 = st().reqs;
                let mut made = 0;
                let x = build(cx, faulty, 3, what, || {
                    let x = T::mk(v);
                    let id = x.id();
                    made = id;
                    (id, if kind == 0 { Box::new(move || <Box<T> as FallibleBox<T>>::try_new(x).map(O::B)) } else { Box::new(move || TryBox::try_new(x).map(O::T)) })
                });
                ckeq!(st().cnt, sized, "requests made by {}", what);
                let _ = e0;
                let x = match x {
                    O::T(b) if kind == 9 => O::Op(Some(b)),
                    x => x,
                };
                s[i] = Some(S { o: x, v, id: made });
            }
            2 | 3 | 11 => {
                if let Some(x) = s[i].take() {
                    let id = x.id;
                    let v = x.v;
                    arm(Plan::All);
                    let o = sut(|| match (x.o, kind) {
                        (O::B(b), 2) => O::Raw(Box::into_raw(b)),
                        (O::T(b), 2) => O::Raw(TryBox::into_raw(b)),
                        (O::Raw(p), 3) => O::T(unsafe { TryBox::from_raw(p) }),
                        (O::Raw(p), 11) => O::B(unsafe { Box::from_raw(p) }),
                        (O::T(b), 11) => O::B(unsafe { Box::from_raw(TryBox::into_raw(b)) }),
                        (O::B(b), 3) => O::T(unsafe { TryBox::from_raw(Box::into_raw(b)) }),
                        (o, _) => o,
                    });
                    ckeq!(st().cnt, 0, "requests made by {}", what);
                    arm(Plan::None);
                    s[i] = Some(S { o, v, id });
                    cx.nontrivial = true;
                    cx.hit("raw pointer conversions");
                }
            }
            4 | 10 => {
                if i == j || s[i].is_none() {
                    continue;
                }
                drop_slot!(j);
                let (v, id) = {
                    let x = s[i].as_ref().unwrap();
                    (x.v, x.id)
                };
                let mark = reg_mark();
                if kind == 10 {
                    let before = live();
                    let n0 = live_elems();
                    cb().clones = 0;
                    cb().clone_fail = 0;
                    let r = {
                        let x = s[i].as_ref().unwrap();
                        sut_catch(|| match &x.o {
                            O::B(b) => b.try_clone().map(O::B),
                            O::T(b) => b.try_clone().map(O::T),
                            O::N(b) => b.try_clone().map(O::N),
                            O::Op(b) => b.try_clone().map(O::Op),
                            O::Raw(p) => unsafe { std::mem::ManuallyDrop::new(TryBox::from_raw(*p)) }.try_clone().map(O::T),
                        })
                    };
                    let fired = cb().fired;
                    disarm();
                    match r {
                        Err(p) => fail!("clone of a box whose value fails to clone: panic {:?}", p),
                        Ok(Ok(o)) => {
                            ckeq!(fired, 0, "failures swallowed by the clone of a box");
                            sut(move || drop(o));
                        }
                        Ok(Err(_)) => {
                            ck!(fired > 0, "clone of a box failed by itself");
                            cx.nontrivial = true;
                            cx.hit("failing value clones");
                        }
                    }
                    ckeq!(live(), before, "blocks and bytes owned after the clone of a box is gone");
                    ckeq!(live_elems(), n0, "tracked elements after the clone of a box is gone");
                } else {
                    let p = &s[i].as_ref().unwrap().o as *const O<T>;
                    let o = build(cx, faulty, 6, what, || {
                        (
                            0,
                            Box::new(move || match unsafe { &*p } {
                                O::B(b) => b.try_clone().map(O::B),
                                O::T(b) => b.try_clone().map(O::T),
                                O::N(b) => b.try_clone().map(O::N),
                                O::Op(b) => b.try_clone().map(O::Op),
                                O::Raw(p) => unsafe { std::mem::ManuallyDrop::new(TryBox::from_raw(*p)) }.try_clone().map(O::T),
                            }),
                        )
                    });
                    let nid = match &o {
                        O::B(b) => b.id(),
                        O::T(b) => b.id(),
                        O::N(b) => b.id(),
                        O::Op(b) => b.as_ref().unwrap().id(),
                        O::Raw(_) => 0,
                    };
                    ck!(nid == 0 || nid as usize >= mark && nid != id, "the clone of a box holds the original's value");
                    s[j] = Some(S { o, v, id: nid });
                    cx.nontrivial = true;
                    cx.hit("clones");
                }
            }
            5 => {
                if let Some(x) = s[i].as_mut() {
                    match &mut x.o {
                        O::B(b) => b.set(v),
                        O::N(b) => b.set(v),
                        O::Raw(p) => unsafe { (**p).set(v) },
                        _ => continue,
                    }
                    x.v = v;
                }
            }
            6 => drop_slot!(i),
            7 => {
                if matches!(s[i], Some(S { o: O::B(_), .. })) {
                    let x = s[i].take().unwrap();
                    let have = live().0;
                    if let O::B(b) = x.o {
                        let y: T = sut(|| *b);
                        y.check();
                        ckeq!((y.val(), y.id()), (x.v, x.id), "value moved out of a box");
                        ckeq!(live().0, have - sized as i64, "blocks owned after moving the value out of a box");
                        drop(y);
                    }
                }
            }
            8 => {
                drop_slot!(i);
                let mut made = 0;
                let o = build(cx, faulty, 4, what, || {
                    let x = T::mk(v);
                    made = x.id();
                    (made, Box::new(move || <Box<Box<T>> as FallibleBox<Box<T>>>::try_new(<Box<T> as FallibleBox<T>>::try_new(x)?).map(O::N)))
                });
                s[i] = Some(S { o, v, id: made });
            }
            _ => {}
        }
        for x in s.iter().flatten() {
            look(x, what);
        }
        if !T::HEAP {
            ckeq!(live().0, blocks(&s), "blocks owned after {}", what);
        }
        if T::TRACK {
            let (a, z) = live_elems();
            ckeq!(a + z, s.iter().flatten().count() as i64, "tracked elements after {}", what);
        }
        check_errs();
    }
    for x in s.into_iter().flatten() {
        sut(move || match x.o {
            O::Raw(p) => drop(unsafe { Box::from_raw(p) }),
            o => drop(o),
        });
    }
    ckeq!(live(), (0, 0), "blocks and bytes owned at the end");
    let (a, z) = live_elems();
    ckeq!(a + z, 0, "tracked elements at the end");
}

// ------------------------------------------------------------------ shared pointers

enum H<T> {
    R(Rc<T>),
    A(Arc<T>),
    RW(RW<T>),
    AW(AW<T>),
}
struct Grp {
    v: u64,
    id: u64,
    strong: usize,
    weak: usize,
}
const HS: usize = 12;

fn shared<T: Elem>(c: &Case, cx: &mut Cx) {
    let mut s: Vec<Option<(H<T>, usize)>> = (0..HS).map(|_| None).collect();
    let mut g: Vec<Grp> = Vec::new();
    for op in &c.ops {
        let kind = op[0] % 32;
        let i = (op[0] / 32 % 16) as usize * 2 % HS + (op[1] % 2) as usize;
        let j = (op[0] / 512 % 16) as usize * 2 % HS + (op[1] / 2 % 2) as usize;
        let v = T::norm(op[1]);
        // without allocation-fallible constructors only the first request can be reported
        // (a zero-sized value's box requests nothing, so there it cannot report any)
        let limit = if UNSTABLE { 4 } else { (std::mem::size_of::<T>() > 0) as u64 };
        let faulty = if op[2] < 2 { 0 } else if UNSTABLE { op[2] - 1 } else { 1 };
        cx.steps += 1;
        let what = RNAMES[kind as usize % RNAMES.len()];
        macro_rules! release {
            ($i:expr) => {{
                if let Some((h, gi)) = s[$i].take() {
                    let weak = matches!(h, H::RW(_) | H::AW(_));
                    let (blocks, gone) = (live().0, if weak { g[gi].strong == 0 && g[gi].weak == 1 } else { g[gi].strong == 1 && g[gi].weak == 0 });
                    sut(move || drop(h));
                    if weak {
                        g[gi].weak -= 1;
                    } else {
                        g[gi].strong -= 1;
                        let id = g[gi].id;
                        ck!(id == 0 || is_live(id) == (g[gi].strong > 0), "value {} after releasing a pointer, {} owners left", if is_live(id) { "alive" } else { "dropped" }, g[gi].strong);
                    }
                    if !T::HEAP {
                        ckeq!(blocks - live().0, gone as i64, "blocks released with a pointer ({} owners, {} weak left)", g[gi].strong, g[gi].weak);
                    }
                }
            }};
        }
        match kind {
            0 | 1 | 8 => {
                release!(i);
                let before = live().0;
                let mut made = 0;
                let h = build(cx, faulty, limit, what, || {
                    let x = T::mk(v);
                    made = x.id();
                    (made, if kind == 1 || kind == 8 && v % 2 == 0 { Box::new(move || <Arc<T> as FallibleArc<T>>::try_new(x).map(H::A)) } else { Box::new(move || <Rc<T> as FallibleRc<T>>::try_new(x).map(H::R)) })
                });
                if !T::HEAP {
                    ckeq!(live().0 - before, 1, "blocks taken by {}", what);
                }
                s[i] = Some((h, g.len()));
                g.push(Grp { v, id: made, strong: 1, weak: 0 });
            }
            2 => {
                if i == j {
                    continue;
                }
                if s[i].is_none() {
                    continue;
                }
                release!(j);
                let (h, gi) = s[i].as_ref().unwrap();
                arm(Plan::All);
                let n = sut(|| match h {
                    H::R(r) => H::R(Rc::clone(r)),
                    H::A(a) => match a.try_clone() {
                        Ok(a) => H::A(a),
                        Err(_) => fail!("fallible clone of an atomically counted pointer failed"),
                    },
                    H::RW(w) => H::RW(w.clone()),
                    H::AW(w) => match w.clone() {
                        w => H::AW(w),
                    },
                });
                ckeq!(st().cnt, 0, "requests made by cloning a pointer");
                arm(Plan::None);
                match (&n, h) {
                    (H::A(a), H::A(b)) => ck!(Arc::ptr_eq(a, b), "the clone of an atomically counted pointer points elsewhere"),
                    _ => {}
                }
                let gi = *gi;
                match n {
                    H::R(_) | H::A(_) => g[gi].strong += 1,
                    _ => g[gi].weak += 1,
                }
                s[j] = Some((n, gi));
                cx.nontrivial = true;
                cx.hit("pointer clones");
            }
            3 => {
                if i == j || s[i].is_none() {
                    continue;
                }
                release!(j);
                let (h, gi) = s[i].as_ref().unwrap();
                let n = match h {
                    H::R(r) => H::RW(Rc::downgrade(r)),
                    H::A(a) => H::AW(Arc::downgrade(a)),
                    _ => continue,
                };
                let gi = *gi;
                g[gi].weak += 1;
                s[j] = Some((n, gi));
                cx.nontrivial = true;
            }
            4 => {
                if i == j || s[i].is_none() {
                    continue;
                }
                release!(j);
                let (h, gi) = s[i].as_ref().unwrap();
                let gi = *gi;
                let n = match h {
                    H::RW(r) => r.upgrade().map(H::R),
                    H::AW(a) => a.upgrade().map(H::A),
                    _ => continue,
                };
                ckeq!(n.is_some(), g[gi].strong > 0, "upgrade of a weak pointer with {} owners", g[gi].strong);
                if let Some(n) = n {
                    g[gi].strong += 1;
                    s[j] = Some((n, gi));
                }
            }
            5 => release!(i),
            6 => {
                if let Some((h, gi)) = s[i].take() {
                    let r = match h {
                        H::R(r) => Rc::try_unwrap(r).map_err(H::R),
                        H::A(a) => Arc::try_unwrap(a).map_err(H::A),
                        h => Err(h),
                    };
                    match r {
                        Ok(x) => {
                            x.check();
                            ckeq!(g[gi].strong, 1, "owners of an unwrapped pointer");
                            ckeq!((x.val(), x.id()), (g[gi].v, g[gi].id), "value unwrapped");
                            drop(x);
                            g[gi].strong = 0;
                        }
                        Err(h) => {
                            if matches!(h, H::R(_) | H::A(_)) {
                                ck!(g[gi].strong > 1, "a pointer with one owner does not unwrap");
                            }
                            s[i] = Some((h, gi));
                        }
                    }
                }
            }
            7 => {
                if let Some((h, gi)) = s[i].as_mut() {
                    let gi = *gi;
                    let m = match h {
                        H::R(r) => Rc::get_mut(r),
                        H::A(a) => Arc::get_mut(a),
                        _ => continue,
                    };
                    ckeq!(m.is_some(), g[gi].strong == 1 && g[gi].weak == 0, "get_mut with {} owners and {} weak", g[gi].strong, g[gi].weak);
                    if let Some(m) = m {
                        m.set(v);
                        g[gi].v = v;
                    }
                }
            }
            9 => {
                if let Some((_, gi)) = &s[i] {
                    let gi = *gi;
                    for x in 0..HS {
                        if matches!(&s[x], Some((_, y)) if *y == gi) {
                            release!(x);
                        }
                    }
                    cx.hit("groups released");
                }
            }
            _ => {}
        }
        for (h, gi) in s.iter().flatten() {
            let g = &g[*gi];
            let (st_, wk, val) = match h {
                H::R(r) => (Rc::strong_count(r), Rc::weak_count(r), Some(&**r)),
                H::A(a) => (Arc::strong_count(a), Arc::weak_count(a), Some(&**a)),
                H::RW(r) => (r.strong_count(), if g.strong > 0 { r.weak_count() } else { g.weak }, None),
                H::AW(a) => (a.strong_count(), if g.strong > 0 { a.weak_count() } else { g.weak }, None),
            };
            ckeq!((st_, wk), (g.strong, g.weak), "owners and weak pointers after {}", what);
            if let Some(x) = val {
                x.check();
                ckeq!((x.val(), x.id()), (g.v, g.id), "value shared after {}", what);
            }
        }
        let alive = g.iter().filter(|g| g.strong > 0).count() as i64;
        let held = g.iter().filter(|g| g.strong + g.weak > 0).count() as i64;
        if !T::HEAP {
            ckeq!(live().0, held, "blocks owned after {}", what);
        }
        if T::TRACK {
            let (a, z) = live_elems();
            ckeq!(a + z, alive, "tracked elements after {}", what);
        }
        check_errs();
    }
    for h in s.into_iter().flatten() {
        sut(move || drop(h));
    }
    ckeq!(live(), (0, 0), "blocks and bytes owned at the end");
    let (a, z) = live_elems();
    ckeq!(a + z, 0, "tracked elements at the end");
}

fn main() {
    main_with(&[&PB("B01", false), &PB("B02", true)])
}
