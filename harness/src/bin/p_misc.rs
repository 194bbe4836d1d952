//! X01 (operations that need no memory), X02 (layout independence), X03 (configuration independence), E01 (errors tell what failed).
#![allow(deprecated)]
extern crate alloc as al;
use std::collections::BTreeMap as Ref;
use std::fmt::{Debug, Write as _};
use std::rc::Rc;
use std::sync::Arc;
use vh::fc::{FallibleArc, FallibleBox, FallibleRc, FallibleVec, TryBox, TryClone, TryCollect, TryReserveError, TryVec};
use vh::kv::*;
use vh::vecs::*;
use vh::*;

/// recorded observations
#[derive(Default)]
struct Tr {
    ev: Vec<(&'static str, u64)>,
    /// E01: every error is compared with what really failed
    judge: bool,
    refusals: u64,
    overflows: u64,
    passed_on: u64,
    late: u64,
}
impl Tr {
    fn e(&mut self, t: &'static str, v: u64) {
        let _g = pause();
        self.ev.push((t, v));
    }
    fn r<R>(&mut self, t: &'static str, r: &Result<Result<R, TryReserveError>, Pn>) -> bool {
        let _g = pause();
        let c = match r {
            Ok(Ok(_)) => 0,
            Ok(Err(e)) => {
                self.judge(t, e);
                err_class(e)
            }
            Err(_) => 99,
        };
        cb().fired = 0;
        self.ev.push((t, c));
        c == 0
    }
    /// does the error tell of the request that was refused, or of a size that cannot be?
    fn judge(&mut self, what: &'static str, e: &TryReserveError) {
        if !self.judge {
            return;
        }
        let (no, refused, cnt) = st().prev;
        let failed = cb().fired > 0;
        let said = format!("{:?}", e);
        let shown = format!("{}", e);
        let own = said == format!("{:?}", some_error());
        // the stable hash map and the counted pointers of the unstable configuration make up a layout
        if what.starts_with("hash") && !failed {
            return;
        }
        if failed && (own || refused == 0) {
            ck!(own, "{}: an element's clone failed with {:?}, the operation with {}", what, some_error(), said);
            self.passed_on += 1;
            return;
        }
        ck!(!own, "{}: the error of an element's clone is returned although none failed", what);
        let overflow = said.contains("CapacityOverflow");
        ck!(shown.contains(if overflow { "exceeded" } else { "allocator" }), "{}: {} is shown as {}", what, said, shown);
        if refused == 0 {
            ck!(overflow, "{}: nothing was refused, but the error is {}", what, said);
            ck!(matches!(what, "huge" | "format"), "{}: a size of the caller's choice that can be, yet {}", what, said);
            self.overflows += 1;
            return;
        }
        ck!(!overflow, "{}: the request {:?} was refused, but the error is {}", what, no[0], said);
        if cfg!(feature = "btree") && (what == "rc" || what == "arc") {
            return;
        }
        let ok = no.iter().any(|q| q.refused && said.contains(&format!("size: {},", q.size)) && said.contains(&format!("align: {} ", q.align)));
        ck!(ok, "{}: refused was {:?}, the error is {}", what, no[0], said);
        self.refusals += 1;
        if cnt > refused {
            self.late += 1;
        }
    }
}
/// like vh::arm, but also ends a scheduled failure of a clone
fn arm(p: Plan) {
    if p == Plan::None {
        cb().clone_fail = NEVER;
    } else {
        cb().fired = 0;
    }
    vh::arm(p)
}
fn err_class(e: &TryReserveError) -> u64 {
    if format!("{:?}", e).contains("CapacityOverflow") {
        2
    } else {
        1
    }
}
fn fp<T: Elem>(s: &[T]) -> u64 {
    let mut h = s.len() as u64;
    for x in s {
        x.check();
        h = mix(h ^ x.val()).wrapping_add(1);
    }
    h
}
fn text(s: impl Debug) -> u64 {
    let _g = pause();
    let t = format!("{:?}", s);
    t.bytes().fold(t.len() as u64, |h, b| mix(h ^ b as u64))
}
fn aligned<T>(p: *const T, what: &str) {
    ck!(p as usize % std::mem::align_of::<T>() == 0, "{}: address {:?} is not aligned to {}", what, p, std::mem::align_of::<T>());
}
/// the block holding a non-empty buffer of T
fn buffer<T>(s: &[T], what: &str) {
    aligned(s.as_ptr(), what);
    if !s.is_empty() && std::mem::size_of::<T>() > 0 {
        match unsafe { alloc::block_info(s.as_ptr() as *const u8) } {
            None => fail!("{}: the buffer is not a live block", what),
            Some((n, a)) => {
                ck!(n >= s.len() * std::mem::size_of::<T>() && n % std::mem::size_of::<T>() == 0, "{}: block of {} bytes for {} elements of {}", what, n, s.len(), std::mem::size_of::<T>());
                ckeq!(a, std::mem::align_of::<T>(), "{}: alignment asked for", what);
            }
        }
    }
}

/// common parts of a session
struct Sx<'a> {
    ops: &'a [Op],
    /// domains of element values (keys, values), 0 = everything
    dom: (u64, u64),
    /// refuse memory, try impossible sizes
    faults: bool,
    /// also try requests beyond the first (only where their number is the same everywhere)
    deep: bool,
    tr: &'a mut Tr,
}
impl<'a> Sx<'a> {
    fn plan(&self, op: &Op) -> Plan {
        if self.tr.judge {
            // all of these differ from Plan::None
            if op[2] % 8 < 3 {
                cb().clones = 0;
                cb().clone_fail = op[2] / 8 % 7;
            }
            return match op[2] % 8 {
                0 | 1 => Plan::Once(u64::MAX),
                2..=5 => Plan::Once(op[2] / 8 % 6),
                6 => Plan::From(op[2] / 8 % 4),
                _ => Plan::All,
            };
        }
        if !self.faults && !self.deep {
            return Plan::None;
        }
        match op[2] % 8 {
            6 => Plan::Once(0),
            7 => Plan::All,
            4 | 5 if self.deep => Plan::Once(op[2] / 8 % 6),
            _ => Plan::None,
        }
    }
}
fn dm(d: u64, v: u64) -> u64 {
    if d == 0 {
        v
    } else {
        v % d
    }
}

// ------------------------------------------------------------------ vectors

fn s_vec<T: Elem, V: VL<T> + Debug>(s: &mut Sx, wrap: impl Fn(&V) -> Option<u64>) {
    let mut v = sut(|| V::new());
    let mut w = sut(|| V::new());
    let d = s.dom.0;
    for op in s.ops {
        let val = |i: u64| T::mk(dm(d, mix(op[1].wrapping_add(i))));
        let n = (op[1] % 40) as usize * if op[1] % 97 == 0 { 70 } else if op[1] % 7 == 0 { 8 } else { 1 };
        let len = v.slice().len();
        let plan = s.plan(op);
        let huge = [usize::MAX, usize::MAX - 3, isize::MAX as usize, isize::MAX as usize / 2 + 9, usize::MAX / 3][(op[1] % 5) as usize];
        let what = VN[(op[0] % VN.len() as u64) as usize];
        macro_rules! go {
            ($e:expr) => {{
                arm(plan);
                let r = sut_catch(|| $e);
                arm(Plan::None);
                s.tr.r(what, &r);
                r.ok().and_then(|r| r.ok())
            }};
        }
        match what {
            "push" => {
                let x = val(0);
                go!(v.push(x));
            }
            "push_give_back" | "insert" => {
                let x = val(0);
                let want = x.val();
                let i = if V::TV { 0 } else { op[3] as usize % (len + 1) };
                arm(plan);
                let r = sut_catch(|| if what == "insert" { v.insert(i, x) } else { v.push_gb(x) });
                arm(Plan::None);
                let c = match r {
                    Ok(Ok(())) => 0,
                    Ok(Err((b, e))) => {
                        s.tr.judge(what, &e);
                        ck!(V::TV || b.val() == want, "{}: another element was given back", what);
                        let _g = pause();
                        err_class(&e)
                    }
                    Err(_) => 99,
                };
                s.tr.e(what, c);
            }
            "append" => {
                go!(v.append(&mut w));
            }
            "resize_with" => {
                let m = op[3] as usize % 60 * if op[3] % 89 == 0 { 50 } else { 1 };
                let mut i = 0;
                go!(v.resize_with(m, || {
                    i += 1;
                    val(i)
                }));
            }
            "resize" => {
                let m = op[3] as usize % 60 * if op[3] % 89 == 0 { 50 } else { 1 };
                let x = val(0);
                if let Some(vm) = v.vec_mut() {
                    arm(plan);
                    let r = sut_catch(|| if T::COPY && op[1] % 2 == 0 { T::copy_resize(vm, m, x).unwrap() } else { vm.try_resize_no_copy(m, x) });
                    arm(Plan::None);
                    s.tr.r(what, &r);
                }
            }
            "extend" => {
                let src: Vec<T> = {
                    let mut src = Vec::with_capacity(n);
                    for i in 0..n {
                        src.push(val(i as u64))
                    }
                    src
                };
                if T::COPY && v.vec_mut().is_some() && op[3] % 2 == 0 {
                    let vm = v.vec_mut().unwrap();
                    arm(plan);
                    let r = sut_catch(|| T::copy_extend(vm, &src).unwrap());
                    arm(Plan::None);
                    s.tr.r(what, &r);
                } else {
                    go!(v.extend_nc(&src));
                }
            }
            "reserve" => {
                go!(v.reserve(n));
            }
            "pop" => {
                let x = sut(|| v.pop());
                s.tr.e(what, x.map_or(u64::MAX, |x| x.val()));
            }
            "clear" => {
                sut(|| v.clear());
            }
            "set" => {
                if len > 0 {
                    let sl = v.slice_mut();
                    let k = op[3] as usize % len;
                    sl[k] = val(0);
                    sl.swap(k, len - 1);
                }
            }
            "swap" => std::mem::swap(&mut v, &mut w),
            "clone" => {
                if let Some(x) = go!(v.tclone()) {
                    sut(|| w = x);
                }
            }
            "with_capacity" => {
                if let Some(x) = go!(V::with_cap(n)) {
                    sut(|| v = x);
                }
            }
            "collect" => {
                let mut src = Vec::with_capacity(n);
                for i in 0..n {
                    src.push(val(i as u64));
                }
                if let Some(x) = go!(TryCollect::try_collect::<Vec<T>>(src.into_iter())) {
                    sut(|| v = V::from_vec(x));
                }
            }
            "into_iter" => {
                let x = std::mem::replace(&mut v, sut(|| V::new()));
                let mut it = sut(|| x.into_vec()).into_iter();
                let mut h = 0;
                for k in 0..n {
                    let x = if (op[3] >> (k % 20)) & 1 == 0 { it.next() } else { it.next_back() };
                    h = mix(h ^ x.map_or(77, |x| x.val()));
                }
                s.tr.e(what, h);
                s.tr.e("left", it.len() as u64);
            }
            "huge" if s.faults && std::mem::size_of::<T>() > 0 => {
                let c = if std::mem::size_of::<T>() == 1 && huge <= isize::MAX as usize { usize::MAX } else { huge };
                arm(plan);
                let r = match op[3] % 3 {
                    0 => sut_catch(|| v.reserve(c)),
                    1 => sut_catch(|| V::with_cap(c).map(|_| ())),
                    _ => sut_catch(|| v.resize_with(c, || val(0))),
                };
                arm(Plan::None);
                s.tr.r(what, &r);
            }
            "debug" => {
                let v_ = &v;
                s.tr.e(what, (text(v_) == text(v_.slice())) as u64);
            }
            _ => {}
        }
        s.tr.e("len", v.slice().len() as u64);
        s.tr.e("contents", fp(v.slice()));
        s.tr.e("other", fp(w.slice()));
        let _g = pause();
        s.tr.e("equal", (v.slice() == w.slice()) as u64);
        if let Some(x) = wrap(&v) {
            s.tr.e("wrapped", x);
        }
        buffer(v.slice(), what);
        buffer(w.slice(), what);
        check_errs();
    }
    sut(move || drop((v, w)));
}
const VN: [&str; 19] = ["push", "push_give_back", "insert", "append", "resize_with", "resize", "extend", "reserve", "pop", "clear", "set", "swap", "clone", "with_capacity", "collect", "into_iter", "huge", "debug", "push"];

// ------------------------------------------------------------------ boxes, pointers, nested clones

fn s_ptr<T: Elem>(s: &mut Sx) {
    let d = s.dom.0;
    let mut bs: Vec<Option<Box<T>>> = (0..3).map(|_| None).collect();
    let mut ts: Vec<Option<TryBox<T>>> = (0..3).map(|_| None).collect();
    let mut rs: Vec<Option<Rc<T>>> = (0..3).map(|_| None).collect();
    let mut cs: Vec<Option<Arc<T>>> = (0..3).map(|_| None).collect();
    // a zero-sized value's box makes no request, a pointer always does
    let z = std::mem::size_of::<T>() == 0;
    for op in s.ops {
        let i = (op[1] / 64 % 3) as usize;
        let j = (op[1] / 256 % 3) as usize;
        let x = T::mk(dm(d, op[3]));
        // the second request of a counted pointer can only be reported by the unstable configuration
        let what = PN[(op[0] % PN.len() as u64) as usize];
        let plan = match (s.faults && !z && op[2] % 4 == 3, what) {
            (_, "box" | "trybox" | "clone box" | "clone trybox") if s.tr.judge => s.plan(op),
            (true, _) => Plan::Once(0),
            _ => Plan::None,
        };
        macro_rules! put {
            ($v:expr, $e:expr) => {{
                arm(plan);
                let r = sut_catch(|| $e);
                arm(Plan::None);
                if s.tr.r(what, &r) {
                    let x = r.unwrap_or_else(|_| unreachable!()).unwrap_or_else(|_| unreachable!());
                    sut(|| $v = Some(x));
                }
            }};
        }
        match what {
            "box" => put!(bs[i], <Box<T> as FallibleBox<T>>::try_new(x)),
            "trybox" => put!(ts[i], TryBox::try_new(x)),
            "rc" => put!(rs[i], <Rc<T> as FallibleRc<T>>::try_new(x)),
            "arc" => put!(cs[i], <Arc<T> as FallibleArc<T>>::try_new(x)),
            "clone box" => {
                if let Some(b) = bs[j].take() {
                    put!(bs[i], b.try_clone());
                    bs[j] = Some(b);
                }
            }
            "clone trybox" => {
                if let Some(b) = ts[j].take() {
                    put!(ts[i], b.try_clone());
                    ts[j] = Some(b);
                }
            }
            "clone arc" => {
                if let Some(b) = cs[j].take() {
                    put!(cs[i], b.try_clone());
                    cs[j] = Some(b);
                }
            }
            "raw" => {
                if let Some(b) = ts[j].take() {
                    let p = TryBox::into_raw(b);
                    aligned(p, "into_raw");
                    unsafe { (*p).set(dm(d, op[3])) };
                    ts[j] = Some(unsafe { TryBox::from_raw(p) });
                }
            }
            _ => match op[1] % 4 {
                0 => bs[i] = None,
                1 => ts[i] = None,
                2 => rs[i] = None,
                _ => cs[i] = None,
            },
        }
        for k in 0..3 {
            let mut see = |t: &'static str, x: Option<&T>| {
                if let Some(x) = x {
                    x.check()
                }
                s.tr.e(t, x.map_or(u64::MAX, |x| x.val()));
            };
            see("box value", bs[k].as_deref());
            see("trybox value", ts[k].as_deref());
            see("rc value", rs[k].as_deref());
            see("arc value", cs[k].as_deref());
            s.tr.e("owners", cs[k].as_ref().map_or(0, |c| Arc::strong_count(c) as u64) + 10 * rs[k].as_ref().map_or(0, |c| Rc::strong_count(c) as u64));
        }
        check_errs();
    }
    sut(move || drop((bs, ts, rs, cs)));
}
const PN: [&str; 10] = ["box", "trybox", "rc", "arc", "clone box", "clone trybox", "clone arc", "raw", "drop", "box"];

fn s_clone<T: Elem>(s: &mut Sx) {
    let d = s.dom.0;
    let mut v: Vec<Option<Box<TryVec<T>>>> = Vec::new();
    let mut c: Option<Vec<Option<Box<TryVec<T>>>>> = None;
    let fpv = |v: &Vec<Option<Box<TryVec<T>>>>| v.iter().fold(v.len() as u64, |h, x| mix(h ^ x.as_ref().map_or(5, |b| fp(b.as_slice()))));
    for op in s.ops {
        match op[0] % 8 {
            0 | 1 | 2 => {
                let mut t = TryVec::new();
                for i in 0..op[1] % 9 {
                    let x = T::mk(dm(d, mix(op[1] ^ i)));
                    sut(|| t.push(x)).unwrap_or_else(|_| fail!("push failed"));
                }
                let b = sut(|| <Box<_> as FallibleBox<_>>::try_new(t)).unwrap_or_else(|_| fail!("Box::try_new failed"));
                sut(|| v.try_push(if op[1] % 5 == 0 { None } else { Some(b) })).unwrap_or_else(|_| fail!("try_push failed"));
            }
            3 | 4 => {
                // the number of requests is the same for every element with a size
                let plan = if s.tr.judge { s.plan(op) } else { Plan::None };
                arm(if s.tr.judge { plan } else if s.faults && std::mem::size_of::<T>() > 0 { [Plan::Once(op[3] % 6), Plan::From(op[3] % 6), Plan::None][(op[2] % 3) as usize] } else { Plan::None });
                let r = sut_catch(|| v.try_clone());
                arm(Plan::None);
                if s.tr.r("nested clone", &r) {
                    let x = r.unwrap_or_else(|_| unreachable!()).unwrap_or_else(|_| unreachable!());
                    sut(|| c = Some(x));
                }
            }
            5 => {
                let t = TryVec::from(v.drain(..).flatten().map(|b| *b).collect::<Vec<_>>());
                let plan = if s.tr.judge { s.plan(op) } else { Plan::None };
                arm(plan);
                let r = sut_catch(|| t.concat());
                arm(Plan::None);
                if s.tr.r("concat", &r) {
                    let x = r.unwrap_or_else(|_| unreachable!()).unwrap_or_else(|_| unreachable!());
                    buffer(x.as_slice(), "concat");
                    s.tr.e("concatenated", fp(x.as_slice()));
                }
            }
            6 => {
                if let Some(c) = &mut c {
                    if let Some(Some(b)) = c.first_mut() {
                        let x = T::mk(dm(d, op[3]));
                        sut(|| b.push(x)).unwrap_or_else(|_| fail!("push failed"));
                    }
                }
            }
            _ => std::mem::swap(&mut v, c.get_or_insert_with(Vec::new)),
        }
        s.tr.e("nested", fpv(&v));
        s.tr.e("nested copy", c.as_ref().map_or(0, fpv));
        check_errs();
    }
    sut(move || drop((v, c)));
}

// ------------------------------------------------------------------ formatting, input/output (configurations only)

fn s_fmt(s: &mut Sx) {
    for op in s.ops {
        let t: String = (0..op[1] % 30).map(|i| char::from_u32((mix(op[1] + i) % 0x300 + 32) as u32).unwrap_or('?')).collect();
        let want = format!("{}|{:>8}|{:?}|{:x}", t, op[3], t, op[0]);
        let cap = match op[2] % 4 {
            0 => want.len(),
            1 => want.len() + (op[3] % 100) as usize,
            2 => (op[3] % 100) as usize,
            _ => [usize::MAX, isize::MAX as usize + 1, 1 << (usize::BITS - 14), 0][(op[3] % 4) as usize],
        };
        arm([Plan::None, Plan::None, Plan::Once(0)][(op[2] / 4 % 3) as usize]);
        // growth beyond the capacity is outside the promise
        if cap < want.len() {
            arm(Plan::None);
        }
        let r = sut_catch(|| vh::fc::format::try_format(cap, format_args!("{}|{:>8}|{:?}|{:x}", t, op[3], t, op[0])));
        arm(Plan::None);
        if s.tr.r("format", &r) {
            let x = r.unwrap_or_else(|_| unreachable!()).unwrap_or_else(|_| unreachable!());
            s.tr.e("text", text(&x));
            ckeq!(x, want, "formatted text");
        }
    }
}

#[cfg(feature = "stdio")]
fn s_io(s: &mut Sx) {
    use std::io::{Cursor, Read, Write};
    use vh::fc::std_io::{try_read_up_to, TryRead};
    let mut v: TryVec<u8> = sut(TryVec::new);
    for op in s.ops {
        let data: Vec<u8> = (0..op[1] % 300).map(|i| mix(op[1] ^ i) as u8).collect();
        let plan = [Plan::None, Plan::None, Plan::Once(0), Plan::All][(op[2] % 4) as usize];
        let mut cur = Cursor::new(&data);
        let limit = match op[3] % 5 {
            0 => data.len() as u64,
            1 => op[3] / 5 % 400,
            2 => u64::MAX - op[3] / 5 % 3,
            _ => op[3] / 5 % (data.len() as u64 + 3),
        };
        arm(plan);
        let r = sut_catch(|| match op[0] % 6 {
            0 => v.write(&data),
            1 => v.write_all(&data).map(|_| 1),
            2 => write!(v, "{}-{:?}", op[1], op[3]).map(|_| 2),
            3 => try_read_up_to(&mut cur, limit, &mut v),
            4 => cur.by_ref().take(limit).try_read_to_end(&mut v),
            _ => cur.by_ref().take(limit).read_into_try_vec().map(|x| {
                let _g = pause();
                x.len() * 1000 + text(&x[..]) as usize % 1000
            }),
        });
        arm(Plan::None);
        let _g = pause();
        let c = match &r {
            Ok(Ok(n)) => *n as u64,
            Ok(Err(e)) => {
                if s.tr.judge {
                    let prev = st().prev;
                    ckeq!(e.kind(), std::io::ErrorKind::OutOfMemory, "kind of the error of exhausted memory (operation {}, limit {}, refused {:?})", op[0] % 6, limit, &prev.0[..prev.1.min(1) as usize]);
                    s.tr.refusals += 1;
                    s.tr.late += (op[0] % 6 > 0) as u64;
                }
                u64::MAX
            }
            Err(_) => u64::MAX - 1,
        };
        s.tr.e("io", c);
        s.tr.e("position", cur.position());
        s.tr.e("buffer", text(&v[..]));
    }
    sut(move || drop(v));
}

// ------------------------------------------------------------------ hash map

#[cfg(feature = "hash")]
fn s_hash<K: Key, V: Elem>(s: &mut Sx) {
    use vh::fc::TryHashMap;
    let (dk, dv) = s.dom;
    let mut m: TryHashMap<K, V> = sut(TryHashMap::default);
    let mut o: TryHashMap<K, V> = sut(TryHashMap::default);
    let fph = |m: &TryHashMap<K, V>| {
        let _g = pause();
        let mut v: Vec<(u64, u64)> = m
            .iter()
            .map(|(k, v)| {
                k.check();
                v.check();
                (k.val(), v.val())
            })
            .collect();
        v.sort();
        v.iter().fold(m.len() as u64, |h, x| mix(h ^ x.0 ^ mix(x.1)))
    };
    for op in s.ops {
        let k = dm(dk, op[1] % 60);
        let (key, val) = (K::mk(k), V::mk(dm(dv, op[3])));
        match op[0] % 8 {
            0 | 1 | 2 => {
                let mut first = s.faults && op[2] % 4 == 3 && m.len() == 0;
                // an empty map has no room: its first insertion asks for memory in every configuration
                if first {
                    m = sut(TryHashMap::default);
                    first = true;
                }
                arm(if first { Plan::Once(0) } else { Plan::None });
                let r = sut_catch(|| m.insert(key, val));
                arm(Plan::None);
                s.tr.r("hash insert", &r);
                if let Ok(Ok(old)) = r {
                    s.tr.e("replaced", old.map_or(u64::MAX, |v| v.val()));
                }
            }
            3 => {
                let r = sut(|| K::with_q(k, |q| m.remove(q)));
                s.tr.e("hash remove", r.map_or(u64::MAX, |v| v.val()));
            }
            4 => {
                let r = sut(|| K::with_q(k, |q| m.get(q)));
                if let Some(v) = r {
                    v.check();
                    aligned(v, "get");
                }
                s.tr.e("hash get", r.map_or(u64::MAX, |v| v.val()));
            }
            5 => {
                let plan = if s.tr.judge { s.plan(op) } else { Plan::None };
                arm(if s.tr.judge { plan } else if s.faults && op[2] % 3 == 0 && m.len() > 0 { Plan::Once(0) } else { Plan::None });
                let r = sut_catch(|| m.try_clone());
                arm(Plan::None);
                s.tr.r("hash clone", &r);
                if let Ok(Ok(c)) = r {
                    sut(|| o = c);
                }
            }
            6 => {
                let n = if s.faults && op[1] % 3 == 0 { [usize::MAX, 1 << (usize::BITS - 3), isize::MAX as usize][(op[3] % 3) as usize] } else { 1 + op[1] as usize % 200 };
                arm(if s.faults && op[2] % 3 == 0 { Plan::Once(0) } else { Plan::None });
                let r = sut_catch(|| TryHashMap::with_capacity(n));
                arm(Plan::None);
                s.tr.r("hash with_capacity", &r);
                if let Ok(Ok(c)) = r {
                    sut(|| m = c);
                }
            }
            _ => {
                std::mem::swap(&mut m, &mut o);
                if op[1] % 4 == 0 {
                    let x = std::mem::replace(&mut m, sut(TryHashMap::default));
                    s.tr.e("hash into_iter", sut(|| x.into_iter()).count() as u64);
                }
            }
        }
        s.tr.e("hash contents", fph(&m));
        s.tr.e("hash other", fph(&o));
        check_errs();
    }
    sut(move || drop((m, o)));
}

// ------------------------------------------------------------------ ordered maps and sets

#[cfg(feature = "btree")]
mod bt {
    use super::*;
    use std::ops::Bound::*;
    use vh::fc::btree::map::Entry;
    use vh::fc::btree::{BTreeMap, BTreeSet};

    fn fpm<'a, K: Key, V: Elem>(it: impl Iterator<Item = (&'a K, &'a V)>) -> u64 {
        let _g = pause();
        it.fold(3, |h, (k, v)| {
            k.check();
            v.check();
            mix(h ^ k.val() ^ mix(v.val()))
        })
    }
    pub fn s_map<K: Key, V: Elem>(s: &mut Sx) {
        let (dk, dv) = s.dom;
        let mut m: BTreeMap<K, V> = sut(BTreeMap::new);
        let mut o: BTreeMap<K, V> = sut(BTreeMap::new);
        for op in s.ops {
            let k = dm(dk, op[1] % 400);
            let k2 = dm(dk, op[3] % 400);
            let plan = s.plan(op);
            let what = MN[(op[0] % MN.len() as u64) as usize];
            macro_rules! go {
                ($e:expr) => {{
                    arm(plan);
                    let r = sut_catch(|| $e);
                    let n = st().cnt;
                    arm(Plan::None);
                    s.tr.r(what, &r);
                    if s.deep {
                        s.tr.e("requests", n);
                    }
                    r.ok().and_then(|r| r.ok())
                }};
            }
            match what {
                "insert" => {
                    let (kk, v) = (K::mk(k), V::mk(dm(dv, op[3])));
                    if let Some(r) = go!(m.try_insert(kk, v)) {
                        s.tr.e("replaced", r.map_or(u64::MAX, |v| v.val()));
                    }
                }
                "run" => {
                    for x in 0..op[3] % 60 * if op[3] % 13 == 0 { 9 } else { 1 } {
                        let (kk, v) = (K::mk(dm(dk, (k + x) % 400)), V::mk(dm(dv, mix(x))));
                        go!(m.try_insert(kk, v).map(|_| ()));
                    }
                }
                "remove" => {
                    let r = sut(|| K::with_q(k, |q| m.remove(q)));
                    s.tr.e(what, r.map_or(u64::MAX, |v| v.val()));
                }
                "remove run" => {
                    for x in 0..op[3] % 60 * if op[3] % 13 == 0 { 9 } else { 1 } {
                        let r = sut(|| K::with_q(dm(dk, (k + x) % 400), |q| m.remove(q)));
                        s.tr.e(what, r.map_or(u64::MAX, |v| v.val()));
                    }
                }
                "get" => {
                    let r = sut(|| K::with_q(k, |q| m.get_key_value(q)));
                    if let Some((a, b)) = r {
                        aligned(a, "get_key_value");
                        aligned(b, "get_key_value");
                        a.check();
                        b.check();
                    }
                    s.tr.e(what, r.map_or(u64::MAX, |v| v.1.val()));
                    let r = sut(|| K::with_q(k, |q| m.get_mut(q)));
                    if let Some(v) = r {
                        v.set(dm(dv, op[3]));
                    }
                }
                "entry" => {
                    let (kk, v) = (K::mk(k), V::mk(dm(dv, op[3])));
                    let d = |x: &V| x.val();
                    let r = go!(match m.try_entry(kk)? {
                        Entry::Occupied(e) if op[3] % 3 == 0 => Ok(d(&e.remove())),
                        Entry::Occupied(mut e) => Ok(d(&e.insert(v))),
                        Entry::Vacant(e) => e.try_insert(v).map(|x| d(x)),
                    });
                    s.tr.e("entry result", r.unwrap_or(u64::MAX));
                }
                "range" => {
                    let (a, b) = if k <= k2 { (k, k2) } else { (k2, k) };
                    let (a, b) = (Included(a), if op[1] % 2 == 0 { Included(b) } else { Unbounded });
                    let r = sut(|| {
                        let g = |lo: std::ops::Bound<&K::Q>, hi: std::ops::Bound<&K::Q>| {
                            let mut it = m.range((lo, hi));
                            let mut h = 0;
                            let mut back = 0;
                            loop {
                                let x = if (op[3] >> (back % 16)) & 1 == 0 { it.next() } else { it.next_back() };
                                back += 1;
                                match x {
                                    Some((k, v)) => {
                                        aligned(k, "range");
                                        aligned(v, "range");
                                        h = mix(h ^ k.val() ^ mix(v.val()))
                                    }
                                    None => break h,
                                }
                            }
                        };
                        match (a, b) {
                            (Included(a), Included(b)) => K::with_q(a, |a| K::with_q(b, |b| g(Included(a), Included(b)))),
                            (Included(a), _) => K::with_q(a, |a| g(Included(a), Unbounded)),
                            _ => 0,
                        }
                    });
                    s.tr.e(what, r);
                }
                "append" => {
                    let r = sut_catch(|| m.append(&mut o));
                    s.tr.e(what, r.is_ok() as u64);
                }
                "split_off" => {
                    let r = go!(K::with_q(k, |q| m.split_off(q)));
                    if let Some(x) = r {
                        sut(|| o = x);
                    }
                }
                "clone" => {
                    if let Some(x) = go!(m.try_clone()) {
                        sut(|| o = x);
                    }
                }
                "swap" => std::mem::swap(&mut m, &mut o),
                "values_mut" => {
                    let mut n = 0;
                    for (k, v) in sut(|| m.iter_mut()) {
                        k.check();
                        v.check();
                        if n % 3 == op[3] % 3 {
                            v.set(dm(dv, op[1] + n));
                        }
                        n += 1;
                    }
                }
                "clear" if op[3] % 4 == 0 => sut(|| m.clear()),
                "into_iter" if op[3] % 4 == 0 => {
                    let x = std::mem::replace(&mut m, sut(BTreeMap::new));
                    let mut it = sut(|| x.into_iter());
                    let mut h = 0;
                    for i in 0..op[1] % 40 {
                        let e = sut(|| if (op[3] >> (i % 18)) & 2 == 0 { it.next() } else { it.next_back() });
                        h = mix(h ^ e.map_or(9, |(k, v)| k.val() ^ mix(v.val())));
                    }
                    s.tr.e(what, h);
                    sut(move || drop(it));
                }
                "debug" => s.tr.e(what, (text(&m) == text(m.iter().collect::<Ref<_, _>>())) as u64),
                _ => {}
            }
            s.tr.e("map", m.len() as u64);
            s.tr.e("entries", fpm(m.iter()));
            s.tr.e("back", fpm(m.iter().rev()));
            s.tr.e("other", fpm(o.iter()));
            check_errs();
        }
        sut(move || drop((m, o)));
    }
    const MN: [&str; 17] = ["insert", "insert", "run", "run", "remove", "remove run", "get", "entry", "range", "append", "split_off", "clone", "swap", "values_mut", "clear", "into_iter", "debug"];

    pub fn s_set<K: Key>(s: &mut Sx) {
        let d = s.dom.0;
        let mut a: BTreeSet<K> = sut(BTreeSet::new);
        let mut b: BTreeSet<K> = sut(BTreeSet::new);
        let fps = |it: &mut dyn Iterator<Item = &K>| {
            let _g = pause();
            let mut h = 3;
            for k in it {
                k.check();
                aligned(k, "set iteration");
                h = mix(h ^ k.val());
            }
            h
        };
        for op in s.ops {
            let k = dm(d, op[1] % 300);
            let plan = s.plan(op);
            let what = SN[(op[0] % SN.len() as u64) as usize];
            macro_rules! go {
                ($e:expr) => {{
                    arm(plan);
                    let r = sut_catch(|| $e);
                    let n = st().cnt;
                    arm(Plan::None);
                    s.tr.r(what, &r);
                    if s.deep {
                        s.tr.e("requests", n);
                    }
                    r.ok().and_then(|r| r.ok())
                }};
            }
            match what {
                "insert" => {
                    let x = K::mk(k);
                    let r = go!(a.try_insert(x));
                    s.tr.e("new", r.map_or(7, |r| r as u64));
                }
                "run" => {
                    for x in 0..op[3] % 50 {
                        let x = K::mk(dm(d, (k + x * (1 + op[1] % 3)) % 300));
                        go!(a.try_insert(x));
                    }
                }
                "replace" => {
                    let x = K::mk(k);
                    let r = go!(a.replace(x));
                    s.tr.e("replaced", r.flatten().map_or(u64::MAX, |x| x.val()));
                }
                "take" => {
                    let r = sut(|| K::with_q(k, |q| a.take(q)));
                    s.tr.e(what, r.map_or(u64::MAX, |x| x.val()));
                }
                "remove" => {
                    for x in 0..op[3] % 40 {
                        let r = sut(|| K::with_q(dm(d, (k + x) % 300), |q| a.remove(q)));
                        s.tr.e(what, r as u64);
                    }
                }
                "append" => {
                    let r = sut_catch(|| a.append(&mut b));
                    s.tr.e(what, r.is_ok() as u64);
                }
                "split_off" => {
                    if let Some(x) = go!(K::with_q(k, |q| a.try_split_off(q))) {
                        sut(|| b = x);
                    }
                }
                "algebra" => {
                    let (u, i, df, sd) = sut(|| (fps(&mut a.union(&b)), fps(&mut a.intersection(&b)), fps(&mut a.difference(&b)), fps(&mut a.symmetric_difference(&b))));
                    for x in [u, i, df, sd] {
                        s.tr.e(what, x);
                    }
                    s.tr.e("predicates", sut(|| a.is_subset(&b) as u64 + 2 * a.is_disjoint(&b) as u64 + 4 * a.is_superset(&b) as u64));
                }
                _ => std::mem::swap(&mut a, &mut b),
            }
            s.tr.e("a", a.len() as u64);
            s.tr.e("elements", fps(&mut a.iter()));
            s.tr.e("back", fps(&mut a.iter().rev()));
            s.tr.e("b", fps(&mut b.iter()));
            check_errs();
        }
        sut(move || drop((a, b)));
    }
    const SN: [&str; 10] = ["insert", "run", "run", "replace", "take", "remove", "append", "split_off", "algebra", "swap"];
}

// ------------------------------------------------------------------ X02

struct X02;
fn run1<T: Elem>(area: u64, s: &mut Sx) {
    match area {
        0 => s_vec::<T, Vec<T>>(s, |_| None),
        1 => s_vec::<T, TryVec<T>>(s, |v| Some((v == &v.as_slice()) as u64)),
        2 => s_ptr::<T>(s),
        _ => s_clone::<T>(s),
    }
}
const NL: u64 = 15;
fn lname(i: u64) -> &'static str {
    ["tracked 16B", "tracked 256B", "align 64", "align 16", "align 128", "256B align 64", "tracked zst", "owning a box", "u8", "u16", "bool", "zst", "[u8;3]", "1.5KiB", "2KiB"][(i % NL) as usize]
}
fn layout<F: ElemFn>(i: u64, f: F) {
    match i % NL {
        0 => f.call::<E>(),
        1 => f.call::<Big>(),
        2 => f.call::<E64>(),
        3 => f.call::<E16>(),
        4 => f.call::<E128>(),
        5 => f.call::<Big64>(),
        6 => f.call::<Z>(),
        7 => f.call::<BE>(),
        8 => f.call::<u8>(),
        9 => f.call::<u16>(),
        10 => f.call::<bool>(),
        11 => f.call::<U0>(),
        12 => f.call::<B3>(),
        13 => f.call::<K1>(),
        _ => f.call::<Huge>(),
    }
}
struct Go1<'a>(u64, &'a [Op], &'a mut Vec<Tr>);
impl<'a> ElemFn for Go1<'a> {
    fn call<T: Elem>(self) {
        let mut a = Tr::default();
        let mut b = Tr::default();
        let dom = (T::DOM, T::DOM);
        run1::<u64>(self.0, &mut Sx { ops: self.1, dom, faults: false, deep: false, tr: &mut a });
        run1::<T>(self.0, &mut Sx { ops: self.1, dom, faults: false, deep: false, tr: &mut b });
        self.2.push(a);
        self.2.push(b);
    }
}
struct Go2<'a>(u64, &'a [Op], &'a mut Vec<Tr>);
impl<'a> KvFn for Go2<'a> {
    fn call<K: Key, V: Elem>(self) {
        let mut a = Tr::default();
        let mut b = Tr::default();
        let dom = (K::DOM, V::DOM);
        #[cfg(feature = "btree")]
        {
            // the number of requests depends on the shape of the tree only, unless the elements make their own
            let deep = !K::HEAP && !V::HEAP;
            if self.0 == 5 {
                bt::s_set::<u64>(&mut Sx { ops: self.1, dom, faults: false, deep, tr: &mut a });
                bt::s_set::<K>(&mut Sx { ops: self.1, dom, faults: false, deep, tr: &mut b });
            } else {
                bt::s_map::<u64, u64>(&mut Sx { ops: self.1, dom, faults: false, deep, tr: &mut a });
                bt::s_map::<K, V>(&mut Sx { ops: self.1, dom, faults: false, deep, tr: &mut b });
            }
        }
        #[cfg(feature = "hash")]
        {
            s_hash::<u64, u64>(&mut Sx { ops: self.1, dom, faults: false, deep: false, tr: &mut a });
            s_hash::<K, V>(&mut Sx { ops: self.1, dom, faults: false, deep: false, tr: &mut b });
        }
        self.2.push(a);
        self.2.push(b);
    }
}
const ANAMES: [&str; 8] = ["Vec", "TryVec", "boxes and pointers", "nested clones", "map", "set", "map", "map"];
fn rops(r: &mut Rng, n: u64) -> Vec<Op> {
    (0..n).map(|_| [r.below(1 << 16), r.below(1 << 16), r.below(64), r.below(1 << 16)]).collect()
}
impl Prop for X02 {
    fn id(&self) -> &'static str {
        "X02"
    }
    fn rule(&self) -> &'static str {
        "the history ran on a layout other than plain integers and left at least ten observations that are not constant"
    }
    fn gen(&self, r: &mut Rng) -> Case {
        let n = r.range(2, 40);
        Case { h: vec![r.below(8), r.below(NL * 14)], ops: rops(r, n) }
    }
    fn desc(&self, c: &Case) -> String {
        let a = c.hv(0) % 8;
        format!("{} of {}; {} operations: {}", ANAMES[a as usize], if a < 4 || self.id() == "X03" && a == 7 { lname(c.hv(1)) } else { kv_name(c.hv(1)) }, c.ops.len(), c.text().replace('\n', "; "))
    }
    fn run(&self, c: &Case, cx: &mut Cx) {
        let a = c.hv(0) % 8;
        let mut t = Vec::new();
        if a < 4 {
            layout(c.hv(1), Go1(a, &c.ops, &mut t));
        } else {
            with_kv(c.hv(1), Go2(a, &c.ops, &mut t));
        }
        cx.steps += c.ops.len() as u64;
        let name = if a < 4 { lname(c.hv(1)) } else { kv_name(c.hv(1)) };
        for (i, (x, y)) in t[0].ev.iter().zip(&t[1].ev).enumerate() {
            if x != y {
                fail!("observation {} of the history on {} of {} is {} = {}, on plain integers {} = {}", i, ANAMES[a as usize], name, y.0, y.1, x.0, x.1)
            }
        }
        ckeq!(t[1].ev.len(), t[0].ev.len(), "observations on {} of {}", ANAMES[a as usize], name);
        let distinct: std::collections::HashSet<_> = t[0].ev.iter().collect();
        cx.nontrivial = distinct.len() >= 10;
        cx.add("observations compared", t[0].ev.len() as u64);
        cx.hit(ANAMES[a as usize]);
        drop(t);
        ckeq!(live(), (0, 0), "blocks and bytes owned at the end");
        ckeq!(live_elems(), (0, 0), "tracked elements at the end");
    }
}

// ------------------------------------------------------------------ X03

struct X03;
const CNAMES: [&str; 8] = ["Vec", "TryVec", "boxes and pointers", "nested clones", "formatting", "input/output", "hash map", "Vec"];
struct Go3<'a>(u64, &'a [Op], &'a mut Tr);
impl<'a> ElemFn for Go3<'a> {
    fn call<T: Elem>(self) {
        run1::<T>(self.0, &mut Sx { ops: self.1, dom: (T::DOM, T::DOM), faults: true, deep: false, tr: self.2 });
    }
}
#[cfg(feature = "hash")]
struct Go4<'a>(&'a [Op], &'a mut Tr);
#[cfg(feature = "hash")]
impl<'a> KvFn for Go4<'a> {
    fn call<K: Key, V: Elem>(self) {
        s_hash::<K, V>(&mut Sx { ops: self.0, dom: (K::DOM, V::DOM), faults: true, deep: false, tr: self.1 });
    }
}
impl Prop for X03 {
    fn id(&self) -> &'static str {
        "X03"
    }
    fn rule(&self) -> &'static str {
        "the history left at least ten observations that are not constant, in an area the configuration offers"
    }
    fn gen(&self, r: &mut Rng) -> Case {
        let n = r.range(2, 30);
        Case { h: vec![r.below(8), r.below(NL * 14)], ops: rops(r, n) }
    }
    fn desc(&self, c: &Case) -> String {
        let a = c.hv(0) % 8;
        format!("{} of {}; {} operations: {}", CNAMES[a as usize], if a < 4 || self.id() == "X03" && a == 7 { lname(c.hv(1)) } else { kv_name(c.hv(1)) }, c.ops.len(), c.text().replace('\n', "; "))
    }
    fn run(&self, c: &Case, cx: &mut Cx) {
        let a = c.hv(0) % 8;
        let mut t = Tr::default();
        cx.steps += c.ops.len() as u64;
        match a {
            4 => s_fmt(&mut Sx { ops: &c.ops, dom: (0, 0), faults: true, deep: false, tr: &mut t }),
            5 => {
                #[cfg(feature = "stdio")]
                s_io(&mut Sx { ops: &c.ops, dom: (0, 0), faults: true, deep: false, tr: &mut t });
            }
            6 => {
                #[cfg(feature = "hash")]
                with_kv(c.hv(1), Go4(&c.ops, &mut t));
            }
            7 => layout(c.hv(1), Go3(0, &c.ops, &mut t)),
            _ => layout(c.hv(1), Go3(a, &c.ops, &mut t)),
        }
        // an area this configuration does not offer leaves the digest at zero: not compared
        for (x, y) in &t.ev {
            cx.obs(x, *y);
        }
        let distinct: std::collections::HashSet<_> = t.ev.iter().collect();
        cx.nontrivial = distinct.len() >= 10;
        cx.add("observations", t.ev.len() as u64);
        cx.hit(CNAMES[a as usize]);
        drop(t);
        ckeq!(live(), (0, 0), "blocks and bytes owned at the end");
        ckeq!(live_elems(), (0, 0), "tracked elements at the end");
    }
}

// ------------------------------------------------------------------ X01

struct X01;

/// run f with memory exhausted: it must neither fail nor ask
fn free<R>(what: &str, f: impl FnOnce() -> R) -> R {
    arm(Plan::All);
    let r = sut_catch(f);
    let n = st().cnt;
    arm(Plan::None);
    match r {
        Ok(r) => {
            ckeq!(n, 0, "memory requests made by {}", what);
            r
        }
        Err(p) => fail!("{} with memory exhausted: panic {:?}", what, p),
    }
}
/// writes into nothing
struct Sink(u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

fn x_vec<T: Elem, V: VL<T> + Debug>(ops: &[Op], cx: &mut Cx) {
    let mut v = free("new", || V::new());
    let mut m: Vec<(u64, u64)> = Vec::new();
    let mut room = 0usize;
    for op in ops {
        let what = VXN[(op[0] % VXN.len() as u64) as usize];
        let n = op[1] as usize % 50;
        let val = |i: u64| T::mk(T::norm(mix(op[1] + i)));
        cx.steps += 1;
        match what {
            "grow" => {
                sut(|| v.reserve(n + (op[3] % 5) as usize)).unwrap_or_else(|_| fail!("reserve failed"));
                for i in 0..n {
                    let x = val(i as u64);
                    m.push((x.val(), x.id()));
                    sut(|| v.push(x)).unwrap_or_else(|_| fail!("push failed"));
                }
                room = (op[3] % 5) as usize;
                cx.nontrivial |= n > 0;
            }
            "push within capacity" => {
                while room > 0 {
                    let x = val(0);
                    m.push((x.val(), x.id()));
                    free(what, || v.push(x)).unwrap_or_else(|_| fail!("push within the reserved room failed"));
                    room -= 1;
                }
            }
            "pop" => {
                let x = free(what, || v.pop());
                ckeq!(x.map(|x| (x.val(), x.id())), m.pop(), "popped element");
                room = 0;
            }
            "clear" => {
                if op[3] % 3 == 0 {
                    free(what, || v.clear());
                    m.clear();
                    room = 0;
                }
            }
            "iterate" => {
                let h = free(what, || v.slice().iter().rev().fold(0u64, |h, x| mix(h ^ x.val())));
                ckeq!(h, m.iter().rev().fold(0u64, |h, x| mix(h ^ x.0)), "iteration");
                free(what, || v.slice_mut().iter_mut().for_each(|x| x.check()));
            }
            "in place" => {
                free(what, || v.slice_mut().reverse());
                m.reverse();
                if !m.is_empty() {
                    let k = op[3] as usize % m.len();
                    free(what, || {
                        let x = &mut v.slice_mut()[k];
                        x.set(x.val());
                    });
                }
            }
            "compare" => {
                let r = free(what, || v.slice() == v.slice() && v.slice().cmp(v.slice()).is_eq());
                ck!(r, "a vector differs from itself");
            }
            "debug" => {
                let v = &v;
                free(what, || {
                    let mut s = Sink(0);
                    let _ = write!(s, "{:?}", v);
                });
            }
            "reserve satisfied" => free(what, || v.reserve(room)).unwrap_or_else(|_| fail!("a satisfied reservation failed")),
            "append empty" => {
                let mut e = free("new", || V::new());
                free(what, || v.append(&mut e)).unwrap_or_else(|_| fail!("append of an empty vector failed"));
            }
            "extend by nothing" => {
                free(what, || v.extend_nc(&[])).unwrap_or_else(|_| fail!("extending by nothing failed"));
            }
            "shrink" => {
                let k = m.len().saturating_sub(op[3] as usize % 4);
                free(what, || v.resize_with(k, || val(0))).unwrap_or_else(|_| fail!("shrinking failed"));
                m.truncate(k);
                room = 0;
            }
            "clone of empty" => {
                let e = free("new", || V::new());
                let c = free(what, || e.tclone());
                ck!(c.is_ok(), "clone of an empty vector failed");
            }
            "take over" => {
                let x = std::mem::replace(&mut v, free("new", || V::new()));
                let raw: Vec<T> = sut(|| x.into_vec());
                let p = raw.as_ptr();
                v = free(what, || V::from_vec(raw));
                ck!(v.slice().as_ptr() == p || m.is_empty(), "taking over storage moved the elements");
                room = 0;
            }
            "consume" => {
                if op[3] % 3 == 0 {
                    let x = std::mem::replace(&mut v, free("new", || V::new()));
                    let raw: Vec<T> = sut(|| x.into_vec());
                    let t: TryVec<T> = free("from", || TryVec::from(raw));
                    let k = op[1] as usize % (m.len() + 1);
                    let h = free(what, || {
                        let mut it = t.into_iter();
                        let mut h = 0;
                        for i in 0..k {
                            let x = if (op[3] >> (i % 14)) & 1 == 0 { it.next() } else { it.next_back() };
                            h += x.map_or(0, |_| 1);
                        }
                        h + it.len()
                    });
                    ckeq!(h, m.len(), "elements yielded and left");
                    m.clear();
                    room = 0;
                }
            }
            _ => {}
        }
        ckeq!(v.slice().len(), m.len(), "length after {}", what);
        for (x, e) in v.slice().iter().zip(&m) {
            x.check();
            ckeq!((x.val(), x.id()), *e, "element after {}", what);
        }
        check_errs();
    }
    free("drop", move || drop(v));
}
const VXN: [&str; 16] = ["grow", "push within capacity", "pop", "clear", "iterate", "in place", "compare", "debug", "reserve satisfied", "append empty", "extend by nothing", "shrink", "clone of empty", "take over", "consume", "grow"];

fn x_ptr<T: Elem>(ops: &[Op], cx: &mut Cx) {
    for op in ops {
        cx.steps += 1;
        let x = T::mk(op[1]);
        let (v, id) = (x.val(), x.id());
        match op[0] % 4 {
            0 => {
                let b = sut(|| TryBox::try_new(x)).unwrap_or_else(|_| fail!("TryBox::try_new failed"));
                let b = free("into_raw and from_raw", || unsafe { TryBox::from_raw(TryBox::into_raw(b)) });
                ckeq!(free("deref", || (b.val(), b.id())), (v, id), "boxed value");
                free("drop", move || drop(b));
                cx.nontrivial = true;
            }
            1 => {
                let a = sut(|| <Arc<T> as FallibleArc<T>>::try_new(x)).unwrap_or_else(|_| fail!("Arc::try_new failed"));
                let c = free("clone of an atomically counted pointer", || a.try_clone()).unwrap_or_else(|_| fail!("clone of an atomically counted pointer failed"));
                ck!(Arc::ptr_eq(&a, &c), "the clone points elsewhere");
                free("drop", move || drop((a, c)));
                cx.nontrivial = true;
            }
            2 => {
                // numbers, options and empty containers
                let o: Option<u64> = if op[1] % 2 == 0 { None } else { Some(op[1]) };
                ck!(matches!(free("clone of numbers", || (o.try_clone(), 7u8.try_clone(), (-4isize).try_clone(), true.try_clone())), (Ok(p), Ok(7), Ok(-4), Ok(true)) if p == o), "clones of numbers differ");
                ck!(matches!(free("clone of an empty vector", || Vec::<T>::new().try_clone()), Ok(v) if v.is_empty()), "clone of an empty vector");
                ck!(matches!(free("conversion of an empty slice", || TryVec::<u8>::try_from(&[][..])), Ok(v) if v.is_empty()), "conversion of an empty slice");
                ck!(matches!(free("conversion of an empty string", || TryVec::<u8>::try_from("")), Ok(v) if v.is_empty()), "conversion of an empty string");
                ck!(matches!(free("collecting nothing", || TryCollect::try_collect::<Vec<T>>(std::iter::empty())), Ok(v) if v.is_empty()), "collecting nothing");
                ck!(matches!(free("formatting nothing", || vh::fc::format::try_format(0, format_args!(""))), Ok(v) if v.is_empty()), "formatting nothing");
                #[cfg(feature = "btree")]
                ck!(matches!(free("try_vec of nothing", || vh::fc::try_vec![0u64; 0]), Ok(v) if v.is_empty()), "try_vec of nothing");
            }
            _ => {
                let v = sut(|| TryVec::<u8>::try_from("hello")).unwrap_or_else(|_| fail!("conversion failed"));
                ck!(free("comparisons", || v == "hello" && v == &b"hello"[..] && AsRef::<[u8]>::as_ref(&v) == b"hello" && v != "help"), "comparisons of a byte vector");
                let c = sut(|| v.try_clone()).unwrap_or_else(|_| fail!("clone failed"));
                ck!(free("comparison", || v == c), "a clone differs");
                #[cfg(feature = "stdio")]
                {
                    use std::io::Write;
                    let mut v = v;
                    ck!(free("flush", || v.flush()).is_ok(), "flush failed");
                    ck!(matches!(free("write of nothing", || v.write(b"")), Ok(0)), "writing nothing failed");
                }
            }
        }
        check_errs();
    }
}

#[cfg(feature = "hash")]
fn x_map<K: Key, V: Elem>(ops: &[Op], cx: &mut Cx) {
    use vh::fc::TryHashMap;
    let mut t: TryHashMap<K, V> = free("default", TryHashMap::default);
    let mut m: Ref<u64, (u64, u64)> = Ref::new();
    for op in ops {
        let k = K::norm(op[1] % 90);
        let what = HXN[(op[0] % HXN.len() as u64) as usize];
        cx.steps += 1;
        match what {
            "grow" => {
                for i in 0..op[3] % 40 {
                    let k = K::norm((op[1] + i) % 90);
                    let (kk, v) = (K::mk(k), V::mk(mix(i)));
                    m.insert(k, (v.val(), v.id()));
                    sut(|| t.insert(kk, v)).unwrap_or_else(|_| fail!("insert failed"));
                    cx.nontrivial = true;
                }
            }
            "get" => {
                let r = free(what, || K::with_q(k, |q| t.get(q).map(|v| (v.val(), v.id()))));
                ckeq!(r, m.get(&k).copied(), "value found");
            }
            "remove" => {
                let r = free(what, || K::with_q(k, |q| t.remove(q)));
                ckeq!(r.map(|v| (v.val(), v.id())), m.remove(&k), "value removed");
            }
            "iterate" => {
                let h = free(what, || {
                    let it = t.iter();
                    let n = it.len();
                    let (lo, hi) = it.size_hint();
                    ck!(lo == n && hi == Some(n), "size hint of an iterator over {}", n);
                    it.map(|(k, v)| mix(k.val() ^ mix(v.val()))).fold(0u64, |a, b| a.wrapping_add(b))
                });
                ckeq!(h, m.iter().map(|(k, v)| mix(k ^ mix(v.0))).fold(0u64, |a, b| a.wrapping_add(b)), "entries iterated");
            }
            "debug" => {
                let t = &t;
                free(what, || {
                    let mut s = Sink(0);
                    let _ = write!(s, "{:?}", t);
                });
            }
            "clone of empty" => {
                let e: TryHashMap<K, V> = free("default", TryHashMap::default);
                ck!(matches!(free(what, || e.try_clone()), Ok(c) if c.len() == 0), "clone of an empty map");
                ck!(matches!(free("with_capacity(0)", || TryHashMap::<K, V>::with_capacity(0)), Ok(c) if c.len() == 0), "map of no capacity");
            }
            "consume" if op[3] % 4 == 0 => {
                let x = std::mem::replace(&mut t, free("default", TryHashMap::default));
                let n = free(what, || {
                    let mut it = x.into_iter();
                    let mut n = 0;
                    for _ in 0..op[1] % 30 {
                        n += it.next().is_some() as usize;
                    }
                    n + it.len()
                });
                ckeq!(n, m.len(), "entries yielded and left");
                m.clear();
            }
            _ => {}
        }
        ckeq!(free("len", || t.len()), m.len(), "length after {}", what);
        check_errs();
    }
    free("drop", move || drop(t));
}
#[cfg(feature = "hash")]
const HXN: [&str; 8] = ["grow", "grow", "get", "remove", "iterate", "debug", "clone of empty", "consume"];

#[cfg(feature = "btree")]
fn x_map<K: Key, V: Elem>(ops: &[Op], cx: &mut Cx) {
    use std::hash::Hash;
    use std::ops::Bound::*;
    use vh::fc::btree::map::Entry;
    use vh::fc::btree::BTreeMap;
    let mut t: BTreeMap<K, V> = free("new", BTreeMap::new);
    let mut m: Ref<u64, (u64, u64)> = Ref::new();
    let hs = |it: &mut dyn Iterator<Item = (u64, u64)>| it.fold(1u64, |h, (k, v)| mix(h ^ k ^ mix(v)));
    for op in ops {
        let k = K::norm(op[1] % 300);
        let what = MXN[(op[0] % MXN.len() as u64) as usize];
        cx.steps += 1;
        match what {
            "grow" => {
                for i in 0..op[3] % 90 {
                    let k = K::norm((op[1] + i) % 300);
                    let (kk, v) = (K::mk(k), V::mk(mix(i)));
                    m.insert(k, (v.val(), v.id()));
                    sut(|| t.try_insert(kk, v)).unwrap_or_else(|_| fail!("insert failed"));
                    cx.nontrivial = true;
                }
            }
            "get" => {
                let r = free(what, || {
                    K::with_q(k, |q| {
                        let a = t.get(q).map(|v| (v.val(), v.id()));
                        let b = t.get_key_value(q).is_some() && t.contains_key(q) && t[q].val() == a.unwrap().0;
                        ckeq!(b, a.is_some(), "lookups of one key");
                        if let Some(v) = t.get_mut(q) {
                            v.set(v.val());
                        }
                        a
                    })
                });
                ckeq!(r, m.get(&k).copied(), "value found");
            }
            "remove" => {
                for i in 0..op[3] % 20 {
                    let k = K::norm((op[1] + i) % 300);
                    let r = free(what, || K::with_q(k, |q| t.remove(q)));
                    ckeq!(r.map(|v| (v.val(), v.id())), m.remove(&k), "value removed");
                }
            }
            "iterate" => {
                let want = hs(&mut m.iter().map(|(k, v)| (*k, v.0)));
                ckeq!(free("iter", || hs(&mut t.iter().map(|(k, v)| (k.val(), v.val())))), want, "iter");
                ckeq!(free("iter_mut", || hs(&mut t.iter_mut().map(|(k, v)| (k.val(), v.val())))), want, "iter_mut");
                ckeq!(free("keys and values", || hs(&mut t.keys().map(|k| k.val()).zip(t.values().map(|v| v.val())))), want, "keys and values");
                free("values_mut", || t.values_mut().for_each(|v| v.check()));
                let want = hs(&mut m.iter().rev().map(|(k, v)| (*k, v.0)));
                ckeq!(free("reversed iter", || hs(&mut t.iter().rev().map(|(k, v)| (k.val(), v.val())))), want, "reversed iter");
                ckeq!(free("min, max and last", || (t.iter().min().is_some(), t.keys().max().map(|k| k.val()), t.iter().last().map(|x| x.0.val()))), (!m.is_empty(), m.keys().next_back().copied(), m.keys().next_back().copied()), "ends");
            }
            "range" => {
                let want = hs(&mut m.range(k..).map(|(k, v)| (*k, v.0)));
                let got = free(what, || K::with_q(k, |q| hs(&mut t.range((Included(q), Unbounded)).map(|(k, v)| (k.val(), v.val())))));
                ckeq!(got, want, "range");
                let want = hs(&mut m.range(..k).rev().map(|(k, v)| (*k, v.0)));
                let got = free("range_mut", || K::with_q(k, |q| hs(&mut t.range_mut((Unbounded, Excluded(q))).rev().map(|(k, v)| (k.val(), v.val())))));
                ckeq!(got, want, "range_mut");
            }
            "occupied entry" => {
                if let Some((&k, e)) = m.range(k..).next().map(|(k, e)| (k, *e)) {
                    let kk = K::mk(k);
                    let v = V::mk(op[3]);
                    let (nv, ni) = (v.val(), v.id());
                    let r = free(what, || match t.try_entry(kk) {
                        Ok(Entry::Occupied(mut o)) => {
                            let _ = (o.key().val(), o.get().val(), o.get_mut().val());
                            if op[3] % 3 == 0 {
                                let (_, x) = o.remove_entry();
                                Some((x.val(), x.id()))
                            } else {
                                let x = o.insert(v);
                                Some((x.val(), x.id()))
                            }
                        }
                        Ok(Entry::Vacant(_)) => None,
                        Err(_) => fail!("entry of a present key failed"),
                    });
                    ckeq!(r, Some(e), "entry of a present key");
                    if op[3] % 3 == 0 {
                        m.remove(&k);
                    } else {
                        m.insert(k, (nv, ni));
                    }
                }
            }
            "overwrite" => {
                if let Some((&k, e)) = m.range(k..).next().map(|(k, e)| (k, *e)) {
                    let (kk, v) = (K::mk(k), V::mk(op[3]));
                    let ve = (v.val(), v.id());
                    let r = free(what, || t.try_insert(kk, v)).unwrap_or_else(|_| fail!("overwriting failed"));
                    ckeq!(r.map(|x| (x.val(), x.id())), Some(e), "overwritten value");
                    m.insert(k, ve);
                }
            }
            "compare and hash" => {
                let (t2, mut h) = (&t, std::collections::hash_map::DefaultHasher::new());
                ck!(free(what, || {
                    t2.hash(&mut h);
                    *t2 == *t2 && t2.cmp(t2).is_eq() && t2.partial_cmp(t2) == Some(std::cmp::Ordering::Equal)
                }), "a map differs from itself");
            }
            "debug" => {
                let t = &t;
                free(what, || {
                    let mut s = Sink(0);
                    let _ = write!(s, "{:?} {:?} {:?}", t, t.iter(), t.range(..));
                });
            }
            "append empty" => {
                let mut e = free("new", BTreeMap::new);
                free(what, || t.append(&mut e));
                free("append to an empty map", || e.append(&mut t));
                std::mem::swap(&mut t, &mut e);
            }
            "clear" if op[3] % 4 == 0 => {
                free(what, || t.clear());
                m.clear();
            }
            "consume" if op[3] % 4 == 0 => {
                let x = std::mem::replace(&mut t, free("new", BTreeMap::new));
                let n = free(what, || {
                    let mut it = x.into_iter();
                    let mut n = 0;
                    for i in 0..op[1] % 50 {
                        n += if (op[3] >> (i % 14)) & 4 == 0 { it.next() } else { it.next_back() }.is_some() as usize;
                    }
                    n + it.len()
                });
                ckeq!(n, m.len(), "entries yielded and left");
                m.clear();
            }
            _ => {}
        }
        ckeq!(free("len", || (t.len(), t.is_empty())), (m.len(), m.is_empty()), "length after {}", what);
        check_errs();
    }
    free("drop", move || drop(t));
}
#[cfg(feature = "btree")]
const MXN: [&str; 15] = ["grow", "grow", "grow", "get", "remove", "iterate", "range", "occupied entry", "overwrite", "compare and hash", "debug", "append empty", "clear", "consume", "remove"];

#[cfg(feature = "btree")]
fn x_set<K: Key>(ops: &[Op], cx: &mut Cx) {
    use std::collections::BTreeSet as RefS;
    use std::ops::Bound::*;
    use vh::fc::btree::BTreeSet;
    let mut s: [BTreeSet<K>; 2] = [free("new", BTreeSet::new), free("new", BTreeSet::new)];
    let mut m: [RefS<u64>; 2] = [RefS::new(), RefS::new()];
    let hs = |it: &mut dyn Iterator<Item = u64>| it.fold(1u64, |h, k| mix(h ^ k));
    for op in ops {
        let k = K::norm(op[1] % 300);
        let i = (op[2] % 2) as usize;
        let what = SXN[(op[0] % SXN.len() as u64) as usize];
        cx.steps += 1;
        match what {
            "grow" => {
                for x in 0..op[3] % 70 {
                    let k = K::norm((op[1] + x * (1 + op[2] % 3)) % 300);
                    let kk = K::mk(k);
                    m[i].insert(k);
                    sut(|| s[i].try_insert(kk)).unwrap_or_else(|_| fail!("insert failed"));
                    cx.nontrivial = true;
                }
            }
            "present insert and replace" => {
                if let Some(&k) = m[i].range(k..).next() {
                    let kk = K::mk(k);
                    ck!(matches!(free("insert of a present element", || s[i].try_insert(kk)), Ok(false)), "insert of a present element");
                    let kk = K::mk(k);
                    ck!(matches!(free("replace of a present element", || s[i].replace(kk)), Ok(Some(_))), "replace of a present element");
                }
            }
            "get" => {
                let r = free(what, || K::with_q(k, |q| (s[i].contains(q), s[i].get(q).map(|x| x.val()))));
                ckeq!(r, (m[i].contains(&k), m[i].get(&k).copied()), "element found");
            }
            "remove" => {
                for x in 0..op[3] % 20 {
                    let k = K::norm((op[1] + x) % 300);
                    if x % 2 == 0 {
                        ckeq!(free(what, || K::with_q(k, |q| s[i].remove(q))), m[i].remove(&k), "element removed");
                    } else {
                        ckeq!(free("take", || K::with_q(k, |q| s[i].take(q))).map(|x| x.val()), m[i].take(&k), "element taken");
                    }
                }
            }
            "iterate" => {
                ckeq!(free(what, || hs(&mut s[i].iter().map(|x| x.val()))), hs(&mut m[i].iter().copied()), "iteration");
                ckeq!(free("range", || K::with_q(k, |q| hs(&mut s[i].range((Excluded(q), Unbounded)).rev().map(|x| x.val())))), hs(&mut m[i].range((Excluded(k), Unbounded)).rev().copied()), "range");
            }
            "lazy algebra" => {
                let (a, b) = (&s[i], &s[1 - i]);
                let (x, y) = (&m[i], &m[1 - i]);
                ckeq!(free("union", || hs(&mut a.union(b).map(|x| x.val()))), hs(&mut x.union(y).copied()), "union");
                ckeq!(free("intersection", || hs(&mut a.intersection(b).map(|x| x.val()))), hs(&mut x.intersection(y).copied()), "intersection");
                ckeq!(free("difference", || hs(&mut a.difference(b).map(|x| x.val()))), hs(&mut x.difference(y).copied()), "difference");
                ckeq!(free("symmetric difference", || hs(&mut a.symmetric_difference(b).map(|x| x.val()))), hs(&mut x.symmetric_difference(y).copied()), "symmetric difference");
                ckeq!(free("set predicates", || (a.is_subset(b), a.is_superset(b), a.is_disjoint(b))), (x.is_subset(y), x.is_superset(y), x.is_disjoint(y)), "predicates");
                let (u, v) = free("clones of lazy forms", || {
                    let mut u = a.union(b);
                    u.next();
                    let v = u.clone();
                    (u.map(|x| x.val()).fold(0, |h, x| mix(h ^ x)), v.map(|x| x.val()).fold(0, |h, x| mix(h ^ x)))
                });
                ckeq!(u, v, "clone of a union");
            }
            "compare" => {
                ckeq!(free(what, || (s[0] == s[1], s[0].cmp(&s[1]))), (m[0] == m[1], m[0].cmp(&m[1])), "comparison of sets");
            }
            "debug" => {
                let s = &s[i];
                free(what, || {
                    let mut k = Sink(0);
                    let _ = write!(k, "{:?} {:?}", s, s.iter());
                });
            }
            "append empty" => {
                let mut e = free("new", BTreeSet::new);
                free(what, || s[i].append(&mut e));
                free("append to an empty set", || e.append(&mut s[i]));
                std::mem::swap(&mut s[i], &mut e);
            }
            "clear" if op[3] % 4 == 0 => {
                free(what, || s[i].clear());
                m[i].clear();
            }
            "consume" if op[3] % 4 == 0 => {
                let x = std::mem::replace(&mut s[i], free("new", BTreeSet::new));
                let n = free(what, || {
                    let mut it = x.into_iter();
                    let mut n = 0;
                    for _ in 0..op[1] % 40 {
                        n += it.next().is_some() as usize;
                    }
                    n + it.len()
                });
                ckeq!(n, m[i].len(), "elements yielded and left");
                m[i].clear();
            }
            _ => {}
        }
        for i in 0..2 {
            ckeq!(free("len", || (s[i].len(), s[i].is_empty())), (m[i].len(), m[i].is_empty()), "length after {}", what);
        }
        check_errs();
    }
    free("drop", move || drop(s));
}
#[cfg(feature = "btree")]
const SXN: [&str; 14] = ["grow", "grow", "grow", "present insert and replace", "get", "remove", "iterate", "lazy algebra", "lazy algebra", "compare", "debug", "append empty", "clear", "consume"];

struct Go5<'a, 'b>(u64, &'a [Op], &'a mut Cx, std::marker::PhantomData<&'b ()>);
impl<'a, 'b> ElemFn for Go5<'a, 'b> {
    fn call<T: Elem>(self) {
        match self.0 {
            0 => x_vec::<T, Vec<T>>(self.1, self.2),
            1 => x_vec::<T, TryVec<T>>(self.1, self.2),
            _ => x_ptr::<T>(self.1, self.2),
        }
    }
}
impl<'a, 'b> KvFn for Go5<'a, 'b> {
    fn call<K: Key, V: Elem>(self) {
        #[cfg(feature = "btree")]
        if self.0 == 4 || self.0 == 5 {
            return x_set::<K>(self.1, self.2);
        }
        #[cfg(any(feature = "btree", feature = "hash"))]
        x_map::<K, V>(self.1, self.2)
    }
}
impl Prop for X01 {
    fn id(&self) -> &'static str {
        "X01"
    }
    fn rule(&self) -> &'static str {
        "operations ran with every request refused on a container that had been given contents"
    }
    fn gen(&self, r: &mut Rng) -> Case {
        if r.chance(1, 300) {
            return giant::gen(r, giant::Giant::NoMem, &[0, 1, 2, 3]);
        }
        let n = r.range(2, 40);
        Case { h: vec![r.below(8), r.below(NL * 14)], ops: rops(r, n) }
    }
    fn desc(&self, c: &Case) -> String {
        if giant::is(c) {
            return giant::desc(c);
        }
        let a = c.hv(0) % 8;
        let n = ["Vec", "TryVec", "pointers and numbers", "map", "set (map without ordered sets)", "set (map without ordered sets)", "map", "map"][a as usize];
        format!("{} of {}; {} operations: {}", n, if a < 3 { lname(c.hv(1)) } else { kv_name(c.hv(1)) }, c.ops.len(), c.text().replace('\n', "; "))
    }
    fn run(&self, c: &Case, cx: &mut Cx) {
        if giant::is(c) {
            return giant::run(giant::Giant::NoMem, c, cx);
        }
        let a = c.hv(0) % 8;
        let g = Go5(a, &c.ops, cx, std::marker::PhantomData);
        if a < 3 {
            layout(c.hv(1), g)
        } else {
            with_kv(c.hv(1), g)
        }
        ckeq!(live(), (0, 0), "blocks and bytes owned at the end");
        ckeq!(live_elems(), (0, 0), "tracked elements at the end");
    }
}

// ------------------------------------------------------------------ E01

struct E01;
const ENAMES: [&str; 12] = ["Vec", "TryVec", "boxes and pointers", "nested clones", "Vec", "nested clones", "formatting", "input/output", "map", "set", "map", "map"];
struct Go6<'a>(u64, &'a [Op], &'a mut Tr);
impl<'a> ElemFn for Go6<'a> {
    fn call<T: Elem>(self) {
        let area = [0, 1, 2, 3, 0, 3][self.0 as usize];
        run1::<T>(area, &mut Sx { ops: self.1, dom: (T::DOM, T::DOM), faults: true, deep: true, tr: self.2 });
    }
}
impl<'a> KvFn for Go6<'a> {
    fn call<K: Key, V: Elem>(self) {
        let mut s = Sx { ops: self.1, dom: (K::DOM, V::DOM), faults: true, deep: true, tr: self.2 };
        #[cfg(feature = "btree")]
        {
            if self.0 == 9 {
                bt::s_set::<K>(&mut s)
            } else {
                bt::s_map::<K, V>(&mut s)
            }
        }
        #[cfg(feature = "hash")]
        s_hash::<K, V>(&mut s);
    }
}
impl Prop for E01 {
    fn id(&self) -> &'static str {
        "E01"
    }
    fn rule(&self) -> &'static str {
        "an operation failed after an earlier request of its own was granted, or passed on an element's own error, or was asked for an impossible size"
    }
    fn gen(&self, r: &mut Rng) -> Case {
        if r.chance(1, 300) {
            return giant::gen(r, giant::Giant::Errs, &[0, 1, 2, 3]);
        }
        let n = r.range(2, 30);
        let mut ops = rops(r, n);
        for o in &mut ops {
            // build something up first
            if r.chance(1, 2) {
                o[2] = 8 * 6;
            }
        }
        Case { h: vec![r.below(12), r.below(NL * 14)], ops }
    }
    fn desc(&self, c: &Case) -> String {
        if giant::is(c) {
            return giant::desc(c);
        }
        let a = c.hv(0) % 12;
        format!("{} of {}; {} operations: {}", ENAMES[a as usize], if a < 8 { lname(c.hv(1)) } else { kv_name(c.hv(1)) }, c.ops.len(), c.text().replace('\n', "; "))
    }
    fn run(&self, c: &Case, cx: &mut Cx) {
        if giant::is(c) {
            return giant::run(giant::Giant::Errs, c, cx);
        }
        let a = c.hv(0) % 12;
        let mut t = Tr { judge: true, ..Tr::default() };
        cx.steps += c.ops.len() as u64;
        match a {
            6 => s_fmt(&mut Sx { ops: &c.ops, dom: (0, 0), faults: true, deep: true, tr: &mut t }),
            7 => {
                #[cfg(feature = "stdio")]
                s_io(&mut Sx { ops: &c.ops, dom: (0, 0), faults: true, deep: true, tr: &mut t });
            }
            8.. => with_kv(c.hv(1), Go6(a, &c.ops, &mut t)),
            _ => layout(c.hv(1), Go6(a, &c.ops, &mut t)),
        }
        cx.nontrivial = t.late + t.passed_on + t.overflows > 0;
        cx.add("errors telling of a refused request", t.refusals);
        cx.add("errors telling of a size that cannot be", t.overflows);
        cx.add("element errors passed on", t.passed_on);
        cx.hit(ENAMES[a as usize]);
        drop(t);
        ckeq!(live(), (0, 0), "blocks and bytes owned at the end");
        ckeq!(live_elems(), (0, 0), "tracked elements at the end");
    }
}

fn main() {
    main_with(&[&X01, &X02, &X03, &E01])
}
