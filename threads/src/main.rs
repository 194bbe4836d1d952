//! X04: several threads. Shared containers are read by all of them at once; separate ones are changed, cloned, handed
//! round, spread out by mutable reference, and iterated from where another thread left off; shared pointers are cloned
//! and dropped everywhere. Each answer is compared with a model, and the sanitizer configuration reports data races.
#[macro_use]
mod thr;
use fc::{FallibleArc, TryBox, TryClone, TryReserveError, TryVec};
use std::collections::BTreeMap as Ref;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicI64, Ordering::*};
use std::sync::{Arc, Weak};
use thr::*;
use vh::{mix, Case, Cx, Op, Prop, Rng};

#[cfg(feature = "btree")]
mod trees;
#[cfg(all(feature = "hash", not(feature = "btree")))]
mod hashes;
mod vecs;

#[global_allocator]
static GLOBAL: A = A;
pub static mut MSG: String = String::new();

// ---------------------------------------------------------------- elements

pub static LIVE: AtomicI64 = AtomicI64::new(0);

pub trait El: TryClone + Clone + Ord + Hash + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
}
impl El for u64 {
    const NAME: &'static str = "u64";
    fn mk(v: u64) -> u64 {
        v
    }
    fn val(&self) -> u64 {
        *self
    }
}
/// owns memory, and is counted
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Hp(TryBox2);
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TryBox2(Box<u64>);
impl Debug for Hp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0 .0)
    }
}
impl El for Hp {
    const NAME: &'static str = "boxed";
    fn mk(v: u64) -> Hp {
        LIVE.fetch_add(1, Relaxed);
        Hp(TryBox2(Box::new(v)))
    }
    fn val(&self) -> u64 {
        *self.0 .0
    }
}
impl Clone for Hp {
    fn clone(&self) -> Hp {
        Hp::mk(self.val())
    }
}
impl TryClone for Hp {
    fn try_clone(&self) -> Result<Hp, TryReserveError> {
        let b = self.0 .0.try_clone()?;
        LIVE.fetch_add(1, Relaxed);
        Ok(Hp(TryBox2(b)))
    }
}
impl Drop for Hp {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
    }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(64))]
pub struct Wide(u64, u64);
impl Debug for Wide {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl El for Wide {
    const NAME: &'static str = "wide";
    fn mk(v: u64) -> Wide {
        Wide(v, !v)
    }
    fn val(&self) -> u64 {
        tckeq!(self.1, !self.0, "second half of an element");
        self.0
    }
}
impl TryClone for Wide {
    fn try_clone(&self) -> Result<Wide, TryReserveError> {
        Ok(*self)
    }
}

// ---------------------------------------------------------------- containers

pub trait Con: Send + Sync + Sized {
    type V: El;
    fn name() -> String;
    fn new() -> Self;
    /// entries in the model
    fn len(&self) -> usize;
    /// whether its values can be lent out mutably
    const LENDS: bool = true;
    /// one read-only operation on self and other, compared with their models
    fn read(&self, o: &Self, op: &Op);
    /// one operation that changes self (and perhaps other)
    fn change(&mut self, o: &mut Self, op: &Op);
    /// mutable references to all values, in order
    fn cells(&mut self, how: u64) -> Vec<&mut Self::V>;
    /// what was written through the references
    fn rewrote(&mut self, f: &dyn Fn(usize, u64) -> u64);
    /// views and iterators that go on in another thread
    fn travel(&mut self, o: &mut Self, op: &Op);
    fn whole(&self, what: &str);
}

/// f(x) on another thread
pub fn elsewhere<T: Send, R: Send>(x: T, f: impl FnOnce(T) -> R + Send) -> R {
    struct Cell<T>(std::cell::UnsafeCell<Option<T>>);
    unsafe impl<T: Send> Sync for Cell<T> {}
    let (i, o) = (Cell(std::cell::UnsafeCell::new(Some((x, f)))), Cell(std::cell::UnsafeCell::new(None)));
    {
        let (i, o) = (&i, &o);
        threads(1, &move |_| unsafe {
            let (x, f) = (*i.0.get()).take().unwrap();
            *o.0.get() = Some(f(x));
        });
    }
    o.0.into_inner().unwrap()
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = mix(self.0 ^ *x as u64);
            }
        }
    }
    let mut h = H(1);
    t.hash(&mut h);
    h.finish()
}

struct Cells<T>(Vec<std::cell::UnsafeCell<T>>);
unsafe impl<T: Send> Sync for Cells<T> {}

pub const READ: u64 = 0;
const RELAY: u64 = 1;
const SPREAD: u64 = 2;
const TRAVEL: u64 = 3;
const POINTERS: u64 = 4;
const MODES: [&str; 5] = ["read at once", "changed in turn", "spread out", "handed on half-way", "shared pointers"];

fn fill<C: Con>(c: &mut C, o: &mut C, n: u64, seed: u64) {
    let pat = seed % 4;
    for i in 0..n {
        let k = match pat {
            0 => i,
            1 => n - i,
            _ => mix(seed ^ i),
        };
        c.change(o, &[0, k, mix(k ^ seed), 0]);
    }
}

fn drive<C: Con>(c: &Case, cx: &mut Cx) {
    let mut mode = c.hv(1) % 4;
    if mode == SPREAD && !C::LENDS {
        mode = READ;
    }
    let t = 2 + (c.hv(2) % 3) as usize;
    let n = c.hv(3) % 400;
    let seed = c.hv(4);
    match mode {
        READ => {
            let (mut a, mut b) = (C::new(), C::new());
            fill(&mut a, &mut b, n, seed);
            fill(&mut b, &mut a, c.hv(5) % (n + 8), mix(seed));
            let gate = Gate::new(t);
            threads(t, &|me| {
                gate.pass();
                for o in c.ops.iter().filter(|o| o[0] as usize % t == me) {
                    let o2 = [o[0] / 8, o[1], o[2], o[3]];
                    if o[3] % 2 == 0 {
                        a.read(&b, &o2);
                    } else {
                        b.read(&a, &o2);
                    }
                }
            });
            a.whole("after shared reads");
            b.whole("after shared reads");
            cx.nontrivial = a.len() >= 2 && c.ops.len() >= t;
        }
        RELAY => {
            // thread x works on pair x + round; they move on together
            let pairs = Cells((0..t).map(|_| std::cell::UnsafeCell::new((C::new(), C::new()))).collect());
            let rounds = 1 + c.hv(6) as usize % 5;
            let gate = Gate::new(t);
            let per = c.ops.len() / rounds + 1;
            threads(t, &|me| {
                for r in 0..rounds {
                    gate.pass();
                    let p = unsafe { &mut *{ &pairs }.0[(me + r) % t].get() };
                    if r == 0 {
                        fill(&mut p.0, &mut p.1, n / 4, seed ^ me as u64);
                    }
                    for o in c.ops.iter().skip(r * per).take(per).filter(|o| o[0] as usize % t == me) {
                        let o2 = [o[0] / 8, o[1], o[2], o[3]];
                        let (a, b) = if o[3] % 2 == 0 { (&mut p.0, &mut p.1) } else { (&mut p.1, &mut p.0) };
                        if o[3] % 16 < 4 {
                            a.read(b, &o2);
                        } else {
                            a.change(b, &o2);
                        }
                    }
                    p.0.whole("before it is handed on");
                }
            });
            let v: Vec<(C, C)> = pairs.0.into_iter().map(|x| x.into_inner()).collect();
            cx.nontrivial = v.iter().filter(|x| x.0.len() + x.1.len() > 0).count() >= 2 && c.ops.len() >= t;
            for x in &v {
                x.0.whole("in the end");
                x.1.whole("in the end");
            }
            if seed % 2 == 0 {
                elsewhere(v, |v| drop(v));
            }
        }
        SPREAD => {
            let (mut a, mut b) = (C::new(), C::new());
            fill(&mut a, &mut b, n, seed);
            let len = a.len();
            for (i, o) in c.ops.iter().take(6).enumerate() {
                let gate = Gate::new(t);
                let x = mix(o[1] ^ i as u64);
                let own = |j: usize| match o[2] % 3 {
                    0 => j % t,
                    1 => (j * t / (len + 1)).min(t - 1),
                    _ => (mix(x ^ j as u64) % t as u64) as usize,
                };
                let cells = a.cells(o[3]);
                tckeq!(cells.len(), len, "mutable references");
                let mut parts: Vec<Vec<(usize, &mut C::V)>> = (0..t).map(|_| Vec::new()).collect();
                for (j, r) in cells.into_iter().enumerate() {
                    parts[own(j)].push((j, r));
                }
                let parts = Cells(parts.into_iter().map(std::cell::UnsafeCell::new).collect());
                threads(t, &|me| {
                    gate.pass();
                    let p = unsafe { &mut *{ &parts }.0[me].get() };
                    for (j, r) in p.iter_mut() {
                        let v = r.val();
                        **r = El::mk(mix(v ^ x ^ *j as u64));
                    }
                });
                drop(parts);
                a.rewrote(&|j, v| mix(v ^ x ^ j as u64));
                a.whole("after its values were rewritten by several threads");
            }
            cx.nontrivial = len >= t && !c.ops.is_empty();
        }
        _ => {
            let (mut a, mut b) = (C::new(), C::new());
            fill(&mut a, &mut b, n, seed);
            fill(&mut b, &mut a, c.hv(5) % (n + 8), mix(seed));
            cx.nontrivial = a.len() >= 2 && !c.ops.is_empty();
            for o in c.ops.iter().take(12) {
                let o2 = [o[0] / 8, o[1], o[2], o[3]];
                if o[3] % 2 == 0 {
                    a.travel(&mut b, &o2);
                } else {
                    b.travel(&mut a, &o2);
                }
                a.whole("after a view of it went to another thread");
                b.whole("after a view of it went to another thread");
            }
        }
    }
}

// ---------------------------------------------------------------- shared pointers

#[allow(deprecated)]
fn pointers<E: El>(c: &Case, cx: &mut Cx) {
    let t = 2 + (c.hv(2) % 3) as usize;
    let v = c.hv(3);
    let groups: Vec<Arc<E>> = (0..1 + c.hv(4) % 2)
        .map(|i| match <Arc<E> as FallibleArc<E>>::try_new(E::mk(v + i)) {
            Ok(x) => x,
            Err(e) => tf!("Arc::try_new failed: {:?}", e),
        })
        .collect();
    let keep = groups.clone();
    let gate = Gate::new(t);
    let left = Cells((0..t).map(|_| std::cell::UnsafeCell::new((Vec::<(usize, Arc<E>)>::new(), 0usize))).collect());
    threads(t, &|me| {
        let slot = unsafe { &mut *{ &left }.0[me].get() };
        let own = &mut slot.0;
        let mut weak: Vec<(usize, Weak<E>)> = Vec::new();
        gate.pass();
        for o in c.ops.iter().filter(|o| o[0] as usize % t == me) {
            let g = o[1] as usize % groups.len();
            match o[0] / 8 % 7 {
                0 | 1 => {
                    let x = if o[2] % 2 == 0 || own.is_empty() { groups[g].try_clone() } else { own[o[2] as usize % own.len()].1.try_clone() };
                    let x = x.unwrap_or_else(|e| tf!("try_clone of a shared pointer failed: {:?}", e));
                    let g = groups.iter().position(|y| Arc::ptr_eq(&x, y));
                    tck!(g.is_some(), "a clone points elsewhere");
                    own.push((g.unwrap(), x));
                }
                2 if !own.is_empty() => {
                    let at = o[2] as usize % own.len();
                    drop(own.swap_remove(at));
                }
                3 if !own.is_empty() => {
                    let at = o[2] as usize % own.len();
                    tckeq!(own[at].1.val(), v + own[at].0 as u64, "value behind a shared pointer");
                    tck!(Arc::strong_count(&own[at].1) >= own.iter().filter(|x| x.0 == own[at].0).count() + 1, "fewer owners than this thread knows of");
                }
                4 if !own.is_empty() => {
                    let at = o[2] as usize % own.len();
                    weak.push((own[at].0, Arc::downgrade(&own[at].1)));
                }
                5 if !weak.is_empty() => {
                    let at = o[2] as usize % weak.len();
                    let (g, w) = weak.swap_remove(at);
                    match w.upgrade() {
                        Some(x) => own.push((g, x)),
                        None => tf!("a weak pointer to a value that is owned did not upgrade"),
                    }
                }
                6 => {
                    // another group altogether, of this thread's own
                    let e = E::mk(o[2]);
                    // the stable library makes a pointer's second request itself, and that one cannot fail
                    let k = o[3] % if cfg!(feature = "btree") { 4 } else { 2 };
                    let (x, refused) = refusing(k, || <Arc<E> as FallibleArc<E>>::try_new(e));
                    tckeq!(x.is_err(), refused, "failure of Arc::try_new with request {} refused", k);
                    if let Ok(x) = x {
                        let y = x.try_clone().unwrap_or_else(|e| tf!("try_clone of a shared pointer failed: {:?}", e));
                        tckeq!((Arc::strong_count(&x), y.val()), (2, o[2]), "owners and value of a pointer this thread made");
                    }
                }
                _ => {}
            }
        }
        slot.1 = weak.len();
    });
    let left: Vec<_> = left.0.into_iter().map(|x| x.into_inner()).collect();
    let mut all = 0;
    for (g, x) in groups.iter().enumerate() {
        let n: usize = left.iter().map(|l| l.0.iter().filter(|y| y.0 == g).count()).sum();
        tckeq!(Arc::strong_count(x), n + 2, "owners of group {} after all threads ended", g);
        tckeq!(Arc::weak_count(x), 0, "weak pointers left");
        all += n;
    }
    cx.nontrivial = all >= 1 && c.ops.len() >= 2 * t;
    cx.add("owners left by the threads", all as u64);
    drop(groups);
    // the last owners go on several threads at once; with a sanitizer that does not know fences, one stays behind
    let left = Cells(left.into_iter().map(|l| std::cell::UnsafeCell::new(l.0)).collect());
    let mut keep = Some(keep);
    if !cfg!(tsan) {
        keep = None;
    }
    let gate = Gate::new(t);
    threads(t, &|me| {
        gate.pass();
        drop(std::mem::take(unsafe { &mut *{ &left }.0[me].get() }));
    });
    if let Some(k) = keep {
        for x in &k {
            tckeq!(Arc::strong_count(x), 1, "owners after all others were dropped");
        }
    }
}

// ---------------------------------------------------------------- property

struct X04;

#[cfg(feature = "btree")]
macro_rules! kinds {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k % 12 {
            0 => $f::<trees::Map<u64, u64>>($($a),*),
            1 => $f::<trees::Map<u64, Hp>>($($a),*),
            2 => $f::<trees::Map<Hp, Hp>>($($a),*),
            3 => $f::<trees::Map<Wide, u64>>($($a),*),
            4 => $f::<trees::Map<Hp, Wide>>($($a),*),
            5 => $f::<trees::Set<u64>>($($a),*),
            6 => $f::<trees::Set<Hp>>($($a),*),
            7 => $f::<trees::Set<Wide>>($($a),*),
            8 => $f::<vecs::V<u64>>($($a),*),
            9 => $f::<vecs::V<Hp>>($($a),*),
            10 => $f::<vecs::V<Wide>>($($a),*),
            _ => $f::<trees::Map<u64, u64>>($($a),*),
        }
    };
}
#[cfg(all(feature = "hash", not(feature = "btree")))]
macro_rules! kinds {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k % 8 {
            0 | 6 => $f::<hashes::Map<u64, u64>>($($a),*),
            1 => $f::<hashes::Map<u64, Hp>>($($a),*),
            2 | 7 => $f::<hashes::Map<Hp, Hp>>($($a),*),
            3 => $f::<hashes::Map<Wide, Hp>>($($a),*),
            4 => $f::<vecs::V<u64>>($($a),*),
            _ => $f::<vecs::V<Hp>>($($a),*),
        }
    };
}
fn name_of<C: Con>() -> String {
    C::name()
}

impl Prop for X04 {
    fn id(&self) -> &'static str {
        "X04"
    }
    fn rule(&self) -> &'static str {
        "two threads or more did work on containers (or pointers) that were not empty"
    }
    fn gen(&self, r: &mut Rng) -> Case {
        let mode = r.pick(&[READ, READ, READ, RELAY, RELAY, RELAY, SPREAD, TRAVEL, POINTERS]);
        let h = vec![r.below(64), mode, r.below(64), r.size(400), r.next(), r.size(400), r.below(64)];
        let n = r.range(2, if mode == SPREAD { 6 } else if mode == TRAVEL { 12 } else { 60 });
        let w: Vec<u64> = (0..8).map(|_| r.below(4)).collect();
        let ops = (0..n)
            .map(|_| {
                let k = if mode == POINTERS || w.iter().all(|x| *x == 0) { r.below(16) } else { r.weighted(&w) as u64 + 8 * r.below(2) };
                [r.below(8) + 8 * k, r.next() >> r.pick(&[2u64, 40, 56, 60]), r.next() >> 3, r.next() >> 3]
            })
            .collect();
        Case { h, ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) {
        let (l0, b0);
        let mode = c.hv(1) % 5;
        cx.hit(MODES[mode as usize]);
        cx.add("threads", 2 + c.hv(2) % 3);
        cx.add("owners left by the threads", 0);
        cx.steps += c.ops.len() as u64;
        l0 = LIVE.load(Relaxed);
        b0 = BLOCKS.load(Relaxed);
        if mode == POINTERS {
            match c.hv(0) % 3 {
                0 => pointers::<u64>(c, cx),
                1 => pointers::<Hp>(c, cx),
                _ => pointers::<Wide>(c, cx),
            }
        } else {
            kinds!(c.hv(0), drive, c, cx);
        }
        tckeq!(LIVE.load(Relaxed) - l0, 0, "elements left alive");
        tckeq!(BLOCKS.load(Relaxed) - b0, 0, "blocks of memory left");
    }
    fn desc(&self, c: &Case) -> String {
        let mode = c.hv(1) % 5;
        let what = if mode == POINTERS { ["u64", "boxed", "wide"][(c.hv(0) % 3) as usize].to_string() } else { kinds!(c.hv(0), name_of,) };
        format!("{} of {}, {} threads, about {} entries, {} operations", MODES[mode as usize], what, 2 + c.hv(2) % 3, c.hv(3) % 400, c.ops.len())
    }
}

fn main() {
    let r = |info: &std::panic::PanicHookInfo| {
        let _ = refusing(0, || ());
        unsafe { MSG = format!("{}", info).replace('\n', " ") };
    };
    vh::main_hooked(&[&X04], Some(Box::new(r)));
}
