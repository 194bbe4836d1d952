//! Threads without std's own: a sanitizer sees the library's thread handles (built without it) as races.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- allocator: counts, and refuses per thread

thread_local! {
    // 0: no refusals; k > 0: the k-th request from now on is refused
    static REFUSE: Cell<u64> = const { Cell::new(0) };
    static REFUSED: Cell<u64> = const { Cell::new(0) };
}
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);

pub struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 30 || refuse() {
            return std::ptr::null_mut();
        }
        BLOCKS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > 1 << 30 || refuse() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
fn refuse() -> bool {
    match REFUSE.get() {
        0 => false,
        1 => {
            REFUSE.set(0);
            REFUSED.set(REFUSED.get() + 1);
            true
        }
        k => {
            REFUSE.set(k - 1);
            false
        }
    }
}
/// Runs f with its k-th request refused (0: none); the second result tells whether one was.
pub fn refusing<R>(k: u64, f: impl FnOnce() -> R) -> (R, bool) {
    REFUSED.set(0);
    REFUSE.set(k);
    let r = f();
    REFUSE.set(0);
    (r, REFUSED.get() > 0)
}

// ---------------------------------------------------------------- failing

extern "C" {
    fn _exit(c: i32) -> !;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn pthread_create(t: *mut usize, a: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, x: *mut u8) -> i32;
    fn pthread_join(t: usize, r: *mut *mut u8) -> i32;
    fn sched_yield() -> i32;
}

#[cold]
pub fn tfail(m: String) -> ! {
    REFUSE.set(0);
    let s = format!("VFAIL {}\n", m.replace('\n', " "));
    unsafe {
        write(1, s.as_ptr(), s.len());
        _exit(101)
    }
}
#[macro_export]
macro_rules! tf { ($($a:tt)*) => { $crate::thr::tfail(format!($($a)*)) }; }
#[macro_export]
macro_rules! tck { ($c:expr, $($a:tt)*) => { if !$c { $crate::tf!($($a)*) } }; }
#[macro_export]
macro_rules! tckeq {
    ($a:expr, $b:expr, $($m:tt)*) => {{ let (a, b) = (&$a, &$b); if !(*a == *b) { $crate::tf!("{}: got {:?}, expected {:?}", format!($($m)*), a, b) } }};
}

// ---------------------------------------------------------------- threads

struct Job<'a> {
    f: &'a (dyn Fn(usize) + Sync),
    t: usize,
}
extern "C" fn entry(x: *mut u8) -> *mut u8 {
    let j = unsafe { &*(x as *const Job) };
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (j.f)(j.t))).is_err() {
        tf!("unexpected panic in thread {}: {}", j.t, unsafe { crate::MSG.clone() });
    }
    std::ptr::null_mut()
}
/// f(0) .. f(n - 1), each on a thread of its own; returns when all have ended.
pub fn threads(n: usize, f: &(dyn Fn(usize) + Sync)) {
    let mut jobs: Vec<Job> = (0..n).map(|t| Job { f: unsafe { std::mem::transmute(f) }, t }).collect();
    let mut ids = vec![0usize; n];
    for (j, id) in jobs.iter_mut().zip(ids.iter_mut()) {
        let r = unsafe { pthread_create(id, std::ptr::null(), entry, j as *mut Job as *mut u8) };
        assert!(r == 0, "no thread: {}", r);
    }
    for id in ids {
        unsafe { pthread_join(id, std::ptr::null_mut()) };
    }
}

/// All threads arrive before any goes on.
pub struct Gate {
    n: usize,
    at: AtomicUsize,
}
impl Gate {
    pub fn new(n: usize) -> Gate {
        Gate { n, at: AtomicUsize::new(0) }
    }
    pub fn pass(&self) {
        let my = self.at.fetch_add(1, AcqRel) + 1;
        let need = (my + self.n - 1) / self.n * self.n;
        let mut spins = 0u32;
        while self.at.load(Acquire) < need {
            spins += 1;
            if spins > 50 {
                unsafe { sched_yield() };
            } else {
                std::hint::spin_loop();
            }
        }
    }
}
