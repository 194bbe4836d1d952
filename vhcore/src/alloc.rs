//! Instrumented global allocator: ledger of requests, layout checks, red zones, poisoning, quarantine, refusals.
//! Single-threaded by design (the harness uses one thread per process).
use std::alloc::{GlobalAlloc, Layout, System};
use std::ptr::{addr_of, addr_of_mut};

pub struct VAlloc;

const ALIVE: u64 = 0xA11C_E0FB_10C5_A11F;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const HDR: usize = 32;
#[cfg(asan)]
const TAIL: usize = 0;
#[cfg(not(asan))]
const TAIL: usize = 16;
const QN: usize = 1024;
const REFUSE_ABOVE: usize = 1 << 30;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align_sut: usize, // align << 1 | sut flag
    serial: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Plan {
    None,
    /// refuse exactly the k-th request
    Once(u64),
    /// refuse the k-th and every later request
    From(u64),
    /// refuse all requests (also from callbacks)
    All,
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Req {
    pub size: usize,
    pub align: usize,
    pub realloc: bool,
    pub refused: bool,
}

pub const NOREQ: Req = Req { size: 0, align: 0, realloc: false, refused: false };

pub struct St {
    pub insut: bool,
    pub plan: Plan,
    pub cnt: u64,     // requests since arming
    pub refused: u64, // refused since arming
    pub reqs: u64,    // requests in SUT since case start
    pub frees: u64,
    pub live_blocks: i64, // SUT blocks
    pub live_bytes: i64,
    serial: u64,
    err: Option<(&'static str, usize, usize)>,
    pub log: [Req; 64],
    pub nlog: usize,
    /// first refused requests since arming, their number, and the same of the window before
    pub no: [Req; 4],
    pub prev: ([Req; 4], u64, u64),
    q: [*mut u8; QN],
    qn: usize,
    qbytes: usize,
}

static mut ST: St = St {
    insut: false,
    plan: Plan::None,
    cnt: 0,
    refused: 0,
    reqs: 0,
    frees: 0,
    live_blocks: 0,
    live_bytes: 0,
    serial: 0,
    err: None,
    log: [NOREQ; 64],
    nlog: 0,
    no: [NOREQ; 4],
    prev: ([NOREQ; 4], 0, 0),
    q: [std::ptr::null_mut(); QN],
    qn: 0,
    qbytes: 0,
};

#[inline]
pub fn st() -> &'static mut St {
    unsafe { &mut *addr_of_mut!(ST) }
}

fn err(m: &'static str, a: usize, b: usize) {
    let s = st();
    if s.err.is_none() {
        s.err = Some((m, a, b));
    }
}

pub fn take_err() -> Option<String> {
    st().err.take().map(|(m, a, b)| format!("{} ({}, {})", m, a, b))
}
#[inline]
pub fn has_err() -> bool {
    unsafe { (*addr_of!(ST)).err.is_some() }
}

fn full(layout: Layout) -> Option<(Layout, usize)> {
    let off = if layout.align() > HDR { layout.align() } else { HDR };
    let size = layout.size().checked_add(off)?.checked_add(TAIL)?;
    let al = if layout.align() > 16 { layout.align() } else { 16 };
    Some((Layout::from_size_align(size, al).ok()?, off))
}

unsafe fn raw_alloc(layout: Layout, zero: bool, sut: bool) -> *mut u8 {
    let (fl, off) = match full(layout) {
        Some(x) => x,
        None => return std::ptr::null_mut(),
    };
    let base = if zero { System.alloc_zeroed(fl) } else { System.alloc(fl) };
    if base.is_null() {
        return base;
    }
    let user = base.add(off);
    let s = st();
    s.serial += 1;
    let h = user.sub(HDR) as *mut Hdr;
    (*h).magic = ALIVE;
    (*h).size = layout.size();
    (*h).align_sut = layout.align() << 1 | sut as usize;
    (*h).serial = s.serial;
    #[cfg(not(asan))]
    {
        if !zero {
            let n = layout.size();
            if n <= 1 << 16 {
                std::ptr::write_bytes(user, 0xA5, n);
            } else {
                std::ptr::write_bytes(user, 0xA5, 4096);
                std::ptr::write_bytes(user.add(n - 4096), 0xA5, 4096);
            }
        }
        std::ptr::write_bytes(user.add(layout.size()), 0xFB, TAIL);
    }
    if sut {
        s.live_blocks += 1;
        s.live_bytes += layout.size() as i64;
    }
    user
}

#[cfg(not(asan))]
unsafe fn evict(p: *mut u8) {
    let h = p.sub(HDR) as *mut Hdr;
    let size = (*h).size;
    let align = (*h).align_sut >> 1;
    let n = size.min(512);
    for i in 0..n {
        if *p.add(i) != 0xDD {
            err("memory written after it was freed: block size, offset", size, i);
            break;
        }
    }
    if (*h).magic != DEAD {
        err("header of freed block overwritten: block size", size, 0);
    }
    let (fl, off) = full(Layout::from_size_align_unchecked(size, align)).unwrap();
    System.dealloc(p.sub(off), fl);
}

/// Release all quarantined blocks, checking that nobody wrote to them.
pub fn flush() {
    #[cfg(not(asan))]
    unsafe {
        let s = st();
        let n = s.qn;
        for i in 0..n {
            evict(s.q[i]);
        }
        s.qn = 0;
        s.qbytes = 0;
    }
}

unsafe fn raw_dealloc(p: *mut u8, layout: Layout) {
    let h = p.sub(HDR) as *mut Hdr;
    let s = st();
    if (*h).magic != ALIVE {
        if (*h).magic == DEAD {
            err("double free: size, align", layout.size(), layout.align());
        } else {
            err("free of a pointer that was never allocated: size, align", layout.size(), layout.align());
        }
        return;
    }
    let size = (*h).size;
    let align = (*h).align_sut >> 1;
    let sut = (*h).align_sut & 1 == 1;
    if size != layout.size() {
        err("block freed with the wrong size: allocated, freed", size, layout.size());
    }
    if align != layout.align() {
        err("block freed with the wrong alignment: allocated, freed", align, layout.align());
    }
    #[cfg(not(asan))]
    for i in 0..TAIL {
        if *p.add(size + i) != 0xFB {
            err("write past the end of a block: size, offset", size, i);
            break;
        }
    }
    if sut {
        s.live_blocks -= 1;
        s.live_bytes -= size as i64;
        s.frees += 1;
    }
    (*h).magic = DEAD;
    #[cfg(not(asan))]
    {
        if size <= 1 << 16 {
            std::ptr::write_bytes(p, 0xDD, size);
            if s.qn == QN || s.qbytes > 4 << 20 {
                flush();
            }
            s.q[s.qn] = p;
            s.qn += 1;
            s.qbytes += size;
            return;
        }
    }
    let (fl, off) = full(Layout::from_size_align_unchecked(size, align)).unwrap();
    System.dealloc(p.sub(off), fl);
}

/// true = refuse
#[inline]
fn request(size: usize, align: usize, realloc: bool) -> bool {
    let s = st();
    if !s.insut {
        return size > REFUSE_ABOVE;
    }
    let i = s.cnt;
    s.cnt += 1;
    s.reqs += 1;
    let refuse = size > REFUSE_ABOVE
        || match s.plan {
            Plan::None => false,
            Plan::Once(k) => i == k,
            Plan::From(k) => i >= k,
            Plan::All => true,
        };
    if refuse {
        // the first one and the last three
        s.no[if s.refused == 0 { 0 } else { 1 + s.refused as usize % 3 }] = Req { size, align, realloc, refused: true };
        s.refused += 1;
    }
    if s.nlog < 64 {
        s.log[s.nlog] = Req { size, align, realloc, refused: refuse };
    }
    s.nlog += 1;
    refuse
}

unsafe impl GlobalAlloc for VAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if request(l.size(), l.align(), false) {
            return std::ptr::null_mut();
        }
        raw_alloc(l, false, st().insut)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if request(l.size(), l.align(), false) {
            return std::ptr::null_mut();
        }
        raw_alloc(l, true, st().insut)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        raw_dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if request(new, l.align(), true) {
            return std::ptr::null_mut();
        }
        let nl = match Layout::from_size_align(new, l.align()) {
            Ok(x) => x,
            Err(_) => return std::ptr::null_mut(),
        };
        // Always moves, so that stale pointers into the old block are noticed.
        let n = raw_alloc(nl, false, st().insut);
        if !n.is_null() {
            let h = p.sub(HDR) as *mut Hdr;
            let have = if (*h).magic == ALIVE { (*h).size } else { 0 };
            std::ptr::copy_nonoverlapping(p, n, l.size().min(new).min(have));
            raw_dealloc(p, l);
        }
        n
    }
}

pub fn arm(p: Plan) {
    let s = st();
    s.prev = (s.no, s.refused, s.cnt);
    s.no = [NOREQ; 4];
    s.plan = p;
    s.cnt = 0;
    s.refused = 0;
    s.nlog = 0;
}

pub fn reset_case() {
    let s = st();
    s.insut = false;
    s.reqs = 0;
    s.frees = 0;
    s.live_blocks = 0;
    s.live_bytes = 0;
    s.err = None;
    arm(Plan::None);
}

/// Run harness code from within the code under test without counting its requests.
pub struct Pause(bool);
pub fn pause() -> Pause {
    let s = st();
    let p = Pause(s.insut);
    s.insut = false;
    p
}
impl Drop for Pause {
    fn drop(&mut self) {
        st().insut = self.0;
    }
}

/// User size of the live block at p (None when p is not the start of a live block). Only for pointers from an allocator.
pub unsafe fn block_info(p: *const u8) -> Option<(usize, usize)> {
    let h = p.sub(HDR) as *const Hdr;
    if (*h).magic == ALIVE {
        Some(((*h).size, (*h).align_sut >> 1))
    } else {
        None
    }
}
