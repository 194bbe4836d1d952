//! Cases, random generation helpers, SUT regions, per-case statistics, runner.
use crate::alloc::{self, st};
use crate::elem;
use std::any::Any;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// uniform in 0..n (n > 0)
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // what is rare is large: too slow under an interpreter
        if cfg!(miri) && den >= 100 * num {
            return false;
        }
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    /// size-like number up to max, biased to small values and to boundaries
    pub fn size(&mut self, max: u64) -> u64 {
        if max == 0 {
            return 0;
        }
        let v = match self.below(8) {
            0 | 1 => self.below(5),
            2 | 3 => self.below(16),
            4 => self.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 16384, 65535, 65536]),
            5 => {
                let b = self.below(64 - max.leading_zeros() as u64 + 1);
                self.next() & ((1u64 << b.min(63)) - 1)
            }
            _ => self.below(max + 1),
        };
        v.min(if cfg!(miri) { max.min(80) } else { max })
    }
    /// weights -> index
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut x = self.below(t.max(1));
        for (i, &v) in w.iter().enumerate() {
            if x < v {
                return i;
            }
            x -= v;
        }
        0
    }
    /// swarm: randomly scale the weights, dropping some (not those listed in keep)
    pub fn swarm(&mut self, base: &[u64], keep: &[usize]) -> Vec<u64> {
        let mut w: Vec<u64> = base.to_vec();
        let mode = self.below(4);
        for i in 0..w.len() {
            if keep.contains(&i) || mode == 0 {
                continue;
            }
            match self.below(if mode == 3 { 3 } else { 5 }) {
                0 => w[i] = 0,
                1 => w[i] *= 4,
                _ => {}
            }
        }
        if w.iter().all(|&x| x == 0) {
            return base.to_vec();
        }
        w
    }
}
#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

// ---------------------------------------------------------------- cases

pub type Op = [u64; 4];
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Case {
    pub h: Vec<u64>,
    pub ops: Vec<Op>,
}
impl Case {
    pub fn hv(&self, i: usize) -> u64 {
        self.h.get(i).copied().unwrap_or(0)
    }
    pub fn hash(&self) -> u64 {
        let mut x = 0x1234_5678u64;
        for v in &self.h {
            x = mix(x ^ *v).wrapping_add(1);
        }
        for o in &self.ops {
            for v in o {
                x = mix(x ^ *v).wrapping_add(0x77);
            }
        }
        x
    }
    pub fn text(&self) -> String {
        let mut s = String::from("h");
        for v in &self.h {
            let _ = write!(s, " {}", v);
        }
        s.push('\n');
        for o in &self.ops {
            let _ = write!(s, "o {} {} {} {}\n", o[0], o[1], o[2], o[3]);
        }
        s
    }
    pub fn parse(t: &str) -> Case {
        let mut c = Case::default();
        for l in t.lines() {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("h") => c.h = w.map(|x| x.parse().unwrap_or(0)).collect(),
                Some("o") => {
                    let v: Vec<u64> = w.map(|x| x.parse().unwrap_or(0)).collect();
                    let mut o = [0; 4];
                    for (i, x) in v.into_iter().take(4).enumerate() {
                        o[i] = x;
                    }
                    c.ops.push(o);
                }
                _ => {}
            }
        }
        c
    }
}

// ---------------------------------------------------------------- failing

static mut DESC: fn(&Case) -> String = |c| c.text();

#[cold]
pub fn vfail(msg: String) -> ! {
    st().insut = false;
    alloc::arm(alloc::Plan::None);
    println!("VFAIL {}", msg.replace('\n', " "));
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(101)
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => {{ let _g = $crate::alloc::pause(); $crate::vfail(format!($($a)*)) }};
}
#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::fail!($($a)*) } };
}
#[macro_export]
macro_rules! ckeq {
    ($a:expr, $b:expr, $($m:tt)*) => {{ let (a, b) = (&$a, &$b); if !(*a == *b) { $crate::fail!("{}: got {:?}, expected {:?}", format!($($m)*), a, b) } }};
}

// ---------------------------------------------------------------- SUT regions

pub struct Injected(pub &'static str);
pub struct Fuel;

#[derive(Debug, PartialEq)]
pub enum Pn {
    /// a panic raised by a callback of the harness
    Inj(&'static str),
    /// the comparison budget ran out
    Fuel,
    Other(String),
}

static mut LASTMSG: String = String::new();

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        st().insut = false;
        let p: &(dyn Any + Send) = info.payload();
        if p.is::<Injected>() || p.is::<Fuel>() {
            return;
        }
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe { LASTMSG = format!("{}{}", msg, loc) };
    }));
}

fn classify(p: Box<dyn Any + Send>) -> Pn {
    if let Some(i) = p.downcast_ref::<Injected>() {
        return Pn::Inj(i.0);
    }
    if p.is::<Fuel>() {
        return Pn::Fuel;
    }
    Pn::Other(unsafe { LASTMSG.clone() })
}

/// Run code under test; any panic is returned.
pub fn sut_catch<R>(f: impl FnOnce() -> R) -> Result<R, Pn> {
    let saved = st().insut;
    let r = catch_unwind(AssertUnwindSafe(|| {
        st().insut = true;
        let r = f();
        st().insut = false;
        r
    }));
    st().insut = false;
    let r = r.map_err(classify);
    st().insut = saved;
    check_errs();
    r
}
/// Run code under test that must not panic.
#[track_caller]
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    match sut_catch(f) {
        Ok(r) => r,
        Err(p) => vfail(format!("unexpected panic: {:?} (harness {})", p, std::panic::Location::caller())),
    }
}

pub fn check_errs() {
    if alloc::has_err() {
        vfail(format!("memory error: {}", alloc::take_err().unwrap()));
    }
    if let Some(e) = elem::take_err() {
        vfail(format!("element error: {}", e));
    }
}

/// Requests / refusals since the last arm().
pub fn reqs() -> u64 {
    st().cnt
}
pub fn refused() -> u64 {
    st().refused
}

/// Run f (which must not panic) under plan; returns result, requests made, requests refused.
#[track_caller]
pub fn planned<R>(p: alloc::Plan, f: impl FnOnce() -> R) -> (R, u64, u64) {
    alloc::arm(p);
    let r = sut(f);
    let x = (r, st().cnt, st().refused);
    alloc::arm(alloc::Plan::None);
    x
}

// ---------------------------------------------------------------- context

pub struct Cx {
    pub nontrivial: bool,
    pub labels: Vec<(&'static str, u64)>,
    pub digest: u64,
    pub trace: Option<String>,
    pub steps: u64,
}
impl Cx {
    pub fn new() -> Cx {
        Cx { nontrivial: false, labels: Vec::new(), digest: 0, trace: None, steps: 0 }
    }
    #[inline]
    pub fn hit(&mut self, l: &'static str) {
        self.add(l, 1)
    }
    pub fn add(&mut self, l: &'static str, n: u64) {
        let _g = alloc::pause();
        for e in self.labels.iter_mut() {
            if std::ptr::eq(e.0, l) || e.0 == l {
                e.1 += n;
                return;
            }
        }
        self.labels.push((l, n));
    }
    pub fn get(&self, l: &str) -> u64 {
        self.labels.iter().find(|e| e.0 == l).map_or(0, |e| e.1)
    }
    /// feed the observable trace
    pub fn obs(&mut self, tag: &'static str, v: u64) {
        let mut x = self.digest;
        for b in tag.bytes() {
            x = mix(x ^ b as u64);
        }
        self.digest = mix(x ^ v).wrapping_add(1);
        if let Some(t) = self.trace.as_mut() {
            let _ = write!(t, "{}={} ", tag, v);
        }
    }
}

pub trait Prop {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn gen(&self, r: &mut Rng) -> Case;
    fn run(&self, c: &Case, cx: &mut Cx);
    /// human-readable form of a case
    fn desc(&self, c: &Case) -> String {
        c.text()
    }
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut x = mix(seed ^ 0xABCD_1234_5678);
    for b in id.bytes() {
        x = mix(x ^ b as u64);
    }
    mix(x.wrapping_add(idx.wrapping_mul(0x9E37_79B9)))
}

pub fn gen_case(p: &dyn Prop, seed: u64, idx: u64) -> Case {
    let mut r = Rng::new(case_seed(seed, p.id(), idx));
    p.gen(&mut r)
}

#[repr(C)]
struct ITimerVal([i64; 4]);
extern "C" {
    fn setitimer(which: i32, new: *const ITimerVal, old: *mut ITimerVal) -> i32;
}
static mut CPU: i64 = 100;

pub fn run_case(p: &dyn Prop, c: &Case, cx: &mut Cx) {
    // a case that uses this much CPU time does not terminate: SIGPROF ends the process
    #[cfg(not(miri))]
    unsafe {
        setitimer(2, &ITimerVal([0, 0, CPU, 0]), std::ptr::null_mut())
    };
    alloc::reset_case();
    elem::reset_case();
    let r = catch_unwind(AssertUnwindSafe(|| p.run(c, cx)));
    st().insut = false;
    alloc::arm(alloc::Plan::None);
    if let Err(e) = r {
        println!("HARNESS-PANIC {:?}", classify(e));
        std::process::exit(3);
    }
    check_errs();
    alloc::flush();
    check_errs();
}

/// Blocks and bytes the code under test still owns.
pub fn live() -> (i64, i64) {
    (st().live_blocks, st().live_bytes)
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}
fn argn(args: &[String], k: &str, d: u64) -> u64 {
    arg(args, k).and_then(|s| s.parse().ok()).unwrap_or(d)
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main_with(props: &[&dyn Prop]) {
    main_hooked(props, None)
}
pub fn main_hooked(props: &[&dyn Prop], hook: Option<Box<dyn Fn(&std::panic::PanicHookInfo<'_>) + Sync + Send>>) {
    let args: Vec<String> = std::env::args().collect();
    match hook {
        Some(h) => std::panic::set_hook(h),
        None => install_hook(),
    }
    elem::init();
    if args.len() < 2 || args[1] == "list" {
        for p in props {
            println!("{}", p.id());
        }
        return;
    }
    let p: &dyn Prop = match props.iter().find(|p| p.id() == args[1]) {
        Some(p) => *p,
        None => {
            eprintln!("no such property {}", args[1]);
            std::process::exit(4)
        }
    };
    let seed = argn(&args, "--seed", 1);
    unsafe { CPU = argn(&args, "--cpu", 100) as i64 };
    match args.get(2).map(|s| s.as_str()) {
        Some("gen") => {
            print!("{}", gen_case(p, seed, argn(&args, "--index", 0)).text());
        }
        Some("desc") => {
            let c = Case::parse(&std::fs::read_to_string(&args[3]).expect("read"));
            println!("{}", p.desc(&c));
        }
        Some("replay") => {
            let c = Case::parse(&std::fs::read_to_string(&args[3]).expect("read"));
            let mut cx = Cx::new();
            if arg(&args, "--trace").is_some() {
                cx.trace = Some(String::new());
            }
            let n = argn(&args, "--repeat", 1);
            for _ in 0..n {
                run_case(p, &c, &mut cx);
            }
            if let Some(t) = cx.trace {
                println!("TRACE {}", t);
            }
            println!("DIGEST {:016x}", cx.digest);
            for (l, n) in &cx.labels {
                println!("LABEL {} {}", l, n);
            }
            println!("PASS nontrivial={}", cx.nontrivial);
        }
        Some("run") => run_shard(p, &args, seed),
        _ => {
            eprintln!("bad command");
            std::process::exit(4)
        }
    }
}

pub struct Acc {
    pub evals: u64,
    pub nontriv: u64,
    pub steps: u64,
    pub hashes: HashSet<u64>,
    pub labels: Vec<(&'static str, u64, u64)>, // cases, occurrences
    pub samples: Vec<(usize, String)>,
}
impl Acc {
    pub fn new() -> Acc {
        Acc { evals: 0, nontriv: 0, steps: 0, hashes: HashSet::new(), labels: vec![], samples: vec![] }
    }
    pub fn add(&mut self, p: &dyn Prop, c: &Case, cx: &Cx) {
        self.evals += 1;
        self.steps += cx.steps;
        if cx.nontrivial {
            self.nontriv += 1;
            if self.hashes.insert(c.hash()) {
                let l = c.ops.len();
                if l <= 12 && self.samples.len() < 3 || self.samples.is_empty() && l <= 400 {
                    let mut d = p.desc(c);
                    if d.len() > 1500 {
                        let mut n = 1500;
                        while !d.is_char_boundary(n) {
                            n -= 1;
                        }
                        d.truncate(n);
                        d.push_str("...");
                    }
                    self.samples.push((l, d));
                }
            }
        }
        for (l, n) in &cx.labels {
            if let Some(e) = self.labels.iter_mut().find(|e| e.0 == *l) {
                e.1 += 1;
                e.2 += n;
            } else {
                self.labels.push((l, 1, *n));
            }
        }
    }
    pub fn write(&self, p: &dyn Prop, out: &str, done: bool) {
        let mut s = String::new();
        let _ = write!(s, "{{\"rule\":{},\"evaluations\":{},\"nontrivial\":{},\"steps\":{},\"finished\":{},\"labels\":{{", jstr(p.rule()), self.evals, self.nontriv, self.steps, done);
        for (i, (l, a, b)) in self.labels.iter().enumerate() {
            let _ = write!(s, "{}{}:[{},{}]", if i > 0 { "," } else { "" }, jstr(l), a, b);
        }
        s.push_str("},\"samples\":[");
        for (i, (_, d)) in self.samples.iter().enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, jstr(d));
        }
        s.push_str("]}");
        std::fs::write(out, s).expect("write stats");
        let mut b = Vec::with_capacity(self.hashes.len() * 8);
        for h in &self.hashes {
            b.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(format!("{}.hashes", out), b).expect("write hashes");
    }
}

fn run_shard(p: &dyn Prop, args: &[String], seed: u64) {
    use std::os::unix::fs::FileExt;
    let shard = argn(args, "--shard", 0);
    let shards = argn(args, "--shards", 1);
    let count = argn(args, "--count", 1000);
    let start = argn(args, "--start", 0);
    let cap = argn(args, "--cap", 600);
    let out = arg(args, "--out");
    let cur = arg(args, "--cur").map(|f| std::fs::OpenOptions::new().create(true).write(true).open(f).expect("cur"));
    let digests = arg(args, "--digests");
    let mut dig = String::new();
    let t0 = std::time::Instant::now();
    let mut acc = Acc::new();
    let mut idx = start + shard;
    let mut done = true;
    while idx < start + count {
        if t0.elapsed().as_secs() >= cap {
            done = false;
            break;
        }
        if let Some(f) = &cur {
            let _ = f.write_at(&idx.to_le_bytes(), 0);
        }
        let c = gen_case(p, seed, idx);
        let mut cx = Cx::new();
        run_case(p, &c, &mut cx);
        if digests.is_some() {
            let _ = write!(dig, "{} {:016x}\n", idx, cx.digest);
        }
        acc.add(p, &c, &cx);
        idx += shards;
    }
    if let Some(o) = out {
        acc.write(p, &o, done);
    }
    if let Some(d) = digests {
        std::fs::write(d, dig).expect("digests");
    }
    println!("OK evals={} nontrivial={} secs={:.1}", acc.evals, acc.nontriv, t0.elapsed().as_secs_f64());
}
