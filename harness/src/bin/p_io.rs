//! F01 (formatting), I01 (bounded reading), I02 (writing into a try-vector).
#![allow(deprecated)]
use std::cell::Cell;
use std::fmt::{self, Display, Write as _};
use vh::fc::tryformat;
use vh::*;

// ------------------------------------------------------------------ formatting

thread_local!(static RUNS: Cell<u64> = const { Cell::new(0) });

/// text produced by a generated list of writes
struct Fm<'a>(&'a [Op]);
const STRS: [&str; 10] = ["", "a", "hello world", "é", "日本語", "\u{1F980}", "tab\t\"quoted\"\n", "0123456789012345678901234567890123456789", "\0", "ß∀x"];
impl<'a> Display for Fm<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        RUNS.with(|r| r.set(r.get() + 1));
        for o in self.0 {
            let s = STRS[(o[1] % 10) as usize];
            let n = o[2];
            match o[0] % 14 {
                0 | 1 => f.write_str(s)?,
                2 => f.write_char(char::from_u32((n % 0x11_0000) as u32).unwrap_or('?'))?,
                3 => write!(f, "{}", n)?,
                4 => write!(f, "{:#x}|{:o}|{:b}", n, n as u16, n as u8)?,
                5 => write!(f, "{:?}", s)?,
                6 => write!(f, "{:>w$}", s, w = (n % 60) as usize)?,
                7 => write!(f, "{:*^w$.p$}", s, w = (n % 20) as usize, p = (n / 20 % 6) as usize)?,
                8 => write!(f, "{:+.3}", n as f64 / 7.0)?,
                9 => write!(f, "{:e}", f64::from_bits(n))?,
                10 => write!(f, "{:?}", [n as u8, (n >> 8) as u8])?,
                11 => write!(f, "{:#?}", (s, Some(n as i32)))?,
                12 => f.pad(s)?,
                _ => {
                    for _ in 0..n % 200 {
                        f.write_str(s)?
                    }
                }
            }
        }
        Ok(())
    }
}
impl<'a> fmt::Debug for Fm<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.0.iter().map(|o| o[1])).finish()?;
        Display::fmt(self, f)
    }
}

type FRes = Result<String, vh::fc::TryReserveError>;
struct Tf<'a> {
    run: &'a mut dyn FnMut(&mut dyn FnMut() -> String, &mut dyn FnMut(usize) -> FRes),
}

/// the same template formatted ordinarily and fallibly
macro_rules! both {
    ($t:expr, $($a:tt)*) => {
        ($t.run)(&mut || { let _g = pause(); format!($($a)*) }, &mut |cap| vh::fc::format::try_format(cap, format_args!($($a)*)))
    };
}
macro_rules! bothm {
    ($t:expr, $($a:tt)*) => {
        ($t.run)(&mut || { let _g = pause(); format!($($a)*) }, &mut |cap| tryformat!(cap, $($a)*))
    };
}
const NTEMPL: u64 = 16;
fn templates(i: u64, a: &Fm, n: u64, s: &str, t: Tf) {
    let w = (n >> 20) as usize % 80;
    let p = (n >> 30) as usize % 9;
    match i % NTEMPL {
        0 | 1 => both!(t, "{}", a),
        2 => bothm!(t, "{}", a),
        3 => bothm!(t, "plain text without arguments"),
        4 => both!(t, ""),
        5 => both!(t, "{a}{n}{a:?}", a = a, n = n),
        6 => bothm!(t, "<{:>w$}|{:<5}|{:^7}>", s, n, a, w = w),
        7 => both!(t, "{{{}}}", n),
        8 => both!(t, "{0}{0}{1}{0}", a, s),
        9 => bothm!(t, "{:#?}", (n, s, a)),
        10 => both!(t, "{:0>w$}{:.p$}", n, n as f64 / 3.0, w = w, p = p),
        11 => both!(t, "{}", s),
        12 => bothm!(t, "{s}{s:?}{n:x}"),
        13 => both!(t, "{:w$}", a, w = w),
        14 => both!(t, "x{}", format_args!("{}{:?}", a, s)),
        _ => both!(t, "{:?} {}", (s, 'x', &[n as u8, 3][..]), a),
    }
}

struct PF;
impl Prop for PF {
    fn id(&self) -> &'static str {
        "F01"
    }
    fn rule(&self) -> &'static str {
        "the text is not empty and the capacity is at least its length, or the capacity request was refused or impossible"
    }
    fn gen(&self, r: &mut Rng) -> Case {
        let mut ops = Vec::new();
        for _ in 0..r.size(12) {
            let sh = r.below(60);
            ops.push([r.below(14), r.below(10), r.next() >> sh, 0]);
        }
        // capacity: text length plus a delta, or absolute
        let cap = match r.below(10) {
            0 => [0, r.below(40)],
            1 => [1, r.size(70000)],
            2 => [2, r.below(8)],
            3 => [3, 1 + r.below(30)],
            4 | 5 => [0, 0],
            _ => [0, r.size(2000)],
        };
        Case { h: vec![r.below(NTEMPL), cap[0], cap[1], r.below(4), r.next(), r.below(10)], ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) {
        let s = STRS[(c.hv(5) % 10) as usize];
        let a = Fm(&c.ops);
        let mut run = |std: &mut dyn FnMut() -> String, fal: &mut dyn FnMut(usize) -> FRes| {
            let want = std();
            let len = want.len();
            let cap = match c.hv(1) % 4 {
                0 => len.saturating_add(c.hv(2) as usize),
                1 => c.hv(2) as usize,
                2 => [isize::MAX as usize + 1, usize::MAX, usize::MAX / 2 + 2, 1 << (usize::BITS - 1), usize::MAX - 7, isize::MAX as usize, 1 << (usize::BITS - 2), isize::MAX as usize - 1][(c.hv(2) % 8) as usize],
                _ => len.saturating_sub(c.hv(2) as usize),
            };
            let runs = || RUNS.with(|r| r.get());
            let possible = cap <= 1 << 28;
            cx.steps += 1;
            if !possible {
                let before = (live(), runs());
                let r = sut_catch(|| fal(cap));
                match r {
                    Ok(Err(_)) => {}
                    Ok(Ok(_)) => fail!("formatting with capacity {} succeeded", cap),
                    Err(p) => fail!("formatting with capacity {}: panic {:?}", cap, p),
                }
                ckeq!((live(), runs()), before, "blocks, bytes and runs of the formatting after an impossible capacity");
                cx.nontrivial = true;
                cx.hit("impossible capacities");
                return;
            }
            let plan = c.hv(3) % 4;
            // refuse the capacity
            if plan < 2 && cap > 0 {
                let before = (live(), runs());
                arm(if plan == 0 { Plan::Once(0) } else { Plan::All });
                let r = sut_catch(|| fal(cap));
                let refused = st().refused;
                arm(Plan::None);
                match r {
                    Ok(Err(_)) => ckeq!(refused, 1, "requests refused to a formatting that failed"),
                    Ok(Ok(t)) => fail!("formatting succeeded ({:?}) although its capacity request was refused", t),
                    Err(p) => fail!("formatting panicked when its capacity was refused: {:?}", p),
                }
                ckeq!((live(), runs()), before, "blocks, bytes and runs of the formatting after a refused capacity");
                cx.nontrivial = true;
                cx.hit("refused capacities");
            }
            let enough = cap >= len;
            // when the text fits, nothing after the first request may be needed
            arm(if enough { Plan::From((cap > 0) as u64) } else { Plan::None });
            let before = live();
            let r = sut_catch(|| fal(cap));
            let reqs = st().cnt;
            arm(Plan::None);
            let got = match r {
                Ok(Ok(t)) => t,
                Ok(Err(_)) => fail!("formatting {} bytes with capacity {} failed although memory is available", len, cap),
                Err(p) => fail!("formatting {} bytes with capacity {}: panic {:?}", len, cap, p),
            };
            ck!(got == want, "formatted text is {:?}, ordinary formatting gives {:?}", got, want);
            ck!(got.capacity() >= cap, "capacity {} of the text, {} were asked for", got.capacity(), cap);
            if enough {
                ckeq!(reqs, (cap > 0) as u64, "requests made to format {} bytes with capacity {}", len, cap);
                if len > 0 {
                    cx.nontrivial = true;
                }
                cx.hit(if cap == len { "exact capacities" } else { "larger capacities" });
            } else {
                cx.hit("capacities below the text's length");
            }
            ckeq!(live().0 - before.0, (got.capacity() > 0) as i64, "blocks owned by the text");
            sut(move || drop(got));
            ckeq!(live(), before, "blocks and bytes after dropping the text");
        };
        templates(c.hv(0), &a, c.hv(4), s, Tf { run: &mut run });
    }
    fn desc(&self, c: &Case) -> String {
        let mut t = String::new();
        templates(c.hv(0), &Fm(&c.ops), c.hv(4), STRS[(c.hv(5) % 10) as usize], Tf { run: &mut |s, _| t = s() });
        let cap = match c.hv(1) % 4 {
            0 => format!("{}", t.len() as u64 + c.hv(2)),
            1 => format!("{}", c.hv(2)),
            2 => "impossible".into(),
            _ => format!("{}", (t.len() as u64).saturating_sub(c.hv(2))),
        };
        format!("template {} giving {} bytes ({:?}), capacity {}, plan {}", c.hv(0) % NTEMPL, t.len(), t.chars().take(60).collect::<String>(), cap, c.hv(3) % 4)
    }
}

// ------------------------------------------------------------------ reading

#[cfg(feature = "stdio")]
mod io {
    use super::*;
    use std::io::{self, ErrorKind, IoSlice, Read, Write};
    use vh::fc::std_io::{try_read_up_to, TryRead};
    use vh::fc::TryVec;

    pub fn byte(seed: u64, i: usize) -> u8 {
        mix(seed ^ (i as u64) << 8) as u8
    }
    const KINDS: [ErrorKind; 6] = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::InvalidData, ErrorKind::TimedOut];

    /// hands out `byte(seed, 0..)` following a script; after the script, end of file
    struct Rd<'a> {
        seed: u64,
        pos: usize,
        script: &'a [Op],
        i: usize,
        left: usize,
        calls: u64,
        zeros: u64,
        interrupts: u64,
    }
    impl<'a> Rd<'a> {
        fn new(seed: u64, script: &'a [Op]) -> Self {
            Rd { seed, pos: 0, script, i: 0, left: 0, calls: 0, zeros: 0, interrupts: 0 }
        }
    }
    // script steps: 0..=5 a chunk of n bytes, 6 interrupted, 7 an error, 8 panic, 9 end of file once
    fn chunk(o: &Op) -> usize {
        match o[0] % 10 {
            0..=5 => o[1] as usize,
            _ => 0,
        }
    }
    impl<'a> Read for Rd<'a> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            self.calls += 1;
            if buf.is_empty() {
                return Ok(0);
            }
            if self.left == 0 {
                loop {
                    let Some(o) = self.script.get(self.i) else {
                        self.zeros += 1;
                        return Ok(0);
                    };
                    self.i += 1;
                    match o[0] % 10 {
                        6 => {
                            self.interrupts += 1;
                            return Err(ErrorKind::Interrupted.into());
                        }
                        7 => return Err(KINDS[(o[1] % 6) as usize].into()),
                        8 => closure_tick(&mut 0),
                        9 => {
                            self.zeros += 1;
                            return Ok(0);
                        }
                        _ => {
                            self.left = chunk(o);
                            if self.left > 0 {
                                break;
                            }
                        }
                    }
                }
            }
            let n = self.left.min(buf.len());
            for b in &mut buf[..n] {
                *b = byte(self.seed, self.pos);
                self.pos += 1;
            }
            self.left -= n;
            Ok(n)
        }
    }

    #[derive(Debug, PartialEq)]
    enum End {
        Eof,
        Limit,
        Err(ErrorKind),
        Panic,
    }
    /// what a bounded read of `limit` bytes must consume, and how it ends
    fn expect(script: &[Op], limit: u64) -> (u64, End) {
        let mut n = 0u64;
        if limit == 0 {
            return (0, End::Limit);
        }
        for o in script {
            match o[0] % 10 {
                6 => {}
                7 => return (n, End::Err(KINDS[(o[1] % 6) as usize])),
                8 => return (n, End::Panic),
                9 => return (n, End::Eof),
                _ => {
                    n += chunk(o) as u64;
                    if n >= limit {
                        return (limit, End::Limit);
                    }
                }
            }
        }
        (n, End::Eof)
    }

    fn contents(v: &TryVec<u8>, seed0: u64, old: usize, seed: u64, new: usize, what: &str) {
        ckeq!(v.len(), old + new, "length of the buffer after {}", what);
        for i in 0..old {
            if v[i] != byte(seed0, i) {
                fail!("byte {} of the previous contents changed by {}", i, what)
            }
        }
        for i in 0..new {
            if v[old + i] != byte(seed, i) {
                fail!("byte {} read by {} is {}, expected {}", i, what, v[old + i], byte(seed, i))
            }
        }
    }

    pub struct PR;
    const FORMS: [&str; 4] = ["try_read_up_to", "Take::try_read_to_end", "Take::read_into_try_vec", "try_read_up_to of a Take"];
    impl Prop for PR {
        fn id(&self) -> &'static str {
            "I01"
        }
        fn rule(&self) -> &'static str {
            "at least one byte was read, or a reader failed or was interrupted, or the reservation was refused or impossible"
        }
        fn gen(&self, r: &mut Rng) -> Case {
            let mut ops = Vec::new();
            let mode = r.below(4);
            // long reads
            let long = r.chance(1, 400);
            for _ in 0..r.size(14) {
                let k = r.weighted(&[8, 0, 0, 0, 0, 0, 3, (mode == 0) as u64, (mode == 1) as u64, (mode == 2) as u64]) as u64;
                if k == 6 && r.chance(1, 12) {
                    // one interruption after the other
                    let most = if r.chance(1, 5) { 1000 } else { 50 };
                    for _ in 0..r.size(most) {
                        ops.push([6, 0, 0, 0]);
                    }
                }
                ops.push([k, if k == 7 { r.below(6) } else { r.size(if long { 900_000 } else if mode == 3 { 20000 } else { 100 }) }, 0, 0]);
            }
            let sum: u64 = ops.iter().filter(|o| o[0] < 6).map(|o| o[1]).sum();
            let limit = match r.below(8) {
                0 => 0,
                1 | 2 => sum,
                3 => (sum + r.below(5)).saturating_sub(2),
                4 => r.size(sum + 40),
                5 => r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 8191, 8192, 8193]),
                6 if r.chance(1, 2) => r.pick(&[u64::MAX, 1 << 63, i64::MAX as u64, i64::MAX as u64 - 100, 1 << 62, u64::MAX - 50, 1 << 50]),
                // room for far more than is ever read
                6 if r.chance(1, 4) => 1 << r.range(17, 26) | r.next() >> 46,
                _ => r.size(if long { 6_000_000 } else { 100000 }),
            };
            Case { h: vec![r.below(4), limit, r.size(200), r.below(100), r.below(4), r.next() >> 20, r.below(4), r.below(200)], ops }
        }
        fn desc(&self, c: &Case) -> String {
            let mut s = format!("{} with limit {}, buffer of {} bytes with room for {} more, plan {}; reader: ", FORMS[(c.hv(0) % 4) as usize], c.hv(1), c.hv(2), c.hv(3), c.hv(4) % 4);
            for o in &c.ops {
                s += &match o[0] % 10 {
                    6 => "interrupted, ".to_string(),
                    7 => format!("error {:?}, ", KINDS[(o[1] % 6) as usize]),
                    8 => "panic, ".into(),
                    9 => "end of file, ".into(),
                    _ => format!("{} bytes, ", o[1]),
                };
            }
            s + "end of file"
        }
        fn run(&self, c: &Case, cx: &mut Cx) {
            let form = c.hv(0) % 4;
            let what = FORMS[form as usize];
            let limit = c.hv(1);
            let seed = c.hv(5);
            let seed0 = seed ^ 0x5555;
            let old = if form == 2 { 0 } else { c.hv(2) as usize % 5000 };
            // the limit of the inner Take in form 3
            let inner = c.hv(7);
            let room = if form == 2 { 0 } else { c.hv(3) as usize % 5000 };
            let mut ops: Vec<Op> = c.ops.clone();
            for o in ops.iter_mut() {
                o[1] = o[1].min(1 << 20)
            }
            let eff = if form == 3 { limit.min(inner) } else { limit };
            let (n, end) = expect(&ops, eff);
            let mut v: TryVec<u8> = TryVec::new();
            if form != 2 && old + room > 0 {
                sut(|| v.reserve(old + room)).unwrap_or_else(|_| fail!("reserve failed"));
            }
            for i in 0..old {
                sut(|| v.push(byte(seed0, i))).unwrap_or_else(|_| fail!("push failed"));
            }
            // room there really is, from the block behind the buffer
            let cap = if v.len() == 0 && old + room == 0 { 0 } else { unsafe { alloc::block_info(v.as_ptr()) }.map_or(0, |b| b.0) };
            let fits = (cap - old) as u64 >= limit;
            let impossible = !fits && limit > 1 << 29;
            let call = |rd: &mut Rd, v: &mut TryVec<u8>, out: &mut Option<TryVec<u8>>| -> io::Result<usize> {
                match form {
                    0 => try_read_up_to(rd, limit, v),
                    1 => {
                        let mut t = rd.take(limit);
                        let r = t.try_read_to_end(v);
                        if let Ok(k) = &r {
                            ckeq!(t.limit(), limit - *k as u64, "limit left in the reader");
                        }
                        r
                    }
                    2 => {
                        let mut t = rd.take(limit);
                        let w = t.read_into_try_vec()?;
                        let n = w.len();
                        *out = Some(w);
                        Ok(n)
                    }
                    _ => try_read_up_to(&mut rd.take(inner), limit, v),
                }
            };
            let before = live();
            cx.steps += 1;
            // refuse the reservation
            if impossible || c.hv(4) % 4 < 3 {
                let plan = if impossible {
                    [Plan::None, Plan::All][(c.hv(4) % 2) as usize]
                } else {
                    [Plan::Once(0), Plan::All, Plan::From(0)][(c.hv(4) % 4) as usize]
                };
                if impossible || !fits {
                    let mut rd = Rd::new(seed, &ops);
                    let mut out = None;
                    arm(plan);
                    let r = sut_catch(|| call(&mut rd, &mut v, &mut out));
                    let refused = st().refused;
                    arm(Plan::None);
                    match r {
                        Err(p) => fail!("{} panicked when its reservation was refused: {:?}", what, p),
                        Ok(Ok(k)) => fail!("{} read {} bytes although its reservation was refused ({} refusals)", what, k, refused),
                        Ok(Err(e)) => {
                            let _g = pause();
                            ck!(e.kind() != ErrorKind::Interrupted, "a refused reservation is reported as an interruption");
                        }
                    }
                    ckeq!((rd.pos, rd.calls), (0, 0), "bytes taken from and calls made to the reader after a refused reservation");
                    contents(&v, seed0, old, seed, 0, what);
                    ckeq!(live(), before, "blocks and bytes owned after a refused reservation");
                    cx.nontrivial = true;
                    cx.hit(if impossible { "impossible limits" } else { "refused reservations" });
                }
            }
            if impossible {
                return;
            }
            // read; beyond the reservation nothing may be needed
            let mut rd = Rd::new(seed, &ops);
            let mut out = None;
            arm(Plan::From(!fits as u64));
            let r = sut_catch(|| call(&mut rd, &mut v, &mut out));
            let (reqs, refused) = (st().cnt, st().refused);
            arm(Plan::None);
            disarm();
            ckeq!(refused, 0, "requests made by {} beyond its reservation", what);
            ckeq!(reqs, !fits as u64, "requests made by {} (limit {}, room {})", what, limit, cap - old);
            if eff == 0 {
                ckeq!(rd.calls, 0, "calls to the source of {} with limit 0", what);
            }
            ck!(rd.pos as u64 <= eff, "{} consumed {} bytes of the source, the limit is {}", what, rd.pos, eff);
            if rd.interrupts > 0 {
                cx.hit("interruptions");
            }
            if n > 0 {
                cx.nontrivial = true;
                cx.add("bytes", n);
            }
            match (&end, r) {
                (End::Eof | End::Limit, Ok(Ok(k))) => {
                    ckeq!(k as u64, n, "count returned by {}", what);
                    cx.hit(if end == End::Eof { "ends of file" } else { "limits reached" });
                }
                (End::Err(kind), Ok(Err(e))) => {
                    let _g = pause();
                    ckeq!(e.kind(), *kind, "kind of the reader's error returned by {}", what);
                    cx.hit("reader errors");
                    cx.nontrivial = true;
                }
                (End::Panic, Err(Pn::Inj(_))) => {
                    cx.hit("reader panics");
                    ck!(v.len() >= old && v.len() - old <= n as usize, "length of the buffer after the reader panicked: {}", v.len());
                    let got = v.len() - old;
                    contents(&v, seed0, old, seed, got, what);
                    ckeq!(live().0, before.0 + (before.0 == 0 && form != 2 && !fits) as i64, "blocks owned after the reader panicked");
                    return;
                }
                (_, r) => fail!("{}: got {:?}, the reader ends with {:?} after {} bytes", what, r, end, n),
            }
            ckeq!(rd.pos as u64, n, "bytes consumed from the source by {}", what);
            match out {
                Some(w) => {
                    if limit > 0 {
                        let have = unsafe { alloc::block_info(w.as_ptr()) }.map_or(0, |b| b.0);
                        ck!(have as u64 >= limit, "{} with limit {} made a buffer of {}", what, limit, have);
                    }
                    contents(&w, seed0, 0, seed, n as usize, what);
                    contents(&v, seed0, 0, seed, 0, what);
                    sut(move || drop(w));
                    ckeq!(live(), before, "blocks and bytes owned after dropping what was read");
                }
                None if form == 2 => ckeq!(live(), before, "blocks and bytes owned after a failed read"),
                None => contents(&v, seed0, old, seed, n as usize, what),
            }
            if !fits && form != 2 {
                let have = unsafe { alloc::block_info(v.as_ptr()) }.map_or(0, |b| b.0);
                ck!((have - old) as u64 >= limit, "{} with limit {} and {} bytes in the buffer left a buffer of {}", what, limit, old, have);
                if limit > 1 << 20 {
                    cx.hit("limits above 1 MiB");
                }
            }
            // the buffer goes on working
            sut(|| v.push(77)).unwrap_or_else(|_| fail!("push failed"));
            ckeq!(v.pop(), Some(77), "byte pushed after a read");
            sut(move || drop(v));
            ckeq!(live(), (0, 0), "blocks and bytes owned at the end");
        }
    }

    // -------------------------------------------------------------- writing

    pub struct PW;
    const WNAMES: [&str; 11] = ["write", "write_all", "write_fmt", "io::copy", "write_vectored", "flush", "by_ref().write", "write of nothing", "writeln of literals", "reserve", "write!(as dyn Write)"];
    /// slices large pieces so that they can be compared afterwards
    impl Prop for PW {
        fn id(&self) -> &'static str {
            "I02"
        }
        fn rule(&self) -> &'static str {
            "bytes were written and a write was refused memory, or at least three writes succeeded"
        }
        fn gen(&self, r: &mut Rng) -> Case {
            let n = r.range(1, 24);
            let w = r.swarm(&[8, 6, 5, 3, 3, 2, 3, 1, 2, 2, 3], &[]);
            let big = if n < 5 && r.chance(1, 60) { 2 << 20 } else if r.chance(1, 6) { 30000 } else { 300 };
            let ops = (0..n).map(|_| [r.weighted(&w) as u64, r.size(big), r.below(6), r.below(1000)]).collect();
            Case { h: vec![r.below(100), r.next() >> 20], ops }
        }
        fn desc(&self, c: &Case) -> String {
            let mut s = format!("capacity {}; ", c.hv(0) % 100);
            for o in &c.ops {
                s += &format!("{} {} plan {} ({}); ", WNAMES[(o[0] % 11) as usize], o[1], o[2], o[3]);
            }
            s
        }
        fn run(&self, c: &Case, cx: &mut Cx) {
            let seed = c.hv(1);
            let mut v: TryVec<u8> = if c.hv(0) % 100 > 0 { sut(|| TryVec::with_capacity(c.hv(0) as usize % 100)).unwrap_or_else(|_| fail!("with_capacity failed")) } else { TryVec::new() };
            let mut m: Vec<u8> = Vec::new();
            let mut next = 0usize;
            let (mut wrote, mut refusals) = (0, 0);
            for op in &c.ops {
                let kind = op[0] % 11;
                let what = WNAMES[kind as usize];
                let n = (op[1] as usize).min(100000);
                let data: Vec<u8> = (0..n).map(|i| byte(seed, next + i)).collect();
                next += n;
                let data2: Vec<u8> = data.iter().map(|b| !b).take(op[3] as usize % 50).collect();
                // the same bytes in up to a dozen pieces, some of them empty
                let mut pieces = vec![IoSlice::new(&[])];
                let mut rest = &data[..];
                for j in 0..op[3] / 50 % 11 {
                    let (a, b) = rest.split_at(mix(seed ^ op[3] ^ j) as usize % (rest.len().min(100) + 1));
                    pieces.push(IoSlice::new(a));
                    rest = b;
                }
                pieces.push(IoSlice::new(rest));
                pieces.push(IoSlice::new(&data2));
                let text = || -> String { data.iter().take(300).map(|b| (b'a' + b % 26) as char).collect() };
                let txt = text();
                let num = op[3];
                cx.steps += 1;
                // what must be appended
                let want: Vec<u8> = match kind {
                    2 | 10 => format!("{}-{:>6}|{:?}{}", txt, num, &txt[..txt.len().min(5)], num).into_bytes(),
                    4 => {
                        let mut d = data.clone();
                        d.extend_from_slice(&data2);
                        d
                    }
                    5 | 7 | 9 => vec![],
                    8 => b"literal only\n".to_vec(),
                    _ => data.clone(),
                };
                let script: Vec<Op> = vec![[0, (n / 3) as u64, 0, 0], [6, 0, 0, 0], [0, (n - n / 3) as u64, 0, 0]];
                let base = next - n;
                let single = matches!(kind, 0 | 1 | 4 | 6 | 7 | 9);
                for attempt in 0..2 {
                    let plan = if attempt == 0 {
                        match op[2] % 6 {
                            0 => Plan::Once(0),
                            1 => Plan::All,
                            2 => Plan::From(1),
                            _ => continue,
                        }
                    } else {
                        Plan::None
                    };
                    let mut rd = Rd::new(seed, &script);
                    rd.pos = base;
                    let have = live();
                    arm(plan);
                    let r: Result<io::Result<usize>, Pn> = sut_catch(|| match kind {
                        0 => v.write(&data),
                        1 => v.write_all(&data).map(|_| n),
                        2 => write!(v, "{}-{:>6}|{:?}{}", txt, num, &txt[..txt.len().min(5)], num).map(|_| want.len()),
                        3 => io::copy(&mut rd, &mut v).map(|n| n as usize),
                        4 => v.write_vectored(&pieces),
                        5 => v.flush().map(|_| 0),
                        6 => Write::by_ref(&mut v).write(&data),
                        7 => v.write(&[]),
                        8 => writeln!(v, "literal only").map(|_| want.len()),
                        9 => v.reserve(n).map(|_| 0).map_err(|_| ErrorKind::Other.into()),
                        _ => {
                            let d: &mut dyn Write = &mut v;
                            write!(d, "{}-{:>6}|{:?}{}", txt, num, &txt[..txt.len().min(5)], num).map(|_| want.len())
                        }
                    });
                    let (reqs, refused) = (st().cnt, st().refused);
                    arm(Plan::None);
                    match r {
                        Err(p) => fail!("{} of {} bytes panicked ({} requests, {} refused): {:?}", what, want.len(), reqs, refused, p),
                        Ok(Ok(k)) => {
                            ckeq!(refused, 0, "requests refused to a {} that succeeded", what);
                            let _g = pause();
                            // a vectored write may take any prefix of what it is given, but reports how much
                            if kind == 4 {
                                let mut all = data.clone();
                                all.extend_from_slice(&data2);
                                ck!(k <= all.len() && (k > 0 || all.is_empty()), "{} reports {} of {} bytes", what, k, all.len());
                                m.extend_from_slice(&all[..k]);
                            } else {
                                ckeq!(k, want.len(), "bytes reported by {}", what);
                                m.extend_from_slice(&want);
                            }
                            wrote += (k > 0) as u64;
                            if kind == 5 || kind == 7 {
                                ckeq!(reqs, 0, "requests made by {}", what);
                            }
                        }
                        Ok(Err(e)) => {
                            let _g = pause();
                            ck!(refused > 0, "{} of {} bytes failed ({:?}) although nothing was refused", what, want.len(), e.kind());
                            ck!(e.kind() != ErrorKind::Interrupted, "a refused write is reported as an interruption");
                            refusals += 1;
                            cx.hit("refused writes");
                            let done = v.len().checked_sub(m.len()).unwrap_or_else(|| fail!("a failed {} removed bytes", what));
                            if single {
                                ckeq!(done, 0, "bytes appended by a failed {}", what);
                                ckeq!(live(), have, "blocks and bytes owned after a failed {}", what);
                            }
                            // several writes: those before the failing one took place
                            ck!(done <= want.len() && v[m.len()..] == want[..done], "a failed {} appended something else than a prefix", what);
                            m.extend_from_slice(&want[..done]);
                        }
                    }
                    check_errs();
                    ck!(v[..] == m[..], "contents after {} (lengths {} and {})", what, v.len(), m.len());
                }
            }
            cx.nontrivial = refusals > 0 && wrote > 0 || wrote > 2;
            cx.add("writes", wrote);
            sut(move || drop(v));
            ckeq!(live(), (0, 0), "blocks and bytes owned at the end");
        }
    }
}

fn main() {
    #[cfg(feature = "stdio")]
    main_with(&[&PF, &io::PR, &io::PW]);
    #[cfg(not(feature = "stdio"))]
    main_with(&[&PF]);
}
