//! Driving double-ended iterators against the expected sequence.
use crate::engine::*;
use crate::*;
use std::fmt::Debug;

/// what the caller of `drive` gets to know
pub struct Drove {
    pub f: usize,
    pub b: usize,
}

pub struct How<'h, I, X> {
    pub len: Option<fn(&I) -> usize>,
    pub cln: Option<fn(&I) -> I>,
    /// checked at random points with what remains
    pub dbg: Option<&'h dyn Fn(&I, &[X])>,
    pub exact: bool,
}
impl<'h, I, X> How<'h, I, X> {
    pub fn plain() -> Self {
        How { len: None, cln: None, dbg: None, exact: false }
    }
}

fn hint<I: Iterator>(it: &I, left: usize, exact: bool, what: &str) {
    let (lo, hi) = sut(|| it.size_hint());
    ck!(lo <= left && hi.map_or(true, |h| h >= left), "{}: size_hint {:?} with {} items left", what, (lo, hi), left);
    if exact {
        ck!(lo == left && hi == Some(left), "{}: size_hint {:?} of an exact-size iterator with {} items left", what, (lo, hi), left);
    }
}

pub fn drive<I: DoubleEndedIterator, X: PartialEq + Debug + Clone>(cx: &mut Cx, it: I, exp: &[X], see: &mut dyn FnMut(I::Item) -> X, how: How<I, X>, seed: u64, what: &str) -> Drove {
    let mut r = Rng::new(seed);
    let mut it = it;
    let n = exp.len();
    let (mut f, mut b) = (0usize, n);
    let style = r.below(6);
    let stop = if r.chance(1, 2) { r.below(n as u64 + 1) as usize } else { n + 3 };
    let probe = if n > 200 { 40 } else { 8 };
    let mut steps = 0;
    let mut burst = 0;
    let mut dir = r.chance(1, 2);
    let mut mixed = (false, false);
    while steps < stop {
        steps += 1;
        let back = match style {
            0 => r.chance(1, 2),
            1 => r.chance(1, 12),
            2 => r.chance(11, 12),
            3 => steps % 2 == 0,
            4 => {
                if burst == 0 {
                    burst = r.below(14) + 1;
                    dir = !dir;
                }
                burst -= 1;
                dir
            }
            _ => dir,
        };
        if r.chance(1, probe) {
            let left = b - f;
            hint(&it, left, how.exact, what);
            if let Some(l) = how.len {
                ckeq!(sut(|| l(&it)), left, "{}: len", what);
            }
            if let Some(d) = how.dbg {
                d(&it, &exp[f..b]);
            }
            if let Some(c) = how.cln {
                // an independent copy, taken to its end
                let mut cp = sut(|| c(&it));
                let bk = r.chance(1, 2);
                let k = if r.chance(1, 2) { left } else { r.below(left as u64 + 1) as usize };
                let (mut cf, mut cb) = (f, b);
                for _ in 0..k {
                    let x = sut(|| if bk { cp.next_back() } else { cp.next() });
                    let e = if bk {
                        cb -= 1;
                        &exp[cb]
                    } else {
                        cf += 1;
                        &exp[cf - 1]
                    };
                    match x {
                        None => fail!("{}: clone of the iterator ended early", what),
                        Some(x) => ckeq!(&see(x), e, "{}: clone of the iterator", what),
                    }
                }
                if k == left {
                    ck!(sut(|| cp.next()).is_none() && sut(|| cp.next_back()).is_none(), "{}: clone of the iterator yields more", what);
                }
                cx.hit("iterator cloned midway");
            }
        }
        let jump = if r.chance(1, 10) { r.below(5) as usize } else { 0 };
        let left = b - f;
        let x = sut(|| match (back, jump) {
            (false, 0) => it.next(),
            (true, 0) => it.next_back(),
            (false, j) => it.nth(j),
            (true, j) => it.nth_back(j),
        });
        let e = if jump >= left {
            f = b;
            None
        } else if back {
            b -= jump + 1;
            Some(&exp[b])
        } else {
            f += jump + 1;
            Some(&exp[f - 1])
        };
        match (x, e) {
            (None, None) => {}
            (Some(x), Some(e)) => {
                if back {
                    mixed.1 = true
                } else {
                    mixed.0 = true
                }
                let x = see(x);
                ckeq!(&x, e, "{}: step {} (back: {}, skipping {})", what, steps, back, jump);
            }
            (Some(x), None) => {
                let x = see(x);
                fail!("{}: step {} (back: {}) yielded {:?} though nothing is left", what, steps, back, x)
            }
            (None, Some(e)) => fail!("{}: step {} (back: {}) yielded nothing instead of {:?} ({} left)", what, steps, back, e, left),
        }
        check_errs();
    }
    if mixed.0 && mixed.1 {
        cx.hit("both ends interleaved");
    }
    let left = b - f;
    hint(&it, left, how.exact, what);
    if left == 0 {
        for _ in 0..3 {
            ck!(sut(|| it.next()).is_none(), "{}: yields again after its end", what);
            ck!(sut(|| it.next_back()).is_none(), "{}: yields again (backwards) after its end", what);
        }
        hint(&it, 0, how.exact, what);
        cx.hit("iterated to the end");
    } else {
        // finish in one of several ways, or drop it early
        match r.below(10) {
            7 | 8 => {
                methods(cx, it, &exp[f..b], see, how.exact, r.next(), what);
                f = b;
            }
            9 => {
                let mut e: Vec<X> = exp[f..b].to_vec();
                e.reverse();
                methods(cx, it.rev(), &e, see, how.exact, r.next(), what);
                f = b;
            }
            0 => {
                let x = sut(|| it.last());
                match x {
                    None => fail!("{}: last() is none with {} left", what, left),
                    Some(x) => ckeq!(&see(x), &exp[b - 1], "{}: last()", what),
                }
            }
            1 => ckeq!(sut(|| it.count()), left, "{}: count()", what),
            2 => {
                let mut i = f;
                let items: Vec<I::Item> = {
                    let mut v = Vec::with_capacity(left + 4);
                    sut(|| it.for_each(|x| v.push(x)));
                    v
                };
                ckeq!(items.len(), left, "{}: items of for_each", what);
                for x in items {
                    ckeq!(&see(x), &exp[i], "{}: for_each", what);
                    i += 1;
                }
                f = b;
            }
            3 => {
                let mut v = Vec::with_capacity(left + 4);
                sut(|| it.rev().for_each(|x| v.push(x)));
                ckeq!(v.len(), left, "{}: items of rev()", what);
                let mut i = b;
                for x in v {
                    i -= 1;
                    ckeq!(&see(x), &exp[i], "{}: rev()", what);
                }
                b = f;
            }
            _ => {
                cx.hit("iterator dropped early");
                let it2 = it;
                sut(move || drop(it2));
            }
        }
    }
    Drove { f, b }
}

/// forward-only variant with an inexact hint
pub fn drive_fwd<I: Iterator, X: PartialEq + Debug + Clone>(cx: &mut Cx, it: I, exp: &[X], see: &mut dyn FnMut(I::Item) -> X, cln: Option<fn(&I) -> I>, dbg: Option<&dyn Fn(&I, &[X])>, seed: u64, what: &str) {
    let mut r = Rng::new(seed);
    let mut it = it;
    let n = exp.len();
    let stop = if r.chance(1, 4) { r.below(n as u64 + 1) as usize } else { n + 1 };
    let probe = if n > 100 { 30 } else { 5 };
    let mut f = 0;
    for step in 0..stop {
        let left = n - f;
        hint(&it, left, false, what);
        if r.chance(1, probe) {
            if let Some(d) = dbg {
                d(&it, &exp[f..]);
            }
            if let Some(c) = cln {
                let mut cp = sut(|| c(&it));
                let k = if r.chance(1, 2) { left } else { r.below(left as u64 + 1) as usize };
                for i in 0..k {
                    match sut(|| cp.next()) {
                        None => fail!("{}: clone of the iterator ended early", what),
                        Some(x) => ckeq!(&see(x), &exp[f + i], "{}: clone of the iterator", what),
                    }
                }
                if k == left {
                    ck!(sut(|| cp.next()).is_none(), "{}: clone of the iterator yields more", what);
                } else {
                    hint(&cp, left - k, false, what);
                }
                cx.hit("iterator cloned midway");
            }
        }
        let jump = if r.chance(1, 12) { r.below(4) as usize } else { 0 };
        let x = sut(|| if jump == 0 { it.next() } else { it.nth(jump) });
        if jump >= left {
            ck!(x.is_none(), "{}: step {} yielded something though nothing is left", what, step);
            f = n;
        } else {
            f += jump + 1;
            match x {
                None => fail!("{}: step {} ended early, {} items are left", what, step, left),
                Some(x) => ckeq!(&see(x), &exp[f - 1], "{}: step {}", what, step),
            }
        }
        check_errs();
    }
    if f == n {
        for _ in 0..2 {
            ck!(sut(|| it.next()).is_none(), "{}: yields again after its end", what);
        }
        hint(&it, 0, false, what);
    } else {
        let left = n - f;
        match r.below(6) {
            5 => methods(cx, it, &exp[f..], see, false, r.next(), what),
            0 => ckeq!(sut(|| it.count()), left, "{}: count()", what),
            1 => match sut(|| it.last()) {
                None => fail!("{}: last() is none with {} left", what, left),
                Some(x) => ckeq!(&see(x), &exp[n - 1], "{}: last()", what),
            },
            2 => match sut(|| it.max_by(|_, _| std::cmp::Ordering::Less)) {
                None => fail!("{}: max_by is none with {} left", what, left),
                Some(x) => {
                    let _ = see(x);
                }
            },
            _ => {}
        }
    }
}

/// an iterator of known contents, used by a generated choice of the methods every iterator has
pub fn methods<I: Iterator, X: PartialEq + Debug + Clone>(cx: &mut Cx, it: I, all: &[X], see: &mut dyn FnMut(I::Item) -> X, exact: bool, seed: u64, what: &str) {
    let mut r = Rng::new(seed);
    let mut it = it;
    let mut left = all;
    let lens = |r: &mut Rng, left: &[X]| match r.below(6) {
        0 => left.len() + r.below(3) as usize,
        1 => left.len().saturating_sub(1),
        2 | 3 => r.below(4) as usize,
        _ => r.below(left.len() as u64 + 2) as usize,
    };
    for _ in 0..r.below(7) {
        hint(&it, left.len(), exact, what);
        let k = lens(&mut r, left);
        match r.below(6) {
            0 => {
                let x = sut(|| it.next());
                ckeq!(x.map(&mut *see), left.first().cloned(), "{}: next with {} left", what, left.len());
                left = &left[1.min(left.len())..];
            }
            1 | 2 => {
                let x = sut(|| it.nth(k));
                ckeq!(x.map(&mut *see), left.get(k).cloned(), "{}: nth({}) with {} left", what, k, left.len());
                left = &left[(k + 1).min(left.len())..];
            }
            3 => {
                let mut got = Vec::with_capacity(k.min(left.len()));
                sut(|| it.by_ref().take(k).for_each(|x| got.push(x)));
                let got: Vec<X> = got.into_iter().map(&mut *see).collect();
                ckeq!(got, left[..k.min(left.len())].to_vec(), "{}: by_ref().take({}) with {} left", what, k, left.len());
                left = &left[k.min(left.len())..];
            }
            4 => {
                // stops at the first that is not wanted
                let mut q = 0;
                let p = sut(|| {
                    it.position(|_| {
                        q += 1;
                        q > k
                    })
                });
                ckeq!(p, if k < left.len() { Some(k) } else { None }, "{}: position of the {}th with {} left", what, k, left.len());
                left = &left[(k + 1).min(left.len())..];
            }
            _ => {
                let mut q = 0;
                let x = sut(|| {
                    it.find(|_| {
                        q += 1;
                        q > k
                    })
                });
                ckeq!(x.map(&mut *see), left.get(k).cloned(), "{}: find of the {}th with {} left", what, k, left.len());
                left = &left[(k + 1).min(left.len())..];
            }
        }
    }
    let k = lens(&mut r, left);
    let n = left.len();
    let mut got: Vec<I::Item> = Vec::with_capacity(n + 8);
    let (name, want): (&'static str, Vec<X>) = match r.below(12) {
        0 => {
            got.extend(sut(|| it.last()));
            ("last", left.last().cloned().into_iter().collect())
        }
        1 => {
            ckeq!(sut(|| it.count()), n, "{}: count", what);
            ("count", vec![])
        }
        2 => {
            sut(|| it.skip(k).for_each(|x| got.push(x)));
            ("skip", left[k.min(n)..].to_vec())
        }
        3 => {
            let s = 1 + k % 5;
            sut(|| it.step_by(s).for_each(|x| got.push(x)));
            ("step_by", left.iter().cloned().step_by(s).collect())
        }
        4 => {
            sut(|| it.zip(0..k).for_each(|x| got.push(x.0)));
            ("zip", left[..k.min(n)].to_vec())
        }
        5 => {
            sut(|| it.fold((), |_, x| got.push(x)));
            ("fold", left.to_vec())
        }
        6 => {
            // the first and the last of equals
            let x = if k % 2 == 0 { sut(|| it.min_by(|_, _| std::cmp::Ordering::Equal)) } else { sut(|| it.max_by(|_, _| std::cmp::Ordering::Equal)) };
            got.extend(x);
            ("min_by or max_by", if k % 2 == 0 { left.first() } else { left.last() }.cloned().into_iter().collect())
        }
        7 => {
            let mut q = 0;
            let all = sut(|| {
                it.all(|_| {
                    q += 1;
                    q <= k
                })
            });
            ckeq!((all, q), (k >= n, n.min(k + 1)), "{}: all, of {} left", what, n);
            ("all", vec![])
        }
        8 => {
            let mut q = 0;
            let (a, b): (Vec<I::Item>, Vec<I::Item>) = {
                let _g = pause();
                it.partition(|_| {
                    q += 1;
                    q % 3 == 0
                })
            };
            got.extend(a);
            got.extend(b);
            ("partition", left.iter().enumerate().filter(|x| x.0 % 3 == 2).chain(left.iter().enumerate().filter(|x| x.0 % 3 != 2)).map(|x| x.1.clone()).collect())
        }
        9 => {
            let mut p = it.peekable();
            let some = sut(|| p.peek().is_some());
            ckeq!(some, n > 0, "{}: peek", what);
            sut(|| p.for_each(|x| got.push(x)));
            ("peekable", left.to_vec())
        }
        10 => {
            sut(|| {
                while let Some(x) = it.next() {
                    let _g = pause();
                    got.push(x)
                }
            });
            for _ in 0..3 {
                ck!(sut(|| it.next()).is_none(), "{}: yields after its end", what);
                ck!(sut(|| it.nth(k)).is_none(), "{}: nth yields after its end", what);
            }
            hint(&it, 0, exact, what);
            ("next", left.to_vec())
        }
        _ => {
            let _g = pause();
            got = it.collect();
            ("collect", left.to_vec())
        }
    };
    let got: Vec<X> = got.into_iter().map(&mut *see).collect();
    ckeq!(got, want, "{}: {} ({}) with {} left", what, name, k, n);
    cx.hit(name);
}
