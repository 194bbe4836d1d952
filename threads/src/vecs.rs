use crate::*;
use fc::FallibleVec;

pub struct V<T: El> {
    t: TryVec<T>,
    m: Vec<u64>,
}
impl<T: El> Con for V<T> {
    type V = T;
    fn name() -> String {
        format!("try-vectors of {}", T::NAME)
    }
    fn new() -> Self {
        V { t: TryVec::new(), m: Vec::new() }
    }
    fn len(&self) -> usize {
        self.m.len()
    }
    fn read(&self, o: &Self, op: &Op) {
        let n = self.m.len();
        match op[0] % 8 {
            0 | 1 => {
                for x in 0..5 {
                    let i = mix(op[1] ^ x) as usize % (n + 2);
                    tckeq!(self.t.get(i).map(|x| x.val()), self.m.get(i).copied(), "element {} read by several threads", i);
                }
            }
            2 => {
                tckeq!(self.t.iter().map(|x| x.val()).collect::<Vec<_>>(), self.m, "elements iterated by several threads");
                tckeq!((self.t.len(), self.t.is_empty()), (n, n == 0), "length");
            }
            3 | 4 => {
                let (r, refused) = refusing(if op[2] % 2 == 0 { 0 } else { op[2] / 2 % 6 }, || self.t.try_clone());
                tckeq!(r.is_err(), refused, "failure of a clone while others read");
                if let Ok(mut c) = r {
                    tck!(c == self.t, "a clone differs from what is read by others");
                    tck!(c.push(T::mk(op[1])).is_ok(), "push failed");
                    if let Some(x) = c.first_mut() {
                        *x = T::mk(op[3]);
                    }
                    tckeq!(c.len(), n + 1, "length of a clone");
                }
            }
            5 => {
                tckeq!(self.t == o.t, self.m == o.m, "equality");
                tck!(self.t.as_slice() == &self.t[..], "equality with itself");
            }
            6 => tckeq!(format!("{:?}", self.t), format!("{:?}", self.m), "debug text"),
            _ => {
                let s = fc::tryformat!(64, "{}-{:?}", n, self.m.first());
                let s = s.unwrap_or_else(|e| tf!("tryformat! failed: {:?}", e));
                tckeq!(s, format!("{}-{:?}", n, self.m.first()), "formatted text");
            }
        }
    }
    fn change(&mut self, o: &mut Self, op: &Op) {
        let k = if op[2] % 2 == 0 { 0 } else { op[2] / 2 % 4 };
        let V { t, m } = self;
        let before = t.len();
        let add: Vec<u64> = (0..op[2] % 20).map(|i| mix(op[1] ^ i)).collect();
        let (ok, refused) = match op[0] % 8 {
            0 | 1 => {
                let e = T::mk(op[1]);
                let (r, f) = refusing(k, || t.push(e));
                if r.is_ok() {
                    m.push(op[1]);
                }
                (r.is_ok(), f)
            }
            2 => {
                let src: Vec<T> = add.iter().map(|x| T::mk(*x)).collect();
                let (r, f) = refusing(k, || t.extend_from_slice(&src));
                let done = t.len() - before;
                tck!(done <= add.len(), "too many elements");
                m.extend(&add[..done]);
                (r.is_ok() && done == add.len(), f)
            }
            3 => {
                tckeq!(t.pop().map(|x| x.val()), m.pop(), "popped");
                (true, false)
            }
            4 => {
                let (r, f) = refusing(k, || t.append(&mut o.t));
                if r.is_ok() {
                    m.append(&mut o.m);
                }
                (r.is_ok(), f)
            }
            5 => {
                let n = (op[1] % 50) as usize;
                let mut x = op[3];
                let mut vals = vec![];
                let made: Vec<T> = (before..n).map(|_| { x = mix(x); vals.push(x); T::mk(x) }).collect();
                let mut it = made.into_iter();
                let (r, f) = refusing(k, || t.resize_with(n, || it.next().unwrap()));
                if r.is_ok() {
                    m.truncate(n);
                    m.extend(vals);
                }
                (r.is_ok(), f)
            }
            6 => {
                let (r, f) = refusing(k, || t.reserve(op[1] as usize % 100));
                (r.is_ok(), f)
            }
            _ => {
                let mut v: Vec<T> = add.iter().map(|x| T::mk(*x)).collect();
                let e = T::mk(op[1]);
                let (r, f) = refusing(k, || FallibleVec::try_insert(&mut v, 0, e));
                if r.is_ok() {
                    *t = v.into();
                    *m = add.clone();
                    m.insert(0, op[1]);
                }
                (r.is_ok(), f)
            }
        };
        tckeq!(!ok, refused, "failure of an operation whose requests were refused in this thread only");
        tckeq!(t.len(), m.len(), "length after a change");
    }
    fn cells(&mut self, how: u64) -> Vec<&mut T> {
        if how % 2 == 0 {
            self.t.iter_mut().collect()
        } else {
            self.t.as_mut_slice().iter_mut().collect()
        }
    }
    fn rewrote(&mut self, f: &dyn Fn(usize, u64) -> u64) {
        for (i, v) in self.m.iter_mut().enumerate() {
            *v = f(i, *v);
        }
    }
    fn travel(&mut self, _o: &mut Self, op: &Op) {
        let n = self.m.len();
        let a = op[1] as usize % (n + 1);
        match op[0] % 5 {
            0 => {
                let mut it = std::mem::replace(&mut self.t, TryVec::new()).into_iter();
                let m = std::mem::take(&mut self.m);
                for i in 0..a {
                    tckeq!(it.next().map(|x| x.val()), Some(m[i]), "taken");
                }
                let rest = elsewhere(it, |it| it.map(|x| x.val()).collect::<Vec<_>>());
                tckeq!(rest, &m[a..], "taken by another thread");
            }
            1 => {
                let mut it = self.t.iter();
                for _ in 0..a {
                    it.next();
                }
                let rest = elsewhere(it, |it| it.map(|x| x.val()).collect::<Vec<_>>());
                tckeq!(rest, &self.m[a..], "read by another thread");
            }
            2 => {
                let c = self.t.try_clone();
                let c = c.unwrap_or_else(|e| tf!("try_clone failed: {:?}", e));
                let v = elsewhere(c, |mut c| {
                    tck!(c.push(T::mk(1)).is_ok(), "push failed");
                    c
                });
                tckeq!(v.len(), n + 1, "length of a clone from another thread");
            }
            3 => {
                let b = TryBox::try_new(std::mem::replace(&mut self.t, TryVec::new()));
                let b = b.unwrap_or_else(|e| tf!("TryBox::try_new failed: {:?}", e));
                let b = elsewhere(b, |b| {
                    tckeq!(b.len(), n, "length of a vector in a box");
                    b
                });
                let p = TryBox::into_raw(b);
                self.t = *unsafe { Box::from_raw(p) };
            }
            _ => {
                let t = std::mem::replace(&mut self.t, TryVec::new());
                self.t = elsewhere(t, |mut t| {
                    tck!(t.reserve(40).is_ok(), "reserve failed");
                    t
                });
            }
        }
    }
    fn whole(&self, what: &str) {
        tckeq!(self.t.iter().map(|x| x.val()).collect::<Vec<_>>(), self.m, "contents {}", what);
    }
}
