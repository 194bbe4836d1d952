//! C01, C02: fallible clones of nested values.
#![allow(deprecated)]
use std::hash::Hash;
use std::marker::PhantomData;
use std::sync::Arc;
use vh::fc::{FallibleArc, FallibleBox, FallibleVec, TryBox, TryClone, TryVec};
use vh::*;

// ------------------------------------------------------------------ building material

/// source of decisions: the case's words, then zeros
struct Src<'a> {
    w: &'a [u64],
    i: usize,
    budget: u64,
    /// nonzero: where further words come from
    more: u64,
    /// nonzero: the size of the outermost container
    big: u64,
}
impl<'a> Src<'a> {
    fn word(&mut self) -> u64 {
        let x = match self.w.get(self.i) {
            Some(x) => *x,
            None if self.more > 0 => mix(self.more.wrapping_add(self.i as u64)),
            None => 0,
        };
        self.i += 1;
        x
    }
    fn upto(&mut self, n: u64) -> u64 {
        let w = self.word();
        if self.big > 0 {
            return std::mem::take(&mut self.big);
        }
        let n = n.min(self.budget);
        let x = match w % 16 {
            0 => 0,
            1..=8 => 1 + w / 16 % 5,
            9 | 10 => w / 16 % 13,
            11..=14 => w / 16 % 30,
            _ => w / 16 % (n + 1),
        }
        .min(n);
        self.budget -= x;
        x
    }
}

#[derive(Default, Clone, PartialEq, Debug)]
struct Look {
    /// contents
    shape: Vec<u64>,
    /// identities of tracked values owned (not shared)
    ids: Vec<u64>,
    /// tracked values owned, with or without an identity
    live: i64,
    /// addresses of owned storage
    addrs: Vec<usize>,
    /// shared values
    arcs: Vec<usize>,
}
impl Look {
    fn block(&mut self, p: usize) {
        if p >= 4096 && unsafe { alloc::block_info(p as *const u8) }.is_some() {
            self.addrs.push(p)
        }
    }
}

trait Val: TryClone + 'static {
    fn name() -> String;
    fn make(s: &mut Src) -> Self;
    fn look(&self, l: &mut Look);
    /// change something inside, without replacing the whole where that is possible
    fn mutate(&mut self, s: &mut Src);
}
fn looks<T: Val>(x: &T) -> Look {
    let _g = pause();
    let mut l = Look::default();
    x.look(&mut l);
    l
}

macro_rules! ints {($($t:ident)*) => {$(
    impl Val for $t {
        fn name() -> String { stringify!($t).into() }
        fn make(s: &mut Src) -> Self { s.word() as $t }
        fn look(&self, l: &mut Look) { l.shape.push(*self as u64) }
        fn mutate(&mut self, s: &mut Src) { *self ^= 1 + (s.word() as $t & 31) }
    }
)*}}
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Val for bool {
    fn name() -> String {
        "bool".into()
    }
    fn make(s: &mut Src) -> Self {
        s.word() % 2 == 1
    }
    fn look(&self, l: &mut Look) {
        l.shape.push(*self as u64)
    }
    fn mutate(&mut self, _: &mut Src) {
        *self = !*self
    }
}
macro_rules! elems {($($t:ident)*) => {$(
    impl Val for $t {
        fn name() -> String { stringify!($t).into() }
        fn make(s: &mut Src) -> Self { $t::mk($t::norm(s.word())) }
        fn look(&self, l: &mut Look) {
            self.check();
            l.shape.push(self.val());
            if self.id() != 0 {
                l.ids.push(self.id());
            }
            l.live += (self.id() != 0 || Self::HEAP) as i64;
        }
        fn mutate(&mut self, s: &mut Src) { let v = self.val() ^ (1 + s.word() % 32); self.set($t::norm(v)) }
    }
)*}}
elems!(E Big E64 Z BE);

impl<T: Val> Val for Option<T> {
    fn name() -> String {
        format!("Option<{}>", T::name())
    }
    fn make(s: &mut Src) -> Self {
        if s.word() % 4 == 0 {
            None
        } else {
            Some(T::make(s))
        }
    }
    fn look(&self, l: &mut Look) {
        l.shape.push(1000 + self.is_some() as u64);
        if let Some(x) = self {
            x.look(l)
        }
    }
    fn mutate(&mut self, s: &mut Src) {
        match self {
            Some(x) if s.word() % 4 > 0 => x.mutate(s),
            Some(_) => *self = None,
            None => *self = Some(T::make(s)),
        }
    }
}
impl<T: Val> Val for Box<T> {
    fn name() -> String {
        format!("Box<{}>", T::name())
    }
    fn make(s: &mut Src) -> Self {
        let x = T::make(s);
        sut(|| <Box<T> as FallibleBox<T>>::try_new(x)).unwrap_or_else(|_| fail!("Box::try_new failed"))
    }
    fn look(&self, l: &mut Look) {
        l.shape.push(1002);
        l.block(&**self as *const T as usize);
        (**self).look(l)
    }
    fn mutate(&mut self, s: &mut Src) {
        (**self).mutate(s)
    }
}
impl<T: Val> Val for TryBox<T> {
    fn name() -> String {
        format!("TryBox<{}>", T::name())
    }
    fn make(s: &mut Src) -> Self {
        let x = T::make(s);
        sut(|| TryBox::try_new(x)).unwrap_or_else(|_| fail!("TryBox::try_new failed"))
    }
    fn look(&self, l: &mut Look) {
        l.shape.push(1003);
        l.block(&**self as *const T as usize);
        (**self).look(l)
    }
    fn mutate(&mut self, s: &mut Src) {
        // in place, through the raw pointer
        let b = std::mem::replace(self, TryBox::make(&mut Src { w: &[], i: 0, budget: 0, more: 0, big: 0 }));
        let p = TryBox::into_raw(b);
        unsafe {
            (*p).mutate(s);
            *self = TryBox::from_raw(p);
        }
    }
}
fn mut_vec<T: Val>(v: &mut Vec<T>, s: &mut Src) {
    let n = v.len() as u64;
    let w = s.word();
    match w % 5 {
        0 | 1 if n > 0 => v[(w / 5 % n) as usize].mutate(s),
        2 if n > 0 => drop(v.swap_remove((w / 5 % n) as usize)),
        3 if n > 0 => v.truncate((w / 5 % n) as usize),
        _ => {
            let x = T::make(s);
            sut(|| v.try_push(x)).unwrap_or_else(|_| fail!("try_push failed"))
        }
    }
}
impl<T: Val> Val for Vec<T> {
    fn name() -> String {
        format!("Vec<{}>", T::name())
    }
    fn make(s: &mut Src) -> Self {
        let n = s.upto(40);
        let mut v: Vec<T> = if s.word() % 3 == 0 { sut(|| <Vec<T> as FallibleVec<T>>::try_with_capacity(n as usize + 3)).unwrap_or_else(|_| fail!("try_with_capacity failed")) } else { Vec::new() };
        for _ in 0..n {
            let x = T::make(s);
            sut(|| v.try_push(x)).unwrap_or_else(|_| fail!("try_push failed"));
        }
        v
    }
    fn look(&self, l: &mut Look) {
        l.shape.push(2000 + self.len() as u64);
        l.block(self.as_ptr() as usize);
        for x in self {
            x.look(l)
        }
    }
    fn mutate(&mut self, s: &mut Src) {
        mut_vec(self, s)
    }
}
impl<T: Val> Val for TryVec<T> {
    fn name() -> String {
        format!("TryVec<{}>", T::name())
    }
    fn make(s: &mut Src) -> Self {
        TryVec::from(Vec::<T>::make(s))
    }
    fn look(&self, l: &mut Look) {
        l.shape.push(3000 + self.len() as u64);
        l.block(self.as_ptr() as usize);
        for x in self.iter() {
            x.look(l)
        }
    }
    fn mutate(&mut self, s: &mut Src) {
        let n = self.len() as u64;
        let w = s.word();
        match w % 5 {
            0 | 1 if n > 0 => self[(w / 5 % n) as usize].mutate(s),
            2 if n > 0 => {
                self.as_mut_slice().swap((w / 5 % n) as usize, n as usize - 1);
                drop(sut(|| self.pop()));
            }
            3 if n > 0 => sut(|| self.clear()),
            _ => {
                let x = T::make(s);
                sut(|| self.push(x)).unwrap_or_else(|_| fail!("push failed"))
            }
        }
    }
}
impl<T: Val> Val for Arc<T> {
    fn name() -> String {
        format!("Arc<{}>", T::name())
    }
    fn make(s: &mut Src) -> Self {
        let x = T::make(s);
        sut(|| <Arc<T> as FallibleArc<T>>::try_new(x)).unwrap_or_else(|_| fail!("Arc::try_new failed"))
    }
    fn look(&self, l: &mut Look) {
        let mut i = Look::default();
        (**self).look(&mut i);
        l.shape.push(1004);
        l.shape.extend(i.shape);
        l.arcs.push(Arc::as_ptr(self) as usize);
    }
    fn mutate(&mut self, s: &mut Src) {
        *self = Arc::make(s)
    }
}
impl Val for Arc<[u8]> {
    fn name() -> String {
        "Arc<[u8]>".into()
    }
    fn make(s: &mut Src) -> Self {
        let v = Vec::<u8>::make(s);
        sut(|| Arc::from(&v[..]))
    }
    fn look(&self, l: &mut Look) {
        l.shape.push(1005);
        l.shape.extend(self.iter().map(|&b| b as u64));
        l.arcs.push(self.as_ptr() as usize);
    }
    fn mutate(&mut self, s: &mut Src) {
        *self = Self::make(s)
    }
}

// maps: the same code for whichever kinds the configuration has
fn map_look<'a, K: Val, V: Val>(kind: u64, n: usize, it: impl Iterator<Item = (&'a K, &'a V)>, l: &mut Look) {
    let mut rows: Vec<Vec<u64>> = Vec::new();
    let mut count = 0;
    for (k, v) in it {
        let mut i = Look::default();
        k.look(&mut i);
        v.look(&mut i);
        rows.push(std::mem::take(&mut i.shape));
        l.ids.append(&mut i.ids);
        l.live += i.live;
        l.addrs.append(&mut i.addrs);
        l.arcs.append(&mut i.arcs);
        if std::mem::size_of::<K>() > 0 {
            l.addrs.push(k as *const K as usize);
        }
        count += 1;
    }
    rows.sort();
    ckeq!(count, n, "entries iterated in a map of this length");
    l.shape.push(4000 + kind * 1000 + n as u64);
    for r in rows {
        l.shape.extend(r);
    }
}

#[cfg(feature = "btree")]
mod maps {
    use super::*;
    pub use vh::fc::btree::BTreeMap as Map;
    pub fn ins<K: Val + Ord, V: Val>(m: &mut Map<K, V>, k: K, v: V) {
        sut(|| m.try_insert(k, v)).unwrap_or_else(|_| fail!("try_insert failed"));
    }
    pub trait KeyVal: Val + Ord {}
    impl<T: Val + Ord> KeyVal for T {}
    pub fn new<K: KeyVal, V: Val>() -> Map<K, V> {
        sut(|| Map::new())
    }
    pub const NAME: &str = "BTreeMap";
}
#[cfg(not(feature = "btree"))]
mod maps {
    use super::*;
    pub use vh::fc::TryHashMap as Map;
    pub fn ins<K: KeyVal, V: Val>(m: &mut Map<K, V>, k: K, v: V) {
        sut(|| m.insert(k, v)).unwrap_or_else(|_| fail!("insert failed"));
    }
    pub trait KeyVal: Val + Hash + Eq {}
    impl<T: Val + Hash + Eq> KeyVal for T {}
    pub fn new<K: KeyVal, V: Val>() -> Map<K, V> {
        sut(|| Map::default())
    }
    pub const NAME: &str = "TryHashMap";
}
use maps::{KeyVal, Map};
trait _U: Hash {}

impl<K: KeyVal, V: Val> Val for Map<K, V> {
    fn name() -> String {
        format!("{}<{}, {}>", maps::NAME, K::name(), V::name())
    }
    fn make(s: &mut Src) -> Self {
        let n = s.upto(40);
        let n = if n > 2 { n + s.upto(160) } else { n };
        let mut m = maps::new();
        for _ in 0..n {
            let k = K::make(s);
            let v = V::make(s);
            maps::ins(&mut m, k, v);
        }
        m
    }
    fn look(&self, l: &mut Look) {
        map_look(0, self.len(), self.iter(), l)
    }
    fn mutate(&mut self, s: &mut Src) {
        let w = s.word();
        match w % 3 {
            0 => {
                let k = K::make(s);
                let v = V::make(s);
                maps::ins(self, k, v)
            }
            // removal of an entry by an equal key
            1 if self.len() > 0 => {
                let n = (w / 3) as usize % self.len();
                let k = {
                    let k = self.iter().nth(n).unwrap().0;
                    sut(|| k.try_clone()).unwrap_or_else(|_| fail!("clone of a key failed"))
                };
                ck!(sut(|| self.remove(&k)).is_some(), "a key of the map cannot be removed");
            }
            _ if self.len() > 0 => {
                let n = (w / 3) as usize % self.len();
                let k = {
                    let k = self.iter().nth(n).unwrap().0;
                    sut(|| k.try_clone()).unwrap_or_else(|_| fail!("clone of a key failed"))
                };
                let mut v = sut(|| self.remove(&k)).unwrap_or_else(|| fail!("a key of the map cannot be removed"));
                v.mutate(s);
                maps::ins(self, k, v)
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ the types exercised

trait TF {
    fn call<T: Val>(self);
}
macro_rules! types {($($t:ty),* $(,)?) => {
    const NT: u64 = [$(stringify!($t)),*].len() as u64;
    fn with<F: TF>(i: u64, f: F) {
        let mut n = 0;
        $( if n == i % NT { return f.call::<$t>(); } n += 1; )*
        let _ = n;
    }
}}
types!(
    u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, bool,
    E, BE,
    Option<E>, Option<Option<i8>>, Option<Box<BE>>,
    Box<E>, Box<Z>, TryBox<E64>, Box<TryBox<Vec<E>>>, TryBox<Option<Box<Big>>>,
    Vec<E>, Vec<u8>, Vec<bool>, Vec<i64>, Vec<Z>, Vec<BE>, Vec<Vec<E>>, Vec<Option<Box<E>>>, Vec<E64>,
    TryVec<E>, TryVec<u16>, TryVec<isize>, TryVec<Z>, TryVec<BE>, TryVec<TryVec<E>>, TryVec<Option<TryBox<E>>>, TryVec<Vec<TryVec<u32>>>, TryVec<Big>,
    Arc<E>, Arc<[u8]>, Vec<Arc<E>>, TryVec<Option<Arc<BE>>>, Arc<Vec<E>>,
    Map<E, E>, Map<BE, BE>, Map<u8, Z>, Map<E64, Big>, Map<u16, TryVec<Box<E>>>, Map<Vec<u8>, Option<E>>, Map<Option<Box<i16>>, Vec<Arc<E>>>, Map<u64, Map<E, u8>>,
    TryVec<Map<u8, Vec<E>>>, Box<Map<Box<E>, TryBox<E>>>, Option<Map<E, Option<E>>>,
);
struct Name<'a>(&'a mut String);
impl<'a> TF for Name<'a> {
    fn call<T: Val>(self) {
        *self.0 = T::name()
    }
}

struct PC(&'static str, bool);

const SLOTS: usize = 4;

impl Prop for PC {
    fn id(&self) -> &'static str {
        self.0
    }
    fn rule(&self) -> &'static str {
        if self.1 {
            "a request or an element clone made by a fallible clone was refused"
        } else {
            "a fallible clone was taken of a value with contents, and the original or the copy was changed or dropped afterwards"
        }
    }
    fn gen(&self, r: &mut Rng) -> Case {
        if r.chance(1, 500) {
            return giant::gen(r, if self.1 { giant::Giant::CloneFail } else { giant::Giant::Clone }, &[0, 1, 2, 3]);
        }
        let mut ops = Vec::new();
        let small = if r.chance(1, 4) { 7 } else { u64::MAX };
        for _ in 0..r.size(120) + 1 {
            // words that build a value
            let mut w = || {
                let x = r.next();
                if small == 7 {
                    (x & 7) * 16 + (x >> 8 & 15)
                } else {
                    x >> (x % 40)
                }
            };
            let (a, b, c) = (w(), w(), w());
            ops.push([a, b, c, 0]);
        }
        for n in 0..r.range(1, if self.1 { 3 } else { 9 }) {
            ops.push([if n == 0 { 0 } else { r.weighted(&[5, 5, 1, 1]) as u64 }, r.below(64), r.next() >> 32, 1]);
        }
        let mut h = vec![if r.chance(1, 25) { r.below(11) } else { 11 + r.below(NT - 11) }, r.below(400), r.below(6)];
        if r.chance(1, 20) {
            // a large container; words come from a generator
            let big = if r.chance(1, 3) { 1 + r.below(3000) } else { 1 + r.below(600) };
            h.extend([1 + r.below(1 << 40), if self.1 { 1 + big / 4 } else { big }]);
        }
        Case { h, ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) {
        if giant::is(c) {
            return giant::run(if self.1 { giant::Giant::CloneFail } else { giant::Giant::Clone }, c, cx);
        }
        struct G<'a>(bool, &'a Case, &'a mut Cx);
        impl<'a> TF for G<'a> {
            fn call<T: Val>(self) {
                if self.0 {
                    faulty::<T>(self.1, self.2)
                } else {
                    independent::<T>(self.1, self.2)
                }
            }
        }
        with(c.hv(0), G(self.1, c, cx))
    }
    fn desc(&self, c: &Case) -> String {
        if giant::is(c) {
            return giant::desc(c);
        }
        let mut n = String::new();
        with(c.hv(0), Name(&mut n));
        let mut s = format!("{} built from {} words (at most {} elements in all{}), mode {}; ", n, 3 * c.ops.iter().filter(|o| o[3] % 2 == 0).count(), c.hv(1), if c.hv(4) > 0 { format!(", the outermost container of {}, further words from {}", c.hv(4), c.hv(3)) } else { String::new() }, c.hv(2));
        for o in c.ops.iter().filter(|o| o[3] % 2 == 1) {
            s += &format!("{} the {}th; ", ["clone", "mutate", "drop", "drop"][(o[0] % 4) as usize], o[1] % 8);
        }
        s
    }
}

fn words(c: &Case) -> Vec<u64> {
    let _g = pause();
    c.ops.iter().filter(|o| o[3] % 2 == 0).flat_map(|o| [o[0], o[1], o[2]]).collect()
}

fn disjoint(a: &Look, b: &Look, what: &str) {
    let _g = pause();
    let ids: std::collections::HashSet<u64> = a.ids.iter().copied().collect();
    for i in &b.ids {
        ck!(!ids.contains(i), "{}: the copy holds element {} of the original", what, i);
    }
    let ad: std::collections::HashSet<usize> = a.addrs.iter().copied().collect();
    for i in &b.addrs {
        ck!(!ad.contains(i), "{}: the copy shares storage with the original", what);
    }
}

fn independent<T: Val>(c: &Case, cx: &mut Cx) {
    let w = words(c);
    let mut src = Src { w: &w, i: 0, budget: c.hv(1), more: c.hv(3), big: c.hv(4) };
    let mut s: [Option<(T, Look)>; SLOTS] = [const { None }; SLOTS];
    let x = T::make(&mut src);
    let l = looks(&x);
    s[0] = Some((x, l));
    let mut cloned = false;
    for op in c.ops.iter().filter(|o| o[3] % 2 == 1) {
        // i: one of the values there are; j: any other slot
        let have = s.iter().filter(|x| x.is_some()).count();
        if have == 0 {
            break;
        }
        let i = s.iter().enumerate().filter(|x| x.1.is_some()).nth((op[1] % 8) as usize % have).unwrap().0;
        let j = (i + 1 + (op[1] / 8) as usize % (SLOTS - 1)) % SLOTS;
        cx.steps += 1;
        match op[0] % 4 {
            0 => {
                s[j] = None;
                let mark = reg_mark();
                let n0 = live_elems();
                let arcs = |x: &Look| x.arcs.len();
                let (x, l) = s[i].as_ref().unwrap();
                let y = match sut(|| x.try_clone()) {
                    Ok(y) => y,
                    Err(_) => fail!("fallible clone of a {} failed although memory is available", T::name()),
                };
                let m = looks(&y);
                let l2 = looks(x);
                ckeq!(l2, *l, "the original after its fallible clone ({})", T::name());
                ckeq!(m.shape, l.shape, "contents of the fallible clone of a {}", T::name());
                ckeq!(m.arcs.len(), arcs(l), "shared pointers in the clone");
                {
                    let _g = pause();
                    let (mut a, mut b) = (m.arcs.clone(), l.arcs.clone());
                    a.sort();
                    b.sort();
                    ckeq!(a, b, "atomically counted values shared by the clone of a {}", T::name());
                }
                disjoint(l, &m, &T::name());
                for id in &m.ids {
                    ck!(*id as usize >= mark, "the copy holds an element that existed before");
                }
                ckeq!(m.ids.len(), l.ids.len(), "tracked elements owned by the clone");
                ckeq!(live_since(mark), m.ids.len(), "tracked elements made by a fallible clone that are still alive");
                ckeq!(live_elems().0 - n0.0, m.live, "tracked elements gained by a fallible clone");
                cloned = true;
                cx.add("elements cloned", m.ids.len() as u64);
                if l.shape.len() > 1 {
                    cx.hit("clones of values with contents");
                }
                s[j] = Some((y, m));
            }
            1 => {
                if let Some((x, l)) = s[i].as_mut() {
                    let t = [op[2], op[2] >> 3, op[2] >> 7, op[2] >> 1, op[2] >> 5, op[2] >> 2];
                    let mut src = Src { w: &t, i: 0, budget: 10, more: 0, big: 0 };
                    x.mutate(&mut src);
                    *l = looks(x);
                    cx.nontrivial |= cloned;
                    cx.hit("changes");
                }
            }
            _ => {
                if let Some((x, l)) = s[i].take() {
                    sut(move || drop(x));
                    for id in &l.ids {
                        ck!(!is_live(*id), "dropping a {} kept element {}", T::name(), id);
                    }
                    cx.nontrivial |= cloned;
                    cx.hit("drops");
                }
            }
        }
        // nobody else noticed
        for (n, x) in s.iter().enumerate() {
            if let Some((x, l)) = x {
                let now = looks(x);
                ckeq!(now, *l, "value #{} ({}) after {} of value #{}", n, T::name(), ["clone", "mutation", "drop", "drop"][(op[0] % 4) as usize], i);
            }
        }
        check_errs();
    }
    for x in s.into_iter().flatten() {
        sut(move || drop(x.0));
    }
    ckeq!(live(), (0, 0), "blocks and bytes owned at the end");
    ckeq!(live_elems(), (0, 0), "tracked elements at the end");
}

fn faulty<T: Val>(c: &Case, cx: &mut Cx) {
    let w = words(c);
    let mut src = Src { w: &w, i: 0, budget: c.hv(1), more: c.hv(3), big: c.hv(4) };
    let mut x = T::make(&mut src);
    let mut extra = c.ops.iter().filter(|o| o[3] % 2 == 1);
    let mode = c.hv(2) % 6;
    loop {
        let l = looks(&x);
        // how much there is to refuse
        arm(Plan::None);
        disarm();
        cb().clones = 0;
        let y = match sut(|| x.try_clone()) {
            Ok(y) => y,
            Err(_) => fail!("fallible clone of a {} failed although memory is available", T::name()),
        };
        let (reqs, clones) = (st().cnt, cb().clones);
        ckeq!(looks(&y).shape, l.shape, "contents of the fallible clone of a {}", T::name());
        sut(move || drop(y));
        disarm();
        let points = if mode < 4 { reqs } else { clones };
        let step = 1 + points / 60;
        let mut k = if step > 1 { c.hv(1) % step } else { 0 };
        while k < points {
            let before = live();
            let n0 = live_elems();
            let mark = reg_mark();
            cb().clones = 0;
            cb().fired = 0;
            match mode {
                0 | 1 => arm(Plan::Once(k)),
                2 => arm(Plan::From(k)),
                3 => arm(if k == 0 { Plan::All } else { Plan::Once(k) }),
                _ => cb().clone_fail = k,
            }
            let r = sut_catch(|| x.try_clone());
            let refused = st().refused + cb().fired;
            arm(Plan::None);
            disarm();
            cx.steps += 1;
            let what = if mode < 4 { "request" } else { "element clone" };
            match r {
                Err(p) => fail!("fallible clone of a {} panicked with {} {} of {} refused: {:?}", T::name(), what, k, points, p),
                Ok(Ok(y)) => {
                    ckeq!(looks(&y).shape, l.shape, "contents of a fallible clone of a {} with {} {} of {} refused", T::name(), what, k, points);
                    ck!(refused == 0, "fallible clone of a {} succeeded although {} {} of {} was refused", T::name(), what, k, points);
                    fail!("{} {} of {} was not made when the clone of a {} was repeated", what, k, points, T::name());
                }
                Ok(Err(_)) => {
                    ck!(refused > 0, "fallible clone of a {} failed although nothing was refused", T::name());
                    cx.nontrivial = true;
                    cx.hit(if mode < 4 { "refused requests" } else { "failed element clones" });
                }
            }
            ckeq!(live(), before, "blocks and bytes owned after a failed clone of a {} ({} {} of {} refused)", T::name(), what, k, points);
            ckeq!(live_elems(), n0, "tracked elements after a failed clone of a {} ({} {} of {} refused)", T::name(), what, k, points);
            ckeq!(live_since(mark), 0, "elements cloned by a failed clone that are still alive");
            ckeq!(looks(&x), l, "the original after its failed clone ({}, {} {} of {} refused)", T::name(), what, k, points);
            k += step;
        }
        match extra.next() {
            Some(o) => {
                let t = [o[2], o[2] >> 3, o[2] >> 7, o[2] >> 1, o[2] >> 5, o[2] >> 2];
                x.mutate(&mut Src { w: &t, i: 0, budget: 10, more: 0, big: 0 });
            }
            None => break,
        }
    }
    sut(move || drop(x));
    ckeq!(live(), (0, 0), "blocks and bytes owned at the end");
    ckeq!(live_elems(), (0, 0), "tracked elements at the end");
    let _: PhantomData<T> = PhantomData;
}

fn main() {
    main_with(&[&PC("C01", false), &PC("C02", true)])
}
