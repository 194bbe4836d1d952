//! Element types: identity-tracked, over-aligned, large, zero-sized, heap-owning and plain ones; callback hooks.
use crate::engine::{mix, Fuel, Injected};
use fc::boxed::FallibleBox;
use fc::{TryClone, TryReserveError};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};
use std::panic::panic_any;

type TRes<T> = Result<T, TryReserveError>;

// ---------------------------------------------------------------- registry

const LIVE: u8 = 1;
const DROPPED: u8 = 2;
static mut REG: Vec<u8> = Vec::new();
static mut LIVE_N: i64 = 0;
static mut Z_LIVE: i64 = 0;
static mut ERR: Option<(&'static str, u64, u64)> = None;

pub fn init() {
    unsafe {
        REG.reserve(1 << 22);
        REG.push(0);
    }
    make_error();
}
pub fn reset_case() {
    unsafe {
        REG.truncate(1);
        LIVE_N = 0;
        Z_LIVE = 0;
        ERR = None;
    }
    disarm();
    cb().hash_mode = 0;
}
#[inline]
pub fn take_err() -> Option<String> {
    unsafe { ERR.take().map(|(m, a, b)| format!("{} (id {}, val {})", m, a, b)) }
}
fn err(m: &'static str, a: u64, b: u64) {
    unsafe {
        if ERR.is_none() {
            ERR = Some((m, a, b));
        }
    }
}
fn new_id() -> u32 {
    let _g = crate::alloc::pause();
    unsafe {
        let id = REG.len();
        REG.push(LIVE);
        LIVE_N += 1;
        id as u32
    }
}
/// number of live tracked elements (identity-tracked, zero-sized)
pub fn live_elems() -> (i64, i64) {
    unsafe { (LIVE_N, Z_LIVE) }
}
pub fn is_live(id: u64) -> bool {
    unsafe { id == 0 || REG.get(id as usize) == Some(&LIVE) }
}
/// ids of live elements made at or after mark
pub fn reg_mark() -> usize {
    unsafe { REG.len() }
}
pub fn live_since(mark: usize) -> usize {
    unsafe { REG[mark.min(REG.len())..].iter().filter(|&&s| s == LIVE).count() }
}

// ---------------------------------------------------------------- callbacks

pub const NEVER: u64 = u64::MAX;
#[derive(Clone, Copy)]
pub struct Cb {
    pub cmps: u64,
    pub cmp_panic: u64,
    pub cmp_mode: u64, // 0 lawful, else seed of a lawless order
    pub fuel: u64,
    pub clones: u64,
    pub clone_fail: u64,
    pub clone_panic: u64,
    pub drops: u64,
    pub drop_panic: u64,
    pub hashes: u64,
    pub hash_panic: u64,
    pub hash_mode: u64, // 0 normal, 1 constant, 2 four values, 3 lawless
    pub fired: u64,
}
const CB0: Cb = Cb { cmps: 0, cmp_panic: NEVER, cmp_mode: 0, fuel: NEVER, clones: 0, clone_fail: NEVER, clone_panic: NEVER, drops: 0, drop_panic: NEVER, hashes: 0, hash_panic: NEVER, hash_mode: 0, fired: 0 };
static mut CB: Cb = CB0;
#[inline]
pub fn cb() -> &'static mut Cb {
    unsafe { &mut *std::ptr::addr_of_mut!(CB) }
}
pub fn disarm() {
    let h = cb().hash_mode;
    *cb() = CB0;
    cb().hash_mode = h;
}
#[cold]
fn boom(what: &'static str) -> ! {
    cb().fired += 1;
    crate::alloc::st().insut = false;
    panic_any(Injected(what))
}
#[inline]
fn on_cmp(a: u64, b: u64) -> Ordering {
    let c = cb();
    let n = c.cmps;
    c.cmps += 1;
    if n == c.cmp_panic {
        boom("cmp");
    }
    if n >= c.fuel {
        c.fuel = NEVER;
        crate::alloc::st().insut = false;
        panic_any(Fuel);
    }
    if c.cmp_mode != 0 {
        return match mix(c.cmp_mode ^ n) % 3 {
            0 => Ordering::Less,
            1 => Ordering::Equal,
            _ => Ordering::Greater,
        };
    }
    a.cmp(&b)
}
#[inline]
fn on_hash(v: u64) -> u64 {
    let c = cb();
    let n = c.hashes;
    c.hashes += 1;
    if n == c.hash_panic {
        boom("hash");
    }
    match c.hash_mode {
        0 => v,
        1 => 7,
        2 => v & 3,
        _ => mix(n ^ c.hash_mode),
    }
}
/// Err = scheduled failure
#[inline]
fn on_clone() -> TRes<()> {
    let c = cb();
    let n = c.clones;
    c.clones += 1;
    if n == c.clone_panic {
        boom("clone");
    }
    if n == c.clone_fail {
        c.fired += 1;
        return Err(some_error());
    }
    Ok(())
}
#[inline]
fn on_drop() {
    let c = cb();
    let n = c.drops;
    c.drops += 1;
    if n == c.drop_panic && !std::thread::panicking() {
        boom("drop");
    }
}
/// harness-side callback that panics at its k-th call
pub fn closure_tick(k: &mut u64) {
    if *k == 0 {
        boom("closure");
    }
    *k = k.wrapping_sub(1);
}
/// an error no operation makes by itself: (size, align) of the request it tells of
pub const OWN_ERROR: (usize, usize) = ((1 << if usize::BITS == 64 { 40 } else { 30 }) + 8, 8);
static mut OWN: Option<TryReserveError> = None;
pub fn some_error() -> TryReserveError {
    unsafe { (*std::ptr::addr_of!(OWN)).clone() }.expect("made at the start")
}
fn make_error() {
    let mut v: Vec<u64> = Vec::new();
    let e = v.try_reserve_exact(OWN_ERROR.0 / 8).unwrap_err();
    unsafe { *std::ptr::addr_of_mut!(OWN) = Some(e) }
}

// ---------------------------------------------------------------- traits

pub trait Elem: Sized + Ord + Hash + Debug + Clone + TryClone + Default + 'static {
    const NAME: &'static str;
    /// number of distinguishable values, 0 = all of u64
    const DOM: u64;
    const TRACK: bool = false;
    const COPY: bool = false;
    const HEAP: bool = false;
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn id(&self) -> u64 {
        0
    }
    fn set(&mut self, v: u64);
    /// alignment and integrity of a reference handed out by the code under test
    fn check(&self) {
        if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 {
            err("misaligned reference handed out", self as *const Self as u64, 0);
        }
    }
    #[inline]
    fn norm(v: u64) -> u64 {
        if Self::DOM == 0 {
            v
        } else {
            v % Self::DOM
        }
    }
    fn copy_resize(_v: &mut Vec<Self>, _n: usize, _x: Self) -> Option<TRes<()>> {
        None
    }
    fn copy_extend(_v: &mut Vec<Self>, _s: &[Self]) -> Option<TRes<()>> {
        None
    }
    fn zst() -> bool {
        std::mem::size_of::<Self>() == 0
    }
}
/// Keys of ordered / hash maps: order of val() must be the order of the type.
pub trait Key: Elem + Borrow<Self::Q> {
    type Q: ?Sized + Ord + Hash + Debug;
    fn with_q<R>(v: u64, f: impl FnOnce(&Self::Q) -> R) -> R;
}

// ---------------------------------------------------------------- tracked

macro_rules! aligned {($($n:ident $a:literal),*) => {$(
    #[derive(Clone, Copy, Debug)] #[repr(align($a))] pub struct $n;
)*}}
aligned!(A1 1, A16 16, A32 32, A64 64, A128 128, A4096 4096);

#[repr(transparent)]
pub struct Q(pub u64);
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        on_cmp(self.0, o.0) == Ordering::Equal
    }
}
impl Eq for Q {}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        on_cmp(self.0, o.0)
    }
}
impl Hash for Q {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(on_hash(self.0))
    }
}
impl Debug for Q {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(&self.0, f)
    }
}

#[repr(C)]
pub struct T<A: 'static, const N: usize> {
    _a: [A; 0],
    canary: u32,
    id: u32,
    q: Q,
    fill: [u64; N],
}
const CAN: u32 = 0x5AFE_E1E7;
impl<A, const N: usize> T<A, N> {
    fn new(v: u64) -> Self {
        let id = new_id();
        T { _a: [], canary: CAN ^ id, id, q: Q(v), fill: std::array::from_fn(|i| mix(id as u64 ^ (i as u64) << 40)) }
    }
    fn chk(&self) {
        if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 {
            err("misaligned reference handed out", self as *const Self as u64, 0);
            return;
        }
        if self.canary != CAN ^ self.id {
            err("element read that is not there (garbage or already dropped)", self.id as u64, self.q.0);
            return;
        }
        if !is_live(self.id as u64) {
            err("element used after it was dropped", self.id as u64, self.q.0);
        }
        if N > 0 {
            for i in [0, N / 2, N - 1] {
                if self.fill[i] != mix(self.id as u64 ^ (i as u64) << 40) {
                    err("contents of a large element corrupted", self.id as u64, i as u64);
                }
            }
        }
    }
}
impl<A, const N: usize> Drop for T<A, N> {
    fn drop(&mut self) {
        if self.canary != CAN ^ self.id || self.id as usize >= reg_mark() {
            err("drop of something that is not a live element (garbage or dropped twice)", self.id as u64, self.q.0);
            return;
        }
        unsafe {
            if REG[self.id as usize] != LIVE {
                err("element dropped twice", self.id as u64, self.q.0);
                return;
            }
            REG[self.id as usize] = DROPPED;
            LIVE_N -= 1;
        }
        on_drop();
    }
}
impl<A, const N: usize> PartialEq for T<A, N> {
    fn eq(&self, o: &Self) -> bool {
        self.chk();
        o.chk();
        self.q == o.q
    }
}
impl<A, const N: usize> Eq for T<A, N> {}
impl<A, const N: usize> PartialOrd for T<A, N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<A, const N: usize> Ord for T<A, N> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.chk();
        o.chk();
        self.q.cmp(&o.q)
    }
}
impl<A, const N: usize> Hash for T<A, N> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.chk();
        self.q.hash(h)
    }
}
impl<A, const N: usize> Debug for T<A, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.chk();
        Debug::fmt(&self.q.0, f)
    }
}
impl<A, const N: usize> Clone for T<A, N> {
    fn clone(&self) -> Self {
        self.chk();
        let c = cb();
        c.clone_fail = NEVER;
        let _ = on_clone();
        T::new(self.q.0)
    }
}
impl<A, const N: usize> TryClone for T<A, N> {
    fn try_clone(&self) -> TRes<Self> {
        self.chk();
        on_clone()?;
        Ok(T::new(self.q.0))
    }
}
impl<A, const N: usize> Default for T<A, N> {
    fn default() -> Self {
        T::new(0)
    }
}
impl<A, const N: usize> Borrow<Q> for T<A, N> {
    fn borrow(&self) -> &Q {
        self.chk();
        &self.q
    }
}
impl<A: 'static, const N: usize> Elem for T<A, N> {
    const NAME: &'static str = "tracked";
    const DOM: u64 = 0;
    const TRACK: bool = true;
    fn mk(v: u64) -> Self {
        T::new(v)
    }
    fn val(&self) -> u64 {
        self.q.0
    }
    fn id(&self) -> u64 {
        self.id as u64
    }
    fn set(&mut self, v: u64) {
        self.q.0 = v
    }
    fn check(&self) {
        self.chk()
    }
}
impl<A: 'static, const N: usize> Key for T<A, N> {
    type Q = Q;
    fn with_q<R>(v: u64, f: impl FnOnce(&Q) -> R) -> R {
        f(&Q(v))
    }
}
pub type E = T<A1, 0>;
pub type E16 = T<A16, 0>;
pub type E32 = T<A32, 0>;
pub type E64 = T<A64, 0>;
pub type E128 = T<A128, 0>;
pub type Big = T<A1, 30>; // 256 bytes
pub type Huge = T<A1, 254>; // 2 KiB
pub type Big64 = T<A64, 30>;
pub type Page = T<A1, 510>; // 4 KiB
pub type Pages = T<A1, 1022>; // 8 KiB
pub type Odd = T<A1, 1277>; // 10232 bytes
pub type Pages3 = T<A64, 1534>; // 12 KiB
pub type Giant = T<A1, 8190>; // 64 KiB
pub type Giant4 = T<A1, 32766>; // 256 KiB
pub type AlignPage = T<A4096, 1>;

// ---------------------------------------------------------------- tracked zero-sized

pub struct Zs<A: 'static> {
    _a: [A; 0],
}
impl<A> Zs<A> {
    fn new() -> Self {
        unsafe { Z_LIVE += 1 };
        Zs { _a: [] }
    }
}
impl<A> Drop for Zs<A> {
    fn drop(&mut self) {
        unsafe {
            Z_LIVE -= 1;
            if Z_LIVE < 0 {
                err("more zero-sized elements dropped than created", 0, 0);
            }
        }
        on_drop();
    }
}
impl<A> PartialEq for Zs<A> {
    fn eq(&self, _: &Self) -> bool {
        on_cmp(0, 0) == Ordering::Equal
    }
}
impl<A> Eq for Zs<A> {}
impl<A> PartialOrd for Zs<A> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<A> Ord for Zs<A> {
    fn cmp(&self, _: &Self) -> Ordering {
        on_cmp(0, 0)
    }
}
impl<A> Hash for Zs<A> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(on_hash(0))
    }
}
impl<A> Debug for Zs<A> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("0")
    }
}
impl<A> Clone for Zs<A> {
    fn clone(&self) -> Self {
        cb().clone_fail = NEVER;
        let _ = on_clone();
        Zs::new()
    }
}
impl<A> TryClone for Zs<A> {
    fn try_clone(&self) -> TRes<Self> {
        on_clone()?;
        Ok(Zs::new())
    }
}
impl<A> Default for Zs<A> {
    fn default() -> Self {
        Zs::new()
    }
}
impl<A: 'static> Elem for Zs<A> {
    const NAME: &'static str = "tracked-zst";
    const DOM: u64 = 1;
    const TRACK: bool = true;
    fn mk(_: u64) -> Self {
        Zs::new()
    }
    fn val(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}
impl<A: 'static> Key for Zs<A> {
    type Q = Zs<A>;
    fn with_q<R>(_: u64, f: impl FnOnce(&Zs<A>) -> R) -> R {
        let z = Zs::new();
        f(&z)
    }
}
pub type Z = Zs<A1>;
pub type Z64 = Zs<A64>;

// ---------------------------------------------------------------- heap-owning

pub struct BE(Box<u64>);
impl BE {
    fn new(v: u64) -> BE {
        let _g = crate::alloc::pause();
        unsafe { LIVE_N += 1 };
        BE(Box::new(v))
    }
}
impl Drop for BE {
    fn drop(&mut self) {
        unsafe {
            LIVE_N -= 1;
            if LIVE_N < 0 {
                err("more elements dropped than created", 0, 0);
            }
        }
        on_drop();
    }
}
impl PartialEq for BE {
    fn eq(&self, o: &BE) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for BE {}
impl PartialOrd for BE {
    fn partial_cmp(&self, o: &BE) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BE {
    fn cmp(&self, o: &BE) -> Ordering {
        on_cmp(*self.0, *o.0)
    }
}
impl Hash for BE {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(on_hash(*self.0))
    }
}
impl Debug for BE {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(&self.0, f)
    }
}
impl Clone for BE {
    fn clone(&self) -> Self {
        let _g = crate::alloc::pause();
        cb().clone_fail = NEVER;
        let _ = on_clone();
        BE::new(*self.0)
    }
}
impl TryClone for BE {
    fn try_clone(&self) -> TRes<Self> {
        on_clone()?;
        let b = FallibleBox::try_new(*self.0)?;
        unsafe { LIVE_N += 1 };
        Ok(BE(b))
    }
}
impl Default for BE {
    fn default() -> Self {
        BE::mk(0)
    }
}
impl Borrow<Q> for BE {
    fn borrow(&self) -> &Q {
        // Q is a transparent wrapper of u64
        unsafe { &*(&*self.0 as *const u64 as *const Q) }
    }
}
impl Elem for BE {
    const NAME: &'static str = "boxed";
    const DOM: u64 = 0;
    const TRACK: bool = true;
    const HEAP: bool = true;
    fn mk(v: u64) -> Self {
        BE::new(v)
    }
    fn val(&self) -> u64 {
        *self.0
    }
    fn set(&mut self, v: u64) {
        *self.0 = v
    }
}
impl Key for BE {
    type Q = Q;
    fn with_q<R>(v: u64, f: impl FnOnce(&Q) -> R) -> R {
        f(&Q(v))
    }
}

/// string keys looked up by str; order of the zero-padded decimal text is the numeric order
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct KS(String);
impl Debug for KS {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(&self.val(), f)
    }
}
impl TryClone for KS {
    fn try_clone(&self) -> TRes<Self> {
        on_clone()?;
        let mut s = String::new();
        s.try_reserve(self.0.len())?;
        s.push_str(&self.0);
        Ok(KS(s))
    }
}
impl Default for KS {
    fn default() -> Self {
        KS::mk(0)
    }
}
impl Borrow<str> for KS {
    fn borrow(&self) -> &str {
        &self.0
    }
}
impl Elem for KS {
    const NAME: &'static str = "string";
    const DOM: u64 = 0;
    const HEAP: bool = true;
    fn mk(v: u64) -> Self {
        let _g = crate::alloc::pause();
        KS(format!("{:020}", v))
    }
    fn val(&self) -> u64 {
        self.0.parse().unwrap_or(u64::MAX ^ 0xBAD)
    }
    fn set(&mut self, v: u64) {
        *self = KS::mk(v)
    }
}
impl Key for KS {
    type Q = str;
    fn with_q<R>(v: u64, f: impl FnOnce(&str) -> R) -> R {
        let mut b = [b'0'; 20];
        let mut x = v;
        for i in (0..20).rev() {
            b[i] = b'0' + (x % 10) as u8;
            x /= 10;
        }
        f(std::str::from_utf8(&b).unwrap())
    }
}

// ---------------------------------------------------------------- plain

macro_rules! copy_ops {
    () => {
        const COPY: bool = true;
        fn copy_resize(v: &mut Vec<Self>, n: usize, x: Self) -> Option<TRes<()>> {
            Some(fc::FallibleVec::try_resize(v, n, x))
        }
        fn copy_extend(v: &mut Vec<Self>, s: &[Self]) -> Option<TRes<()>> {
            Some(fc::FallibleVec::try_extend_from_slice(v, s))
        }
    };
}
macro_rules! uints {($($t:ty, $d:expr);*) => {$(
    impl Elem for $t {
        const NAME: &'static str = stringify!($t);
        const DOM: u64 = $d;
        fn mk(v: u64) -> Self { v as $t }
        fn val(&self) -> u64 { *self as u64 }
        fn set(&mut self, v: u64) { *self = v as $t }
        copy_ops!();
    }
    impl Key for $t {
        type Q = $t;
        fn with_q<R>(v: u64, f: impl FnOnce(&$t) -> R) -> R { f(&(v as $t)) }
    }
)*}}
uints!(u8, 1 << 8; u16, 1 << 16; u32, 1 << 32; u64, 0; usize, 0);
macro_rules! sints {($($t:ty, $u:ty, $d:expr);*) => {$(
    impl Elem for $t {
        const NAME: &'static str = stringify!($t);
        const DOM: u64 = $d;
        fn mk(v: u64) -> Self { v as $t }
        fn val(&self) -> u64 { *self as $u as u64 }
        fn set(&mut self, v: u64) { *self = v as $t }
        copy_ops!();
    }
)*}}
sints!(i8, u8, 1 << 8; i16, u16, 1 << 16; i32, u32, 1 << 32; i64, u64, 0; isize, usize, 0);
impl Elem for bool {
    const NAME: &'static str = "bool";
    const DOM: u64 = 2;
    fn mk(v: u64) -> Self {
        v % 2 == 1
    }
    fn val(&self) -> u64 {
        *self as u64
    }
    fn set(&mut self, v: u64) {
        *self = v % 2 == 1
    }
    copy_ops!();
}

/// plain zero-sized
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct U0;
/// three bytes, align 1
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct B3([u8; 3]);
/// plain 1.5 KiB
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct K1([u64; 192]);
impl Default for K1 {
    fn default() -> Self {
        K1::mk(0)
    }
}
macro_rules! cl {($($t:ty),*) => {$(
    impl TryClone for $t { fn try_clone(&self) -> TRes<Self> { on_clone()?; Ok(*self) } }
    impl Debug for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Debug::fmt(&self.val(), f) } }
    impl Key for $t { type Q = $t; fn with_q<R>(v: u64, f: impl FnOnce(&$t) -> R) -> R { f(&<$t>::mk(v)) } }
)*}}
cl!(U0, B3, K1);
impl Elem for U0 {
    const NAME: &'static str = "zst";
    const DOM: u64 = 1;
    fn mk(_: u64) -> Self {
        U0
    }
    fn val(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
    copy_ops!();
}
impl Elem for B3 {
    const NAME: &'static str = "[u8;3]";
    const DOM: u64 = 1 << 24;
    fn mk(v: u64) -> Self {
        B3([(v >> 16) as u8, (v >> 8) as u8, v as u8])
    }
    fn val(&self) -> u64 {
        (self.0[0] as u64) << 16 | (self.0[1] as u64) << 8 | self.0[2] as u64
    }
    fn set(&mut self, v: u64) {
        *self = B3::mk(v)
    }
    copy_ops!();
}
impl Elem for K1 {
    const NAME: &'static str = "[u64;192]";
    const DOM: u64 = 0;
    fn mk(v: u64) -> Self {
        let mut a = [v; 192];
        a[191] = mix(v);
        K1(a)
    }
    fn val(&self) -> u64 {
        if self.0[191] != mix(self.0[0]) || self.0[100] != self.0[0] {
            err("contents of a large element corrupted", self.0[0], self.0[191]);
        }
        self.0[0]
    }
    fn set(&mut self, v: u64) {
        *self = K1::mk(v)
    }
    copy_ops!();
}
