//! Uniform view of `Vec` through `FallibleVec` and of `TryVec`.
use crate::elem::Elem;
use fc::{FallibleVec, TryClone, TryReserveError, TryVec};

pub type TRes<T> = Result<T, TryReserveError>;

pub trait VL<T: Elem>: Sized {
    const TV: bool;
    fn new() -> Self;
    fn with_cap(n: usize) -> TRes<Self>;
    fn from_vec(v: Vec<T>) -> Self;
    fn push(&mut self, x: T) -> TRes<()>;
    fn pop(&mut self) -> Option<T>;
    fn append(&mut self, o: &mut Self) -> TRes<()>;
    fn clear(&mut self);
    fn reserve(&mut self, n: usize) -> TRes<()>;
    fn resize_with(&mut self, n: usize, f: impl FnMut() -> T) -> TRes<()>;
    fn extend_nc(&mut self, s: &[T]) -> TRes<()>;
    fn slice(&self) -> &[T];
    fn slice_mut(&mut self) -> &mut [T];
    fn cap(&self) -> Option<usize>;
    fn tclone(&self) -> TRes<Self>;
    fn push_gb(&mut self, x: T) -> Result<(), (T, TryReserveError)>;
    fn insert(&mut self, i: usize, x: T) -> Result<(), (T, TryReserveError)>;
    fn vec_mut(&mut self) -> Option<&mut Vec<T>>;
    fn into_vec(self) -> Vec<T>;
}

impl<T: Elem> VL<T> for Vec<T> {
    const TV: bool = false;
    fn new() -> Self {
        Vec::new()
    }
    fn with_cap(n: usize) -> TRes<Self> {
        FallibleVec::try_with_capacity(n)
    }
    fn from_vec(v: Vec<T>) -> Self {
        v
    }
    fn push(&mut self, x: T) -> TRes<()> {
        FallibleVec::try_push(self, x)
    }
    fn pop(&mut self) -> Option<T> {
        Vec::pop(self)
    }
    fn append(&mut self, o: &mut Self) -> TRes<()> {
        FallibleVec::try_append(self, o)
    }
    fn clear(&mut self) {
        Vec::clear(self)
    }
    fn reserve(&mut self, n: usize) -> TRes<()> {
        FallibleVec::try_reserve(self, n)
    }
    fn resize_with(&mut self, n: usize, f: impl FnMut() -> T) -> TRes<()> {
        FallibleVec::try_resize_with(self, n, f)
    }
    fn extend_nc(&mut self, s: &[T]) -> TRes<()> {
        FallibleVec::try_extend_from_slice_no_copy(self, s)
    }
    fn slice(&self) -> &[T] {
        self
    }
    fn slice_mut(&mut self) -> &mut [T] {
        self
    }
    fn cap(&self) -> Option<usize> {
        Some(self.capacity())
    }
    fn tclone(&self) -> TRes<Self> {
        self.try_clone()
    }
    fn push_gb(&mut self, x: T) -> Result<(), (T, TryReserveError)> {
        FallibleVec::try_push_give_back(self, x)
    }
    fn insert(&mut self, i: usize, x: T) -> Result<(), (T, TryReserveError)> {
        FallibleVec::try_insert(self, i, x)
    }
    fn vec_mut(&mut self) -> Option<&mut Vec<T>> {
        Some(self)
    }
    fn into_vec(self) -> Vec<T> {
        self
    }
}

impl<T: Elem> VL<T> for TryVec<T> {
    const TV: bool = true;
    fn new() -> Self {
        if std::mem::size_of::<T>() % 3 == 0 { TryVec::default() } else { TryVec::new() }
    }
    fn with_cap(n: usize) -> TRes<Self> {
        TryVec::with_capacity(n)
    }
    fn from_vec(v: Vec<T>) -> Self {
        v.into()
    }
    fn push(&mut self, x: T) -> TRes<()> {
        TryVec::push(self, x)
    }
    fn pop(&mut self) -> Option<T> {
        TryVec::pop(self)
    }
    fn append(&mut self, o: &mut Self) -> TRes<()> {
        TryVec::append(self, o)
    }
    fn clear(&mut self) {
        TryVec::clear(self)
    }
    fn reserve(&mut self, n: usize) -> TRes<()> {
        TryVec::reserve(self, n)
    }
    fn resize_with(&mut self, n: usize, f: impl FnMut() -> T) -> TRes<()> {
        TryVec::resize_with(self, n, f)
    }
    fn extend_nc(&mut self, s: &[T]) -> TRes<()> {
        TryVec::extend_from_slice(self, s)
    }
    fn slice(&self) -> &[T] {
        self.as_slice()
    }
    fn slice_mut(&mut self) -> &mut [T] {
        self.as_mut_slice()
    }
    fn cap(&self) -> Option<usize> {
        None
    }
    fn tclone(&self) -> TRes<Self> {
        self.try_clone()
    }
    fn push_gb(&mut self, x: T) -> Result<(), (T, TryReserveError)> {
        // not offered by the wrapper: plain push, the element is not given back
        TryVec::push(self, x).map_err(|e| (T::default(), e))
    }
    fn insert(&mut self, _i: usize, x: T) -> Result<(), (T, TryReserveError)> {
        TryVec::push(self, x).map_err(|e| (T::default(), e))
    }
    fn vec_mut(&mut self) -> Option<&mut Vec<T>> {
        None
    }
    fn into_vec(self) -> Vec<T> {
        self.into_iter().collect()
    }
}

pub trait ElemFn {
    fn call<T: Elem>(self);
}
pub const NELEM: u64 = 16;
pub fn elem_name(i: u64) -> &'static str {
    ["E(16B tracked)", "E(16B tracked)", "Big(256B tracked)", "E64(align 64 tracked)", "ZST tracked", "BE(owns a box)", "u8", "u8", "u64", "u16", "i32", "bool", "U0(zst)", "B3([u8;3])", "K1(1.5KiB)", "Huge(2KiB tracked)"][(i % NELEM) as usize]
}
pub fn with_elem<F: ElemFn>(i: u64, f: F) {
    use crate::elem::*;
    match i % NELEM {
        0 | 1 => f.call::<E>(),
        2 => f.call::<Big>(),
        3 => f.call::<E64>(),
        4 => f.call::<Z>(),
        5 => f.call::<BE>(),
        6 | 7 => f.call::<u8>(),
        8 => f.call::<u64>(),
        9 => f.call::<u16>(),
        10 => f.call::<i32>(),
        11 => f.call::<bool>(),
        12 => f.call::<U0>(),
        13 => f.call::<B3>(),
        14 => f.call::<K1>(),
        _ => f.call::<Huge>(),
    }
}
