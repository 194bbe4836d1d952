//! Key/value layouts shared by the map machines.
use crate::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ent {
    pub kid: u64,
    pub v: u64,
    pub vid: u64,
}

pub fn same<T: Elem>(x: &T, v: u64, id: u64) -> bool {
    x.check();
    x.val() == v && x.id() == id
}

pub trait KvFn {
    fn call<K: Key, V: Elem>(self);
}
pub const NKV: u64 = 14;
pub fn kv_name(i: u64) -> &'static str {
    ["E->E", "E->E", "u64->u64", "string->E", "Big(256B)->()", "E->Big64(align 64)", "u8->tracked-zst", "tracked-zst->E", "BE(boxed)->BE", "u16->Huge(2KiB)", "K1(1.5KiB)->u8", "E16(align 16)->E32", "E64(align 64)->u32", "E128(align 128)->E16"][(i % NKV) as usize]
}
pub fn with_kv<F: KvFn>(i: u64, f: F) {
    match i % NKV {
        0 | 1 => f.call::<E, E>(),
        2 => f.call::<u64, u64>(),
        3 => f.call::<KS, E>(),
        4 => f.call::<Big, U0>(),
        5 => f.call::<E, Big64>(),
        6 => f.call::<u8, Z>(),
        7 => f.call::<Z, E>(),
        8 => f.call::<BE, BE>(),
        9 => f.call::<u16, Huge>(),
        10 => f.call::<K1, u8>(),
        11 => f.call::<E16, E32>(),
        12 => f.call::<E64, u32>(),
        _ => f.call::<E128, E16>(),
    }
}

