//! One exported function per public operation and hasher type: the entry points of the contracts.
//! Compiled against the unmodified crate; contains no logic of its own.
#![cfg_attr(not(any(feature = "std", feature = "host")), no_std)]
#![allow(clippy::all)]
extern crate highway;
use core::fmt::{Debug, Formatter};
use core::hash::{BuildHasher, Hasher};
use core::mem::MaybeUninit;
use highway::*;
#[cfg(feature = "std")]
use std::io::{IoSlice, Write};

#[cfg(feature = "std")]
#[inline(always)]
fn vectored<T: Write>(h: &mut T, d: &[IoSlice], out: &mut usize) -> bool {
    match h.write_vectored(d) {
        Ok(n) => {
            *out = n;
            true
        }
        Err(e) => {
            core::mem::forget(e);
            false
        }
    }
}

macro_rules! common {
    ($t:ty, $p:literal) => {
        #[export_name = concat!($p, "layout")]
        pub static LAYOUT: [usize; 2] = [core::mem::size_of::<$t>(), core::mem::align_of::<$t>()];
        #[export_name = concat!($p, "append")]
        pub fn append(h: &mut $t, d: &[u8]) {
            HighwayHash::append(h, d)
        }
        #[export_name = concat!($p, "fin64")]
        pub fn fin64(h: $t, out: &mut [u64; 1]) {
            out[0] = HighwayHash::finalize64(h)
        }
        #[export_name = concat!($p, "fin128")]
        pub fn fin128(h: $t, out: &mut [u64; 2]) {
            *out = HighwayHash::finalize128(h)
        }
        #[export_name = concat!($p, "fin256")]
        pub fn fin256(h: $t, out: &mut [u64; 4]) {
            *out = HighwayHash::finalize256(h)
        }
        #[export_name = concat!($p, "hash64")]
        pub fn hash64(h: $t, d: &[u8], out: &mut [u64; 1]) {
            out[0] = HighwayHash::hash64(h, d)
        }
        #[export_name = concat!($p, "hash128")]
        pub fn hash128(h: $t, d: &[u8], out: &mut [u64; 2]) {
            *out = HighwayHash::hash128(h, d)
        }
        #[export_name = concat!($p, "hash256")]
        pub fn hash256(h: $t, d: &[u8], out: &mut [u64; 4]) {
            *out = HighwayHash::hash256(h, d)
        }
        #[export_name = concat!($p, "checkpoint")]
        pub fn checkpoint(h: &$t, out: &mut [u8; 164]) {
            *out = HighwayHash::checkpoint(h)
        }
        #[export_name = concat!($p, "clone")]
        pub fn clone(h: &$t, out: &mut MaybeUninit<$t>) {
            out.write(Clone::clone(h));
        }
        #[export_name = concat!($p, "clone_from")]
        pub fn clone_from(h: &$t, out: &mut $t) {
            Clone::clone_from(out, h);
        }
        #[export_name = concat!($p, "default")]
        pub fn default(out: &mut MaybeUninit<$t>) {
            out.write(<$t as Default>::default());
        }
        #[export_name = concat!($p, "drop")]
        pub fn drop(h: $t) {
            core::mem::drop(h)
        }
        #[export_name = concat!($p, "debug")]
        pub fn debug(h: &$t, f: &mut Formatter) -> bool {
            Debug::fmt(h, f).is_ok()
        }
    };
}

macro_rules! adapters {
    ($t:ty, $p:literal) => {
        #[export_name = concat!($p, "finish")]
        pub fn finish(h: &$t, out: &mut [u64; 1]) {
            out[0] = Hasher::finish(h)
        }
        #[export_name = concat!($p, "hwrite")]
        pub fn hwrite(h: &mut $t, d: &[u8]) {
            Hasher::write(h, d)
        }
        #[export_name = concat!($p, "write_u8")]
        pub fn write_u8(h: &mut $t, v: u8) {
            Hasher::write_u8(h, v)
        }
        #[export_name = concat!($p, "write_u16")]
        pub fn write_u16(h: &mut $t, v: u16) {
            Hasher::write_u16(h, v)
        }
        #[export_name = concat!($p, "write_u32")]
        pub fn write_u32(h: &mut $t, v: u32) {
            Hasher::write_u32(h, v)
        }
        #[export_name = concat!($p, "write_u64")]
        pub fn write_u64(h: &mut $t, v: u64) {
            Hasher::write_u64(h, v)
        }
        #[export_name = concat!($p, "write_u128")]
        pub fn write_u128(h: &mut $t, v: &u128) {
            Hasher::write_u128(h, *v)
        }
        #[export_name = concat!($p, "write_usize")]
        pub fn write_usize(h: &mut $t, v: usize) {
            Hasher::write_usize(h, v)
        }
        #[export_name = concat!($p, "write_i8")]
        pub fn write_i8(h: &mut $t, v: i8) {
            Hasher::write_i8(h, v)
        }
        #[export_name = concat!($p, "write_i16")]
        pub fn write_i16(h: &mut $t, v: i16) {
            Hasher::write_i16(h, v)
        }
        #[export_name = concat!($p, "write_i32")]
        pub fn write_i32(h: &mut $t, v: i32) {
            Hasher::write_i32(h, v)
        }
        #[export_name = concat!($p, "write_i64")]
        pub fn write_i64(h: &mut $t, v: i64) {
            Hasher::write_i64(h, v)
        }
        #[export_name = concat!($p, "write_i128")]
        pub fn write_i128(h: &mut $t, v: &i128) {
            Hasher::write_i128(h, *v)
        }
        #[export_name = concat!($p, "write_isize")]
        pub fn write_isize(h: &mut $t, v: isize) {
            Hasher::write_isize(h, v)
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($p, "io_write")]
        pub fn io_write(h: &mut $t, d: &[u8], out: &mut usize) -> bool {
            match Write::write(h, d) {
                Ok(n) => {
                    *out = n;
                    true
                }
                Err(e) => {
                    core::mem::forget(e);
                    false
                }
            }
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($p, "io_vec0")]
        pub fn io_vec0(h: &mut $t, out: &mut usize) -> bool {
            vectored(h, &[], out)
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($p, "io_vec1")]
        pub fn io_vec1(h: &mut $t, a: &[u8], out: &mut usize) -> bool {
            vectored(h, &[IoSlice::new(a)], out)
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($p, "io_vec2")]
        pub fn io_vec2(h: &mut $t, a: &[u8], b: &[u8], out: &mut usize) -> bool {
            vectored(h, &[IoSlice::new(a), IoSlice::new(b)], out)
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($p, "io_vec3")]
        pub fn io_vec3(h: &mut $t, a: &[u8], b: &[u8], c: &[u8], out: &mut usize) -> bool {
            vectored(h, &[IoSlice::new(a), IoSlice::new(b), IoSlice::new(c)], out)
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($p, "io_write_all")]
        pub fn io_write_all(h: &mut $t, d: &[u8]) -> bool {
            match Write::write_all(h, d) {
                Ok(()) => true,
                Err(e) => {
                    core::mem::forget(e);
                    false
                }
            }
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($p, "io_flush")]
        pub fn io_flush(h: &mut $t) -> bool {
            match Write::flush(h) {
                Ok(()) => true,
                Err(e) => {
                    core::mem::forget(e);
                    false
                }
            }
        }
    };
}

macro_rules! plain {
    ($t:ty, $p:literal) => {
        #[export_name = concat!($p, "new")]
        pub fn new(k: &Key, out: &mut MaybeUninit<$t>) {
            out.write(<$t>::new(*k));
        }
        #[export_name = concat!($p, "restore")]
        pub fn restore(c: &[u8; 164], out: &mut MaybeUninit<$t>) {
            out.write(<$t>::from_checkpoint(*c));
        }
    };
}

#[allow(unused_macros)]
macro_rules! forced {
    ($t:ty, $p:literal) => {
        #[export_name = concat!($p, "new")]
        pub fn new(k: &Key, out: &mut MaybeUninit<$t>) {
            out.write(unsafe { <$t>::force_new(*k) });
        }
        #[export_name = concat!($p, "restore")]
        pub fn restore(c: &[u8; 164], out: &mut MaybeUninit<$t>) {
            out.write(unsafe { <$t>::force_from_checkpoint(*c) });
        }
    };
}

#[allow(unused_macros)]
macro_rules! optional {
    ($t:ty, $p:literal) => {
        #[export_name = concat!($p, "opt_new")]
        pub fn opt_new(k: &Key, out: &mut MaybeUninit<$t>) -> bool {
            match <$t>::new(*k) {
                Some(h) => {
                    out.write(h);
                    true
                }
                None => false,
            }
        }
        #[export_name = concat!($p, "opt_restore")]
        pub fn opt_restore(c: &[u8; 164], out: &mut MaybeUninit<$t>) -> bool {
            match <$t>::from_checkpoint(*c) {
                Some(h) => {
                    out.write(h);
                    true
                }
                None => false,
            }
        }
    };
}

pub mod portable {
    use super::*;
    common!(PortableHash, "p_");
    adapters!(PortableHash, "p_");
    plain!(PortableHash, "p_");
}
pub mod auto {
    use super::*;
    common!(HighwayHasher, "h_");
    adapters!(HighwayHasher, "h_");
    plain!(HighwayHasher, "h_");
}
#[cfg(target_arch = "x86_64")]
pub mod sse {
    use super::*;
    common!(SseHash, "s_");
    adapters!(SseHash, "s_");
    forced!(SseHash, "s_");
    optional!(SseHash, "s_");
}
#[cfg(target_arch = "x86_64")]
pub mod avx {
    use super::*;
    common!(AvxHash, "a_");
    adapters!(AvxHash, "a_");
    forced!(AvxHash, "a_");
    optional!(AvxHash, "a_");
}
#[cfg(target_arch = "aarch64")]
pub mod neon {
    use super::*;
    common!(NeonHash, "n_");
    forced!(NeonHash, "n_");
}
#[cfg(all(target_family = "wasm", target_feature = "simd128"))]
pub mod wasm {
    use super::*;
    common!(WasmHash, "w_");
    adapters!(WasmHash, "w_");
    plain!(WasmHash, "w_");
}
pub mod builder {
    use super::*;
    #[export_name = "b_layout"]
    pub static LAYOUT: [usize; 2] =
        [core::mem::size_of::<HighwayBuildHasher>(), core::mem::align_of::<HighwayBuildHasher>()];
    #[export_name = "b_new"]
    pub fn new(k: &Key, out: &mut MaybeUninit<HighwayBuildHasher>) {
        out.write(HighwayBuildHasher::new(*k));
    }
    #[export_name = "b_default"]
    pub fn default(out: &mut MaybeUninit<HighwayBuildHasher>) {
        out.write(Default::default());
    }
    #[export_name = "b_build"]
    pub fn build(b: &HighwayBuildHasher, out: &mut MaybeUninit<HighwayHasher>) {
        out.write(b.build_hasher());
    }
    #[export_name = "b_hash_u64"]
    pub fn hash_u64(b: &HighwayBuildHasher, v: u64, out: &mut [u64; 1]) {
        out[0] = b.hash_one(v)
    }
    #[export_name = "b_hash_bytes"]
    pub fn hash_bytes(b: &HighwayBuildHasher, d: &[u8], out: &mut [u64; 1]) {
        out[0] = b.hash_one(d)
    }
    #[export_name = "b_debug"]
    pub fn debug(h: &HighwayBuildHasher, f: &mut Formatter) -> bool {
        Debug::fmt(h, f).is_ok()
    }
    #[export_name = "k_default"]
    pub fn key(out: &mut MaybeUninit<Key>) {
        out.write(Key::default());
    }
}
