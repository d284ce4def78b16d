//! Entry points through which the analysis reaches the crate's public API.  Never executed.
#![no_std]
#![allow(unused, clippy::all)]
#[cfg(feature = "std")]
extern crate std;

use core::fmt;
use core::hash::{BuildHasher, Hasher};
use highway::*;

macro_rules! api {
    ($T:ty) => {
        #[inline(never)]
        pub fn default() -> $T {
            Default::default()
        }
        #[inline(never)]
        pub fn clone(h: &$T) -> $T {
            Clone::clone(h)
        }
        #[inline(never)]
        pub fn clone_from(h: &mut $T, s: &$T) {
            Clone::clone_from(h, s)
        }
        #[inline(never)]
        pub fn append(h: &mut $T, d: &[u8]) {
            HighwayHash::append(h, d)
        }
        /// any number of calls, 32 bytes each
        #[inline(never)]
        pub fn many(h: &mut $T, d: &[u8]) {
            let mut it = d.chunks_exact(32);
            while let Some(c) = it.next() {
                HighwayHash::append(h, c)
            }
            HighwayHash::append(h, it.remainder())
        }
        /// any number of calls without data
        #[inline(never)]
        pub fn many_empty(h: &mut $T, d: &[u8]) {
            let mut it = d.chunks_exact(32);
            while let Some(_) = it.next() {
                HighwayHash::append(h, &[])
            }
        }
        #[inline(never)]
        pub fn checkpoint(h: &$T) -> [u8; 164] {
            HighwayHash::checkpoint(h)
        }
        #[inline(never)]
        pub fn f64(h: $T) -> u64 {
            HighwayHash::finalize64(h)
        }
        #[inline(never)]
        pub fn f128(h: $T) -> [u64; 2] {
            HighwayHash::finalize128(h)
        }
        #[inline(never)]
        pub fn f256(h: $T) -> [u64; 4] {
            HighwayHash::finalize256(h)
        }
        #[inline(never)]
        pub fn h64(h: $T, d: &[u8]) -> u64 {
            HighwayHash::hash64(h, d)
        }
        #[inline(never)]
        pub fn h128(h: $T, d: &[u8]) -> [u64; 2] {
            HighwayHash::hash128(h, d)
        }
        #[inline(never)]
        pub fn h256(h: $T, d: &[u8]) -> [u64; 4] {
            HighwayHash::hash256(h, d)
        }
        #[inline(never)]
        pub fn debug(h: &$T, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Debug::fmt(h, f)
        }
    };
}
macro_rules! ints {
    ($T:ty; $($m:ident $t:ty),*) => {$(
        #[inline(never)]
        pub fn $m(h: &mut $T, v: $t) {
            Hasher::$m(h, v)
        }
    )*};
}
macro_rules! hasher {
    ($T:ty) => {
        #[inline(never)]
        pub fn hwrite(h: &mut $T, d: &[u8]) {
            Hasher::write(h, d)
        }
        /// any number of calls, 32 bytes each
        #[inline(never)]
        pub fn manyw(h: &mut $T, d: &[u8]) {
            let mut it = d.chunks_exact(32);
            while let Some(c) = it.next() {
                Hasher::write(h, c)
            }
            Hasher::write(h, it.remainder())
        }
        #[inline(never)]
        pub fn finish(h: &$T) -> u64 {
            Hasher::finish(h)
        }
        ints!($T; write_u8 u8, write_u16 u16, write_u32 u32, write_u64 u64, write_u128 u128, write_usize usize,
              write_i8 i8, write_i16 i16, write_i32 i32, write_i64 i64, write_i128 i128, write_isize isize);
        #[cfg(feature = "std")]
        #[inline(never)]
        pub fn iowrite(h: &mut $T, d: &[u8]) -> std::io::Result<usize> {
            std::io::Write::write(h, d)
        }
        /// bytes reported as consumed, or MAX on error
        #[cfg(feature = "std")]
        #[inline(never)]
        pub fn iowrite_n(h: &mut $T, d: &[u8]) -> usize {
            match std::io::Write::write(h, d) {
                Ok(n) => n,
                Err(_) => usize::MAX,
            }
        }
        #[cfg(feature = "std")]
        #[inline(never)]
        pub fn iowrite_all_ok(h: &mut $T, d: &[u8]) -> u8 {
            std::io::Write::write_all(h, d).is_ok() as u8
        }
        #[cfg(feature = "std")]
        #[inline(never)]
        pub fn ioflush_ok(h: &mut $T) -> u8 {
            std::io::Write::flush(h).is_ok() as u8
        }
        #[cfg(feature = "std")]
        #[inline(never)]
        pub fn iowrite_all(h: &mut $T, d: &[u8]) -> std::io::Result<()> {
            std::io::Write::write_all(h, d)
        }
        #[cfg(feature = "std")]
        #[inline(never)]
        pub fn ioflush(h: &mut $T) -> std::io::Result<()> {
            std::io::Write::flush(h)
        }
        #[cfg(feature = "std")]
        #[inline(never)]
        pub fn iovec(h: &mut $T, a: &[u8], b: &[u8]) -> std::io::Result<usize> {
            std::io::Write::write_vectored(h, &[std::io::IoSlice::new(a), std::io::IoSlice::new(b)])
        }
        #[cfg(feature = "std")]
        #[inline(never)]
        pub fn iovec_n(h: &mut $T, a: &[u8], b: &[u8]) -> usize {
            match std::io::Write::write_vectored(h, &[std::io::IoSlice::new(a), std::io::IoSlice::new(b)]) {
                Ok(n) => n,
                Err(_) => usize::MAX,
            }
        }
        #[cfg(feature = "std")]
        #[inline(never)]
        pub fn iobyref(h: &mut $T, d: &[u8]) -> std::io::Result<usize> {
            let mut r = std::io::Write::by_ref(h);
            std::io::Write::write(&mut r, d)
        }
        #[inline(never)]
        pub fn bhd() -> $T {
            let b: core::hash::BuildHasherDefault<$T> = Default::default();
            b.build_hasher()
        }
    };
}

pub mod portable {
    use super::*;
    #[inline(never)]
    pub fn new(k: [u64; 4]) -> PortableHash {
        PortableHash::new(Key(k))
    }
    #[inline(never)]
    pub fn restore(c: [u8; 164]) -> PortableHash {
        PortableHash::from_checkpoint(c)
    }
    api!(PortableHash);
    hasher!(PortableHash);
}

pub mod auto {
    use super::*;
    #[inline(never)]
    pub fn new(k: [u64; 4]) -> HighwayHasher {
        HighwayHasher::new(Key(k))
    }
    #[inline(never)]
    pub fn restore(c: [u8; 164]) -> HighwayHasher {
        HighwayHasher::from_checkpoint(c)
    }
    api!(HighwayHasher);
    hasher!(HighwayHasher);
    #[inline(never)]
    pub fn bh_new(k: [u64; 4]) -> HighwayBuildHasher {
        HighwayBuildHasher::new(Key(k))
    }
    #[inline(never)]
    pub fn bh_default() -> HighwayBuildHasher {
        Default::default()
    }
    #[inline(never)]
    pub fn bh_build(b: &HighwayBuildHasher) -> HighwayHasher {
        BuildHasher::build_hasher(b)
    }
    #[inline(never)]
    pub fn bh_hash_u64(b: &HighwayBuildHasher, v: u64) -> u64 {
        BuildHasher::hash_one(b, v)
    }
    #[inline(never)]
    pub fn bh_hash_tuple(b: &HighwayBuildHasher, v: (u8, u32, u128)) -> u64 {
        BuildHasher::hash_one(b, v)
    }
    #[inline(never)]
    pub fn bh_hash_bytes(b: &HighwayBuildHasher, v: &[u8]) -> u64 {
        BuildHasher::hash_one(b, v)
    }
    #[inline(never)]
    pub fn bh_hash_str(b: &HighwayBuildHasher, v: &str) -> u64 {
        BuildHasher::hash_one(b, v)
    }
    #[inline(never)]
    pub fn bh_debug(h: &HighwayBuildHasher, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(h, f)
    }
}

pub mod key {
    use super::*;
    #[inline(never)]
    pub fn default() -> Key {
        Default::default()
    }
    #[inline(never)]
    pub fn clone(k: &Key) -> Key {
        Clone::clone(k)
    }
    #[inline(never)]
    pub fn debug(h: &Key, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(h, f)
    }
}

#[cfg(target_arch = "x86_64")]
pub mod sse {
    use super::*;
    #[inline(never)]
    pub fn new(k: [u64; 4]) -> SseHash {
        unsafe { SseHash::force_new(Key(k)) }
    }
    #[inline(never)]
    pub fn restore(c: [u8; 164]) -> SseHash {
        unsafe { SseHash::force_from_checkpoint(c) }
    }
    #[inline(never)]
    pub fn try_new(k: [u64; 4]) -> Option<SseHash> {
        SseHash::new(Key(k))
    }
    #[inline(never)]
    pub fn try_new_some(k: [u64; 4]) -> u8 {
        SseHash::new(Key(k)).is_some() as u8
    }
    #[inline(never)]
    pub fn try_restore_some(c: [u8; 164]) -> u8 {
        SseHash::from_checkpoint(c).is_some() as u8
    }
    #[inline(never)]
    pub fn try_hash(k: [u64; 4], d: &[u8]) -> u64 {
        match SseHash::new(Key(k)) {
            Some(h) => h.hash64(d),
            None => 0,
        }
    }
    #[inline(never)]
    pub fn try_restore(c: [u8; 164]) -> Option<SseHash> {
        SseHash::from_checkpoint(c)
    }
    api!(SseHash);
    hasher!(SseHash);
}
#[cfg(target_arch = "x86_64")]
pub mod avx {
    use super::*;
    #[inline(never)]
    pub fn new(k: [u64; 4]) -> AvxHash {
        unsafe { AvxHash::force_new(Key(k)) }
    }
    #[inline(never)]
    pub fn restore(c: [u8; 164]) -> AvxHash {
        unsafe { AvxHash::force_from_checkpoint(c) }
    }
    #[inline(never)]
    pub fn try_new(k: [u64; 4]) -> Option<AvxHash> {
        AvxHash::new(Key(k))
    }
    #[inline(never)]
    pub fn try_new_some(k: [u64; 4]) -> u8 {
        AvxHash::new(Key(k)).is_some() as u8
    }
    #[inline(never)]
    pub fn try_restore_some(c: [u8; 164]) -> u8 {
        AvxHash::from_checkpoint(c).is_some() as u8
    }
    #[inline(never)]
    pub fn try_hash(k: [u64; 4], d: &[u8]) -> u64 {
        match AvxHash::new(Key(k)) {
            Some(h) => h.hash64(d),
            None => 0,
        }
    }
    #[inline(never)]
    pub fn try_restore(c: [u8; 164]) -> Option<AvxHash> {
        AvxHash::from_checkpoint(c)
    }
    api!(AvxHash);
    hasher!(AvxHash);
}
#[cfg(target_arch = "aarch64")]
pub mod neon {
    use super::*;
    #[inline(never)]
    pub fn new(k: [u64; 4]) -> NeonHash {
        unsafe { NeonHash::force_new(Key(k)) }
    }
    #[inline(never)]
    pub fn restore(c: [u8; 164]) -> NeonHash {
        unsafe { NeonHash::force_from_checkpoint(c) }
    }
    api!(NeonHash);
}
#[cfg(all(target_family = "wasm", target_feature = "simd128"))]
pub mod wasm {
    use super::*;
    #[inline(never)]
    pub fn new(k: [u64; 4]) -> WasmHash {
        WasmHash::new(Key(k))
    }
    #[inline(never)]
    pub fn restore(c: [u8; 164]) -> WasmHash {
        WasmHash::from_checkpoint(c)
    }
    api!(WasmHash);
    hasher!(WasmHash);
}

/// What the analysis takes for `std::sync::Once::call`, whose body std does not ship: one thread,
/// no poisoning.
#[cfg(all(feature = "std", target_os = "linux"))]
pub mod model {
    use core::sync::atomic::{AtomicU32, Ordering::SeqCst};
    use std::sync::OnceState;
    pub fn once_call(state: &AtomicU32, _ignore_poison: bool, f: &mut dyn FnMut(&OnceState)) {
        if state.load(SeqCst) != 0 {
            let s = core::mem::MaybeUninit::<OnceState>::zeroed();
            f(unsafe { s.assume_init_ref() });
            state.store(0, SeqCst);
        }
    }
}
