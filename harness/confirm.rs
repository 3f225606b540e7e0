//! Replay program: runs the real crate on concrete inputs and compares what a property relates.
//! It is run only after an obligation has failed, to turn the failure into a failing input:
//! first on the inputs taken from the failed obligation's counterexample, then on a fixed battery.
//! It never decides that a property holds.
#![cfg_attr(not(host), no_std)]
#![allow(dead_code, clippy::all)]
extern crate alloc;
extern crate highway;
use alloc::boxed::Box;
use alloc::format;
use alloc::string::{String, ToString};
use alloc::vec;
use alloc::vec::Vec;
use core::fmt::Debug;
use core::hash::{BuildHasher, Hash, Hasher};
use highway::{HighwayBuildHasher, HighwayHash, HighwayHasher, Key, PortableHash};

#[path = "../hwv/src/spec.rs"]
mod spec;
#[path = "../hwv/src/vectors.rs"]
mod vectors;
use spec::Ref;

// ------------------------------------------------------------------ platform
#[cfg(host)]
mod plat {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    pub struct Count;
    std::thread_local! { static N: Cell<u64> = const { Cell::new(0) }; }
    unsafe impl GlobalAlloc for Count {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let _ = N.try_with(|n| n.set(n.get() + 1));
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            let _ = N.try_with(|n| n.set(n.get() + 1));
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, s: usize) -> *mut u8 {
            let _ = N.try_with(|n| n.set(n.get() + 1));
            System.realloc(p, l, s)
        }
    }
    #[global_allocator]
    static A: Count = Count;
    pub fn allocs() -> u64 {
        N.with(|n| n.get())
    }
    #[cfg(not(target_family = "wasm"))]
    pub fn say(s: &str) {
        use std::io::Write;
        let o = std::io::stdout();
        let mut o = o.lock();
        let _ = o.write_all(s.as_bytes());
        let _ = o.write_all(b"\n");
        let _ = o.flush();
    }
    #[cfg(target_family = "wasm")]
    pub fn say(s: &str) {
        #[link(wasm_import_module = "env")]
        extern "C" {
            fn hw_confirm_say(p: *const u8, n: usize);
        }
        unsafe { hw_confirm_say(s.as_ptr(), s.len()) }
    }
    #[cfg(not(target_family = "wasm"))]
    pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
            if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            }
        })
    }
    #[cfg(target_family = "wasm")]
    pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
        Ok(f())
    }
}
#[cfg(not(host))]
mod plat {
    use alloc::string::String;
    use core::alloc::{GlobalAlloc, Layout};
    extern "C" {
        fn aligned_alloc(a: usize, n: usize) -> *mut u8;
        fn free(p: *mut u8);
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn exit(c: i32) -> !;
    }
    static mut N: u64 = 0;
    pub struct Count;
    unsafe impl GlobalAlloc for Count {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            N += 1;
            let a = l.align().max(16);
            aligned_alloc(a, (l.size() + a - 1) / a * a)
        }
        unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
            free(p)
        }
    }
    #[global_allocator]
    static A: Count = Count;
    #[panic_handler]
    fn ph(i: &core::panic::PanicInfo) -> ! {
        say(&alloc::format!("FAIL panic: {}", i));
        unsafe { exit(3) }
    }
    pub fn allocs() -> u64 {
        unsafe { N }
    }
    pub fn say(s: &str) {
        unsafe {
            write(1, s.as_ptr(), s.len());
            write(1, b"\n".as_ptr(), 1);
        }
    }
    pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
        Ok(f())
    }
}
use plat::{allocs, catch, say};

// ------------------------------------------------------------------ hashers
pub type Out = ([u64; 4], usize);
fn w1(a: u64) -> Out {
    ([a, 0, 0, 0], 1)
}
fn w2(a: [u64; 2]) -> Out {
    ([a[0], a[1], 0, 0], 2)
}
fn w4(a: [u64; 4]) -> Out {
    (a, 4)
}
pub const W: [u32; 3] = [64, 128, 256];

/// how an integer is fed through Hasher::write_*
pub const INTS: [&str; 12] = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
pub fn int_bytes(k: usize, v: u128) -> Vec<u8> {
    match k {
        0 | 6 => (v as u8).to_ne_bytes().to_vec(),
        1 | 7 => (v as u16).to_ne_bytes().to_vec(),
        2 | 8 => (v as u32).to_ne_bytes().to_vec(),
        3 | 9 => (v as u64).to_ne_bytes().to_vec(),
        4 | 10 => v.to_ne_bytes().to_vec(),
        _ => (v as usize).to_ne_bytes().to_vec(),
    }
}

pub trait Hx: Clone + Debug + Default + Sized + 'static {
    const NAME: &'static str;
    const HASHER: bool;
    const IO: bool;
    fn new(k: [u64; 4]) -> Self;
    fn restore(c: &[u8; 164]) -> Self;
    fn append(&mut self, d: &[u8]);
    fn fin(self, w: u32) -> Out;
    fn hash(self, w: u32, d: &[u8]) -> Out;
    fn cp(&self) -> [u8; 164];
    fn finish(&self) -> u64 {
        0
    }
    fn hwrite(&mut self, _: &[u8]) {}
    fn wint(&mut self, _: usize, _: u128) {}
    fn io_write(&mut self, d: &[u8]) -> Result<usize, ()> {
        self.append(d);
        Ok(d.len())
    }
    fn io_all(&mut self, d: &[u8]) -> bool {
        self.append(d);
        true
    }
    fn io_vec(&mut self, d: &[&[u8]]) -> Result<usize, ()> {
        for x in d {
            self.append(x);
        }
        Ok(d.iter().map(|x| x.len()).sum())
    }
    fn io_fmt(&mut self, d: &str) -> bool {
        self.append(d.as_bytes());
        true
    }
    fn io_flush(&mut self) -> bool {
        true
    }
}
macro_rules! core_ops {
    () => {
        fn append(&mut self, d: &[u8]) {
            HighwayHash::append(self, d)
        }
        fn fin(self, w: u32) -> Out {
            match w {
                64 => w1(HighwayHash::finalize64(self)),
                128 => w2(HighwayHash::finalize128(self)),
                _ => w4(HighwayHash::finalize256(self)),
            }
        }
        fn hash(self, w: u32, d: &[u8]) -> Out {
            match w {
                64 => w1(HighwayHash::hash64(self, d)),
                128 => w2(HighwayHash::hash128(self, d)),
                _ => w4(HighwayHash::hash256(self, d)),
            }
        }
        fn cp(&self) -> [u8; 164] {
            HighwayHash::checkpoint(self)
        }
    };
}
macro_rules! adapt {
    () => {
        fn finish(&self) -> u64 {
            Hasher::finish(self)
        }
        fn hwrite(&mut self, d: &[u8]) {
            Hasher::write(self, d)
        }
        fn wint(&mut self, k: usize, v: u128) {
            match k {
                0 => Hasher::write_u8(self, v as u8),
                1 => Hasher::write_u16(self, v as u16),
                2 => Hasher::write_u32(self, v as u32),
                3 => Hasher::write_u64(self, v as u64),
                4 => Hasher::write_u128(self, v),
                5 => Hasher::write_usize(self, v as usize),
                6 => Hasher::write_i8(self, v as i8),
                7 => Hasher::write_i16(self, v as i16),
                8 => Hasher::write_i32(self, v as i32),
                9 => Hasher::write_i64(self, v as i64),
                10 => Hasher::write_i128(self, v as i128),
                _ => Hasher::write_isize(self, v as isize),
            }
        }
        #[cfg(io)]
        fn io_write(&mut self, d: &[u8]) -> Result<usize, ()> {
            std::io::Write::write(self, d).map_err(|_| ())
        }
        #[cfg(io)]
        fn io_all(&mut self, d: &[u8]) -> bool {
            std::io::Write::write_all(self, d).is_ok()
        }
        #[cfg(io)]
        fn io_vec(&mut self, d: &[&[u8]]) -> Result<usize, ()> {
            let at = |i: usize| std::io::IoSlice::new(d.get(i).copied().unwrap_or(&[]));
            let v = [at(0), at(1), at(2), at(3)];
            let v = &v[..d.len().min(4)];
            std::io::Write::write_vectored(self, v).map_err(|_| ())
        }
        #[cfg(io)]
        fn io_fmt(&mut self, d: &str) -> bool {
            std::io::Write::write_fmt(self, format_args!("{}", d)).is_ok()
        }
        #[cfg(io)]
        fn io_flush(&mut self) -> bool {
            std::io::Write::flush(self).is_ok()
        }
    };
}
macro_rules! plain {
    ($t:ty, $n:literal) => {
        impl Hx for $t {
            const NAME: &'static str = $n;
            const HASHER: bool = true;
            const IO: bool = cfg!(io);
            fn new(k: [u64; 4]) -> Self {
                <$t>::new(Key(k))
            }
            fn restore(c: &[u8; 164]) -> Self {
                <$t>::from_checkpoint(*c)
            }
            core_ops!();
            adapt!();
        }
    };
}
/// which constructor is next, in an irregular pattern
#[allow(dead_code)]
fn turn() -> bool {
    use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    static TURN: AtomicUsize = AtomicUsize::new(1);
    let x = TURN.load(Relaxed).wrapping_mul(1664525).wrapping_add(1013904223);
    TURN.store(x, Relaxed);
    (x >> 24) & 1 == 1
}
plain!(PortableHash, "PortableHash");
plain!(HighwayHasher, "HighwayHasher");
#[cfg(all(target_family = "wasm", target_feature = "simd128"))]
plain!(highway::WasmHash, "WasmHash");
#[allow(unused_macros)]
macro_rules! forced {
    ($t:ty, $n:literal) => {
        impl Hx for $t {
            const NAME: &'static str = $n;
            const HASHER: bool = true;
            const IO: bool = cfg!(io);
            fn new(k: [u64; 4]) -> Self {
                // the safe constructor and the unsafe one take turns
                match if turn() { <$t>::new(Key(k)) } else { None } {
                    Some(h) => h,
                    None => unsafe { <$t>::force_new(Key(k)) },
                }
            }
            fn restore(c: &[u8; 164]) -> Self {
                match if turn() { <$t>::from_checkpoint(*c) } else { None } {
                    Some(h) => h,
                    None => unsafe { <$t>::force_from_checkpoint(*c) },
                }
            }
            core_ops!();
            adapt!();
        }
    };
}
#[cfg(target_arch = "x86_64")]
forced!(highway::SseHash, "SseHash");
#[cfg(target_arch = "x86_64")]
forced!(highway::AvxHash, "AvxHash");
#[cfg(target_arch = "aarch64")]
impl Hx for highway::NeonHash {
    const NAME: &'static str = "NeonHash";
    const HASHER: bool = false;
    const IO: bool = false;
    fn new(k: [u64; 4]) -> Self {
        unsafe { highway::NeonHash::force_new(Key(k)) }
    }
    fn restore(c: &[u8; 164]) -> Self {
        unsafe { highway::NeonHash::force_from_checkpoint(*c) }
    }
    core_ops!();
}

/// does this CPU have the features a type needs?
fn usable(name: &str) -> bool {
    #[cfg(all(target_arch = "x86_64", host))]
    {
        if name == "SseHash" {
            return std::is_x86_feature_detected!("sse4.1");
        }
        if name == "AvxHash" {
            return std::is_x86_feature_detected!("avx2");
        }
    }
    let _ = name;
    true
}
/// is the feature enabled for the crate: at compile time, or (with std) detected
fn enabled(name: &str) -> bool {
    match name {
        "SseHash" => cfg!(target_feature = "sse4.1") || (cfg!(io) && usable(name)),
        "AvxHash" => cfg!(target_feature = "avx2") || (cfg!(io) && usable(name)),
        _ => true,
    }
}
macro_rules! types {
    ($f:ident ( $($a:expr),* )) => {{
        if !only_skips("PortableHash") { $f::<PortableHash>($($a),*); }
        if !only_skips("HighwayHasher") { $f::<HighwayHasher>($($a),*); }
        #[cfg(target_arch = "x86_64")]
        {
            if usable("SseHash") && !only_skips("SseHash") { $f::<highway::SseHash>($($a),*); }
            if usable("AvxHash") && !only_skips("AvxHash") { $f::<highway::AvxHash>($($a),*); }
        }
        #[cfg(target_arch = "aarch64")]
        if !only_skips("NeonHash") { $f::<highway::NeonHash>($($a),*); }
        #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
        if !only_skips("WasmHash") { $f::<highway::WasmHash>($($a),*); }
    }};
}
macro_rules! types2 {
    ($f:ident :: <$t:ident> ( $($a:expr),* )) => {{
        $f::<$t, PortableHash>($($a),*);
        $f::<$t, HighwayHasher>($($a),*);
        #[cfg(target_arch = "x86_64")]
        {
            if usable("SseHash") { $f::<$t, highway::SseHash>($($a),*); }
            if usable("AvxHash") { $f::<$t, highway::AvxHash>($($a),*); }
        }
        #[cfg(target_arch = "aarch64")]
        $f::<$t, highway::NeonHash>($($a),*);
        #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
        $f::<$t, highway::WasmHash>($($a),*);
    }};
}

// ------------------------------------------------------------------ cases
#[derive(Clone)]
pub struct Case {
    pub key: [u64; 4],
    pub cp: Option<Box<[u8; 164]>>,
    pub a: Vec<u8>,
    pub b: Vec<u8>,
}
fn hex(b: &[u8]) -> String {
    if b.len() > 400 {
        let mut h = 0u64;
        for x in b {
            h = h.wrapping_mul(0x100000001b3) ^ *x as u64;
        }
        return format!("{}..({} bytes, fnv {:x})", hex(&b[..200]), b.len(), h);
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
impl Case {
    fn show(&self) -> String {
        let s = match &self.cp {
            Some(c) => format!("restored from checkpoint {}", hex(&c[..])),
            None => format!("key {:016x?}", self.key),
        };
        format!("{}; first chunk [{}] {}; second chunk [{}] {}", s, self.a.len(), hex(&self.a), self.b.len(), hex(&self.b))
    }
    fn start<T: Hx>(&self) -> T {
        match &self.cp {
            Some(c) => T::restore(c),
            None => T::new(self.key),
        }
    }
    fn model(&self) -> Ref {
        match &self.cp {
            Some(c) => Ref::restore(&c[..]),
            None => Ref::new(self.key),
        }
    }
    fn ab(&self) -> Vec<u8> {
        let mut v = self.a.clone();
        v.extend_from_slice(&self.b);
        v
    }
}
pub struct Rng(u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn bytes(&mut self, n: usize, p: u64) -> Vec<u8> {
        (0..n)
            .map(|i| match p {
                0 => 0,
                1 => 0xff,
                2 => (i as u8) | 0x80,
                3 => (i % 127) as u8,
                _ => (self.next() >> 33) as u8,
            })
            .collect()
    }
}
fn key(r: &mut Rng, n: u64) -> [u64; 4] {
    match n {
        0 => [0; 4],
        1 => [0x0706050403020100, 0x0F0E0D0C0B0A0908, 0x1716151413121110, 0x1F1E1D1C1B1A1918],
        2 => [u64::MAX; 4],
        _ => [r.next(), r.next(), r.next(), r.next()],
    }
}
fn battery(seed: u64) -> Vec<Case> {
    let mut r = Rng(seed | 1);
    let mut v = vec![];
    let quick = cfg!(small);
    let mut lb: Vec<usize> = (0..=34).collect();
    lb.extend([47, 48, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 160, 255, 256, 257, 511, 513, 1000, 1024, 4097]);
    let la: Vec<usize> = if quick { (0..=32).collect() } else { (0..=32).chain([33, 47, 63, 64, 65, 96, 127, 128]).collect() };
    let mut n = 0u64;
    for a in &la {
        for b in &lb {
            n += 1;
            if quick && n % 3 != 0 {
                continue;
            }
            let p = n % 7;
            v.push(Case { key: key(&mut r, (n / 5) % 6), cp: None, a: r.bytes(*a, p), b: r.bytes(*b, p) });
        }
    }
    let mut counts: Vec<u32> = (0..=34).collect();
    counts.extend([63, 64, 128, 224, 255, 256, 257, 287, 288, 0x10000, 0x1001f, 0x7fffffff, 0x80000000, 0xffffff1f, 0xfffffffe, u32::MAX]);
    for c in counts {
        for (i, b) in [0usize, 1, 3, 5, 16, 31, 32, 33, 64, 100].iter().enumerate() {
            n += 1;
            let mut cp = Box::new([0u8; 164]);
            let p = (n + i as u64) % 9;
            let lanes = r.bytes(128, if p < 2 { p } else { 9 });
            let buf = r.bytes(32, if p == 3 { 1 } else { 9 });
            cp[..128].copy_from_slice(&lanes);
            cp[128..160].copy_from_slice(&buf);
            cp[160..].copy_from_slice(&c.to_le_bytes());
            v.push(Case { key: key(&mut r, 9), cp: Some(cp), a: r.bytes((n % 5) as usize * (n % 2) as usize, 9), b: r.bytes(*b, 9) });
        }
    }
    special(&mut r, &mut v, if quick { 60 } else { 220 });
    for (a, b) in [(0usize, 65536usize), (7, 65537), (17, (1 << 17) + 13), (32, 70000)] {
        v.push(Case { key: key(&mut r, 9), cp: None, a: r.bytes(a, 9), b: r.bytes(b, 9) });
    }
    v
}
const INIT0: [u64; 4] = [0xdbe6d5d5fe4cce2f, 0xa4093822299f31d0, 0x13198a2e03707344, 0x243f6a8885a308d3];
const INIT1: [u64; 4] = [0x3bd39e10cb0ef593, 0xc0acf169b5f18a8c, 0xbe5466cf34e90c6c, 0x452821e638d01377];
/// lanes, halves and bytes at their extremes
fn extreme(r: &mut Rng) -> u64 {
    const E: [u64; 10] =
        [0, !0, 0xffffffff, !0 << 32, 1 << 63, 1 << 31, (1 << 63) - 1, 1, 0x8000000080000000, 0x7fffffff7fffffff];
    let k = r.next() % 16;
    match k {
        0..=9 => E[k as usize],
        10 => r.next() & !0 << 32,
        11 => r.next() >> 32,
        12 | 13 => {
            let mut b = [0u8; 8];
            for x in &mut b {
                *x = [0, 0xff, 0x80, 0x7f, 1, 0xfe][(r.next() >> 40) as usize % 6];
            }
            u64::from_le_bytes(b)
        }
        _ => r.next(),
    }
}
/// states with extreme lanes, and packets that bring the mixed lanes to their extremes
fn special(r: &mut Rng, v: &mut Vec<Case>, n: usize) {
    for i in 0..n {
        let genuine = i % 2 == 0;
        let mut key = [0u64; 4];
        let (mut v1, mut mul0) = ([0u64; 4], INIT0);
        let mut cp = Box::new([0u8; 164]);
        if genuine {
            for l in 0..4 {
                // v0 = INIT0 ^ key, v1 = INIT1 ^ key rotated by half
                let e = extreme(r);
                key[l] = if r.next() >> 63 == 0 { INIT0[l] ^ e } else { (INIT1[l] ^ e).rotate_left(32) };
                v1[l] = INIT1[l] ^ key[l].rotate_left(32);
            }
        } else {
            for l in 0..16 {
                let e = extreme(r);
                cp[8 * l..8 * l + 8].copy_from_slice(&e.to_le_bytes());
                if l / 4 == 1 {
                    v1[l % 4] = e;
                } else if l / 4 == 2 {
                    mul0[l % 4] = e;
                }
            }
        }
        let mut b: Vec<u8> = vec![];
        for l in 0..4 {
            let p = extreme(r).wrapping_sub(v1[l]).wrapping_sub(mul0[l]);
            b.extend_from_slice(&p.to_le_bytes());
        }
        if i % 3 == 0 {
            b.truncate((r.next() >> 40) as usize % 33);
        } else if i % 3 == 1 {
            let m = (r.next() >> 40) as usize % 70;
            b.extend(r.bytes(m, i as u64 % 5));
        }
        let cut = if i % 4 < 2 { 0 } else { (r.next() >> 40) as usize % (b.len() + 1) };
        let rest = b.split_off(cut);
        v.push(Case { key, cp: if genuine { None } else { Some(cp) }, a: b, b: rest });
    }
}
fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    (0..b.len() / 2)
        .map(|i| {
            let d = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
            d(b[2 * i]) * 16 + d(b[2 * i + 1])
        })
        .collect()
}
/// key=<64 hex> cp=<328 hex> a=<hex> b=<hex> blen=<n>
fn parse_case(l: &str) -> Option<Case> {
    let mut c = Case { key: [1, 2, 3, 4], cp: None, a: vec![], b: vec![] };
    for f in l.split_whitespace() {
        let (k, v) = f.split_once('=')?;
        match k {
            "key" => {
                let b = unhex(v);
                for i in 0..4 {
                    c.key[i] = u64::from_le_bytes(b.get(8 * i..8 * i + 8)?.try_into().ok()?);
                }
            }
            "cp" => {
                let b = unhex(v);
                let mut x = Box::new([0u8; 164]);
                x.copy_from_slice(b.get(..164)?);
                c.cp = Some(x);
            }
            "a" => c.a = unhex(v),
            "b" => c.b = unhex(v),
            "blen" => {
                let n: usize = v.parse().ok()?;
                let mut r = Rng(n as u64 | 1);
                while c.b.len() < n {
                    c.b.push((r.next() >> 40) as u8);
                }
            }
            _ => {}
        }
    }
    Some(c)
}

// ------------------------------------------------------------------ reporting
static mut FAILS: usize = 0;
static mut TRACE: bool = false;
static mut ONLY: Option<String> = None;
static mut DIGEST: u64 = 0;
fn mixd(v: u64) {
    unsafe { DIGEST = DIGEST.rotate_left(5) ^ v.wrapping_mul(0x9E3779B97F4A7C15) }
}
#[allow(static_mut_refs)]
fn only_skips(t: &str) -> bool {
    unsafe { ONLY.as_ref().map(|o| !o.split(',').any(|x| x == t)).unwrap_or(false) }
}
fn done() -> bool {
    unsafe { FAILS >= 3 }
}
fn fail(t: &str, what: String, c: &Case) {
    unsafe { FAILS += 1 }
    say(&format!("FAIL {}: {} || {}", t, what, c.show()));
}
fn trace<T: Hx>(c: &Case) {
    if unsafe { TRACE } {
        say(&format!("CASE {}: {}", T::NAME, c.show()));
    }
}
fn so(o: &Out) -> String {
    format!("{:016x?}", &o.0[..o.1])
}
#[derive(PartialEq, Clone)]
pub struct Obs {
    f: [Out; 3],
}
fn obs<T: Hx>(h: T) -> Obs {
    let c = h.cp();
    let _ = c;
    Obs { f: [h.clone().fin(64), h.clone().fin(128), h.fin(256)] }
}
fn eq_obs<T: Hx>(c: &Case, what: &str, got: &Obs, want: &Obs) -> bool {
    for i in 0..3 {
        if got.f[i] != want.f[i] {
            fail(T::NAME, format!("{}: {} bit result {} instead of {}", what, W[i], so(&got.f[i]), so(&want.f[i])), c);
            return false;
        }
    }
    true
}
fn spec_obs(r: &Ref) -> Obs {
    let g = |w| {
        let v = r.finalize(w);
        let mut o = [0u64; 4];
        o[..v.len()].copy_from_slice(&v);
        (o, v.len())
    };
    Obs { f: [g(64), g(128), g(256)] }
}
fn eq_cp<T: Hx>(c: &Case, what: &str, got: &[u8; 164], want: &[u8; 164]) -> bool {
    if got != want {
        let i = (0..164).find(|i| got[*i] != want[*i]).unwrap();
        fail(
            T::NAME,
            format!("{}: checkpoint byte {} is {:02x} instead of {:02x} ({} vs {})", what, i, got[i], want[i], hex(got), hex(want)),
            c,
        );
        return false;
    }
    true
}

// ------------------------------------------------------------------ properties
/// results (and checkpoints) against the specification
fn vs_spec<T: Hx>(c: &Case, cps: bool) {
    trace::<T>(c);
    let mut m = c.model();
    let mut h: T = c.start();
    m.append(&c.a);
    h.append(&c.a);
    m.append(&c.b);
    h.append(&c.b);
    if cps {
        let want: [u8; 164] = m.checkpoint().try_into().unwrap();
        eq_cp::<T>(c, "checkpoint", &h.cp(), &want);
    }
    let want = spec_obs(&m);
    eq_obs::<T>(c, "append+append+finalize", &Obs { f: [h.clone().fin(64), h.clone().fin(128), h.fin(256)] }, &want);
    let ab = c.ab();
    let o = |w| c.start::<T>().hash(w, &ab);
    eq_obs::<T>(c, "one-shot hash", &Obs { f: [o(64), o(128), o(256)] }, &want);
}
/// results (and checkpoints) against the portable hasher in this build
fn vs_portable<T: Hx>(c: &Case, cps: bool) {
    trace::<T>(c);
    let mut m: PortableHash = c.start();
    let mut h: T = c.start();
    Hx::append(&mut m, &c.a);
    h.append(&c.a);
    if cps {
        eq_cp::<T>(c, "checkpoint after the first chunk, against the portable one", &h.cp(), &m.cp());
    }
    Hx::append(&mut m, &c.b);
    h.append(&c.b);
    if cps {
        let (x, y) = (h.cp(), m.cp());
        eq_cp::<T>(c, "checkpoint, against the portable one", &x, &y);
        eq_obs::<T>(c, "restored from the portable checkpoint", &obs(T::restore(&y)), &obs(m.clone()));
        eq_obs::<PortableHash>(c, "portable restored from this checkpoint", &obs(PortableHash::restore(&x)), &obs(m.clone()));
    }
    let want = obs(m);
    eq_obs::<T>(c, "against portable", &obs(h), &want);
    let ab = c.ab();
    let o = |w| c.start::<T>().hash(w, &ab);
    let p = |w| c.start::<PortableHash>().hash(w, &ab);
    let want = Obs { f: [p(64), p(128), p(256)] };
    eq_obs::<T>(c, "one-shot hash against portable", &Obs { f: [o(64), o(128), o(256)] }, &want);
}
fn streaming<T: Hx>(c: &Case) {
    trace::<T>(c);
    let ab = c.ab();
    let mut one: T = c.start();
    one.append(&ab);
    let want = obs(one);
    let o = |w| c.start::<T>().hash(w, &ab);
    eq_obs::<T>(c, "one-shot hash against one append", &Obs { f: [o(64), o(128), o(256)] }, &want);
    let mut h: T = c.start();
    h.append(&c.a);
    h.append(&c.b);
    eq_obs::<T>(c, "two appends against one", &obs(h), &want);
    let mut h: T = c.start();
    h.append(&[]);
    h.append(&c.a);
    h.append(&[]);
    h.append(&[]);
    h.append(&c.b);
    h.append(&[]);
    eq_obs::<T>(c, "empty appends interleaved", &obs(h), &want);
    if ab.len() <= 200 {
        let mut h: T = c.start();
        for b in &ab {
            h.append(core::slice::from_ref(b));
        }
        eq_obs::<T>(c, "byte by byte", &obs(h), &want);
    }
    for step in [7usize, 31, 32, 33, 64, 100] {
        let mut h: T = c.start();
        for x in ab.chunks(step) {
            h.append(x);
        }
        eq_obs::<T>(c, &format!("chunks of {}", step), &obs(h), &want);
    }
    if T::HASHER {
        let mut h: T = c.start();
        h.hwrite(&c.a);
        h.hwrite(&c.b);
        eq_obs::<T>(c, "Hasher::write", &obs(h), &want);
        let mut h: T = c.start();
        for b in ab.iter().take(80) {
            h.wint(0, *b as u128);
        }
        h.hwrite(&ab[ab.len().min(80)..]);
        eq_obs::<T>(c, "Hasher::write_u8", &obs(h), &want);
        let mut h: T = c.start();
        for x in ab.chunks(8) {
            match <[u8; 8]>::try_from(x) {
                Ok(y) => h.wint(3, u64::from_ne_bytes(y) as u128),
                Err(_) => h.hwrite(x),
            }
        }
        eq_obs::<T>(c, "Hasher::write_u64", &obs(h), &want);
    }
    if T::IO {
        let mut h: T = c.start();
        let _ = h.io_write(&c.a);
        let _ = h.io_write(&c.b);
        let _ = h.io_flush();
        eq_obs::<T>(c, "io::Write::write", &obs(h), &want);
        let mut h: T = c.start();
        h.io_all(&c.a);
        h.io_all(&c.b);
        eq_obs::<T>(c, "io::Write::write_all", &obs(h), &want);
        let mut h: T = c.start();
        let mut parts: Vec<&[u8]> = vec![&[], &c.a, &[], &c.b];
        while !parts.is_empty() {
            let mut n = match h.io_vec(&parts) {
                Ok(n) => n,
                Err(_) => break,
            };
            let left: usize = parts.iter().map(|x| x.len()).sum();
            if n > left || (n == 0 && left > 0) {
                fail(T::NAME, format!("write_vectored reported {} of {} bytes", n, left), c);
                break;
            }
            while let Some(f) = parts.first().copied() {
                if n >= f.len() {
                    n -= f.len();
                    parts.remove(0);
                } else {
                    parts[0] = &f[n..];
                    break;
                }
            }
        }
        eq_obs::<T>(c, "io::Write::write_vectored", &obs(h), &want);
        if let (Ok(a), Ok(b)) = (core::str::from_utf8(&c.a), core::str::from_utf8(&c.b)) {
            let mut h: T = c.start();
            h.io_fmt(a);
            h.io_fmt(b);
            eq_obs::<T>(c, "io::Write::write_fmt", &obs(h), &want);
        }
    }
}
/// checkpoint of T restored into U
fn transparent2<T: Hx, U: Hx>(c: &Case) {
    trace::<T>(c);
    let mut h: T = c.start();
    h.append(&c.a);
    let cp = h.cp();
    let mut u = U::restore(&cp);
    h.append(&c.b);
    u.append(&c.b);
    let want = obs(h);
    let w = format!("checkpoint of {} after the first chunk, restored into {}", T::NAME, U::NAME);
    eq_obs::<U>(c, &w, &obs(u), &want);
    // several hops
    let mut t = T::restore(&U::restore(&T::restore(&cp).cp()).cp());
    let n = c.b.len() / 2;
    t.append(&c.b[..n]);
    let mut u = U::restore(&t.cp());
    u.append(&c.b[n..]);
    eq_obs::<U>(c, &format!("{}, several hops", w), &obs(u), &want);
}
fn transparent<T: Hx>(c: &Case) {
    // genuine checkpoints only
    let mut c = c.clone();
    c.cp = None;
    types2!(transparent2::<T>(&c));
}
fn default<T: Hx>(c: &Case) {
    trace::<T>(c);
    if !usable(T::NAME) {
        return;
    }
    let (mut d, mut n) = (T::default(), T::new([0; 4]));
    let mut p = PortableHash::new(Key::default());
    eq_obs::<T>(c, "Default against new(Key::default()), nothing appended", &obs(d.clone()), &obs(n.clone()));
    let mut o = |w| T::default().hash(w, &c.b);
    let q = |w| Hx::hash(PortableHash::new(Key([0; 4])), w, &c.b);
    eq_obs::<T>(c, "Default hash of the second chunk against portable with the zero key", &Obs { f: [o(64), o(128), o(256)] }, &Obs { f: [q(64), q(128), q(256)] });
    for x in [&c.a, &c.b] {
        d.append(x);
        n.append(x);
        Hx::append(&mut p, x);
    }
    eq_cp::<T>(c, "Default against new(Key::default())", &d.cp(), &n.cp());
    eq_obs::<T>(c, "Default against new(Key::default())", &obs(d.clone()), &obs(n));
    eq_obs::<T>(c, "Default against portable with the zero key", &obs(d.clone()), &obs(p));
    if Key::default().0 != [0; 4] {
        fail(T::NAME, "Key::default() is not zero".into(), c);
    }
    let mut b = HighwayBuildHasher::default().build_hasher();
    Hx::append(&mut b, &c.a);
    Hx::append(&mut b, &c.b);
    eq_obs::<HighwayHasher>(c, "HighwayBuildHasher::default()", &obs(b), &obs(d.clone()));
    if T::HASHER {
        let z = d.finish();
        if z != d.clone().fin(64).0[0] {
            fail(T::NAME, "finish differs from finalize64".into(), c);
        }
    }
}
fn every_op<T: Hx>(c: &Case) {
    trace::<T>(c);
    let r = catch(|| {
        let mut h: T = c.start();
        let cp = h.cp();
        h.append(&c.a);
        let _ = h.cp();
        let mut k = h.clone();
        k.append(&c.b);
        h.clone_from(&k);
        let _ = format!("{:?} {:#?}", h, k);
        let _ = obs(k.clone());
        let _ = obs(T::restore(&cp));
        let _ = obs(T::restore(&k.cp()));
        for w in W {
            let _ = k.clone().hash(w, &c.a);
        }
        if T::HASHER {
            let _ = k.finish();
            k.hwrite(&c.b);
            for i in 0..12 {
                k.wint(i, 0xfedcba9876543210fedcba9876543210);
                k.wint(i, u128::MAX);
            }
            let _ = k.finish();
        }
        if T::IO {
            let _ = k.io_write(&c.b);
            let _ = k.io_all(&c.a);
            let _ = k.io_vec(&[&c.a, &c.b]);
            let _ = k.io_fmt("x");
            let _ = k.io_flush();
        }
        let _ = obs(k);
        let b = HighwayBuildHasher::new(Key(c.key));
        let mut x = b.build_hasher();
        Hx::append(&mut x, &c.a);
        let _ = format!("{:?}", b);
        let _ = b.hash_one(&c.b);
        let _ = HighwayBuildHasher::default().hash_one(&c.b);
        let _ = T::default();
    });
    if let Err(e) = r {
        fail(T::NAME, format!("panicked: {}", e), c);
    }
}

#[cfg(all(host, unix))]
mod guard {
    extern "C" {
        fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: isize) -> *mut u8;
        fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    }
    pub const P: usize = 16384;
    /// `n` pages between two inaccessible ones
    pub fn pages(n: usize) -> *mut u8 {
        unsafe {
            let a = mmap(core::ptr::null_mut(), (n + 2) * P, 3, 0x22, -1, 0);
            mprotect(a, P, 0);
            mprotect(a.add((n + 1) * P), P, 0);
            a.add(P)
        }
    }
}
#[cfg(all(host, unix))]
fn memory<T: Hx>(c: &Case) {
    use guard::P;
    trace::<T>(c);
    if c.a.len() > 4096 || c.b.len() > 8192 {
        // no more stack than for a short one
        let mut h: T = c.start();
        h.append(&c.a);
        h.append(&c.b);
        let want = obs(h);
        let d = c.ab();
        let f = |w| c.start::<T>().hash(w, &d);
        eq_obs::<T>(c, "one chunk", &Obs { f: [f(64), f(128), f(256)] }, &want);
        return;
    }
    static ONCE: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let m = *ONCE.get_or_init(|| guard::pages(8) as usize) as *mut u8;
    let mut h: T = c.start();
    h.append(&c.a);
    h.append(&c.b);
    let want = obs(h);
    let base = unsafe { core::slice::from_raw_parts_mut(m, 8 * P) };
    let (sz, al) = (core::mem::size_of::<T>(), core::mem::align_of::<T>());
    for fill in [0u8, 0xff, 0x5a] {
        for mode in 0..8usize {
            for b in base.iter_mut() {
                *b = fill;
            }
            // hasher at the very end or start of its own pages, data abutting the inaccessible ones
            let ho = match mode % 4 {
                0 => (4 * P - sz) / al * al,
                1 => 4 * P,
                2 => 5 * P + al,
                _ => 5 * P + 3 * al,
            };
            let ao = if mode % 2 == 0 { 0 } else { 1 + mode };
            let bo = if mode < 4 { 8 * P - c.b.len() } else { 7 * P + 17 * mode - c.b.len().min(P) };
            unsafe {
                core::ptr::copy_nonoverlapping(c.a.as_ptr(), m.add(ao), c.a.len());
                core::ptr::copy_nonoverlapping(c.b.as_ptr(), m.add(bo), c.b.len());
                let hp = m.add(ho) as *mut T;
                hp.write(c.start());
                (*hp).append(core::slice::from_raw_parts(m.add(ao), c.a.len()));
                (*hp).append(core::slice::from_raw_parts(m.add(bo), c.b.len()));
                let got = obs((*hp).clone());
                eq_obs::<T>(c, &format!("data moved (placement {}, surroundings {:02x})", mode, fill), &got, &want);
                // one chunk ending at the inaccessible page
                let ab = c.ab();
                if ab.len() <= P {
                    let o = 8 * P - ab.len();
                    core::ptr::copy_nonoverlapping(ab.as_ptr(), m.add(o), ab.len());
                    let d = core::slice::from_raw_parts(m.add(o), ab.len());
                    let f = |w| c.start::<T>().hash(w, d);
                    eq_obs::<T>(c, "one chunk at the end of mapped memory", &Obs { f: [f(64), f(128), f(256)] }, &want);
                }
            }
            if mode > 0 && fill != 0 && c.b.len() > 300 {
                break;
            }
        }
    }
    if T::IO || T::HASHER {
        let mut h: T = c.start();
        h.hwrite(&c.a);
        h.hwrite(&c.b);
        if T::HASHER {
            eq_obs::<T>(c, "Hasher::write", &obs(h), &want);
        }
    }
}
#[cfg(not(all(host, unix)))]
fn memory<T: Hx>(c: &Case) {
    trace::<T>(c);
    let mut h: T = c.start();
    h.append(&c.a);
    h.append(&c.b);
    let want = obs(h);
    for fill in [0u8, 0xff] {
        for off in 0..40usize {
            let mut buf = vec![fill; c.a.len() + c.b.len() + 200];
            buf[off..off + c.a.len()].copy_from_slice(&c.a);
            let o2 = off + c.a.len() + 64;
            buf[o2..o2 + c.b.len()].copy_from_slice(&c.b);
            let mut h: T = c.start();
            h.append(&buf[off..off + c.a.len()]);
            h.append(&buf[o2..o2 + c.b.len()]);
            eq_obs::<T>(c, &format!("data moved by {} bytes", off), &obs(h), &want);
        }
    }
}

fn backend(h: &HighwayHasher) -> Option<&'static str> {
    let s = format!("{:?}", h);
    let v: Vec<&'static str> =
        ["PortableHash", "SseHash", "AvxHash", "NeonHash", "WasmHash"].into_iter().filter(|x| s.contains(x)).collect();
    if v.len() == 1 {
        Some(v[0])
    } else {
        None
    }
}
fn selection(c: &Case) {
    trace::<HighwayHasher>(c);
    let n: HighwayHasher = HighwayHasher::new(Key(c.key));
    let mut p = PortableHash::new(Key(c.key));
    let nb = backend(&n);
    let mut n2 = n.clone();
    Hx::append(&mut n2, &c.a);
    Hx::append(&mut p, &c.a);
    let cp = p.cp();
    let mut from: HighwayHasher = HighwayHasher::default();
    from.clone_from(&n2);
    let ways: Vec<(&str, HighwayHasher, Option<PortableHash>)> = vec![
        ("new", { let mut x = n.clone(); Hx::append(&mut x, &c.a); x }, Some(p.clone())),
        ("clone", n2.clone(), Some(p.clone())),
        ("clone_from", from, Some(p.clone())),
        ("from_checkpoint", HighwayHasher::from_checkpoint(cp), Some(p.clone())),
        ("from_checkpoint(arbitrary)", c.start(), Some(c.start())),
        ("default", HighwayHasher::default(), Some(PortableHash::new(Key([0; 4])))),
        ("build_hasher", HighwayBuildHasher::new(Key(c.key)).build_hasher(), Some(PortableHash::new(Key(c.key)))),
        ("default build_hasher", HighwayBuildHasher::default().build_hasher(), Some(PortableHash::new(Key([0; 4])))),
    ];
    for (w, mut h, p) in ways {
        let b = backend(&h);
        if let Some(b) = b {
            if !enabled(b) {
                fail("HighwayHasher", format!("{} selected {} although its CPU feature is neither enabled nor detected", w, b), c);
            }
        }
        if b != nb {
            fail("HighwayHasher", format!("{} selected {:?} but new selected {:?}", w, b, nb), c);
        }
        if let Some(mut p) = p {
            Hx::append(&mut h, &c.b);
            Hx::append(&mut p, &c.b);
            eq_obs::<HighwayHasher>(c, &format!("obtained by {}", w), &obs(h), &obs(p));
        }
    }
    #[cfg(target_arch = "x86_64")]
    {
        let cp0: [u8; 164] = match &c.cp {
            Some(x) => **x,
            None => cp,
        };
        macro_rules! opt {
            ($t:ty, $n:literal) => {
                for (w, o) in [("new", <$t>::new(Key(c.key))), ("from_checkpoint", <$t>::from_checkpoint(cp0))] {
                    match o {
                        Some(mut h) => {
                            if !enabled($n) {
                                fail($n, format!("{} returned a hasher although the CPU feature is not detected", w), c);
                            } else if usable($n) {
                                let mut p: PortableHash = if w == "new" { PortableHash::new(Key(c.key)) } else { PortableHash::from_checkpoint(cp0) };
                                Hx::append(&mut h, &c.b);
                                Hx::append(&mut p, &c.b);
                                eq_obs::<$t>(c, &format!("obtained by {}", w), &obs(h), &obs(p));
                            }
                        }
                        None => {}
                    }
                }
            };
        }
        opt!(highway::SseHash, "SseHash");
        opt!(highway::AvxHash, "AvxHash");
    }
}
fn restored<T: Hx>(c: &Case) {
    trace::<T>(c);
    let mut c = c.clone();
    if c.cp.is_none() {
        // turn it into a restore of a genuine checkpoint
        let mut p = PortableHash::new(Key(c.key));
        Hx::append(&mut p, &c.a);
        c.cp = Some(Box::new(p.cp()));
        c.a = vec![];
    }
    let c = &c;
    let r = catch(|| {
        let h: T = c.start();
        let p: PortableHash = c.start();
        eq_obs::<T>(c, "restored, against portable", &obs(h.clone()), &obs(p.clone()));
        eq_cp::<T>(c, "restored then checkpointed, against portable", &h.cp(), &p.cp());
        let mut e = h.clone();
        e.append(&[]);
        eq_obs::<T>(c, "empty append after restore", &obs(e.clone()), &obs(h.clone()));
        eq_cp::<T>(c, "empty append after restore", &e.cp(), &h.cp());
        let again = T::restore(&h.cp());
        eq_obs::<T>(c, "its own checkpoint restored", &obs(again.clone()), &obs(h.clone()));
        let (mut x, mut y, mut z, mut q) = (h.clone(), h.clone(), again, p);
        let ab = c.ab();
        x.append(&ab);
        for b in ab.chunks(5) {
            y.append(b);
        }
        z.append(&ab);
        Hx::append(&mut q, &ab);
        let want = obs(x.clone());
        eq_obs::<T>(c, "restored, chunks of 5 against one append", &obs(y.clone()), &want);
        eq_obs::<T>(c, "its own checkpoint restored and continued", &obs(z), &want);
        eq_obs::<T>(c, "restored and continued, against portable", &want, &obs(q.clone()));
        eq_cp::<T>(c, "restored and continued, chunks of 5 against one append", &y.cp(), &x.cp());
        eq_cp::<T>(c, "restored and continued, against portable", &x.cp(), &q.cp());
        if T::HASHER {
            let w = h.clone().fin(64).0[0];
            if h.finish() != w {
                fail(T::NAME, format!("finish of a restored hasher is {:x}, finalize64 {:x}", h.finish(), w), c);
            }
        }
    });
    if let Err(e) = r {
        fail(T::NAME, format!("panicked: {}", e), c);
    }
}
/// The same builder and hasher at every place in a page (and a half).
fn placed<T: Hx>(c: &Case) {
    let mut v = vec![0u8; 6 * 4096];
    let base = v.as_mut_ptr() as usize;
    let page = (base + 4095) / 4096 * 4096;
    let want = obs({
        let mut h = HighwayBuildHasher::new(Key(c.key)).build_hasher();
        Hx::append(&mut h, &c.b);
        h
    });
    let sum = {
        let mut m: T = c.start();
        m.append(&c.b);
        m.fin(64).0[0]
    };
    for i in 0..192 {
        let at = page + 4096 + 32 * i - 1024;
        let p = at as *mut HighwayBuildHasher;
        unsafe { p.write(HighwayBuildHasher::new(Key(c.key))) };
        let mut h = unsafe { &*p }.build_hasher();
        Hx::append(&mut h, &c.b);
        if !eq_obs::<HighwayHasher>(c, &format!("hasher of a builder that lies at {} modulo 4096", at % 4096), &obs(h), &want) {
            return;
        }
        if T::HASHER {
            let q = at as *mut T;
            unsafe {
                q.write(c.start());
                (*q).hwrite(&c.b);
                if (*q).finish() != sum {
                    return fail(T::NAME, format!("Hasher::write and finish of a hasher that lies at {} modulo 4096", at % 4096), c);
                }
            }
        }
    }
}
fn adapters<T: Hx>(c: &Case) {
    trace::<T>(c);
    static mut NTH: u32 = 0;
    unsafe {
        NTH += 1;
        if NTH % 64 < 8 && NTH < 2000 {
            placed::<T>(c);
        }
    }
    let b = HighwayBuildHasher::new(Key(c.key));
    let b2 = HighwayBuildHasher::new(Key(c.key));
    let (mut x, mut y, mut z) = (b.build_hasher(), HighwayHasher::new(Key(c.key)), b.build_hasher());
    mixd(b.hash_one(&c.b));
    if b.hash_one(&c.b) != b2.hash_one(&c.b) {
        fail("HighwayBuildHasher", "hash_one differs between two builders with one key".into(), c);
    }
    eq_obs::<HighwayHasher>(c, "build_hasher against new", &obs(x.clone()), &obs(y.clone()));
    for d in [&c.a, &c.b] {
        Hx::append(&mut x, d);
        Hx::append(&mut y, d);
    }
    eq_obs::<HighwayHasher>(c, "build_hasher against new", &obs(x.clone()), &obs(y.clone()));
    let mut q = HighwayHasher::new(Key(c.key));
    c.b.hash(&mut z);
    c.b.hash(&mut q);
    eq_obs::<HighwayHasher>(c, "second hasher of one builder", &obs(z), &obs(q.clone()));
    if b.hash_one(&c.b) != Hx::fin(q, 64).0[0] {
        fail("HighwayBuildHasher", "hash_one differs from hashing with new".into(), c);
    }
    if !T::HASHER {
        return;
    }
    let (mut h, mut m): (T, T) = (c.start(), c.start());
    let mut step = |h: &T, m: &T, w: &str| {
        let want = m.clone().fin(64).0[0];
        for _ in 0..2 {
            let g = h.finish();
            if g != want {
                fail(T::NAME, format!("{}: finish is {:x} instead of {:x}", w, g, want), c);
            }
        }
        eq_obs::<T>(c, w, &obs(h.clone()), &obs(m.clone()));
    };
    step(&h, &m, "at the start");
    h.hwrite(&c.a);
    m.append(&c.a);
    step(&h, &m, "after Hasher::write");
    h.hwrite(&c.b);
    m.append(&c.b);
    step(&h, &m, "after the second Hasher::write");
    for i in 0..12 {
        for v in [0x0123456789abcdeffedcba9876543210u128, u128::MAX, 0x80, 0] {
            h.wint(i, v);
            m.append(&int_bytes(i, v));
            step(&h, &m, &format!("after Hasher::write_{}({:x})", INTS[i], v));
            if done() {
                return;
            }
        }
    }
    if T::IO {
        for d in [&c.a, &c.b] {
            match h.io_write(d) {
                Ok(n) if n == d.len() => {}
                r => fail(T::NAME, format!("io::Write::write of {} bytes returned {:?}", d.len(), r), c),
            }
            m.append(d);
            step(&h, &m, "after io::Write::write");
            if !h.io_flush() {
                fail(T::NAME, "flush failed".into(), c);
            }
            step(&h, &m, "after flush");
            if !h.io_all(d) {
                fail(T::NAME, "write_all failed".into(), c);
            }
            m.append(d);
            step(&h, &m, "after io::Write::write_all");
        }
        match h.io_vec(&[&c.a, &c.b]) {
            Ok(n) if n <= c.a.len() + c.b.len() => {
                m.append(&c.ab()[..n]);
                step(&h, &m, "after io::Write::write_vectored");
            }
            r => fail(T::NAME, format!("io::Write::write_vectored returned {:?}", r), c),
        }
        if !h.io_fmt("formatted text of some length, to be hashed") {
            fail(T::NAME, "write_fmt failed".into(), c);
        }
        m.append(b"formatted text of some length, to be hashed");
        step(&h, &m, "after io::Write::write_fmt");
    }
}
fn observers<T: Hx>(c: &Case) {
    trace::<T>(c);
    let look = |h: &T| {
        let _ = h.cp();
        let _ = h.finish();
        let _ = h.clone();
        let _ = format!("{:?} {:#?}", h, h);
        let mut k = h.clone();
        k.append(b"something else entirely, longer than one packet");
        let _ = k.clone().fin(256);
        let _ = k.fin(64);
        let _ = h.cp();
    };
    let mut plain: T = c.start();
    let mut seen: T = c.start();
    look(&seen);
    plain.append(&c.a);
    seen.append(&c.a);
    look(&seen);
    let k = seen.clone();
    let k2 = {
        let mut z = T::new([9, 8, 7, 6]);
        z.append(&c.b);
        z.clone_from(&seen);
        z
    };
    eq_obs::<T>(c, "clone", &obs(k.clone()), &obs(plain.clone()));
    eq_obs::<T>(c, "clone_from", &obs(k2.clone()), &obs(plain.clone()));
    eq_cp::<T>(c, "clone", &k.cp(), &seen.cp());
    plain.append(&c.b);
    seen.append(&c.b);
    look(&seen);
    let want = obs(plain);
    let mut k3 = k.clone();
    k3.append(b"zzz");
    drop(k3);
    let (mut k, mut k2) = (k, k2);
    k.append(&c.b);
    eq_obs::<T>(c, "observed hasher against an unobserved one", &obs(seen.clone()), &want);
    eq_obs::<T>(c, "clone continued after the original", &obs(k), &want);
    seen.append(b"more");
    k2.append(&c.b);
    eq_obs::<T>(c, "clone_from continued after the original", &obs(k2), &want);
    if T::HASHER {
        let mut a: T = c.start();
        let mut b: T = c.start();
        for x in c.ab().chunks(9) {
            a.hwrite(x);
            b.hwrite(x);
            let _ = b.finish();
            look(&b);
        }
        eq_obs::<T>(c, "finish between writes", &obs(b), &obs(a));
    }
}
fn canonical2<T: Hx, U: Hx>(c: &Case) {
    let (mut t, mut u): (T, U) = (c.start(), c.start());
    t.append(&c.a);
    t.append(&c.b);
    u.append(&c.ab());
    eq_cp::<T>(c, &format!("two chunks, against {} fed the same stream at once", U::NAME), &t.cp(), &u.cp());
}
fn canonical<T: Hx>(c: &Case) {
    let mut c = c.clone();
    c.cp = None;
    let c = &c;
    trace::<T>(c);
    let ab = c.ab();
    let mut one: T = c.start();
    one.append(&ab);
    let want = one.cp();
    for step in [1usize, 5, 31, 32, 33, 48, 64] {
        if step == 1 && ab.len() > 300 {
            continue;
        }
        let mut h: T = c.start();
        for x in ab.chunks(step) {
            h.append(x);
        }
        eq_cp::<T>(c, &format!("chunks of {} against one append", step), &h.cp(), &want);
    }
    let mut h: T = c.start();
    h.append(&c.a);
    h.append(&c.b);
    eq_cp::<T>(c, "two chunks against one", &h.cp(), &want);
    let h = T::restore(&want);
    eq_cp::<T>(c, "restored and checkpointed again", &h.cp(), &want);
    // a checkpoint in the middle
    let mut h: T = c.start();
    h.append(&c.a);
    let mut h = T::restore(&h.cp());
    h.append(&c.b);
    eq_cp::<T>(c, "restored in the middle", &h.cp(), &want);
    // absorbed bytes must not be visible
    let n = ab.len() / 32 * 32;
    let mut other: T = c.start();
    let mut x = ab.clone();
    for b in &mut x[..n] {
        *b ^= 0xa5;
    }
    other.append(&x);
    let o = other.cp();
    let k = ab.len() - n;
    if o[128 + k..160] != want[128 + k..160] {
        fail(T::NAME, format!("bytes {}..160 of the checkpoint depend on absorbed input: {} and {}", 128 + k, hex(&o[128..]), hex(&want[128..])), c);
    }
    types2!(canonical2::<T>(c));
}
fn isolation<T: Hx>(cs: &[Case]) {
    let c0 = &cs[0];
    trace::<T>(c0);
    let run = |c: &Case| -> (Obs, [u8; 164]) {
        let mut h: T = c.start();
        h.append(&c.a);
        h.append(&c.b);
        let p = h.cp();
        (obs(h), p)
    };
    let base: Vec<(Obs, [u8; 164])> = cs.iter().map(|c| run(c)).collect();
    // again, after everything else has run
    for (c, b) in cs.iter().zip(&base) {
        let r = run(c);
        eq_obs::<T>(c, "repeated after other hashers were used", &r.0, &b.0);
        eq_cp::<T>(c, "repeated after other hashers were used", &r.1, &b.1);
    }
    // one hasher after another in the same place
    let mut slot: T;
    for (j, c) in cs.iter().enumerate().take(60) {
        for n in [0usize, 1, 7, 40] {
            let cs: Vec<Case> = (0..3u64)
                .map(|k| Case { key: [k ^ j as u64, 2, 3, 4 + k], cp: None, a: vec![], b: c.b[..n.min(c.b.len())].to_vec() })
                .collect();
            // each first in a place no hasher has been in
            let fresh: Vec<(u64, Obs, [u8; 164])> = cs
                .iter()
                .map(|c| {
                    let h: &'static mut T = Box::leak(Box::new(T::new(c.key)));
                    h.append(&c.b);
                    (if T::HASHER { h.finish() } else { 0 }, obs(h.clone()), h.cp())
                })
                .collect();
            for (c, w) in cs.iter().zip(&fresh) {
                slot = T::new(c.key);
                slot.append(&c.b);
                if T::HASHER && slot.finish() != w.0 {
                    fail(T::NAME, "finish depends on which hashers were in the same place before".into(), c);
                }
            }
            for (c, w) in cs.iter().zip(&fresh) {
                slot = T::new(c.key);
                slot.append(&c.b);
                eq_cp::<T>(c, "where other hashers were in the same place before", &slot.cp(), &w.2);
                eq_obs::<T>(c, "where other hashers were in the same place before", &obs(slot.clone()), &w.1);
                if done() {
                    return;
                }
            }
        }
    }
    // interleaved
    let mut hs: Vec<T> = cs.iter().map(|c| c.start()).collect();
    for (h, c) in hs.iter_mut().zip(cs) {
        h.append(&c.a);
        let d = T::default();
        drop(d);
    }
    for (h, c) in hs.iter_mut().zip(cs).rev() {
        let n = c.b.len() / 2;
        h.append(&c.b[..n]);
        let mut e: T = T::new([5, 6, 7, 8]);
        e.append(b"interloper");
        let _ = e.cp();
        let _ = e.fin(128);
    }
    for (h, c) in hs.iter_mut().zip(cs) {
        let n = c.b.len() / 2;
        h.append(&c.b[n..]);
    }
    for ((h, c), b) in hs.iter().zip(cs).zip(&base) {
        eq_cp::<T>(c, "interleaved with other hashers", &h.cp(), &b.1);
        eq_obs::<T>(c, "interleaved with other hashers", &obs(h.clone()), &b.0);
        if done() {
            return;
        }
    }
    #[cfg(all(host, not(target_family = "wasm")))]
    {
        let bld = std::sync::Arc::new(HighwayBuildHasher::new(Key([3, 1, 4, 1])));
        let wantb = { let mut h = HighwayHasher::new(Key([3, 1, 4, 1])); Hx::append(&mut h, b"shared builder"); obs(h) };
        std::thread::scope(|s| {
            for t in 0..6usize {
                let (base, bld, wantb, run) = (&base, bld.clone(), &wantb, &run);
                s.spawn(move || {
                    for r in 0..3 {
                        for i in 0..cs.len() {
                            let i = (i * 7 + t * 31 + r) % cs.len();
                            let x = run(&cs[i]);
                            if x.0 != base[i].0 || x.1 != base[i].1 {
                                fail(T::NAME, "concurrent use of other hashers changes the result".into(), &cs[i]);
                                return;
                            }
                            let mut h = bld.build_hasher();
                            Hx::append(&mut h, b"shared ");
                            Hx::append(&mut h, b"builder");
                            if obs(h) != *wantb {
                                fail("HighwayBuildHasher", "hasher of a shared builder differs".into(), &cs[i]);
                                return;
                            }
                        }
                    }
                });
            }
        });
        // long messages, every thread its own, all at once
        if cfg!(small) || done() {
            return;
        }
        std::thread::scope(|s| {
            for t in 0..8u64 {
                let run = &run;
                s.spawn(move || {
                    let mut r = Rng(0x1234567 ^ t.wrapping_mul(0x9e3779b97f4a7c15));
                    let mine: Vec<Case> = [(0usize, 16usize), (3, 64), (0, 1000), (32, 2048), (0, 65536), (5, 65536)]
                        .iter()
                        .map(|(a, b)| Case { key: [t, 2, 3, 4], cp: None, a: r.bytes(*a, 9), b: r.bytes(*b, 9) })
                        .collect();
                    let mut first: Vec<Option<(Obs, [u8; 164])>> = mine.iter().map(|_| None).collect();
                    let t0 = std::time::Instant::now();
                    while t0.elapsed().as_millis() < 2500 {
                        for (c, f) in mine.iter().zip(&mut first) {
                            let x = run(c);
                            match f {
                                None => *f = Some(x),
                                Some(f) => {
                                    if x.0 != f.0 || x.1 != f.1 {
                                        fail(T::NAME, "the same input gives two results while other threads hash other inputs".into(), c);
                                        return;
                                    }
                                }
                            }
                        }
                    }
                });
            }
        });
    }
}
/// Lengths around 2^31 and 2^32: almost all zeros, so that the memory is not really there.
#[cfg(all(host, target_pointer_width = "64"))]
fn huge(prop: &str) {
    let n = (1usize << 32) + 37;
    let key = [1u64, 2, 3, 4];
    let mut v = vec![0u8; n];
    v[n - 1] = 1;
    v[n - 36] = 2;
    // the portable hasher, fed in small pieces (those are compared with the specification elsewhere)
    let want_at = |cuts: &[usize]| -> Vec<Obs> {
        let mut p = PortableHash::new(Key(key));
        let mut at = 0;
        let mut out = vec![];
        for c in cuts {
            while at < *c {
                let e = (at + 65536).min(*c);
                Hx::append(&mut p, &v[at..e]);
                at = e;
            }
            out.push(obs(p.clone()));
        }
        out
    };
    let cut = (1usize << 31) + 5;
    let mut want = want_at(&[cut, n]);
    // 5 bytes, 3 GiB twice, then all of the above
    let big = 3usize << 30;
    want.push({
        let mut p = PortableHash::new(Key(key));
        let (mut left, z) = (5 + 2 * big + n - 36, [0u8; 65536]);
        while left > 0 {
            let e = left.min(z.len());
            Hx::append(&mut p, &z[..e]);
            left -= e;
        }
        Hx::append(&mut p, &v[n - 36..]);
        obs(p)
    });
    #[inline(never)]
    fn one<T: Hx>(v: &[u8], key: [u64; 4], cut: usize, want: &[Obs]) {
        let say2 = |what: &str| {
            unsafe { FAILS += 1 }
            say(&format!(
                "FAIL {}: {} || key {:016x?}; {} bytes, all zero but the last, 01, and the one 36 bytes from the end, 02",
                T::NAME, what, key, v.len()
            ));
        };
        let mut h = T::new(key);
        h.append(v);
        if obs(h) != want[1] {
            return say2("one append gives the wrong result");
        }
        if cfg!(small) {
            return;
        }
        let mut h = T::new(key);
        h.append(&v[..cut]);
        if obs(h.clone()) != want[0] {
            return say2(&format!("one append of the first {} bytes gives the wrong result", cut));
        }
        h.append(&v[cut..]);
        if obs(h) != want[1] {
            return say2(&format!("two appends (the first of {} bytes) give the wrong result", cut));
        }
        let r = catch(|| {
            let mut h = T::new(key);
            h.append(&v[..5]);
            h.append(&v[..3 << 30]);
            h.append(&v[..3 << 30]);
            h.append(v);
            obs(h)
        });
        match r {
            Ok(o) if o == want[2] => {}
            Ok(_) => return say2("appending 5 bytes, 3 GiB, 3 GiB, then all gives the wrong result"),
            Err(e) => return say2(&format!("appending 5 bytes, 3 GiB, 3 GiB, then all panics: {}", e)),
        }
        if (Obs { f: [T::new(key).hash(64, v), T::new(key).hash(128, v), T::new(key).hash(256, v)] }) != want[1] {
            return say2("the one-shot hash is wrong");
        }
        if T::HASHER {
            let mut h = T::new(key);
            h.hwrite(v);
            if obs(h) != want[1] {
                return say2("Hasher::write of all bytes gives the wrong result");
            }
        }
        if T::IO {
            let mut h = T::new(key);
            if h.io_write(v) != Ok(v.len()) {
                return say2("io::Write::write does not report the whole length");
            }
            if obs(h) != want[1] {
                return say2("io::Write::write of all bytes gives the wrong result");
            }
            let mut h = T::new(key);
            h.io_all(v);
            if obs(h) != want[1] {
                return say2("io::Write::write_all of all bytes gives the wrong result");
            }
        }
    }
    #[cfg(target_arch = "aarch64")]
    if prop == "C03" {
        return one::<highway::NeonHash>(&v, key, cut, &want);
    }
    if prop == "C01" || prop == "C17" {
        one::<PortableHash>(&v, key, cut, &want);
    } else {
        types!(one(&v, key, cut, &want));
    }
}
/// what every case gives on its own, for comparison with a run in another order
fn value<T: Hx>(i: usize, c: &Case) {
    let mut h: T = c.start();
    h.append(&c.a);
    h.append(&c.b);
    let p = h.cp();
    let mut d = 0xcbf29ce484222325u64;
    let mut mix = |x: u64| d = (d ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
    for o in &obs(h).f {
        o.0[..o.1].iter().for_each(|x| mix(*x));
    }
    p.iter().for_each(|x| mix(*x as u64));
    if T::HASHER {
        mix(T::restore(&p).finish());
    }
    say(&format!("V {} {} {:016x}", i, T::NAME, d));
    if T::NAME == "HighwayHasher" && c.cp.is_none() {
        let b = HighwayBuildHasher::new(Key(c.key));
        for n in 0..2 {
            let mut h = b.build_hasher();
            Hx::append(&mut h, &c.b);
            let mut d = 0u64;
            for o in &obs(h).f {
                o.0[..o.1].iter().for_each(|x| d = (d ^ x).wrapping_mul(0x100000001b3).rotate_left(23));
            }
            say(&format!("V {} build_hasher/{} {:016x}", i, n, d));
        }
    }
}
/// a random case; most are short
#[cfg(host)]
fn random_case(r: &mut Rng) -> Case {
    let n = |r: &mut Rng, m: u64| ((r.next() >> 20) % m) as usize;
    let cp = if r.next() >> 63 == 0 {
        None
    } else {
        let mut cp = Box::new([0u8; 164]);
        let ext = r.next() >> 62 == 0;
        for l in 0..20 {
            let x = if ext && l < 16 { extreme(r) } else { r.next() };
            cp[8 * l..8 * l + 8].copy_from_slice(&x.to_le_bytes());
        }
        let c = if r.next() >> 60 == 0 { r.next() as u32 } else { n(r, 33) as u32 };
        cp[160..].copy_from_slice(&c.to_le_bytes());
        Some(cp)
    };
    let (la, lb) = (n(r, 40), if r.next() >> 60 == 0 { n(r, 600) } else { n(r, 70) });
    Case { key: [r.next(), r.next(), r.next(), r.next()], cp, a: r.bytes(la, 9), b: r.bytes(lb, 9) }
}
/// many short runs; only what a property is about is compared, and only the failing one is shown
#[cfg(host)]
fn hunt<T: Hx>(prop: &str, seed: u64, ms: u128) {
    let t0 = std::time::Instant::now();
    let mut r = Rng(seed | 1);
    while t0.elapsed().as_millis() < ms && !done() {
        let s0 = r.0;
        let batch = |r: &mut Rng, show: bool| -> bool {
            for _ in 0..64 {
                let c0 = r.0;
                let mut cp = [0u8; 164];
                for l in 0..20 {
                    cp[8 * l..8 * l + 8].copy_from_slice(&r.next().to_le_bytes());
                }
                cp[160] = (r.next() >> 40) as u8 & 31;
                let d = [r.next(), r.next(), r.next(), r.next(), r.next()];
                let mut b = [0u8; 40];
                for (i, w) in d.iter().enumerate() {
                    b[8 * i..8 * i + 8].copy_from_slice(&w.to_le_bytes());
                }
                let b = &b[..(d[0] >> 58) as usize % 41];
                let go = || {
                    let mut h = T::restore(&cp);
                    h.append(b);
                    let o = obs(h);
                    if prop == "C08" {
                        return true;
                    }
                    let mut p = PortableHash::restore(&cp);
                    Hx::append(&mut p, b);
                    o == obs(p)
                };
                let _ = c0;
                let ok = if show { catch(go).unwrap_or(false) } else { go() };
                if !ok {
                    if show {
                        let c = Case { key: [0; 4], cp: Some(Box::new(cp)), a: vec![], b: b.to_vec() };
                        fail(T::NAME, if prop == "C08" { "an operation panics".into() } else { "results differ from portable".into() }, &c);
                    }
                    return false;
                }
            }
            true
        };
        if !catch(|| batch(&mut r, false)).unwrap_or(false) {
            batch(&mut Rng(s0), true);
            return;
        }
    }
}
struct Sink([u8; 4096], usize);
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.as_bytes() {
            let n = self.0.len();
            self.0[self.1 % n] = *b;
            self.1 += 1;
        }
        Ok(())
    }
}
fn allocation<T: Hx>(c: &Case) {
    trace::<T>(c);
    let mut sink = Sink([0; 4096], 0);
    let parts: [&[u8]; 2] = [&c.a, &c.b];
    macro_rules! free {
        ($w:expr, $e:expr) => {{
            let n = allocs();
            let r = $e;
            let k = allocs() - n;
            if k != 0 {
                fail(T::NAME, format!("{} made {} heap allocations", $w, k), c);
                return;
            }
            r
        }};
    }
    let mut h: T = free!("construction", T::new(c.key));
    if let Some(p) = &c.cp {
        h = free!("restore", T::restore(p));
    }
    free!("append", h.append(&c.a));
    free!("append", h.append(&c.b));
    let cp = free!("checkpoint", h.cp());
    let mut k = free!("restore", T::restore(&cp));
    let mut x = free!("clone", k.clone());
    free!("clone_from", x.clone_from(&h));
    free!("Debug", {
        use core::fmt::Write;
        let _ = write!(sink, "{:?}", h);
        let _ = write!(sink, "{:#?}", h);
    });
    free!("default", T::default());
    if T::HASHER {
        free!("Hasher::write", k.hwrite(&c.b));
        free!("Hasher::finish", k.finish());
        for i in 0..12 {
            free!("Hasher::write_int", k.wint(i, 77));
        }
    }
    if T::IO {
        free!("io::Write::write", k.io_write(&c.a)).ok();
        free!("io::Write::write_all", k.io_all(&c.b));
        free!("io::Write::write_vectored", k.io_vec(&parts)).ok();
        free!("io::Write::write_fmt", k.io_fmt("text"));
        free!("io::Write::flush", k.io_flush());
    }
    for o in 1..c.b.len().min(9) {
        let mut y: T = T::new(c.key);
        free!("append at another address", y.append(&c.b[o..]));
        if T::HASHER {
            free!("Hasher::write at another address", y.hwrite(&c.b[o..]));
        }
        free!("hash at another address", y.hash(128, &c.b[o..]));
    }
    for w in W {
        let y = h.clone();
        free!("finalize", y.fin(w));
        let y = h.clone();
        free!("hash", y.hash(w, &c.b));
    }
    let b = free!("HighwayBuildHasher::new", HighwayBuildHasher::new(Key(c.key)));
    free!("build_hasher", b.build_hasher());
    free!("hash_one", b.hash_one(42u64));
    free!("HighwayBuildHasher::default", HighwayBuildHasher::default());
    free!("drop", drop(h));
}

#[allow(static_mut_refs)]
fn run(text: &str) -> i32 {
    let mut prop = String::new();
    let mut cases = vec![];
    let mut seed = 1u64;
    let mut bat = true;
    let mut traced = false;
    let mut long = false;
    let mut deep = false;
    let mut values = 0;
    let mut huge_too = false;
    let mut pick: Option<usize> = None;
    let mut bulk = 0u128;
    for l in text.lines() {
        if let Some(p) = l.strip_prefix("prop ") {
            prop = p.trim().to_string();
        } else if let Some(s) = l.strip_prefix("seed ") {
            seed = s.trim().parse().unwrap_or(1);
        } else if let Some(s) = l.strip_prefix("only ") {
            unsafe { ONLY = Some(s.trim().to_string()) }
        } else if l == "nobattery" {
            bat = false;
        } else if l == "trace" {
            traced = true;
        } else if let Some(b) = l.strip_prefix("bulk ") {
            bulk = b.trim().parse().unwrap_or(0);
        } else if l == "long" {
            long = true;
        } else if l == "deep" {
            deep = true;
        } else if l == "huge" {
            huge_too = true;
        } else if let Some(v) = l.strip_prefix("values ") {
            let mut v = v.split(' ');
            values = v.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            pick = v.next().and_then(|x| x.parse().ok());
        } else if let Some(c) = l.strip_prefix("case ") {
            if let Some(c) = parse_case(c) {
                cases.push(c);
            }
        }
    }
    unsafe { TRACE = traced }
    let mut digest = None;
    if let Err(e) = spec::selftest() {
        say(&format!("BROKEN {}", e));
        return 2;
    }
    let hints = cases.len();
    if bat {
        cases.extend(battery(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1));
        if deep {
            let mut r = Rng(78);
            cases.push(Case { key: [1, 2, 3, 4], cp: None, a: vec![], b: r.bytes((1 << 23) + 9, 9) });
        }
        if long {
            let mut r = Rng(77);
            for n in [(1usize << 20) + 5, 1 << 24, (1 << 26) + 31] {
                cases.push(Case { key: [1, 2, 3, 4], cp: None, a: r.bytes(3, 9), b: r.bytes(n, 9) });
            }
        }
    }
    if huge_too {
        #[cfg(all(host, target_pointer_width = "64"))]
        huge(&prop);
        say("RAN 1 cases");
        return unsafe { (FAILS > 0) as i32 };
    }
    if values != 0 {
        let mut cs: Vec<(usize, Case)> =
            cases.iter().filter(|c| c.b.len() < 3000).step_by(3).cloned().enumerate().collect();
        if values == 3 {
            cs.retain(|c| Some(c.0) == pick);
            for (i, c) in &cs {
                say(&format!("SHOW {} {}", i, c.show()));
            }
            return 0;
        }
        if values == 2 {
            cs.reverse();
        }
        for (i, c) in &cs {
            types!(value(*i, c));
        }
        return 0;
    }
    if prop == "C15" {
        let cs: Vec<Case> = cases.iter().filter(|c| c.b.len() < 5000).step_by(7).cloned().collect();
        let mut pick: Vec<Case> = cases[..hints].to_vec();
        pick.extend(cs);
        types!(isolation(&pick));
        say(&format!("RAN {} cases", pick.len()));
    } else {
        let mut n = 0;
        let one = |c: &Case| {
            match prop.as_str() {
                "C01" => vs_spec::<PortableHash>(c, false),
                "C17" => vs_spec::<PortableHash>(c, true),
                "C02" => types!(vs_portable(c, false)),
                "C03" | "C04" => types!(vs_portable(c, true)),
                "C05" => types!(streaming(c)),
                "C06" => types!(transparent(c)),
                "C07" => types!(default(c)),
                "C08" => types!(every_op(c)),
                "C09" => types!(memory(c)),
                "C10" => selection(c),
                "C11" => types!(restored(c)),
                "C12" => types!(adapters(c)),
                "C13" => types!(observers(c)),
                "C14" => types!(canonical(c)),
                "C18" => types!(allocation(c)),
                _ => {}
            }
        };
        for c in &cases {
            if done() {
                break;
            }
            n += 1;
            one(c);
        }
        // what follows is timed, and differs between processes
        digest = Some(unsafe { DIGEST });
        #[cfg(host)]
        if bulk > 0 {
            let t0 = std::time::Instant::now();
            let mut r = Rng(seed.wrapping_mul(0xD1342543DE82EF95) | 1);
            while t0.elapsed().as_millis() < bulk && !done() {
                for _ in 0..16 {
                    one(&random_case(&mut r));
                    n += 1;
                }
            }
            if matches!(prop.as_str(), "C02" | "C03" | "C04" | "C08" | "C11" | "C17") {
                types!(hunt(&prop, seed, bulk));
            }
        }
        say(&format!("RAN {} cases", n));
    }
    say(&format!("DIGEST {:016x}", digest.unwrap_or(unsafe { DIGEST })));
    unsafe { (FAILS > 0) as i32 }
}

#[cfg(all(host, not(target_family = "wasm")))]
fn main() {
    static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = LAST.lock() {
            if l.len() < 500 {
                *l += &format!(" ({})", i).replace('\n', " ");
            }
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let t = std::fs::read_to_string(&a[1]).unwrap_or_default();
    let r = catch(|| run(&t));
    match r {
        Ok(r) => std::process::exit(r),
        Err(e) => {
            say(&format!("FAIL panic: {}{}", e, LAST.lock().map(|l| l.clone()).unwrap_or_default()));
            std::process::exit(3)
        }
    }
}
#[cfg(all(host, target_family = "wasm"))]
mod wasm_main {
    #[no_mangle]
    pub extern "C" fn buffer(n: usize) -> *mut u8 {
        let mut v: Vec<u8> = Vec::with_capacity(n);
        let p = v.as_mut_ptr();
        core::mem::forget(v);
        p
    }
    #[no_mangle]
    pub unsafe extern "C" fn go(p: *const u8, n: usize) -> i32 {
        std::panic::set_hook(Box::new(|i| super::say(&format!("FAIL panic: {}", i))));
        super::run(core::str::from_utf8(core::slice::from_raw_parts(p, n)).unwrap_or(""))
    }
}
#[cfg(not(host))]
#[no_mangle]
pub unsafe extern "C" fn go(p: *const u8, n: usize) -> i32 {
    run(core::str::from_utf8(core::slice::from_raw_parts(p, n)).unwrap_or(""))
}
