//! The HighwayHash function, written from the reference description and generic over the word
//! type, so that the same text is run on concrete words (the oracle of the replay programs, checked
//! against the published vectors) and on symbolic terms (the postconditions).
//!
//! Bytes are the primitive: a word is eight bytes, least significant first.

extern crate alloc;
use self::alloc::{format, string::String, vec, vec::Vec};
use crate::vectors::*;

pub trait Alg {
    type W: Clone; // 64-bit word
    type B: Clone; // byte
    fn word(&mut self, v: u64) -> Self::W;
    fn byte_const(&mut self, v: u8) -> Self::B;
    fn from_bytes(&mut self, b: &[Self::B]) -> Self::W; // 8, least significant first
    fn byte(&mut self, w: &Self::W, i: usize) -> Self::B;
    fn add(&mut self, a: &Self::W, b: &Self::W) -> Self::W;
    fn xor(&mut self, a: &Self::W, b: &Self::W) -> Self::W;
    /// (low 32 bits of a) * (high 32 bits of b)
    fn mul_lo_hi(&mut self, a: &Self::W, b: &Self::W) -> Self::W;
    /// both 32-bit halves rotated left by k
    fn rot_halves(&mut self, a: &Self::W, k: u32) -> Self::W;
    /// (hi:lo) shifted left by k < 64, high word
    fn shl_pair_hi(&mut self, hi: &Self::W, lo: &Self::W, k: u32) -> Self::W;
    fn shl(&mut self, a: &Self::W, k: u32) -> Self::W;
    fn clear_top2(&mut self, a: &Self::W) -> Self::W;
}

pub const INIT0: [u64; 4] =
    [0xdbe6d5d5fe4cce2f, 0xa4093822299f31d0, 0x13198a2e03707344, 0x243f6a8885a308d3];
pub const INIT1: [u64; 4] =
    [0x3bd39e10cb0ef593, 0xc0acf169b5f18a8c, 0xbe5466cf34e90c6c, 0x452821e638d01377];

/// v0[0..4], v1[0..4], mul0[0..4], mul1[0..4]
pub type Lanes<W> = [W; 16];
const V0: usize = 0;
const V1: usize = 4;
const M0: usize = 8;
const M1: usize = 12;

fn swap_halves<A: Alg>(a: &mut A, w: &A::W) -> A::W {
    let b: Vec<A::B> = (0..8).map(|i| a.byte(w, (i + 4) % 8)).collect();
    a.from_bytes(&b)
}

pub fn init<A: Alg>(a: &mut A, key: &[A::W; 4]) -> Vec<A::W> {
    let mut l = vec![];
    for i in 0..4 {
        let c = a.word(INIT0[i]);
        l.push(a.xor(&c, &key[i]));
    }
    for i in 0..4 {
        let c = a.word(INIT1[i]);
        let k = swap_halves(a, &key[i]);
        l.push(a.xor(&c, &k));
    }
    for i in 0..4 {
        l.push(a.word(INIT0[i]));
    }
    for i in 0..4 {
        l.push(a.word(INIT1[i]));
    }
    l
}

/// Which byte of the pair (v1:v0), 0..7 in v0 and 8..15 in v1, becomes byte i of the two results.
const ZIP0: [usize; 8] = [3, 12, 2, 5, 14, 1, 15, 0];
const ZIP1: [usize; 8] = [11, 4, 10, 13, 9, 6, 8, 7];

fn zipper<A: Alg>(a: &mut A, v1: &A::W, v0: &A::W) -> (A::W, A::W) {
    let mut b = vec![];
    for i in 0..8 {
        b.push(a.byte(v0, i));
    }
    for i in 0..8 {
        b.push(a.byte(v1, i));
    }
    let p: Vec<A::B> = ZIP0.iter().map(|i| b[*i].clone()).collect();
    let q: Vec<A::B> = ZIP1.iter().map(|i| b[*i].clone()).collect();
    (a.from_bytes(&p), a.from_bytes(&q))
}

pub fn update<A: Alg>(a: &mut A, l: &mut Vec<A::W>, packet: &[A::W]) {
    for i in 0..4 {
        let x = a.add(&l[M0 + i], &packet[i]);
        l[V1 + i] = a.add(&l[V1 + i], &x);
        let (p, q) = (l[V1 + i].clone(), l[V0 + i].clone());
        let m = a.mul_lo_hi(&p, &q);
        l[M0 + i] = a.xor(&l[M0 + i], &m);
        l[V0 + i] = a.add(&l[V0 + i], &l[M1 + i].clone());
        let (p, q) = (l[V0 + i].clone(), l[V1 + i].clone());
        let m = a.mul_lo_hi(&p, &q);
        l[M1 + i] = a.xor(&l[M1 + i], &m);
    }
    for (from, to) in [(V1, V0), (V0, V1)] {
        for h in [0, 2] {
            let (x, y) = (l[from + h + 1].clone(), l[from + h].clone());
            let (z0, z1) = zipper(a, &x, &y);
            l[to + h] = a.add(&l[to + h], &z0);
            l[to + h + 1] = a.add(&l[to + h + 1], &z1);
        }
    }
}

pub fn packet<A: Alg>(a: &mut A, b: &[A::B]) -> Vec<A::W> {
    (0..4).map(|i| a.from_bytes(&b[8 * i..8 * i + 8])).collect()
}

/// Absorb the 1..=31 last bytes.
pub fn remainder<A: Alg>(a: &mut A, l: &mut Vec<A::W>, bytes: &[A::B]) {
    let n = bytes.len();
    let size = a.word(((n as u64) << 32) + n as u64);
    for i in 0..4 {
        l[V0 + i] = a.add(&l[V0 + i], &size);
        l[V1 + i] = a.rot_halves(&l[V1 + i], n as u32);
    }
    let z = a.byte_const(0);
    let mut p = vec![z; 32];
    let whole = n & !3;
    let m4 = n & 3;
    p[..whole].clone_from_slice(&bytes[..whole]);
    if n & 16 != 0 {
        for i in 0..4 {
            p[28 + i] = bytes[whole + i + m4 - 4].clone();
        }
    } else if m4 != 0 {
        p[16] = bytes[whole].clone();
        p[17] = bytes[whole + (m4 >> 1)].clone();
        p[18] = bytes[whole + m4 - 1].clone();
    }
    let w = packet(a, &p);
    update(a, l, &w);
}

fn rounds<A: Alg>(a: &mut A, l: &mut Vec<A::W>, n: usize) {
    for _ in 0..n {
        let p: Vec<A::W> = [2, 3, 0, 1]
            .iter()
            .map(|i| {
                let w = l[V0 + i].clone();
                swap_halves(a, &w)
            })
            .collect();
        update(a, l, &p);
    }
}

fn sum<A: Alg>(a: &mut A, l: &[A::W], i: &[usize]) -> A::W {
    let mut r = l[i[0]].clone();
    for k in &i[1..] {
        r = a.add(&r, &l[*k]);
    }
    r
}

/// Result words (1, 2 or 4) for a width of 64, 128 or 256 bits.
pub fn finalize<A: Alg>(a: &mut A, lanes: &[A::W], pending: &[A::B], width: u32) -> Vec<A::W> {
    let mut l = lanes.to_vec();
    if !pending.is_empty() {
        remainder(a, &mut l, pending);
    }
    match width {
        64 => {
            rounds(a, &mut l, 4);
            vec![sum(a, &l, &[V0, V1, M0, M1])]
        }
        128 => {
            rounds(a, &mut l, 6);
            vec![
                sum(a, &l, &[V0, M0, V1 + 2, M1 + 2]),
                sum(a, &l, &[V0 + 1, M0 + 1, V1 + 3, M1 + 3]),
            ]
        }
        _ => {
            rounds(a, &mut l, 10);
            let mut r = vec![];
            for h in [0, 2] {
                let a0 = sum(a, &l, &[V0 + h, M0 + h]);
                let a1 = sum(a, &l, &[V0 + h + 1, M0 + h + 1]);
                let a2 = sum(a, &l, &[V1 + h, M1 + h]);
                let a3 = sum(a, &l, &[V1 + h + 1, M1 + h + 1]);
                let a3 = a.clear_top2(&a3);
                // (a1:a0) ^ (a3:a2) << 1 ^ (a3:a2) << 2
                let (x, y) = (a.shl(&a2, 1), a.shl(&a2, 2));
                let lo = a.xor(&x, &y);
                let lo = a.xor(&a0, &lo);
                let (x, y) = (a.shl_pair_hi(&a3, &a2, 1), a.shl_pair_hi(&a3, &a2, 2));
                let hi = a.xor(&x, &y);
                let hi = a.xor(&a1, &hi);
                r.push(lo);
                r.push(hi);
            }
            r
        }
    }
}

/// 164-byte checkpoint of (lanes, pending)
pub fn encode<A: Alg>(a: &mut A, lanes: &[A::W], pending: &[A::B]) -> Vec<A::B> {
    let mut r = vec![];
    for w in lanes {
        for i in 0..8 {
            r.push(a.byte(w, i));
        }
    }
    for i in 0..32 {
        r.push(if i < pending.len() { pending[i].clone() } else { a.byte_const(0) });
    }
    for b in (pending.len() as u32).to_le_bytes() {
        r.push(a.byte_const(b));
    }
    r
}

// ------------------------------------------------------------------ concrete words
pub struct Conc;
impl Alg for Conc {
    type W = u64;
    type B = u8;
    fn word(&mut self, v: u64) -> u64 {
        v
    }
    fn byte_const(&mut self, v: u8) -> u8 {
        v
    }
    fn from_bytes(&mut self, b: &[u8]) -> u64 {
        (0..8).fold(0, |r, i| r | (b[i] as u64) << (8 * i))
    }
    fn byte(&mut self, w: &u64, i: usize) -> u8 {
        (*w >> (8 * i)) as u8
    }
    fn add(&mut self, a: &u64, b: &u64) -> u64 {
        a.wrapping_add(*b)
    }
    fn xor(&mut self, a: &u64, b: &u64) -> u64 {
        a ^ b
    }
    fn mul_lo_hi(&mut self, a: &u64, b: &u64) -> u64 {
        (*a & 0xffff_ffff) * (*b >> 32)
    }
    fn rot_halves(&mut self, a: &u64, k: u32) -> u64 {
        ((*a as u32).rotate_left(k) as u64) | (((*a >> 32) as u32).rotate_left(k) as u64) << 32
    }
    fn shl_pair_hi(&mut self, hi: &u64, lo: &u64, k: u32) -> u64 {
        (*hi << k) | (*lo >> (64 - k))
    }
    fn shl(&mut self, a: &u64, k: u32) -> u64 {
        *a << k
    }
    fn clear_top2(&mut self, a: &u64) -> u64 {
        *a & (u64::MAX >> 2)
    }
}

/// Reference hasher over concrete bytes: the oracle of the replay programs.
#[derive(Clone, Debug, PartialEq)]
pub struct Ref {
    pub lanes: Vec<u64>,
    pub pend: Vec<u8>,
}
#[allow(dead_code)]
impl Ref {
    pub fn new(key: [u64; 4]) -> Ref {
        Ref { lanes: init(&mut Conc, &key), pend: vec![] }
    }
    pub fn append(&mut self, d: &[u8]) {
        for b in d {
            self.pend.push(*b);
            if self.pend.len() == 32 {
                let p = packet(&mut Conc, &self.pend);
                update(&mut Conc, &mut self.lanes, &p);
                self.pend.clear();
            }
        }
    }
    pub fn finalize(&self, width: u32) -> Vec<u64> {
        finalize(&mut Conc, &self.lanes, &self.pend, width)
    }
    pub fn checkpoint(&self) -> Vec<u8> {
        encode(&mut Conc, &self.lanes, &self.pend)
    }
    /// counts above 31 are read as 31
    pub fn restore(c: &[u8]) -> Ref {
        let n = u32::from_le_bytes([c[160], c[161], c[162], c[163]]).min(31) as usize;
        Ref {
            lanes: (0..16).map(|i| Conc.from_bytes(&c[8 * i..8 * i + 8])).collect(),
            pend: c[128..128 + n].to_vec(),
        }
    }
}

/// Published vectors: 64-bit (key 0x0706050403020100.., bytes 0..n) and the 128/256-bit ones.
pub fn selftest() -> Result<usize, String> {
    let key = [0x0706050403020100, 0x0F0E0D0C0B0A0908, 0x1716151413121110, 0x1F1E1D1C1B1A1918];
    let run = |key: [u64; 4], d: &[u8], w: u32| {
        let mut r = Ref::new(key);
        r.append(d);
        r.finalize(w)
    };
    let mut n = 0;
    let data: Vec<u8> = (0..64).collect();
    for (i, want) in V64.iter().enumerate() {
        if run(key, &data[..i], 64)[0] != *want {
            return Err(format!("spec: 64-bit vector {}", i));
        }
        n += 1;
    }
    for (i, want) in V128.iter().enumerate() {
        let r = run(key, &data[..i], 128);
        if r != [*want as u64, (*want >> 64) as u64] {
            return Err(format!("spec: 128-bit vector {}", i));
        }
        n += 1;
    }
    for (i, want) in V256.chunks(2).enumerate() {
        let r = run(key, &data[..i], 256);
        if r != [want[0] as u64, (want[0] >> 64) as u64, want[1] as u64, (want[1] >> 64) as u64] {
            return Err(format!("spec: 256-bit vector {}", i));
        }
        n += 1;
    }
    if run([1, 2, 3, 4], &[255], 64) != [0x7858f24d2d79b2b2]
        || run([1, 2, 3, 4], &[255], 128) != [0xbb007d2462e77f3c, 0x224508f916b3991f]
        || run([1, 2, 3, 4], &[255], 256)
            != [0x7161cadbf7cd70e1, 0xaac4905de62b2f5e, 0x7b02b936933faa7, 0xc8efcfc45b239f8d]
    {
        return Err("spec: README vectors".into());
    }
    Ok(n + 3)
}
