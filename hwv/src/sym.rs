//! The specification on symbolic terms.

use crate::exec::Stream;
use crate::spec::*;
use crate::term::*;

pub struct Sym<'a>(pub &'a mut Terms);

impl<'a> Alg for Sym<'a> {
    type W = T;
    type B = T;
    fn word(&mut self, v: u64) -> T {
        self.0.con(64, v as u128)
    }
    fn byte_const(&mut self, v: u8) -> T {
        self.0.con(8, v as u128)
    }
    fn from_bytes(&mut self, b: &[T]) -> T {
        self.0.concat(b)
    }
    fn byte(&mut self, w: &T, i: usize) -> T {
        self.0.slice(*w, 8 * i as u32, 8)
    }
    fn add(&mut self, a: &T, b: &T) -> T {
        self.0.add(*a, *b)
    }
    fn xor(&mut self, a: &T, b: &T) -> T {
        self.0.xor(*a, *b)
    }
    fn mul_lo_hi(&mut self, a: &T, b: &T) -> T {
        let x = self.0.slice(*a, 0, 32);
        let y = self.0.slice(*b, 32, 32);
        let x = self.0.zext(x, 64);
        let y = self.0.zext(y, 64);
        self.0.mul(x, y)
    }
    fn rot_halves(&mut self, a: &T, k: u32) -> T {
        let x = self.0.slice(*a, 0, 32);
        let y = self.0.slice(*a, 32, 32);
        let x = self.0.rotl_c(x, k);
        let y = self.0.rotl_c(y, k);
        self.0.concat(&[x, y])
    }
    fn shl_pair_hi(&mut self, hi: &T, lo: &T, k: u32) -> T {
        let c = self.0.concat(&[*lo, *hi]);
        self.0.slice(c, 64 - k, 64)
    }
    fn shl(&mut self, a: &T, k: u32) -> T {
        self.0.shl_c(*a, k)
    }
    fn clear_top2(&mut self, a: &T) -> T {
        let x = self.0.slice(*a, 0, 62);
        self.0.zext(x, 64)
    }
}

impl Stream {
    pub fn new(t: &mut Terms, lanes: Vec<T>, pend: Vec<T>, arr: u32) -> Stream {
        let uf = (0..16).map(|i| t.uf_id(&format!("fold{}", i))).collect();
        Stream { states: vec![lanes.clone()], lanes, pend, arr, uf, bytes: Default::default() }
    }
    /// byte at a concrete position of the stream
    pub fn byte(&self, t: &mut Terms, w: u32, at: u64) -> T {
        if (at as usize) < self.pend.len() {
            return self.pend[at as usize];
        }
        let o = t.con(w, at as u128 - self.pend.len() as u128);
        t.select(self.arr, o)
    }
    /// byte j of packet q (q a term of pointer width; q >= 1 when there are pending bytes)
    pub fn byte_at(&self, t: &mut Terms, q: T, j: u64) -> T {
        let w = t.w(q);
        if let Some(k) = t.is_const(q) {
            return self.byte(t, w, 32 * k as u64 + j);
        }
        let l = t.lin(q);
        let l2 = l.t.iter().map(|(x, k)| (*x, k.wrapping_mul(32))).collect();
        let c = (l.c.wrapping_mul(32)).wrapping_add(j as u128).wrapping_sub(self.pend.len() as u128);
        let o = t.mk_sum(w, l2, c);
        t.select(self.arr, o)
    }
    pub fn packet_at(&self, t: &mut Terms, q: T) -> Vec<T> {
        let b: Vec<T> = (0..32).map(|j| self.byte_at(t, q, j)).collect();
        packet(&mut Sym(t), &b)
    }
    /// lanes after q packets, q concrete
    pub fn state(&mut self, t: &mut Terms, w: u32, q: usize) -> Vec<T> {
        while self.states.len() <= q {
            let i = self.states.len() - 1;
            let mut l = self.states[i].clone();
            let qt = t.con(w, i as u128);
            let p = self.packet_at(t, qt);
            update(&mut Sym(t), &mut l, &p);
            self.states.push(l);
        }
        self.states[q].clone()
    }
    /// the named lanes after q packets, q symbolic
    pub fn fold(&self, t: &mut Terms, q: T) -> Vec<T> {
        self.uf.iter().map(|u| t.uf(*u, vec![q], 64)).collect()
    }
    /// lanes after q packets given that the lanes after `from` packets are named: unfold the difference
    pub fn lanes_at(&mut self, t: &mut Terms, q: T, from: Option<T>) -> Option<Vec<T>> {
        let w = t.w(q);
        if let Some(k) = t.is_const(q) {
            if k <= 4096 && from.is_none() {
                return Some(self.state(t, w, k as usize));
            }
        }
        let f = from?;
        let d = t.sub(q, f);
        let d = t.is_const(d)?;
        if d > 256 {
            return None;
        }
        let mut l = if let Some(k) = t.is_const(f) {
            if k > 4096 {
                return None;
            }
            self.state(t, w, k as usize)
        } else {
            self.fold(t, f)
        };
        for j in 0..d {
            let qq = t.add_c(f, j);
            let p = self.packet_at(t, qq);
            update(&mut Sym(t), &mut l, &p);
        }
        Some(l)
    }
    /// 8-bit term -> (packets, lane, byte), for the concrete states computed so far
    pub fn index(&mut self, t: &mut Terms) {
        for q in 0..self.states.len() {
            if self.bytes.1 > q {
                continue;
            }
            for (i, l) in self.states[q].clone().iter().enumerate() {
                for b in 0..8 {
                    let x = t.slice(*l, 8 * b, 8);
                    self.bytes.0.entry(x).or_insert_with(Vec::new).push((q as u32, i as u8, b as u8));
                }
            }
            self.bytes.1 = q + 1;
        }
    }
}
