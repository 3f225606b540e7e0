//! Hash-consed bit-vector terms in a bit-slice normal form.
//!
//! A term of width w is a least-significant-first list of pieces; each piece is the XOR of a
//! constant and a set of equally wide slices of *atoms* (variables, sums, products, ...).  All of
//! the bit-moving and GF(2)-linear operations (shifts and rotates by constants, masks,
//! concatenations, extensions, XOR) are therefore canonical by construction; modular additions are
//! canonical as n-ary linear sums, products as sorted pairs.  Two terms with the same id are equal;
//! terms with different ids may still be equal, which is then a question for `prove`.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;
pub type FxSet<K> = std::collections::HashSet<K, FxB>;

/// Term id.
pub type T = u32;
/// Atom id.
pub type A = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Xs {
    None,
    One(A, u32),
    Many(Box<[(A, u32)]>),
}

impl Xs {
    #[inline]
    pub fn for_each<F: FnMut(A, u32)>(&self, mut f: F) {
        match self {
            Xs::None => {}
            Xs::One(a, l) => f(*a, *l),
            Xs::Many(v) => {
                for (a, l) in v.iter() {
                    f(*a, *l)
                }
            }
        }
    }
    pub fn from_vec(v: Vec<(A, u32)>) -> Xs {
        match v.len() {
            0 => Xs::None,
            1 => Xs::One(v[0].0, v[0].1),
            _ => Xs::Many(v.into_boxed_slice()),
        }
    }
    #[inline]
    fn shift(&self, d: u32) -> Xs {
        if d == 0 {
            return self.clone();
        }
        match self {
            Xs::None => Xs::None,
            Xs::One(a, l) => Xs::One(*a, l + d),
            Xs::Many(v) => Xs::Many(v.iter().map(|(a, l)| (*a, l + d)).collect()),
        }
    }
    #[inline]
    fn follows(&self, other: &Xs, w: u32) -> bool {
        // is self == other shifted by w
        match (self, other) {
            (Xs::None, Xs::None) => true,
            (Xs::One(a, l), Xs::One(b, m)) => a == b && *l == m + w,
            (Xs::Many(a), Xs::Many(b)) => {
                a.len() == b.len()
                    && a.iter().zip(b.iter()).all(|(x, y)| x.0 == y.0 && x.1 == y.1 + w)
            }
            _ => false,
        }
    }
    fn xor(&self, o: &Xs) -> Xs {
        match (self, o) {
            (Xs::None, x) => x.clone(),
            (x, Xs::None) => x.clone(),
            (a, b) => {
                let mut x = Vec::with_capacity(4);
                a.for_each(|p, q| x.push((p, q)));
                let mut y = Vec::with_capacity(4);
                b.for_each(|p, q| y.push((p, q)));
                let mut r = Vec::with_capacity(x.len() + y.len());
                let (mut i, mut j) = (0, 0);
                while i < x.len() || j < y.len() {
                    if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                        r.push(x[i]);
                        i += 1;
                    } else if i >= x.len() || y[j] < x[i] {
                        r.push(y[j]);
                        j += 1;
                    } else {
                        i += 1;
                        j += 1;
                    }
                }
                Xs::from_vec(r)
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Piece {
    pub w: u32,
    pub c: u128,
    pub xs: Xs,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AK {
    Var(u32),
    Sum(Box<[(T, u128)]>, u128),
    Mul(T, T),
    And(Box<[T]>),
    Ite(T, T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Shl(T, T),
    Lshr(T, T),
    Ashr(T, T),
    Udiv(T, T),
    Urem(T, T),
    Sdiv(T, T),
    Srem(T, T),
    /// byte of an external array (the caller's data) at an offset
    Select(u32, T),
    /// uninterpreted function
    Uf(u32, Box<[T]>),
}

pub struct Atom {
    pub w: u32,
    pub k: AK,
    /// set of the first 64 "index" variables it depends on
    pub vars: u128,
    /// only made of index variables (lengths, loop counters)
    pub idx: bool,
    pub junk: bool,
}

pub struct Term {
    pub w: u32,
    pub p: Box<[Piece]>,
    pub vars: u128,
    pub junk: bool,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub atom: A,
    pub term: T,
    pub idx: bool,
    /// number of the index variable (bit in `vars`), 64 when it is not one
    pub bit: u32,
    pub lo: u128,
    pub hi: u128,
    pub junk: bool,
}

pub struct Lin {
    pub t: Vec<(T, u128)>,
    pub c: u128,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

struct Tab {
    slots: Vec<u32>,
    n: usize,
}
impl Tab {
    fn new() -> Tab {
        Tab { slots: vec![u32::MAX; 1 << 12], n: 0 }
    }
}

fn hash_of<X: Hash>(x: &X) -> u64 {
    let mut h = Fx::default();
    x.hash(&mut h);
    let v = h.finish();
    v ^ (v >> 29)
}

pub struct Terms {
    pub terms: Vec<Term>,
    thash: Vec<u64>,
    ttab: Tab,
    pub atoms: Vec<Atom>,
    ahash: Vec<u64>,
    atab: Tab,
    pub vars: Vec<VarInfo>,
    nidx: u32,
    pub arrays: Vec<String>,
    pub ufs: Vec<(String, u32)>,
    ufmap: HashMap<String, u32>,
    small: Vec<T>, // cache of small constants for widths 1,8,16,32,64
    /// integer facts: lo <= sum of k * variable <= hi
    pub facts: Vec<(Vec<(u32, i128)>, i128, i128)>,
    /// work limit: checked every few thousand steps; passing it panics with LIMIT
    pub deadline: Option<std::time::Instant>,
    pub nolimit: bool,
    tick: std::cell::Cell<u32>,
}

pub const LIMIT: &str = "hwv: time or memory limit";
/// milliseconds after the start of the process at which every job gives up
pub static STOP_AT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(u64::MAX);
pub fn since_start() -> u64 {
    static T0: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    T0.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64
}
pub fn over(d: Option<std::time::Instant>) -> bool {
    d.is_some_and(|d| std::time::Instant::now() > d) || since_start() > STOP_AT.load(std::sync::atomic::Ordering::Relaxed)
}

thread_local! {
    /// how many more atoms may be printed
    static SHOWN: std::cell::Cell<u32> = const { std::cell::Cell::new(200) };
}

impl Terms {
    pub fn new() -> Terms {
        let mut t = Terms {
            terms: Vec::with_capacity(1 << 12),
            thash: vec![],
            ttab: Tab::new(),
            atoms: Vec::with_capacity(1 << 10),
            ahash: vec![],
            atab: Tab::new(),
            vars: vec![],
            nidx: 0,
            arrays: vec![],
            ufs: vec![],
            ufmap: HashMap::new(),
            small: vec![],
            facts: vec![],
            deadline: None,
            nolimit: false,
            tick: Default::default(),
        };
        let mut s = Vec::new();
        for w in [1u32, 8, 16, 32, 64] {
            for v in 0..64u128 {
                s.push(t.mk_const(w, v & mask(w)));
            }
        }
        t.small = s;
        t
    }

    #[inline]
    fn work(&self) {
        let n = self.tick.get().wrapping_add(1);
        self.tick.set(n);
        if n & 0x1fff == 0 && !self.nolimit && (self.terms.len() > 12_000_000 || over(self.deadline)) {
            std::panic::panic_any(LIMIT);
        }
    }
    // ---------------------------------------------------------------- interning
    fn grow_t(&mut self) {
        let n = self.ttab.slots.len() * 2;
        let mut s = vec![u32::MAX; n];
        for (i, h) in self.thash.iter().enumerate() {
            let mut p = (*h as usize) & (n - 1);
            while s[p] != u32::MAX {
                p = (p + 1) & (n - 1);
            }
            s[p] = i as u32;
        }
        self.ttab.slots = s;
    }
    fn grow_a(&mut self) {
        let n = self.atab.slots.len() * 2;
        let mut s = vec![u32::MAX; n];
        for (i, h) in self.ahash.iter().enumerate() {
            let mut p = (*h as usize) & (n - 1);
            while s[p] != u32::MAX {
                p = (p + 1) & (n - 1);
            }
            s[p] = i as u32;
        }
        self.atab.slots = s;
    }

    fn intern_term(&mut self, w: u32, p: Vec<Piece>) -> T {
        self.work();
        let h = hash_of(&p);
        let m = self.ttab.slots.len() - 1;
        let mut i = (h as usize) & m;
        loop {
            let s = self.ttab.slots[i];
            if s == u32::MAX {
                break;
            }
            if self.thash[s as usize] == h && *self.terms[s as usize].p == *p {
                return s;
            }
            i = (i + 1) & m;
        }
        let id = self.terms.len() as u32;
        self.ttab.slots[i] = id;
        let mut vars = 0;
        let mut junk = false;
        for q in &p {
            q.xs.for_each(|a, _| {
                vars |= self.atoms[a as usize].vars;
                junk |= self.atoms[a as usize].junk;
            });
        }
        self.terms.push(Term { w, p: p.into_boxed_slice(), vars, junk });
        self.thash.push(h);
        self.ttab.n += 1;
        if self.ttab.n * 2 > self.ttab.slots.len() {
            self.grow_t();
        }
        id
    }

    fn atom(&mut self, w: u32, k: AK) -> A {
        let h = hash_of(&(w, &k));
        let m = self.atab.slots.len() - 1;
        let mut i = (h as usize) & m;
        loop {
            let s = self.atab.slots[i];
            if s == u32::MAX {
                break;
            }
            if self.ahash[s as usize] == h {
                let a = &self.atoms[s as usize];
                if a.w == w && a.k == k {
                    return s;
                }
            }
            i = (i + 1) & m;
        }
        let mut vars = 0;
        let mut junk = false;
        let mut idx = false;
        {
            let mut see = |t: T| {
                vars |= self.terms[t as usize].vars;
                junk |= self.terms[t as usize].junk;
            };
            match &k {
                AK::Var(_) => {}
                AK::Sum(l, _) => {
                    for (t, _) in l.iter() {
                        see(*t)
                    }
                }
                AK::Mul(a, b)
                | AK::Eq(a, b)
                | AK::Ult(a, b)
                | AK::Slt(a, b)
                | AK::Shl(a, b)
                | AK::Lshr(a, b)
                | AK::Ashr(a, b)
                | AK::Udiv(a, b)
                | AK::Urem(a, b)
                | AK::Sdiv(a, b)
                | AK::Srem(a, b) => {
                    see(*a);
                    see(*b)
                }
                AK::And(l) | AK::Uf(_, l) => {
                    for t in l.iter() {
                        see(*t)
                    }
                }
                AK::Ite(a, b, c) => {
                    see(*a);
                    see(*b);
                    see(*c)
                }
                AK::Select(_, t) => see(*t),
            }
        }
        if let AK::Sum(l, _) = &k {
            idx = l.iter().all(|(t, _)| self.is_idx(*t));
        }
        let id = self.atoms.len() as u32;
        self.atab.slots[i] = id;
        self.atoms.push(Atom { w, k, vars, idx, junk });
        self.ahash.push(h);
        self.atab.n += 1;
        if self.atab.n * 2 > self.atab.slots.len() {
            self.grow_a();
        }
        id
    }

    pub fn is_idx(&self, t: T) -> bool {
        self.terms[t as usize].p.iter().all(|p| {
            let mut ok = true;
            p.xs.for_each(|a, _| ok &= self.atoms[a as usize].idx);
            ok
        })
    }

    fn of_atom(&mut self, a: A) -> T {
        let w = self.atoms[a as usize].w;
        self.intern_term(w, vec![Piece { w, c: 0, xs: Xs::One(a, 0) }])
    }

    /// Normalise a piece list (merge neighbours) and intern it.
    fn mk(&mut self, ps: Vec<Piece>) -> T {
        let ps = if ps.len() <= 16 && ps.iter().any(|p| matches!(p.xs, Xs::One(a, _) if self.atoms[a as usize].idx)) {
            self.widen(ps)
        } else {
            ps
        };
        let mut out: Vec<Piece> = Vec::with_capacity(ps.len());
        let mut w = 0;
        for p in ps {
            if p.w == 0 {
                continue;
            }
            w += p.w;
            if let Some(l) = out.last_mut() {
                if l.w + p.w <= 128 && p.xs.follows(&l.xs, l.w) {
                    l.c |= p.c << l.w;
                    l.w += p.w;
                    continue;
                } else if p.xs.follows(&l.xs, l.w) {
                    // fill up to 128 bits so that the split is canonical
                    let take = 128 - l.w;
                    if take > 0 {
                        l.c |= (p.c & mask(take)) << l.w;
                        l.w = 128;
                    }
                    let xs = p.xs.shift(take);
                    out.push(Piece { w: p.w - take, c: p.c >> take, xs });
                    continue;
                }
            }
            out.push(p);
        }
        self.intern_term(w, out)
    }

    /// Index variables and sums have known ranges: bits above the range are zero, and zeros that follow
    /// the low bits of such a value are its own high bits.
    fn widen(&mut self, ps: Vec<Piece>) -> Vec<Piece> {
        let mut out: Vec<Piece> = Vec::with_capacity(ps.len() + 1);
        // the number of zero bits the last piece may absorb
        let mut room = 0u32;
        for mut p in ps {
            if p.w == 0 {
                continue;
            }
            if let Xs::One(a, off) = p.xs {
                if self.atoms[a as usize].idx {
                    let aw = self.atoms[a as usize].w;
                    let (_, hi) = self.atom_range(a);
                    let top = 128 - hi.leading_zeros();
                    if off >= top {
                        p.xs = Xs::None;
                    } else if off + p.w > top && p.c >> (top - off) != 0 {
                        let k = top - off;
                        out.push(Piece { w: k, c: p.c & mask(k), xs: Xs::One(a, off) });
                        out.push(Piece { w: p.w - k, c: p.c >> k, xs: Xs::None });
                        room = 0;
                        continue;
                    } else {
                        room = if p.c == 0 && off + p.w >= top { aw - off - p.w } else { 0 };
                        out.push(p);
                        continue;
                    }
                }
            }
            if room > 0 && matches!(p.xs, Xs::None) {
                let z = if p.c == 0 { p.w } else { p.c.trailing_zeros().min(p.w) };
                let k = z.min(room);
                if let Some(l) = out.last_mut() {
                    l.w += k;
                }
                room -= k;
                p.w -= k;
                p.c = if k >= 128 { 0 } else { p.c >> k };
                if p.w == 0 {
                    continue;
                }
            }
            room = 0;
            out.push(p);
        }
        out
    }

    // ---------------------------------------------------------------- constants, variables
    fn mk_const(&mut self, w: u32, v: u128) -> T {
        if w <= 128 {
            self.intern_term(w, vec![Piece { w, c: v & mask(w), xs: Xs::None }])
        } else {
            let mut ps = vec![Piece { w: 128, c: v, xs: Xs::None }];
            let mut r = w - 128;
            while r > 0 {
                let k = r.min(128);
                ps.push(Piece { w: k, c: 0, xs: Xs::None });
                r -= k;
            }
            self.intern_term(w, ps)
        }
    }
    #[inline]
    pub fn con(&mut self, w: u32, v: u128) -> T {
        let v = v & mask(w);
        if v < 64 && !self.small.is_empty() {
            let b = match w {
                1 => 0,
                8 => 1,
                16 => 2,
                32 => 3,
                64 => 4,
                _ => 99,
            };
            if b < 5 {
                return self.small[b * 64 + v as usize];
            }
        }
        self.mk_const(w, v)
    }
    #[inline]
    pub fn w(&self, t: T) -> u32 {
        self.terms[t as usize].w
    }
    #[inline]
    pub fn is_const(&self, t: T) -> Option<u128> {
        let n = &self.terms[t as usize];
        if n.p.len() == 1 {
            if let Xs::None = n.p[0].xs {
                return Some(n.p[0].c);
            }
        }
        if n.w > 128 && n.p.iter().all(|p| matches!(p.xs, Xs::None)) && n.p[1..].iter().all(|p| p.c == 0) {
            return Some(n.p[0].c);
        }
        None
    }
    pub fn all_const(&self, t: T) -> bool {
        self.terms[t as usize].p.iter().all(|p| matches!(p.xs, Xs::None))
    }

    pub fn var(&mut self, name: &str, w: u32) -> T {
        self.var_full(name, w, false, 0, mask(w), false)
    }
    pub fn junk(&mut self, w: u32) -> T {
        let n = self.vars.len();
        self.var_full(&format!("junk{}", n), w, false, 0, mask(w), true)
    }
    pub fn idx_var(&mut self, name: &str, w: u32, lo: u128, hi: u128) -> T {
        self.var_full(name, w, true, lo, hi, false)
    }
    pub fn var_range(&mut self, name: &str, w: u32, lo: u128, hi: u128) -> T {
        self.var_full(name, w, false, lo, hi, false)
    }
    fn var_full(&mut self, name: &str, w: u32, idx: bool, lo: u128, hi: u128, junk: bool) -> T {
        let id = self.vars.len() as u32;
        let bit = if idx {
            let b = self.nidx;
            self.nidx += 1;
            assert!(b < 128, "too many index variables");
            b
        } else {
            128
        };
        let a = self.atom(w, AK::Var(id));
        self.atoms[a as usize].idx = idx;
        self.atoms[a as usize].junk = junk;
        if idx {
            self.atoms[a as usize].vars = 1 << bit;
        }
        let term = self.of_atom(a);
        self.vars.push(VarInfo { name: name.into(), w, atom: a, term, idx, bit, lo, hi, junk });
        term
    }
    pub fn idx_left(&self) -> u32 {
        128 - self.nidx.min(128)
    }
    pub fn add_fact(&mut self, l: Vec<(u32, i128)>, lo: i128, hi: i128) {
        let f = (l, lo, hi);
        if !self.facts.contains(&f) {
            self.facts.push(f);
        }
    }
    pub fn var_of(&self, t: T) -> Option<u32> {
        let n = &self.terms[t as usize];
        if n.p.len() == 1 && n.p[0].c == 0 {
            if let Xs::One(a, 0) = n.p[0].xs {
                if let AK::Var(v) = self.atoms[a as usize].k {
                    if self.atoms[a as usize].w == n.w {
                        return Some(v);
                    }
                }
            }
        }
        None
    }
    pub fn array(&mut self, name: &str) -> u32 {
        self.arrays.push(name.into());
        self.arrays.len() as u32 - 1
    }

    /// the single full atom of this term, if it is one
    pub fn full_atom(&self, t: T) -> Option<A> {
        let n = &self.terms[t as usize];
        if n.p.len() == 1 && n.p[0].c == 0 {
            if let Xs::One(a, 0) = n.p[0].xs {
                if self.atoms[a as usize].w == n.w {
                    return Some(a);
                }
            }
        }
        None
    }

    // ---------------------------------------------------------------- structure
    pub fn slice(&mut self, t: T, lo: u32, w: u32) -> T {
        let n = &self.terms[t as usize];
        debug_assert!(lo + w <= n.w, "slice {}..+{} of {}", lo, w, n.w);
        if lo == 0 && w == n.w {
            return t;
        }
        let mut out = Vec::with_capacity(2);
        let mut pos = 0;
        for p in n.p.iter() {
            let (s, e) = (pos, pos + p.w);
            pos = e;
            let a = s.max(lo);
            let b = e.min(lo + w);
            if a < b {
                let d = a - s;
                out.push(Piece { w: b - a, c: (p.c >> d) & mask(b - a), xs: p.xs.shift(d) });
            }
            if e >= lo + w {
                break;
            }
        }
        if self.terms[t as usize].vars != 0 {
            return self.idx_slices(out);
        }
        // low bits of an aligned address: every addend is constant there
        if w <= 6 && out.len() == 1 {
            if let Xs::One(a, 0) = out[0].xs {
                if let AK::Sum(l, c) = &self.atoms[a as usize].k {
                    let (l, c, x) = (l.clone(), *c, out[0].c);
                    let mut v = c;
                    let mut ok = true;
                    for (t, k) in l.iter() {
                        let y = self.slice(*t, 0, w);
                        match self.is_const(y) {
                            Some(y) => v = v.wrapping_add(y.wrapping_mul(*k)),
                            None => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        return self.con(w, (v & mask(w)) ^ x);
                    }
                }
            }
        }
        self.mk(out)
    }
    /// Slices of sums of index variables: drop what cannot reach the slice, so that quotients and remainders
    /// by powers of two of a length are themselves linear.
    fn idx_slices(&mut self, out: Vec<Piece>) -> T {
        let mut ps = Vec::with_capacity(out.len());
        for p in out {
            let (a, off) = match p.xs {
                Xs::One(a, off) if self.atoms[a as usize].idx => (a, off),
                _ => {
                    ps.push(p);
                    continue;
                }
            };
            let (_, hi) = self.atom_range(a);
            if off > 0 && off < 128 && hi >> off == 0 {
                ps.push(Piece { w: p.w, c: p.c, xs: Xs::None });
                continue;
            }
            let aw = self.atoms[a as usize].w;
            let (l, c) = match &self.atoms[a as usize].k {
                AK::Sum(l, c) if aw <= 100 && (off > 0 || p.w < aw) => (l.clone(), *c),
                _ => {
                    ps.push(p);
                    continue;
                }
            };
            let mut x: Option<T> = None;
            if off == 0 {
                let m = mask(p.w);
                if l.iter().any(|(_, k)| k & m == 0) {
                    let v: Vec<(T, u128)> =
                        l.iter().filter(|(_, k)| k & m != 0).map(|(t, k)| (self.slice(*t, 0, p.w), k & m)).collect();
                    x = Some(self.mk_sum(p.w, v, c & m));
                }
            } else {
                let m = mask(off);
                let low: Vec<(T, i128)> = l.iter().filter(|(_, k)| k & m != 0).map(|(t, k)| (*t, sx(*k, aw))).collect();
                let high: Vec<(T, u128)> = l.iter().filter(|(_, k)| k & m == 0).map(|(t, k)| (*t, *k)).collect();
                if !high.is_empty() {
                    let cl = (c & m) as i128;
                    if let Some((x0, x1)) = self.lin_bounds(&low, cl) {
                        if x0 >= 0 && x1 <= m as i128 {
                            // modulo 2^(aw - off), all that the slice sees
                            let v: Vec<(T, u128)> =
                                high.iter().map(|(t, k)| (*t, (sx(*k, aw) >> off) as u128 & mask(aw))).collect();
                            let s = self.mk_sum(aw, v, (sx(c, aw) >> off) as u128 & mask(aw));
                            x = Some(self.slice(s, 0, p.w));
                        }
                    }
                }
            }
            match x {
                Some(x) => {
                    let cc = self.con(p.w, p.c);
                    let y = self.xor(x, cc);
                    ps.extend(self.terms[y as usize].p.iter().cloned());
                }
                None => ps.push(p),
            }
        }
        self.mk(ps)
    }

    pub fn concat(&mut self, parts: &[T]) -> T {
        if parts.len() == 1 {
            return parts[0];
        }
        let mut out = Vec::new();
        for t in parts {
            out.extend(self.terms[*t as usize].p.iter().cloned());
        }
        self.mk(out)
    }
    pub fn zext(&mut self, t: T, w: u32) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        let z = self.con(w - tw, 0);
        self.concat(&[t, z])
    }
    pub fn sext(&mut self, t: T, w: u32) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        let s = self.slice(t, tw - 1, 1);
        if let Some(c) = self.is_const(s) {
            let z = self.con(w - tw, if c == 1 { u128::MAX } else { 0 });
            return self.concat(&[t, z]);
        }
        let mut v = vec![t];
        for _ in 0..(w - tw) {
            v.push(s);
        }
        self.concat(&v)
    }

    fn zip2<F: FnMut(&mut Terms, u32, (u128, Xs), (u128, Xs), &mut Vec<Piece>)>(
        &mut self,
        a: T,
        b: T,
        mut f: F,
    ) -> T {
        let pa = self.terms[a as usize].p.clone();
        let pb = self.terms[b as usize].p.clone();
        debug_assert_eq!(self.w(a), self.w(b));
        let mut out = Vec::with_capacity(pa.len().max(pb.len()));
        let (mut i, mut j, mut oi, mut oj) = (0, 0, 0u32, 0u32);
        while i < pa.len() && j < pb.len() {
            let ra = pa[i].w - oi;
            let rb = pb[j].w - oj;
            let w = ra.min(rb);
            let x = ((pa[i].c >> oi) & mask(w), pa[i].xs.shift(oi));
            let y = ((pb[j].c >> oj) & mask(w), pb[j].xs.shift(oj));
            f(self, w, x, y, &mut out);
            if w == ra {
                i += 1;
                oi = 0
            } else {
                oi += w
            }
            if w == rb {
                j += 1;
                oj = 0
            } else {
                oj += w
            }
        }
        self.mk(out)
    }

    pub fn xor(&mut self, a: T, b: T) -> T {
        self.zip2(a, b, |_, w, x, y, out| out.push(Piece { w, c: x.0 ^ y.0, xs: x.1.xor(&y.1) }))
    }
    pub fn not(&mut self, a: T) -> T {
        let mut p = self.terms[a as usize].p.to_vec();
        for q in p.iter_mut() {
            q.c ^= mask(q.w);
        }
        self.mk(p)
    }

    fn push_const_masked(out: &mut Vec<Piece>, w: u32, m: u128, v: &(u128, Xs)) {
        // v & m, split at the runs of m
        let mut i = 0;
        while i < w {
            let b = (m >> i) & 1;
            let mut j = i + 1;
            while j < w && (m >> j) & 1 == b {
                j += 1;
            }
            if b == 0 {
                out.push(Piece { w: j - i, c: 0, xs: Xs::None });
            } else {
                out.push(Piece { w: j - i, c: (v.0 >> i) & mask(j - i), xs: v.1.shift(i) });
            }
            i = j;
        }
    }

    pub fn and(&mut self, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        self.zip2(a, b, |s, w, x, y, out| {
            match (&x.1, &y.1) {
                (Xs::None, Xs::None) => out.push(Piece { w, c: x.0 & y.0, xs: Xs::None }),
                (Xs::None, _) => Self::push_const_masked(out, w, x.0, &y),
                (_, Xs::None) => Self::push_const_masked(out, w, y.0, &x),
                _ => {
                    if x.1 == y.1 {
                        let d = x.0 ^ y.0;
                        // bits where they differ by a constant are zero
                        Self::push_const_masked(out, w, mask(w) & !d, &x);
                        return;
                    }
                    let tx = s.mk(vec![Piece { w, c: x.0, xs: x.1 }]);
                    let ty = s.mk(vec![Piece { w, c: y.0, xs: y.1 }]);
                    let t = s.and_atom(tx, ty);
                    out.extend(s.terms[t as usize].p.iter().cloned());
                }
            }
        })
    }
    fn and_atom(&mut self, x: T, y: T) -> T {
        let w = self.w(x);
        let mut l: Vec<T> = Vec::new();
        for t in [x, y] {
            let mut done = false;
            if let Some(a) = self.full_atom(t) {
                if let AK::And(v) = &self.atoms[a as usize].k {
                    l.extend(v.iter().copied());
                    done = true;
                }
            }
            if !done {
                l.push(t)
            }
        }
        l.sort_unstable();
        l.dedup();
        // x & ~x
        for i in 0..l.len() {
            let n = self.not(l[i]);
            if l.binary_search(&n).is_ok() {
                return self.con(w, 0);
            }
        }
        if l.len() == 1 {
            return l[0];
        }
        let a = self.atom(w, AK::And(l.into_boxed_slice()));
        self.of_atom(a)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        // disjoint or constant positions first
        self.zip2(a, b, |s, w, x, y, out| {
            let xc = matches!(x.1, Xs::None);
            let yc = matches!(y.1, Xs::None);
            if xc && yc {
                out.push(Piece { w, c: x.0 | y.0, xs: Xs::None });
            } else if xc || yc {
                let (m, v) = if xc { (x.0, y) } else { (y.0, x) };
                let mut i = 0;
                while i < w {
                    let b = (m >> i) & 1;
                    let mut j = i + 1;
                    while j < w && (m >> j) & 1 == b {
                        j += 1;
                    }
                    if b == 1 {
                        out.push(Piece { w: j - i, c: mask(j - i), xs: Xs::None });
                    } else {
                        out.push(Piece { w: j - i, c: (v.0 >> i) & mask(j - i), xs: v.1.shift(i) });
                    }
                    i = j;
                }
            } else if x.1 == y.1 {
                let d = x.0 ^ y.0;
                let mut i = 0;
                while i < w {
                    let b = (d >> i) & 1;
                    let mut j = i + 1;
                    while j < w && (d >> j) & 1 == b {
                        j += 1;
                    }
                    if b == 1 {
                        out.push(Piece { w: j - i, c: mask(j - i), xs: Xs::None });
                    } else {
                        out.push(Piece { w: j - i, c: (x.0 >> i) & mask(j - i), xs: x.1.shift(i) });
                    }
                    i = j;
                }
            } else {
                // ~(~x & ~y)
                let tx = s.mk(vec![Piece { w, c: x.0 ^ mask(w), xs: x.1 }]);
                let ty = s.mk(vec![Piece { w, c: y.0 ^ mask(w), xs: y.1 }]);
                let t = s.and_atom(tx, ty);
                let t = s.not(t);
                out.extend(s.terms[t as usize].p.iter().cloned());
            }
        })
    }

    pub fn shl_c(&mut self, t: T, k: u32) -> T {
        let w = self.w(t);
        if k == 0 {
            return t;
        }
        if k >= w {
            return self.con(w, 0);
        }
        let z = self.con(k, 0);
        let s = self.slice(t, 0, w - k);
        self.concat(&[z, s])
    }
    pub fn lshr_c(&mut self, t: T, k: u32) -> T {
        let w = self.w(t);
        if k == 0 {
            return t;
        }
        if k >= w {
            return self.con(w, 0);
        }
        let z = self.con(k, 0);
        let s = self.slice(t, k, w - k);
        self.concat(&[s, z])
    }
    pub fn ashr_c(&mut self, t: T, k: u32) -> T {
        let w = self.w(t);
        let k = k.min(w - 1);
        if k == 0 {
            return t;
        }
        let s = self.slice(t, k, w - k);
        self.sext(s, w)
    }
    pub fn shl(&mut self, t: T, k: T) -> T {
        if let Some(c) = self.is_const(k) {
            let w = self.w(t);
            return self.shl_c(t, c.min(w as u128) as u32);
        }
        if self.is_const(t) == Some(0) {
            return t;
        }
        let w = self.w(t);
        let a = self.atom(w, AK::Shl(t, k));
        self.of_atom(a)
    }
    pub fn lshr(&mut self, t: T, k: T) -> T {
        if let Some(c) = self.is_const(k) {
            let w = self.w(t);
            return self.lshr_c(t, c.min(w as u128) as u32);
        }
        if self.is_const(t) == Some(0) {
            return t;
        }
        let w = self.w(t);
        let a = self.atom(w, AK::Lshr(t, k));
        self.of_atom(a)
    }
    pub fn ashr(&mut self, t: T, k: T) -> T {
        if let Some(c) = self.is_const(k) {
            let w = self.w(t);
            return self.ashr_c(t, c.min(w as u128) as u32);
        }
        let w = self.w(t);
        let a = self.atom(w, AK::Ashr(t, k));
        self.of_atom(a)
    }

    // ---------------------------------------------------------------- linear arithmetic
    /// Linear view modulo 2^w.
    pub fn lin(&mut self, t: T) -> Lin {
        let w = self.w(t);
        let m = mask(w);
        if w > 128 {
            return Lin { t: vec![(t, 1)], c: 0 };
        }
        if let Some(c) = self.is_const(t) {
            return Lin { t: vec![], c };
        }
        let n = &self.terms[t as usize];
        if n.p.len() == 1 {
            if let Xs::One(a, 0) = n.p[0].xs {
                let at = &self.atoms[a as usize];
                if at.w == w {
                    let c0 = n.p[0].c;
                    if c0 == 0 || c0 == m {
                        if let AK::Sum(l, c) = &at.k {
                            if c0 == 0 {
                                return Lin { t: l.to_vec(), c: *c };
                            } else {
                                return Lin {
                                    t: l.iter().map(|(t, k)| (*t, k.wrapping_neg() & m)).collect(),
                                    c: (!*c) & m,
                                };
                            }
                        } else if c0 == m {
                            let tt = self.of_atom(a);
                            return Lin { t: vec![(tt, m)], c: m };
                        }
                    }
                }
            }
            return Lin { t: vec![(t, 1)], c: 0 };
        }
        // [const k bits][low bits of a w-bit sum]
        if n.p.len() == 2 && matches!(n.p[0].xs, Xs::None) && n.p[1].c == 0 {
            if let Xs::One(a, 0) = n.p[1].xs {
                let at = &self.atoms[a as usize];
                if at.w == w {
                    let k = n.p[0].w;
                    let c0 = n.p[0].c;
                    if let AK::Sum(l, c) = &at.k {
                        return Lin {
                            t: l.iter().map(|(t, q)| (*t, (q << k) & m)).collect(),
                            c: (c0.wrapping_add(c << k)) & m,
                        };
                    }
                    let tt = self.of_atom(a);
                    return Lin { t: vec![(tt, (1 << k) & m)], c: c0 };
                }
            }
        }
        // sums of zero-extended index atoms, and shifted 64-bit sums above them
        let mut ok = true;
        for (i, p) in n.p.iter().enumerate() {
            match &p.xs {
                Xs::None => {}
                Xs::One(a, 0) if p.c == 0 => {
                    let at = &self.atoms[*a as usize];
                    let last = i + 1 == n.p.len();
                    if !at.idx || !(at.w == p.w || (last && at.w == w)) {
                        ok = false
                    }
                }
                _ => ok = false,
            }
        }
        if ok {
            let ps = n.p.clone();
            let mut out: Vec<(T, u128)> = vec![];
            let mut c = 0u128;
            let mut pos = 0;
            for p in ps.iter() {
                match &p.xs {
                    Xs::None => c |= p.c << pos,
                    Xs::One(a, _) => {
                        if self.atoms[*a as usize].w == w {
                            // the low bits of a w-bit sum (or variable), shifted
                            if let AK::Sum(l, k) = self.atoms[*a as usize].k.clone() {
                                for (t, q) in l.iter() {
                                    out.push((*t, (q << pos) & m));
                                }
                                c = c.wrapping_add(k << pos);
                            } else {
                                let x = self.of_atom(*a);
                                out.push((x, (1u128 << pos) & m));
                            }
                        } else {
                            let x = self.of_atom(*a);
                            let x = self.zext(x, w);
                            out.push((x, 1u128 << pos));
                        }
                    }
                    _ => unreachable!(),
                }
                pos += p.w;
            }
            // merge duplicates
            out.sort_unstable_by_key(|x| x.0);
            let mut r: Vec<(T, u128)> = vec![];
            for (t, k) in out {
                if let Some(l) = r.last_mut() {
                    if l.0 == t {
                        l.1 = l.1.wrapping_add(k) & m;
                        continue;
                    }
                }
                r.push((t, k));
            }
            r.retain(|x| x.1 != 0);
            return Lin { t: r, c: c & m };
        }
        Lin { t: vec![(t, 1)], c: 0 }
    }

    /// mask of the bits of t that may be one
    fn may_one(&self, t: T) -> u128 {
        let n = &self.terms[t as usize];
        let mut r = 0u128;
        let mut pos = 0;
        for p in n.p.iter() {
            if pos >= 128 {
                break;
            }
            let v = if matches!(p.xs, Xs::None) { p.c } else { mask(p.w) };
            r |= v << pos;
            pos += p.w;
        }
        r
    }

    pub fn mk_sum(&mut self, w: u32, mut l: Vec<(T, u128)>, c: u128) -> T {
        let m = mask(w);
        let c = c & m;
        l.sort_unstable_by_key(|x| x.0);
        let mut r: Vec<(T, u128)> = Vec::with_capacity(l.len());
        for (t, k) in l {
            if let Some(q) = r.last_mut() {
                if q.0 == t {
                    q.1 = q.1.wrapping_add(k) & m;
                    continue;
                }
            }
            r.push((t, k & m));
        }
        r.retain(|x| x.1 != 0);
        if r.is_empty() {
            return self.con(w, c);
        }
        if r.len() == 1 {
            if r[0].1 == 1 && c == 0 {
                return r[0].0;
            }
            if r[0].1 == m && c == m {
                return self.not(r[0].0);
            }
        }
        // disjoint bits: a concatenation
        if r.len() <= 8 {
            let mut seen = c;
            let mut ok = true;
            for (t, k) in r.iter() {
                if k.count_ones() != 1 {
                    ok = false;
                    break;
                }
                let s = k.trailing_zeros();
                let b = self.may_one(*t);
                let bs = (b << s) & m;
                if bs & seen != 0 {
                    ok = false;
                    break;
                }
                seen |= bs;
            }
            if ok {
                let mut x = self.con(w, c);
                for (t, k) in r.iter() {
                    let y = self.shl_c(*t, k.trailing_zeros());
                    x = self.xor(x, y);
                }
                return x;
            }
        }
        let tz = r.iter().map(|x| x.1.trailing_zeros()).min().unwrap();
        if tz > 0 {
            let mm = mask(w - tz);
            let fix = |v: u128| -> u128 {
                let v = (v >> tz) & mm;
                (sx(v, w - tz) as u128) & m
            };
            let inner: Vec<(T, u128)> = r.iter().map(|(t, k)| (*t, fix(*k))).collect();
            let ic = fix(c);
            let s = self.mk_sum(w, inner, ic);
            let low = self.con(tz, c & mask(tz));
            let hi = self.slice(s, 0, w - tz);
            return self.concat(&[low, hi]);
        }
        let a = self.atom(w, AK::Sum(r.into_boxed_slice(), c));
        self.of_atom(a)
    }

    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(x) = self.is_const(a) {
            if let Some(y) = self.is_const(b) {
                return self.con(w, x.wrapping_add(y));
            }
            if x == 0 {
                return b;
            }
        }
        if self.is_const(b) == Some(0) {
            return a;
        }
        if w > 128 {
            let k = self.uf_id("wideadd");
            return self.uf(k, vec![a.min(b), a.max(b)], w);
        }
        let mut x = self.lin(a);
        let y = self.lin(b);
        x.t.extend(y.t);
        self.mk_sum(w, x.t, x.c.wrapping_add(y.c))
    }
    pub fn add_c(&mut self, a: T, k: u128) -> T {
        let w = self.w(a);
        let b = self.con(w, k);
        self.add(a, b)
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let z = self.con(w, 0);
        self.sub(z, a)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.con(w, 0);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let m = mask(w);
        let mut x = self.lin(a);
        let y = self.lin(b);
        x.t.extend(y.t.into_iter().map(|(t, k)| (t, k.wrapping_neg() & m)));
        self.mk_sum(w, x.t, x.c.wrapping_sub(y.c))
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.is_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.is_const(b) {
            if w <= 128 {
                if let Some(x) = self.is_const(a) {
                    return self.con(w, x.wrapping_mul(k));
                }
                if k == 0 {
                    return b;
                }
                if k == 1 {
                    return a;
                }
                let x = self.lin(a);
                let m = mask(w);
                let t = x.t.into_iter().map(|(t, q)| (t, q.wrapping_mul(k) & m)).collect();
                return self.mk_sum(w, t, x.c.wrapping_mul(k));
            }
        }
        // trailing known zeros move out: keep simple
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        let at = self.atom(w, AK::Mul(x, y));
        self.of_atom(at)
    }

    // ---------------------------------------------------------------- ranges
    /// unsigned interval of t as an integer
    pub fn range(&mut self, t: T) -> (u128, u128) {
        let w = self.w(t);
        if let Some(c) = self.is_const(t) {
            return (c, c);
        }
        if w > 128 {
            return (0, u128::MAX);
        }
        if self.terms[t as usize].vars != 0 {
            if let Some((lo, hi)) = self.int_range(t) {
                return (lo as u128, hi as u128);
            }
        }
        self.bits_range(t)
    }
    fn atom_range(&self, a: A) -> (u128, u128) {
        let at = &self.atoms[a as usize];
        match &at.k {
            AK::Var(v) => {
                let vi = &self.vars[*v as usize];
                (vi.lo, vi.hi)
            }
            AK::Sum(l, c) if at.idx && at.w <= 100 => {
                let v: Vec<(T, i128)> = l.iter().map(|(t, k)| (*t, sx(*k, at.w))).collect();
                match self.lin_bounds(&v, sx(*c, at.w)) {
                    Some((x, y)) if x >= 0 && y < 1i128 << at.w => (x as u128, y as u128),
                    Some((x, y)) if x + (1i128 << at.w) >= 0 && y < 0 => {
                        ((x + (1i128 << at.w)) as u128, (y + (1i128 << at.w)) as u128)
                    }
                    _ => (0, mask(at.w)),
                }
            }
            _ => (0, mask(at.w)),
        }
    }
    fn bits_range(&self, t: T) -> (u128, u128) {
        let n = &self.terms[t as usize];
        let mut lo = 0u128;
        let mut hi = 0u128;
        let mut pos = 0;
        for p in n.p.iter() {
            match &p.xs {
                Xs::None => {
                    lo |= p.c << pos;
                    hi |= p.c << pos;
                }
                Xs::One(a, off) if p.c == 0 => {
                    let (al, ah) = self.atom_range(*a);
                    let end = off + p.w;
                    if end >= 128 || ah >> end == 0 {
                        lo |= (al >> off) << pos;
                        hi |= (ah >> off) << pos;
                    } else {
                        hi |= mask(p.w) << pos;
                    }
                }
                _ => hi |= mask(p.w) << pos,
            }
            pos += p.w;
        }
        (lo, hi)
    }
    /// the variable under a zero extension
    pub fn zext_var(&self, t: T) -> Option<u32> {
        let n = &self.terms[t as usize];
        if n.p.is_empty() || n.p[0].c != 0 {
            return None;
        }
        for p in n.p[1..].iter() {
            if p.c != 0 || !matches!(p.xs, Xs::None) {
                return None;
            }
        }
        if let Xs::One(a, 0) = n.p[0].xs {
            if let AK::Var(v) = self.atoms[a as usize].k {
                if self.atoms[a as usize].w == n.p[0].w {
                    return Some(v);
                }
            }
        }
        None
    }
    /// bounds of a linear form over the integers
    fn lin_bounds(&self, l: &[(T, i128)], c: i128) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (c, c);
        for (s, k) in l {
            let (a, b) = self.bits_range(*s);
            let (x, y) = (k.checked_mul(a as i128)?, k.checked_mul(b as i128)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        for f in &self.facts {
            // l = ratio * fact + rest, for every ratio that cancels one of the variables
            let mut tried: Vec<i128> = vec![];
            for (v, k) in &f.0 {
                let ratio = match l.iter().find(|x| self.zext_var(x.0) == Some(*v)) {
                    Some((_, q)) if q % k == 0 => q / k,
                    _ => continue,
                };
                if tried.contains(&ratio) {
                    continue;
                }
                tried.push(ratio);
                let (p, q) = (ratio.checked_mul(f.1)?, ratio.checked_mul(f.2)?);
                let (mut l2, mut h2) = (c + p.min(q), c + p.max(q));
                let mut rest = |k: i128, a: u128, b: u128| -> Option<()> {
                    let (x, y) = (k.checked_mul(a as i128)?, k.checked_mul(b as i128)?);
                    l2 = l2.checked_add(x.min(y))?;
                    h2 = h2.checked_add(x.max(y))?;
                    Some(())
                };
                for (s, k) in l {
                    let fk = match self.zext_var(*s) {
                        Some(v) => f.0.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(0),
                        None => 0,
                    };
                    if k - ratio * fk != 0 {
                        let (a, b) = self.bits_range(*s);
                        rest(k - ratio * fk, a, b)?;
                    }
                }
                for (v, fk) in &f.0 {
                    if !l.iter().any(|x| self.zext_var(x.0) == Some(*v)) {
                        let i = &self.vars[*v as usize];
                        rest(-ratio * fk, i.lo, i.hi)?;
                    }
                }
                lo = lo.max(l2);
                hi = hi.min(h2);
            }
        }
        Some((lo, hi))
    }
    /// signed-integer linear form if it does not wrap (value of t == sum over the integers)
    pub fn int_lin(&mut self, t: T) -> Option<(Vec<(T, i128)>, i128)> {
        let w = self.w(t);
        if w > 100 {
            return None;
        }
        let l = self.lin(t);
        let c = sx(l.c, w);
        let v: Vec<(T, i128)> = l.t.iter().map(|(s, k)| (*s, sx(*k, w))).collect();
        let (lo, hi) = self.lin_bounds(&v, c)?;
        // the unsigned constant may be meant: shift by 2^w if that makes it fit
        let full = 1i128 << w;
        if lo >= 0 && hi < full {
            return Some((v, c));
        }
        if lo + full >= 0 && hi < 0 {
            return Some((v, c + full));
        }
        None
    }
    fn int_range(&mut self, t: T) -> Option<(i128, i128)> {
        let (v, c) = self.int_lin(t)?;
        self.lin_bounds(&v, c)
    }
    /// integer bounds of the sum of k * (unsigned value of t)
    pub fn sum_range(&mut self, l: &[(T, i128)], c: i128) -> (i128, i128) {
        let mut v: Vec<(T, i128)> = vec![];
        let mut cc = c;
        for (t, k) in l {
            let (x, xc) = match self.int_lin(*t) {
                Some(x) => x,
                None => (vec![(*t, 1)], 0),
            };
            cc += xc * k;
            for (s, q) in x {
                if let Some(e) = v.iter_mut().find(|e| e.0 == s) {
                    e.1 += q * k
                } else {
                    v.push((s, q * k))
                }
            }
        }
        v.retain(|x| x.1 != 0);
        self.lin_bounds(&v, cc).unwrap_or((i128::MIN, i128::MAX))
    }

    /// decide a < b (unsigned) by linear intervals
    /// compare piece by piece from the most significant end
    fn lex_ult(&mut self, a: T, b: T) -> Option<bool> {
        if self.w(a) > 128 {
            return None;
        }
        let cuts = |x: &[Piece]| {
            let mut v = vec![];
            let mut pos = 0;
            for p in x.iter() {
                pos += p.w;
                v.push(pos);
            }
            v
        };
        let mut c = cuts(&self.terms[a as usize].p);
        c.extend(cuts(&self.terms[b as usize].p));
        c.push(0);
        c.sort();
        c.dedup();
        if c.len() <= 2 {
            return None;
        }
        let (mut ge, mut le) = (true, true);
        for i in (0..c.len() - 1).rev() {
            let x = self.slice(a, c[i], c[i + 1] - c[i]);
            let y = self.slice(b, c[i], c[i + 1] - c[i]);
            if x == y {
                continue;
            }
            let (xl, xh) = self.bits_range(x);
            let (yl, yh) = self.bits_range(y);
            if xl > yh && ge {
                return Some(false);
            }
            if xh < yl && le {
                return Some(true);
            }
            if xl >= yh {
                le = false;
            } else if xh <= yl {
                ge = false;
            } else {
                return None;
            }
            if !ge && !le {
                return None;
            }
        }
        if ge {
            return Some(false);
        }
        None
    }
    pub fn decide_ult(&mut self, a: T, b: T) -> Option<bool> {
        if a == b {
            return Some(false);
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl {
            return Some(true);
        }
        if al >= bh {
            return Some(false);
        }
        if let Some(r) = self.lex_ult(a, b) {
            return Some(r);
        }
        if self.w(a) > 100 {
            return None;
        }
        let (lo, hi) = self.sum_range(&[(b, 1), (a, -1)], 0);
        if lo > 0 {
            return Some(true);
        }
        if hi <= 0 {
            return Some(false);
        }
        None
    }

    // ---------------------------------------------------------------- predicates
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.con(1, 1);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        // strip equal low and high pieces; differing constants decide
        let pa = self.terms[a as usize].p.clone();
        let pb = self.terms[b as usize].p.clone();
        if pa.len() > 1 || pb.len() > 1 {
            let mut segs: Vec<(u32, u32, bool)> = vec![]; // lo,w,equal
            let (mut i, mut j, mut oi, mut oj, mut pos) = (0, 0, 0u32, 0u32, 0u32);
            while i < pa.len() && j < pb.len() {
                let ra = pa[i].w - oi;
                let rb = pb[j].w - oj;
                let k = ra.min(rb);
                let xs = pa[i].xs.shift(oi) == pb[j].xs.shift(oj);
                let ca = (pa[i].c >> oi) & mask(k);
                let cb = (pb[j].c >> oj) & mask(k);
                if xs && ca != cb {
                    return self.con(1, 0);
                }
                segs.push((pos, k, xs));
                pos += k;
                if k == ra {
                    i += 1;
                    oi = 0
                } else {
                    oi += k
                }
                if k == rb {
                    j += 1;
                    oj = 0
                } else {
                    oj += k
                }
            }
            let keep: Vec<(u32, u32)> = segs.iter().filter(|s| !s.2).map(|s| (s.0, s.1)).collect();
            let total: u32 = keep.iter().map(|s| s.1).sum();
            if total < w {
                let xa: Vec<T> = keep.iter().map(|(l, k)| self.slice(a, *l, *k)).collect();
                let xb: Vec<T> = keep.iter().map(|(l, k)| self.slice(b, *l, *k)).collect();
                let xa = self.concat(&xa);
                let xb = self.concat(&xb);
                return self.eq(xa, xb);
            }
        } else if pa[0].xs == pb[0].xs {
            return self.con(1, (pa[0].c == pb[0].c) as u128);
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        let full = if w < 64 && self.is_idx(a) && self.is_idx(b) {
            let mut m = 0;
            for x in [a, b] {
                for p in self.terms[x as usize].p.iter() {
                    p.xs.for_each(|y, _| m = m.max(self.atoms[y as usize].w));
                }
            }
            m
        } else {
            0
        };
        if full > w && full <= 64 {
            // both are the low bits of values which fit: compare at full width
            let za = self.zext(a, full);
            let zb = self.zext(b, full);
            let np = |s: &Self, x: T| s.terms[x as usize].p.len();
            let ok = |s: &Self, x: T, z: T| s.is_const(x).is_some() || np(s, z) <= np(s, x);
            if ok(self, a, za) && ok(self, b, zb) && !(self.is_const(a).is_some() && self.is_const(b).is_some()) {
                return self.eq(za, zb);
            }
        }
        if w <= 64 {
            if let Some(true) = self.decide_ult(a, b) {
                return self.con(1, 0);
            }
            if let Some(true) = self.decide_ult(b, a) {
                return self.con(1, 0);
            }
            let d = self.sub(a, b);
            if let Some(c) = self.is_const(d) {
                return self.con(1, (c == 0) as u128);
            }
            // x ^ c1 == c2, Sum + c == c2: move constants to one side
            if self.is_const(b).is_none() && self.is_const(a).is_none() {
                let idx = self.is_idx(a) && self.is_idx(b);
                if idx {
                    let l = self.lin(d);
                    let _ = l;
                    let z = self.con(w, 0);
                    if d != a && d != b {
                        return self.eq(d, z);
                    }
                }
            } else {
                let (x, c) = if let Some(c) = self.is_const(a) { (b, c) } else { (a, self.is_const(b).unwrap()) };
                let l = self.lin(x);
                if l.c != 0 && self.is_idx(x) {
                    let k = self.con(w, c.wrapping_sub(l.c));
                    let lc = self.con(w, l.c);
                    let x2 = self.sub(x, lc);
                    if x2 != x {
                        let l2 = self.lin(x2);
                        if l2.c == 0 {
                            return self.eq(x2, k);
                        }
                    }
                }
                // not(x) == c
                let n = &self.terms[x as usize];
                if n.p.len() == 1 && n.p[0].c != 0 && !matches!(n.p[0].xs, Xs::None) {
                    let k = n.p[0].c;
                    let kk = self.con(w, k);
                    let x2 = self.xor(x, kk);
                    let c2 = self.con(w, c ^ k);
                    return self.eq(x2, c2);
                }
            }
        }
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        let at = self.atom(1, AK::Eq(x, y));
        self.of_atom(at)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if let Some(d) = self.decide_ult(a, b) {
            return self.con(1, d as u128);
        }
        let w = self.w(a);
        if let Some(c) = self.is_const(b) {
            if c == 1 {
                let z = self.con(w, 0);
                return self.eq(a, z);
            }
            // a < 2^k  <=> high bits zero
            if c.is_power_of_two() {
                let k = c.trailing_zeros();
                let h = self.slice(a, k, w - k);
                let z = self.con(w - k, 0);
                return self.eq(h, z);
            }
        }
        if let Some(c) = self.is_const(a) {
            if c == 0 {
                let z = self.con(w, 0);
                let e = self.eq(b, z);
                return self.not(e);
            }
            // c < b  <=> !(b < c+1)
            let k = self.con(w, c + 1);
            let r = self.ult(b, k);
            return self.not(r);
        }
        let at = self.atom(1, AK::Ult(a, b));
        self.of_atom(at)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if w <= 128 {
                return self.con(1, (sx(x, w) < sx(y, w)) as u128);
            }
        }
        if a == b {
            return self.con(1, 0);
        }
        let sa = self.slice(a, w - 1, 1);
        let sb = self.slice(b, w - 1, 1);
        match (self.is_const(sa), self.is_const(sb)) {
            (Some(x), Some(y)) => {
                if x == y {
                    return self.ult(a, b);
                }
                return self.con(1, x);
            }
            (None, Some(0)) if self.is_const(b) == Some(0) => return sa,
            _ => {}
        }
        if w <= 64 {
            let (al, ah) = self.range(a);
            let (bl, bh) = self.range(b);
            let h = 1u128 << (w - 1);
            if ah < h && bh < h || (al >= h && bl >= h) {
                return self.ult(a, b);
            }
            if al >= h && bh < h {
                return self.con(1, 1);
            }
            if bl >= h && ah < h {
                return self.con(1, 0);
            }
        }
        let at = self.atom(1, AK::Slt(a, b));
        self.of_atom(at)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.is_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        // canonical polarity of the condition
        let (c, a, b) = {
            let n = &self.terms[c as usize];
            if n.p[0].c == 1 {
                (self.not(c), b, a)
            } else {
                (c, a, b)
            }
        };
        self.zip2(a, b, |s, w, x, y, out| {
            if x == y {
                out.push(Piece { w, c: x.0, xs: x.1 });
                return;
            }
            let tx = s.mk(vec![Piece { w, c: x.0, xs: x.1 }]);
            let ty = s.mk(vec![Piece { w, c: y.0, xs: y.1 }]);
            let at = s.atom(w, AK::Ite(c, tx, ty));
            out.push(Piece { w, c: 0, xs: Xs::One(at, 0) });
        })
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k != 0 {
                if let Some(x) = self.is_const(a) {
                    return self.con(w, x / k);
                }
                if k.is_power_of_two() {
                    return self.lshr_c(a, k.trailing_zeros());
                }
            }
        }
        let at = self.atom(w, AK::Udiv(a, b));
        self.of_atom(at)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k != 0 {
                if let Some(x) = self.is_const(a) {
                    return self.con(w, x % k);
                }
                if k.is_power_of_two() {
                    let n = k.trailing_zeros();
                    if n == 0 {
                        return self.con(w, 0);
                    }
                    let s = self.slice(a, 0, n);
                    return self.zext(s, w);
                }
            }
        }
        if let Some(true) = self.decide_ult(a, b) {
            return a;
        }
        let at = self.atom(w, AK::Urem(a, b));
        self.of_atom(at)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if y != 0 {
                return self.con(w, sx(x, w).wrapping_div(sx(y, w)) as u128);
            }
        }
        if self.range(a).1 < 1 << (w - 1) && self.range(b).1 < 1 << (w - 1) {
            return self.udiv(a, b);
        }
        let at = self.atom(w, AK::Sdiv(a, b));
        self.of_atom(at)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if y != 0 {
                return self.con(w, sx(x, w).wrapping_rem(sx(y, w)) as u128);
            }
        }
        if self.range(a).1 < 1 << (w - 1) && self.range(b).1 < 1 << (w - 1) {
            return self.urem(a, b);
        }
        let at = self.atom(w, AK::Srem(a, b));
        self.of_atom(at)
    }
    pub fn select(&mut self, arr: u32, off: T) -> T {
        let at = self.atom(8, AK::Select(arr, off));
        self.of_atom(at)
    }
    pub fn uf_id(&mut self, name: &str) -> u32 {
        if let Some(x) = self.ufmap.get(name) {
            return *x;
        }
        let id = self.ufs.len() as u32;
        self.ufs.push((name.into(), 0));
        self.ufmap.insert(name.into(), id);
        id
    }
    pub fn uf(&mut self, id: u32, args: Vec<T>, w: u32) -> T {
        let at = self.atom(w, AK::Uf(id, args.into_boxed_slice()));
        self.of_atom(at)
    }
    pub fn rotl_c(&mut self, t: T, k: u32) -> T {
        let w = self.w(t);
        let k = k % w;
        if k == 0 {
            return t;
        }
        let hi = self.slice(t, w - k, k);
        let lo = self.slice(t, 0, w - k);
        self.concat(&[hi, lo])
    }
    pub fn bool_true(&mut self) -> T {
        self.con(1, 1)
    }
    pub fn vars_of(&self, t: T) -> u128 {
        self.terms[t as usize].vars
    }
    pub fn is_junk(&self, t: T) -> bool {
        self.terms[t as usize].junk
    }

    // ---------------------------------------------------------------- substitution
    pub fn atom_children(&self, a: A) -> Vec<T> {
        match &self.atoms[a as usize].k {
            AK::Var(_) => vec![],
            AK::Sum(l, _) => l.iter().map(|x| x.0).collect(),
            AK::Mul(a, b)
            | AK::Eq(a, b)
            | AK::Ult(a, b)
            | AK::Slt(a, b)
            | AK::Shl(a, b)
            | AK::Lshr(a, b)
            | AK::Ashr(a, b)
            | AK::Udiv(a, b)
            | AK::Urem(a, b)
            | AK::Sdiv(a, b)
            | AK::Srem(a, b) => vec![*a, *b],
            AK::And(l) | AK::Uf(_, l) => l.to_vec(),
            AK::Ite(a, b, c) => vec![*a, *b, *c],
            AK::Select(_, t) => vec![*t],
        }
    }

    pub fn subst(&mut self, t: T, s: &mut Subst) -> T {
        if self.terms[t as usize].vars & s.mask == 0 && s.plain.is_empty() {
            return t;
        }
        if let Some(r) = s.memo.get(&t) {
            return *r;
        }
        let ps = self.terms[t as usize].p.clone();
        let mut parts: Vec<T> = vec![];
        for p in ps.iter() {
            let mut acc = self.con(p.w, p.c);
            let mut l = vec![];
            p.xs.for_each(|a, lo| l.push((a, lo)));
            for (a, lo) in l {
                let at = self.subst_atom(a, s);
                let sl = self.slice(at, lo, p.w);
                acc = self.xor(acc, sl);
            }
            parts.push(acc);
        }
        let r = self.concat(&parts);
        s.memo.insert(t, r);
        r
    }
    fn subst_atom(&mut self, a: A, s: &mut Subst) -> T {
        if self.atoms[a as usize].vars & s.mask == 0 && s.plain.is_empty() {
            return self.of_atom(a);
        }
        if let Some(r) = s.amemo.get(&a) {
            return *r;
        }
        let w = self.atoms[a as usize].w;
        let k = self.atoms[a as usize].k.clone();
        let r = match k {
            AK::Var(v) => {
                if let Some(x) = s.map.get(&v) {
                    *x
                } else {
                    self.of_atom(a)
                }
            }
            AK::Sum(l, c) => {
                let mut acc: Vec<(T, u128)> = vec![];
                let mut cc = c;
                let m = mask(w);
                for (t, k) in l.iter() {
                    let x = self.subst(*t, s);
                    let y = self.lin(x);
                    for (u, q) in y.t {
                        acc.push((u, q.wrapping_mul(*k) & m));
                    }
                    cc = cc.wrapping_add(y.c.wrapping_mul(*k));
                }
                self.mk_sum(w, acc, cc)
            }
            AK::Mul(x, y) => {
                let (x, y) = (self.subst(x, s), self.subst(y, s));
                self.mul(x, y)
            }
            AK::Eq(x, y) => {
                let (x, y) = (self.subst(x, s), self.subst(y, s));
                self.eq(x, y)
            }
            AK::Ult(x, y) => {
                let (x, y) = (self.subst(x, s), self.subst(y, s));
                self.ult(x, y)
            }
            AK::Slt(x, y) => {
                let (x, y) = (self.subst(x, s), self.subst(y, s));
                self.slt(x, y)
            }
            AK::Shl(x, y) => {
                let (x, y) = (self.subst(x, s), self.subst(y, s));
                self.shl(x, y)
            }
            AK::Lshr(x, y) => {
                let (x, y) = (self.subst(x, s), self.subst(y, s));
                self.lshr(x, y)
            }
            AK::Ashr(x, y) => {
                let (x, y) = (self.subst(x, s), self.subst(y, s));
                self.ashr(x, y)
            }
            AK::Udiv(x, y) => {
                let (x, y) = (self.subst(x, s), self.subst(y, s));
                self.udiv(x, y)
            }
            AK::Urem(x, y) => {
                let (x, y) = (self.subst(x, s), self.subst(y, s));
                self.urem(x, y)
            }
            AK::Sdiv(x, y) => {
                let (x, y) = (self.subst(x, s), self.subst(y, s));
                self.sdiv(x, y)
            }
            AK::Srem(x, y) => {
                let (x, y) = (self.subst(x, s), self.subst(y, s));
                self.srem(x, y)
            }
            AK::And(l) => {
                let mut acc = self.con(w, u128::MAX);
                for t in l.iter() {
                    let x = self.subst(*t, s);
                    acc = self.and(acc, x);
                }
                acc
            }
            AK::Uf(f, l) => {
                let l2: Vec<T> = l.iter().map(|t| self.subst(*t, s)).collect();
                self.uf(f, l2, w)
            }
            AK::Ite(c, x, y) => {
                let (c, x, y) = (self.subst(c, s), self.subst(x, s), self.subst(y, s));
                self.ite(c, x, y)
            }
            AK::Select(arr, t) => {
                let x = self.subst(t, s);
                self.select(arr, x)
            }
        };
        s.amemo.insert(a, r);
        r
    }

    // ---------------------------------------------------------------- concrete evaluation
    pub fn eval(&self, t: T, e: &mut Env) -> Vec<(u32, u128)> {
        // list of (width, value) per piece
        let n = &self.terms[t as usize];
        let mut out = Vec::with_capacity(n.p.len());
        for p in n.p.iter() {
            let mut v = p.c;
            let mut l: Vec<(A, u32)> = vec![];
            p.xs.for_each(|a, lo| l.push((a, lo)));
            for (a, lo) in l {
                v ^= (self.eval_atom(a, e) >> lo) & mask(p.w);
            }
            out.push((p.w, v));
        }
        out
    }
    pub fn eval1(&self, t: T, e: &mut Env) -> u128 {
        let v = self.eval(t, e);
        let mut r = 0u128;
        let mut pos = 0;
        for (w, x) in v {
            if pos < 128 {
                r |= x << pos;
            }
            pos += w;
        }
        r
    }
    fn eval_atom(&self, a: A, e: &mut Env) -> u128 {
        if let Some(v) = e.memo.get(&a) {
            return *v;
        }
        self.work();
        let at = &self.atoms[a as usize];
        let w = at.w;
        let m = mask(w);
        let v = match &at.k {
            AK::Var(v) => e.var(self, *v),
            AK::Sum(l, c) => {
                let mut s = *c;
                for (t, k) in l.iter() {
                    s = s.wrapping_add(self.eval1(*t, e).wrapping_mul(*k));
                }
                s & m
            }
            AK::Mul(x, y) => self.eval1(*x, e).wrapping_mul(self.eval1(*y, e)) & m,
            AK::And(l) => {
                let mut s = m;
                for t in l.iter() {
                    s &= self.eval1(*t, e);
                }
                s
            }
            AK::Ite(c, x, y) => {
                if self.eval1(*c, e) == 1 {
                    self.eval1(*x, e)
                } else {
                    self.eval1(*y, e)
                }
            }
            AK::Eq(x, y) => (self.eval(*x, e) == self.eval(*y, e) || self.eval1(*x, e) == self.eval1(*y, e) && self.w(*x) <= 128) as u128,
            AK::Ult(x, y) => (self.eval1(*x, e) < self.eval1(*y, e)) as u128,
            AK::Slt(x, y) => {
                let k = self.w(*x);
                (sx(self.eval1(*x, e), k) < sx(self.eval1(*y, e), k)) as u128
            }
            AK::Shl(x, y) => {
                let k = self.eval1(*y, e);
                if k >= w as u128 {
                    0
                } else {
                    (self.eval1(*x, e) << k) & m
                }
            }
            AK::Lshr(x, y) => {
                let k = self.eval1(*y, e);
                if k >= w as u128 {
                    0
                } else {
                    self.eval1(*x, e) >> k
                }
            }
            AK::Ashr(x, y) => {
                let k = self.eval1(*y, e).min(w as u128 - 1);
                ((sx(self.eval1(*x, e), w) >> k) as u128) & m
            }
            AK::Udiv(x, y) => {
                let k = self.eval1(*y, e);
                if k == 0 {
                    m
                } else {
                    self.eval1(*x, e) / k
                }
            }
            AK::Urem(x, y) => {
                let k = self.eval1(*y, e);
                if k == 0 {
                    self.eval1(*x, e)
                } else {
                    self.eval1(*x, e) % k
                }
            }
            AK::Sdiv(x, y) => {
                let k = sx(self.eval1(*y, e), w);
                if k == 0 {
                    m
                } else {
                    (sx(self.eval1(*x, e), w).wrapping_div(k) as u128) & m
                }
            }
            AK::Srem(x, y) => {
                let k = sx(self.eval1(*y, e), w);
                if k == 0 {
                    self.eval1(*x, e)
                } else {
                    (sx(self.eval1(*x, e), w).wrapping_rem(k) as u128) & m
                }
            }
            AK::Select(arr, t) => {
                let o = self.eval1(*t, e);
                e.byte(*arr, o) as u128
            }
            AK::Uf(..) if e.atoms.contains_key(&a) => e.atoms[&a],
            AK::Uf(f, l) => {
                let mut h = Fx::default();
                h.write_u32(*f);
                h.write_u64(e.seed);
                for t in l.iter() {
                    for (w, v) in self.eval(*t, e) {
                        h.write_u32(w);
                        h.write_u128(v);
                    }
                }
                let a = h.finish();
                h.write_u64(77);
                let b = h.finish();
                mix(a, b) & m
            }
        };
        e.memo.insert(a, v);
        v
    }

    // ---------------------------------------------------------------- printing
    pub fn show(&self, t: T) -> String {
        SHOWN.with(|s| s.set(200));
        self.show_d(t, 3)
    }
    pub fn show_d(&self, t: T, d: u32) -> String {
        let n = &self.terms[t as usize];
        let mut s = vec![];
        for p in n.p.iter().rev() {
            if SHOWN.with(|s| s.get()) == 0 {
                s.push("..".into());
                break;
            }
            let mut q = vec![];
            if p.c != 0 || matches!(p.xs, Xs::None) {
                q.push(format!("{:#x}", p.c));
            }
            p.xs.for_each(|a, lo| {
                let at = &self.atoms[a as usize];
                let body = self.show_atom(a, d);
                if lo == 0 && at.w == p.w {
                    q.push(body)
                } else {
                    q.push(format!("{}[{}..{}]", body, lo, lo + p.w))
                }
            });
            s.push(format!("{}:{}", q.join("^"), p.w));
        }
        if s.len() == 1 {
            s.pop().unwrap()
        } else {
            format!("<{}>", s.join(","))
        }
    }
    pub fn show_atom(&self, a: A, d: u32) -> String {
        let at = &self.atoms[a as usize];
        let left = SHOWN.with(|s| {
            let x = s.get();
            s.set(x.saturating_sub(1));
            x
        });
        if left == 0 {
            return "..".into();
        }
        if d == 0 {
            if let AK::Var(v) = &at.k {
                return self.vars[*v as usize].name.clone();
            }
            return format!("a{}", a);
        }
        let f = |t: T| self.show_d(t, d - 1);
        match &at.k {
            AK::Var(v) => self.vars[*v as usize].name.clone(),
            AK::Sum(l, c) => {
                let mut s: Vec<String> = l
                    .iter()
                    .map(|(t, k)| if *k == 1 { f(*t) } else { format!("{}*{}", sx(*k, at.w), f(*t)) })
                    .collect();
                if *c != 0 {
                    s.push(format!("{}", sx(*c, at.w)))
                }
                format!("({})", s.join("+"))
            }
            AK::Mul(x, y) => format!("({}*{})", f(*x), f(*y)),
            AK::And(l) => format!("and({})", l.iter().map(|t| f(*t)).collect::<Vec<_>>().join(",")),
            AK::Ite(c, x, y) => format!("ite({},{},{})", f(*c), f(*x), f(*y)),
            AK::Select(ar, t) => format!("{}[{}]", self.arrays[*ar as usize], f(*t)),
            AK::Uf(u, l) => format!(
                "{}({})",
                self.ufs[*u as usize].0,
                l.iter().map(|t| f(*t)).collect::<Vec<_>>().join(",")
            ),
            k => {
                let n = format!("{:?}", k);
                let n = n.split('(').next().unwrap().to_string();
                let c = self.atom_children(a);
                format!("{}({})", n, c.iter().map(|t| f(*t)).collect::<Vec<_>>().join(","))
            }
        }
    }
}

pub fn mix(a: u64, b: u64) -> u128 {
    let f = |mut z: u64| {
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    };
    ((f(a) as u128) << 64) | f(b ^ 0x9e3779b97f4a7c15) as u128
}

pub struct Subst {
    pub map: FxMap<u32, T>,
    pub mask: u128,
    /// non-index variables in the map: no mask shortcut
    pub plain: Vec<u32>,
    memo: FxMap<T, T>,
    amemo: FxMap<A, T>,
}
impl Subst {
    pub fn new(tt: &Terms, l: &[(T, T)]) -> Subst {
        let mut s = Subst {
            map: FxMap::default(),
            mask: 0,
            plain: vec![],
            memo: FxMap::default(),
            amemo: FxMap::default(),
        };
        for (v, x) in l {
            let id = tt.var_of(*v).expect("substitution of a non-variable");
            s.map.insert(id, *x);
            let vi = &tt.vars[id as usize];
            if vi.bit < 128 {
                s.mask |= 1 << vi.bit
            } else {
                s.plain.push(id)
            }
        }
        s
    }
}

/// Concrete environment: fixed values, everything else pseudo-random from the seed.
pub struct Env {
    pub seed: u64,
    pub fixed: FxMap<u32, u128>,
    pub bytes: FxMap<(u32, u128), u8>,
    /// values of uninterpreted applications
    pub atoms: FxMap<A, u128>,
    /// mode: 0 random, 1 small values, 2 all-ones-ish
    pub mode: u32,
    memo: FxMap<A, u128>,
}
impl Env {
    pub fn new(seed: u64) -> Env {
        Env { seed, fixed: FxMap::default(), bytes: FxMap::default(), atoms: FxMap::default(), mode: 0, memo: FxMap::default() }
    }
    pub fn var(&mut self, tt: &Terms, v: u32) -> u128 {
        if let Some(x) = self.fixed.get(&v) {
            return *x;
        }
        let vi = &tt.vars[v as usize];
        let r = mix(self.seed.wrapping_mul(31).wrapping_add(v as u64 * 7919 + 1), self.seed ^ ((v as u64) << 32));
        if vi.idx || vi.lo != 0 || vi.hi != mask(vi.w) {
            let span = vi.hi - vi.lo;
            let cap = match self.seed % 4 {
                0 => span.min(3),
                1 => span.min(40),
                _ => span,
            };
            let x = if cap == u128::MAX { r } else { vi.lo + r % (cap + 1) };
            return x & mask(vi.w);
        }
        let r = match self.mode {
            1 => r % 3,
            2 => !(r % 3),
            // halves, bytes and words of zeros and ones among random ones
            3 => match (r >> 100) & 7 {
                0 => 0,
                1 => !0,
                2 => r & 0xffff_ffff,
                3 => r << 32,
                4 => r & 0x00ff_00ff_00ff_00ff,
                _ => r,
            },
            _ => r,
        };
        r & mask(vi.w)
    }
    pub fn byte(&mut self, arr: u32, off: u128) -> u8 {
        if let Some(b) = self.bytes.get(&(arr, off)) {
            return *b;
        }
        let r = mix(self.seed ^ (arr as u64) << 48, off as u64 ^ 0x5555);
        r as u8
    }
}
