//! Deciding what the normal form leaves open: random refutation first, then Z3 on the bit-vector meaning of the
//! terms.  A model becomes a concrete environment, from which the replay program gets its input.
use crate::exec::Exec;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::process::{Command, Stdio};

pub enum Ans {
    Yes,
    /// refuted: in words, and the assignment
    No(String, Box<Env>),
    Unknown(String),
}
/// what one job may spend on the solver
const BUDGET_MS: u64 = 40_000;

/// an assignment under which the path condition holds, if a random one is at hand
fn random(t: &Terms, pc: &[T], seeds: std::ops::Range<u64>) -> Option<Env> {
    for seed in seeds {
        let mut e = Env::new(seed);
        e.mode = (seed % 5) as u32;
        if pc.iter().all(|c| t.eval1(*c, &mut e) == 1) && facts_ok(t, &mut e) {
            return Some(e);
        }
    }
    None
}
pub fn infeasible(ex: &mut Exec, pc: &[T]) -> bool {
    if pc.iter().any(|c| ex.t.is_junk(*c)) || random(&ex.t, pc, 1..8).is_some() {
        return false;
    }
    matches!(solve(ex, pc, None, 2000), Sat::Unsat)
}
/// an assignment on which the path is taken
pub fn witness(ex: &mut Exec, pc: &[T]) -> Option<Env> {
    if pc.iter().any(|c| ex.t.is_junk(*c)) {
        return None;
    }
    if let Some(e) = random(&ex.t, pc, 1..40) {
        return Some(e);
    }
    match solve(ex, pc, None, 6000) {
        Sat::Sat(e) => Some(*e),
        _ => None,
    }
}
pub fn equal(ex: &mut Exec, pc: &[T], a: T, b: T) -> Ans {
    if ex.t.is_junk(a) || ex.t.is_junk(b) {
        return Ans::Unknown("depends on uninitialised memory".into());
    }
    for seed in 1..48u64 {
        let mut e = Env::new(seed);
        e.mode = (seed % 5) as u32;
        if pc.iter().any(|c| ex.t.eval1(*c, &mut e) != 1) || !facts_ok(&ex.t, &mut e) {
            continue;
        }
        if ex.t.eval(a, &mut e) != ex.t.eval(b, &mut e) {
            let (x, y) = (ex.t.eval1(a, &mut e), ex.t.eval1(b, &mut e));
            return Ans::No(format!("random assignment {}: {:#x} and {:#x}", seed, x, y), Box::new(e));
        }
    }
    // the path may be rare: any assignment on it usually tells the two sides apart
    if !pc.is_empty() && random(&ex.t, pc, 1..48).is_none() {
        match solve(ex, pc, None, 6000) {
            Sat::Unsat => return Ans::Yes,
            Sat::Sat(mut e) => {
                if ex.t.eval(a, &mut e) != ex.t.eval(b, &mut e) {
                    let (x, y) = (ex.t.eval1(a, &mut e), ex.t.eval1(b, &mut e));
                    return Ans::No(format!("z3: {:#x} and {:#x}", x, y), e);
                }
            }
            Sat::Unknown => {}
        }
    }
    match solve(ex, pc, Some((a, b)), 6000) {
        Sat::Unsat => Ans::Yes,
        Sat::Sat(mut e) => {
            let (x, y) = (ex.t.eval1(a, &mut e), ex.t.eval1(b, &mut e));
            Ans::No(format!("z3: {:#x} and {:#x}", x, y), e)
        }
        Sat::Unknown => Ans::Unknown("no back end decided it".into()),
    }
}
pub fn facts_ok(t: &Terms, e: &mut Env) -> bool {
    for (l, lo, hi) in t.facts.clone() {
        let mut s = 0i128;
        for (v, k) in &l {
            s += e.var(t, *v) as i128 * k;
        }
        if s < lo || s > hi {
            return false;
        }
    }
    true
}

enum Sat {
    Unsat,
    Sat(Box<Env>),
    Unknown,
}

struct Emit<'a> {
    t: &'a Terms,
    out: String,
    done: HashSet<A>,
    arrays: HashMap<u32, u32>,
    ufs: HashSet<String>,
    vars: BTreeMap<u32, A>,
    selects: Vec<A>,
    ufas: Vec<A>,
}
impl Emit<'_> {
    fn cst(w: u32, v: u128) -> String {
        format!("(_ bv{} {})", v & mask(w.min(128)), w)
    }
    fn term(&mut self, t: T) -> String {
        let n = &self.t.terms[t as usize];
        let mut parts: Vec<String> = vec![];
        for p in n.p.iter() {
            let mut xs: Vec<String> = vec![];
            p.xs.for_each(|a, lo| {
                let aw = self.t.atoms[a as usize].w;
                xs.push(if lo == 0 && aw == p.w { format!("a{}", a) } else { format!("((_ extract {} {}) a{})", lo + p.w - 1, lo, a) });
            });
            if p.c != 0 || xs.is_empty() {
                xs.push(Self::cst(p.w, p.c));
            }
            parts.push(if xs.len() == 1 { xs.pop().unwrap() } else { format!("(bvxor {})", xs.join(" ")) });
        }
        let mut r = parts.remove(0);
        for p in parts {
            r = format!("(concat {} {})", p, r);
        }
        r
    }
    /// fit to a width
    fn fit(&mut self, t: T, w: u32) -> String {
        let k = self.t.w(t);
        let s = self.term(t);
        if k == w {
            s
        } else if k > w {
            format!("((_ extract {} 0) {})", w - 1, s)
        } else {
            format!("((_ zero_extend {}) {})", w - k, s)
        }
    }
    fn need(&mut self, roots: &[T]) {
        // depth first, without recursion
        let mut work: Vec<(A, bool)> = vec![];
        let push = |t: T, tt: &Terms, work: &mut Vec<(A, bool)>| {
            for p in tt.terms[t as usize].p.iter() {
                p.xs.for_each(|a, _| work.push((a, false)));
            }
        };
        for r in roots {
            push(*r, self.t, &mut work);
        }
        while let Some((a, ready)) = work.pop() {
            if self.done.contains(&a) {
                continue;
            }
            if !ready {
                work.push((a, true));
                for c in self.t.atom_children(a) {
                    push(c, self.t, &mut work);
                }
                continue;
            }
            self.done.insert(a);
            self.define(a);
        }
    }
    fn define(&mut self, a: A) {
        let t = self.t;
        let at = &t.atoms[a as usize];
        let w = at.w;
        let e = match &at.k {
            AK::Var(v) => {
                self.vars.insert(*v, a);
                let vi = &t.vars[*v as usize];
                self.out += &format!("(declare-const a{} (_ BitVec {}))\n", a, w);
                if vi.lo != 0 {
                    self.out += &format!("(assert (bvuge a{} {}))\n", a, Self::cst(w, vi.lo));
                }
                if vi.hi != mask(w) {
                    self.out += &format!("(assert (bvule a{} {}))\n", a, Self::cst(w, vi.hi));
                }
                return;
            }
            AK::Sum(l, c) => {
                let mut v: Vec<String> = vec![];
                for (x, k) in l.iter() {
                    let s = self.fit(*x, w);
                    v.push(if *k == 1 { s } else { format!("(bvmul {} {})", Self::cst(w, *k), s) });
                }
                if *c != 0 || v.is_empty() {
                    v.push(Self::cst(w, *c));
                }
                if v.len() == 1 {
                    v.pop().unwrap()
                } else {
                    format!("(bvadd {})", v.join(" "))
                }
            }
            AK::Mul(x, y) => format!("(bvmul {} {})", self.fit(*x, w), self.fit(*y, w)),
            AK::And(l) => {
                let v: Vec<String> = l.iter().map(|x| self.fit(*x, w)).collect();
                if v.len() == 1 {
                    v[0].clone()
                } else {
                    format!("(bvand {})", v.join(" "))
                }
            }
            AK::Ite(c, x, y) => format!("(ite (= {} #b1) {} {})", self.term(*c), self.fit(*x, w), self.fit(*y, w)),
            AK::Eq(x, y) => format!("(ite (= {} {}) #b1 #b0)", self.term(*x), self.term(*y)),
            AK::Ult(x, y) => format!("(ite (bvult {} {}) #b1 #b0)", self.term(*x), self.term(*y)),
            AK::Slt(x, y) => format!("(ite (bvslt {} {}) #b1 #b0)", self.term(*x), self.term(*y)),
            AK::Shl(x, y) => format!("(bvshl {} {})", self.fit(*x, w), self.fit(*y, w)),
            AK::Lshr(x, y) => format!("(bvlshr {} {})", self.fit(*x, w), self.fit(*y, w)),
            AK::Ashr(x, y) => format!("(bvashr {} {})", self.fit(*x, w), self.fit(*y, w)),
            AK::Udiv(x, y) => format!("(bvudiv {} {})", self.fit(*x, w), self.fit(*y, w)),
            AK::Urem(x, y) => format!("(bvurem {} {})", self.fit(*x, w), self.fit(*y, w)),
            AK::Sdiv(x, y) => format!("(bvsdiv {} {})", self.fit(*x, w), self.fit(*y, w)),
            AK::Srem(x, y) => format!("(bvsrem {} {})", self.fit(*x, w), self.fit(*y, w)),
            AK::Select(arr, o) => {
                let ow = t.w(*o);
                if *self.arrays.entry(*arr).or_insert_with(|| {
                    self.out += &format!("(declare-fun arr{} ((_ BitVec {})) (_ BitVec 8))\n", arr, ow);
                    ow
                }) != ow
                {
                    self.out += &format!("(declare-const a{} (_ BitVec {}))\n", a, w);
                    return;
                }
                self.selects.push(a);
                format!("(arr{} {})", arr, self.term(*o))
            }
            AK::Uf(f, l) => {
                let ws: Vec<u32> = l.iter().map(|x| t.w(*x)).collect();
                let n = format!("uf{}_{}_{}", f, w, ws.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("_"));
                if self.ufs.insert(n.clone()) {
                    let s: Vec<String> = ws.iter().map(|x| format!("(_ BitVec {})", x)).collect();
                    self.out += &format!("(declare-fun {} ({}) (_ BitVec {}))\n", n, s.join(" "), w);
                }
                self.ufas.push(a);
                let v: Vec<String> = l.iter().map(|x| self.term(*x)).collect();
                format!("({} {})", n, v.join(" "))
            }
        };
        self.out += &format!("(define-fun a{} () (_ BitVec {}) {})\n", a, w, e);
    }
}

/// is  pc /\ facts /\ a != b  satisfiable?
fn solve(ex: &mut Exec, pc: &[T], ne: Option<(T, T)>, ms: u64) -> Sat {
    if ex.z3_ms > BUDGET_MS || over(ex.t.deadline) {
        return Sat::Unknown;
    }
    let t0 = std::time::Instant::now();
    let r = solve_(&ex.t, pc, ne, ms);
    ex.z3_ms += t0.elapsed().as_millis() as u64;
    ex.z3_calls += 1;
    r
}
fn solve_(t: &Terms, pc: &[T], ne: Option<(T, T)>, ms: u64) -> Sat {
    let mut e = Emit {
        t,
        out: String::from("(set-option :pp.bv-literals false)\n(set-logic ALL)\n"),
        done: HashSet::new(),
        arrays: HashMap::new(),
        ufs: HashSet::new(),
        vars: BTreeMap::new(),
        selects: vec![],
        ufas: vec![],
    };
    let mut roots = pc.to_vec();
    if let Some((a, b)) = ne {
        roots.push(a);
        roots.push(b);
    }
    e.need(&roots);
    if e.done.len() > 60_000 {
        return Sat::Unknown;
    }
    // facts over the variables in play
    for (l, lo, hi) in &t.facts {
        if !l.iter().any(|(v, _)| e.vars.contains_key(v)) {
            continue;
        }
        let tv: Vec<T> = l.iter().map(|(v, _)| t.vars[*v as usize].term).collect();
        e.need(&tv);
        const W: u32 = 136;
        let c = |x: i128| {
            if x >= 0 {
                format!("(_ bv{} {})", x, W)
            } else {
                format!("(bvneg (_ bv{} {}))", x.unsigned_abs(), W)
            }
        };
        let mut v = vec![format!("(_ bv0 {})", W)];
        for (x, k) in l {
            let vi = &t.vars[*x as usize];
            v.push(format!("(bvmul {} ((_ zero_extend {}) a{}))", c(*k), W - vi.w, vi.atom));
        }
        let s = format!("(bvadd {})", v.join(" "));
        e.out += &format!("(assert (bvsge {} {}))\n(assert (bvsle {} {}))\n", s, c(*lo), s, c(*hi));
    }
    for c in pc {
        let s = e.term(*c);
        e.out += &format!("(assert (= {} #b1))\n", s);
    }
    if let Some((a, b)) = ne {
        let (x, y) = (e.term(a), e.term(b));
        e.out += &format!("(assert (not (= {} {})))\n", x, y);
    }
    // what to read back: variables, bytes of the data with their offsets, uninterpreted values
    let mut get: Vec<String> = e.vars.values().map(|a| format!("a{}", a)).collect();
    let sel = e.selects.clone();
    for a in &sel {
        if let AK::Select(_, o) = &t.atoms[*a as usize].k {
            get.push(format!("a{}", a));
            let s = e.term(*o);
            get.push(s);
        }
    }
    for a in &e.ufas {
        get.push(format!("a{}", a));
    }
    e.out += "(check-sat)\n";
    if !get.is_empty() {
        e.out += &format!("(get-value ({}))\n", get.join(" "));
    }
    let bin = if std::path::Path::new("/usr/local/bin/z3-new").exists() { "z3-new" } else { "z3" };
    let mut ch = match Command::new(bin)
        .args(["-in", "-smt2", &format!("-t:{}", ms), &format!("-T:{}", ms / 1000 + 2), "-memory:2500"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return Sat::Unknown,
    };
    {
        let mut i = ch.stdin.take().unwrap();
        let _ = i.write_all(e.out.as_bytes());
    }
    let o = match ch.wait_with_output() {
        Ok(o) => String::from_utf8_lossy(&o.stdout).into_owned(),
        Err(_) => return Sat::Unknown,
    };
    if std::env::var("HWV_SMT").is_ok() {
        eprintln!("z3: {} atoms, {}", e.done.len(), o.lines().next().unwrap_or(""));
    }
    if o.starts_with("unsat") {
        return Sat::Unsat;
    }
    if !o.starts_with("sat") {
        return Sat::Unknown;
    }
    // every requested value in order: the last (_ bvN w) or #x.. of each pair
    let vals = values(&o[3..], get.len());
    if vals.len() != get.len() {
        return Sat::Unknown;
    }
    let mut env = Env::new(1);
    let mut it = vals.into_iter();
    for (v, _) in &e.vars {
        let x = it.next().unwrap();
        env.fixed.insert(*v, x);
    }
    for a in &sel {
        let b = it.next().unwrap();
        let o = it.next().unwrap();
        if let AK::Select(arr, _) = &t.atoms[*a as usize].k {
            env.bytes.insert((*arr, o), b as u8);
        }
    }
    for a in &e.ufas {
        env.atoms.insert(*a, it.next().unwrap());
    }
    Sat::Sat(Box::new(env))
}
/// the value of each (expression value) pair of a get-value answer
fn values(s: &str, n: usize) -> Vec<u128> {
    // tokens
    let mut tok: Vec<&str> = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'(' | b')' => {
                tok.push(&s[i..i + 1]);
                i += 1;
            }
            c if c.is_ascii_whitespace() => i += 1,
            _ => {
                let f = i;
                while i < b.len() && !b[i].is_ascii_whitespace() && b[i] != b'(' && b[i] != b')' {
                    i += 1;
                }
                tok.push(&s[f..i]);
            }
        }
    }
    // ( (e v) (e v) ... )
    let mut out = vec![];
    let mut i = 1;
    while i < tok.len() && out.len() < n {
        if tok[i] != "(" {
            break;
        }
        // find the end of this pair; the value is its last element
        let mut d = 0;
        let mut j = i;
        loop {
            match tok.get(j) {
                Some(&"(") => d += 1,
                Some(&")") => d -= 1,
                None => return out,
                _ => {}
            }
            j += 1;
            if d == 0 {
                break;
            }
        }
        let last = tok[j - 2];
        let v = if let Some(h) = last.strip_prefix("#x") {
            let h = if h.len() > 32 { &h[h.len() - 32..] } else { h };
            u128::from_str_radix(h, 16).ok()
        } else if let Some(h) = last.strip_prefix("#b") {
            let h = if h.len() > 128 { &h[h.len() - 128..] } else { h };
            u128::from_str_radix(h, 2).ok()
        } else if last == ")" {
            // (_ bvN w)
            tok.get(j.wrapping_sub(4)).and_then(|x| x.strip_prefix("bv")).and_then(|x| x.parse().ok())
        } else {
            None
        };
        match v {
            Some(v) => out.push(v),
            None => return out,
        }
        i = j;
    }
    out
}
