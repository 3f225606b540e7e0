//! Contracts: what every public operation of a hasher must do, stated over the abstract state
//! (sixteen lanes, pending bytes) and checked on the paths of the operation's IR.

use crate::exec::*;
use crate::ir::*;
use crate::spec::*;
use crate::sym::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum CK {
    Append,
    Fin(u32),
}
/// A function of the crate whose contract is established by its own jobs.
pub struct Contract {
    pub kind: CK,
    pub model: std::sync::Arc<Model>,
    pub pre: String,
}

/// The abstract state an object holds, if it satisfies the representation invariant.
fn abstract_state(ex: &mut Exec, st: &State, cells: &[Cell], m: &Model) -> Option<(usize, Vec<T>, Vec<T>)> {
    'k: for k in 0..m.at.len() {
        let mut lanes: Vec<Vec<Option<T>>> = vec![vec![None; 8]; 16];
        let mut pend: Vec<Option<T>> = vec![None; k];
        // constants first: they tell the pending count
        for (i, b) in m.at[k].iter().enumerate() {
            if let MB::Const(x) = b {
                match cells[i] {
                    Cell::B(t, o) => {
                        let y = ex.t.slice(t, 8 * o as u32, 8);
                        if ex.t.is_const(y) != Some(*x as u128) {
                            continue 'k;
                        }
                    }
                    _ => continue 'k,
                }
            }
        }
        for (i, b) in m.at[k].iter().enumerate() {
            let slot = match b {
                MB::Lane(l, j) => &mut lanes[*l as usize][*j as usize],
                MB::Pend(j) => &mut pend[*j as usize],
                _ => continue,
            };
            let x = match cells[i] {
                Cell::U | Cell::D => continue 'k,
                c => ex.cell_byte(st, c),
            };
            match slot {
                None => *slot = Some(x),
                Some(y) if *y == x => {}
                _ => continue 'k,
            }
        }
        let mut l = vec![];
        for x in &lanes {
            let b: Option<Vec<T>> = x.iter().cloned().collect();
            match b {
                Some(b) => l.push(ex.t.concat(&b)),
                None => continue 'k,
            }
        }
        let p: Option<Vec<T>> = pend.into_iter().collect();
        if let Some(p) = p {
            return Some((k, l, p));
        }
    }
    None
}
fn model_cells(ex: &mut Exec, m: &Model, k: usize, lanes: &[T], pend: &[T], tag: &str) -> Vec<Cell> {
    m.at[k]
        .iter()
        .enumerate()
        .map(|(i, b)| match b {
            MB::Lane(l, j) => Cell::B(lanes[*l as usize], *j as u16),
            MB::Pend(j) => Cell::B(pend[*j as usize], 0),
            MB::Const(x) => Cell::B(ex.t.con(8, *x as u128), 0),
            MB::Any => Cell::B(ex.t.var(&format!("{}.any{}", tag, i), 8), 0),
            MB::Uninit => Cell::U,
        })
        .collect()
}

/// Replace a call by the callee's contract: the precondition (the object holds an abstract state) is checked
/// here, the postcondition is assumed.  None: not applicable, the body is executed instead.
pub fn apply(ex: &mut Exec, st: &mut State, h: &Contract, f: u32, args: &[V]) -> Result<Option<V>, Stopx> {
    let m = h.model.clone();
    let fu = &ex.p.funcs[f as usize];
    let (me, outp) = match (h.kind, args) {
        (CK::Append, [V::P(p), V::P(_), V::I(_)]) => (*p, None),
        (CK::Fin(_), [V::P(p)]) => (*p, None),
        (CK::Fin(_), [V::P(o), V::P(p)]) => (*p, Some(*o)),
        _ => return Ok(None),
    };
    let off = match ex.t.is_const(me.off) {
        Some(x) => x as u64,
        None => return Ok(None),
    };
    let cells: Vec<Cell> = match st.objs.get(me.o as usize) {
        Some((g, o)) if *g == me.g && matches!(o.kind, Kind::Stack | Kind::Arg) => {
            if off + m.size > o.size || off % m.align != 0 || o.align < m.align || o.ro {
                return Ok(None);
            }
            o.cells[off as usize..(off + m.size) as usize].to_vec()
        }
        _ => return Ok(None),
    };
    let (k, lanes, pend) = match abstract_state(ex, st, &cells, &m) {
        Some(x) => x,
        None => return Ok(None),
    };
    match h.kind {
        CK::Fin(w) => {
            let v = finalize(&mut Sym(&mut ex.t), &lanes, &pend, w);
            *ex.externs.entry(format!("by contract: {}", short(ex.fname(f)))).or_insert(0) += 1;
            // the finalised object is left in an unspecified state
            let z: Vec<Cell> = vec![Cell::U; m.size as usize];
            ex.write_cells(st, me, &z)?;
            let ret = fu.ret.clone();
            if let Some(o) = outp {
                let big = ex.p.lay().big;
                let mut c = vec![];
                for x in &v {
                    for b in 0..8u16 {
                        c.push(Cell::B(*x, if big { 7 - b } else { b }));
                    }
                }
                ex.write_cells(st, o, &c)?;
                return Ok(Some(V::U));
            }
            Ok(match ret {
                Ty::Int(64) if v.len() == 1 => Some(V::I(v[0])),
                Ty::Int(x) if x as usize == 64 * v.len() => {
                    let mut v = v;
                    if ex.p.lay().big {
                        v.reverse();
                    }
                    Some(V::I(ex.t.concat(&v)))
                }
                Ty::Arr(n, _) if n as usize == v.len() => Some(V::A(std::rc::Rc::new(v.into_iter().map(V::I).collect()))),
                Ty::Struct(_, x) if x.len() == v.len() => Some(V::A(std::rc::Rc::new(v.into_iter().map(V::I).collect()))),
                _ => return Err(Stopx::End(Out::Unsup("return convention of a contract".into()))),
            })
        }
        CK::Append => {
            let (dp, len) = match (&args[1], &args[2]) {
                (V::P(d), V::I(n)) => (*d, *n),
                _ => return Ok(None),
            };
            // make the part of the length that is not a whole number of packets concrete
            let w = ex.t.w(len);
            let (l, c) = match ex.t.int_lin(len) {
                Some(x) => x,
                None => return Ok(None),
            };
            let mut q = vec![];
            for (x, kk) in &l {
                if kk % 32 != 0 {
                    return match ex.small_var(*x) {
                        Some(v) => Err(Stopx::Fork(ex.concretise(st, v))),
                        None => Ok(None),
                    };
                }
                q.push((*x, (*kk / 32) as u128 & mask(w)));
            }
            let total = c + k as i128;
            let qc = total.div_euclid(32);
            let k2 = total.rem_euclid(32) as usize;
            let qt = ex.t.mk_sum(w, q, qc as u128 & mask(w));
            let cq = ex.t.is_const(qt);
            let (l2, p2);
            let clen = ex.t.is_const(len);
            if let (Some(n), Some(_)) = (clen, cq) {
                if n > 256 {
                    return Ok(None);
                }
                let d = ex.read_cells(st, dp, n as u64)?;
                let mut all = pend.clone();
                for c in d {
                    match c {
                        Cell::U | Cell::D => return Ok(None),
                        c => all.push(ex.cell_byte(st, c)),
                    }
                }
                let mut l = lanes.clone();
                while all.len() >= 32 {
                    let p = packet(&mut Sym(&mut ex.t), &all[..32]);
                    update(&mut Sym(&mut ex.t), &mut l, &p);
                    all = all[32..].to_vec();
                }
                l2 = l;
                p2 = all;
            } else {
                let ok = match (&ex.stream, st.objs.get(dp.o as usize)) {
                    (Some(s), Some((g, o))) if *g == dp.g => {
                        s.lanes == lanes
                            && s.pend == pend
                            && st.fold.is_none()
                            && matches!(o.kind, Kind::Data(a, n) if a == s.arr && n == len)
                            && ex.t.is_const(dp.off) == Some(0)
                    }
                    _ => false,
                };
                if !ok {
                    return Ok(None);
                }
                let s = ex.stream.take().unwrap();
                st.fold = Some(qt);
                st.gen = true;
                l2 = s.fold(&mut ex.t, qt);
                p2 = (0..k2).map(|j| s.byte_at(&mut ex.t, qt, j as u64)).collect();
                ex.stream = Some(s);
            }
            *ex.externs.entry(format!("by contract: {}", short(ex.fname(f)))).or_insert(0) += 1;
            let cells = model_cells(ex, &m, k2, &l2, &p2, "post");
            ex.write_cells(st, me, &cells)?;
            Ok(Some(V::U))
        }
    }
}

/// The functions of the crate that an exported wrapper forwards to: wrapper -> f1 -> f2 ..., each the only
/// call (outside core) of the one before.
pub fn chain(p: &Program, w: &str, kind: CK) -> Vec<u32> {
    let mut out: Vec<u32> = vec![];
    let mut f = match p.func(w) {
        Some(f) => f,
        None => return out,
    };
    for _ in 0..4 {
        let mut next: Vec<u32> = vec![];
        for b in &p.funcs[f as usize].blocks {
            for i in &b.ins {
                if let Inst::Call(c) = &i.i {
                    if let Op::S(s) = c.callee {
                        if let Target::F(g) = p.syms[s as usize].to {
                            let n = &p.funcs[g as usize];
                            if n.decl || n.name.starts_with("llvm.") || n.demangled.contains("core::") && !n.demangled.contains("HighwayHash>") {
                                continue;
                            }
                            if !next.contains(&g) {
                                next.push(g);
                            }
                        }
                    }
                }
            }
        }
        if next.len() != 1 || out.contains(&next[0]) {
            break;
        }
        let g = next[0];
        let fu = &p.funcs[g as usize];
        let want = match kind {
            CK::Append => fu.params.len() == 3 && fu.params[0].0 == Ty::Ptr && fu.params[1].0 == Ty::Ptr && matches!(fu.params[2].0, Ty::Int(_)),
            CK::Fin(64) => fu.params.len() == 1 && fu.params[0].0 == Ty::Ptr && fu.ret == Ty::Int(64),
            CK::Fin(_) => {
                fu.params.iter().all(|x| x.0 == Ty::Ptr)
                    && (fu.params.len() == 1 || (fu.params.len() == 2 && fu.ret == Ty::Void))
            }
        };
        if !want {
            break;
        }
        out.push(g);
        f = g;
    }
    out
}

/// A compiled configuration at one CPU level.
pub struct Leg {
    pub name: String,
    pub prog: std::sync::Arc<Program>,
    pub allowed: HashSet<String>,
    pub detected: HashSet<String>,
}

/// What a byte of the hasher's memory holds.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum MB {
    Lane(u8, u8),
    Pend(u8),
    Const(u8),
    Any,
    Uninit,
}

/// Representation of the abstract state in memory: one layout per pending count.
#[derive(Clone, Debug)]
pub struct Model {
    pub size: u64,
    pub align: u64,
    pub at: Vec<Vec<MB>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum IK {
    /// a result differs from the specification
    Value,
    /// the representation invariant is not re-established
    Rep,
    /// a side condition failed (panic, bounds, ...)
    Fail(FK),
    /// outside the verifier's reach
    Unsup,
    /// no path returned
    Vacuous,
    /// the operation changed something it must not
    Frame,
}

#[derive(Clone, Debug)]
pub struct Issue {
    pub k: IK,
    pub msg: String,
    pub at: String,
    /// a concrete assignment refutes it
    pub definite: bool,
    pub witness: String,
    /// inputs for the replay program that should show the failure
    pub hint: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Res {
    pub name: String,
    pub leg: String,
    pub issues: Vec<Issue>,
    /// model bytes (pending count, offset) that turned out not to be constant
    pub demote: Vec<(usize, usize)>,
    pub counts: BTreeMap<String, u64>,
    pub funcs: BTreeSet<String>,
    pub returns: u64,
    pub obligations: u64,
    pub by_norm: u64,
    pub by_z3: u64,
    pub z3_ms: u64,
    pub z3_calls: u64,
    pub loops: u64,
    pub inv: Vec<String>,
    pub externs: BTreeMap<String, u64>,
    pub globals: BTreeSet<String>,
    pub notes: Vec<String>,
    pub steps: u64,
    pub ms: u64,
}
impl Res {
    pub fn broken(name: &str, leg: &str) -> Res {
        Res {
            name: name.into(),
            leg: leg.into(),
            issues: vec![Issue {
                k: IK::Unsup,
                msg: "the verifier failed on this function".into(),
                at: String::new(),
                definite: false,
                witness: String::new(),
                hint: vec![],
            }],
            ..Default::default()
        }
    }
    pub fn proved(&self) -> bool {
        self.issues.is_empty() && self.demote.is_empty()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Data {
    /// lengths that leave the packet incomplete
    Short,
    /// all lengths that complete at least one packet
    Long,
    /// a fixed length
    Len(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op_ {
    New,
    Default,
    Restore(u32),
    RestoreBig,
    OptNew,
    OptRestore(u32),
    OptRestoreBig,
    Append(usize, Data),
    Hwrite(usize, Data),
    IoWrite(usize, Data),
    IoWriteAll(usize, Data),
    IoFlush(usize),
    /// write_vectored with buffers of these lengths
    IoVec(usize, Vec<u64>),
    WriteInt(usize, &'static str, u32, bool),
    Fin(usize, u32),
    Finish(usize),
    Hash(usize, u32, Data),
    Checkpoint(usize),
    Clone(usize),
    /// pending bytes of the source, and of the destination (32: any)
    CloneFrom(usize, usize),
    Drop(usize),
    Debug(usize),
    BNew,
    BDefault,
    BBuild,
    BDebug,
    /// hash_one of a u64, or of a byte slice of this length
    BHash(Option<u64>),
    KeyDefault,
}

pub struct J<'a> {
    pub ex: Exec<'a>,
    pub leg: &'a Leg,
    pub res: Res,
    /// verify this function instead of the exported wrapper
    pub entry: Option<u32>,
    w: u32,
    arr: Option<u32>,
    ivars: std::collections::HashMap<String, T>,
    eqc: std::collections::HashMap<(T, T), bool>,
    cur: Option<Op_>,
    nhints: u32,
}

const NPROBE: u64 = 24;

impl<'a> J<'a> {
    pub fn new(leg: &'a Leg, name: String) -> J<'a> {
        let cfg = Cfg {
            allowed: leg.allowed.clone(),
            detected: leg.detected.clone(),
            max_steps: 3_000_000,
            max_paths: 6000,
            unroll: 6,
        };
        let mut ex = Exec::new(&leg.prog, cfg);
        ex.deadline = Some(Instant::now() + std::time::Duration::from_secs(120));
        ex.t.deadline = ex.deadline;
        let w = ex.ptrw();
        let res = Res { name, leg: leg.name.clone(), ..Default::default() };
        J { ex, leg, res, entry: None, w, arr: None, ivars: Default::default(), eqc: Default::default(), cur: None, nhints: 0 }
    }
    /// no more solving or counterexamples: the limits are used up
    pub fn no_more(&mut self) {
        self.nhints = 1000;
        self.ex.z3_ms = u64::MAX / 2;
    }
    pub fn fail_unsup(&mut self, m: &str) {
        self.issue(IK::Unsup, m.into(), String::new());
    }
    fn issue(&mut self, k: IK, msg: String, at: String) {
        if self.res.issues.len() < 200 {
            self.res.issues.push(Issue { k, msg, at, definite: false, witness: String::new(), hint: vec![] });
        }
    }
    pub fn finish(mut self, t0: Instant) -> Res {
        let side: Vec<PathEnd> = self.ex.side.drain(..).collect();
        for p in side {
            let (k, msg, at) = match p.out {
                Out::Fail(f) => (IK::Fail(f.k), f.msg, f.at),
                Out::Unsup(m) => (IK::Unsup, m, String::new()),
                _ => (IK::Unsup, "a path inside an external ends unexpectedly".into(), String::new()),
            };
            if matches!(k, IK::Fail(_)) && crate::smt::infeasible(&mut self.ex, &p.st.pc) {
                continue;
            }
            if self.res.issues.len() < 200 {
                let hint = self.hints_of(&p.st);
                let witness = self.describe(&p.st);
                self.res.issues.push(Issue { k, msg, at, definite: false, witness, hint });
            }
        }
        let ex = &mut self.ex;
        for (k, v) in &ex.counts {
            *self.res.counts.entry(k.to_string()).or_insert(0) += v;
        }
        for f in &ex.used {
            self.res.funcs.insert(short(ex.fname(*f)));
        }
        self.res.externs = ex.externs.clone();
        self.res.globals = ex.mut_globals.iter().map(|g| ex.p.globals[*g as usize].name.clone()).collect();
        self.res.loops = ex.loops_proved;
        self.res.inv = ex.inv_log.clone();
        self.res.notes.append(&mut ex.notes);
        self.res.steps = ex.steps;
        self.res.z3_ms = ex.z3_ms.min(1 << 30);
        self.res.z3_calls = ex.z3_calls;
        if self.res.returns == 0 && self.res.issues.is_empty() {
            self.res.issues.push(Issue {
                k: IK::Vacuous,
                msg: "no path returns".into(),
                at: self.res.name.clone(),
                definite: false,
                witness: String::new(),
                hint: vec![],
            });
        }
        self.res.ms = t0.elapsed().as_millis() as u64;
        self.res
    }
    fn idx(&mut self, name: &str, w: u32, lo: u128, hi: u128) -> T {
        if let Some(x) = self.ivars.get(name) {
            return *x;
        }
        let x = self.ex.t.idx_var(name, w, lo, hi);
        self.ivars.insert(name.to_string(), x);
        x
    }
    fn darr(&mut self) -> u32 {
        match self.arr {
            Some(a) => a,
            None => {
                let a = self.ex.t.array("d");
                self.arr = Some(a);
                a
            }
        }
    }
    fn func(&mut self, name: &str) -> Option<u32> {
        if let Some(f) = self.entry {
            // the caller establishes these features; checked here for the function itself
            let fu = &self.ex.p.funcs[f as usize];
            let missing: Vec<String> = fu.features.iter().filter(|x| !self.leg.allowed.contains(*x)).cloned().collect();
            if !missing.is_empty() {
                self.issue(IK::Fail(FK::Feature), format!("needs {}", missing.join(",")), String::new());
            }
            return Some(f);
        }
        let f = self.leg.prog.func(name);
        if f.is_none() {
            self.issue(IK::Unsup, format!("no function {}", name), String::new());
        }
        f
    }
    pub fn lane_vars(&mut self) -> Vec<T> {
        (0..16).map(|i| self.ex.t.var(&format!("lane{}", i), 64)).collect()
    }
    pub fn pend_vars(&mut self, k: usize) -> Vec<T> {
        (0..k).map(|i| self.ex.t.var(&format!("pend{}", i), 8)).collect()
    }
    fn key_obj(&mut self, st: &mut State, tag: &str) -> (Ptr, Vec<T>) {
        let big = self.ex.p.lay().big;
        let ks: Vec<T> = (0..4).map(|i| self.ex.t.var(&format!("{}{}", tag, i), 64)).collect();
        let mut c = vec![];
        for k in &ks {
            for b in 0..8u16 {
                c.push(Cell::B(*k, if big { 7 - b } else { b }));
            }
        }
        (self.ex.arg_obj(st, "key", c, 32, true), ks)
    }
    fn raw(&mut self, st: &mut State, name: &str, n: u64, align: u64) -> Ptr {
        self.ex.arg_obj(st, name, vec![Cell::U; n as usize], align, false)
    }
    pub fn hasher(&mut self, st: &mut State, m: &Model, k: usize, lanes: &[T], pend: &[T], name: &str, ro: bool) -> Ptr {
        let mut c = vec![];
        for (i, b) in m.at[k].iter().enumerate() {
            c.push(match b {
                MB::Lane(l, j) => Cell::B(lanes[*l as usize], *j as u16),
                MB::Pend(j) => Cell::B(pend[*j as usize], 0),
                MB::Const(x) => Cell::B(self.ex.t.con(8, *x as u128), 0),
                MB::Any => Cell::B(self.ex.t.var(&format!("{}.any{}", name, i), 8), 0),
                MB::Uninit => Cell::U,
            });
        }
        self.ex.arg_obj(st, name, c, m.align, ro)
    }
    fn len_val(&mut self, n: u64) -> T {
        self.ex.t.con(self.w, n as u128)
    }
    /// run an entry point; every failing path becomes an issue, the returning ones come back
    fn call(&mut self, st: State, f: u32, args: Vec<V>) -> Vec<(State, V)> {
        let mut st = st;
        self.ex.start(&mut st, f, args);
        let ends = self.ex.run(st, None);
        let mut out = vec![];
        for e in ends {
            match e.out {
                Out::Ret(v) => {
                    self.res.returns += 1;
                    out.push((e.st, v))
                }
                Out::Fail(f) => {
                    if !e.st.pc.is_empty() && crate::smt::infeasible(&mut self.ex, &e.st.pc) {
                        continue;
                    }
                    let w = self.describe(&e.st);
                    let hint = self.hints_of(&e.st);
                    if self.res.issues.len() < 200 {
                        self.res.issues.push(Issue {
                            k: IK::Fail(f.k),
                            msg: f.msg,
                            at: f.at,
                            definite: e.st.pc.is_empty(),
                            witness: w,
                            hint,
                        });
                    }
                }
                Out::Unsup(m) => {
                    let hint = self.hints_of(&e.st);
                    let w = self.describe(&e.st);
                    if self.res.issues.len() < 200 {
                        self.res.issues.push(Issue { k: IK::Unsup, msg: m, at: String::new(), definite: false, witness: w, hint });
                    }
                }
                Out::Stopped | Out::Meet => self.issue(IK::Unsup, "a path was left unfinished".into(), String::new()),
            }
        }
        out
    }
    fn describe(&mut self, st: &State) -> String {
        let mut v = vec![];
        for (a, b) in st.subs.iter() {
            let s = format!("{}={}", self.ex.t.show(*a), self.ex.t.show(*b));
            if !v.contains(&s) {
                v.push(s);
            }
        }
        v.join(" ")
    }

    // -------------------------------------------------------------- counterexamples
    /// inputs that take this path
    fn hints_of(&mut self, st: &State) -> Vec<String> {
        if self.nhints >= 8 {
            return vec![];
        }
        match crate::smt::witness(&mut self.ex, &st.pc) {
            Some(e) => self.hints(st, e),
            None => vec![],
        }
    }
    /// The assignment as a case for the replay program: a key, or a checkpoint, and the data.
    fn hints(&mut self, st: &State, mut e: Env) -> Vec<String> {
        let op = match &self.cur {
            Some(o) if self.nhints < 12 => o.clone(),
            _ => return vec![],
        };
        self.nhints += 1;
        let t = &self.ex.t;
        let mut val = |n: &str| -> Option<u128> {
            let v = t.vars.iter().find(|v| v.name == n)?;
            Some(match st.subs.iter().find(|s| s.0 == v.term) {
                Some(s) => t.eval1(s.1, &mut e),
                None => t.eval1(v.term, &mut e),
            })
        };
        let hex = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
        let mut key = vec![];
        for i in 0..4 {
            if let Some(k) = val(&format!("key{}", i)) {
                key.extend((k as u64).to_le_bytes());
            }
        }
        if key.len() == 32 {
            return vec![format!("key={} blen=43", hex(&key)), format!("key={}", hex(&key))];
        }
        let mut lanes = vec![];
        for i in 0..16 {
            lanes.push(val(&format!("lane{}", i)).unwrap_or(0x0123456789abcdef * (i + 1) as u128) as u64);
        }
        let cp = |l: &[u64], p: &[u8], k: u32| {
            let mut c = vec![];
            for x in l {
                c.extend(x.to_le_bytes());
            }
            c.extend(p);
            c.resize(160, 0);
            c.extend(k.to_le_bytes());
            c
        };
        let (k, d) = match &op {
            Op_::Restore(_) | Op_::OptRestore(_) | Op_::RestoreBig | Op_::OptRestoreBig => {
                let b: Vec<u8> = (0..32).map(|i| val(&format!("buf{}", i)).unwrap_or(i) as u8).collect();
                let c = match &op {
                    Op_::Restore(c) | Op_::OptRestore(c) => *c,
                    _ => val("count").unwrap_or(77) as u32,
                };
                let c = cp(&lanes, &b, c);
                return vec![format!("cp={} blen=43", hex(&c)), format!("cp={}", hex(&c))];
            }
            Op_::Append(k, d) | Op_::Hwrite(k, d) | Op_::IoWrite(k, d) | Op_::IoWriteAll(k, d) | Op_::Hash(k, _, d) => (*k, Some(d.clone())),
            Op_::WriteInt(k, ..) | Op_::Fin(k, _) | Op_::IoFlush(k) | Op_::Finish(k) | Op_::Checkpoint(k) | Op_::Clone(k)
            | Op_::CloneFrom(k, _) | Op_::Drop(k) | Op_::Debug(k) => (*k, None),
            _ => return vec![],
        };
        let pend: Vec<u8> = (0..k).map(|i| val(&format!("pend{}", i)).unwrap_or(i as u128 + 1) as u8).collect();
        let len = match &d {
            Some(Data::Len(n)) => *n as u128,
            Some(Data::Short) => val("L").unwrap_or(0),
            Some(Data::Long) => 32 * val("n").unwrap_or(0) + val("r").unwrap_or(0) + 32 - k as u128,
            None => 0,
        };
        let x = val("x");
        let mut out = vec![];
        let c = hex(&cp(&lanes, &pend, k as u32));
        let mut data = |from: u128, to: u128| -> Vec<u8> { (from..to).map(|i| self.arr.map_or(7, |a| e.byte(a, i))).collect() };
        if let Some(x) = x {
            out.push(format!("cp={} b={}", c, hex(&x.to_le_bytes())));
        } else if len <= 1024 {
            out.push(format!("cp={} b={}", c, hex(&data(0, len))));
        } else if len <= 1 << 20 {
            out.push(format!("cp={} blen={}", c, len));
        }
        // a state inside the stream: the summarised lanes, and the bytes that follow
        let mut fold = vec![None; 16];
        let mut q = None;
        for (a, v) in &e.atoms {
            if let AK::Uf(f, l) = &t.atoms[*a as usize].k {
                if let Some(i) = t.ufs[*f as usize].0.strip_prefix("fold").and_then(|x| x.parse::<usize>().ok()) {
                    if q.is_none() || q == Some(l[0]) {
                        q = Some(l[0]);
                        fold[i] = Some(*v as u64);
                    }
                }
            }
        }
        if let Some(q) = q {
            let l: Vec<u64> = fold.iter().zip(&lanes).map(|(a, b)| a.unwrap_or(*b)).collect();
            let mut e2 = Env::new(e.seed);
            e2.fixed = e.fixed.clone();
            let at = (t.eval1(q, &mut e2) * 32).saturating_sub(k as u128);
            let b: Vec<u8> = (at..at + 160).map(|i| self.arr.map_or(7, |a| e.byte(a, i))).collect();
            for n in [32, 64, 160] {
                out.push(format!("cp={} b={}", hex(&cp(&l, &[], 0)), hex(&b[..n])));
            }
        }
        out
    }

    // -------------------------------------------------------------- equality
    /// Is got == want on this path?
    fn same(&mut self, st: &State, got: T, want: T) -> Result<bool, (bool, String, Vec<String>)> {
        self.res.obligations += 1;
        if got == want {
            self.res.by_norm += 1;
            return Ok(true);
        }
        if st.pc.is_empty() {
            if let Some(true) = self.eqc.get(&(got, want)) {
                self.res.by_z3 += 1;
                return Ok(true);
            }
        }
        match crate::smt::equal(&mut self.ex, &st.pc, got, want) {
            crate::smt::Ans::Yes => {
                self.res.by_z3 += 1;
                if st.pc.is_empty() {
                    self.eqc.insert((got, want), true);
                }
                Ok(true)
            }
            crate::smt::Ans::No(w, e) => Err((true, w, self.hints(st, *e))),
            crate::smt::Ans::Unknown(w) => {
                let h = self.hints_of(st);
                Err((false, w, h))
            }
        }
    }
    fn want_byte(&mut self, st: &State, got: Cell, want: T, k: IK, what: &str) -> bool {
        let g = match got {
            Cell::U | Cell::D => {
                self.res.obligations += 1;
                let at = self.describe(st);
                self.issue(k, format!("{}: uninitialised", what), at);
                return false;
            }
            c => self.ex.cell_byte(st, c),
        };
        match self.same(st, g, want) {
            Ok(_) => true,
            Err((definite, w, hint)) => {
                let at = self.describe(st);
                let mut msg = format!("{}: got {} want {}", what, self.ex.t.show(g), self.ex.t.show(want));
                if msg.len() > 400 {
                    msg = msg.chars().take(400).collect();
                }
                if self.res.issues.len() < 200 {
                    self.res.issues.push(Issue { k, msg, at: String::new(), definite, witness: format!("{} ({})", at, w), hint });
                }
                false
            }
        }
    }
    pub fn obj_cells(&self, st: &State, p: Ptr) -> Vec<Cell> {
        match st.objs.get(p.o as usize) {
            Some((g, o)) if *g == p.g => o.cells.clone(),
            _ => vec![],
        }
    }
    /// memory holds the abstract state (k, lanes, pend)
    fn want_model(&mut self, st: &State, cells: &[Cell], m: &Model, k: usize, lanes: &[T], pend: &[T], what: &str, ik: IK) -> bool {
        let mut ok = true;
        if cells.len() != m.at[k].len() {
            self.issue(ik, format!("{}: size", what), String::new());
            return false;
        }
        let mut bad = 0;
        for (i, b) in m.at[k].clone().iter().enumerate() {
            let r = match b {
                MB::Lane(l, j) => {
                    let w = self.ex.t.slice(lanes[*l as usize], 8 * *j as u32, 8);
                    self.want_byte(st, cells[i], w, ik, &format!("{} lane {} byte {}", what, l, j))
                }
                MB::Pend(j) => self.want_byte(st, cells[i], pend[*j as usize], ik, &format!("{} pending byte {}", what, j)),
                MB::Const(x) => {
                    let w = self.ex.t.con(8, *x as u128);
                    let n = self.res.issues.len();
                    let r = self.want_byte(st, cells[i], w, IK::Rep, &format!("{} representation byte {}", what, i));
                    if !r {
                        // may be a byte that does not matter: let the caller weaken the model
                        self.res.issues.truncate(n);
                        self.res.demote.push((k, i));
                    }
                    r
                }
                MB::Any | MB::Uninit => true,
            };
            if !r {
                ok = false;
                bad += 1;
                if bad > 3 {
                    break;
                }
            }
        }
        ok
    }
    /// nothing but the listed object changed: mutable globals
    fn frame(&mut self, st: &State) {
        self.res.obligations += 1;
        if !st.gmut.is_empty() {
            let n: Vec<String> = st.gmut.iter().map(|g| self.ex.p.globals[g.0 as usize].name.clone()).collect();
            self.issue(IK::Fail(FK::Global), format!("writes shared state {}", n.join(" ")), String::new());
        } else {
            self.res.by_norm += 1;
        }
    }
    /// the object's bytes are what they were
    fn unchanged(&mut self, st: &State, before: &[Cell], p: Ptr, what: &str) -> bool {
        let now = self.obj_cells(st, p);
        if now == before {
            self.res.obligations += 1;
            self.res.by_norm += 1;
            return true;
        }
        if now.len() != before.len() {
            self.issue(IK::Frame, format!("{} is gone", what), String::new());
            return false;
        }
        let mut ok = true;
        for i in 0..now.len() {
            if now[i] == before[i] || before[i] == Cell::U {
                continue;
            }
            let w = self.ex.cell_byte(st, before[i]);
            ok &= self.want_byte(st, now[i], w, IK::Frame, &format!("{} byte {}", what, i));
            if !ok {
                break;
            }
        }
        ok
    }
    fn out_words(&mut self, st: &State, p: Ptr, want: &[T], what: &str) {
        let cells = self.obj_cells(st, p);
        let big = self.ex.p.lay().big;
        for (i, w) in want.iter().enumerate() {
            for b in 0..8 {
                let j = if big { 7 - b } else { b };
                let x = self.ex.t.slice(*w, 8 * j as u32, 8);
                let c = cells.get(8 * i + b).copied().unwrap_or(Cell::U);
                if !self.want_byte(st, c, x, IK::Value, &format!("{} word {} byte {}", what, i, b)) {
                    return;
                }
            }
        }
    }
    fn ret_bool(&mut self, st: &State, v: &V, want: bool, what: &str) {
        let w = self.ex.t.con(8, want as u128);
        let g = match v {
            V::I(t) => self.ex.t.zext(*t, 8),
            _ => {
                self.issue(IK::Value, format!("{}: no result", what), String::new());
                return;
            }
        };
        self.want_byte(st, Cell::B(g, 0), w, IK::Value, what);
    }

    // -------------------------------------------------------------- data
    /// A data argument for pending count k: the object, its length, and how to read the outcome.
    fn data(&mut self, st: &mut State, k: usize, d: &Data) -> Option<(Ptr, T)> {
        let w = self.w;
        let arr = self.darr();
        let len = match d {
            Data::Len(n) => self.len_val(*n),
            Data::Short => {
                let m = 31 - k as u128;
                if m == 0 {
                    self.len_val(0)
                } else {
                    let v = self.idx("L", 5, 0, m);
                    self.ex.t.zext(v, w)
                }
            }
            Data::Long => {
                let hi = (mask(w - 1) - 63) / 32;
                let n = self.idx("n", w, 0, hi);
                let r = self.idx("r", 5, 0, 31);
                let r = self.ex.t.zext(r, w);
                self.ex.t.mk_sum(w, vec![(n, 32), (r, 1)], 32 - k as u128)
            }
        };
        Some((self.ex.data_obj(st, "d", arr, len), len))
    }
    /// Make the small length variables concrete and return (q, k', length) with q a packet count.
    fn outcomes(&mut self, st: State, k: usize, d: &Data) -> Vec<(State, T, usize, T)> {
        let w = self.w;
        let name = match d {
            Data::Short => "L",
            Data::Long => "r",
            Data::Len(n) => {
                let q = self.len_val((k as u64 + n) / 32);
                let l = self.len_val(*n);
                return vec![(st, q, (k + *n as usize) % 32, l)];
            }
        };
        if k == 31 && *d == Data::Short {
            let z = self.len_val(0);
            return vec![(st, z, 31, z)];
        }
        let hi = match d {
            Data::Short => 31 - k as u128,
            _ => 31,
        };
        let v = self.idx(name, 5, 0, hi);
        let vid = self.ex.t.var_of(v).unwrap();
        let sts = if st.subs.iter().any(|x| x.0 == v) { vec![st] } else { self.ex.concretise(&st, vid) };
        let mut out = vec![];
        for s in sts {
            let x = s.subs.iter().find(|x| x.0 == v).map(|x| x.1).unwrap();
            let c = self.ex.t.is_const(x).unwrap() as usize;
            match d {
                Data::Short => {
                    let z = self.len_val(0);
                    let l = self.len_val(c as u64);
                    out.push((s, z, k + c, l));
                }
                _ => {
                    let hi = (mask(w - 1) - 63) / 32;
                    let n = self.idx("n", w, 0, hi);
                    let nn = s.subs.iter().rev().find(|x| x.0 == n).map(|x| x.1).unwrap_or(n);
                    // later refinements of the refinement variables are already applied in subs
                    let q = self.ex.t.add_c(nn, 1);
                    let l = self.ex.t.mk_sum(w, vec![(nn, 32)], (32 - k + c) as u128);
                    out.push((s, q, c, l));
                }
            }
        }
        out
    }
    /// lanes and pending bytes after consuming the data
    fn after(&mut self, st: &State, k: usize, q: T, k2: usize, pend: &[T], d: &Data) -> Option<(Vec<T>, Vec<T>)> {
        let mut s = self.ex.stream.take().unwrap();
        let lanes = s.lanes_at(&mut self.ex.t, q, st.fold);
        let mut p = vec![];
        let short = matches!(d, Data::Short) || matches!(d, Data::Len(n) if k + (*n as usize) < 32);
        for j in 0..k2 {
            if short {
                p.push(s.byte(&mut self.ex.t, self.w, j as u64));
            } else {
                p.push(s.byte_at(&mut self.ex.t, q, j as u64));
            }
        }
        let _ = pend;
        self.ex.stream = Some(s);
        Some((lanes?, p))
    }
    fn stream(&mut self, lanes: &[T], pend: &[T]) {
        let arr = self.darr();
        let s = Stream::new(&mut self.ex.t, lanes.to_vec(), pend.to_vec(), arr);
        self.ex.stream = Some(s);
    }

    // -------------------------------------------------------------- operations
    pub fn op(&mut self, pre: &str, op: &Op_, m: &Model, hm: Option<&Model>) {
        let mut st = self.ex.empty_state();
        self.cur = Some(op.clone());
        match op {
            Op_::New | Op_::OptNew => {
                let f = match self.func(&format!("{}{}", pre, if *op == Op_::New { "new" } else { "opt_new" })) {
                    Some(f) => f,
                    None => return,
                };
                let (kp, ks) = self.key_obj(&mut st, "key");
                let out = self.raw(&mut st, "out", m.size, m.align);
                let lanes = init(&mut Sym(&mut self.ex.t), &[ks[0], ks[1], ks[2], ks[3]]);
                for (s, v) in self.call(st, f, vec![V::P(kp), V::P(out)]) {
                    self.made(&s, out, m, 0, &lanes, &[], if *op == Op_::New { None } else { Some((v, pre)) });
                }
            }
            Op_::Default => {
                let f = match self.func(&format!("{}default", pre)) {
                    Some(f) => f,
                    None => return,
                };
                let out = self.raw(&mut st, "out", m.size, m.align);
                let z = self.ex.t.con(64, 0);
                let lanes = init(&mut Sym(&mut self.ex.t), &[z, z, z, z]);
                for (s, _) in self.call(st, f, vec![V::P(out)]) {
                    self.made(&s, out, m, 0, &lanes, &[], None);
                }
            }
            Op_::Restore(_) | Op_::RestoreBig | Op_::OptRestore(_) | Op_::OptRestoreBig => {
                let opt = matches!(op, Op_::OptRestore(_) | Op_::OptRestoreBig);
                let f = match self.func(&format!("{}{}", pre, if opt { "opt_restore" } else { "restore" })) {
                    Some(f) => f,
                    None => return,
                };
                let lanes = self.lane_vars();
                let buf: Vec<T> = (0..32).map(|i| self.ex.t.var(&format!("buf{}", i), 8)).collect();
                let (cnt, k) = match op {
                    Op_::Restore(c) | Op_::OptRestore(c) => (self.ex.t.con(32, *c as u128), *c as usize),
                    _ => (self.ex.t.idx_var("count", 32, 32, mask(32)), 31),
                };
                let mut c = vec![];
                for l in &lanes {
                    for b in 0..8 {
                        c.push(Cell::B(*l, b));
                    }
                }
                for b in &buf {
                    c.push(Cell::B(*b, 0));
                }
                for b in 0..4 {
                    c.push(Cell::B(cnt, b));
                }
                let cp = self.ex.arg_obj(&mut st, "checkpoint", c, 1, true);
                let out = self.raw(&mut st, "out", m.size, m.align);
                for (s, v) in self.call(st, f, vec![V::P(cp), V::P(out)]) {
                    self.made(&s, out, m, k, &lanes, &buf[..k], if opt { Some((v, pre)) } else { None });
                }
            }
            Op_::Append(k, d) | Op_::Hwrite(k, d) | Op_::IoWrite(k, d) | Op_::IoWriteAll(k, d) => {
                let nm = match op {
                    Op_::Append(..) => "append",
                    Op_::Hwrite(..) => "hwrite",
                    Op_::IoWrite(..) => "io_write",
                    _ => "io_write_all",
                };
                let f = match self.func(&format!("{}{}", pre, nm)) {
                    Some(f) => f,
                    None => return,
                };
                let lanes = self.lane_vars();
                let pend = self.pend_vars(*k);
                self.stream(&lanes, &pend);
                let h = self.hasher(&mut st, m, *k, &lanes, &pend, "h", false);
                let (dp, len) = self.data(&mut st, *k, d).unwrap();
                let mut args = vec![V::P(h), V::P(dp), V::I(len)];
                let mut op_ = None;
                if nm == "io_write" {
                    let o = self.raw(&mut st, "n", (self.w / 8) as u64, (self.w / 8) as u64);
                    args.push(V::P(o));
                    op_ = Some(o);
                }
                for (s, v) in self.call(st, f, args) {
                    for (s, q, k2, len) in self.outcomes(s, *k, d) {
                        self.frame(&s);
                        match self.after(&s, *k, q, k2, &pend, d) {
                            Some((l2, p2)) => {
                                let c = self.obj_cells(&s, h);
                                self.want_model(&s, &c, m, k2, &l2, &p2, "hasher", IK::Value);
                            }
                            None => {
                                let at = self.describe(&s);
                                self.issue(IK::Unsup, "no summary of the packets consumed".into(), at)
                            }
                        }
                        if nm.starts_with("io") {
                            self.ret_bool(&s, &v, true, "io result is Ok");
                        }
                        if let Some(o) = op_ {
                            let c = self.obj_cells(&s, o);
                            let big = self.ex.p.lay().big;
                            let nb = self.w / 8;
                            for b in 0..nb {
                                let j = if big { nb - 1 - b } else { b };
                                let x = self.ex.t.slice(len, 8 * j, 8);
                                self.want_byte(&s, c[b as usize], x, IK::Value, "io::Write::write count");
                            }
                        }
                    }
                }
            }
            Op_::IoVec(k, ls) => {
                let f = match self.func(&format!("{}io_vec{}", pre, ls.len())) {
                    Some(f) => f,
                    None => return,
                };
                let lanes = self.lane_vars();
                let pend = self.pend_vars(*k);
                let h = self.hasher(&mut st, m, *k, &lanes, &pend, "h", false);
                let mut args = vec![V::P(h)];
                let mut all = pend.clone();
                for (i, n) in ls.iter().enumerate() {
                    let arr = self.ex.t.array(&format!("d{}", i));
                    let len = self.len_val(*n);
                    let dp = self.ex.data_obj(&mut st, &format!("d{}", i), arr, len);
                    args.extend([V::P(dp), V::I(len)]);
                    for b in 0..*n {
                        let o = self.len_val(b);
                        all.push(self.ex.t.select(arr, o));
                    }
                }
                let total: u64 = ls.iter().sum();
                let nb = (self.w / 8) as u64;
                let o = self.raw(&mut st, "n", nb, nb);
                args.push(V::P(o));
                for (s, v) in self.call(st, f, args) {
                    self.frame(&s);
                    self.ret_bool(&s, &v, true, "io result is Ok");
                    // the count reported
                    let c = self.obj_cells(&s, o);
                    let big = self.ex.p.lay().big;
                    let mut n = Some(0u64);
                    for b in 0..nb {
                        let x = self.ex.cell_byte(&s, c[b as usize]);
                        let j = if big { nb - 1 - b } else { b };
                        n = match (n, self.ex.t.is_const(x)) {
                            (Some(n), Some(x)) => Some(n | (x as u64) << (8 * j)),
                            _ => None,
                        };
                    }
                    let n = match n {
                        Some(n) => n,
                        None => {
                            let at = self.describe(&s);
                            self.issue(IK::Unsup, "write_vectored count is not determined by the lengths".into(), at);
                            continue;
                        }
                    };
                    self.res.obligations += 1;
                    if n > total || (n == 0) != (total == 0) {
                        let at = self.describe(&s);
                        self.issue(IK::Value, format!("write_vectored of {:?} reports {}", ls, n), at);
                        continue;
                    }
                    self.res.by_norm += 1;
                    let mut bytes = all[..k + n as usize].to_vec();
                    let mut l2 = lanes.clone();
                    while bytes.len() >= 32 {
                        let p = packet(&mut Sym(&mut self.ex.t), &bytes[..32]);
                        update(&mut Sym(&mut self.ex.t), &mut l2, &p);
                        bytes = bytes[32..].to_vec();
                    }
                    let c = self.obj_cells(&s, h);
                    self.want_model(&s, &c, m, bytes.len(), &l2, &bytes, "hasher", IK::Value);
                }
            }
            Op_::BHash(n) => {
                let f = match self.func(if n.is_some() { "b_hash_bytes" } else { "b_hash_u64" }) {
                    Some(f) => f,
                    None => return,
                };
                let ks: Vec<T> = (0..4).map(|i| self.ex.t.var(&format!("key{}", i), 64)).collect();
                let b = self.hasher(&mut st, m, 0, &ks, &[], "b", false);
                let before = self.obj_cells(&st, b);
                let out = self.raw(&mut st, "out", 8, 8);
                let mut args = vec![V::P(b)];
                let mut bytes: Vec<T> = vec![];
                let big = self.ex.p.lay().big;
                match n {
                    None => {
                        let x = self.ex.t.var("x", 64);
                        args.push(V::I(x));
                        bytes.extend((0..8).map(|b| self.ex.t.slice(x, 8 * if big { 7 - b } else { b }, 8)));
                    }
                    Some(n) => {
                        let arr = self.darr();
                        let len = self.len_val(*n);
                        let dp = self.ex.data_obj(&mut st, "d", arr, len);
                        args.extend([V::P(dp), V::I(len)]);
                        // the length, then the bytes
                        let nb = self.w / 8;
                        bytes.extend((0..nb).map(|b| self.ex.t.slice(len, 8 * if big { nb - 1 - b } else { b }, 8)));
                        for i in 0..*n {
                            let o = self.len_val(i);
                            bytes.push(self.ex.t.select(arr, o));
                        }
                    }
                }
                args.push(V::P(out));
                let mut lanes = init(&mut Sym(&mut self.ex.t), &[ks[0], ks[1], ks[2], ks[3]]);
                while bytes.len() >= 32 {
                    let p = packet(&mut Sym(&mut self.ex.t), &bytes[..32]);
                    update(&mut Sym(&mut self.ex.t), &mut lanes, &p);
                    bytes = bytes[32..].to_vec();
                }
                let want = finalize(&mut Sym(&mut self.ex.t), &lanes, &bytes, 64);
                for (s, _) in self.call(st, f, args) {
                    self.frame(&s);
                    self.out_words(&s, out, &want, "hash_one");
                    self.unchanged(&s, &before, b, "builder");
                }
            }
            Op_::IoFlush(k) | Op_::Debug(k) | Op_::Drop(k) => {
                let nm = match op {
                    Op_::IoFlush(_) => "io_flush",
                    Op_::Debug(_) => "debug",
                    _ => "drop",
                };
                let f = match self.func(&format!("{}{}", pre, nm)) {
                    Some(f) => f,
                    None => return,
                };
                let lanes = self.lane_vars();
                let pend = self.pend_vars(*k);
                let h = self.hasher(&mut st, m, *k, &lanes, &pend, "h", nm == "debug");
                let before = self.obj_cells(&st, h);
                let mut args = vec![V::P(h)];
                if nm == "debug" {
                    let o = self.ex.new_obj(
                        &mut st,
                        Obj { kind: Kind::Opaque, size: 64, align: 16, ro: false, cells: vec![], name: "formatter".into() },
                    );
                    args.push(V::P(o));
                }
                for (s, v) in self.call(st, f, args) {
                    self.frame(&s);
                    if nm != "drop" {
                        self.unchanged(&s, &before, h, "hasher");
                    }
                    if nm == "io_flush" {
                        self.ret_bool(&s, &v, true, "flush is Ok");
                    }
                }
            }
            Op_::WriteInt(k, ty, bits, signed) => {
                let _ = signed;
                let f = match self.func(&format!("{}write_{}", pre, ty)) {
                    Some(f) => f,
                    None => return,
                };
                let bits = if *bits == 0 { self.w } else { *bits };
                let lanes = self.lane_vars();
                let pend = self.pend_vars(*k);
                let x = self.ex.t.var("x", bits);
                let nb = bits / 8;
                let big = self.ex.p.lay().big;
                let bytes: Vec<T> =
                    (0..nb).map(|b| self.ex.t.slice(x, 8 * if big { nb - 1 - b } else { b }, 8)).collect();
                let h = self.hasher(&mut st, m, *k, &lanes, &pend, "h", false);
                let mut args = vec![V::P(h)];
                if bits == 128 {
                    let c: Vec<Cell> = bytes.iter().map(|b| Cell::B(*b, 0)).collect();
                    let o = self.ex.arg_obj(&mut st, "x", c, 16, true);
                    args.push(V::P(o));
                } else {
                    args.push(V::I(x));
                }
                let mut all = pend.clone();
                all.extend(bytes);
                let mut l2 = lanes.clone();
                if all.len() >= 32 {
                    let p = packet(&mut Sym(&mut self.ex.t), &all[..32]);
                    update(&mut Sym(&mut self.ex.t), &mut l2, &p);
                    all = all[32..].to_vec();
                }
                for (s, _) in self.call(st, f, args) {
                    self.frame(&s);
                    let c = self.obj_cells(&s, h);
                    self.want_model(&s, &c, m, all.len(), &l2, &all, "hasher", IK::Value);
                }
            }
            Op_::Fin(k, w) => {
                let f = match self.func(&format!("{}fin{}", pre, w)) {
                    Some(f) => f,
                    None => return,
                };
                let lanes = self.lane_vars();
                let pend = self.pend_vars(*k);
                let h = self.hasher(&mut st, m, *k, &lanes, &pend, "h", false);
                let out = self.raw(&mut st, "out", *w as u64 / 8, 8);
                let want = finalize(&mut Sym(&mut self.ex.t), &lanes, &pend, *w);
                let direct = self.entry.is_some();
                let args = match (direct, self.ex.p.funcs[f as usize].params.len()) {
                    (true, 1) => vec![V::P(h)],
                    (true, _) => vec![V::P(out), V::P(h)],
                    _ => vec![V::P(h), V::P(out)],
                };
                let by_value = args.len() == 1;
                for (mut s, v) in self.call(st, f, args) {
                    self.frame(&s);
                    if by_value {
                        let n = want.len();
                        let words: Vec<V> = match v {
                            V::A(l) => l.to_vec(),
                            V::I(t) if self.ex.t.w(t) as usize == 64 * n => {
                                let big = self.ex.p.lay().big;
                                (0..n).map(|i| V::I(self.ex.t.slice(t, 64 * if big { n - 1 - i } else { i } as u32, 64))).collect()
                            }
                            _ => vec![],
                        };
                        if words.len() != n {
                            self.issue(IK::Unsup, "return convention".into(), String::new());
                            continue;
                        }
                        let mut c = vec![];
                        let big = self.ex.p.lay().big;
                        for x in words {
                            match x {
                                V::I(t) => {
                                    for b in 0..8u16 {
                                        c.push(Cell::B(t, if big { 7 - b } else { b }));
                                    }
                                }
                                _ => c.extend(vec![Cell::U; 8]),
                            }
                        }
                        if self.ex.write_cells(&mut s, out, &c).is_err() {
                            self.issue(IK::Unsup, "return convention".into(), String::new());
                            continue;
                        }
                    }
                    self.out_words(&s, out, &want, &format!("finalize{}", w));
                }
            }
            Op_::Finish(k) => {
                let f = match self.func(&format!("{}finish", pre)) {
                    Some(f) => f,
                    None => return,
                };
                let lanes = self.lane_vars();
                let pend = self.pend_vars(*k);
                let h = self.hasher(&mut st, m, *k, &lanes, &pend, "h", false);
                let before = self.obj_cells(&st, h);
                let out = self.raw(&mut st, "out", 8, 8);
                let want = finalize(&mut Sym(&mut self.ex.t), &lanes, &pend, 64);
                for (s, _) in self.call(st, f, vec![V::P(h), V::P(out)]) {
                    self.frame(&s);
                    self.out_words(&s, out, &want, "finish");
                    self.unchanged(&s, &before, h, "hasher");
                }
            }
            Op_::Hash(k, w, d) => {
                let f = match self.func(&format!("{}hash{}", pre, w)) {
                    Some(f) => f,
                    None => return,
                };
                let lanes = self.lane_vars();
                let pend = self.pend_vars(*k);
                self.stream(&lanes, &pend);
                let h = self.hasher(&mut st, m, *k, &lanes, &pend, "h", false);
                let (dp, len) = self.data(&mut st, *k, d).unwrap();
                let out = self.raw(&mut st, "out", *w as u64 / 8, 8);
                for (s, _) in self.call(st, f, vec![V::P(h), V::P(dp), V::I(len), V::P(out)]) {
                    for (s, q, k2, _) in self.outcomes(s, *k, d) {
                        self.frame(&s);
                        match self.after(&s, *k, q, k2, &pend, d) {
                            Some((l2, p2)) => {
                                let want = finalize(&mut Sym(&mut self.ex.t), &l2, &p2, *w);
                                self.out_words(&s, out, &want, &format!("hash{}", w));
                            }
                            None => {
                                let at = self.describe(&s);
                                self.issue(IK::Unsup, "no summary of the packets consumed".into(), at)
                            }
                        }
                    }
                }
            }
            Op_::Checkpoint(k) => {
                let f = match self.func(&format!("{}checkpoint", pre)) {
                    Some(f) => f,
                    None => return,
                };
                let lanes = self.lane_vars();
                let pend = self.pend_vars(*k);
                let h = self.hasher(&mut st, m, *k, &lanes, &pend, "h", false);
                let before = self.obj_cells(&st, h);
                let out = self.raw(&mut st, "out", 164, 1);
                let want = encode(&mut Sym(&mut self.ex.t), &lanes, &pend);
                for (s, _) in self.call(st, f, vec![V::P(h), V::P(out)]) {
                    self.frame(&s);
                    let c = self.obj_cells(&s, out);
                    for i in 0..164 {
                        if !self.want_byte(&s, c[i], want[i], IK::Value, &format!("checkpoint byte {}", i)) {
                            break;
                        }
                    }
                    self.unchanged(&s, &before, h, "hasher");
                }
            }
            Op_::Clone(k) | Op_::CloneFrom(k, _) => {
                let nm = if let Op_::Clone(_) = op { "clone" } else { "clone_from" };
                let f = match self.func(&format!("{}{}", pre, nm)) {
                    Some(f) => f,
                    None => return,
                };
                let lanes = self.lane_vars();
                let pend = self.pend_vars(*k);
                let h = self.hasher(&mut st, m, *k, &lanes, &pend, "h", false);
                let before = self.obj_cells(&st, h);
                let out = match op {
                    Op_::CloneFrom(_, 32) => {
                        // a destination that covers the representations of every pending count
                        let mut c = vec![];
                        for i in 0..m.size as usize {
                            let b = &m.at[0][i];
                            let v = |me: &mut Self| me.ex.t.var(&format!("o.hull{}", i), 8);
                            c.push(if m.at.iter().any(|a| matches!(a[i], MB::Uninit)) {
                                Cell::U
                            } else if m.at.iter().all(|a| a[i] == *b) {
                                match b {
                                    MB::Lane(l, j) => Cell::B(self.ex.t.var(&format!("olane{}", l), 64), *j as u16),
                                    MB::Const(x) => Cell::B(self.ex.t.con(8, *x as u128), 0),
                                    _ => Cell::B(v(self), 0),
                                }
                            } else {
                                Cell::B(v(self), 0)
                            });
                        }
                        self.ex.arg_obj(&mut st, "o", c, m.align, false)
                    }
                    Op_::CloneFrom(_, k2) => {
                        let l2: Vec<T> = (0..16).map(|i| self.ex.t.var(&format!("olane{}", i), 64)).collect();
                        let p2: Vec<T> = (0..*k2).map(|i| self.ex.t.var(&format!("opend{}", i), 8)).collect();
                        self.hasher(&mut st, m, *k2, &l2, &p2, "o", false)
                    }
                    _ => self.raw(&mut st, "out", m.size, m.align),
                };
                for (s, _) in self.call(st, f, vec![V::P(h), V::P(out)]) {
                    self.frame(&s);
                    let c = self.obj_cells(&s, out);
                    self.want_model(&s, &c, m, *k, &lanes, &pend, "clone", IK::Value);
                    self.unchanged(&s, &before, h, "hasher");
                }
                if let (Op_::CloneFrom(k, 32), false) = (op, self.res.proved()) {
                    // not for all at once: one after another
                    self.res.issues.clear();
                    self.res.demote.clear();
                    for k2 in 0..32 {
                        self.op(pre, &Op_::CloneFrom(*k, k2), m, hm);
                    }
                }
            }
            Op_::BNew | Op_::BDefault | Op_::KeyDefault => {
                let nm = match op {
                    Op_::BNew => "b_new",
                    Op_::BDefault => "b_default",
                    _ => "k_default",
                };
                let f = match self.func(nm) {
                    Some(f) => f,
                    None => return,
                };
                let out = self.raw(&mut st, "out", m.size, m.align);
                let z = self.ex.t.con(64, 0);
                let mut ks = vec![z; 4];
                let mut args = vec![];
                if nm == "b_new" {
                    let (kp, kk) = self.key_obj(&mut st, "key");
                    ks = kk;
                    args.push(V::P(kp));
                }
                args.push(V::P(out));
                for (s, _) in self.call(st, f, args) {
                    self.frame(&s);
                    let c = self.obj_cells(&s, out);
                    self.want_model(&s, &c, m, 0, &ks, &[], nm, IK::Value);
                }
            }
            Op_::BBuild | Op_::BDebug => {
                let f = match self.func(if *op == Op_::BBuild { "b_build" } else { "b_debug" }) {
                    Some(f) => f,
                    None => return,
                };
                let ks: Vec<T> = (0..4).map(|i| self.ex.t.var(&format!("key{}", i), 64)).collect();
                let b = self.hasher(&mut st, m, 0, &ks, &[], "b", false);
                let before = self.obj_cells(&st, b);
                if *op == Op_::BDebug {
                    let o = self.ex.new_obj(
                        &mut st,
                        Obj { kind: Kind::Opaque, size: 64, align: 16, ro: false, cells: vec![], name: "formatter".into() },
                    );
                    for (s, _) in self.call(st, f, vec![V::P(b), V::P(o)]) {
                        self.frame(&s);
                        self.unchanged(&s, &before, b, "builder");
                    }
                    return;
                }
                let hm = hm.unwrap();
                let out = self.raw(&mut st, "out", hm.size, hm.align);
                let lanes = init(&mut Sym(&mut self.ex.t), &[ks[0], ks[1], ks[2], ks[3]]);
                for (s, _) in self.call(st, f, vec![V::P(b), V::P(out)]) {
                    self.made(&s, out, hm, 0, &lanes, &[], None);
                    self.unchanged(&s, &before, b, "builder");
                }
            }
        }
    }
    fn made(&mut self, s: &State, out: Ptr, m: &Model, k: usize, lanes: &[T], pend: &[T], opt: Option<(V, &str)>) {
        self.frame(s);
        if let Some((v, pre)) = opt {
            // Some only if the CPU has the feature; a None leaves nothing to check
            let got = match &v {
                V::I(t) => {
                    let z = self.ex.t.zext(*t, 8);
                    self.ex.t.is_const(z)
                }
                _ => None,
            };
            match got {
                Some(0) => {
                    self.res.obligations += 1;
                    self.res.by_norm += 1;
                    return;
                }
                _ => {
                    let want = self.leg.detected.contains(if pre == "s_" { "sse4_1" } else { "avx2" });
                    self.ret_bool(s, &v, want, "constructor returns a hasher only if the CPU feature is detected");
                    if !want {
                        return;
                    }
                }
            }
        }
        let c = self.obj_cells(s, out);
        self.want_model(s, &c, m, k, lanes, pend, "new hasher", IK::Value);
    }
}

// ------------------------------------------------------------------ learning the representation
pub fn layout(leg: &Leg, pre: &str) -> Option<(u64, u64)> {
    let p = &leg.prog;
    let g = match p.exported.get(&format!("{}layout", pre))? {
        Target::G(g) => *g,
        _ => return None,
    };
    let cfg = Cfg { allowed: Default::default(), detected: Default::default(), max_steps: 0, max_paths: 0, unroll: 0 };
    let mut ex = Exec::new(p, cfg);
    let c = ex.global_cells(g).ok()?;
    let n = ex.ptrw() as usize / 8;
    let big = p.lay().big;
    let mut v = vec![];
    for i in 0..2 {
        let mut x = 0u64;
        for b in 0..n {
            let j = if big { n - 1 - b } else { b };
            if let Cell::B(t, k) = c[i * n + j] {
                let s = ex.t.slice(t, k as u32 * 8, 8);
                x |= (ex.t.is_const(s)? as u64) << (8 * b);
            }
        }
        v.push(x);
    }
    Some((v[0], v[1]))
}

/// Where a learning history starts.
#[derive(Clone, Copy, PartialEq)]
enum Src {
    New,
    Restore(usize),
}
/// Run a history (constructor, then appends of the given lengths) and classify every byte; one result per path
/// on which every byte of the abstract state is found in memory.
fn history(leg: &Leg, pre: &str, size: u64, align: u64, k: usize, src: Src, lens: &[u64]) -> Vec<Vec<MB>> {
    let mut j = J::new(leg, "learn".into());
    j.ex.deadline = Some(Instant::now() + std::time::Duration::from_secs(10));
    j.ex.t.deadline = Some(Instant::now() + std::time::Duration::from_secs(20));
    let mut st = j.ex.empty_state();
    let (f, fa) = match (
        leg.prog.func(&format!("{}{}", pre, if src == Src::New { "new" } else { "restore" })),
        leg.prog.func(&format!("{}append", pre)),
    ) {
        (Some(a), Some(b)) => (a, b),
        _ => return vec![],
    };
    let mut bytes: Vec<T> = vec![];
    let (arg, mut l) = match src {
        Src::New => {
            let (kp, ks) = j.key_obj(&mut st, "key");
            (kp, init(&mut Sym(&mut j.ex.t), &[ks[0], ks[1], ks[2], ks[3]]))
        }
        Src::Restore(n) => {
            let lanes = j.lane_vars();
            let buf: Vec<T> = (0..32).map(|i| j.ex.t.var(&format!("buf{}", i), 8)).collect();
            let cnt = j.ex.t.con(32, n as u128);
            bytes = buf[..n].to_vec();
            let c = checkpoint_cells(&lanes, &buf, cnt);
            (j.ex.arg_obj(&mut st, "checkpoint", c, 1, true), lanes)
        }
    };
    let out = j.raw(&mut st, "h", size, align);
    let mut r = j.call(st, f, vec![V::P(arg), V::P(out)]);
    for (i, n) in lens.iter().enumerate() {
        let arr = j.ex.t.array(&format!("d{}", i));
        let len = j.len_val(*n);
        let mut next = vec![];
        for (mut s, _) in r {
            let dp = j.ex.data_obj(&mut s, "d", arr, len);
            next.extend(j.call(s, fa, vec![V::P(out), V::P(dp), V::I(len)]));
        }
        r = next;
        for b in 0..*n {
            let o = j.len_val(b);
            bytes.push(j.ex.t.select(arr, o));
        }
    }
    while bytes.len() >= 32 {
        let p = packet(&mut Sym(&mut j.ex.t), &bytes[..32]);
        update(&mut Sym(&mut j.ex.t), &mut l, &p);
        bytes = bytes[32..].to_vec();
    }
    let mut res = vec![];
    if bytes.len() != k {
        return res;
    }
    let mut map: std::collections::HashMap<T, MB> = Default::default();
    for (i, w) in l.iter().enumerate() {
        for b in 0..8 {
            let x = j.ex.t.slice(*w, 8 * b, 8);
            map.entry(x).or_insert(MB::Lane(i as u8, b as u8));
        }
    }
    for (i, b) in bytes.iter().enumerate() {
        map.insert(*b, MB::Pend(i as u8));
    }
    for (s, _) in r {
        let mut m = vec![];
        for c in j.obj_cells(&s, out) {
            m.push(match c {
                Cell::U | Cell::D => MB::Uninit,
                c => {
                    let x = j.ex.cell_byte(&s, c);
                    if j.ex.t.is_junk(x) {
                        MB::Uninit
                    } else if let Some(v) = j.ex.t.is_const(x) {
                        MB::Const(v as u8)
                    } else if let Some(m) = map.get(&x) {
                        *m
                    } else {
                        MB::Any
                    }
                }
            });
        }
        if complete(&m, k) {
            res.push(m);
        }
    }
    res
}
/// every byte of the abstract state is present
fn complete(m: &[MB], k: usize) -> bool {
    let mut need: HashSet<(u8, u8)> = HashSet::new();
    for b in m {
        match b {
            MB::Lane(i, j) => {
                need.insert((*i, *j));
            }
            MB::Pend(j) => {
                need.insert((100, *j));
            }
            _ => {}
        }
    }
    need.len() == 128 + k
}
fn checkpoint_cells(lanes: &[T], buf: &[T], cnt: T) -> Vec<Cell> {
    let mut c = vec![];
    for l in lanes {
        for b in 0..8 {
            c.push(Cell::B(*l, b));
        }
    }
    for b in buf {
        c.push(Cell::B(*b, 0));
    }
    for b in 0..4 {
        c.push(Cell::B(cnt, b));
    }
    c
}

pub fn merge(a: MB, b: MB) -> MB {
    if a == b {
        return a;
    }
    if a == MB::Uninit || b == MB::Uninit {
        return MB::Uninit;
    }
    MB::Any
}

pub fn learn(leg: &Leg, pre: &str) -> Result<Model, String> {
    let (size, align) = layout(leg, pre).ok_or("no layout")?;
    let mut at = vec![];
    let t0 = Instant::now();
    for k in 0..32usize {
        let mut m: Option<Vec<MB>> = None;
        let kk = k as u64;
        let hs = [
            (Src::New, vec![32 + kk]),
            (Src::New, vec![31, 33 + kk]),
            (Src::New, vec![40, 56 + kk]),
            (Src::New, vec![kk]),
            (Src::Restore(k), vec![]),
            (Src::Restore(k), vec![64]),
        ];
        for (src, h) in hs {
            // later histories only weaken the guess, which the proof does as well
            if m.is_some() && t0.elapsed().as_secs() > 40 {
                break;
            }
            for o in history(leg, pre, size, align, k, src, &h) {
                match &mut m {
                    None => m = Some(o),
                    Some(x) => {
                        let y: Vec<MB> = (0..x.len()).map(|i| merge(x[i], o[i])).collect();
                        if complete(&y, k) {
                            *x = y;
                        }
                    }
                }
            }
        }
        match m {
            Some(m) => at.push(m),
            None => return Err(format!("representation not recognised with {} pending bytes", k)),
        }
    }
    Ok(Model { size, align, at })
}

pub fn learn_builder(leg: &Leg) -> Result<Model, String> {
    let (size, align) = layout(leg, "b_").ok_or("no layout")?;
    let mut j = J::new(leg, "learn".into());
    let mut st = j.ex.empty_state();
    let f = leg.prog.func("b_new").ok_or("no builder")?;
    let (kp, ks) = j.key_obj(&mut st, "key");
    let out = j.raw(&mut st, "b", size, align);
    let mut r = j.call(st, f, vec![V::P(kp), V::P(out)]);
    if r.len() != 1 {
        return Err("builder: paths".into());
    }
    let (s, _) = r.pop().unwrap();
    let mut map: std::collections::HashMap<T, MB> = Default::default();
    for (i, w) in ks.iter().enumerate() {
        for b in 0..8 {
            let x = j.ex.t.slice(*w, 8 * b, 8);
            map.insert(x, MB::Lane(i as u8, b as u8));
        }
    }
    let mut l = vec![];
    for c in j.obj_cells(&s, out) {
        l.push(match c {
            Cell::U | Cell::D => MB::Uninit,
            c => {
                let x = j.ex.cell_byte(&s, c);
                match (j.ex.t.is_const(x), map.get(&x)) {
                    (Some(v), _) => MB::Const(v as u8),
                    (_, Some(m)) => *m,
                    _ => return Err("builder: representation not recognised".into()),
                }
            }
        });
    }
    Ok(Model { size, align, at: vec![l] })
}
/// Key: four words
pub fn key_model(leg: &Leg) -> Model {
    let big = leg.prog.lay().big;
    let mut l = vec![];
    for i in 0..4 {
        for b in 0..8 {
            l.push(MB::Lane(i, if big { 7 - b } else { b }));
        }
    }
    Model { size: 32, align: 32, at: vec![l] }
}
pub const NP: u64 = NPROBE;
