//! Symbolic execution of the IR: turns a function and a symbolic start state into its paths, and
//! checks on the way that every operation is defined (in bounds, aligned, no overflow under nuw/nsw,
//! no call with a false precondition).

use crate::ir::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub const NULLO: u32 = u32::MAX;
pub const FBASE: u32 = 0x8000_0000;
pub const GBASE: u32 = 0x4000_0000;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Ptr {
    pub o: u32,
    pub g: u32,
    pub off: T,
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    I(T),
    P(Ptr),
    A(Rc<Vec<V>>),
    /// undef, poison or uninitialised
    U,
    /// a value that the loop generalisation dropped
    D,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cell {
    U,
    D,
    B(T, u16),
    P(Ptr, u8),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Stack,
    Heap,
    Const,
    Global(u32),
    /// argument object
    Arg,
    /// external bytes: array id, length
    Data(u32, T),
    /// opaque (formatter): loads give junk, stores are ignored
    Opaque,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub kind: Kind,
    pub size: u64,
    pub align: u64,
    pub ro: bool,
    pub cells: Vec<Cell>,
    pub name: String,
}

#[derive(Clone)]
pub struct ALoop {
    pub header: u32,
    pub snap: Option<Rc<State>>,
    pub visits: u32,
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub regs: Vec<V>,
    pub block: u32,
    pub ip: u32,
    pub base: usize,
    pub loops: Vec<ALoop>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub objs: Vec<(u32, Rc<Obj>)>,
    pub pc: Vec<T>,
    pub gmut: Vec<(u32, Rc<Obj>)>,
    /// history of variable refinements: (variable term, value term)
    pub subs: Rc<Vec<(T, T)>>,
    /// packet index up to which the lanes were summarised, when a loop was cut
    pub fold: Option<T>,
    /// a loop summary is in use
    pub gen: bool,
    /// number of times an unbounded variable was split
    pub splits: u32,
    pub steps: u64,
    pub depth_note: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum FK {
    Panic,
    Bounds,
    Align,
    UseAfter,
    ReadOnly,
    Overflow,
    Unreachable,
    Alloc,
    Feature,
    Junk,
    Null,
    Global,
}
impl FK {
    pub fn name(self) -> &'static str {
        match self {
            FK::Panic => "panic call (requires false)",
            FK::Bounds => "memory access in bounds",
            FK::Align => "memory access aligned",
            FK::UseAfter => "access to a dead object",
            FK::ReadOnly => "write outside the frame",
            FK::Overflow => "arithmetic without undefined overflow",
            FK::Unreachable => "unreachable code",
            FK::Alloc => "heap allocation (requires false)",
            FK::Feature => "target_feature call precondition",
            FK::Junk => "branch on uninitialised memory",
            FK::Null => "null pointer access",
            FK::Global => "access to mutable shared state",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub k: FK,
    pub msg: String,
    pub at: String,
}

pub enum Out {
    Ret(V),
    Fail(Fail),
    Unsup(String),
    /// reached the stop point
    Stopped,
    /// reached the block where the sides of a data-dependent branch meet again
    Meet,
}

pub struct PathEnd {
    pub st: State,
    pub out: Out,
}

#[derive(Clone)]
pub struct Stop {
    pub depth: usize,
    pub f: u32,
    pub block: u32,
    pub count: u32,
}

pub enum Flow {
    Next,
    /// control was transferred (ip already set)
    Jump,
    End(Out),
    Fork(Vec<State>),
}

pub struct Cfg {
    /// target features that code may use on this leg
    pub allowed: HashSet<String>,
    /// names of CPU features the detection macro reports
    pub detected: HashSet<String>,
    /// allocation permitted (never for the library)
    pub max_steps: u64,
    pub max_paths: usize,
    /// bound on splitting an unbounded variable when no invariant is found
    pub unroll: u32,
}

/// The stream being hashed: pending bytes, then the bytes of array `arr` from offset 0.
#[derive(Clone)]
pub struct Stream {
    pub lanes: Vec<T>,
    pub pend: Vec<T>,
    pub arr: u32,
    /// spec states after 0, 1, 2, ... packets
    pub states: Vec<Vec<T>>,
    /// uninterpreted names of the summarised lanes
    pub uf: Vec<u32>,
    /// 8-bit term -> where it occurs in the spec states (and how many states are indexed)
    pub bytes: (HashMap<T, Vec<(u32, u8, u8)>>, usize),
}

pub struct Exec<'a> {
    pub p: &'a Program,
    pub t: Terms,
    pub cfg: Cfg,
    gconst: HashMap<u32, Rc<Obj>>,
    gen: u32,
    addrs: HashMap<(u32, u32), T>,
    addr_of: HashMap<u32, (u32, u32)>,
    pub counts: BTreeMap<&'static str, u64>,
    pub used: HashSet<u32>,
    pub steps: u64,
    /// failures found on side conditions (path condition in the state)
    pub side: Vec<PathEnd>,
    pub stream: Option<Stream>,
    pub notes: Vec<String>,
    pub loops_proved: u64,
    pub havoc_global: u64,
    pub callbacks: u64,
    pub externs: BTreeMap<String, u64>,
    pub mut_globals: HashSet<u32>,
    /// modular contracts: function -> handler id
    pub contracts: HashMap<u32, Rc<crate::contract::Contract>>,
    pub probing: u32,
    pub deadline: Option<std::time::Instant>,
    pub z3_ms: u64,
    pub z3_calls: u64,
    /// where the sides of the branches being merged meet: (frame depth, function, block)
    meets: Vec<(usize, u32, u32)>,
    nomerge: HashSet<(u32, u32)>,
    ipdoms: HashMap<u32, Rc<Vec<Option<u32>>>>,
    pub merged: u64,
    pub debug: bool,
    vars_of: BTreeMap<u32, T>,
    pub inv_log: Vec<String>,
    pub split_vars: HashMap<(u32, u128, u128), T>,
    pub fresh: HashMap<(u32, T, u32), T>,
    /// answers of formatting routines so far
    pub nresults: u32,
    pub loop_vars: HashMap<(u32, String, u128, u128), T>,
}

fn is_small(t: &Terms, v: u32) -> bool {
    let i = &t.vars[v as usize];
    i.hi - i.lo <= 255
}

impl<'a> Exec<'a> {
    pub fn new(p: &'a Program, cfg: Cfg) -> Exec<'a> {
        Exec {
            p,
            t: Terms::new(),
            cfg,
            gconst: HashMap::new(),
            gen: 1,
            addrs: HashMap::new(),
            addr_of: HashMap::new(),
            counts: BTreeMap::new(),
            used: HashSet::new(),
            steps: 0,
            side: vec![],
            stream: None,
            notes: vec![],
            loops_proved: 0,
            havoc_global: 0,
            callbacks: 0,
            externs: BTreeMap::new(),
            mut_globals: HashSet::new(),
            contracts: HashMap::new(),
            probing: 0,
            deadline: None,
            z3_ms: 0,
            z3_calls: 0,
            meets: vec![],
            nomerge: HashSet::new(),
            ipdoms: HashMap::new(),
            merged: 0,
            debug: std::env::var("HWV_DEBUG").is_ok(),
            vars_of: BTreeMap::new(),
            inv_log: vec![],
            split_vars: HashMap::new(),
            fresh: HashMap::new(),
            nresults: 0,
            loop_vars: HashMap::new(),
        }
    }
    pub fn ptrw(&self) -> u32 {
        self.p.lay().ptr
    }
    fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    pub fn empty_state(&self) -> State {
        State {
            frames: vec![],
            objs: vec![],
            pc: vec![],
            gmut: vec![],
            subs: Rc::new(vec![]),
            fold: None,
            gen: false,
            splits: 0,
            steps: 0,
            depth_note: 0,
        }
    }
    pub fn new_obj(&mut self, st: &mut State, o: Obj) -> Ptr {
        self.gen += 1;
        let slot = st.objs.len() as u32;
        st.objs.push((self.gen, Rc::new(o)));
        let z = self.t.con(self.ptrw(), 0);
        Ptr { o: slot, g: self.gen, off: z }
    }
    /// object filled from 8-bit cells
    pub fn arg_obj(&mut self, st: &mut State, name: &str, cells: Vec<Cell>, align: u64, ro: bool) -> Ptr {
        self.new_obj(
            st,
            Obj { kind: Kind::Arg, size: cells.len() as u64, align, ro, cells, name: name.into() },
        )
    }
    pub fn data_obj(&mut self, st: &mut State, name: &str, arr: u32, len: T) -> Ptr {
        self.new_obj(
            st,
            Obj { kind: Kind::Data(arr, len), size: 0, align: 1, ro: true, cells: vec![], name: name.into() },
        )
    }
    /// push the initial frame
    pub fn start(&mut self, st: &mut State, f: u32, args: Vec<V>) {
        self.used.insert(f);
        let fu = &self.p.funcs[f as usize];
        let mut regs = vec![V::D; fu.nregs as usize];
        for ((_, r), v) in fu.params.iter().zip(args) {
            regs[*r as usize] = v;
        }
        let base = st.objs.len();
        st.frames.push(Rc::new(Frame { f, regs, block: 0, ip: 0, base, loops: vec![], dst: None, normal: None }));
    }

    fn at(&self, st: &State) -> String {
        let mut s = vec![];
        for f in st.frames.iter().rev().take(4) {
            let fu = &self.p.funcs[f.f as usize];
            let n = if fu.demangled.is_empty() { &fu.name } else { &fu.demangled };
            s.push(n.clone());
        }
        s.join(" <- ")
    }
    pub fn fail(&self, st: &State, k: FK, msg: String) -> Out {
        Out::Fail(Fail { k, msg, at: self.at(st) })
    }

    // ------------------------------------------------------------------ driver
    /// Run a state to the end of all its paths (or to the stop point).
    pub fn run(&mut self, st: State, stop: Option<&Stop>) -> Vec<PathEnd> {
        self.run_from(st, None, stop)
    }
    /// the same, entering a block first
    fn run_from(&mut self, st: State, mut first: Option<u32>, stop: Option<&Stop>) -> Vec<PathEnd> {
        let mut work = vec![st];
        let mut ends = vec![];
        while let Some(mut s) = work.pop() {
            let mut visits = 0;
            if let Some(to) = first.take() {
                match self.enter(&mut s, to, stop, &mut visits) {
                    Ok(Flow::End(o)) | Err(Stopx::End(o)) => {
                        ends.push(PathEnd { st: s, out: o });
                        continue;
                    }
                    Ok(Flow::Fork(v)) | Err(Stopx::Fork(v)) => {
                        work.extend(v);
                        continue;
                    }
                    Ok(_) => {}
                }
            }
            loop {
                match self.step(&mut s, stop, &mut visits) {
                    Flow::Next => {}
                    Flow::Jump => {}
                    Flow::End(o) => {
                        ends.push(PathEnd { st: s, out: o });
                        break;
                    }
                    Flow::Fork(v) => {
                        if self.debug && v.len() != 1 {
                            eprintln!("fork {} at {}", v.len(), self.at(&s));
                        }
                        work.extend(v.into_iter().rev());
                        break;
                    }
                }
                if s.steps > self.cfg.max_steps {
                    ends.push(PathEnd { st: s, out: Out::Unsup("step limit".into()) });
                    break;
                }
            }
            if over(self.deadline) {
                for s in work.drain(..) {
                    ends.push(PathEnd { st: s, out: Out::Unsup("time limit".into()) });
                }
            }
            if ends.len() + work.len() > self.cfg.max_paths {
                for s in work.drain(..) {
                    ends.push(PathEnd { st: s, out: Out::Unsup("path limit".into()) });
                }
            }
        }
        ends
    }

    #[inline]
    fn top<'s>(&self, st: &'s mut State) -> &'s mut Frame {
        Rc::make_mut(st.frames.last_mut().unwrap())
    }
    #[inline]
    fn set(&self, st: &mut State, dst: Option<u32>, v: V) {
        if let Some(d) = dst {
            self.top(st).regs[d as usize] = v;
        }
    }

    fn step(&mut self, st: &mut State, stop: Option<&Stop>, visits: &mut u32) -> Flow {
        let fr = st.frames.last().unwrap();
        let p = self.p;
        let fu = &p.funcs[fr.f as usize];
        let ins = &fu.blocks[fr.block as usize].ins[fr.ip as usize];
        st.steps += 1;
        self.steps += 1;
        match self.exec(st, ins, stop, visits) {
            Ok(Flow::Next) => {
                self.top(st).ip += 1;
                Flow::Next
            }
            Ok(f) => f,
            Err(o) => match o {
                Stopx::End(Out::Unsup(m)) => Flow::End(Out::Unsup(if m.contains(" @ ") { m } else { format!("{} @ {}", m, self.at(st)) })),
                Stopx::End(o) => Flow::End(o),
                Stopx::Fork(v) => Flow::Fork(v),
            },
        }
    }

    // ------------------------------------------------------------------ operands
    fn zero(&mut self, ty: &Ty) -> V {
        match ty {
            Ty::Int(w) => V::I(self.t.con(*w, 0)),
            Ty::Ptr => V::P(self.null(0)),
            Ty::Vec(..) => {
                let b = self.p.lay().bits(ty);
                V::I(self.t.con(b, 0))
            }
            Ty::Arr(n, e) => {
                let z = self.zero(e);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(_, f) => V::A(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            _ => V::U,
        }
    }
    fn null(&mut self, v: u128) -> Ptr {
        let off = self.t.con(self.ptrw(), v);
        Ptr { o: NULLO, g: 0, off }
    }
    fn sym(&mut self, s: Sym, off: i64) -> Result<V, Out> {
        let o = self.t.con(self.ptrw(), off as i128 as u128);
        match self.p.syms[s as usize].to {
            Target::F(f) => Ok(V::P(Ptr { o: FBASE | f, g: 0, off: o })),
            Target::G(g) => Ok(V::P(Ptr { o: GBASE | g, g: 0, off: o })),
            Target::None => Err(Out::Unsup(format!("symbol {}", self.p.syms[s as usize].name))),
        }
    }
    fn get(&mut self, st: &State, o: &Op, ty: &Ty) -> Result<V, Out> {
        Ok(match o {
            Op::R(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                if let V::D = v {
                    return Err(Out::Unsup("use of a value dropped by the loop summary".into()));
                }
                v.clone()
            }
            Op::I(w, v) => V::I(self.t.con(*w, *v)),
            Op::Null => V::P(self.null(0)),
            Op::Undef => V::U,
            Op::Zero => self.zero(ty),
            Op::S(s) => self.sym(*s, 0)?,
            Op::SOff(s, k) => self.sym(*s, *k)?,
            Op::IntPtr(v) => V::P(self.null(*v)),
            Op::PtrInt(w, s, k) => {
                let v = self.sym(*s, *k)?;
                if let V::P(p) = v {
                    let a = self.addr(st, p);
                    V::I(self.fit(a, *w))
                } else {
                    V::U
                }
            }
            Op::Agg(l) => {
                if let Ty::Vec(_, e) = ty {
                    let mut parts = vec![];
                    for (t, o) in l.iter() {
                        let v = self.get(st, o, t)?;
                        parts.push(self.int(v, self.p.lay().bits(e)));
                    }
                    V::I(self.t.concat(&parts))
                } else {
                    let mut v = vec![];
                    for (t, o) in l.iter() {
                        v.push(self.get(st, o, t)?);
                    }
                    V::A(Rc::new(v))
                }
            }
            Op::Bytes(b) => {
                if let Ty::Vec(..) = ty {
                    let parts: Vec<T> = b.iter().map(|x| self.t.con(8, *x as u128)).collect();
                    V::I(self.t.concat(&parts))
                } else {
                    V::A(Rc::new(b.iter().map(|x| V::I(self.t.con(8, *x as u128))).collect()))
                }
            }
            Op::Splat(n, o) => {
                if let Ty::Vec(_, e) = ty {
                    let v = self.get(st, o, e)?;
                    let x = self.int(v, self.p.lay().bits(e));
                    V::I(self.t.concat(&vec![x; *n as usize]))
                } else {
                    return Err(Out::Unsup("splat".into()));
                }
            }
            Op::Bad(m) => return Err(Out::Unsup(m.clone())),
        })
    }
    fn fit(&mut self, t: T, w: u32) -> T {
        let k = self.t.w(t);
        if k > w {
            self.t.slice(t, 0, w)
        } else {
            self.t.zext(t, w)
        }
    }
    /// integer term of a value (fresh junk for undefined values)
    pub fn int(&mut self, v: V, w: u32) -> T {
        match v {
            V::I(t) => t,
            V::P(p) => {
                let a = self.addr_raw(p);
                self.fit(a, w)
            }
            _ => self.t.junk(w),
        }
    }
    fn geti(&mut self, st: &State, o: &Op, ty: &Ty) -> Result<T, Out> {
        // registers and small constants first
        if let Op::I(w, v) = o {
            return Ok(self.t.con(*w, *v));
        }
        let v = self.get(st, o, ty)?;
        if let V::P(p) = v {
            let a = self.addr(st, p);
            let w = self.p.lay().bits(ty);
            return Ok(self.fit(a, w));
        }
        if let V::A(_) = v {
            return Err(Out::Unsup("aggregate as integer".into()));
        }
        Ok(self.int(v, self.p.lay().bits(ty)))
    }
    fn getp(&mut self, st: &State, o: &Op) -> Result<Ptr, Out> {
        let v = self.get(st, o, &Ty::Ptr)?;
        self.as_ptr(v)
    }
    fn as_ptr(&mut self, v: V) -> Result<Ptr, Out> {
        match v {
            V::P(p) => Ok(p),
            V::I(t) => Ok(self.int_to_ptr(t)),
            V::U => Err(Out::Unsup("undefined pointer".into())),
            _ => Err(Out::Unsup("pointer value".into())),
        }
    }
    fn int_to_ptr(&mut self, t: T) -> Ptr {
        let t = self.fit(t, self.ptrw());
        let l = self.t.lin(t);
        for (x, k) in l.t.iter() {
            if *k == 1 {
                if let Some(v) = self.base_var(*x) {
                    if let Some((o, g)) = self.addr_of.get(&v).copied() {
                        let b = self.addrs[&(o, g)];
                        let off = self.t.sub(t, b);
                        return Ptr { o, g, off };
                    }
                }
            }
        }
        // a base with aligned low bits shows up as one concatenation
        Ptr { o: NULLO, g: 0, off: t }
    }
    fn base_var(&self, t: T) -> Option<u32> {
        let n = &self.t.terms[t as usize];
        let p = n.p.last()?;
        if let Xs::One(a, 0) = p.xs {
            if let AK::Var(v) = self.t.atoms[a as usize].k {
                return Some(v);
            }
        }
        None
    }
    fn align_of(&self, st: &State, o: u32, g: u32) -> u64 {
        if o == NULLO {
            return 1;
        }
        if o & FBASE != 0 {
            return 1;
        }
        if o & GBASE != 0 {
            return self.p.globals[(o & !GBASE) as usize].align.max(1);
        }
        match st.objs.get(o as usize) {
            Some((gg, ob)) if *gg == g => ob.align,
            _ => 1,
        }
    }
    fn addr(&mut self, st: &State, p: Ptr) -> T {
        if p.o != NULLO && !self.addrs.contains_key(&(p.o, p.g)) {
            let al = self.align_of(st, p.o, p.g).max(1);
            let k = al.trailing_zeros();
            let w = self.ptrw();
            let v = self.t.var_range(&format!("addr_{}_{}", p.o, p.g), w - k, 1, (mask(w - k) >> 1) - 1);
            let id = self.t.var_of(v).unwrap();
            let z = self.t.con(k, 0);
            let b = if k == 0 { v } else { self.t.concat(&[z, v]) };
            self.addrs.insert((p.o, p.g), b);
            self.addr_of.insert(id, (p.o, p.g));
        }
        self.addr_raw(p)
    }
    fn addr_raw(&mut self, p: Ptr) -> T {
        if p.o == NULLO {
            return p.off;
        }
        match self.addrs.get(&(p.o, p.g)).copied() {
            Some(b) => self.t.add(b, p.off),
            None => {
                let w = self.ptrw();
                let v = self.t.var_range(&format!("addr_{}_{}", p.o, p.g), w, 1, (mask(w) >> 1) - 1);
                let id = self.t.var_of(v).unwrap();
                self.addrs.insert((p.o, p.g), v);
                self.addr_of.insert(id, (p.o, p.g));
                self.t.add(v, p.off)
            }
        }
    }
    pub fn is_addr_var(&self, v: u32) -> bool {
        self.addr_of.contains_key(&v)
    }

    // ------------------------------------------------------------------ memory
    fn gobj(&mut self, st: &mut State, g: u32) -> Result<Rc<Obj>, Out> {
        let gl = &self.p.globals[g as usize];
        if gl.constant {
            if let Some(o) = self.gconst.get(&g) {
                return Ok(o.clone());
            }
        } else {
            // shared mutable state: any other code may have written it
            self.mut_globals.insert(g);
            self.havoc_global += 1;
            let sz = self.p.lay().size(&gl.ty);
            let cells = (0..sz).map(|_| Cell::B(self.t.junk(8), 0)).collect();
            let _ = st;
            return Ok(Rc::new(Obj {
                kind: Kind::Global(g),
                size: sz,
                align: gl.align,
                ro: false,
                cells,
                name: gl.name.clone(),
            }));
        }
        let init = match &gl.init {
            Some(i) => i.clone(),
            None => return Err(Out::Unsup(format!("external global {}", gl.name))),
        };
        let size = self.p.lay().size(&gl.ty);
        let mut cells = vec![Cell::U; size as usize];
        let ty = gl.ty.clone();
        self.fill(st, &mut cells, 0, &ty, &init)?;
        let o = Rc::new(Obj { kind: Kind::Const, size, align: gl.align, ro: true, cells, name: gl.name.clone() });
        self.gconst.insert(g, o.clone());
        Ok(o)
    }
    fn fill(&mut self, st: &State, cells: &mut [Cell], at: u64, ty: &Ty, o: &Op) -> Result<(), Out> {
        match (o, ty) {
            (Op::Undef, _) => Ok(()),
            (Op::Bytes(b), _) => {
                for (i, x) in b.iter().enumerate() {
                    cells[at as usize + i] = Cell::B(self.t.con(8, *x as u128), 0);
                }
                Ok(())
            }
            (Op::Zero, _) => {
                let n = self.p.lay().size(ty);
                let z = self.t.con(8, 0);
                for i in 0..n {
                    cells[(at + i) as usize] = Cell::B(z, 0);
                }
                Ok(())
            }
            (Op::Agg(l), Ty::Struct(..)) => {
                let (offs, _) = self.p.lay().offsets(ty);
                for (i, (t, x)) in l.iter().enumerate() {
                    self.fill(st, cells, at + offs[i], t, x)?;
                }
                Ok(())
            }
            (Op::Agg(l), Ty::Arr(_, e)) => {
                let s = self.p.lay().size(e);
                for (i, (t, x)) in l.iter().enumerate() {
                    self.fill(st, cells, at + s * i as u64, t, x)?;
                }
                Ok(())
            }
            _ => {
                let v = self.get(st, o, ty)?;
                self.put(cells, at as usize, ty, v)
            }
        }
    }
    /// write a value into cells
    fn put(&mut self, cells: &mut [Cell], at: usize, ty: &Ty, v: V) -> Result<(), Out> {
        let lay = self.p.lay();
        match ty {
            Ty::Struct(_, f) => {
                let (offs, _) = lay.offsets(ty);
                match v {
                    V::A(l) => {
                        for (i, t) in f.iter().enumerate() {
                            self.put(cells, at + offs[i] as usize, t, l[i].clone())?;
                        }
                    }
                    _ => {
                        for c in cells[at..at + lay.size(ty) as usize].iter_mut() {
                            *c = Cell::U
                        }
                    }
                }
                return Ok(());
            }
            Ty::Arr(n, e) => {
                let s = lay.size(e) as usize;
                match v {
                    V::A(l) => {
                        for i in 0..*n as usize {
                            self.put(cells, at + s * i, e, l[i].clone())?;
                        }
                    }
                    _ => {
                        for c in cells[at..at + s * *n as usize].iter_mut() {
                            *c = Cell::U
                        }
                    }
                }
                return Ok(());
            }
            _ => {}
        }
        let n = lay.store_size(ty) as usize;
        match v {
            V::U => {
                for c in cells[at..at + n].iter_mut() {
                    *c = Cell::U
                }
            }
            V::D => {
                for c in cells[at..at + n].iter_mut() {
                    *c = Cell::D
                }
            }
            V::P(p) => {
                for i in 0..n {
                    cells[at + i] = Cell::P(p, i as u8);
                }
            }
            V::I(t) => {
                let big = lay.big;
                if let (Ty::Vec(k, e), true) = (ty, big) {
                    let eb = lay.bits(e);
                    if eb % 8 != 0 {
                        return Err(Out::Unsup("vector of bits in memory".into()));
                    }
                    let es = (eb / 8) as usize;
                    for i in 0..*k as usize {
                        let x = self.t.slice(t, i as u32 * eb, eb);
                        for b in 0..es {
                            cells[at + i * es + b] = Cell::B(x, (es - 1 - b) as u16);
                        }
                    }
                    return Ok(());
                }
                let t = self.t.zext(t, n as u32 * 8);
                for i in 0..n {
                    let b = if big { n - 1 - i } else { i };
                    cells[at + i] = Cell::B(t, b as u16);
                }
            }
            V::A(_) => return Err(Out::Unsup("aggregate store".into())),
        }
        Ok(())
    }
    pub fn cell_byte(&mut self, st: &State, c: Cell) -> T {
        match c {
            Cell::U | Cell::D => self.t.junk(8),
            Cell::B(t, i) => self.t.slice(t, i as u32 * 8, 8),
            Cell::P(p, i) => {
                let a = self.addr(st, p);
                let n = self.ptrw() / 8;
                let b = if self.p.lay().big { n - 1 - i as u32 } else { i as u32 };
                self.t.slice(a, b * 8, 8)
            }
        }
    }
    fn read(&mut self, st: &State, cells: &[Cell], ty: &Ty) -> Result<V, Out> {
        let lay = self.p.lay();
        match ty {
            Ty::Struct(_, f) => {
                let (offs, _) = lay.offsets(ty);
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() {
                    let n = lay.store_size(t) as usize;
                    let o = offs[i] as usize;
                    v.push(self.read(st, &cells[o..o + n.max(lay.size(t) as usize)], t)?);
                }
                return Ok(V::A(Rc::new(v)));
            }
            Ty::Arr(n, e) => {
                let s = lay.size(e) as usize;
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.read(st, &cells[i * s..(i + 1) * s], e)?);
                }
                return Ok(V::A(Rc::new(v)));
            }
            _ => {}
        }
        let n = lay.store_size(ty) as usize;
        let cells = &cells[..n];
        if cells.iter().any(|c| matches!(c, Cell::D)) {
            if self.debug {
                eprintln!("dropped: {} {}", format!("{:?}", ty), cells.iter().map(|c| if *c == Cell::D { 'D' } else { '.' }).collect::<String>());
                for c in cells { if let Cell::B(t, k) = c { eprintln!("  {} [{}]", self.t.show(*t), k) } }
                for (i, o) in &st.objs {
                    if o.cells.windows(n).any(|w| w == cells) {
                        eprintln!("  in object {} {}: {}", i, o.name, o.cells.iter().map(|c| match c { Cell::D => 'D', Cell::P(..) => 'P', Cell::U => 'U', _ => '.' }).collect::<String>());
                    }
                }
            }
            return Err(Out::Unsup("load of memory dropped by the loop summary".into()));
        }
        if cells.iter().all(|c| matches!(c, Cell::U)) {
            return Ok(V::U);
        }
        // a whole pointer
        if let Cell::P(p, 0) = cells[0] {
            if n == (self.ptrw() / 8) as usize
                && cells.iter().enumerate().all(|(i, c)| *c == Cell::P(p, i as u8))
            {
                if let Ty::Ptr = ty {
                    return Ok(V::P(p));
                }
                return Ok(V::I(self.addr(st, p)));
            }
        }
        let big = lay.big;
        let bits = lay.bits(ty);
        if let (Ty::Vec(k, e), true) = (ty, big) {
            let eb = lay.bits(e);
            let es = (eb / 8) as usize;
            let mut parts = vec![];
            for i in 0..*k as usize {
                for b in 0..es {
                    parts.push(self.cell_byte(st, cells[i * es + es - 1 - b]));
                }
            }
            return Ok(V::I(self.t.concat(&parts)));
        }
        // least significant first
        let c0 = if big { cells[n - 1] } else { cells[0] };
        let t = if let Cell::B(t, k) = c0 {
            let ok = (0..n).all(|i| {
                let c = if big { cells[n - 1 - i] } else { cells[i] };
                c == Cell::B(t, k + i as u16)
            });
            if ok {
                Some(self.t.slice(t, k as u32 * 8, n as u32 * 8))
            } else {
                None
            }
        } else {
            None
        };
        let t = match t {
            Some(t) => t,
            None => {
                let mut parts = Vec::with_capacity(n);
                let mut i = 0;
                while i < n {
                    let at = |i: usize| if big { cells[n - 1 - i] } else { cells[i] };
                    let c = at(i);
                    if let Cell::B(t, k) = c {
                        let mut j = 1;
                        while i + j < n && at(i + j) == Cell::B(t, k + j as u16) {
                            j += 1;
                        }
                        parts.push(self.t.slice(t, k as u32 * 8, j as u32 * 8));
                        i += j;
                    } else {
                        parts.push(self.cell_byte(st, c));
                        i += 1;
                    }
                }
                self.t.concat(&parts)
            }
        };
        let t = self.fit(t, bits);
        if let Ty::Ptr = ty {
            return Ok(V::P(self.int_to_ptr(t)));
        }
        Ok(V::I(t))
    }

    fn align_ok(&mut self, st: &mut State, ob: &Obj, p: Ptr, align: u64, what: &str) -> Result<(), Stopx> {
        if align <= 1 || matches!(ob.kind, Kind::Opaque) {
            return Ok(());
        }
        self.count("memory access aligned");
        let k = align.trailing_zeros();
        let low = self.t.slice(p.off, 0, k);
        if ob.align >= align && self.t.is_const(low) == Some(0) {
            return Ok(());
        }
        let z = self.t.con(k, 0);
        let c = if ob.align >= align { self.t.eq(low, z) } else { self.t.con(1, 0) };
        let m = format!(
            "{} requires alignment {}, {} is only aligned to {} (offset {})",
            what,
            align,
            ob.name,
            ob.align,
            self.t.show(p.off)
        );
        self.require(st, c, FK::Align, m)
    }
    /// alignment promised by a call's parameter attribute
    pub fn check_align(&mut self, st: &mut State, p: Ptr, align: u64, what: &str) -> Result<(), Stopx> {
        if align <= 1 || p.o == NULLO || p.o & FBASE != 0 {
            return Ok(());
        }
        let ob = if p.o & GBASE != 0 {
            self.gobj(st, p.o & !GBASE)?
        } else {
            match st.objs.get(p.o as usize) {
                Some((g, ob)) if *g == p.g => ob.clone(),
                _ => return Ok(()),
            }
        };
        self.align_ok(st, &ob, p, align, what)
    }
    pub fn global_cells(&mut self, g: u32) -> Result<Vec<Cell>, Stopx> {
        let mut st = self.empty_state();
        Ok(self.gobj(&mut st, g)?.cells.clone())
    }
    pub fn bump(&self, st: &mut State) {
        self.top(st).ip += 1;
    }
    /// a concrete value for a control operand, splitting on the choices it contains
    pub fn enumerate(&mut self, st: &mut State, t: T) -> Result<u64, Stopx> {
        if let Some(k) = self.t.is_const(t) {
            return Ok(k as u64);
        }
        if let Some(a) = self.t.full_atom(t) {
            if let AK::Ite(c, x, y) = self.t.atoms[a as usize].k {
                let r = if self.decide(st, c)? { x } else { y };
                return self.enumerate(st, r);
            }
        }
        let (lo, hi) = self.t.range(t);
        let big = self.big_vars(t);
        if hi - lo <= 64 && big.len() == 1 && self.probing == 0 && st.splits <= self.cfg.unroll {
            let v = big[0];
            let lo = self.t.vars[v as usize].lo;
            return Err(Stopx::Fork(self.split(st, v, lo + 1)));
        }
        Err(Stopx::End(Out::Unsup(format!("symbolic length {}", self.t.show(t)))))
    }

    /// Check an access of n bytes at p; gives the object and the concrete offset (None: data object).
    fn access(&mut self, st: &mut State, p: Ptr, n: u64, align: u64, write: bool) -> Result<(Rc<Obj>, Acc), Stopx> {
        if n == 0 {
            return Err(Stopx::End(Out::Unsup("empty access".into())));
        }
        if p.o == NULLO {
            let m = format!("access of {} bytes through an invalid pointer ({})", n, self.t.show(p.off));
            return Err(Stopx::End(self.fail(st, FK::Null, m)));
        }
        if p.o & FBASE != 0 {
            return Err(Stopx::End(self.fail(st, FK::Bounds, "data access to a function".into())));
        }
        let ob = if p.o & GBASE != 0 {
            let g = p.o & !GBASE;
            match st.gmut.iter().find(|x| x.0 == g) {
                Some(x) if false => x.1.clone(),
                _ => self.gobj(st, g)?,
            }
        } else {
            match st.objs.get(p.o as usize) {
                Some((g, ob)) if *g == p.g => ob.clone(),
                _ => return Err(Stopx::End(self.fail(st, FK::UseAfter, "object is no longer alive".into()))),
            }
        };
        self.count("memory access in bounds");
        if write && ob.ro {
            let m = format!("store to {}", ob.name);
            return Err(Stopx::End(self.fail(st, FK::ReadOnly, m)));
        }
        self.align_ok(st, &ob, p, align, &format!("{} of {} bytes", if write { "store" } else { "load" }, n))?;
        if let Kind::Data(_, len) = ob.kind {
            // off + n <= len, off not negative
            let (lo, _) = self.t.sum_range(&[(len, 1), (p.off, -1)], -(n as i128));
            let (olo, _) = self.t.sum_range(&[(p.off, 1)], 0);
            if !(lo >= 0 && olo >= 0) {
                let w = self.ptrw();
                let nn = self.t.con(w, n as u128);
                let c1 = self.t.ult(len, nn);
                let c1 = self.t.not(c1);
                let room = self.t.sub(len, nn);
                let c2 = self.t.ult(room, p.off);
                let c2 = self.t.not(c2);
                let c = self.t.and(c1, c2);
                let m = format!(
                    "read of {} bytes at offset {} of the input slice of length {}",
                    n,
                    self.t.show(p.off),
                    self.t.show(len)
                );
                self.require(st, c, FK::Bounds, m)?;
            }
            return Ok((ob, Acc::Sym));
        }
        let off = match self.t.is_const(p.off) {
            Some(o) => o,
            None => {
                if let Some(v) = self.small_var(p.off) {
                    let f = self.concretise(st, v);
                    return Err(Stopx::Fork(f));
                }
                let l = self.t.range(p.off);
                let m = format!("symbolic offset {} into {} {:?}", self.t.show(p.off), ob.name, l);
                // a data-dependent table index: read only
                if !write && ob.size <= 4096 && l.1 + n as u128 <= ob.size as u128 && l.1 - l.0 <= 256 {
                    return Ok((ob, Acc::Table(l.0 as u64, l.1 as u64)));
                }
                return Err(Stopx::End(Out::Unsup(m)));
            }
        };
        if off + n as u128 > ob.size as u128 {
            let m = format!(
                "{} of {} bytes at offset {} of {} ({} bytes)",
                if write { "store" } else { "load" },
                n,
                sx(off, self.ptrw()),
                ob.name,
                ob.size
            );
            return Err(Stopx::End(self.fail(st, FK::Bounds, m)));
        }
        Ok((ob, Acc::At(off as usize)))
    }
    fn cells_of(&mut self, ob: &Obj, off: T, n: u64) -> Vec<Cell> {
        // bytes of a data object
        if let Kind::Data(arr, _) = ob.kind {
            (0..n)
                .map(|i| {
                    let o = self.t.add_c(off, i as u128);
                    Cell::B(self.t.select(arr, o), 0)
                })
                .collect()
        } else {
            vec![]
        }
    }
    pub fn load(&mut self, st: &mut State, p: Ptr, ty: &Ty, align: u64) -> Result<V, Stopx> {
        let n = self.p.lay().store_size(ty);
        if n == 0 {
            return Ok(V::A(Rc::new(vec![])));
        }
        let (ob, acc) = self.access(st, p, n, align, false)?;
        if let Kind::Opaque = ob.kind {
            // defined, arbitrary
            let w = n as u32 * 8;
            // (the formatter's options do not change while a value is being formatted)
            let x = match self.fresh.get(&(p.g, p.off, w)) {
                Some(x) => *x,
                None => {
                    let x = self.t.var(&format!("opaque{}", self.fresh.len()), w);
                    self.fresh.insert((p.g, p.off, w), x);
                    x
                }
            };
            let c: Vec<Cell> = (0..n as u16).map(|i| Cell::B(x, i)).collect();
            return Ok(self.read(st, &c, ty)?);
        }
        match acc {
            Acc::At(o) => {
                let c = &ob.cells[o..o + n as usize];
                Ok(self.read(st, c, ty)?)
            }
            Acc::Sym => {
                let c = self.cells_of(&ob, p.off, n);
                Ok(self.read(st, &c, ty)?)
            }
            Acc::Table(lo, hi) => {
                let w = self.ptrw();
                let mut acc: Option<T> = None;
                for o in (lo..=hi).rev() {
                    let c = ob.cells[o as usize..(o + n) as usize].to_vec();
                    let v = self.read(st, &c, ty)?;
                    let x = match v {
                        V::I(t) => t,
                        _ => return Err(Stopx::End(Out::Unsup("table of pointers".into()))),
                    };
                    acc = Some(match acc {
                        None => x,
                        Some(a) => {
                            let k = self.t.con(w, o as u128);
                            let e = self.t.eq(p.off, k);
                            self.t.ite(e, x, a)
                        }
                    });
                }
                Ok(V::I(acc.unwrap()))
            }
        }
    }
    pub fn store(&mut self, st: &mut State, p: Ptr, ty: &Ty, v: V, align: u64) -> Result<(), Stopx> {
        let n = self.p.lay().store_size(ty);
        if n == 0 {
            return Ok(());
        }
        let (ob, acc) = self.access(st, p, n, align, true)?;
        let kind = ob.kind;
        drop(ob);
        if let Kind::Opaque = kind {
            return Ok(());
        }
        if let Kind::Global(_) = kind {
            // havocked on every read, so the value itself is irrelevant
            self.count("access to mutable shared state");
            return Ok(());
        }
        match acc {
            Acc::At(o) => {
                let x = &mut st.objs[p.o as usize].1;
                let mut m = std::mem::replace(x, self.dummy());
                {
                    let mm = Rc::make_mut(&mut m);
                    let r = self.put(&mut mm.cells, o, ty, v);
                    if let Err(e) = r {
                        st.objs[p.o as usize].1 = m;
                        return Err(Stopx::End(e));
                    }
                }
                st.objs[p.o as usize].1 = m;
                Ok(())
            }
            _ => Err(Stopx::End(Out::Unsup("store at a symbolic offset".into()))),
        }
    }
    fn dummy(&self) -> Rc<Obj> {
        thread_local! {
            static D: Rc<Obj> = Rc::new(Obj { kind: Kind::Opaque, size: 0, align: 1, ro: true, cells: vec![], name: String::new() });
        }
        D.with(|d| d.clone())
    }
    pub fn write_cells(&mut self, st: &mut State, p: Ptr, c: &[Cell]) -> Result<(), Stopx> {
        if c.is_empty() {
            return Ok(());
        }
        let (ob, acc) = self.access(st, p, c.len() as u64, 1, true)?;
        let kind = ob.kind;
        drop(ob);
        if matches!(kind, Kind::Opaque | Kind::Global(_)) {
            return Ok(());
        }
        match acc {
            Acc::At(o) => {
                let m = Rc::make_mut(&mut st.objs[p.o as usize].1);
                m.cells[o..o + c.len()].copy_from_slice(c);
                Ok(())
            }
            _ => Err(Stopx::End(Out::Unsup("copy to a symbolic offset".into()))),
        }
    }
    pub fn read_cells(&mut self, st: &mut State, p: Ptr, n: u64) -> Result<Vec<Cell>, Stopx> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (ob, acc) = self.access(st, p, n, 1, false)?;
        if let Kind::Opaque = ob.kind {
            return Ok(vec![Cell::U; n as usize]);
        }
        match acc {
            Acc::At(o) => Ok(ob.cells[o..o + n as usize].to_vec()),
            Acc::Sym => Ok(self.cells_of(&ob, p.off, n)),
            Acc::Table(..) => Err(Stopx::End(Out::Unsup("copy from a symbolic offset".into()))),
        }
    }

    // ------------------------------------------------------------------ conditions
    pub fn small_var(&self, t: T) -> Option<u32> {
        let m = self.t.vars_of(t);
        if m == 0 {
            return None;
        }
        let mut best: Option<u32> = None;
        for (i, v) in self.t.vars.iter().enumerate() {
            if v.idx && v.bit < 128 && m >> v.bit & 1 == 1 && is_small(&self.t, i as u32) {
                best = Some(i as u32);
            }
        }
        best
    }
    fn big_vars(&self, t: T) -> Vec<u32> {
        let m = self.t.vars_of(t);
        if m == 0 {
            return vec![];
        }
        self.t
            .vars
            .iter()
            .enumerate()
            .filter(|(i, v)| v.idx && v.bit < 128 && m >> v.bit & 1 == 1 && !is_small(&self.t, *i as u32))
            .map(|x| x.0 as u32)
            .collect()
    }

    /// Require a condition: a side path records the failure, the state continues with it assumed.
    pub fn require(&mut self, st: &mut State, c: T, k: FK, msg: String) -> Result<(), Stopx> {
        match self.t.is_const(c) {
            Some(1) => return Ok(()),
            Some(_) => return Err(Stopx::End(self.fail(st, k, msg))),
            None => {}
        }
        if st.pc.contains(&c) {
            return Ok(());
        }
        if let Some(v) = self.small_var(c) {
            let f = self.concretise(st, v);
            return Err(Stopx::Fork(f));
        }
        let n = self.t.not(c);
        if !self.t.is_junk(c) {
            let mut pc = st.pc.clone();
            pc.push(n);
            if crate::smt::infeasible(self, &pc) {
                if self.probing == 0 {
                    st.pc.push(c);
                }
                return Ok(());
            }
        }
        if self.probing > 0 || st.gen && self.t.is_junk(c) {
            return Err(Stopx::End(Out::Unsup(format!("undecided side condition: {}", msg))));
        }
        let mut s2 = st.clone();
        s2.pc.push(n);
        let out = self.fail(&s2, k, msg);
        self.side.push(PathEnd { st: s2, out });
        st.pc.push(c);
        Ok(())
    }

    pub fn subst_state(&mut self, st: &State, s: &mut Subst) -> State {
        let mut r = st.clone();
        for f in r.frames.iter_mut() {
            let mut nf = (**f).clone();
            for v in nf.regs.iter_mut() {
                *v = self.subst_v(v, s);
            }
            for l in nf.loops.iter_mut() {
                if let Some(sn) = &l.snap {
                    let x = self.subst_state(sn, s);
                    l.snap = Some(Rc::new(x));
                }
            }
            *f = Rc::new(nf);
        }
        for (_, o) in r.objs.iter_mut() {
            let mut touched = false;
            let mut cells = o.cells.clone();
            let mut last: Option<(T, T)> = None;
            for c in cells.iter_mut() {
                match c {
                    Cell::B(t, _) => {
                        if self.t.vars_of(*t) & s.mask != 0 || !s.plain.is_empty() {
                            let n = match last {
                                Some((a, b)) if a == *t => b,
                                _ => {
                                    let b = self.t.subst(*t, s);
                                    last = Some((*t, b));
                                    b
                                }
                            };
                            if n != *t {
                                *t = n;
                                touched = true;
                            }
                        }
                    }
                    Cell::P(p, _) => {
                        let n = self.t.subst(p.off, s);
                        if n != p.off {
                            p.off = n;
                            touched = true;
                        }
                    }
                    _ => {}
                }
            }
            let mut kind = o.kind;
            if let Kind::Data(a, l) = kind {
                let n = self.t.subst(l, s);
                if n != l {
                    kind = Kind::Data(a, n);
                    touched = true;
                }
            }
            if touched {
                let mut no = (**o).clone();
                no.cells = cells;
                no.kind = kind;
                *o = Rc::new(no);
            }
        }
        for c in r.pc.iter_mut() {
            *c = self.t.subst(*c, s);
        }
        if let Some(f) = r.fold {
            r.fold = Some(self.t.subst(f, s));
        }
        let subs: Vec<(T, T)> = r.subs.iter().map(|(a, b)| (*a, self.t.subst(*b, s))).collect();
        r.subs = Rc::new(subs);
        r
    }
    fn subst_v(&mut self, v: &V, s: &mut Subst) -> V {
        match v {
            V::I(t) => V::I(self.t.subst(*t, s)),
            V::P(p) => V::P(Ptr { off: self.t.subst(p.off, s), ..*p }),
            V::A(l) => V::A(Rc::new(l.iter().map(|x| self.subst_v(x, s)).collect())),
            x => x.clone(),
        }
    }
    /// replace a variable by a term, recording the refinement
    pub fn refine(&mut self, st: &State, v: u32, x: T) -> State {
        let vt = self.t.vars[v as usize].term;
        let mut s = Subst::new(&self.t, &[(vt, x)]);
        let mut r = self.subst_state(st, &mut s);
        Rc::make_mut(&mut r.subs).push((vt, x));
        let one = self.t.con(1, 1);
        r.pc.retain(|c| *c != one);
        r
    }
    fn dead_pc(&mut self, st: &State) -> bool {
        st.pc.iter().any(|c| self.t.is_const(*c) == Some(0))
    }
    pub fn concretise(&mut self, st: &State, v: u32) -> Vec<State> {
        let (w, lo, hi) = {
            let i = &self.t.vars[v as usize];
            (i.w, i.lo, i.hi)
        };
        let mut r = vec![];
        for k in lo..=hi {
            let c = self.t.con(w, k);
            let s = self.refine(st, v, c);
            if !self.dead_pc(&s) {
                r.push(s);
            }
        }
        r
    }
    /// split the range of an unbounded variable at a threshold: v < k | v >= k
    fn split(&mut self, st: &State, v: u32, k: u128) -> Vec<State> {
        let (w, lo, hi, name) = {
            let i = &self.t.vars[v as usize];
            (i.w, i.lo, i.hi, i.name.clone())
        };
        let mut r = vec![];
        for (a, b) in [(lo, k - 1), (k, hi)] {
            let x = if a == b {
                self.t.con(w, a)
            } else {
                match self.split_vars.get(&(v, a, b)) {
                    Some(x) => *x,
                    None => {
                        let x = self.t.idx_var(&format!("{}'", name), w, a, b);
                        self.split_vars.insert((v, a, b), x);
                        x
                    }
                }
            };
            let mut s = self.refine(st, v, x);
            s.splits += 1;
            if !self.dead_pc(&s) {
                r.push(s);
            }
        }
        r
    }

    /// index variables a condition depends on other than through data (bytes read, lanes)
    fn ctl_vars(&self, t: T) -> Vec<u32> {
        let mut m = 0u128;
        let mut seen: HashSet<T> = HashSet::new();
        let mut work = vec![t];
        while let Some(t) = work.pop() {
            if self.t.vars_of(t) & !m == 0 || !seen.insert(t) {
                continue;
            }
            for p in self.t.terms[t as usize].p.iter() {
                p.xs.for_each(|a, _| match &self.t.atoms[a as usize].k {
                    AK::Var(v) => {
                        let b = self.t.vars[*v as usize].bit;
                        if b < 128 {
                            m |= 1 << b
                        }
                    }
                    AK::Select(..) | AK::Uf(..) => {}
                    _ => work.extend(self.t.atom_children(a)),
                });
            }
        }
        self.big_vars(t).into_iter().filter(|v| m >> self.t.vars[*v as usize].bit & 1 == 1).collect()
    }

    /// Both outcomes of an undecided branch condition.
    pub fn decide(&mut self, st: &mut State, c: T) -> Result<bool, Stopx> {
        match self.decide_soft(st, c)? {
            Some(k) => Ok(k),
            None => {
                let n = self.t.not(c);
                self.fork(st, &[c, n]).map(|_| false)
            }
        }
    }
    /// one state per alternative
    fn fork(&mut self, st: &State, alts: &[T]) -> Result<(), Stopx> {
        if self.probing > 0 {
            return Err(Stopx::End(Out::Unsup(format!("data-dependent branch while probing: {}", self.t.show(alts[0])))));
        }
        let mut v = vec![];
        for c in alts {
            let mut s = st.clone();
            s.pc.push(*c);
            if !crate::smt::infeasible(self, &s.pc) {
                v.push(s);
            }
        }
        Err(Stopx::Fork(v))
    }
    fn decide_soft(&mut self, st: &mut State, c: T) -> Result<Option<bool>, Stopx> {
        if let Some(k) = self.t.is_const(c) {
            return Ok(Some(k == 1));
        }
        if st.pc.contains(&c) {
            return Ok(Some(true));
        }
        let n = self.t.not(c);
        if st.pc.contains(&n) {
            return Ok(Some(false));
        }
        if self.t.is_junk(c) {
            if st.gen {
                return Err(Stopx::End(Out::Unsup("branch on a value dropped by the loop summary".into())));
            }
            // shared mutable state is havocked: both outcomes are possible, and legitimate
            if self.only_global_junk(c) {
                let mut a = st.clone();
                a.pc.push(c);
                let mut b = st.clone();
                b.pc.push(n);
                return Err(Stopx::Fork(vec![a, b]));
            }
            let m = format!("condition {}", self.t.show(c));
            return Err(Stopx::End(self.fail(st, FK::Junk, m)));
        }
        let big = self.ctl_vars(c);
        if self.debug {
            eprintln!("cond {} at {}", self.t.show(c), self.at(st));
        }
        if !big.is_empty() {
            if self.probing > 0 {
                return Err(Stopx::End(Out::Unsup(format!("undecided while probing: {}", self.t.show(c)))));
            }
            if big.len() == 1 {
                // innermost active loop first
                let mut cand = vec![];
                for (d, f) in st.frames.iter().enumerate().rev() {
                    for (l, x) in f.loops.iter().enumerate().rev() {
                        if x.snap.is_some() {
                            cand.push((d, l));
                        }
                    }
                }
                for (d, l) in cand {
                    match crate::infer::infer(self, st, d, l, big[0]) {
                        Ok(v) => return Err(Stopx::Fork(v)),
                        Err(e) => {
                            if self.debug {
                                eprintln!("no invariant: {} at {}", e, self.at(st));
                            }
                            let m = format!("loop invariant not found ({}) at {}", e, self.at(st));
                            if !self.notes.contains(&m) && self.notes.len() < 20 {
                                self.notes.push(m);
                            }
                        }
                    }
                }
            }
            if let Some(v) = self.small_var(c) {
                return Err(Stopx::Fork(self.concretise(st, v)));
            }
            if big.len() == 1 {
                let v = big[0];
                if st.splits > self.cfg.unroll || self.t.idx_left() < 4 {
                    return Err(Stopx::End(Out::Unsup("unbounded loop: no invariant found".into())));
                }
                if let Some(k) = self.threshold(c, v) {
                    return Err(Stopx::Fork(self.split(st, v, k)));
                }
                // peel the smallest value
                let lo = self.t.vars[v as usize].lo;
                return Err(Stopx::Fork(self.split(st, v, lo + 1)));
            }
            // several unbounded variables: fall through to a plain fork
        } else if let Some(v) = self.small_var(c) {
            return Err(Stopx::Fork(self.concretise(st, v)));
        }
        Ok(None)
    }

    // ------------------------------------------------------------------ merging
    /// immediate postdominator of every block, over the paths that reach a return
    fn ipdom(&mut self, f: u32) -> Rc<Vec<Option<u32>>> {
        if let Some(x) = self.ipdoms.get(&f) {
            return x.clone();
        }
        let fu = &self.p.funcs[f as usize];
        let n = fu.blocks.len();
        let succ: Vec<Vec<usize>> = fu
            .blocks
            .iter()
            .map(|b| match b.ins.last().map(|i| &i.i) {
                Some(Inst::Br(x)) => vec![*x as usize],
                Some(Inst::CondBr(_, x, y)) => vec![*x as usize, *y as usize],
                Some(Inst::Switch(_, _, d, l)) => l.iter().map(|x| x.1 as usize).chain([*d as usize]).collect(),
                Some(Inst::Ret(_)) => vec![n],
                Some(Inst::Call(c)) => c.normal.iter().map(|x| *x as usize).collect(),
                _ => vec![],
            })
            .collect();
        // blocks that reach the exit
        let mut live = vec![false; n + 1];
        live[n] = true;
        loop {
            let mut ch = false;
            for i in 0..n {
                if !live[i] && succ[i].iter().any(|s| live[*s]) {
                    live[i] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // pd[i]: the blocks on every path from i to the exit
        let mut pd: Vec<Vec<bool>> = vec![vec![true; n + 1]; n + 1];
        pd[n] = vec![false; n + 1];
        pd[n][n] = true;
        loop {
            let mut ch = false;
            for i in (0..n).rev() {
                if !live[i] {
                    continue;
                }
                let mut s = vec![true; n + 1];
                for k in succ[i].iter().filter(|k| live[**k]) {
                    for j in 0..=n {
                        s[j] &= pd[*k][j];
                    }
                }
                s[i] = true;
                if s != pd[i] {
                    pd[i] = s;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let size = |i: usize| pd[i].iter().filter(|x| **x).count();
        let r: Vec<Option<u32>> = (0..n)
            .map(|i| {
                if !live[i] {
                    return None;
                }
                // the nearest one has the most postdominators itself
                (0..n).filter(|j| *j != i && pd[i][*j]).max_by_key(|j| size(*j)).map(|j| j as u32)
            })
            .collect();
        let r = Rc::new(r);
        self.ipdoms.insert(f, r.clone());
        r
    }
    /// A branch on data: run every side to where they meet and join the states; fork when that is not possible.
    fn branch(&mut self, st: &mut State, alts: &[(T, u32)], stop: Option<&Stop>, visits: &mut u32) -> Result<Flow, Stopx> {
        let (f, block) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.block)
        };
        if !self.nomerge.contains(&(f, block)) {
            let (counts, nside) = (self.counts.clone(), self.side.len());
            if let Some(j) = self.ipdom(f)[block as usize] {
                match self.merge_at(st, alts, f, j, stop)? {
                    Some(Some((m, vals))) => {
                        self.merged += 1;
                        *st = m;
                        return self.enter_with(st, j, vals, stop, visits);
                    }
                    // no side gets there
                    Some(None) => return Ok(Flow::Fork(vec![])),
                    None => {}
                }
            }
            self.counts = counts;
            self.side.truncate(nside);
            self.nomerge.insert((f, block));
        }
        let c: Vec<T> = alts.iter().map(|x| x.0).collect();
        match self.fork(st, &c) {
            Ok(()) => Ok(Flow::Fork(vec![])),
            Err(e) => Err(e),
        }
    }
    #[allow(clippy::type_complexity)]
    fn merge_at(&mut self, st: &State, alts: &[(T, u32)], f: u32, j: u32, stop: Option<&Stop>) -> Result<Option<Option<(State, Vec<(Option<u32>, V)>)>>, Stopx> {
        let depth = st.frames.len();
        if self.meets.len() > 40 {
            return Ok(None);
        }
        let mut sides: Vec<(T, State, Vec<(Option<u32>, V)>)> = vec![];
        for (c, to) in alts {
            let mut s = st.clone();
            s.pc.push(*c);
            self.meets.push((depth, f, j));
            let ends = self.run_from(s, Some(*to), stop);
            self.meets.pop();
            let mut here: Option<State> = None;
            for e in ends {
                match e.out {
                    Out::Meet if here.is_none() => here = Some(e.st),
                    Out::Fail(_) => {
                        if crate::smt::infeasible(self, &e.st.pc) {
                            continue;
                        }
                        if self.probing > 0 {
                            return Ok(None);
                        }
                        self.side.push(e)
                    }
                    _ => {
                        return Ok(None)
                    }
                }
            }
            if let Some(s) = here {
                let vals = self.phis(&s, j)?;
                sides.push((*c, s, vals));
            }
        }
        let (_, mut acc, mut av) = match sides.pop() {
            Some(x) => x,
            None => return Ok(Some(None)),
        };
        while let Some((c, s, v)) = sides.pop() {
            match self.join(st, c, s, v, acc, av) {
                Some((x, y)) => {
                    acc = x;
                    av = y;
                }
                None => return Ok(None),
            }
        }
        Ok(Some(Some((acc, av))))
    }
    /// the state that is `a` where c holds and `b` elsewhere
    #[allow(clippy::type_complexity)]
    fn join(
        &mut self,
        base: &State,
        c: T,
        a: State,
        av: Vec<(Option<u32>, V)>,
        b: State,
        bv: Vec<(Option<u32>, V)>,
    ) -> Option<(State, Vec<(Option<u32>, V)>)> {
        let same = a.frames.len() == b.frames.len()
            && a.objs.len() == b.objs.len()
            && a.gmut.is_empty() == b.gmut.is_empty()
            && a.gmut.len() == base.gmut.len()
            && b.gmut.len() == base.gmut.len()
            && a.subs.len() == b.subs.len()
            && a.fold == b.fold
            && a.splits == b.splits;
        if !same || (0..a.gmut.len()).any(|i| !Rc::ptr_eq(&a.gmut[i].1, &b.gmut[i].1)) || a.subs != b.subs {
            return None;
        }
        let mut r = a.clone();
        r.gen |= b.gen;
        r.steps = a.steps.max(b.steps);
        // conditions met on the way
        let n0 = base.pc.len();
        if a.pc.len() < n0 || b.pc.len() < n0 || a.pc[..n0] != base.pc[..] || b.pc[..n0] != base.pc[..] {
            return None;
        }
        r.pc.truncate(n0);
        let one = self.t.con(1, 1);
        let nc = self.t.not(c);
        let conj = |ex: &mut Exec, l: &[T]| {
            let mut x = one;
            for k in l {
                if *k != c && *k != nc {
                    x = ex.t.and(x, *k);
                }
            }
            x
        };
        let (x, y) = (conj(self, &a.pc[n0..]), conj(self, &b.pc[n0..]));
        let e = self.t.ite(c, x, y);
        if e != one {
            r.pc.push(e);
        }
        for i in 0..a.frames.len() {
            let (p, q) = (&a.frames[i], &b.frames[i]);
            if Rc::ptr_eq(p, q) {
                continue;
            }
            let top = i + 1 == a.frames.len();
            if p.f != q.f || p.base != q.base || !top && (p.block != q.block || p.ip != q.ip) {
                return None;
            }
            let mut f = (**p).clone();
            for k in 0..f.regs.len() {
                if p.regs[k] != q.regs[k] {
                    f.regs[k] = self.join_v(c, &p.regs[k], &q.regs[k]).unwrap_or(V::D);
                }
            }
            r.frames[i] = Rc::new(f);
        }
        for i in 0..a.objs.len() {
            let ((g, p), (h, q)) = (&a.objs[i], &b.objs[i]);
            if g == h && Rc::ptr_eq(p, q) {
                continue;
            }
            if g != h || p.kind != q.kind || p.cells.len() != q.cells.len() {
                return None;
            }
            let mut o = (**p).clone();
            o.cells = self.join_cells(&a, c, &p.cells, &q.cells);
            r.objs[i] = (*g, Rc::new(o));
        }
        let mut vals = vec![];
        for ((d, x), (_, y)) in av.iter().zip(&bv) {
            vals.push((*d, if x == y { x.clone() } else { self.join_v(c, x, y)? }));
        }
        Some((r, vals))
    }
    fn join_v(&mut self, c: T, a: &V, b: &V) -> Option<V> {
        match (a, b) {
            (V::I(x), V::I(y)) if self.t.w(*x) == self.t.w(*y) => Some(V::I(self.t.ite(c, *x, *y))),
            (V::P(x), V::P(y)) if x.o == y.o && x.g == y.g => Some(V::P(Ptr { off: self.t.ite(c, x.off, y.off), ..*x })),
            (V::A(x), V::A(y)) if x.len() == y.len() => {
                let v: Option<Vec<V>> = x.iter().zip(y.iter()).map(|(p, q)| if p == q { Some(p.clone()) } else { self.join_v(c, p, q) }).collect();
                Some(V::A(Rc::new(v?)))
            }
            (V::U, V::U) => Some(V::U),
            _ => None,
        }
    }
    fn join_cells(&mut self, st: &State, c: T, a: &[Cell], b: &[Cell]) -> Vec<Cell> {
        let mut out = Vec::with_capacity(a.len());
        let mut i = 0;
        while i < a.len() {
            if a[i] == b[i] {
                out.push(a[i]);
                i += 1;
                continue;
            }
            match (a[i], b[i]) {
                (Cell::B(x, k), Cell::B(y, l)) => {
                    // a run of bytes of one term on each side, upwards or downwards
                    let run = |d: i32| {
                        let mut n = 1;
                        while n < 8 && i + n < a.len() && a[i + n] != b[i + n] {
                            let (k2, l2) = (k as i32 + d * n as i32, l as i32 + d * n as i32);
                            if k2 < 0 || l2 < 0 || a[i + n] != Cell::B(x, k2 as u16) || b[i + n] != Cell::B(y, l2 as u16) {
                                break;
                            }
                            n += 1;
                        }
                        n
                    };
                    let (up, down) = (run(1), run(-1));
                    let n = up.max(down);
                    let (lo, lo2) = if up >= down { (k, l) } else { (k + 1 - n as u16, l + 1 - n as u16) };
                    let p = self.t.slice(x, 8 * lo as u32, 8 * n as u32);
                    let q = self.t.slice(y, 8 * lo2 as u32, 8 * n as u32);
                    let t = self.t.ite(c, p, q);
                    for m in 0..n as u16 {
                        out.push(Cell::B(t, if up >= down { m } else { n as u16 - 1 - m }));
                    }
                    i += n;
                }
                (Cell::P(..), Cell::B(..)) | (Cell::B(..), Cell::P(..)) => {
                    let (x, y) = (self.cell_byte(st, a[i]), self.cell_byte(st, b[i]));
                    let t = self.t.ite(c, x, y);
                    out.push(Cell::B(t, 0));
                    i += 1;
                }
                (Cell::P(p, k), Cell::P(q, l)) if k == l && p.o == q.o && p.g == q.g => {
                    let off = self.t.ite(c, p.off, q.off);
                    out.push(Cell::P(Ptr { off, ..p }, k));
                    i += 1;
                }
                (Cell::U, _) | (_, Cell::U) => {
                    out.push(Cell::U);
                    i += 1;
                }
                _ => {
                    out.push(Cell::D);
                    i += 1;
                }
            }
        }
        out
    }
    fn only_global_junk(&self, _c: T) -> bool {
        !self.mut_globals.is_empty()
    }
    /// smallest k with cond(v=k) != cond(v=lo), when the condition changes exactly once (checked by the
    /// range analysis after the split, so a wrong answer only costs another split)
    fn threshold(&mut self, c: T, v: u32) -> Option<u128> {
        let (lo, hi) = {
            let i = &self.t.vars[v as usize];
            (i.lo, i.hi)
        };
        let vt = self.t.vars[v as usize].term;
        let w = self.t.w(vt);
        let mut at = |x: u128| -> Option<u128> {
            let k = self.t.con(w, x);
            let mut s = Subst::new(&self.t, &[(vt, k)]);
            let r = self.t.subst(c, &mut s);
            self.t.is_const(r)
        };
        let (a, b) = (at(lo)?, at(hi)?);
        if a == b {
            return None;
        }
        let (mut x, mut y) = (lo, hi);
        while y - x > 1 {
            let m = x + (y - x) / 2;
            if at(m)? == a {
                x = m
            } else {
                y = m
            }
        }
        Some(y)
    }

    // ------------------------------------------------------------------ control
    fn enter(&mut self, st: &mut State, to: u32, stop: Option<&Stop>, visits: &mut u32) -> Result<Flow, Stopx> {
        if let Some(m) = self.meets.last() {
            if *m == (st.frames.len(), st.frames.last().unwrap().f, to) {
                return Ok(Flow::End(Out::Meet));
            }
        }
        let vals = self.phis(st, to)?;
        self.enter_with(st, to, vals, stop, visits)
    }
    fn phis(&mut self, st: &State, to: u32) -> Result<Vec<(Option<u32>, V)>, Stopx> {
        let fr = st.frames.last().unwrap();
        let fid = fr.f;
        let from = fr.block;
        let p = self.p;
        let fu = &p.funcs[fid as usize];
        let mut vals = vec![];
        for ins in fu.blocks[to as usize].ins.iter() {
            if let Inst::Phi(t, l) = &ins.i {
                let o = l
                    .iter()
                    .find(|x| x.1 == from)
                    .map(|x| x.0.clone())
                    .ok_or_else(|| Stopx::End(Out::Unsup("phi".into())))?;
                let v = match &o {
                    Op::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
                    o => self.get(st, o, t)?,
                };
                vals.push((ins.dst, v));
            } else {
                break;
            }
        }
        Ok(vals)
    }
    fn enter_with(&mut self, st: &mut State, to: u32, vals: Vec<(Option<u32>, V)>, stop: Option<&Stop>, visits: &mut u32) -> Result<Flow, Stopx> {
        let fid = st.frames.last().unwrap().f;
        let p = self.p;
        let fu = &p.funcs[fid as usize];
        let nphi = vals.len() as u32;
        for (d, v) in vals {
            self.set(st, d, v);
        }
        let depth = st.frames.len();
        let f = self.top(st);
        f.block = to;
        f.ip = nphi;
        if !fu.loops.is_empty() {
            f.loops.retain(|l| {
                fu.loops.iter().find(|x| x.header == l.header).map(|x| x.body[to as usize]).unwrap_or(false)
            });
            if let Some(_l) = fu.loops.iter().find(|l| l.header == to) {
                if let Some(pos) = f.loops.iter().position(|l| l.header == to) {
                    f.loops[pos].visits += 1;
                    if let Some(s) = stop {
                        if s.depth == depth && s.f == fid && s.block == to {
                            *visits += 1;
                            if *visits == s.count {
                                return Ok(Flow::End(Out::Stopped));
                            }
                        }
                    }
                } else {
                    let snap = if self.probing == 0 && self.stream.is_some() {
                        Some(Rc::new(st.clone()))
                    } else {
                        None
                    };
                    let f = self.top(st);
                    f.loops.push(ALoop { header: to, snap, visits: 0 });
                    if let Some(s) = stop {
                        if s.depth == depth && s.f == fid && s.block == to {
                            *visits += 1;
                            if *visits == s.count {
                                return Ok(Flow::End(Out::Stopped));
                            }
                        }
                    }
                }
            }
        }
        Ok(Flow::Jump)
    }

    pub fn ret(&mut self, st: &mut State, v: V, stop: Option<&Stop>, visits: &mut u32) -> Result<Flow, Stopx> {
        let fr = st.frames.pop().unwrap();
        // dead allocas
        if st.frames.is_empty() {
            return Ok(Flow::End(Out::Ret(v)));
        }
        st.objs.truncate(fr.base);
        self.set(st, fr.dst, v);
        match fr.normal {
            Some(b) => self.enter(st, b, stop, visits),
            None => {
                self.top(st).ip += 1;
                Ok(Flow::Jump)
            }
        }
    }

    // ------------------------------------------------------------------ instructions
    fn exec(&mut self, st: &mut State, ins: &Ins, stop: Option<&Stop>, visits: &mut u32) -> Result<Flow, Stopx> {
        let lay = self.p.lay();
        match &ins.i {
            Inst::Alloca(size, align) => {
                let p = self.new_obj(
                    st,
                    Obj {
                        kind: Kind::Stack,
                        size: *size,
                        align: *align,
                        ro: false,
                        cells: vec![Cell::U; *size as usize],
                        name: format!("local of {}", short(&self.p.funcs[st.frames.last().unwrap().f as usize].demangled)),
                    },
                );
                self.set(st, ins.dst, V::P(p));
            }
            Inst::Load(ty, p, al) => {
                let p = self.getp(st, p)?;
                let v = self.load(st, p, ty, *al)?;
                self.set(st, ins.dst, v);
            }
            Inst::Store(ty, v, p, al) => {
                let v = self.get(st, v, ty)?;
                let p = self.getp(st, p)?;
                self.store(st, p, ty, v, *al)?;
            }
            Inst::Gep(p, c, idx) => {
                let v = self.get(st, p, &Ty::Ptr)?;
                if let V::U = v {
                    self.set(st, ins.dst, V::U);
                    return Ok(Flow::Next);
                }
                let p = self.as_ptr(v)?;
                let w = self.ptrw();
                let mut off = p.off;
                if *c != 0 {
                    off = self.t.add_c(off, *c as i128 as u128 & mask(w));
                }
                for (o, iw, scale) in idx {
                    let t = self.geti(st, o, &Ty::Int(*iw))?;
                    let t = if *iw < w {
                        self.t.sext(t, w)
                    } else {
                        self.fit(t, w)
                    };
                    let k = self.t.con(w, *scale as u128);
                    let t = self.t.mul(t, k);
                    off = self.t.add(off, t);
                }
                self.set(st, ins.dst, V::P(Ptr { off, ..p }));
            }
            Inst::Bin(b, ty, x, y, fl) => {
                let x = self.get(st, x, ty)?;
                let y = self.get(st, y, ty)?;
                if let (V::U, V::U) = (&x, &y) {
                    self.set(st, ins.dst, V::U);
                    return Ok(Flow::Next);
                }
                let w = lay.bits(ty);
                let (x, y) = (self.vint(st, x, w)?, self.vint(st, y, w)?);
                let v = self.bin(st, *b, ty, x, y, fl)?;
                self.set(st, ins.dst, V::I(v));
            }
            Inst::Icmp(pr, ty, x, y) => {
                if let Ty::Ptr = ty {
                    let x = self.get(st, x, ty)?;
                    let y = self.get(st, y, ty)?;
                    let (x, y) = (self.as_ptr(x)?, self.as_ptr(y)?);
                    let r = self.cmp_ptr(st, *pr, x, y);
                    self.set(st, ins.dst, V::I(r));
                    return Ok(Flow::Next);
                }
                let x = self.geti(st, x, ty)?;
                let y = self.geti(st, y, ty)?;
                let r = match ty {
                    Ty::Vec(n, e) => {
                        let w = lay.bits(e);
                        let mut v = vec![];
                        for i in 0..*n {
                            let a = self.t.slice(x, i * w, w);
                            let b = self.t.slice(y, i * w, w);
                            v.push(self.cmp(*pr, a, b));
                        }
                        self.t.concat(&v)
                    }
                    _ => self.cmp(*pr, x, y),
                };
                self.set(st, ins.dst, V::I(r));
            }
            Inst::Cast(c, ty, x, to, fl) => {
                let v = self.get(st, x, ty)?;
                let r = self.cast(st, *c, ty, v, to, fl)?;
                self.set(st, ins.dst, r);
            }
            Inst::Select(ct, c, ty, a, b) => {
                let c = self.geti(st, c, ct)?;
                let a = self.get(st, a, ty)?;
                let b = self.get(st, b, ty)?;
                if let Ty::Vec(n, e) = ty {
                    if let Ty::Vec(..) = ct {
                        let w = lay.bits(e);
                        let (x, y) = (self.vint(st, a, n * w)?, self.vint(st, b, n * w)?);
                        let mut v = vec![];
                        for i in 0..*n {
                            let cc = self.t.slice(c, i, 1);
                            let p = self.t.slice(x, i * w, w);
                            let q = self.t.slice(y, i * w, w);
                            v.push(self.t.ite(cc, p, q));
                        }
                        let r = self.t.concat(&v);
                        self.set(st, ins.dst, V::I(r));
                        return Ok(Flow::Next);
                    }
                }
                let r = match self.t.is_const(c) {
                    Some(1) => a,
                    Some(_) => b,
                    None => {
                        if a == b {
                            a
                        } else if let (V::I(x), V::I(y)) = (&a, &b) {
                            V::I(self.t.ite(c, *x, *y))
                        } else {
                            if self.decide(st, c)? {
                                a
                            } else {
                                b
                            }
                        }
                    }
                };
                self.set(st, ins.dst, r);
            }
            Inst::Phi(..) => return Err(Stopx::End(Out::Unsup("phi".into()))),
            Inst::Br(b) => return self.enter(st, *b, stop, visits),
            Inst::CondBr(c, a, b) => {
                let c = self.geti(st, c, &Ty::Int(1))?;
                return match self.decide_soft(st, c)? {
                    Some(k) => self.enter(st, if k { *a } else { *b }, stop, visits),
                    None => {
                        let n = self.t.not(c);
                        self.branch(st, &[(c, *a), (n, *b)], stop, visits)
                    }
                };
            }
            Inst::Switch(w, o, d, l) => {
                let v = self.geti(st, o, &Ty::Int(*w))?;
                if let Some(k) = self.t.is_const(v) {
                    let to = l.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                    return self.enter(st, to, stop, visits);
                }
                let mut alts = vec![];
                for (k, to) in l {
                    let kk = self.t.con(*w, *k);
                    let c = self.t.eq(v, kk);
                    match self.decide_soft(st, c)? {
                        Some(true) if alts.is_empty() => return self.enter(st, *to, stop, visits),
                        Some(true) => {
                            alts.push((c, *to));
                            break;
                        }
                        Some(false) => {}
                        None => alts.push((c, *to)),
                    }
                }
                if alts.is_empty() {
                    return self.enter(st, *d, stop, visits);
                }
                // otherwise: none of the cases
                let mut n = self.t.con(1, 1);
                for (c, _) in &alts {
                    let x = self.t.not(*c);
                    n = self.t.and(n, x);
                }
                alts.push((n, *d));
                return self.branch(st, &alts, stop, visits);
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some((t, o)) => self.get(st, o, t)?,
                    None => V::U,
                };
                return self.ret(st, v, stop, visits);
            }
            Inst::Unreachable => {
                return Ok(Flow::End(self.fail(st, FK::Unreachable, "reached".into())));
            }
            Inst::Resume => return Ok(Flow::End(Out::Unsup("resume".into()))),
            Inst::Call(c) => return self.call(st, ins.dst, c, stop, visits),
            Inst::ExtractValue(ty, a, idx) => {
                let v = self.get(st, a, ty)?;
                let mut r = v;
                for i in idx {
                    r = match r {
                        V::A(l) => l[*i as usize].clone(),
                        V::U => V::U,
                        _ => return Err(Stopx::End(Out::Unsup("extractvalue".into()))),
                    };
                }
                self.set(st, ins.dst, r);
            }
            Inst::InsertValue(ty, a, et, e, idx) => {
                let v = self.get(st, a, ty)?;
                let e = self.get(st, e, et)?;
                let r = self.insert(ty, v, e, idx)?;
                self.set(st, ins.dst, r);
            }
            Inst::ExtractElement(ty, a, i) => {
                let v = self.get(st, a, ty)?;
                let (n, e) = match ty {
                    Ty::Vec(n, e) => (*n, e.clone()),
                    _ => return Err(Stopx::End(Out::Unsup("extractelement".into()))),
                };
                let w = lay.bits(&e);
                let x = self.vint(st, v, n * w)?;
                let i = match self.get(st, i, &Ty::Int(64))? {
                    V::I(i) => i,
                    _ => return Err(Stopx::End(Out::Unsup("vector index".into()))),
                };
                let k = self.index(st, i, n)?;
                let r = self.t.slice(x, k * w, w);
                self.set(st, ins.dst, V::I(r));
            }
            Inst::InsertElement(ty, a, et, e, i) => {
                let v = self.get(st, a, ty)?;
                let (n, _) = match ty {
                    Ty::Vec(n, e) => (*n, e.clone()),
                    _ => return Err(Stopx::End(Out::Unsup("insertelement".into()))),
                };
                let w = lay.bits(et);
                let x = self.vint(st, v, n * w)?;
                let e = self.get(st, e, et)?;
                let e = self.vint(st, e, w)?;
                let i = match self.get(st, i, &Ty::Int(64))? {
                    V::I(i) => i,
                    _ => return Err(Stopx::End(Out::Unsup("vector index".into()))),
                };
                let k = self.index(st, i, n)?;
                let lo = if k > 0 { Some(self.t.slice(x, 0, k * w)) } else { None };
                let hi = if k + 1 < n { Some(self.t.slice(x, (k + 1) * w, (n - k - 1) * w)) } else { None };
                let mut parts = vec![];
                parts.extend(lo);
                parts.push(e);
                parts.extend(hi);
                let r = self.t.concat(&parts);
                self.set(st, ins.dst, V::I(r));
            }
            Inst::Shuffle(ty, a, b, m) => {
                let (n, e) = match ty {
                    Ty::Vec(n, e) => (*n, e.clone()),
                    _ => return Err(Stopx::End(Out::Unsup("shuffle".into()))),
                };
                let w = lay.bits(&e);
                let x = self.geti(st, a, ty)?;
                let y = self.geti(st, b, ty)?;
                let mut v = vec![];
                for i in m.iter() {
                    v.push(match i {
                        None => self.t.junk(w),
                        Some(k) if *k < n => self.t.slice(x, k * w, w),
                        Some(k) => self.t.slice(y, (k - n) * w, w),
                    });
                }
                let r = self.t.concat(&v);
                self.set(st, ins.dst, V::I(r));
            }
            Inst::Freeze(ty, o) => {
                let v = self.get(st, o, ty)?;
                let v = match v {
                    V::U if !matches!(ty, Ty::Struct(..) | Ty::Arr(..)) => V::I(self.t.junk(lay.bits(ty))),
                    v => v,
                };
                self.set(st, ins.dst, v);
            }
            Inst::Landingpad(_) => return Ok(Flow::End(Out::Unsup("landing pad".into()))),
            Inst::Rmw(op, p, ty, v) => {
                // atomics only make sense on shared memory
                let p = self.getp(st, p)?;
                let v = self.geti(st, v, ty)?;
                let old = self.load(st, p, ty, 1)?;
                let w = lay.bits(ty);
                let o = self.vint(st, old, w)?;
                let n = match op.as_str() {
                    "xchg" => v,
                    "add" => self.t.add(o, v),
                    "sub" => self.t.sub(o, v),
                    "and" => self.t.and(o, v),
                    "or" => self.t.or(o, v),
                    "xor" => self.t.xor(o, v),
                    _ => return Err(Stopx::End(Out::Unsup(format!("atomicrmw {}", op)))),
                };
                self.store(st, p, ty, V::I(n), 1)?;
                self.set(st, ins.dst, V::I(o));
            }
            Inst::CmpXchg(p, ty, a, b) => {
                let p = self.getp(st, p)?;
                let a = self.geti(st, a, ty)?;
                let b = self.geti(st, b, ty)?;
                let w = lay.bits(ty);
                let old = self.load(st, p, ty, 1)?;
                let o = self.vint(st, old, w)?;
                let c = self.t.eq(o, a);
                let n = self.t.ite(c, b, o);
                self.store(st, p, ty, V::I(n), 1)?;
                self.set(st, ins.dst, V::A(Rc::new(vec![V::I(o), V::I(c)])));
            }
            Inst::Nop => {}
            Inst::Bad(m) => return Err(Stopx::End(Out::Unsup(m.clone()))),
        }
        Ok(Flow::Next)
    }

    fn index(&mut self, st: &mut State, i: T, n: u32) -> Result<u32, Stopx> {
        match self.t.is_const(i) {
            Some(k) if k < n as u128 => Ok(k as u32),
            Some(_) => Err(Stopx::End(self.fail(st, FK::Bounds, "vector element index".into()))),
            None => {
                if let Some(v) = self.small_var(i) {
                    return Err(Stopx::Fork(self.concretise(st, v)));
                }
                Err(Stopx::End(Out::Unsup("symbolic vector index".into())))
            }
        }
    }
    pub fn vint(&mut self, st: &State, v: V, w: u32) -> Result<T, Out> {
        match v {
            V::I(t) => {
                if self.t.w(t) != w {
                    return Err(Out::Unsup("width".into()));
                }
                Ok(t)
            }
            V::P(p) => {
                let a = self.addr(st, p);
                Ok(self.fit(a, w))
            }
            V::U => Ok(self.t.junk(w)),
            V::D => Err(Out::Unsup("dropped value".into())),
            V::A(_) => Err(Out::Unsup("aggregate".into())),
        }
    }
    fn insert(&mut self, ty: &Ty, v: V, e: V, idx: &[u32]) -> Result<V, Out> {
        let (n, et) = match ty {
            Ty::Struct(_, f) => (f.len(), f[idx[0] as usize].clone()),
            Ty::Arr(n, e) => (*n as usize, (**e).clone()),
            _ => return Err(Out::Unsup("insertvalue".into())),
        };
        let mut l = match v {
            V::A(l) => (*l).clone(),
            V::U => vec![V::U; n],
            _ => return Err(Out::Unsup("insertvalue".into())),
        };
        let i = idx[0] as usize;
        l[i] = if idx.len() == 1 { e } else { self.insert(&et, l[i].clone(), e, &idx[1..])? };
        Ok(V::A(Rc::new(l)))
    }
    pub fn cmp(&mut self, p: Pred, x: T, y: T) -> T {
        match p {
            Pred::Eq => self.t.eq(x, y),
            Pred::Ne => {
                let e = self.t.eq(x, y);
                self.t.not(e)
            }
            Pred::Ult => self.t.ult(x, y),
            Pred::Ugt => self.t.ult(y, x),
            Pred::Uge => {
                let e = self.t.ult(x, y);
                self.t.not(e)
            }
            Pred::Ule => {
                let e = self.t.ult(y, x);
                self.t.not(e)
            }
            Pred::Slt => self.t.slt(x, y),
            Pred::Sgt => self.t.slt(y, x),
            Pred::Sge => {
                let e = self.t.slt(x, y);
                self.t.not(e)
            }
            Pred::Sle => {
                let e = self.t.slt(y, x);
                self.t.not(e)
            }
        }
    }
    fn cmp_ptr(&mut self, st: &State, p: Pred, x: Ptr, y: Ptr) -> T {
        if x.o == y.o && x.g == y.g {
            return self.cmp(p, x.off, y.off);
        }
        let null = |q: &Ptr, s: &Self| q.o == NULLO && s.t.is_const(q.off).is_some();
        if (null(&x, self) || null(&y, self)) && matches!(p, Pred::Eq | Pred::Ne) {
            // objects live at non-null, large addresses (and one-past-the-end pointers too)
            let c = if null(&x, self) { x.off } else { y.off };
            if self.t.is_const(c).unwrap() < 4096 {
                return self.t.con(1, (p == Pred::Ne) as u128);
            }
        }
        let a = self.addr(st, x);
        let b = self.addr(st, y);
        self.cmp(p, a, b)
    }
    fn cast(&mut self, st: &mut State, c: Cast, ty: &Ty, v: V, to: &Ty, fl: &Flags) -> Result<V, Stopx> {
        let lay = self.p.lay();
        let _ = fl;
        match c {
            Cast::PtrToInt => {
                let p = self.as_ptr(v)?;
                let a = self.addr(st, p);
                return Ok(V::I(self.fit(a, lay.bits(to))));
            }
            Cast::IntToPtr => {
                if let V::P(p) = v {
                    return Ok(V::P(p));
                }
                let t = self.vint(st, v, lay.bits(ty))?;
                return Ok(V::P(self.int_to_ptr(t)));
            }
            Cast::Bitcast => {
                if let V::U = v {
                    return Ok(V::U);
                }
                if let V::P(p) = v {
                    return Ok(V::P(p));
                }
                let t = self.vint(st, v, lay.bits(ty))?;
                if lay.big {
                    let eb = |t: &Ty| match t {
                        Ty::Vec(_, e) => lay.bits(e),
                        t => lay.bits(t),
                    };
                    let (a, b) = (eb(ty), eb(to));
                    if a != b {
                        // through memory order
                        let rev = |s: &mut Self, t: T, e: u32| {
                            let w = s.t.w(t);
                            let parts: Vec<T> = (0..w / e).rev().map(|i| s.t.slice(t, i * e, e)).collect();
                            s.t.concat(&parts)
                        };
                        let m = rev(self, t, a);
                        return Ok(V::I(rev(self, m, b)));
                    }
                }
                return Ok(V::I(t));
            }
            _ => {}
        }
        if let V::U = v {
            return Ok(V::U);
        }
        let t = self.vint(st, v, lay.bits(ty))?;
        let one = |s: &mut Self, t: T, w: u32| match c {
            Cast::Trunc => s.t.slice(t, 0, w),
            Cast::Zext => s.t.zext(t, w),
            _ => s.t.sext(t, w),
        };
        Ok(V::I(match (ty, to) {
            (Ty::Vec(n, e), Ty::Vec(_, f)) => {
                let (a, b) = (lay.bits(e), lay.bits(f));
                let mut p = vec![];
                for i in 0..*n {
                    let x = self.t.slice(t, i * a, a);
                    p.push(one(self, x, b));
                }
                self.t.concat(&p)
            }
            _ => one(self, t, lay.bits(to)),
        }))
    }
    fn bin(&mut self, st: &mut State, b: Bin, ty: &Ty, x: T, y: T, fl: &Flags) -> Result<T, Stopx> {
        if let Ty::Vec(n, e) = ty {
            match b {
                Bin::And => return Ok(self.t.and(x, y)),
                Bin::Or => return Ok(self.t.or(x, y)),
                Bin::Xor => return Ok(self.t.xor(x, y)),
                _ => {}
            }
            let w = self.p.lay().bits(e);
            let mut v = vec![];
            for i in 0..*n {
                let p = self.t.slice(x, i * w, w);
                let q = self.t.slice(y, i * w, w);
                v.push(self.bin1(st, b, w, p, q, fl)?);
            }
            return Ok(self.t.concat(&v));
        }
        let w = self.t.w(x);
        self.bin1(st, b, w, x, y, fl)
    }
    fn nonzero(&mut self, st: &mut State, y: T) -> Result<(), Stopx> {
        let w = self.t.w(y);
        let z = self.t.con(w, 0);
        let e = self.t.eq(y, z);
        let c = self.t.not(e);
        self.require(st, c, FK::Overflow, "division by zero".into())
    }
    fn bin1(&mut self, st: &mut State, b: Bin, w: u32, x: T, y: T, fl: &Flags) -> Result<T, Stopx> {
        let r = match b {
            Bin::Add => self.t.add(x, y),
            Bin::Sub => self.t.sub(x, y),
            Bin::Mul => self.t.mul(x, y),
            Bin::And => self.t.and(x, y),
            Bin::Or => self.t.or(x, y),
            Bin::Xor => self.t.xor(x, y),
            Bin::UDiv => {
                self.nonzero(st, y)?;
                self.t.udiv(x, y)
            }
            Bin::URem => {
                self.nonzero(st, y)?;
                self.t.urem(x, y)
            }
            Bin::SDiv => {
                self.nonzero(st, y)?;
                self.t.sdiv(x, y)
            }
            Bin::SRem => {
                self.nonzero(st, y)?;
                self.t.srem(x, y)
            }
            Bin::Shl | Bin::LShr | Bin::AShr => {
                if let Some(k) = self.t.is_const(y) {
                    if k >= w as u128 {
                        // poison
                        return Ok(self.t.junk(w));
                    }
                    let k = k as u32;
                    match b {
                        Bin::Shl => self.t.shl_c(x, k),
                        Bin::LShr => self.t.lshr_c(x, k),
                        _ => self.t.ashr_c(x, k),
                    }
                } else {
                    if let Some(v) = self.small_var(y) {
                        return Err(Stopx::Fork(self.concretise(st, v)));
                    }
                    let k = self.t.con(w, w as u128);
                    let c = self.t.ult(y, k);
                    let r = match b {
                        Bin::Shl => self.t.shl(x, y),
                        Bin::LShr => self.t.lshr(x, y),
                        _ => self.t.ashr(x, y),
                    };
                    let j = self.t.junk(w);
                    return Ok(self.t.ite(c, r, j));
                }
            }
        };
        if fl.nuw || fl.nsw {
            self.count("arithmetic without undefined overflow");
            let sgn = |b: Bin| match b {
                Bin::Add => Some(1i128),
                Bin::Sub => Some(-1),
                _ => None,
            };
            if let Some(s) = sgn(b) {
                let (lo, hi) = self.t.sum_range(&[(x, 1), (y, s)], 0);
                let full = if w >= 127 { i128::MAX } else { 1i128 << w };
                if fl.nuw && !(lo >= 0 && hi < full) {
                    let ov = if s == 1 { self.t.ult(r, x) } else { self.t.ult(x, y) };
                    let ok = self.t.not(ov);
                    self.require(st, ok, FK::Overflow, "unsigned overflow (nuw)".into())?;
                }
                if fl.nsw {
                    let (_, xh) = self.t.range(x);
                    let (_, yh) = self.t.range(y);
                    let half = 1u128 << (w - 1);
                    let ok = xh < half && yh < half && (s == -1 || hi < half as i128);
                    if !ok {
                        let c = self.signed_ok(x, y, r, s);
                        self.require(st, c, FK::Overflow, "signed overflow (nsw)".into())?;
                    }
                }
            } else if b == Bin::Mul {
                let (_, xh) = self.t.range(x);
                let (_, yh) = self.t.range(y);
                let lim = if fl.nsw { 1u128 << (w - 1) } else { mask(w) };
                let ok = xh.checked_mul(yh).map(|p| p <= lim).unwrap_or(false);
                if !ok && w <= 64 {
                    let (a, c) = if fl.nsw && !fl.nuw {
                        (self.t.sext(x, 2 * w), self.t.sext(y, 2 * w))
                    } else {
                        (self.t.zext(x, 2 * w), self.t.zext(y, 2 * w))
                    };
                    let m = self.t.mul(a, c);
                    let back = if fl.nsw && !fl.nuw { self.t.sext(r, 2 * w) } else { self.t.zext(r, 2 * w) };
                    let c = self.t.eq(m, back);
                    self.require(st, c, FK::Overflow, "overflow of a multiplication".into())?;
                }
            } else if b == Bin::Shl {
                // shl nuw/nsw: no bits lost
                let k = self.t.is_const(y).unwrap_or(0) as u32;
                let back = if fl.nuw { self.t.lshr_c(r, k) } else { self.t.ashr_c(r, k) };
                let c = self.t.eq(back, x);
                self.require(st, c, FK::Overflow, "overflow of a shift".into())?;
            }
        }
        Ok(r)
    }
    pub fn signed_ok(&mut self, x: T, y: T, r: T, s: i128) -> T {
        let w = self.t.w(x);
        let sb = |t: &mut Terms, v: T| t.slice(v, w - 1, 1);
        let (a, b, c) = (sb(&mut self.t, x), sb(&mut self.t, y), sb(&mut self.t, r));
        // overflow: signs of the operands agree (add) / differ (sub) and the result's sign differs from x
        let d = self.t.xor(a, b);
        let same = if s == 1 { self.t.not(d) } else { d };
        let ch = self.t.xor(a, c);
        let ov = self.t.and(same, ch);
        self.t.not(ov)
    }

    // ------------------------------------------------------------------ calls
    pub fn fname(&self, f: u32) -> &str {
        let fu = &self.p.funcs[f as usize];
        if fu.demangled.is_empty() {
            &fu.name
        } else {
            &fu.demangled
        }
    }
    pub fn finish_call(&mut self, st: &mut State, dst: Option<u32>, c: &Call, v: V, stop: Option<&Stop>, visits: &mut u32) -> Result<Flow, Stopx> {
        self.set(st, dst, v);
        match c.normal {
            Some(b) => self.enter(st, b, stop, visits),
            None => Ok(Flow::Next),
        }
    }
    fn call(&mut self, st: &mut State, dst: Option<u32>, c: &Call, stop: Option<&Stop>, visits: &mut u32) -> Result<Flow, Stopx> {
        if let Some(a) = &c.asm {
            if a.is_empty() {
                return self.finish_call(st, dst, c, V::U, stop, visits);
            }
            return Err(Stopx::End(Out::Unsup(format!("inline assembly {}", a))));
        }
        let f = self.get(st, &c.callee, &Ty::Ptr)?;
        let f = self.as_ptr(f)?;
        if f.o == NULLO || f.o & FBASE == 0 {
            return Err(Stopx::End(Out::Unsup("call through a data pointer".into())));
        }
        let fi = f.o & !FBASE;
        let p = self.p;
        let fu = &p.funcs[fi as usize];
        let mut args = vec![];
        for (t, o) in &c.args {
            if let Ty::Other(_) = t {
                args.push(V::U);
                continue;
            }
            args.push(self.get(st, o, t)?);
        }
        if fu.name.starts_with("llvm.") {
            let v = crate::intrin::call(self, st, &fu.name, c, &args)?;
            return self.finish_call(st, dst, c, v, stop, visits);
        }
        let name = self.fname(fi).to_string();
        // run-time CPU detection
        if name.contains("__is_feature_detected") || name.contains("is_x86_feature_detected") {
            let ft = name.rsplit("::").next().unwrap_or("").to_string();
            *self.externs.entry(format!("CPU detection: {}", ft)).or_insert(0) += 1;
            let yes = self.cfg.detected.contains(&ft);
            let v = match c.ret {
                Ty::Int(w) => V::I(self.t.con(w, yes as u128)),
                _ => V::U,
            };
            return self.finish_call(st, dst, c, v, stop, visits);
        }
        // the library's own check that two regions do not overlap: distinct live objects never do
        if name.contains("maybe_is_nonoverlapping") && args.len() == 4 {
            if let (V::P(a), V::P(b)) = (&args[0], &args[1]) {
                if a.o != b.o && a.o != NULLO && b.o != NULLO {
                    let v = V::I(self.t.con(1, 1));
                    *self.externs.entry("axiom: distinct live objects do not overlap".into()).or_insert(0) += 1;
                    return self.finish_call(st, dst, c, v, stop, visits);
                }
            }
        }
        if fu.name.contains("__rust_alloc") || fu.name.contains("__rust_realloc") || fu.name.contains("__rust_alloc_zeroed")
            || fu.name.contains("__rust_no_alloc_shim") || fu.name.contains("exchange_malloc") || name == "malloc" || name == "calloc" || name == "realloc"
        {
            self.count("heap allocation (requires false)");
            return Ok(Flow::End(self.fail(st, FK::Alloc, format!("call of {}", short(&name)))));
        }
        let lib = core_fmt(&fu.name);
        if fu.decl || lib || (panicky(&name) && fu.noreturn) {
            if (fu.noreturn || c.noreturn || panicky(&name)) && !(lib && !fu.noreturn) {
                self.count("panic call (requires false)");
                return Ok(Flow::End(self.fail(st, FK::Panic, short(&name))));
            }
            return crate::intrin::external(self, st, fi, dst, c, &args, stop, visits);
        }
        // callee's features must be a subset of what this leg provides
        if !fu.features.is_empty() {
            self.count("target_feature call precondition");
            let missing: Vec<String> = fu.features.iter().filter(|x| !self.cfg.allowed.contains(*x)).cloned().collect();
            if !missing.is_empty() {
                let m = format!("{} needs {}", short(&name), missing.join(","));
                return Ok(Flow::End(self.fail(st, FK::Feature, m)));
            }
        }
        if let Some(h) = self.contracts.get(&fi).cloned() {
            if let Some(r) = crate::contract::apply(self, st, &h, fi, &args)? {
                return self.finish_call(st, dst, c, r, stop, visits);
            }
        }
        if st.frames.len() > 200 {
            return Err(Stopx::End(Out::Unsup("recursion".into())));
        }
        self.used.insert(fi);
        let mut regs = vec![V::D; fu.nregs as usize];
        let base = st.objs.len();
        for (i, ((_, r), mut v)) in fu.params.iter().zip(args).enumerate() {
            if let Some(Some(n)) = c.byval.get(i) {
                // copy made by the caller
                if let V::P(pp) = v {
                    let cells = self.read_cells(st, pp, *n)?;
                    let al = fu.param_align[i].max(1);
                    v = V::P(self.new_obj(
                        st,
                        Obj { kind: Kind::Stack, size: *n, align: al, ro: false, cells, name: "by-value argument".into() },
                    ));
                }
            }
            regs[*r as usize] = v;
        }
        st.frames.push(Rc::new(Frame { f: fi, regs, block: 0, ip: 0, base, loops: vec![], dst, normal: c.normal }));
        // the entry block may be a loop header
        Ok(Flow::Jump)
    }
    /// A function value called from inside a modelled external (a formatting callback): checked on its own
    /// from the present state; every path must return and leave everything but its own locals unchanged.
    pub fn callback(&mut self, st: &mut State, fi: u32, args: Vec<V>) -> Result<(), Stopx> {
        self.used.insert(fi);
        if st.depth_note > 20 {
            return Err(Stopx::End(Out::Unsup("nested callbacks".into())));
        }
        let fu = &self.p.funcs[fi as usize];
        let mut regs = vec![V::D; fu.nregs as usize];
        for ((_, r), v) in fu.params.iter().zip(args) {
            regs[*r as usize] = v;
        }
        let base = st.objs.len();
        let mut s = st.clone();
        s.depth_note += 1;
        s.frames = vec![Rc::new(Frame { f: fi, regs, block: 0, ip: 0, base, loops: vec![], dst: None, normal: None })];
        let ends = self.run(s, None);
        for e in ends {
            match e.out {
                Out::Ret(_) => {
                    let same = (0..base).all(|i| {
                        let (a, b) = (&st.objs[i], &e.st.objs[i]);
                        a.0 == b.0 && (Rc::ptr_eq(&a.1, &b.1) || a.1.cells == b.1.cells)
                    });
                    if !same || e.st.subs.len() != st.subs.len() {
                        return Err(Stopx::End(Out::Unsup("a formatting callback changes shared data".into())));
                    }
                }
                _ => self.side.push(e),
            }
        }
        Ok(())
    }
    pub fn bound_var(&mut self, id: u32, t: T) {
        self.vars_of.insert(id, t);
    }
}

pub enum Acc {
    At(usize),
    Sym,
    Table(u64, u64),
}

pub enum Stopx {
    End(Out),
    Fork(Vec<State>),
}
impl From<Out> for Stopx {
    fn from(o: Out) -> Stopx {
        Stopx::End(o)
    }
}

pub fn short(s: &str) -> String {
    let s = s.split(" (").next().unwrap_or(s);
    if s.len() > 140 {
        s.chars().take(140).collect()
    } else {
        s.to_string()
    }
}

pub fn panicky(n: &str) -> bool {
    n.contains("core::panicking::") || n.contains("panic_const") || n.contains("begin_panic") || n.ends_with("_fail")
        || n.contains("9panicking") || n.contains("unwrap_failed") || n.contains("expect_failed") || n.contains("rust_panic") || n.contains("::process::abort")
}

/// The formatting machinery of the standard library, which is modelled (callbacks included) and not executed.
pub fn core_fmt(n: &str) -> bool {
    // the instantiating crate is the last component of a mangled name
    let mut n = n;
    for c in ["_7highway", "_3ops"] {
        if let Some(r) = n.strip_suffix(c) {
            if let Some(i) = r.rfind("Cs") {
                n = &n[..i];
            }
            break;
        }
    }
    n.starts_with("_R") && n.contains("4core3fmt") && !n.contains("7highway") && !n.contains("3ops")
}
