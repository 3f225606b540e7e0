//! Parser for the textual LLVM IR that rustc emits, and a linker for several such modules.

use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Vec(u32, Arc<Ty>),
    Arr(u64, Arc<Ty>),
    Struct(bool, Arc<Vec<Ty>>),
    Other(String),
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub big: bool,
    pub ptr: u32, // bits
    pub ptr_align: u64,
    pub ints: Vec<(u32, u64)>, // width, abi align bytes
    pub vecs: Vec<(u32, u64)>,
}
impl Layout {
    pub fn parse(s: &str) -> Layout {
        let mut l = Layout {
            big: false,
            ptr: 64,
            ptr_align: 8,
            ints: vec![(1, 1), (8, 1), (16, 2), (32, 4), (64, 4)],
            vecs: vec![(64, 8), (128, 16)],
        };
        let mut explicit_i64 = false;
        for e in s.split('-') {
            if e == "E" {
                l.big = true;
            } else if let Some(r) = e.strip_prefix("p:") {
                let v: Vec<u32> = r.split(':').filter_map(|x| x.parse().ok()).collect();
                l.ptr = v[0];
                l.ptr_align = v[1] as u64 / 8;
            } else if e.starts_with('i') || e.starts_with('v') {
                let isv = e.starts_with('v');
                let v: Vec<u32> = e[1..].split(':').filter_map(|x| x.parse().ok()).collect();
                if v.len() >= 2 {
                    let t = if isv { &mut l.vecs } else { &mut l.ints };
                    t.retain(|x| x.0 != v[0]);
                    t.push((v[0], v[1] as u64 / 8));
                    if !isv && v[0] == 64 {
                        explicit_i64 = true;
                    }
                }
            }
        }
        let _ = explicit_i64;
        l.ints.sort();
        l
    }
    pub fn align(&self, t: &Ty) -> u64 {
        match t {
            Ty::Void => 1,
            Ty::Int(w) => {
                for (b, a) in &self.ints {
                    if *b >= *w {
                        return (*a).max(1);
                    }
                }
                self.ints.last().unwrap().1
            }
            Ty::Ptr => self.ptr_align,
            Ty::Vec(n, e) => {
                let bits = *n * self.bits(e);
                for (b, a) in &self.vecs {
                    if *b == bits {
                        return *a;
                    }
                }
                ((bits as u64 + 7) / 8).next_power_of_two()
            }
            Ty::Arr(_, e) => self.align(e),
            Ty::Struct(p, f) => {
                if *p {
                    1
                } else {
                    f.iter().map(|x| self.align(x)).max().unwrap_or(1)
                }
            }
            Ty::Other(_) => 1,
        }
    }
    pub fn bits(&self, t: &Ty) -> u32 {
        match t {
            Ty::Int(w) => *w,
            Ty::Ptr => self.ptr,
            Ty::Vec(n, e) => n * self.bits(e),
            _ => self.size(t) as u32 * 8,
        }
    }
    /// allocation size in bytes
    pub fn size(&self, t: &Ty) -> u64 {
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        match t {
            Ty::Void => 0,
            Ty::Int(w) => up((*w as u64 + 7) / 8, self.align(t)),
            Ty::Ptr => self.ptr as u64 / 8,
            Ty::Vec(..) => up((self.bits(t) as u64 + 7) / 8, self.align(t)),
            Ty::Arr(n, e) => n * self.size(e),
            Ty::Struct(..) => {
                let (o, s) = self.offsets(t);
                let _ = o;
                s
            }
            Ty::Other(_) => 0,
        }
    }
    pub fn store_size(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(..) => (self.bits(t) as u64 + 7) / 8,
            _ => self.size(t),
        }
    }
    pub fn offsets(&self, t: &Ty) -> (Vec<u64>, u64) {
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        if let Ty::Struct(packed, f) = t {
            let mut o = 0;
            let mut v = vec![];
            for x in f.iter() {
                if !packed {
                    o = up(o, self.align(x));
                }
                v.push(o);
                o += self.size(x);
            }
            if !packed {
                o = up(o, self.align(t));
            }
            (v, o)
        } else {
            (vec![], 0)
        }
    }
}

pub type Sym = u32;

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    I(u32, u128),
    Null,
    Undef,
    Zero,
    S(Sym),
    /// symbol + constant byte offset
    SOff(Sym, i64),
    /// integer constant as a pointer
    IntPtr(u128),
    /// address of a symbol (+ offset) as an integer
    PtrInt(u32, Sym, i64),
    Agg(Arc<Vec<(Ty, Op)>>),
    Bytes(Arc<Vec<u8>>),
    Splat(u32, Box<Op>),
    Bad(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    Bitcast,
    PtrToInt,
    IntToPtr,
}

#[derive(Clone, Debug, Default)]
pub struct Flags {
    pub nuw: bool,
    pub nsw: bool,
    pub exact: bool,
    pub disjoint: bool,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub callee: Op,
    pub asm: Option<String>,
    pub ret: Ty,
    pub args: Vec<(Ty, Op)>,
    pub byval: Vec<Option<u64>>,
    pub aligns: Vec<u64>,
    pub normal: Option<u32>,
    pub unwind: Option<u32>,
    pub attrs: Vec<u32>,
    pub noreturn: bool,
}

impl Call {
    pub fn arg_align(&self, i: usize) -> u64 {
        self.aligns.get(i).copied().unwrap_or(1).max(1)
    }
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca(u64, u64),
    Load(Ty, Op, u64),
    Store(Ty, Op, Op, u64),
    /// ptr, constant part, (index, index width, scale)
    Gep(Op, i64, Vec<(Op, u32, u64)>),
    Bin(Bin, Ty, Op, Op, Flags),
    Icmp(Pred, Ty, Op, Op),
    Cast(Cast, Ty, Op, Ty, Flags),
    Select(Ty, Op, Ty, Op, Op),
    Phi(Ty, Vec<(Op, u32)>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Resume,
    Call(Box<Call>),
    ExtractValue(Ty, Op, Vec<u32>),
    InsertValue(Ty, Op, Ty, Op, Vec<u32>),
    ExtractElement(Ty, Op, Op),
    InsertElement(Ty, Op, Ty, Op, Op),
    Shuffle(Ty, Op, Op, Vec<Option<u32>>),
    Freeze(Ty, Op),
    Landingpad(Ty),
    Rmw(String, Op, Ty, Op),
    CmpXchg(Op, Ty, Op, Op),
    Nop,
    Bad(String),
}

#[derive(Clone, Debug)]
pub struct Ins {
    pub dst: Option<u32>,
    pub i: Inst,
}

pub struct Block {
    pub name: String,
    pub ins: Vec<Ins>,
}

pub struct Func {
    pub name: String,
    pub demangled: String,
    pub module: u32,
    pub ret: Ty,
    pub params: Vec<(Ty, u32)>,
    pub param_align: Vec<u64>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub decl: bool,
    pub internal: bool,
    pub noreturn: bool,
    pub features: Vec<String>,
    pub loops: Vec<Loop>,
    /// innermost loop of every block
    pub hash: u64,
    pub ninstr: usize,
    pub text: String,
}

#[derive(Clone, Debug)]
pub struct Loop {
    pub header: u32,
    pub body: Vec<bool>,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Op>,
    pub constant: bool,
    pub internal: bool,
    pub thread_local: bool,
    pub align: u64,
    pub text: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Target {
    None,
    F(u32),
    G(u32),
}

pub struct SymInfo {
    pub name: String,
    pub module: u32,
    pub to: Target,
}

#[derive(Default)]
pub struct Program {
    pub layout: Option<Layout>,
    pub triple: String,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub syms: Vec<SymInfo>,
    pub nmodules: u32,
    pub exported: HashMap<String, Target>,
}

impl Program {
    pub fn lay(&self) -> &Layout {
        self.layout.as_ref().unwrap()
    }
    pub fn func(&self, name: &str) -> Option<u32> {
        match self.exported.get(name) {
            Some(Target::F(i)) if !self.funcs[*i as usize].decl => Some(*i),
            _ => None,
        }
    }
    pub fn link(&mut self) {
        let mut ext: HashMap<String, Target> = HashMap::new();
        // per module local tables
        let mut local: Vec<HashMap<String, Target>> = (0..self.nmodules).map(|_| HashMap::new()).collect();
        for (i, f) in self.funcs.iter().enumerate() {
            let t = Target::F(i as u32);
            let e = local[f.module as usize].entry(f.name.clone()).or_insert(t);
            if !f.decl {
                *e = t;
            }
            if !f.decl && !f.internal {
                ext.entry(f.name.clone()).or_insert(t);
            }
        }
        for (i, g) in self.globals.iter().enumerate() {
            let t = Target::G(i as u32);
            // module is recovered from the symbol entry added by the parser
            let m = g.align >> 32;
            local[m as usize].insert(g.name.clone(), t);
            if !g.internal && g.init.is_some() {
                ext.entry(g.name.clone()).or_insert(t);
            }
        }
        for g in self.globals.iter_mut() {
            g.align &= 0xffff_ffff;
        }
        for s in self.syms.iter_mut() {
            let l = local[s.module as usize].get(&s.name).copied().unwrap_or(Target::None);
            let def = match l {
                Target::F(i) => !self.funcs[i as usize].decl,
                Target::G(i) => self.globals[i as usize].init.is_some(),
                Target::None => false,
            };
            s.to = if def { l } else { ext.get(&s.name).copied().unwrap_or(l) };
        }
        self.exported = ext;
        for f in self.funcs.iter_mut() {
            f.loops = find_loops(f);
        }
    }
}

fn succs(b: &Block) -> Vec<u32> {
    match b.ins.last().map(|x| &x.i) {
        Some(Inst::Br(t)) => vec![*t],
        Some(Inst::CondBr(_, a, b)) => vec![*a, *b],
        Some(Inst::Switch(_, _, d, l)) => {
            let mut v = vec![*d];
            v.extend(l.iter().map(|x| x.1));
            v
        }
        Some(Inst::Call(c)) => {
            let mut v = vec![];
            if let Some(n) = c.normal {
                v.push(n)
            }
            if let Some(u) = c.unwind {
                v.push(u)
            }
            v
        }
        _ => vec![],
    }
}

fn find_loops(f: &Func) -> Vec<Loop> {
    let n = f.blocks.len();
    if n < 2 {
        return vec![];
    }
    let su: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    // reverse post order
    let mut order = vec![];
    let mut seen = vec![false; n];
    let mut stack = vec![(0usize, 0usize)];
    seen[0] = true;
    while let Some((b, i)) = stack.pop() {
        if i < su[b].len() {
            stack.push((b, i + 1));
            let s = su[b][i] as usize;
            if !seen[s] {
                seen[s] = true;
                stack.push((s, 0));
            }
        } else {
            order.push(b);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n];
    for (i, b) in order.iter().enumerate() {
        num[*b] = i;
    }
    let mut preds = vec![vec![]; n];
    for b in 0..n {
        if seen[b] {
            for s in &su[b] {
                preds[*s as usize].push(b);
            }
        }
    }
    let mut idom = vec![usize::MAX; n];
    idom[0] = 0;
    let mut ch = true;
    while ch {
        ch = false;
        for &b in order.iter().skip(1) {
            let mut d = usize::MAX;
            for &p in &preds[b] {
                if idom[p] == usize::MAX {
                    continue;
                }
                if d == usize::MAX {
                    d = p;
                } else {
                    let (mut x, mut y) = (p, d);
                    while x != y {
                        while num[x] > num[y] {
                            x = idom[x]
                        }
                        while num[y] > num[x] {
                            y = idom[y]
                        }
                    }
                    d = x;
                }
            }
            if d != usize::MAX && idom[b] != d {
                idom[b] = d;
                ch = true;
            }
        }
    }
    let dom = |a: usize, mut b: usize| -> bool {
        loop {
            if a == b {
                return true;
            }
            if b == 0 || idom[b] == usize::MAX {
                return false;
            }
            b = idom[b];
        }
    };
    let mut loops: Vec<Loop> = vec![];
    for b in 0..n {
        if !seen[b] {
            continue;
        }
        for &h in &su[b] {
            let h = h as usize;
            if dom(h, b) {
                let mut body = vec![false; n];
                body[h] = true;
                let mut st = vec![b];
                while let Some(x) = st.pop() {
                    if !body[x] {
                        body[x] = true;
                        st.extend(preds[x].iter().copied());
                    }
                }
                if let Some(l) = loops.iter_mut().find(|l| l.header == h as u32) {
                    for i in 0..n {
                        l.body[i] |= body[i];
                    }
                } else {
                    loops.push(Loop { header: h as u32, body });
                }
            }
        }
    }
    loops
}

// -------------------------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    W(String),
    L(String),
    G(String),
    N(String),
    S(Vec<u8>),
    P(char),
    M(String),
    A(u32),
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            let h = &s[i + 1..i + 3];
            if let Ok(v) = u8::from_str_radix(h, 16) {
                o.push(v);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let (name, e) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1
                    }
                    (s[i + 2..j].to_string(), j + 1)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) {
                        j += 1
                    }
                    (s[i + 1..j].to_string(), j)
                };
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
                i = e;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::S(unescape(&s[i + 1..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::S(unescape(&s[i + 2..j])));
                i = j + 1;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1
                }
                out.push(Tok::M(s[i + 1..j].to_string()));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1
                }
                out.push(Tok::A(s[i + 1..j].parse().unwrap_or(0)));
                i = j;
            }
            b'0'..=b'9' => {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+') {
                    j += 1
                }
                out.push(Tok::N(s[i..j].to_string()));
                i = j;
            }
            b'-' if i + 1 < b.len() && b[i + 1].is_ascii_digit() => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.') {
                    j += 1
                }
                out.push(Tok::N(s[i..j].to_string()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'.') {
                    j += 1
                }
                out.push(Tok::W(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

// -------------------------------------------------------------------------------- parser

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a mut ModCtx,
}

struct ModCtx {
    types: HashMap<String, Ty>,
    syms: HashMap<String, Sym>,
    sym_list: Vec<String>,
    base: u32,
    layout: Layout,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl ModCtx {
    fn sym(&mut self, n: &str) -> Sym {
        if let Some(s) = self.syms.get(n) {
            return *s;
        }
        let id = self.base + self.sym_list.len() as u32;
        self.sym_list.push(n.to_string());
        self.syms.insert(n.to_string(), id);
        id
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn block(&mut self, n: &str) -> u32 {
        *self.blocks.get(n).unwrap_or(&u32::MAX)
    }
}

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("end of line")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?}", c, self.peek()))
        }
    }
    fn num(&mut self) -> R<u64> {
        match self.next()? {
            Tok::N(s) => s.parse().map_err(|_| format!("number {}", s)),
            t => Err(format!("expected number, got {:?}", t)),
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::W(w) => {
                if w == "void" {
                    Ty::Void
                } else if w == "ptr" {
                    if self.is_w("addrspace") {
                        self.i += 1;
                        self.want('(')?;
                        self.num()?;
                        self.want(')')?;
                    }
                    Ty::Ptr
                } else if w.starts_with('i') && w[1..].parse::<u32>().is_ok() {
                    Ty::Int(w[1..].parse().unwrap())
                } else if w == "float" {
                    // moved and shuffled as bits; no floating-point operation is interpreted
                    Ty::Int(32)
                } else if w == "double" {
                    Ty::Int(64)
                } else if w == "half" || w == "bfloat" {
                    Ty::Int(16)
                } else if ["x86_fp80", "fp128", "label", "metadata", "token"]
                    .contains(&w.as_str())
                {
                    Ty::Other(w)
                } else {
                    return Err(format!("type {}", w));
                }
            }
            Tok::L(n) => self.m.types.get(&n).cloned().ok_or(format!("type %{}", n))?,
            Tok::P('[') => {
                let n = self.num()?;
                if !self.eat_w("x") {
                    return Err("array x".into());
                }
                let e = self.ty()?;
                self.want(']')?;
                Ty::Arr(n, Arc::new(e))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let mut f = vec![];
                    if !self.eat_p('}') {
                        loop {
                            f.push(self.ty()?);
                            if !self.eat_p(',') {
                                break;
                            }
                        }
                        self.want('}')?;
                    }
                    self.want('>')?;
                    Ty::Struct(true, Arc::new(f))
                } else {
                    let n = self.num()?;
                    if !self.eat_w("x") {
                        return Err("vector x".into());
                    }
                    let e = self.ty()?;
                    self.want('>')?;
                    Ty::Vec(n as u32, Arc::new(e))
                }
            }
            Tok::P('{') => {
                let mut f = vec![];
                if !self.eat_p('}') {
                    loop {
                        f.push(self.ty()?);
                        if !self.eat_p(',') {
                            break;
                        }
                    }
                    self.want('}')?;
                }
                Ty::Struct(false, Arc::new(f))
            }
            t => return Err(format!("type token {:?}", t)),
        };
        Ok(t)
    }
    fn int_lit(s: &str, w: u32) -> R<u128> {
        let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
        if let Some(r) = s.strip_prefix('-') {
            let v: u128 = r.parse().map_err(|_| format!("int {}", s))?;
            Ok(v.wrapping_neg() & m)
        } else {
            let v: u128 = s.parse().map_err(|_| format!("int {}", s))?;
            Ok(v & m)
        }
    }
    /// operand of the given type
    fn op(&mut self, ty: &Ty) -> R<Op> {
        match self.next()? {
            Tok::L(n) => Ok(Op::R(self.m.reg(&n))),
            Tok::G(n) => Ok(Op::S(self.m.sym(&n))),
            Tok::N(s) => match ty {
                Ty::Int(w) => Ok(Op::I(*w, Self::int_lit(&s, *w)?)),
                _ => Ok(Op::Bad(format!("literal {}", s))),
            },
            Tok::S(b) => Ok(Op::Bytes(Arc::new(b))),
            Tok::P('{') | Tok::P('[') => {
                let mut v = vec![];
                if self.eat_p('}') || self.eat_p(']') {
                    return Ok(Op::Agg(Arc::new(v)));
                }
                loop {
                    let t = self.ty()?;
                    let o = self.op(&t)?;
                    v.push((t, o));
                    if !self.eat_p(',') {
                        break;
                    }
                }
                if !(self.eat_p('}') || self.eat_p(']')) {
                    return Err("aggregate end".into());
                }
                Ok(Op::Agg(Arc::new(v)))
            }
            Tok::P('<') => {
                let st = self.eat_p('{');
                let mut v = vec![];
                loop {
                    let t = self.ty()?;
                    let o = self.op(&t)?;
                    v.push((t, o));
                    if !self.eat_p(',') {
                        break;
                    }
                }
                if st {
                    self.want('}')?;
                }
                self.want('>')?;
                Ok(Op::Agg(Arc::new(v)))
            }
            Tok::W(w) => match w.as_str() {
                "true" => Ok(Op::I(1, 1)),
                "false" => Ok(Op::I(1, 0)),
                "null" => Ok(Op::Null),
                "undef" | "poison" => Ok(Op::Undef),
                "zeroinitializer" | "none" => Ok(Op::Zero),
                "splat" => {
                    self.want('(')?;
                    let t = self.ty()?;
                    let o = self.op(&t)?;
                    self.want(')')?;
                    if let Ty::Vec(n, _) = ty {
                        Ok(Op::Splat(*n, Box::new(o)))
                    } else {
                        Err("splat".into())
                    }
                }
                "getelementptr" => {
                    while let Some(Tok::W(_)) = self.peek() {
                        // inbounds, nuw, nusw
                        let w = if let Some(Tok::W(w)) = self.peek() { w.clone() } else { String::new() };
                        if ["inbounds", "nuw", "nusw", "nsw"].contains(&w.as_str()) {
                            self.i += 1;
                        } else {
                            break;
                        }
                    }
                    if self.eat_w("inrange") {
                        self.skip_parens()?;
                    }
                    self.want('(')?;
                    let bt = self.ty()?;
                    self.want(',')?;
                    let pt = self.ty()?;
                    let p = self.op(&pt)?;
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let t = self.ty()?;
                        let o = self.op(&t)?;
                        idx.push((t, o));
                    }
                    self.want(')')?;
                    let (c, v) = self.gep(&bt, &idx)?;
                    if !v.is_empty() {
                        return Ok(Op::Bad("gep constant".into()));
                    }
                    match p {
                        Op::S(s) => Ok(Op::SOff(s, c)),
                        Op::SOff(s, o) => Ok(Op::SOff(s, o + c)),
                        Op::Null => Ok(Op::IntPtr(c as u128)),
                        Op::IntPtr(k) => Ok(Op::IntPtr(k.wrapping_add(c as u128))),
                        _ => Ok(Op::Bad("gep constant".into())),
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                    self.want('(')?;
                    let t = self.ty()?;
                    let o = self.op(&t)?;
                    if !self.eat_w("to") {
                        return Err("cast to".into());
                    }
                    let to = self.ty()?;
                    self.want(')')?;
                    match (w.as_str(), o) {
                        ("inttoptr", Op::I(_, v)) => Ok(Op::IntPtr(v)),
                        ("ptrtoint", Op::S(s)) => Ok(Op::PtrInt(self.m.layout.bits(&to), s, 0)),
                        ("ptrtoint", Op::SOff(s, k)) => Ok(Op::PtrInt(self.m.layout.bits(&to), s, k)),
                        ("bitcast", o) => Ok(o),
                        _ => Ok(Op::Bad(w)),
                    }
                }
                _ => {
                    // some other constant expression: remember it, fail only if it is used
                    if self.is_p('(') {
                        self.skip_parens()?;
                    }
                    Ok(Op::Bad(w))
                }
            },
            Tok::M(_) => Ok(Op::Bad("metadata".into())),
            t => Err(format!("operand {:?}", t)),
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.want('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn gep(&mut self, bt: &Ty, idx: &[(Ty, Op)]) -> R<(i64, Vec<(Op, u32, u64)>)> {
        let mut c = 0i64;
        let mut v = vec![];
        let mut cur = bt.clone();
        let lay = self.m.layout.clone();
        for (k, (t, o)) in idx.iter().enumerate() {
            let w = match t {
                Ty::Int(w) => *w,
                _ => return Err("gep index type".into()),
            };
            let sxt = |x: u128| -> i64 { ((x << (128 - w)) as i128 >> (128 - w)) as i64 };
            if k == 0 {
                let s = lay.size(&cur);
                match o {
                    Op::I(_, x) => c += sxt(*x) * s as i64,
                    _ => v.push((o.clone(), w, s)),
                }
            } else {
                match cur.clone() {
                    Ty::Struct(..) => {
                        let i = match o {
                            Op::I(_, x) => *x as usize,
                            _ => return Err("gep struct index".into()),
                        };
                        c += lay.offsets(&cur).0[i] as i64;
                        if let Ty::Struct(_, f) = &cur.clone() {
                            cur = f[i].clone();
                        }
                    }
                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                        let s = lay.size(&e);
                        match o {
                            Op::I(_, x) => c += sxt(*x) * s as i64,
                            _ => v.push((o.clone(), w, s)),
                        }
                        cur = (*e).clone();
                    }
                    _ => return Err("gep into scalar".into()),
                }
            }
        }
        Ok((c, v))
    }
    /// skip parameter attributes, return (align, byval size)
    fn attrs(&mut self) -> R<(u64, Option<u64>)> {
        let mut al = 0;
        let mut byval = None;
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let w = w.clone();
                    match w.as_str() {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat"
                        | "getelementptr" | "inttoptr" | "ptrtoint" | "none" | "asm" => break,
                        "align" => {
                            self.i += 1;
                            if self.is_p('(') {
                                self.i += 1;
                                al = self.num()?;
                                self.want(')')?;
                            } else {
                                al = self.num()?;
                            }
                        }
                        "byval" => {
                            self.i += 1;
                            self.want('(')?;
                            let t = self.ty()?;
                            self.want(')')?;
                            byval = Some(self.m.layout.size(&t));
                        }
                        _ => {
                            // a type can follow the return attributes
                            if w == "void"
                                || w == "ptr"
                                || (w.starts_with('i') && w.len() > 1 && w[1..].chars().all(|c| c.is_ascii_digit()))
                                || w == "float"
                                || w == "double"
                                || w == "half"
                                || w == "metadata"
                            {
                                break;
                            }
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens()?;
                            }
                        }
                    }
                }
                Some(Tok::S(_)) => {
                    // "attr" or "attr"="value"
                    if let Some(Tok::P('=')) = self.t.get(self.i + 1) {
                        self.i += 3;
                    } else {
                        break;
                    }
                }
                _ => break,
            }
        }
        Ok((al, byval))
    }
    fn label(&mut self) -> R<u32> {
        if !self.eat_w("label") {
            return Err("label".into());
        }
        match self.next()? {
            Tok::L(n) => Ok(self.m.block(&n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn align_tail(&mut self, default: u64) -> u64 {
        // ", align N" somewhere in the rest
        let mut j = self.i;
        while j < self.t.len() {
            if let Tok::W(w) = &self.t[j] {
                if w == "align" {
                    if let Some(Tok::N(n)) = self.t.get(j + 1) {
                        return n.parse().unwrap_or(default);
                    }
                }
            }
            j += 1;
        }
        default
    }
    fn call(&mut self, invoke: bool) -> R<Inst> {
        // calling convention / fast-math / attributes before the type
        self.attrs()?;
        let ret = self.ty()?;
        // function type in parentheses (varargs)
        if self.is_p('(') {
            self.skip_parens()?;
        }
        let mut asm = None;
        let callee;
        if self.eat_w("asm") {
            while matches!(self.peek(), Some(Tok::W(_))) {
                self.i += 1;
            }
            let s = match self.next()? {
                Tok::S(b) => String::from_utf8_lossy(&b).to_string(),
                _ => "?".into(),
            };
            self.want(',')?;
            self.next()?;
            asm = Some(s);
            callee = Op::Null;
        } else {
            callee = self.op(&Ty::Ptr)?;
        }
        self.want('(')?;
        let mut args = vec![];
        let mut byval = vec![];
        let mut aligns = vec![];
        if !self.eat_p(')') {
            loop {
                if self.is_w("metadata") {
                    // metadata argument: skip to , or )
                    let mut d = 0;
                    while let Some(t) = self.peek() {
                        match t {
                            Tok::P('(') => d += 1,
                            Tok::P(')') if d == 0 => break,
                            Tok::P(')') => d -= 1,
                            Tok::P(',') if d == 0 => break,
                            _ => {}
                        }
                        self.i += 1;
                    }
                } else {
                    let t = self.ty()?;
                    let (al, bv) = self.attrs()?;
                    let o = self.op(&t)?;
                    args.push((t, o));
                    byval.push(bv);
                    aligns.push(al);
                }
                if !self.eat_p(',') {
                    break;
                }
            }
            self.want(')')?;
        }
        let mut attrs = vec![];
        let mut noreturn = false;
        let (mut normal, mut unwind) = (None, None);
        while let Some(t) = self.peek().cloned() {
            match t {
                Tok::A(n) => {
                    attrs.push(n);
                    self.i += 1;
                }
                Tok::W(w) if w == "noreturn" => {
                    noreturn = true;
                    self.i += 1;
                }
                Tok::W(w) if w == "to" && invoke => {
                    self.i += 1;
                    normal = Some(self.label()?);
                    if !self.eat_w("unwind") {
                        return Err("unwind".into());
                    }
                    unwind = Some(self.label()?);
                }
                _ => self.i += 1,
            }
        }
        Ok(Inst::Call(Box::new(Call { callee, asm, ret, args, byval, aligns, normal, unwind, attrs, noreturn })))
    }
    fn flags(&mut self) -> Flags {
        let mut f = Flags::default();
        while let Some(Tok::W(w)) = self.peek() {
            match w.as_str() {
                "nuw" => f.nuw = true,
                "nsw" => f.nsw = true,
                "exact" => f.exact = true,
                "disjoint" => f.disjoint = true,
                "nneg" | "samesign" | "inbounds" | "nusw" => {}
                _ => break,
            }
            self.i += 1;
        }
        f
    }
    fn idxs(&mut self) -> R<Vec<u32>> {
        let mut v = vec![];
        while self.is_p(',') {
            if let Some(Tok::N(_)) = self.t.get(self.i + 1) {
                self.i += 1;
                v.push(self.num()? as u32);
            } else {
                break;
            }
        }
        Ok(v)
    }
    fn inst(&mut self) -> R<Inst> {
        let w = match self.next()? {
            Tok::W(w) => w,
            t => return Err(format!("instruction {:?}", t)),
        };
        let bin = |b: Bin| Some(b);
        let b = match w.as_str() {
            "add" => bin(Bin::Add),
            "sub" => bin(Bin::Sub),
            "mul" => bin(Bin::Mul),
            "udiv" => bin(Bin::UDiv),
            "sdiv" => bin(Bin::SDiv),
            "urem" => bin(Bin::URem),
            "srem" => bin(Bin::SRem),
            "shl" => bin(Bin::Shl),
            "lshr" => bin(Bin::LShr),
            "ashr" => bin(Bin::AShr),
            "and" => bin(Bin::And),
            "or" => bin(Bin::Or),
            "xor" => bin(Bin::Xor),
            _ => None,
        };
        if let Some(b) = b {
            let f = self.flags();
            let t = self.ty()?;
            let x = self.op(&t)?;
            self.want(',')?;
            let y = self.op(&t)?;
            return Ok(Inst::Bin(b, t, x, y, f));
        }
        let c = match w.as_str() {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::Zext),
            "sext" => Some(Cast::Sext),
            "bitcast" => Some(Cast::Bitcast),
            "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
            "inttoptr" => Some(Cast::IntToPtr),
            _ => None,
        };
        if let Some(c) = c {
            let f = self.flags();
            let t = self.ty()?;
            let x = self.op(&t)?;
            if !self.eat_w("to") {
                return Err("cast".into());
            }
            let to = self.ty()?;
            return Ok(Inst::Cast(c, t, x, to, f));
        }
        match w.as_str() {
            "alloca" => {
                let t = self.ty()?;
                let mut n = 1;
                if self.eat_p(',') && !self.is_w("align") {
                    let it = self.ty()?;
                    match self.op(&it)? {
                        Op::I(_, k) => n = k as u64,
                        _ => return Err("dynamic alloca".into()),
                    }
                }
                let a = self.align_tail(self.m.layout.align(&t));
                Ok(Inst::Alloca(self.m.layout.size(&t) * n, a))
            }
            "load" => {
                self.eat_w("atomic");
                self.eat_w("volatile");
                let t = self.ty()?;
                self.want(',')?;
                let pt = self.ty()?;
                let p = self.op(&pt)?;
                let a = self.align_tail(self.m.layout.align(&t));
                Ok(Inst::Load(t, p, a))
            }
            "store" => {
                self.eat_w("atomic");
                self.eat_w("volatile");
                let t = self.ty()?;
                let v = self.op(&t)?;
                self.want(',')?;
                let pt = self.ty()?;
                let p = self.op(&pt)?;
                let a = self.align_tail(self.m.layout.align(&t));
                Ok(Inst::Store(t, v, p, a))
            }
            "getelementptr" => {
                self.flags();
                let bt = self.ty()?;
                self.want(',')?;
                let pt = self.ty()?;
                if pt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let p = self.op(&pt)?;
                let mut idx = vec![];
                while self.is_p(',') && !matches!(self.t.get(self.i + 1), Some(Tok::M(_))) {
                    self.i += 1;
                    let t = self.ty()?;
                    let o = self.op(&t)?;
                    idx.push((t, o));
                }
                let (c, v) = self.gep(&bt, &idx)?;
                Ok(Inst::Gep(p, c, v))
            }
            "icmp" => {
                self.flags();
                let p = match self.next()? {
                    Tok::W(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return Err("icmp".into()),
                    },
                    _ => return Err("icmp".into()),
                };
                let t = self.ty()?;
                let x = self.op(&t)?;
                self.want(',')?;
                let y = self.op(&t)?;
                Ok(Inst::Icmp(p, t, x, y))
            }
            "select" => {
                self.flags();
                let ct = self.ty()?;
                let c = self.op(&ct)?;
                self.want(',')?;
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.want(',')?;
                let _ = self.ty()?;
                let b = self.op(&t)?;
                Ok(Inst::Select(ct, c, t, a, b))
            }
            "phi" => {
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.want('[')?;
                    let o = self.op(&t)?;
                    self.want(',')?;
                    let b = match self.next()? {
                        Tok::L(n) => self.m.block(&n),
                        _ => return Err("phi".into()),
                    };
                    self.want(']')?;
                    v.push((o, b));
                    if !(self.is_p(',') && self.t.get(self.i + 1) == Some(&Tok::P('['))) {
                        break;
                    }
                    self.i += 1;
                }
                Ok(Inst::Phi(t, v))
            }
            "br" => {
                if self.is_w("label") {
                    return Ok(Inst::Br(self.label()?));
                }
                let t = self.ty()?;
                let c = self.op(&t)?;
                self.want(',')?;
                let a = self.label()?;
                self.want(',')?;
                let b = self.label()?;
                Ok(Inst::CondBr(c, a, b))
            }
            "switch" => {
                let t = self.ty()?;
                let w = match t {
                    Ty::Int(w) => w,
                    _ => return Err("switch".into()),
                };
                let o = self.op(&t)?;
                self.want(',')?;
                let d = self.label()?;
                self.want('[')?;
                let mut v = vec![];
                while !self.eat_p(']') {
                    let ct = self.ty()?;
                    let k = match self.op(&ct)? {
                        Op::I(_, k) => k,
                        _ => return Err("switch case".into()),
                    };
                    self.want(',')?;
                    v.push((k, self.label()?));
                }
                Ok(Inst::Switch(w, o, d, v))
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    return Ok(Inst::Ret(None));
                }
                let o = self.op(&t)?;
                Ok(Inst::Ret(Some((t, o))))
            }
            "unreachable" => Ok(Inst::Unreachable),
            "resume" => Ok(Inst::Resume),
            "tail" | "musttail" | "notail" => {
                if !self.eat_w("call") {
                    return Err("tail".into());
                }
                self.call(false)
            }
            "call" => self.call(false),
            "invoke" => self.call(true),
            "extractvalue" => {
                let t = self.ty()?;
                let o = self.op(&t)?;
                Ok(Inst::ExtractValue(t, o, self.idxs()?))
            }
            "insertvalue" => {
                let t = self.ty()?;
                let o = self.op(&t)?;
                self.want(',')?;
                let vt = self.ty()?;
                let v = self.op(&vt)?;
                Ok(Inst::InsertValue(t, o, vt, v, self.idxs()?))
            }
            "extractelement" => {
                let t = self.ty()?;
                let o = self.op(&t)?;
                self.want(',')?;
                let it = self.ty()?;
                let i = self.op(&it)?;
                Ok(Inst::ExtractElement(t, o, i))
            }
            "insertelement" => {
                let t = self.ty()?;
                let o = self.op(&t)?;
                self.want(',')?;
                let vt = self.ty()?;
                let v = self.op(&vt)?;
                self.want(',')?;
                let it = self.ty()?;
                let i = self.op(&it)?;
                Ok(Inst::InsertElement(t, o, vt, v, i))
            }
            "shufflevector" => {
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.want(',')?;
                let t2 = self.ty()?;
                let b = self.op(&t2)?;
                self.want(',')?;
                let mt = self.ty()?;
                let n = match &mt {
                    Ty::Vec(n, _) => *n as usize,
                    _ => return Err("mask".into()),
                };
                let m = match self.op(&mt)? {
                    Op::Zero => vec![Some(0); n],
                    Op::Undef => vec![None; n],
                    Op::Splat(_, o) => match *o {
                        Op::I(_, k) => vec![Some(k as u32); n],
                        _ => vec![None; n],
                    },
                    Op::Agg(v) => v
                        .iter()
                        .map(|(_, o)| match o {
                            Op::I(_, k) => Some(*k as u32),
                            _ => None,
                        })
                        .collect(),
                    o => return Err(format!("mask {:?}", o)),
                };
                Ok(Inst::Shuffle(t, a, b, m))
            }
            "freeze" => {
                let t = self.ty()?;
                let o = self.op(&t)?;
                Ok(Inst::Freeze(t, o))
            }
            "landingpad" => {
                let t = self.ty()?;
                Ok(Inst::Landingpad(t))
            }
            "fence" => Ok(Inst::Nop),
            "atomicrmw" => {
                self.eat_w("volatile");
                let k = match self.next()? {
                    Tok::W(w) => w,
                    _ => return Err("rmw".into()),
                };
                let pt = self.ty()?;
                let p = self.op(&pt)?;
                self.want(',')?;
                let t = self.ty()?;
                let v = self.op(&t)?;
                Ok(Inst::Rmw(k, p, t, v))
            }
            "cmpxchg" => {
                self.eat_w("weak");
                self.eat_w("volatile");
                let pt = self.ty()?;
                let p = self.op(&pt)?;
                self.want(',')?;
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.want(',')?;
                let _ = self.ty()?;
                let b = self.op(&t)?;
                Ok(Inst::CmpXchg(p, t, a, b))
            }
            _ => Err(format!("instruction {}", w)),
        }
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// Parse one module and add it to the program.
pub fn parse_module(prog: &mut Program, text: &str) -> Result<(), String> {
    let lines: Vec<&str> = text.lines().collect();
    let mut layout = None;
    for l in &lines {
        if let Some(r) = l.strip_prefix("target datalayout = \"") {
            layout = Some(Layout::parse(r.trim_end_matches('"')));
        }
        if let Some(r) = l.strip_prefix("target triple = \"") {
            prog.triple = r.trim_end_matches('"').into();
        }
        if layout.is_some() && l.starts_with("target triple") {
            break;
        }
    }
    let layout = layout.ok_or("no datalayout")?;
    let module = prog.nmodules;
    prog.nmodules += 1;
    let mut m = ModCtx {
        types: HashMap::new(),
        syms: HashMap::new(),
        sym_list: vec![],
        base: prog.syms.len() as u32,
        layout: layout.clone(),
        regs: HashMap::new(),
        blocks: HashMap::new(),
    };
    prog.layout = Some(layout);
    // named types (repeat until nested names resolve)
    for _ in 0..4 {
        for l in &lines {
            if l.starts_with('%') && l.contains(" = type ") {
                let (n, r) = l.split_once(" = type ").unwrap();
                let n = n.trim_start_matches('%').trim_matches('"').to_string();
                let mut p = P { t: lex(r), i: 0, m: &mut m };
                if let Ok(t) = p.ty() {
                    m.types.insert(n, t);
                }
            }
        }
    }
    // attribute groups
    let mut agroups: HashMap<u32, (bool, Vec<String>)> = HashMap::new();
    for l in lines.iter().rev() {
        if let Some(r) = l.strip_prefix("attributes #") {
            let (n, r) = r.split_once(" = ").unwrap_or(("", ""));
            let n: u32 = n.parse().unwrap_or(u32::MAX);
            let mut feats = vec![];
            if let Some(k) = r.find("\"target-features\"=\"") {
                let s = &r[k + 19..];
                let s = &s[..s.find('"').unwrap_or(0)];
                feats = s.split(',').filter_map(|x| x.strip_prefix('+')).map(|x| x.to_string()).collect();
            }
            let nr = r.split_whitespace().any(|x| x == "noreturn");
            agroups.insert(n, (nr, feats));
        }
    }
    let mut i = 0;
    let mut demangled = String::new();
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("; ") && !l.starts_with("; Function Attrs") {
            demangled = l[2..].to_string();
            i += 1;
            continue;
        }
        if l.starts_with('@') {
            parse_global(prog, &mut m, l, module);
            i += 1;
            continue;
        }
        if l.starts_with("define ") || l.starts_with("declare ") {
            let decl = l.starts_with("declare");
            m.regs.clear();
            m.blocks.clear();
            let mut header = l.to_string();
            let mut j = i + 1;
            let mut body_end = i;
            if !decl {
                while !header.trim_end().ends_with('{') {
                    header.push_str(lines[j]);
                    j += 1;
                }
                let mut k = j;
                while lines[k] != "}" {
                    k += 1;
                }
                body_end = k;
            }
            let mut p = P { t: lex(&header), i: 1, m: &mut m };
            let mut internal = false;
            // linkage etc. until the type
            loop {
                match p.peek() {
                    Some(Tok::W(w)) => {
                        let w = w.clone();
                        if w == "internal" || w == "private" {
                            internal = true;
                            p.i += 1;
                        } else if w == "void"
                            || w == "ptr"
                            || (w.starts_with('i') && w.len() > 1 && w[1..].chars().all(|c| c.is_ascii_digit()))
                            || ["float", "double", "half"].contains(&w.as_str())
                        {
                            break;
                        } else if w == "align" {
                            p.i += 2;
                        } else {
                            p.i += 1;
                            if p.is_p('(') {
                                p.skip_parens()?;
                            }
                        }
                    }
                    _ => break,
                }
            }
            let ret = p.ty();
            let ret = match ret {
                Ok(t) => t,
                Err(_) => {
                    i = if decl { i + 1 } else { body_end + 1 };
                    demangled.clear();
                    continue;
                }
            };
            let name = match p.next()? {
                Tok::G(n) => n,
                t => return Err(format!("function name {:?} in {}", t, header)),
            };
            p.m.sym(&name);
            p.want('(')?;
            let mut params = vec![];
            let mut param_align = vec![];
            if !p.eat_p(')') {
                loop {
                    if p.eat_p('.') || p.is_w("...") {
                        while !p.is_p(')') {
                            p.i += 1;
                        }
                        break;
                    }
                    let t = p.ty()?;
                    let (al, _) = p.attrs()?;
                    let r = match p.peek().cloned() {
                        Some(Tok::L(n)) => {
                            p.i += 1;
                            p.m.reg(&n)
                        }
                        _ => p.m.reg(&format!("{}", params.len())),
                    };
                    params.push((t, r));
                    param_align.push(al);
                    if !p.eat_p(',') {
                        break;
                    }
                }
                p.want(')')?;
            }
            let mut noreturn = false;
            let mut features = vec![];
            while let Some(t) = p.peek().cloned() {
                p.i += 1;
                match t {
                    Tok::A(n) => {
                        if let Some((nr, fe)) = agroups.get(&n) {
                            noreturn |= nr;
                            features = fe.clone();
                        }
                    }
                    Tok::W(w) if w == "noreturn" => noreturn = true,
                    _ => {}
                }
            }
            let mut blocks: Vec<Block> = vec![];
            let mut ninstr = 0;
            let mut text = String::new();
            if !decl {
                // join continuation lines
                let mut body: Vec<String> = vec![];
                let mut k = j;
                while k < body_end {
                    let s = lines[k];
                    k += 1;
                    let tr = s.trim();
                    if tr.is_empty() || tr.starts_with(';') {
                        continue;
                    }
                    if tr.starts_with("to label")
                        || tr == "cleanup"
                        || tr.starts_with("filter ")
                        || tr.starts_with("catch ")
                    {
                        if let Some(x) = body.last_mut() {
                            x.push(' ');
                            x.push_str(tr);
                        }
                        continue;
                    }
                    let mut x = s.to_string();
                    if tr.ends_with('[') {
                        while k < body_end {
                            x.push(' ');
                            x.push_str(lines[k].trim());
                            k += 1;
                            if lines[k - 1].trim().starts_with(']') {
                                break;
                            }
                        }
                    }
                    body.push(x);
                }
                // labels first
                let is_label = |s: &str| -> Option<String> {
                    if s.starts_with(' ') || s.starts_with('\t') {
                        return None;
                    }
                    let s = s.split(';').next().unwrap().trim_end();
                    s.strip_suffix(':').map(|x| x.trim_matches('"').to_string())
                };
                let mut nb = 0;
                for s in &body {
                    if let Some(l) = is_label(s) {
                        m.blocks.insert(l, nb);
                        nb += 1;
                    } else if nb == 0 {
                        // unnamed entry block
                        let n = format!("{}", params.len());
                        m.blocks.insert(n, 0);
                        nb = 1;
                    }
                }
                for s in &body {
                    text.push_str(s.split(", !").next().unwrap_or(s));
                    text.push('\n');
                    if let Some(l) = is_label(s) {
                        blocks.push(Block { name: l, ins: vec![] });
                        continue;
                    }
                    if blocks.is_empty() {
                        blocks.push(Block { name: "entry".into(), ins: vec![] });
                    }
                    let mut t = lex(s);
                    let mut dst = None;
                    if t.len() > 2 && t[1] == Tok::P('=') {
                        if let Tok::L(n) = &t[0] {
                            dst = Some(m.reg(&n.clone()));
                        }
                        t.drain(0..2);
                    }
                    let mut p = P { t, i: 0, m: &mut m };
                    let ii = match p.inst() {
                        Ok(x) => x,
                        Err(e) => Inst::Bad(format!("{}: {}", e, s.trim())),
                    };
                    ninstr += 1;
                    let ii = match ii {
                        Inst::Call(mut c) => {
                            for a in &c.attrs {
                                if let Some((nr, _)) = agroups.get(a) {
                                    c.noreturn |= nr;
                                }
                            }
                            Inst::Call(c)
                        }
                        x => x,
                    };
                    blocks.last_mut().unwrap().ins.push(Ins { dst, i: ii });
                }
            }
            let nregs = m.regs.len() as u32;
            prog.funcs.push(Func {
                name,
                demangled: std::mem::take(&mut demangled),
                module,
                ret,
                params,
                param_align,
                nregs,
                blocks,
                decl,
                internal,
                noreturn,
                features,
                loops: vec![],
                hash: 0,
                ninstr,
                text,
            });
            i = if decl { i + 1 } else { body_end + 1 };
            continue;
        }
        if !l.trim().is_empty() && !l.starts_with("; Function Attrs") {
            demangled.clear();
        }
        i += 1;
    }
    for n in m.sym_list {
        prog.syms.push(SymInfo { name: n, module, to: Target::None });
    }
    Ok(())
}

fn parse_global(prog: &mut Program, m: &mut ModCtx, l: &str, module: u32) {
    let t = lex(l);
    let name = match &t[0] {
        Tok::G(n) => n.clone(),
        _ => return,
    };
    m.sym(&name);
    let mut p = P { t, i: 2, m };
    let (mut internal, mut constant, mut external, mut tls) = (false, false, false, false);
    loop {
        match p.peek().cloned() {
            Some(Tok::W(w)) => match w.as_str() {
                "private" | "internal" => {
                    internal = true;
                    p.i += 1
                }
                "external" | "extern_weak" => {
                    external = true;
                    p.i += 1
                }
                "constant" => {
                    constant = true;
                    p.i += 1;
                    break;
                }
                "global" => {
                    p.i += 1;
                    break;
                }
                "alias" | "ifunc" => return,
                "thread_local" => {
                    tls = true;
                    p.i += 1;
                    if p.is_p('(') {
                        let _ = p.skip_parens();
                    }
                }
                _ => {
                    p.i += 1;
                    if p.is_p('(') {
                        let _ = p.skip_parens();
                    }
                }
            },
            _ => return,
        }
    }
    let ty = match p.ty() {
        Ok(t) => t,
        Err(_) => return,
    };
    let init = if external { None } else { p.op(&ty).ok() };
    let al = p.align_tail(0);
    let al = if al == 0 { p.m.layout.align(&ty) } else { al };
    prog.globals.push(Global {
        name,
        ty,
        init,
        constant,
        internal,
        thread_local: tls,
        align: al | (module as u64) << 32,
        text: l.split(", align").next().unwrap_or(l).to_string(),
    });
}
