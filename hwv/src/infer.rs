//! Loop invariants.
//!
//! A loop whose trip count depends on the unbounded input length gets an inductive invariant: every
//! register and memory byte live at the loop header is constant, affine in the iteration counter, or a byte
//! of the specification's lanes after q0 + M*i packets.  The candidate comes from a few sample iterations;
//! it is then *proved*: it holds on entry (base), and one symbolic iteration from an arbitrary i
//! re-establishes it (step; the packet consumed is the specification's packet number q0 + M*i).  Only then
//! is the loop cut, and execution continues from the invariant at the exits.

use crate::exec::*;
use crate::ir::*;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
enum Tm {
    Const(V),
    /// value at i = 0 and step per cycle
    Aff(T, u128),
    PAff(Ptr, u128),
    /// per byte: a constant byte or (lane, byte)
    Fold(Vec<FB>),
    Arr(Vec<Tm>),
    Dead,
}
#[derive(Clone, Debug)]
enum FB {
    C(T),
    L(u8, u8),
}
#[derive(Clone, Debug)]
enum Ct {
    /// a run of `n` cells written as one integer
    Run(u64, Tm),
    One(Cell),
    Byte(FB),
    Dead,
}

struct Templ {
    regs: Vec<Vec<Tm>>,
    objs: Vec<Option<Vec<Ct>>>,
    gmut: bool,
}

fn run_at(cells: &[Cell], i: usize, t: &Terms, big: bool) -> Option<(u64, T)> {
    if let Cell::B(x, k0) = cells[i] {
        let w = t.w(x);
        if w % 8 != 0 {
            return None;
        }
        let n = (w / 8) as usize;
        if n < 2 || i + n > cells.len() {
            return None;
        }
        let _ = k0;
        for j in 0..n {
            let k = if big { n - 1 - j } else { j };
            if cells[i + j] != Cell::B(x, k as u16) {
                return None;
            }
        }
        return Some((n as u64, x));
    }
    None
}

/// one trip round the loop
fn visit(ex: &mut Exec, s: State, stop: &Stop, n: u32) -> Result<State, String> {
    let mut s = s;
    for _ in 0..n {
        let mut e = ex.run(s, Some(stop));
        if e.len() != 1 {
            return Err(format!("{} paths in one iteration", e.len()));
        }
        let x = e.pop().unwrap();
        match x.out {
            Out::Stopped => s = x.st,
            Out::Ret(_) => return Err("returned".into()),
            Out::Fail(f) => return Err(format!("failure in iteration: {} {}", f.k.name(), f.msg)),
            Out::Unsup(m) => return Err(m),
            Out::Meet => return Err("left the loop".into()),
        }
    }
    Ok(s)
}

fn fb_of(ex: &mut Exec, bs: &[T], qs: &[u32]) -> Option<FB> {
    if bs.iter().all(|b| *b == bs[0]) {
        return Some(FB::C(bs[0]));
    }
    let m = &ex.stream.as_ref()?.bytes.0;
    let mut cand: Option<Vec<(u8, u8)>> = None;
    for (b, q) in bs.iter().zip(qs).skip(1) {
        let l: Vec<(u8, u8)> = m.get(b)?.iter().filter(|x| x.0 == *q).map(|x| (x.1, x.2)).collect();
        cand = Some(match cand {
            None => l,
            Some(c) => c.into_iter().filter(|x| l.contains(x)).collect(),
        });
    }
    let c = cand?;
    if c.is_empty() {
        return None;
    }
    Some(FB::L(c[0].0, c[0].1))
}

fn templ_term(ex: &mut Exec, xs: &[T], qs: &[u32]) -> Tm {
    if xs.iter().all(|x| *x == xs[0]) {
        return Tm::Const(V::I(xs[0]));
    }
    let w = ex.t.w(xs[0]);
    if xs.iter().any(|x| ex.t.w(*x) != w) {
        return Tm::Dead;
    }
    if w <= 64 {
        let d = ex.t.sub(xs[1], xs[0]);
        if let Some(b) = ex.t.is_const(d) {
            if xs.windows(2).all(|p| {
                let e = ex.t.sub(p[1], p[0]);
                e == d
            }) {
                return Tm::Aff(xs[0], b);
            }
        }
    }
    if w % 8 == 0 && w >= 8 {
        let mut r = vec![];
        for k in 0..w / 8 {
            let bs: Vec<T> = xs.iter().map(|x| ex.t.slice(*x, 8 * k, 8)).collect();
            match fb_of(ex, &bs, qs) {
                Some(f) => r.push(f),
                None => return Tm::Dead,
            }
        }
        return Tm::Fold(r);
    }
    Tm::Dead
}

fn templ_val(ex: &mut Exec, vs: &[V], qs: &[u32]) -> Tm {
    if vs.iter().all(|v| *v == vs[0]) {
        return Tm::Const(vs[0].clone());
    }
    match &vs[0] {
        V::I(_) => {
            let mut xs = vec![];
            for v in vs {
                match v {
                    V::I(t) => xs.push(*t),
                    _ => return Tm::Dead,
                }
            }
            templ_term(ex, &xs, qs)
        }
        V::P(p) => {
            let mut xs = vec![];
            for v in vs {
                match v {
                    V::P(q) if q.o == p.o && q.g == p.g => xs.push(q.off),
                    _ => return Tm::Dead,
                }
            }
            match templ_term(ex, &xs, qs) {
                Tm::Aff(_, b) => Tm::PAff(*p, b),
                _ => Tm::Dead,
            }
        }
        V::A(l) => {
            let n = l.len();
            let mut r = vec![];
            for k in 0..n {
                let mut xs = vec![];
                for v in vs {
                    match v {
                        V::A(m) if m.len() == n => xs.push(m[k].clone()),
                        _ => return Tm::Dead,
                    }
                }
                r.push(templ_val(ex, &xs, qs));
            }
            Tm::Arr(r)
        }
        _ => Tm::Dead,
    }
}

/// packets absorbed by the lanes held in a state: the largest q whose lanes are (nearly) all present
fn packets(ex: &mut Exec, s: &State) -> Option<u32> {
    let mut seen: HashMap<(T, u32), ()> = HashMap::new();
    let mut bytes: Vec<T> = vec![];
    for (_, o) in &s.objs {
        for c in &o.cells {
            if let Cell::B(t, k) = c {
                let w = ex.t.w(*t);
                if 8 * *k as u32 + 8 <= w && seen.insert((*t, *k as u32), ()).is_none() {
                    bytes.push(ex.t.slice(*t, 8 * *k as u32, 8));
                }
            }
        }
    }
    for f in &s.frames {
        for v in &f.regs {
            vals(ex, v, &mut bytes);
        }
    }
    let m = &ex.stream.as_ref()?.bytes.0;
    let mut hit: HashMap<u32, u128> = HashMap::new();
    for b in bytes {
        if let Some(l) = m.get(&b) {
            for (q, i, j) in l {
                *hit.entry(*q).or_insert(0) |= 1u128 << (*i as u32 * 8 + *j as u32);
            }
        }
    }
    hit.into_iter().filter(|(_, v)| v.count_ones() >= 100).map(|x| x.0).max()
}
fn vals(ex: &mut Exec, v: &V, out: &mut Vec<T>) {
    match v {
        V::I(t) => {
            let w = ex.t.w(*t);
            if w % 8 == 0 && w >= 64 {
                for k in 0..w / 8 {
                    out.push(ex.t.slice(*t, 8 * k, 8));
                }
            }
        }
        V::A(l) => l.iter().for_each(|x| vals(ex, x, out)),
        _ => {}
    }
}

fn same_shape(a: &State, b: &State) -> Result<(), String> {
    if a.frames.len() != b.frames.len() {
        return Err("frames differ".into());
    }
    for (x, y) in a.frames.iter().zip(&b.frames) {
        if x.f != y.f || x.block != y.block || x.ip != y.ip {
            return Err("control state differs".into());
        }
    }
    if a.objs.len() != b.objs.len() {
        return Err("allocations differ".into());
    }
    for (x, y) in a.objs.iter().zip(&b.objs) {
        if x.0 != y.0 {
            return Err("object identities differ".into());
        }
        if x.1.cells.len() != y.1.cells.len() || x.1.kind != y.1.kind {
            return Err("object shapes differ".into());
        }
    }
    if a.pc != b.pc {
        return Err("path conditions differ".into());
    }
    Ok(())
}

fn fresh(ex: &mut Exec, v: u32, tag: &str, lo: u128, hi: u128) -> T {
    let key = (v, tag.to_string(), lo, hi);
    if let Some(x) = ex.loop_vars.get(&key) {
        return *x;
    }
    let w = {
        let i = &ex.t.vars[v as usize];
        i.w
    };
    let name = format!("{}.{}", ex.t.vars[v as usize].name, tag);
    let x = ex.t.idx_var(&name, w, lo, hi);
    ex.loop_vars.insert(key, x);
    x
}

struct Ctx {
    v: u32,
    vt: T,
    hi: u128,
    lo: u128,
}

pub fn infer(ex: &mut Exec, st: &State, d: usize, l: usize, v: u32) -> Result<Vec<State>, String> {
    let snap = match &st.frames[d].loops[l].snap {
        Some(s) => (**s).clone(),
        None => return Err("no snapshot".into()),
    };
    if snap.gen {
        return Err("loop after a summarised loop".into());
    }
    if ex.stream.is_none() {
        return Err("no stream".into());
    }
    if ex.t.idx_left() < 16 {
        return Err("out of index variables".into());
    }
    let header = st.frames[d].loops[l].header;
    let fid = st.frames[d].f;
    let stop = Stop { depth: d + 1, f: fid, block: header, count: 1 };
    let (lo, hi, vt) = {
        let i = &ex.t.vars[v as usize];
        (i.lo, i.hi, i.term)
    };
    if hi - lo < 1 << 20 {
        return Err("bounded variable".into());
    }
    let mut s0 = snap;
    let n = s0.frames.len();
    if n != d + 1 {
        return Err("snapshot depth".into());
    }
    // loops of this state must not be generalised again
    for f in s0.frames.iter_mut() {
        let mut nf = (**f).clone();
        for x in nf.loops.iter_mut() {
            x.snap = None;
        }
        *f = Rc::new(nf);
    }
    {
        let f = Rc::make_mut(s0.frames.last_mut().unwrap());
        f.loops.push(ALoop { header, snap: None, visits: 0 });
    }
    let cx = Ctx { v, vt, lo, hi };
    ex.probing += 1;
    let r = infer1(ex, s0, &cx, &stop);
    ex.probing -= 1;
    match r {
        Ok(x) => {
            ex.loops_proved += 1;
            Ok(x)
        }
        Err(e) => Err(e),
    }
}

fn infer1(ex: &mut Exec, s0: State, cx: &Ctx, stop: &Stop) -> Result<Vec<State>, String> {
    let np = fresh(ex, cx.v, "probe", cx.lo + 80, cx.hi);
    let start = ex.refine(&s0, cx.v, np);
    let mut samples = vec![start];
    let mut why = String::new();
    let w = ex.ptrw();
    for (p0, per) in [(0u32, 1u32), (1, 1), (0, 2), (0, 4), (0, 8), (0, 16), (0, 32)] {
        let need = (p0 + 3 * per) as usize;
        while samples.len() <= need {
            let s = samples.last().unwrap().clone();
            match visit(ex, s, stop, 1) {
                Ok(x) => samples.push(x),
                Err(e) => return Err(if why.is_empty() { e } else { format!("{}; {}", why, e) }),
            }
        }
        let hs: Vec<State> = (0..4).map(|j| samples[(p0 + j * per) as usize].clone()).collect();
        match try_one(ex, &s0, cx, stop, p0, per, np, &hs, w) {
            Ok(x) => return Ok(x),
            Err(e) => {
                if ex.debug {
                    eprintln!("  p0={} per={}: {}", p0, per, e);
                }
                why = e;
            }
        }
    }
    Err(why)
}

#[allow(clippy::too_many_arguments)]
fn try_one(
    ex: &mut Exec,
    s0: &State,
    cx: &Ctx,
    stop: &Stop,
    p0: u32,
    per: u32,
    np: T,
    hs: &[State],
    w: u32,
) -> Result<Vec<State>, String> {
    for h in &hs[1..] {
        same_shape(&hs[0], h)?;
    }
    let npv = ex.t.var_of(np).unwrap();
    // packets consumed at the samples
    let mut st = ex.stream.take().unwrap();
    let want = 4 + (p0 + 3 * per) as usize;
    st.state(&mut ex.t, w, want.min(64));
    st.index(&mut ex.t);
    ex.stream = Some(st);
    let q: Vec<Option<u32>> = hs.iter().map(|h| packets(ex, h)).collect();
    let (q0, m) = match (q[0], q[1], q[2], q[3]) {
        (Some(a), Some(b), Some(c), Some(d)) if b >= a && c >= b && b - a == c - b && d >= c && d - c == c - b => (a, b - a),
        (None, None, None, None) => (0, 0),
        _ => return Err(format!("packet counts {:?}", q)),
    };
    let qs: Vec<u32> = (0..4).map(|j| q0 + m * j).collect();
    let mstep = if m == 0 { 1 } else { m } as u128;
    // template
    let big = ex.p.lay().big;
    let mut tp = Templ { regs: vec![], objs: vec![], gmut: true };
    for (fi, f) in hs[0].frames.iter().enumerate() {
        let mut l = vec![];
        for r in 0..f.regs.len() {
            let vs: Vec<V> = hs.iter().map(|h| h.frames[fi].regs[r].clone()).collect();
            l.push(templ_val(ex, &vs, &qs));
        }
        tp.regs.push(l);
    }
    for (oi, (_, o)) in hs[0].objs.iter().enumerate() {
        if hs.iter().all(|h| Rc::ptr_eq(&h.objs[oi].1, o) || h.objs[oi].1.cells == o.cells) {
            tp.objs.push(None);
            continue;
        }
        let cs: Vec<Rc<Obj>> = hs.iter().map(|h| h.objs[oi].1.clone()).collect();
        let n = o.cells.len();
        let mut l = vec![];
        let mut i = 0;
        while i < n {
            if cs.iter().all(|c| c.cells[i] == cs[0].cells[i]) {
                l.push(Ct::One(cs[0].cells[i]));
                i += 1;
                continue;
            }
            let runs: Vec<Option<(u64, T)>> = cs.iter().map(|c| run_at(&c.cells, i, &ex.t, big)).collect();
            if let Some((n0, _)) = runs[0] {
                if runs.iter().all(|r| r.map(|x| x.0) == Some(n0)) && n0 <= 8 {
                    let xs: Vec<T> = runs.iter().map(|r| r.unwrap().1).collect();
                    let tm = templ_term(ex, &xs, &qs);
                    if let Tm::Aff(..) = tm {
                        l.push(Ct::Run(n0, tm));
                        i += n0 as usize;
                        continue;
                    }
                }
            }
            if let Cell::P(p, 0) = cs[0].cells[i] {
                let pw = w as usize / 8;
                let mut offs = vec![];
                for c in &cs {
                    if i + pw > n {
                        break;
                    }
                    if let Cell::P(p2, 0) = c.cells[i] {
                        if p2.o == p.o && p2.g == p.g && (0..pw).all(|j| c.cells[i + j] == Cell::P(p2, j as u8)) {
                            offs.push(p2.off);
                        }
                    }
                }
                if offs.len() == 4 {
                    if let Tm::Aff(_, b) = templ_term(ex, &offs, &qs) {
                        l.push(Ct::Run(pw as u64, Tm::PAff(p, b)));
                        i += pw;
                        continue;
                    }
                }
            }
            let mut bs = vec![];
            for c in &cs {
                match c.cells[i] {
                    Cell::B(t, k) => {
                        let x = if ex.t.w(t) % 8 == 0 { ex.t.slice(t, 8 * k as u32, 8) } else { ex.cell_byte(&hs[0], c.cells[i]) };
                        bs.push(x)
                    }
                    _ => break,
                }
            }
            if bs.len() == 4 {
                if let Some(f) = fb_of(ex, &bs, &qs) {
                    l.push(Ct::Byte(f));
                    i += 1;
                    continue;
                }
            }
            l.push(Ct::Dead);
            i += 1;
        }
        tp.objs.push(Some(l));
    }
    for h in &hs[1..] {
        if h.gmut.len() != hs[0].gmut.len() {
            tp.gmut = false;
        }
    }
    if !tp.gmut {
        return Err("shared state changes in the loop".into());
    }
    // the base state, and the small lengths handled separately
    let base_k: u128 = if p0 == 0 { 0 } else { (p0 as u128) * mstep + 2 };
    let nb = if base_k == 0 { cx.vt } else { fresh(ex, cx.v, "base", cx.lo + base_k, cx.hi) };
    let mut base = if base_k == 0 { s0.clone() } else { ex.refine(s0, cx.v, nb) };
    base = visit(ex, base, stop, p0).map_err(|e| format!("base: {}", e))?;
    // Houdini
    let mut dead: Vec<(u32, u32, u32)> = vec![]; // (0,frame,reg) | (1,obj,cell)
    let mut last = String::new();
    'delta: for dl in [mstep, mstep + 1, mstep + 2, 2 * mstep + 2] {
        let imax = cx.hi / mstep;
        let iv = fresh(ex, cx.v, &format!("i{}", mstep), 0, imax);
        let mv = fresh(ex, cx.v, &format!("m{}", dl), dl, cx.hi);
        let sum = {
            let l = vec![(iv, mstep), (mv, 1)];
            ex.t.mk_sum(w, l, 0)
        };
        let (ivid, mvid) = (ex.t.var_of(iv).unwrap(), ex.t.var_of(mv).unwrap());
        ex.t.add_fact(vec![(ivid, mstep as i128), (mvid, 1)], 0, cx.hi as i128);
        for _round in 0..200 {
            let bad0 = match compare(ex, &base, &hs[0], &tp, &dead, npv, nb, q0, m, None, w, true) {
                Ok(b) => b,
                Err(e) => return Err(e),
            };
            if !bad0.is_empty() {
                dead.extend(bad0);
                continue;
            }
            // n = M*i + m with m >= delta
            let g = build(ex, &hs[0], &tp, &dead, npv, sum, q0, m, Some(iv), w);
            let g2 = visit(ex, g, stop, per);
            let g2 = match g2 {
                Ok(x) => x,
                Err(e) => {
                    last = format!("step: {}", e);
                    continue 'delta;
                }
            };
            let bad = compare(ex, &g2, &hs[0], &tp, &dead, npv, sum, q0, m, Some(iv), w, false)?;
            if bad.is_empty() {
                // proved: cut the loop
                let mut out = vec![];
                let one = |ex: &mut Exec, k: u128| {
                    let c = ex.t.con(ex.ptrw(), k);
                    let mut s = ex.refine(s0, cx.v, c);
                    s.splits += 0;
                    s
                };
                for k in 0..base_k {
                    out.push(one(ex, cx.lo + k));
                }
                let first = cx.lo + base_k;
                for e in 0..dl {
                    if e + mstep < dl {
                        // only without any iteration
                        if e >= first && e <= cx.hi {
                            out.push(one(ex, e));
                        }
                        continue;
                    }
                    let imin = if first > e { (first - e + mstep - 1) / mstep } else { 0 };
                    let ie = fresh(ex, cx.v, &format!("i{}", mstep), imin, (cx.hi - e) / mstep);
                    let ne = ex.t.mk_sum(w, vec![(ie, mstep)], e);
                    let mut s = build(ex, &hs[0], &tp, &dead, npv, ne, q0, m, Some(ie), w);
                    Rc::make_mut(&mut s.subs).clear();
                    let mut subs: Vec<(T, T)> = (*s0.subs).clone();
                    let mut sb = Subst::new(&ex.t, &[(cx.vt, ne)]);
                    for x in subs.iter_mut() {
                        x.1 = ex.t.subst(x.1, &mut sb);
                    }
                    subs.push((cx.vt, ne));
                    s.subs = Rc::new(subs);
                    s.gen = true;
                    if m > 0 {
                        s.fold = Some(ex.t.mk_sum(w, vec![(ie, mstep)], q0 as u128));
                    }
                    out.push(s);
                }
                let msg = format!(
                    "{}: loop at block {}: n = {}*i + m, q = {} + {}*i, {} visits per cycle, m >= {}, {} locations dropped",
                    ex.fname(stop.f), stop.block, mstep, q0, m, per, dl, dead.len()
                );
                if !ex.inv_log.contains(&msg) {
                    ex.inv_log.push(msg);
                }
                return Ok(out);
            }
            dead.extend(bad);
        }
        last = "no fixpoint".into();
    }
    Err(last)
}

fn is_dead(dead: &[(u32, u32, u32)], k: (u32, u32, u32)) -> bool {
    dead.contains(&k)
}

/// np := n in a term of the sample
fn re(ex: &mut Exec, x: T, npv: u32, n: T) -> T {
    let nt = ex.t.vars[npv as usize].term;
    if nt == n {
        return x;
    }
    let mut s = Subst::new(&ex.t, &[(nt, n)]);
    ex.t.subst(x, &mut s)
}
fn re_v(ex: &mut Exec, v: &V, npv: u32, n: T) -> V {
    match v {
        V::I(t) => V::I(re(ex, *t, npv, n)),
        V::P(p) => V::P(Ptr { off: re(ex, p.off, npv, n), ..*p }),
        V::A(l) => V::A(Rc::new(l.iter().map(|x| re_v(ex, x, npv, n)).collect())),
        x => x.clone(),
    }
}
fn re_c(ex: &mut Exec, c: Cell, npv: u32, n: T) -> Cell {
    match c {
        Cell::B(t, k) => Cell::B(re(ex, t, npv, n), k),
        Cell::P(p, k) => Cell::P(Ptr { off: re(ex, p.off, npv, n), ..p }, k),
        x => x,
    }
}
/// base + b * (i + add)
fn aff(ex: &mut Exec, x: T, b: u128, i: Option<T>, add: u128) -> T {
    let w = ex.t.w(x);
    let mut r = ex.t.add_c(x, b.wrapping_mul(add) & mask(w));
    if let Some(i) = i {
        let iw = ex.t.w(i);
        let iw_t = if iw == w {
            i
        } else if iw > w {
            ex.t.slice(i, 0, w)
        } else {
            ex.t.zext(i, w)
        };
        let p = ex.t.mk_sum(w, vec![(iw_t, b)], 0);
        r = ex.t.add(r, p);
    }
    r
}
fn inst(ex: &mut Exec, tm: &Tm, npv: u32, n: T, lanes: &[T], i: Option<T>, add: u128) -> V {
    match tm {
        Tm::Const(v) => re_v(ex, v, npv, n),
        Tm::Aff(x, b) => {
            let x = re(ex, *x, npv, n);
            V::I(aff(ex, x, *b, i, add))
        }
        Tm::PAff(p, b) => {
            let x = re(ex, p.off, npv, n);
            V::P(Ptr { off: aff(ex, x, *b, i, add), ..*p })
        }
        Tm::Fold(l) => {
            let bs: Vec<T> = l.iter().map(|f| fold_b(ex, f, npv, n, lanes)).collect();
            V::I(ex.t.concat(&bs))
        }
        Tm::Arr(l) => V::A(Rc::new(l.iter().map(|x| inst(ex, x, npv, n, lanes, i, add)).collect())),
        Tm::Dead => V::D,
    }
}
fn fold_b(ex: &mut Exec, f: &FB, npv: u32, n: T, lanes: &[T]) -> T {
    match f {
        FB::C(x) => re(ex, *x, npv, n),
        FB::L(i, b) => ex.t.slice(lanes[*i as usize], 8 * *b as u32, 8),
    }
}

/// lanes after q0 + m*(i+add) packets (named at i)
fn lanes(ex: &mut Exec, q0: u32, m: u32, i: Option<T>, add: u128, w: u32) -> Vec<T> {
    let mut s = ex.stream.take().unwrap();
    let r = match i {
        None => s.state(&mut ex.t, w, q0 as usize + (m as u128 * add) as usize),
        Some(i) if m > 0 => {
            let f = ex.t.mk_sum(w, vec![(i, m as u128)], q0 as u128);
            let q = ex.t.add_c(f, m as u128 * add);
            s.lanes_at(&mut ex.t, q, Some(f)).unwrap()
        }
        Some(_) => s.state(&mut ex.t, w, q0 as usize),
    };
    ex.stream = Some(s);
    r
}

#[allow(clippy::too_many_arguments)]
fn build(ex: &mut Exec, h: &State, tp: &Templ, dead: &[(u32, u32, u32)], npv: u32, n: T, q0: u32, m: u32, i: Option<T>, w: u32) -> State {
    let ln = lanes(ex, q0, m, i, 0, w);
    let nt = ex.t.vars[npv as usize].term;
    let mut sb = Subst::new(&ex.t, &[(nt, n)]);
    let mut s = ex.subst_state(h, &mut sb);
    for (fi, l) in tp.regs.iter().enumerate() {
        let mut f = (*s.frames[fi]).clone();
        for (r, tm) in l.iter().enumerate() {
            f.regs[r] = if is_dead(dead, (0, fi as u32, r as u32)) { V::D } else { inst(ex, tm, npv, n, &ln, i, 0) };
        }
        s.frames[fi] = Rc::new(f);
    }
    for (oi, o) in tp.objs.iter().enumerate() {
        let l = match o {
            Some(l) => l,
            None => continue,
        };
        let mut ob = (*s.objs[oi].1).clone();
        let mut at = 0;
        for c in l {
            let d = is_dead(dead, (1, oi as u32, at as u32));
            match c {
                Ct::One(c) => {
                    ob.cells[at] = if d { Cell::D } else { re_c(ex, *c, npv, n) };
                    at += 1;
                }
                Ct::Byte(f) => {
                    ob.cells[at] = if d { Cell::D } else { Cell::B(fold_b(ex, f, npv, n, &ln), 0) };
                    at += 1;
                }
                Ct::Dead => {
                    ob.cells[at] = Cell::D;
                    at += 1;
                }
                Ct::Run(k, tm) => {
                    let v = inst(ex, tm, npv, n, &ln, i, 0);
                    for j in 0..*k {
                        ob.cells[at] = if d {
                            Cell::D
                        } else {
                            match v {
                                V::I(t) => Cell::B(t, if ex.p.lay().big { *k - 1 - j } else { j } as u16),
                                V::P(p) => Cell::P(p, j as u8),
                                _ => Cell::D,
                            }
                        };
                        at += 1;
                    }
                }
            }
        }
        s.objs[oi].1 = Rc::new(ob);
    }
    s
}

/// locations where a state differs from the template (at i, or at i+1 for the step)
#[allow(clippy::too_many_arguments)]
fn compare(
    ex: &mut Exec,
    s: &State,
    h: &State,
    tp: &Templ,
    dead: &[(u32, u32, u32)],
    npv: u32,
    n: T,
    q0: u32,
    m: u32,
    i: Option<T>,
    w: u32,
    base: bool,
) -> Result<Vec<(u32, u32, u32)>, String> {
    let add = if base { 0 } else { 1 };
    let ln = lanes(ex, q0, m, i, add, w);
    let mut bad = vec![];
    if s.frames.len() != tp.regs.len() || s.objs.len() != tp.objs.len() {
        return Err("shape differs".into());
    }
    for (fi, l) in tp.regs.iter().enumerate() {
        for (r, tm) in l.iter().enumerate() {
            if matches!(tm, Tm::Dead) || is_dead(dead, (0, fi as u32, r as u32)) {
                continue;
            }
            let e = inst(ex, tm, npv, n, &ln, i, add);
            if !weaker(&e, &s.frames[fi].regs[r]) {
                bad.push((0, fi as u32, r as u32));
            }
        }
    }
    // objects that the template keeps unchanged: compare with the sample's own cells
    for (oi, o) in tp.objs.iter().enumerate() {
        let ob = s.objs[oi].1.clone();
        match o {
            None => {
                // unchanged by the samples: must be unchanged here too
                let k = h.objs[oi].1.clone();
                if Rc::ptr_eq(&k, &ob) {
                    continue;
                }
                for (a, b) in k.cells.iter().zip(&ob.cells) {
                    if a == b {
                        continue;
                    }
                    let e = re_c(ex, *a, npv, n);
                    if !same_cell(ex, s, e, *b) {
                        return Err(format!("object {} changes in the step", ob.name));
                    }
                }
            }
            Some(l) => {
                let mut at = 0usize;
                for c in l {
                    let d = is_dead(dead, (1, oi as u32, at as u32));
                    match c {
                        Ct::Dead => at += 1,
                        Ct::One(c) => {
                            if !d {
                                let e = re_c(ex, *c, npv, n);
                                if !same_cell(ex, s, e, ob.cells[at]) {
                                    bad.push((1, oi as u32, at as u32));
                                }
                            }
                            at += 1;
                        }
                        Ct::Byte(f) => {
                            if !d {
                                let e = fold_b(ex, f, npv, n, &ln);
                                if !same_cell(ex, s, Cell::B(e, 0), ob.cells[at]) {
                                    bad.push((1, oi as u32, at as u32));
                                }
                            }
                            at += 1;
                        }
                        Ct::Run(k, tm) => {
                            if !d {
                                let v = inst(ex, tm, npv, n, &ln, i, add);
                                let mut ok = true;
                                for j in 0..*k {
                                    let e = match v {
                                        V::I(t) => Cell::B(t, if ex.p.lay().big { *k - 1 - j } else { j } as u16),
                                        V::P(p) => Cell::P(p, j as u8),
                                        _ => Cell::D,
                                    };
                                    if !same_cell(ex, s, e, ob.cells[at + j as usize]) {
                                        ok = false;
                                        break;
                                    }
                                }
                                if !ok {
                                    bad.push((1, oi as u32, at as u32));
                                }
                            }
                            at += *k as usize;
                        }
                    }
                }
            }
        }
    }
    Ok(bad)
}
fn same_cell(ex: &mut Exec, s: &State, e: Cell, a: Cell) -> bool {
    if e == a || e == Cell::D {
        return true;
    }
    match (e, a) {
        (Cell::B(..), Cell::B(..)) => {
            let x = ex.cell_byte(s, e);
            let y = ex.cell_byte(s, a);
            x == y
        }
        _ => false,
    }
}
/// the template value `e` covers the actual value `a`
fn weaker(e: &V, a: &V) -> bool {
    match (e, a) {
        (V::D, _) => true,
        (V::A(x), V::A(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| weaker(p, q)),
        _ => e == a,
    }
}
