//! LLVM intrinsics (target-independent and vendor SIMD) and external functions.

use crate::exec::*;
use crate::ir::*;
use crate::term::*;
use std::rc::Rc;

fn unsup<X>(m: String) -> Result<X, Stopx> {
    Err(Stopx::End(Out::Unsup(m)))
}

fn elem(ty: &Ty, lay: &Layout) -> (u32, u32) {
    match ty {
        Ty::Vec(n, e) => (*n, lay.bits(e)),
        t => (1, lay.bits(t)),
    }
}

pub fn call(ex: &mut Exec, st: &mut State, name: &str, c: &Call, args: &[V]) -> Result<V, Stopx> {
    let n = &name[5..];
    let w = ex.ptrw();
    let has = |p: &str| n.starts_with(p);
    if has("lifetime") || has("experimental.noalias") || has("dbg.") || has("donothing") || has("var.annotation") || has("prefetch") || has("assume.seq") {
        return Ok(V::U);
    }
    if has("assume") {
        let t = arg(ex, st, c, args, 0)?;
        ex.require(st, t, FK::Unreachable, "assumption passed to the compiler".into())?;
        return Ok(V::U);
    }
    if has("trap") || has("ubsantrap") {
        return Err(Stopx::End(ex.fail(st, FK::Panic, "trap".into())));
    }
    if has("memcpy") || has("memmove") {
        let k = len(ex, st, c, args, 2)?;
        if k == 0 {
            return Ok(V::U);
        }
        let (d, s) = (ptr(&args[0], ex)?, ptr(&args[1], ex)?);
        let (da, sa) = (c.arg_align(0), c.arg_align(1));
        ex.check_align(st, s, sa, "memcpy source")?;
        ex.check_align(st, d, da, "memcpy destination")?;
        let cells = ex.read_cells(st, s, k)?;
        ex.write_cells(st, d, &cells)?;
        return Ok(V::U);
    }
    if has("memset") {
        let k = len(ex, st, c, args, 2)?;
        if k == 0 {
            return Ok(V::U);
        }
        let d = ptr(&args[0], ex)?;
        let cell = match &args[1] {
            V::I(t) => Cell::B(*t, 0),
            _ => Cell::U,
        };
        ex.write_cells(st, d, &vec![cell; k as usize])?;
        return Ok(V::U);
    }
    if has("is.constant") {
        return Ok(V::I(ex.t.con(1, 0)));
    }
    if has("expect") {
        return Ok(args[0].clone());
    }
    if has("objectsize") {
        return Ok(V::I(ex.t.con(w, mask(w))));
    }
    if has("ptrmask") {
        return unsup("ptrmask".into());
    }
    let lay = ex.p.lay();
    // with.overflow
    if n.contains(".with.overflow") {
        let x = arg(ex, st, c, args, 0)?;
        let y = arg(ex, st, c, args, 1)?;
        let k = ex.t.w(x);
        let (r, ov) = match &n[..4] {
            "uadd" => {
                let r = ex.t.add(x, y);
                let (_, hi) = ex.t.sum_range(&[(x, 1), (y, 1)], 0);
                let ov = if k < 100 && hi < 1i128 << k { ex.t.con(1, 0) } else { ex.t.ult(r, x) };
                (r, ov)
            }
            "usub" => {
                let r = ex.t.sub(x, y);
                (r, ex.t.ult(x, y))
            }
            "sadd" | "ssub" => {
                let sub = &n[..4] == "ssub";
                let r = if sub { ex.t.sub(x, y) } else { ex.t.add(x, y) };
                let (_, xh) = ex.t.range(x);
                let (_, yh) = ex.t.range(y);
                let half = 1u128 << (k - 1);
                let ov = if xh < half && yh < half && (sub || xh + yh < half) {
                    ex.t.con(1, 0)
                } else {
                    let ok = ex.signed_ok(x, y, r, if sub { -1 } else { 1 });
                    ex.t.not(ok)
                };
                (r, ov)
            }
            "umul" | "smul" => {
                let sg = &n[..4] == "smul";
                let r = ex.t.mul(x, y);
                let (_, xh) = ex.t.range(x);
                let (_, yh) = ex.t.range(y);
                let lim = if sg { mask(k - 1) } else { mask(k) };
                let ok = match xh.checked_mul(yh) {
                    Some(p) => p <= lim,
                    None => false,
                };
                let ov = if ok {
                    ex.t.con(1, 0)
                } else if k <= 64 {
                    let (a, b, q) = if sg {
                        (ex.t.sext(x, 2 * k), ex.t.sext(y, 2 * k), ex.t.sext(r, 2 * k))
                    } else {
                        (ex.t.zext(x, 2 * k), ex.t.zext(y, 2 * k), ex.t.zext(r, 2 * k))
                    };
                    let m = ex.t.mul(a, b);
                    let e = ex.t.eq(m, q);
                    ex.t.not(e)
                } else {
                    return unsup("wide multiplication overflow".into());
                };
                (r, ov)
            }
            _ => return unsup(name.into()),
        };
        return Ok(V::A(Rc::new(vec![V::I(r), V::I(ov)])));
    }
    let lanes = |ex: &Exec, i: usize| elem(&c.args[i].0, ex.p.lay());
    let un1 = ["ctpop", "bswap", "bitreverse", "abs", "ctlz", "cttz"];
    for u in un1 {
        if has(u) {
            let x = arg(ex, st, c, args, 0)?;
            let (cnt, ew) = lanes(ex, 0);
            let mut out = vec![];
            for i in 0..cnt {
                let e = ex.t.slice(x, i * ew, ew);
                out.push(match u {
                    "bswap" => {
                        let p: Vec<T> = (0..ew / 8).rev().map(|k| ex.t.slice(e, 8 * k, 8)).collect();
                        ex.t.concat(&p)
                    }
                    "bitreverse" => {
                        let p: Vec<T> = (0..ew).rev().map(|k| ex.t.slice(e, k, 1)).collect();
                        ex.t.concat(&p)
                    }
                    "ctpop" => {
                        if let Some(v) = ex.t.is_const(e) {
                            ex.t.con(ew, v.count_ones() as u128)
                        } else {
                            let mut l = vec![];
                            for k in 0..ew {
                                let b = ex.t.slice(e, k, 1);
                                l.push((ex.t.zext(b, ew), 1));
                            }
                            ex.t.mk_sum(ew, l, 0)
                        }
                    }
                    "abs" => {
                        let s = ex.t.slice(e, ew - 1, 1);
                        let m = ex.t.neg(e);
                        ex.t.ite(s, m, e)
                    }
                    _ => {
                        // count zeros: nested choice
                        let mut r = ex.t.con(ew, ew as u128);
                        for k in 0..ew {
                            let (bit, v) = if u == "ctlz" { (k, ew - 1 - k) } else { (ew - 1 - k, ew - 1 - k) };
                            let b = ex.t.slice(e, bit, 1);
                            let kv = ex.t.con(ew, v as u128);
                            r = ex.t.ite(b, kv, r);
                        }
                        r
                    }
                });
            }
            return Ok(V::I(ex.t.concat(&out)));
        }
    }
    if has("fshl") || has("fshr") {
        let x = arg(ex, st, c, args, 0)?;
        let y = arg(ex, st, c, args, 1)?;
        let z = arg(ex, st, c, args, 2)?;
        let (cnt, ew) = lanes(ex, 0);
        let mut out = vec![];
        for i in 0..cnt {
            let (a, b, k) = (ex.t.slice(x, i * ew, ew), ex.t.slice(y, i * ew, ew), ex.t.slice(z, i * ew, ew));
            let k = match ex.t.is_const(k) {
                Some(k) => (k % ew as u128) as u32,
                None => {
                    if let Some(v) = ex.small_var(k) {
                        return Err(Stopx::Fork(ex.concretise(st, v)));
                    }
                    if a == b && ew.is_power_of_two() {
                        // a rotation by a variable amount
                        let m = ex.t.con(ew, ew as u128 - 1);
                        let kk = ex.t.and(k, m);
                        let nk = ex.t.neg(kk);
                        let nk = ex.t.and(nk, m);
                        let (p, q) = if has("fshl") { (kk, nk) } else { (nk, kk) };
                        let l = ex.t.shl(a, p);
                        let r = ex.t.lshr(a, q);
                        out.push(ex.t.or(l, r));
                        continue;
                    }
                    return unsup("symbolic funnel shift".into());
                }
            };
            // concatenation b (low), a (high)
            let cc = ex.t.concat(&[b, a]);
            let lo = if has("fshl") { ew - k } else { k };
            out.push(ex.t.slice(cc, lo, ew));
        }
        return Ok(V::I(ex.t.concat(&out)));
    }
    for b in ["umin", "umax", "smin", "smax", "usub.sat", "uadd.sat", "sadd.sat", "ssub.sat"] {
        if has(b) {
            let x = arg(ex, st, c, args, 0)?;
            let y = arg(ex, st, c, args, 1)?;
            let (cnt, ew) = lanes(ex, 0);
            let mut out = vec![];
            for i in 0..cnt {
                let (p, q) = (ex.t.slice(x, i * ew, ew), ex.t.slice(y, i * ew, ew));
                out.push(match b {
                    "umin" => {
                        let k = ex.t.ult(p, q);
                        ex.t.ite(k, p, q)
                    }
                    "umax" => {
                        let k = ex.t.ult(p, q);
                        ex.t.ite(k, q, p)
                    }
                    "smin" => {
                        let k = ex.t.slt(p, q);
                        ex.t.ite(k, p, q)
                    }
                    "smax" => {
                        let k = ex.t.slt(p, q);
                        ex.t.ite(k, q, p)
                    }
                    "usub.sat" => {
                        let k = ex.t.ult(p, q);
                        let z = ex.t.con(ew, 0);
                        let d = ex.t.sub(p, q);
                        ex.t.ite(k, z, d)
                    }
                    "uadd.sat" => {
                        let s = ex.t.add(p, q);
                        let k = ex.t.ult(s, p);
                        let m = ex.t.con(ew, mask(ew));
                        ex.t.ite(k, m, s)
                    }
                    _ => return unsup(name.into()),
                });
            }
            return Ok(V::I(ex.t.concat(&out)));
        }
    }
    for b in ["vector.reduce.add", "vector.reduce.and", "vector.reduce.or", "vector.reduce.xor"] {
        if has(b) {
            let x = arg(ex, st, c, args, 0)?;
            let (cnt, ew) = lanes(ex, 0);
            let mut r = ex.t.slice(x, 0, ew);
            for i in 1..cnt {
                let e = ex.t.slice(x, i * ew, ew);
                r = match b {
                    "vector.reduce.add" => ex.t.add(r, e),
                    "vector.reduce.and" => ex.t.and(r, e),
                    "vector.reduce.or" => ex.t.or(r, e),
                    _ => ex.t.xor(r, e),
                };
            }
            return Ok(V::I(r));
        }
    }
    if has("masked.load") {
        let base = ptr(&args[0], ex)?;
        let mi = c.args.len() - 2;
        let m = arg(ex, st, c, args, mi)?;
        let pass = arg(ex, st, c, args, mi + 1)?;
        let (cnt, ew) = match &c.ret {
            Ty::Vec(n, e) => (*n, ex.p.lay().bits(e)),
            _ => return unsup("masked.load".into()),
        };
        let ety = Ty::Int(ew);
        let mut out = vec![];
        for i in 0..cnt {
            let b = ex.t.slice(m, i, 1);
            let on = match ex.t.is_const(b) {
                Some(k) => k == 1,
                None => {
                    if let Some(v) = ex.small_var(b) {
                        return Err(Stopx::Fork(ex.concretise(st, v)));
                    }
                    return unsup("symbolic mask".into());
                }
            };
            out.push(if on {
                let off = ex.t.add_c(base.off, (i * ew / 8) as u128);
                let v = ex.load(st, Ptr { off, ..base }, &ety, 1)?;
                ex.int(v, ew)
            } else {
                ex.t.slice(pass, i * ew, ew)
            });
        }
        return Ok(V::I(ex.t.concat(&out)));
    }
    if has("masked.store") {
        let x = arg(ex, st, c, args, 0)?;
        let base = ptr(&args[1], ex)?;
        let m = arg(ex, st, c, args, c.args.len() - 1)?;
        let (cnt, ew) = lanes(ex, 0);
        let mut on = vec![];
        for i in 0..cnt {
            let b = ex.t.slice(m, i, 1);
            on.push(conc(ex, st, b)? == 1);
        }
        for i in (0..cnt).filter(|i| on[*i as usize]) {
            let off = ex.t.add_c(base.off, (i * ew / 8) as u128);
            let e = ex.t.slice(x, i * ew, ew);
            ex.store(st, Ptr { off, ..base }, &Ty::Int(ew), V::I(e), 1)?;
        }
        return Ok(V::U);
    }
    if has("load.relative") {
        return unsup(name.into());
    }
    if n == "x86.avx.ldu.dq.256" || n == "x86.sse3.ldu.dq" {
        let base = ptr(&args[0], ex)?;
        return ex.load(st, base, &c.ret, 1);
    }
    if has("aarch64.neon.st1x2") {
        let base = ptr(&args[2], ex)?;
        let w = ex.p.lay().bits(&c.args[0].0);
        for i in 0..2 {
            let x = arg(ex, st, c, args, i)?;
            let off = ex.t.add_c(base.off, (i as u32 * w / 8) as u128);
            ex.store(st, Ptr { off, ..base }, &c.args[i].0, V::I(x), 1)?;
        }
        return Ok(V::U);
    }
    if has("aarch64.neon.addp") {
        let x = arg(ex, st, c, args, 0)?;
        let y = arg(ex, st, c, args, 1)?;
        let (cnt, ew) = lanes(ex, 0);
        let xy = ex.t.concat(&[x, y]);
        let mut out = vec![];
        for i in 0..cnt {
            let (p, q) = (ex.t.slice(xy, 2 * i * ew, ew), ex.t.slice(xy, (2 * i + 1) * ew, ew));
            out.push(ex.t.add(p, q));
        }
        return Ok(V::I(ex.t.concat(&out)));
    }
    if has("aarch64.neon.vsli") {
        // the second operand shifted left over the low bits of the first
        let x = arg(ex, st, c, args, 0)?;
        let y = arg(ex, st, c, args, 1)?;
        let k = arg(ex, st, c, args, 2)?;
        let k = conc(ex, st, k)? as u32;
        let (cnt, ew) = lanes(ex, 0);
        if k >= ew {
            return unsup(name.into());
        }
        let mut out = vec![];
        for i in 0..cnt {
            if k > 0 {
                out.push(ex.t.slice(x, i * ew, k));
            }
            out.push(ex.t.slice(y, i * ew, ew - k));
        }
        return Ok(V::I(ex.t.concat(&out)));
    }
    if has("aarch64.neon.tbl2") {
        let (a, b) = (arg(ex, st, c, args, 0)?, arg(ex, st, c, args, 1)?);
        let y = arg(ex, st, c, args, 2)?;
        let tab = ex.t.concat(&[a, b]);
        let mut out = vec![];
        for i in 0..ex.t.w(y) / 8 {
            let m = ex.t.slice(y, 8 * i, 8);
            let k = conc(ex, st, m)? as u32;
            out.push(if k < 32 { ex.t.slice(tab, 8 * k, 8) } else { ex.t.con(8, 0) });
        }
        return Ok(V::I(ex.t.concat(&out)));
    }
    if has("wasm.bitselect") {
        let x = arg(ex, st, c, args, 0)?;
        let y = arg(ex, st, c, args, 1)?;
        let m = arg(ex, st, c, args, 2)?;
        let p = ex.t.and(x, m);
        let nm = ex.t.not(m);
        let q = ex.t.and(y, nm);
        return Ok(V::I(ex.t.or(p, q)));
    }
    if has("wasm.anytrue") || has("wasm.alltrue") {
        let x = arg(ex, st, c, args, 0)?;
        let (cnt, ew) = lanes(ex, 0);
        let all = has("wasm.alltrue");
        let mut r = ex.t.con(1, all as u128);
        for i in 0..cnt {
            let e = ex.t.slice(x, i * ew, ew);
            let z = ex.t.con(ew, 0);
            let z = ex.t.eq(e, z);
            let nz = ex.t.not(z);
            r = if all { ex.t.and(r, nz) } else { ex.t.or(r, nz) };
        }
        return Ok(V::I(ex.t.zext(r, w)));
    }
    // ---- vendor intrinsics
    if has("x86.avx2.permd") {
        let x = arg(ex, st, c, args, 0)?;
        let y = arg(ex, st, c, args, 1)?;
        let mut out = vec![];
        for i in 0..8 {
            let k = ex.t.slice(y, 32 * i, 3);
            let k = conc(ex, st, k)? as u32;
            out.push(ex.t.slice(x, 32 * k, 32));
        }
        return Ok(V::I(ex.t.concat(&out)));
    }
    if has("x86.ssse3.pshuf.b.128") || has("x86.avx2.pshuf.b") || has("aarch64.neon.tbl1.v16i8") || has("wasm.swizzle") || has("aarch64.neon.tbl1.v8i8") {
        let x = arg(ex, st, c, args, 0)?;
        let y = arg(ex, st, c, args, 1)?;
        let x86 = has("x86");
        let nb = ex.t.w(y) / 8;
        let mut out = vec![];
        for i in 0..nb {
            let m = ex.t.slice(y, 8 * i, 8);
            let z = ex.t.con(8, 0);
            match conc(ex, st, m) {
                Ok(k) => {
                    let k = k as u32;
                    if x86 {
                        out.push(if k & 0x80 != 0 { z } else { ex.t.slice(x, 8 * (i / 16 * 16 + (k & 15)), 8) });
                    } else {
                        out.push(if k >= 16 { z } else { ex.t.slice(x, 8 * k, 8) });
                    }
                }
                Err(e) => {
                    if let Stopx::Fork(_) = e {
                        return Err(e);
                    }
                    // data-dependent shuffle
                    let mut r = z;
                    for k in 0..16u32 {
                        let src = ex.t.slice(x, 8 * (if x86 { i / 16 * 16 + k } else { k }), 8);
                        let c0 = if x86 {
                            let lo = ex.t.slice(m, 0, 4);
                            let hi = ex.t.slice(m, 7, 1);
                            let q = ex.t.concat(&[lo, hi]);
                            let kk = ex.t.con(5, k as u128);
                            ex.t.eq(q, kk)
                        } else {
                            let kk = ex.t.con(8, k as u128);
                            ex.t.eq(m, kk)
                        };
                        r = ex.t.ite(c0, src, r);
                    }
                    out.push(r);
                }
            }
        }
        return Ok(V::I(ex.t.concat(&out)));
    }
    // x86 shifts by the low quadword of a vector
    for (p, ew, op) in [
        ("x86.sse2.psll.d", 32, 0),
        ("x86.sse2.psrl.d", 32, 1),
        ("x86.sse2.psll.q", 64, 0),
        ("x86.sse2.psrl.q", 64, 1),
        ("x86.sse2.psll.w", 16, 0),
        ("x86.sse2.psrl.w", 16, 1),
        ("x86.avx2.psll.d", 32, 0),
        ("x86.avx2.psrl.d", 32, 1),
        ("x86.avx2.psll.q", 64, 0),
        ("x86.avx2.psrl.q", 64, 1),
        ("x86.sse2.pslli.d", 32, 0),
        ("x86.sse2.psrli.d", 32, 1),
        ("x86.sse2.pslli.q", 64, 0),
        ("x86.sse2.psrli.q", 64, 1),
        ("x86.avx2.pslli.d", 32, 0),
        ("x86.avx2.psrli.d", 32, 1),
        ("x86.avx2.pslli.q", 64, 0),
        ("x86.avx2.psrli.q", 64, 1),
    ] {
        if n == p {
            let x = arg(ex, st, c, args, 0)?;
            let y = arg(ex, st, c, args, 1)?;
            let yw = ex.t.w(y).min(64);
            let k = ex.t.slice(y, 0, yw);
            let xw = ex.t.w(x);
            let mut out = vec![];
            match conc(ex, st, k) {
                Ok(k) => {
                    for i in 0..xw / ew {
                        let e = ex.t.slice(x, i * ew, ew);
                        out.push(if k >= ew as u128 {
                            ex.t.con(ew, 0)
                        } else if op == 0 {
                            ex.t.shl_c(e, k as u32)
                        } else {
                            ex.t.lshr_c(e, k as u32)
                        });
                    }
                }
                Err(e) => {
                    if let Stopx::Fork(_) = e {
                        return Err(e);
                    }
                    let lim = ex.t.con(yw, ew as u128);
                    let ok = ex.t.ult(k, lim);
                    let kk = if yw >= ew { ex.t.slice(k, 0, ew) } else { ex.t.zext(k, ew) };
                    let z = ex.t.con(ew, 0);
                    for i in 0..xw / ew {
                        let e = ex.t.slice(x, i * ew, ew);
                        let s = if op == 0 { ex.t.shl(e, kk) } else { ex.t.lshr(e, kk) };
                        out.push(ex.t.ite(ok, s, z));
                    }
                }
            }
            return Ok(V::I(ex.t.concat(&out)));
        }
    }
    if has("x86.avx2.psllv") || has("x86.avx2.psrlv") {
        let x = arg(ex, st, c, args, 0)?;
        let y = arg(ex, st, c, args, 1)?;
        let (cnt, ew) = lanes(ex, 0);
        let mut out = vec![];
        for i in 0..cnt {
            let e = ex.t.slice(x, i * ew, ew);
            let k = ex.t.slice(y, i * ew, ew);
            let r = shift(ex, st, e, k, has("x86.avx2.psllv"))?;
            out.push(r);
        }
        return Ok(V::I(ex.t.concat(&out)));
    }
    if has("aarch64.neon.ushl") {
        // shift left by the signed low byte, right when negative
        let x = arg(ex, st, c, args, 0)?;
        let y = arg(ex, st, c, args, 1)?;
        let (cnt, ew) = lanes(ex, 0);
        let mut out = vec![];
        for i in 0..cnt {
            let e = ex.t.slice(x, i * ew, ew);
            let k = ex.t.slice(y, i * ew, 8);
            let k = conc(ex, st, k)?;
            let k = sx(k, 8);
            out.push(if k >= ew as i128 || k <= -(ew as i128) {
                ex.t.con(ew, 0)
            } else if k >= 0 {
                ex.t.shl_c(e, k as u32)
            } else {
                ex.t.lshr_c(e, (-k) as u32)
            });
        }
        return Ok(V::I(ex.t.concat(&out)));
    }
    if has("aarch64.neon.umull") || has("x86.sse2.pmulu.dq") || has("x86.avx2.pmulu.dq") {
        let x = arg(ex, st, c, args, 0)?;
        let y = arg(ex, st, c, args, 1)?;
        let arm = has("aarch64");
        let (cnt, ew) = lanes(ex, 0);
        let mut out = vec![];
        let (n, ow) = if arm { (cnt, 2 * ew) } else { (cnt / 2, 2 * ew) };
        for i in 0..n {
            let at = if arm { i * ew } else { i * 2 * ew };
            let a = ex.t.slice(x, at, ew);
            let b = ex.t.slice(y, at, ew);
            let (a, b) = (ex.t.zext(a, ow), ex.t.zext(b, ow));
            out.push(ex.t.mul(a, b));
        }
        return Ok(V::I(ex.t.concat(&out)));
    }
    let _ = lay;
    unsup(format!("intrinsic {}", name))
}

fn shift(ex: &mut Exec, st: &mut State, e: T, k: T, left: bool) -> Result<T, Stopx> {
    let ew = ex.t.w(e);
    match conc(ex, st, k) {
        Ok(k) => Ok(if k >= ew as u128 {
            ex.t.con(ew, 0)
        } else if left {
            ex.t.shl_c(e, k as u32)
        } else {
            ex.t.lshr_c(e, k as u32)
        }),
        Err(Stopx::Fork(f)) => Err(Stopx::Fork(f)),
        Err(_) => {
            let lim = ex.t.con(ew, ew as u128);
            let ok = ex.t.ult(k, lim);
            let s = if left { ex.t.shl(e, k) } else { ex.t.lshr(e, k) };
            let z = ex.t.con(ew, 0);
            Ok(ex.t.ite(ok, s, z))
        }
    }
}

/// concrete value, splitting a small index variable when there is one
fn conc(ex: &mut Exec, st: &mut State, t: T) -> Result<u128, Stopx> {
    if let Some(k) = ex.t.is_const(t) {
        return Ok(k);
    }
    if let Some(v) = ex.small_var(t) {
        return Err(Stopx::Fork(ex.concretise(st, v)));
    }
    unsup("symbolic control operand".into())
}

fn len(ex: &mut Exec, st: &mut State, c: &Call, args: &[V], i: usize) -> Result<u64, Stopx> {
    let t = arg(ex, st, c, args, i)?;
    if let Some(k) = ex.t.is_const(t) {
        return Ok(k as u64);
    }
    if let Some(v) = ex.small_var(t) {
        return Err(Stopx::Fork(ex.concretise(st, v)));
    }
    ex.enumerate(st, t)
}

fn ptr(v: &V, _ex: &Exec) -> Result<Ptr, Stopx> {
    match v {
        V::P(p) => Ok(*p),
        _ => unsup("pointer argument".into()),
    }
}
fn arg(ex: &mut Exec, st: &State, c: &Call, args: &[V], i: usize) -> Result<T, Stopx> {
    let w = ex.p.lay().bits(&c.args[i].0);
    Ok(ex.vint(st, args[i].clone(), w)?)
}

// ------------------------------------------------------------------ external functions

/// functions of the standard library that are assumed to be pure or harmless
fn known(n: &str) -> bool {
    n.contains("4core3fmt") || n.contains("core::fmt")
}

pub fn external(
    ex: &mut Exec,
    st: &mut State,
    fi: u32,
    dst: Option<u32>,
    c: &Call,
    args: &[V],
    stop: Option<&Stop>,
    visits: &mut u32,
) -> Result<Flow, Stopx> {
    let p = ex.p;
    let name = p.funcs[fi as usize].name.clone();
    let w = ex.ptrw();
    match name.as_str() {
        "memcpy" | "memmove" => {
            let k = len(ex, st, c, args, 2)?;
            if k > 0 {
                let (d, s) = (ptr(&args[0], ex)?, ptr(&args[1], ex)?);
                let cells = ex.read_cells(st, s, k)?;
                ex.write_cells(st, d, &cells)?;
            }
            return ex.finish_call(st, dst, c, args[0].clone(), stop, visits);
        }
        "memcmp" | "bcmp" => {
            let k = len(ex, st, c, args, 2)?;
            let (a, b) = (ptr(&args[0], ex)?, ptr(&args[1], ex)?);
            let x = ex.read_cells(st, a, k)?;
            let y = ex.read_cells(st, b, k)?;
            // zero iff equal; otherwise some nonzero value
            let mut all = ex.t.con(1, 1);
            let mut ord = ex.t.con(32, 0);
            for i in (0..k as usize).rev() {
                let (p, q) = (ex.cell_byte(st, x[i]), ex.cell_byte(st, y[i]));
                let e = ex.t.eq(p, q);
                let l = ex.t.ult(p, q);
                let (m, o) = (ex.t.con(32, mask(32)), ex.t.con(32, 1));
                let d = ex.t.ite(l, m, o);
                ord = ex.t.ite(e, ord, d);
                all = ex.t.and(all, e);
            }
            return ex.finish_call(st, dst, c, V::I(ord), stop, visits);
        }
        _ => {}
    }
    if known(&name) {
        *ex.externs.entry(short_mangled(&name)).or_insert(0) += 1;
        // A formatting routine: it may call back every Debug/Display implementation it is handed.
        let mut todo: Vec<(Ptr, u32)> = vec![];
        let mut fmt: Option<Ptr> = None;
        for a in args {
            if let V::P(q) = a {
                if q.o & (FBASE | GBASE) == 0 && q.o != NULLO {
                    if let Some((_, ob)) = st.objs.get(q.o as usize) {
                        if let Kind::Opaque = ob.kind {
                            fmt.get_or_insert(*q);
                        }
                    }
                }
            }
        }
        let ptrs: Vec<Option<Ptr>> = args
            .iter()
            .map(|a| match a {
                V::P(q) => Some(*q),
                _ => None,
            })
            .collect();
        pairs(ex, &ptrs, &mut todo)?;
        for q in ptrs.iter().flatten() {
            if q.o == NULLO || q.o & (FBASE | GBASE) != 0 {
                continue;
            }
            if let Some((g, ob)) = st.objs.get(q.o as usize) {
                if *g == q.g && !matches!(ob.kind, Kind::Opaque | Kind::Data(..) | Kind::Arg) {
                    let n = (w / 8) as usize;
                    let ob = ob.clone();
                    let cells: Vec<Option<Ptr>> = (0..ob.cells.len() / n)
                        .map(|i| match ob.cells[i * n] {
                            Cell::P(p, 0) => Some(p),
                            _ => None,
                        })
                        .collect();
                    pairs(ex, &cells, &mut todo)?;
                }
            }
        }
        let f = match fmt {
            Some(f) => f,
            None => ex.new_obj(
                st,
                Obj { kind: Kind::Opaque, size: 64, align: 16, ro: false, cells: vec![], name: "formatter".into() },
            ),
        };
        // result first: it is overwritten by nothing afterwards
        let rv = match &c.ret {
            Ty::Void => V::U,
            // a Result, or one of the formatter's options: either way any value
            Ty::Int(1) => {
                ex.nresults += 1;
                let n = ex.nresults;
                V::I(ex.t.var(&format!("fmt_answer{}", n), 1))
            }
            Ty::Ptr => args.first().cloned().unwrap_or(V::U),
            _ => V::U,
        };
        // an out-parameter (DebugStruct, DebugList): make it opaque
        if let Some(Some(q)) = ptrs.first() {
            if matches!(c.ret, Ty::Void) && q.o & (FBASE | GBASE) == 0 {
                if let Some(slot) = st.objs.get_mut(q.o as usize) {
                    if slot.0 == q.g && matches!(slot.1.kind, Kind::Stack) {
                        let o = Rc::make_mut(&mut slot.1);
                        o.kind = Kind::Opaque;
                        o.size = o.size.max(4096);
                    }
                }
            }
        }
        for (d, fun) in todo {
            ex.callbacks += 1;
            if ex.p.funcs[fun as usize].decl || crate::exec::core_fmt(&ex.p.funcs[fun as usize].name) {
                *ex.externs.entry(short_mangled(&ex.p.funcs[fun as usize].name)).or_insert(0) += 1;
                continue;
            }
            ex.callback(st, fun, vec![V::P(d), V::P(f)])?;
        }
        return ex.finish_call(st, dst, c, rv, stop, visits);
    }
    unsup(format!("external function {}", name))
}

fn short_mangled(n: &str) -> String {
    let mut s = String::new();
    // keep the identifiers of a v0-mangled path
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_alphanumeric() || b[i - 1].is_ascii_alphabetic()) {
            let mut k = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 2 && j + k <= b.len() && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                if !s.is_empty() {
                    s.push_str("::");
                }
                s.push_str(&n[j..j + k]);
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    if s.is_empty() {
        n.to_string()
    } else {
        s
    }
}

/// (data, function) and (data, vtable) pairs among consecutive pointers
fn pairs(ex: &mut Exec, l: &[Option<Ptr>], out: &mut Vec<(Ptr, u32)>) -> Result<(), Stopx> {
    let n = (ex.ptrw() / 8) as u64;
    for i in 1..l.len() {
        let (d, v) = match (l[i - 1], l[i]) {
            (Some(d), Some(v)) => (d, v),
            _ => continue,
        };
        if d.o & FBASE != 0 && d.o != NULLO {
            continue;
        }
        if v.o != NULLO && v.o & FBASE != 0 {
            out.push((d, v.o & !FBASE));
        } else if v.o != NULLO && v.o & GBASE != 0 {
            // drop, size, align, methods...
            let cells = ex.global_cells(v.o & !GBASE)?;
            let k = (3 * n) as usize;
            if cells.len() >= k + n as usize {
                if let Cell::P(p, 0) = cells[k] {
                    if p.o != NULLO && p.o & FBASE != 0 {
                        out.push((d, p.o & !FBASE));
                    }
                }
            }
        }
    }
    Ok(())
}
