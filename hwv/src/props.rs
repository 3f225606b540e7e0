//! Which contracts decide which property.

use crate::contract::*;
use crate::drive::*;

pub const WIDTHS: [u32; 3] = [64, 128, 256];
pub const INTS: [(&str, u32, bool); 12] = [
    ("u8", 8, false),
    ("u16", 16, false),
    ("u32", 32, false),
    ("u64", 64, false),
    ("u128", 128, false),
    ("usize", 0, false),
    ("i8", 8, true),
    ("i16", 16, true),
    ("i32", 32, true),
    ("i64", 64, true),
    ("i128", 128, true),
    ("isize", 0, true),
];

pub fn append() -> Vec<Op_> {
    let mut v = vec![];
    for k in 0..32 {
        v.push(Op_::Append(k, Data::Short));
        v.push(Op_::Append(k, Data::Long));
    }
    v
}
pub fn fin() -> Vec<Op_> {
    let mut v = vec![];
    for k in 0..32 {
        for w in WIDTHS {
            v.push(Op_::Fin(k, w));
        }
    }
    v
}
pub fn restore() -> Vec<Op_> {
    let mut v: Vec<Op_> = (0..32).map(Op_::Restore).collect();
    v.push(Op_::RestoreBig);
    v
}
/// the operations every other contract rests on
pub fn base() -> Vec<Op_> {
    let mut v = vec![Op_::New, Op_::Default];
    v.extend(restore());
    v.extend(opt());
    v.extend(append());
    v.extend(fin());
    v
}
pub fn hash() -> Vec<Op_> {
    let mut v = vec![];
    for k in 0..32 {
        for w in WIDTHS {
            v.push(Op_::Hash(k, w, Data::Short));
            v.push(Op_::Hash(k, w, Data::Long));
        }
    }
    v
}
pub fn checkpoint() -> Vec<Op_> {
    (0..32).map(Op_::Checkpoint).collect()
}
pub fn clones() -> Vec<Op_> {
    let mut v: Vec<Op_> = (0..32).map(Op_::Clone).collect();
    for k in 0..32 {
        v.push(Op_::CloneFrom(k, 32));
    }
    v
}
pub fn finish() -> Vec<Op_> {
    (0..32).map(Op_::Finish).collect()
}
pub fn debug() -> Vec<Op_> {
    (0..32).map(Op_::Debug).collect()
}
pub fn drops() -> Vec<Op_> {
    (0..32).map(Op_::Drop).collect()
}
pub fn hwrite() -> Vec<Op_> {
    let mut v = vec![];
    for k in 0..32 {
        for d in [Data::Short, Data::Long] {
            v.push(Op_::Hwrite(k, d.clone()));
        }
    }
    v
}
pub fn ints() -> Vec<Op_> {
    let mut v = vec![];
    for k in 0..32 {
        for (t, b, s) in INTS {
            v.push(Op_::WriteInt(k, t, b, s));
        }
    }
    v
}
pub fn io() -> Vec<Op_> {
    let mut v = vec![];
    for k in 0..32 {
        for d in [Data::Short, Data::Long] {
            v.push(Op_::IoWrite(k, d.clone()));
            v.push(Op_::IoWriteAll(k, d.clone()));
        }
        v.push(Op_::IoFlush(k));
    }
    v.extend(vectored());
    v
}
/// bounded: buffers of these lengths only (their contents are arbitrary)
pub fn vectored() -> Vec<Op_> {
    let mut v = vec![];
    for k in [0, 7, 31] {
        for l in [&[][..], &[0], &[5], &[40], &[0, 6], &[3, 4], &[20, 21], &[33, 0], &[1, 1, 1], &[9, 0, 9], &[32, 32, 5]] {
            v.push(Op_::IoVec(k, l.to_vec()));
        }
    }
    v
}
pub fn opt() -> Vec<Op_> {
    let mut v = vec![Op_::OptNew, Op_::OptRestoreBig];
    v.extend((0..32).map(Op_::OptRestore));
    v
}
pub fn builder() -> Vec<Op_> {
    let mut v = vec![Op_::BNew, Op_::BDefault, Op_::BBuild, Op_::BDebug, Op_::KeyDefault, Op_::BHash(None)];
    // bounded: values of these lengths
    v.extend([0, 3, 24, 40].map(|n| Op_::BHash(Some(n))));
    v
}

/// is the operation part of the hasher's interface in this configuration?
fn exists(pre: &str, std: bool, op: &Op_) -> bool {
    match op {
        Op_::IoWrite(..) | Op_::IoWriteAll(..) | Op_::IoFlush(..) | Op_::IoVec(..) => std && pre != "n_",
        Op_::Finish(_) | Op_::Hwrite(..) | Op_::WriteInt(..) => pre != "n_",
        Op_::OptNew | Op_::OptRestore(_) | Op_::OptRestoreBig => pre == "s_" || pre == "a_",
        Op_::BNew | Op_::BDefault | Op_::BBuild | Op_::BDebug | Op_::BHash(_) | Op_::KeyDefault => pre == "h_",
        _ => true,
    }
}

fn conf(target: &'static str, std: bool, da: bool, feats: &'static str) -> Conf {
    Conf { target, std, da, feats, native: false }
}
const X86_FEATS: [&str; 24] = [
    "sse3", "ssse3", "sse4.2", "sse4a", "avx", "avx512f", "avx512bw", "avx512vl", "avx512dq", "avx512ifma", "avx512vbmi", "bmi1",
    "bmi2", "fma", "f16c", "aes", "pclmulqdq", "popcnt", "lzcnt", "sha", "adx", "vaes", "gfni", "movbe",
];
const ARM_FEATS: [&str; 9] = ["aes", "sha2", "sha3", "crc", "lse", "dotprod", "rdm", "fp16", "sve"];
const WASM_FEATS: [&str; 4] = ["relaxed-simd", "bulk-memory", "sign-ext", "nontrapping-fptoint"];
/// further features the source makes compile-time decisions on
fn asked(known: &[&str]) -> Vec<String> {
    fn walk(d: &std::path::Path, out: &mut String) {
        if let Ok(r) = std::fs::read_dir(d) {
            for e in r.flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(&p, out);
                } else if p.extension().map_or(false, |x| x == "rs") {
                    *out += &std::fs::read_to_string(&p).unwrap_or_default();
                }
            }
        }
    }
    let mut t = String::new();
    walk(&repo().join("src"), &mut t);
    let t: String = t.split_whitespace().collect();
    let mut v: Vec<String> = vec![];
    for x in t.split("target_feature=\"").skip(1) {
        let f = x.split('"').next().unwrap_or("").to_string();
        if known.contains(&&f[..]) && !v.contains(&f) && v.len() < 4 {
            v.push(f);
        }
    }
    v
}
fn plus(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
/// does the feature imply the other one?
fn implies(feats: &str, base: &str) -> bool {
    feats.split(',').any(|f| {
        let avx2 = f.starts_with("+avx512") || f == "+avx2" || f == "+vaes";
        let sse = avx2 || matches!(f, "+sse4.1" | "+sse4.2" | "+avx" | "+f16c" | "+fma");
        if base == "avx2" {
            avx2
        } else {
            sse
        }
    })
}
pub fn x86_confs(all: bool) -> Vec<Conf> {
    let mut v = vec![];
    let more = if all { asked(&X86_FEATS) } else { vec![] };
    for std in [true, false] {
        for f in &more {
            v.push(conf(X86, std, true, plus(format!("+{}", f))));
        }
        for da in [true, false] {
            v.push(conf(X86, std, da, ""));
            if all {
                v.push(conf(X86, std, da, "+sse4.1"));
                v.push(conf(X86, std, da, "+sse4.1,-avx2"));
                v.push(conf(X86, std, da, "+avx2"));
                v.push(conf(X86, std, da, "+sse4.1,+avx2"));
                v.push(Conf { target: X86, std, da, feats: "", native: true });
            }
        }
    }
    v
}
fn four(target: &'static str, feats: &'static str) -> Vec<Conf> {
    let mut v = vec![];
    for std in [true, false] {
        for da in [true, false] {
            v.push(conf(target, std, da, feats));
        }
    }
    v
}

struct B {
    v: Vec<Unit>,
}
impl B {
    fn add(&mut self, c: &Conf, level: Level, pre: &'static str, ops: &[Op_]) {
        let ops: Vec<Op_> = ops.iter().filter(|o| exists(pre, c.std, o)).cloned().collect();
        // one unit per (configuration, level, type)
        for u in &mut self.v {
            if u.conf == *c && u.level == level && u.pre == pre {
                u.ops.extend(ops);
                return;
            }
        }
        self.v.push(Unit { conf: c.clone(), level, pre, ops });
    }
    /// the x86 hashers: explicit SIMD types at their own level, the dispatcher at every level
    fn x86(&mut self, confs: &[Conf], pres: &[&'static str], ops: &[Op_]) {
        let b = base();
        for c in confs {
            let has = |f: &str| c.native || implies(c.feats, f);
            let levels: Vec<Level> = LEVELS
                .into_iter()
                .filter(|l| {
                    !(c.native && *l < Level::Avx) && !(has("avx2") && *l < Level::Avx) && !(has("sse4.1") && *l < Level::Sse)
                })
                .collect();
            let top = *levels.iter().filter(|l| !l.extra()).last().unwrap();
            for p in pres {
                match *p {
                    "p_" => self.add(c, top, "p_", &[&b[..], ops].concat()),
                    "s_" => {
                        self.add(c, *levels.iter().find(|l| **l >= Level::Sse).unwrap(), "s_", &[&b[..], ops].concat());
                        for l in &levels {
                            self.add(c, *l, "s_", &opt());
                        }
                    }
                    "a_" => {
                        self.add(c, Level::Avx, "a_", &[&b[..], ops].concat());
                        for l in &levels {
                            self.add(c, *l, "a_", &opt());
                        }
                    }
                    "h_" => {
                        for l in &levels {
                            // the contracts of the types it dispatches to
                            self.add(c, *l, "p_", &b);
                            if *l >= Level::Sse {
                                self.add(c, *l, "s_", &b);
                            }
                            if *l >= Level::Avx {
                                self.add(c, *l, "a_", &b);
                            }
                            self.add(c, *l, "h_", &[&b[..], ops].concat());
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    fn arm(&mut self, confs: &[Conf], pres: &[&'static str], ops: &[Op_]) {
        let b = base();
        for c in confs {
            for p in pres {
                if *p == "h_" {
                    self.add(c, Level::None, "n_", &b);
                }
                self.add(c, Level::None, p, &[&b[..], ops].concat());
            }
        }
    }
    fn wasm(&mut self, confs: &[Conf], pres: &[&'static str], ops: &[Op_]) {
        let b = base();
        for c in confs {
            for p in pres {
                if *p == "h_" {
                    self.add(c, Level::None, if c.feats.contains("+simd128") { "w_" } else { "p_" }, &b);
                }
                self.add(c, Level::None, p, &[&b[..], ops].concat());
            }
        }
    }
    fn plain(&mut self, confs: &[Conf], pres: &[&'static str], ops: &[Op_]) {
        let b = base();
        for c in confs {
            for p in pres {
                if *p == "h_" {
                    self.add(c, Level::None, "p_", &b);
                }
                self.add(c, Level::None, p, &[&b[..], ops].concat());
            }
        }
    }
    /// every hasher type on every target
    fn everything(&mut self, ops: &[Op_], thorough: bool) {
        self.x86(&x86_confs(thorough), &["p_", "s_", "a_", "h_"], ops);
        self.arm(&four(ARM, ""), &["p_", "n_", "h_"], ops);
        self.wasm(&four(WASM, "+simd128"), &["p_", "w_", "h_"], ops);
        self.wasm(&four(WASM, ""), &["p_", "h_"], ops);
        self.plain(&four(I686, ""), &["p_", "h_"], ops);
        self.plain(&[conf(PPC, false, true, ""), conf(PPC, false, false, ""), conf(S390, false, true, ""), conf(S390, false, false, "")], &["p_", "h_"], ops);
    }
}

pub fn all_ops() -> Vec<Op_> {
    [
        base(),
        hash(),
        checkpoint(),
        clones(),
        finish(),
        debug(),
        drops(),
        hwrite(),
        ints(),
        io(),
        opt(),
        builder(),
    ]
    .concat()
}

pub fn units(prop: &str, thorough: bool) -> Vec<Unit> {
    let mut b = B { v: vec![] };
    let t = thorough;
    match prop {
        "C01" => b.x86(&x86_confs(t), &["p_"], &hash()),
        "C02" => b.x86(&x86_confs(true), &["p_", "s_", "a_", "h_"], &hash()),
        "C03" => {
            let ops = [hash(), checkpoint()].concat();
            b.arm(&four(ARM, ""), &["p_", "n_", "h_"], &ops);
            for f in asked(&ARM_FEATS) {
                b.arm(&[conf(ARM, true, true, plus(format!("+{}", f)))], &["p_", "n_", "h_"], &ops);
            }
        }
        "C04" => {
            let ops = [hash(), checkpoint()].concat();
            b.wasm(&four(WASM, "+simd128"), &["p_", "w_", "h_"], &ops);
            for f in asked(&WASM_FEATS) {
                b.wasm(&[conf(WASM, true, true, plus(format!("+simd128,+{}", f)))], &["p_", "w_", "h_"], &ops);
            }
        }
        "C05" => b.everything(&[hash(), hwrite(), io()].concat(), t),
        "C06" => b.everything(&checkpoint(), t),
        "C07" => b.everything(&[builder()].concat(), true),
        "C08" => b.everything(&all_ops(), t),
        "C09" => b.everything(&all_ops(), t),
        "C10" => {
            let ops = [opt(), clones(), builder()].concat();
            b.x86(&x86_confs(true), &["p_", "s_", "a_", "h_"], &ops);
            b.arm(&four(ARM, ""), &["p_", "n_", "h_"], &ops);
            b.wasm(&four(WASM, "+simd128"), &["p_", "w_", "h_"], &ops);
            b.wasm(&four(WASM, ""), &["p_", "h_"], &ops);
            b.plain(&four(I686, ""), &["p_", "h_"], &ops);
        }
        "C11" => b.everything(&[checkpoint(), opt()].concat(), t),
        "C12" => b.everything(&[finish(), hwrite(), ints(), io(), builder()].concat(), t),
        "C13" => b.everything(&[checkpoint(), finish(), clones(), debug(), drops()].concat(), t),
        "C14" => b.everything(&checkpoint(), t),
        "C15" => b.everything(&all_ops(), t),
        "C17" => {
            let ops = [hash(), checkpoint()].concat();
            b.x86(&x86_confs(false), &["p_"], &ops);
            b.plain(&four(I686, ""), &["p_"], &ops);
            b.plain(&[conf(PPC, false, true, ""), conf(PPC, false, false, ""), conf(S390, false, true, ""), conf(S390, false, false, "")], &["p_"], &ops);
            b.wasm(&four(WASM, ""), &["p_"], &ops);
            b.arm(&four(ARM, ""), &["p_"], &ops);
        }
        "C18" => b.everything(&all_ops(), t),
        _ => {}
    }
    b.v
}

/// what a property's argument assumes beyond the trusted base
pub fn assumptions(prop: &str) -> Vec<&'static str> {
    match prop {
        "C10" => vec!["the feature level of a leg stands for every CPU with at least those features"],
        _ => vec![],
    }
}
