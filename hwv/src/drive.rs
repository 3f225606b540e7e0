//! Builds the configurations, generates the jobs a property needs and runs them.

use crate::contract::*;
use crate::ir::*;
use crate::term::{over, since_start, LIMIT, STOP_AT};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const TOOLCHAIN: &str = "+1.99.1";
pub const X86: &str = "x86_64-unknown-linux-gnu";
pub const ARM: &str = "aarch64-unknown-linux-gnu";
pub const I686: &str = "i686-unknown-linux-gnu";
pub const WASM: &str = "wasm32-unknown-unknown";
pub const PPC: &str = "powerpc-unknown-linux-gnu";
pub const S390: &str = "s390x-unknown-linux-gnu";

/// One way of compiling the crate.
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Conf {
    pub target: &'static str,
    pub std: bool,
    /// debug assertions and overflow checks
    pub da: bool,
    pub feats: &'static str,
    pub native: bool,
}
impl Conf {
    pub fn name(&self) -> String {
        let mut s = format!(
            "{}/{}/{}",
            self.target.split('-').next().unwrap(),
            if self.std { "std" } else { "no_std" },
            if self.da { "checks" } else { "nochecks" }
        );
        if !self.feats.is_empty() {
            s += &format!("/{}", self.feats);
        }
        if self.native {
            s += "/native";
        }
        s
    }
    pub fn flags(&self) -> Vec<String> {
        let mut v: Vec<String> = vec!["--target".into(), self.target.into()];
        if !self.feats.is_empty() {
            v.push("-C".into());
            v.push(format!("target-feature={}", self.feats));
        }
        if self.native {
            v.push("-C".into());
            v.push("target-cpu=native".into());
        }
        v
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Level {
    None,
    /// every feature the code asks about that a CPU without SSE4.1 can have
    NoneX,
    Sse,
    SseX,
    Avx,
    AvxX,
}
pub const LEVELS: [Level; 6] = [Level::None, Level::NoneX, Level::Sse, Level::SseX, Level::Avx, Level::AvxX];
impl Level {
    pub fn name(self) -> &'static str {
        match self {
            Level::None => "no SIMD",
            Level::NoneX => "no SSE4.1, all else",
            Level::Sse => "SSE4.1",
            Level::SseX => "SSE4.1, no AVX2, all else",
            Level::Avx => "AVX2",
            Level::AvxX => "AVX2 and all else",
        }
    }
    pub fn plain(self) -> Level {
        match self {
            Level::None | Level::NoneX => Level::None,
            Level::Sse | Level::SseX => Level::Sse,
            Level::Avx | Level::AvxX => Level::Avx,
        }
    }
    pub fn extra(self) -> bool {
        self != self.plain()
    }
    /// may a CPU of this class have the feature (name as in std_detect)?
    fn may(self, f: &str) -> bool {
        let avx2 = f.starts_with("avx512") || f.starts_with("avx10") || (f.starts_with("avx") && f != "avx") || f == "vaes" || f == "vpclmulqdq";
        let sse41 = avx2 || matches!(f, "sse4_1" | "sse4_2" | "avx" | "f16c" | "fma" | "fma4" | "xop");
        match self.plain() {
            Level::None => !sse41,
            Level::Sse => !avx2,
            _ => true,
        }
    }
}
/// does the type's code run on CPUs of this class (otherwise only its safe constructors, which must refuse)?
fn runs_at(pre: &str, l: Level) -> bool {
    match pre {
        "s_" => l >= Level::Sse,
        "a_" => l >= Level::Avx,
        _ => true,
    }
}
/// the CPU features the code asks about
fn queries(p: &Program) -> HashSet<String> {
    p.funcs
        .iter()
        .filter_map(|f| {
            let n = if f.demangled.is_empty() { &f.name } else { &f.demangled };
            if n.contains("__is_feature_detected") {
                n.rsplit("::").next().map(|x| x.to_string())
            } else {
                None
            }
        })
        .collect()
}

/// One hasher type in one configuration on one class of CPU, with the operations to verify.
#[derive(Clone, Debug)]
pub struct Unit {
    pub conf: Conf,
    pub level: Level,
    pub pre: &'static str,
    pub ops: Vec<Op_>,
}
impl Unit {
    pub fn name(&self) -> String {
        format!("{}@{}@{}", tyname(self.pre), self.conf.name(), self.level.name())
    }
}
pub fn tyname(p: &str) -> &'static str {
    match p {
        "p_" => "PortableHash",
        "s_" => "SseHash",
        "a_" => "AvxHash",
        "h_" => "HighwayHasher",
        "n_" => "NeonHash",
        "w_" => "WasmHash",
        _ => "?",
    }
}

pub struct Built {
    pub prog: Arc<Program>,
    pub base: HashSet<String>,
}

pub fn sh(c: &mut Command) -> Result<String, String> {
    let o = c.output().map_err(|e| format!("{:?}: {}", c, e))?;
    if o.status.success() {
        Ok(String::from_utf8_lossy(&o.stdout).into())
    } else {
        let e = String::from_utf8_lossy(&o.stderr);
        let e: String = e.lines().filter(|l| !l.trim().is_empty()).take(60).collect::<Vec<_>>().join("\n");
        Err(format!("{:?} failed:\n{}", c, e))
    }
}
pub fn rustc(tool: &str) -> Command {
    let mut c = Command::new("rustc");
    c.arg(tool).env("RUSTC_BOOTSTRAP", "1").env_remove("RUSTFLAGS");
    c
}
pub fn verif() -> PathBuf {
    std::env::var("HWV_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
pub fn repo() -> PathBuf {
    std::env::var("HWV_REPO").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/repo"))
}
/// edition named in the crate's manifest
pub fn edition() -> String {
    let t = std::fs::read_to_string(repo().join("Cargo.toml")).unwrap_or_default();
    for l in t.lines() {
        if let Some(r) = l.trim().strip_prefix("edition") {
            let e: String = r.chars().filter(|c| c.is_ascii_digit()).collect();
            if e.len() == 4 {
                return e;
            }
        }
    }
    "2021".into()
}
/// A target without a shipped core: built once from the toolchain's sources (part of setup).
pub fn core_dir(target: &str) -> PathBuf {
    verif().join("hwv/target/core").join(target)
}
pub fn needs_core(target: &str) -> bool {
    target == PPC || target == S390
}
pub fn build_core(target: &str) -> Result<(), String> {
    let d = core_dir(target);
    let done = d.join("done");
    if done.exists() {
        return Ok(());
    }
    let root = sh(rustc("+stable").args(["--print", "sysroot"]))?;
    let src = format!("{}/lib/rustlib/src/rust/library/core/src/lib.rs", root.trim());
    let tmp = verif().join(format!("hwv/target/core/{}.{}", target, std::process::id()));
    std::fs::create_dir_all(&tmp).map_err(|e| e.to_string())?;
    sh(rustc("+stable")
        .args(["--edition", "2024", "--crate-type", "rlib", "--crate-name", "core"])
        .arg(&src)
        .arg("-Zcross-crate-inline-threshold=always")
        .args(["--target", target, "-C", "opt-level=0", "-Zshare-generics=no", "--cap-lints", "allow", "-C", "panic=abort"])
        .args(["--emit=metadata,link", "-Z", "force-unstable-if-unmarked", "--out-dir"])
        .arg(&tmp))?;
    // the crate that no_std code links implicitly: nothing in it is needed for the IR
    std::fs::write(
        tmp.join("cb.rs"),
        "#![feature(no_core, compiler_builtins)]\n#![allow(internal_features)]\n#![no_core]\n#![compiler_builtins]\n",
    )
    .map_err(|e| e.to_string())?;
    sh(rustc("+stable")
        .args(["--edition", "2024", "--crate-type", "rlib", "--crate-name", "compiler_builtins"])
        .arg(tmp.join("cb.rs"))
        .args(["--target", target, "-C", "opt-level=0", "--cap-lints", "allow", "-C", "panic=abort"])
        .args(["--emit=metadata,link", "-Z", "force-unstable-if-unmarked", "--out-dir"])
        .arg(&tmp))?;
    std::fs::write(tmp.join("done"), "").map_err(|e| e.to_string())?;
    let _ = std::fs::remove_dir_all(&d);
    if std::fs::rename(&tmp, &d).is_err() && !done.exists() {
        return Err("cannot place the core library".into());
    }
    Ok(())
}

pub fn compile(conf: &Conf, dir: &Path) -> Result<(), String> {
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let tool = if needs_core(conf.target) { "+stable" } else { TOOLCHAIN };
    let common = |c: &mut Command| {
        c.args(["--edition", &edition(), "--crate-type", "rlib"]).args(conf.flags());
        c.args(["-C", "opt-level=0", "-Zshare-generics=no", "-C", "codegen-units=1", "--cap-lints", "allow"]);
        c.arg("-C").arg(format!("debug-assertions={}", if conf.da { "on" } else { "off" }));
        c.arg("-C").arg(format!("overflow-checks={}", if conf.da { "on" } else { "off" }));
        c.args(["--emit=llvm-ir,link", "--out-dir"]).arg(dir);
        if conf.std {
            c.args(["--cfg", "feature=\"std\""]);
        }
        if needs_core(conf.target) {
            c.args(["-C", "panic=abort"]).arg("-L").arg(core_dir(conf.target));
            c.arg("--extern").arg(format!("noprelude:core={}/libcore.rlib", core_dir(conf.target).display()));
            c.args(["-Z", "unstable-options"]);
        }
    };
    if needs_core(conf.target) {
        build_core(conf.target)?;
    }
    let mut c = rustc(tool);
    common(&mut c);
    sh(c.args(["--crate-name", "highway"]).arg(repo().join("src/lib.rs")))?;
    let mut c = rustc(tool);
    common(&mut c);
    c.arg("--extern").arg(format!("highway={}/libhighway.rlib", dir.display()));
    sh(c.args(["--crate-name", "ops"]).arg(verif().join("harness/ops.rs")))?;
    Ok(())
}

pub fn load(conf: &Conf, dir: &Path) -> Result<Built, String> {
    let mut p = Program::default();
    for f in ["highway.ll", "ops.ll"] {
        let s = std::fs::read_to_string(dir.join(f)).map_err(|e| format!("{}: {}", f, e))?;
        parse_module(&mut p, &s)?;
    }
    p.link();
    // features enabled at compile time: what rustc reports, and what it puts on every function
    let tool = if needs_core(conf.target) { "+stable" } else { TOOLCHAIN };
    let mut base: HashSet<String> = HashSet::new();
    let out = sh(rustc(tool).args(conf.flags()).args(["--print", "cfg"]))?;
    for l in out.lines() {
        if let Some(r) = l.strip_prefix("target_feature=\"") {
            base.insert(r.trim_end_matches('"').to_string());
        }
    }
    if base.contains("neon") {
        base.insert("fp-armv8".into());
    }
    if let Some(f) = p.func("k_default") {
        base.extend(p.funcs[f as usize].features.iter().cloned());
    }
    Ok(Built { prog: Arc::new(p), base })
}

pub fn level_feats(l: Level) -> &'static [&'static str] {
    match l.plain() {
        Level::None => &[],
        Level::Sse => &["sse", "sse2", "sse3", "ssse3", "sse4.1"],
        _ => &["sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "crc32", "avx", "avx2"],
    }
}
pub fn make_leg(name: String, b: &Built, level: Level) -> Leg {
    let mut allowed = b.base.clone();
    for f in level_feats(level) {
        allowed.insert(f.to_string());
    }
    let mut detected = HashSet::new();
    for a in level_feats(level).iter().map(|x| x.to_string()).chain(b.base.iter().cloned()) {
        detected.insert(a.replace('.', "_"));
    }
    if level.extra() {
        for f in queries(&b.prog) {
            if level.may(&f) {
                allowed.insert(f.replace("sse4_", "sse4."));
                detected.insert(f);
            }
        }
    }
    Leg { name, prog: b.prog.clone(), allowed, detected }
}

// ------------------------------------------------------------------ what an entry point reaches
/// the text with symbol names blanked and attribute group numbers dropped, and the names in order
fn blank(text: &str) -> (String, Vec<String>) {
    let b = text.as_bytes();
    let mut out = String::with_capacity(text.len());
    let mut names = vec![];
    let mut i = 0;
    let mut from = 0;
    while i < b.len() {
        if b[i] == b'@' {
            out.push_str(&text[from..i + 1]);
            let mut j = i + 1;
            if j < b.len() && b[j] == b'"' {
                let s = j + 1;
                j = s;
                while j < b.len() && b[j] != b'"' {
                    j += 1;
                }
                names.push(text[s..j].to_string());
                j += 1;
            } else {
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b"._$-".contains(&b[j])) {
                    j += 1;
                }
                names.push(text[i + 1..j].to_string());
            }
            i = j;
            from = j;
        } else if b[i] == b'#' && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
            out.push_str(&text[from..i]);
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            from = i;
        } else {
            i += 1;
        }
    }
    out.push_str(&text[from.min(text.len())..]);
    (out, names)
}
/// Canonical hash of what an entry point reaches: functions and globals are numbered in the order of the first
/// visit, so that two configurations that compile an operation to the same IR share its proof.
pub struct Reach<'a> {
    p: &'a Program,
    by: HashMap<(u32, &'a str), Target>,
    cache: HashMap<(bool, u32), Arc<(u64, Vec<Target>)>>,
}
impl<'a> Reach<'a> {
    pub fn new(p: &'a Program) -> Reach<'a> {
        let mut by = HashMap::new();
        for s in &p.syms {
            by.insert((s.module, s.name.as_str()), s.to);
        }
        Reach { p, by, cache: HashMap::new() }
    }
    fn node(&mut self, t: Target) -> Arc<(u64, Vec<Target>)> {
        let key = match t {
            Target::F(f) => (true, f),
            Target::G(g) => (false, g),
            Target::None => return Arc::new((0, vec![])),
        };
        if let Some(x) = self.cache.get(&key) {
            return x.clone();
        }
        let (head, m, text) = match t {
            Target::F(f) => {
                let fu = &self.p.funcs[f as usize];
                let n = if fu.decl || fu.demangled.is_empty() { fu.name.clone() } else { fu.demangled.clone() };
                let n = match n.find("17h") {
                    Some(i) if n.len() == i + 20 && n.ends_with('E') => n[..i].to_string(),
                    _ => n,
                };
                (format!("{} {:?} {:?} {:?} {}", n, fu.ret, fu.params, fu.param_align, fu.decl), fu.module, fu.text.as_str())
            }
            Target::G(g) => {
                let gl = &self.p.globals[g as usize];
                let m = self.p.syms.iter().find(|s| s.to == t && s.name == gl.name).map(|s| s.module).unwrap_or(0);
                (format!("{} {} {}", gl.constant, gl.thread_local, gl.align), m, gl.text.as_str())
            }
            Target::None => unreachable!(),
        };
        let (b, n) = blank(text);
        let refs = n.iter().map(|x| self.by.get(&(m, x.as_str())).copied().unwrap_or(Target::None)).collect();
        let r = Arc::new((fnv(&format!("{}\n{}", head, b)), refs));
        self.cache.insert(key, r.clone());
        r
    }
    pub fn hash(&mut self, roots: &[u32], leg: &Leg) -> u64 {
        self.hash_set(roots, leg).0
    }
    pub fn hash_set(&mut self, roots: &[u32], leg: &Leg) -> (u64, HashSet<u32>) {
        let mut id: HashMap<(bool, u32), usize> = HashMap::new();
        let mut order: Vec<Target> = vec![];
        let mut visit = |t: Target, order: &mut Vec<Target>| -> usize {
            let k = match t {
                Target::F(f) => (true, f),
                Target::G(g) => (false, g),
                Target::None => return usize::MAX,
            };
            *id.entry(k).or_insert_with(|| {
                order.push(t);
                order.len() - 1
            })
        };
        let mut s = String::new();
        for r in roots {
            s += &format!("{} ", visit(Target::F(*r), &mut order));
        }
        let mut i = 0;
        let mut detects = false;
        while i < order.len() {
            let t = order[i];
            i += 1;
            let n = self.node(t);
            let mut ok = true;
            if let Target::F(f) = t {
                let fu = &self.p.funcs[f as usize];
                ok = fu.features.iter().all(|x| leg.allowed.contains(x));
                detects |= fu.name.contains("is_feature_detected") || fu.demangled.contains("is_feature_detected");
            }
            s += &format!("{:x}{}", n.0, ok);
            for r in &n.1 {
                s += &format!(",{}", visit(*r, &mut order));
            }
        }
        if detects {
            let mut d: Vec<_> = leg.detected.iter().collect();
            d.sort();
            s += &format!("{:?}", d);
        }
        s += &format!("{} {}", self.p.lay().ptr, self.p.lay().big);
        let fs = order.iter().filter_map(|t| if let Target::F(f) = t { Some(*f) } else { None }).collect();
        (fnv(&s), fs)
    }
}

// ------------------------------------------------------------------ jobs
fn wrapper(pre: &str, op: &Op_) -> String {
    let n = match op {
        Op_::New => "new".to_string(),
        Op_::Default => "default".into(),
        Op_::Restore(_) | Op_::RestoreBig => "restore".into(),
        Op_::OptNew => "opt_new".into(),
        Op_::OptRestore(_) | Op_::OptRestoreBig => "opt_restore".into(),
        Op_::Append(..) => "append".into(),
        Op_::Hwrite(..) => "hwrite".into(),
        Op_::IoWrite(..) => "io_write".into(),
        Op_::IoWriteAll(..) => "io_write_all".into(),
        Op_::IoFlush(_) => "io_flush".into(),
        Op_::IoVec(_, l) => format!("io_vec{}", l.len()),
        Op_::WriteInt(_, t, ..) => format!("write_{}", t),
        Op_::Fin(_, w) => format!("fin{}", w),
        Op_::Finish(_) => "finish".into(),
        Op_::Hash(_, w, _) => format!("hash{}", w),
        Op_::Checkpoint(_) => "checkpoint".into(),
        Op_::Clone(_) => "clone".into(),
        Op_::CloneFrom(..) => "clone_from".into(),
        Op_::Drop(_) => "drop".into(),
        Op_::Debug(_) => "debug".into(),
        Op_::BNew => return "b_new".into(),
        Op_::BDefault => return "b_default".into(),
        Op_::BBuild => return "b_build".into(),
        Op_::BDebug => return "b_debug".into(),
        Op_::BHash(None) => return "b_hash_u64".into(),
        Op_::BHash(_) => return "b_hash_bytes".into(),
        Op_::KeyDefault => return "k_default".into(),
    };
    format!("{}{}", pre, n)
}
/// the contract an operation establishes, when other operations may use it
fn ckind(op: &Op_) -> Option<CK> {
    match op {
        Op_::Append(..) => Some(CK::Append),
        Op_::Fin(_, w) => Some(CK::Fin(*w)),
        _ => None,
    }
}

/// Everything known about one configuration at one level.
struct LegInfo {
    leg: Arc<Leg>,
    models: BTreeMap<&'static str, String>, // prefix -> model key
    chains: BTreeMap<(&'static str, CK), Vec<u32>>,
    builder: Option<String>,
}

pub struct JobRes {
    pub unit: String,
    pub conf: Conf,
    pub level: Level,
    pub pre: &'static str,
    pub op: Op_,
    /// 0: the exported wrapper; i: the i-th function it forwards to
    pub chain: usize,
    pub func: String,
    pub res: Arc<Res>,
    pub reused: bool,
}
#[derive(Default)]
pub struct Outcome {
    pub build_errors: Vec<(Conf, String)>,
    pub learn_errors: Vec<(String, &'static str, Conf, Level, String)>,
    pub jobs: Vec<JobRes>,
    pub confs: Vec<String>,
    pub models: BTreeMap<String, String>,
    pub demoted: Vec<String>,
    pub rounds: u32,
    pub cut: bool,
    pub secs: BTreeMap<&'static str, f64>,
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 16)
}
/// run f over the items on all cores, with deep stacks
pub fn par<I: Sync, O: Send, F: Fn(&I) -> O + Sync>(items: &[I], f: F) -> Vec<O> {
    let n = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, O)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..threads().min(items.len()) {
            let (n, out, f) = (&n, &out, &f);
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, move || loop {
                    let i = n.fetch_add(1, Ordering::SeqCst);
                    if i >= items.len() {
                        break;
                    }
                    let o = f(&items[i]);
                    out.lock().unwrap().push((i, o));
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let base = std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into());
        let d = PathBuf::from(base).join(format!("hwv-{}-{:x}", std::process::id(), Instant::now().elapsed().as_nanos()));
        let _ = std::fs::create_dir_all(&d);
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

const RANK: [&str; 6] = ["p_", "s_", "a_", "n_", "w_", "h_"];

pub fn build_all(confs: &[Conf], scratch: &Path) -> Vec<Result<Built, String>> {
    let items: Vec<(usize, Conf)> = confs.iter().cloned().enumerate().collect();
    par(&items, |(i, c)| {
        let d = scratch.join(format!("c{}", i));
        let r = compile(c, &d).and_then(|_| load(c, &d));
        let _ = std::fs::remove_dir_all(&d);
        r
    })
}

/// what has been proved or refuted so far, for a run that has to be cut
pub static PROGRESS: Mutex<Vec<JobRes>> = Mutex::new(vec![]);

fn fname(leg: &Leg, entry: Option<u32>, pre: &str, op: &Op_) -> String {
    match entry {
        Some(f) => crate::exec::short(&leg.prog.funcs[f as usize].demangled),
        None => wrapper(pre, op),
    }
}

/// `fail_secs`: how long to go on after the first failed obligation
pub fn run(units: &[Unit], scratch: &Path, deadline: Instant, job_secs: u64, fail_secs: u64) -> Outcome {
    let mut out = Outcome::default();
    let t0 = Instant::now();
    let mut confs: Vec<Conf> = units.iter().map(|u| u.conf.clone()).collect();
    confs.sort();
    confs.dedup();
    let built = build_all(&confs, scratch);
    let mut ok: HashMap<Conf, Built> = HashMap::new();
    for (c, b) in confs.iter().zip(built) {
        match b {
            Ok(b) => {
                out.confs.push(c.name());
                ok.insert(c.clone(), b);
            }
            Err(e) => out.build_errors.push((c.clone(), e)),
        }
    }
    out.secs.insert("build", t0.elapsed().as_secs_f64());
    // ---- legs; CPUs with further features differ only if the code asks about those
    let t0 = Instant::now();
    let more: HashSet<(Conf, Level)> = ok
        .iter()
        .flat_map(|(c, b)| {
            LEVELS.iter().filter(|l| {
                l.extra() && make_leg(String::new(), b, **l).detected != make_leg(String::new(), b, l.plain()).detected
            }).map(|l| (c.clone(), *l)).collect::<Vec<_>>()
        })
        .collect();
    let units: Vec<Unit> =
        units.iter().filter(|u| !u.level.extra() || more.contains(&(u.conf.clone(), u.level))).cloned().collect();
    let units = &units;
    let mut legs: BTreeMap<(Conf, Level), LegInfo> = BTreeMap::new();
    for u in units {
        if let Some(b) = ok.get(&u.conf) {
            legs.entry((u.conf.clone(), u.level)).or_insert_with(|| LegInfo {
                leg: Arc::new(make_leg(format!("{}@{}", u.conf.name(), u.level.name()), b, u.level)),
                models: BTreeMap::new(),
                chains: BTreeMap::new(),
                builder: None,
            });
        }
    }
    let mut reach: HashMap<Conf, Reach> = HashMap::new();
    for (c, b) in &ok {
        reach.insert(c.clone(), Reach::new(&b.prog));
    }
    // ---- representations
    let mut want: BTreeMap<String, (Arc<Leg>, &'static str)> = BTreeMap::new();
    let mut absent: BTreeMap<String, Arc<Model>> = BTreeMap::new();
    let mut uses: Vec<((Conf, Level), &'static str, String)> = vec![];
    for u in units {
        let key = (u.conf.clone(), u.level);
        let l = match legs.get_mut(&key) {
            Some(l) => l,
            None => continue,
        };
        if l.chains.contains_key(&(u.pre, CK::Append)) {
            continue;
        }
        if !runs_at(u.pre, u.level) {
            if let Some((size, align)) = layout(&l.leg, u.pre) {
                l.models.insert(u.pre, format!("none{}", u.pre));
                absent.insert(format!("none{}", u.pre), Arc::new(Model { size, align, at: vec![vec![MB::Any; size as usize]; 32] }));
            }
            continue;
        }
        let r = reach.get_mut(&u.conf).unwrap();
        let roots: Vec<u32> =
            ["new", "append", "restore"].iter().filter_map(|x| l.leg.prog.func(&format!("{}{}", u.pre, x))).collect();
        let mk = format!("{}{:x}", u.pre, r.hash(&roots, &l.leg));
        want.entry(mk.clone()).or_insert((l.leg.clone(), u.pre));
        uses.push((key.clone(), u.pre, mk));
        for (k, n) in [(CK::Append, "append"), (CK::Fin(64), "fin64"), (CK::Fin(128), "fin128"), (CK::Fin(256), "fin256")] {
            l.chains.insert((u.pre, k), chain(&l.leg.prog, &format!("{}{}", u.pre, n), k));
        }
        if u.pre == "h_" {
            let roots: Vec<u32> = ["b_new"].iter().filter_map(|x| l.leg.prog.func(x)).collect();
            let mk = format!("b_{:x}", r.hash(&roots, &l.leg));
            want.entry(mk.clone()).or_insert((l.leg.clone(), "b_"));
            l.builder = Some(mk);
        }
    }
    let items: Vec<(String, Arc<Leg>, &'static str)> = want.iter().map(|(k, v)| (k.clone(), v.0.clone(), v.1)).collect();
    let learned = par(&items, |(_, l, p)| {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if *p == "b_" { learn_builder(l) } else { learn(l, p) }))
            .unwrap_or_else(|_| Err("verifier panicked".into()))
    });
    let mut models: BTreeMap<String, Arc<Model>> = absent;
    let mut bad: BTreeMap<String, String> = BTreeMap::new();
    for ((k, _, _), m) in items.iter().zip(learned) {
        match m {
            Ok(m) => {
                models.insert(k.clone(), Arc::new(m));
            }
            Err(e) => {
                bad.insert(k.clone(), e);
            }
        }
    }
    for (key, pre, mk) in uses {
        if let Some(e) = bad.get(&mk) {
            let l = &legs[&key];
            out.learn_errors.push((l.leg.name.clone(), pre, key.0.clone(), key.1, e.clone()));
        } else {
            legs.get_mut(&key).unwrap().models.insert(pre, mk);
        }
    }
    out.secs.insert("learn", t0.elapsed().as_secs_f64());
    // ---- prove, weakening the invariant until it is inductive
    let t0 = Instant::now();
    let mut done: HashMap<u64, Arc<Res>> = HashMap::new();
    struct Job<'a> {
        u: &'a Unit,
        leg: Arc<Leg>,
        op: Op_,
        chain: usize,
        key: u64,
        entry: Option<u32>,
        mk: String,
    }
    for round in 0..12 {
        out.rounds = round + 1;
        let mut jobs: Vec<Job> = vec![];
        let mut hcache: HashMap<(Conf, Level, String, usize), u64> = HashMap::new();
        let mut mhash: HashMap<String, u64> = HashMap::new();
        for (k, m) in &models {
            mhash.insert(k.clone(), fnv(&format!("{:?}", m)));
        }
        for u in units {
            let key = (u.conf.clone(), u.level);
            let l = match legs.get(&key) {
                Some(l) => l,
                None => continue,
            };
            let mk = match l.models.get(u.pre) {
                Some(m) => m.clone(),
                None => continue,
            };
            let mut seen = HashSet::new();
            for op in &u.ops {
                if !seen.insert(op.clone()) {
                    continue;
                }
                if !runs_at(u.pre, u.level) && !matches!(op, Op_::OptNew | Op_::OptRestore(_) | Op_::OptRestoreBig) {
                    continue;
                }
                let w = wrapper(u.pre, op);
                let mut entries = vec![(0, l.leg.prog.func(&w), None)];
                if let Some(k) = ckind(op) {
                    for (i, f) in l.chains[&(u.pre, k)].iter().enumerate() {
                        entries.push((i + 1, Some(*f), Some(*f)));
                    }
                }
                for (ci, root, entry) in entries {
                    let hk = (u.conf.clone(), u.level, w.clone(), ci);
                    let h = match hcache.get(&hk) {
                        Some(h) => *h,
                        None => {
                            let r = reach.get_mut(&u.conf).unwrap();
                            let roots: Vec<u32> = root.into_iter().collect();
                            let (h, fs) = r.hash_set(&roots, &l.leg);
                            // the representations of every type whose contracts may be used on the way
                            let mut ms: Vec<(&str, u64)> = vec![];
                            for ((p, _), ch) in &l.chains {
                                if *p == u.pre || ch.iter().any(|f| fs.contains(f)) {
                                    if let Some(m) = l.models.get(p) {
                                        ms.push((p, mhash[m]));
                                    }
                                }
                            }
                            ms.sort();
                            ms.dedup();
                            if let Some(b) = &l.builder {
                                if w.starts_with("b_") {
                                    ms.push(("b_", mhash.get(b).copied().unwrap_or(0)));
                                }
                            }
                            let h = fnv(&format!("{:x} {:?}", h, ms));
                            hcache.insert(hk, h);
                            h
                        }
                    };
                    let key = fnv(&format!("{:x}{:?}{}{}{}{}", h, op, u.pre, ci, root.is_some(), u.level as usize * matches!(op, Op_::OptNew | Op_::OptRestore(_) | Op_::OptRestoreBig) as usize));
                    jobs.push(Job { u, leg: l.leg.clone(), op: op.clone(), chain: ci, key, entry, mk: mk.clone() });
                }
            }
        }
        let mut uniq: Vec<&Job> = vec![];
        let mut have: HashSet<u64> = done.keys().copied().collect();
        for j in &jobs {
            if have.insert(j.key) {
                uniq.push(j);
            }
        }
        // development: only some jobs
        if let Ok(f) = std::env::var("HWV_ONE") {
            let l: Vec<&str> = f.split('|').collect();
            uniq.retain(|j| {
                l.iter().all(|x| format!("{} {:?} #{} {}", j.u.name(), j.op, j.chain, fname(&j.leg, j.entry, j.u.pre, &j.op)).contains(x))
            });
        }
        // heavy jobs first
        uniq.sort_by_key(|j| match (&j.op, j.chain) {
            (Op_::Append(..), c) => (0, usize::MAX - c),
            (Op_::Fin(..), c) => (1, usize::MAX - c),
            _ => (2, 0),
        });
        let stop = AtomicBool::new(false);
        let fails = AtomicUsize::new(0);
        let rs = par(&uniq, |j| {
            let t = Instant::now();
            let name = format!("{} {:?}", tyname(j.u.pre), j.op);
            if over(Some(deadline)) || stop.load(Ordering::SeqCst) {
                return None;
            }
            let li = &legs[&(j.u.conf.clone(), j.u.level)];
            let m = models[&j.mk].clone();
            let mut x = J::new(&j.leg, name.clone());
            x.ex.deadline = Some(deadline.min(t + Duration::from_secs(job_secs)));
            x.ex.t.deadline = Some(deadline.min(t + Duration::from_secs(job_secs + 5)));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let x = &mut x;
                x.entry = j.entry;
                // contracts this job may use
                let my = RANK.iter().position(|p| *p == j.u.pre).unwrap_or(9);
                let my = if my == 5 { 1 } else { 0 };
                for ((p, k), fs) in &li.chains {
                    let cm = match li.models.get(p).and_then(|k| models.get(k)) {
                        Some(m) => m,
                        None => continue,
                    };
                    let rk = if *p == "h_" { 1 } else { 0 };
                    for (i, f) in fs.iter().enumerate() {
                        let usable = match ckind(&j.op) {
                            // a contract may rest on lower types, and on functions further down its own chain
                            Some(me) => (rk < my) || (*p == j.u.pre && me == *k && i + 1 > j.chain),
                            None => true,
                        };
                        if usable {
                            x.ex.contracts
                                .insert(*f, std::rc::Rc::new(Contract { kind: *k, model: cm.clone(), pre: p.to_string() }));
                        }
                    }
                }
                let hm = m.clone();
                match &j.op {
                    Op_::KeyDefault => {
                        let km = key_model(&j.leg);
                        x.op(j.u.pre, &j.op, &km, None)
                    }
                    Op_::BNew | Op_::BDefault | Op_::BBuild | Op_::BDebug | Op_::BHash(_) => {
                        match li.builder.as_ref().and_then(|b| models.get(b)) {
                            Some(b) => x.op(j.u.pre, &j.op, b, Some(&hm)),
                            None => x.fail_unsup("representation of the builder not recognised"),
                        }
                    }
                    _ => x.op(j.u.pre, &j.op, &m, None),
                }
            }));
            let r_failed = r.is_err();
            if let Err(e) = r {
                // what was found before stays
                x.fail_unsup(if e.downcast_ref::<&str>() == Some(&LIMIT) { LIMIT } else { "the verifier failed on this function" });
            }
            x.ex.t.nolimit = true;
            if r_failed {
                x.no_more();
            }
            let r = x.finish(t);
            if !r.issues.is_empty() {
                // a failed obligation ends the proof soon: the rest of the time belongs to the replays
                let n = since_start() + fail_secs * 1000;
                STOP_AT.fetch_min(n, Ordering::SeqCst);
                if fails.fetch_add(1, Ordering::SeqCst) > 40 {
                    stop.store(true, Ordering::SeqCst);
                }
            }
            let r = Arc::new(r);
            if let Ok(mut p) = PROGRESS.lock() {
                p.push(JobRes {
                    unit: j.u.name(),
                    conf: j.u.conf.clone(),
                    level: j.u.level,
                    pre: j.u.pre,
                    op: j.op.clone(),
                    chain: j.chain,
                    func: fname(&j.leg, j.entry, j.u.pre, &j.op),
                    res: r.clone(),
                    reused: false,
                });
            }
            Some(r)
        });
        let mut demote: BTreeMap<String, BTreeSet<(usize, usize)>> = BTreeMap::new();
        for (j, r) in uniq.iter().zip(rs) {
            match r {
                Some(r) => {
                    for d in &r.demote {
                        let k = match j.op {
                            Op_::BNew | Op_::BDefault => {
                                legs[&(j.u.conf.clone(), j.u.level)].builder.clone().unwrap_or_default()
                            }
                            _ => j.mk.clone(),
                        };
                        if demote.entry(k.clone()).or_default().insert(*d) {
                            out.demoted.push(format!("{} byte {} with {} pending", k, d.1, d.0));
                        }
                    }
                    done.insert(j.key, r);
                }
                None => out.cut = true,
            }
        }
        if demote.is_empty() || round == 11 || out.cut {
            let fresh: HashSet<u64> = HashSet::new();
            let mut seen = fresh;
            for j in jobs {
                if let Some(r) = done.get(&j.key) {
                    out.jobs.push(JobRes {
                        unit: j.u.name(),
                        conf: j.u.conf.clone(),
                        level: j.u.level,
                        pre: j.u.pre,
                        func: fname(&j.leg, j.entry, j.u.pre, &j.op),
                        op: j.op,
                        chain: j.chain,
                        res: r.clone(),
                        reused: !seen.insert(j.key),
                    });
                }
            }
            break;
        }
        for (k, ds) in demote {
            if let Some(m) = models.get(&k) {
                let mut m2 = (**m).clone();
                for (a, b) in ds {
                    m2.at[a][b] = MB::Any;
                }
                models.insert(k, Arc::new(m2));
            }
        }
    }
    for (k, m) in &models {
        let mut c = [0usize; 5];
        if let Some(r) = m.at.first() {
            for b in r {
                c[match b {
                    MB::Lane(..) => 0,
                    MB::Pend(_) => 1,
                    MB::Const(_) => 2,
                    MB::Any => 3,
                    MB::Uninit => 4,
                }] += 1;
            }
        }
        out.models.insert(
            k.clone(),
            format!("size {} align {}: {} lane bytes, {} constant, {} irrelevant (at 0 pending)", m.size, m.align, c[0], c[2], c[3] + c[4]),
        );
    }
    out.secs.insert("prove", t0.elapsed().as_secs_f64());
    out
}
