//! Builds the replay program against the crate and runs it, natively or under an emulator, on the
//! inputs suggested by failed obligations and on a fixed battery.

use crate::drive::*;
use std::path::Path;
use std::process::Command;

pub const PPC64: &str = "powerpc64-unknown-linux-gnu";

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Run {
    pub conf: Conf,
    pub level: Level,
    /// emulate the CPU even if this machine has its features
    pub emu: bool,
    pub opt: u8,
    /// cases suggested by counterexamples
    pub hints: Vec<String>,
    /// only lengths beyond 32 bits
    pub huge: bool,
    /// environment variables to set to 1
    pub env: Vec<String>,
}
/// The environment variables the source names (as it stands now): what it does may depend on them.
pub fn env_names() -> Vec<String> {
    let mut out = std::collections::BTreeSet::new();
    let mut todo = vec![repo().join("src")];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
                continue;
            }
            let t = std::fs::read_to_string(&p).unwrap_or_default();
            for pat in ["var(\"", "var_os(\"", "getenv(c\"", "getenv(b\"", "getenv(\""] {
                for (i, _) in t.match_indices(pat) {
                    let n: String = t[i + pat.len()..].chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
                    if !n.is_empty() && n.len() < 64 {
                        out.insert(n);
                    }
                }
            }
        }
    }
    out.into_iter().take(4).collect()
}
impl Run {
    pub fn name(&self) -> String {
        let t = if needs_core(self.conf.target) { "powerpc64 (big-endian) for " } else { "" };
        let e: String = self.env.iter().map(|n| format!(", environment variable {}=1", n)).collect();
        format!("{}{} opt-level {} on a CPU with {}{}", t, self.conf.name(), self.opt, self.level.name(), e)
    }
    /// on anything but this machine's own instruction set
    fn emulated(&self) -> bool {
        self.conf.target != X86 || self.level < Level::Avx || self.emu
    }
}
#[derive(Debug)]
pub enum Ans {
    /// what failed, in words; the last lines of the program's output
    Fails(String),
    Clean(u64, String),
    Broken(String),
}

pub fn be_dir() -> std::path::PathBuf {
    verif().join("hwv/target/core/powerpc64-replay")
}
pub const ARM_BE: &str = "aarch64_be-unknown-linux-gnu";
fn arm_be_dir() -> std::path::PathBuf {
    verif().join("hwv/target/core/aarch64_be-replay")
}
/// core and alloc for the big-endian replay targets, from the toolchain's sources
pub fn build_be() -> Result<(), String> {
    build_std(PPC64, &be_dir(), true)
}
pub fn build_arm_be() -> Result<(), String> {
    build_std(ARM_BE, &arm_be_dir(), false)
}
fn build_std(target: &str, d: &Path, with_alloc: bool) -> Result<(), String> {
    if d.join("done").exists() {
        return Ok(());
    }
    let root = sh(rustc("+stable").args(["--print", "sysroot"]))?;
    let lib = format!("{}/lib/rustlib/src/rust/library", root.trim());
    let tmp = verif().join(format!("hwv/target/core/be.{}.{}", target, std::process::id()));
    std::fs::create_dir_all(&tmp).map_err(|e| e.to_string())?;
    std::fs::write(
        tmp.join("cb.rs"),
        "#![feature(no_core, compiler_builtins)]\n#![allow(internal_features)]\n#![no_core]\n#![compiler_builtins]\n",
    )
    .map_err(|e| e.to_string())?;
    let base = |c: &mut Command, n: &str| {
        c.args(["--edition", "2024", "--crate-type", "rlib", "--crate-name", n]);
        c.args(["--target", target, "-C", "opt-level=2", "--cap-lints", "allow", "-C", "panic=abort"]);
        c.args(["--emit=metadata,link", "-Z", "force-unstable-if-unmarked", "--out-dir"]).arg(&tmp);
    };
    let mut c = rustc("+stable");
    base(&mut c, "core");
    sh(c.arg(format!("{}/core/src/lib.rs", lib)))?;
    let mut c = rustc("+stable");
    base(&mut c, "compiler_builtins");
    sh(c.arg(tmp.join("cb.rs")))?;
    if with_alloc {
        let mut c = rustc("+stable");
        base(&mut c, "alloc");
        c.arg("-L").arg(&tmp).arg("--extern").arg(format!("core={}/libcore.rlib", tmp.display()));
        c.arg("--extern").arg(format!("compiler_builtins={}/libcompiler_builtins.rlib", tmp.display()));
        sh(c.arg(format!("{}/alloc/src/lib.rs", lib)))?;
    }
    std::fs::write(tmp.join("done"), "").map_err(|e| e.to_string())?;
    let _ = std::fs::remove_dir_all(d);
    let _ = std::fs::rename(&tmp, d);
    Ok(())
}
/// The status of harness/aarch64_be.rs.
pub fn arm_be(dir: &Path) -> Result<i32, String> {
    build_arm_be()?;
    let d = dir.join("arm_be");
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let core = format!("noprelude:core={}/libcore.rlib", arm_be_dir().display());
    let common = |k: &mut Command| {
        k.args(["--target", ARM_BE, "-C", "opt-level=1", "-C", "panic=abort", "-Z", "unstable-options", "--cap-lints", "allow"]);
        k.arg("-L").arg(arm_be_dir()).arg("--extern").arg(&core);
    };
    let mut k = rustc("+stable");
    common(&mut k);
    k.args(["--edition", &edition(), "--crate-type", "rlib", "--crate-name", "highway", "--out-dir"]).arg(&d);
    sh(k.arg(repo().join("src/lib.rs")))?;
    let mut k = rustc("+stable");
    common(&mut k);
    k.args(["--edition", "2021", "--extern"]).arg(format!("highway={}/libhighway.rlib", d.display()));
    k.args(["-C", "linker=rust-lld", "-C", "linker-flavor=ld.lld", "-C", "target-feature=+crt-static", "-C", "relocation-model=static"]);
    k.args(["-C", "link-args=-nostdlib -static", "-o"]).arg(d.join("p")).arg(verif().join("harness/aarch64_be.rs"));
    sh(&mut k)?;
    let o = Command::new("timeout").args(["60", "qemu-aarch64_be"]).arg(d.join("p")).status().map_err(|e| e.to_string())?;
    o.code().filter(|c| *c < 4).ok_or_else(|| "does not run".into())
}

fn build(r: &Run, dir: &Path) -> Result<std::path::PathBuf, String> {
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let c = &r.conf;
    let be = needs_core(c.target);
    let target = if be { PPC64 } else { c.target };
    let tool = if be { "+stable" } else { TOOLCHAIN };
    let common = |k: &mut Command| {
        k.args(["--target", target]);
        if !c.feats.is_empty() && !be {
            k.arg("-C").arg(format!("target-feature={}{}", c.feats, if c.target == X86 || c.target == WASM { "" } else { "" }));
        }
        if c.native {
            k.args(["-C", "target-cpu=native"]);
        }
        k.arg("-C").arg(format!("opt-level={}", r.opt));
        k.args(["-C", "codegen-units=4", "--cap-lints", "allow"]);
        k.arg("-C").arg(format!("debug-assertions={}", if c.da { "on" } else { "off" }));
        k.arg("-C").arg(format!("overflow-checks={}", if c.da { "on" } else { "off" }));
        if be {
            k.args(["-C", "panic=abort", "-Z", "unstable-options"]).arg("-L").arg(be_dir());
            for n in ["core", "alloc"] {
                k.arg("--extern").arg(format!("noprelude:{}={}/lib{}.rlib", n, be_dir().display(), n));
            }
        }
    };
    if be {
        build_be()?;
    }
    let mut k = rustc(tool);
    common(&mut k);
    if c.std {
        k.args(["--cfg", "feature=\"std\""]);
    }
    k.args(["--edition", &edition(), "--crate-type", "rlib", "--crate-name", "highway", "--out-dir"]).arg(dir);
    sh(k.arg(repo().join("src/lib.rs")))?;
    let mut k = rustc(tool);
    common(&mut k);
    if !be {
        k.args(["--cfg", "host"]);
    }
    if c.std {
        k.args(["--cfg", "io"]);
    }
    if r.emulated() || r.opt == 0 {
        k.args(["--cfg", "small"]);
    }
    k.args(["--edition", "2021", "--crate-name", "confirm"]);
    k.arg("--extern").arg(format!("highway={}/libhighway.rlib", dir.display()));
    let src = verif().join("harness/confirm.rs");
    let out = dir.join("confirm");
    match c.target {
        WASM => {
            let w = dir.join("confirm.wasm");
            k.args(["--crate-type", "cdylib"]).arg("-o").arg(&w).arg(src);
            sh(&mut k)?;
            return Ok(w);
        }
        _ if be => {
            let a = dir.join("libconfirm.a");
            k.args(["--crate-type", "staticlib"]).arg("-o").arg(&a).arg(src);
            sh(&mut k)?;
            let mut g = Command::new("powerpc64-linux-gnu-gcc");
            g.args(["-O1", "-static", "-o"]).arg(&out).arg(verif().join("harness/be_main.c")).arg(&a);
            sh(&mut g)?;
        }
        _ => {
            let l = match c.target {
                ARM => "aarch64-linux-gnu-gcc",
                I686 => "i686-linux-gnu-gcc",
                _ => "cc",
            };
            k.arg("-C").arg(format!("linker={}", l));
            if c.target != X86 {
                k.args(["-C", "target-feature=+crt-static"]);
            }
            k.arg("-o").arg(&out).arg(src);
            sh(&mut k)?;
        }
    }
    Ok(out)
}
fn command(r: &Run, exe: &Path, input: &Path, secs: u64) -> Command {
    let mut c = Command::new("timeout");
    c.arg(format!("{}", secs));
    match (r.conf.target, r.level) {
        (X86, l) => {
            if r.emulated() {
                let cpu = match l {
                    Level::None => "qemu64",
                    Level::NoneX => "core2duo",
                    Level::Sse => "Penryn",
                    Level::SseX => "max,-avx2,-vaes,-vpclmulqdq",
                    Level::Avx => "Haswell",
                    Level::AvxX => "max",
                };
                c.args(["qemu-x86_64", "-cpu", cpu]);
            }
        }
        (ARM, _) => {
            c.arg("qemu-aarch64");
        }
        (I686, _) => {
            c.arg("qemu-i386");
        }
        (WASM, _) => {
            c.arg("node").arg(verif().join("harness/run.mjs"));
        }
        _ => {
            c.arg("qemu-ppc64");
        }
    }
    c.arg(exe).arg(input);
    c.envs(r.env.iter().map(|n| (n, "1")));
    c
}
/// The same cases in one process each way round: no result may depend on what ran before.
fn orders(r: &Run, exe: &Path, dir: &Path, seed: u64, secs: u64) -> Option<String> {
    let ask = |v: &str| -> Option<String> {
        let p = dir.join("input.values");
        std::fs::write(&p, format!("prop C15\nseed {}\nvalues {}\n", seed, v)).ok()?;
        let o = command(r, exe, &p, secs).output().ok()?;
        o.status.success().then(|| String::from_utf8_lossy(&o.stdout).into_owned())
    };
    let (a, b) = (ask("1")?, ask("2")?);
    let get = |t: &str| -> std::collections::BTreeMap<(usize, String), String> {
        t.lines()
            .filter_map(|l| {
                let w: Vec<&str> = l.strip_prefix("V ")?.split(' ').collect();
                Some(((w.get(0)?.parse().ok()?, w.get(1)?.to_string()), w.get(2)?.to_string()))
            })
            .collect()
    };
    let (a, b) = (get(&a), get(&b));
    let ((i, t), _) = a.iter().find(|(k, v)| b.get(*k).map(|x| x != *v).unwrap_or(false))?;
    let show = ask(&format!("3 {}", i)).unwrap_or_default();
    let show = show.lines().find(|l| l.starts_with("SHOW")).unwrap_or("").to_string();
    Some(format!(
        "FAIL {}: the result of this case depends on which other hashers ran before it in the process (the battery in order and in reverse order give different results): {}",
        t, show
    ))
}
/// Build and run; `prop` selects what is compared.
pub fn run(prop: &str, r: &Run, dir: &Path, seed: u64, secs: u64) -> Ans {
    let exe = match build(r, dir) {
        Ok(e) => e,
        Err(e) => return Ans::Broken(format!("replay program does not build: {}", e)),
    };
    let input = |trace: bool| -> std::path::PathBuf {
        let mut s = format!("prop {}\nseed {}\n", prop, seed);
        if r.huge {
            s += "huge\n";
        }
        if trace {
            s += "trace\n";
        }
        if !r.emulated() && !trace {
            s += "bulk 8000\n";
        }
        if !r.emulated() && r.opt > 0 && matches!(prop, "C01" | "C02" | "C05") {
            s += "long\n";
        }
        // deep recursion: where nothing is optimised away
        if !r.emulated() && r.opt == 0 && matches!(prop, "C08" | "C09") {
            s += "deep\n";
        }
        for h in &r.hints {
            s += &format!("case {}\n", h);
        }
        let p = dir.join(if trace { "input.trace" } else { "input" });
        let _ = std::fs::write(&p, s);
        p
    };
    let go = |trace: bool| -> Result<(Option<i32>, String), String> {
        let o = command(r, &exe, &input(trace), secs).output().map_err(|e| e.to_string())?;
        use std::os::unix::process::ExitStatusExt;
        let code = o.status.code().or_else(|| o.status.signal().map(|s| 128 + s));
        Ok((code, String::from_utf8_lossy(&o.stdout).into_owned()))
    };
    let (code, out) = match go(false) {
        Ok(x) => x,
        Err(e) => return Ans::Broken(e),
    };
    let fails: Vec<&str> = out.lines().filter(|l| l.starts_with("FAIL")).collect();
    if !fails.is_empty() {
        let mut s = fails.join("\n");
        if code != Some(1) {
            // a panic or trap without its input: find the case
            if let Ok((_, o)) = go(true) {
                if let Some(l) = o.lines().filter(|l| l.starts_with("CASE")).last() {
                    s += &format!("\nlast case started: {}", l);
                }
            }
        }
        return Ans::Fails(s);
    }
    if code == Some(0) {
        let n = out.lines().find_map(|l| l.strip_prefix("RAN ")).and_then(|l| l.split(' ').next()?.parse().ok()).unwrap_or(0);
        let d = out.lines().find_map(|l| l.strip_prefix("DIGEST ")).unwrap_or("").to_string();
        if prop == "C12" {
            // the same values hash the same in another process
            if let Ok((Some(0), o)) = go(false) {
                let d2 = o.lines().find_map(|l| l.strip_prefix("DIGEST ")).unwrap_or("").to_string();
                if d2 != d {
                    return Ans::Fails(format!("FAIL the same values hash differently in another process ({} and {})", d, d2));
                }
            }
        }
        if prop == "C15" {
            if let Some(w) = orders(r, &exe, dir, seed, secs) {
                return Ans::Fails(w);
            }
        }
        return Ans::Clean(n, d);
    }
    // died: illegal instruction, segmentation fault, trap, or no end
    if code == Some(2) {
        return Ans::Broken(out);
    }
    let (c2, o) = match go(true) {
        Ok(x) => x,
        Err(e) => return Ans::Broken(e),
    };
    let last = o.lines().filter(|l| l.starts_with("CASE")).last().unwrap_or("no case started").to_string();
    let how = |c: Option<i32>| match c {
        Some(124) => format!("did not end within {} s", secs),
        Some(132) => "died of an illegal instruction".to_string(),
        Some(139) => "died of a segmentation fault".to_string(),
        Some(135) => "died of a bus error".to_string(),
        Some(134) => "aborted".to_string(),
        Some(c) => format!("ended with status {}", c),
        None => "was killed by a signal".to_string(),
    };
    if c2 == code && (code != Some(124)) {
        let trap: Vec<&str> = out.lines().filter(|l| l.starts_with("TRAP")).collect();
        Ans::Fails(format!("FAIL the process {} {}; last case started: {}", how(code), trap.join(" "), last))
    } else if code == Some(124) {
        Ans::Broken(format!("{} ({})", how(code), last.chars().take(600).collect::<String>()))
    } else {
        Ans::Broken(format!("{} once, {} the second time", how(code), how(c2)))
    }
}
