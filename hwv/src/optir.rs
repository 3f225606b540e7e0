//! The static half of C08 and C18: the crate and the operations, optimised and linked as the
//! project's own release profile does it (opt-level 3, fat LTO, one codegen unit), must contain no
//! path from an operation to a function that does not return (C08) or to the allocator (C18).
//! One obligation per operation: reachability in the call and reference graph of the final IR.

use crate::drive::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::path::Path;

pub struct OptFail {
    pub conf: Conf,
    pub op: String,
    /// names from the operation to what must not be reached
    pub path: Vec<String>,
}
#[derive(Default)]
pub struct OptOut {
    pub checked: BTreeMap<String, u64>,
    pub fails: Vec<OptFail>,
    pub errors: Vec<(Conf, String)>,
}

pub fn confs() -> Vec<Conf> {
    let c = |target, std, feats| Conf { target, std, da: false, feats, native: false };
    vec![
        c(X86, true, ""),
        c(X86, false, ""),
        c(X86, false, "+avx2"),
        c(X86, false, "+sse4.1"),
        c(ARM, true, ""),
        c(ARM, false, ""),
        c(I686, true, ""),
        c(WASM, true, "+simd128"),
        c(WASM, false, ""),
    ]
}

fn compile(c: &Conf, dir: &Path) -> Result<String, String> {
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let base = |name: &str, kind: &str| {
        let mut k = rustc(TOOLCHAIN);
        k.args(["--edition", &edition(), "--crate-type", kind, "--crate-name", name]).args(c.flags());
        k.args(["-C", "opt-level=3", "-C", "codegen-units=1", "--cap-lints", "allow", "--out-dir"]).arg(dir);
        if c.std {
            k.args(["--cfg", "feature=\"std\""]);
        }
        k
    };
    let mut k = base("highway", "rlib");
    sh(k.args(["-C", "embed-bitcode=yes"]).arg(repo().join("src/lib.rs")))?;
    let mut k = base("ops", "cdylib");
    k.args(["-C", "lto=fat", "--emit=llvm-ir,link", "--cfg", "feature=\"host\""]);
    if c.target == ARM {
        k.args(["-C", "linker=aarch64-linux-gnu-gcc"]);
    } else if c.target == I686 {
        k.args(["-C", "linker=i686-linux-gnu-gcc"]);
    }
    k.arg("--extern").arg(format!("highway={}/libhighway.rlib", dir.display()));
    sh(k.arg(verif().join("harness/ops.rs")))?;
    std::fs::read_to_string(dir.join("ops.ll")).map_err(|e| e.to_string())
}

#[derive(Default)]
struct Graph {
    refs: HashMap<String, Vec<String>>,
    noreturn: HashSet<String>,
    defined: HashSet<String>,
}

fn names(l: &str) -> Vec<String> {
    let b = l.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' {
            // a string constant: skip it
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += 1;
            }
            i += 1;
        } else if b[i] == b'@' {
            i += 1;
            if i < b.len() && b[i] == b'"' {
                let s = i + 1;
                i = s;
                while i < b.len() && b[i] != b'"' {
                    i += 1;
                }
                v.push(l[s..i].to_string());
                i += 1;
            } else {
                let s = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) {
                    i += 1;
                }
                v.push(l[s..i].to_string());
            }
        } else {
            i += 1;
        }
    }
    v
}

fn graph(t: &str) -> Graph {
    let mut g = Graph::default();
    let mut nr: HashSet<&str> = HashSet::new();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("attributes #") {
            if r.contains(" noreturn ") {
                nr.insert(r.split(' ').next().unwrap());
            }
        }
    }
    let attr = |l: &str| l.rsplit('#').next().map(|x| nr.contains(x.split([' ', '!', '{']).next().unwrap())).unwrap_or(false);
    let mut cur: Option<String> = None;
    for l in t.lines() {
        if l.starts_with("define ") || l.starts_with("declare ") {
            let f = match names(l).into_iter().next() {
                Some(f) => f,
                None => continue,
            };
            if l.contains('#') && attr(&l[l.rfind(')').unwrap_or(0)..]) {
                g.noreturn.insert(f.clone());
            }
            if l.starts_with("define ") {
                g.defined.insert(f.clone());
                cur = Some(f);
            }
        } else if l.starts_with('}') {
            cur = None;
        } else if let Some(f) = &cur {
            if l.contains('@') {
                g.refs.entry(f.clone()).or_default().extend(names(l));
            }
        } else if l.starts_with('@') {
            // a global: its initialiser may hold function addresses
            let mut n = names(l);
            if n.len() > 1 {
                let f = n.remove(0);
                if l.contains(" alias ") {
                    g.defined.insert(f.clone());
                }
                g.refs.entry(f).or_default().extend(n);
            }
        }
    }
    g
}

fn is_op(n: &str) -> bool {
    let p = ["p_", "s_", "a_", "h_", "n_", "w_", "b_", "k_"];
    p.iter().any(|x| n.starts_with(x)) && !n.ends_with("layout")
}
fn allocates(n: &str) -> bool {
    ["__rust_alloc", "__rust_realloc", "__rdl_alloc", "__rdl_realloc", "exchange_malloc"].iter().any(|x| n.contains(x))
        || matches!(n, "malloc" | "calloc" | "realloc" | "posix_memalign" | "aligned_alloc" | "memalign" | "mmap")
}

pub fn run(prop: &str, dir: &Path) -> OptOut {
    let cs: Vec<(usize, Conf)> = confs().into_iter().enumerate().collect();
    let ans = par(&cs, |(i, c)| {
        let d = dir.join(format!("opt{}", i));
        let r = compile(c, &d);
        let _ = std::fs::remove_dir_all(&d);
        r.map(|t| search(prop, &t))
    });
    let mut o = OptOut::default();
    for ((_, c), a) in cs.into_iter().zip(ans) {
        match a {
            Err(e) => o.errors.push((c, e)),
            Ok((n, f)) => {
                o.checked.insert(format!("{} (opt-level 3, fat LTO)", c.name()), n);
                o.fails.extend(f.into_iter().map(|(op, path)| OptFail { conf: c.clone(), op, path }));
            }
        }
    }
    o
}

fn search(prop: &str, t: &str) -> (u64, Vec<(String, Vec<String>)>) {
    let g = graph(t);
    let mut ops: Vec<&String> = g.defined.iter().filter(|n| is_op(n)).collect();
    ops.sort();
    let mut out = vec![];
    let mut n = 0;
    for op in ops {
        // formatting is the caller's: C08 does not name it
        if prop == "C08" && op.contains("debug") {
            continue;
        }
        n += 1;
        let mut from: HashMap<&String, &String> = HashMap::new();
        let mut q: VecDeque<&String> = VecDeque::from([op]);
        let mut hit = None;
        'bfs: while let Some(f) = q.pop_front() {
            for r in g.refs.get(f).map(|x| &x[..]).unwrap_or(&[]) {
                if r == op || from.contains_key(r) {
                    continue;
                }
                from.insert(r, f);
                let stop = g.noreturn.contains(r);
                let bad = if prop == "C08" { stop } else { allocates(r) };
                if bad {
                    hit = Some(r);
                    break 'bfs;
                }
                // what a panic does is not part of the operation
                if !stop {
                    q.push_back(r);
                }
            }
        }
        if let Some(r) = hit {
            let mut p = vec![r.clone()];
            let mut x = r;
            while let Some(f) = from.get(x) {
                p.push((*f).clone());
                x = f;
            }
            p.reverse();
            out.push((op.clone(), p));
        }
    }
    (n, out)
}
