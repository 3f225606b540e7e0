//! Runs the check of one property: proof, replay of what failed, evidence, verdict.

use crate::contract::*;
use crate::drive::*;
use crate::props;
use crate::replay;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<S: AsRef<str>>(v: &[S]) -> String {
    format!("[{}]", v.iter().map(|x| js(x.as_ref())).collect::<Vec<_>>().join(", "))
}
fn map<V: std::fmt::Display>(m: &BTreeMap<String, V>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "))
}

fn opname(op: &Op_) -> String {
    let s = format!("{:?}", op);
    s.split('(').next().unwrap_or("").to_string()
}

const TRUSTED: [&str; 9] = [
    "rustc 1.99.1: translation of the crate to LLVM IR at opt-level 0 (the verified text is this IR; nothing is dropped from the functions reached)",
    "hwv itself: IR parser, symbolic executor, term normaliser (hwv/src); checked against the 198 published test vectors and by planted bugs, not proved",
    "the semantics hwv gives to LLVM vector intrinsics (x86 pmuludq/pshufb/maskload/permute, NEON umull/tbl/ushl, wasm swizzle), written from the vendor manuals",
    "the HighwayHash specification in hwv/src/spec.rs, checked on every run against the published vectors",
    "core::fmt: a formatting routine calls the Debug/Display implementations it is handed, writes to the caller's formatter only, and does not allocate or panic",
    "axiom: distinct live objects do not overlap; a slice is at most isize::MAX bytes (Rust language guarantees)",
    "std_detect reports exactly the features of the CPU; the run-time detection cache is the only process-global state it touches",
    "LLVM optimisations preserve the meaning of IR without undefined behaviour",
    "rust-src core built at opt-level 0 for the big-endian targets equals the core of those targets",
];

struct Fail {
    unit: String,
    func: String,
    op: String,
    kind: String,
    msg: String,
    at: String,
    witness: String,
    conf: Option<Conf>,
    level: Level,
    hints: Vec<String>,
}

/// The finding recorded for the property and the place, if any.
fn listed(prop: &str, place: &str) -> Option<String> {
    let t = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    let p = format!("finding: property={} {} ", prop, place);
    t.lines().find(|l| l.starts_with(&p)).map(|l| l[p.len() - place.len() - 1..].to_string())
}
pub fn check(prop: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let units = props::units(prop, thorough);
    if units.is_empty() {
        println!("no check for {}", prop);
        return 2;
    }
    let s = Scratch::new();
    let st = crate::spec::selftest();
    let secs = if thorough { 3000 } else { 400 };
    let deadline = t0 + Duration::from_secs(secs);
    let (job, fail) = if thorough { (400, 400) } else { (90, 45) };
    let lem = {
        let p = prop.to_string();
        std::thread::spawn(move || lemmas(&p))
    };
    let opt = if prop == "C08" || prop == "C18" { crate::optir::run(prop, &s.0) } else { Default::default() };
    // the proof runs beside a watchdog: a check always answers
    let (tx, rx) = std::sync::mpsc::channel();
    {
        let (units, dir) = (units.clone(), s.0.clone());
        std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn(move || {
                let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&units, &dir, deadline, job, fail)));
                let _ = tx.send(o.ok());
            })
            .unwrap();
    }
    let o = match rx.recv_timeout(Duration::from_secs(secs + 40)) {
        Ok(Some(o)) => o,
        _ => {
            crate::term::STOP_AT.store(0, std::sync::atomic::Ordering::SeqCst);
            let jobs = PROGRESS.lock().map(|mut p| std::mem::take(&mut *p)).unwrap_or_default();
            Outcome { cut: true, jobs, ..Default::default() }
        }
    };
    let mut fails: Vec<Fail> = vec![];
    if let Err(e) = &st {
        println!("specification self test failed: {}", e);
        return 2;
    }
    for (c, e) in &o.build_errors {
        fails.push(Fail {
            unit: c.name(),
            func: "crate".into(),
            op: "build".into(),
            kind: "the crate does not compile in this configuration".into(),
            msg: e.clone(),
            at: String::new(),
            witness: String::new(),
            conf: Some(c.clone()),
            level: Level::None,
            hints: vec![],
        });
    }
    for (leg, pre, c, l, e) in &o.learn_errors {
        fails.push(Fail {
            unit: format!("{}@{}", tyname(pre), leg),
            func: "constructors and append".into(),
            op: "representation".into(),
            kind: "no representation invariant relates memory to the abstract state".into(),
            msg: e.clone(),
            at: String::new(),
            witness: String::new(),
            conf: Some(c.clone()),
            level: *l,
            hints: vec![],
        });
    }
    for j in &o.jobs {
        if j.res.proved() {
            continue;
        }
        for i in j.res.issues.iter().take(3) {
            fails.push(Fail {
                unit: j.unit.clone(),
                func: j.func.clone(),
                op: format!("{:?}", j.op),
                kind: match i.k {
                    IK::Fail(k) => k.name().to_string(),
                    IK::Value => "postcondition".into(),
                    IK::Rep => "representation invariant".into(),
                    IK::Unsup => "not decided".into(),
                    IK::Vacuous => "vacuous".into(),
                    IK::Frame => "frame condition".into(),
                },
                msg: i.msg.clone(),
                at: i.at.clone(),
                witness: i.witness.clone(),
                conf: Some(j.conf.clone()),
                level: j.level,
                hints: i.hint.clone(),
            });
        }
    }
    for (c, e) in &opt.errors {
        // reported above when the crate itself does not compile
        if o.build_errors.iter().any(|b| b.0.target == c.target) {
            continue;
        }
        fails.push(Fail {
            unit: c.name(),
            func: "crate".into(),
            op: "optimised build".into(),
            kind: "not decided".into(),
            msg: e.clone(),
            at: String::new(),
            witness: String::new(),
            conf: Some(c.clone()),
            level: Level::Avx,
            hints: vec![],
        });
    }
    for f in &opt.fails {
        fails.push(Fail {
            unit: format!("{} (opt-level 3, fat LTO)", f.conf.name()),
            func: f.op.clone(),
            op: "static".into(),
            kind: if prop == "C08" { "panic path in the optimised code" } else { "path to the allocator in the optimised code" }.into(),
            msg: f.path.join(" -> "),
            at: String::new(),
            witness: String::new(),
            conf: Some(f.conf.clone()),
            level: Level::Avx,
            hints: vec![],
        });
    }
    // the one target that is known to fail
    let bit = match prop {
        "C03" => 1,
        "C10" => 2,
        _ => 0,
    };
    if bit != 0 {
        match crate::replay::arm_be(&s.0) {
            Ok(0) => {}
            Ok(x) if x & bit == 0 => {}
            Ok(_) => match listed(prop, "aarch64_be") {
                Some(w) => println!("KNOWN-FINDING: property={} {}", prop, w),
                None => fails.push(Fail {
                    unit: "aarch64_be".into(),
                    func: "harness/aarch64_be.rs".into(),
                    op: "run".into(),
                    kind: "results differ from portable".into(),
                    msg: "big-endian aarch64, key [1, 2, 3, 4], one of the inputs of 0 to 99 bytes 3 * i + 1".into(),
                    at: String::new(),
                    witness: String::new(),
                    conf: None,
                    level: Level::None,
                    hints: vec![],
                }),
            },
            Err(e) => println!("aarch64_be not run: {}", tail(&e, 300)),
        }
    }
    // refuted obligations before undecided ones
    fails.sort_by_key(|f| f.kind == "not decided");
    if o.cut && fails.is_empty() {
        fails.push(Fail {
            unit: "all".into(),
            func: "all".into(),
            op: "time".into(),
            kind: "not decided".into(),
            msg: "obligations left when the time ran out".into(),
            at: String::new(),
            witness: String::new(),
            conf: None,
            level: Level::None,
            hints: vec![],
        });
    }
    let nviol = !fails.is_empty() as i32;
    let mut line = None;
    let mut replays: Vec<String> = vec![];
    if !fails.is_empty() {
        let (confirmed, text, rs) = confirm(prop, &fails, &s, seed, t0, thorough);
        replays = rs;
        let out = verif().join("out");
        let _ = std::fs::create_dir_all(&out);
        let path = out.join(format!("{}.txt", prop));
        let _ = std::fs::write(&path, text);
        line = Some(format!(
            "VIOLATION property={} replay={}{}",
            prop,
            path.display(),
            if confirmed { "" } else { " no-failing-input-found" }
        ));
    }
    let lem = lem.join().ok().flatten();
    if let Some(l) = lem.as_deref().filter(|l| !l.starts_with("not run") && !l.contains(" 0 errors")) {
        println!("composition lemmas: {}", l);
        return 2;
    }
    evidence(prop, tier, seed, &o, &opt, &lem, &fails, &replays, t0, nviol);
    let uniq = o.jobs.iter().filter(|j| !j.reused).count();
    println!(
        "{}: {} contracts in {} legs, {} distinct, {} not proved; {:.1} s",
        prop,
        o.jobs.len(),
        units.len(),
        uniq,
        o.jobs.iter().filter(|j| !j.res.proved()).count(),
        t0.elapsed().as_secs_f64()
    );
    match line {
        Some(l) => {
            for f in fails.iter().take(5) {
                let m: String = f.msg.chars().take(300).collect();
                println!("  failed obligation: {} of {} {} [{}]: {}", f.kind, f.func, f.op, f.unit, m);
            }
            println!("{}", l);
            1
        }
        None => 0,
    }
}

fn tail(s: &str, n: usize) -> String {
    let c: Vec<char> = s.chars().collect();
    c[c.len().saturating_sub(n)..].iter().collect()
}

/// The composition lemmas (histories from single operations), checked by Verus.  They speak of the
/// specification only, so no change to the code can break them.
fn lemmas(prop: &str) -> Option<String> {
    if !matches!(prop, "C05" | "C06" | "C11" | "C12" | "C13" | "C14" | "C15") {
        return None;
    }
    let o = std::process::Command::new("verus").arg(verif().join("lemmas/history.rs")).output();
    Some(match o {
        Err(e) => format!("not run: {}", e),
        Ok(o) => {
            let t = String::from_utf8_lossy(&o.stdout).into_owned() + &String::from_utf8_lossy(&o.stderr);
            match t.lines().find(|l| l.contains("verification results")) {
                Some(l) => l.to_string(),
                None => format!("not run: {}", tail(&t, 300)),
            }
        }
    })
}

/// Turn failed obligations into failing inputs on the real code.
fn confirm(prop: &str, fails: &[Fail], s: &Scratch, seed: u64, t0: Instant, thorough: bool) -> (bool, String, Vec<String>) {
    let mut runs: Vec<replay::Run> = vec![];
    let mut per: BTreeMap<&str, usize> = BTreeMap::new();
    let mut hints: Vec<String> = vec![];
    for f in fails {
        for h in &f.hints {
            if !hints.contains(h) && hints.len() < 60 {
                hints.push(h.clone());
            }
        }
    }
    // the legs with failures, a few per target, unoptimised failures first
    let mut legs: Vec<(Conf, Level)> = vec![];
    for f in fails {
        if let Some(c) = &f.conf {
            if f.op == "build" {
                continue;
            }
            let l = if c.target == X86 { f.level } else { Level::None };
            if !legs.contains(&(c.clone(), l)) {
                legs.push((c.clone(), l));
            }
        }
    }
    if legs.is_empty() {
        legs.push((Conf { target: X86, std: true, da: true, feats: "", native: false }, Level::Avx));
    }
    for (c, l) in legs {
        // big-endian targets share one replay target
        let t = if needs_core(c.target) { "be" } else { c.target };
        let n = per.entry(t).or_insert(0);
        let cap = if t == X86 { 8 } else if t == "be" { 1 } else { 2 };
        if *n >= cap {
            continue;
        }
        *n += 1;
        runs.push(replay::Run { conf: c.clone(), level: l, emu: false, opt: 3, hints: hints.clone(), huge: false, env: vec![] });
        // (what was compiled for this very CPU need not run on the emulated one)
        if prop == "C10" && c.target == X86 && l.plain() == Level::Avx && !c.native {
            runs.push(replay::Run { conf: c.clone(), level: l, emu: true, opt: 3, hints: vec![], huge: false, env: vec![] });
        }
        if c.target == X86 && l.plain() == Level::Avx && *n <= 2 {
            runs.push(replay::Run { conf: c.clone(), level: l, emu: false, opt: 0, hints: hints.clone(), huge: false, env: vec![] });
        }
    }
    // lengths beyond 32 bits, where an operation that takes any length is among the failed ones
    let long = fails.iter().any(|f| {
        (f.kind != "not decided" || f.msg.contains("no invariant")) && ["Append", "Hash(", "Hwrite", "IoWrite"].iter().any(|x| f.op.starts_with(x))
    });
    if long && matches!(prop, "C01" | "C02" | "C03" | "C05" | "C08" | "C12" | "C17") {
        let pick = |t: &str| runs.iter().position(|r| r.conf.target == t && r.level.plain() != Level::Sse && !r.emu && r.opt == 3);
        let mut r = match pick(X86).or(if prop == "C03" { pick(ARM) } else { None }) {
            Some(i) => runs[i].clone(),
            // the fast machine, with the checks of the failing legs
            None => replay::Run {
                conf: Conf { target: X86, std: true, da: fails.iter().find_map(|f| f.conf.as_ref()).map_or(true, |c| c.da), feats: "", native: false },
                level: Level::Avx,
                emu: false,
                opt: 3,
                hints: vec![],
                huge: false,
                env: vec![],
            },
        };
        r.huge = true;
        r.hints.clear();
        if r.conf.target == X86 {
            // this machine, whatever the CPU class
            r.level = Level::Avx;
        }
        runs.push(r);
    }
    let names = replay::env_names();
    if !names.is_empty() {
        let with: Vec<replay::Run> = runs
            .iter()
            .filter(|r| r.opt == 3 && !r.huge && r.conf.target == X86)
            .take(6)
            .map(|r| replay::Run { env: names.clone(), ..r.clone() })
            .collect();
        runs.extend(with);
    }
    let items: Vec<(usize, replay::Run)> = runs.into_iter().enumerate().collect();
    let left = 780u64.saturating_sub(t0.elapsed().as_secs()).clamp(60, 260);
    let secs = if thorough { 600 } else { left / 2 };
    let ans = par(&items, |(i, r)| replay::run(prop, r, &s.0.join(format!("r{}", i)), seed, secs));
    let mut confirmed = false;
    let mut text = format!("property {}\n\n", prop);
    let mut rs = vec![];
    for ((_, r), a) in items.iter().zip(&ans) {
        match a {
            replay::Ans::Fails(w) => {
                confirmed = true;
                text += &format!("FAILING INPUT on the real code, {}:\n", r.name());
                for l in w.lines().take(6) {
                    text += &format!("  {}\n", l);
                }
                text += "\n";
                rs.push(format!("{}: fails", r.name()));
            }
            replay::Ans::Clean(n, _) => rs.push(format!("{}: {} cases, none fails", r.name(), n)),
            replay::Ans::Broken(e) => rs.push(format!("{}: {}", r.name(), tail(e, 1500))),
        }
    }
    text += "replays run:\n";
    for r in &rs {
        text += &format!("  {}\n", r);
    }
    text += &format!("\nfailed obligations ({} listed):\n", fails.len().min(60));
    for f in fails.iter().take(60) {
        text += &format!(
            "- {} of `{}` ({}) in {}\n    {}\n    at {}\n    on the path {}\n",
            f.kind,
            f.func,
            f.op,
            f.unit,
            f.msg.replace('\n', "\n    "),
            f.at,
            f.witness
        );
        for h in &f.hints {
            text += &format!("    counterexample tried: {}\n", h.chars().take(900).collect::<String>());
        }
    }
    text += &format!(
        "\nto repeat: cd /verif && ./run.sh {}\n",
        prop
    );
    (confirmed, text, rs)
}

fn evidence(prop: &str, tier: &str, seed: u64, o: &Outcome, opt: &crate::optir::OptOut, lem: &Option<String>, fails: &[Fail], replays: &[String], t0: Instant, nviol: i32) {
    let mut ob = 0u64;
    let mut norm = 0u64;
    let mut z3 = 0u64;
    let mut z3ms = 0u64;
    let mut ms = 0u64;
    let mut loops = 0u64;
    let mut side: BTreeMap<String, u64> = BTreeMap::new();
    let mut externs: BTreeMap<String, u64> = BTreeMap::new();
    let mut funcs: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut under: BTreeMap<String, u64> = BTreeMap::new();
    let mut globals: BTreeSet<String> = BTreeSet::new();
    let mut notes: BTreeSet<String> = BTreeSet::new();
    let mut inv: BTreeSet<String> = BTreeSet::new();
    let mut contracts_ok = 0u64;
    let mut distinct = 0u64;
    let mut paths = 0u64;
    let mut open = 0u64;
    for j in &o.jobs {
        *under.entry(format!("{} :: {}", j.pre.trim_end_matches('_'), if j.chain == 0 { opname(&j.op) } else { j.func.clone() })).or_insert(0) += 1;
        if j.reused {
            continue;
        }
        distinct += 1;
        let r = &j.res;
        contracts_ok += r.proved() as u64;
        // value obligations, plus every side condition discharged on the way
        ob += r.obligations + r.counts.values().sum::<u64>();
        open += r.issues.len() as u64;
        norm += r.by_norm;
        z3 += r.by_z3;
        z3ms += r.z3_ms;
        ms += r.ms;
        loops += r.loops;
        paths += r.returns;
        for (k, v) in &r.counts {
            *side.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.externs {
            *externs.entry(k.clone()).or_insert(0) += v;
        }
        for f in &r.funcs {
            funcs.entry(tyname(j.pre).to_string()).or_default().insert(f.clone());
        }
        globals.extend(r.globals.iter().cloned());
        for n in r.notes.iter().take(3) {
            if notes.len() < 20 {
                notes.insert(n.clone());
            }
        }
        for n in r.inv.iter().take(2) {
            if inv.len() < 12 {
                inv.insert(n.clone());
            }
        }
    }
    let static_n: u64 = opt.checked.values().sum();
    ob += static_n;
    open += opt.fails.len() as u64;
    let discharged = ob.saturating_sub(open);
    let side_sum: u64 = side.values().sum();
    let fj = funcs
        .iter()
        .map(|(k, v)| format!("{}: {}", js(k), arr(&v.iter().collect::<Vec<_>>())))
        .collect::<Vec<_>>()
        .join(", ");
    let mut assume: Vec<String> = vec![
        "machine arithmetic is modelled exactly (bit vectors); no arithmetic is treated as mathematical".into(),
        "inputs: a slice of any length up to isize::MAX, any contents, any address with the alignment its type guarantees".into(),
    ];
    for (k, n) in &externs {
        assume.push(format!("trusted external ({} uses): {}", n, k));
    }
    assume.extend(props::assumptions(prop).iter().map(|x| x.to_string()));
    let cov = format!(
        "{{\"obligations\": {}, \"discharged\": {}, \"checker_cmd\": {}, \"trusted_base\": {},\n  \"contracts\": {}, \"distinct_contracts\": {}, \"contracts_proved\": {}, \"paths_returning\": {},\n  \"legs\": {}, \"configurations\": {},\n  \"by_back_end\": {{\"term normaliser\": {}, \"z3\": {}, \"side conditions (normaliser/interval)\": {}, \"reachability in optimised code\": {}}}, \"z3_ms\": {}, \"solver_cpu_ms\": {},\n  \"loops_proved_inductive\": {}, \"loop_invariants\": {}, \"invariant_rounds\": {}, \"demoted\": {},\n  \"side_conditions\": {},\n  \"functions_under_contract\": {},\n  \"functions_verified_inside\": {{{}}},\n  \"representations\": {{{}}},\n  \"mutable_globals_read\": {},\n  \"optimised_operations_searched\": {},\n  \"composition_lemmas\": {},\n  \"seconds\": {},\n  \"failed\": {}, \"replays\": {}, \"notes\": {}}}",
        ob,
        discharged,
        js(&format!("./run.sh {} (hwv check {})", prop, prop)),
        arr(&TRUSTED),
        o.jobs.len(),
        distinct,
        contracts_ok,
        paths,
        arr(&o.jobs.iter().map(|j| j.unit.clone()).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>()),
        arr(&o.confs),
        norm,
        z3,
        side_sum,
        static_n,
        z3ms,
        ms,
        loops,
        arr(&inv.iter().collect::<Vec<_>>()),
        o.rounds,
        arr(&o.demoted.iter().take(10).collect::<Vec<_>>()),
        map(&side),
        map(&under),
        fj,
        o.models.iter().map(|(k, v)| format!("{}: {}", js(k), js(v))).collect::<Vec<_>>().join(", "),
        arr(&globals.iter().collect::<Vec<_>>()),
        map(&opt.checked),
        js(lem.as_deref().unwrap_or("none needed")),
        format!("{{{}}}", o.secs.iter().map(|(k, v)| format!("{}: {:.2}", js(k), v)).collect::<Vec<_>>().join(", ")),
        arr(&fails.iter().take(20).map(|f| format!("{} of {} {} [{}]: {}", f.kind, f.func, f.op, f.unit, f.msg.chars().take(300).collect::<String>())).collect::<Vec<_>>()),
        arr(replays),
        arr(&notes.iter().collect::<Vec<_>>()),
    );
    let e = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"proof\",\n \"coverage\": {},\n \"assumptions\": {},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        js(prop),
        js(tier),
        seed,
        cov,
        arr(&assume),
        t0.elapsed().as_secs_f64(),
        nviol
    );
    let d = verif().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{}.json", prop)), e);
}

/// Development aid: the replay program of every kind of leg, on the tree as it is.
pub fn replay_all(prop: &str) -> i32 {
    let c = |target, std, da, feats| Conf { target, std, da, feats, native: false };
    let mut runs = vec![];
    let mut add = |conf: Conf, level, emu, opt| runs.push(replay::Run { conf, level, emu, opt, hints: vec![], huge: false, env: vec![] });
    for l in LEVELS {
        add(c(X86, true, true, ""), l, true, 3);
    }
    add(c(X86, true, true, ""), Level::Avx, false, 3);
    add(c(X86, true, true, ""), Level::Avx, false, 0);
    add(c(X86, true, false, ""), Level::Avx, false, 3);
    add(c(X86, false, false, "+avx2"), Level::Avx, false, 3);
    add(c(X86, false, true, "+sse4.1"), Level::Sse, false, 3);
    add(c(ARM, true, true, ""), Level::None, false, 3);
    add(c(ARM, false, false, ""), Level::None, false, 3);
    add(c(I686, true, true, ""), Level::None, false, 3);
    add(c(WASM, true, true, "+simd128"), Level::None, false, 3);
    add(c(WASM, false, false, ""), Level::None, false, 3);
    add(c(PPC, false, true, ""), Level::None, false, 3);
    if std::env::var("HWV_HUGE").is_ok() {
        runs = [(X86, Level::Avx, true), (X86, Level::Avx, false), (ARM, Level::None, true)]
            .into_iter()
            .map(|(t, level, da)| replay::Run { conf: c(t, true, da, ""), level, emu: false, opt: 3, hints: vec![], huge: true, env: vec![] })
            .collect();
    }
    let s = Scratch::new();
    let items: Vec<(usize, replay::Run)> = runs.into_iter().enumerate().collect();
    let mut bad = 0;
    let ans = par(&items, |(i, r)| {
        let t = Instant::now();
        (replay::run(prop, r, &s.0.join(format!("r{}", i)), 1, 400), t.elapsed().as_secs_f64())
    });
    for ((_, r), (a, t)) in items.iter().zip(ans) {
        let w = match a {
            replay::Ans::Clean(n, _) => format!("{} cases, none fails", n),
            replay::Ans::Fails(w) => {
                bad = 1;
                format!("FAILS {}", w.chars().take(800).collect::<String>())
            }
            replay::Ans::Broken(w) => {
                bad = 1;
                format!("BROKEN {}", tail(&w, 800))
            }
        };
        println!("{} {}{}: {} ({:.0} s)", prop, r.name(), if r.emu { " emulated" } else { "" }, w, t);
    }
    bad
}
