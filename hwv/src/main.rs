mod contract;
mod drive;
mod exec;
mod infer;
mod intrin;
mod ir;
mod optir;
mod props;
mod replay;
mod smt;
mod spec;
mod sym;
mod term;
mod vectors;
mod verdict;

fn real() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("setup") => {
            for t in [drive::PPC, drive::S390] {
                if let Err(e) = drive::build_core(t) {
                    println!("{}", e);
                    return 2;
                }
            }
            if let Err(e) = replay::build_be() {
                println!("{}", e);
                return 2;
            }
            // without it one finding cannot be shown, and nothing else
            if let Err(e) = replay::build_arm_be() {
                println!("{}", e);
            }
            match spec::selftest() {
                Ok(n) => println!("specification agrees with {} published vectors", n),
                Err(e) => {
                    println!("{}", e);
                    return 2;
                }
            }
            0
        }
        Some("check") if a.len() > 2 => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = if tier == "thorough" { "thorough" } else { "quick" };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            verdict::check(&a[2], tier, seed)
        }
        Some("replay") if a.len() > 2 => verdict::replay_all(&a[2]),
        _ => {
            println!("hwv setup | hwv check PROPERTY");
            2
        }
    }
}
fn main() {
    term::since_start();
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if i.payload().downcast_ref::<&str>() != Some(&term::LIMIT) {
            old(i)
        }
    }));
    let r = std::thread::Builder::new().stack_size(1 << 30).spawn(real).unwrap().join().unwrap_or(2);
    std::process::exit(r);
}
