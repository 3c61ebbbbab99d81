#![allow(dead_code, deprecated, overlapping_range_endpoints)]
mod util;
mod host;
mod testing_mod;
mod run;
mod sup;
mod corpus;
mod lang;
mod model;
mod gen_haz;
mod gen_prog;
mod p_diff;
mod p_sem;
mod shrink;
mod p_coll;
mod obs;
mod p_num;
mod p_hist;
mod p_eff;
mod p_cache;
mod p_limit;
mod p_robust;
mod p_match;
mod p_mut;
mod p_type;
mod p_str;
mod p_value;
mod tv;
mod p_serde;

use sup::*;

fn props() -> Vec<Prop> {
    vec![p_diff::prop(), p_sem::prop(), p_sem::prop_own(), p_coll::prop(), p_num::prop(), p_str::prop(), p_match::prop(), p_mut::prop(), p_type::prop(), p_limit::prop(), p_hist::prop(), p_eff::prop(), p_cache::prop(), p_robust::prop(), p_serde::prop(), p_value::prop()]
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let find = |id: &str| props().into_iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(2) });
    match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let p = find(&args[1]);
            let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") || args.get(2).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            std::process::exit(supervise(&p, tier, seed));
        }
        Some("worker") => worker_main(&find(&args[1]), &args[1..]),
        Some("replay") => {
            // replay ID seed case
            let out = format!("/tmp/vh-replay-{}", std::process::id());
            std::fs::create_dir_all(&out).unwrap();
            let mut a: Vec<String> = vec![args[1].clone(), args[2].clone(), "quick".into(), "0".into(), "1".into(), "0".into(), u64::MAX.to_string(), "600000".into(), out.clone(), args[3].clone()];
            if args.get(4).map(|s| s.as_str()) == Some("thorough") { a[2] = "thorough".into() }
            worker_main(&find(&args[1]), &a);
            let _ = std::fs::remove_dir_all(&out);
        }
        Some("corpus") => corpus::filter(&args[1], &args[2], &args[3]),
        Some("gen") => { for i in 0..args.get(2).and_then(|s| s.parse().ok()).unwrap_or(1u64) { let mut r = util::Rng::new(args[1].parse::<u64>().unwrap() + i); println!("// ----- {i}\n{}", lang::print_prog(&if args.get(3).is_some() { gen_haz::generate(&mut r) } else { gen_prog::generate(&mut r, Default::default()) })) } }
        Some("reduce") => corpus::reduce(&args[1], &args[2]),
        Some("mir") => corpus::print_mir(&args[1], args.len() > 2),
        // One execution path, in a thread with an ordinary stack; a sandbox violation is an answer.
        Some("run1") => {
            let (mode, src) = (args[1].clone(), std::fs::read_to_string(&args[2]).unwrap());
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                let mut s = run::Sess::new();
                let md = run::MODES[match mode.as_str() { "hir" => 0, "mir" => 1, _ => 2 }];
                match s.compile(&src) { Err(e) => println!("rejected: {e}"), Ok(o) => println!("{}", s.run_discard(o.module_id, o.expr.unwrap(), md, run::limits(100_000)).res.show()) }
            });
            let _ = h.unwrap().join();
        }
        Some("stdstart") => p_cache::start(),
        Some("eff") => p_eff::show(&args[1]),
        Some("stdserve") => p_cache::serve(),
        Some("run") => corpus::run_file(&args[1]),
        _ => { eprintln!("usage: vh check|worker|replay|corpus|run"); std::process::exit(2) }
    }
}
