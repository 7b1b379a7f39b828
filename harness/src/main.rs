mod alloc;
mod net;
mod peer;
mod pipe;
mod refimpl;
mod run;
mod shaped;
mod suites;
mod util;

use run::{Options, Tier};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let mut args = std::env::args().skip(1);
    let mut id = String::new();
    let mut o = Options {
        tier: match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        },
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<i64>().ok())
            .map(|v| v as u64)
            .unwrap_or(1),
        only: None,
        scale: 1.0,
        evidence: None,
        replay_dir: "/verif/replays".into(),
        known: "/verif/known-findings.txt".into(),
        soft_limit_s: 0,
        hooks: cfg!(bip324_verif),
        quiet: false,
    };
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("argument value");
        match a.as_str() {
            "--tier" => o.tier = if v() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => o.seed = v().parse().expect("seed"),
            "--only" => {
                let f = v();
                let i = v().parse().expect("index");
                o.only = Some((f, i));
            }
            "--scale" => o.scale = v().parse().expect("scale"),
            "--evidence" => o.evidence = Some(v()),
            "--replays" => o.replay_dir = v(),
            "--known" => o.known = v(),
            "--soft" => o.soft_limit_s = v().parse().expect("seconds"),
            "--quiet" => o.quiet = true,
            _ => id = a,
        }
    }
    if o.soft_limit_s == 0 {
        o.soft_limit_s = if o.tier == Tier::Quick { 300 } else { 720 };
    }
    if let Err(e) = refimpl::self_test() {
        println!("ERROR {e}");
        std::process::exit(3);
    }
    run::install_panic_hook();
    let suite = match suites::suite(&id, o.tier) {
        Some(s) => s,
        None => {
            println!("ERROR unknown property {id}");
            std::process::exit(3);
        }
    };
    let out = run::execute(&suite, &o);
    let code = run::report(&suite, &o, &out);
    std::process::exit(code);
}
