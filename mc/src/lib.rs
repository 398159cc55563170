pub mod engine; pub mod geom; pub mod hull; pub mod dela; pub mod big; pub mod search; pub mod values; pub mod recolor; pub mod palette; pub mod misc; pub mod cliapp; pub mod web; pub mod checks;
use engine::*;
use std::time::Duration;

/// `check ID`, `replay ID space case`, `list`; `make` builds a check's spaces.
pub fn cli(ids: &[&str], make: fn(&str, bool) -> Option<Check<'static>>) {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    geom::self_test();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => for id in ids { println!("{}", id); },
        Some("check") => {
            let c = make(&a[2], thorough).expect("unknown property");
            let secs = std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 700 });
            std::process::exit(run_check(&c, Duration::from_secs(secs)));
        }
        Some("replay") => {
            let c = make(&a[2], false).into_iter().chain(make(&a[2], true)).find(|c| c.spaces.iter().any(|s| s.name == a[3])).expect("unknown space");
            let sp = c.spaces.iter().find(|s| s.name == a[3]).unwrap();
            std::env::set_var("MC_VERBOSE", "1");
            let v = replay_one(sp, a[4].parse().unwrap());
            println!("case: {}", (sp.desc)(a[4].parse().unwrap()));
            for x in &v { println!("FAILS: {} -- {}", x.key, x.detail); }
            if v.is_empty() { println!("holds"); } else { std::process::exit(1) }
        }
        _ => { eprintln!("usage: check|replay|list"); std::process::exit(2) }
    }
}
