mod bytes;
mod checks;
mod clock;
mod dbg;
mod explore;
mod export;
mod fam;
mod fork;
mod ids;
mod indep;
mod leaks;
mod loops;
mod mem;
mod mqtt;
mod obs;
mod outc;
mod report;
mod sess;
mod special;
mod starve;
mod values;
mod waits;
mod cross;
mod world;

use explore::*;

#[global_allocator]
static GLOBAL: mem::Alloc = mem::Alloc;

use std::time::{Duration, Instant};

fn main() {
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    std::env::set_var("RUST_BACKTRACE", "0");
    sess::quiet_panics();
    clock::install();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("try") => {
            let id = &a[2];
            let lim = Limits { threads: std::env::var("RUQMC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8), deadline: Instant::now() + Duration::from_secs(600), hang: Duration::from_secs(30), need_reproduction: true };
            let only = std::env::var("RUQMC_SPACE").unwrap_or_default();
            let sp: Vec<_> = checks::spaces(id, std::env::var_os("RUQMC_DEEP").is_some()).into_iter().filter(|s| s.name.contains(&only)).collect();
            let r = explore(&sp, &lim, &report::findings(&report::verif_dir()).into_iter().map(|f| f.key).collect::<Vec<_>>(), &|f| {
                println!("HANG {f:?}");
                std::process::exit(1)
            });
            println!("runs {} states {} events {} deepest {} diverged {} capped {:?}", r.runs, r.states, r.events, r.deepest, r.diverged, r.capped);
            for (k, m, f) in &r.known {
                println!("KNOWN {k} {m} in {} {:?}", f.space, f.choices);
            }
            if let Some(f) = r.found {
                println!("FOUND {} {:?}\n  {}: {}", f.space, f.choices, f.viol.tag, f.viol.msg);
                for t in f.trace {
                    println!("   {t}");
                }
            }
        }
        Some("export") if a.len() > 2 => export::export(&a[2]),
        Some("check") if a.len() > 2 => std::process::exit(report::supervised(&a[2])),
        Some("replay") if a.len() > 2 => std::process::exit(report::replay(&a[2])),
        _ => {
            eprintln!("ruqmc check <property> | replay <file>");
            std::process::exit(2)
        }
    }
}
