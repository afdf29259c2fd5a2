//! `ruqmc check <id>` and `ruqmc replay <file>`: limits, known findings, evidence, replay files.
use crate::checks;
use crate::explore::*;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub fn verif_dir() -> PathBuf {
    std::env::var_os("RUQMC_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub struct Finding {
    pub property: String,
    pub key: String,
    pub what: String,
}

/// Lines `finding: property=<id> key=<key> <what>`; everything else is for people.
pub fn findings(dir: &Path) -> Vec<Finding> {
    let text = std::fs::read_to_string(dir.join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (property, l) = l.split_once(" key=")?;
            let (key, what) = l.split_once(' ')?;
            Some(Finding { property: property.into(), key: key.into(), what: what.into() })
        })
        .collect()
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

fn write_replay(dir: &Path, id: &str, thorough: bool, f: &Found) -> PathBuf {
    let d = dir.join("replay");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{id}.txt"));
    let mut o = String::new();
    let _ = writeln!(o, "property: {id}\ntier: {}\nspace: {}", if thorough { "thorough" } else { "quick" }, f.space);
    let _ = writeln!(o, "choices: {}", f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
    let _ = writeln!(o, "oracle: {}\nmessage: {}", f.viol.tag, f.viol.msg.replace('\n', " "));
    let _ = writeln!(o, "reproduced: {}", f.reproduced);
    let _ = writeln!(o, "# replay with: ./check.sh replay {}", p.display());
    let _ = writeln!(o, "trace:");
    for t in &f.trace {
        let _ = writeln!(o, "  {}", clip(t, 2000));
    }
    let _ = std::fs::write(&p, o);
    p
}

struct Evidence<'a> {
    id: &'a str,
    thorough: bool,
    seed: i64,
    hook: bool,
}

impl Evidence<'_> {
    fn write(&self, dir: &Path, r: &Report, planned: &[String], wall: f64, violations: usize) {
        let mut o = String::from("{\n");
        let _ = writeln!(o, " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",", js(self.id), js(if self.thorough { "thorough" } else { "quick" }), self.seed);
        let _ = writeln!(o, " \"coverage\": {{");
        let _ = writeln!(o, "  \"states\": {},\n  \"transitions\": {},", r.states, r.events);
        let _ = writeln!(o, "  \"traces_validated_against_impl\": {},", r.runs + r.validated);
        let _ = writeln!(o, "  \"distinct_nontrivial\": {},", r.nontrivial);
        let _ = writeln!(o, "  \"rule\": {},", js("every choice sequence of every space below is executed once, on the real code; an execution is non-trivial if its sequence of events is not redundant (an event that was not enabled, or that repeats another execution, makes it trivial); states are distinct hashes of the observable history or abstract session state reached; transitions are the events applied"));
        let done = r.capped.is_empty() && r.per_space.len() == planned.len() && r.diverged == 0 && r.unreproduced.is_empty() && violations == 0;
        let _ = writeln!(o, "  \"exhaustive\": {done},");
        let _ = writeln!(o, "  \"deepest_choice_sequence\": {},\n  \"executions_diverged\": {},\n  \"allocator_deviations_no_session_shows\": {},\n  \"built_with_hook\": {},", r.deepest, r.diverged, r.hidden, self.hook);
        let _ = writeln!(o, "  \"spaces_capped\": [{}],", r.capped.iter().map(|c| js(c)).collect::<Vec<_>>().join(", "));
        let rest: Vec<_> = planned.iter().skip(r.per_space.len()).map(|c| js(c)).collect();
        let _ = writeln!(o, "  \"spaces_not_reached\": [{}],", rest.join(", "));
        let _ = writeln!(o, "  \"spaces\": [");
        let n = r.per_space.len();
        for (i, (name, runs, states, secs)) in r.per_space.iter().enumerate() {
            let _ = writeln!(o, "   {{\"name\": {}, \"executions\": {runs}, \"new_states\": {states}, \"seconds\": {secs:.2}}}{}", js(name), if i + 1 < n { "," } else { "" });
        }
        let _ = writeln!(o, "  ],\n  \"samples\": [");
        let n = r.samples.len();
        for (i, (name, t)) in r.samples.iter().enumerate() {
            let t: Vec<_> = t.iter().map(|l| js(&clip(l, 300))).collect();
            let _ = writeln!(o, "   {{\"space\": {}, \"execution\": [{}]}}{}", js(name), t.join(", "), if i + 1 < n { "," } else { "" });
        }
        let _ = writeln!(o, "  ],");
        let ex = if violations == 0 { "the oracle found nothing to object to in any execution" } else { "a violation stopped the exploration" };
        let _ = writeln!(o, "  \"explanation\": {}", js(ex));
        let _ = writeln!(o, " }},");
        let _ = writeln!(
            o,
            " \"assumptions\": [{}],",
            [
                "the simulated socket answers as a real one (checked against real TCP, see DESIGN.md)",
                "tokio's channels, codec driver, timers and select! are the real ones; only the socket and select!'s random start are replaced",
                "one thread: the crate has no threads of its own and its futures are polled by one executor thread at a time",
                "behaviour outside the stated alphabets and depths is not covered",
            ]
            .iter()
            .map(|s| js(s))
            .collect::<Vec<_>>()
            .join(", ")
        );
        let _ = writeln!(o, " \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}");
        let d = dir.join("evidence");
        let _ = std::fs::create_dir_all(&d);
        std::fs::write(d.join(format!("{}.json", self.id)), o).expect("evidence");
    }
}

fn violation(dir: &Path, id: &str, thorough: bool, f: &Found) {
    let p = write_replay(dir, id, thorough, f);
    println!("space:  {}", f.space);
    println!("oracle: {}: {}", f.viol.tag, clip(&f.viol.msg, 3000));
    if !f.reproduced && !f.hang {
        println!("note: the same choices do not always lead to this violation: the code under test is not deterministic");
    }
    for t in f.trace.iter().take(200) {
        println!("   {}", clip(t, 400));
    }
    println!("VIOLATION property={id} replay={}", p.display());
}

/// The check in a process of its own: what kills it is a violation too.
pub fn supervised(id: &str) -> i32 {
    use crate::fork::*;
    const KILL: i32 = 9;
    let mut few = false;
    loop {
        let sig = match supervised(|| {
            if few {
                std::env::set_var("RUQMC_THREADS", "2");
            }
            check(id)
        }) {
            Fate::Exit(c) => return c,
            Fate::Signal(s) => s,
        };
        if sig == KILL {
            if few {
                eprintln!("killed twice (out of memory?)");
                return 2;
            }
            // most likely out of memory
            few = true;
            continue;
        }
        let dir = verif_dir();
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let spaces = checks::spaces(id, thorough);
        let words = last_words();
        let mut worst: Option<Found> = None;
        for (h, path) in words {
            let Some(sp) = spaces.iter().find(|s| name_hash(&s.name) == h) else { continue };
            let dies = matches!(
                crate::fork::supervised(|| {
                    let _ = on_worker_stack(&sp.run, path.clone(), false);
                    0
                }),
                Fate::Signal(_)
            );
            if dies || worst.is_none() {
                let msg = format!("the process was killed by signal {sig} (6: abort or stack overflow, 11: invalid memory access)");
                worst = Some(Found { space: sp.name.clone(), choices: path, viol: Viol { tag: "CRASH", msg, key: String::new() }, trace: vec![], reproduced: dies, hang: false });
            }
            if dies {
                break;
            }
        }
        let Some(f) = worst else {
            eprintln!("killed by signal {sig} outside of any execution");
            return 2;
        };
        let ev = Evidence { id, thorough, seed, hook: cfg!(feature = "hook") };
        let r = Report { samples: vec![(f.space.clone(), vec![format!("choices {:?} kill the process", f.choices)])], ..Report::default() };
        let planned: Vec<String> = spaces.iter().map(|s| s.name.clone()).collect();
        ev.write(&dir, &r, &planned, 0.0, 1);
        violation(&dir, id, thorough, &f);
        return 1;
    }
}

pub fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let dir = verif_dir();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let again = std::env::var("RUQMC_AGAIN").ok();
    let only: Option<Vec<&str>> = again.as_ref().map(|a| a.split('\n').collect());
    let again = again.is_some();
    let num = |n: &str, d: u64| std::env::var(n).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let lim = Limits {
        threads: num("RUQMC_THREADS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(1, 8)) as usize,
        deadline: t0 + Duration::from_secs(num("RUQMC_DEADLINE", if thorough { 780 } else { 420 })),
        hang: Duration::from_secs(num("RUQMC_HANG", if thorough { 200 } else { 100 })),
        need_reproduction: !again,
    };
    let known: Vec<Finding> = findings(&dir).into_iter().filter(|f| f.property == id).collect();
    let keys: Vec<String> = known.iter().map(|f| f.key.clone()).collect();
    let ev = Evidence { id, thorough, seed, hook: cfg!(feature = "hook") };
    let mut spaces = checks::spaces(id, thorough);
    if let Some(only) = only {
        spaces.retain(|s| only.contains(&s.name.as_str()));
    }
    if spaces.is_empty() {
        eprintln!("no such check: {id}");
        return 2;
    }
    let planned: Vec<String> = spaces.iter().map(|s| s.name.clone()).collect();
    let on_hang = |f: Found| {
        let r = Report { samples: vec![(f.space.clone(), vec![format!("choices {:?} do not return", f.choices)])], ..Report::default() };
        ev.write(&dir, &r, &planned, t0.elapsed().as_secs_f64(), 1);
        violation(&dir, id, thorough, &f);
        std::process::exit(1)
    };
    let r = explore(&spaces, &lim, &keys, &on_hang);
    let wall = t0.elapsed().as_secs_f64();
    ev.write(&dir, &r, &planned, wall, r.found.is_some() as usize);
    for k in &known {
        if let Some((_, m, f)) = r.known.iter().find(|x| x.0 == k.key) {
            println!("KNOWN-FINDING: property={id} {} [{}: {}]", k.what, f.space, clip(m, 200));
        }
    }
    println!(
        "{id}: {} executions, {} states, {} transitions, {} spaces, {:.1} s{}{}",
        r.runs + r.validated,
        r.states,
        r.events,
        r.per_space.len(),
        wall,
        if r.capped.is_empty() { String::new() } else { format!(", capped: {}", r.capped.join("; ")) },
        if r.diverged > 0 { format!(", {} executions diverged", r.diverged) } else { String::new() }
    );
    for u in &r.unreproduced {
        println!("note: seen once, not reproduced: {}: {}", u.space, clip(&u.viol.msg, 300));
    }
    if let Some(f) = &r.found {
        violation(&dir, id, thorough, f);
        return 1;
    }
    if !again && !r.unreproduced.is_empty() {
        // Seen once, not seen again with the same choices: search those spaces again, in a
        // fresh process, before believing it. What shows twice is the doing of the code under
        // test (process-wide state, or nondeterminism of its own).
        let only: Vec<&str> = r.unreproduced.iter().map(|u| u.space.as_str()).collect();
        let left = lim.deadline.saturating_duration_since(Instant::now()).as_secs().max(60);
        let c = std::process::Command::new(std::env::current_exe().expect("own path")).args(["check", id]).env("RUQMC_AGAIN", only.join("\n")).env("RUQMC_DEADLINE", left.to_string()).status();
        if c.as_ref().is_ok_and(|c| c.code() == Some(1)) {
            return 1;
        }
        ev.write(&dir, &r, &planned, t0.elapsed().as_secs_f64(), 0);
    }
    0
}

pub fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let field = |n: &str| text.lines().find_map(|l| l.strip_prefix(n)).unwrap_or("").trim().to_string();
    let (id, name) = (field("property:"), field("space:"));
    let choices: Vec<u16> = field("choices:").split_whitespace().filter_map(|s| s.parse().ok()).collect();
    for sp in checks::spaces(&id, field("tier:") == "thorough") {
        if sp.name == name {
            return match on_worker_stack(&sp.run, choices, true) {
                Err(e) => {
                    println!("the choices do not fit this tree: {e}");
                    2
                }
                Ok(o) => {
                    for t in &o.trace {
                        println!("   {t}");
                    }
                    match o.res {
                        Err(v) => {
                            println!("{}: {}", v.tag, v.msg);
                            println!("VIOLATION property={id} replay={file}");
                            1
                        }
                        Ok(()) => {
                            println!("no violation");
                            0
                        }
                    }
                }
            };
        }
    }
    println!("no space named {name:?} in {id}");
    2
}
