//! Parallel stateless depth-first search over choice sequences.
//!
//! An execution is a deterministic function of its choice sequence. Workers enumerate a subtree
//! in lexicographic order and hand over unexplored ranges of their shallowest open choice to
//! idle workers, so every choice sequence is executed exactly once.
use crate::world::*;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    /// oracle that failed
    pub tag: &'static str,
    pub msg: String,
    /// signature for the list of known findings
    pub key: String,
}

pub fn viol<T>(tag: &'static str, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { tag, msg: msg.into(), key: String::new() })
}

/// What one execution sees.
pub struct Ctx {
    pub w: W,
    pub trace: Option<Vec<String>>,
    pub events: u64,
    pub states: Vec<u64>,
    /// the execution observed nothing worth counting (e.g. a redundant sequence)
    pub trivial: bool,
    pub known: Vec<(String, String)>,
    /// further histories replayed against the implementation inside this execution
    pub validated: u64,
    pub hidden: u64,
    pub capped: bool,
}

impl Ctx {
    pub fn choose(&mut self, n: usize) -> usize {
        self.w.borrow_mut().ch.choose(n)
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(f())
        }
    }
    pub fn state(&mut self, h: u64) {
        self.states.push(h)
    }
}

pub type RunFn = Box<dyn Fn(&mut Ctx) -> Result<(), Viol> + Send + Sync>;

pub struct Space {
    pub name: String,
    pub run: RunFn,
}

pub fn space(name: impl Into<String>, f: impl Fn(&mut Ctx) -> Result<(), Viol> + Send + Sync + 'static) -> Space {
    Space { name: name.into(), run: Box::new(f) }
}

#[derive(Clone, Debug)]
pub struct Found {
    pub space: String,
    pub choices: Vec<u16>,
    pub viol: Viol,
    pub trace: Vec<String>,
    pub reproduced: bool,
    pub hang: bool,
}

#[derive(Default, Debug)]
pub struct Report {
    pub runs: u64,
    pub nontrivial: u64,
    pub events: u64,
    pub states: u64,
    pub deepest: usize,
    pub diverged: u64,
    pub validated: u64,
    pub hidden: u64,
    pub capped: Vec<String>,
    pub per_space: Vec<(String, u64, u64, f64)>,
    pub samples: Vec<(String, Vec<String>)>,
    pub found: Option<Found>,
    pub known: Vec<(String, String, Found)>,
    pub unreproduced: Vec<Found>,
}

struct Work {
    prefix: Vec<u16>,
    lo: u16,
    hi: u16,
}

pub struct Outcome {
    pub res: Result<(), Viol>,
    pub taken: Vec<(u16, u16)>,
    pub events: u64,
    pub states: Vec<u64>,
    pub trivial: bool,
    pub trace: Vec<String>,
    pub known: Vec<(String, String)>,
    pub validated: u64,
    pub hidden: u64,
    pub capped: bool,
}

/// One execution. Err: the choice sequence did not fit (non-determinism).
pub fn execute(run: &RunFn, prefix: Vec<u16>, traced: bool) -> Result<Outcome, String> {
    let w = install(prefix);
    crate::fam::limit_ids(None);
    crate::sess::WAY.with(|w| w.set(Default::default()));
    let mut cx = Ctx { w: w.clone(), trace: if traced { Some(vec![]) } else { None }, events: 0, states: vec![], trivial: false, known: vec![], validated: 0, hidden: 0, capped: false };
    let r = catch_unwind(AssertUnwindSafe(|| run(&mut cx)));
    let Ctx { trace, events, states, trivial, known, validated, hidden, capped, .. } = cx;
    tokio::sim::install(None);
    let res = match r {
        Ok(r) => r,
        Err(p) => match p.downcast::<Diverged>() {
            Ok(d) => return Err(d.0),
            Err(p) => match p.downcast::<Spin>() {
                Ok(s) => viol("SPIN", s.0),
                Err(_) => {
                    eprintln!("harness: internal panic: {:?}", crate::sess::LAST_PANIC.with(|p| p.borrow().clone()));
                    std::process::exit(3);
                }
            },
        },
    };
    let taken = std::mem::take(&mut w.borrow_mut().ch.taken);
    w.borrow_mut().inject = None;
    Ok(Outcome { res, taken, events, states, trivial, trace: trace.unwrap_or_default(), known, validated, hidden, capped })
}

/// The stack of an execution: as much as a worker thread of tokio has.
pub const STACK: usize = 2 << 20;

struct Slot {
    since: AtomicU64,
    prefix: Mutex<Vec<u16>>,
}

/// Like `execute`, on a thread like those that explore.
pub fn on_worker_stack(run: &RunFn, prefix: Vec<u16>, traced: bool) -> Result<Outcome, String> {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || execute(run, prefix, traced)).unwrap().join().expect("harness"))
}

pub struct Limits {
    pub threads: usize,
    pub deadline: Instant,
    /// one execution taking longer than this is a hang of the code under test
    pub hang: Duration,
    pub need_reproduction: bool,
}

const SHARDS: usize = 64;

pub struct States(Vec<Mutex<HashSet<u64>>>, AtomicU64);
impl States {
    pub fn new() -> Self {
        States((0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(), AtomicU64::new(0))
    }
    fn add(&self, v: &mut HashSet<u64>) {
        let mut by: Vec<Vec<u64>> = vec![vec![]; SHARDS];
        for h in v.drain() {
            by[(h % SHARDS as u64) as usize].push(h)
        }
        for (i, b) in by.into_iter().enumerate() {
            if b.is_empty() {
                continue;
            }
            let mut s = self.0[i].lock().unwrap();
            for h in b {
                if s.insert(h) {
                    self.1.fetch_add(1, Relaxed);
                }
            }
        }
    }
    pub fn len(&self) -> u64 {
        self.1.load(Relaxed)
    }
}

pub fn explore(spaces: &[Space], lim: &Limits, known_keys: &[String], on_hang: &(dyn Fn(Found) + Sync)) -> Report {
    let mut rep = Report::default();
    let states = States::new();
    for sp in spaces {
        let t0 = Instant::now();
        let st0 = states.len();
        let (runs0, name) = (rep.runs, sp.name.clone());
        explore_one(sp, lim, known_keys, on_hang, &states, &mut rep);
        if std::env::var_os("RUQMC_VERBOSE").is_some() {
            eprintln!("  space {:40} runs {:9} states {:9} {:6.2}s", name, rep.runs - runs0, states.len() - st0, t0.elapsed().as_secs_f64());
        }
        rep.per_space.push((name, rep.runs - runs0, states.len() - st0, t0.elapsed().as_secs_f64()));
        if rep.found.is_some() {
            break;
        }
    }
    rep.states = states.len();
    rep
}

fn explore_one(sp: &Space, lim: &Limits, known_keys: &[String], on_hang: &(dyn Fn(Found) + Sync), states: &States, rep: &mut Report) {
    let queue: Mutex<Vec<Work>> = Mutex::new(vec![Work { prefix: vec![], lo: 0, hi: 0 }]);
    let cv = Condvar::new();
    let idle = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let started = Instant::now();
    let runs = AtomicU64::new(0);
    let nontrivial = AtomicU64::new(0);
    let events = AtomicU64::new(0);
    let diverged = AtomicU64::new(0);
    let deepest = AtomicUsize::new(0);
    let validated = AtomicU64::new(0);
    let hidden = AtomicU64::new(0);
    let part = AtomicBool::new(false);
    let found: Mutex<Option<(Vec<u16>, Viol)>> = Mutex::new(None);
    let known: Mutex<Vec<(String, String, Vec<u16>, Viol)>> = Mutex::new(vec![]);
    let name_hash = crate::fork::name_hash(&sp.name);
    let slots: Vec<Slot> = (0..lim.threads).map(|_| Slot { since: AtomicU64::new(0), prefix: Mutex::new(vec![]) }).collect();

    std::thread::scope(|sc| {
        let mut hs = vec![];
        for me in 0..lim.threads {
            let (queue, cv, idle, stop, capped, runs, nontrivial, events, diverged, deepest, found, known, slots, done, validated, hidden, part) =
                (&queue, &cv, &idle, &stop, &capped, &runs, &nontrivial, &events, &diverged, &deepest, &found, &known, &slots, &done, &validated, &hidden, &part);
            hs.push(std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || {
                let mut local: HashSet<u64> = HashSet::new();
                'outer: loop {
                    let work = {
                        let mut q = queue.lock().unwrap();
                        loop {
                            if stop.load(Relaxed) || done.load(Relaxed) {
                                break 'outer;
                            }
                            if let Some(w) = q.pop() {
                                break w;
                            }
                            if idle.fetch_add(1, SeqCst) + 1 == slots.len() {
                                done.store(true, SeqCst);
                                cv.notify_all();
                                break 'outer;
                            }
                            q = cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
                            idle.fetch_sub(1, SeqCst);
                        }
                    };
                    let root = work.prefix.is_empty() && work.hi == 0;
                    let mut base = work.prefix.len();
                    let level0 = base;
                    let mut hi0 = if root { u16::MAX } else { work.hi };
                    let mut path = work.prefix;
                    if !root {
                        path.push(work.lo);
                    }
                    loop {
                        if stop.load(Relaxed) {
                            break 'outer;
                        }
                        if Instant::now() > lim.deadline {
                            capped.store(true, Relaxed);
                            stop.store(true, Relaxed);
                            break 'outer;
                        }
                        let slot = &slots[me];
                        {
                            let mut p = slot.prefix.lock().unwrap();
                            p.clear();
                            p.extend_from_slice(&path);
                        }
                        slot.since.store(started.elapsed().as_millis() as u64 + 1, Relaxed);
                        crate::fork::running(me, name_hash, &path);
                        let out = execute(&sp.run, path.clone(), false);
                        crate::fork::resting(me);
                        slot.since.store(0, Relaxed);
                        runs.fetch_add(1, Relaxed);
                        let taken = match out {
                            Err(_) => {
                                diverged.fetch_add(1, Relaxed);
                                // give up this path: advance from what we had
                                path.iter().map(|v| (*v, *v + 1)).collect::<Vec<_>>()
                            }
                            Ok(o) => {
                                events.fetch_add(o.events, Relaxed);
                                if !o.trivial {
                                    nontrivial.fetch_add(1, Relaxed);
                                }
                                deepest.fetch_max(o.taken.len(), Relaxed);
                                validated.fetch_add(o.validated, Relaxed);
                                hidden.fetch_add(o.hidden, Relaxed);
                                part.fetch_or(o.capped, Relaxed);
                                local.extend(o.states);
                                if local.len() > 4096 {
                                    states.add(&mut local);
                                }
                                for (k, m) in o.known {
                                    let mut kn = known.lock().unwrap();
                                    if !kn.iter().any(|x| x.0 == k) {
                                        let v = Viol { tag: "KNOWN", msg: m.clone(), key: k.clone() };
                                        kn.push((k, m, o.taken.iter().map(|t| t.0).collect(), v));
                                    }
                                }
                                if let Err(v) = o.res {
                                    let ch: Vec<u16> = o.taken.iter().map(|t| t.0).collect();
                                    if !v.key.is_empty() && known_keys.contains(&v.key) {
                                        let mut k = known.lock().unwrap();
                                        if !k.iter().any(|x| x.0 == v.key) {
                                            k.push((v.key.clone(), v.msg.clone(), ch, v));
                                        }
                                    } else {
                                        let mut f = found.lock().unwrap();
                                        let better = match &*f {
                                            None => true,
                                            Some((c, _)) => ch.len() < c.len(),
                                        };
                                        if better {
                                            *f = Some((ch, v));
                                        }
                                        stop.store(true, Relaxed);
                                        break 'outer;
                                    }
                                }
                                o.taken
                            }
                        };
                        // hand over half of the remaining tree if somebody waits
                        if idle.load(Relaxed) > 0 {
                            let mut i = base;
                            while i < taken.len() {
                                let n = if i == level0 { hi0.min(taken[i].1) } else { taken[i].1 };
                                if taken[i].0 + 1 < n {
                                    let prefix = taken[..i].iter().map(|t| t.0).collect();
                                    queue.lock().unwrap().push(Work { prefix, lo: taken[i].0 + 1, hi: n });
                                    cv.notify_one();
                                    base = i + 1;
                                    hi0 = u16::MAX;
                                    break;
                                }
                                i += 1;
                            }
                        }
                        // next in lexicographic order
                        let mut i = taken.len();
                        let mut next = None;
                        while i > base {
                            i -= 1;
                            let n = if i == level0 { hi0.min(taken[i].1) } else { taken[i].1 };
                            if taken[i].0 + 1 < n {
                                next = Some(i);
                                break;
                            }
                        }
                        match next {
                            None => break,
                            Some(i) => {
                                path.clear();
                                path.extend(taken[..i].iter().map(|t| t.0));
                                path.push(taken[i].0 + 1);
                            }
                        }
                    }
                }
                states.add(&mut local);
                cv.notify_all();
            }).unwrap());
        }
        // watchdog
        loop {
            if hs.iter().all(|h| h.is_finished()) {
                break;
            }
            std::thread::sleep(Duration::from_millis(3));
            let now = started.elapsed().as_millis() as u64;
            for s in &slots {
                let t = s.since.load(Relaxed);
                if t > 0 && now > t && now - t > lim.hang.as_millis() as u64 {
                    let choices = s.prefix.lock().unwrap().clone();
                    on_hang(Found {
                        space: sp.name.clone(),
                        choices,
                        viol: Viol { tag: "HANG", msg: format!("one execution did not return within {:?}", lim.hang), key: String::new() },
                        trace: vec![],
                        reproduced: false,
                        hang: true,
                    });
                }
            }
        }
    });
    rep.runs += runs.load(Relaxed);
    rep.nontrivial += nontrivial.load(Relaxed);
    rep.events += events.load(Relaxed);
    rep.diverged += diverged.load(Relaxed);
    rep.deepest = rep.deepest.max(deepest.load(Relaxed));
    rep.validated += validated.load(Relaxed);
    rep.hidden += hidden.load(Relaxed);
    if capped.load(Relaxed) || part.load(Relaxed) {
        rep.capped.push(sp.name.clone());
    }
    // a sample execution, written out
    if rep.samples.len() < 12 {
        let mut pre = vec![];
        // take the last branch everywhere for a few levels, to show something busy
        for _ in 0..3 {
            if let Ok(o) = on_worker_stack(&sp.run, pre.clone(), true) {
                if let Some((i, t)) = o.taken.iter().enumerate().skip(pre.len()).find(|(_, t)| t.1 > 1) {
                    let mut p: Vec<u16> = o.taken[..i].iter().map(|t| t.0).collect();
                    p.push(t.1 / 2);
                    pre = p;
                }
            }
        }
        if let Ok(o) = on_worker_stack(&sp.run, pre, true) {
            let mut t = o.trace;
            t.truncate(14);
            rep.samples.push((sp.name.clone(), t));
        }
    }
    let mk = |ch: Vec<u16>, v: Viol| {
        let mut same = true;
        let mut trace = vec![];
        for _ in 0..2 {
            match on_worker_stack(&sp.run, ch.clone(), true) {
                Ok(o) => {
                    same &= matches!(&o.res, Err(x) if x.tag == v.tag) || o.known.iter().any(|k| k.0 == v.key);
                    trace = o.trace;
                }
                Err(_) => same = false,
            }
        }
        Found { space: sp.name.clone(), choices: ch, viol: v, trace, reproduced: same, hang: false }
    };
    for (k, m, ch, v) in known.into_inner().unwrap() {
        if !rep.known.iter().any(|x| x.0 == k) {
            rep.known.push((k, m, mk(ch, v)));
        }
    }
    if let Some((ch, v)) = found.into_inner().unwrap() {
        let f = mk(ch, v);
        if f.reproduced || !lim.need_reproduction {
            rep.found = Some(f);
        } else {
            rep.unreproduced.push(f);
        }
    }
}
