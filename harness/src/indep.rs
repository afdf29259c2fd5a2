//! C19: several sessions in one process, each compared with itself alone in a fresh process.
//! The schedule is chosen first and does not depend on what the sessions do; it then runs in a
//! forked copy of this process, so that process-wide state cannot leak from one execution into
//! the next, nor into the reference.
use crate::checks::*;
use crate::explore::*;
use crate::fam::*;
use crate::mqtt::*;
use crate::obs::*;
use crate::sess::*;
use crate::world::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

fn big(n: usize, salt: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(7) ^ salt).collect()
}

const SCRIPTS: usize = 18;

fn script(n: usize) -> Vec<Ev> {
    let ca = || Ev::Srv("CONNACK", connack(false, 0, &[]));
    let wide = |q, salt: u8| Ev::Cmd(Cmd::Pub { topic: format!("wide/{salt}"), payload: Pay::Bytes(big(9000 + salt as usize, salt)), qos: Some(q), props: vec![RProp::User("k".into(), format!("{salt}"))] });
    match n {
        0 => vec![ca(), Ev::Cmd(csub()), Ev::Cmd(cpub(1)), Ev::AckOldest],
        1 => vec![Ev::Cmd(cpub(1)), ca(), p1(1), Ev::AckOldest],
        2 => vec![ca(), p1(7), Ev::Pong, Ev::Cmd(cunsub())],
        3 => vec![ca(), half1(), Ev::Rest, Ev::Cmd(Cmd::Disc)],
        4 => vec![ca(), Ev::Cmd(csub()), Ev::Srv("DISCONNECT", disconnect(0x8B))],
        5 => vec![ca(), Ev::Quota(3), Ev::Cmd(cpub(2)), Ev::Unblock],
        6 => vec![ca(), Ev::Srv("malformed", vec![0x30, 1, 0])],
        7 => vec![ca(), Ev::Cmd(csub()), Ev::AckFree(9), Ev::Cmd(csub()), Ev::Eof],
        8 => vec![Ev::Srv("CONNACK refusing", connack(false, 0x87, &[]))],
        9 => vec![ca(), Ev::Pause, three(), Ev::DropRx, p1(2)],
        10 => vec![ca(), Ev::Quota(100), wide(1, 3), Ev::Unblock, Ev::AckOldest],
        11 => vec![ca(), Ev::Half("half a long PUBLISH", publish(false, 1, false, "long", 5, &[RProp::Pfi(0), RProp::User("u".into(), "v".into())], &big(9000, 9))), Ev::Rest, wide(0, 8)],
        12 => vec![ca(), Ev::Clone, Ev::CmdOnClone(cpub(1)), Ev::DropAll, p0()],
        13 => vec![Ev::Srv("garbage", vec![0xFF; 5])],
        14 => vec![ca(), Ev::Cmd(cpub(1)), Ev::Cmd(cpub(1)), Ev::AckNewest, Ev::AckDup],
        15 => vec![Ev::Refuse],
        16 => vec![Ev::Accept, ca(), Ev::Cmd(cpub(1))],
        _ => vec![ca(), Ev::FailW(2), Ev::Cmd(csub())],
    }
}

/// Longer lives, for executions that do not enumerate interleavings.
fn long_script(n: usize) -> Vec<Ev> {
    let mut v = script(n);
    if matches!(n, 0 | 1 | 2 | 10 | 14) {
        for i in 0..6 {
            v.extend([Ev::Cmd(cpub(1)), p1(50 + i), Ev::Pong, Ev::AckOldest, Ev::Cmd(csub())]);
        }
    }
    v
}

/// A session that meets everything: whatever others left behind would show.
fn rich() -> Vec<Ev> {
    let us = || vec![RProp::Reason("fine".into()), RProp::User("k".into(), "v".into())];
    let all = || vec![RProp::Pfi(1), RProp::Expiry(77), RProp::Resp("resp/x".into()), RProp::Corr(vec![9, 8, 7]), RProp::User("a".into(), "b".into()), RProp::User("a".into(), "c".into())];
    let cmd = |topic: &str, payload, qos, props| Ev::Cmd(Cmd::Pub { topic: topic.into(), payload, qos: Some(qos), props });
    vec![
        Ev::Srv("CONNACK", connack(true, 0, &us())),
        Ev::Cmd(csub()),
        Ev::Srv("SUBACK", suback(1, 1, &us())),
        cmd("out/text", Pay::Text("some text".into()), 1, all()),
        Ev::Srv("PUBLISH", publish(false, 1, true, "in/text", 5, &all(), b"hello")),
        Ev::Srv("PUBLISH", publish(true, 0, false, "in/bytes", 0, &[], &[0, 255, 1])),
        Ev::Half("half a PUBLISH", publish(false, 1, false, "in/half", 6, &all(), b"rest")),
        Ev::Rest,
        Ev::Srv("PUBACK", puback_p(2, 0x10, &us())),
        Ev::Cmd(cunsub()),
        cmd("out/bytes", Pay::Bytes(vec![1, 2, 3]), 0, vec![]),
        Ev::Srv("UNSUBACK", unsuback(1, 0x11, &us())),
        Ev::Pong,
        Ev::Cmd(Cmd::Disc),
    ]
}

/// Lives that end, or go on, in as many ways as there are packets and ways to spoil them.
fn lives() -> Vec<Vec<Ev>> {
    use crate::bytes::{seeds, Stage};
    let mut v: Vec<Vec<Ev>> = vec![];
    for stage in [Stage::Handshake, Stage::Open] {
        let hs = matches!(stage, Stage::Handshake);
        let life = |e: Vec<Ev>| if hs { e } else { [vec![Ev::Srv("CONNACK", connack(false, 0, &[]))], e].concat() };
        for p in seeds(stage) {
            v.push(life(vec![Ev::Srv("packet", p.clone())]));
            let Ok((_, n, _)) = get_vbi(&p[1..]) else { continue };
            let body = &p[1 + n..];
            for cut in 0..body.len() {
                // complete, but too short
                v.push(life(vec![Ev::Srv("packet cut short", frame(p[0], &body[..cut]))]));
            }
            for cut in 1..p.len() {
                v.push(life(vec![Ev::Srv("beginning of a packet", p[..cut].to_vec()), Ev::Eof]));
            }
            for i in 0..body.len() {
                for b in [0, 0xFF] {
                    let mut x = body.to_vec();
                    if x[i] != b {
                        x[i] = b;
                        v.push(life(vec![Ev::Srv("spoilt packet", frame(p[0], &x))]));
                    }
                }
            }
        }
    }
    let ca = || Ev::Srv("CONNACK", connack(false, 0, &[]));
    let long = "l".repeat(65536);
    let odd = [
        Cmd::Sub(long.clone(), 0),
        Cmd::Unsub(long.clone()),
        Cmd::Pub { topic: long.clone(), payload: Pay::Bytes(vec![]), qos: Some(1), props: vec![] },
        Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(vec![1; 70_000]), qos: Some(1), props: vec![RProp::User("k".into(), long.clone())] },
        Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(vec![1; 70_000]), qos: Some(2), props: vec![RProp::User("k".into(), "v".repeat(60_000))] },
        Cmd::Disc,
        cpub(0),
        cpub(1),
        csub(),
        cunsub(),
    ];
    for c in odd {
        let c = Ev::Cmd(c);
        v.push(vec![c.clone(), ca()]);
        v.push(vec![c.clone(), Ev::Eof]);
        v.push(vec![ca(), c.clone()]);
        v.push(vec![ca(), c.clone(), Ev::Eof]);
        v.push(vec![ca(), c.clone(), Ev::DropAll]);
        for n in [0, 1, 2, 5, 9] {
            v.push(vec![ca(), Ev::Quota(n), c.clone()]);
            v.push(vec![ca(), Ev::Quota(n), c.clone(), Ev::Unblock]);
            v.push(vec![ca(), Ev::FailW(n), c.clone()]);
        }
    }
    v.push(vec![Ev::Refuse]);
    v.push(vec![Ev::Accept, ca()]);
    for e in [Ev::Eof, Ev::RdErr, Ev::DropRx, Ev::DropAll] {
        v.push(vec![e.clone()]);
        v.push(vec![ca(), e]);
    }
    // queues left full
    v.push(vec![Ev::Cmd(cpub(1)); 130]);
    v.push([vec![ca(), Ev::Pause], vec![p1(4); 130]].concat());
    v
}

/// Script numbers: below `SCRIPTS`, long lives from `LONG`, then the rich one, then `lives`.
const LONG: usize = 100;
const RICH: usize = 200;
const LIVES: usize = 1000;

static ALL: std::sync::OnceLock<Vec<Vec<Ev>>> = std::sync::OnceLock::new();

/// Every script there is.
pub fn all_scripts() -> Vec<Vec<Ev>> {
    let mut v: Vec<Vec<Ev>> = (0..SCRIPTS).flat_map(|n| [script(n), long_script(n)]).collect();
    v.push(rich());
    v.extend(lives());
    v
}

fn numbered(n: usize) -> Vec<Ev> {
    match n {
        n if n >= LIVES => ALL.get_or_init(lives)[n - LIVES].clone(),
        RICH => rich(),
        n if n >= LONG => long_script(n - LONG),
        n => script(n),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Turn {
    Start,
    /// with the server that all the others have as well
    Same,
    Step(usize),
    /// the event loop is dropped
    Drop,
    Tick(u64),
    /// so many sessions of this script come and go
    Lives(usize, usize),
}

const SAME: usize = 999;

pub struct Solo {
    pub d: Option<Drive>,
    script: Vec<Ev>,
    t0: u64,
}

impl Solo {
    pub fn new(script: Vec<Ev>) -> Solo {
        Solo { d: None, script, t0: 0 }
    }
    pub fn turn(&mut self, w: &W, port: usize, t: Turn) {
        match t {
            Turn::Start | Turn::Same => {
                let port = if t == Turn::Same { SAME } else { port };
                // a script may begin with what becomes of the connection
                let slow = matches!(self.script.first(), Some(Ev::Accept | Ev::Refuse));
                w.borrow_mut().connect_mode = if slow { ConnMode::Wait } else { ConnMode::Now };
                self.t0 = w.borrow().now;
                self.d = Some(Drive { s: Sess::new(w, port), o: Obs::new(), tags: 0, step: 1000, rest: vec![] });
                self.settle();
                w.borrow_mut().connect_mode = ConnMode::Now;
            }
            Turn::Step(i) => {
                let e = self.script[i].clone();
                if let Some(d) = &mut self.d {
                    if d.enabled(&e) {
                        let _ = d.apply(&e);
                    }
                }
                self.settle();
            }
            Turn::Drop => {
                if let Some(d) = &mut self.d {
                    d.s.drop_ev();
                }
            }
            Turn::Tick(_) | Turn::Lives(..) => self.settle(),
        }
    }
    fn settle(&mut self) {
        if let Some(d) = &mut self.d {
            d.s.settle();
            d.o.update(&d.s);
        }
    }
    /// Everything observable, one aspect per line.
    fn life(&self) -> String {
        let Some(d) = &self.d else { return String::new() };
        let t0 = self.t0;
        let log: Vec<What> = d
            .s
            .with(|c| c.log.clone())
            .unwrap_or_default()
            .into_iter()
            .map(|x| match x {
                What::Read(n, t) => What::Read(n, t - t0),
                What::Write(n, t) => What::Write(n, t - t0),
                What::Deliver(n, t) => What::Deliver(n, t - t0),
                x => x,
            })
            .collect();
        let out = d.s.with(|c| c.out.clone()).unwrap_or_default();
        let end = d.s.end.as_ref().map(|e| (d.s.end_time - t0, e.clone()));
        let notifs: Vec<String> = d.s.notifs.iter().map(|n| format!("{:?} {}", n.kind, n.text.replace('\n', " "))).collect();
        format!("packets {}\nnotifications {notifs:?}\nresult {end:?}\ncommands {} accepted, {} refused\nhistory {log:?}", crate::bytes::full_hex(&out), d.s.cmds.len(), d.s.rejected)
    }
}

/// Who does what, in order. None: time passes for everybody.
type Schedule = Vec<(Option<usize>, Turn)>;

fn run_together(scripts: &[Vec<Ev>], sch: &Schedule) -> Vec<String> {
    let w = install(vec![]);
    let mut s: Vec<Solo> = scripts.iter().map(|x| Solo::new(x.clone())).collect();
    for (who, t) in sch {
        match (who, t) {
            (None, Turn::Lives(k, n)) => {
                let script = numbered(*k);
                let start = if sch.iter().any(|x| x.1 == Turn::Same) { Turn::Same } else { Turn::Start };
                for j in 0..*n {
                    let mut x = Solo::new(script.clone());
                    x.turn(&w, 1000 + j % 50_000, start);
                    for i in 0..script.len() {
                        x.turn(&w, 1000 + j % 50_000, Turn::Step(i));
                    }
                    drop(x);
                    // the others have been there before
                    w.borrow_mut().conns.truncate(scripts.len());
                }
                for x in s.iter_mut() {
                    x.settle();
                }
            }
            (None, Turn::Tick(ms)) => {
                advance(&w, *ms);
                for (i, x) in s.iter_mut().enumerate() {
                    x.turn(&w, i, *t);
                }
            }
            (Some(k), t) => {
                s[*k].turn(&w, *k, *t);
                for (i, x) in s.iter_mut().enumerate() {
                    if i != *k {
                        // the others run whenever they ask to
                        x.settle();
                    }
                }
            }
            _ => {}
        }
    }
    for x in s.iter_mut() {
        x.settle();
    }
    s.iter().map(|x| x.life()).collect()
}

fn run_alone(script: &[Ev], turns: &[Turn], port: usize) -> String {
    let w = install(vec![]);
    let mut s = Solo::new(script.to_vec());
    for t in turns {
        if let Turn::Tick(ms) = t {
            advance(&w, *ms);
        }
        s.turn(&w, port, *t);
    }
    s.settle();
    s.life()
}

type Memo = Arc<Mutex<HashMap<Vec<u8>, String>>>;

/// What a zygote is asked: the sessions' scripts and the schedule. One session: alone, as `port`.
fn question(which: &[usize], port: Option<usize>, sch: &[(Option<usize>, Turn)]) -> Vec<u8> {
    let mut v: Vec<u32> = vec![port.map_or(u32::MAX, |p| p as u32), which.len() as u32];
    v.extend(which.iter().map(|n| *n as u32));
    for (who, t) in sch {
        v.push(who.map_or(u32::MAX, |k| k as u32));
        let (a, b) = match t {
            Turn::Start => (0, 0),
            Turn::Same => (0, 1),
            Turn::Step(n) => (1, *n as u32),
            Turn::Drop => (2, 0),
            Turn::Tick(ms) => (3, *ms as u32),
            Turn::Lives(k, n) => (4 + *k as u32, *n as u32),
        };
        v.extend([a, b]);
    }
    v.iter().flat_map(|x| x.to_be_bytes()).collect()
}

fn answer(q: &[u8]) -> Vec<u8> {
    let v: Vec<u32> = q.chunks_exact(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
    let n = v[1] as usize;
    let scripts: Vec<Vec<Ev>> = v[2..2 + n].iter().map(|k| numbered(*k as usize)).collect();
    let sch: Schedule = v[2 + n..]
        .chunks_exact(3)
        .map(|c| {
            let t = match c[1] {
                0 if c[2] == 1 => Turn::Same,
                0 => Turn::Start,
                1 => Turn::Step(c[2] as usize),
                2 => Turn::Drop,
                3 => Turn::Tick(c[2] as u64),
                k => Turn::Lives(k as usize - 4, c[2] as usize),
            };
            ((c[0] != u32::MAX).then_some(c[0] as usize), t)
        })
        .collect();
    if v[0] == u32::MAX {
        run_together(&scripts, &sch).join("\u{1}").into_bytes()
    } else {
        let turns: Vec<Turn> = sch.iter().map(|x| x.1).collect();
        if v[0] & AGAIN != 0 {
            // on a thread of its own: randomness that belongs to the thread is another one there
            let (script, port, n) = (scripts[0].clone(), (v[0] & 0xff) as usize, (v[0] & !AGAIN) >> 8);
            let t = std::thread::Builder::new().stack_size(64 << 20);
            let f = move || {
                // and that of futures, a fixed sequence in every thread, is further on
                for _ in 0..n {
                    let (mut a, mut b) = (futures::future::ready(()), futures::future::ready(()));
                    futures::executor::block_on(async { futures::select! { _ = a => (), _ = b => () } });
                }
                run_alone(&script, &turns, port).into_bytes()
            };
            return t.spawn(f).unwrap().join().unwrap();
        }
        run_alone(&scripts[0], &turns, v[0] as usize).into_bytes()
    }
}

/// Added to the port: once more, to see whether the session alone always does the same.
const AGAIN: u32 = 1 << 30;

#[derive(Clone)]
struct Lab {
    memo: Memo,
    zygotes: Arc<Mutex<Vec<crate::fork::Zygote>>>,
}

impl Lab {
    fn ask(&self, q: &[u8]) -> Option<String> {
        let mut z = loop {
            if let Some(z) = self.zygotes.lock().unwrap().pop() {
                break z;
            }
            std::thread::yield_now();
        };
        let r = z.ask(q);
        self.zygotes.lock().unwrap().push(z);
        r.map(|b| String::from_utf8_lossy(&b).into_owned())
    }
}

fn compare(cx: &mut Ctx, lab: &Lab, which: &[usize], sch: &Schedule) -> Result<(), Viol> {
    let scripts: Vec<Vec<Ev>> = which.iter().map(|n| numbered(*n)).collect();
    for (who, t) in sch {
        cx.events += 1;
        cx.note(|| match (who, t) {
            (Some(k), Turn::Step(i)) => format!("session {k}: {}", show(&scripts[*k][*i])),
            (Some(k), t) => format!("session {k}: {t:?}"),
            (None, Turn::Lives(k, n)) => format!("{n} sessions of script {k} come and go"),
            (None, t) => format!("{t:?} for all"),
        });
    }
    let dead = |what: &str| viol("INDEP", format!("the process running {what} died"));
    let Some(got) = lab.ask(&question(which, None, sch)) else { return dead("the sessions together") };
    let got: Vec<&str> = got.split('\u{1}').collect();
    for (i, n) in which.iter().enumerate() {
        let turns: Vec<(Option<usize>, Turn)> = sch.iter().filter(|x| (x.0.is_none() || x.0 == Some(i)) && !matches!(x.1, Turn::Lives(..))).copied().collect();
        let key = question(&[*n], Some(i), &turns);
        let known = lab.memo.lock().unwrap().get(&key).cloned();
        let want = match known {
            Some(w) => w,
            None => {
                let Some(w) = lab.ask(&key) else { return dead("a session alone") };
                lab.memo.lock().unwrap().insert(key, w.clone());
                w
            }
        };
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (which, i, got[i]).hash(&mut h);
        cx.state(h.finish());
        if got[i] != want {
            // code that draws random numbers of its own may do several things alone
            let again = |k: usize| lab.ask(&question(&[*n], Some(i | AGAIN as usize | k << 8), &turns));
            if (0..300).any(|k| again(k).as_deref() == Some(got[i])) {
                continue;
            }
            let (a, b) = got[i].lines().zip(want.lines()).find(|(a, b)| a != b).unwrap_or((got[i], &want));
            return viol("INDEP", format!("session {i} (script {n}) next to others: {}; alone: {}", clip(a), clip(b)));
        }
    }
    Ok(())
}

/// The same, but all have one server.
fn same(s: Schedule) -> Schedule {
    s.into_iter().map(|(w, t)| (w, if t == Turn::Start { Turn::Same } else { t })).collect()
}

fn interleave(cx: &mut Ctx, lens: &[usize], mut ticks: usize) -> Schedule {
    let mut pos = vec![0usize; lens.len()];
    let mut sch = vec![];
    loop {
        let mut en: Vec<Option<usize>> = (0..lens.len()).filter(|i| pos[*i] <= lens[*i]).map(Some).collect();
        if en.is_empty() {
            return sch;
        }
        if ticks > 0 {
            en.push(None);
        }
        match en[cx.choose(en.len())] {
            None => {
                ticks -= 1;
                sch.push((None, Turn::Tick(8000)));
            }
            Some(k) => {
                sch.push((Some(k), if pos[k] == 0 { Turn::Start } else { Turn::Step(pos[k] - 1) }));
                pos[k] += 1;
            }
        }
    }
}

pub fn spaces(th: bool) -> Vec<Space> {
    // made before the zygotes, so that they all have it
    numbered(LIVES);
    let zygotes = (0..18).map(|_| crate::fork::Zygote::new(answer)).collect();
    let memo = Lab { memo: Arc::default(), zygotes: Arc::new(Mutex::new(zygotes)) };
    let mut v = vec![];
    // whatever became of one session, the next one lives as if it had never been
    let m = memo.clone();
    let n = ALL.get_or_init(lives).len();
    v.push(space(format!("the aftermath of {n} lives: a session that meets everything, after it or around it"), move |cx| {
        let k = LIVES + cx.choose(n);
        let (a, b) = (numbered(k).len(), numbered(RICH).len());
        // so much of the second session happens before the first one
        let head = [0, 1, 7][cx.choose(3)];
        let drop_first = cx.choose(2) == 1;
        let turn = |i: usize, p: usize| (Some(i), if p == 0 { Turn::Start } else { Turn::Step(p - 1) });
        let mut s: Schedule = (0..head).map(|p| turn(1, p)).collect();
        s.extend((0..=a).map(|p| turn(0, p)));
        if drop_first {
            s.push((Some(0), Turn::Drop));
        }
        s.extend((head..=b).map(|p| turn(1, p)));
        if cx.choose(2) == 1 {
            s = same(s);
        }
        compare(cx, &m, &[k, RICH], &s)
    }));
    let m = memo.clone();
    v.push(space(format!("two sessions: every interleaving of every pair of {SCRIPTS} scripts"), move |cx| {
        let w = [cx.choose(SCRIPTS), cx.choose(SCRIPTS)];
        let lens: Vec<usize> = w.iter().map(|n| script(*n).len()).collect();
        let one = cx.choose(2) == 1;
        let s = interleave(cx, &lens, 0);
        compare(cx, &m, &w, &if one { same(s) } else { s })
    }));
    let m = memo.clone();
    v.push(space("two sessions, up to three keep-alive intervals at any moment", move |cx| {
        let (a, b): (&[usize], &[usize]) = if th { (&[2, 5, 0], &[3, 8, 9]) } else { (&[2, 5], &[3, 8]) };
        let w = [a[cx.choose(a.len())], b[cx.choose(b.len())]];
        let lens: Vec<usize> = w.iter().map(|n| script(*n).len()).collect();
        let s = interleave(cx, &lens, 3);
        compare(cx, &m, &w, &s)
    }));
    // one after another, nested, in turn; many at a time
    let m = memo.clone();
    const NS: &[usize] = &[2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 32, 33, 40, 64, 65, 100, 128, 130];
    v.push(space("crowds of sessions: one after another, nested, in turn", move |cx| {
        let k = NS[cx.choose(if th { NS.len() } else { 18 })];
        let mode = cx.choose(4);
        let base = cx.choose(SCRIPTS);
        let stride = [0usize, 1, 5][cx.choose(3)];
        let tick = cx.choose(2);
        cx.note(|| format!("{k} sessions, scripts from {base} by {stride}, mode {mode}, tick {tick}"));
        let w: Vec<usize> = (0..k).map(|i| (base + stride * i) % SCRIPTS).collect();
        let len = |i: usize| long_script(w[i]).len();
        let mut s: Schedule = vec![];
        let turn = |i: usize, p: usize| (Some(i), if p == 0 { Turn::Start } else { Turn::Step(p - 1) });
        match mode {
            0 => {
                for i in 0..k {
                    for p in 0..=len(i) {
                        s.push(turn(i, p));
                    }
                    if i == k / 2 && tick == 1 {
                        s.push((None, Turn::Tick(8000)));
                    }
                }
            }
            1 => {
                // nested: each starts and gets half way, then the later ones live, then the rest
                for i in 0..k {
                    for p in 0..=len(i) / 2 {
                        s.push(turn(i, p));
                    }
                }
                if tick == 1 {
                    s.push((None, Turn::Tick(8000)));
                }
                for i in (0..k).rev() {
                    for p in len(i) / 2 + 1..=len(i) {
                        s.push(turn(i, p));
                    }
                }
            }
            _ => {
                let most = (0..k).map(len).max().unwrap();
                for p in 0..=most {
                    for j in 0..k {
                        let i = if mode == 3 { k - 1 - j } else { j };
                        if p <= len(i) {
                            s.push(turn(i, p));
                        }
                    }
                    if p == 3 && tick == 1 {
                        s.push((None, Turn::Tick(8000)));
                    }
                }
            }
        }
        if stride == 1 && tick == 1 {
            // (as in real life)
            s = same(s);
        }
        compare(cx, &m, &w.iter().map(|n| n + LONG).collect::<Vec<_>>(), &s)
    }));
    // a session lives on while many others come and go
    let m = memo.clone();
    v.push(space("two sessions that live on while up to 66,000 others come and go", move |cx| {
        const N: [usize; 5] = [1, 40, 256, 300, 66_000];
        let n = N[cx.choose(N.len())];
        let first = [LONG, LONG + 1, LONG + 2, LONG + 10, LONG + 14, 5, 9, 11, RICH][cx.choose(9)];
        let other = [RICH, 4][cx.choose(2)];
        let life = cx.choose(SCRIPTS + 1);
        let ping = cx.choose(2);
        let (a, b) = (numbered(first).len(), numbered(other).len());
        let cut = [0, 1, 2, 3, a / 2, a][cx.choose(6)];
        if n == 66_000 && !(matches!(first, 102 | RICH) && other == RICH && matches!(life, 0 | 4) && cut == 2 + ping) || cut > a || cut == a && a < 4 {
            cx.trivial = true;
            return Ok(());
        }
        let turn = |i: usize, p: usize| (Some(i), if p == 0 { Turn::Start } else { Turn::Step(p - 1) });
        let mut s: Schedule = vec![turn(0, 0), turn(1, 0)];
        s.extend((1..=cut).map(|p| turn(0, p)));
        s.extend((1..=b / 2).map(|p| turn(1, p)));
        if ping == 1 {
            s.push((None, Turn::Tick(8000)));
        }
        s.push((None, Turn::Lives(if life == SCRIPTS { RICH } else { life }, n)));
        s.extend((cut + 1..=a).map(|p| turn(0, p)));
        s.push((None, Turn::Lives(if life == SCRIPTS { 0 } else { life }, 3)));
        s.extend((b / 2 + 1..=b).map(|p| turn(1, p)));
        s.extend([(None, Turn::Tick(1000)); 24]);
        if n < 66_000 && cx.choose(2) == 1 {
            s = same(s);
        }
        compare(cx, &m, &[first, other], &s)
    }));
    if th {
        let m = memo.clone();
        v.push(space("two sessions: every pair of scripts, one keep-alive interval at any moment", move |cx| {
            let w = [cx.choose(SCRIPTS), cx.choose(SCRIPTS)];
            let lens: Vec<usize> = w.iter().map(|n| script(*n).len()).collect();
            let s = interleave(cx, &lens, 1);
            compare(cx, &m, &w, &s)
        }));
        let m = memo.clone();
        v.push(space("three sessions", move |cx| {
            let w = [[0usize, 4][cx.choose(2)], [6usize, 8, 13][cx.choose(3)], [8usize, 13][cx.choose(2)]];
            let lens: Vec<usize> = w.iter().map(|n| script(*n).len()).collect();
            let s = interleave(cx, &lens, 1);
            compare(cx, &m, &w, &s)
        }));
    }
    v
}
