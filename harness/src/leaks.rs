//! Memory: what a session holds depends on what is pending, not on what has happened.
use crate::checks::{cpub, csub};
use crate::explore::*;
use crate::fam::*;
use crate::mem::Watch;
use crate::mqtt::*;
use crate::obs::*;
use crate::sess::*;
use crate::world::*;

type StepFn = fn(&mut Drive, usize) -> Result<(), Viol>;

fn n4(n: usize) -> [u8; 4] {
    (n as u32).to_be_bytes()
}
fn publ(d: &mut Drive, n: usize, qos: u8, size: usize, props: Vec<RProp>) {
    let mut v = n4(n).to_vec();
    v.resize(4 + size, 7);
    d.s.cmd(0, &Cmd::Pub { topic: format!("o{}", n % 10), payload: Pay::Bytes(v), qos: Some(qos), props });
}
fn rich(n: usize) -> Vec<RProp> {
    vec![RProp::Pfi(1), RProp::Expiry(n as u32), RProp::User(format!("k{n}"), "v".into()), RProp::Corr(n4(n).to_vec()), RProp::User("k".into(), format!("v{n}")), RProp::Resp("r".into())]
}
fn answer(d: &mut Drive, newest: bool, err: bool) {
    let x = if newest { d.o.newest() } else { d.o.oldest() };
    if let Some((p, k)) = x {
        let b = d.ack(p, k, err);
        d.srv(&b);
    }
}

/// Elementary steps. Each leaves the session able to come to rest.
const STEPS: &[(&str, StepFn)] = &[
    ("publish QoS 0", |d, n| Ok(publ(d, n, 0, 0, vec![]))),
    ("publish QoS 1", |d, n| Ok(publ(d, n, 1, 0, vec![]))),
    ("publish QoS 1, large, properties", |d, n| Ok(publ(d, n, 1, 1200, rich(n)))),
    ("subscribe", |d, n| {
        d.s.cmd(0, &Cmd::Sub(format!("s{n}"), (n % 3) as u8));
        Ok(())
    }),
    ("unsubscribe", |d, n| {
        d.s.cmd(0, &Cmd::Unsub(format!("u{n}")));
        Ok(())
    }),
    ("acknowledge the oldest", |d, _| Ok(answer(d, false, false))),
    ("acknowledge the newest with an error", |d, _| Ok(answer(d, true, true))),
    ("incoming QoS 0", |d, n| Ok(d.srv(&publish(false, 0, n % 2 == 0, "i", 0, &[], &n4(n))))),
    ("incoming QoS 1", |d, n| Ok(d.srv(&publish(false, 1, false, &format!("i{n}"), (n % 65535 + 1) as u16, &[], &n4(n))))),
    ("the same incoming QoS 1", |d, _| Ok(d.srv(&publish(true, 1, false, "i", 5, &[], b"same")))),
    ("incoming with properties", |d, n| Ok(d.srv(&publish(false, 1, false, "i", 6, &rich(n), b"p")))),
    ("incoming large", |d, n| Ok(d.srv(&publish(false, 1, false, "i", 7, &rich(n), &vec![b'z'; 1200])))),
    ("incoming in pieces", |d, n| {
        let p = publish(false, 1, false, "i", 8, &rich(n), &[0; 40]);
        for c in p.chunks(17) {
            d.srv(c);
            d.s.settle();
        }
        Ok(())
    }),
    ("a burst of seven", |d, n| {
        let b: Vec<u8> = (0..7).flat_map(|i| publish(false, i % 2, false, "i", 20 + i as u16, &[], &n4(n))).collect();
        Ok(d.srv(&b))
    }),
    ("a refused publish", |d, n| {
        d.s.cmd(0, &Cmd::Pub { topic: "x".repeat(65536), payload: Pay::Bytes(n4(n).to_vec()), qos: Some(1), props: vec![] });
        Ok(())
    }),
    ("an answered ping", |d, _| {
        d.settle()?;
        d.step = 8000;
        d.tick(8000)?;
        Ok(d.srv(&pingresp()))
    }),
    ("a second of silence", |d, _| {
        d.settle()?;
        d.tick(1000)
    }),
    ("a repeated acknowledgement", |d, _| {
        if let Some((p, k)) = d.o.last_acked {
            if !d.o.outstanding.contains_key(&p) {
                let b = d.ack(p, k, false);
                d.srv(&b);
            }
        }
        Ok(())
    }),
    ("an unasked ping answer", |d, _| Ok(d.srv(&pingresp()))),
    ("a handle comes and goes", |d, n| {
        d.s.clone_handle();
        d.s.cmd(1, &Cmd::Sub(format!("c{n}"), 1));
        d.s.clients.swap_remove(0);
        Ok(())
    }),
    ("an idle poll", |d, _| {
        d.s.settle();
        d.s.poll_once();
        Ok(())
    }),
    ("a slow socket", |d, n| {
        d.s.with(|c| c.set_wmode(WMode::Quota(3)));
        publ(d, n, 1, 30, vec![]);
        d.srv(&publish(false, 1, false, "i", 9, &[], b"b"));
        d.s.settle();
        d.s.with(|c| c.set_wmode(WMode::Open));
        Ok(())
    }),
    ("three publishes, one acknowledged", |d, n| {
        for i in 0..3 {
            publ(d, n + i, 1, 5, vec![]);
        }
        d.settle()?;
        Ok(answer(d, true, false))
    }),
    // the long ones, for short bodies only
    ("a full queue", |d, n| {
        for i in 0..110 {
            publ(d, n + i, (i % 2) as u8, 0, vec![]);
        }
        Ok(())
    }),
    ("a paused reader", |d, n| {
        d.s.draining = false;
        let b: Vec<u8> = (0..110).flat_map(|i| publish(false, (i % 2) as u8, false, "i", 1 + i as u16, &[], &n4(n))).collect();
        d.srv(&b);
        d.s.settle();
        d.s.draining = true;
        Ok(())
    }),
    // large values, all different
    ("incoming QoS 1, 10 KB, identifiers vary", |d, n| Ok(d.srv(&publish(false, 1, false, "i", (n % 65535 + 1) as u16, &[RProp::Pfi(1)], &large(n))))),
    ("incoming QoS 0, 10 KB, topics vary", |d, n| Ok(d.srv(&publish(false, 0, n % 2 == 0, &format!("i{n}"), 0, &[], &large(n))))),
    ("incoming, topics of 10 KB vary", |d, n| Ok(d.srv(&publish(false, 1, true, &text(n), 9, &[], b"")))),
    ("incoming, properties of 10 KB vary", |d, n| Ok(d.srv(&publish(false, 1, false, "i", 9, &[RProp::Resp(text(n)), RProp::Corr(large(n)), RProp::User(text(n), text(n))], b"")))),
    ("publish QoS 0, 10 KB", |d, n| Ok(publ(d, n, 0, 10_000, rich(n)))),
    ("publish QoS 1, 10 KB, answered with an error", |d, n| {
        publ(d, n, 1, 10_000, rich(n));
        d.settle()?;
        Ok(answer(d, true, true))
    }),
    ("publish QoS 1, topics of 10 KB vary", |d, n| {
        d.s.cmd(0, &Cmd::Pub { topic: text(n), payload: Pay::Text(text(n)), qos: Some(1), props: vec![RProp::User(text(n), "v".into())] });
        Ok(())
    }),
    ("subscribe, filters of 10 KB vary", |d, n| {
        d.s.cmd(0, &Cmd::Sub(text(n), (n % 3) as u8));
        Ok(())
    }),
    ("unsubscribe, filters of 10 KB vary", |d, n| {
        d.s.cmd(0, &Cmd::Unsub(text(n)));
        Ok(())
    }),
    ("answers with 10 KB of reasons", |d, n| {
        d.s.cmd(0, &[Cmd::Sub("s".into(), 1), Cmd::Unsub("u".into()), Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(vec![]), qos: Some(1), props: vec![] }][n % 3]);
        d.settle()?;
        if let Some((p, k)) = d.o.newest() {
            let ps = [RProp::Reason(text(n)), RProp::User(text(n), text(n + 1))];
            let b = match k {
                4 => puback_p(p, 0x97, &ps),
                9 => suback(p, 0x80, &ps),
                _ => unsuback(p, 0x11, &ps),
            };
            d.srv(&b);
        }
        Ok(())
    }),
    ("a refused publish of 70 KB", |d, n| {
        let mut t = text(n);
        t.push_str(&"x".repeat(66_000));
        d.s.cmd(0, &Cmd::Pub { topic: t, payload: Pay::Bytes(large(n)), qos: Some(1), props: vec![] });
        Ok(())
    }),
];
const LONG: usize = 23;
const LARGE: usize = 25;
/// What a session may keep of large values that are done with (buffers).
const BUFFERS: usize = 4 << 20;

fn large(n: usize) -> Vec<u8> {
    let mut v = n4(n).to_vec();
    v.resize(10_000, b'x');
    v
}
fn text(n: usize) -> String {
    format!("{n:010000}")
}

struct Life<'a> {
    d: Drive,
    m: &'a Watch,
    n: usize,
    events: u64,
}

impl Life<'_> {
    /// One round of the body, and all that is pending is done with. The memory still held.
    fn round(&mut self, body: &[usize]) -> Result<Option<usize>, Viol> {
        for b in body {
            self.n += 1;
            (STEPS[*b].1)(&mut self.d, self.n)?;
            self.events += 1;
            self.d.s.settled = false;
            self.d.settle()?;
        }
        let d = &mut self.d;
        loop {
            let all: Vec<(u16, u8)> = d.o.order.values().map(|p| (*p, d.o.outstanding[p].0)).filter(|x| x.1 != 5).collect();
            if all.is_empty() || d.s.end.is_some() {
                break;
            }
            let b: Vec<u8> = all.iter().flat_map(|(p, k)| d.ack(*p, *k, false)).collect();
            d.srv(&b);
            d.settle()?;
        }
        if d.o.pings.last().is_some_and(|p| p.answered.is_none()) {
            d.srv(&pingresp());
            d.settle()?;
        }
        Ok(if d.s.end.is_some() { None } else { Some(self.m.live()) })
    }

    /// Memory at the lowest in the last quarter of these rounds, at the highest in the second.
    fn growth(&mut self, body: &[usize], rounds: usize) -> Result<Option<(usize, usize)>, Viol> {
        let (mut hi, mut lo) = (0, usize::MAX);
        for i in 0..rounds {
            let Some(x) = self.round(body)? else { return Ok(None) };
            if (rounds / 4..rounds / 2).contains(&i) {
                hi = hi.max(x);
            }
            if i >= rounds - rounds / 4 {
                lo = lo.min(x);
            }
        }
        Ok(Some((hi, lo)))
    }
}

const SLACK: usize = 256;

pub fn bodies(th: bool) -> Space {
    space("every loop body, all pending things done with after each round", move |cx| {
        let len = 1 + cx.choose(if th { 3 } else { 2 });
        let alpha = match len {
            1 => STEPS.len(),
            2 => LONG,
            _ => LONG - 3,
        };
        let body: Vec<usize> = (0..len).map(|_| cx.choose(alpha)).collect();
        if len > 1 && (body.iter().all(|s| *s == body[0]) || (1..len).any(|i| (0..len).map(|j| body[(i + j) % len]).lt(body.iter().copied()))) {
            cx.trivial = true;
            return Ok(());
        }
        let rounds = match len {
            1 if body[0] >= LARGE => 1600,
            1 => 4000,
            2 => 2000,
            _ => 1200,
        };
        cx.note(|| format!("{:?}, {rounds} times", body.iter().map(|b| STEPS[*b].0).collect::<Vec<_>>()));
        let m = Watch::new();
        let d = Drive::open(cx, 0)?;
        let mut l = Life { d, m: &m, n: 0, events: 0 };
        let first = l.growth(&body, rounds)?;
        let mut found = None;
        if let Some((hi, lo)) = first {
            if lo > BUFFERS {
                found = Some(format!("after every round nothing is pending, yet the session holds {lo} bytes ({} blocks, most: {})", m.blocks(), m.sizes()));
            } else if lo > hi + SLACK {
                // it may be something that fills up once: go on until every identifier has been
                // used, and longer
                if let Some((hi, lo)) = l.growth(&body, if body[0] >= LARGE { 3_000 } else if body.iter().any(|b| *b >= LONG) { 8_000 } else { 150_000 })? {
                    if lo > hi + SLACK {
                        found = Some(format!("after every round nothing is pending, yet the session held {hi} bytes once and never less than {lo} bytes later ({} blocks, most: {})", m.blocks(), m.sizes()));
                    }
                }
            }
        }
        cx.events += l.events;
        cx.state(crate::special::hashed((&body, l.d.s.end.is_some())));
        if first.is_none() {
            cx.note(|| format!("the session ended: {:?}", l.d.s.end));
        }
        match found {
            Some(f) => viol("MEMORY", f),
            None => Ok(()),
        }
    })
}

/// The server (and the application) go on and on while something hinders the session.
pub fn floods(th: bool) -> Space {
    space("floods while the application, the socket or both are stuck", move |cx| {
        let hinder = cx.choose(7);
        let kind = cx.choose(9);
        let pieces = cx.choose(3);
        cx.note(|| format!("hindrance {hinder}, flood {kind}, delivered in way {pieces}"));
        let m = Watch::new();
        if hinder == 5 {
            cx.w.borrow_mut().connect_mode = ConnMode::Wait;
        }
        let mut d = if hinder >= 5 { Drive::new(cx, 0) } else { Drive::open(cx, 0)? };
        d.s.settle();
        d.step = 1000;
        match hinder {
            0 => d.s.draining = false,
            1 => {
                d.s.with(|c| c.set_wmode(WMode::Quota(2)));
            }
            2 => {
                d.s.draining = false;
                d.s.with(|c| c.set_wmode(WMode::Quota(2)));
            }
            3 => d.s.rx = None,
            4 => {
                d.s.rx = None;
                d.s.with(|c| c.set_wmode(WMode::Quota(2)));
            }
            _ => {}
        }
        let one = |n: usize| -> Vec<u8> {
            match kind {
                0 => publish(false, 0, false, "i", 0, &[], &n4(n)),
                1 => publish(false, 1, false, "i", (n % 65535 + 1) as u16, &[], &n4(n)),
                2 => publish(false, 1, false, "i", (n % 65535 + 1) as u16, &rich(n), &[5; 200]),
                3 => pingresp(),
                4 => suback((n % 65535 + 1) as u16, 0, &[]),
                5 => puback((n % 65535 + 1) as u16),
                6 => unsuback((n % 65535 + 1) as u16, 0, &[RProp::User("k".into(), "v".into())]),
                // nothing but commands, and nothing but clones
                _ => vec![],
            }
        };
        let mut at = vec![];
        let max = if th { 60_000 } else { 12_000 };
        for n in 1..=max {
            let b = one(n);
            if !b.is_empty() {
                match pieces {
                    0 => d.srv(&b),
                    1 => {
                        d.srv(&b[..1]);
                        d.s.settle();
                        d.srv(&b[1..]);
                    }
                    _ => {
                        if n % 64 == 0 {
                            let b: Vec<u8> = (0..64).flat_map(|i| one(n + i)).collect();
                            d.srv(&b)
                        }
                    }
                }
            }
            // (a fresh handle always has room for one command: that is the channel's rule, and pending)
            if (n % 3 == 0 && kind != 8) || kind == 7 {
                publ(&mut d, n, (n % 2) as u8, 20, vec![]);
            }
            if kind == 8 {
                d.s.clone_handle();
                d.s.clients.swap_remove(0);
            }
            d.s.settled = false;
            if n % 16 == 0 {
                d.settle()?;
                // requests are acknowledged as soon as they are out
                let all: Vec<(u16, u8)> = d.o.order.values().map(|p| (*p, d.o.outstanding[p].0)).collect();
                let b: Vec<u8> = all.iter().flat_map(|(p, k)| d.ack(*p, *k, false)).collect();
                if !b.is_empty() && hinder < 5 {
                    d.srv(&b);
                    d.settle()?;
                }
                at.push(m.live());
            }
            if d.s.end.is_some() {
                break;
            }
        }
        cx.events += max as u64;
        cx.state(crate::special::hashed((hinder, kind, pieces)));
        if d.s.end.is_some() {
            return Ok(());
        }
        let q = at.len() / 4;
        let (hi, lo) = (at[q..2 * q].iter().max().unwrap(), at[3 * q..].iter().min().unwrap());
        if *lo > *hi + SLACK {
            return viol("MEMORY", format!("the session held {hi} bytes, later never less than {lo}, and grows with what the peer sends or the application asks: {}", m.sizes()));
        }
        Ok(())
    })
}

/// Sessions come and go; nothing of them stays.
pub fn lives(_th: bool) -> Space {
    use crate::indep::{Solo, Turn};
    let mut all = crate::indep::all_scripts();
    // sessions that wait, with all kinds of things pending, until the ping is not answered
    let big = Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(vec![1; 500]), qos: Some(1), props: vec![] };
    let pending: Vec<Vec<Ev>> = vec![
        vec![],
        (0..4).map(|_| Ev::Cmd(cpub(1))).collect(),
        (0..120).map(|i| Ev::Cmd(if i % 3 == 0 { csub() } else { big.clone() })).collect(),
        vec![Ev::Cmd(csub()), Ev::Cmd(Cmd::Unsub("u".into())), Ev::Cmd(big.clone())],
        vec![Ev::Srv("message", publish(false, 1, false, "t", 5, &rich(3), b"x")), Ev::Srv("message", publish(false, 1, false, "t", 5, &[], &[0; 300])[..40].to_vec())],
        vec![Ev::Cmd(cpub(2)), Ev::Cmd(big.clone()), Ev::Half("half", vec![0x20])],
    ];
    for p in pending {
        for opened in [true, false] {
            for ticks in [1, 2, 4] {
                let mut s = vec![];
                if opened {
                    s.push(Ev::Srv("CONNACK", connack(false, 0, &[])));
                } else if matches!(p.first(), Some(Ev::Srv(..))) {
                    continue;
                }
                s.extend(p.clone());
                s.extend((0..ticks).map(|_| Ev::Tick(8_000)));
                all.push(s);
            }
        }
    }
    space(format!("{} lives, each lived many times", all.len()), move |cx| {
        let k = cx.choose(all.len());
        let script = &all[k];
        cx.note(|| format!("life {k}: {}", script.iter().map(show).collect::<Vec<_>>().join(", ")));
        let m = Watch::new();
        let mut port = 0;
        let mut live = |times: usize| {
            let mut v = vec![];
            for _ in 0..times {
                let mut s = Solo::new(script.clone());
                s.turn(&cx.w, port % 60_000, Turn::Start);
                for i in 0..script.len() {
                    s.turn(&cx.w, port % 60_000, Turn::Step(i));
                }
                port += 1;
                let d = s.d.take().unwrap();
                if matches!(d.s.end, Some(End::Panic(_) | End::Spin(_))) {
                    return None;
                }
                drop(d);
                v.push(m.live());
                // so that the port is free again
                let mut w = cx.w.borrow_mut();
                w.conns.clear();
            }
            Some(v)
        };
        let Some(a) = live(8) else { return Ok(()) };
        let mut found = None;
        if a[7] > a[2] {
            let Some(b) = live(3000) else { return Ok(()) };
            if b[2999] > b[1000] + SLACK {
                found = Some(format!("when all is dropped the process still holds {} bytes after 1,000 sessions and {} after 3,000 ({})", b[1000], b[2999], m.sizes()));
            }
        }
        cx.events += 8 * script.len() as u64;
        cx.state(k as u64);
        match found {
            Some(f) => viol("MEMORY", f),
            None => Ok(()),
        }
    })
}

pub fn spaces(th: bool) -> Vec<Space> {
    vec![bodies(th), floods(th), lives(th)]
}
