//! Long histories: every loop body over an alphabet of elementary steps, repeated many times,
//! and every concatenation of long single-step phases. What only shows after the n-th message,
//! acknowledgement, ping or command of a session shows here.
use crate::explore::*;
use crate::fam::*;
use crate::mqtt::*;
use crate::obs::*;
use crate::sess::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Pub0,
    Pub1,
    Pub2,
    Sub,
    Unsub,
    PubBig,
    AckOldest,
    AckNewest,
    AckErr,
    AckDup,
    In0,
    In1,
    /// the same identifier again and again
    In1Same,
    InBig,
    /// keep-alive interval with an answered ping
    Beat,
    /// an eighth of it
    Wait,
    CloneDrop,
    Repoll,
}
use Step::*;
pub const STEPS: &[Step] = &[Pub0, Pub1, Sub, Unsub, AckOldest, AckNewest, AckErr, AckDup, In0, In1, In1Same, Beat, Wait, CloneDrop, PubBig, InBig, Pub2, Repoll];

struct Loop {
    d: Drive,
    n: usize,
    since: usize,
    /// settle after every step, or only at the end of a body
    fine: bool,
    events: u64,
}

impl Loop {
    fn step(&mut self, st: Step) -> Result<(), Viol> {
        self.n += 1;
        let n = self.n;
        let d = &mut self.d;
        let pay = Pay::Bytes((n as u32).to_be_bytes().to_vec());
        let refused = d.s.rejected;
        let free = self.fine && d.s.settled && d.s.end.is_none() && !d.o.held_back(&d.s) && d.o.outstanding.len() < 65535;
        let publ = |qos, payload| Cmd::Pub { topic: "l".into(), payload, qos: Some(qos), props: vec![] };
        match st {
            Pub0 => {
                d.s.cmd(0, &publ(0, pay));
            }
            Pub1 => {
                d.s.cmd(0, &publ(1, pay));
            }
            Pub2 => {
                d.s.cmd(0, &publ(2, pay));
            }
            PubBig => {
                let mut v = vec![7u8; 1500];
                v[..4].copy_from_slice(&(n as u32).to_be_bytes());
                d.s.cmd(0, &publ(0, Pay::Bytes(v)));
            }
            Sub => {
                d.s.cmd(0, &Cmd::Sub(format!("s{n}"), (n % 3) as u8));
            }
            Unsub => {
                d.s.cmd(0, &Cmd::Unsub(format!("u{n}")));
            }
            AckOldest | AckErr => {
                if let Some((p, k)) = d.o.oldest() {
                    let b = d.ack(p, k, st == AckErr);
                    d.srv(&b);
                }
            }
            AckNewest => {
                if let Some((p, k)) = d.o.newest() {
                    let b = d.ack(p, k, false);
                    d.srv(&b);
                }
            }
            AckDup => {
                if let Some((p, k)) = d.o.last_acked {
                    if !d.o.outstanding.contains_key(&p) {
                        let b = d.ack(p, k, false);
                        d.srv(&b);
                    }
                }
            }
            In0 => d.srv(&publish(false, 0, n % 2 == 0, "i", 0, &[], &(n as u32).to_be_bytes())),
            In1 => d.srv(&publish(false, 1, false, "i", (n % 65535 + 1) as u16, &[], &(n as u32).to_be_bytes())),
            In1Same => d.srv(&publish(n % 2 == 0, 1, false, "i", 5, &[RProp::Pfi(1)], b"same")),
            InBig => {
                let mut v = vec![b'z'; 1500];
                v[..4].copy_from_slice(&(n as u32).to_be_bytes());
                d.srv(&publish(false, 0, false, "i", 0, &[], &v));
            }
            Beat | Wait => {
                d.s.settle();
                d.o.update(&d.s);
                let k = if d.o.keep_alive == 0 { 8000 } else { d.o.keep_alive };
                if st == Wait {
                    d.tick(k / 8)?;
                } else {
                    d.step = k / 4;
                    d.tick(k)?;
                }
                if d.s.end.is_none() && d.o.pings.last().is_some_and(|p| p.answered.is_none()) {
                    d.srv(&pingresp());
                }
            }
            CloneDrop => {
                d.s.clone_handle();
                d.s.clients.swap_remove(0);
            }
            Repoll => {
                d.s.settle();
                d.s.poll_once();
            }
        }
        if d.tags & HONEST != 0 {
            if free && d.s.rejected > refused {
                return viol("HONEST", format!("a call on an idle session's handle failed: {st:?}, step {n}"));
            }
            if d.s.end.is_some() && d.s.rejected == refused && matches!(st, Pub0 | Pub1 | Pub2 | Sub | Unsub | PubBig) {
                return viol("HONEST", format!("a call succeeded after the end of the session: {st:?}, step {n}"));
            }
        }
        d.s.settled = false;
        self.events += 1;
        self.since += 1;
        // pending input that was not taken yet must not grow without end: settle in the end
        if self.fine {
            self.rest()?;
        }
        Ok(())
    }

    fn rest(&mut self) -> Result<(), Viol> {
        self.d.s.settle();
        if self.since >= 50 || self.d.s.end.is_some() {
            self.since = 0;
            self.d.settle()
        } else {
            self.d.o.update(&self.d.s);
            Ok(())
        }
    }

    fn finish(&mut self, end: usize) -> Result<(), Viol> {
        self.d.settle()?;
        self.d.epilogue()?;
        // what is still unacknowledged is acknowledged, and everything can be used again
        let mut k = 0;
        while self.d.s.end.is_none() {
            let Some((p, t)) = self.d.o.oldest() else { break };
            let b = self.d.ack(p, t, k % 3 == 2);
            self.d.srv(&b);
            k += 1;
            if k % 40 == 0 {
                self.d.settle()?;
            }
            if k > 300 {
                break;
            }
            self.d.s.settle();
            self.d.o.update(&self.d.s);
        }
        self.d.s.cmd(0, &Cmd::Sub("last".into(), 1));
        self.d.srv(&publish(false, 1, false, "last", 9, &[], b"last"));
        self.d.settle()?;
        match end {
            0 => {
                self.d.s.cmd(0, &Cmd::Disc);
            }
            1 => {
                self.d.o.env_eof = true;
                self.d.s.with(|c| c.push(crate::world::Seg::Eof));
            }
            2 => {
                self.d.srv(&[0x32, 6, 0, 1, b'x', 0, 0, 0]);
                self.d.srv(&publish(false, 1, false, "after", 10, &[], b""));
            }
            3 => self.d.srv(&disconnect(0x8B)),
            _ => {
                // cut short
                self.d.srv(&publish(false, 1, false, "cut", 10, &[], b"cut")[..7]);
                self.d.o.env_eof = true;
                self.d.s.with(|c| c.push(crate::world::Seg::Eof));
            }
        }
        self.d.settle()?;
        if self.d.s.end.is_some() {
            self.step(Sub)?;
        }
        self.d.settle()
    }
}

fn start(cx: &mut Ctx, t: Tags, mode: usize) -> Result<Loop, Viol> {
    let mut d = Drive::open(cx, t)?;
    match mode {
        2 => d.s.rx = None,
        3 => {
            d.s.with(|c| c.set_wmode(crate::world::WMode::Max(5)));
        }
        5 => d.s.w.borrow_mut().rng_fixed = 1,
        6 => d.s.w.borrow_mut().rng_fixed = 100,
        _ => {}
    }
    Ok(Loop { d, n: 0, since: 0, fine: !matches!(mode, 1 | 5 | 6), events: 0 })
}

const MODES: [&str; 7] = ["", ", settled only after each round", ", receiver dropped", ", five bytes per write", ", reading in bursts", ", the socket first", ", each branch in turn first"];

/// Every loop body of up to three (thorough: four) steps.
pub fn bodies(t: Tags, th: bool) -> Space {
    space("every loop body, repeated many times", move |cx| {
        let mode = cx.choose(MODES.len());
        let len = 1 + cx.choose(3 + (th && mode == 0) as usize);
        // the rarer steps only in the shorter bodies
        let alpha = match len {
            1 | 2 => STEPS.len(),
            3 => 16,
            _ => 12,
        };
        if mode >= 5 && len > 2 && !th {
            cx.trivial = true;
            return Ok(());
        }
        let body: Vec<Step> = (0..len).map(|_| STEPS[cx.choose(alpha)]).collect();
        if len > 1 && (body.iter().all(|s| *s == body[0]) || smaller_rotation(&body)) {
            // a shorter body, or the same cycle entered elsewhere
            cx.trivial = true;
            return Ok(());
        }
        // past every identifier, twice, where that costs little
        let around = len == 2 && mode == 0 && matches!(body[0], Pub1 | Sub | Unsub) && matches!(body[1], AckOldest | AckErr);
        let total = match (len, th) {
            _ if around => 270_000,
            (1, false) => 70_000,
            (2, false) => 5000,
            (3, false) => 400,
            (1, true) => 140_000,
            (2, true) => 10_000,
            (3, true) => 1000,
            _ => 300,
        };
        cx.note(|| format!("{body:?} repeated {} times{}", total / len, MODES[mode]));
        let mut l = start(cx, t, mode)?;
        let mut burst = 0;
        for _ in 0..total / len {
            for s in &body {
                l.step(*s)?;
            }
            if !l.fine {
                l.rest()?;
            }
            burst += 1;
            if mode == 4 && burst % 37 == 0 {
                let on = !l.d.s.draining;
                l.d.s.draining = on;
                l.d.s.settled = false;
                l.d.settle()?;
            }
            if l.d.s.end.is_some() {
                break;
            }
        }
        l.finish((body[0] as usize + mode) % 5)?;
        cx.events += l.events;
        cx.state(l.d.o.hash(&l.d.s));
        Ok(())
    })
}

fn smaller_rotation(b: &[Step]) -> bool {
    let key = |i: usize| -> Vec<u8> { (0..b.len()).map(|j| b[(i + j) % b.len()] as u8).collect() };
    let me = key(0);
    (1..b.len()).any(|i| key(i) < me)
}

/// A long phase of one step, then of another (thorough: then a third).
pub fn phases(t: Tags, th: bool) -> Space {
    let counts: &'static [usize] = if th { &[1, 2, 17, 70, 130, 300, 1100] } else { &[1, 17, 70, 270] };
    space("long phases one after another", move |cx| {
        let three = cx.choose(2) == 1;
        let mode = if three { 0 } else { cx.choose(MODES.len()) };
        let n = 2 + three as usize;
        let (k, cs): (usize, &[usize]) = if three { (12, if th { &[3, 80] } else { &[80] }) } else { (STEPS.len(), counts) };
        let plan: Vec<(Step, usize)> = (0..n).map(|_| (STEPS[cx.choose(k)], cs[cx.choose(cs.len())])).collect();
        if plan.windows(2).any(|w| w[0].0 == w[1].0) {
            cx.trivial = true;
            return Ok(());
        }
        cx.note(|| format!("{plan:?}{}", MODES[mode]));
        let mut l = start(cx, t, mode)?;
        for (s, n) in &plan {
            for _ in 0..*n {
                l.step(*s)?;
                if !l.fine && l.n % 20 == 0 {
                    l.rest()?;
                }
                if mode == 4 && l.n % 37 == 0 {
                    l.d.s.draining = !l.d.s.draining;
                    l.d.s.settled = false;
                    l.d.settle()?;
                }
            }
            l.d.settle()?;
        }
        l.finish((plan[0].0 as usize + plan[n - 1].0 as usize + mode) % 5)?;
        cx.events += l.events;
        cx.state(l.d.o.hash(&l.d.s));
        Ok(())
    })
}
