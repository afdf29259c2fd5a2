//! Waiting: every condition in which a session can wait, for every length of time, passed in
//! small steps or in one leap, and what comes after it.
use crate::checks::*;
use crate::explore::*;
use crate::fam::*;
use crate::mqtt::*;
use crate::obs::*;
use crate::sess::*;
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wait {
    /// nobody runs the event loop yet
    NotPolled,
    /// the TCP connection is being established
    Connecting,
    /// the server takes its time to accept the connection
    Handshake,
    /// half of the CONNACK has arrived
    HalfConnack,
    Idle,
    /// one request of each kind is not acknowledged
    Unanswered,
    /// all identifiers are in use and commands wait for one
    NoIdentifier,
    /// half of a packet has arrived
    HalfPacket,
    /// the application does not read, a packet more than it can be told about at once
    Unread,
    /// ... and the server has sent much more, and commands wait
    UnreadMuch,
    /// the socket accepts nothing, a command waits
    Blocked,
    /// the socket accepts a part of a packet; another command and messages wait
    BlockedInside,
    /// ... of an acknowledgement
    BlockedAck,
    BlockedUnread,
    NoReceiver,
    NoHandles,
    /// messages flow
    Incoming,
    /// commands flow
    Outgoing,
}
use Wait::*;
const BEFORE: &[Wait] = &[NotPolled, Connecting, Handshake, HalfConnack];
const OPEN: &[Wait] = &[Idle, Unanswered, NoIdentifier, HalfPacket, Unread, UnreadMuch, Blocked, BlockedInside, BlockedAck, BlockedUnread, Incoming, Outgoing, NoReceiver, NoHandles];

const S: u64 = 1000;
const LENGTHS: &[u64] = &[1, 999, S, 4 * S, 7999, 8 * S, 8001, 12 * S, 15_999, 16_001, 24_001, 30_001, 60_001, 120_001, 300_001, 600_001, 1_800_001, 3_600_001, 43_200_001, 86_400_001];
const LEAPS: &[u64] = &[604_800_000, 2_147_483_648, 4_294_967_297, 31_536_000_000];

struct Life {
    d: Drive,
    n: usize,
    pid: u16,
    leap: bool,
    events: u64,
    limited: bool,
    unread: usize,
}

impl Life {
    fn answer(&mut self) {
        if self.d.rest.is_empty() && self.d.s.end.is_none() && self.d.o.pings.last().is_some_and(|p| p.answered.is_none()) {
            self.d.srv(&pingresp());
        }
    }
    fn message(&mut self, qos: u8) {
        self.n += 1;
        self.pid = self.pid % 65535 + 1;
        let b = publish(false, qos, false, "w", self.pid, &[], &(self.n as u32).to_be_bytes());
        self.d.srv(&b);
    }
    fn command(&mut self, k: usize) {
        self.n += 1;
        let n = self.n;
        let c = match k % 4 {
            0 => Cmd::Pub { topic: "w".into(), payload: Pay::Bytes((n as u32).to_be_bytes().to_vec()), qos: Some(1), props: vec![] },
            1 => Cmd::Sub(format!("s{n}"), 1),
            2 => Cmd::Unsub(format!("u{n}")),
            _ => cpubn(n),
        };
        self.d.s.cmd(0, &c);
    }
    /// Time passes; whoever can does what it has to do.
    fn pass(&mut self, ms: u64, during: Wait) -> Result<(), Viol> {
        if self.leap {
            advance(&self.d.s.w, ms);
            self.d.o.impaired = self.d.s.w.borrow().now;
            self.d.s.settled = false;
            return Ok(());
        }
        // at most some ten thousand steps
        let mut left = ms;
        let unit = if self.d.o.opened.is_none() { (ms / 50).max(S) } else { 4 * S };
        self.d.step = unit;
        let mut i = 0;
        while left > 0 {
            let t = left.min(unit);
            left -= t;
            self.d.tick(t)?;
            self.events += 1;
            i += 1;
            self.answer();
            match during {
                Incoming => self.message((i % 2) as u8),
                Outgoing => {
                    self.command(3);
                    if i % 16 == 0 {
                        self.command(0);
                        self.d.settle()?;
                        if let Some((p, k)) = self.d.o.oldest() {
                            let b = self.d.ack(p, k, false);
                            self.d.srv(&b);
                        }
                    }
                }
                _ => {}
            }
            if i % 64 == 0 || left == 0 {
                self.d.settle()?;
            } else {
                self.d.s.settle();
                self.d.o.update(&self.d.s);
            }
            if self.d.s.end.is_some() {
                break;
            }
        }
        Ok(())
    }
    fn quiet(&mut self) -> Result<(), Viol> {
        self.d.settle()?;
        self.answer();
        self.d.settle()
    }

    fn open(&mut self, w: Wait, ms: u64) -> Result<(), Viol> {
        self.quiet()?;
        if self.d.s.end.is_some() {
            return Ok(());
        }
        match w {
            Idle | Incoming | Outgoing => self.pass(ms, w)?,
            Unanswered => {
                (0..4).for_each(|k| self.command(k));
                self.d.s.cmd(0, &cpub(2));
                self.d.settle()?;
                self.pass(ms, w)?;
                self.quiet()?;
                // more of the same, then the answers to all of them
                (0..3).for_each(|k| self.command(k));
                self.d.settle()?;
                let mut k = 0;
                while let (Some((p, t)), true) = (self.d.o.oldest(), self.d.s.end.is_none()) {
                    if t == 5 {
                        // never answered
                        break;
                    }
                    let b = self.d.ack(p, t, k % 2 == 1);
                    k += 1;
                    self.d.srv(&b);
                    self.d.settle()?;
                }
                (0..3).for_each(|k| self.command(k));
            }
            NoIdentifier => {
                if !self.limited {
                    return Ok(());
                }
                for k in 0..8 {
                    self.command(k % 3);
                    self.d.settle()?;
                }
                self.message(1);
                self.pass(ms, w)?;
                self.quiet()?;
                for _ in 0..4 {
                    if let (Some((p, t)), true) = (self.d.o.newest(), self.d.s.end.is_none()) {
                        let b = self.d.ack(p, t, false);
                        self.d.srv(&b);
                        self.d.settle()?;
                    }
                }
            }
            HalfPacket => {
                let b = publish(false, 1, false, "half", 12, &[RProp::Pfi(1)], b"payload");
                self.d.srv(&b[..9]);
                self.d.rest = b[9..].to_vec();
                self.d.settle()?;
                self.command(0);
                // no answer to a ping in the middle of a packet: at most one interval, unless it leaps
                let step = if self.leap { ms } else { ms.min(7 * S) };
                self.pass(step, w)?;
                self.d.settle()?;
                let r = std::mem::take(&mut self.d.rest);
                self.d.srv(&r);
            }
            Unread | UnreadMuch => {
                self.d.s.draining = false;
                // about what fits the channel
                let n = if w == Unread { self.unread } else { 230 };
                for i in 0..n {
                    self.message((i % 2) as u8);
                    if i % 10 == 9 {
                        self.d.settle()?;
                    }
                }
                (0..5).for_each(|k| self.command(k));
                self.d.settle()?;
                self.pass(ms, w)?;
                self.d.settle()?;
                self.d.s.draining = true;
                self.d.s.settled = false;
            }
            Blocked | BlockedInside | BlockedAck | BlockedUnread => {
                let q = if w == Blocked { 0 } else { 3 };
                self.d.s.with(|c| c.set_wmode(WMode::Quota(q)));
                if w == BlockedUnread {
                    self.d.s.draining = false;
                }
                if w == BlockedAck {
                    self.message(1);
                } else {
                    self.command(0);
                }
                self.d.settle()?;
                (0..3).for_each(|k| self.command(k));
                (0..if w == BlockedUnread { 150 } else { 4 }).for_each(|i| self.message((i % 2) as u8));
                self.pass(ms, w)?;
                self.d.settle()?;
                self.d.s.with(|c| c.set_wmode(WMode::Open));
                self.d.s.draining = true;
                self.d.s.settled = false;
            }
            NoReceiver => {
                self.d.s.rx = None;
                self.d.s.settled = false;
                self.message(1);
                self.pass(ms, w)?;
            }
            NoHandles => {
                (0..3).for_each(|k| self.command(k));
                self.d.s.clients.iter_mut().for_each(|c| *c = None);
                self.d.s.settled = false;
                self.pass(ms, w)?;
            }
            _ => {}
        }
        self.d.settle()
    }

    fn finish(&mut self, end: usize) -> Result<(), Viol> {
        self.quiet()?;
        // it still does everything
        if self.d.s.clients.iter().any(|c| c.is_some()) {
            (0..4).for_each(|k| self.command(k));
        }
        self.message(1);
        self.message(0);
        self.quiet()?;
        self.leap = false;
        self.pass(17 * S, Idle)?;
        self.quiet()?;
        if let (Some((p, t)), true) = (self.d.o.oldest(), self.d.s.end.is_none()) {
            if t != 5 {
                let b = self.d.ack(p, t, true);
                self.d.srv(&b);
                self.d.settle()?;
            }
        }
        let c = self.d.s.clients.iter().any(|c| c.is_some());
        match end {
            0 if c => {
                self.d.s.cmd(0, &Cmd::Disc);
            }
            1 => {
                self.d.o.env_eof = true;
                self.d.s.with(|c| c.push(Seg::Eof));
            }
            2 => self.d.srv(&[0x32, 6, 0, 1, b'x', 0, 0, 0]),
            3 => self.d.srv(&disconnect(0x8B)),
            _ => {
                // silence
                self.d.step = S;
                self.d.tick(17 * S)?;
                if self.d.s.end.is_none() && self.d.tags & PING != 0 {
                    return viol("PING", "silence and no time-out");
                }
            }
        }
        self.d.settle()
    }
}

fn start(cx: &mut Ctx, t: Tags, before: Option<(Wait, u64)>, leap: bool, limit: bool) -> Result<Life, Viol> {
    limit_ids(if limit { Some(6) } else { None });
    if matches!(before, Some((Connecting, _))) {
        cx.w.borrow_mut().connect_mode = ConnMode::Wait;
    }
    let mut d = Drive::new(cx, t);
    if limit {
        d.o.max_ids = 6;
    }
    let mut l = Life { d, n: 0, pid: 0, leap, events: 0, limited: limit, unread: 103 };
    let Some((w, ms)) = before else {
        l.d.settle()?;
        l.d.srv(&connack(false, 0, &[]));
        l.d.settle()?;
        return Ok(l);
    };
    if !limit {
        (0..4).for_each(|k| l.command(k));
    }
    match w {
        NotPolled => {
            advance(&l.d.s.w, ms);
            l.d.settle()?;
        }
        Connecting => {
            l.d.settle()?;
            l.pass(ms, w)?;
            l.d.settle()?;
            l.d.s.with(|c| c.accept());
            l.d.settle()?;
        }
        Handshake => {
            l.d.settle()?;
            l.pass(ms, w)?;
            l.d.settle()?;
        }
        HalfConnack => {
            l.d.settle()?;
            let b = connack(true, 0, &[RProp::Reason("fine".into())]);
            l.d.srv(&b[..4]);
            l.d.settle()?;
            l.pass(ms, w)?;
            l.d.settle()?;
            l.d.srv(&b[4..]);
            l.d.settle()?;
            return Ok(l);
        }
        _ => {}
    }
    l.d.srv(&connack(false, 0, &[]));
    l.d.settle()?;
    Ok(l)
}

/// Which branch select! looks at first: always the same one, or each in turn.
fn order(cx: &mut Ctx) {
    let r = [0, 1, 2, 100][cx.choose(4)];
    cx.w.borrow_mut().rng_fixed = r;
    cx.note(|| format!("select! starts at branch {r}"));
}

/// One wait: every condition and length. Two: every pair of conditions, some lengths.
pub fn spaces(t: Tags, th: bool) -> Vec<Space> {
    let mut v = vec![];
    v.push(space("every condition to wait in, for every length of time", move |cx| {
        let leap = cx.choose(2) == 1;
        let n = LENGTHS.len() + if leap { LEAPS.len() } else { 0 };
        let w = cx.choose(BEFORE.len() + OPEN.len());
        let k = cx.choose(n);
        let ms = if k < LENGTHS.len() { LENGTHS[k] } else { LEAPS[k - LENGTHS.len()] };
        let end = cx.choose(5);
        order(cx);
        let (before, w) = if w < BEFORE.len() { (Some((BEFORE[w], ms)), BEFORE[w]) } else { (None, OPEN[w - BEFORE.len()]) };
        if w == NoIdentifier && !cfg!(feature = "hook") {
            cx.trivial = true;
            return Ok(());
        }
        // the long ones in small steps end in one way only
        if !leap && ms > 4_000_000 && end != 0 && !th {
            cx.trivial = true;
            return Ok(());
        }
        cx.note(|| format!("{w:?} for {ms} ms{}, end {end}", if leap { " in one leap" } else { "" }));
        let mut l = start(cx, t, before, leap, w == NoIdentifier)?;
        if before.is_none() {
            if w == Unread {
                l.unread = 99 + cx.choose(8);
            }
            l.open(w, ms)?;
        }
        l.finish(end)?;
        cx.events += l.events + 8;
        cx.state(l.d.o.hash(&l.d.s));
        Ok(())
    }));
    v.push(space("every pair of conditions to wait in, one after the other", move |cx| {
        let lens: &[u64] = if th { &[999, 9 * S, 61 * S, 601 * S, 4000 * S] } else { &[9 * S, 601 * S] };
        let leap = cx.choose(2) == 1;
        let a = cx.choose(BEFORE.len() + OPEN.len() - 2);
        let b = OPEN[cx.choose(OPEN.len())];
        let (x, y) = (lens[cx.choose(lens.len())], lens[cx.choose(lens.len())]);
        let end = (a + b as usize) % 5;
        order(cx);
        let (before, a) = if a < BEFORE.len() { (Some((BEFORE[a], x)), BEFORE[a]) } else { (None, OPEN[a - BEFORE.len()]) };
        let limit = a == NoIdentifier || b == NoIdentifier;
        if limit && (!cfg!(feature = "hook") || a == Unanswered || b == Unanswered) {
            cx.trivial = true;
            return Ok(());
        }
        cx.note(|| format!("{a:?} for {x} ms, then {b:?} for {y} ms{}, end {end}", if leap { ", each in one leap" } else { "" }));
        let mut l = start(cx, t, before, leap, limit)?;
        if before.is_none() {
            l.open(a, x)?;
        }
        l.open(b, y)?;
        l.finish(end)?;
        cx.events += l.events + 8;
        cx.state(l.d.o.hash(&l.d.s));
        Ok(())
    }));
    v
}
