//! The oracle: everything observable about one session (bytes in, bytes out, notifications,
//! result, time) is decoded incrementally and compared with what the properties demand.
use crate::dbg::shows;
use crate::explore::{viol, Viol};
use crate::mqtt::*;
use crate::sess::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Tags = u32;
pub const CMD: Tags = 1;
pub const HS: Tags = 2;
pub const IDS: Tags = 4;
pub const NOTIF: Tags = 8;
pub const ACK: Tags = 16;
pub const END: Tags = 32;
pub const PING: Tags = 64;
pub const SPIN: Tags = 128;
pub const WSTREAM: Tags = 256;
pub const PANIC: Tags = 512;
/// content of notifications of type PUBLISH / of the other kinds
pub const MSGS: Tags = 1024;
pub const ANSWERS: Tags = 2048;
/// malformed input must end the session
pub const REJECT: Tags = 4096;
/// answers of the client handle (long histories only; see special::handles)
pub const HONEST: Tags = 8192;

pub struct InF {
    pub end: usize,
    pub f: Frame,
    pub delivered_at: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Res {
    Ok,
    Err,
    Either,
    Timeout,
}

#[derive(Clone, Debug)]
struct Cause {
    res: Res,
    /// inbound frames that must have been handled completely; None: any number
    cut: Option<usize>,
    definite: bool,
    reason: Option<u8>,
    what: &'static str,
}

#[derive(Clone, Debug)]
pub struct Ping {
    pub at: u64,
    /// when an answer reached the socket after the ping was written
    pub answered: Option<u64>,
    /// when the client read that answer
    pub read: Option<u64>,
    /// the session came to rest without having read the answer
    pub ignored: bool,
}

#[derive(Default)]
pub struct Obs {
    pub frames: Vec<InF>,
    in_pos: usize,
    bad: Option<&'static str>,
    early: bool,
    pub outs: Vec<(usize, usize, OutPkt)>,
    out_pos: usize,
    pub out_err: Option<String>,
    cur: usize,
    n_issued: usize,
    n_read: usize,
    n_deliv: usize,
    /// identifier -> (kind of acknowledgement due, issue number)
    pub outstanding: BTreeMap<u16, (u8, u64)>,
    /// issue number -> identifier
    pub order: BTreeMap<u64, u16>,
    ambig: BTreeSet<u16>,
    pub window: Vec<u16>,
    pub last_acked: Option<(u16, u8)>,
    pub pings: Vec<Ping>,
    pub last_write: u64,
    pub opened: Option<u64>,
    pub connect_end: Option<usize>,
    pub keep_alive: u64,
    pub impaired: u64,
    viols: Vec<(Tags, &'static str, String)>,
    pub read: usize,
    notif_ok: usize,
    pub env_eof: bool,
    pub env_err: bool,
    pub max_out: usize,
    pub issued_total: u64,
    pub pubacks_seen: usize,
    /// tolerance for late pings etc.
    pub slack: u64,
    /// index of next out packet to match against commands
    cmd_matched: usize,
    out_scanned: usize,
    pub last_out_is_disc: bool,
    exp_acks: Vec<u16>,
    exp_notifs: Vec<usize>,
    frames_scanned: usize,
    scan_stopped: bool,
    loose: bool,
    causes_in: Vec<Cause>,
    pub open: bool,
    /// size of the identifier space
    pub max_ids: usize,
    closed_seen: bool,
}

pub fn kind_of(p: &OutPkt) -> Option<(u16, u8)> {
    match p {
        OutPkt::Publish { pid: Some(p), qos, .. } => Some((*p, if *qos == 1 { 4 } else { 5 })),
        OutPkt::Subscribe { pid, .. } => Some((*pid, 9)),
        OutPkt::Unsubscribe { pid, .. } => Some((*pid, 11)),
        _ => None,
    }
}

pub fn same_cmd(c: &Cmd, p: &OutPkt) -> Result<(), String> {
    let ok = match (c, p) {
        (Cmd::Pub { topic, payload, qos, props }, OutPkt::Publish { dup, qos: q, retain, topic: t, pid, props: ps, payload: pl }) => {
            let (bytes, pfi): (&[u8], u8) = match payload {
                Pay::Text(s) => (s.as_bytes(), 1),
                Pay::Bytes(b) => (b, 0),
            };
            let want_q = qos.unwrap_or(0);
            if *dup || *retain {
                return Err("marked retained or duplicate".into());
            }
            if *q != want_q || pid.is_some() != (want_q > 0) {
                return Err(format!("QoS {q} instead of {want_q}"));
            }
            if topic != t {
                return Err(format!("topic {:?} instead of {:?}", clip(t), clip(topic)));
            }
            if bytes != &pl[..] {
                return Err(format!("payload of {} bytes differs from the {} bytes given", pl.len(), bytes.len()));
            }
            ps.len() == props.len() + 1 && ps[0] == RProp::Pfi(pfi) && ps[1..] == props[..]
        }
        (Cmd::Sub(t, q), OutPkt::Subscribe { filters, .. }) => filters.len() == 1 && filters[0] == (t.clone(), *q),
        (Cmd::Unsub(t), OutPkt::Unsubscribe { filters, .. }) => filters.len() == 1 && filters[0] == *t,
        (Cmd::Disc, OutPkt::Disconnect { reason }) => *reason == 0,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("asked {}, wrote {}", clip(&format!("{c:?}")), clip(&format!("{p:?}"))))
    }
}

pub fn clip(s: &str) -> String {
    if s.len() <= 160 {
        return s.to_owned();
    }
    let mut n = 150;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}… ({} bytes)", &s[..n], s.len())
}

fn squash(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).collect::<String>().to_lowercase()
}

impl Obs {
    pub fn new() -> Self {
        Obs { slack: 110, max_ids: 65535, ..Default::default() }
    }

    /// Take in everything new.
    pub fn update(&mut self, s: &Sess) {
        let Some(ci) = s.conn else { return };
        let w = s.w.borrow();
        let c = &w.conns[ci];
        // inbound frames
        while self.bad.is_none() {
            match classify(&c.delivered[self.in_pos..]) {
                Cls::NeedMore { early } => {
                    self.early = early;
                    break;
                }
                Cls::Bad(m) => {
                    self.bad = Some(m);
                    break;
                }
                Cls::Frame(f) => {
                    self.in_pos += f.len;
                    self.frames.push(InF { end: self.in_pos, f, delivered_at: 0 });
                }
            }
        }
        // outbound packets
        while self.out_err.is_none() {
            match decode_out(&c.out[self.out_pos..]) {
                Ok(None) => break,
                Ok(Some((p, n))) => {
                    self.outs.push((self.out_pos, self.out_pos + n, p));
                    self.out_pos += n;
                }
                Err(e) => self.out_err = Some(e),
            }
        }
        // timeline
        while self.cur < c.log.len() {
            let e = c.log[self.cur].clone();
            self.cur += 1;
            match e {
                What::Write(n, t) => {
                    self.last_write = t;
                    while self.n_issued < self.outs.len() && self.outs[self.n_issued].1 <= n {
                        let p = self.outs[self.n_issued].2.clone();
                        let first = self.n_issued == 0;
                        self.n_issued += 1;
                        match &p {
                            OutPkt::Connect { keep_alive, clean, .. } => {
                                if !first {
                                    self.viols.push((HS, "HS", "a second CONNECT was written".into()));
                                } else {
                                    self.connect_end = Some(self.outs[0].1);
                                    self.keep_alive = *keep_alive as u64 * 1000;
                                    if !clean {
                                        self.viols.push((HS, "HS", "CONNECT without clean start".into()));
                                    }
                                }
                            }
                            _ if first => self.viols.push((HS, "HS", format!("the first packet is {p:?}, not CONNECT"))),
                            OutPkt::Pingreq => self.pings.push(Ping { at: t, answered: None, read: None, ignored: false }),
                            _ => {}
                        }
                        if let Some((pid, kind)) = kind_of(&p) {
                            self.issued_total += 1;
                            if pid == 0 {
                                self.viols.push((IDS, "IDS", format!("packet identifier 0 in {}", clip(&format!("{p:?}")))));
                            } else if self.outstanding.contains_key(&pid) && !self.ambig.contains(&pid) {
                                self.viols.push((IDS, "IDS", format!("identifier {pid} issued while an earlier request with it is unacknowledged: {}", clip(&format!("{p:?}")))));
                            } else if self.window.contains(&pid) {
                                self.ambig.insert(pid);
                            }
                            let n = self.issued_total;
                            if let Some((_, old)) = self.outstanding.insert(pid, (kind, n)) {
                                self.order.remove(&old);
                            }
                            self.order.insert(n, pid);
                            self.max_out = self.max_out.max(self.outstanding.len());
                        }
                    }
                    // bytes after CONNECT before the CONNACK was taken
                    if let Some(ce) = self.connect_end {
                        if n > ce && !self.opened_by_read() {
                            self.viols.push((HS, "HS", format!("{} bytes written after CONNECT before an accepting CONNACK was read", n - ce)));
                        }
                    }
                }
                What::Read(n, t) => {
                    self.read = n;
                    while self.n_read < self.frames.len() && self.frames[self.n_read].end <= n {
                        let i = self.n_read;
                        self.n_read += 1;
                        match self.frames[i].f.pkt.clone() {
                            Some(InPkt::Connack { reason: 0, .. }) if i == 0 => {
                                self.opened = Some(t);
                                self.last_write = self.last_write.max(t);
                            }
                            Some(InPkt::Puback { pid, .. }) => self.acked(pid, 4),
                            Some(InPkt::Suback { pid, .. }) => self.acked(pid, 9),
                            Some(InPkt::Unsuback { pid, .. }) => self.acked(pid, 11),
                            Some(InPkt::Pingresp) => {
                                if let Some(p) = self.pings.iter_mut().rev().find(|p| p.answered.is_some()) {
                                    p.read.get_or_insert(t);
                                }
                            }
                            _ => {}
                        }
                    }
                }
                What::Deliver(n, t) => {
                    while self.n_deliv < self.frames.len() && self.frames[self.n_deliv].end <= n {
                        let f = &mut self.frames[self.n_deliv];
                        f.delivered_at = t;
                        self.n_deliv += 1;
                        if f.f.pkt == Some(InPkt::Pingresp) && !self.closed_seen {
                            if let Some(p) = self.pings.last_mut() {
                                p.answered.get_or_insert(t);
                            }
                        }
                    }
                }
                What::Close => self.closed_seen = true,
                What::Settled => {
                    self.window.clear();
                    let open = !self.closed_seen;
                    for p in self.pings.iter_mut().rev().take(3) {
                        p.ignored |= open && p.answered.is_some() && p.read.is_none();
                    }
                }
                _ => {}
            }
        }
        if c.blocked {
            self.impaired = w.now;
        }
        drop(w);
        self.scan(s);
        if self.held_back(s) {
            self.impaired = s.w.borrow().now;
        }
    }

    fn opened_by_read(&self) -> bool {
        matches!(self.frames.first(), Some(f) if f.end <= self.read && matches!(f.f.pkt, Some(InPkt::Connack { reason: 0, .. })))
    }

    fn acked(&mut self, pid: u16, kind: u8) {
        match self.outstanding.get(&pid) {
            Some((k, n)) if *k == kind => {
                let n = *n;
                if self.ambig.contains(&pid) {
                    // which of the two uses this answers is open; keep it ambiguous
                    return;
                }
                self.outstanding.remove(&pid);
                self.order.remove(&n);
                self.last_acked = Some((pid, kind));
            }
            Some(_) => {
                self.ambig.insert(pid);
            }
            None => self.window.push(pid),
        }
    }

    /// Expected notifications, acknowledgements and reasons to end, from the inbound frames.
    fn scan(&mut self, s: &Sess) {
        while self.frames_scanned < self.frames.len() && !self.scan_stopped && !self.loose {
            let i = self.frames_scanned;
            let f = &self.frames[i].f;
            self.frames_scanned += 1;
            let mut cause = |res, cut, definite, reason, what| self.causes_in.push(Cause { res, cut: Some(cut), definite, reason, what });
            if i == 0 {
                match &f.pkt {
                    Some(InPkt::Connack { reason: 0, .. }) => {
                        if f.reject_ok {
                            cause(Res::Err, 0, false, None, "CONNACK in an unusual form");
                        }
                        self.open = true;
                        self.exp_notifs.push(0);
                    }
                    Some(InPkt::Connack { .. }) => {
                        cause(Res::Err, 1, true, None, "the server refused the connection");
                        if f.reject_ok {
                            cause(Res::Err, 0, true, None, "CONNACK in an unusual form");
                        }
                        self.exp_notifs.push(0);
                        self.scan_stopped = true;
                    }
                    _ => {
                        cause(Res::Err, 0, true, None, "the server answered CONNECT with something else");
                        self.scan_stopped = true;
                    }
                }
                continue;
            }
            if f.any {
                cause(Res::Err, i, false, None, "unsupported packet");
                self.loose = true;
                continue;
            }
            match &f.pkt {
                None => {
                    cause(Res::Err, i, true, None, f.why);
                    self.scan_stopped = true;
                }
                Some(InPkt::Disconnect { reason }) => {
                    if f.reject_ok {
                        cause(Res::Err, i, true, None, "DISCONNECT in an unusual form");
                    }
                    let res = if *reason == 0 { Res::Ok } else if *reason == 4 { Res::Either } else { Res::Err };
                    cause(res, i, true, if *reason == 0 { None } else { Some(*reason) }, "the server disconnected");
                    self.scan_stopped = true;
                }
                Some(InPkt::Connack { .. }) => {
                    cause(Res::Err, i, false, None, "second CONNACK");
                    self.loose = true;
                }
                Some(p) => {
                    if f.reject_ok {
                        cause(Res::Err, i, false, None, "packet in an unusual form");
                    }
                    match p {
                        InPkt::Publish { qos, pid, .. } => {
                            if *qos == 1 {
                                self.exp_acks.push(pid.unwrap());
                            }
                            self.exp_notifs.push(i);
                        }
                        InPkt::Suback { .. } | InPkt::Unsuback { .. } => self.exp_notifs.push(i),
                        _ => {}
                    }
                }
            }
        }
        let _ = s;
    }

    /// The longest unacknowledged request that the library can be answered for.
    pub fn oldest(&self) -> Option<(u16, u8)> {
        self.order.values().map(|p| (*p, self.outstanding[p].0)).find(|x| x.1 != 5)
    }
    pub fn newest(&self) -> Option<(u16, u8)> {
        self.order.values().rev().map(|p| (*p, self.outstanding[p].0)).find(|x| x.1 != 5)
    }

    pub fn expected_notifs(&self) -> usize {
        self.exp_notifs.len()
    }

    /// The session may be waiting for the application to read notifications.
    pub fn held_back(&self, s: &Sess) -> bool {
        !s.draining && s.rx.is_some() && !s.rx_ended && self.exp_notifs.len().saturating_sub(s.notifs.len()) >= CAP
    }

    fn causes(&self, s: &Sess) -> Vec<Cause> {
        let mut v = self.causes_in.clone();
        let any = |res, definite, what| Cause { res, cut: None, definite, reason: None, what };
        let Some((connected, werr, blocked, leftover, eof_read, err_read)) = s.with(|c| (c.connected, c.werr, c.blocked, self.in_pos < c.delivered.len(), c.eof_read, c.err_read)) else {
            return v;
        };
        if s.with(|c| c.mode == ConnMode::Fail) == Some(true) {
            v.push(any(Res::Err, true, "the connection attempt failed"));
        }
        if !connected {
            return v;
        }
        if !self.scan_stopped && !self.loose {
            let n = self.frames.len();
            let at = |res, definite, what| Cause { res, cut: Some(n), definite, reason: None, what };
            if let Some(m) = self.bad {
                v.push(at(Res::Err, true, m));
            } else if self.early && leftover {
                v.push(at(Res::Err, false, "beginning of a malformed packet"));
            } else if n == 0 && leftover {
                let first = s.with(|c| c.delivered[self.in_pos]).unwrap_or(0);
                if first >> 4 != 2 {
                    v.push(at(Res::Err, false, "beginning of something other than CONNACK"));
                }
            }
            if self.env_eof {
                v.push(if leftover || n == 0 { at(Res::Err, true, "the connection was closed inside a packet or before CONNACK") } else { at(Res::Ok, true, "the server closed the connection") });
            }
            if self.env_err {
                v.push(at(Res::Err, true, "read error"));
            }
        } else if self.loose {
            if self.env_eof {
                v.push(any(Res::Either, true, "closed"));
            }
            if self.env_err {
                v.push(any(Res::Err, true, "read error"));
            }
        }
        let _ = (eof_read, err_read, blocked);
        if werr {
            v.push(any(Res::Err, true, "write error"));
        }
        if matches!(self.outs.last(), Some((_, _, OutPkt::Disconnect { .. }))) {
            v.push(any(Res::Ok, true, "disconnect command"));
        }
        if let Some(p) = self.pings.last() {
            let t = s.end_time;
            let due = t + self.slack >= p.at + self.keep_alive;
            if !self.in_time(p) && due {
                v.push(any(Res::Timeout, false, "ping not answered"));
            } else if p.read.is_none() && !p.ignored && due {
                v.push(any(Res::Timeout, false, "answer to a ping not read yet (C14's business)"));
            }
        }
        v
    }

    fn fits(c: &Cause, e: &End) -> bool {
        match (c.res, e) {
            (Res::Timeout, End::Err(t, _)) => *t,
            // a socket error may itself be of the kind "timed out"
            (Res::Err, End::Err(true, _)) => c.what == "read error" || c.what == "write error" || c.what == "the connection attempt failed",
            (Res::Ok | Res::Either, End::Ok) => true,
            (Res::Err | Res::Either, End::Err(false, text)) => match c.reason {
                None => true,
                Some(r) => {
                    let name = DISCONNECT_REASONS.iter().find(|x| x.0 == r).map(|x| x.1).unwrap_or("");
                    squash(text).contains(&squash(name))
                }
            },
            _ => false,
        }
    }

    /// Everything demanded of the state reached; call when the session is quiet.
    pub fn check(&mut self, s: &Sess, tags: Tags) -> Result<(), Viol> {
        self.update(s);
        let settled = s.settled;
        let on = |t: Tags| tags & t != 0;
        for (t, n, m) in &self.viols {
            if on(*t) {
                return viol(n, m.clone());
            }
        }
        match &s.end {
            Some(End::Panic(p)) if on(PANIC | END) => return viol("PANIC", format!("the event loop panicked: {p}")),
            Some(End::Spin(p)) if on(SPIN | PANIC | END) => return viol("SPIN", format!("the event loop never rests: {p}")),
            _ => {}
        }
        if on(SPIN) && s.idle_polls > 12 {
            return viol("SPIN", format!("{} polls in a row without any event", s.idle_polls));
        }
        if s.dropped_ev {
            return Ok(());
        }
        if on(CMD | ACK | WSTREAM) {
            if let Some(e) = &self.out_err {
                return viol("WFORM", e.clone());
            }
        }
        let (blocked, werr, closed, late, out_len, inq) = s.with(|c| (c.blocked, c.werr, c.closed, c.late, c.out.len(), c.inq.len())).unwrap_or((false, false, false, false, 0, 0));
        let _ = inq;
        let stalled = self.held_back(s);
        let causes = self.causes(s);
        let matching: Vec<&Cause> = match &s.end {
            Some(e) => causes.iter().filter(|c| Self::fits(c, e)).collect(),
            None => vec![],
        };
        let justified = !matching.is_empty();
        if s.conn.is_none() || s.with(|c| c.connected) == Some(false) {
            // not connected yet
            if on(END | HS) {
                match &s.end {
                    Some(End::Ok) => return viol("END", "success without a connection"),
                    Some(End::Err(..)) if !justified => return viol("END", format!("ended without cause: {:?}", s.end)),
                    None if settled && causes.iter().any(|c| c.definite) => return viol("END", "the failed connection attempt is not reported"),
                    _ => {}
                }
            }
            return Ok(());
        }
        // --- result
        let live_in = settled && !blocked && !stalled;
        if on(END) || (on(HS) && !self.open) {
            match &s.end {
                Some(e) if !justified => {
                    return viol("END", format!("ended with {e:?}, possible causes: {:?}", causes.iter().map(|c| (c.res, c.what)).collect::<Vec<_>>()));
                }
                Some(_) => {
                    if !closed {
                        return viol("END", "the connection is still open after the end of the session");
                    }
                }
                None => {
                    if live_in {
                        if let Some(c) = causes.iter().find(|c| c.definite) {
                            return viol("END", format!("the session goes on although: {}", c.what));
                        }
                    }
                }
            }
        }
        if on(REJECT) && !self.loose {
            let must = causes.iter().find(|c| c.definite && c.cut.is_some());
            if let Some(c) = must {
                match &s.end {
                    None if live_in => return viol("REJECT", format!("accepted although: {}", c.what)),
                    Some(End::Ok) if c.res == Res::Err && !matching.iter().any(|m| m.res == Res::Ok) => return viol("REJECT", format!("success although: {}", c.what)),
                    _ => {}
                }
            }
            if matches!(s.end, Some(End::Err(..))) && !justified {
                return viol("REJECT", format!("rejected without cause: {:?}", s.end));
            }
        }
        // --- handshake
        if on(HS) {
            if let Some(ce) = self.connect_end {
                if out_len > ce && !self.open {
                    return viol("HS", "packets written after CONNECT although the connection was not accepted");
                }
            } else if settled && !blocked && !werr && s.end.is_none() {
                return viol("HS", "no CONNECT was written");
            }
            if self.open && s.notifs.first().is_some_and(|n| n.kind != Kind::ConnAck) {
                return viol("HS", "the first notification is not the CONNACK");
            }
            if s.notifs.iter().skip(1).any(|n| n.kind == Kind::ConnAck) && !self.loose {
                return viol("HS", "CONNACK reported twice");
            }
            if !self.open && !s.notifs.is_empty() && s.notifs.iter().any(|n| n.kind != Kind::ConnAck) {
                return viol("HS", "notification before the connection was accepted");
            }
            if self.open && s.notifs.is_empty() && settled && s.draining && s.rx.is_some() && self.opened_by_read() && !self.causes_in.iter().any(|c| c.cut == Some(0)) {
                return viol("HS", "the CONNACK was not reported");
            }
        }
        // --- commands
        while self.out_scanned < self.outs.len() {
            let p = &self.outs[self.out_scanned].2;
            self.out_scanned += 1;
            match p {
                OutPkt::Connect { .. } | OutPkt::Pingreq => {}
                OutPkt::Puback { pid, reason } => {
                    let i = self.pubacks_seen;
                    self.pubacks_seen += 1;
                    if !self.loose && (i >= self.exp_acks.len() || self.exp_acks[i] != *pid || *reason != 0) {
                        self.viols.push((ACK, "ACK", format!("PUBACK {i} is for {pid} with reason {reason}, messages to acknowledge: {:?}", tail(&self.exp_acks))));
                    }
                }
                p => {
                    let i = self.cmd_matched;
                    self.cmd_matched += 1;
                    match s.cmds.get(i) {
                        None => self.viols.push((CMD, "CMD", format!("wrote {} but only {} commands were accepted", clip(&format!("{p:?}")), s.cmds.len()))),
                        Some(c) => {
                            if let Err(e) = same_cmd(c, p) {
                                self.viols.push((CMD, "CMD", format!("command {i}: {e}")))
                            }
                        }
                    }
                    if self.last_out_is_disc {
                        self.viols.push((CMD | END, "END", format!("wrote {} after DISCONNECT", clip(&format!("{p:?}")))));
                    }
                    self.last_out_is_disc = matches!(p, OutPkt::Disconnect { .. });
                }
            }
            if self.last_out_is_disc && matches!(self.outs[self.out_scanned - 1].2, OutPkt::Pingreq | OutPkt::Puback { .. }) {
                self.viols.push((END, "END", "wrote a packet after DISCONNECT".into()));
            }
        }
        for (t, n, m) in &self.viols {
            if on(*t) {
                return viol(n, m.clone());
            }
        }
        let alive = !justified; // a session that ended without cause owes everything
        if on(CMD) && alive && self.open && self.opened_by_read() && settled && !blocked && !stalled && !werr && !self.loose {
            let need = match s.cmds.iter().position(|c| matches!(c, Cmd::Disc)) {
                Some(i) => i + 1,
                None => s.cmds.len(),
            };
            // a terminating packet that has been received excuses what was not sent yet
            let excused = causes.iter().any(|c| c.definite && c.cut.is_some());
            if self.cmd_matched < need && !excused {
                let next = &s.cmds[self.cmd_matched];
                // with every identifier in use all commands wait, also those that need none
                if self.outstanding.len() < self.max_ids {
                    return viol("CMD", format!("{} of {need} accepted commands were written, {} missing, {} unacknowledged", self.cmd_matched, clip(&format!("{next:?}")), self.outstanding.len()));
                }
            }
        }
        // --- notifications
        if on(NOTIF | MSGS | ANSWERS) && !self.loose {
            while self.notif_ok < s.notifs.len() {
                let i = self.notif_ok;
                let n = &s.notifs[i];
                let Some(&fi) = self.exp_notifs.get(i) else {
                    return viol("NOTIF", format!("unexpected notification {i}: {:?} {}", n.kind, clip(&n.text)));
                };
                let p = self.frames[fi].f.pkt.as_ref().unwrap();
                let kind = match p {
                    InPkt::Connack { .. } => Kind::ConnAck,
                    InPkt::Suback { .. } => Kind::SubAck,
                    InPkt::Unsuback { .. } => Kind::UnsubAck,
                    _ => Kind::Message,
                };
                let is_msg = kind == Kind::Message;
                if n.kind != kind {
                    return viol("NOTIF", format!("notification {i} is {:?} {}, received {}", n.kind, clip(&n.text), clip(&format!("{p:?}"))));
                }
                if on(NOTIF) || (is_msg && on(MSGS)) || (!is_msg && on(ANSWERS)) {
                    if let Err(e) = shows(&n.text, p) {
                        return viol("NOTIF", format!("notification {i}: {}", clip(&e)));
                    }
                }
                self.notif_ok += 1;
            }
            if s.rx.is_some() && s.draining && settled {
                let want = self.exp_notifs.len();
                let got = s.notifs.len();
                let ok = match (&s.end, justified) {
                    (Some(_), true) => matching.iter().any(|c| match c.cut {
                        None => got <= want,
                        Some(k) => {
                            let full = self.exp_notifs.iter().filter(|i| **i < k).count();
                            got == full || (!self.open && got <= full)
                        }
                    }),
                    (Some(_), false) => got == want,
                    (None, _) => blocked || werr || got == want || (self.open && !self.opened_by_read()),
                };
                if !ok {
                    return viol("NOTIF", format!("{got} of {want} notifications arrived (session {})", if s.end.is_some() { "ended" } else { "open" }));
                }
            }
        }
        // --- acknowledgements
        if on(ACK) && !self.loose && self.open && settled {
            let want = self.exp_acks.len();
            let got = self.pubacks_seen;
            let upto = |k: usize| self.frames[..k.min(self.frames.len())].iter().filter(|f| matches!(f.f.pkt, Some(InPkt::Publish { qos: 1, .. }))).count();
            let ok = match (&s.end, justified) {
                (Some(_), true) => matching.iter().any(|c| match c.cut {
                    None => got <= want,
                    Some(k) => got == upto(k),
                }),
                (Some(_), false) => got == want,
                (None, _) => blocked || werr || stalled || got == want,
            };
            if !ok {
                return viol("ACK", format!("{got} of {want} QoS 1 messages acknowledged (session {}), expected for {:?}", if s.end.is_some() { "ended" } else { "open" }, tail(&self.exp_acks)));
            }
        }
        // --- outgoing byte stream
        if on(WSTREAM) {
            if late {
                return viol("WSTREAM", "bytes offered to the socket after a failed write or the end");
            }
            let tail = out_len - self.out_pos;
            if tail > 0 && settled && !blocked && !werr && s.end.is_none() {
                return viol("WSTREAM", format!("{tail} bytes of an incomplete packet are left on a writable socket"));
            }
            if tail > 0 && s.end.is_some() && !werr {
                return viol("WSTREAM", "the session ended in the middle of writing a packet");
            }
            if werr && settled && s.end.is_none() {
                return viol("WSTREAM", "the session goes on after a failed write");
            }
            if werr && matches!(s.end, Some(End::Ok)) && !matching.iter().any(|c| c.res != Res::Err) {
                return viol("WSTREAM", "a failed write ends in success");
            }
        }
        self.check_time(s, tags)
    }

    /// Was the ping answered, safely before the next one was due?
    fn in_time(&self, p: &Ping) -> bool {
        p.answered.is_some_and(|a| a + self.slack <= p.at + self.keep_alive)
    }

    /// Keep-alive duties at the current virtual time.
    pub fn check_time(&mut self, s: &Sess, tags: Tags) -> Result<(), Viol> {
        if tags & PING == 0 || self.keep_alive == 0 || self.loose {
            return Ok(());
        }
        let (Some(_), Some(ci)) = (self.opened, s.conn) else { return Ok(()) };
        let (now, blocked, werr) = {
            let w = s.w.borrow();
            (w.now, w.conns[ci].blocked, w.conns[ci].werr)
        };
        match &s.end {
            None => {
                if !s.settled || blocked || self.held_back(s) {
                    return Ok(());
                }
                let from = self.last_write.max(self.impaired);
                if now > from + self.keep_alive + self.slack {
                    return viol("PING", format!("nothing sent for {} ms, announced keep-alive is {} ms", now - from, self.keep_alive));
                }
                // the oldest ping that went unanswered for a whole interval
                if let Some(p) = self.pings.last() {
                    if p.answered.is_none() && now > p.at.max(self.impaired) + self.keep_alive + self.slack {
                        return viol("PING", format!("the ping sent at {} ms is still unanswered at {now} ms and the session goes on", p.at));
                    }
                }
                let n = self.pings.len();
                if n >= 2 {
                    let (p, q) = (&self.pings[n - 2], &self.pings[n - 1]);
                    // answered only after the next one went out
                    if (p.answered.is_none() || p.answered.unwrap() > q.at) && self.impaired < p.at {
                        return viol("PING", format!("a ping was sent at {} ms although the one of {} ms had not been answered", q.at, p.at));
                    }
                }
            }
            // a socket error may itself be of the kind "timed out"
            Some(End::Err(true, _)) if self.env_err || werr => {}
            Some(End::Err(true, e)) => {
                let Some(p) = self.pings.last() else { return viol("PING", format!("timed out without any ping: {e}")) };
                if self.in_time(p) {
                    let a = p.answered.unwrap();
                    let mut v = viol::<()>("PING", format!("timed out at {} ms although the ping of {} ms was answered at {a} ms ({e})", s.end_time, p.at)).unwrap_err();
                    if p.read.is_none() && !p.ignored {
                        if tags & END != 0 {
                            return Ok(()); // see causes()
                        }
                        v.key = "C14-answer-unread".into();
                    }
                    return Err(v);
                }
                if s.end_time + self.slack < p.at + self.keep_alive {
                    return viol("PING", format!("timed out at {} ms, only {} ms after the ping", s.end_time, s.end_time - p.at));
                }
            }
            Some(_) => {}
        }
        Ok(())
    }

    /// Canonical fingerprint of what is observable now, for the state count.
    pub fn hash(&self, s: &Sess) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        if let Some(ci) = s.conn {
            let w = s.w.borrow();
            let c = &w.conns[ci];
            (c.connected, c.blocked, c.werr, c.closed, c.read, self.in_pos).hash(&mut h);
            c.out.hash(&mut h);
            c.delivered.hash(&mut h);
            w.now.hash(&mut h);
        }
        for n in &s.notifs {
            n.text.hash(&mut h);
        }
        (s.cmds.len(), s.draining, s.rx.is_some(), s.clients.len()).hash(&mut h);
        s.clients.iter().filter(|c| c.is_some()).count().hash(&mut h);
        format!("{:?}", s.end).hash(&mut h);
        h.finish()
    }
}

fn tail(v: &[u16]) -> &[u16] {
    &v[v.len().saturating_sub(6)..]
}
