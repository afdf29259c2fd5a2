//! Families of event sequences: every sequence over an alphabet up to a depth, with bounded
//! deviations (events not settled one by one, other service orders, irregular writes).
use crate::explore::*;
use crate::mqtt::*;
use crate::obs::*;
use crate::sess::*;
use crate::world::*;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// issue command
    Cmd(Cmd),
    /// issue a command on the most recent clone
    CmdOnClone(Cmd),
    /// server bytes
    Srv(&'static str, Vec<u8>),
    /// first half of a packet; the rest comes with `Rest`
    Half(&'static str, Vec<u8>),
    Rest,
    AckOldest,
    AckNewest,
    /// acknowledge with a failure reason code
    AckErr,
    /// repeat the latest acknowledgement
    AckDup,
    /// acknowledgement of this kind (packet type) for an identifier never issued
    AckUnknown(u8, u16),
    /// acknowledgement for the lowest identifier not in use
    AckFree(u8),
    Pong,
    /// time passes, the executor running normally
    Tick(u64),
    /// time passes while the process is suspended
    Jump(u64),
    Pause,
    Resume,
    Take(usize),
    DropRx,
    /// socket accepts n more bytes, then blocks
    Quota(usize),
    Unblock,
    /// socket accepts n more bytes, then fails
    FailW(usize),
    Eof,
    RdErr,
    Clone,
    DropOne,
    DropAll,
    Repoll,
    Accept,
    /// the server cannot be reached
    Refuse,
    /// the command is issued while the event loop is inside a poll
    InCmd(Cmd),
    /// the bytes arrive while the event loop is inside a poll
    InSrv(&'static str, Vec<u8>),
}

#[derive(Clone)]
pub struct Fam {
    pub name: String,
    pub alphabet: Vec<(Ev, usize)>,
    pub depth: usize,
    /// how many events may be followed by the next one without letting the session settle
    pub defer: usize,
    /// how many times `select!` may start at another branch than its first
    pub rng: usize,
    pub rng_free: bool,
    /// how many socket writes may be irregular
    pub dev: usize,
    pub wmode: WMode,
    pub connect: ConnMode,
    pub tags: Tags,
    /// events applied first
    pub prelude: Vec<Ev>,
    pub step: u64,
    /// number of undrained messages delivered before the exploration
    pub prefill: usize,
    /// size of the identifier space (needs the hook)
    pub ids: Option<u16>,
}

impl Fam {
    pub fn new(name: &str, tags: Tags, depth: usize, alphabet: Vec<(Ev, usize)>) -> Fam {
        Fam {
            name: name.into(),
            alphabet,
            depth,
            defer: 0,
            rng: 0,
            rng_free: false,
            dev: 0,
            wmode: WMode::Open,
            connect: ConnMode::Now,
            tags,
            prelude: vec![Ev::Srv("CONNACK", connack(false, 0, &[]))],
            step: 500,
            prefill: 0,
            ids: None,
        }
    }
    pub fn defer(mut self, defer: usize, rng: usize) -> Fam {
        self.defer = defer;
        self.rng = rng;
        self
    }
    pub fn with(mut self, f: impl FnOnce(&mut Fam)) -> Fam {
        f(&mut self);
        self
    }
    pub fn space(self) -> Space {
        let name = self.name.clone();
        space(name, move |cx| run(&self, cx))
    }
}

/// One session together with its oracle.
pub struct Drive {
    pub s: Sess,
    pub o: Obs,
    pub tags: Tags,
    pub step: u64,
    pub rest: Vec<u8>,
}

impl Drive {
    pub fn new(cx: &Ctx, tags: Tags) -> Drive {
        Drive { s: Sess::new(&cx.w, 0), o: Obs::new(), tags, step: 500, rest: vec![] }
    }

    /// Connected, CONNACK read.
    pub fn open(cx: &mut Ctx, tags: Tags) -> Result<Drive, Viol> {
        let mut d = Drive::new(cx, tags);
        d.settle()?;
        d.srv(&connack(false, 0, &[]));
        d.settle()?;
        Ok(d)
    }

    pub fn srv(&mut self, b: &[u8]) {
        let now = self.s.w.borrow().now;
        self.s.with(|c| c.deliver(b, now));
        self.s.settled = false;
    }

    pub fn settle(&mut self) -> Result<(), Viol> {
        self.s.settle();
        self.o.update(&self.s);
        if !self.o.held_back(&self.s) {
            self.s.with(|c| {
                if !c.blocked {
                    c.log.push(What::Settled)
                }
            });
        }
        self.o.check(&self.s, self.tags)
    }

    pub fn tick(&mut self, ms: u64) -> Result<(), Viol> {
        let mut left = ms;
        while left > 0 {
            let d = left.min(self.step);
            left -= d;
            let before = self.s.w.borrow().activity;
            advance(&self.s.w, d);
            self.s.settle();
            if self.s.w.borrow().activity != before || self.s.end.is_some() {
                self.o.update(&self.s);
                if !self.o.held_back(&self.s) {
                    self.s.with(|c| {
                        if !c.blocked {
                            c.log.push(What::Settled)
                        }
                    });
                }
            }
            self.o.check_time(&self.s, self.tags)?;
        }
        Ok(())
    }

    pub fn ack(&self, pid: u16, kind: u8, err: bool) -> Vec<u8> {
        match kind {
            4 => {
                if err {
                    puback_p(pid, 0x97, &[RProp::Reason("quota".into())])
                } else {
                    puback(pid)
                }
            }
            9 => suback(pid, if err { 0x80 } else { 0 }, &[]),
            _ => unsuback(pid, if err { 0x11 } else { 0 }, &[]),
        }
    }

    fn acks(&self) -> Vec<(u16, u8)> {
        self.o.order.values().map(|p| (*p, self.o.outstanding[p].0)).filter(|x| x.1 != 5).collect()
    }

    pub fn lowest_free(&self) -> u16 {
        (1..=u16::MAX).find(|i| !self.o.outstanding.contains_key(i)).unwrap_or(0)
    }

    pub fn enabled(&self, e: &Ev) -> bool {
        let s = &self.s;
        let connected = s.conn.is_some() && s.with(|c| c.connected) == Some(true);
        let no_end = !self.o.env_eof && !self.o.env_err;
        let handle = s.clients.iter().any(|c| c.is_some());
        match e {
            Ev::Cmd(_) | Ev::Clone | Ev::InCmd(_) => handle,
            Ev::CmdOnClone(_) => s.clients.iter().filter(|c| c.is_some()).count() > 1,
            Ev::Srv(..) | Ev::Half(..) | Ev::InSrv(..) | Ev::AckUnknown(..) | Ev::AckFree(_) => connected && no_end && self.rest.is_empty(),
            Ev::Pong => s.end.is_none() && connected && no_end && self.rest.is_empty() && self.o.pings.last().is_some_and(|p| p.answered.is_none()),
            Ev::Rest => no_end && !self.rest.is_empty(),
            Ev::AckOldest | Ev::AckErr => no_end && self.rest.is_empty() && !self.acks().is_empty(),
            Ev::AckNewest => no_end && self.rest.is_empty() && self.acks().len() > 1,
            Ev::AckDup => no_end && self.rest.is_empty() && self.o.last_acked.is_some_and(|(p, _)| !self.o.outstanding.contains_key(&p)),
            Ev::Tick(_) | Ev::Jump(_) => true,
            Ev::Pause => s.draining && s.rx.is_some(),
            Ev::Resume | Ev::Take(_) => !s.draining && s.rx.is_some(),
            Ev::DropRx => s.rx.is_some(),
            Ev::Quota(_) => connected && matches!(s.with(|c| c.wmode), Some(WMode::Open | WMode::Max(_))),
            Ev::Unblock => connected && matches!(s.with(|c| c.wmode), Some(WMode::Quota(_))),
            Ev::FailW(_) => connected && !matches!(s.with(|c| c.wmode), Some(WMode::FailAfter(_))),
            Ev::Eof | Ev::RdErr => connected && no_end,
            Ev::DropOne => s.clients.iter().filter(|c| c.is_some()).count() > 1,
            Ev::DropAll => handle,
            Ev::Repoll => s.ev.is_some() && s.end.is_none(),
            Ev::Accept | Ev::Refuse => s.with(|c| c.mode == ConnMode::Wait) == Some(true),
        }
    }

    pub fn apply(&mut self, e: &Ev) -> Result<(), Viol> {
        self.s.settled = false;
        let last = self.s.clients.iter().rposition(|c| c.is_some()).unwrap_or(0);
        let first = self.s.clients.iter().position(|c| c.is_some()).unwrap_or(0);
        match e {
            Ev::Cmd(c) => {
                self.s.cmd(first, c);
            }
            Ev::CmdOnClone(c) => {
                self.s.cmd(last, c);
            }
            Ev::Srv(_, b) => self.srv(b),
            Ev::Half(_, b) => {
                let n = b.len() / 2;
                self.rest = b[n..].to_vec();
                self.srv(&b[..n]);
            }
            Ev::Rest => {
                let r = std::mem::take(&mut self.rest);
                self.srv(&r);
            }
            Ev::AckOldest | Ev::AckNewest | Ev::AckErr => {
                let a = self.acks();
                let (p, k) = if *e == Ev::AckNewest { a[a.len() - 1] } else { a[0] };
                let b = self.ack(p, k, *e == Ev::AckErr);
                self.srv(&b);
            }
            Ev::AckDup => {
                let (p, k) = self.o.last_acked.unwrap();
                let b = self.ack(p, k, false);
                self.srv(&b);
            }
            Ev::AckUnknown(k, p) => {
                let b = self.ack(*p, *k, false);
                self.srv(&b);
            }
            Ev::AckFree(k) => {
                let b = self.ack(self.lowest_free(), *k, false);
                self.srv(&b);
            }
            Ev::Pong => self.srv(&pingresp()),
            Ev::Tick(ms) => {
                self.s.settle();
                self.tick(*ms)?;
                self.s.settled = false;
            }
            Ev::Jump(ms) => {
                advance(&self.s.w, *ms);
                self.o.impaired = self.s.w.borrow().now;
            }
            Ev::Pause => self.s.draining = false,
            Ev::Resume => self.s.draining = true,
            Ev::Take(n) => {
                self.s.drain(*n);
            }
            Ev::DropRx => self.s.rx = None,
            Ev::Quota(n) => {
                self.s.with(|c| c.set_wmode(WMode::Quota(*n)));
            }
            Ev::Unblock => {
                self.s.with(|c| c.set_wmode(WMode::Open));
            }
            Ev::FailW(n) => {
                self.s.with(|c| c.set_wmode(WMode::FailAfter(*n)));
            }
            Ev::Eof => {
                self.o.env_eof = true;
                self.s.with(|c| c.push(Seg::Eof));
            }
            Ev::RdErr => {
                self.o.env_err = true;
                self.s.with(|c| c.push(Seg::Err(std::io::ErrorKind::ConnectionReset)));
            }
            Ev::Clone => self.s.clone_handle(),
            Ev::DropOne => self.s.clients[first] = None,
            Ev::DropAll => self.s.clients.iter_mut().for_each(|c| *c = None),
            Ev::Repoll => {
                self.s.settle();
                self.s.poll_once();
                self.s.settled = false;
            }
            Ev::Accept => {
                self.s.with(|c| c.accept());
            }
            Ev::Refuse => {
                self.s.with(|c| c.refuse());
            }
            Ev::InCmd(c) => {
                let ok = Rc::new(Cell::new(None));
                let mut cl = self.s.clients[first].clone().unwrap();
                let (c2, ok2, n) = (c.clone(), ok.clone(), self.s.cmds.len() + 1);
                self.s.w.borrow_mut().inject = Some(Box::new(move |conn| {
                    let r = issue(&mut cl, &c2);
                    if r {
                        conn.log.push(What::Cmd(n));
                    }
                    ok2.set(Some(r));
                }));
                self.s.injected = Some((c.clone(), ok));
                self.s.other_thread = self.s.clients[first].clone().map(|client| OtherThread { client, cmd: c.clone() });
                self.s.poll_once();
            }
            Ev::InSrv(_, b) => {
                let b = b.clone();
                let w = self.s.w.clone();
                let now = w.borrow().now;
                w.borrow_mut().inject = Some(Box::new(move |conn| conn.deliver(&b, now)));
                self.s.poll_once();
            }
        }
        Ok(())
    }

    /// Read everything, unblock the socket, and look at the final state.
    pub fn epilogue(&mut self) -> Result<(), Viol> {
        self.s.w.borrow_mut().inject = None;
        if !self.s.draining {
            self.s.draining = true;
            self.s.settled = false;
        }
        if matches!(self.s.with(|c| c.wmode), Some(WMode::Quota(_))) {
            self.s.with(|c| c.set_wmode(WMode::Open));
            self.s.settled = false;
        }
        if !self.rest.is_empty() && !self.o.env_eof && !self.o.env_err {
            let r = std::mem::take(&mut self.rest);
            self.srv(&r);
        }
        self.settle()
    }
}

#[allow(unused_variables)]
pub fn limit_ids(n: Option<u16>) {
    #[cfg(feature = "hook")]
    ruq::verif_hooks::limit_pktids(n);
}

pub fn show(e: &Ev) -> String {
    let t = format!("{e:?}");
    if let Ev::Srv(n, b) | Ev::Half(n, b) | Ev::InSrv(n, b) = e {
        let what = t.split('(').next().unwrap_or("");
        return format!("{what} {n} ({} bytes)", b.len());
    }
    clip(&t)
}

pub fn run(f: &Fam, cx: &mut Ctx) -> Result<(), Viol> {
    {
        let mut w = cx.w.borrow_mut();
        w.connect_mode = f.connect;
        w.wmode = f.wmode;
        w.dev_budget = if f.wmode == WMode::Choose { f.dev } else { 0 };
        w.rng_free = f.rng_free;
    }
    limit_ids(f.ids);
    let mut d = Drive::new(cx, f.tags);
    d.o.max_ids = f.ids.unwrap_or(65535) as usize;
    d.step = f.step;
    d.settle()?;
    for e in &f.prelude {
        d.apply(e)?;
        d.settle()?;
    }
    if f.prefill > 0 {
        d.s.draining = false;
        let mut b = vec![];
        for i in 0..f.prefill {
            b.extend(publish(false, 0, false, "p", 0, &[], &(i as u32).to_be_bytes()));
        }
        d.srv(&b);
        d.settle()?;
        cx.note(|| format!("{} messages delivered, none read", f.prefill));
    }
    let r = steps(f, cx, &mut d);
    cx.w.borrow_mut().rng_budget = 0;
    cx.note(|| {
        let s = &d.s;
        format!("=> {:?}; {} bytes out ({} packets), {} notifications, t={}ms", s.end, s.with(|c| c.out.len()).unwrap_or(0), d.o.outs.len(), s.notifs.len(), cx_now(&d))
    });
    r?;
    if d.s.end.is_some() {
        d.settle()?;
    }
    d.epilogue()?;
    cx.state(d.o.hash(&d.s));
    Ok(())
}

fn cx_now(d: &Drive) -> u64 {
    d.s.w.borrow().now
}

fn steps(f: &Fam, cx: &mut Ctx, d: &mut Drive) -> Result<(), Viol> {
    let mut used = vec![0usize; f.alphabet.len()];
    let mut defer = f.defer;
    cx.w.borrow_mut().rng_budget = f.rng;
    let mut after_end = 0;
    for step in 0..f.depth {
        if d.s.end.is_some() {
            // one more event after the end, then enough
            after_end += 1;
            if after_end > 1 {
                break;
            }
        }
        let en: Vec<usize> = (0..f.alphabet.len()).filter(|i| used[*i] < f.alphabet[*i].1 && d.enabled(&f.alphabet[*i].0)).collect();
        if en.is_empty() {
            break;
        }
        let k = en[cx.choose(en.len())];
        used[k] += 1;
        cx.events += 1;
        let e = &f.alphabet[k].0;
        d.apply(e)?;
        let mut hold = false;
        if defer > 0 && step + 1 < f.depth && d.s.end.is_none() && !matches!(e, Ev::Tick(_) | Ev::Repoll | Ev::InCmd(_) | Ev::InSrv(..)) {
            hold = cx.choose(2) == 1;
        }
        cx.note(|| format!("{}{}", show(e), if hold { " (not settled)" } else { "" }));
        if hold {
            defer -= 1;
            continue;
        }
        d.settle()?;
        cx.w.borrow_mut().inject = None;
        cx.state(d.o.hash(&d.s));
    }
    if !d.s.settled {
        d.settle()?;
    }
    Ok(())
}
