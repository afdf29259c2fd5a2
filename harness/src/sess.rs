//! One client session under test: the real `Client`, `EventLoop` and notification receiver,
//! polled by hand and only when woken.
use crate::mqtt::RProp;
use crate::world::*;
use futures::channel::mpsc::Receiver;
use futures::{Stream, StreamExt};
use ruq::{Client, Notification, Property, PublishBuilder, QoS};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pay {
    Text(String),
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Cmd {
    Pub { topic: String, payload: Pay, qos: Option<u8>, props: Vec<RProp> },
    Sub(String, u8),
    Unsub(String),
    Disc,
}

pub fn qos(q: u8) -> QoS {
    match q {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        _ => QoS::ExactlyOnce,
    }
}

pub fn prop(p: &RProp) -> Property {
    match p {
        RProp::Pfi(x) => Property::PayloadFormatId(*x),
        RProp::Expiry(x) => Property::MessageExpiryInterval(*x),
        RProp::Resp(s) => Property::ResponseTopic(s.clone()),
        RProp::Corr(s) => Property::CorrelationData(s.clone()),
        RProp::User(a, b) => Property::UserProperty(a.clone(), b.clone()),
        RProp::Reason(_) | RProp::Other(_) => unreachable!("not a publish property"),
    }
}

pub fn builder(topic: &str, payload: &Pay, q: Option<u8>, props: &[RProp]) -> PublishBuilder {
    let way = WAY.with(|w| w.get());
    let mut b = match payload {
        Pay::Text(t) => PublishBuilder::from_str(topic, t),
        Pay::Bytes(t) => PublishBuilder::from_bytes(topic, t),
    };
    let late = match way {
        Way::QosLast | Way::QosTwice => props.len(),
        Way::QosBetween => props.len() / 2,
        _ => 0,
    };
    if way == Way::QosTwice {
        b = b.qos(qos(q.map_or(0, |q| (q + 1) % 3)));
        if q.is_none() {
            b = b.qos(qos(0));
        }
    }
    if way == Way::Cloned {
        let c = b.clone();
        drop(b);
        b = c;
    }
    for i in 0..=props.len() {
        if let (Some(q), true) = (q, i == late) {
            b = b.qos(qos(q));
        }
        if let Some(p) = props.get(i) {
            b = b.with_property(prop(p));
        }
    }
    if way == Way::Cloned {
        // what becomes of the original is no matter
        let c = b.clone();
        drop(b.qos(qos(q.map_or(1, |q| (q + 1) % 3))).with_property(Property::UserProperty("not".into(), "sent".into())));
        b = c;
    }
    b
}

/// How requests are made.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Way {
    #[default]
    Plain,
    QosLast,
    QosBetween,
    QosTwice,
    Cloned,
    /// `connect()`, which has nothing to do, is called before and after
    Connect,
    /// each on a new copy of the handle
    Fresh,
}
pub const WAYS: [Way; 6] = [Way::QosLast, Way::QosBetween, Way::QosTwice, Way::Cloned, Way::Connect, Way::Fresh];
thread_local! {
    pub static WAY: std::cell::Cell<Way> = const { std::cell::Cell::new(Way::Plain) };
}

pub fn issue(c: &mut Client, cmd: &Cmd) -> bool {
    let _on = crate::mem::on();
    let way = WAY.with(|w| w.get());
    let mut copy;
    let c = if way == Way::Fresh {
        copy = c.clone();
        &mut copy
    } else {
        c
    };
    if way == Way::Connect {
        let _ = c.connect();
    }
    let r = match cmd {
        Cmd::Pub { topic, payload, qos, props } => c.publish(builder(topic, payload, *qos, props)).is_ok(),
        Cmd::Sub(t, q) => c.subscribe(t, qos(*q)).is_ok(),
        Cmd::Unsub(t) => c.unsubscribe(t).is_ok(),
        Cmd::Disc => c.disconnect().is_ok(),
    };
    if way == Way::Connect {
        let _ = c.connect();
    }
    r
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    ConnAck,
    SubAck,
    UnsubAck,
    Message,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Notif {
    pub kind: Kind,
    pub text: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Ok,
    /// timed out?, text
    Err(bool, String),
    Panic(String),
    Spin(String),
}

struct Flag(AtomicBool);

/// A waker that sets the flag; `CLONED` is called whenever it is cloned, that is whenever
/// something registers it: the moment at which others may still get in between.
static VTABLE: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_by_ref, w_drop);
unsafe fn w_clone(p: *const ()) -> RawWaker {
    // taken out while it runs, so that it is not entered again
    if let Some(mut f) = CLONED.try_with(|c| c.take()).ok().flatten() {
        f();
        CLONED.with(|c| c.set(Some(f)));
    }
    Arc::increment_strong_count(p as *const Flag);
    RawWaker::new(p, &VTABLE)
}
unsafe fn w_wake(p: *const ()) {
    Arc::from_raw(p as *const Flag).0.store(true, SeqCst)
}
unsafe fn w_wake_by_ref(p: *const ()) {
    (*(p as *const Flag)).0.store(true, SeqCst)
}
unsafe fn w_drop(p: *const ()) {
    drop(Arc::from_raw(p as *const Flag))
}
fn waker_of(f: &Arc<Flag>) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(f.clone()) as *const (), &VTABLE)) }
}

type OnClone = Box<dyn FnMut()>;
thread_local! {
    static CLONED: Cell<Option<OnClone>> = const { Cell::new(None) };
}

/// A command issued by another thread while the event loop registers its waker.  If what it
/// registers with is locked meanwhile, the call goes through later in the same poll.
pub struct OtherThread {
    pub client: Client,
    pub cmd: Cmd,
}

type Job = (OtherThread, std::sync::mpsc::Sender<bool>);
thread_local! {
    /// the other thread, one per explorer thread
    static HELPER: std::sync::mpsc::Sender<Job> = {
        let (tx, rx) = std::sync::mpsc::channel::<Job>();
        std::thread::spawn(move || {
            for (mut o, done) in rx {
                let r = issue(&mut o.client, &o.cmd);
                drop(o);
                let _ = done.send(r);
            }
        });
        tx
    };
}
/// a call from the other thread once waited for the event loop
static LOCKS: AtomicBool = AtomicBool::new(false);

impl OtherThread {
    fn go(self) -> std::sync::mpsc::Receiver<bool> {
        let (tx, rx) = std::sync::mpsc::channel();
        HELPER.with(|h| h.send((self, tx))).unwrap();
        rx
    }
    fn patience() -> Duration {
        Duration::from_millis(if LOCKS.load(SeqCst) { 20 } else { 5000 })
    }
}

thread_local! {
    static RT: tokio::runtime::Runtime = {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        crate::clock::start(rt.block_on(async { tokio::time::Instant::now().into_std() }));
        rt
    };
    pub static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn rt<R>(f: impl FnOnce(&tokio::runtime::Runtime) -> R) -> R {
    RT.with(f)
}

type Ev = Pin<Box<dyn Future<Output = Result<(), anyhow::Error>>>>;

/// The ways to say where the server is.
pub enum To {
    Addr(std::net::SocketAddr),
    Text(String),
    Str(&'static str),
    Host(&'static str, u16),
    Ip(std::net::IpAddr, u16),
    Many(&'static [std::net::SocketAddr]),
}

pub struct Sess {
    pub w: W,
    pub conn: Option<usize>,
    port: u16,
    pub clients: Vec<Option<Client>>,
    pub ev: Option<Ev>,
    pub rx: Option<Receiver<Notification>>,
    pub rx_ended: bool,
    pub draining: bool,
    flag: Arc<Flag>,
    pub notifs: Vec<Notif>,
    pub end: Option<End>,
    pub end_time: u64,
    /// wall of polls that did nothing observable, the longest row of them
    pub idle_polls: usize,
    pub polls: u64,
    pub cmds: Vec<Cmd>,
    pub rejected: usize,
    /// virtual time of each notification collected
    pub stalled_ever: bool,
    /// commands accepted at the time of the last poll
    pub cmds_polled: usize,
    pub dropped_ev: bool,
    pub settled: bool,
    /// conn log length when the notification was collected
    pub open_time: Option<u64>,
    /// a command to be issued from inside a poll
    pub injected: Option<(Cmd, Rc<Cell<Option<bool>>>)>,
    /// ... by another thread while the waker is registered
    pub other_thread: Option<OtherThread>,
    polled_at: u64,
}

pub const CAP: usize = 100;
/// consecutive unproductive polls that count as spinning
const SPIN: usize = 64;

impl Sess {
    pub fn new(w: &W, n: usize) -> Self {
        let port = 1883 + n as u16;
        let addr = std::net::SocketAddr::from(([127, 0, 0, 1], port));
        let (client, ev, rx) = {
            let _on = crate::mem::on();
            let (client, ev, rx) = Client::new(addr);
            (client, Box::pin(ev), rx)
        };
        Self::made(w, port, client, ev, rx)
    }

    /// Without a connection: the caller says which one it is.
    pub fn elsewhere(w: &W, to: &To) -> Self {
        macro_rules! with {
            ($a:expr) => {{
                let (client, ev, rx) = Client::new($a);
                Self::made(w, 0, client, Box::pin(ev), rx)
            }};
        }
        match to {
            To::Addr(a) => with!(*a),
            To::Text(s) => with!(s.clone()),
            To::Str(s) => with!(*s),
            To::Host(h, p) => with!((*h, *p)),
            To::Ip(ip, p) => with!((*ip, *p)),
            To::Many(l) => with!(*l),
        }
    }

    fn made(w: &W, port: u16, client: Client, ev: Ev, rx: Receiver<Notification>) -> Self {
        Sess {
            w: w.clone(),
            conn: None,
            port,
            clients: vec![Some(client)],
            ev: Some(ev),
            rx: Some(rx),
            rx_ended: false,
            draining: true,
            flag: Arc::new(Flag(AtomicBool::new(true))),
            notifs: vec![],
            end: None,
            end_time: 0,
            idle_polls: 0,
            polls: 0,
            cmds: vec![],
            rejected: 0,
            stalled_ever: false,
            cmds_polled: 0,
            dropped_ev: false,
            settled: false,
            open_time: None,
            injected: None,
            other_thread: None,
            polled_at: 0,
        }
    }

    pub fn with<R>(&self, f: impl FnOnce(&mut Conn) -> R) -> Option<R> {
        let c = self.conn?;
        Some(f(&mut self.w.borrow_mut().conns[c]))
    }

    pub fn woken(&self) -> bool {
        self.flag.0.load(SeqCst)
    }

    fn find_conn(&mut self) {
        if self.conn.is_none() {
            let p = self.port;
            if p == 0 {
                return;
            }
            let mut w = self.w.borrow_mut();
            self.conn = w.conns.iter().position(|c| c.addr.port() == p && !c.claimed);
            if let Some(c) = self.conn {
                w.conns[c].claimed = true;
            }
        }
    }

    /// Issue a command on handle `h`.
    pub fn cmd(&mut self, h: usize, c: &Cmd) -> Option<bool> {
        let cl = self.clients.get_mut(h)?.as_mut()?;
        let ok = issue(cl, c);
        if ok {
            self.cmds.push(c.clone());
            let n = self.cmds.len();
            self.with(|c| c.log.push(What::Cmd(n)));
            self.settled = false;
        } else {
            self.rejected += 1;
        }
        Some(ok)
    }

    pub fn clone_handle(&mut self) {
        let c = {
            let _on = crate::mem::on();
            self.clients.iter().flatten().next().cloned()
        };
        if c.is_some() {
            self.clients.push(c);
        }
    }

    /// One poll with a fresh waker; only that waker counts from now on.
    pub fn poll_once(&mut self) {
        if self.end.is_some() {
            self.flag.0.store(false, SeqCst);
            return;
        }
        let Some(ev) = self.ev.as_mut() else { return };
        self.flag = Arc::new(Flag(AtomicBool::new(false)));
        let waker = waker_of(&self.flag);
        {
            let mut w = self.w.borrow_mut();
            w.idle = 0;
            w.other_ready = (self.cmds.len() > self.cmds_polled) as usize + (w.now != self.polled_at) as usize;
            self.polled_at = w.now;
        }
        self.polls += 1;
        let late = Rc::new(std::cell::RefCell::new(None));
        if let (Some(o), Some((_, ok))) = (self.other_thread.take(), &self.injected) {
            let (w, ok, late) = (self.w.clone(), ok.clone(), late.clone());
            let mut o = Some(o);
            let n = self.cmds.len() + 1;
            CLONED.with(|c| {
                c.set(Some(Box::new(move || {
                    let _off = crate::mem::off();
                    let Ok(mut w) = w.try_borrow_mut() else { return };
                    if o.is_none() || w.inject.is_none() || w.ch.choose(2) == 0 {
                        return;
                    }
                    w.inject = None;
                    w.activity += 1;
                    let rx = o.take().unwrap().go();
                    match rx.recv_timeout(OtherThread::patience()) {
                        Ok(r) => {
                            ok.set(Some(r));
                            if let (true, Some(c)) = (r, w.conns.last_mut()) {
                                c.log.push(What::Cmd(n));
                            }
                        }
                        Err(_) => {
                            LOCKS.store(true, SeqCst);
                            *late.borrow_mut() = Some((rx, ok.clone()))
                        }
                    }
                })))
            });
        }
        let r = rt(|rt| {
            rt.block_on(async {
                let r = std::future::poll_fn(|_| {
                    let mut cx = Context::from_waker(&waker);
                    Poll::Ready(catch_unwind(AssertUnwindSafe(|| {
                        let _on = crate::mem::on();
                        ev.as_mut().poll(&mut cx)
                    })))
                })
                .await;
                // out of tokio's cooperative budget: the wake-up is deferred until the runtime yields
                if !tokio::task::coop::has_budget_remaining() {
                    tokio::task::yield_now().await;
                }
                r
            })
        });
        CLONED.with(|c| c.set(None));
        if let Some((rx, ok)) = late.borrow_mut().take() {
            ok.set(Some(rx.recv().unwrap_or(false)));
        }
        self.find_conn();
        self.cmds_polled = self.cmds.len();
        if let Some((c, ok)) = self.injected.take() {
            match ok.get() {
                None => self.injected = Some((c, ok)),
                Some(true) => self.cmds.push(c),
                Some(false) => self.rejected += 1,
            }
        }
        let now = self.w.borrow().now;
        match r {
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(r)) => {
                self.end_time = now;
                self.end = Some(match r {
                    Ok(()) => End::Ok,
                    Err(e) => End::Err(is_timeout(&e), format!("{e:#}")),
                })
            }
            Err(p) => {
                self.end_time = now;
                let p = match p.downcast::<Diverged>() {
                    Ok(d) => std::panic::resume_unwind(d),
                    Err(p) => p,
                };
                self.end = Some(match p.downcast::<Spin>() {
                    Ok(s) => End::Spin(s.0.to_owned()),
                    Err(_) => End::Panic(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
                });
                let ev = self.ev.take();
                let _ = catch_unwind(AssertUnwindSafe(move || drop(ev)));
            }
        }
    }

    /// Collect notifications if the application is reading; returns how many.
    pub fn drain(&mut self, max: usize) -> usize {
        let Some(rx) = self.rx.as_mut() else { return 0 };
        if self.rx_ended {
            return 0;
        }
        let mut n = 0;
        let mut cx = Context::from_waker(Waker::noop());
        while n < max {
            match Pin::new(&mut *rx).poll_next(&mut cx) {
                Poll::Ready(Some(x)) => {
                    n += 1;
                    let now = self.w.borrow().now;
                    let (kind, text) = match x {
                        Notification::ConnAck(c) => {
                            self.open_time.get_or_insert(now);
                            (Kind::ConnAck, format!("{c:?}"))
                        }
                        Notification::SubAck(s) => (Kind::SubAck, s),
                        Notification::UnsubAck(s) => (Kind::UnsubAck, s),
                        Notification::Message(s) => (Kind::Message, s),
                    };
                    crate::mem::hand_over(&text);
                    self.notifs.push(Notif { kind, text });
                }
                Poll::Ready(None) => {
                    self.rx_ended = true;
                    break;
                }
                Poll::Pending => break,
            }
        }
        n
    }

    /// Run until the event loop is not woken any more and nothing is left to collect.
    pub fn settle(&mut self) {
        let mut row = 0;
        loop {
            if self.woken() && self.end.is_none() && self.ev.is_some() {
                let before = self.w.borrow().activity;
                self.poll_once();
                let drained = if self.draining { self.drain(usize::MAX) } else { 0 };
                if self.w.borrow().activity == before && drained == 0 && self.end.is_none() {
                    row += 1;
                    self.idle_polls = self.idle_polls.max(row);
                    if row > SPIN {
                        self.end = Some(End::Spin("woken again and again with nothing to do".into()));
                        self.end_time = self.w.borrow().now;
                    }
                } else {
                    row = 0;
                }
            } else if self.draining && self.drain(usize::MAX) > 0 {
            } else if self.woken() && self.end.is_none() && self.ev.is_some() {
            } else {
                break;
            }
        }
        self.settled = true;
    }

    /// Drop the event loop future itself.
    pub fn drop_ev(&mut self) {
        self.ev = None;
        self.dropped_ev = true;
    }
}

fn is_timeout(e: &anyhow::Error) -> bool {
    e.chain().any(|c| c.downcast_ref::<std::io::Error>().is_some_and(|e| e.kind() == std::io::ErrorKind::TimedOut))
}

/// Advance virtual time by `ms` (timers fire, nothing is polled).
pub fn advance(w: &W, ms: u64) {
    rt(|rt| rt.block_on(tokio::time::advance(Duration::from_millis(ms))));
    crate::clock::pass(Duration::from_millis(ms));
    w.borrow_mut().now += ms;
}

/// Silence panic output; remember the message for the report.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        if msg.starts_with("harness:") || std::env::var_os("RUQMC_PANICS").is_some() {
            eprintln!("{msg} at {at}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {at}")));
    }));
}

#[allow(dead_code)]
pub fn block_next(rx: &mut Receiver<Notification>) -> Option<Notification> {
    rt(|rt| rt.block_on(rx.next()))
}
