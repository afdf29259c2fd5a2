//! The environment under the explorer's control: choice stack, simulated sockets,
//! event log.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::net::SocketAddr;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use tokio::io::ReadBuf;

/// Panic payload: the code under test made no progress inside a single poll.
pub struct Spin(pub &'static str);
/// Panic payload: replay diverged from its prefix (harness error).
pub struct Diverged(pub String);

#[derive(Default)]
pub struct Chooser {
    pub prefix: Vec<u16>,
    /// (chosen, alternatives)
    pub taken: Vec<(u16, u16)>,
}

impl Chooser {
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.taken.len();
        let v = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if v as usize >= n {
            std::panic::panic_any(Diverged(format!("choice {i}: {v} of {n}")));
        }
        self.taken.push((v, n as u16));
        v as usize
    }
}

#[derive(Clone, Debug)]
pub enum Seg {
    Data(Vec<u8>, usize),
    Eof,
    Err(io::ErrorKind),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WMode {
    /// accept everything
    Open,
    /// accept at most n more bytes, then block
    Quota(usize),
    /// accept at most n more bytes, then fail
    FailAfter(usize),
    /// accept at most n bytes per call
    Max(usize),
    /// each call is a choice: all, 1 byte, half, or block (at most `n` deviations, shared budget)
    Choose,
}

/// What a socket operation can fail with. (Interrupted and WouldBlock do not reach the caller of
/// an asynchronous socket.)
pub const KINDS: [io::ErrorKind; 14] = [
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::NotConnected,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::WriteZero,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Other,
];

/// As the operating system reports it, where it does.
pub fn sock_err(k: io::ErrorKind) -> io::Error {
    let n = match k {
        io::ErrorKind::ConnectionReset => 104,
        io::ErrorKind::BrokenPipe => 32,
        io::ErrorKind::TimedOut => 110,
        io::ErrorKind::ConnectionAborted => 103,
        io::ErrorKind::ConnectionRefused => 111,
        io::ErrorKind::NotConnected => 107,
        io::ErrorKind::PermissionDenied => 13,
        io::ErrorKind::AddrNotAvailable => 99,
        io::ErrorKind::InvalidInput => 22,
        io::ErrorKind::OutOfMemory => 12,
        // EIO
        io::ErrorKind::Other => 5,
        k => return k.into(),
    };
    io::Error::from_raw_os_error(n)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ConnMode {
    Now,
    Wait,
    Fail,
}

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Connected,
    ConnectFailed,
    /// cumulative bytes taken by the client, and the virtual time
    Read(usize, u64),
    /// the session went quiet with nothing held back
    Settled,
    ReadEof,
    ReadErr,
    /// cumulative bytes accepted from the client, and the virtual time
    Write(usize, u64),
    WriteErr,
    WriteBlocked,
    Shutdown,
    Close,
    /// command number accepted
    Cmd(usize),
    /// cumulative bytes made available to the client, and the virtual time
    Deliver(usize, u64),
}

pub struct Conn {
    pub addr: SocketAddr,
    /// some session takes this for its own
    pub claimed: bool,
    pub mode: ConnMode,
    pub connected: bool,
    pub inq: VecDeque<Seg>,
    pub delivered: Vec<u8>,
    pub read: usize,
    pub eof_read: bool,
    pub err_read: bool,
    pub out: Vec<u8>,
    pub wmode: WMode,
    pub werr: bool,
    pub blocked: bool,
    pub shutdown: bool,
    pub closed: bool,
    /// bytes offered after a failed write or after the close
    pub late: bool,
    pub cwaker: Option<Waker>,
    pub rwaker: Option<Waker>,
    pub wwaker: Option<Waker>,
    pub log: Vec<What>,
}

pub type Inject = Box<dyn FnMut(&mut Conn)>;

pub struct World {
    pub ch: Chooser,
    pub conns: Vec<Conn>,
    pub now: u64,
    /// how the next connections behave
    pub connect_mode: ConnMode,
    pub wmode: WMode,
    /// what failing writes (and, if set, connection attempts) fail with
    pub err_kind: Option<io::ErrorKind>,
    /// what becomes of connections to some ports
    pub ports: Vec<(u16, ConnMode)>,
    /// a failing write takes nothing instead
    pub write_zero: bool,
    /// explore select! start indices (only asked when `ready` says it can matter)
    pub rng_budget: usize,
    pub rng_free: bool,
    /// where select! starts when that is not explored; 100: one branch further each time
    pub rng_fixed: u32,
    pub dev_budget: usize,
    pub idle: usize,
    /// number of commands accepted but not yet seen on the wire is unknown to the socket; the
    /// session sets this before polling
    pub other_ready: usize,
    pub inject: Option<Inject>,
    /// called when the client reads and nothing is there, so often per poll
    pub refill: Option<Box<dyn FnMut(&mut Conn, u64)>>,
    /// called at every write, so often per poll
    pub on_write: Option<Inject>,
    pub flood_left: usize,
    pub inject_points: usize,
    pub activity: u64,
    pub rng_calls: u64,
}

impl World {
    pub fn new(prefix: Vec<u16>) -> Self {
        World {
            ch: Chooser { prefix, taken: vec![] },
            conns: vec![],
            now: 0,
            connect_mode: ConnMode::Now,
            wmode: WMode::Open,
            err_kind: None,
            ports: vec![],
            write_zero: false,
            rng_budget: 0,
            rng_free: false,
            rng_fixed: 0,
            dev_budget: 0,
            idle: 0,
            other_ready: 0,
            inject: None,
            refill: None,
            on_write: None,
            flood_left: 0,
            inject_points: 0,
            activity: 0,
            rng_calls: 0,
        }
    }
    fn progress(&mut self) {
        self.idle = 0;
        self.activity += 1;
    }
    fn no_progress(&mut self, what: &'static str) {
        self.idle += 1;
        if self.idle > 20_000 {
            self.idle = 0;
            std::panic::panic_any(Spin(what));
        }
    }
    /// an injected environment step may happen at this I/O call
    fn point(&mut self, id: usize) {
        if self.inject.is_some() {
            self.inject_points += 1;
            if self.ch.choose(2) == 1 {
                let mut f = self.inject.take().unwrap();
                f(&mut self.conns[id]);
                self.activity += 1;
            }
        }
    }
}

impl Conn {
    pub fn deliver(&mut self, b: &[u8], now: u64) {
        if b.is_empty() {
            return;
        }
        self.delivered.extend_from_slice(b);
        self.log.push(What::Deliver(self.delivered.len(), now));
        self.inq.push_back(Seg::Data(b.to_vec(), 0));
        self.wake_read();
    }
    pub fn push(&mut self, s: Seg) {
        self.inq.push_back(s);
        self.wake_read();
    }
    pub fn wake_read(&mut self) {
        if let Some(w) = self.rwaker.take() {
            w.wake()
        }
    }
    pub fn set_wmode(&mut self, m: WMode) {
        self.wmode = m;
        if let Some(w) = self.wwaker.take() {
            w.wake()
        }
    }
    pub fn refuse(&mut self) {
        self.mode = ConnMode::Fail;
        if let Some(w) = self.cwaker.take() {
            w.wake()
        }
    }
    pub fn accept(&mut self) {
        self.mode = ConnMode::Now;
        if let Some(w) = self.cwaker.take() {
            w.wake()
        }
    }
}

impl tokio::sim::Net for World {
    fn connect(&mut self, addr: SocketAddr) -> usize {
        let _off = crate::mem::off();
        let mode = self.ports.iter().find(|p| p.0 == addr.port()).map_or(self.connect_mode, |p| p.1);
        self.conns.push(Conn {
            addr,
            claimed: false,
            mode,
            connected: false,
            inq: VecDeque::new(),
            delivered: vec![],
            read: 0,
            eof_read: false,
            err_read: false,
            out: vec![],
            wmode: self.wmode,
            werr: false,
            blocked: false,
            shutdown: false,
            closed: false,
            late: false,
            cwaker: None,
            rwaker: None,
            wwaker: None,
            log: vec![],
        });
        self.progress();
        self.conns.len() - 1
    }
    fn poll_connect(&mut self, id: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _off = crate::mem::off();
        let c = &mut self.conns[id];
        match c.mode {
            ConnMode::Now => {
                c.connected = true;
                c.log.push(What::Connected);
                self.progress();
                Poll::Ready(Ok(()))
            }
            ConnMode::Fail => {
                c.log.push(What::ConnectFailed);
                self.progress();
                Poll::Ready(Err(sock_err(self.err_kind.unwrap_or(io::ErrorKind::ConnectionRefused))))
            }
            ConnMode::Wait => {
                c.cwaker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    fn poll_read(&mut self, id: usize, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let _off = crate::mem::off();
        self.point(id);
        let now = self.now;
        let c = &mut self.conns[id];
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        if let Some(f) = self.refill.as_mut() {
            if c.inq.is_empty() && self.flood_left > 0 {
                self.flood_left -= 1;
                f(c, now);
            }
        }
        match c.inq.front_mut() {
            None => {
                c.rwaker = Some(cx.waker().clone());
                Poll::Pending
            }
            Some(Seg::Data(d, pos)) => {
                let n = buf.remaining().min(d.len() - *pos);
                buf.put_slice(&d[*pos..*pos + n]);
                *pos += n;
                if *pos == d.len() {
                    c.inq.pop_front();
                }
                c.read += n;
                let r = c.read;
                c.log.push(What::Read(r, now));
                self.progress();
                Poll::Ready(Ok(()))
            }
            Some(Seg::Eof) => {
                if !c.eof_read {
                    c.eof_read = true;
                    c.log.push(What::ReadEof);
                    self.progress();
                } else {
                    self.no_progress("reads on after end of stream");
                }
                Poll::Ready(Ok(()))
            }
            Some(Seg::Err(k)) => {
                let k = *k;
                if !c.err_read {
                    c.err_read = true;
                    c.log.push(What::ReadErr);
                    self.progress();
                } else {
                    self.no_progress("reads on after a read error");
                }
                Poll::Ready(Err(sock_err(k)))
            }
        }
    }
    fn poll_peek(&mut self, id: usize, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<usize>> {
        let _off = crate::mem::off();
        self.no_progress("peeks without progress");
        let c = &mut self.conns[id];
        match c.inq.front() {
            None => {
                c.rwaker = Some(cx.waker().clone());
                Poll::Pending
            }
            Some(Seg::Data(d, pos)) => {
                let n = buf.remaining().min(d.len() - pos);
                buf.put_slice(&d[*pos..*pos + n]);
                Poll::Ready(Ok(n))
            }
            Some(Seg::Eof) => Poll::Ready(Ok(0)),
            Some(Seg::Err(k)) => Poll::Ready(Err(sock_err(*k))),
        }
    }
    fn poll_read_ready(&mut self, id: usize, cx: &mut Context<'_>) -> Poll<()> {
        let _off = crate::mem::off();
        self.no_progress("polls readability without progress");
        let c = &mut self.conns[id];
        if c.inq.is_empty() {
            c.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(())
    }
    fn poll_write(&mut self, id: usize, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let _off = crate::mem::off();
        self.point(id);
        if let Some(f) = self.on_write.as_mut() {
            if self.flood_left > 0 {
                self.flood_left -= 1;
                f(&mut self.conns[id]);
            }
        }
        let now = self.now;
        let mut dev = 0;
        if self.conns[id].wmode == WMode::Choose && self.dev_budget > 0 && !buf.is_empty() {
            dev = self.ch.choose(if buf.len() > 2 { 4 } else if buf.len() == 2 { 3 } else { 2 });
            if dev > 0 {
                self.dev_budget -= 1;
            }
        }
        let c = &mut self.conns[id];
        if c.werr || c.closed || c.shutdown {
            c.late = true;
            self.no_progress("writes on after a write error");
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let n = match c.wmode {
            WMode::Open => buf.len(),
            WMode::Max(n) => buf.len().min(n),
            WMode::Choose => match dev {
                0 => buf.len(),
                1 => 0,
                2 => 1,
                _ => buf.len() / 2,
            },
            WMode::Quota(n) => n.min(buf.len()),
            WMode::FailAfter(n) => {
                if n == 0 && !buf.is_empty() {
                    c.werr = true;
                    c.log.push(What::WriteErr);
                    self.progress();
                    if self.write_zero {
                        return Poll::Ready(Ok(0));
                    }
                    return Poll::Ready(Err(sock_err(self.err_kind.unwrap_or(io::ErrorKind::ConnectionReset))));
                }
                n.min(buf.len())
            }
        };
        if buf.is_empty() {
            self.no_progress("empty writes");
            return Poll::Ready(Ok(0));
        }
        if n == 0 {
            c.blocked = true;
            c.log.push(What::WriteBlocked);
            if c.wmode == WMode::Choose {
                // the socket becomes writable again right after this poll
                cx.waker().wake_by_ref();
            } else {
                c.wwaker = Some(cx.waker().clone());
            }
            self.activity += 1;
            return Poll::Pending;
        }
        c.blocked = false;
        match &mut c.wmode {
            WMode::Quota(q) | WMode::FailAfter(q) => *q -= n,
            _ => {}
        }
        c.out.extend_from_slice(&buf[..n]);
        let l = c.out.len();
        c.log.push(What::Write(l, now));
        self.progress();
        Poll::Ready(Ok(n))
    }
    fn poll_write_ready(&mut self, id: usize, cx: &mut Context<'_>) -> Poll<()> {
        let _off = crate::mem::off();
        self.no_progress("polls writability without progress");
        let c = &mut self.conns[id];
        if c.wmode == WMode::Quota(0) {
            c.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(())
    }
    fn shutdown(&mut self, id: usize) {
        let _off = crate::mem::off();
        let c = &mut self.conns[id];
        if !c.shutdown {
            c.shutdown = true;
            c.log.push(What::Shutdown);
        }
    }
    fn close(&mut self, id: usize) {
        let _off = crate::mem::off();
        let c = &mut self.conns[id];
        c.closed = true;
        c.log.push(What::Close);
    }
    fn rng(&mut self, n: u32) -> u32 {
        let _off = crate::mem::off();
        self.rng_calls += 1;
        self.no_progress("select loop runs without progress");
        if self.rng_budget == 0 {
            return if self.rng_fixed < n { self.rng_fixed } else { (self.rng_calls % n as u64) as u32 };
        }
        let mut ready = self.other_ready;
        ready += self.conns.iter().filter(|c| !c.inq.is_empty()).count();
        if ready < 2 && !self.rng_free {
            return 0;
        }
        let v = self.ch.choose(n as usize);
        if v > 0 {
            self.rng_budget -= 1;
        }
        v as u32
    }
}

pub type W = Rc<RefCell<World>>;

pub fn install(prefix: Vec<u16>) -> W {
    let w = Rc::new(RefCell::new(World::new(prefix)));
    tokio::sim::install(Some(w.clone()));
    w
}
