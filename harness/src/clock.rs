//! What surrounds the code under test besides its socket: the system's clocks, which show it the
//! virtual time its timers run on (whatever clock it reads), and the logger, which formats what is
//! logged and throws it away.
use std::cell::Cell;
use std::time::Duration;

thread_local! {
    /// the code under test is running on this thread
    pub static VIRTUAL: Cell<bool> = const { Cell::new(false) };
    /// virtual time of this thread, as tokio's paused clock counts it: where it started (in terms
    /// of the monotonic clock), how far it has come
    static START: Cell<Duration> = const { Cell::new(Duration::ZERO) };
    static PASSED: Cell<Duration> = const { Cell::new(Duration::ZERO) };
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
#[cfg(target_arch = "x86_64")]
const CLOCK_GETTIME: i64 = 228;
#[cfg(not(target_arch = "x86_64"))]
const CLOCK_GETTIME: i64 = 113;

/// In place of the C library's, for everything linked into this program.
///
/// # Safety
/// as the C library's
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    let real = |t: *mut Timespec| syscall(CLOCK_GETTIME, id as i64, t) as i32;
    if !VIRTUAL.try_with(|v| v.get()).unwrap_or(false) {
        return real(t);
    }
    let start = match id {
        // the wall clock: some day in 2023
        0 | 5 => Duration::from_secs(1_700_000_000),
        1 | 4 | 6 | 7 => START.with(|s| s.get()),
        _ => return real(t),
    };
    let d = start + PASSED.with(|p| p.get());
    (*t).sec = d.as_secs() as i64;
    (*t).nsec = d.subsec_nanos() as i64;
    0
}

/// `now`: what this thread's paused clock shows.
pub fn start(now: std::time::Instant) {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(1, &mut t) };
    let ago = std::time::Instant::now().saturating_duration_since(now);
    START.with(|s| s.set((Duration::new(t.sec as u64, t.nsec as u32)).saturating_sub(ago)));
    PASSED.with(|p| p.set(Duration::ZERO));
}
pub fn pass(d: Duration) {
    PASSED.with(|p| p.set(p.get() + d))
}

/// Formats what it is given, up to a point, and keeps nothing.
struct Logger;
struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        match self.0.checked_sub(s.len()) {
            Some(n) => {
                self.0 = n;
                Ok(())
            }
            None => Err(std::fmt::Error),
        }
    }
}
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if VIRTUAL.with(|v| v.get()) {
            let _ = std::fmt::Write::write_fmt(&mut Sink(1 << 14), *r.args());
        }
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;

pub fn install() {
    log::set_logger(&LOGGER).expect("harness: logger");
}
/// Everything is logged, or nothing (then the arguments are not even evaluated): for the whole
/// process, which explores one space at a time.
pub fn logging(on: bool) {
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off })
}
