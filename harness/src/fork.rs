//! Run a piece of work in a forked copy of this process, so that nothing the code under test
//! keeps in process-wide state survives it; and keep watch over the process that explores, so
//! that an execution that kills it (a stack overflow, an abort) is found and reported.
use std::io::{Read, Write};
use std::sync::atomic::{AtomicPtr, AtomicU16, AtomicU32, Ordering::*};
use std::os::fd::{FromRawFd, RawFd};

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut RawFd) -> i32;
    fn close(fd: RawFd) -> i32;
    fn write(fd: RawFd, b: *const u8, n: usize) -> isize;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, o: i64) -> *mut u8;
}

/// What every worker is doing, in memory shared with the supervising process.
const SLOTS: usize = 66;
const ROOM: usize = 16384;

#[repr(C)]
struct Slot {
    busy: AtomicU32,
    space: AtomicU32,
    len: AtomicU32,
    path: [AtomicU16; ROOM],
}

static BOARD: AtomicPtr<Slot> = AtomicPtr::new(std::ptr::null_mut());

fn slot(i: usize) -> Option<&'static Slot> {
    let p = BOARD.load(Relaxed);
    // SAFETY: the mapping has SLOTS slots and is never unmapped; all fields are atomic
    (!p.is_null() && i < SLOTS).then(|| unsafe { &*p.add(i) })
}

pub fn name_hash(name: &str) -> u32 {
    name.bytes().fold(0x811c9dc5, |h, b| (h ^ b as u32).wrapping_mul(0x01000193))
}

/// Worker `me` runs this now.
pub fn running(me: usize, space: u32, path: &[u16]) {
    let Some(s) = slot(me) else { return };
    s.busy.store(0, SeqCst);
    s.space.store(space, Relaxed);
    s.len.store(path.len() as u32, Relaxed);
    for (a, b) in s.path.iter().zip(path) {
        a.store(*b, Relaxed);
    }
    s.busy.store(1, SeqCst);
}

pub fn resting(me: usize) {
    if let Some(s) = slot(me) {
        s.busy.store(0, SeqCst);
    }
}

/// What was running when the process died: space and choices.
pub fn last_words() -> Vec<(u32, Vec<u16>)> {
    (0..SLOTS)
        .filter_map(slot)
        .filter(|s| s.busy.load(SeqCst) == 1)
        .map(|s| (s.space.load(Relaxed), s.path.iter().take(s.len.load(Relaxed) as usize).map(|c| c.load(Relaxed)).collect()))
        .collect()
}

pub enum Fate {
    Exit(i32),
    Signal(i32),
}

/// Runs `f` in a child process that shares the board with this one.
pub fn supervised(f: impl FnOnce() -> i32) -> Fate {
    // SAFETY: plain system calls; this process has no other threads yet.
    unsafe {
        let p = mmap(std::ptr::null_mut(), SLOTS * std::mem::size_of::<Slot>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1, "mmap");
        BOARD.store(p as *mut Slot, SeqCst);
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            std::process::exit(f());
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st & 0x7f == 0 {
            Fate::Exit(st >> 8 & 0xff)
        } else {
            Fate::Signal(st & 0x7f)
        }
    }
}

/// The bytes `f` returns in the child; None if the child did not get that far.
pub fn in_child(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    // SAFETY: plain system calls; the child runs on the forking thread only and leaves with
    // _exit. glibc makes its allocator usable in the child.
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let Ok(b) = r else { _exit(3) };
            let mut all = (b.len() as u64).to_be_bytes().to_vec();
            all.extend(b);
            let mut o = 0;
            while o < all.len() {
                let n = write(fds[1], all[o..].as_ptr(), all.len() - o);
                if n <= 0 {
                    _exit(4);
                }
                o += n as usize;
            }
            _exit(0);
        }
        close(fds[1]);
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        // by length: copies of the other end may live on in other children
        let mut n = [0; 8];
        let mut v = vec![];
        let ok = r.read_exact(&mut n).is_ok() && {
            v.resize(u64::from_be_bytes(n) as usize, 0);
            r.read_exact(&mut v).is_ok()
        };
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        ok.then_some(v)
    }
}

/// A small process, forked before any work was done, that answers requests, each in a forked
/// child of its own: everything starts from the same pristine state.
pub struct Zygote {
    to: std::fs::File,
    from: std::fs::File,
}

impl Zygote {
    pub fn new(serve: fn(&[u8]) -> Vec<u8>) -> Zygote {
        // SAFETY: plain system calls, as above.
        unsafe {
            let (mut a, mut b) = ([0; 2], [0; 2]);
            assert_eq!(pipe(a.as_mut_ptr()), 0, "pipe");
            assert_eq!(pipe(b.as_mut_ptr()), 0, "pipe");
            let pid = fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                prctl(1, 9, 0, 0, 0);
                close(a[1]);
                close(b[0]);
                let (mut req, mut ans) = (std::fs::File::from_raw_fd(a[0]), std::fs::File::from_raw_fd(b[1]));
                loop {
                    let mut n = [0; 8];
                    if req.read_exact(&mut n).is_err() {
                        _exit(0);
                    }
                    let mut v = vec![0; u64::from_be_bytes(n) as usize];
                    if req.read_exact(&mut v).is_err() {
                        _exit(0);
                    }
                    let r = in_child(|| serve(&v));
                    let mut o = vec![r.is_some() as u8];
                    let r = r.unwrap_or_default();
                    o.extend((r.len() as u64).to_be_bytes());
                    o.extend(r);
                    if ans.write_all(&o).is_err() {
                        _exit(0);
                    }
                }
            }
            close(a[0]);
            close(b[1]);
            Zygote { to: std::fs::File::from_raw_fd(a[1]), from: std::fs::File::from_raw_fd(b[0]) }
        }
    }

    /// None: the process that worked on it died.
    pub fn ask(&mut self, q: &[u8]) -> Option<Vec<u8>> {
        let mut b = (q.len() as u64).to_be_bytes().to_vec();
        b.extend_from_slice(q);
        self.to.write_all(&b).expect("zygote");
        let mut n = [0; 9];
        self.from.read_exact(&mut n).expect("zygote");
        let mut v = vec![0; u64::from_be_bytes(n[1..].try_into().unwrap()) as usize];
        self.from.read_exact(&mut v).expect("zygote");
        (n[0] == 1).then_some(v)
    }
}
