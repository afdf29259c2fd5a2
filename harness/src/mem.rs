//! Memory held by the code under test: what is allocated inside its calls (and outside the
//! simulated socket) and not freed yet, whoever frees it.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::ptr::null_mut;

pub struct Alloc;

#[derive(Default)]
struct Ledger {
    blocks: HashMap<usize, usize>,
    live: usize,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LEDGER: Cell<*mut Ledger> = const { Cell::new(null_mut()) };
}

/// Runs `f` on this thread's ledger, if there is one; allocations in between are not recorded.
fn ledger<R>(f: impl FnOnce(&mut Ledger) -> R) -> Option<R> {
    let p = LEDGER.try_with(|l| l.replace(null_mut())).unwrap_or(null_mut());
    if p.is_null() {
        return None;
    }
    let r = f(unsafe { &mut *p });
    LEDGER.with(|l| l.set(p));
    Some(r)
}

impl Ledger {
    fn add(&mut self, p: *mut u8, n: usize) {
        if !p.is_null() {
            self.live += n;
            if let Some(old) = self.blocks.insert(p as usize, n) {
                self.live -= old;
            }
        }
    }
    fn sub(&mut self, p: *mut u8) -> bool {
        match self.blocks.remove(&(p as usize)) {
            Some(n) => {
                self.live -= n;
                true
            }
            None => false,
        }
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if ON.try_with(|o| o.get()).unwrap_or(false) {
            ledger(|b| b.add(p, l.size()));
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if ON.try_with(|o| o.get()).unwrap_or(false) {
            ledger(|b| b.add(p, l.size()));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        ledger(|b| b.sub(p));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            ledger(|b| {
                if b.sub(p) {
                    b.add(q, n)
                }
            });
        }
        q
    }
}

/// While this lives, allocations of this thread are (or are not) the code under test's, and the
/// system's clocks show it virtual time (or the harness real time).
pub struct Switch(bool, bool);
impl Drop for Switch {
    fn drop(&mut self) {
        ON.with(|o| o.set(self.0));
        crate::clock::VIRTUAL.with(|v| v.set(self.1));
    }
}
pub fn on() -> Switch {
    // without a ledger nothing is recorded, and the switch costs nothing
    Switch(ON.with(|o| o.replace(LEDGER.with(|l| !l.get().is_null()))), crate::clock::VIRTUAL.with(|v| v.replace(true)))
}
pub fn off() -> Switch {
    Switch(ON.with(|o| o.replace(false)), crate::clock::VIRTUAL.with(|v| v.replace(false)))
}

/// A ledger for this thread until dropped.
pub struct Watch(*mut Ledger);
impl Watch {
    pub fn new() -> Watch {
        let p = Box::into_raw(Box::<Ledger>::default());
        LEDGER.with(|l| l.set(p));
        Watch(p)
    }
    pub fn live(&self) -> usize {
        unsafe { (*self.0).live }
    }
    pub fn blocks(&self) -> usize {
        unsafe { (*self.0).blocks.len() }
    }
    /// Sizes of the blocks held, most frequent first.
    pub fn sizes(&self) -> String {
        ledger(|b| {
            let mut h: HashMap<usize, usize> = HashMap::new();
            b.blocks.values().for_each(|n| *h.entry(*n).or_default() += 1);
            let mut v: Vec<_> = h.into_iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse((x.1 * x.0, x.0)));
            v.iter().take(4).map(|(n, k)| format!("{k} x {n}")).collect::<Vec<_>>().join(", ")
        })
        .unwrap_or_default()
    }
}
impl Drop for Watch {
    fn drop(&mut self) {
        LEDGER.with(|l| l.set(null_mut()));
        drop(unsafe { Box::from_raw(self.0) })
    }
}

/// The application has taken this block over.
pub fn hand_over(s: &str) {
    ledger(|b| b.sub(s.as_ptr() as *mut u8));
}
