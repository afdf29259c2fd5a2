//! Packet identifiers: explicit-state search over the real allocator with a small maximum,
//! and full-size histories over a session.
use crate::explore::*;
use crate::fam::*;
use crate::mqtt::*;
use crate::obs::*;
use crate::sess::*;
#[allow(unused_imports)]
use crate::world::*;

#[cfg(feature = "hook")]
pub mod alloc {
    use super::*;
    use ruq::verif_hooks::Ids;
    use std::collections::{HashMap, VecDeque};
    use std::panic::{catch_unwind, AssertUnwindSafe};

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Op {
        Next,
        Give(u16),
    }

    #[derive(Default, Debug)]
    pub struct Bfs {
        pub states: u64,
        pub transitions: u64,
        pub depth: usize,
        pub capped: bool,
        /// operation histories replayed against whole sessions
        pub replayed: u64,
        /// deviations of the allocator that no session shows
        pub hidden: u64,
        pub fail: Option<(Vec<Op>, String)>,
    }

    /// All states reachable from a fresh allocator of `max` identifiers; `spurious`: also give
    /// back identifiers that are not in use.
    pub fn bfs(w: &W, max: u16, spurious: bool, cap: usize, replay_depth: usize) -> Bfs {
        let mut r = Bfs::default();
        let start = Ids::with_max(max);
        let key = |i: &Ids, used: u32| (format!("{i:?}"), used);
        let mut seen: HashMap<(String, u32), usize> = HashMap::new();
        // (state, used set, parent, op, depth)
        let mut nodes: Vec<(Ids, u32, usize, Op, usize)> = vec![(start.clone(), 0, usize::MAX, Op::Next, 0)];
        seen.insert(key(&start, 0), 0);
        let mut q = VecDeque::from([0usize]);
        let path = |nodes: &Vec<(Ids, u32, usize, Op, usize)>, mut at: usize, last: Op| {
            let mut v = vec![last];
            while nodes[at].2 != usize::MAX {
                v.push(nodes[at].3);
                at = nodes[at].2;
            }
            v.reverse();
            v
        };
        while let Some(at) = q.pop_front() {
            let (st, used, _, _, depth) = nodes[at].clone();
            r.depth = r.depth.max(depth);
            let mut ops = vec![Op::Next];
            for i in 1..=max {
                if used & (1 << i) != 0 || spurious {
                    ops.push(Op::Give(i));
                }
            }
            for op in ops {
                r.transitions += 1;
                let mut n = st.clone();
                let mut u = used;
                let full = used.count_ones() == max as u32;
                let res = catch_unwind(AssertUnwindSafe(|| match op {
                    Op::Next => n.next(),
                    Op::Give(i) => {
                        n.give_back(i);
                        None
                    }
                }));
                let err = match (&res, op) {
                    (Err(_), _) => Some(format!("panicked: {}", crate::sess::LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())),
                    (Ok(None), Op::Next) if !full => Some(format!("no identifier although only {} of {max} are in use", used.count_ones())),
                    (Ok(Some(i)), Op::Next) => {
                        if *i == 0 || *i > max {
                            Some(format!("identifier {i} out of range 1..={max}"))
                        } else if used & (1 << *i) != 0 {
                            Some(format!("identifier {i} issued although it is in use"))
                        } else {
                            u |= 1 << *i;
                            None
                        }
                    }
                    (Ok(_), Op::Give(i)) => {
                        u &= !(1 << i);
                        None
                    }
                    _ => None,
                };
                if let Some(e) = err {
                    // the allocator is an internal part: it counts only if a session shows it
                    let ops = path(&nodes, at, op);
                    if let Err(v) = replay(w, max, &ops) {
                        r.fail = Some((ops, format!("{e}; in a session: {}", v.msg)));
                        r.states = nodes.len() as u64;
                        return r;
                    }
                    r.hidden += 1;
                    continue;
                }
                let k = key(&n, u);
                if !seen.contains_key(&k) {
                    if nodes.len() >= cap {
                        r.capped = true;
                        continue;
                    }
                    seen.insert(k, nodes.len());
                    nodes.push((n, u, at, op, depth + 1));
                    if depth + 1 <= replay_depth {
                        let ops = path(&nodes, at, op);
                        r.replayed += 1;
                        if let Err(v) = replay(w, max, &ops) {
                            r.fail = Some((ops, format!("in a session: {}", v.msg)));
                            r.states = nodes.len() as u64;
                            return r;
                        }
                    }
                    q.push_back(nodes.len() - 1);
                }
            }
        }
        r.states = nodes.len() as u64;
        r
    }

    /// The same history over a whole session: Next is a SUBSCRIBE, Give an acknowledgement.
    pub fn replay(w: &W, max: u16, ops: &[Op]) -> Result<(), Viol> {
        limit_ids(Some(max));
        {
            // a fresh connection on the same port
            let mut w = w.borrow_mut();
            w.conns.clear();
        }
        let mut d = Drive { s: Sess::new(w, 0), o: Obs::new(), tags: T, step: 500, rest: vec![] };
        d.o.max_ids = max as usize;
        d.settle()?;
        d.srv(&connack(false, 0, &[]));
        d.settle()?;
        for (n, op) in ops.iter().enumerate() {
            match op {
                Op::Next => {
                    d.s.cmd(0, &req(n % 3, n));
                }
                Op::Give(i) => {
                    let k = d.o.outstanding.get(i).map(|x| x.0).unwrap_or(9);
                    let b = d.ack(*i, k, false);
                    d.srv(&b);
                }
            }
            d.settle()?;
        }
        // whatever is free must come out
        for n in 0..max as usize {
            d.s.cmd(0, &req(0, n));
            d.settle()?;
        }
        Ok(())
    }

    pub fn space_bfs(max: u16, spurious: bool, cap: usize, replay_depth: usize) -> Space {
        space(format!("allocator of {max} identifiers: all reachable states, {} spurious returns", if spurious { "with" } else { "without" }), move |cx| {
            let w = cx.w.clone();
            let r = bfs(&w, max, spurious, cap, replay_depth);
            cx.validated += r.replayed;
            cx.hidden += r.hidden;
            cx.capped |= r.capped;
            cx.events += r.transitions;
            for i in 0..r.states {
                cx.state((max as u64) << 40 | (spurious as u64) << 39 | i);
            }
            cx.note(|| format!("states {} transitions {} depth {} replayed {} hidden {} capped {}", r.states, r.transitions, r.depth, r.replayed, r.hidden, r.capped));
            match r.fail {
                Some((ops, e)) => {
                    cx.note(|| format!("{ops:?}"));
                    viol("IDS", format!("allocator of {max} identifiers: {e} after {ops:?}"))
                }
                None => Ok(()),
            }
        })
    }

    /// Every operation sequence up to a depth on the allocator of full size, with the
    /// interesting identifiers of both ends, started from an almost exhausted state.
    pub fn space_top(depth: usize, spurious: bool) -> Space {
        space(format!("full-size allocator near exhaustion: every sequence of {depth} operations"), move |cx| {
            let mut i = Ids::new();
            let left = cx.choose(4) as u16;
            let mut used: std::collections::BTreeSet<u16> = Default::default();
            for _ in 0..65535 - left {
                match i.next() {
                    Some(x) if used.insert(x) => {}
                    x => return viol("IDS", format!("filling up: {x:?} after {} identifiers", used.len())),
                }
            }
            let pool: [u16; 8] = [65535, 65534, 65533, 65532, 1, 2, 3, 300];
            let mut ops = vec![];
            for _ in 0..depth {
                let en: Vec<u16> = pool.iter().copied().filter(|p| spurious || used.contains(p)).collect();
                let k = cx.choose(en.len() + 1);
                cx.events += 1;
                if k == 0 {
                    ops.push("next".to_string());
                    let r = catch_unwind(AssertUnwindSafe(|| i.next()));
                    match r {
                        Err(_) => return viol("IDS", format!("allocator panicked, {left} left, after {ops:?}")),
                        Ok(None) if used.len() < 65535 => return viol("IDS", format!("no identifier although {} are free, {left} left at first, after {ops:?}", 65535 - used.len())),
                        Ok(Some(x)) if x == 0 || !used.insert(x) => return viol("IDS", format!("identifier {x} issued twice, {left} left at first, after {ops:?}")),
                        _ => {}
                    }
                } else {
                    let p = en[k - 1];
                    ops.push(format!("give back {p}"));
                    if catch_unwind(AssertUnwindSafe(|| i.give_back(p))).is_err() {
                        return viol("IDS", format!("allocator panicked, {left} left, after {ops:?}"));
                    }
                    used.remove(&p);
                }
            }
            // everything that is free must still come out, once
            while used.len() < 65535 {
                match catch_unwind(AssertUnwindSafe(|| i.next())) {
                    Ok(Some(x)) if x != 0 && used.insert(x) => {}
                    x => return viol("IDS", format!("{x:?} with {} free, {left} left at first, after {ops:?}", 65535 - used.len())),
                }
            }
            cx.note(|| format!("{left} left, {ops:?}"));
            Ok(())
        })
    }
}

pub fn req(kind: usize, i: usize) -> Cmd {
    match kind {
        0 => Cmd::Sub(format!("s{i}"), 0),
        1 => Cmd::Unsub(format!("u{i}")),
        _ => Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(vec![i as u8]), qos: Some(1), props: vec![] },
    }
}

/// Many commands in batches, checking only now and then.
pub fn bulk(d: &mut Drive, n: usize, mut f: impl FnMut(usize) -> Cmd) -> Result<(), Viol> {
    let mut i = 0;
    while i < n {
        let mut k = 0;
        while k < 90 && i < n {
            if d.s.cmd(0, &f(i)) != Some(true) {
                break;
            }
            i += 1;
            k += 1;
        }
        d.s.settle();
        d.o.update(&d.s);
        if d.s.end.is_some() || k == 0 {
            break;
        }
    }
    d.settle()
}

const T: Tags = CMD | IDS | PANIC | END | NOTIF | ACK;

pub fn acks_for(d: &Drive, pids: impl Iterator<Item = u16>) -> Vec<u8> {
    let mut b = vec![];
    for p in pids {
        if let Some((k, _)) = d.o.outstanding.get(&p) {
            b.extend(d.ack(p, *k, p % 3 == 0));
        }
    }
    b
}

/// More requests than there are identifiers, each acknowledged before the next few.
pub fn recycle(total: usize, tags: Tags) -> Space {
    space(format!("{total} requests, at most a few unacknowledged"), move |cx| {
        let kind = cx.choose(4);
        let lag = [0usize, 1, 7][cx.choose(3)];
        let newest = lag > 0 && cx.choose(2) == 1;
        cx.note(|| format!("kind {kind}, {lag} unacknowledged, newest first: {newest}"));
        let mut d = Drive::open(cx, tags & T)?;
        let mut i = 0;
        while i < total {
            let k = if kind == 3 { i % 3 } else { kind };
            d.s.cmd(0, &req(k, i));
            i += 1;
            d.s.settle();
            d.o.update(&d.s);
            while d.o.outstanding.len() > lag {
                let pid = if newest { *d.o.order.values().next_back().unwrap() } else { *d.o.order.values().next().unwrap() };
                let b = acks_for(&d, [pid].into_iter());
                d.srv(&b);
                d.s.settle();
                d.o.update(&d.s);
            }
            if i % 4096 == 0 {
                d.settle()?;
            }
            if d.s.end.is_some() {
                break;
            }
        }
        cx.events += 2 * i as u64;
        d.settle()?;
        let (r, m) = (d.o.issued_total, d.o.max_out);
        cx.note(|| format!("{r} requests written, at most {m} unacknowledged"));
        cx.state(r);
        Ok(())
    })
}

/// Use up all identifiers, go on, acknowledge some, use up again.
pub fn exhaust(tags: Tags, spurious: bool, thorough: bool) -> Space {
    space(format!("all 65,535 identifiers in use, further requests wait, acknowledgements in several patterns{}", if spurious { ", with spurious ones" } else { "" }), move |cx| {
        let kind = if thorough { cx.choose(5) } else { [0, 3, 4][cx.choose(3)] };
        // publishes with QoS 1 are kept in a list by the library: nothing quadratic
        let pat = cx.choose(if kind == 4 { 6 } else { 9 });
        let t = tags & T;
        let mut d = Drive::open(cx, t)?;
        let pick = move |i: usize| match kind {
            3 => i % 2,
            2 => if i % 64 == 0 { 2 } else { 0 },
            4 => 2,
            k => k,
        };
        bulk(&mut d, 65535, |i| req(pick(i), i))?;
        cx.events += 65535;
        let n = d.o.outstanding.len();
        if n != 65535 && d.s.end.is_none() {
            return viol("IDS", format!("only {n} requests could be unacknowledged at a time"));
        }
        // requests that must wait; and one that needs no identifier behind them
        for i in 0..3 {
            d.s.cmd(0, &req(pick(i), 70000 + i));
        }
        d.s.cmd(0, &Cmd::Pub { topic: "q0".into(), payload: Pay::Text("x".into()), qos: Some(0), props: vec![] });
        d.settle()?;
        // duties go on
        d.srv(&publish(false, 1, false, "in", 9, &[], b"m"));
        d.settle()?;
        if spurious {
            // a free identifier cannot exist; a QoS 1 message with an id in use is unrelated
            d.srv(&publish(false, 1, false, "in", 40000, &[], b"m"));
            d.settle()?;
        }
        let mut pings = d.o.pings.len();
        for _ in 0..2 {
            d.step = 4000;
            d.tick(8000)?;
            d.settle()?;
            if d.o.pings.len() == pings && d.s.end.is_none() && tags & PING == 0 && t & CMD != 0 {
                return viol("CMD", "no ping while waiting for identifiers");
            }
            pings = d.o.pings.len();
            d.srv(&pingresp());
            d.settle()?;
        }
        let now: Vec<u16> = match pat {
            0 => vec![1],
            1 => vec![65535],
            2 => vec![65534],
            3 => vec![32768, 32769],
            4 => vec![65535, 1],
            5 => vec![65533, 65535, 65534],
            6 => (1..=65535).step_by(2).collect(),
            7 => (1..=65535).rev().step_by(3).collect(),
            _ => (1..=65535).rev().collect(),
        };
        cx.note(|| format!("kind {kind}: {} acknowledgements, first {:?}", now.len(), &now[..now.len().min(4)]));
        for chunk in now.chunks(997) {
            let b = acks_for(&d, chunk.iter().copied());
            cx.events += chunk.len() as u64;
            d.srv(&b);
            d.s.settle();
            d.o.update(&d.s);
            if d.s.end.is_some() {
                break;
            }
        }
        d.settle()?;
        if spurious {
            for p in [1u16, 2, 32768, 65534, 65535] {
                if !d.o.outstanding.contains_key(&p) {
                    for k in [4, 9, 11] {
                        let b = d.ack(p, k, false);
                        d.srv(&b);
                        d.settle()?;
                    }
                }
            }
        }
        // fill up again: every free identifier must come back
        let free = 65535 - d.o.outstanding.len();
        bulk(&mut d, free, |i| req(pick(i), i))?;
        cx.events += free as u64;
        let n = d.o.outstanding.len();
        if n != 65535 && d.s.end.is_none() {
            return viol("IDS", format!("{} identifiers were lost", 65535 - n));
        }
        d.s.cmd(0, &req(0, 1));
        d.settle()?;
        cx.state(pat as u64 * 16 + kind as u64);
        // and an orderly end although requests are waiting
        if pat == 0 {
            d.o.env_eof = true;
            d.s.with(|c| c.push(crate::world::Seg::Eof));
            d.s.settled = false;
            d.settle()?;
        }
        Ok(())
    })
}

/// With every identifier in use: each form of acknowledgement makes room for exactly one request.
pub fn ack_forms(tags: Tags) -> Space {
    space("all identifiers in use: every form of acknowledgement makes room for one request", move |cx| {
        let kind = cx.choose(3);
        let down = cx.choose(2) == 1;
        let mut d = Drive::open(cx, tags & T)?;
        bulk(&mut d, 65535, |i| req(kind, i))?;
        let props: Vec<Vec<RProp>> = {
            let u = |n: usize| (0..n).map(|i| RProp::User(format!("k{i}"), "v".into()));
            let r = || RProp::Reason("because".into());
            vec![vec![], vec![r()], u(1).collect(), u(3).collect(), std::iter::once(r()).chain(u(2)).collect(), u(2).chain(std::iter::once(r())).collect(), u(40).collect(), vec![RProp::Reason("x".repeat(300))]]
        };
        let mut forms: Vec<Box<dyn Fn(u16) -> Vec<u8>>> = vec![];
        let codes: &[u8] = match kind {
            0 => &[0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2],
            1 => &[0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91],
            _ => &[0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
        };
        for r in codes.iter().copied() {
            for p in props.clone() {
                forms.push(Box::new(move |pid| match kind {
                    0 => suback(pid, r, &p),
                    1 => unsuback(pid, r, &p),
                    _ => puback_p(pid, r, &p),
                }));
            }
            if kind == 2 {
                // without properties, and without anything
                forms.push(Box::new(move |pid| frame(0x40, &[(pid >> 8) as u8, pid as u8, r])));
                forms.push(Box::new(puback));
            }
        }
        for (i, f) in forms.iter().enumerate() {
            let n = d.o.issued_total;
            d.s.cmd(0, &req((kind + i) % 3, 70_000 + i));
            d.settle()?;
            let pid = 1 + (if down { 65_534 - i * 601 % 65_535 } else { i * 257 }) as u16;
            let pid = (pid..=65535).chain(1..pid).find(|p| d.o.outstanding.get(p).is_some_and(|o| o.0 == [9, 11, 4][kind])).unwrap_or(1);
            let b = f(pid);
            d.srv(&b);
            let r = d.settle();
            if r.is_err() || d.s.end.is_some() || d.o.issued_total != n + 1 {
                cx.note(|| format!("acknowledgement {}", crate::bytes::hex(&b)));
            }
            r?;
            if d.s.end.is_some() {
                return viol("IDS", "the acknowledgement ended the session");
            }
            if d.o.issued_total != n + 1 {
                return viol("IDS", format!("{} requests were sent after one acknowledgement", d.o.issued_total - n));
            }
        }
        cx.events += 65535 + 2 * forms.len() as u64;
        cx.state((kind * 2 + down as usize) as u64);
        Ok(())
    })
}
