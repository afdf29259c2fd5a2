//! Values under every circumstance: a catalogue of packets and requests (topics, payloads, sizes,
//! flags, properties, identifiers, reason codes), each met in every situation a session can be in.
use crate::checks::*;
use crate::explore::*;
use crate::fam::*;
use crate::mqtt::*;
use crate::obs::*;
use crate::sess::*;
use crate::values::*;
use crate::world::*;

fn user(k: &str, v: &str) -> RProp {
    RProp::User(k.into(), v.into())
}

fn prop_lists() -> Vec<Vec<RProp>> {
    let all = vec![RProp::Pfi(1), RProp::Expiry(77), RProp::Resp("resp/x".into()), RProp::Corr(vec![9, 8, 7]), user("a", "b"), user("a", "b")];
    vec![
        vec![],
        vec![RProp::Pfi(0)],
        vec![RProp::Pfi(1)],
        vec![RProp::Expiry(0)],
        vec![RProp::Expiry(1)],
        vec![RProp::Expiry(u32::MAX)],
        vec![RProp::Resp("r".into())],
        vec![RProp::Resp("".into())],
        vec![RProp::Corr(vec![])],
        vec![RProp::Corr(vec![0xFF; 40])],
        vec![user("", "")],
        vec![user("k", "v")],
        vec![user("k", "v"), user("k", "w")],
        all.clone(),
        all.into_iter().rev().collect(),
        (0..50).map(|i| user(&format!("k{i}"), &format!("v{i}"))).collect(),
        vec![user(&"k".repeat(300), &"v".repeat(20_000))],
        vec![user("type", "request"), user("method", "ping"), user("status", "500")],
    ]
}
const SIZES: [usize; 22] = [0, 1, 2, 9, 100, 121, 122, 123, 124, 125, 126, 127, 128, 1000, 4096, 8180, 8192, 16_370, 16_384, 65_535, 65_536, 300_000];

fn incoming() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for t in TOPICS {
        v.push(publish(false, 0, false, t, 0, &[], b"x"));
        v.push(publish(false, 1, false, t, 21, &[], b"x"));
        v.push(publish(true, 1, true, t, 22, &[user(t, t)], b""));
    }
    for p in payloads() {
        let text = std::str::from_utf8(&p).is_ok();
        v.push(publish(false, 0, true, "t", 0, &[], &p));
        v.push(publish(false, 1, false, "t", 23, &[RProp::Pfi(text as u8)], &p));
    }
    for n in SIZES {
        let b: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        v.push(publish(false, 0, false, "t", 0, &[], &b));
        v.push(publish(false, 1, false, "t", 24, &[RProp::Pfi(1)], &b));
        if n > 0 && n < 65_536 {
            v.push(publish(false, 1, false, std::str::from_utf8(&b).unwrap(), 25, &[], b"x"));
        }
    }
    for ps in prop_lists() {
        v.push(publish(false, 0, false, "t", 0, &ps, b"x"));
        v.push(publish(false, 1, false, "t", 26, &ps, b"x"));
    }
    for id in [1, 2, 3, 4, 5, 6, 100, 255, 256, 257, 1024, 0x7FFF, 0x8000, 0xFF00, 65534, 65535] {
        for (dup, retain) in [(false, false), (true, false), (false, true), (true, true)] {
            v.push(publish(dup, 1, retain, "t", id, &[], b"id"));
        }
    }
    let us = [RProp::Reason("some reason".into()), user("k", "v")];
    for r in [0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99] {
        v.push(puback_r(900, r));
        v.push(puback_p(901, r, &[]));
        v.push(puback_p(902, r, &us));
    }
    v.push(puback(903));
    for r in [0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2] {
        v.push(suback(904, r, &[]));
        v.push(suback(905, r, &us));
    }
    for r in [0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91] {
        v.push(unsuback(906, r, &[]));
        v.push(unsuback(907, r, &us));
    }
    v.push(pingresp());
    for r in [0, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2] {
        v.push(disconnect(r));
        v.push(disconnect_p(r, &us));
    }
    for n in [0, 1, 127, 128, 1000, 65_535] {
        v.push(disconnect_p(0x8B, &[RProp::Reason("r".repeat(n))]));
        v.push(disconnect_p(0, &[RProp::Reason("r".repeat(n))]));
    }
    v.push(vec![0xE0, 0]);
    // not acceptable
    v.extend([vec![0x30, 1, 0], vec![0x32, 5, 0, 1, b't', 0, 0], vec![0x36, 6, 0, 1, b't', 0, 1, 0], vec![0x10, 0], vec![0x80, 2, 0, 1], vec![0xC0, 0], vec![0x40, 1, 0], vec![0x90, 3, 0, 0, 0], vec![0xD0, 0xFF, 0xFF, 0xFF, 0xFF, 1], vec![0x30, 6, 0, 2, 0xC0, 0x80, 0, b'x'], vec![0xF1, 0], vec![0, 0]]);
    v
}

fn outgoing() -> Vec<Cmd> {
    let publ = |topic: &str, payload: Pay, qos: Option<u8>, props: Vec<RProp>| Cmd::Pub { topic: topic.into(), payload, qos, props };
    let mut v = vec![];
    for t in TOPICS.iter().chain(FILTERS) {
        v.push(publ(t, Pay::Text("x".into()), None, vec![]));
        v.push(publ(t, Pay::Bytes(vec![]), Some(1), vec![]));
        v.push(Cmd::Sub((*t).into(), (t.len() % 3) as u8));
        v.push(Cmd::Unsub((*t).into()));
    }
    for p in payloads() {
        if let Ok(s) = std::str::from_utf8(&p) {
            v.push(publ("t", Pay::Text(s.into()), Some(0), vec![]));
        }
        v.push(publ("t", Pay::Bytes(p), Some(1), vec![]));
    }
    for n in SIZES {
        let b: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        let s = String::from_utf8(b.clone()).unwrap();
        v.push(publ("t", Pay::Bytes(b.clone()), Some(0), vec![]));
        v.push(publ("t", Pay::Text(s.clone()), Some(1), vec![]));
        if n > 0 {
            // the longest are refused
            v.push(publ(&s, Pay::Bytes(vec![1]), Some(1), vec![]));
            v.push(Cmd::Sub(s.clone(), 1));
            v.push(Cmd::Unsub(s.clone()));
            v.push(publ("t", Pay::Bytes(vec![1]), Some(1), vec![RProp::Corr(b)]));
        }
    }
    for ps in prop_lists() {
        v.push(publ("t", Pay::Text("x".into()), None, ps.clone()));
        v.push(publ("t", Pay::Bytes(vec![0]), Some(1), ps.clone()));
        v.push(publ("t", Pay::Bytes(vec![0]), Some(2), ps));
    }
    v.push(Cmd::Sub("s".into(), 0));
    v.push(Cmd::Sub("s".into(), 2));
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    Idle,
    /// with the request or packet that opens the session
    Opening,
    /// requests are not acknowledged, and are after it
    Unanswered,
    /// a ping is not answered, and is after it
    Pinged,
    /// the socket takes nothing / the beginning of a packet
    Blocked,
    BlockedInside,
    ByteWrites,
    /// so many notifications are unread
    Unread(usize),
    NoReceiver,
    NoHandles,
    /// in two parts, with a command and a second in between
    TwoParts,
    Bytewise,
    /// in a segment with others, or among other commands
    Among,
    /// while the event loop is being polled
    Inside,
    NoIdentifier,
    Thrice,
    /// at the moment the keep-alive interval is over
    WithTick,
}
use At::*;
const AT: [At; 20] = [Idle, Opening, Unanswered, Pinged, Blocked, BlockedInside, ByteWrites, Unread(99), Unread(100), Unread(101), Unread(130), NoReceiver, NoHandles, TwoParts, Bytewise, Among, Inside, NoIdentifier, Thrice, WithTick];

#[derive(Clone)]
enum What2 {
    In(Vec<u8>),
    Out(Cmd),
}

fn act(d: &mut Drive, w: &What2) -> Result<(), Viol> {
    match w {
        What2::In(b) => {
            if !d.o.env_eof {
                d.srv(b)
            }
        }
        What2::Out(c) => {
            let Some(k) = d.s.clients.iter().position(|c| c.is_some()) else { return Ok(()) };
            let over = d.s.end.is_some();
            let r = d.s.cmd(k, c);
            let want = crate::outc::fits(c) && !over;
            if d.tags & HONEST != 0 && r != Some(want) && (over || d.s.settled) {
                return viol("HONEST", format!("{} was {}", clip(&format!("{c:?}")), if want { "refused" } else { "accepted" }));
            }
            d.s.settled = false;
        }
    }
    Ok(())
}

fn meet(cx: &mut Ctx, t: Tags, w: &What2, at: At, tail: usize) -> Result<(), Viol> {
    limit_ids(if at == NoIdentifier { Some(2) } else { None });
    let mut d = Drive::new(cx, t);
    if at == NoIdentifier {
        d.o.max_ids = 2;
    }
    if at == ByteWrites {
        cx.w.borrow_mut().wmode = WMode::Max(7);
    }
    d.settle()?;
    let ca = connack(false, 0, &[]);
    if at == Opening {
        match w {
            What2::In(b) => {
                d.srv(&[&ca[..], b].concat());
            }
            What2::Out(_) => {
                act(&mut d, w)?;
                d.settle()?;
                d.srv(&ca);
            }
        }
        d.settle()?;
    } else {
        d.srv(&ca);
        d.settle()?;
    }
    let other = publish(false, 1, false, "other", 31, &[], b"other");
    match at {
        Opening => {}
        Idle | ByteWrites => act(&mut d, w)?,
        Unanswered => {
            for c in [cpub(1), csub(), cunsub(), cpub(1)] {
                d.s.cmd(0, &c);
            }
            d.settle()?;
            act(&mut d, w)?;
            d.settle()?;
            while let (Some((p, k)), true) = (d.o.newest(), d.s.end.is_none()) {
                if k == 5 {
                    break;
                }
                let b = d.ack(p, k, p % 2 == 1);
                d.srv(&b);
                d.settle()?;
            }
        }
        Pinged => {
            let k = if d.o.keep_alive == 0 { 8000 } else { d.o.keep_alive };
            d.tick(k)?;
            d.settle()?;
            d.tick(k / 2)?;
            act(&mut d, w)?;
            d.settle()?;
            d.tick(k / 4)?;
            if d.s.end.is_none() && d.o.pings.last().is_some_and(|p| p.answered.is_none()) {
                d.srv(&pingresp());
            }
            d.settle()?;
            d.tick(k / 2)?;
        }
        Blocked | BlockedInside => {
            d.s.with(|c| c.set_wmode(WMode::Quota(if at == Blocked { 0 } else { 3 })));
            d.s.cmd(0, &cpub(0));
            d.settle()?;
            act(&mut d, w)?;
            d.settle()?;
            d.s.cmd(0, &csub());
            d.srv(&other);
            d.settle()?;
            d.s.with(|c| c.set_wmode(WMode::Open));
            d.s.settled = false;
        }
        Unread(n) => {
            d.s.draining = false;
            let b: Vec<u8> = (0..n as u32).flat_map(|i| publish(false, 0, false, "p", 0, &[], &i.to_be_bytes())).collect();
            d.srv(&b);
            d.settle()?;
            act(&mut d, w)?;
            d.settle()?;
            d.s.cmd(0, &cpub(1));
            d.srv(&other);
            d.settle()?;
            if tail == 1 {
                // one by one
                for _ in 0..4 {
                    d.s.drain(1);
                    d.s.settled = false;
                    d.settle()?;
                }
            }
            d.s.draining = true;
            d.s.settled = false;
        }
        NoReceiver => {
            d.s.rx = None;
            d.s.settled = false;
            d.settle()?;
            act(&mut d, w)?;
        }
        NoHandles => {
            if matches!(w, What2::Out(_)) {
                act(&mut d, w)?;
            }
            d.s.clients.iter_mut().for_each(|c| *c = None);
            d.s.settled = false;
            if matches!(w, What2::In(_)) {
                act(&mut d, w)?;
            }
        }
        TwoParts | Bytewise => {
            if let What2::In(b) = w {
                let cuts: Vec<usize> = if at == TwoParts {
                    vec![1 + b.len() / 2]
                } else if b.len() < 400 {
                    (1..b.len()).collect()
                } else {
                    (1..9).chain([b.len() - 1]).collect()
                };
                let mut i = 0;
                for c in cuts {
                    let c = c.min(b.len());
                    d.srv(&b[i..c]);
                    i = c;
                    d.settle()?;
                    if at == TwoParts {
                        d.s.cmd(0, &cpub(1));
                        d.settle()?;
                        d.tick(1000)?;
                        d.settle()?;
                    }
                }
                d.srv(&b[i..]);
            }
        }
        Among => {
            if let What2::In(b) = w {
                let b = [&other[..], b, &publish(false, 0, false, "third", 0, &[], b"")].concat();
                d.srv(&b);
                d.s.cmd(0, &cpub(0));
            } else {
                d.s.cmd(0, &cpub(0));
                d.s.cmd(0, &csub());
                d.s.settled = false;
                act(&mut d, w)?;
                d.s.cmd(0, &cpub(1));
                d.srv(&other);
            }
        }
        Inside => {
            d.srv(&other);
            match w {
                What2::In(b) => d.apply(&Ev::InSrv("packet", b.clone()))?,
                What2::Out(c) => d.apply(&Ev::InCmd(c.clone()))?,
            }
            d.settle()?;
            cx.w.borrow_mut().inject = None;
        }
        NoIdentifier => {
            for c in [cpub(1), csub(), cunsub()] {
                d.s.cmd(0, &c);
            }
            d.settle()?;
            act(&mut d, w)?;
            d.settle()?;
            for _ in 0..4 {
                let (Some((p, k)), true) = (d.o.oldest(), d.s.end.is_none()) else { break };
                if k == 5 {
                    break;
                }
                let b = d.ack(p, k, k == 4);
                d.srv(&b);
                d.settle()?;
            }
        }
        Thrice => {
            for k in 0..3 {
                act(&mut d, w)?;
                if k != tail {
                    d.settle()?;
                }
            }
        }
        WithTick => {
            let k = if d.o.keep_alive == 0 { 8000 } else { d.o.keep_alive };
            d.tick(k - 500)?;
            d.settle()?;
            act(&mut d, w)?;
            advance(&d.s.w, 500);
            d.o.impaired = d.s.w.borrow().now;
        }
    }
    let r = d.settle();
    cx.events += 4;
    r?;
    // life goes on
    let h = d.s.clients.iter().position(|c| c.is_some());
    if let Some(h) = h {
        d.s.cmd(h, &cpub(1));
        d.s.cmd(h, &csub());
    }
    if !d.o.env_eof {
        d.srv(&publish(false, 1, false, "later", 32, &[RProp::Pfi(1)], b"later"));
    }
    d.settle()?;
    if d.s.end.is_none() && d.o.pings.last().is_some_and(|p| p.answered.is_none()) {
        d.srv(&pingresp());
    }
    if let (Some((p, k)), true) = (d.o.oldest(), d.s.end.is_none()) {
        if k != 5 {
            let b = d.ack(p, k, false);
            d.srv(&b);
        }
    }
    d.settle()?;
    match (tail, h) {
        (0, Some(h)) => {
            d.s.cmd(h, &Cmd::Disc);
        }
        (1, _) => {
            d.o.env_eof = true;
            d.s.with(|c| c.push(Seg::Eof));
            d.s.settled = false;
        }
        _ => {
            let k = if d.o.keep_alive == 0 { 8000 } else { d.o.keep_alive };
            d.step = k / 4;
            d.tick(k + 500)?;
        }
    }
    d.settle()?;
    d.epilogue()?;
    cx.state(d.o.hash(&d.s));
    Ok(())
}

fn all(t: Tags, name: &'static str, list: Vec<What2>, big: impl Fn(&What2) -> bool + Send + Sync + 'static) -> Space {
    space(format!("{} {name}, each in {} situations", list.len(), AT.len()), move |cx| {
        let at = AT[cx.choose(AT.len())];
        let tail = cx.choose(3);
        let w = &list[cx.choose(list.len())];
        if at == NoIdentifier && !cfg!(feature = "hook") || matches!(w, What2::Out(_)) && matches!(at, TwoParts | Bytewise) || big(w) && (tail > 0 || at == ByteWrites) {
            cx.trivial = true;
            return Ok(());
        }
        let r = [0, 1, 2, 100][(tail + 1) % 4 * (at != Idle) as usize];
        cx.w.borrow_mut().rng_fixed = r;
        cx.note(|| match w {
            What2::In(b) => format!("{at:?}, {tail}: server sends {}", crate::bytes::hex(&b[..b.len().min(120)])),
            What2::Out(c) => format!("{at:?}, {tail}: {}", clip(&format!("{c:?}"))),
        });
        meet(cx, t, w, at, tail)
    })
}

/// Every request in every way it can be made.
fn ways(t: Tags) -> Space {
    let list = outgoing();
    space(format!("{} requests of all kinds, made in {} other ways", list.len(), WAYS.len()), move |cx| {
        let way = WAYS[cx.choose(WAYS.len())];
        let at = [Idle, Opening, Unanswered, Thrice, Inside, NoIdentifier][cx.choose(6)];
        let c = &list[cx.choose(list.len())];
        let (big, publ) = match c {
            Cmd::Pub { topic, payload: Pay::Text(s), .. } => (topic.len() + s.len() > 20_000, true),
            Cmd::Pub { topic, payload: Pay::Bytes(s), .. } => (topic.len() + s.len() > 20_000, true),
            Cmd::Sub(s, _) | Cmd::Unsub(s) => (s.len() > 20_000, false),
            _ => (false, false),
        };
        // a copy of the handle has room even if the queue is full
        let odd = way == Way::Fresh && at == NoIdentifier;
        if at == NoIdentifier && !cfg!(feature = "hook") || odd || big && at != Idle || !publ && matches!(way, Way::QosLast | Way::QosBetween | Way::QosTwice | Way::Cloned) {
            cx.trivial = true;
            return Ok(());
        }
        WAY.with(|w| w.set(way));
        cx.note(|| format!("{way:?}, {at:?}: {}", clip(&format!("{c:?}"))));
        meet(cx, t, &What2::Out(c.clone()), at, 1)
    })
}

/// Every request with every kind of request right before and after it, all issued at once.
fn bursts_out(t: Tags) -> Space {
    let list = outgoing();
    space(format!("{} requests of all kinds, with others right before and after", list.len()), move |cx| {
        let near = [None, Some(cpub(0)), Some(cpub(1)), Some(cpub(2)), Some(csub()), Some(cunsub()), Some(Cmd::Disc)];
        let x = near[cx.choose(6)].clone();
        let y = near[cx.choose(7)].clone();
        let twice = cx.choose(2) == 1;
        let w = &list[cx.choose(list.len())];
        let c: Vec<Cmd> = x.into_iter().chain([w.clone()]).chain(twice.then(|| w.clone())).chain(y).collect();
        let size: usize = c.iter().map(|c| format!("{c:?}").len()).sum();
        if size > 100_000 && twice {
            cx.trivial = true;
            return Ok(());
        }
        for c in &c {
            cx.note(|| clip(&format!("{c:?}")));
        }
        let mut d = Drive::open(cx, t)?;
        for c in &c {
            let r = d.s.cmd(0, c);
            if t & HONEST != 0 && r != Some(crate::outc::fits(c)) {
                return viol("HONEST", format!("{} was {}", clip(&format!("{c:?}")), if r == Some(true) { "accepted" } else { "refused" }));
            }
        }
        d.s.settled = false;
        d.settle()?;
        cx.events += c.len() as u64;
        d.s.cmd(0, &cunsub());
        d.s.settled = false;
        d.settle()?;
        cx.state(d.o.hash(&d.s));
        Ok(())
    })
}

/// Every packet with every kind of packet right before and after it, in one segment.
fn bursts_in(t: Tags) -> Space {
    let list = incoming();
    space(format!("{} packets of all kinds, with others right before and after", list.len()), move |cx| {
        let us = [user("k", "v"), RProp::Reason("r".into())];
        let near: [Vec<u8>; 12] = [
            vec![],
            publish(false, 0, false, "n", 0, &[], b"n0"),
            publish(false, 1, false, "n", 70, &[RProp::Pfi(1)], b"n1"),
            publish(true, 1, true, "n", 70, &us[..1], b""),
            puback(1),
            puback_p(2, 0x87, &us),
            suback(1, 1, &us),
            suback(3, 0x80, &[]),
            unsuback(3, 0, &[]),
            pingresp(),
            disconnect_p(0x8B, &us),
            vec![0x32, 9, 0],
        ];
        let x = &near[cx.choose(10)];
        let y = &near[cx.choose(12)];
        let w = &list[cx.choose(list.len())];
        cx.note(|| format!("{} {} {}", crate::bytes::hex(x), crate::bytes::hex(&w[..w.len().min(120)]), crate::bytes::hex(y)));
        let mut d = Drive::open(cx, t)?;
        for c in [cpub(1), cpub(1), csub()] {
            d.s.cmd(0, &c);
        }
        d.settle()?;
        d.srv(&[&x[..], w, y].concat());
        d.settle()?;
        if y.len() == 3 && y[0] == 0x32 && d.s.end.is_none() {
            d.s.cmd(0, &cpub(0));
            d.settle()?;
            d.srv(&[1, b'r', 0, 9, 0, b'r', b'e', b's'][..8]);
            d.settle()?;
        }
        d.s.cmd(0, &cpub(1));
        d.s.settled = false;
        d.settle()?;
        cx.events += 4;
        cx.state(d.o.hash(&d.s));
        Ok(())
    })
}

const REASONS4: [u8; 9] = [0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99];
const REASONS9: [u8; 12] = [0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2];
const REASONS11: [u8; 7] = [0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91];

/// Every answer to a request, one or several times over, and what is asked and sent after it.
fn answers(t: Tags, th: bool) -> Space {
    let depth = 3 + th as usize;
    space(format!("every answer to a request, then {depth} steps"), move |cx| {
        let kind = cx.choose(4);
        let reasons: &[u8] = [&REASONS4[..], &REASONS4, &REASONS9, &REASONS11][kind];
        let reason = reasons[cx.choose(reasons.len())];
        let form = cx.choose(4);
        let others = cx.choose(3);
        let again = cx.choose(3);
        let publ = |t: &str, q: u8| Cmd::Pub { topic: t.into(), payload: Pay::Text("x".into()), qos: Some(q), props: vec![] };
        let ask = [publ("a", 1), publ("a", 1), Cmd::Sub("a".into(), 1), Cmd::Unsub("a".into())][kind].clone();
        let props = match form {
            0 | 1 => vec![],
            2 => vec![RProp::Reason("a reason".into())],
            _ => vec![user("k", "v"), RProp::Reason("".into()), user("k", "v")],
        };
        let reply = |p: u16| match kind {
            // the short forms
            0 | 1 if form == 0 && reason == 0 => puback(p),
            0 | 1 if form == 0 => puback_r(p, reason),
            0 | 1 => puback_p(p, reason, &props),
            2 => suback(p, reason, &props),
            _ => unsuback(p, reason, &props),
        };
        if kind == 1 && others == 0 || kind > 1 && form == 0 {
            cx.trivial = true;
            return Ok(());
        }
        let mut d = Drive::open(cx, t)?;
        for _ in 0..=again {
            // others, sent before or after it, are not acknowledged
            let (before, after) = [(0, 0), (1, 0), (0, 2)][others];
            for _ in 0..before {
                d.s.cmd(0, &publ("b", 1));
            }
            d.s.cmd(0, &ask);
            d.settle()?;
            let mine = d.o.newest().map(|x| x.0);
            for _ in 0..after {
                d.s.cmd(0, &publ("b", 1));
            }
            d.settle()?;
            if let (Some(p), true) = (mine, d.s.end.is_none()) {
                d.srv(&reply(p));
                d.settle()?;
            }
        }
        cx.note(|| format!("{} time(s) {ask:?} answered with reason {reason:#x}, form {form}, others {others}", again + 1));
        for _ in 0..depth {
            let e = match cx.choose(11) {
                0 => Ev::Cmd(publ("a", 1)),
                1 => Ev::Cmd(publ("a", 0)),
                2 => Ev::Cmd(publ("b", 1)),
                3 => Ev::Cmd(Cmd::Sub("a".into(), 1)),
                4 => Ev::Cmd(Cmd::Unsub("a".into())),
                5 => Ev::Srv("PUBLISH", publish(false, 1, false, "a", 1, &[RProp::Pfi(1)], b"x")),
                6 => Ev::AckOldest,
                7 => Ev::AckNewest,
                8 => Ev::AckDup,
                9 => Ev::Tick(8000),
                _ => Ev::Pong,
            };
            if d.enabled(&e) {
                cx.note(|| show(&e));
                d.apply(&e)?;
                d.settle()?;
            }
            cx.events += 1;
        }
        cx.state(d.o.hash(&d.s));
        Ok(())
    })
}

pub fn spaces(t: Tags, th: bool) -> Vec<Space> {
    vec![
        ways(t),
        answers(t, th),
        bursts_out(t),
        bursts_in(t),
        all(t, "packets of all kinds", incoming().into_iter().map(What2::In).collect(), |w| matches!(w, What2::In(b) if b.len() > 20_000)),
        all(t, "requests of all kinds", outgoing().into_iter().map(What2::Out).collect(), |w| match w {
            What2::Out(Cmd::Pub { topic, payload: Pay::Text(s), .. }) => topic.len() + s.len() > 20_000,
            What2::Out(Cmd::Pub { topic, payload: Pay::Bytes(s), .. }) => topic.len() + s.len() > 20_000,
            What2::Out(Cmd::Sub(s, _) | Cmd::Unsub(s)) => s.len() > 20_000,
            _ => false,
        }),
    ]
}

/// Every sequence of a few steps over a large alphabet in which values recur: the same topics,
/// payloads and identifiers in both directions.
pub fn related(t: Tags, th: bool) -> Vec<Space> {
    let publ = |topic: &str, pay: &str, q: u8| Ev::Cmd(Cmd::Pub { topic: topic.into(), payload: Pay::Text(pay.into()), qos: Some(q), props: vec![] });
    let inp = |topic: &str, pay: &str, q: u8, dup: bool, retain: bool, id: u16| Ev::Srv("PUBLISH", publish(dup, q, retain, topic, id, &[RProp::Pfi(1)], pay.as_bytes()));
    let mut a = vec![
        publ("a", "x", 0),
        publ("a", "x", 1),
        publ("a", "", 1),
        publ("b/c", "x", 1),
        publ("a", "x", 2),
        Ev::Cmd(Cmd::Pub { topic: "a".into(), payload: Pay::Bytes(b"x".to_vec()), qos: None, props: vec![RProp::Resp("b/c".into()), RProp::Corr(vec![1])] }),
        Ev::Cmd(Cmd::Sub("a".into(), 0)),
        Ev::Cmd(Cmd::Sub("a".into(), 1)),
        Ev::Cmd(Cmd::Sub("b/c".into(), 1)),
        Ev::Cmd(Cmd::Sub("#".into(), 2)),
        Ev::Cmd(Cmd::Unsub("a".into())),
        Ev::Cmd(Cmd::Unsub("b/c".into())),
        inp("a", "x", 0, false, false, 0),
        inp("a", "x", 1, false, false, 1),
        inp("a", "x", 1, true, false, 1),
        inp("a", "x", 1, false, true, 2),
        inp("a", "y", 1, false, false, 1),
        inp("b/c", "x", 0, false, true, 0),
        inp("b/c", "", 1, false, false, 3),
        Ev::Srv("PUBLISH", publish(false, 1, false, "a", 65535, &[RProp::Resp("b/c".into()), RProp::Corr(vec![1])], b"x")),
        Ev::Srv("PUBACK 1", puback(1)),
        Ev::Srv("PUBACK 2, no subscribers", puback_r(2, 0x10)),
        Ev::Srv("SUBACK 1", suback(1, 1, &[])),
        Ev::Srv("SUBACK 2 refusing", suback(2, 0x87, &[])),
        Ev::Srv("UNSUBACK 1", unsuback(1, 0, &[])),
        Ev::Srv("UNSUBACK 2 refusing", unsuback(2, 0x11, &[])),
        Ev::Srv("SUBACK 0xFFFF", suback(0xFFFF, 0, &[])),
        Ev::Srv("PINGRESP", pingresp()),
        Ev::AckOldest,
        Ev::AckNewest,
        Ev::AckErr,
        Ev::AckDup,
        Ev::Tick(1000),
        Ev::Tick(8000),
        Ev::Pong,
        Ev::Clone,
        Ev::CmdOnClone(cpub(1)),
        Ev::DropOne,
    ];
    if th {
        a.extend([Ev::Cmd(Cmd::Disc), Ev::Srv("DISCONNECT", disconnect(0)), Ev::Srv("DISCONNECT", disconnect(0x8B)), Ev::Eof]);
    }
    let a: Vec<_> = a.into_iter().map(|e| (e, 9)).collect();
    let f = |n: &str, depth| Fam::new(n, t, depth, a.clone());
    vec![
        f("recurring topics, payloads and identifiers", 4).defer(th as usize, 0).space(),
        f("recurring topics, payloads and identifiers: several at once", 3 + th as usize).defer(2, 1).space(),
    ]
}
