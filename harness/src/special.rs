//! Spaces that are not plain event families: products, floods, differential comparisons.
use crate::bytes::{self, Stage};
use crate::checks::*;
use crate::explore::*;
use crate::fam::*;
use crate::mqtt::*;
use crate::obs::*;
use crate::sess::*;
use crate::world::*;

pub fn hashed(x: impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------------------------ C02: the queue

/// Bursts around the capacity of the command queue, in every phase of a session.
pub fn queue(t: Tags, th: bool) -> Vec<Space> {
    let sizes: &'static [usize] = if th { &[1, 2, 50, 98, 99, 100, 101, 102, 103, 104, 110, 150] } else { &[1, 50, 99, 100, 101, 102, 105] };
    vec![space("bursts of commands around the queue size", move |cx| {
        let phase = cx.choose(5);
        let clones = [0usize, 1, 3][cx.choose(3)];
        let rounds = 1 + cx.choose(2);
        let mut d = Drive::new(cx, t);
        if phase == 0 {
            cx.w.borrow_mut().connect_mode = ConnMode::Wait;
        }
        d.settle()?;
        if phase >= 2 {
            d.srv(&connack(false, 0, &[]));
            d.settle()?;
        }
        for _ in 0..clones {
            d.s.clone_handle();
        }
        let mut n = 0;
        for r in 0..rounds {
            match phase {
                3 => {
                    d.s.with(|c| c.set_wmode(WMode::Quota(7)));
                }
                4 => {
                    d.s.draining = false;
                    let mut b = vec![];
                    for i in 0..110u16 {
                        b.extend(publish(false, (i % 2) as u8, false, "p", i + 1, &[], b""));
                    }
                    d.srv(&b);
                    d.settle()?;
                }
                _ => {}
            }
            let k = sizes[cx.choose(sizes.len())];
            let spread = cx.choose(2) == 1;
            cx.note(|| format!("phase {phase}, {clones} clones, burst of {k}{}", if spread { " over all handles" } else { "" }));
            for i in 0..k {
                n += 1;
                let c = match n % 5 {
                    0 => csub(),
                    3 => Cmd::Pub { topic: "q1".into(), payload: Pay::Text(n.to_string()), qos: Some(1), props: vec![] },
                    _ => cpubn(n),
                };
                d.s.cmd(if spread { i % (clones + 1) } else { 0 }, &c);
                cx.events += 1;
            }
            if phase == 0 && r == 0 {
                d.s.with(|c| c.accept());
                d.settle()?;
            }
            if phase <= 1 && r == 0 {
                d.settle()?;
                d.srv(&connack(false, 0, &[]));
            }
            d.settle()?;
            d.epilogue()?;
            cx.state(d.o.hash(&d.s));
        }
        let m = d.o.outs.len();
        cx.note(|| format!("=> {m} packets written, {} calls refused", d.s.rejected));
        Ok(())
    })]
}

// ------------------------------------------------------------------------------ C03: handshake

fn first_answers() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for (r, n) in CONNACK_REASONS {
        v.push((format!("CONNACK {n}"), connack(false, *r, &[])));
    }
    v.push(("CONNACK with session present".into(), connack(true, 0, &[])));
    v.push(("CONNACK with properties".into(), connack(false, 0, &[RProp::User("k".into(), "v".into()), RProp::Reason("r".into())])));
    v.push(("CONNACK refusing with properties".into(), connack(false, 0x8A, &[RProp::Reason("banned".into())])));
    v.push(("CONNACK of unknown reason".into(), connack(false, 0x44, &[])));
    v.push(("CONNACK with reserved flags".into(), vec![0x20, 3, 2, 0, 0]));
    v.push(("CONNACK cut short".into(), vec![0x20, 2, 0, 0]));
    v.push(("CONNACK of one byte".into(), vec![0x20, 1, 0]));
    v.push(("empty CONNACK".into(), vec![0x20, 0]));
    v.push(("CONNACK with unknown property".into(), vec![0x20, 5, 0, 0, 2, 0x7E, 0]));
    v.push(("SUBACK".into(), suback(1, 0, &[])));
    v.push(("UNSUBACK".into(), unsuback(1, 0, &[])));
    v.push(("PUBACK".into(), puback(1)));
    v.push(("PUBLISH QoS 0".into(), publish(false, 0, false, "t", 0, &[], b"x")));
    v.push(("PUBLISH QoS 1".into(), publish(false, 1, false, "t", 9, &[], b"x")));
    v.push(("PINGRESP".into(), pingresp()));
    v.push(("DISCONNECT".into(), disconnect(0)));
    v.push(("DISCONNECT busy".into(), disconnect(0x89)));
    v.push(("CONNECT".into(), frame(0x10, &[0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 8, 0, 0, 0])));
    v.push(("PINGREQ".into(), vec![0xC0, 0]));
    v.push(("AUTH".into(), vec![0xF0, 0]));
    v.push(("PUBREC".into(), vec![0x50, 2, 0, 1]));
    v.push(("packet type zero".into(), vec![0, 0]));
    v.push(("bad length prefix".into(), vec![0x20, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF]));
    v.push(("text".into(), b"HTTP/1.1 400 Bad Request\r\n\r\n".to_vec()));
    v.push(("nothing".into(), vec![]));
    v
}

pub fn handshake(t: Tags, th: bool) -> Vec<Space> {
    let mut v = vec![];
    v.push(space("connection attempts that fail or hang", move |cx| {
        let fail = cx.choose(2) == 1;
        {
            let mut w = cx.w.borrow_mut();
            w.connect_mode = if fail { ConnMode::Fail } else { ConnMode::Wait };
        }
        let before = cx.choose(3);
        let kind = KINDS[cx.choose(KINDS.len())];
        cx.w.borrow_mut().err_kind = Some(kind);
        cx.note(|| format!("{} with {before} commands before, {kind:?}", if fail { "refused" } else { "no answer" }));
        let mut d = Drive::new(cx, t | END);
        for i in 0..before {
            d.s.cmd(0, &cpubn(i));
        }
        d.settle()?;
        d.tick(10_000)?;
        d.settle()?;
        if !fail {
            let late_fail = cx.choose(2) == 1;
            d.s.with(|c| {
                if late_fail {
                    c.accept();
                    c.mode = ConnMode::Fail;
                } else {
                    c.accept();
                }
            });
            d.settle()?;
        }
        cx.events += 2;
        cx.state(d.o.hash(&d.s));
        Ok(())
    }));
    v.push(space("servers given in every way, by up to four addresses, each of which answers, refuses or takes its time", move |cx| {
        let way = cx.choose(9);
        let n = if way > 4 { way - 4 } else { 1 };
        // at once, refused, late, refused late
        let fate: Vec<usize> = (0..n).map(|_| cx.choose(4)).collect();
        let kind = KINDS[cx.choose(KINDS.len())];
        let cmds = cx.choose(2);
        let ip = [127, 0, 0, 1];
        let all: &'static [std::net::SocketAddr] = {
            static A: std::sync::OnceLock<Vec<std::net::SocketAddr>> = std::sync::OnceLock::new();
            A.get_or_init(|| (0..4).map(|i| std::net::SocketAddr::from((ip, 2000 + i))).collect())
        };
        let to = match way {
            0 => To::Addr(all[0]),
            1 => To::Text("127.0.0.1:2000".into()),
            2 => To::Str("127.0.0.1:2000"),
            3 => To::Host("127.0.0.1", 2000),
            4 => To::Ip(ip.into(), 2000),
            _ => To::Many(&all[..n]),
        };
        cx.note(|| format!("way {way}, fates {fate:?}, {kind:?}"));
        {
            let mut w = cx.w.borrow_mut();
            w.err_kind = Some(kind);
            w.connect_mode = ConnMode::Fail;
            w.ports = fate.iter().enumerate().map(|(i, f)| (2000 + i as u16, [ConnMode::Now, ConnMode::Fail, ConnMode::Wait, ConnMode::Wait][*f])).collect();
        }
        let mut s = Sess::elsewhere(&cx.w, &to);
        if cmds == 1 {
            s.cmd(0, &csub());
        }
        s.settle();
        let mut decided = std::collections::HashSet::new();
        loop {
            // what takes its time is decided sooner or later
            let Some(i) = cx.w.borrow().conns.iter().position(|c| c.mode == ConnMode::Wait) else { break };
            if !decided.insert(i) || s.end.is_some() {
                break;
            }
            advance(&cx.w, 3000);
            s.settle();
            let mut w = cx.w.borrow_mut();
            let c = &mut w.conns[i];
            match fate[c.addr.port() as usize - 2000] {
                2 => c.accept(),
                _ => c.refuse(),
            }
            drop(w);
            s.settle();
        }
        cx.events += n as u64;
        let up = cx.w.borrow().conns.iter().position(|c| c.connected);
        let hope = fate.iter().any(|f| f % 2 == 0);
        match (up, hope) {
            (None, true) => return viol("HS", format!("the server can be reached, result {:?}", s.end)),
            (Some(_), false) => return viol("HS", "connected to somewhere else".to_string()),
            (None, false) => {
                return match s.end {
                    Some(End::Err(..)) => Ok(()),
                    ref e => viol("HS", format!("no connection, result {e:?}")),
                }
            }
            _ => {}
        }
        s.conn = up;
        if cx.w.borrow().conns.iter().filter(|c| c.connected && !c.closed).count() > 1 {
            return viol("HS", "more than one connection".to_string());
        }
        let mut d = Drive { s, o: Obs::new(), tags: t | END, step: 500, rest: vec![] };
        d.settle()?;
        d.srv(&connack(false, 0, &[]));
        d.settle()?;
        d.s.cmd(0, &cpub(1));
        d.settle()?;
        cx.state(d.o.hash(&d.s));
        Ok(())
    }));
    let ans = first_answers();
    let ends = 4;
    v.push(space(format!("{} first answers, cut at every byte, each kind of end, commands waiting", ans.len()), move |cx| {
        let (name, b) = &ans[cx.choose(ans.len())];
        let cut = cx.choose(b.len() + 1);
        let end = cx.choose(ends);
        let bytewise = cx.choose(2) == 1;
        let early = cx.choose(2);
        let late = if th { cx.choose(3) } else { cx.choose(2) };
        let kind = KINDS[if end == 2 { cx.choose(KINDS.len()) } else { 0 }];
        cx.note(|| format!("{name}: {cut} of {} bytes{}, {early} commands before, {late} after, end {end}", b.len(), if bytewise { " one by one" } else { "" }));
        let mut d = Drive::new(cx, t);
        for i in 0..early {
            d.s.cmd(0, &cpubn(i));
        }
        d.settle()?;
        if bytewise {
            for x in &b[..cut] {
                d.srv(&[*x]);
                d.settle()?;
            }
        } else {
            d.srv(&b[..cut]);
            if end == 0 {
                d.settle()?;
            }
        }
        for i in 0..late {
            d.s.cmd(0, &Cmd::Sub(format!("s{i}"), 0));
        }
        match end {
            0 => {
                d.tick(9000)?;
            }
            1 => {
                d.o.env_eof = true;
                d.s.with(|c| c.push(Seg::Eof));
            }
            2 => {
                d.o.env_err = true;
                d.s.with(|c| c.push(Seg::Err(kind)));
            }
            _ => {
                // more follows at once
                d.srv(&publish(false, 1, false, "m", 5, &[], b"x"));
            }
        }
        d.s.settled = false;
        cx.events += 3;
        d.settle()?;
        cx.note(|| format!("=> {:?}", d.s.end));
        cx.state(d.o.hash(&d.s));
        Ok(())
    }));
    let seeds = bytes::seeds(Stage::Handshake);
    v.push(space(format!("every single-byte substitution in {} first packets", seeds.len()), move |cx| {
        let mut p = seeds[cx.choose(seeds.len())].clone();
        let i = cx.choose(p.len());
        p[i] = cx.choose(256) as u8;
        bytes::deliver(cx, Stage::Handshake, &p, t)
    }));
    v.push(bytes::tiny(Stage::Handshake, t));
    v.push(space("every CONNACK flags and reason byte", move |cx| {
        let f = cx.choose(256) as u8;
        let r = cx.choose(256) as u8;
        bytes::deliver(cx, Stage::Handshake, &[0x20, 3, f, r, 0], t)
    }));
    v
}

// ------------------------------------------------------------------------------ C06

pub fn spurious_all(t: Tags) -> Space {
    space("unexpected acknowledgements for every identifier", move |cx| {
        let kind = [4u8, 9, 11][cx.choose(3)];
        let hi = cx.choose(256) as u16;
        let state = cx.choose(3);
        let mut d = Drive::open(cx, t)?;
        for i in 0..[0usize, 3, 5][state] {
            d.s.cmd(0, &crate::ids::req(i % 3, i));
        }
        d.settle()?;
        if state == 2 {
            // a hole in the middle
            let pid = d.o.order.values().nth(1).copied().unwrap();
            let b = crate::ids::acks_for(&d, [pid].into_iter());
            d.srv(&b);
            d.settle()?;
        }
        cx.note(|| format!("packet type {kind}, identifiers {:#x}..", hi << 8));
        for lo in 0..256u16 {
            let pid = hi << 8 | lo;
            if pid == 0 || d.o.outstanding.contains_key(&pid) {
                continue;
            }
            cx.events += 1;
            let b = d.ack(pid, kind, lo % 2 == 0);
            d.srv(&b);
        }
        d.settle()?;
        for i in 0..8 {
            d.s.cmd(0, &crate::ids::req(i % 3, i));
            d.settle()?;
        }
        cx.state(d.o.hash(&d.s));
        Ok(())
    })
}

// ------------------------------------------------------------------------------ C07, C11: bytes

const ALPHA: &[u8] = &[0, 1, 2, 3, 5, 0x08, 0x09, 0x1F, 0x26, 0x41, 0x80, 0xFF];

pub fn byte_spaces(t: Tags, th: bool) -> Vec<Space> {
    use Stage::*;
    let p = th as usize;
    let mut v = vec![bytes::tiny(Handshake, t), bytes::tiny(Open, t)];
    v.push(bytes::two(Handshake, if th { bytes::TYPES } else { &[0x20] }, t));
    v.push(bytes::two(Open, if th { bytes::TYPES } else { &[0x40, 0x90, 0xB0, 0xE0] }, t));
    v.push(bytes::bodies(Handshake, 0x20, &[0, 0], ALPHA, 0, 4 + p, t));
    v.push(bytes::bodies(Open, 0x30, &[0, 1, b't'], ALPHA, 0, 4 + p, t));
    v.push(bytes::bodies(Open, 0x30, &[], ALPHA, 0, 4 + p, t));
    v.push(bytes::bodies(Open, 0x32, &[0, 1, b't'], ALPHA, 0, 5, t));
    v.push(bytes::bodies(Open, 0x40, &[0, 1], ALPHA, 0, 4 + p, t));
    v.push(bytes::bodies(Open, 0x90, &[0, 1], ALPHA, 0, 4 + p, t));
    v.push(bytes::bodies(Open, 0xB0, &[0, 1], ALPHA, 0, 4 + p, t));
    v.push(bytes::bodies(Open, 0xE0, &[], ALPHA, 0, 4 + p, t));
    v.push(bytes::prefixes(Handshake, t));
    v.push(bytes::prefixes(Open, t));
    v.push(bytes::substitutions(Handshake, t));
    v.push(bytes::substitutions(Open, t));
    v.push(bytes::edits(Handshake, t));
    v.push(bytes::edits(Open, t));
    v.push(bytes::double_subst(Handshake, t));
    v.push(bytes::double_subst(Open, t));
    v.push(utf8(t));
    if th {
        v.push(bytes::sizes(t, true));
    }
    v
}

/// Every sequence of two bytes, and chosen longer ones, wherever a string is expected.
fn utf8(t: Tags) -> Space {
    const EDGE: &[u8] = &[0x00, 0x7F, 0x80, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF, 0x9F, 0xA0, 0x8F, 0x90];
    space("string contents: every 1- and 2-byte text, 3- and 4-byte texts over the UTF-8 boundaries, in every field", move |cx| {
        let s: Vec<u8> = match cx.choose(4) {
            0 => vec![cx.choose(256) as u8],
            1 => vec![0xC0 + cx.choose(64) as u8, EDGE[cx.choose(EDGE.len())]],
            2 => (0..3).map(|_| EDGE[cx.choose(EDGE.len())]).collect(),
            _ => vec![[0xF0, 0xF1, 0xF4, 0xF5][cx.choose(4)], EDGE[cx.choose(EDGE.len())], 0x80 + cx.choose(2) as u8 * 0x40, [0x80, 0xBF, 0x41][cx.choose(3)]],
        };
        let sect = |id: u8, parts: &[&[u8]]| {
            let mut b = vec![id];
            for p in parts {
                b.extend((p.len() as u16).to_be_bytes());
                b.extend_from_slice(p);
            }
            let mut v = vbi(b.len());
            v.extend(b);
            v
        };
        let pubwith = |topic: &[u8], props: Vec<u8>, payload: &[u8]| {
            let mut b = (topic.len() as u16).to_be_bytes().to_vec();
            b.extend_from_slice(topic);
            b.extend([0, 7]);
            b.extend(props);
            b.extend_from_slice(payload);
            frame(0x32, &b)
        };
        let p = match cx.choose(8) {
            0 => pubwith(&s, vec![0], b"x"),
            1 => pubwith(b"t", sect(0x08, &[&s]), b"x"),
            2 => pubwith(b"t", sect(0x26, &[&s, b"v"]), b"x"),
            3 => pubwith(b"t", sect(0x26, &[b"k", &s]), b"x"),
            4 => pubwith(b"t", vec![2, 1, 1], &s),
            5 => {
                let mut b = vec![0, 3];
                b.extend(sect(0x1F, &[&s]));
                b.push(0);
                frame(0x90, &b)
            }
            6 => {
                let mut b = vec![0, 3, 0];
                b.extend(sect(0x26, &[b"k", &s]));
                frame(0x40, &b)
            }
            _ => {
                let mut b = vec![0, 3];
                b.extend(sect(0x26, &[&s, b""]));
                b.push(0);
                frame(0xB0, &b)
            }
        };
        bytes::deliver(cx, Stage::Open, &p, t)
    })
}

/// A stream that stops inside a packet.
pub fn cut_off(t: Tags, th: bool) -> Vec<Space> {
    let mut v = vec![];
    for stage in [Stage::Handshake, Stage::Open] {
        let seeds = bytes::seeds(stage);
        v.push(space(format!("{} packets cut at every byte, then the connection ends, {stage:?}", seeds.len()), move |cx| {
            let p = &seeds[cx.choose(seeds.len())];
            let cut = cx.choose(p.len());
            let err = [None, Some(KINDS[0]), Some(KINDS[1]), Some(KINDS[2]), Some(std::io::ErrorKind::UnexpectedEof), Some(std::io::ErrorKind::Other)][cx.choose(6)];
            let lead = cx.choose(2 + th as usize);
            let sep = cx.choose(2) == 1;
            cx.note(|| format!("{stage:?}: {cut} of {} bytes, then {}", p.len(), err.map_or("the end".into(), |k| format!("{k:?}"))));
            let mut d = match stage {
                Stage::Handshake => {
                    let mut d = Drive::new(cx, t);
                    d.settle()?;
                    d
                }
                Stage::Open => Drive::open(cx, t)?,
            };
            let mut b = vec![];
            if stage == Stage::Open {
                for i in 0..lead {
                    b.extend(bytes::marker(i as u8));
                }
            }
            b.extend_from_slice(&p[..cut]);
            d.srv(&b);
            if sep {
                d.settle()?;
            }
            if err.is_some() {
                d.o.env_err = true;
            } else {
                d.o.env_eof = true;
            }
            d.s.with(|c| c.push(err.map_or(Seg::Eof, Seg::Err)));
            d.s.settled = false;
            cx.events += 2;
            d.settle()?;
            cx.state(d.o.hash(&d.s));
            Ok(())
        }));
    }
    v
}

// ------------------------------------------------------------------------------ C08: chunking

#[derive(Clone, PartialEq, Debug)]
pub struct Seen {
    notifs: Vec<Notif>,
    acks: Vec<(u16, u8)>,
    cmds: Vec<OutPkt>,
    end: u8,
    connect: bool,
}

/// Feed the pieces; `settle`: let the session come to rest after each of them.
fn feed(w: &W, pieces: &[&[u8]], settle: bool, eof: bool) -> (Seen, Drive) {
    feed_with(w, pieces, settle, eof, &mut |_, _| {})
}

/// `gap(d, i)` happens after the i-th piece; the last one (usize::MAX) when all is over.
fn feed_with(w: &W, pieces: &[&[u8]], settle: bool, eof: bool, gap: &mut dyn FnMut(&mut Drive, usize)) -> (Seen, Drive) {
    let mut d = Drive { s: Sess::new(w, 0), o: Obs::new(), tags: 0, step: 500, rest: vec![] };
    let _ = d.settle();
    for i in 0..2 {
        d.s.cmd(0, &crate::ids::req(i, i));
    }
    d.s.settle();
    for (i, p) in pieces.iter().enumerate() {
        d.srv(p);
        if settle {
            d.s.settle();
        }
        gap(&mut d, i);
    }
    d.s.settle();
    gap(&mut d, usize::MAX);
    d.s.settle();
    if eof && d.s.end.is_none() {
        d.o.env_eof = true;
        d.s.with(|c| c.push(Seg::Eof));
        d.s.settle();
    }
    d.o.update(&d.s);
    let mut s = Seen { notifs: d.s.notifs.clone(), acks: vec![], cmds: vec![], end: 0, connect: false };
    for (_, _, p) in &d.o.outs {
        match p {
            OutPkt::Puback { pid, reason } => s.acks.push((*pid, *reason)),
            OutPkt::Connect { .. } => s.connect = true,
            OutPkt::Pingreq => {}
            // which identifier is free depends on whether an acknowledgement was read before the
            // command was taken: the identifiers are a matter of C04
            OutPkt::Publish { dup, qos, retain, topic, pid, props, payload } => {
                s.cmds.push(OutPkt::Publish { dup: *dup, qos: *qos, retain: *retain, topic: topic.clone(), pid: pid.map(|_| 0), props: props.clone(), payload: payload.clone() })
            }
            OutPkt::Subscribe { filters, .. } => s.cmds.push(OutPkt::Subscribe { pid: 0, filters: filters.clone() }),
            OutPkt::Unsubscribe { filters, .. } => s.cmds.push(OutPkt::Unsubscribe { pid: 0, filters: filters.clone() }),
            p => s.cmds.push(p.clone()),
        }
    }
    s.end = match &d.s.end {
        None => 0,
        Some(End::Ok) => 1,
        Some(End::Err(..)) => 2,
        Some(End::Panic(_)) => 3,
        Some(End::Spin(_)) => 4,
    };
    (s, d)
}

fn streams() -> Vec<(&'static str, Vec<u8>)> {
    let ca = connack(false, 0, &[]);
    let with = |parts: &[Vec<u8>]| {
        let mut v = ca.clone();
        for p in parts {
            v.extend_from_slice(p);
        }
        v
    };
    let big: Vec<u8> = (0..150).map(|i| i as u8).collect();
    vec![
        ("CONNACK alone", ca.clone()),
        ("CONNACK, QoS 1 message", with(&[publish(false, 1, false, "a", 1, &[], b"x")])),
        ("CONNACK, QoS 0 message, PINGRESP", with(&[publish(false, 0, false, "a", 0, &[], b""), pingresp()])),
        ("CONNACK, SUBACK", with(&[suback(1, 0, &[])])),
        ("CONNACK, PUBACK, DISCONNECT", with(&[puback(2), disconnect(0x8B)])),
        ("CONNACK, DISCONNECT of zero length", with(&[disconnect(0)])),
        ("CONNACK, malformed message", with(&[vec![0x30, 3, 0, 9, b'a']])),
        ("CONNACK, bad length prefix", with(&[vec![0x30, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F]])),
        ("CONNACK, packet type zero", with(&[vec![0, 1, 0]])),
        ("refusing CONNACK with reason", connack(false, 0x87, &[RProp::Reason("n".into())])),
        ("CONNACK with properties", connack(false, 0, &[RProp::User("k".into(), "v".into()), RProp::Reason("r".into())])),
        ("not a CONNACK", vec![0xD0, 0, 0x30, 0]),
        ("message of 150 bytes", with(&[publish(false, 1, false, "t", 7, &[RProp::Expiry(1)], &big), puback(1)])),
        (
            "everything",
            with(&[
                publish(false, 1, false, "t/1", 0x0100, &[RProp::Pfi(1), RProp::User("k".into(), "v".into())], "h\u{e9}".as_bytes()),
                suback(1, 0, &[RProp::Reason("ok".into())]),
                unsuback(2, 0x11, &[]),
                puback_p(9, 0x10, &[RProp::User("a".into(), "b".into())]),
                pingresp(),
                publish(true, 1, true, "t/2", 0x00FF, &[RProp::Corr(vec![1, 2]), RProp::Resp("r".into())], &[0xFF]),
                disconnect_p(0x8E, &[RProp::Reason("gone".into())]),
            ]),
        ),
        ("two hundred messages", with(&(0..60).map(|i| publish(false, (i % 2) as u8, false, "m", i + 1, &[], &[i as u8])).collect::<Vec<_>>())),
        ("length prefix of 2 bytes, padded", with(&[vec![0x30, 0x84, 0x00, 0, 1, b'a', 0]])),
    ]
}

fn cut<'a>(bytes: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut pieces = vec![];
    let mut at = 0;
    for c in cuts {
        pieces.push(&bytes[at..*c]);
        at = *c;
    }
    pieces.push(&bytes[at..]);
    pieces
}

fn diff(cx: &mut Ctx, name: &str, bytes: &[u8], cuts: &[usize], settle: bool, eof: bool) -> Result<(), Viol> {
    let w = cx.w.clone();
    w.borrow_mut().conns.clear();
    let (whole, _) = feed(&w, &[bytes], true, eof);
    {
        let mut w = w.borrow_mut();
        w.conns.clear();
        w.idle = 0;
    }
    let (split, d) = feed(&w, &cut(bytes, cuts), settle, eof);
    cx.note(|| format!("{name}: {} bytes cut at {:?}{}: {} notifications, {} acknowledgements, end {}", bytes.len(), &cuts[..cuts.len().min(20)], if settle { "" } else { " (all at once)" }, split.notifs.len(), split.acks.len(), split.end));
    compare(cx, name, cuts, whole, split, d, settle)
}

fn compare(cx: &mut Ctx, name: &str, cuts: &[usize], mut whole: Seen, mut split: Seen, d: Drive, settle: bool) -> Result<(), Viol> {
    cx.events += cuts.len() as u64 + 1;
    cx.state(hashed((name, cuts, settle, d.o.hash(&d.s))));
    // how far the commands got before the end depends on time alone, and is a matter of C02
    if whole.end != 0 && (whole.cmds.starts_with(&split.cmds) || split.cmds.starts_with(&whole.cmds)) {
        whole.cmds.clear();
        split.cmds.clear();
    }
    if whole != split {
        let what = if whole.notifs != split.notifs {
            format!("notifications {} / {}: {:?}", whole.notifs.len(), split.notifs.len(), split.notifs.iter().zip(&whole.notifs).find(|(a, b)| a != b).map(|x| clip(&format!("{x:?}"))))
        } else if whole.acks != split.acks {
            format!("acknowledgements {:?} / {:?}", clip(&format!("{:?}", whole.acks)), clip(&format!("{:?}", split.acks)))
        } else if whole.end != split.end {
            format!("outcome {} / {} (0 open, 1 success, 2 error, 3 panic, 4 spin), {:?}", whole.end, split.end, d.s.end)
        } else {
            format!("commands {} / {}", whole.cmds.len(), split.cmds.len())
        };
        return viol("CHUNK", format!("{name}: in one read / cut at {:?}: {what}", &cuts[..cuts.len().min(20)]));
    }
    if whole.end >= 3 {
        return viol("CHUNK", format!("{name}: the event loop panicked or span"));
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Gap {
    Publish,
    Subscribe,
    Ms(u64),
    Blocked,
    Paused,
    Repoll,
    Clones,
    NoHandles,
    NoReceiver,
}
const GAPS: [Gap; 14] = [
    Gap::Publish,
    Gap::Subscribe,
    Gap::Ms(1),
    Gap::Ms(100),
    Gap::Ms(1000),
    Gap::Ms(5000),
    Gap::Ms(8000),
    Gap::Ms(15_000),
    Gap::Blocked,
    Gap::Paused,
    Gap::Repoll,
    Gap::Clones,
    Gap::NoHandles,
    Gap::NoReceiver,
];

fn do_gap(d: &mut Drive, g: Gap, n: usize) {
    match g {
        Gap::Publish => {
            d.s.cmd(0, &crate::ids::req(n, 0));
        }
        Gap::Subscribe => {
            d.s.cmd(0, &csub());
        }
        Gap::Ms(t) => {
            let _ = d.tick(t);
        }
        Gap::Blocked => {
            d.s.with(|c| c.set_wmode(WMode::Quota(0)));
        }
        Gap::Paused => d.s.draining = false,
        Gap::Repoll => {
            d.s.poll_once();
            d.s.settled = false;
        }
        Gap::Clones => {
            d.s.clone_handle();
            *d.s.clients.last_mut().unwrap() = None;
        }
        Gap::NoHandles => d.s.clients.iter_mut().for_each(|c| *c = None),
        Gap::NoReceiver => d.s.rx = None,
    }
    if !matches!(g, Gap::NoHandles) || d.s.clients[0].is_some() {
        d.s.settle();
    }
}

/// The same with something else happening between the reads (`at`: in which gap, or in all).
fn diff_gap(cx: &mut Ctx, name: &str, bytes: &[u8], cuts: &[usize], g: Gap, at: Option<usize>, eof: bool) -> Result<(), Viol> {
    let n = if at.is_some() { 1 } else { cuts.len() };
    if let Gap::Ms(t) = g {
        if t * n as u64 > 15_000 {
            cx.trivial = true;
            return Ok(());
        }
    }
    if matches!(g, Gap::Publish | Gap::Subscribe) && n > 50 {
        cx.trivial = true;
        return Ok(());
    }
    let w = cx.w.clone();
    w.borrow_mut().conns.clear();
    let over = |d: &mut Drive| {
        if g == Gap::Blocked {
            d.s.with(|c| c.set_wmode(WMode::Open));
        }
        d.s.draining = true;
    };
    let (mut whole, _) = feed_with(&w, &[bytes], true, eof, &mut |d, i| {
        if i == 0 {
            for k in 0..n {
                do_gap(d, g, k);
            }
        } else {
            over(d);
        }
    });
    {
        let mut w = w.borrow_mut();
        w.conns.clear();
        w.idle = 0;
    }
    let (mut split, d) = feed_with(&w, &cut(bytes, cuts), true, eof, &mut |d, i| {
        if i == usize::MAX {
            over(d);
        } else if i < cuts.len() && at.map_or(true, |a| a == i) {
            do_gap(d, g, if at.is_some() { 0 } else { i });
        }
    });
    if g == Gap::NoReceiver {
        whole.notifs.clear();
        split.notifs.clear();
    }
    cx.note(|| format!("{name}: {} bytes cut at {:?}, {g:?} between: {} notifications, {} acknowledgements, end {}", bytes.len(), &cuts[..cuts.len().min(20)], split.notifs.len(), split.acks.len(), split.end));
    compare(cx, &format!("{name}, {g:?} between"), cuts, whole, split, d, true)
}

pub fn chunking(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let all = streams();
    let full = if th { 17 } else { 14 };
    let short: Vec<_> = all.iter().filter(|s| s.1.len() <= full).cloned().collect();
    v.push(space(format!("{} streams of up to {full} bytes: every division into reads", short.len()), move |cx| {
        let (n, b) = &short[cx.choose(short.len())];
        let settle = cx.choose(2) == 0;
        let eof = cx.choose(2) == 1;
        let cuts: Vec<usize> = (1..b.len()).filter(|_| cx.choose(2) == 1).collect();
        diff(cx, n, b, &cuts, settle, eof)
    }));
    let long = all.clone();
    v.push(space(format!("{} streams: every division into up to 3 reads, and byte by byte", long.len()), move |cx| {
        let (n, b) = &long[cx.choose(long.len())];
        let settle = cx.choose(2) == 0;
        let eof = cx.choose(2) == 1;
        let mut cuts = vec![];
        match cx.choose(if b.len() > 200 && !th { 3 } else { 4 }) {
            0 => cuts = (1..b.len()).collect(),
            1 => {
                let k = 2 + cx.choose(7);
                cuts = (1..b.len()).step_by(k).collect();
            }
            2 => cuts.push(1 + cx.choose(b.len() - 1)),
            _ => {
                let i = 1 + cx.choose(b.len() - 1);
                let j = i + cx.choose(b.len() - i);
                cuts.push(i);
                if j > i {
                    cuts.push(j);
                }
            }
        }
        diff(cx, n, b, &cuts, settle, eof)
    }));
    v.push(space("large packets: cuts near the header, the ends and the buffer sizes", move |cx| {
        let n = [126usize, 127, 128, 1000, 4000, 8190, 8192, 8193, 16383, 16384, 40000, 70000][cx.choose(12)];
        let mut b = connack(false, 0, &[]);
        let start = b.len();
        b.extend(publish(false, 1, false, "big", 5, &[], &(0..n).map(|i| (i % 251) as u8).collect::<Vec<_>>()));
        let end = b.len();
        b.extend(publish(false, 1, false, "after", 6, &[], b"y"));
        b.extend(puback(1));
        let mut pts: Vec<usize> = (start - 2..start + 14).chain(end - 3..end + 8).collect();
        for m in [1024usize, 4096, 8192, 16384, 32768, 65536] {
            for x in [m - 1, m, m + 1, start + m] {
                if x < b.len() {
                    pts.push(x);
                }
            }
        }
        pts.retain(|x| *x < b.len());
        pts.sort();
        pts.dedup();
        let settle = cx.choose(2) == 0;
        let i = cx.choose(pts.len());
        let j = cx.choose(pts.len());
        if j < i {
            cx.trivial = true;
            return Ok(());
        }
        let cuts = if i == j { vec![pts[i]] } else { vec![pts[i], pts[j]] };
        diff(cx, &format!("message of {n} bytes"), &b, &cuts, settle, false)
    }));
    let seeds = bytes::seeds(Stage::Open);
    v.push(space(format!("each of {} packets after a message: every single cut, every byte", seeds.len()), move |cx| {
        let mut b = connack(false, 0, &[]);
        b.extend(bytes::marker(1));
        b.extend_from_slice(&seeds[cx.choose(seeds.len())]);
        b.extend(bytes::marker(2));
        let eof = cx.choose(2) == 1;
        let settle = cx.choose(2) == 0;
        let k = cx.choose(b.len());
        let cuts = if k == 0 { (1..b.len()).collect() } else { vec![k] };
        diff(cx, "packet between messages", &b, &cuts, settle, eof)
    }));
    let seeds = bytes::seeds(Stage::Open);
    v.push(space("malformed neighbours: every single-byte substitution, whole or byte by byte or cut in the middle", move |cx| {
        let mut p = seeds[cx.choose(seeds.len())].clone();
        let i = cx.choose(p.len());
        const V: &[u8] = &[0, 1, 2, 3, 4, 5, 0x0F, 0x1F, 0x20, 0x26, 0x30, 0x7F, 0x80, 0x81, 0xC0, 0xFE, 0xFF];
        p[i] = V[cx.choose(V.len())];
        let mut b = connack(false, 0, &[]);
        b.extend(bytes::marker(1));
        let at = b.len() + p.len() / 2;
        b.extend_from_slice(&p);
        b.extend(bytes::marker(2));
        let cuts = if cx.choose(2) == 0 { (1..b.len()).collect() } else { vec![at] };
        diff(cx, "mutated packet between messages", &b, &cuts, true, true)
    }));
    let with = all.clone();
    v.push(space("something else happens between the reads", move |cx| {
        let (n, b) = &with[cx.choose(with.len())];
        let g = GAPS[cx.choose(GAPS.len())];
        let eof = cx.choose(2) == 1;
        match cx.choose(3) {
            0 => {
                let k = 1 + cx.choose(b.len() - 1);
                diff_gap(cx, n, b, &[k], g, Some(0), eof)
            }
            1 => {
                let k = 1 + cx.choose(8);
                let cuts: Vec<usize> = (1..b.len()).step_by(k).collect();
                diff_gap(cx, n, b, &cuts, g, None, eof)
            }
            _ => {
                // in one of two gaps
                let i = 1 + cx.choose(b.len().min(60) - 1);
                let j = i + 1 + cx.choose(12);
                if j >= b.len() {
                    cx.trivial = true;
                    return Ok(());
                }
                let at = [None, Some(0), Some(1)][cx.choose(3)];
                diff_gap(cx, n, b, &[i, j], g, at, eof)
            }
        }
    }));
    let seeds = bytes::seeds(Stage::Open);
    v.push(space(format!("something else happens inside each of {} packets", seeds.len()), move |cx| {
        let mut b = connack(false, 0, &[]);
        b.extend(bytes::marker(1));
        let p = &seeds[cx.choose(seeds.len())];
        let k = b.len() + cx.choose(p.len() + 1);
        b.extend_from_slice(p);
        b.extend(bytes::marker(2));
        let g = GAPS[cx.choose(GAPS.len())];
        let eof = cx.choose(2) == 1;
        diff_gap(cx, "packet between messages", &b, &[k], g, Some(0), eof)
    }));
    let seeds = bytes::seeds(Stage::Open);
    v.push(space(format!("every pair of {} packets, cut everywhere or anywhere", seeds.len()), move |cx| {
        let mut b = connack(false, 0, &[]);
        b.extend_from_slice(&seeds[cx.choose(seeds.len())]);
        b.extend_from_slice(&seeds[cx.choose(seeds.len())]);
        b.extend(bytes::marker(2));
        let k = cx.choose(b.len());
        let settle = cx.choose(2) == 0;
        let cuts = if k == 0 { (1..b.len()).collect() } else { vec![k] };
        diff(cx, "pair of packets", &b, &cuts, settle, false)
    }));
    v.push(space("large packets in reads of equal size", move |cx| {
        let n = [200usize, 5000, 20_000, 70_000, 300_000, 1_500_000][cx.choose(6)];
        let seg = [1usize, 2, 3, 7, 64, 100, 536, 1024, 1460, 4095, 4096, 4097, 8191, 8192, 8193, 16_384, 65_535, 65_536, 131_072][cx.choose(19)];
        let first = cx.choose(4);
        let settle = cx.choose(2) == 0;
        if n / seg > if th { 200_000 } else { 20_000 } || seg > n {
            cx.trivial = true;
            return Ok(());
        }
        let mut b = connack(false, 0, &[]);
        b.extend(publish(false, 1, false, "big", 5, &[], &(0..n).map(|i| (i % 251) as u8).collect::<Vec<_>>()));
        b.extend(publish(false, 1, false, "after", 6, &[RProp::Pfi(1)], b"y"));
        b.extend(puback(1));
        b.extend(publish(false, 1, false, "big", 7, &[RProp::Pfi(1)], "\u{e9}".repeat(n / 4).as_bytes()));
        b.extend(suback(2, 0, &[]));
        let cuts: Vec<usize> = (0..b.len()).skip(first + 1).step_by(seg).collect();
        diff(cx, &format!("messages of {n} bytes in reads of {seg}"), &b, &cuts, settle, false)
    }));
    v.push(space("a thousand small packets in reads of equal size", move |cx| {
        let kind = cx.choose(6);
        let mut b = connack(false, 0, &[]);
        for i in 0..1000u16 {
            b.extend(match kind {
                0 => publish(false, 0, false, "m", 0, &[], &i.to_be_bytes()),
                1 => publish(false, 1, false, "m", i + 1, &[], &i.to_be_bytes()),
                2 => pingresp(),
                3 => puback(i + 1),
                4 => suback(i + 1, 0, &[]),
                _ => match i % 6 {
                    0 => publish(false, 0, false, "m", 0, &[RProp::User("k".into(), i.to_string())], &i.to_be_bytes()),
                    1 => publish(false, 1, false, "m", i + 1, &[RProp::Pfi(1)], i.to_string().as_bytes()),
                    2 => pingresp(),
                    3 => puback_p(i + 1, 0x10, &[RProp::Reason(i.to_string())]),
                    4 => suback(i + 1, 1, &[RProp::Reason(i.to_string())]),
                    _ => unsuback(i + 1, 0x11, &[]),
                },
            });
        }
        let n = 120;
        let seg = match cx.choose(n + 12) {
            k if k < n => k + 1,
            k => [128usize, 200, 256, 500, 512, 1000, 1024, 1460, 2048, 4096, 8191, 8192][k - n],
        };
        let first = cx.choose(3);
        let settle = cx.choose(2) == 0;
        let cuts: Vec<usize> = (0..b.len()).skip(first + 1).step_by(seg).collect();
        diff(cx, &format!("a thousand packets of kind {kind} in reads of {seg}"), &b, &cuts, settle, false)
    }));
    v
}

// ------------------------------------------------------------------------------ C09, C12: messages

pub fn every_pid(t: Tags) -> Space {
    space("a QoS 1 message for every identifier", move |cx| {
        let hi = cx.choose(256) as u16;
        let own = cx.choose(2) == 1;
        let mut d = Drive::open(cx, t)?;
        if own {
            for i in 0..4 {
                d.s.cmd(0, &crate::ids::req(i % 3, i));
            }
            d.settle()?;
        }
        cx.note(|| format!("identifiers {:#x}..", hi << 8));
        for lo in 0..256u16 {
            let pid = hi << 8 | lo;
            if pid > 0 {
                cx.events += 1;
                d.srv(&publish(false, 1, false, "t", pid, &[], &[lo as u8]));
                if lo % 16 == 0 {
                    d.settle()?;
                }
            }
        }
        d.settle()?;
        cx.state(d.o.hash(&d.s));
        Ok(())
    })
}

pub fn messages(t: Tags, th: bool) -> Vec<Space> {
    let kinds: Vec<Vec<u8>> = vec![
        publish(false, 0, false, "a", 0, &[], b"1"),
        publish(false, 0, true, "a", 0, &[RProp::Pfi(1)], b"2"),
        publish(false, 1, false, "b", 1, &[], b"3"),
        publish(true, 1, false, "b", 1, &[], b"3"),
        publish(true, 1, true, "c", 2, &[RProp::User("k".into(), "v".into()), RProp::User("k".into(), "v".into())], b""),
        suback(1, 0, &[]),
        puback(2),
        pingresp(),
    ];
    let n = if th { 5 } else { 4 };
    let mut v = vec![space(format!("every sequence of up to {n} packets of {} kinds, in one segment, in separate ones, or overlapping", kinds.len()), move |cx| {
        let k = 1 + cx.choose(n);
        let mode = cx.choose(3);
        let mut d = Drive::open(cx, t)?;
        let mut all = vec![];
        for _ in 0..k {
            let p = &kinds[cx.choose(kinds.len())];
            cx.events += 1;
            match mode {
                0 => all.extend_from_slice(p),
                1 => {
                    d.srv(p);
                    d.settle()?;
                }
                _ => {
                    // first half joins the previous segment, the second half waits
                    let m = p.len() / 2;
                    all.extend_from_slice(&p[..m]);
                    d.srv(&all);
                    d.settle()?;
                    all = p[m..].to_vec();
                }
            }
        }
        d.srv(&all);
        d.settle()?;
        cx.state(d.o.hash(&d.s));
        Ok(())
    })];
    v.push(space("legal properties the library does not know: PUBLISH", move |cx| {
        let (id, val): (u8, Vec<u8>) = [(0x23u8, vec![0, 1]), (0x0B, vec![1]), (0x03, vec![0, 1, b'c'])][cx.choose(3)].clone();
        let mut sect = vec![id];
        sect.extend(val);
        let mut b = vec![0, 1, b't', sect.len() as u8];
        b.extend(sect);
        b.push(b'x');
        unsupported(cx, Stage::Open, &frame(0x30, &b), &format!("C09-publish-property-{id:02x}"), t)
    }));
    v
}

/// A legal packet that the library is known to refuse: a finding if it is refused.
fn unsupported(cx: &mut Ctx, stage: Stage, p: &[u8], key: &str, t: Tags) -> Result<(), Viol> {
    cx.note(|| format!("{stage:?}: {p:02x?}"));
    let mut d = match stage {
        Stage::Open => Drive::open(cx, t)?,
        Stage::Handshake => {
            let mut d = Drive::new(cx, t);
            d.settle()?;
            d
        }
    };
    let before = d.s.notifs.len();
    d.srv(p);
    d.settle()?;
    cx.events += 1;
    cx.state(hashed(key));
    match &d.s.end {
        Some(End::Err(_, e)) => {
            let mut v = viol::<()>("REFUSED", format!("a well-formed packet ({key}) ends the session: {e}")).unwrap_err();
            v.key = key.into();
            Err(v)
        }
        None if d.s.notifs.len() == before + 1 => Ok(()),
        e => viol("REFUSED", format!("{key}: {e:?}, {} notifications", d.s.notifs.len() - before)),
    }
}

pub fn connack_properties(t: Tags) -> Space {
    let l: Vec<(u8, Vec<u8>)> = vec![
        (0x11, vec![0, 0, 0, 9]),
        (0x21, vec![0, 9]),
        (0x24, vec![1]),
        (0x25, vec![1]),
        (0x27, vec![0, 0, 1, 0]),
        (0x12, vec![0, 1, b'c']),
        (0x22, vec![0, 9]),
        (0x28, vec![1]),
        (0x29, vec![1]),
        (0x2A, vec![1]),
        (0x13, vec![0, 30]),
        (0x1A, vec![0, 1, b'i']),
        (0x1C, vec![0, 1, b's']),
        (0x15, vec![0, 1, b'm']),
        (0x16, vec![0, 1, 7]),
    ];
    space("legal properties the library does not know: CONNACK", move |cx| {
        let (id, val) = l[cx.choose(l.len())].clone();
        let mut b = vec![0, 0, 1 + val.len() as u8, id];
        b.extend(val);
        unsupported(cx, Stage::Handshake, &frame(0x20, &b), &format!("C10-connack-property-{id:02x}"), t)
    })
}

/// Hundreds of messages at once, with all kinds of consumers and sockets.
pub fn floods(t: Tags, th: bool) -> Space {
    space("floods of messages", move |cx| {
        let n = [150usize, 300, 1000][cx.choose(if th { 3 } else { 2 })];
        let consumer = cx.choose(4);
        let socket = cx.choose(3);
        let seg = [1usize, 7, 5000][cx.choose(3)];
        let mut d = Drive::open(cx, t)?;
        cx.note(|| format!("{n} messages, consumer {consumer}, socket {socket}, {seg} bytes per segment"));
        match consumer {
            1 => d.s.draining = false,
            2 => d.s.rx = None,
            _ => {}
        }
        match socket {
            1 => {
                d.s.with(|c| c.set_wmode(WMode::Max(1)));
            }
            2 => {
                d.s.with(|c| c.set_wmode(WMode::Quota(50)));
            }
            _ => {}
        }
        let mut b = vec![];
        for i in 0..n {
            b.extend(publish(false, (i % 3 != 0) as u8, false, "f", (i % 40 + 1) as u16, &[], &(i as u32).to_be_bytes()));
        }
        for c in b.chunks(seg) {
            d.srv(c);
            cx.events += 1;
            if consumer == 3 {
                d.s.draining = false;
                d.s.settle();
                d.s.drain(1);
            }
        }
        d.settle()?;
        d.s.cmd(0, &csub());
        d.settle()?;
        d.epilogue()?;
        cx.state(d.o.hash(&d.s));
        Ok(())
    })
}

// ------------------------------------------------------------------------------ C13

pub fn stall_floods(t: Tags, th: bool) -> Space {
    space("a consumer that stops and reads in bursts", move |cx| {
        let n = [103usize, 110, 205, 450][cx.choose(4)];
        let burst = [1usize, 2, 50, 99, 100, 101, 102, 1000][cx.choose(8)];
        let mix = cx.choose(3);
        let cmds = cx.choose(3);
        let rounds = if th { 1 + cx.choose(3) } else { 1 + cx.choose(2) };
        cx.note(|| format!("{rounds} rounds of {n} packets, reads of {burst}, mix {mix}, commands {cmds}"));
        let mut d = Drive::open(cx, t)?;
        for r in 0..rounds {
            d.s.draining = false;
            let mut b = vec![];
            for i in 0..n {
                let p = (r * 1000 + i + 10) as u16;
                b.extend(match (mix, i % 4) {
                    (0, _) => publish(false, 0, false, "f", 0, &[], &(i as u32).to_be_bytes()),
                    (1, _) => publish(false, 1, false, "f", p, &[], &(i as u32).to_be_bytes()),
                    (_, 0) => suback(p, 0, &[]),
                    (_, 1) => unsuback(p, 0, &[]),
                    (_, 2) => publish(false, 1, false, "f", p, &[], &(i as u32).to_be_bytes()),
                    _ => publish(false, 0, true, "f", 0, &[RProp::Pfi(1)], b"t"),
                });
            }
            for c in b.chunks(if mix == 1 { 9 } else { 4096 }) {
                d.srv(c);
            }
            d.settle()?;
            for i in 0..[0, 1, 40][cmds] {
                d.s.cmd(0, &crate::ids::req(i % 3, i));
            }
            d.settle()?;
            for _ in 0..2 * n / burst + 2 {
                if d.s.drain(burst) == 0 {
                    break;
                }
                cx.events += 1;
                d.s.settled = false;
                d.s.settle();
            }
            d.epilogue()?;
            cx.state(d.o.hash(&d.s));
        }
        Ok(())
    })
}

pub fn dropped_receiver(t: Tags, th: bool) -> Space {
    dropped_receiver_n(t, 5 + th as usize)
}
pub fn dropped_receiver_n(t: Tags, depth: usize) -> Space {
    let a = vec![
        (Ev::DropRx, 1),
        (p0(), 9),
        (p1(3), 9),
        (three(), 2),
        (Ev::Srv("SUBACK unknown", suback(900, 0, &[])), 2),
        (Ev::Cmd(cpub(1)), 9),
        (Ev::Cmd(csub()), 9),
        (Ev::AckOldest, 9),
        (Ev::Tick(8000), 2),
        (Ev::Pong, 9),
        (Ev::Cmd(Cmd::Disc), 1),
        (Ev::Srv("DISCONNECT", disconnect(0x8B)), 1),
        (Ev::Eof, 1),
    ];
    Fam::new("the notification receiver is dropped", t, depth, a).defer(1, 1).space()
}

// ------------------------------------------------------------------------------ C14

pub fn keep_alive(th: bool) -> Vec<Space> {
    let t = PING | PANIC;
    let p = th as usize;
    let mut v = vec![];
    let base = vec![
        (Ev::Tick(100), 9),
        (Ev::Tick(3900), 9),
        (Ev::Tick(7900), 9),
        (Ev::Tick(8000), 9),
        (Ev::Pong, 9),
        (p0(), 9),
        (p1(4), 9),
        (Ev::Cmd(cpub(0)), 9),
        (Ev::Srv("PINGRESP unasked", pingresp()), 2),
    ];
    v.push(Fam::new("time, answers, traffic", t, 6 + p, base.clone()).with(|f| f.step = 100).space());
    v.push(Fam::new("time, answers, traffic: every order of service", t, 5 + p, base.clone()).with(|f| f.step = 100).defer(1, 2).space());
    // every pattern of answer delays
    let n = if th { 8 } else { 6 };
    v.push(space(format!("{n} pings in a row, each answered after one of 5 delays or never, with and without traffic"), move |cx| {
        const D: [u64; 6] = [0, 100, 2000, 4000, 7800, u64::MAX];
        let traffic = cx.choose(3);
        let mut d = Drive::open(cx, t)?;
        d.step = 100;
        d.tick(8000)?;
        for i in 0..n {
            let k = D[cx.choose(6)];
            cx.note(|| format!("ping {i}: answer after {}", if k == u64::MAX { "ever".into() } else { format!("{k} ms") }));
            let mut left = 8000u64;
            if k != u64::MAX {
                d.tick(k)?;
                left -= k;
                d.srv(&pingresp());
                d.settle()?;
            }
            cx.events += 1;
            for j in 0..4 {
                let dt = if j < 3 { left / 4 / 100 * 100 } else { left };
                left -= dt;
                match traffic {
                    1 => d.srv(&publish(false, 1, false, "t", 9, &[], b"x")),
                    2 => {
                        d.s.cmd(0, &cpubn(j));
                    }
                    _ => {}
                }
                d.settle()?;
                d.tick(dt)?;
            }
            cx.state(d.o.hash(&d.s));
            if d.s.end.is_some() {
                break;
            }
        }
        d.settle()
    }));
    v.push(space("many pings, all answered", move |cx| {
        let k = [0u64, 500, 7500][cx.choose(3)];
        let n = if th { 70_000 } else { 2000 };
        let traffic = cx.choose(2) == 1;
        cx.note(|| format!("{n} pings answered after {k} ms"));
        let mut d = Drive::open(cx, t)?;
        d.tick(8000)?;
        for i in 0..n {
            d.tick(k)?;
            d.srv(&pingresp());
            if traffic {
                d.s.cmd(0, &cpubn(i));
            }
            d.settle()?;
            d.tick(8000 - k)?;
            cx.events += 1;
        }
        if d.o.pings.len() < n {
            return viol("PING", format!("only {} pings in {n} intervals", d.o.pings.len()));
        }
        Ok(())
    }));
    // silence under traffic of every rhythm
    v.push(space("no answers, traffic of every rhythm", move |cx| {
        let gap = [100u64, 500, 1000, 2000, 3900, 4000, 7900, 8000, 8100][cx.choose(9)];
        let what = cx.choose(5);
        let good = cx.choose(3);
        cx.note(|| format!("traffic {what} every {gap} ms, silence after {good} answered pings"));
        let mut d = Drive::open(cx, t)?;
        d.step = 100;
        for _ in 0..good {
            d.tick(8000)?;
            d.srv(&pingresp());
            d.settle()?;
        }
        let mut i = 0;
        for _ in 0..(40_000 / gap) {
            i += 1;
            match what {
                0 => d.srv(&publish(false, 0, false, "t", 0, &[], b"x")),
                1 => d.srv(&publish(false, 1, false, "t", 9, &[], b"x")),
                2 => {
                    d.s.cmd(0, &cpubn(i));
                }
                3 => {
                    d.s.cmd(0, &csub());
                    d.settle()?;
                    let b = crate::ids::acks_for(&d, d.o.order.values().copied().collect::<Vec<_>>().into_iter());
                    d.srv(&b);
                }
                _ => {}
            }
            d.settle()?;
            d.tick(gap)?;
            cx.events += 1;
            if d.s.end.is_some() {
                break;
            }
        }
        if d.s.end.is_none() {
            return viol("PING", "40 seconds of silence and no time-out");
        }
        cx.state(d.o.hash(&d.s));
        Ok(())
    }));
    // pauses of the process, the consumer and the socket
    v.push(
        Fam::new(
            "pauses of the process",
            t,
            5 + p,
            vec![(Ev::Jump(4000), 2), (Ev::Jump(8000), 2), (Ev::Jump(20000), 2), (Ev::Jump(100_000), 1), (Ev::Tick(4000), 3), (Ev::Tick(8000), 3), (Ev::Pong, 9), (p1(4), 1), (Ev::Cmd(cpub(0)), 1)],
        )
        .with(|f| f.step = 500)
        .defer(2, 2)
        .space(),
    );
    v.push(
        Fam::new(
            "pauses of the socket",
            t,
            6 + p,
            vec![(Ev::Quota(0), 2), (Ev::Quota(1), 1), (Ev::Unblock, 2), (Ev::Tick(4000), 3), (Ev::Tick(8000), 3), (Ev::Tick(20000), 2), (Ev::Pong, 9), (p1(4), 1), (Ev::Cmd(cpub(0)), 2)],
        )
        .with(|f| f.step = 500)
        .space(),
    );
    for n in [99usize, 101, 103] {
        v.push(
            Fam::new(
                &format!("pauses of the consumer, {n} unread"),
                t,
                5 + p,
                vec![(Ev::Take(1), 3), (Ev::Take(10), 1), (Ev::Resume, 1), (Ev::Pause, 1), (p0(), 2), (Ev::Tick(4000), 3), (Ev::Tick(8000), 3), (Ev::Tick(20000), 2), (Ev::Pong, 9), (Ev::DropRx, 1)],
            )
            .with(|f| {
                f.step = 500;
                f.prefill = n;
            })
            .space(),
        );
    }
    // a pause of every order of magnitude, at every stage of a ping
    v.push(space("pauses of the process of every size", move |cx| {
        let big = 40;
        let base: u64 = 1 << cx.choose(big);
        let ms = match cx.choose(6) {
            0 => base,
            1 => base - 1,
            2 => base + 1,
            3 => base + 1000,
            4 => base.saturating_sub(1000),
            _ => base.saturating_mul(1000) >> 3,
        };
        let stage = cx.choose(5);
        let late = [0u64, 3000, 7500][cx.choose(3)];
        let twice = cx.choose(2) == 1;
        cx.note(|| format!("the process pauses for {ms} ms{} at stage {stage}, later pings answered after {late} ms", if twice { " twice" } else { "" }));
        let mut d = Drive::open(cx, t)?;
        d.step = 500;
        match stage {
            // at once, or in the middle of the first interval
            0 => {}
            1 => d.tick(4000)?,
            // the ping is under way; it has been answered; the answer comes during the pause
            _ => {
                d.tick(8000)?;
                if stage == 3 {
                    d.srv(&pingresp());
                    d.settle()?;
                }
            }
        }
        for i in 0..1 + twice as usize {
            advance(&d.s.w, ms);
            d.o.impaired = d.s.w.borrow().now;
            if stage == 4 && i == 0 {
                d.srv(&pingresp());
            }
            d.settle()?;
            if d.s.end.is_some() {
                break;
            }
            for _ in 0..4 {
                if d.o.pings.last().is_some_and(|p| p.answered.is_none()) {
                    d.tick(late)?;
                    d.srv(&pingresp());
                    d.settle()?;
                    d.tick(8000 - late)?;
                } else {
                    d.tick(8000)?;
                }
                cx.events += 1;
            }
        }
        cx.state(d.o.hash(&d.s));
        d.tick(20_000)?;
        if d.s.end.is_none() {
            return viol("PING", "20 seconds of silence and no time-out");
        }
        Ok(())
    }));
    v.push(
        Fam::new("only the clock and the event loop remain", t, 5 + p, vec![(Ev::DropAll, 1), (Ev::DropRx, 1), (Ev::Tick(4000), 9), (Ev::Tick(8000), 9), (Ev::Pong, 9), (p0(), 2)])
            .with(|f| f.step = 100)
            .space(),
    );
    v.push(space("a slow connection set-up", move |cx| {
        let a = [0u64, 100, 7900, 8000, 9000, 60_000][cx.choose(6)];
        let b = [0u64, 100, 7900, 8000, 9000, 60_000][cx.choose(6)];
        cx.w.borrow_mut().connect_mode = ConnMode::Wait;
        let mut d = Drive::new(cx, t);
        d.step = 100;
        d.settle()?;
        d.tick(a)?;
        d.s.with(|c| c.accept());
        d.settle()?;
        d.tick(b)?;
        d.srv(&connack(false, 0, &[]));
        d.settle()?;
        cx.note(|| format!("connected after {a} ms, accepted after {b} ms"));
        for _ in 0..3 {
            d.tick(8000)?;
            d.srv(&pingresp());
            d.settle()?;
            cx.events += 1;
        }
        d.tick(20000)?;
        if d.s.end.is_none() {
            return viol("PING", "no time-out");
        }
        cx.state(d.o.hash(&d.s));
        Ok(())
    }));
    v
}

/// Time passing, for the properties of whole sessions.
pub fn time(t: Tags) -> Vec<Space> {
    vec![
        Fam::new(
            "in common: time, answers, traffic",
            t,
            5,
            vec![
                (Ev::Tick(100), 9),
                (Ev::Tick(3900), 9),
                (Ev::Tick(8000), 9),
                (Ev::Pong, 9),
                (p0(), 9),
                (p1(4), 9),
                (Ev::Cmd(cpub(1)), 9),
                (Ev::AckOldest, 9),
                (Ev::Srv("PINGRESP unasked", pingresp()), 2),
            ],
        )
        .with(|f| f.step = 500)
        .space(),
        Fam::new(
            "in common: pauses of the socket",
            t,
            4,
            vec![(Ev::Quota(0), 2), (Ev::Quota(1), 1), (Ev::Unblock, 2), (Ev::Tick(4000), 3), (Ev::Tick(20000), 2), (Ev::Pong, 9), (p1(4), 1), (Ev::Cmd(cpub(0)), 2)],
        )
        .with(|f| f.step = 500)
        .space(),
        Fam::new("in common: only the clock and the event loop remain", t, 4, vec![(Ev::DropAll, 1), (Ev::DropRx, 1), (Ev::Tick(4000), 9), (Ev::Tick(8000), 9), (Ev::Pong, 9), (p0(), 2), (p1(3), 2)])
            .with(|f| f.step = 500)
            .space(),
    ]
}

// ------------------------------------------------------------------------------ C15

pub fn endings(t: Tags, th: bool) -> Vec<Space> {
    let mut v = ends(t, th);
    v.push(end_properties(t));
    v
}

/// A session that ends in every way, in every situation.
pub fn ends(t: Tags, th: bool) -> Vec<Space> {
    let mut terms: Vec<(String, Term)> = vec![("disconnect command".into(), Term::Disc)];
    for (r, n) in DISCONNECT_REASONS {
        terms.push((format!("DISCONNECT {n}"), Term::Srv(disconnect_p(*r, &[]))));
        if *r != 0 {
            terms.push((format!("DISCONNECT {n} without properties"), Term::Srv(vec![0xE0, 1, *r])));
        }
    }
    terms.push(("DISCONNECT of zero length".into(), Term::Srv(disconnect(0))));
    terms.push(("DISCONNECT with reason string".into(), Term::Srv(disconnect_p(0x8B, &[RProp::Reason("bye".into())]))));
    terms.push(("DISCONNECT with properties".into(), Term::Srv(disconnect_p(0x00, &[RProp::User("k".into(), "v".into()), RProp::Reason("bye".into())]))));
    terms.push(("end of stream".into(), Term::Eof));
    terms.push(("end of stream inside a packet".into(), Term::PartEof));
    for k in KINDS {
        terms.push((format!("read error {k:?}"), Term::RdErr(k)));
    }
    for (n, b) in [
        ("cut PUBLISH", vec![0x30u8, 1, 0]),
        ("QoS 3", vec![0x36, 4, 0, 1, b't', 0]),
        ("identifier zero", vec![0x32, 6, 0, 1, b't', 0, 0, 0]),
        ("CONNECT", vec![0x10, 0]),
        ("SUBSCRIBE", vec![0x82, 0]),
        ("PINGREQ", vec![0xC0, 0]),
        ("unknown SUBACK reason", vec![0x90, 4, 0, 1, 0, 0x55]),
        ("unknown property", vec![0x40, 6, 0, 1, 0, 2, 0x77, 0]),
        ("long length prefix", vec![0x30, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 1]),
        ("QoS 2 PUBLISH", publish(false, 2, false, "t", 3, &[], b"x")),
        ("PUBREL", vec![0x62, 2, 0, 1]),
        ("AUTH", vec![0xF0, 0]),
    ] {
        terms.push((n.into(), Term::Srv(b)));
    }
    terms.push(("silence".into(), Term::Silence));
    for k in KINDS {
        terms.push((format!("write error {k:?}"), Term::WrErr(0, Some(k))));
        terms.push((format!("write error {k:?} inside a packet"), Term::WrErr(3, Some(k))));
    }
    terms.push(("write that takes nothing".into(), Term::WrErr(0, None)));
    terms.push(("write that takes nothing inside a packet".into(), Term::WrErr(3, None)));
    let mut v = vec![];
    let terms2 = terms.clone();
    v.push(space(format!("{} ways to end, with packets and commands before and after, every order of service", terms.len()), move |cx| {
        let (name, term) = &terms[cx.choose(terms.len())];
        let cmds = cx.choose(3);
        let before = cx.choose(3);
        let after = cx.choose(2);
        let together = cx.choose(2) == 1;
        let later = cx.choose(2);
        cx.note(|| format!("{name}; {cmds} commands and {before} messages before, {after} messages after, {}", if together { "all at once" } else { "one by one" }));
        let mut d = Drive::open(cx, t)?;
        cx.w.borrow_mut().rng_budget = 2 + th as usize;
        let step = |d: &mut Drive| if together { Ok(()) } else { d.settle() };
        for i in 0..cmds {
            d.s.cmd(0, &crate::ids::req(i, i));
            step(&mut d)?;
        }
        let mut b = vec![];
        for i in 0..before {
            b.extend(publish(false, 1 - (i as u8 % 2), false, "pre", 10 + i as u16, &[], b"x"));
        }
        let mut post = vec![];
        for i in 0..after {
            post.extend(publish(false, 1, false, "post", 20 + i as u16, &[], b"x"));
        }
        term_apply(&mut d, term, b, post, &step)?;
        for i in 0..later {
            d.s.cmd(0, &crate::ids::req(i, 9));
        }
        d.settle()?;
        cx.events += (cmds + before + after + later + 1) as u64;
        cx.w.borrow_mut().rng_budget = 0;
        if matches!(term, Term::Silence) {
            d.tick(17_000)?;
            d.settle()?;
            if t & END != 0 && d.s.end.is_none() {
                return viol("END", "a server that does not answer pings ends nothing");
            }
        }
        cx.note(|| format!("=> {:?}", d.s.end));
        if t & END != 0 && d.s.end.is_none() && !matches!(term, Term::WrErr(..)) && !d.o.held_back(&d.s) {
            return viol("END", format!("{name} did not end the session"));
        }
        // after the end
        for i in 0..2 {
            d.s.cmd(0, &cpubn(i));
        }
        if !d.o.env_eof && !d.o.env_err {
            d.srv(&bytes::marker(3));
        }
        d.tick(9000)?;
        d.settle()?;
        cx.state(d.o.hash(&d.s));
        Ok(())
    }));
    v.push(space("endings with an unread backlog or a blocked socket", move |cx| {
        let (name, term) = &terms2[cx.choose(terms2.len())];
        let backlog = [0usize, 99, 100, 101, 103, 140][cx.choose(6)];
        let blocked = cx.choose(2) == 1;
        let cmds = cx.choose(3);
        cx.note(|| format!("{name}; {backlog} unread messages, blocked {blocked}, {cmds} commands"));
        let mut d = Drive::open(cx, t)?;
        d.s.draining = backlog == 0;
        let mut b = vec![];
        for i in 0..backlog {
            b.extend(publish(false, 0, false, "b", 0, &[], &(i as u32).to_be_bytes()));
        }
        d.srv(&b);
        d.settle()?;
        if blocked {
            d.s.with(|c| c.set_wmode(WMode::Quota(4)));
        }
        for i in 0..cmds {
            d.s.cmd(0, &crate::ids::req(i, i));
            d.settle()?;
        }
        let step = |_: &mut Drive| Ok(());
        term_apply(&mut d, term, vec![], vec![], &step)?;
        d.settle()?;
        d.epilogue()?;
        cx.events += 3;
        if matches!(term, Term::Silence) {
            d.tick(26_000)?;
            d.settle()?;
        }
        cx.note(|| format!("=> {:?}", d.s.end));
        cx.state(d.o.hash(&d.s));
        Ok(())
    }));
    v
}

fn end_properties(t: Tags) -> Space {
    space("legal properties the library does not know: DISCONNECT", move |cx| {
        let with = cx.choose(2);
        let mut b = vec![if with == 0 { 0x00 } else { 0x9C }, 4, 0x1C, 0, 1, b's'];
        b[1] = 4;
        let p = frame(0xE0, &b);
        cx.note(|| format!("{p:02x?}"));
        let mut d = Drive::open(cx, t & !END)?;
        d.srv(&p);
        d.settle()?;
        cx.events += 1;
        let ok = match &d.s.end {
            Some(End::Ok) => with == 0,
            Some(End::Err(_, e)) => with == 1 && e.to_lowercase().contains("useanotherserver"),
            _ => false,
        };
        if ok {
            return Ok(());
        }
        let mut v = viol::<()>("END", format!("DISCONNECT with a server reference ends with {:?}", d.s.end)).unwrap_err();
        if matches!(d.s.end, Some(End::Err(false, _))) {
            v.key = "C15-disconnect-property-1c".into();
        }
        Err(v)
    })
}

#[derive(Clone, Debug)]
enum Term {
    Disc,
    Srv(Vec<u8>),
    Eof,
    PartEof,
    RdErr(std::io::ErrorKind),
    /// takes so much, then fails; without a kind: takes nothing any more
    WrErr(usize, Option<std::io::ErrorKind>),
    Silence,
}

fn term_apply(d: &mut Drive, term: &Term, mut before: Vec<u8>, after: Vec<u8>, step: &dyn Fn(&mut Drive) -> Result<(), Viol>) -> Result<(), Viol> {
    match term {
        Term::Srv(p) => {
            before.extend_from_slice(p);
            before.extend(after);
            d.srv(&before);
            step(d)?;
        }
        Term::Disc => {
            d.srv(&before);
            step(d)?;
            d.s.cmd(0, &Cmd::Disc);
            step(d)?;
            if d.s.end.is_none() {
                d.srv(&after);
            }
            step(d)?;
        }
        Term::Eof => {
            d.srv(&before);
            step(d)?;
            d.o.env_eof = true;
            d.s.with(|c| c.push(Seg::Eof));
        }
        Term::PartEof => {
            before.extend([0x30, 9, 0, 1]);
            d.srv(&before);
            step(d)?;
            d.o.env_eof = true;
            d.s.with(|c| c.push(Seg::Eof));
        }
        Term::RdErr(k) => {
            d.srv(&before);
            step(d)?;
            d.o.env_err = true;
            d.s.with(|c| c.push(Seg::Err(*k)));
        }
        Term::WrErr(n, kind) => {
            {
                let mut w = d.s.w.borrow_mut();
                w.err_kind = *kind;
                w.write_zero = kind.is_none();
            }
            d.s.with(|c| c.set_wmode(WMode::FailAfter(*n)));
            d.srv(&before);
            step(d)?;
            d.srv(&after);
        }
        Term::Silence => {
            d.srv(&before);
            step(d)?;
            d.srv(&after);
        }
    }
    d.s.settled = false;
    Ok(())
}

// ------------------------------------------------------------------------------ C16

pub fn sleeps(th: bool) -> Vec<Space> {
    let t = SPIN | CMD | NOTIF | ACK | END | PANIC;
    let p = th as usize;
    let all = vec![
        (Ev::Cmd(cpub(1)), 9),
        (Ev::Cmd(csub()), 9),
        (p0(), 9),
        (p1(4), 9),
        (half1(), 1),
        (Ev::Rest, 1),
        (Ev::DropRx, 1),
        (Ev::DropAll, 1),
        (Ev::Clone, 1),
        (Ev::DropOne, 1),
        (Ev::Repoll, 3),
        (Ev::Tick(8000), 2),
        (Ev::Pong, 9),
        (Ev::Eof, 1),
        (Ev::Quota(1), 1),
        (Ev::Unblock, 1),
        (Ev::Cmd(Cmd::Disc), 1),
    ];
    let mut v = vec![Fam::new("idle stages of an open session", t, 5 + p, all.clone()).space(), Fam::new("idle stages of an open session, unsettled", t, 4 + p, all.clone()).defer(1, 1).space()];
    v.push(
        Fam::new(
            "idle stages of the handshake",
            t,
            6 + p,
            vec![
                (Ev::Accept, 1),
                (Ev::Repoll, 3),
                (Ev::Quota(3), 1),
                (Ev::Unblock, 1),
                (Ev::Cmd(csub()), 2),
                (Ev::DropAll, 1),
                (Ev::DropRx, 1),
                (Ev::Tick(9000), 1),
                (Ev::Srv("CONNACK", connack(false, 0, &[])), 1),
                (Ev::Half("half a CONNACK", connack(false, 0, &[])), 1),
                (Ev::Rest, 1),
                (p1(1), 1),
                (Ev::Eof, 1),
            ],
        )
        .with(|f| {
            f.prelude = vec![];
            f.connect = ConnMode::Wait;
        })
        .space(),
    );
    v.push(Fam::new("events during a poll", t, 4 + p, vec![(Ev::InCmd(cpub(1)), 9), (Ev::InCmd(Cmd::Disc), 1), (inp1(), 9), (Ev::Cmd(csub()), 9), (p0(), 9), (three(), 9), (Ev::Repoll, 3), (Ev::Tick(8000), 1)]).defer(1, 2).space());
    for n in [100usize, 101, 102] {
        v.push(
            Fam::new(
                &format!("{n} unread messages"),
                t,
                5,
                vec![(p0(), 9), (p1(5), 9), (Ev::Cmd(csub()), 9), (Ev::Take(1), 9), (Ev::Resume, 1), (Ev::Repoll, 3), (Ev::DropRx, 1), (Ev::DropAll, 1), (Ev::Tick(8000), 1)],
            )
            .with(|f| f.prefill = n)
            .space(),
        );
    }
    v.extend(if cfg!(feature = "hook") {
        vec![Fam::new("waiting for identifiers", t, 5 + p, vec![(Ev::Cmd(csub()), 9), (Ev::Cmd(cpub(1)), 9), (Ev::AckOldest, 9), (p1(3), 9), (Ev::Repoll, 3), (Ev::DropAll, 1), (Ev::Tick(8000), 1), (Ev::Pong, 2)]).with(|f| f.ids = Some(1)).space()]
    } else {
        vec![]
    });
    // nobody polls a sleeping event loop: count how often it asks for it
    v.push(space("four quiet seconds at every stage", move |cx| {
        let stage = cx.choose(12);
        let drops = cx.choose(4);
        let repoll = cx.choose(2) == 1;
        {
            let mut w = cx.w.borrow_mut();
            if stage == 0 {
                w.connect_mode = ConnMode::Wait;
            }
            if stage == 1 {
                w.wmode = WMode::Quota(5);
            }
        }
        let mut d = Drive::new(cx, t);
        d.settle()?;
        if stage == 3 {
            d.srv(&[0x20, 3]);
        }
        if stage >= 4 {
            d.srv(&connack(false, 0, &[]));
            d.settle()?;
        }
        match stage {
            5 => {
                d.s.cmd(0, &csub());
            }
            6 => d.srv(&[0x30, 20, 0]),
            7 => {
                d.s.with(|c| c.set_wmode(WMode::Quota(2)));
                d.s.cmd(0, &csub());
            }
            8 | 9 => {
                d.s.draining = false;
                for _ in 0..(if stage == 8 { 101 } else { 110 }) {
                    d.srv(&publish(false, 0, false, "t", 0, &[], b""));
                }
            }
            10 => {
                d.tick(8000)?;
            }
            11 => {
                d.tick(8000)?;
                d.srv(&pingresp());
            }
            _ => {}
        }
        d.settle()?;
        if drops & 1 != 0 {
            d.s.clients.iter_mut().for_each(|c| *c = None);
        }
        if drops & 2 != 0 {
            d.s.rx = None;
        }
        d.s.settled = false;
        d.settle()?;
        if repoll {
            d.s.poll_once();
            d.settle()?;
        }
        let before = d.s.polls;
        let fine = cx.choose(2) == 1;
        for _ in 0..(if fine { 4000 } else { 40 }) {
            advance(&d.s.w, if fine { 1 } else { 100 });
            d.s.settle();
        }
        let n = d.s.polls - before;
        cx.events += 40;
        cx.note(|| format!("stage {stage}, dropped {drops}: {n} polls in 4 s"));
        cx.state(hashed((stage, drops, repoll, n)));
        if n > 2 {
            return viol("SPIN", format!("{n} polls in four seconds without any event (stage {stage}, handles dropped: {}, receiver dropped: {})", drops & 1 != 0, drops & 2 != 0));
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------------------ C17

fn script(n: usize) -> Vec<Ev> {
    let big = Cmd::Pub { topic: "big".into(), payload: Pay::Bytes(vec![7; 300]), qos: Some(1), props: vec![] };
    match n {
        0 => vec![Ev::Cmd(csub()), p1(1), Ev::Cmd(cpub(1))],
        1 => vec![Ev::Cmd(cpub(0)), Ev::Cmd(cpub(0)), Ev::Cmd(Cmd::Disc)],
        2 => vec![three(), Ev::Cmd(cunsub()), Ev::AckOldest, Ev::Tick(8000)],
        3 => vec![Ev::Tick(8000), Ev::Pong, p1(2), Ev::Tick(8000), Ev::Cmd(csub())],
        4 => vec![Ev::Cmd(big), p1(3), Ev::Cmd(Cmd::Disc)],
        5 => vec![p1(1), p1(2), p1(3), Ev::Srv("DISCONNECT", disconnect(0x8B))],
        _ => vec![Ev::Cmd(Cmd::Pub { topic: "huge".into(), payload: Pay::Bytes(vec![9; 20_000]), qos: Some(0), props: vec![] }), p1(1), Ev::Cmd(csub())],
    }
}

/// Play a script; whenever the socket is blocked after an event, unblock it.
fn play(cx: &Ctx, n: usize, mode: WMode, again: WMode, dev: usize, tags: Tags) -> (Drive, Result<(), Viol>) {
    {
        let mut w = cx.w.borrow_mut();
        w.conns.clear();
        w.idle = 0;
        w.wmode = mode;
        w.dev_budget = dev;
        w.connect_mode = ConnMode::Now;
    }
    let mut d = Drive::new(cx, tags);
    let go = |d: &mut Drive| -> Result<(), Viol> {
        d.settle()?;
        // until nothing is held back: what is handled first among several events is nobody's business
        let mut n = 0;
        while d.s.end.is_none() && matches!(d.s.with(|c| c.wmode), Some(WMode::Quota(_))) && d.s.with(|c| c.blocked) == Some(true) {
            n += 1;
            d.s.with(|c| c.set_wmode(if n < 400 { again } else { WMode::Open }));
            d.s.settled = false;
            d.settle()?;
        }
        Ok(())
    };
    let r = (|| {
        go(&mut d)?;
        d.srv(&connack(false, 0, &[]));
        go(&mut d)?;
        for e in script(n) {
            if d.enabled(&e) && d.s.end.is_none() {
                d.apply(&e)?;
                go(&mut d)?;
            }
        }
        d.epilogue()
    })();
    (d, r)
}

pub fn writes(th: bool) -> Vec<Space> {
    let t = WSTREAM | CMD | ACK | END | PANIC;
    let p = th as usize;
    let mut v = vec![];
    let compare = move |cx: &mut Ctx, n: usize, mode: WMode, again: WMode, dev: usize| -> Result<(), Viol> {
        let (ideal, r) = play(cx, n, WMode::Open, WMode::Open, 0, t);
        r?;
        let want = ideal.s.with(|c| c.out.clone()).unwrap_or_default();
        let (d, r) = play(cx, n, mode, again, dev, t);
        let got = d.s.with(|c| c.out.clone()).unwrap_or_default();
        cx.events += 4;
        cx.state(hashed((n, format!("{mode:?}{again:?}"), &d.s.with(|c| c.log.len()))));
        cx.note(|| format!("script {n}, socket {mode:?} then {again:?}: {} of {} bytes, end {:?}", got.len(), want.len(), d.s.end));
        r?;
        let failing = matches!(mode, WMode::FailAfter(_)) || matches!(again, WMode::FailAfter(_));
        if failing {
            if got.len() > want.len() || got != want[..got.len()] {
                return viol("WSTREAM", format!("script {n}: with {mode:?} what was written is not a prefix of the ideal stream"));
            }
        } else if got != want {
            let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return viol("WSTREAM", format!("script {n}: with {mode:?} then {again:?} the stream differs from byte {i} on ({} instead of {} bytes)", got.len(), want.len()));
        } else if d.s.end.is_some() != ideal.s.end.is_some() {
            return viol("WSTREAM", format!("script {n}: with {mode:?} the session ends with {:?} instead of {:?}", d.s.end, ideal.s.end));
        }
        Ok(())
    };
    v.push(space("scripts with at most n bytes per write", move |cx| {
        let n = cx.choose(7);
        let k = 1 + cx.choose(if th { 64 } else { 20 });
        compare(cx, n, WMode::Max(k), WMode::Open, 0)
    }));
    let lens = [140usize, 140, 140, 140, 480, 120, 700];
    v.push(space("scripts with a blockage at every byte", move |cx| {
        let n = cx.choose(7);
        let q = cx.choose(lens[n]);
        let again = [WMode::Open, WMode::Quota(1), WMode::Quota(5), WMode::Max(1), WMode::FailAfter(0), WMode::FailAfter(2)][cx.choose(6)];
        compare(cx, n, WMode::Quota(q), again, 0)
    }));
    v.push(space("scripts with a failure at every byte", move |cx| {
        let n = cx.choose(7);
        let q = cx.choose(lens[n]);
        let kind = cx.choose(KINDS.len() + 1);
        {
            let mut w = cx.w.borrow_mut();
            w.err_kind = KINDS.get(kind).copied();
            w.write_zero = kind == KINDS.len();
        }
        cx.note(|| format!("fails with {:?}", KINDS.get(kind)));
        compare(cx, n, WMode::FailAfter(q), WMode::Open, 0)
    }));
    let dev = if th { 5 } else { 3 };
    v.push(space(format!("scripts with up to {dev} irregular writes anywhere"), move |cx| {
        let n = cx.choose(6);
        compare(cx, n, WMode::Choose, WMode::Open, dev)
    }));
    v.push(
        Fam::new(
            "blocked and failing sockets",
            t,
            5 + p,
            vec![
                (Ev::Quota(0), 2),
                (Ev::Quota(2), 2),
                (Ev::Quota(6), 1),
                (Ev::Unblock, 9),
                (Ev::FailW(0), 1),
                (Ev::FailW(3), 1),
                (Ev::Cmd(cpub(1)), 9),
                (Ev::Cmd(csub()), 9),
                (p1(5), 9),
                (Ev::Tick(8000), 1),
                (Ev::Cmd(Cmd::Disc), 1),
            ],
        )
        .defer(1, 1)
        .space(),
    );
    v.push(
        Fam::new("every write may be short or blocked", t, 3 + p, vec![(Ev::Cmd(cpub(1)), 9), (Ev::Cmd(csub()), 9), (three(), 9), (p1(9), 9), (Ev::AckOldest, 9), (Ev::Tick(8000), 1), (Ev::Cmd(Cmd::Disc), 1)])
            .defer(1, 0)
            .with(|f| {
                f.wmode = WMode::Choose;
                f.dev = 3 + p;
            })
            .space(),
    );
    v
}

// ------------------------------------------------------------------------------ C18

#[derive(Clone, Debug)]
enum H {
    /// n commands on a handle (0 first, 1 second, 2 in turn)
    Burst(usize, usize),
    Clone,
    DropFirst,
    DropLast,
    Settle,
    Connack,
    Block,
    Unblock,
    Pause,
    Resume,
    End(u8),
    DropEv,
}

fn handle_run(cx: &mut Ctx, ops: &[H], depth: usize, open: bool) -> Result<(), Viol> {
        let mut d = if open { Drive::open(cx, CMD | PANIC)? } else { Drive::new(cx, CMD | PANIC) };
        let mut n = 0usize;
        let mut settled_at = 0usize; // commands accepted when the session last came to rest unhindered
        for _ in 0..depth {
            let en: Vec<&H> = ops
                .iter()
                .filter(|o| {
                    let live = d.s.clients.iter().filter(|c| c.is_some()).count();
                    match o {
                        H::Burst(_, 1) | H::Burst(_, 2) | H::DropFirst | H::DropLast => live > 1,
                        H::Burst(..) | H::Clone => live >= 1 && live < 5,
                        H::Settle => d.s.ev.is_some(),
                        H::Connack => d.s.ev.is_some() && d.s.conn.is_some() && d.s.with(|c| c.delivered.is_empty()) == Some(true),
                        H::Block => matches!(d.s.with(|c| c.wmode), Some(WMode::Open)),
                        H::Unblock => matches!(d.s.with(|c| c.wmode), Some(WMode::Quota(_))),
                        H::Pause => d.s.draining && d.o.open,
                        H::Resume => !d.s.draining,
                        H::End(_) => d.o.open && d.s.end.is_none() && !d.o.env_eof && d.s.ev.is_some(),
                        H::DropEv => d.s.ev.is_some(),
                    }
                })
                .collect();
            if en.is_empty() {
                break;
            }
            let o = en[cx.choose(en.len())].clone();
            cx.events += 1;
            let (acc0, rej0) = (d.s.cmds.len(), d.s.rejected);
            match &o {
                H::Burst(k, which) => {
                    let live: Vec<usize> = (0..d.s.clients.len()).filter(|i| d.s.clients[*i].is_some()).collect();
                    for i in 0..*k {
                        let h = match which {
                            0 => live[0],
                            1 => live[1],
                            _ => live[i % live.len()],
                        };
                        n += 1;
                        let c = match n % 4 {
                            1 => Cmd::Sub(format!("s{n}"), 0),
                            2 => Cmd::Unsub(format!("u{n}")),
                            _ => cpubn(n),
                        };
                        // certainly taken by the session: what was written
                        let waiting = d.s.cmds.len() - settled_at.max(d.o.outs.iter().filter(|o| !matches!(o.2, OutPkt::Connect { .. } | OutPkt::Puback { .. } | OutPkt::Pingreq)).count());
                        let ok = d.s.cmd(h, &c) == Some(true);
                        let dead = d.s.dropped_ev || (d.s.end.is_some() && d.o.open);
                        if dead && ok {
                            return viol("HANDLE", "a command was accepted although the event loop is gone or the session has ended");
                        }
                        if !dead && d.s.end.is_none() && !ok && waiting < 100 {
                            return viol("HANDLE", format!("a command was refused with only {waiting} waiting"));
                        }
                    }
                }
                H::Clone => d.s.clone_handle(),
                H::DropFirst => {
                    let i = d.s.clients.iter().position(|c| c.is_some()).unwrap();
                    d.s.clients[i] = None;
                }
                H::DropLast => {
                    let i = d.s.clients.iter().rposition(|c| c.is_some()).unwrap();
                    d.s.clients[i] = None;
                }
                H::Settle => {}
                H::Connack => d.srv(&connack(false, 0, &[])),
                H::Block => {
                    d.s.with(|c| c.set_wmode(WMode::Quota(3)));
                }
                H::Unblock => {
                    d.s.with(|c| c.set_wmode(WMode::Open));
                    d.s.settled = false;
                }
                H::Pause => {
                    d.s.draining = false;
                    let mut b = vec![];
                    for _ in 0..110 {
                        b.extend(publish(false, 0, false, "f", 0, &[], b""));
                    }
                    d.srv(&b);
                }
                H::Resume => {
                    d.s.draining = true;
                    d.s.settled = false;
                }
                H::End(k) => match k {
                    0 => {
                        d.o.env_eof = true;
                        d.s.with(|c| c.push(Seg::Eof));
                        d.s.settled = false;
                    }
                    1 => d.srv(&disconnect(0x8B)),
                    2 => d.srv(&[0x30, 1, 0]),
                    _ => {
                        let h = d.s.clients.iter().position(|c| c.is_some()).unwrap_or(0);
                        d.s.cmd(h, &Cmd::Disc);
                    }
                },
                H::DropEv => d.s.drop_ev(),
            }
            // bursts are issued while the session does not run
            if !matches!(o, H::Burst(..) | H::Clone | H::DropFirst | H::DropLast | H::DropEv) {
                d.settle()?;
                let (blocked, held) = (d.s.with(|c| c.blocked) == Some(true), d.o.held_back(&d.s));
                if d.o.open && d.s.end.is_none() && !blocked && !held {
                    settled_at = d.s.cmds.len();
                }
            }
            cx.note(|| format!("{o:?}: {} accepted, {} refused, end {:?}", d.s.cmds.len() - acc0, d.s.rejected - rej0, d.s.end));
            cx.state(hashed((d.s.cmds.len(), d.s.rejected, d.o.hash(&d.s))));
        }
        if d.s.ev.is_some() {
            d.settle()?;
            if d.s.conn.is_some() && d.s.with(|c| c.delivered.is_empty()) == Some(true) && d.s.end.is_none() {
                d.srv(&connack(false, 0, &[]));
            }
            d.epilogue()?;
        }
        Ok(())
}

/// Many handles at a time: all accept what they must, none closes the session by going away.
pub fn crowd(t: Tags, th: bool) -> Space {
    let mut ns = vec![1usize, 2, 3, 31, 32, 33, 63, 64, 65, 99, 100, 101, 102, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 4096];
    ns.extend([32_767, 32_768, 65_534, 65_535, 65_536, 65_537]);
    if th {
        ns.extend(4..140);
        ns.push(200_000);
    }
    space("many handles at a time", move |cx| {
        let n = ns[cx.choose(ns.len())];
        let order = cx.choose(4);
        let talk = cx.choose(2) == 1 && n < 5000;
        cx.note(|| format!("{n} clones, dropped in order {order}, all used: {talk}"));
        let mut d = Drive::open(cx, t)?;
        for _ in 0..n {
            d.s.clone_handle();
        }
        if talk {
            for i in 0..=n {
                d.s.cmd(i, &cpubn(i));
                if i % 90 == 89 {
                    d.settle()?;
                }
            }
            d.settle()?;
            if d.s.rejected > 0 {
                return viol("HANDLE", format!("{} commands were refused although at most 90 were waiting", d.s.rejected));
            }
        }
        let keep = match order {
            0 => {
                for i in 0..n {
                    d.s.clients[i] = None;
                }
                n
            }
            1 => {
                for i in (1..=n).rev() {
                    d.s.clients[i] = None;
                }
                0
            }
            2 => {
                for i in 0..=n {
                    if i != n / 2 {
                        d.s.clients[i] = None;
                    }
                }
                n / 2
            }
            _ => {
                for i in (0..=n).rev().filter(|i| i % 2 == 0).chain((0..=n).filter(|i| i % 2 == 1)) {
                    if i != n / 3 {
                        d.s.clients[i] = None;
                    }
                }
                n / 3
            }
        };
        cx.events += 2 * n as u64;
        d.settle()?;
        for i in 0..3 {
            if d.s.cmd(keep, &[cpubn(i), csub(), Cmd::Unsub("u".into())][i]) != Some(true) {
                return viol("HANDLE", "the last handle's command was refused");
            }
            d.settle()?;
        }
        d.srv(&publish(false, 1, false, "t", 9, &[], b"x"));
        d.settle()?;
        d.s.clients[keep] = None;
        d.settle()?;
        // the session goes on for its listener
        d.srv(&publish(false, 1, false, "t", 10, &[], b"y"));
        d.settle()?;
        cx.state(hashed((n, order, talk)));
        d.epilogue()
    })
}

/// Calls that fail, for every reason and many times; each later call is judged afresh.
fn refusals(th: bool) -> Space {
    // what a refused call carries
    const SIZES: &[usize] = &[0, 100, 10_000, 500_000];
    space("calls refused many times, for every reason, and what is accepted afterwards", move |cx| {
        let stuck = cx.choose(5);
        let size = SIZES[cx.choose(SIZES.len())];
        let kind = cx.choose(8);
        let many = [1, 150, 1000][cx.choose(3)];
        let handles = cx.choose(3);
        let rounds = if th { 4 } else { 2 };
        let invalid = kind >= 5;
        if size > 60_000 && !matches!(kind, 0 | 1 | 4..) {
            cx.trivial = true;
            return Ok(());
        }
        cx.note(|| format!("session {stuck}, {many} calls of kind {kind} with {size} bytes, handles {handles}, {rounds} rounds"));
        if stuck == 1 {
            cx.w.borrow_mut().connect_mode = ConnMode::Wait;
        }
        let mut d = if stuck < 3 { Drive::new(cx, CMD | PANIC) } else { Drive::open(cx, CMD | PANIC)? };
        let big = vec![b'z'; size];
        let long = "y".repeat(size.min(60_000));
        let call = |k: usize, n: usize| -> Cmd {
            match k {
                0 => Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(big.clone()), qos: Some(0), props: vec![] },
                1 => Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(big.clone()), qos: Some(1), props: vec![RProp::Pfi(0)] },
                2 => Cmd::Sub(format!("{n}{long}"), 1),
                3 => Cmd::Unsub(format!("{n}{long}")),
                4 => Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(big.clone()), qos: Some((n % 2) as u8), props: vec![] },
                // never valid
                5 => Cmd::Pub { topic: "x".repeat(65_536 + n % 3), payload: Pay::Bytes(big.clone()), qos: Some(1), props: vec![] },
                6 => Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(big.clone()), qos: Some(0), props: vec![RProp::User("k".repeat(65_536), "v".into())] },
                _ => Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(big.clone()), qos: Some(1), props: vec![RProp::Resp("r".repeat(70_000))] },
            }
        };
        for round in 0..rounds {
            match stuck {
                3 if round == 0 => {
                    d.settle()?;
                }
                4 => {
                    d.s.with(|c| c.set_wmode(WMode::Quota(3)));
                    d.settle()?;
                }
                _ => {}
            }
            for _ in 0..handles {
                d.s.clone_handle();
            }
            if !invalid {
                // the queue is full of small ones, or of these
                for n in 0..100 + d.s.clients.len() {
                    let c = if many == 150 { call(kind, n) } else { cpubn(n) };
                    if n < 100 && d.s.cmd(n % d.s.clients.len(), &c) != Some(true) && stuck != 4 {
                        return viol("HANDLE", format!("a command was refused with only {n} waiting"));
                    } else if n >= 100 {
                        d.s.cmd(n % d.s.clients.len(), &cpubn(n));
                    }
                }
            }
            let refused = d.s.rejected;
            for n in 0..many {
                let ok = d.s.cmd(n % d.s.clients.len(), &call(kind, n));
                if invalid && ok == Some(true) {
                    return viol("HANDLE", "a command that cannot be sent was accepted");
                }
            }
            cx.events += many as u64;
            cx.note(|| format!("{} of {many} refused", d.s.rejected - refused));
            d.s.clients.truncate(1);
            // now the session can go on
            if round == 0 {
                if stuck == 1 {
                    d.settle()?;
                    d.s.with(|c| c.accept());
                }
                if stuck < 3 {
                    d.settle()?;
                    d.srv(&connack(false, 0, &[]));
                }
            }
            d.s.with(|c| c.set_wmode(WMode::Open));
            d.s.settled = false;
            d.settle()?;
            // everything is accepted again, and comes out
            for n in 0..40 {
                let c = if n < 8 { Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(vec![b'a'; [1_000_000, 200_000, 65_536, 10][n % 4]]), qos: Some((n % 2) as u8), props: vec![] } } else { [cpubn(n), csub(), Cmd::Unsub("u".into()), cpub(1)][n % 4].clone() };
                if d.s.cmd(0, &c) != Some(true) {
                    return viol("HANDLE", format!("call {n} was refused with at most {n} waiting, after {} calls that were refused for a reason", d.s.rejected - 1));
                }
            }
            d.settle()?;
        }
        cx.state(hashed((stuck, size, kind, many, handles)));
        d.epilogue()
    })
}

pub fn handles(th: bool) -> Vec<Space> {
    let p = th as usize;
    let a: &'static [H] = Box::leak(Box::new([
        H::Burst(1, 0),
        H::Burst(99, 0),
        H::Burst(101, 0),
        H::Burst(104, 1),
        H::Burst(103, 2),
        H::Burst(1, 1),
        H::Clone,
        H::DropFirst,
        H::DropLast,
        H::Settle,
        H::Connack,
        H::DropEv,
    ]));
    let b: &'static [H] = Box::leak(Box::new([
        H::Burst(1, 0),
        H::Burst(100, 0),
        H::Burst(103, 2),
        H::Clone,
        H::DropFirst,
        H::Settle,
        H::Block,
        H::Unblock,
        H::Pause,
        H::Resume,
        H::End(0),
        H::End(1),
        H::End(2),
        H::End(3),
        H::DropEv,
    ]));
    let mut v = vec![crowd(CMD | ACK | NOTIF | PANIC | END, th), refusals(th)];
    v.push(space(format!("every sequence of {} handle operations from the start", 6 + p), move |cx| handle_run(cx, a, 6 + p, false)));
    v.push(space(format!("every sequence of {} handle operations on an open session", 5 + p), move |cx| handle_run(cx, b, 5 + p, true)));
    v
}
