//! Exhaustive enumeration of inbound byte strings, at both stages of a session.
use crate::explore::*;
use crate::fam::*;
use crate::mqtt::*;
use crate::obs::*;
use crate::sess::*;
use crate::world::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stage {
    Handshake,
    Open,
}

pub fn marker(n: u8) -> Vec<u8> {
    publish(false, 1, false, "mark", 0x0100 + n as u16, &[RProp::Pfi(1)], b"m")
}

pub fn full_hex(b: &[u8]) -> String {
    use std::fmt::Write;
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(48).map(|x| format!("{x:02x}")).collect();
    if b.len() > 48 {
        s.push_str(&format!("… ({} bytes)", b.len()));
    }
    s
}

/// Deliver `b`, then a well-formed message, a command, and the end of the stream.
pub fn deliver(cx: &mut Ctx, stage: Stage, b: &[u8], tags: Tags) -> Result<(), Viol> {
    cx.note(|| format!("{stage:?}: server sends {}", hex(b)));
    let mut d = match stage {
        Stage::Handshake => {
            let mut d = Drive::new(cx, tags);
            d.settle()?;
            d
        }
        Stage::Open => Drive::open(cx, tags)?,
    };
    cx.events += 1;
    let mut all = vec![];
    if stage == Stage::Open {
        all.extend(marker(1));
    }
    all.extend_from_slice(b);
    d.srv(&all);
    d.settle()?;
    cx.state(d.o.hash(&d.s));
    let fin = |d: &Drive, cx: &mut Ctx| {
        let e = d.s.end.clone();
        let n = d.s.notifs.len();
        cx.note(|| format!("=> {e:?}, {n} notifications"));
    };
    if d.s.end.is_none() {
        // a packet after it, and a command
        cx.events += 2;
        d.srv(&marker(2));
        d.s.cmd(0, &Cmd::Pub { topic: "c".into(), payload: Pay::Bytes(vec![1]), qos: Some(1), props: vec![] });
        let r = d.settle();
        if r.is_err() {
            fin(&d, cx);
        }
        r?;
        cx.state(d.o.hash(&d.s));
    }
    if d.s.end.is_none() {
        cx.events += 1;
        d.o.env_eof = true;
        d.s.with(|c| c.push(Seg::Eof));
        d.s.settled = false;
        let r = d.settle();
        if r.is_err() {
            fin(&d, cx);
        }
        r?;
    }
    fin(&d, cx);
    Ok(())
}

pub const TYPES: &[u8] = &[0x00, 0x10, 0x20, 0x30, 0x31, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3A, 0x3D, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xA2, 0xB0, 0xC0, 0xD0, 0xE0, 0xF0, 0x22, 0x41, 0x9F, 0xBF, 0xD1, 0xE8];

/// Every header byte with every body of 0 or 1 bytes.
pub fn tiny(stage: Stage, tags: Tags) -> Space {
    space(format!("every header byte, bodies of 0 and 1 bytes, {stage:?}"), move |cx| {
        let h = cx.choose(256) as u8;
        let b = cx.choose(257);
        let v = if b == 0 { vec![h, 0] } else { vec![h, 1, (b - 1) as u8] };
        deliver(cx, stage, &v, tags)
    })
}

/// Every 2-byte body of the given header bytes.
pub fn two(stage: Stage, headers: &'static [u8], tags: Tags) -> Space {
    space(format!("every 2-byte body for {} header bytes, {stage:?}", headers.len()), move |cx| {
        let h = headers[cx.choose(headers.len())];
        let a = cx.choose(256) as u8;
        let b = cx.choose(256) as u8;
        deliver(cx, stage, &[h, 2, a, b], tags)
    })
}

/// Every body of `min..=max` bytes over an alphabet; the remaining length is right.
pub fn bodies(stage: Stage, h: u8, lead: &'static [u8], alpha: &'static [u8], min: usize, max: usize, tags: Tags) -> Space {
    space(format!("header {h:02x} then {} fixed and {min}..={max} bytes over {} values, {stage:?}", lead.len(), alpha.len()), move |cx| {
        let n = min + cx.choose(max - min + 1);
        let mut b = lead.to_vec();
        for _ in 0..n {
            b.push(alpha[cx.choose(alpha.len())]);
        }
        deliver(cx, stage, &frame(h, &b), tags)
    })
}

/// Length prefixes of every shape, followed by a few bytes.
pub fn prefixes(stage: Stage, tags: Tags) -> Space {
    const A: &[u8] = &[0, 1, 2, 0x7F, 0x80, 0x81, 0x82, 0xFF];
    space(format!("every length prefix of up to 5 bytes over 8 values, {stage:?}"), move |cx| {
        let h = TYPES[cx.choose(TYPES.len())];
        let mut v = vec![h];
        for _ in 0..5 {
            let x = A[cx.choose(A.len())];
            v.push(x);
            if x < 0x80 {
                break;
            }
        }
        let body: &[u8] = [&[][..], &[0], &[0, 1, 0]][cx.choose(3)];
        v.extend_from_slice(body);
        deliver(cx, stage, &v, tags)
    })
}

/// Property blocks: every length byte and property id combination with small contents.
pub fn some_props() -> Vec<Vec<RProp>> {
    vec![
        vec![RProp::Pfi(0)],
        vec![RProp::Pfi(1)],
        vec![RProp::Expiry(0x01020304)],
        vec![RProp::Resp("r/é".into())],
        vec![RProp::Corr(vec![0, 255])],
        vec![RProp::Corr(vec![])],
        vec![RProp::User("k".into(), "v".into())],
        vec![RProp::User("".into(), "".into())],
        vec![RProp::Expiry(60), RProp::Resp("r".into())],
        vec![RProp::Pfi(1), RProp::Expiry(7), RProp::Resp("r".into()), RProp::Corr(vec![9]), RProp::User("a".into(), "b".into()), RProp::User("a".into(), "c".into())],
    ]
}

pub fn ack_props() -> Vec<Vec<RProp>> {
    vec![
        vec![],
        vec![RProp::Reason("".into())],
        vec![RProp::Reason("why".into())],
        vec![RProp::User("k".into(), "v".into())],
        vec![RProp::User("k".into(), "v".into()), RProp::User("".into(), "".into())],
        vec![RProp::Reason("n".into()), RProp::User("k".into(), "é".into())],
        vec![RProp::User("x".into(), "y".into()), RProp::Reason("n".into())],
    ]
}

/// Well-formed packets of every kind, the seeds of the mutation neighbourhood.
pub fn seeds(stage: Stage) -> Vec<Vec<u8>> {
    let mut v = vec![];
    if stage == Stage::Handshake {
        for p in ack_props() {
            v.push(connack(false, 0, &p));
        }
        v.push(connack(true, 0, &[]));
        v.push(connack(false, 0x87, &[RProp::Reason("no".into())]));
        v.push(suback(1, 0, &[]));
        v.push(disconnect(0x8B));
        return v;
    }
    for p in some_props() {
        v.push(publish(false, 0, false, "a", 0, &p, b"x"));
    }
    v.push(publish(false, 0, false, "", 0, &[], b""));
    v.push(publish(true, 1, true, "t/\u{e9}", 0x0102, &[RProp::Pfi(1)], "h\u{e9}".as_bytes()));
    v.push(publish(false, 1, false, "ab", 0xFFFF, &[RProp::User("k".into(), "v".into())], &[0xFF, 0]));
    for p in ack_props() {
        v.push(suback(1, 1, &p));
        v.push(unsuback(2, 0x11, &p));
        v.push(puback_p(3, 0x10, &p));
        v.push(disconnect_p(0x8B, &p));
    }
    v.push(puback(5));
    v.push(puback_r(5, 0));
    v.push(pingresp());
    v.push(disconnect(0));
    v.push(disconnect(0x81));
    v.push(disconnect_p(0, &[]));
    v
}

fn fix_len(p: &[u8]) -> (u8, Vec<u8>) {
    let (_, n, _) = get_vbi(&p[1..]).unwrap();
    (p[0], p[1 + n..].to_vec())
}

/// Every single-byte substitution.
pub fn substitutions(stage: Stage, tags: Tags) -> Space {
    let seeds = seeds(stage);
    space(format!("every single-byte substitution in {} packets, {stage:?}", seeds.len()), move |cx| {
        let mut p = seeds[cx.choose(seeds.len())].clone();
        let i = cx.choose(p.len());
        p[i] = cx.choose(256) as u8;
        deliver(cx, stage, &p, tags)
    })
}

/// Every truncation (length adjusted or not), deletion, duplication and insertion of a byte.
pub fn edits(stage: Stage, tags: Tags) -> Space {
    let seeds = seeds(stage);
    const INS: &[u8] = &[0, 1, 2, 0x1F, 0x26, 0x7F, 0x80, 0xFF];
    space(format!("every truncation, deletion and insertion in {} packets, {stage:?}", seeds.len()), move |cx| {
        let p = &seeds[cx.choose(seeds.len())];
        let (h, mut body) = fix_len(p);
        let adjust = cx.choose(2) == 0;
        match cx.choose(4) {
            0 => {
                let n = cx.choose(body.len() + 1);
                body.truncate(n);
            }
            1 if !body.is_empty() => {
                let i = cx.choose(body.len());
                body.remove(i);
            }
            2 => {
                let i = cx.choose(body.len() + 1);
                body.insert(i, INS[cx.choose(INS.len())]);
            }
            _ => {
                // declared length off by some
                let d = cx.choose(9) as i64 - 4;
                let n = (body.len() as i64 + d).max(0) as usize;
                let mut v = vec![h];
                v.extend(vbi(n));
                v.extend_from_slice(&body);
                return deliver(cx, stage, &v, tags);
            }
        }
        let v = if adjust {
            frame(h, &body)
        } else {
            let mut v = vec![h];
            v.extend(vbi(p.len() - 2));
            v.extend_from_slice(&body);
            v
        };
        deliver(cx, stage, &v, tags)
    })
}

/// Two substitutions over a small set of values.
pub fn double_subst(stage: Stage, tags: Tags) -> Space {
    let seeds = seeds(stage);
    const V: &[u8] = &[0, 1, 2, 3, 0x1F, 0x26, 0x7F, 0x80, 0x81, 0xFF];
    space(format!("every pair of substitutions over {} values in {} packets, {stage:?}", V.len(), seeds.len()), move |cx| {
        let mut p = seeds[cx.choose(seeds.len())].clone();
        if p.len() < 3 {
            cx.trivial = true;
            return Ok(());
        }
        let i = cx.choose(p.len() - 1);
        let j = i + 1 + cx.choose(p.len() - 1 - i);
        p[i] = V[cx.choose(V.len())];
        p[j] = V[cx.choose(V.len())];
        deliver(cx, stage, &p, tags)
    })
}

/// All well-formed PUBLISH packets over a grammar.
pub fn publishes(max_props: usize, tags: Tags) -> Space {
    let one: Vec<RProp> = vec![
        RProp::Expiry(0),
        RProp::Expiry(0xFFFF_FFFF),
        RProp::Expiry(0x0102_0304),
        RProp::Resp("r".into()),
        RProp::Resp("\"q\\\n".into()),
        RProp::Corr(vec![]),
        RProp::Corr(vec![0, 1, 255]),
        RProp::User("k".into(), "v".into()),
        RProp::User("".into(), "é\u{1F600}".into()),
    ];
    space(format!("well-formed PUBLISH: flags, topics, identifiers, up to {max_props} properties, payloads"), move |cx| {
        let qos = cx.choose(2) as u8;
        let dup = qos > 0 && cx.choose(2) == 1;
        let retain = cx.choose(2) == 1;
        let topic = ["a", "", "x/\u{e9}/z", "with \"quotes\" \\ and\n"][cx.choose(4)];
        let pid = if qos > 0 { [1u16, 2, 255, 256, 0x0203, 65535][cx.choose(6)] } else { 0 };
        let mut ps = vec![];
        let fmt = cx.choose(3);
        let n = cx.choose(max_props + 1);
        for _ in 0..n {
            ps.push(one[cx.choose(one.len())].clone());
        }
        if fmt > 0 {
            let at = if n > 0 { cx.choose(2) * n } else { 0 };
            ps.insert(at, RProp::Pfi(fmt as u8 - 1));
        }
        let payload: &[u8] = [&b""[..], b"x", "h\u{e9}\"\\\n\0".as_bytes(), &[0xFF, 0xC3]][cx.choose(if fmt == 2 { 3 } else { 4 })];
        let p = publish(dup, qos, retain, topic, pid, &ps, payload);
        deliver(cx, Stage::Open, &p, tags)
    })
}

/// Sizes around the length-prefix and buffer boundaries.
pub fn sizes(tags: Tags, thorough: bool) -> Space {
    let mut sizes: Vec<usize> = (0..=300).collect();
    for m in [1024usize, 4096, 8192, 16384, 32768, 65536, 2097152] {
        let w = if m == 2097152 { 12 } else { 24 };
        sizes.extend(m - w..m + w);
    }
    if thorough {
        sizes.extend(300..8300);
    }
    space(format!("PUBLISH of {} payload sizes, in one read or in pieces", sizes.len()), move |cx| {
        let n = sizes[cx.choose(sizes.len())];
        let qos = cx.choose(2) as u8;
        let text = cx.choose(2) == 1;
        let payload: Vec<u8> = (0..n).map(|i| if text { b'a' + (i % 26) as u8 } else { (i % 251) as u8 }).collect();
        let p = publish(false, qos, false, "t", 7, &[RProp::Pfi(text as u8)], &payload);
        deliver(cx, Stage::Open, &p, tags)
    })
}

/// Topic, property and string lengths.
pub fn strings(tags: Tags) -> Space {
    let mut l: Vec<usize> = (0..=260).collect();
    l.extend([16370, 16383, 16384, 16390, 32767, 32768, 65534, 65535]);
    space(format!("strings of {} lengths in every string field", l.len()), move |cx| {
        let n = l[cx.choose(l.len())];
        let s: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        let p = match cx.choose(8) {
            0 => publish(false, 1, false, &s, 7, &[], b"p"),
            1 => publish(false, 1, false, "t", 7, &[RProp::Resp(s)], b"p"),
            2 => publish(false, 1, false, "t", 7, &[RProp::Corr(s.into_bytes())], b"p"),
            3 => publish(false, 1, false, "t", 7, &[RProp::User(s.clone(), "v".into()), RProp::User("k".into(), s)], b"p"),
            4 => suback(3, 0, &[RProp::Reason(s)]),
            5 => unsuback(3, 0, &[RProp::User("k".into(), s)]),
            6 => puback_p(3, 0, &[RProp::Reason(s)]),
            _ => puback_p(3, 0, &[RProp::User(s.clone(), s)]),
        };
        deliver(cx, Stage::Open, &p, tags)
    })
}

/// All legal CONNACK / SUBACK / UNSUBACK / PUBACK / PINGRESP packets over a grammar.
pub fn answers(tags: Tags, max_props: usize) -> Vec<Space> {
    let one: Vec<RProp> = vec![
        RProp::Reason("".into()),
        RProp::Reason("a \"b\" \\".into()),
        RProp::User("k".into(), "v".into()),
        RProp::User("".into(), "\u{e9}".into()),
        RProp::User("k".into(), "".into()),
    ];
    let list = move |cx: &mut Ctx| {
        let n = cx.choose(max_props + 1);
        let mut v: Vec<RProp> = vec![];
        for _ in 0..n {
            let p = one[cx.choose(one.len())].clone();
            if matches!(p, RProp::Reason(_)) && v.iter().any(|x| matches!(x, RProp::Reason(_))) {
                continue;
            }
            v.push(p);
        }
        v
    };
    let l2 = list.clone();
    vec![
        space("every CONNACK: session present, reason codes, properties", move |cx| {
            let sp = cx.choose(2) == 1;
            let r = CONNACK_REASONS[cx.choose(CONNACK_REASONS.len())].0;
            let ps = l2(cx);
            if r != 0 && sp {
                cx.trivial = true;
                return Ok(());
            }
            deliver(cx, Stage::Handshake, &connack(sp, r, &ps), tags)
        }),
        space("every SUBACK, UNSUBACK, PUBACK: reason codes, identifiers, properties", move |cx| {
            let k = cx.choose(3);
            let pid = [1u16, 2, 255, 256, 0x0203, 65535][cx.choose(6)];
            let ps = list(cx);
            let p = match k {
                0 => suback(pid, SUBACK_REASONS[cx.choose(SUBACK_REASONS.len())].0, &ps),
                1 => unsuback(pid, UNSUBACK_REASONS[cx.choose(UNSUBACK_REASONS.len())].0, &ps),
                _ => {
                    let r = PUBACK_REASONS[cx.choose(PUBACK_REASONS.len())];
                    match cx.choose(3) {
                        0 => puback(pid),
                        1 => puback_r(pid, r),
                        _ => puback_p(pid, r, &ps),
                    }
                }
            };
            deliver(cx, Stage::Open, &p, tags)
        }),
        space("SUBACK, UNSUBACK, PUBACK for every identifier", move |cx| {
            let hi = cx.choose(256) as u16;
            let lo = cx.choose(256) as u16;
            let pid = hi << 8 | lo;
            let p = match cx.choose(3) {
                0 => suback(pid, 0, &[]),
                1 => unsuback(pid, 0, &[]),
                _ => puback(pid),
            };
            deliver(cx, Stage::Open, &p, tags)
        }),
        space("PINGRESP at any time", move |cx| {
            let n = 1 + cx.choose(3);
            let mut b = vec![];
            for _ in 0..n {
                b.extend(pingresp());
            }
            deliver(cx, Stage::Open, &b, tags)
        }),
    ]
}
