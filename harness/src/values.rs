//! Values rather than histories: every character, every length, dictionaries of topics and
//! payloads, long property lists - in both directions, many packets per session.
use crate::explore::*;
use crate::fam::*;
use crate::mqtt::*;
use crate::obs::*;
use crate::sess::*;

const BLOCK: u32 = 272;
const BLOCKS: usize = (0x110000 / BLOCK) as usize;

/// Deliver the packets one by one to one session (or all at once).
fn feed(cx: &mut Ctx, t: Tags, pkts: impl Iterator<Item = Vec<u8>>, at_once: bool) -> Result<(), Viol> {
    let mut d = Drive::open(cx, t)?;
    let mut n = 0u64;
    for p in pkts {
        n += 1;
        d.srv(&p);
        if !at_once || n % 64 == 0 {
            let r = d.settle();
            if r.is_err() || d.s.end.is_some() {
                cx.note(|| format!("server sends {}", crate::bytes::hex(&p[..p.len().min(120)])));
            }
            r?;
        }
        if d.s.end.is_some() {
            break;
        }
    }
    d.settle()?;
    cx.events += n;
    cx.state(d.o.hash(&d.s));
    Ok(())
}

fn issue_all(cx: &mut Ctx, t: Tags, cmds: impl Iterator<Item = Cmd>) -> Result<(), Viol> {
    let mut d = Drive::open(cx, t)?;
    let mut n = 0u64;
    for c in cmds {
        n += 1;
        let r = d.s.cmd(0, &c);
        let fits = crate::outc::fits(&c);
        if r != Some(fits) {
            cx.note(|| clip(&format!("{c:?}")));
            return viol("REFUSE", format!("{} was {}", clip(&format!("{c:?}")), if fits { "refused" } else { "accepted although MQTT cannot represent it" }));
        }
        let r = d.settle();
        if r.is_err() {
            cx.note(|| clip(&format!("{c:?}")));
        }
        r?;
        // acknowledge, so that identifiers stay small
        if let Some((p, k)) = d.o.oldest() {
            let a = d.ack(p, k, false);
            d.srv(&a);
        }
    }
    d.settle()?;
    cx.events += n;
    cx.state(d.o.hash(&d.s));
    Ok(())
}

fn chars_of(block: usize) -> impl Iterator<Item = char> {
    (block as u32 * BLOCK..(block as u32 + 1) * BLOCK).filter_map(char::from_u32)
}

/// Where a character may matter: alone, first, last, inside, doubled.
fn places(c: char) -> [String; 4] {
    [c.to_string(), format!("{c}a{c}"), format!("b{c}c"), format!("{c}{c}")]
}

pub fn chars_in(t: Tags) -> Space {
    space("every Unicode character in topics, text payloads and properties of messages", move |cx| {
        let b = cx.choose(BLOCKS);
        cx.note(|| format!("characters from U+{:X} on", b as u32 * BLOCK));
        feed(
            cx,
            t,
            chars_of(b).map(|c| {
                let p = places(c);
                let topic = if matches!(c, '\0' | '#' | '+') { "t".to_owned() } else { p[c as usize % 4].clone() };
                publish(false, (c as u32 % 2) as u8, false, &topic, 7, &[RProp::Pfi(1), RProp::User(p[(c as usize + 1) % 4].clone(), p[2].clone()), RProp::Resp(if matches!(c, '\0' | '#' | '+') { "r".into() } else { p[3].clone() })], p[1].as_bytes())
            }),
            false,
        )
    })
}

pub fn chars_answers(t: Tags) -> Space {
    space("every Unicode character in the properties of answers", move |cx| {
        let b = cx.choose(BLOCKS);
        cx.note(|| format!("characters from U+{:X} on", b as u32 * BLOCK));
        feed(
            cx,
            t,
            chars_of(b).map(|c| {
                let p = places(c);
                let ps = [RProp::Reason(p[c as usize % 4].clone()), RProp::User(p[(c as usize + 1) % 4].clone(), p[(c as usize + 2) % 4].clone())];
                match c as u32 % 3 {
                    0 => suback(9, 0, &ps),
                    1 => unsuback(9, 0x11, &ps),
                    _ => puback_p(9, 0x10, &ps),
                }
            }),
            false,
        )
    })
}

pub fn chars_out(t: Tags) -> Space {
    space("every Unicode character in topics, filters, payloads and properties of requests", move |cx| {
        let b = cx.choose(BLOCKS);
        cx.note(|| format!("characters from U+{:X} on", b as u32 * BLOCK));
        issue_all(
            cx,
            t,
            chars_of(b).map(|c| {
                let p = places(c);
                match c as u32 % 5 {
                    0 => Cmd::Sub(p[(c as usize / 5) % 4].clone(), 1),
                    1 => Cmd::Unsub(p[(c as usize / 5) % 4].clone()),
                    _ => Cmd::Pub {
                        topic: p[(c as usize / 5) % 4].clone(),
                        payload: Pay::Text(p[1].clone()),
                        qos: Some((c as u32 % 2) as u8),
                        props: vec![RProp::User(p[2].clone(), p[0].clone()), RProp::Resp(p[3].clone())],
                    },
                }
            }),
        )
    })
}

/// Topics and filters that are special somewhere in the world of MQTT.
pub const TOPICS: &[&str] = &[
    "a", "a/b", "/", "//", "/a", "a/", "a//b", " ", " a", "a ", "\t", "$", "$SYS", "$SYS/broker/uptime", "$share/g/a", "$share//a", "$queue/a", "$aws/things", "$dollar/x", "A", "a.b.c", "a,b", "a:b", "a;b", "\"q\"", "'q'", "\\", "a\\b", "{}", "{a}", "[1]", "a=b", "a&b", "%s", "%00", "null", "None",
    "0", "-1", "true", "apps/x/api/v1", "agents/a.b.c/api/v1/out/x", "broadcast/x", "broadcasts/x/api/v1/rooms/1/events", "loadbalancer", "\u{e9}", "e\u{301}", "\u{1F600}", "\u{FEFF}a", "a\u{200b}b", "\u{202e}x", "\u{10FFFF}", "\u{FFFD}", "\u{7f}", "\u{80}", "\u{85}", "a\nb", "a\r\nb",
    "$share/g/a/b/c", "will", "status", "retain", "$", "$$", "ping", "connect",
];
/// ... of which these are legal as filters only.
pub const FILTERS: &[&str] = &["#", "+", "+/+", "a/#", "a/+/b", "/#", "/+", "+/", "$SYS/#", "$share/g/#", "$share/g/+/a", "a/+", "a#", "a+", "#/a", "##"];

pub fn payloads() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ["", "x", " ", "0", "{}", "{\"a\":1}", "null", "true", "\"", "\\", "\0", "\n", "\r\n", " x ", "\u{feff}x", "\u{e9}", "line\nline", "PUBLISH", "0x30"].iter().map(|s| s.as_bytes().to_vec()).collect();
    v.extend([vec![0xFF], vec![0x80, 0], vec![0, 0, 0], vec![0x30, 0], vec![0xC0, 0], vec![0xE0, 0], vec![0xEF, 0xBB, 0xBF], vec![0xFF, 0xFE, b'a', 0], vec![0xED, 0xA0, 0x80], vec![0x1f, 0x8b, 8], vec![0; 64], vec![0xFF; 64]]);
    v
}

pub fn dictionary_in(t: Tags) -> Space {
    let pl = payloads();
    space("messages over dictionaries of topics and payloads, any flags, twice each", move |cx| {
        let topic = TOPICS[cx.choose(TOPICS.len())];
        let flags = cx.choose(3);
        cx.note(|| format!("topic {topic:?}, flags {flags}"));
        let pl = &pl;
        let pkts: Vec<Vec<u8>> = pl
            .iter()
            .flat_map(|p| {
                let pfi = std::str::from_utf8(p).is_ok();
                let a = publish(flags == 2, (flags > 0) as u8, flags == 1, topic, 3, &[], p);
                let b = publish(flags == 2, (flags > 0) as u8, flags != 1, topic, 3, &[RProp::Pfi(pfi as u8), RProp::User(topic.into(), "v".into())], p);
                [a.clone(), b.clone(), b, a]
            })
            .collect();
        feed(cx, t, pkts.into_iter(), cx_even(topic))
    })
}

fn cx_even(s: &str) -> bool {
    s.len() % 2 == 0
}

pub fn dictionary_out(t: Tags) -> Space {
    let pl = payloads();
    space("requests over dictionaries of topics, filters and payloads, twice each", move |cx| {
        let all: Vec<&str> = TOPICS.iter().chain(FILTERS).copied().collect();
        let topic = all[cx.choose(all.len())];
        let q = cx.choose(4);
        cx.note(|| format!("topic {topic:?}, QoS choice {q}"));
        let qos = [None, Some(0), Some(1), Some(2)][q];
        let mut v = vec![];
        for p in &pl {
            let text = std::str::from_utf8(p).ok().map(|s| Pay::Text(s.into()));
            for payload in [Some(Pay::Bytes(p.clone())), text].into_iter().flatten() {
                let c = Cmd::Pub { topic: topic.into(), payload: payload.clone(), qos, props: vec![] };
                v.push(c.clone());
                v.push(c);
                v.push(Cmd::Pub { topic: topic.into(), payload, qos, props: vec![RProp::Resp(topic.into()), RProp::User(topic.into(), topic.into()), RProp::User(topic.into(), topic.into())] });
            }
        }
        for k in 0..3 {
            v.push(Cmd::Sub(topic.into(), k));
            v.push(Cmd::Sub(topic.into(), k));
            v.push(Cmd::Unsub(topic.into()));
            v.push(Cmd::Unsub(topic.into()));
        }
        issue_all(cx, t, v.into_iter())
    })
}

fn many(kind: usize, n: usize) -> Vec<RProp> {
    (0..n)
        .map(|i| match kind {
            0 => RProp::User(format!("k{i}"), format!("v{}", i * 7)),
            1 => RProp::User("k".into(), format!("{i}")),
            2 => RProp::User("same".into(), "same".into()),
            3 => RProp::User(String::new(), String::new()),
            _ => match i {
                0 => RProp::Expiry(3),
                1 => RProp::Corr(vec![1, 2]),
                2 => RProp::Resp("r".into()),
                _ => RProp::User(format!("{}", 1000 - i), "z".into()),
            },
        })
        .collect()
}

pub fn counts(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=70).collect();
    v.extend(100..=132);
    v.extend([200, 255, 256, 257, 300, 512, 1000]);
    if th {
        v.extend([2000, 3000, 4095, 4096, 4097, 10000]);
        v.extend(300..600);
    }
    v
}

/// Long lists of properties, in both directions.
pub fn many_in(t: Tags, th: bool) -> Space {
    let cs = counts(th);
    space("long property lists, incoming", move |cx| {
        let n = cs[cx.choose(cs.len())];
        let kind = cx.choose(5);
        cx.note(|| format!("{n} properties of kind {kind}"));
        let ps = many(kind, n);
        let us: Vec<RProp> = ps.iter().filter(|p| matches!(p, RProp::User(..))).cloned().collect();
        let v = vec![publish(false, 1, false, "t", 9, &ps, b"x"), publish(false, 0, false, "t", 0, &ps, b""), suback(4, 0, &us), unsuback(4, 0, &us), puback_p(4, 0, &us), publish(false, 1, false, "t", 10, &[], b"x")];
        feed(cx, t, v.into_iter(), kind % 2 == 0)
    })
}

pub fn many_out(t: Tags, th: bool) -> Space {
    let cs = counts(th);
    space("long property lists, outgoing", move |cx| {
        let n = cs[cx.choose(cs.len())];
        let kind = cx.choose(5);
        cx.note(|| format!("{n} properties of kind {kind}"));
        let ps = many(kind, n);
        let v = (0..3).map(move |q| Cmd::Pub { topic: "t".into(), payload: Pay::Text("x".into()), qos: Some(q), props: ps.clone() });
        issue_all(cx, t, v)
    })
}

fn numbers() -> Vec<u32> {
    let mut v = vec![];
    for pos in 0..4 {
        for b in 0..=255u32 {
            for fill in [0u32, 0xFFFF_FFFF] {
                v.push((fill & !(0xFF << (8 * pos))) | (b << (8 * pos)));
            }
        }
    }
    for i in 0..32 {
        for d in [-1i64, 0, 1] {
            v.push(((1i64 << i) + d) as u32);
        }
    }
    v.extend([0x01020304, 86_400, 3_600, 1_000_000, i32::MAX as u32, 4_000_000_000]);
    v.sort();
    v.dedup();
    v
}

/// Message expiry intervals: every value of every byte, every power of two and its neighbours.
pub fn numbers_in(t: Tags) -> Space {
    let v = numbers();
    space("message expiry intervals, incoming", move |cx| {
        let k = cx.choose(40);
        let v = &v;
        feed(cx, t, v.iter().skip(k).step_by(40).map(|n| publish(false, 0, false, "t", 0, &[RProp::Expiry(*n), RProp::Corr(n.to_be_bytes().to_vec())], &n.to_le_bytes())), k % 2 == 0)
    })
}

pub fn numbers_out(t: Tags) -> Space {
    let v = numbers();
    space("message expiry intervals, outgoing", move |cx| {
        let k = cx.choose(40);
        let v = v.clone();
        issue_all(cx, t, v.into_iter().skip(k).step_by(40).map(|n| Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(n.to_le_bytes().to_vec()), qos: Some((n % 3) as u8), props: vec![RProp::Expiry(n), RProp::Corr(n.to_be_bytes().to_vec())] }))
    })
}

fn text(n: usize, salt: usize) -> String {
    (0..n).map(|i| (b'a' + ((i * 7 + salt) % 26) as u8) as char).collect()
}

/// Lengths: thorough all of 0..=65535, quick a dense beginning, every 61st and the ends.
fn lengths(th: bool) -> Vec<usize> {
    if th {
        (0..=65535).collect()
    } else {
        let mut v: Vec<usize> = (0..2100).collect();
        v.extend((2100..65536).step_by(61));
        for m in [4096usize, 8192, 16384, 32768, 65536] {
            v.extend(m - 16..(m + 16).min(65536));
        }
        v.sort();
        v.dedup();
        v
    }
}

pub fn lengths_in(t: Tags, th: bool) -> Space {
    let l = lengths(th);
    space(format!("{} lengths of every field of incoming packets", l.len()), move |cx| {
        let k = cx.choose(l.len().div_ceil(8));
        let ns: Vec<usize> = l.iter().copied().skip(8 * k).take(8).collect();
        cx.note(|| format!("lengths {ns:?}"));
        feed(
            cx,
            t,
            ns.into_iter().flat_map(|n| {
                let s = |salt| text(n, salt);
                [
                    publish(false, 0, false, if n == 0 { "t".to_owned() } else { s(1) }.as_str(), 0, &[], b"p"),
                    publish(false, 1, false, "t", 7, &[RProp::Pfi(1), RProp::User(s(2), "v".into())], s(3).as_bytes()),
                    publish(false, 1, false, "t", 8, &[RProp::Corr(s(4).into_bytes()), RProp::User("k".into(), s(5))], &[]),
                    suback(3, 0, &[RProp::Reason(s(6))]),
                    unsuback(3, 0, &[RProp::User(s(7), "x".into())]),
                    puback_p(3, 0, &[RProp::Reason(s(8))]),
                ]
            }),
            false,
        )
    })
}

pub fn lengths_out(t: Tags, th: bool) -> Space {
    let l = lengths(th);
    space(format!("{} lengths of every field of requests", l.len()), move |cx| {
        let k = cx.choose(l.len().div_ceil(8));
        let ns: Vec<usize> = l.iter().copied().skip(8 * k).take(8).collect();
        cx.note(|| format!("lengths {ns:?}"));
        issue_all(
            cx,
            t,
            ns.into_iter().flat_map(|n| {
                let s = |salt| text(n, salt);
                [
                    Cmd::Sub(s(1), (n % 3) as u8),
                    Cmd::Unsub(s(2)),
                    Cmd::Pub { topic: s(3), payload: Pay::Text(s(4)), qos: Some((n % 3) as u8), props: vec![] },
                    Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(s(4).into_bytes()), qos: Some((n % 2) as u8), props: vec![RProp::User(s(5), "v".into()), RProp::Corr(vec![1; n])] },
                ]
            }),
        )
    })
}

/// All identifiers in every kind of acknowledgement.
pub fn every_ack(t: Tags) -> Space {
    space("every identifier in every kind of acknowledgement", move |cx| {
        let b = cx.choose(256) as u16;
        feed(cx, t, (0..256u16).map(|l| b << 8 | l).filter(|p| *p > 0).flat_map(|p| [suback(p, (p % 3) as u8, &[]), unsuback(p, 0x11, &[]), puback(p), puback_p(p, 0x10, &[])]), true)
    })
}

/// Property lists so long that whatever treats them recursively runs out of stack, and whatever
/// takes quadratic time takes minutes.
pub fn huge_lists(t: Tags) -> Space {
    use crate::bytes::{deliver, Stage};
    space("property lists of up to 400,000 entries in every kind of packet", move |cx| {
        let n = [3_000usize, 20_000, 100_000, 400_000][cx.choose(4)];
        let end = cx.choose(3);
        let kind = cx.choose(9);
        cx.note(|| format!("packet {kind} with {n} properties, ending {end}"));
        let one: Vec<u8> = match kind {
            1 => vec![1, 0],
            2 => vec![9, 0, 0],
            3 => vec![8, 0, 1, b'r'],
            _ => vec![0x26, 0, 0, 0, 0],
        };
        let mut l = one.repeat(n);
        match end {
            0 => {}
            // something unknown, something incomplete
            1 => l.push(0x7f),
            _ => l.extend([0x26, 0, 9]),
        }
        let mut ps = vbi(l.len());
        ps.extend(l);
        let with = |h: u8, head: &[u8], tail: &[u8]| frame(h, &[head, &ps, tail].concat());
        let (stage, b) = match kind {
            0..=3 => (Stage::Open, with(0x32, &[0, 1, b't', 0, 7], b"x")),
            4 => (Stage::Open, with(0x90, &[0, 7], &[0])),
            5 => (Stage::Open, with(0xB0, &[0, 7], &[0])),
            6 => (Stage::Open, with(0x40, &[0, 7, 0], &[])),
            7 => (Stage::Open, with(0xE0, &[0], &[])),
            _ => (Stage::Handshake, with(0x20, &[0, 0], &[])),
        };
        deliver(cx, stage, &b, t)
    })
}

/// Byte offsets in a text: densely at the beginning, and around the sizes of buffers.
pub fn offsets(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..if th { 1100 } else { 140 }).collect();
    for m in [255usize, 256, 511, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65500] {
        v.extend(m - 4..m + 2);
    }
    v.sort();
    v.dedup();
    v
}
const TAILS: [usize; 4] = [0, 1, 7, 33];

fn around(c: &str, at: usize, tail: usize) -> String {
    text(at, 1) + c + &text(tail, 2)
}

/// A multi-byte character at every offset of every field.
pub fn offsets_in(t: Tags, th: bool) -> Space {
    let o = offsets(th);
    space("a multi-byte character at every offset of every field, incoming", move |cx| {
        let at = o[cx.choose(o.len())];
        let c = ["\u{e9}", "\u{20ac}", "\u{1F600}"][cx.choose(3)];
        cx.note(|| format!("{c:?} at byte {at}"));
        feed(
            cx,
            t,
            TAILS.iter().flat_map(|n| {
                let s = around(c, at, *n);
                [
                    publish(false, 0, false, &s, 0, &[], b"p"),
                    publish(false, 1, false, "t", 7, &[RProp::Pfi(1), RProp::User(s.clone(), "v".into())], s.as_bytes()),
                    publish(false, 1, false, "t", 8, &[RProp::Corr(s.clone().into_bytes()), RProp::User("k".into(), s.clone())], s.as_bytes()),
                    publish(false, 0, false, "t", 0, &[RProp::Resp(s.clone())], b""),
                    suback(3, 0, &[RProp::Reason(s.clone())]),
                    unsuback(3, 0, &[RProp::User(s.clone(), s.clone())]),
                    puback_p(3, 0, &[RProp::Reason(s)]),
                ]
            }),
            at % 2 == 0,
        )
    })
}

pub fn offsets_out(t: Tags, th: bool) -> Space {
    let o = offsets(th);
    space("a multi-byte character at every offset of every field, outgoing", move |cx| {
        let at = o[cx.choose(o.len())];
        let c = ["\u{e9}", "\u{20ac}", "\u{1F600}"][cx.choose(3)];
        cx.note(|| format!("{c:?} at byte {at}"));
        issue_all(
            cx,
            t,
            TAILS.iter().flat_map(|n| {
                let s = around(c, at, *n);
                [
                    Cmd::Sub(s.clone(), 1),
                    Cmd::Unsub(s.clone()),
                    Cmd::Pub { topic: s.clone(), payload: Pay::Text(s.clone()), qos: Some(1), props: vec![] },
                    Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(s.clone().into_bytes()), qos: Some(0), props: vec![RProp::User(s.clone(), s.clone()), RProp::Resp(s)] },
                ]
            }),
        )
    })
}

/// Bytes that are no UTF-8 at every offset of every field.
pub fn offsets_bad(t: Tags, th: bool) -> Space {
    use crate::bytes::{deliver, Stage};
    let o = offsets(th);
    const BAD: [&[u8]; 8] = [&[0x80], &[0xFF], &[0xC0, 0x80], &[0xC3], &[0xE2, 0x82], &[0xED, 0xA0, 0x80], &[0xF0, 0x9F, 0x98], &[0xF4, 0x90, 0x80, 0x80]];
    space("bytes that are no UTF-8 at every offset of every field", move |cx| {
        let at = o[cx.choose(o.len())];
        let tail = TAILS[cx.choose(4)];
        let bad = BAD[cx.choose(8)];
        let kind = cx.choose(9);
        cx.note(|| format!("{bad:02x?} at byte {at}, {tail} bytes behind, field {kind}"));
        let mut s = text(at, 1).into_bytes();
        s.extend_from_slice(bad);
        s.extend(text(tail, 2).bytes());
        let st = |b: &[u8]| [&(b.len() as u16).to_be_bytes()[..], b].concat();
        let sect = |id: u8, parts: &[&[u8]]| {
            let b: Vec<u8> = std::iter::once(id).chain(parts.iter().flat_map(|p| st(p))).collect();
            [vbi(b.len()), b].concat()
        };
        let publ = |topic: &[u8], props: Vec<u8>, payload: &[u8]| frame(0x32, &[&st(topic)[..], &[0, 7], &props, payload].concat());
        let (stage, b) = match kind {
            0 => (Stage::Open, publ(&s, vec![0], b"x")),
            1 => (Stage::Open, publ(b"t", sect(0x08, &[&s]), b"x")),
            2 => (Stage::Open, publ(b"t", sect(0x26, &[&s, b"v"]), b"x")),
            3 => (Stage::Open, publ(b"t", sect(0x26, &[b"k", &s]), b"x")),
            4 => (Stage::Open, publ(b"t", vec![2, 1, 1], &s)),
            5 => (Stage::Open, frame(0x90, &[&[0, 3][..], &sect(0x1F, &[&s]), &[0]].concat())),
            6 => (Stage::Open, frame(0x40, &[&[0, 3, 0][..], &sect(0x26, &[b"k", &s])].concat())),
            7 => (Stage::Open, frame(0xB0, &[&[0, 3][..], &sect(0x26, &[&s, b""]), &[0]].concat())),
            _ => (Stage::Handshake, frame(0x20, &[&[0, 0][..], &sect(0x26, &[&s, b"v"])].concat())),
        };
        deliver(cx, stage, &b, t)
    })
}
