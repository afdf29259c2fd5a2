//! Outgoing packets: every request shape the client API accepts.
use crate::explore::*;
use crate::fam::*;
use crate::mqtt::*;
use crate::obs::*;
use crate::sess::*;

const T: Tags = CMD | WSTREAM | PANIC | END;

fn text(n: usize) -> String {
    (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
}

fn bin(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i % 253) as u8).collect()
}

/// Whether MQTT can represent the request.
pub fn fits(c: &Cmd) -> bool {
    let ok = |s: &str| s.len() <= 65535;
    match c {
        Cmd::Pub { topic, payload, props, .. } => {
            ok(topic)
                && props.iter().all(|p| match p {
                    RProp::Resp(s) => ok(s),
                    RProp::Corr(b) => b.len() <= 65535,
                    RProp::User(a, b) => ok(a) && ok(b),
                    _ => true,
                })
                && match payload {
                    Pay::Text(t) => t.len(),
                    Pay::Bytes(t) => t.len(),
                } < 268_000_000
        }
        Cmd::Sub(t, _) | Cmd::Unsub(t) => ok(t),
        Cmd::Disc => true,
    }
}

/// Issue the commands (before or after the connection is up), look at what is written.
fn send(cx: &mut Ctx, cmds: &[Cmd], early: bool) -> Result<(), Viol> {
    for c in cmds {
        cx.note(|| format!("{}{}", clip(&format!("{c:?}")), if early { " (before the connection is up)" } else { "" }));
    }
    let mut d = Drive::new(cx, T);
    let mut issue = |d: &mut Drive| -> Result<(), Viol> {
        for c in cmds {
            let r = d.s.cmd(0, c);
            if r != Some(fits(c)) {
                return viol("REFUSE", format!("{} was {}", clip(&format!("{c:?}")), if fits(c) { "refused" } else { "accepted although MQTT cannot represent it" }));
            }
            if !early {
                d.settle()?;
            }
        }
        Ok(())
    };
    if early {
        issue(&mut d)?;
    }
    d.settle()?;
    d.srv(&connack(false, 0, &[]));
    d.settle()?;
    if !early {
        issue(&mut d)?;
    }
    cx.events += cmds.len() as u64;
    // the session must still be of use
    if d.s.end.is_none() {
        d.s.cmd(0, &Cmd::Pub { topic: "after".into(), payload: Pay::Bytes(vec![]), qos: None, props: vec![] });
        d.settle()?;
    }
    let h = d.o.hash(&d.s);
    cx.state(h);
    cx.note(|| format!("=> {} packets, {} bytes", d.o.outs.len(), d.s.with(|c| c.out.len()).unwrap_or(0)));
    Ok(())
}

fn qos_of(cx: &mut Ctx) -> Option<u8> {
    [None, Some(0), Some(1), Some(2)][cx.choose(4)]
}

pub fn one_props() -> Vec<RProp> {
    vec![
        RProp::Expiry(0),
        RProp::Expiry(0x0102_0304),
        RProp::Expiry(0xFFFF_FFFF),
        RProp::Resp("".into()),
        RProp::Resp("re/sp\u{e9}".into()),
        RProp::Corr(vec![]),
        RProp::Corr(vec![0, 1, 2, 255]),
        RProp::User("".into(), "".into()),
        RProp::User("k\u{e9}".into(), "v".into()),
        RProp::User("k".into(), "longer value".into()),
        RProp::Pfi(1),
        RProp::Pfi(0),
    ]
}

pub fn spaces(thorough: bool) -> Vec<Space> {
    let mut lens: Vec<usize> = (0..=300).collect();
    for m in [1024usize, 8192, 16384, 32768, 65536, 2097152] {
        let w = if m == 2097152 { 20 } else { 32 };
        lens.extend(m - w..m + w);
    }
    if thorough {
        lens.extend(300..20000);
    }
    let mut slens: Vec<usize> = (0..=300).collect();
    slens.extend([16350usize, 16369, 16370, 16371, 16372, 16373, 16374, 16375, 16376, 16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 32767, 32768, 65500]);
    slens.extend(65520..=65535);
    let over: Vec<usize> = vec![65536, 65537, 65540, 65791, 66000, 131071, 131072, 131073, 200000];
    let mut s2 = slens.clone();
    s2.extend(over);
    let s3 = s2.clone();
    let np = if thorough { 4 } else { 3 };
    let mut v = vec![
        space(format!("PUBLISH: every combination of up to {np} properties, QoS, payload kind"), {
            let ps = one_props();
            move |cx: &mut Ctx| {
                let q = qos_of(cx);
                let n = cx.choose(np + 1);
                let props = (0..n).map(|_| ps[cx.choose(ps.len())].clone()).collect();
                let payload = if cx.choose(2) == 0 { Pay::Text("p\u{e9}".into()) } else { Pay::Bytes(vec![0xFF, 0]) };
                let early = n < 3 && cx.choose(2) == 1;
                send(cx, &[Cmd::Pub { topic: "t/x".into(), payload, qos: q, props }], early)
            }
        }),
        space(format!("PUBLISH: {} payload lengths", lens.len()), {
            move |cx: &mut Ctx| {
                let n = lens[cx.choose(lens.len())];
                let q = qos_of(cx);
                let payload = if cx.choose(2) == 0 { Pay::Text(text(n)) } else { Pay::Bytes(bin(n)) };
                send(cx, &[Cmd::Pub { topic: "t".into(), payload, qos: q, props: vec![] }], false)
            }
        }),
        space(format!("{} string lengths in every string field, up to and beyond 65,535", s2.len()), move |cx: &mut Ctx| {
            let n = s2[cx.choose(s2.len())];
            let q = Some(cx.choose(3) as u8);
            let p = |topic: String, props: Vec<RProp>| Cmd::Pub { topic, payload: Pay::Bytes(vec![7]), qos: q, props };
            let c = match cx.choose(7) {
                0 => p(text(n), vec![]),
                1 => p("t".into(), vec![RProp::Resp(text(n))]),
                2 => p("t".into(), vec![RProp::Corr(bin(n))]),
                3 => p("t".into(), vec![RProp::User(text(n), "v".into())]),
                4 => p("t".into(), vec![RProp::User("k".into(), text(n)), RProp::Expiry(5)]),
                5 => Cmd::Sub(text(n), q.unwrap()),
                _ => Cmd::Unsub(text(n)),
            };
            send(cx, &[c], false)
        }),
        space("multi-byte characters across the string limit", move |cx: &mut Ctx| {
            let n = s3[cx.choose(s3.len())];
            let ch = ["\u{e9}", "\u{20ac}", "\u{1F600}"][cx.choose(3)];
            let mut t = ch.repeat(n / ch.len());
            t.push_str(&text(n % ch.len()));
            let c = match cx.choose(3) {
                0 => Cmd::Pub { topic: t, payload: Pay::Text("\u{e9}".into()), qos: Some(1), props: vec![] },
                1 => Cmd::Sub(t, 2),
                _ => Cmd::Pub { topic: "t".into(), payload: Pay::Text("\u{e9}".into()), qos: Some(0), props: vec![RProp::User(t.clone(), t)] },
            };
            send(cx, &[c], false)
        }),
        space("property blocks around the length-prefix boundaries", move |cx: &mut Ctx| {
            let base = [100usize, 16360][cx.choose(2)];
            let n = base + cx.choose(40);
            let k = cx.choose(3);
            let q = Some(cx.choose(3) as u8);
            let props = match k {
                0 => vec![RProp::User("k".into(), text(n))],
                1 => vec![RProp::Corr(bin(n)), RProp::User("a".into(), "b".into())],
                _ => vec![RProp::Resp(text(n / 2)), RProp::User(text(n - n / 2), "".into())],
            };
            send(cx, &[Cmd::Pub { topic: "t".into(), payload: Pay::Text("x".into()), qos: q, props }], false)
        }),
        space("every payload byte and every pair of first bytes", move |cx: &mut Ctx| {
            let a = cx.choose(256) as u8;
            let b = cx.choose(256) as u8;
            let q = Some((a & 1) as u8);
            send(cx, &[Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(vec![a, b]), qos: q, props: vec![RProp::Corr(vec![b, a]), RProp::Expiry(u32::from_be_bytes([a, b, a, b]))] }], false)
        }),
        space("every ASCII character in topics and filters", move |cx: &mut Ctx| {
            let a = char::from_u32(cx.choose(128) as u32).unwrap();
            let b = char::from_u32([0x00u32, 0x20, 0x23, 0x2B, 0x2F, 0x7F, 0x80, 0xFFFD, 0x10FFFF][cx.choose(9)]).unwrap();
            let t: String = [a, b].iter().collect();
            let c = match cx.choose(3) {
                0 => Cmd::Pub { topic: t, payload: Pay::Text("x".into()), qos: Some(1), props: vec![] },
                1 => Cmd::Sub(t, (a as u32 % 3) as u8),
                _ => Cmd::Unsub(t),
            };
            send(cx, &[c], false)
        }),
        space("sequences of up to three requests of every kind", move |cx: &mut Ctx| {
            let all = [
                Cmd::Pub { topic: "a".into(), payload: Pay::Text("1".into()), qos: None, props: vec![] },
                Cmd::Pub { topic: "b".into(), payload: Pay::Bytes(vec![2]), qos: Some(1), props: vec![RProp::User("k".into(), "v".into())] },
                Cmd::Pub { topic: "c".into(), payload: Pay::Text("".into()), qos: Some(2), props: vec![RProp::Expiry(9)] },
                Cmd::Pub { topic: text(130), payload: Pay::Bytes(bin(200)), qos: Some(1), props: vec![] },
                Cmd::Pub { topic: "o".into(), payload: Pay::Bytes(vec![]), qos: Some(1), props: vec![RProp::Corr(bin(70000))] },
                Cmd::Sub("s/+".into(), 0),
                Cmd::Sub("s/#".into(), 1),
                Cmd::Sub("\u{e9}".into(), 2),
                Cmd::Unsub("s/#".into()),
                Cmd::Disc,
            ];
            let n = 1 + cx.choose(3);
            let early = cx.choose(2) == 1;
            let mut v = vec![];
            for _ in 0..n {
                let c = all[cx.choose(all.len())].clone();
                v.push(c.clone());
                if c == Cmd::Disc {
                    break;
                }
            }
            send(cx, &v, early)
        }),
        space("300 requests in a row (identifiers of both byte lengths)", move |cx: &mut Ctx| {
            let k = cx.choose(4);
            let mut d = Drive::open(cx, T | IDS)?;
            for i in 0..300 {
                let c = match (k + i * (k == 3) as usize) % 4 {
                    0 => Cmd::Sub(format!("s{i}"), (i % 3) as u8),
                    1 => Cmd::Unsub(format!("u{i}")),
                    2 => Cmd::Pub { topic: "t".into(), payload: Pay::Text(format!("{i}")), qos: Some(1), props: vec![] },
                    _ => Cmd::Pub { topic: "t".into(), payload: Pay::Text(format!("{i}")), qos: Some(2), props: vec![] },
                };
                d.s.cmd(0, &c);
                cx.events += 1;
                d.settle()?;
            }
            Ok(())
        }),
    ];
    let big: Vec<usize> = if thorough { vec![268_435_400, 268_435_442, 268_435_447, 268_435_448, 268_435_449, 268_435_455, 268_435_456, 300_000_000] } else { vec![268_435_456] };
    v.push(space("payloads around the packet size limit of MQTT", move |cx: &mut Ctx| {
        // one such packet at a time in this process
        static BIG: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _g = BIG.lock().unwrap_or_else(|e| e.into_inner());
        let n = big[cx.choose(big.len())];
        cx.note(|| format!("publish of {n} payload bytes"));
        let mut d = Drive::open(cx, T)?;
        // topic "t": 3 bytes, properties 1 + 2 bytes
        let representable = n + 3 + 3 <= 268_435_455;
        let c = Cmd::Pub { topic: "t".into(), payload: Pay::Bytes(vec![0; n]), qos: Some(0), props: vec![] };
        let r = d.s.cmd(0, &c);
        if !representable && r == Some(true) {
            return viol("REFUSE", format!("a payload of {n} bytes, which MQTT cannot represent, was accepted"));
        }
        if representable && r != Some(true) {
            return viol("REFUSE", format!("a payload of {n} bytes was refused"));
        }
        d.settle()?;
        cx.events += 1;
        cx.state(n as u64);
        Ok(())
    }));
    v
}
