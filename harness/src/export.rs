//! Histories of the simulated world, written out so that `conform` can repeat them with the
//! unmodified tokio over real TCP and compare everything observable.
use crate::bytes::full_hex;
use crate::checks::*;
use crate::explore::*;
use crate::fam::*;
use crate::mqtt::*;
use crate::sess::*;
use crate::world::*;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn cmd(c: &Cmd) -> String {
    match c {
        Cmd::Pub { topic, payload, qos, .. } => {
            let (k, b) = match payload {
                Pay::Text(t) => ("text", t.as_bytes().to_vec()),
                Pay::Bytes(b) => ("bytes", b.clone()),
            };
            let b = if b.len() > 4096 { format!("#{}", b.len()) } else { full_hex(&b) };
            format!("pub {topic} {k} {} {b}", qos.unwrap_or(9))
        }
        Cmd::Sub(t, q) => format!("sub {t} {q}"),
        Cmd::Unsub(t) => format!("unsub {t}"),
        Cmd::Disc => "disc".into(),
    }
}

/// Length and FNV-1a of long streams, short ones as they are (the same in `conform`).
fn digest(b: &[u8]) -> String {
    if b.len() <= 4096 {
        return full_hex(b);
    }
    let h = b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
    format!("#{} {h:x}", b.len())
}

/// What the world shows now: bytes written, notifications, result.
fn seen(d: &Drive) -> String {
    let out = d.s.with(|c| c.out.len()).unwrap_or(0);
    let blocked = d.s.with(|c| c.blocked) == Some(true);
    format!("= {out} {} {} {}", d.s.notifs.len(), d.s.end.is_some(), blocked || !d.s.draining)
}

fn record(f: &Fam, cx: &mut Ctx, all: &Mutex<Vec<String>>) -> Result<(), Viol> {
    cx.w.borrow_mut().connect_mode = ConnMode::Now;
    limit_ids(None);
    let mut lines = vec![];
    let mut d = Drive::new(cx, 0);
    d.settle()?;
    lines.push(seen(&d));
    let mut used = vec![0; f.alphabet.len()];
    for step in 0..f.depth + f.prelude.len() {
        let e = if step < f.prelude.len() {
            f.prelude[step].clone()
        } else {
            let en: Vec<usize> = (0..f.alphabet.len()).filter(|i| used[*i] < f.alphabet[*i].1 && d.enabled(&f.alphabet[*i].0)).collect();
            if en.is_empty() || d.s.end.is_some() {
                break;
            }
            let k = en[cx.choose(en.len())];
            used[k] += 1;
            f.alphabet[k].0.clone()
        };
        let before = d.s.with(|c| c.delivered.len()).unwrap_or(0);
        let refused = d.s.rejected;
        d.apply(&e)?;
        let what = match &e {
            Ev::Cmd(c) => format!("C {} {}", d.s.rejected == refused, cmd(c)),
            Ev::CmdOnClone(c) => format!("D {} {}", d.s.rejected == refused, cmd(c)),
            Ev::Eof => "E".into(),
            Ev::DropRx => "R".into(),
            Ev::Clone => "L".into(),
            Ev::DropOne => "O".into(),
            Ev::DropAll => "K".into(),
            Ev::Quota(_) => "P".into(),
            Ev::Unblock => "U".into(),
            Ev::Pause => "N".into(),
            Ev::Resume => "M".into(),
            _ => format!("S {}", full_hex(&d.s.with(|c| c.delivered[before..].to_vec()).unwrap_or_default())),
        };
        lines.push(what);
        d.settle()?;
        lines.push(seen(&d));
    }
    if d.s.with(|c| c.blocked) == Some(true) {
        lines.push("U".into());
    }
    if !d.s.draining {
        lines.push("M".into());
    }
    if !d.rest.is_empty() && !d.o.env_eof {
        lines.push(format!("S {}", full_hex(&d.rest)));
    }
    d.epilogue()?;
    lines.push(seen(&d));
    lines.push(format!("O {}", digest(&d.s.with(|c| c.out.clone()).unwrap_or_default())));
    for n in &d.s.notifs {
        lines.push(format!("N {:?} {}", n.kind, n.text.replace('\n', " ")));
    }
    let end = match &d.s.end {
        None => "open".into(),
        Some(End::Ok) => "ok".into(),
        Some(End::Err(_, e)) => format!("err {}", e.replace('\n', " ")),
        Some(e) => format!("{e:?}"),
    };
    lines.push(format!("F {end}"));
    all.lock().unwrap().push(lines.join("\n"));
    Ok(())
}

pub fn export(path: &str) {
    let hist: Arc<Mutex<Vec<String>>> = Arc::default();
    let big = |n: usize| Cmd::Pub { topic: "big".into(), payload: Pay::Bytes((0..n).map(|i| i as u8).collect()), qos: Some(1), props: vec![] };
    let d139 = || Ev::Srv("DISCONNECT", disconnect(0x8B));
    let fams = vec![
        Fam::new("open session", 0, 4, vec![(Ev::Cmd(cpub(0)), 9), (Ev::Cmd(cpub(1)), 9), (Ev::Cmd(csub()), 9), (Ev::Cmd(cunsub()), 9), (p0(), 9), (p1(1), 9), (three(), 1), (Ev::AckOldest, 9), (Ev::AckErr, 9), (Ev::Pong, 1), (half1(), 1), (Ev::Rest, 1), (Ev::Cmd(Cmd::Disc), 1), (Ev::Eof, 1), (d139(), 1), (Ev::Srv("malformed", vec![0x30, 1, 0]), 1), (Ev::DropRx, 1)]),
        Fam::new("handles", 0, 5, vec![(Ev::Clone, 2), (Ev::Cmd(cpub(1)), 9), (Ev::CmdOnClone(csub()), 9), (Ev::DropOne, 2), (Ev::DropAll, 1), (p1(9), 1), (Ev::Eof, 1)]),
        Fam::new("handshake", 0, 4, vec![(Ev::Cmd(csub()), 2), (Ev::Srv("CONNACK", connack(true, 0, &[RProp::Reason("x".into())])), 1), (Ev::Srv("CONNACK refusing", connack(false, 0x87, &[])), 1), (Ev::Half("half a CONNACK", connack(false, 0, &[])), 1), (Ev::Rest, 1), (p1(1), 1), (Ev::Eof, 1), (Ev::Srv("garbage", vec![0xFF; 6]), 1), (Ev::DropRx, 1), (Ev::DropAll, 1)]).with(|f| f.prelude = vec![]),
        // with the socket blocked the order of commands and acknowledgements is open: one or the other
        Fam::new("blocked socket, commands", 0, 5, vec![(Ev::Quota(0), 1), (Ev::Unblock, 1), (Ev::Cmd(big(6_000_000)), 2), (Ev::Cmd(cpub(0)), 2), (p0(), 1), (Ev::Cmd(csub()), 1)]),
        Fam::new("blocked socket, messages", 0, 5, vec![(Ev::Unblock, 1), (p1(5), 2), (p0(), 2), (p1(6), 1), (Ev::Eof, 1)]).with(|f| f.prelude.extend([Ev::Quota(0), Ev::Cmd(big(6_000_000))])),
        Fam::new("consumer", 0, 5, vec![(Ev::Pause, 1), (Ev::Resume, 1), (p0(), 9), (p1(4), 9), (three(), 9), (Ev::Cmd(csub()), 2), (Ev::Eof, 1)]),
    ];
    let spaces: Vec<Space> = fams
        .into_iter()
        .map(|f| {
            let h = hist.clone();
            space(f.name.clone(), move |cx| record(&f, cx, &h))
        })
        .collect();
    let lim = Limits { threads: 8, deadline: Instant::now() + Duration::from_secs(600), hang: Duration::from_secs(60), need_reproduction: true };
    let r = explore(&spaces, &lim, &[], &|f| panic!("hang {f:?}"));
    assert!(r.found.is_none(), "{:?}", r.found);
    let mut h = std::mem::take(&mut *hist.lock().unwrap());
    h.sort();
    h.dedup();
    println!("{} histories", h.len());
    std::fs::write(path, h.join("\n\n") + "\n").expect("write");
}
