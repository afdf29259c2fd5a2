//! Which spaces decide which property.
use crate::bytes::{self, Stage};
use crate::explore::*;
use crate::fam::*;
use crate::mqtt::*;
use crate::obs::*;
use crate::sess::*;
use crate::special;
use crate::world::*;

pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"];

pub fn cpub(q: u8) -> Cmd {
    Cmd::Pub { topic: "t".into(), payload: Pay::Text("x".into()), qos: Some(q), props: vec![] }
}
/// a publish that can be told from every other
pub fn cpubn(n: usize) -> Cmd {
    Cmd::Pub { topic: "n".into(), payload: Pay::Bytes((n as u32).to_be_bytes().to_vec()), qos: Some(0), props: vec![] }
}
pub fn csub() -> Cmd {
    Cmd::Sub("s".into(), 1)
}
pub fn cunsub() -> Cmd {
    Cmd::Unsub("u".into())
}
pub fn p0() -> Ev {
    Ev::Srv("PUBLISH QoS 0", publish(false, 0, false, "a", 0, &[], b"m"))
}
pub fn p1(pid: u16) -> Ev {
    Ev::Srv("PUBLISH QoS 1", publish(false, 1, false, "b", pid, &[RProp::Pfi(1)], b"n"))
}
pub fn p1dup(pid: u16) -> Ev {
    Ev::Srv("PUBLISH QoS 1 again", publish(true, 1, true, "b", pid, &[], b"n"))
}
pub fn three() -> Ev {
    let mut b = publish(false, 1, false, "x", 3, &[], b"1");
    b.extend(publish(false, 0, true, "y", 0, &[], b"2"));
    b.extend(publish(false, 1, false, "z", 4, &[RProp::User("k".into(), "v".into())], b"3"));
    Ev::Srv("three PUBLISH in one segment", b)
}
pub fn inp1() -> Ev {
    Ev::InSrv("PUBLISH QoS 1 during a poll", publish(false, 1, false, "b", 77, &[], b"n"))
}
pub fn half1() -> Ev {
    Ev::Half("half a PUBLISH QoS 1", publish(false, 1, false, "half", 12, &[RProp::Pfi(1)], b"payload"))
}
fn cmds(n: usize) -> Vec<(Ev, usize)> {
    vec![(Ev::Cmd(cpub(0)), n), (Ev::Cmd(cpub(1)), n), (Ev::Cmd(csub()), n), (Ev::Cmd(cunsub()), n)]
}
fn plus(mut a: Vec<(Ev, usize)>, b: Vec<(Ev, usize)>) -> Vec<(Ev, usize)> {
    a.extend(b);
    a
}

/// An open session with everything a broker does: the broadest alphabet.
fn open_family(tags: Tags, depth: usize) -> Fam {
    Fam::new(
        "open session",
        tags,
        depth,
        plus(cmds(9), vec![(p0(), 9), (p1(1), 9), (Ev::AckOldest, 9), (Ev::Tick(8000), 2), (Ev::Pong, 9), (Ev::Cmd(Cmd::Disc), 1), (Ev::Eof, 1)]),
    )
    .defer(1, 1)
}

fn named(mut f: Fam, n: &str) -> Fam {
    f.name = n.into();
    f
}

/// Short and blocked writes at every byte of a few packets.
fn slow_writes(tags: Tags, depth: usize) -> Fam {
    Fam::new(
        "slow socket",
        tags,
        depth,
        vec![
            (Ev::Quota(0), 2),
            (Ev::Quota(3), 2),
            (Ev::Unblock, 9),
            (Ev::Cmd(cpub(0)), 9),
            (Ev::Cmd(csub()), 9),
            (p1(5), 9),
            (Ev::AckOldest, 9),
            (Ev::Tick(8000), 2),
            (Ev::Cmd(Cmd::Disc), 1),
        ],
    )
    .defer(1, 1)
}

/// The notification channel is full or nearly so.
fn stalled(tags: Tags, depth: usize, prefill: usize) -> Fam {
    Fam::new(
        &format!("{prefill} unread messages"),
        tags,
        depth,
        vec![
            (p0(), 9),
            (p1(5), 9),
            (Ev::Srv("SUBACK unknown", suback(900, 0, &[])), 2),
            (Ev::Cmd(cpub(0)), 9),
            (Ev::Cmd(csub()), 9),
            (Ev::AckOldest, 9),
            (Ev::Take(1), 9),
            (Ev::Take(3), 1),
            (Ev::Resume, 1),
            (Ev::Pause, 1),
            (Ev::DropRx, 1),
            (Ev::Tick(8000), 1),
            (Ev::Pong, 2),
            (Ev::Cmd(Cmd::Disc), 1),
            (Ev::Eof, 1),
        ],
    )
    .with(|f| f.prefill = prefill)
}

/// A socket that blocks, fails or closes before the connection is accepted, and all the rest.
fn trouble(t: Tags, depth: usize) -> Fam {
    Fam::new(
        "handshake under trouble",
        t,
        depth,
        vec![
            (Ev::Quota(0), 1),
            (Ev::Quota(5), 1),
            (Ev::Unblock, 1),
            (Ev::FailW(4), 1),
            (Ev::Eof, 1),
            (Ev::RdErr, 1),
            (Ev::Cmd(csub()), 2),
            (Ev::Cmd(Cmd::Disc), 1),
            (Ev::Tick(9000), 2),
            (Ev::Srv("CONNACK", connack(false, 0, &[])), 1),
            (Ev::Srv("CONNACK refusing", connack(false, 0x87, &[])), 1),
            (Ev::Srv("PINGRESP", pingresp()), 1),
            (p1(3), 1),
            (Ev::Half("half a CONNACK", connack(false, 0, &[])), 1),
            (Ev::Rest, 1),
            (Ev::Pause, 1),
            (Ev::DropRx, 1),
        ],
    )
    .defer(1, 1)
    .with(|f| f.prelude = vec![])
}

/// Commands from several handles, before and after the connection is up.
fn early(tags: Tags, depth: usize) -> Fam {
    Fam::new(
        "from the first connect on",
        tags,
        depth,
        vec![
            (Ev::Accept, 1),
            (Ev::Cmd(cpub(1)), 9),
            (Ev::Cmd(csub()), 9),
            (Ev::Clone, 2),
            (Ev::CmdOnClone(cunsub()), 9),
            (Ev::CmdOnClone(cpub(0)), 9),
            (Ev::DropOne, 2),
            (Ev::DropAll, 1),
            (Ev::Srv("CONNACK", connack(false, 0, &[])), 1),
            (Ev::Half("half a CONNACK", connack(false, 0, &[RProp::Reason("ok".into())])), 1),
            (Ev::Rest, 1),
            (p1(1), 2),
            (Ev::Tick(9000), 1),
            (Ev::Cmd(Cmd::Disc), 1),
        ],
    )
    .defer(1, 1)
    .with(|f| {
        f.prelude = vec![];
        f.connect = ConnMode::Wait;
    })
}

/// Events that happen while the event loop is inside a poll.
fn within(tags: Tags, depth: usize) -> Fam {
    Fam::new("events during a poll", tags, depth, vec![(Ev::InCmd(cpub(1)), 9), (Ev::InCmd(cpub(0)), 9), (inp1(), 9), (Ev::Cmd(csub()), 9), (p0(), 9), (three(), 9), (Ev::AckOldest, 9), (Ev::Tick(8000), 1), (Ev::Repoll, 2)]).defer(1, 2)
}

/// Each socket write may be short or blocked.
fn irregular(tags: Tags, depth: usize, dev: usize) -> Fam {
    Fam::new("every write may be short or blocked", tags, depth, vec![(Ev::Cmd(cpub(1)), 9), (Ev::Cmd(csub()), 9), (three(), 9), (p1(9), 9), (Ev::AckOldest, 9), (Ev::Tick(8000), 1), (Ev::Cmd(Cmd::Disc), 1)]).defer(1, 0).with(|f| {
        f.wmode = WMode::Choose;
        f.dev = dev;
    })
}

/// All the service orders `select!` may choose, several events ready at a time.
fn orders(tags: Tags, depth: usize) -> Fam {
    Fam::new("every order of service", tags, depth, vec![(Ev::Cmd(cpub(1)), 9), (Ev::Cmd(cunsub()), 9), (p1(2), 9), (three(), 9), (Ev::AckOldest, 9), (Ev::Jump(8000), 1), (Ev::Pong, 1), (Ev::Cmd(Cmd::Disc), 1)]).defer(3, 4)
}

/// A small identifier space, fully used (needs the hook).
#[allow(dead_code)]
fn small_ids(name: &str, tags: Tags, depth: usize, n: u16, spurious: bool) -> Vec<Space> {
    if !cfg!(feature = "hook") {
        return vec![];
    }
    let mut a = vec![
        (Ev::Cmd(csub()), 99),
        (Ev::Cmd(cpub(1)), 99),
        (Ev::AckOldest, 99),
        (Ev::AckNewest, 99),
        (Ev::AckErr, 99),
    ];
    if spurious {
        a.push((Ev::AckDup, 99));
        a.push((Ev::AckFree(9), 99));
        a.push((Ev::AckFree(4), 99));
        a.push((Ev::AckFree(11), 99));
    } else {
        a.push((Ev::Cmd(cpub(0)), 99));
        a.push((Ev::Cmd(cunsub()), 99));
        a.push((p1(1), 99));
    }
    let f = Fam::new(&format!("{name}: {n} identifiers"), tags, depth, a).with(|f| f.ids = Some(n));
    vec![f.space()]
}

fn waiting_ids(tags: Tags, depth: usize) -> Vec<Space> {
    if !cfg!(feature = "hook") {
        return vec![];
    }
    let a = vec![
        (Ev::Cmd(csub()), 99),
        (Ev::Cmd(cpub(1)), 99),
        (Ev::Cmd(cpub(0)), 99),
        (Ev::AckOldest, 99),
        (Ev::AckNewest, 99),
        (p1(2), 99),
        (Ev::Tick(8000), 3),
        (Ev::Pong, 9),
        (Ev::Cmd(Cmd::Disc), 1),
        (Ev::Eof, 1),
        (Ev::DropAll, 1),
        (Ev::Quota(2), 1),
        (Ev::Unblock, 1),
        (Ev::Pause, 1),
        (Ev::Resume, 1),
    ];
    (1..=2).map(|n| Fam::new(&format!("waiting for identifiers: {n} in all"), tags, depth, a.clone()).defer(1, 1).with(|f| f.ids = Some(n)).space()).collect()
}

#[allow(unused_mut)]
fn allocator(spurious: bool, thorough: bool) -> Vec<Space> {
    let mut v = vec![];
    #[cfg(feature = "hook")]
    {
        let top = if spurious { 4 } else { 6 } + thorough as u16;
        for n in 1..=top {
            v.push(crate::ids::alloc::space_bfs(n, spurious, if thorough { 3_000_000 } else { 300_000 }, if n <= 3 { 12 } else { 7 }));
        }
        let _ = thorough;
    }
    v
}

/// Long histories for the properties of whole sessions.
fn marathon(id: &str) -> Tags {
    match id {
        "C02" => CMD | PANIC,
        "C04" => IDS | PANIC,
        "C05" => CMD | IDS | PANIC | END,
        "C06" => CMD | IDS | PANIC | END | NOTIF,
        "C09" => MSGS | PANIC,
        "C10" => ANSWERS | END | PANIC,
        "C11" => REJECT | NOTIF | ACK | PANIC,
        "C12" => ACK | PANIC,
        "C18" => HONEST | CMD | PANIC,
        "C13" => NOTIF | ACK | CMD | PANIC,
        "C14" => PING | PANIC,
        "C15" => END | CMD | ACK | NOTIF | PANIC,
        "C16" => SPIN | CMD | ACK | NOTIF | END | PANIC,
        "C17" => WSTREAM | PANIC,
        _ => 0,
    }
}

/// What every property of whole sessions is judged on, besides its own spaces.
fn commons(t: Tags, th: bool) -> Vec<Space> {
    use crate::values::*;
    let p = th as usize;
    let mut v = vec![
        named(open_family(t, 4 + p), "in common: open session").space(),
        named(orders(t, 3 + p), "in common: every order of service").space(),
        named(slow_writes(t, 4 + p), "in common: slow socket").space(),
        named(early(t, 4 + p), "in common: from the first connect on").space(),
        named(early(t, 4 + p), "in common: connection up at once").with(|f| f.connect = ConnMode::Now).space(),
        named(trouble(t, 4 + p), "in common: handshake under trouble").space(),
        named(within(t, 3 + p), "in common: events during a poll").space(),
        named(irregular(t, 3, 2), "in common: every write may be short or blocked").space(),
        named(stalled(t, 3 + p, 99), "in common: 99 unread messages").space(),
        named(stalled(t, 3 + p, 101), "in common: 101 unread messages").space(),
        special::dropped_receiver_n(t, 4 + p),
        special::stall_floods(t, th),
        special::floods(t, th),
        special::every_pid(t),
        special::spurious_all(t),
        bytes::publishes(1, t),
        dictionary_in(t),
        dictionary_out(t),
        many_in(t, false),
        many_out(t, false),
        numbers_in(t),
        numbers_out(t),
        offsets_in(t, false),
        offsets_out(t, false),
        every_ack(t),
        crate::ids::ack_forms(t),
        offsets_bad(t, false),
        bytes::tiny(Stage::Open, t),
        bytes::substitutions(Stage::Open, t),
        bytes::edits(Stage::Open, t),
        bytes::substitutions(Stage::Handshake, t),
        bytes::edits(Stage::Handshake, t),
        crate::starve::floods(t),
    ];
    v.extend(special::queue(t, th));
    v.extend(special::cut_off(t, th));
    v.extend(special::ends(t, th));
    v.extend(bytes::answers(t, 1));
    v.extend(special::time(t));
    v.extend(waiting_ids(t, 4 + p));
    v.push(special::crowd(t, th));
    if th {
        v.extend([chars_in(t), chars_answers(t), chars_out(t), lengths_in(t, false), lengths_out(t, false), bytes::sizes(t, false)]);
        v.push(crate::ids::recycle(66_000, t));
    }
    v
}

pub fn spaces(id: &str, th: bool) -> Vec<Space> {
    let mut v = spaces_of(id, th);
    v.extend(values(id, th));
    let t = marathon(id);
    if t != 0 {
        v.push(crate::loops::bodies(t, th));
        v.push(crate::loops::phases(t, th));
        v.extend(crate::waits::spaces(t, th));
        v.extend(crate::cross::spaces(t, th));
        v.extend(crate::cross::related(t, th));
    }
    let t = match id {
        "C01" => CMD | WSTREAM | PANIC,
        "C07" => PANIC | SPIN | CMD,
        "C03" => HS | PANIC,
        _ => t,
    };
    if t != 0 {
        if marathon(id) == 0 {
            v.extend(crate::cross::spaces(t, th));
        }
        // not those it has anyway
        for c in commons(t, th) {
            let n = c.name.trim_start_matches("in common: ").to_string();
            if !v.iter().any(|o: &Space| o.name.trim_start_matches("in common: ") == n) {
                v.push(c);
            }
        }
    }
    if id == "C03" {
        v.extend(crate::waits::spaces(HS | END | PANIC, th));
    }
    // with a logger that formats everything, and without one
    for (i, s) in v.iter_mut().enumerate() {
        let run = std::mem::replace(&mut s.run, Box::new(|_| Ok(())));
        let logged = i % 3 != 2;
        s.run = Box::new(move |cx| {
            crate::clock::logging(logged);
            run(cx)
        });
    }
    v
}

fn values(id: &str, th: bool) -> Vec<Space> {
    use crate::values::*;
    match id {
        "C01" => {
            let t = CMD | WSTREAM | PANIC | END;
            vec![dictionary_out(t), many_out(t, th), numbers_out(t), chars_out(t), offsets_out(t, th), lengths_out(t, th), crate::ids::recycle(if th { 140_000 } else { 66_000 }, t)]
        }
        "C09" => {
            let t = MSGS | PANIC;
            vec![dictionary_in(t), many_in(t, th), numbers_in(t), chars_in(t), offsets_in(t, th), lengths_in(t, th)]
        }
        "C10" => {
            let t = ANSWERS | END | PANIC;
            vec![many_in(t, th), every_ack(t), chars_answers(t), offsets_in(t, th), lengths_in(t, th)]
        }
        "C07" => vec![huge_lists(PANIC | SPIN), offsets_bad(PANIC | SPIN, th)],
        "C11" => vec![offsets_bad(REJECT | NOTIF | ACK | PANIC, th)],
        "C05" => vec![crate::ids::ack_forms(CMD | IDS | PANIC | END)],
        "C12" => vec![dictionary_in(ACK | PANIC)],
        _ => vec![],
    }
}

fn spaces_of(id: &str, th: bool) -> Vec<Space> {
    let p = th as usize;
    match id {
        "C01" => crate::outc::spaces(th),
        "C02" => {
            let t = CMD | PANIC;
            let mut v = vec![
                open_family(t, 5 + p).space(),
                orders(t, 4 + p).space(),
                slow_writes(t, 5 + p).space(),
                early(t, 5 + p).space(),
                within(t, 4 + p).space(),
                irregular(t, 3 + p, 2 + p).space(),
                stalled(t, 4 + p, 99).space(),
                stalled(t, 4 + p, 101).defer(1, 1).space(),
            ];
            v.extend(special::queue(t, th));
            v.extend(waiting_ids(t, 5 + p));
            v
        }
        "C03" => {
            let t = HS | PANIC | SPIN;
            let mut v = special::handshake(t, th);
            v.push(early(t, 5 + p).space());
            v.push(named(early(t, 5 + p), "connection up at once").with(|f| f.connect = ConnMode::Now).space());
            v.push(trouble(t, 5 + p).space());
            v
        }
        "C04" => {
            let t = IDS | PANIC;
            let mut v = vec![
                Fam::new("requests, acknowledgements, incoming messages", t, 6 + p, plus(cmds(9), vec![(Ev::Cmd(cpub(2)), 9), (Ev::AckOldest, 9), (Ev::AckNewest, 9), (Ev::AckErr, 9), (p1(1), 9), (p1(2), 1)])).space(),
                orders(t, 4 + p).space(),
                slow_writes(t, 5 + p).space(),
            ];
            for n in 1..=4 {
                v.extend(small_ids("requests and acknowledgements", t, 7 + p, n, false));
            }
            v.extend(allocator(false, th));
            v.push(crate::ids::recycle(if th { 200_000 } else { 66_000 }, t));
            v.push(crate::ids::exhaust(t, false, th));
            #[cfg(feature = "hook")]
            v.push(crate::ids::alloc::space_top(if th { 6 } else { 4 }, false));
            v
        }
        "C05" => {
            let t = CMD | IDS | PANIC | END;
            let mut v = vec![];
            for n in 1..=4 {
                v.extend(small_ids("recycling", t, 7 + p, n, false));
            }
            v.extend(waiting_ids(t | ACK | NOTIF | PING, 5 + p));
            v.push(Fam::new("acknowledgements of every kind", t, 6 + p, plus(cmds(9), vec![(Ev::Cmd(cpub(2)), 1), (Ev::AckOldest, 9), (Ev::AckNewest, 9), (Ev::AckErr, 9), (p1(1), 2)])).space());
            v.extend(allocator(false, th));
            v.push(crate::ids::recycle(if th { 200_000 } else { 66_000 }, t));
            v.push(crate::ids::exhaust(t | ACK | NOTIF, false, th));
            #[cfg(feature = "hook")]
            v.push(crate::ids::alloc::space_top(if th { 6 } else { 4 }, false));
            v
        }
        "C06" => {
            let t = CMD | IDS | PANIC | END | NOTIF;
            let mut v = vec![Fam::new(
                "requests, acknowledgements and unexpected ones",
                t,
                6 + p,
                vec![
                    (Ev::Cmd(csub()), 9),
                    (Ev::Cmd(cpub(1)), 9),
                    (Ev::Cmd(cunsub()), 9),
                    (Ev::AckOldest, 9),
                    (Ev::AckNewest, 9),
                    (Ev::AckDup, 9),
                    (Ev::AckFree(9), 9),
                    (Ev::AckFree(4), 9),
                    (Ev::AckFree(11), 9),
                    (Ev::AckUnknown(4, 65535), 9),
                    (Ev::AckUnknown(9, 300), 9),
                    (Ev::AckUnknown(11, 7), 9),
                ],
            )
            .space()];
            for n in 1..=4 {
                v.extend(small_ids("unexpected acknowledgements", t, 6 + p, n, true));
            }
            v.extend(allocator(true, th));
            v.push(special::spurious_all(t));
            v.push(crate::ids::exhaust(t, true, th));
            #[cfg(feature = "hook")]
            v.push(crate::ids::alloc::space_top(if th { 5 } else { 4 }, true));
            v
        }
        "C07" => {
            let t = PANIC | SPIN | CMD;
            let mut v = special::byte_spaces(t, th);
            v.push(named(open_family(t, 4 + p), "open session").space());
            v
        }
        "C08" => special::chunking(th),
        "C09" => {
            let t = MSGS | PANIC;
            let mut v = vec![
                bytes::publishes(2 + p, t),
                bytes::sizes(t, th),
                bytes::strings(t),
                special::every_pid(t),
                open_family(t, 4 + p).space(),
                orders(t, 4 + p).space(),
                within(t, 4 + p).space(),
                slow_writes(t, 4 + p).space(),
                stalled(t, 4 + p, 99).space(),
                stalled(t, 4 + p, 101).space(),
            ];
            v.extend(special::messages(t, th));
            v
        }
        "C10" => {
            let t = ANSWERS | END | PANIC;
            let mut v = bytes::answers(t, 2 + p);
            v.push(
                Fam::new(
                    "answers in an open session",
                    t,
                    5 + p,
                    vec![
                        (Ev::Cmd(csub()), 9),
                        (Ev::Cmd(cunsub()), 9),
                        (Ev::Cmd(cpub(1)), 9),
                        (Ev::AckOldest, 9),
                        (Ev::AckNewest, 9),
                        (Ev::AckErr, 9),
                        (Ev::Srv("PUBACK short", puback(40)), 2),
                        (Ev::Srv("PUBACK with reason", puback_r(41, 0x10)), 2),
                        (Ev::Srv("PUBACK with properties", puback_p(42, 0, &[RProp::Reason("r".into()), RProp::User("k".into(), "v".into())])), 2),
                        (Ev::Srv("SUBACK with properties", suback(43, 0x87, &[RProp::User("k".into(), "v".into()), RProp::Reason("r".into())])), 2),
                        (Ev::Tick(8000), 1),
                        (Ev::Pong, 9),
                        (p0(), 1),
                    ],
                )
                .defer(1, 1)
                .space(),
            );
            v.push(stalled(t, 4 + p, 99).space());
            v.push(bytes::strings(t));
            v.push(special::connack_properties(t));
            v
        }
        "C11" => {
            let t = REJECT | NOTIF | ACK | PANIC;
            let mut v = special::byte_spaces(t, th);
            v.extend(special::cut_off(t, th));
            v
        }
        "C12" => {
            let t = ACK | PANIC;
            vec![
                Fam::new("messages, repeats, own requests", t, 5 + p, vec![(p1(1), 9), (p1(2), 9), (p1dup(1), 9), (p0(), 9), (three(), 2), (Ev::Cmd(cpub(1)), 9), (Ev::Cmd(csub()), 9), (Ev::AckOldest, 9), (half1(), 1), (Ev::Rest, 1), (Ev::Tick(8000), 1), (Ev::DropRx, 1), (Ev::DropAll, 1)]).defer(1, 1).space(),
                orders(t, 4 + p).space(),
                slow_writes(t, 5 + p).space(),
                irregular(t, 3 + p, 2 + p).space(),
                within(t, 4 + p).space(),
                stalled(t, 4 + p, 99).space(),
                stalled(t, 4 + p, 101).defer(1, 1).space(),
                special::every_pid(t),
                special::floods(t, th),
                bytes::publishes(1 + p, t),
            ]
        }
        "C13" => {
            let t = NOTIF | ACK | CMD | PANIC;
            let mut v = vec![];
            for n in [97, 98, 99, 100, 101, 102, 103] {
                v.push(stalled(t, 4, n).space());
            }
            for n in [99, 100, 101, 102] {
                v.push(named(stalled(t, 3 + p, n), &format!("{n} unread messages, unsettled")).defer(2, 1).space());
            }
            v.push(special::stall_floods(t, th));
            v.push(special::dropped_receiver(t | PING | END, th));
            v
        }
        "C14" => special::keep_alive(th),
        "C15" => {
            let t = END | CMD | ACK | NOTIF | PANIC;
            let mut v = special::endings(t, th);
            v.push(named(open_family(t, 4 + p), "open session").with(|f| f.alphabet.extend([(Ev::RdErr, 1), (Ev::FailW(0), 1), (Ev::Srv("DISCONNECT", disconnect(0x8B)), 1), (Ev::Srv("malformed", vec![0x30, 1, 0]), 1)])).space());
            v.push(stalled(t, 4, 101).space());
            v.push(slow_writes(t, 4 + p).space());
            v.push(orders(t, 4 + p).space());
            v.extend(waiting_ids(t, 4 + p));
            v
        }
        "C16" => special::sleeps(th),
        "C17" => special::writes(th),
        "C18" => special::handles(th),
        "C19" => crate::indep::spaces(th),
        "C20" => crate::leaks::spaces(th),
        _ => vec![],
    }
}
