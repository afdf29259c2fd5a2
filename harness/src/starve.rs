//! Nothing may starve: a peer that always has more to say, an application that always has more to
//! do. The socket is refilled (or the next command called) *during* each poll, so the session never
//! finds that source empty; only tokio's cooperative budget ends a poll. `select!` starts one
//! branch further each time, which is a fair order: whatever else is due must then be
//! served within a bounded number of polls.
use crate::checks::*;
use crate::explore::*;
use crate::fam::*;
use crate::mqtt::*;
use crate::obs::*;
use crate::sess::*;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

/// polls within which everything due must be served
const K: usize = 60;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Flood {
    Messages,
    Segments,
    Acked,
    Acks,
    Answers,
    Pongs,
    EndlessMessage,
    Publishes,
    Requests,
    Both,
}
use Flood::*;
const FLOODS: [Flood; 10] = [Messages, Segments, Acked, Acks, Answers, Pongs, EndlessMessage, Publishes, Requests, Both];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Due {
    Ping,
    Command,
    Disconnect,
    Message,
    ServerDisconnect,
    Close,
}
const DUE: [Due; 6] = [Due::Ping, Due::Command, Due::Disconnect, Due::Message, Due::ServerDisconnect, Due::Close];

fn incoming(f: Flood, i: u64) -> Option<Vec<u8>> {
    let m = |q: u8| publish(false, q, false, "f", 1 + (i % 60_000) as u16, &[], &(i as u32).to_be_bytes());
    Some(match f {
        Messages => m(0),
        Acked | Both => m(1),
        Segments => m(0).repeat(20),
        Acks => puback(60_000 + (i % 5000) as u16),
        Answers => suback(60_000 + (i % 5000) as u16, 0, &[]),
        Pongs => pingresp(),
        EndlessMessage => vec![b'x'],
        Publishes | Requests => return None,
    })
}

pub fn floods(t: Tags) -> Space {
    space("a flood that never pauses, and something else that is due", move |cx| {
        let f = FLOODS[cx.choose(FLOODS.len())];
        let due = DUE[cx.choose(DUE.len())];
        let commands = matches!(f, Publishes | Requests | Both);
        let read = incoming(f, 0).is_some();
        let judged = match due {
            // any packet will do, and commands are packets; pings are for the others
            Due::Ping => t & PING != 0 && !commands && f != Acked,
            Due::Command => t & (CMD | SPIN) != 0 && !commands,
            Due::Disconnect => t & (CMD | END | SPIN) != 0 && !commands,
            Due::Message => t & (ACK | NOTIF | MSGS | SPIN) != 0 && !read,
            Due::ServerDisconnect | Due::Close => t & (END | SPIN) != 0 && !read,
        };
        let before = [1usize, 7][cx.choose(2)];
        if !judged {
            cx.trivial = true;
            return Ok(());
        }
        cx.note(|| format!("{f:?} without pause; due: {due:?}"));
        let mut d = Drive::open(cx, t)?;
        cx.w.borrow_mut().rng_fixed = 100;
        if f == EndlessMessage {
            let mut b = vec![0x30];
            b.extend(vbi(200_000_000));
            b.extend([0, 1, b'e', 0]);
            d.srv(&b);
        }
        let called: Rc<RefCell<Vec<Cmd>>> = Rc::default();
        if read {
            let mut i = 0;
            d.srv(&incoming(f, 0).unwrap());
            d.s.w.borrow_mut().refill = Some(Box::new(move |c: &mut Conn, now| {
                i += 1;
                c.deliver(&incoming(f, i).unwrap(), now);
            }));
        }
        if commands {
            let mut cl = d.s.clients[0].clone().unwrap();
            let list = called.clone();
            let mut i = 0;
            d.s.w.borrow_mut().on_write = Some(Box::new(move |c: &mut Conn| {
                i += 1;
                let cmd = if f == Requests && i % 50 == 0 { csub() } else { cpubn(i) };
                if issue(&mut cl, &cmd) {
                    list.borrow_mut().push(cmd);
                    c.log.push(What::Cmd(usize::MAX));
                }
            }));
        }
        let mut sent = 0;
        let mut done = None;
        for round in 0..4 * K {
            if commands && round == 0 {
                for i in 0..50 {
                    d.s.cmd(0, &cpubn(1_000_000 + i));
                }
            }
            if round == before {
                match due {
                    Due::Ping => {}
                    Due::Command => {
                        d.s.cmd(0, &csub());
                    }
                    Due::Disconnect => {
                        d.s.cmd(0, &Cmd::Disc);
                    }
                    Due::Message => d.srv(&publish(false, 1, false, "due", 77, &[], b"due")),
                    Due::ServerDisconnect => d.srv(&disconnect(0x8B)),
                    Due::Close => {
                        d.o.env_eof = true;
                        d.s.with(|c| c.push(Seg::Eof));
                    }
                }
            }
            {
                let mut w = d.s.w.borrow_mut();
                w.flood_left = 300;
                w.idle = 0;
            }
            if d.s.woken() {
                d.s.poll_once();
            }
            {
                let n = d.s.cmds.len();
                let l: Vec<Cmd> = called.borrow_mut().drain(..).collect();
                let mut k = n;
                d.s.with(|c| {
                    for x in c.log.iter_mut() {
                        if *x == What::Cmd(usize::MAX) {
                            k += 1;
                            *x = What::Cmd(k);
                        }
                    }
                });
                d.s.cmds.extend(l);
            }
            d.s.drain(usize::MAX);
            cx.events += 1;
            d.o.update(&d.s);
            if d.s.end.is_some() {
                done = Some(round);
                break;
            }
            let served = match due {
                Due::Ping => !d.o.pings.is_empty(),
                Due::Command => d.o.outs.iter().any(|o| matches!(o.2, OutPkt::Subscribe { .. })),
                Due::Message => d.o.outs.iter().rev().any(|o| matches!(o.2, OutPkt::Puback { pid: 77, .. })) && d.s.notifs.iter().any(|n| n.text.contains("due")),
                _ => false,
            };
            if served {
                done = Some(round);
                break;
            }
            sent = round;
            let late = match due {
                // 8 s in steps of 200 ms
                Due::Ping => round > 40 + K,
                _ => round > before + K,
            };
            if late {
                break;
            }
            if due == Due::Ping {
                advance(&d.s.w, 200);
            }
        }
        {
            let mut w = d.s.w.borrow_mut();
            w.refill = None;
            w.on_write = None;
            w.flood_left = 0;
        }
    cx.note(|| format!("=> served in round {done:?}, {} notifications, {} packets written, {:?}", d.s.notifs.len(), d.o.outs.len(), d.s.end));
        if done.is_none() {
            return viol("STARVED", format!("{due:?} was not served in {} polls under a flood of {f:?} that never pauses", sent + 1 - before.min(sent)));
        }
        if f != EndlessMessage {
            d.settle()?;
        }
        cx.state(d.o.hash(&d.s));
        Ok(())
    })
}
