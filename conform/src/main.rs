//! Repeats histories recorded by `ruqmc export` with the unmodified tokio over loopback TCP.
//! Every difference in bytes written, notifications, results of calls or result of the session
//! is reported: it would mean that the simulated socket is not faithful.
use futures::StreamExt;
use ruq::{Client, Notification, PublishBuilder, QoS};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn digest(b: &[u8]) -> String {
    if b.len() <= 4096 {
        return b.iter().map(|x| format!("{x:02x}")).collect();
    }
    let h = b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
    format!("#{} {h:x}", b.len())
}

fn qos(q: &str) -> QoS {
    match q {
        "0" => QoS::AtMostOnce,
        "1" => QoS::AtLeastOnce,
        _ => QoS::ExactlyOnce,
    }
}

fn issue(c: &mut Client, w: &[&str]) -> bool {
    match w[0] {
        "pub" => {
            let b = match w.get(4).copied().unwrap_or("") {
                x if x.starts_with('#') => (0..x[1..].parse::<usize>().unwrap()).map(|i| i as u8).collect(),
                x => unhex(x),
            };
            let p = if w[2] == "text" { PublishBuilder::from_str(w[1], std::str::from_utf8(&b).unwrap()) } else { PublishBuilder::from_bytes(w[1], &b) };
            let p = if w[3] == "9" { p } else { p.qos(qos(w[3])) };
            c.publish(p).is_ok()
        }
        "sub" => c.subscribe(w[1], qos(w[2])).is_ok(),
        "unsub" => c.unsubscribe(w[1]).is_ok(),
        _ => c.disconnect().is_ok(),
    }
}

fn kind(n: &Notification) -> (&'static str, String) {
    match n {
        Notification::ConnAck(p) => ("ConnAck", format!("{p:?}")),
        Notification::SubAck(p) => ("SubAck", p.clone()),
        Notification::UnsubAck(p) => ("UnsubAck", p.clone()),
        Notification::Message(p) => ("Message", p.clone()),
    }
}

async fn run(h: &str, pause: u64) -> Result<(), String> {
    // a small receive buffer, so that large packets block the client while the server does not read
    let l = tokio::net::TcpSocket::new_v4().unwrap();
    l.set_recv_buffer_size(16384).unwrap();
    // an address of its own, so that the ports of finished connections are never in the way
    static COUNT: AtomicUsize = AtomicUsize::new(0);
    let c = COUNT.fetch_add(1, SeqCst);
    let a = std::net::Ipv4Addr::new(127, 1 + (std::process::id() % 200) as u8, (c / 200 % 200) as u8, 1 + (c % 200) as u8);
    l.bind((a, 0).into()).unwrap();
    let l = l.listen(8).unwrap();
    let (client, ev, mut rx) = Client::new(l.local_addr().unwrap());
    let ev = tokio::spawn(ev);
    let (sock, _) = l.accept().await.unwrap();
    sock.set_nodelay(true).unwrap();
    let (mut rd, mut wr) = sock.into_split();
    let out: Arc<Mutex<Vec<u8>>> = Arc::default();
    let reading = Arc::new(AtomicBool::new(true));
    let (o2, r2) = (out.clone(), reading.clone());
    let reader = tokio::spawn(async move {
        let mut b = vec![0; 1 << 16];
        loop {
            while !r2.load(SeqCst) {
                tokio::time::sleep(Duration::from_micros(300)).await;
            }
            match rd.read(&mut b).await {
                Ok(0) | Err(_) => return,
                Ok(n) => o2.lock().unwrap().extend_from_slice(&b[..n]),
            }
        }
    });
    let notifs: Arc<Mutex<Vec<String>>> = Arc::default();
    let (n2, drop_rx, draining) = (notifs.clone(), Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(true)));
    let (dr2, dn2) = (drop_rx.clone(), draining.clone());
    let consumer = tokio::spawn(async move {
        loop {
            if dr2.load(SeqCst) {
                return;
            }
            if !dn2.load(SeqCst) {
                tokio::time::sleep(Duration::from_micros(300)).await;
                continue;
            }
            match tokio::time::timeout(Duration::from_micros(300), rx.next()).await {
                Ok(Some(n)) => {
                    let (k, t) = kind(&n);
                    n2.lock().unwrap().push(format!("{k} {}", t.replace('\n', " ")));
                }
                Ok(None) => return,
                Err(_) => {}
            }
        }
    });
    let mut handles: Vec<Option<Client>> = vec![Some(client)];
    let mut want_out = "";
    let mut want_notifs: Vec<String> = vec![];
    let mut want_end = "";
    let mut tail = false;
    for (i, line) in h.lines().enumerate() {
        let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
        if tail {
            match k {
                "N" => want_notifs.push(rest.into()),
                "F" => want_end = rest,
                _ => {}
            }
            continue;
        }
        let w: Vec<&str> = rest.split(' ').collect();
        match k {
            "=" => {
                let (no, nn, end, unclear) = (w[0].parse::<usize>().unwrap(), w[1].parse::<usize>().unwrap(), w[2] == "true", w[3] == "true");
                if unclear {
                    tokio::time::sleep(Duration::from_millis(3)).await;
                    continue;
                }
                let t = Instant::now();
                loop {
                    let (o, n, e) = (out.lock().unwrap().len(), notifs.lock().unwrap().len(), ev.is_finished());
                    if o == no && n == nn && e == end {
                        break;
                    }
                    if t.elapsed() > Duration::from_secs(5) {
                        return Err(format!("line {i}: {o} bytes, {n} notifications, ended {e}; simulated: {line}"));
                    }
                    tokio::time::sleep(Duration::from_micros(200)).await;
                }
            }
            "C" | "D" => {
                let c = if k == "C" { handles.iter().position(|c| c.is_some()) } else { handles.iter().rposition(|c| c.is_some()) }.unwrap();
                let ok = issue(handles[c].as_mut().unwrap(), &w[1..]);
                if ok != (w[0] == "true") {
                    return Err(format!("line {i}: call answered {ok}; simulated: {line}"));
                }
            }
            "S" => {
                let _ = wr.write_all(&unhex(rest)).await;
                // not everything the client reads shows at once
                tokio::time::sleep(Duration::from_millis(pause)).await;
            }
            "E" => {
                let _ = wr.shutdown().await;
            }
            "R" => {
                drop_rx.store(true, SeqCst);
                while !consumer.is_finished() {
                    tokio::time::sleep(Duration::from_micros(100)).await;
                }
            }
            "L" => {
                let c = handles.iter().flatten().next().unwrap().clone();
                handles.push(Some(c));
            }
            "O" if rest.is_empty() => {
                let p = handles.iter().position(|c| c.is_some()).unwrap();
                handles[p] = None;
            }
            "K" => handles.iter_mut().for_each(|c| *c = None),
            "P" => reading.store(false, SeqCst),
            "U" => reading.store(true, SeqCst),
            "N" if rest.is_empty() => draining.store(false, SeqCst),
            "M" => draining.store(true, SeqCst),
            "O" => {
                want_out = rest;
                tail = true;
            }
            _ => return Err(format!("line {i}: {line}?")),
        }
    }
    // nothing more may come
    tokio::time::sleep(Duration::from_millis(5)).await;
    let o = out.lock().unwrap().clone();
    let o = digest(&o);
    if o != want_out {
        return Err(format!("wrote {o}, simulated {want_out}"));
    }
    let n = notifs.lock().unwrap().clone();
    if n != want_notifs {
        return Err(format!("notifications {n:?}, simulated {want_notifs:?}"));
    }
    let end = if ev.is_finished() {
        match ev.await {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(e)) => format!("err {}", format!("{e:?}").replace('\n', " ")),
            Err(e) => format!("panic {e}"),
        }
    } else {
        ev.abort();
        "open".into()
    };
    reader.abort();
    consumer.abort();
    if end != want_end {
        return Err(format!("result {end:?}, simulated {want_end:?}"));
    }
    Ok(())
}

fn main() {
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    std::env::set_var("RUST_BACKTRACE", "0");
    let text = std::fs::read_to_string(std::env::args().nth(1).expect("file")).unwrap();
    let hs: Vec<String> = text.split("\n\n").map(|s| s.trim_end().to_string()).filter(|s| !s.is_empty()).collect();
    let total = hs.len();
    let bad = Arc::new(AtomicUsize::new(0));
    let rt = tokio::runtime::Builder::new_multi_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let sem = Arc::new(tokio::sync::Semaphore::new(32));
        let mut js = vec![];
        for h in hs {
            let (sem, bad) = (sem.clone(), bad.clone());
            js.push(tokio::spawn(async move {
                let _p = sem.acquire().await.unwrap();
                let mut r = run(&h, 2).await;
                if r.is_err() {
                    // give a busy machine the benefit of the doubt
                    r = run(&h, 100).await;
                }
                if let Err(e) = r {
                    if bad.fetch_add(1, SeqCst) < 5 {
                        println!("DIFFERENT: {e}\n{}\n", h.lines().map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>().join("\n"));
                    }
                }
            }));
        }
        for j in js {
            if let Err(e) = j.await {
                bad.fetch_add(1, SeqCst);
                println!("DIFFERENT: {e}");
            }
        }
    });
    let b = bad.load(SeqCst);
    println!("{total} histories repeated over TCP, {b} differ");
    std::process::exit((b > 0) as i32);
}
