//! Order and exactly-once delivery to receivers that stay, while everything else changes.
use crate::{bus::*, check, sys, Ctx, Rng};
use ipmb::{BytesMessage, LabelOp, MemoryRegion, Message, Selector};
use std::{collections::HashMap, time::Duration};
use sys::Plan;

struct Ep {
    name: String,
    tx: Tx,
    rx: Option<Rx>,
    /// what it has to receive: per sender, the numbers in order
    want: HashMap<u16, Vec<u32>>,
    pending: usize,
}

pub fn run(c: &Ctx) {
    c.rule("random histories of sends in both modes between a controller and endpoints that stay, interleaved with joins, refused joins, leaving endpoints, malformed peers, interrupted system calls, messages held for nobody, attachments and clock jumps; concurrent bursts with churn in another thread; every receiver's messages are compared per sender with what was sent to it; non-trivial: at least 10 messages were delivered");
    let mut r = Rng(c.seed.wrapping_mul(67867967));
    for k in 0..if c.thorough { 1500 } else { 120 } {
        let s = r.next();
        c.case(&format!("history/{}/{k}", c.seed), || history(&mut Rng(s)));
    }
    for k in 0..if c.thorough { 30 } else { 4 } {
        c.case(&format!("burst/{k}"), || burst(k));
    }
    for n in [0usize, 1, 2] {
        c.case(&format!("two-dead/{n}"), || dead_neighbours(n));
    }
    for o in 0..if c.thorough { 64 } else { 16 } {
        c.case(&format!("leave-behind-slow/{o}"), || leave_behind_slow(o));
    }
}

fn num(d: &[u8]) -> (u16, u32) {
    (u16::from_le_bytes([d[0], d[1]]), u32::from_le_bytes([d[2], d[3], d[4], d[5]]))
}
fn body(from: u16, n: u32, len: usize) -> Vec<u8> {
    let mut v = from.to_le_bytes().to_vec();
    v.extend(n.to_le_bytes());
    v.extend((0..len).map(|i| (i as u32 ^ n) as u8));
    v
}

/// everything endpoint `i` was sent: drained behind a marker on every sender's own connection
fn collect(eps: &mut [Ep], i: usize) -> Result<usize, String> {
    let txs: Vec<Tx> = eps.iter().map(|e| e.tx.clone()).collect();
    let e = &mut eps[i];
    let name = e.name.clone();
    let Some(rx) = e.rx.as_mut() else { return Ok(0) };
    let mut g = vec![];
    for tx in &txs {
        g.extend(drain(tx, &name, rx)?);
    }
    let n = g.len();
    let mut got: HashMap<u16, Vec<u32>> = HashMap::new();
    for m in &g {
        let (f, n) = num(&m.payload.data);
        check!(m.payload.data == body(f, n, m.payload.data.len() - 6), "{name}: message {n} of sender {f} was altered");
        got.entry(f).or_default().push(n);
    }
    let mut want = std::mem::take(&mut e.want);
    want.retain(|_, v| !v.is_empty());
    for (f, w) in &want {
        let g = got.get(f).cloned().unwrap_or_default();
        check!(&g == w, "{name} received {g:?} from sender {f}, which sent {w:?}");
    }
    for f in got.keys() {
        check!(want.contains_key(f), "{name} received messages of sender {f} that were not for it");
    }
    e.pending = 0;
    Ok(n)
}

fn history(r: &mut Rng) -> Result<bool, String> {
    let id = uid();
    let addr = addr_of(&id);
    let mut eps: Vec<Ep> = vec![];
    let n = 2 + r.below(3) as usize;
    let mut log: Vec<String> = vec![];
    for i in 0..n {
        let name = format!("n{i}");
        let l = [name.as_str(), if i % 2 == 0 { "even" } else { "odd" }, "all"];
        let (tx, rx) = if i == 0 { controller(&id, &l)? } else { client(&id, &l)? };
        eps.push(Ep { name, tx, rx: Some(rx), want: HashMap::new(), pending: 0 });
    }
    let mut guests: Vec<(Tx, Option<Rx>)> = vec![];
    let mut raws: Vec<Raw> = vec![];
    let mut seq = 0u32;
    let mut total = 0;
    let mut f = || -> Result<(), String> {
        for _ in 0..r.below(70) + 10 {
            let op = r.below(20);
            log.push(op.to_string());
            match op {
                0 => guests.push({
                    let (t, x) = client(&id, &["guest", "all"])?;
                    (t, Some(x))
                }),
                1 if !guests.is_empty() => {
                    let i = r.below(guests.len() as u64) as usize;
                    if r.below(2) == 0 {
                        guests.swap_remove(i);
                    } else {
                        guests[i].1 = None;
                    }
                }
                2 => {
                    let e = ipmb::join::<BytesMessage, BytesMessage>(client_opts(&id, &["all"], "wrong"), Some(Duration::from_secs(5)));
                    check!(e.is_err(), "a wrong token was accepted");
                }
                3 => {
                    if let Ok((w, _)) = raw_join(&addr, &frame(header(), &join_selector(), &join_payload(own_version(), "tok", &["guest", "all"]))) {
                        if r.below(2) == 0 {
                            raws.push(w);
                        }
                    }
                }
                4 => {
                    // a malformed frame of somebody
                    let s = connect_to(&addr).map_err(|e| format!("connect {e}"))?;
                    let _ = send_frame(s.0, &[0xff, 0, 0, 0, 9, 9][..r.below(6) as usize + 1], &[]);
                }
                5 => {
                    // held for an endpoint that does not come
                    let i = r.below(n as u64) as usize;
                    eps[i].tx.send(msg(LabelOp::from("nobody"), r.below(2) == 0, Duration::from_secs(r.below(3) * 40), 1, &body(999, 0, 3))).map_err(|e| format!("{e:?}"))?;
                }
                6 if r.below(3) == 0 => {
                    sys::advance_ms(31_000);
                }
                7 => {
                    for i in 0..n {
                        total += collect(&mut eps, i)?;
                    }
                }
                _ => {
                    let from = r.below(n as u64) as usize;
                    let burst = if r.below(4) == 0 { r.below(12) + 1 } else { 1 };
                    for _ in 0..burst {
                        seq += 1;
                        let k = r.below(6);
                        let (op, to): (LabelOp, Box<dyn Fn(usize) -> bool>) = match k {
                            0 => (LabelOp::from("all").and(!LabelOp::from("guest")), Box::new(|_| true)),
                            1 => (LabelOp::from("even"), Box::new(|i| i % 2 == 0)),
                            2 => (LabelOp::from("odd").or("guest"), Box::new(|i| i % 2 == 1)),
                            3 => (LabelOp::from("all"), Box::new(|_| true)),
                            _ => {
                                let to = r.below(n as u64) as usize;
                                (LabelOp::from(format!("n{to}").as_str()), Box::new(move |i| i == to))
                            }
                        };
                        let multicast = k < 4 || r.below(2) == 0;
                        if r.below(12) == 0 {
                            sys::SEND_PLAN.with(|p| p.borrow_mut().push_back(Plan::Errno(libc::EINTR)));
                        }
                        let len = if r.below(6) == 0 { r.below(1500) } else { r.below(20) } as usize;
                        let mut s = if multicast { Selector::multicast(op) } else { Selector::unicast(op) };
                        s.ttl = Duration::from_secs(r.below(2) * 50);
                        let mut m = Message::new(s, bytes(2, &body(from as u16, seq, len)));
                        if r.below(10) == 0 {
                            m.memory_regions.push(MemoryRegion::new(10).ok_or("region")?);
                            m.objects.push(crate::c06::memfd(b"x"));
                        }
                        eps[from].tx.send(m).map_err(|e| format!("send: {e:?}"))?;
                        for i in 0..n {
                            if to(i) {
                                eps[i].want.entry(from as u16).or_default().push(seq);
                                eps[i].pending += 1;
                            }
                        }
                        // nobody may fill its buffer
                        if eps.iter().any(|e| e.pending > 25) {
                            for i in 0..n {
                                total += collect(&mut eps, i)?;
                            }
                            for g in guests.iter_mut() {
                                if let Some(x) = g.1.as_mut() {
                                    while x.recv(Some(Duration::ZERO)).is_ok() {}
                                }
                            }
                            for w in &raws {
                                while let Some(f) = wait_frame(w.rd.0, 0) {
                                    close_fds(&f);
                                }
                            }
                        }
                    }
                }
            }
        }
        for i in 0..n {
            total += collect(&mut eps, i)?;
        }
        Ok(())
    };
    f().map_err(|e| format!("{e}; operations {}", log.join(" ")))?;
    Ok(total >= 10)
}

/// senders and receivers in threads, endpoints coming and going meanwhile
fn burst(k: u64) -> Result<bool, String> {
    const N: u32 = 600;
    let id = uid();
    let mut eps = vec![];
    for i in 0..3 {
        let name = format!("n{i}");
        eps.push(if i == 0 { controller(&id, &[&name, "all"])? } else { client(&id, &[&name, "all"])? });
    }
    let txs: Vec<Tx> = eps.iter().map(|e| e.0.clone()).collect();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let st = stop.clone();
    let id2 = id.clone();
    let churn = std::thread::spawn(move || -> Result<(), String> {
        let mut r = Rng(k);
        let mut v = vec![];
        while !st.load(std::sync::atomic::Ordering::SeqCst) {
            let (t, x) = client(&id2, &["guest"])?;
            let _ = t.send(msg(LabelOp::from("guest"), true, Duration::ZERO, 1, b"g"));
            if r.below(2) == 0 {
                v.push((t, x));
            }
            if v.len() > 3 {
                v.clear();
            }
        }
        Ok(())
    });
    let mut hs = vec![];
    for (i, (_, mut rx)) in eps.into_iter().enumerate() {
        hs.push(std::thread::spawn(move || -> Result<(), String> {
            let mut next = [0u32; 3];
            while next != [N; 3] {
                let m = rx.recv(Some(Duration::from_secs(10))).map_err(|e| format!("receiver {i}: {e:?} at {next:?}"))?;
                let (f, n) = num(&m.payload.data);
                check!(m.payload.data == body(f, n, m.payload.data.len() - 6), "receiver {i}: message {n} of sender {f} was altered");
                let w = &mut next[f as usize];
                check!(n == *w, "receiver {i}: message {n} of sender {f} came where {w} was expected");
                *w += 1;
            }
            match rx.recv(Some(Duration::from_millis(20))) {
                Ok(m) => Err(format!("receiver {i}: one more message {:?}", num(&m.payload.data))),
                Err(_) => Ok(()),
            }
        }));
    }
    let mut ss = vec![];
    for (i, tx) in txs.into_iter().enumerate() {
        ss.push(std::thread::spawn(move || -> Result<Tx, String> {
            let mut r = Rng(k * 7 + i as u64);
            for n in 0..N {
                let len = if r.below(5) == 0 { r.below(3000) } else { r.below(30) } as usize;
                if r.below(2) == 0 {
                    tx.send(msg(LabelOp::from("all"), true, Duration::ZERO, 2, &body(i as u16, n, len))).map_err(|e| format!("{e:?}"))?;
                } else {
                    for j in 0..3 {
                        tx.send(msg(LabelOp::from(format!("n{j}").as_str()), r.below(2) == 0, Duration::ZERO, 2, &body(i as u16, n, len))).map_err(|e| format!("{e:?}"))?;
                    }
                }
            }
            Ok(tx)
        }));
    }
    let mut errs = vec![];
    let mut keep = vec![];
    for s in ss {
        match s.join().map_err(|_| "panic")? {
            Ok(t) => keep.push(t),
            Err(e) => errs.push(e),
        }
    }
    for h in hs {
        if let Err(e) = h.join().map_err(|_| "panic")? {
            errs.push(e);
        }
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    if let Err(e) = churn.join().map_err(|_| "panic")? {
        errs.push(e);
    }
    check!(errs.is_empty(), "{}", errs.join("; "));
    Ok(true)
}

/// endpoints that died next to each other in the routing order do not disturb the ones after them
fn dead_neighbours(n: usize) -> Result<bool, String> {
    let id = uid();
    let (tx, mut rx) = controller(&id, &["ctl", "all"])?;
    let mut eps = vec![];
    for i in 0..5 {
        let (t, x) = client(&id, &[&format!("n{i}"), "all"])?;
        eps.push((t, Some(x)));
    }
    eps[n].1 = None;
    eps[n + 1].1 = None;
    for k in 0..3u32 {
        tx.send(msg(LabelOp::from("all"), true, Duration::ZERO, 2, &body(0, k, 2))).map_err(|e| format!("{e:?}"))?;
    }
    for i in 0..5 {
        if let Some(x) = eps[i].1.as_mut() {
            let g = drain(&tx, &format!("n{i}"), x)?;
            let v: Vec<u32> = g.iter().map(|m| num(&m.payload.data).1).collect();
            check!(v == [0, 1, 2], "endpoint {i} got {v:?}");
        }
    }
    let g = drain(&tx, "ctl", &mut rx)?;
    check!(g.len() == 3, "the controller's endpoint got {}", g.len());
    Ok(true)
}

/// An endpoint leaves while the bus waits for a slow one and messages of the others are queued.
fn leave_behind_slow(order: usize) -> Result<bool, String> {
    let id = uid();
    let (tx, mut rx) = controller(&id, &["ctl"])?;
    let mut eps = vec![];
    for i in 0..4 {
        let (t, x) = client(&id, &[&format!("n{i}")])?;
        eps.push(Some((t, x)));
    }
    let (_s, mut srx) = client(&id, &["slow"])?;
    // fill the slow endpoint's buffer: the bus waits in the middle of them
    let n = 12u32;
    let big = 60_000;
    for k in 0..n {
        tx.send(msg(LabelOp::from("slow"), false, Duration::ZERO, 2, &body(0, k, big))).map_err(|e| format!("{e:?}"))?;
    }
    std::thread::sleep(Duration::from_millis(30));
    let m = 4u32;
    let gone = order % 4;
    let say = |eps: &Vec<Option<(Tx, Rx)>>, from: u32| -> Result<(), String> {
        for k in from..from + m {
            for (i, e) in eps.iter().enumerate() {
                if let Some((t, _)) = e {
                    t.send(msg(LabelOp::from("ctl").or(format!("n{}", (i + 1) % 4).as_str()), true, Duration::ZERO, 2, &body(i as u16 + 1, k, 5))).map_err(|e| format!("{e:?}"))?;
                }
            }
        }
        Ok(())
    };
    if order / 4 % 2 == 0 {
        eps[gone] = None;
        say(&eps, 0)?;
    } else {
        say(&eps, 0)?;
        eps[gone] = None;
        if order / 8 % 2 == 0 {
            let bad = connect_to(&addr_of(&id)).map_err(|e| format!("{e}"))?;
            let _ = send_frame(bad.0, &[1, 2, 3], &[]);
        }
    }
    for k in 0..n {
        let x = srx.recv(Some(Duration::from_secs(10))).map_err(|e| format!("slow endpoint: {e:?} at {k}"))?;
        check!(num(&x.payload.data) == (0, k) && x.payload.data.len() == big + 6, "the slow endpoint got message {:?} instead of {k}", num(&x.payload.data));
    }
    let said_by_gone = order / 4 % 2 != 0;
    let mut next = [0u32; 4];
    let want: u32 = (0..4).map(|i| if i == gone && !said_by_gone { 0 } else { m }).sum();
    for _ in 0..want {
        let x = rx.recv(Some(Duration::from_secs(5))).map_err(|e| format!("controller: {e:?} after {next:?} of endpoints 0..4 (endpoint {gone} left while a slow reader held up the bus)"))?;
        let (f, k) = num(&x.payload.data);
        let w = &mut next[f as usize - 1];
        check!(*w == k, "controller: message {k} of {f} came where {w} was expected");
        *w += 1;
    }
    for i in 0..4usize {
        let from = (i + 3) % 4;
        if let Some((_, x)) = eps[i].as_mut() {
            let g: Vec<_> = drain(&tx, &format!("n{i}"), x)?.iter().map(|m| num(&m.payload.data)).collect();
            let w: Vec<_> = if from == gone && !said_by_gone { vec![] } else { (0..m).map(|k| (from as u16 + 1, k)).collect() };
            check!(g == w, "endpoint {i} got {g:?} instead of {w:?}");
        }
    }
    Ok(true)
}
