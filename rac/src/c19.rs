//! Ownership of kernel handles: a census of descriptors and mappings around histories of every operation.
use crate::{bus::*, c06::ino, check, sys, Ctx, Rng};
use ipmb::{BytesMessage, LabelOp, MemoryRegion, Message, Object, Selector};
use std::{
    sync::atomic::Ordering::SeqCst,
    time::Duration,
};
use sys::Plan;

pub fn run(c: &Ctx) {
    c.rule("random histories of joins, refused and failing joins, leaving in every order, sends with objects and regions to one, many, no or dead receivers, held and expired messages, unread messages, unknown types, malformed frames, mappings, region clones, allocators and lost controllers; all objects are dropped at the end and the descriptors and mappings of the process are counted; received objects are used after the sender's are gone; non-trivial: at least one handle was created besides the bus itself");
    // captured once, with a bus of their own
    let _ = (join_selector(), crate::c05::ack_selector(), crate::c15::message_for_e(1));
    sys::TRACK_MAPS.store(true, SeqCst);
    let mut r = Rng(c.seed.wrapping_mul(982451653));
    for k in 0..12 {
        c.case(&format!("leave/{k}"), || leave(k));
    }
    for k in 0..9 {
        c.case(&format!("refused/{k}"), || refused(k));
    }
    for k in 0..4 {
        c.case(&format!("joiner/{k}"), || joiner(k));
    }
    for k in 0..12 {
        c.case(&format!("message/{k}"), || message(k));
    }
    for k in 0..8 {
        c.case(&format!("lost/{k}"), || lost(k));
    }
    for k in 0..if c.thorough { 3000 } else { 150 } {
        let s = r.next();
        c.case(&format!("regions/{}/{k}", c.seed), || regions(&mut Rng(s)));
    }
    for k in 0..if c.thorough { 1000 } else { 60 } {
        let s = r.next();
        c.case(&format!("history/{}/{k}", c.seed), || history(&mut Rng(s)));
    }
}

/// descriptors by what they refer to, and mappings
struct Census {
    fds: Vec<(i32, String)>,
    maps: usize,
    bad_close: u64,
    bad_unmap: u64,
}
fn census() -> Census {
    Census { fds: sys::open_fds(), maps: sys::MAPS.lock().unwrap().len(), bad_close: sys::BAD_CLOSE.load(SeqCst) as u64, bad_unmap: sys::BAD_UNMAP.load(SeqCst) as u64 }
}
impl Census {
    /// everything opened since is closed again
    fn same(&self, what: &str, mut nudge: impl FnMut() -> Result<(), String>) -> Result<(), String> {
        let end = sys::real_ns() + 2_500_000_000;
        loop {
            nudge()?;
            let now = census();
            let extra: Vec<_> = now.fds.iter().filter(|f| !self.fds.contains(f)).collect();
            let gone: Vec<_> = self.fds.iter().filter(|f| !now.fds.contains(f)).collect();
            check!(now.bad_close == self.bad_close, "{what}: a descriptor was closed that was not open");
            check!(now.bad_unmap == self.bad_unmap, "{what}: memory was unmapped that was not mapped, or with another size");
            check!(gone.is_empty(), "{what}: descriptors in use were closed: {gone:?}");
            if extra.is_empty() && now.maps == self.maps {
                return Ok(());
            }
            if sys::real_ns() > end {
                return Err(format!("after {what} descriptors stay open: {extra:?}, mappings: {} more", now.maps as i64 - self.maps as i64));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
}

struct Bus {
    id: String,
    addr: Vec<u8>,
    tx: Tx,
    rx: Rx,
}
impl Bus {
    fn new() -> Result<Bus, String> {
        let id = uid();
        let addr = addr_of(&id);
        let (tx, rx) = controller(&id, &["ctl", "all"])?;
        let mut b = Bus { id, addr, tx, rx };
        sync(&b.tx, "ctl", &mut b.rx)?;
        Ok(b)
    }
    /// the bus notices who is gone: it looks every 30 s
    fn same(&mut self, c: &Census, what: &str) -> Result<(), String> {
        let (tx, rx) = (&self.tx, &mut self.rx);
        c.same(what, || {
            sys::advance_ms(31_000);
            sync(tx, "ctl", rx)
        })
    }
}

fn obj(b: &[u8]) -> Object {
    crate::c06::memfd(b)
}
fn content(o: &Object) -> Result<Vec<u8>, String> {
    let mut b = vec![0u8; 64];
    let n = unsafe { libc::pread(o.as_raw(), b.as_mut_ptr() as _, b.len(), 0) };
    check!(n >= 0, "a received object is not usable");
    b.truncate(n as usize);
    Ok(b)
}

fn leave(k: u64) -> Result<bool, String> {
    let mut b = Bus::new()?;
    let c = census();
    for round in 0..2 {
        let mut v = vec![];
        for i in 0..(1 + k % 3) {
            let (t, r) = client(&b.id, &[&format!("n{i}"), "all"])?;
            v.push((t, r));
        }
        if k & 1 == 0 {
            b.tx.send(msg(LabelOp::from("all"), true, Duration::ZERO, 1, b"x")).map_err(|e| format!("{e:?}"))?;
        }
        for (t, r) in v {
            match k % 4 {
                0 => drop((t, r)),
                1 => {
                    let t2 = t.clone();
                    drop(t);
                    drop(r);
                    t2.send(msg(LabelOp::from("ctl"), false, Duration::ZERO, 1, b"x")).map_err(|e| format!("{e:?}"))?;
                }
                2 => {
                    drop(r);
                    t.send(msg(LabelOp::from("ctl"), false, Duration::ZERO, 1, b"x")).map_err(|e| format!("{e:?}"))?;
                }
                _ => {
                    let mut r = r;
                    drop(t);
                    let _ = r.recv(Some(Duration::ZERO));
                }
            }
        }
        b.same(&c, &format!("round {round} of endpoints leaving"))?;
    }
    Ok(true)
}

fn refused(k: u64) -> Result<bool, String> {
    let mut b = Bus::new()?;
    let c = census();
    let own = own_version();
    for round in 0..2 {
        match k {
            0 => {
                for _ in 0..5 {
                    check!(ipmb::join::<BytesMessage, BytesMessage>(client_opts(&b.id, &["x"], "no"), Some(Duration::from_secs(5))).is_err(), "admitted with a wrong token");
                }
            }
            1 | 2 => {
                let mut v = own;
                v[1] ^= 8;
                let (h, p) = if k == 1 { (own, v) } else { (v, own) };
                for _ in 0..5 {
                    let (w, a) = raw_join(&b.addr, &frame([0xff, h[0], h[1], h[2]], &join_selector(), &join_payload(p, "tok", &["x"])))?;
                    check!(ack_of(&a) == Ack::ErrVersion(own), "not refused: {:?}", ack_of(&a));
                    check!(wait_closed(w.rd.0, 3000), "the handle given with a refused request stays open at the bus");
                }
            }
            3 => {
                // the acknowledgement cannot be delivered
                for _ in 0..5 {
                    let conn = connect_to(&b.addr).map_err(|e| format!("{e}"))?;
                    let (rd, wr) = pair();
                    drop(rd);
                    send_frame(conn.0, &frame(header(), &join_selector(), &join_payload(own, "tok", &["x"])), &[wr.0]).map_err(|e| format!("{e}"))?;
                }
            }
            4 => {
                // more handles than a request has
                let fs: Vec<OwnFd> = (0..6).map(|_| pair().0).collect();
                for n in [2usize, 3, 6] {
                    let conn = connect_to(&b.addr).map_err(|e| format!("{e}"))?;
                    let (rd, wr) = pair();
                    let mut l = vec![wr.0];
                    l.extend(fs[..n].iter().map(|f| f.0));
                    send_frame(conn.0, &frame(header(), &join_selector(), &join_payload(own, "tok", &["x"])), &l).map_err(|e| format!("{e}"))?;
                    drop(wr);
                    let _ = wait_frame(rd.0, 1000);
                }
            }
            5 => {
                for _ in 0..20 {
                    let _ = connect_to(&b.addr).map_err(|e| format!("{e}"))?;
                }
                // many at the same time
                let mut v = vec![];
                for i in 0..300 {
                    v.push(connect_to(&b.addr).map_err(|e| format!("{e}"))?);
                    if i % 50 == 49 {
                        sync(&b.tx, "ctl", &mut b.rx)?;
                    }
                }
            }
            6 => {
                // nothing but handles, and undecodable requests
                let (x, y) = pair();
                for p in [&b""[..], b"\0", &[0xff; 40]] {
                    let conn = connect_to(&b.addr).map_err(|e| format!("{e}"))?;
                    let _ = send_frame(conn.0, &frame(header(), &join_selector(), p), &[x.0, y.0]);
                    let conn = connect_to(&b.addr).map_err(|e| format!("{e}"))?;
                    let _ = send_frame(conn.0, p, &[x.0, y.0]);
                }
            }
            7 => {
                // admitted twice on one connection, then gone
                let f = frame(header(), &join_selector(), &join_payload(own, "tok", &["x"]));
                let (w, _) = raw_join(&b.addr, &f)?;
                let (rd, wr) = pair();
                send_frame(w.conn.0, &f, &[wr.0]).map_err(|e| format!("{e}"))?;
                drop(wr);
                check!(wait_frame(rd.0, 2000).is_some(), "no answer");
            }
            _ => {
                // a request without a handle to answer to
                for _ in 0..3 {
                    let conn = connect_to(&b.addr).map_err(|e| format!("{e}"))?;
                    let _ = send_frame(conn.0, &frame(header(), &join_selector(), &join_payload(own, "tok", &["x"])), &[]);
                }
            }
        }
        b.same(&c, &format!("round {round} of refused joins"))?;
    }
    Ok(true)
}

/// failing attempts as seen by the one who joins
fn joiner(k: u64) -> Result<bool, String> {
    let c = census();
    for _ in 0..3 {
        let id = uid();
        sys::freeze(true);
        let mut o = opts(&id, &["x"], "tok");
        match k {
            0 => {
                o.controller_affinity = false;
                sys::CONNECT_PLAN.with(|p| p.borrow_mut().extend((0..40).map(|i| Plan::Errno([libc::ECONNREFUSED, libc::ENOENT, libc::EAGAIN, libc::EINTR][i % 4]))));
            }
            1 => {
                sys::CONNECT_PLAN.with(|p| p.borrow_mut().extend((0..400).map(|_| Plan::Errno(libc::ECONNREFUSED))));
                sys::BIND_PLAN.with(|p| p.borrow_mut().extend((0..400).map(|_| Plan::Errno(libc::EADDRINUSE))));
            }
            2 => {
                sys::CONNECT_PLAN.with(|p| p.borrow_mut().extend((0..40).map(|_| Plan::Errno(libc::EACCES))));
            }
            _ => {
                sys::CONNECT_PLAN.with(|p| p.borrow_mut().extend((0..40).map(|_| Plan::Errno(libc::ECONNREFUSED))));
                sys::BIND_PLAN.with(|p| p.borrow_mut().extend((0..40).map(|_| Plan::Errno(libc::EACCES))));
            }
        }
        let r = ipmb::join::<BytesMessage, BytesMessage>(o, Some(Duration::from_millis(300)));
        reset();
        check!(r.is_err(), "joined although every attempt fails");
        drop(r);
        c.same("a failed join", || Ok(()))?;
    }
    // a peer that accepts and answers nonsense with handles, or hangs up
    let id = uid();
    let l = listen_at(&addr_of(&id));
    let h = std::thread::spawn(move || {
        let l = l;
        for i in 0..3 {
            let mut p = libc::pollfd { fd: l.0, events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 1000) } < 1 {
                break;
            }
            let a = OwnFd(unsafe { libc::accept4(l.0, std::ptr::null_mut(), std::ptr::null_mut(), libc::SOCK_CLOEXEC) });
            if i == 2 {
                break;
            }
            let f = recv_frame(a.0, false).unwrap();
            let (x, y) = pair();
            let bad = frame(header(), &crate::c05::ack_selector(), &[9, 9]);
            let _ = send_frame(f.fds[0], if i == 0 { b"garbage" } else { &bad }, &[x.0, y.0]);
            close_fds(&f);
        }
    });
    let r = ipmb::join::<BytesMessage, BytesMessage>(client_opts(&id, &["x"], "tok"), Some(Duration::from_millis(700)));
    check!(r.is_err(), "joined a peer that answers nonsense");
    drop(r);
    let _ = h.join();
    c.same("joining a peer that answers nonsense", || Ok(()))?;
    Ok(true)
}

fn message(k: u64) -> Result<bool, String> {
    let mut b = Bus::new()?;
    let c = census();
    {
        let (t, mut r) = client(&b.id, &["a", "all"])?;
        let (t2, r2) = client(&b.id, &["b", "all"])?;
        let mut r2 = Some(r2);
        let mk = |op: LabelOp, multi: bool, ttl: u64, n: u8| {
            let mut s = if multi { Selector::multicast(op) } else { Selector::unicast(op) };
            s.ttl = Duration::from_secs(ttl);
            let mut m = Message::new(s, bytes(n as u16, &[n]));
            for i in 0..3 {
                m.objects.push(obj(&[n, i]));
            }
            let rg = MemoryRegion::new(5000 + n as usize).unwrap();
            m.memory_regions.push(rg.clone().unwrap());
            m.memory_regions.push(rg);
            m
        };
        let send = |t: &Tx, m| t.send(m).map_err(|e| format!("{e:?}"));
        match k {
            0 | 1 => {
                // received, kept while the sender is gone
                let sender = if k == 0 { &b.tx } else { &t };
                let m = mk(LabelOp::from("all"), true, 0, 1);
                let objs: Vec<_> = m.objects.iter().map(ino).collect();
                send(sender, m)?;
                let mut kept = vec![];
                for rx in [&mut b.rx, &mut r, r2.as_mut().unwrap()] {
                    kept.push(rx.recv(Some(Duration::from_secs(3))).map_err(|e| format!("{e:?}"))?);
                }
                drop(t);
                drop(r2.take());
                drop(r);
                let mut fds: Vec<i32> = vec![];
                for m in &kept {
                    let got: Vec<_> = m.objects.iter().map(ino).collect();
                    check!(got == objs, "received other objects");
                    for (i, o) in m.objects.iter().enumerate() {
                        check!(content(o)? == [1, i as u8], "object {i} has another content");
                        fds.push(o.as_raw());
                    }
                }
                let n = fds.len();
                fds.sort();
                fds.dedup();
                check!(fds.len() == n, "two received messages share a descriptor");
                // closing one message's objects leaves the others'
                kept.remove(1);
                for m in &kept {
                    for o in &m.objects {
                        content(o)?;
                    }
                }
                drop(kept);
                drop(t2);
                b.same(&c, "messages received by all")?;
                return Ok(true);
            }
            2 => send(&t, mk(LabelOp::from("nobody"), false, 0, 2))?,
            3 => {
                send(&t, mk(LabelOp::from("nobody"), true, 20, 2))?;
                send(&b.tx, mk(LabelOp::from("nobody"), false, 40, 2))?;
                sys::advance_ms(50_000);
                sync(&b.tx, "ctl", &mut b.rx)?;
            }
            4 => {
                send(&t, mk(LabelOp::from("late"), true, 20, 2))?;
                send(&b.tx, mk(LabelOp::from("late"), false, 40, 3))?;
                let (_t, mut l) = client(&b.id, &["late"])?;
                for n in [2, 3] {
                    let m = l.recv(Some(Duration::from_secs(3))).map_err(|e| format!("{e:?}"))?;
                    check!(m.payload.format == n && content(&m.objects[2])? == [n as u8, 2], "wrong held message");
                }
            }
            5 => {
                // unread at the receiver that leaves
                for n in 0..4 {
                    send(&t, mk(LabelOp::from("b").or("ctl"), true, 0, n))?;
                }
            }
            6 => {
                drop(r2.take());
                send(&t, mk(LabelOp::from("b"), true, 0, 1))?;
                send(&b.tx, mk(LabelOp::from("all"), true, 0, 1))?;
            }
            7 => {
                for e in [libc::EINTR, libc::ENOBUFS, libc::ENOMEM, libc::EINTR] {
                    sys::SEND_PLAN.with(|p| p.borrow_mut().push_back(Plan::Errno(e)));
                    let _ = t.send(mk(LabelOp::from("b"), true, 0, 1));
                }
                reset();
            }
            8 => {
                // interleaved: the sender keeps clones, closes them, the receiver reads later
                let m = mk(LabelOp::from("a"), false, 0, 1);
                let keep: Vec<Object> = m.objects.iter().map(|o| o.clone().unwrap()).collect();
                send(&b.tx, m)?;
                for (i, o) in keep.iter().enumerate() {
                    check!(content(o)? == [1, i as u8], "a clone kept by the sender became unusable");
                }
                drop(keep);
                let m = r.recv(Some(Duration::from_secs(3))).map_err(|e| format!("{e:?}"))?;
                check!(content(&m.objects[0])? == [1, 0], "wrong");
            }
            9 => {
                // never sent
                drop(mk(LabelOp::from("a"), false, 0, 1));
            }
            10 => {
                // a payload that does not decode, with handles
                let (p, _) = raw_join(&b.addr, &frame(header(), &join_selector(), &join_payload(own_version(), "tok", &["raw"])))?;
                let f = crate::c15::message_for_e(7);
                let (_h, sel, _) = unframe(&f).ok_or("frame")?;
                let (et, mut e) = client(&b.id, &["e"])?;
                let o = obj(b"q");
                send_frame(p.conn.0, &frame(header(), &sel, &[]), &[o.as_raw(), o.as_raw()]).map_err(|e| format!("{e}"))?;
                send_frame(p.conn.0, &frame(header(), &sel, &[255, 255]), &[o.as_raw()]).map_err(|e| format!("{e}"))?;
                for _ in 0..2 {
                    let x = e.recv(Some(Duration::from_millis(300)));
                    check!(x.is_err(), "a payload that cannot be decoded was received");
                }
                drain(&et, "e", &mut e)?;
            }
            _ => {
                // taken out of the message, used after everything else is gone
                send(&t, mk(LabelOp::from("a"), false, 0, 1))?;
                let mut m = r.recv(Some(Duration::from_secs(3))).map_err(|e| format!("{e:?}"))?;
                let os: Vec<Object> = std::mem::take(&mut m.objects);
                let mut rg = m.memory_regions.pop().ok_or("no region")?;
                drop(m);
                drop(r);
                drop(t);
                for (i, o) in os.iter().enumerate() {
                    check!(content(o)? == [1, i as u8], "object {i} is not usable without its message");
                }
                rg.map(0..100).map_err(|e| format!("{e:?}"))?[3] = 9;
                drop(os);
                check!(rg.map(0..100).map_err(|e| format!("{e:?}"))?[3] == 9, "region changed");
                drop(rg);
                drop(r2);
                drop(t2);
                b.same(&c, "objects taken out of a message")?;
                return Ok(true);
            }
        }
    }
    let _ = drain(&b.tx, "ctl", &mut b.rx)?;
    b.same(&c, &format!("message scenario {k}"))?;
    Ok(true)
}

/// rejoining releases what belonged to the lost connection
fn lost(k: u64) -> Result<bool, String> {
    let id = uid();
    let c0 = census();
    let (tx, mut rx, st) = crate::c15::joined(&id, &["e", "x"], k & 1 == 0)?;
    if k & 4 != 0 {
        // a real bus takes over
        let c1 = census();
        let tx2 = controller(&id, &["ctl", "all"])?;
        let mut b = Bus { id, addr: vec![], tx: tx2.0, rx: tx2.1 };
        sync(&b.tx, "ctl", &mut b.rx)?;
        let mut c2 = census();
        c2.fds.retain(|f| c0.fds.contains(f) || !c1.fds.contains(f));
        c2.maps = c0.maps;
        {
            let mut s = st.borrow_mut();
            s.conn = None;
            s.wr = None;
        }
        if k & 2 == 0 {
            let _ = rx.recv(Some(Duration::ZERO));
        } else {
            tx.send(msg(LabelOp::from("ctl"), true, Duration::ZERO, 5, b"x")).map_err(|e| format!("{e:?}"))?;
        }
        b.tx.send(msg(LabelOp::from("e"), false, Duration::from_secs(5), 5, b"x")).map_err(|e| format!("{e:?}"))?;
        rx.recv(Some(Duration::from_secs(3))).map_err(|e| format!("after rejoining: {e:?}"))?;
        drop(rx);
        drop(tx);
        drop(st);
        b.same(&c2, "an endpoint that rejoined and left")?;
        return Ok(true);
    }
    for round in 0..3 {
        {
            let mut s = st.borrow_mut();
            s.conn = None;
            s.wr = None;
        }
        crate::c15::hook(&st);
        crate::c15::answer(&st, &crate::c15::Answer::Ok);
        sys::freeze(true);
        if k & 2 == 0 {
            let _ = rx.recv(Some(Duration::ZERO));
        } else {
            tx.send(msg(LabelOp::from("y"), true, Duration::ZERO, 5, b"x")).map_err(|e| format!("{e:?}"))?;
            let _ = rx.recv(Some(Duration::ZERO));
        }
        sys::freeze(false);
        reset();
        let n = sys::open_fds().len();
        // endpoint: connection, socket to read, epoll, eventfd; stand-in: connection and socket to write
        check!(n <= c0.fds.len() + 6, "after {} rejoins {} descriptors are open: {:?}", round + 1, n - c0.fds.len(), sys::open_fds());
    }
    drop(rx);
    drop(tx);
    drop(st);
    c0.same("leaving after rejoins", || Ok(()))?;
    Ok(true)
}

/// regions, mappings, clones, objects made of them and allocators
fn regions(r: &mut Rng) -> Result<bool, String> {
    let c = census();
    let mut log = String::new();
    {
        let mut regs: Vec<MemoryRegion> = vec![];
        let mut objs: Vec<Object> = vec![];
        let mut reg = ipmb::MemoryRegistry::default();
        for _ in 0..r.below(40) + 5 {
            let op = r.below(12);
            log += &format!("{op} ");
            match op {
                0 => regs.push(MemoryRegion::new(r.below(20000) as usize).ok_or("new")?),
                1 => regs.extend(reg.alloc(r.below(20000) as usize + 1, if r.below(2) == 0 { None } else { Some("t") })),
                2 if !regs.is_empty() => {
                    let i = r.below(regs.len() as u64) as usize;
                    let x = regs[i].clone().map_err(|e| format!("{e:?}"))?;
                    regs.push(x);
                }
                3 | 4 if !regs.is_empty() => {
                    let i = r.below(regs.len() as u64) as usize;
                    let n = regs[i].map(..).map_err(|e| format!("{e:?}"))?.len() as u64;
                    let a = r.below(n + 1) as usize;
                    let e = a + r.below(n - a as u64 + 1) as usize;
                    let s = regs[i].map(a..e).map_err(|e| format!("{e:?}"))?;
                    check!(s.len() == e - a, "length");
                    for x in s.iter_mut() {
                        *x = x.wrapping_add(1);
                    }
                }
                5 if !regs.is_empty() => {
                    // refused ranges leave nothing behind
                    let i = r.below(regs.len() as u64) as usize;
                    check!(MemoryRegion::new(usize::MAX / 2).is_none() && reg.alloc(usize::MAX / 2 + 100, Some("t")).is_none(), "a region of an impossible size was made");
                    check!(regs[i].map(..usize::MAX).is_err() && regs[i].map(1 << 40..).is_err(), "a range beyond the region was mapped");
                }
                6 if !regs.is_empty() => {
                    let i = r.below(regs.len() as u64) as usize;
                    regs.swap_remove(i);
                }
                7 => objs.push(obj(b"abc")),
                8 if !objs.is_empty() => {
                    let i = r.below(objs.len() as u64) as usize;
                    let x = objs[i].clone().map_err(|e| format!("{e}"))?;
                    check!(content(&x)? == b"abc", "clone of an object");
                    objs.push(x);
                }
                9 if !objs.is_empty() => {
                    let i = r.below(objs.len() as u64) as usize;
                    objs.swap_remove(i);
                    for o in &objs {
                        check!(content(o)? == b"abc", "an object became unusable when a clone was dropped");
                    }
                }
                10 => reg.maintain(),
                11 => {
                    let raw = obj(b"abc").into_raw();
                    objs.push(unsafe { Object::from_raw(raw) });
                }
                _ => {}
            }
        }
        // in any order
        if r.below(2) == 0 {
            drop(reg);
        }
        while !regs.is_empty() {
            let i = r.below(regs.len() as u64) as usize;
            regs.swap_remove(i);
        }
    }
    c.same(&format!("operations {log}"), || Ok(()))?;
    Ok(true)
}

fn history(r: &mut Rng) -> Result<bool, String> {
    let mut b = Bus::new()?;
    let c = census();
    let mut log = String::new();
    let mut some = false;
    let mut f = |b: &mut Bus| -> Result<(), String> {
        let mut eps: Vec<(Tx, Option<Rx>)> = vec![];
        let mut msgs: Vec<(u8, Message<BytesMessage>)> = vec![];
        let mut raws: Vec<Raw> = vec![];
        let mut regs: Vec<MemoryRegion> = vec![];
        for _ in 0..r.below(40) + 5 {
            let op = r.below(14);
            log += &format!("{op} ");
            match op {
                0 | 1 => {
                    some = true;
                    let (t, x) = client(&b.id, &[&format!("n{}", r.below(3)), "all"])?;
                    eps.push((t, Some(x)));
                }
                2 => check!(ipmb::join::<BytesMessage, BytesMessage>(client_opts(&b.id, &["x"], "no"), Some(Duration::from_secs(5))).is_err(), "admitted"),
                3 if !eps.is_empty() => {
                    let i = r.below(eps.len() as u64) as usize;
                    eps.swap_remove(i);
                }
                4 if !eps.is_empty() => {
                    let i = r.below(eps.len() as u64) as usize;
                    eps[i].1 = None;
                }
                5 => {
                    let f = frame(header(), &join_selector(), &join_payload(own_version(), ["tok", "x"][r.below(2) as usize], &["all"]));
                    if let Ok((w, _)) = raw_join(&b.addr, &f) {
                        raws.push(w);
                    }
                }
                6 => {
                    raws.pop();
                }
                7 => {
                    let conn = connect_to(&b.addr).map_err(|e| format!("{e}"))?;
                    let (x, y) = pair();
                    let l = [x.0, y.0, x.0, x.0, y.0];
                    let base = frame(header(), &join_selector(), &join_payload(own_version(), "tok", &["all"]));
                    let cut = r.below(base.len() as u64 + 1) as usize;
                    let _ = send_frame(conn.0, &base[..cut], &l[..r.below(6) as usize]);
                }
                8 if r.below(3) == 0 => sys::advance_ms(31_000),
                9 if !msgs.is_empty() => {
                    let i = r.below(msgs.len() as u64) as usize;
                    msgs.swap_remove(i);
                }
                10 => {
                    let mut fresh = vec![];
                    for e in eps.iter_mut() {
                        if let Some(x) = e.1.as_mut() {
                            while let Ok(m) = x.recv(Some(Duration::from_millis(1))) {
                                fresh.push(m);
                            }
                        }
                    }
                    for m in fresh {
                        let t = m.payload.data[0];
                        for (i, o) in m.objects.iter().enumerate() {
                            check!(content(o)? == [t, i as u8], "a received object has another content");
                        }
                        msgs.push((t, m));
                    }
                }
                _ => {
                    let n = r.below(200) as u8;
                    let op = [LabelOp::from("all"), LabelOp::from("n0"), LabelOp::from("n1").or("n2"), LabelOp::from("nobody"), LabelOp::from("ctl")][r.below(5) as usize].clone();
                    let mut s = if r.below(2) == 0 { Selector::multicast(op) } else { Selector::unicast(op) };
                    s.ttl = Duration::from_secs(r.below(2) * 25);
                    let mut m = Message::new(s, bytes(1, &[n]));
                    for i in 0..r.below(4) {
                        m.objects.push(obj(&[n, i as u8]));
                    }
                    for _ in 0..r.below(3) {
                        let g = MemoryRegion::new(r.below(9000) as usize).ok_or("region")?;
                        if r.below(2) == 0 {
                            regs.push(g.clone().map_err(|e| format!("{e:?}"))?);
                        }
                        m.memory_regions.push(g);
                    }
                    let from = r.below(eps.len() as u64 + 1) as usize;
                    let t = if from == eps.len() { &b.tx } else { &eps[from].0 };
                    t.send(m).map_err(|e| format!("{e:?}"))?;
                    // readers that do not read would block the bus
                    sync(&b.tx, "ctl", &mut b.rx)?;
                }
            }
            for (t, m) in &msgs {
                for (i, o) in m.objects.iter().enumerate() {
                    check!(content(o)? == [*t, i as u8], "an object of a kept message changed");
                }
            }
        }
        Ok(())
    };
    f(&mut b).map_err(|e| format!("{e}; operations {log}"))?;
    b.same(&c, &format!("operations {log}"))?;
    Ok(some)
}
