use crate::{bus::*, c05::ack_selector, check, sys, Ctx, Rng};
use ipmb::{BytesMessage, LabelOp, RecvError};
use std::{cell::RefCell, rc::Rc, time::Duration};
use sys::WaitStep;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Good(u16),
    Misrouted,
    OtherType,
    Interrupted,
    /// several irrelevant messages at once
    Burst,
}

pub fn run(c: &Ctx) {
    c.rule("receive calls with timeouts from zero to the maximum while messages of other types, for other labels, interruptions and a wanted message happen at chosen times, on a clock only waits move; the result and its time are compared with the specification; the controller's own endpoint against real time; non-trivial: something irrelevant happened during the call");
    let mut r = Rng(c.seed.wrapping_mul(15485863));
    let evs = [Ev::Misrouted, Ev::OtherType, Ev::Interrupted, Ev::Burst];
    let us = |n: u64| Some(Duration::from_micros(n));
    let touts = [None, us(0), us(1), us(500), us(999), us(1000), us(1001), us(1500), us(20_000), us(20_999), us(1_000_000), us(3_600_000_000), Some(Duration::from_millis(1 << 31)), Some(Duration::from_millis((1 << 31) + 5)), Some(Duration::from_millis(1 << 32)), Some(Duration::from_secs(1 << 40)), Some(Duration::from_millis(u64::MAX)), Some(Duration::MAX)];
    for t in touts {
        for e in &evs {
            for at in [0u64, 1, 10, 19] {
                for n in [1usize, 3] {
                    let mut s: Vec<(u64, Ev)> = vec![(at, e.clone()); n];
                    let long = t.map_or(true, |t| t > Duration::from_secs(1000));
                    if long {
                        // otherwise it would take for ever
                        s.push((5, Ev::Good(1)));
                    }
                    c.case(&format!("one/{t:?}/{e:?}x{n}@{at}").replace(' ', ""), || play(&s, t));
                }
            }
        }
        c.case(&format!("alone/{t:?}"), || play(&if t.map_or(true, |t| t > Duration::from_secs(1000)) { vec![(7, Ev::Good(2))] } else { vec![] }, t));
    }
    // the message comes a little before and a little after the end
    for t in [5u64, 100, 60_000] {
        for d in [-2i64, -1, 1, 2] {
            for noise in 0..3u64 {
                let mut s: Vec<(u64, Ev)> = (0..noise).map(|i| (1, evs[i as usize % 3].clone())).collect();
                s.push(((t as i64 + d) as u64 - noise, Ev::Good(9)));
                c.case(&format!("edge/{t}/{d}/{noise}"), || play(&s, Some(Duration::from_millis(t))));
            }
        }
    }
    for k in 0..if c.thorough { 3000 } else { 150 } {
        let mut s = vec![];
        for _ in 0..r.below(14) {
            s.push(([0, 0, 1, 3, 10, 100, 2500][r.below(7) as usize], evs[r.below(4) as usize].clone()));
        }
        let t = match r.below(4) {
            0 => None,
            1 => Some(Duration::from_micros(r.below(30_000))),
            2 => Some(Duration::from_millis(r.below(5000))),
            _ => Some(Duration::from_secs(r.below(100))),
        };
        if t.is_none() || r.below(2) == 0 {
            s.push((r.below(50), Ev::Good(r.below(60000) as u16)));
        }
        c.case(&format!("script/{}/{k}", c.seed), || play(&s, t).map_err(|e| format!("{e}; {s:?} timeout {t:?}")));
    }
    for k in 0..4 {
        c.case(&format!("controller/{k}"), || at_controller(k));
    }
    // the controller goes away during the wait, and nobody or another one takes over
    for t in [20u64, 500, 1999, 2001, 5000, 60_000] {
        for part in [0u64, 1, 50, 99, 100] {
            for back in [None, Some(1u32), Some(3)] {
                c.case(&format!("lost/{t}/{part}/{back:?}"), || lost(t, t * part / 100, back));
            }
        }
    }
    c.case("zero", zero);
    c.case("endless", endless);
    for t in [Duration::MAX, Duration::from_millis(u64::MAX), Duration::from_millis(1 << 32), Duration::from_millis((1 << 32) + 1), Duration::from_millis((1 << 31) + 1), Duration::from_nanos(u64::MAX)] {
        c.case(&format!("controller-long/{t:?}"), || controller_long(t));
    }
}

/// frames of messages to label `e`: of our type, of another type
fn frames() -> &'static (Vec<u8>, Vec<u8>, Vec<u8>) {
    static F: std::sync::OnceLock<(Vec<u8>, Vec<u8>, Vec<u8>)> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let id = uid();
        let addr = addr_of(&id);
        let (tx, _rx) = controller(&id, &["ctl"]).unwrap();
        let (p, _) = raw_join(&addr, &frame(header(), &join_selector(), &join_payload(own_version(), "tok", &["e"]))).unwrap();
        tx.send(msg(LabelOp::from("e"), false, Duration::ZERO, 0x1234, b"payload")).unwrap();
        let good = unframe(&wait_frame(p.rd.0, 3000).unwrap().data).unwrap();
        tx.send(msg(LabelOp::from("other").or(LabelOp::True), true, Duration::ZERO, 1, b"payload")).unwrap();
        let mis = unframe(&wait_frame(p.rd.0, 3000).unwrap().data).unwrap();
        // True becomes False: Or(Leaf other, False)
        let mut ms = mis.1.clone();
        let i = 1 + 2 + 5;
        assert_eq!((ms[0], ms[1], ms[i]), (5, 2, 0), "{ms:?}");
        ms[i] = 1;
        // the type identifier follows expression and mode
        let mut ot = good.1.clone();
        let u = 1 + 1 + 1 + 1;
        ot[u] ^= 0x40;
        (frame(header(), &good.1, &good.2), frame(header(), &ms, &mis.2), frame(header(), &ot, &good.2))
    })
}
fn good_frame(tag: u16) -> Vec<u8> {
    let f = unframe(&frames().0).unwrap();
    let mut p = varint(tag as u64);
    p.push(3);
    p.extend(b"abc");
    frame(header(), &f.1, &p)
}

/// an endpoint of a stand-in controller, and the descriptor to write to it
pub fn endpoint() -> Result<(Tx, Rx, Rc<RefCell<Option<OwnFd>>>, Rc<RefCell<Option<OwnFd>>>), String> {
    endpoint_as(&uid(), &["e"])
}
pub fn endpoint_as(id: &str, l: &[&str]) -> Result<(Tx, Rx, Rc<RefCell<Option<OwnFd>>>, Rc<RefCell<Option<OwnFd>>>), String> {
    let mut p = vec![0u8];
    p.extend([7u8; 16]);
    let answer = frame(header(), &ack_selector(), &p);
    let listener: Rc<RefCell<Option<OwnFd>>> = Default::default();
    let wr: Rc<RefCell<Option<OwnFd>>> = Default::default();
    let conn: Rc<RefCell<Option<OwnFd>>> = Default::default();
    let l2 = listener.clone();
    sys::CONNECT_HOOK.with(|h| {
        *h.borrow_mut() = Some(Box::new(move |a: &[u8]| {
            if l2.borrow().is_none() {
                *l2.borrow_mut() = Some(listen_at(a));
            }
        }))
    });
    let (l3, w3, c3) = (listener.clone(), wr.clone(), conn.clone());
    sys::WAIT_SCRIPT.with(|s| {
        s.borrow_mut().push_back(WaitStep::Do(
            0,
            Box::new(move || unsafe {
                let c = OwnFd(libc::accept4(l3.borrow().as_ref().unwrap().0, std::ptr::null_mut(), std::ptr::null_mut(), libc::SOCK_CLOEXEC));
                let f = recv_frame(c.0, false).unwrap();
                let _ = send_frame(f.fds[0], &answer, &[]);
                *w3.borrow_mut() = Some(OwnFd(f.fds[0]));
                *c3.borrow_mut() = Some(c);
            }),
        ))
    });
    sys::freeze(true);
    let r = ipmb::join::<BytesMessage, BytesMessage>(client_opts(id, l, "tok"), Some(Duration::from_secs(30)));
    sys::freeze(false);
    sys::CONNECT_HOOK.with(|h| *h.borrow_mut() = None);
    let (tx, rx) = r.map_err(|e| format!("join: {e:?}"))?;
    Ok((tx, rx, wr, conn))
}

fn play(s: &[(u64, Ev)], t: Option<Duration>) -> Result<bool, String> {
    let _ = frames();
    let (_tx, mut rx, wr, _conn) = endpoint()?;
    sys::WAITS.with(|w| w.borrow_mut().clear());
    let mut at = 0u64;
    let mut want: Option<(u64, u16)> = None;
    for (d, e) in s {
        at += d * 1_000_000;
        if let Ev::Good(n) = e {
            if want.is_none() {
                want = Some((at, *n));
            }
        }
        let w = wr.clone();
        let e = e.clone();
        let d = d * 1_000_000;
        sys::WAIT_SCRIPT.with(|q| {
            q.borrow_mut().push_back(match e {
                Ev::Interrupted => WaitStep::Eintr(d),
                e => WaitStep::Do(
                    d,
                    Box::new(move || {
                        let w = w.borrow();
                        let fd = w.as_ref().unwrap().0;
                        let fs: Vec<Vec<u8>> = match e {
                            Ev::Good(n) => vec![good_frame(n)],
                            Ev::Misrouted => vec![frames().1.clone()],
                            Ev::OtherType => vec![frames().2.clone()],
                            _ => vec![frames().1.clone(), frames().2.clone(), frames().1.clone(), frames().2.clone(), frames().2.clone()],
                        };
                        for f in fs {
                            send_frame(fd, &f, &[]).unwrap();
                        }
                    }),
                ),
            })
        });
    }
    sys::freeze(true);
    let t0 = sys::now_ns();
    let r = rx.recv(t);
    let took = (sys::now_ns() - t0) as u64;
    sys::freeze(false);
    let took_d = Duration::from_nanos(took);
    match r {
        Ok(m) => {
            let Some((at, n)) = want else { return Err(format!("a message came from nowhere: {:?}", m.payload)) };
            check!(m.payload.format == n && m.payload.data == b"abc", "another message than the one sent is returned: {:?}", m.payload);
            check!(took >= at && took <= at + 1_000_000, "the message of {at} ns is returned after {took} ns");
        }
        Err(RecvError::Timeout) => {
            let Some(t) = t else { return Err("a receive without a timeout reports a timeout".into()) };
            check!(took_d >= t, "a timeout of {t:?} is reported after {took_d:?}");
            check!(took_d <= t + Duration::from_millis(2), "a timeout of {t:?} is reported only after {took_d:?}");
            if let Some((at, _)) = want {
                check!(Duration::from_nanos(at) >= t, "a timeout of {t:?} is reported although a message came after {at} ns");
            }
        }
        Err(e) => return Err(format!("receiving ends with {e:?}")),
    }
    if t == Some(Duration::ZERO) {
        let w = sys::WAITS.with(|w| w.borrow().clone());
        check!(w.iter().all(|w| *w == 0), "a receive with a zero timeout waits: {w:?}");
    }
    Ok(s.len() > 1)
}

/// after `at` ms of waiting the connection is gone; a controller is there again after so many attempts
fn lost(t: u64, at: u64, back: Option<u32>) -> Result<bool, String> {
    use crate::c15::{answer, hook, joined, Answer};
    let (_tx, mut rx, st) = joined(&uid(), &["e"], false)?;
    hook(&st);
    let s2 = st.clone();
    sys::WAIT_SCRIPT.with(|q| {
        q.borrow_mut().push_back(WaitStep::Do(
            at * 1_000_000,
            Box::new(move || {
                let mut s = s2.borrow_mut();
                s.conn = None;
                s.wr = None;
                s.listener = None;
            }),
        ))
    });
    answer(&st, &Answer::Nobody(back.unwrap_or(200)));
    answer(&st, &Answer::Ok);
    sys::freeze(true);
    let t0 = sys::now_ns();
    let r = rx.recv(Some(Duration::from_millis(t)));
    let took = Duration::from_nanos((sys::now_ns() - t0) as u64);
    sys::freeze(false);
    sys::CONNECT_HOOK.with(|h| *h.borrow_mut() = None);
    sys::CONNECT_PLAN.with(|p| p.borrow_mut().clear());
    sys::WAIT_SCRIPT.with(|p| p.borrow_mut().clear());
    let t = Duration::from_millis(t);
    check!(matches!(r, Err(RecvError::Timeout)), "receiving ends with {:?}", r.map(|m| m.payload.format));
    check!(took >= t, "a timeout of {t:?} is reported after {took:?}");
    check!(took <= t + Duration::from_millis(3), "a timeout of {t:?} is reported only after {took:?} (the controller went away after {at} ms)");
    Ok(true)
}

/// what is there is returned by a receive that may not wait
fn zero() -> Result<bool, String> {
    let (_tx, mut rx, wr, _conn) = endpoint()?;
    let fd = wr.borrow().as_ref().unwrap().0;
    sys::freeze(true);
    for n in 0..20u16 {
        for _ in 0..n % 4 {
            send_frame(fd, &frames().1, &[]).unwrap();
            send_frame(fd, &frames().2, &[]).unwrap();
        }
        send_frame(fd, &good_frame(n), &[]).unwrap();
        // the message is already there
        let m = (0..16).find_map(|_| rx.recv(Some(Duration::ZERO)).ok());
        check!(m.as_ref().map_or(false, |m| m.payload.format == n), "a message already there is not returned by a receive that may not wait");
    }
    sys::freeze(false);
    let id = uid();
    let (tx, mut rx) = controller(&id, &["ctl"])?;
    let (_a, mut arx) = client(&id, &["a"])?;
    for n in 0..20u16 {
        let t = sys::real_ns();
        check!(matches!(rx.recv(Some(Duration::ZERO)), Err(RecvError::Timeout)), "nothing is there");
        check!(matches!(arx.recv(Some(Duration::ZERO)), Err(RecvError::Timeout)), "nothing is there");
        check!(sys::real_ns() - t < 1_500_000_000, "a receive with a zero timeout blocks");
        tx.send(msg(LabelOp::from("ctl").or("a"), true, Duration::ZERO, n, b"")).map_err(|e| format!("{e:?}"))?;
        let m = arx.recv(Some(Duration::from_secs(3))).map_err(|e| format!("{e:?}"))?;
        check!(m.payload.format == n, "wrong message");
        // sent to all others first
        let m = rx.recv(Some(Duration::from_secs(3))).map_err(|e| format!("{e:?}"))?;
        check!(m.payload.format == n, "wrong message");
    }
    Ok(true)
}

/// the controller's own endpoint, against real time
fn at_controller(k: u64) -> Result<bool, String> {
    let id = uid();
    let addr = addr_of(&id);
    let (tx, mut rx) = controller(&id, &["ctl"])?;
    let (_atx, _arx) = client(&id, &["a"])?;
    let conn = connect_to(&addr).map_err(|e| format!("{e}"))?;
    // a message of another type to this receiver
    let f = unframe(&frames().2).unwrap();
    let mut sel = f.1.clone();
    sel.splice(0..3, [2u8, 3, b'c', b't', b'l']);
    let noise = frame(header(), &sel, &f.2);
    let t = Duration::from_millis([60, 150, 5, 100][k as usize]);
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let s2 = stop.clone();
    let tx2 = tx.clone();
    let h = std::thread::spawn(move || {
        let t0 = sys::real_ns();
        let mut n = 0u64;
        while !s2.load(std::sync::atomic::Ordering::SeqCst) && sys::real_ns() - t0 < 2_500_000_000 {
            if k == 3 {
                // messages for others wake the controller, not this receiver
                let _ = tx2.send(msg(LabelOp::from("a"), false, Duration::ZERO, 1, b""));
            } else {
                let _ = send_frame(conn.0, &noise, &[]);
            }
            n += 1;
            std::thread::sleep(Duration::from_millis(3));
        }
        n
    });
    std::thread::sleep(Duration::from_millis(20));
    let t0 = sys::real_ns();
    let r = rx.recv(Some(t));
    let took = Duration::from_nanos((sys::real_ns() - t0) as u64);
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    let n = h.join().unwrap();
    check!(matches!(r, Err(RecvError::Timeout)), "a receive that gets nothing ends with {:?}", r.map(|m| m.payload));
    check!(took >= t, "a timeout of {t:?} is reported after {took:?}");
    check!(took < t + Duration::from_millis(1200), "a timeout of {t:?} is reported only after {took:?} ({n} irrelevant messages)");
    Ok(n > 0)
}
/// every timeout is at least that long; a message sent meanwhile arrives
fn controller_long(t: Duration) -> Result<bool, String> {
    let id = uid();
    let (tx, mut rx) = controller(&id, &["ctl"])?;
    let h = std::thread::spawn(move || {
        std::thread::sleep(Duration::from_millis(80));
        let _ = tx.send(msg(LabelOp::from("ctl"), false, Duration::ZERO, 8, b""));
    });
    let r = rx.recv(Some(t));
    let _ = h.join();
    check!(matches!(&r, Ok(m) if m.payload.format == 8), "a receive with a timeout of {t:?} ends with {:?}", r.err());
    Ok(true)
}
/// without a timeout: noise and interruptions for a long time
fn endless() -> Result<bool, String> {
    let mut s: Vec<(u64, Ev)> = vec![];
    for i in 0..60 {
        s.push((100_000, [Ev::Interrupted, Ev::Misrouted, Ev::OtherType][i % 3].clone()));
    }
    s.push((1 << 31, Ev::Interrupted));
    s.push((1000, Ev::Good(4)));
    play(&s, None)?;
    play(&s, Some(Duration::MAX))?;
    Ok(true)
}
