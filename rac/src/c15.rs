//! Rejoining after the controller went away: scripted stand-in controllers, real ones, and killed processes.
use crate::{bus::*, c05::ack_selector, c06::{ino, memfd}, check, sys, Ctx, Rng};
use ipmb::{BytesMessage, LabelOp, MemoryRegion, Message, RecvError, Selector, SendError};
use std::{cell::RefCell, collections::VecDeque, rc::Rc, sync::atomic::Ordering::SeqCst, time::Duration};
use sys::{Plan, WaitStep};

#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Ok,
    Token,
    Version([u8; 3]),
    /// nobody listens: this many attempts fail before the next answer
    Nobody(u32),
    Denied,
}
#[derive(Clone, Debug, PartialEq)]
enum Step {
    Lose,
    Send,
    Recv(Option<u64>),
    /// a message for the endpoint arrives, then it receives
    Get,
    CloseReader,
}

/// A controller played by the test.
#[derive(Default)]
pub struct Stand {
    pub listener: Option<OwnFd>,
    pub conn: Option<OwnFd>,
    pub wr: Option<OwnFd>,
    pub joins: Vec<Vec<u8>>,
}

fn ack(p: Vec<u8>) -> Vec<u8> {
    frame(header(), &ack_selector(), &p)
}

/// the next join attempt of this thread is answered like that
pub fn answer(st: &Rc<RefCell<Stand>>, a: &Answer) {
    let bytes = match a {
        Answer::Ok => {
            let mut p = vec![0u8];
            p.extend([7u8; 16]);
            ack(p)
        }
        Answer::Version(v) => ack(vec![1, v[0], v[1], v[2]]),
        Answer::Token => ack(vec![2]),
        Answer::Nobody(n) => {
            sys::CONNECT_PLAN.with(|p| p.borrow_mut().extend((0..*n).map(|_| Plan::Errno(libc::ECONNREFUSED))));
            return;
        }
        Answer::Denied => {
            sys::CONNECT_PLAN.with(|p| p.borrow_mut().extend((0..6).map(|_| Plan::Errno(libc::EACCES))));
            return;
        }
    };
    let s2 = st.clone();
    sys::WAIT_SCRIPT.with(|s| {
        s.borrow_mut().push_back(WaitStep::Do(
            0,
            Box::new(move || unsafe {
                let mut st = s2.borrow_mut();
                let c = OwnFd(libc::accept4(st.listener.as_ref().expect("no connection").0, std::ptr::null_mut(), std::ptr::null_mut(), libc::SOCK_CLOEXEC));
                let f = recv_frame(c.0, false).unwrap();
                st.joins.push(f.data.clone());
                let _ = send_frame(f.fds[0], &bytes, &[]);
                st.wr = Some(OwnFd(f.fds[0]));
                st.conn = Some(c);
                st.listener = None;
            }),
        ))
    });
}
pub fn hook(st: &Rc<RefCell<Stand>>) {
    let l2 = st.clone();
    sys::CONNECT_HOOK.with(|h| {
        *h.borrow_mut() = Some(Box::new(move |a: &[u8]| {
            let failing = sys::CONNECT_PLAN.with(|p| !p.borrow().is_empty());
            let mut s = l2.borrow_mut();
            if s.listener.is_none() && !failing {
                s.listener = Some(listen_at(a));
            }
        }))
    });
}

pub fn joined(id: &str, l: &[&str], affinity: bool) -> Result<(Tx, Rx, Rc<RefCell<Stand>>), String> {
    let st: Rc<RefCell<Stand>> = Default::default();
    hook(&st);
    answer(&st, &Answer::Ok);
    sys::freeze(true);
    let mut o = opts(id, l, "tok");
    o.controller_affinity = affinity;
    let r = ipmb::join::<BytesMessage, BytesMessage>(o, Some(Duration::from_secs(30)));
    sys::freeze(false);
    sys::CONNECT_HOOK.with(|h| *h.borrow_mut() = None);
    let (tx, rx) = r.map_err(|e| format!("join: {e:?}"))?;
    Ok((tx, rx, st))
}

pub fn run(c: &Ctx) {
    c.rule("endpoints whose controller (played by the test, a real one, or a killed process) goes away, followed by sends, receives and closed receivers in many orders, with answers of the next controller from acceptance to each refusal, on a clock only waits move; joins are counted and compared with the losses; non-trivial: at least one loss followed by an operation");
    let mut r = Rng(c.seed.wrapping_mul(86028121));
    let _ = (ack_selector(), message_for_e(0));
    let own = own_version();
    let answers = [Answer::Ok, Answer::Token, Answer::Version([own[0], own[1].wrapping_add(1), 3]), Answer::Nobody(3), Answer::Denied];
    // every first operation after a loss with every answer
    for op in [Step::Send, Step::Recv(Some(0)), Step::Recv(Some(10)), Step::Recv(Some(5000)), Step::Recv(Some(60_000))] {
        for a in &answers {
            for (i, then) in [vec![Step::Send, Step::Get], vec![Step::Recv(Some(3)), Step::Send], vec![Step::Get, Step::Send, Step::Get]].into_iter().enumerate() {
                let mut s = vec![Step::Lose, op.clone()];
                s.extend(then);
                c.case(&format!("first/{op:?}/{a:?}/{i}").replace(' ', ""), || script(&s, vec![a.clone()]));
            }
        }
    }
    for a in &answers {
        for n in [1, 2] {
            let mut s = vec![Step::CloseReader];
            for _ in 0..n {
                s.extend([Step::Lose, Step::Send, Step::Send]);
            }
            c.case(&format!("closed/{a:?}/{n}").replace(' ', ""), || script(&s, vec![a.clone()]));
            let s = vec![Step::Lose, Step::Send, Step::CloseReader, Step::Lose, Step::Send, Step::Lose, Step::Send];
            c.case(&format!("closed-later/{a:?}/{n}").replace(' ', ""), || script(&s, vec![Answer::Ok, a.clone()]));
        }
    }
    for k in 0..if c.thorough { 4000 } else { 200 } {
        let mut s = vec![];
        let mut closed = false;
        for _ in 0..2 + r.below(10) {
            s.push(match r.below(8) {
                0 | 1 | 2 => Step::Lose,
                3 | 4 => Step::Send,
                5 if !closed => Step::Recv(Some([0, 1, 50, 10_000][r.below(4) as usize])),
                6 if !closed => Step::Get,
                7 if r.below(4) == 0 => {
                    closed = true;
                    Step::CloseReader
                }
                _ => Step::Send,
            });
        }
        let a: Vec<Answer> = (0..12).map(|_| if r.below(3) < 2 { Answer::Ok } else { answers[r.below(5) as usize].clone() }).collect();
        c.case(&format!("script/{}/{k}", c.seed), || script(&s, a.clone()).map_err(|e| format!("{e}; {s:?} answers {a:?}")));
    }
    for k in 0..if c.thorough { 40 } else { 8 } {
        c.case(&format!("real/{k}"), || real(k));
        c.case(&format!("takeover/{k}"), || takeover(k));
        c.case(&format!("attached/{k}"), || attached(k));
        c.case(&format!("held/{k}"), || held_for_closed(k));
    }
    for k in 0..if c.thorough { 300 } else { 25 } {
        c.case(&format!("both-halves/{k}"), || both_halves(k));
    }
    for k in 0..if c.thorough { 8 } else { 2 } {
        c.case(&format!("killed/{k}"), || killed(k));
    }
    c.case("oversize/client", oversize_client);
    c.case("oversize/controller", oversize_controller);
}

/// Model: connected or lost; a lost endpoint joins in the next operation, once, and the operation carries on.
fn script(steps: &[Step], answers: Vec<Answer>) -> Result<bool, String> {
    let id = uid();
    let (tx, rx, st) = joined(&id, &["e", "extra"], false)?;
    let mut rx = Some(rx);
    let mut answers: VecDeque<Answer> = answers.into();
    let mut lost = false;
    let mut n = 0u16;
    let mut interesting = false;
    let mut joins_expected = 1usize;
    hook(&st);
    sys::freeze(true);
    let done = |r: R2| {
        sys::freeze(false);
        sys::CONNECT_HOOK.with(|h| *h.borrow_mut() = None);
        r
    };
    type R2 = Result<bool, String>;
    let own_join = unframe(&st.borrow().joins[0]).map(|x| x.2).unwrap();
    let mut go = || -> R2 {
        for (i, s) in steps.iter().enumerate() {
            let connects = sys::CONNECTS.with(|c| c.get());
            let mut a = Answer::Ok;
            let mut nobody = 0u32;
            if lost && !matches!(s, Step::Lose | Step::CloseReader) {
                interesting = true;
                a = answers.pop_front().unwrap_or(Answer::Ok);
                answer(&st, &a);
                if let Answer::Nobody(k) = a {
                    nobody = k;
                    answer(&st, &Answer::Ok);
                }
            }
            let start = sys::now_ns();
            match s {
                Step::Lose => {
                    let mut s = st.borrow_mut();
                    s.conn = None;
                    s.wr = None;
                    s.listener = None;
                    lost = true;
                    continue;
                }
                Step::CloseReader => {
                    rx = None;
                    continue;
                }
                Step::Send => {
                    n += 1;
                    let r = tx.send(msg(LabelOp::from("far"), i % 2 == 0, Duration::from_secs(9), n, b"again"));
                    let made = sys::CONNECTS.with(|c| c.get()) - connects;
                    if lost {
                        match a {
                            Answer::Ok | Answer::Nobody(_) => {
                                check!(r.is_ok(), "step {i}: sending after the loss: {r:?}");
                                check!(made == 1 + nobody, "step {i}: joined with {made} attempts, expected {}", 1 + nobody);
                                lost = false;
                                joins_expected += 1;
                            }
                            Answer::Token => {
                                check!(matches!(r, Err(SendError::TokenMismatch)), "step {i}: the refusal of the token was reported as {r:?}");
                                joins_expected += 1;
                                check!(made == 1, "step {i}: {made} attempts");
                            }
                            Answer::Version(v) => {
                                check!(matches!(&r, Err(SendError::VersionMismatch(x)) if [x.major(), x.minor(), x.patch()] == v), "step {i}: the refusal of the version was reported as {r:?}");
                                joins_expected += 1;
                                check!(made == 1, "step {i}: {made} attempts");
                            }
                            Answer::Denied => check!(matches!(r, Err(SendError::PermissionDenied)), "step {i}: repeated refusals by the system were reported as {r:?}"),
                        }
                    } else {
                        check!(r.is_ok(), "step {i}: sending: {r:?}");
                        check!(made == 0, "step {i}: joined again without a loss");
                    }
                    if !lost {
                        let f = wait_frame(st.borrow().conn.as_ref().unwrap().0, 1000);
                        let f = f.ok_or(format!("step {i}: send succeeded and the controller did not get the message"))?;
                        let (_, _, p) = unframe(&f.data).ok_or("frame")?;
                        let mut want = varint(n as u64);
                        want.push(5);
                        want.extend(b"again");
                        check!(p == want, "step {i}: the controller got another message: {p:?}");
                        check!(wait_frame(st.borrow().conn.as_ref().unwrap().0, 0).is_none(), "step {i}: the message came twice");
                    }
                }
                Step::Recv(t) => {
                    let Some(rx) = rx.as_mut() else { continue };
                    let dur = t.map(Duration::from_millis);
                    let r = rx.recv(dur);
                    let el = Duration::from_nanos((sys::now_ns() - start) as u64);
                    let made = sys::CONNECTS.with(|c| c.get()) - connects;
                    let t = dur.unwrap();
                    if lost {
                        match a {
                            Answer::Ok => {
                                check!(matches!(r, Err(RecvError::Timeout)), "step {i}: receiving after the loss: {:?}", r.map(|m| m.payload.format));
                                check!(made == 1, "step {i}: {made} attempts");
                                check!(el >= t && el <= t + Duration::from_millis(3), "step {i}: timeout {t:?} took {el:?}");
                                lost = false;
                                joins_expected += 1;
                            }
                            Answer::Nobody(k) => {
                                check!(matches!(r, Err(RecvError::Timeout)), "step {i}: receiving after the loss: {:?}", r.map(|m| m.payload.format));
                                let joined = st.borrow().joins.len() - joins_expected;
                                check!(joined == 1 || t <= Duration::from_secs(2 * k as u64), "step {i}: joined {joined} times within {t:?}");
                                if joined == 1 {
                                    lost = false;
                                    joins_expected += 1;
                                } else {
                                    // what was not met on this step is not met later
                                    sys::CONNECT_PLAN.with(|p| p.borrow_mut().clear());
                                    sys::WAIT_SCRIPT.with(|p| p.borrow_mut().clear());
                                    st.borrow_mut().listener = None;
                                }
                                check!(el >= t && el <= t + Duration::from_millis(3), "step {i}: timeout {t:?} took {el:?}");
                            }
                            Answer::Token => {
                                check!(matches!(r, Err(RecvError::TokenMismatch)), "step {i}: the refusal of the token was reported as {:?}", r.map(|m| m.payload.format));
                                joins_expected += 1;
                            }
                            Answer::Version(v) => {
                                check!(matches!(&r, Err(RecvError::VersionMismatch(x)) if [x.major(), x.minor(), x.patch()] == v), "step {i}: the refusal of the version was reported as {:?}", r.map(|m| m.payload.format));
                                joins_expected += 1;
                            }
                            Answer::Denied => {
                                // six refusals take five pauses of two seconds
                                if t > Duration::from_secs(10) {
                                    check!(matches!(r, Err(RecvError::PermissionDenied)), "step {i}: repeated refusals were reported as {:?}", r.map(|m| m.payload.format));
                                } else {
                                    check!(matches!(r, Err(RecvError::Timeout) | Err(RecvError::PermissionDenied)), "step {i}: {:?}", r.map(|m| m.payload.format));
                                }
                                sys::CONNECT_PLAN.with(|p| p.borrow_mut().clear());
                            }
                        }
                    } else {
                        check!(matches!(r, Err(RecvError::Timeout)), "step {i}: receiving: {:?}", r.map(|m| m.payload.format));
                        check!(made == 0, "step {i}: joined again without a loss");
                    }
                }
                Step::Get => {
                    let Some(rx) = rx.as_mut() else { continue };
                    let before = st.borrow().joins.len();
                    // after the join if one is due
                    n += 1;
                    let data = message_for_e(n);
                    let s2 = st.clone();
                    if lost {
                        match a {
                            Answer::Ok | Answer::Nobody(_) => sys::WAIT_SCRIPT.with(|s| {
                                s.borrow_mut().push_back(WaitStep::Do(
                                    1_000_000,
                                    Box::new(move || {
                                        if let Some(w) = s2.borrow().wr.as_ref() {
                                            let _ = send_frame(w.0, &data, &[]);
                                        }
                                    }),
                                ))
                            }),
                            _ => {}
                        }
                    } else {
                        send_frame(st.borrow().wr.as_ref().unwrap().0, &data, &[]).map_err(|e| format!("step {i}: a connected endpoint closed its end, errno {e}"))?;
                    }
                    let r = rx.recv(Some(Duration::from_secs(100)));
                    let made = st.borrow().joins.len() - before;
                    joins_expected += made;
                    match a {
                        Answer::Ok | Answer::Nobody(_) => {
                            check!(made == lost as usize, "step {i}: joined {made} times");
                            lost = false;
                            match r {
                                Ok(m) => check!(m.payload.format == n && m.payload.data == b"abc", "step {i}: got {}", m.payload.format),
                                Err(e) => return Err(format!("step {i}: a message for the endpoint was not received: {e:?}")),
                            }
                        }
                        Answer::Token => check!(matches!(r, Err(RecvError::TokenMismatch)), "step {i}: the refusal of the token was reported as {:?}", r.map(|m| m.payload.format)),
                        Answer::Version(v) => check!(matches!(&r, Err(RecvError::VersionMismatch(x)) if [x.major(), x.minor(), x.patch()] == v), "step {i}: {:?}", r.map(|m| m.payload.format)),
                        Answer::Denied => check!(matches!(r, Err(RecvError::PermissionDenied)), "step {i}: {:?}", r.map(|m| m.payload.format)),
                    }
                }
            }
            let s = st.borrow();
            check!(s.joins.len() == joins_expected, "step {i}: {} join requests so far, expected {joins_expected}", s.joins.len());
            let p = unframe(s.joins.last().unwrap()).map(|x| x.2).unwrap();
            check!(p == own_join, "step {i}: joined again with other options: {p:?} instead of {own_join:?}");
            if !lost && rx.is_none() {
                // nothing reads that end
                let mut pipe_gone = false;
                for _ in 0..3 {
                    pipe_gone |= send_frame(s.wr.as_ref().unwrap().0, &message_for_e(1), &[]).is_err();
                }
                check!(pipe_gone, "step {i}: the closed receiver was opened again by the rejoin");
            }
        }
        Ok(interesting)
    };
    let r = go();
    done(r)
}

pub fn message_for_e(n: u16) -> Vec<u8> {
    static S: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    let sel = S
        .get_or_init(|| {
            std::thread::spawn(|| {
                let id = uid();
                let addr = addr_of(&id);
                let (tx, _rx) = controller(&id, &["ctl"]).unwrap();
                let (p, _) = raw_join(&addr, &frame(header(), &join_selector(), &join_payload(own_version(), "tok", &["e"]))).unwrap();
                tx.send(msg(LabelOp::from("e"), false, Duration::ZERO, 0x1234, b"payload")).unwrap();
                unframe(&wait_frame(p.rd.0, 3000).unwrap().data).unwrap().1
            })
            .join()
            .unwrap()
        })
        .clone();
    let mut p = varint(n as u64);
    p.push(3);
    p.extend(b"abc");
    frame(header(), &sel, &p)
}

/// a real controller started on an identifier whose stand-in controller still holds the connection
fn real(k: u64) -> Result<bool, String> {
    let id = uid();
    let (tx, mut rx, st) = joined(&id, &["e", "x"], k & 1 == 0)?;
    let (ctx, mut crx) = controller(&id, &["ctl"])?;
    let (otx, mut orx) = client(&id, &["other"])?;
    let before = sys::ALL_CONNECTS.load(SeqCst);
    {
        let mut s = st.borrow_mut();
        s.conn = None;
        s.wr = None;
    }
    if k & 2 == 0 {
        tx.send(msg(LabelOp::from("ctl").or("other"), true, Duration::ZERO, 5, b"first")).map_err(|e| format!("send after the loss: {e:?}"))?;
        let a = ids(&drain(&tx, "ctl", &mut crx)?);
        let b = ids(&drain(&tx, "other", &mut orx)?);
        check!(a == [5] && b == [5], "the message sent during the loss reached the controller {a:?} and another endpoint {b:?}");
    } else {
        let r = rx.recv(Some(Duration::from_millis(20)));
        check!(matches!(r, Err(RecvError::Timeout)), "receive after the loss");
    }
    for (i, s) in [&ctx, &otx, &tx].into_iter().enumerate() {
        s.send(msg(LabelOp::from("x"), i % 2 == 0, Duration::ZERO, 10 + i as u16, b"")).map_err(|e| format!("{e:?}"))?;
        s.send(msg(LabelOp::from("y"), true, Duration::ZERO, 100, b"")).map_err(|e| format!("{e:?}"))?;
        let g = ids(&drain(s, "e", &mut rx)?);
        check!(g == [10 + i as u16], "after rejoining the endpoint got {g:?} instead of {}", 10 + i);
    }
    let d = sys::ALL_CONNECTS.load(SeqCst) - before;
    check!(d == 1, "joined {d} times after one loss");
    Ok(true)
}

/// nobody else is there: the endpoint becomes the controller
fn takeover(k: u64) -> Result<bool, String> {
    let id = uid();
    let (tx, mut rx, st) = joined(&id, &["e", "x"], true)?;
    {
        let mut s = st.borrow_mut();
        s.conn = None;
        s.wr = None;
    }
    let mut keep = None;
    match k % 4 {
        0 => {
            tx.send(msg(LabelOp::from("x"), k & 4 == 0, Duration::ZERO, 5, b"self")).map_err(|e| format!("send after the loss: {e:?}"))?;
            let g = ids(&drain(&tx, "e", &mut rx)?);
            check!(g == [5], "the message that met the loss was received as {g:?}");
        }
        1 => {
            let r = rx.recv(Some(Duration::from_millis(20)));
            check!(matches!(r, Err(RecvError::Timeout)), "receive after the loss");
        }
        2 => {
            // held for a later endpoint
            tx.send(msg(LabelOp::from("later"), false, Duration::from_secs(60), 6, b"held")).map_err(|e| format!("send after the loss: {e:?}"))?;
            let (ltx, mut lrx) = client(&id, &["later", "L"])?;
            let g = ids(&drain(&tx, "L", &mut lrx)?);
            check!(g == [6], "the message that met the loss was delivered later as {g:?}");
            keep = Some((ltx, lrx));
        }
        _ => {
            drop(rx);
            tx.send(msg(LabelOp::from("x"), false, Duration::from_secs(60), 7, b"")).map_err(|e| format!("send after the loss: {e:?}"))?;
            let (_ltx, mut lrx) = client(&id, &["x", "L"])?;
            let g = ids(&drain(&tx, "L", &mut lrx)?);
            check!(g == [7], "a message for a closed receiver was not given to the next endpoint: {g:?}");
            return Ok(true);
        }
    }
    let (ctx, mut crx) = client(&id, &["c"])?;
    ctx.send(msg(LabelOp::from("x"), true, Duration::ZERO, 8, b"")).map_err(|e| format!("{e:?}"))?;
    let g = ids(&drain(&ctx, "e", &mut rx)?);
    check!(g == [8], "the new controller's endpoint got {g:?}");
    tx.send(msg(LabelOp::from("c"), true, Duration::ZERO, 9, b"")).map_err(|e| format!("{e:?}"))?;
    let g = ids(&drain(&tx, "c", &mut crx)?);
    check!(g == [9], "an endpoint of the new controller got {g:?}");
    check!(ipmb::join::<BytesMessage, BytesMessage>(client_opts(&id, &["z"], "wrong"), Some(Duration::from_secs(5))).is_err(), "the new controller admits another token");
    drop(keep);
    Ok(true)
}

/// what is attached to a message that meets the loss arrives, once
fn attached(k: u64) -> Result<bool, String> {
    let id = uid();
    let (tx, _rx, st) = joined(&id, &["e"], false)?;
    let (ctx, mut crx) = controller(&id, &["ctl"])?;
    let mut region = MemoryRegion::new(100).ok_or("region")?;
    region.map(..).unwrap().copy_from_slice(&[k as u8 + 1; 100]);
    {
        let mut s = st.borrow_mut();
        s.conn = None;
        s.wr = None;
    }
    let obj = memfd(b"object");
    let want = ino(&obj);
    let mut m = Message::new(Selector::unicast("ctl"), bytes(3, b"with"));
    m.objects.push(obj);
    m.memory_regions.push(region.clone().unwrap());
    tx.send(m).map_err(|e| format!("{e:?}"))?;
    let mut g = drain(&tx, "ctl", &mut crx)?;
    check!(g.len() == 1 && g[0].objects.len() == 1 && g[0].memory_regions.len() == 1, "the message came {} times or without what was attached", g.len());
    check!(ino(&g[0].objects[0]) == want, "another object arrived");
    check!(g[0].memory_regions[0].map(..).unwrap() == [k as u8 + 1; 100], "another region arrived");
    let n = region.ref_count();
    check!(n == 2, "reference count {n} with two handles after a retried send");
    g.clear();
    let n = region.ref_count();
    check!(n == 1, "reference count {n} with one handle after a retried send");
    Ok(true)
}

/// A message for an endpoint whose receiver was closed before the loss is held for another endpoint.
fn held_for_closed(k: u64) -> Result<bool, String> {
    let id = uid();
    let (tx, rx, st) = joined(&id, &["e"], k & 1 == 1)?;
    let (ctx, mut crx) = controller(&id, &["ctl"])?;
    drop(rx);
    {
        let mut s = st.borrow_mut();
        s.conn = None;
        s.wr = None;
    }
    tx.send(msg(LabelOp::from("ctl"), false, Duration::ZERO, 1, b"")).map_err(|e| format!("{e:?}"))?;
    let g = ids(&drain(&tx, "ctl", &mut crx)?);
    check!(g == [1], "got {g:?}");
    ctx.send(msg(LabelOp::from("e"), k & 2 == 2, Duration::from_secs(60), 2, b"")).map_err(|e| format!("{e:?}"))?;
    let (_t, mut lrx) = client(&id, &["e", "L"])?;
    let g = ids(&drain(&ctx, "L", &mut lrx)?);
    check!(g == [2], "a message was handed to a receiver closed before the rejoin, the next endpoint got {g:?}");
    drop(tx);
    Ok(true)
}

/// sender and receiver notice the loss at the same time
fn both_halves(k: u64) -> Result<bool, String> {
    let id = uid();
    let (tx, mut rx, st) = joined(&id, &["e"], k & 1 == 1)?;
    let (_ctx, _crx) = controller(&id, &["ctl"])?;
    let before = sys::ALL_CONNECTS.load(SeqCst);
    let h = std::thread::spawn(move || {
        let mut v = vec![];
        while v.len() < 3 {
            match rx.recv(Some(Duration::from_secs(5))) {
                Ok(m) => v.push(m.payload.format),
                Err(e) => return Err(format!("receiver: {e:?} after {v:?}")),
            }
        }
        let extra = rx.recv(Some(Duration::from_millis(5)));
        if let Ok(m) = extra {
            return Err(format!("one more message: {}", m.payload.format));
        }
        Ok(v)
    });
    let tx2 = tx.clone();
    if k % 3 == 0 {
        std::thread::sleep(Duration::from_millis(3));
    }
    let (c, w) = {
        let mut s = st.borrow_mut();
        (s.conn.take(), s.wr.take())
    };
    if k % 2 == 0 {
        drop(w);
        drop(c);
    } else {
        drop(c);
        drop(w);
    }
    let h2 = std::thread::spawn(move || tx2.send(msg(LabelOp::from("ctl"), false, Duration::ZERO, 9, b"")).map_err(|e| format!("{e:?}")));
    for i in 0..3 {
        tx.send(msg(LabelOp::from("e"), false, Duration::ZERO, i, b"")).map_err(|e| format!("{e:?}"))?;
    }
    h2.join().unwrap()?;
    let v = h.join().unwrap()?;
    check!(v == [0, 1, 2], "received {v:?}");
    let d = sys::ALL_CONNECTS.load(SeqCst) - before;
    check!(d == 1, "joined {d} times after one loss");
    Ok(true)
}

/// the controller is a process that gets killed
fn killed(k: u64) -> Result<bool, String> {
    use std::io::BufRead;
    let id = uid();
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["child-controller", &id, "ctl"])
        .stdout(std::process::Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut l = String::new();
    std::io::BufReader::new(ch.stdout.take().unwrap()).read_line(&mut l).map_err(|e| e.to_string())?;
    let (tx1, mut rx1) = ipmb::join::<BytesMessage, BytesMessage>(opts(&id, &["one"], "tok"), Some(Duration::from_secs(10))).map_err(|e| format!("{e:?}"))?;
    let (tx2, mut rx2) = client(&id, &["two"])?;
    tx1.send(msg(LabelOp::from("two"), false, Duration::ZERO, 1, b"")).map_err(|e| format!("{e:?}"))?;
    let g = rx2.recv(Some(Duration::from_secs(3))).map_err(|e| format!("before: {e:?}"))?;
    check!(g.payload.format == 1, "before");
    let _ = ch.kill();
    let _ = ch.wait();
    if k & 1 == 0 {
        tx1.send(msg(LabelOp::from("one"), false, Duration::ZERO, 2, b"")).map_err(|e| format!("{e:?}"))?;
        let g = rx1.recv(Some(Duration::from_secs(3))).map_err(|e| format!("after: {e:?}"))?;
        check!(g.payload.format == 2, "after");
    } else {
        let r = rx1.recv(Some(Duration::from_millis(30)));
        check!(matches!(r, Err(RecvError::Timeout)), "receive after the death");
    }
    let r = rx2.recv(Some(Duration::from_millis(30)));
    check!(matches!(r, Err(RecvError::Timeout)), "receive after the death");
    tx2.send(msg(LabelOp::from("one"), false, Duration::ZERO, 3, b"")).map_err(|e| format!("{e:?}"))?;
    let g = rx1.recv(Some(Duration::from_secs(3))).map_err(|e| format!("after: {e:?}"))?;
    check!(g.payload.format == 3, "got {}", g.payload.format);
    tx1.send(msg(LabelOp::from("two"), true, Duration::ZERO, 4, b"")).map_err(|e| format!("{e:?}"))?;
    let g = rx2.recv(Some(Duration::from_secs(3))).map_err(|e| format!("after: {e:?}"))?;
    check!(g.payload.format == 4, "got {}", g.payload.format);
    Ok(true)
}

/// A message larger than the transport accepts: sending it must not be mistaken for a loss.
fn oversize_client() -> Result<bool, String> {
    let id = uid();
    let (_ctx, _crx) = controller(&id, &["ctl"])?;
    let (tx, rx) = client(&id, &["e"])?;
    let (s, r) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut n = 0;
        let s2 = s.clone();
        sys::CONNECT_HOOK.with(|h| {
            *h.borrow_mut() = Some(Box::new(move |_: &[u8]| {
                n += 1;
                if n > 5 {
                    let _ = s2.send(Err(format!("a message that is too large made the endpoint join again {n} times without end")));
                    loop {
                        std::thread::park();
                    }
                }
            }))
        });
        let _keep = rx;
        let x = tx.send(msg(LabelOp::from("ctl"), false, Duration::ZERO, 1, &vec![1u8; 4 << 20]));
        sys::CONNECT_HOOK.with(|h| *h.borrow_mut() = None);
        let _ = s.send(Ok(format!("{x:?}")));
    });
    match r.recv_timeout(Duration::from_secs(20)) {
        Ok(Ok(_)) => Ok(true),
        Ok(Err(e)) => Err(e),
        Err(_) => Err("sending a message that is too large did not return".into()),
    }
}

fn oversize_controller() -> Result<bool, String> {
    let id = uid();
    let (ctx, _crx) = controller(&id, &["ctl"])?;
    let (_tx, mut rx) = client(&id, &["e"])?;
    let before = sys::ALL_CONNECTS.load(SeqCst);
    ctx.send(msg(LabelOp::from("e"), false, Duration::ZERO, 1, &vec![1u8; 4 << 20])).map_err(|e| format!("{e:?}"))?;
    ctx.send(msg(LabelOp::from("e"), false, Duration::ZERO, 2, b"")).map_err(|e| format!("{e:?}"))?;
    let r = rx.recv(Some(Duration::from_millis(300)));
    let d = sys::ALL_CONNECTS.load(SeqCst) - before;
    check!(d == 0, "a message too large for the transport made a connected endpoint join again");
    check!(matches!(&r, Ok(m) if m.payload.format == 2), "a message after one too large for the transport was lost: {:?}", r.map(|m| m.payload.format));
    Ok(true)
}
