use crate::{bus::*, c05::ack_selector, check, sys, Ctx, Rng};
use ipmb::{BytesMessage, JoinError, Options};
use std::{cell::Cell, cell::RefCell, rc::Rc, time::Duration};
use sys::{Plan, WaitStep};

#[derive(Clone, Debug, PartialEq)]
enum A {
    /// nobody listens
    Free,
    Refused,
    Broken(i32),
    /// the join request cannot be sent
    SendFails,
    Ok,
    Token,
    Version([u8; 3]),
    Silent,
    Garbage,
}
#[derive(Clone, Debug, PartialEq)]
enum B {
    Ok,
    InUse,
    Refused,
    Broken(i32),
}
#[derive(Clone, Debug)]
struct Script {
    affinity: bool,
    a: Vec<(A, B)>,
    timeout: Option<Duration>,
}
#[derive(Debug, PartialEq, Clone)]
enum Out {
    Endpoint,
    Controller,
    Token,
    Version([u8; 3]),
    Timeout,
    Denied,
}

pub fn run(c: &Ctx) {
    c.rule("scripts of what each attempt meets (nobody there, refusals, other errors of connect and bind, answers, silence, hang-ups, garbage) for both affinities and timeouts from zero to the maximum, on a clock only sleeps and waits move; the outcome and when it comes are compared with the specification; non-trivial: at least one attempt failed first");
    let mut r = Rng(c.seed.wrapping_mul(1299709));
    let own = own_version();
    let term = [A::Ok, A::Token, A::Version([own[0].wrapping_add(1), 7, 9]), A::Version([0, 0, 1])];
    let fails = [A::Free, A::Refused, A::Broken(libc::EAGAIN), A::Broken(libc::EINTR), A::Broken(libc::ENOBUFS), A::SendFails, A::Garbage];
    let ms = |n: u64| Some(Duration::from_millis(n));
    // every single step, every timeout
    let touts = [None, ms(0), ms(1), ms(1999), ms(2000), ms(2001), ms(7500), ms(60_000), Some(Duration::MAX), Some(Duration::from_secs(u64::MAX / 1000)), Some(Duration::from_secs(1 << 33))];
    for t in &touts {
        for x in &term {
            one(c, Script { affinity: false, a: vec![(x.clone(), B::Ok)], timeout: *t });
            for f in &fails {
                one(c, Script { affinity: false, a: vec![(f.clone(), B::Ok), (x.clone(), B::Ok)], timeout: *t });
                one(c, Script { affinity: false, a: vec![(f.clone(), B::Ok), (f.clone(), B::Ok), (x.clone(), B::Ok)], timeout: *t });
            }
        }
        one(c, Script { affinity: true, a: vec![(A::Free, B::Ok)], timeout: *t });
        for b in [B::InUse, B::Refused, B::Broken(libc::ENOMEM)] {
            one(c, Script { affinity: true, a: vec![(A::Free, b.clone()), (A::Ok, B::Ok)], timeout: *t });
            one(c, Script { affinity: true, a: vec![(A::Free, b.clone()), (A::Free, b.clone()), (A::Free, B::Ok)], timeout: *t });
        }
        one(c, Script { affinity: true, a: vec![(A::Silent, B::Ok); 12], timeout: *t });
        one(c, Script { affinity: false, a: vec![(A::Silent, B::Ok); 12], timeout: *t });
        one(c, Script { affinity: false, a: vec![(A::Refused, B::Ok); 12], timeout: *t });
        one(c, Script { affinity: true, a: vec![(A::Free, B::Refused); 12], timeout: *t });
        if t.map_or(false, |t| t < Duration::from_secs(100)) {
            for f in &fails {
                if *f != A::Refused {
                    one(c, Script { affinity: false, a: vec![(f.clone(), B::Ok); 60], timeout: *t });
                }
            }
            one(c, Script { affinity: true, a: vec![(A::Free, B::InUse); 8000], timeout: *t });
            one(c, Script { affinity: true, a: vec![(A::Free, B::Broken(libc::ENOMEM)); 60], timeout: *t });
        }
    }
    for k in 0..if c.thorough { 2500 } else { 160 } {
        let n = 1 + r.below(9) as usize;
        let affinity = r.below(2) == 0;
        let mut a = vec![];
        for _ in 0..n {
            let x = if r.below(9) == 0 { A::Silent } else { fails[r.below(7) as usize].clone() };
            let b = [B::InUse, B::Refused, B::Broken(libc::ENOMEM), B::Broken(libc::EINVAL)][r.below(4) as usize].clone();
            a.push((x, b));
        }
        a.push((if affinity && r.below(3) == 0 { A::Free } else { term[r.below(4) as usize].clone() }, B::Ok));
        let timeout = match r.below(4) {
            0 => None,
            1 => Some(Duration::from_millis(r.below(30_000))),
            2 => Some(Duration::from_millis(1000 * r.below(20))),
            _ => Some(Duration::from_secs(3600)),
        };
        let s = Script { affinity, a, timeout };
        c.case(&format!("script/{}/{k}", c.seed), || play(&s).map_err(|e| format!("{e}; {s:?}")));
    }
    c.case("held", held);
}
fn one(c: &Ctx, s: Script) {
    let short: Vec<String> = s.a.iter().take(4).map(|(a, b)| if s.affinity && *a == A::Free { format!("{a:?}-{b:?}") } else { format!("{a:?}") }).collect();
    let key = format!("steps/{}x{}/{:?}/{}", s.a.len(), short.join(","), s.timeout, s.affinity).replace(' ', "");
    c.case(&key, || play(&s).map_err(|e| format!("{e}; {:?}...", &s.a[..s.a.len().min(12)])));
}

fn play(s: &Script) -> Result<bool, String> {
    let own = own_version();
    let id = uid();
    let addr = addr_of(&id);
    let sel = ack_selector();
    let listener: Rc<RefCell<Option<OwnFd>>> = Default::default();
    let done: Rc<Cell<usize>> = Default::default();
    let last: Rc<Cell<i64>> = Default::default();
    let steps: Rc<Vec<A>> = Rc::new(s.a.iter().map(|x| x.0.clone()).collect());
    let stale: Rc<RefCell<Vec<OwnFd>>> = Default::default();
    for (a, b) in &s.a {
        sys::CONNECT_PLAN.with(|p| {
            p.borrow_mut().push_back(match a {
                A::Free => Plan::Errno(libc::ECONNREFUSED),
                A::Refused => Plan::Errno(libc::EACCES),
                A::Broken(e) => Plan::Errno(*e),
                _ => Plan::Pass,
            })
        });
        match a {
            A::Free => {
                if s.affinity {
                    sys::BIND_PLAN.with(|p| {
                        p.borrow_mut().push_back(match b {
                            B::Ok => Plan::Pass,
                            B::InUse => Plan::Errno(libc::EADDRINUSE),
                            B::Refused => Plan::Errno(libc::EACCES),
                            B::Broken(e) => Plan::Errno(*e),
                        })
                    });
                }
            }
            A::SendFails => sys::SEND_PLAN.with(|p| p.borrow_mut().push_back(Plan::Errno(libc::EPIPE))),
            A::Silent => {
                sys::SEND_PLAN.with(|p| p.borrow_mut().push_back(Plan::Pass));
                sys::WAIT_SCRIPT.with(|w| w.borrow_mut().push_back(WaitStep::Quiet))
            }
            A::Ok | A::Token | A::Version(_) | A::Garbage => {
                sys::SEND_PLAN.with(|p| p.borrow_mut().push_back(Plan::Pass));
                let answer = match a {
                    A::Ok => {
                        let mut p = vec![0u8];
                        p.extend([7u8; 16]);
                        Some(frame(header(), &sel, &p))
                    }
                    A::Token => Some(frame(header(), &sel, &[2])),
                    A::Version(v) => Some(frame(header(), &sel, &[1, v[0], v[1], v[2]])),
                    A::Garbage => Some(frame(header(), &sel, &[9, 9])),
                    _ => None,
                };
                let (l, last) = (listener.clone(), last.clone());
                sys::WAIT_SCRIPT.with(|w| {
                    w.borrow_mut().push_back(WaitStep::Do(
                        0,
                        Box::new(move || unsafe {
                            let c = OwnFd(libc::accept4(l.borrow().as_ref().unwrap().0, std::ptr::null_mut(), std::ptr::null_mut(), libc::SOCK_CLOEXEC));
                            let f = recv_frame(c.0, false).unwrap();
                            if let (Some(fd), Some(a)) = (f.fds.first(), &answer) {
                                let _ = send_frame(*fd, a, &[]);
                            }
                            close_fds(&f);
                            last.set(sys::now_ns());
                        }),
                    ))
                });
            }
            _ => {}
        }
    }
    let (l2, d2, last2, st2) = (listener.clone(), done.clone(), last.clone(), stale.clone());
    sys::CONNECT_HOOK.with(|h| {
        *h.borrow_mut() = Some(Box::new(move |a: &[u8]| {
            let k = d2.get();
            d2.set(k + 1);
            last2.set(sys::now_ns());
            // requests nobody answered go away with their listener
            if let Some(l) = l2.borrow_mut().take() {
                st2.borrow_mut().push(l);
            }
            st2.borrow_mut().clear();
            if matches!(steps.get(k), Some(A::Ok | A::Token | A::Version(_) | A::Silent | A::Garbage | A::SendFails)) {
                *l2.borrow_mut() = Some(listen_at(a));
            }
        }))
    });
    let o = Options { controller_affinity: s.affinity, ..client_opts(&id, &["j"], "tok") };
    let _ = addr;
    sys::freeze(true);
    let t0 = sys::now_ns();
    let r = ipmb::join::<BytesMessage, BytesMessage>(o, s.timeout);
    let t1 = sys::now_ns();
    sys::freeze(false);
    sys::CONNECT_HOOK.with(|h| *h.borrow_mut() = None);
    let attempts = done.get();
    let binds = sys::BINDS.with(|b| b.get());
    check!(s.affinity || binds == 0, "an endpoint without controller affinity tried to become the controller");
    let took = Duration::from_nanos((t1 - t0) as u64);
    let since = Duration::from_nanos((t1 - last.get()).max(0) as u64);
    let tail = s.a.get(attempts.wrapping_sub(1)).cloned();
    let out = match &r {
        Ok(_) => {
            if s.affinity && matches!(tail, Some((A::Free, B::Ok))) {
                Out::Controller
            } else {
                Out::Endpoint
            }
        }
        Err(JoinError::TokenMismatch) => Out::Token,
        Err(JoinError::VersionMismatch(v)) => Out::Version([v.major(), v.minor(), v.patch()]),
        Err(JoinError::Timeout) => Out::Timeout,
        Err(JoinError::PermissionDenied) => Out::Denied,
    };
    drop(r);
    check!(attempts <= s.a.len(), "{attempts} attempts were made, the outcome was known after {}", s.a.len());
    check!(attempts >= 1, "no attempt was made");
    let met = &s.a[..attempts];
    let silent = met.iter().filter(|x| x.0 == A::Silent).count();
    let refused = met.iter().filter(|x| x.0 == A::Refused || (s.affinity && x.0 == A::Free && x.1 == B::Refused)).count();
    let tail = tail.unwrap();
    let silent_last = tail.0 == A::Silent;
    // what the last attempt met decides
    let own_ok = |v: &[u8; 3]| compatible(own, *v);
    let _ = own_ok;
    match &out {
        Out::Endpoint => check!(tail.0 == A::Ok, "an endpoint is returned although the last attempt met {tail:?}"),
        Out::Controller => {}
        Out::Token => check!(tail.0 == A::Token, "a token mismatch is reported although the last attempt met {tail:?}"),
        Out::Version([0, 0, 0]) => check!(silent_last && silent >= 4, "a peer that never answers is reported after {silent} silent attempts, the last met {tail:?}"),
        Out::Version(v) => check!(tail.0 == A::Version(*v), "version mismatch {v:?} is reported although the last attempt met {tail:?}"),
        Out::Denied => check!(refused >= 4 && (tail.0 == A::Refused || tail.1 == B::Refused), "permission denied is reported after {refused} refusals, the last attempt met {tail:?}"),
        Out::Timeout => {
            let Some(t) = s.timeout else { return Err("a timeout is reported without a timeout".into()) };
            check!(!matches!(tail.0, A::Ok | A::Token | A::Version(_)), "a timeout is reported although the last attempt met {tail:?}");
            check!(!(s.affinity && tail == (A::Free, B::Ok)), "a timeout is reported although nobody holds the identifier");
            check!(took >= t, "a timeout of {t:?} is reported after {took:?}");
            let slack = if silent_last { Duration::from_secs(2) } else { Duration::ZERO } + Duration::from_millis(1);
            check!(took <= t + slack, "a timeout of {t:?} is reported only after {took:?}");
        }
    }
    if out != Out::Timeout {
        let slack = if silent_last { Duration::from_secs(2) } else { Duration::ZERO } + Duration::from_millis(1);
        check!(since <= slack, "the outcome {out:?} was known {since:?} before it was reported");
        if let Some(t) = s.timeout {
            check!(took <= t.saturating_add(slack), "{out:?} is reported {took:?} after the start, the timeout was {t:?}");
        }
    }
    check!(silent <= 8 && refused <= 8, "{silent} silent and {refused} refused attempts did not end the join");
    // nothing may end it before its end but the timeout and repeated silence or refusal
    if matches!(out, Out::Endpoint | Out::Controller | Out::Token) || matches!(&out, Out::Version(v) if *v != [0, 0, 0]) {
        check!(attempts == s.a.len(), "ended with {out:?} after {attempts} attempts");
    }
    // without a timeout sleeps go on, but not for ever
    check!(took <= Duration::from_secs(10 * attempts as u64 + 1), "{attempts} attempts took {took:?}");
    Ok(attempts > 1)
}

/// against a running bus: an endpoint, whatever its affinity; the bus stays the only one
fn held() -> Result<bool, String> {
    for affinity in [false, true] {
        let id = uid();
        let (ctx, mut crx) = controller(&id, &["ctl"])?;
        for t in [None, Some(Duration::ZERO), Some(Duration::MAX), Some(Duration::from_secs(3))] {
            let o = Options { controller_affinity: affinity, ..client_opts(&id, &["e"], "tok") };
            let (tx, mut rx) = ipmb::join::<BytesMessage, BytesMessage>(o, t).map_err(|e| format!("{e:?}"))?;
            sync(&tx, "ctl", &mut crx)?;
            sync(&ctx, "e", &mut rx)?;
            drop((tx, rx));
            sync(&ctx, "ctl", &mut crx)?;
            let o = Options { controller_affinity: affinity, ..client_opts(&id, &["e"], "wrong") };
            match ipmb::join::<BytesMessage, BytesMessage>(o, t) {
                Err(JoinError::TokenMismatch) => {}
                r => return Err(format!("a wrong token ends in {:?}", r.err())),
            }
        }
    }
    Ok(true)
}
