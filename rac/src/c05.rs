use crate::{bus::*, check, sys, Ctx, Rng};
use ipmb::{BytesMessage, JoinError, LabelOp};
use std::{cell::RefCell, rc::Rc, time::Duration};

pub fn run(c: &Ctx) {
    c.rule("frames with every header version (all minors, all majors, patches, wrong magic) as join requests and as messages on an admitted connection, and answers of a controller of every version to a real joiner; non-trivial: the version differs from ours");
    let own = own_version();
    let mut r = Rng(c.seed);
    let mut vs: Vec<[u8; 3]> = vec![];
    for x in 0..=255u8 {
        vs.push([own[0], x, own[2]]);
        vs.push([x, own[1], own[2]]);
        vs.push([own[0], own[1], x]);
        vs.push([own[1], x, own[2]]);
    }
    for _ in 0..if c.thorough { 30000 } else { 400 } {
        let n = r.next();
        vs.push([n as u8, (n >> 8) as u8, (n >> 16) as u8]);
    }
    vs.sort();
    vs.dedup();
    c.case("join-header", || joins(&vs, true));
    c.case("join-payload", || joins(&vs, false));
    c.count("header_versions", vs.len() as u64);
    for (i, ch) in vs.chunks(64).enumerate() {
        c.case(&format!("traffic/{i}/{:?}", ch[0]), || traffic(ch));
    }
    for (i, v) in vs.iter().enumerate() {
        if i % 4 == 0 || v[0] == 0 || c.thorough {
            c.case(&format!("joiner/header/{v:?}"), || joiner(*v, true));
        }
        if i % 8 == 0 {
            c.case(&format!("joiner/ack/{v:?}"), || joiner(*v, false));
        }
    }
    for magic in [0u8, 1, 0x7F, 0xFE] {
        c.case(&format!("magic/{magic}"), || magic_case(magic));
    }
}

fn joins(vs: &[[u8; 3]], head: bool) -> Result<bool, String> {
    let own = own_version();
    let id = uid();
    let addr = addr_of(&id);
    let (tx, mut rx) = controller(&id, &["ctl"])?;
    for v in vs {
        let (h, p) = if head { (*v, own) } else { (own, *v) };
        let f = frame([0xFF, h[0], h[1], h[2]], &join_selector(), &join_payload(p, "tok", &["n"]));
        let (peer, ack) = raw_join(&addr, &f)?;
        let want = if compatible(own, *v) { Ack::Ok } else { Ack::ErrVersion(own) };
        let got = ack_of(&ack);
        check!(got == want, "a join request with {} version {v:?} was answered {got:?} instead of {want:?} (ours is {own:?})", if head { "header" } else { "payload" });
        if !compatible(own, *v) && head {
            check!(wait_closed(peer.conn.0, 2000), "the connection with version {v:?} stays open");
        }
    }
    sync(&tx, "ctl", &mut rx)?;
    Ok(true)
}

/// messages from an admitted connection
fn traffic(vs: &[[u8; 3]]) -> Result<bool, String> {
    let own = own_version();
    let id = uid();
    let addr = addr_of(&id);
    let (tx, mut rx) = controller(&id, &["ctl"])?;
    // a frame of a real message, captured at a raw receiver
    let jf = frame(header(), &join_selector(), &join_payload(own, "tok", &["raw"]));
    let (peer, _) = raw_join(&addr, &jf)?;
    tx.send(msg(LabelOp::from("raw").or("ctl"), false, Duration::ZERO, 77, b"payload")).map_err(|e| format!("{e:?}"))?;
    let f = wait_frame(peer.rd.0, 3000).ok_or("no frame")?;
    let (_, sel, pay) = unframe(&f.data).ok_or("bad frame")?;
    drop(peer);
    sync(&tx, "ctl", &mut rx)?;
    for v in vs {
        let conn = connect_to(&addr).map_err(|e| format!("{e}"))?;
        send_frame(conn.0, &frame([0xFF, v[0], v[1], v[2]], &sel, &pay), &[]).map_err(|e| format!("{e}"))?;
        // a second, good one on the same connection
        let _ = send_frame(conn.0, &frame(header(), &sel, &pay), &[]);
        if compatible(own, *v) {
            for _ in 0..2 {
                let m = rx.recv(Some(Duration::from_secs(3))).map_err(|e| format!("a message of compatible version {v:?} is not delivered: {e:?}"))?;
                check!(m.payload.format == 77 && m.payload.data == b"payload", "wrong message");
            }
        } else {
            check!(wait_closed(conn.0, 3000), "the connection of version {v:?} stays open");
            let got = ids(&drain(&tx, "ctl", &mut rx)?);
            check!(got.is_empty(), "a frame of incompatible version {v:?} (or one after it) was delivered");
        }
    }
    Ok(true)
}

/// The outcome of a real join when the controller answers with that version.
fn joiner(v: [u8; 3], in_header: bool) -> Result<bool, String> {
    let own = own_version();
    let answer = if in_header {
        let mut p = vec![0u8];
        p.extend([7u8; 16]);
        frame([0xFF, v[0], v[1], v[2]], &ack_selector(), &p)
    } else {
        frame(header(), &ack_selector(), &[1, v[0], v[1], v[2]])
    };
    let r = fake_controller(answer, vec![], Some(Duration::from_secs(30)));
    if in_header && compatible(own, v) {
        check!(r.is_ok(), "an answer of compatible version {v:?} ends the join with {:?}", r.err());
        return Ok(false);
    }
    match r {
        Err(JoinError::VersionMismatch(x)) => {
            check!([x.major(), x.minor(), x.patch()] == v, "version mismatch reports {x:?} instead of {v:?}");
            Ok(true)
        }
        Err(e) => Err(format!("the join ended with {e:?} instead of a version mismatch with {v:?}")),
        Ok(_) => Err(format!("the join succeeded although the controller answered with version {v:?}")),
    }
}

/// selector of the answers of a real controller
pub fn ack_selector() -> Vec<u8> {
    static S: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let id = uid();
        let addr = addr_of(&id);
        let _c = controller(&id, &["ctl"]).unwrap();
        let (_p, a) = raw_join(&addr, &frame(header(), &join_selector(), &join_payload(own_version(), "tok", &["n"]))).unwrap();
        unframe(&a.unwrap().data).unwrap().1
    })
    .clone()
}

/// a real join against a stand-in controller that answers with this frame (virtual clock)
pub fn fake_controller(answer: Vec<u8>, more: Vec<Vec<u8>>, timeout: Option<Duration>) -> Result<(Tx, Rx), JoinError> {
    let listener: Rc<RefCell<Option<OwnFd>>> = Default::default();
    let l2 = listener.clone();
    // the answer is put together before the clock is frozen
    sys::CONNECT_HOOK.with(|h| {
        *h.borrow_mut() = Some(Box::new(move |a: &[u8]| {
            if l2.borrow().is_none() {
                *l2.borrow_mut() = Some(listen_at(a));
            }
        }))
    });
    let l3 = listener.clone();
    sys::WAIT_SCRIPT.with(|s| {
        s.borrow_mut().push_back(sys::WaitStep::Do(
            0,
            Box::new(move || unsafe {
                let c = OwnFd(libc::accept4(l3.borrow().as_ref().unwrap().0, std::ptr::null_mut(), std::ptr::null_mut(), libc::SOCK_CLOEXEC));
                let f = recv_frame(c.0, false).unwrap();
                if let Some(fd) = f.fds.first() {
                    let _ = send_frame(*fd, &answer, &[]);
                    for m in &more {
                        let _ = send_frame(*fd, m, &[]);
                    }
                }
                close_fds(&f);
            }),
        ))
    });
    sys::freeze(true);
    let r = ipmb::join::<BytesMessage, BytesMessage>(client_opts(&uid(), &["j"], "tok"), timeout);
    sys::freeze(false);
    sys::CONNECT_HOOK.with(|h| *h.borrow_mut() = None);
    r
}

fn magic_case(m: u8) -> Result<bool, String> {
    let own = own_version();
    let id = uid();
    let addr = addr_of(&id);
    let (tx, mut rx) = controller(&id, &["ctl"])?;
    let f = frame([m, own[0], own[1], own[2]], &join_selector(), &join_payload(own, "tok", &["n"]));
    let (peer, ack) = raw_join(&addr, &f)?;
    check!(ack_of(&ack) != Ack::Ok, "a frame without the magic number was interpreted");
    check!(wait_closed(peer.conn.0, 2000), "the connection stays open");
    sync(&tx, "ctl", &mut rx)?;
    Ok(true)
}
