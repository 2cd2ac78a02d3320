use crate::{bus::*, check, Ctx, Rng};
use ipmb::{BytesMessage, JoinError, LabelOp};
use std::time::Duration;

/// What a join request must be answered.
fn oracle(head: [u8; 3], ver: [u8; 3], token_ok: bool) -> Ack {
    let own = own_version();
    if !compatible(own, head) || !compatible(own, ver) {
        Ack::ErrVersion(own)
    } else if !token_ok {
        Ack::ErrToken
    } else {
        Ack::Ok
    }
}

pub fn run(c: &Ctx) {
    c.rule("join requests over tokens (equal, prefixes, extensions, case, NUL, empty, long), header and payload versions and labels, from raw and real peers, against a bus with a routable endpoint and held messages; non-trivial: the request differs from an acceptable one in at least one respect, or is accepted and then routed to");
    let own = own_version();
    let versions: Vec<[u8; 3]> = vec![own, [own[0], own[1], own[2].wrapping_add(1)], [own[0], own[1], 0], [own[0], own[1].wrapping_add(1), own[2]],
        [own[0], own[1].wrapping_sub(1), own[2]], [own[0].wrapping_add(1), own[1], own[2]], [255, 255, 255], [own[0], own[1] ^ 0x10, own[2]], [own[0] ^ 0x80, own[1], own[2]], [own[1], own[0], own[2]]];
    let toks: Vec<(&str, Vec<String>)> = vec![
        ("tok", vec!["tok", "", "to", "tok ", " tok", "Tok", "TOK", "tok\0", "toktok", "kot", "tik", "t\u{f6}k", "\0tok", "tol"].into_iter().map(String::from).collect()),
        ("", vec!["", " ", "\0", "a"].into_iter().map(String::from).collect()),
        ("0123456789012345678901234567890123456789", vec!["0123456789012345678901234567890123456789", "012345678901234567890123456789012345678", "01234567890123456789012345678901234567890", "0123456789012345678901234567890123456788", "1123456789012345678901234567890123456789"].into_iter().map(String::from).collect()),
    ];
    let labelsets: Vec<Vec<&str>> = vec![vec!["late", "n"], vec![], vec!["n", "m", "late"], vec!["n", "n"], vec!["", "n"], vec!["x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "n"]];
    let mut r = Rng(c.seed);
    for (ti, (bus_token, tries)) in toks.iter().enumerate() {
        for (k, t) in tries.iter().enumerate() {
            for (hi, h) in versions.iter().enumerate() {
                for (vi, v) in versions.iter().enumerate() {
                    let full = hi == 0 || vi == 0 && k < 2;
                    if !full && !(c.thorough || r.below(24) == 0) {
                        continue;
                    }
                    let ls = &labelsets[if c.thorough { r.below(labelsets.len() as u64) as usize } else { (hi + vi + k) % labelsets.len() }];
                    c.case(&format!("raw/{ti}/{t:?}/head{h:?}/ver{v:?}/{ls:?}"), || raw(bus_token, t, *h, *v, ls));
                }
            }
        }
    }
    for (ti, (bus_token, tries)) in toks.iter().enumerate() {
        for t in tries {
            c.case(&format!("real/{ti}/{t:?}"), || real(bus_token, t));
        }
    }
    for n in [0usize, 1, 2, 5] {
        c.case(&format!("sequence/{n}"), || sequence(n));
    }
    for (i, bad) in [vec![], vec![own[0]], own.to_vec(), [own.to_vec(), vec![200]].concat(), [own.to_vec(), vec![3], b"tok".to_vec(), vec![250]].concat(), [own.to_vec(), vec![2, 0xff, 0xfe], vec![0]].concat()].iter().enumerate() {
        c.case(&format!("undecodable/{i}"), || undecodable(bad));
    }
    for k in 0..6 {
        c.case(&format!("equal-labels/{k}"), || equal_labels(k));
    }
    c.case("no-reply-handle", || no_reply());
}

fn setup(token: &str) -> Result<(Vec<u8>, String, Tx, Rx, Tx, Rx), String> {
    let id = uid();
    let addr = addr_of(&id);
    let (tx, rx) = ipmb::join(opts(&id, &["ctl"], token), Some(Duration::from_secs(10))).map_err(|e| format!("{e:?}"))?;
    let (etx, erx) = ipmb::join(client_opts(&id, &["n", "old"], token), Some(Duration::from_secs(10))).map_err(|e| format!("an endpoint with the bus's token is refused: {e:?}"))?;
    Ok((addr, id, tx, rx, etx, erx))
}

fn raw(bus_token: &str, token: &str, head: [u8; 3], ver: [u8; 3], labels: &[&str]) -> Result<bool, String> {
    let (addr, id, tx, mut rx, _etx, mut erx) = setup(bus_token)?;
    // held for the next endpoint called "late"
    for i in 0..3 {
        tx.send(msg(LabelOp::from("late"), i == 1, Duration::from_secs(3600), 100 + i, b"held")).map_err(|e| format!("{e:?}"))?;
    }
    sync(&tx, "ctl", &mut rx)?;
    let f = frame([0xFF, head[0], head[1], head[2]], &join_selector(), &join_payload(ver, token, labels));
    let (peer, ack) = raw_join(&addr, &f)?;
    let want = oracle(head, ver, token == bus_token);
    let got = ack_of(&ack);
    check!(got == want, "the request was answered {got:?} instead of {want:?}");
    let accepted = want == Ack::Ok;
    let late = labels.contains(&"late");
    if accepted && late {
        for i in 0..3 {
            let f = wait_frame(peer.rd.0, 3000).ok_or("a held message did not reach the endpoint admitted for it")?;
            let p = unframe(&f.data).ok_or("bad frame")?.2;
            check!(p.starts_with(&(100 + i as u16).to_le_bytes()[..1]) || p[0] == 100 + i as u8, "held messages out of order: {p:?}");
        }
    }
    // routed to under exactly the labels asked for
    let mut probes: Vec<&str> = vec!["n", "m", "x10", "late2", "old", "N"];
    probes.extend(labels.iter());
    probes.retain(|p| *p != "late");
    for (i, p) in probes.iter().enumerate() {
        tx.send(msg(LabelOp::from(*p), true, Duration::ZERO, 7000 + i as u16, p.as_bytes())).map_err(|e| format!("{e:?}"))?;
        let old = ids(&drain(&tx, "old", &mut erx)?);
        let want_old: Vec<u16> = if *p == "n" || *p == "old" { vec![7000 + i as u16] } else { vec![] };
        check!(old == want_old, "the admitted endpoint (labels n, old) got {old:?} instead of {want_old:?} for {p}");
        // the controller has handled the probe by now
        let is_in = accepted && labels.contains(p);
        let got = wait_frame(peer.rd.0, if is_in { 3000 } else { 0 });
        check!(got.is_some() == is_in, "label {p:?}: {} reached the {} endpoint with labels {labels:?}", if got.is_some() { "a message" } else { "no message" }, if accepted { "accepted" } else { "refused" });
    }
    if !accepted {
        check!(wait_frame(peer.rd.0, 0).is_none(), "a refused endpoint got a message");
        // the held messages are still there for the next one
        let (_t, mut late_rx) = ipmb::join::<BytesMessage, BytesMessage>(client_opts(&id, &["late"], bus_token), Some(Duration::from_secs(10))).map_err(|e| format!("{e:?}"))?;
        let got = ids(&drain(&tx, "late", &mut late_rx)?);
        check!(got == [100, 101, 102], "after a refused join the held messages are {got:?}");
    }
    Ok(true)
}

fn real(bus_token: &str, token: &str) -> Result<bool, String> {
    let (_a, id, tx, mut rx, _etx, mut erx) = setup(bus_token)?;
    let t0 = crate::sys::real_ns();
    let r = ipmb::join::<BytesMessage, BytesMessage>(client_opts(&id, &["n"], token), Some(Duration::from_secs(15)));
    if token == bus_token {
        let (_t, mut r) = r.map_err(|e| format!("refused with {e:?}"))?;
        tx.send(msg(LabelOp::from("n"), true, Duration::ZERO, 5, b"")).map_err(|e| format!("{e:?}"))?;
        let m = r.recv(Some(Duration::from_secs(3))).map_err(|e| format!("{e:?}"))?;
        check!(m.payload.format == 5, "wrong message");
    } else {
        check!(matches!(r, Err(JoinError::TokenMismatch)), "token {token:?} on a bus with {bus_token:?}: {:?}", r.err().map(|e| format!("{e:?}")).unwrap_or("admitted".into()));
        check!(crate::sys::real_ns() - t0 < 5_000_000_000, "the refusal took long");
    }
    sync(&tx, "ctl", &mut rx)?;
    sync(&tx, "old", &mut erx)?;
    Ok(true)
}

/// refused requests between accepted ones change nothing
fn sequence(n: usize) -> Result<bool, String> {
    let (addr, id, tx, mut rx, _etx, mut erx) = setup("tok")?;
    let own = own_version();
    let mut inside: Vec<Raw> = vec![];
    let mut outside: Vec<Raw> = vec![];
    for i in 0..3 {
        for _ in 0..n {
            let f = frame(header(), &join_selector(), &join_payload(own, "no", &["n"]));
            let (p, a) = raw_join(&addr, &f)?;
            check!(ack_of(&a) == Ack::ErrToken, "answer {:?}", ack_of(&a));
            outside.push(p);
        }
        let f = frame(header(), &join_selector(), &join_payload(own, "tok", &["n", ["a", "b", "c"][i]]));
        let (p, a) = raw_join(&addr, &f)?;
        check!(ack_of(&a) == Ack::Ok, "answer {:?}", ack_of(&a));
        inside.push(p);
    }
    tx.send(msg(LabelOp::from("n"), true, Duration::ZERO, 9, b"")).map_err(|e| format!("{e:?}"))?;
    sync(&tx, "ctl", &mut rx)?;
    let old = ids(&drain(&tx, "old", &mut erx)?);
    check!(old == [9], "existing endpoint got {old:?}");
    for p in &inside {
        check!(wait_frame(p.rd.0, 2000).is_some(), "an accepted endpoint got nothing");
        check!(wait_frame(p.rd.0, 0).is_none(), "an accepted endpoint got the message twice");
    }
    for p in &outside {
        check!(wait_frame(p.rd.0, 0).is_none(), "a refused endpoint got a message");
    }
    let _ = id;
    Ok(true)
}

fn undecodable(payload: &[u8]) -> Result<bool, String> {
    let (addr, _id, tx, mut rx, _etx, mut erx) = setup("tok")?;
    let (p, a) = raw_join(&addr, &frame(header(), &join_selector(), payload))?;
    check!(!matches!(ack_of(&a), Ack::Ok), "a request that does not decode was accepted");
    tx.send(msg(LabelOp::True, true, Duration::ZERO, 9, b"")).map_err(|e| format!("{e:?}"))?;
    let old = ids(&drain(&tx, "old", &mut erx)?);
    check!(old == [9], "existing endpoint got {old:?}");
    sync(&tx, "ctl", &mut rx)?;
    check!(wait_frame(p.rd.0, 0).is_none(), "routed to a refused endpoint");
    Ok(true)
}

fn no_reply() -> Result<bool, String> {
    let (addr, _id, tx, mut rx, _etx, mut erx) = setup("tok")?;
    let conn = connect_to(&addr).map_err(|e| format!("{e}"))?;
    send_frame(conn.0, &frame(header(), &join_selector(), &join_payload(own_version(), "tok", &["n"])), &[]).map_err(|e| format!("{e}"))?;
    sync(&tx, "ctl", &mut rx)?;
    tx.send(msg(LabelOp::from("n"), true, Duration::ZERO, 9, b"")).map_err(|e| format!("{e:?}"))?;
    let old = ids(&drain(&tx, "old", &mut erx)?);
    check!(old == [9], "existing endpoint got {old:?}");
    Ok(true)
}

/// every accepted endpoint is routable, also with the labels of another one, on one connection or several
fn equal_labels(k: u64) -> Result<bool, String> {
    let (addr, id, tx, mut rx, _etx, mut erx) = setup("tok")?;
    let f = frame(header(), &join_selector(), &join_payload(own_version(), "tok", if k & 1 == 0 { &["n", "old"] } else { &["n"] }));
    let mut peers = vec![];
    for i in 0..3 {
        if k < 4 || i == 0 {
            let (p, a) = raw_join(&addr, &f)?;
            check!(ack_of(&a) == Ack::Ok, "answer {:?}", ack_of(&a));
            peers.push(p);
        } else {
            // again on the first connection, with another handle
            let (rd, wr) = pair();
            send_frame(peers[0].conn.0, &f, &[wr.0]).map_err(|e| format!("{e}"))?;
            drop(wr);
            check!(ack_of(&wait_frame(rd.0, 3000)) == Ack::Ok, "not answered");
            peers.push(Raw { conn: connect_to(&addr).map_err(|e| format!("{e}"))?, rd });
        }
        if k & 2 != 0 {
            let r = ipmb::join::<BytesMessage, BytesMessage>(client_opts(&id, &["n"], "no"), Some(Duration::from_secs(5)));
            check!(matches!(r, Err(JoinError::TokenMismatch)), "admitted");
        }
    }
    for n in [1u16, 2] {
        tx.send(msg(LabelOp::from("n"), true, Duration::ZERO, n, b"")).map_err(|e| format!("{e:?}"))?;
    }
    sync(&tx, "ctl", &mut rx)?;
    for (i, p) in peers.iter().enumerate() {
        for n in [1u8, 2] {
            let f = wait_frame(p.rd.0, 2000).ok_or(format!("accepted endpoint {i} does not get message {n}"))?;
            check!(unframe(&f.data).ok_or("frame")?.2[0] == n, "other message");
        }
        check!(wait_frame(p.rd.0, 0).is_none(), "more than sent");
    }
    let mut old = vec![&mut erx];
    let g = drain_each(&tx, LabelOp::from("n"), &mut old)?;
    check!(ids(&g[0]) == [1, 2], "the existing endpoint got {:?}", ids(&g[0]));
    Ok(true)
}
