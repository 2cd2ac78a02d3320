use crate::{bus::*, check, Ctx, Rng};
use ipmb::{LabelOp, Message, BytesMessage};
use std::time::Duration;

pub fn exprs() -> Vec<(&'static str, LabelOp)> {
    let (a, b) = (|| LabelOp::from("a"), || LabelOp::from("b"));
    vec![
        ("T", LabelOp::True),
        ("a", a()),
        ("b", b()),
        ("!a", !a()),
        ("a&b", a().and(b())),
        ("a|b", a().or(b())),
        ("a&!b", a().and(!b())),
        ("F", LabelOp::False),
        ("!(a|b)", !(a().or(b()))),
    ]
}

/// endpoints with equal labels, some of them gone
fn twins(n: usize, gone: u64, multicast: bool, ttl: bool, from: usize) -> Result<bool, String> {
    let id = uid();
    let (ctx, mut crx) = controller(&id, if gone & 64 != 0 { &["x", "w"] } else { &["x", "ctl"] })?;
    let mut eps = vec![];
    for _ in 0..n {
        let (t, r) = client(&id, &["x", "w"])?;
        eps.push((t, Some(r)));
    }
    let (otx, mut orx) = client(&id, &["x", "other"])?;
    for (i, e) in eps.iter_mut().enumerate() {
        if gone >> i & 1 == 1 {
            e.1 = None;
        }
    }
    let tx = match from {
        0 => ctx.clone(),
        1 => otx.clone(),
        i => eps[(i - 2) % n].0.clone(),
    };
    for k in 0..3u16 {
        tx.send(msg(LabelOp::from("w"), multicast, Duration::from_secs(if ttl { 3600 } else { 0 }), k, b"z")).map_err(|e| format!("{e:?}"))?;
    }
    let mut rxs: Vec<&mut Rx> = eps.iter_mut().filter_map(|e| e.1.as_mut()).collect();
    let live = rxs.len();
    rxs.push(&mut orx);
    rxs.push(&mut crx);
    let got: Vec<Vec<u16>> = drain_each(&tx, LabelOp::from("x"), &mut rxs)?.iter().map(|m| ids(m)).collect();
    check!(got[live].is_empty(), "an endpoint with another label got {:?}", got[live]);
    let m = live + (gone >> 6 & 1) as usize;
    let mut w: Vec<&Vec<u16>> = got[..live].iter().collect();
    if gone & 64 != 0 {
        w.push(&got[live + 1]);
    } else {
        check!(got[live + 1].is_empty(), "the controller with another label got {:?}", got[live + 1]);
    }
    if multicast {
        check!(w.iter().all(|g| **g == [0, 1, 2]), "multicast to {m} endpoints with equal labels: {w:?}");
    } else {
        for k in 0..3u16 {
            let c = w.iter().flat_map(|g| g.iter()).filter(|x| **x == k).count();
            check!(c == m.min(1), "unicast to one of {m} endpoints with equal labels was handed over {c} times: {w:?}");
        }
    }
    // what nobody could take waits for the next that can
    if m == 0 && ttl {
        let (_t, mut rx) = client(&id, &["x", "w", "late"])?;
        let got = ids(&drain(&tx, "late", &mut rx)?);
        check!(got == [0, 1, 2], "messages (multicast {multicast}) whose matching endpoints were all gone were held, but the next matching endpoint got {got:?}");
    }
    Ok(true)
}

struct Ep {
    labels: Vec<String>,
    tx: Option<Tx>,
    rx: Option<Rx>,
}

pub fn run(c: &Ctx) {
    c.rule("bus populations (controller and 0..4 remote endpoints, each with a subset of {a,b}), endpoints killed in every pattern before routing, 9 expressions, both modes, sent by the controller or a client, sentinels delimiting what each endpoint got; non-trivial: at least one endpoint matches");
    let mut r = Rng(c.seed);
    for n in 1..4usize {
        for gone in (0..1u64 << n).flat_map(|g| [g, g | 64]) {
            for multicast in [false, true] {
                let (ttl, from) = (r.below(2) == 0, r.below(5) as usize);
                c.case(&format!("twins/{}/{n}/{gone:b}/{multicast}", c.seed), || twins(n, gone, multicast, ttl, from));
                c.case(&format!("twins/{}/{n}/{gone:b}/{multicast}/other", c.seed), || twins(n, gone, multicast, !ttl, (from + 1) % 5));
            }
        }
    }
    let pops = if c.thorough { 1500 } else { 160 };
    for p in 0..pops {
        let n = if p < 8 { p % 4 } else { (r.below(4) + 1) as usize };
        let subs: Vec<u64> = (0..=n).map(|_| r.below(4)).collect();
        let kills: Vec<Vec<usize>> = {
            // groups of endpoints killed together, one group per round
            let mut alive: Vec<usize> = (1..=n).collect();
            let mut g = vec![vec![]];
            while !alive.is_empty() && g.len() < 4 {
                let k = (r.below(alive.len() as u64) + 1) as usize;
                let mut grp = vec![];
                for _ in 0..k {
                    grp.push(alive.remove(r.below(alive.len() as u64) as usize));
                }
                g.push(grp);
            }
            g
        };
        let kill_local = r.below(6) == 0;
        let order: Vec<u64> = (0..64).map(|_| r.next()).collect();
        c.case(&format!("pop/{}/{p}/labels{subs:?}/kills{kills:?}/local{kill_local}", c.seed), || scenario(&subs, &kills, kill_local, &order));
    }
}

fn scenario(subs: &[u64], kills: &[Vec<usize>], kill_local: bool, order: &[u64]) -> Result<bool, String> {
    let id = uid();
    let mut eps: Vec<Ep> = vec![];
    for (i, s) in subs.iter().enumerate() {
        let mut labels = vec![format!("ep{i}")];
        if s & 1 == 1 {
            labels.push("a".into());
        }
        if s & 2 == 2 {
            labels.push("b".into());
        }
        let l: Vec<&str> = labels.iter().map(|s| s.as_str()).collect();
        let (tx, rx) = if i == 0 { controller(&id, &l)? } else { client(&id, &l)? };
        eps.push(Ep { labels, tx: Some(tx), rx: Some(rx) });
    }
    let mut nontrivial = false;
    let mut seq: u16 = 0;
    for (round, grp) in kills.iter().enumerate() {
        for k in grp {
            eps[*k].rx = None;
            eps[*k].tx = None;
        }
        if kill_local && round == 1 {
            eps[0].rx = None;
        }
        let ex = exprs();
        // a different first message after each kill: it is the one that meets the disconnects
        let start = order[round % order.len()] as usize % (ex.len() * 2);
        for j in 0..ex.len() * 2 {
            let (name, op) = &ex[((start + j) / 2) % ex.len()];
            let multicast = (start + j) % 2 == 1;
            seq += 1;
            // sender: controller or any live client
            let live: Vec<usize> = (0..eps.len()).filter(|i| eps[*i].tx.is_some()).collect();
            let from = live[order[(seq as usize) % order.len()] as usize % live.len()];
            let tx = eps[from].tx.clone().unwrap();
            let ttl = Duration::from_secs(order[(seq as usize * 7) % order.len()] % 2 * 3600);
            tx.send(msg(op.clone(), multicast, ttl, seq, name.as_bytes())).map_err(|e| format!("send: {e:?}"))?;
            let mut got = vec![];
            let mut expect = vec![];
            for i in 0..eps.len() {
                let ls = eps[i].labels.clone();
                let l: Vec<&str> = ls.iter().map(|s| s.as_str()).collect();
                let matches = op.validate(&label(&l));
                if let Some(rx) = eps[i].rx.as_mut() {
                    let ms: Vec<Message<BytesMessage>> = drain(&tx, &format!("ep{i}"), rx)?;
                    for m in &ms {
                        check!(m.payload.format == seq && m.payload.data == name.as_bytes(), "endpoint {i} got stale message {} while {seq} ({name}) was sent", m.payload.format);
                    }
                    check!(ms.len() <= 1, "endpoint {i} got message {seq} ({name}, multicast {multicast}) {} times", ms.len());
                    if matches {
                        expect.push(i);
                    }
                    if !ms.is_empty() {
                        check!(matches, "endpoint {i} with labels {l:?} got a message for {name}");
                        got.push(i);
                    }
                }
            }
            if multicast {
                check!(got == expect, "round {round}: multicast {name} from {from} reached {got:?}, matching live endpoints are {expect:?}");
            } else {
                check!(got.len() == expect.len().min(1), "round {round}: unicast {name} from {from} reached {got:?}, matching live endpoints are {expect:?}");
            }
            nontrivial |= !expect.is_empty();
        }
    }
    Ok(nontrivial)
}
