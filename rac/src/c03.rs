use crate::{bus::*, check, sys, Ctx, Rng};
use ipmb::LabelOp;
use std::time::Duration;

#[derive(Clone, Debug)]
enum Op {
    /// to the endpoints with any of these labels
    Send { to: usize, ttl_ms: u64, multicast: bool },
    Join { labels: u64 },
    Leave(usize),
    Advance(u64),
    Traffic,
    Refused,
}
const L: [&str; 3] = ["p", "q", "r"];
fn targets() -> Vec<(u64, LabelOp)> {
    // (bit mask semantics is evaluated through the label set below)
    vec![
        (0, LabelOp::from("p")),
        (1, LabelOp::from("q")),
        (2, LabelOp::from("p").and("q")),
        (3, LabelOp::from("p").or("r")),
        (4, LabelOp::from("r").and(!LabelOp::from("p"))),
    ]
}
fn matches(t: usize, labels: u64) -> bool {
    let (p, q, r) = (labels & 1 != 0, labels & 2 != 0, labels & 4 != 0);
    match t {
        0 => p,
        1 => q,
        2 => p && q,
        3 => p || r,
        _ => r && !p,
    }
}

pub fn run(c: &Ctx) {
    c.rule("histories of sends (5 expressions, both modes, time-to-live 0 to 25 days and unbounded), joins, refused joins, leaves, other traffic and passing time on a clock that only the history moves, down to one millisecond around expiry; what every endpoint gets is compared with the specification; non-trivial: a held message is delivered or expires");
    let mut r = Rng(c.seed);
    let ttls = [0u64, 1, 999, 1000, 1001, 5000, 29_999, 30_001, 60_000, 3_600_000, 2_160_000_000, u64::MAX];
    let n = if c.thorough { 3000 } else { 260 };
    for h in 0..n {
        let len = 4 + r.below(14);
        let mut ops = vec![];
        for _ in 0..len {
            let k = r.below(20);
            ops.push(match k {
                0..=7 => Op::Send { to: r.below(5) as usize, ttl_ms: ttls[r.below(ttls.len() as u64) as usize], multicast: r.below(2) == 1 },
                8..=11 => Op::Join { labels: r.below(8) },
                12 => Op::Leave(r.below(4) as usize),
                13..=16 => {
                    let base = ttls[(1 + r.below(ttls.len() as u64 - 2)) as usize];
                    Op::Advance(match r.below(3) {
                        0 => base - 1,
                        1 => base + 1,
                        _ => base / 2 + 1,
                    })
                }
                17 | 18 => Op::Traffic,
                _ => Op::Refused,
            });
        }
        c.case(&format!("history/{}/{h}", c.seed), || scenario(&ops, &Rng(r.0).next().to_string()).map_err(|e| format!("{e}; history {ops:?}")));
    }
    // directed: exactly around the expiry of one message, alone and between others
    for (i, before) in [true, false].iter().enumerate() {
        for pos in 0..3 {
            for multicast in [false, true] {
                let mut ops = vec![];
                for k in 0..3 {
                    ops.push(Op::Send { to: 0, ttl_ms: if k == pos { 10_000 } else { 90_000 }, multicast });
                }
                ops.push(Op::Advance(if *before { 9_999 } else { 10_001 }));
                ops.push(Op::Join { labels: 1 });
                ops.push(Op::Join { labels: 1 });
                c.case(&format!("expiry/{i}/{pos}/{multicast}"), || scenario(&ops, "d"));
            }
        }
    }
    // joins of others while messages are held, on a grid of times around their expiry
    for k in 0..if c.thorough { 1500 } else { 120 } {
        let mut ops = vec![];
        for _ in 0..6 + r.below(8) {
            ops.push(match r.below(9) {
                0..=2 => Op::Send { to: r.below(5) as usize, ttl_ms: [10_000, 20_000][r.below(2) as usize], multicast: r.below(2) == 1 },
                3..=4 => Op::Join { labels: 1 << r.below(3) },
                5 => Op::Join { labels: 0 },
                6 => Op::Traffic,
                _ => Op::Advance([3_000, 7_000, 11_000][r.below(3) as usize]),
            });
        }
        c.case(&format!("grid/{}/{k}", c.seed), || scenario(&ops, "g").map_err(|e| format!("{e}; history {ops:?}")));
    }
    for to in 0..3 {
        for joins in 1..4 {
            let mut ops = vec![Op::Send { to: 0, ttl_ms: 10_000, multicast: to == 1 }, Op::Send { to: 0, ttl_ms: 40_000, multicast: false }];
            for _ in 0..joins {
                ops.push(Op::Advance(12_000 / (joins + 1) as u64));
                ops.push(Op::Join { labels: if to == 2 { 4 } else { 0 } });
            }
            ops.push(Op::Advance(12_000 / (joins + 1) as u64));
            ops.push(Op::Join { labels: 1 });
            c.case(&format!("others-join/{to}/{joins}"), || scenario(&ops, "o"));
        }
    }
    // every endpoint that matches has just gone (in every order), so the message waits
    for dead in 1..4usize {
        for live in 0..3usize {
            for multicast in [false, true] {
                for ttl_ms in [10_000u64, u64::MAX] {
                    let mut ops = vec![];
                    for k in 0..dead.max(live) {
                        if k < live {
                            ops.push(Op::Join { labels: 4 });
                        }
                        if k < dead {
                            ops.push(Op::Join { labels: 3 });
                        }
                    }
                    let mut at: Vec<bool> = ops.iter().map(|o| matches!(o, Op::Join { labels: 3 })).collect();
                    let mut leaves = vec![];
                    while let Some(i) = at.iter().rposition(|d| *d) {
                        at.remove(i);
                        leaves.push(Op::Leave(i));
                    }
                    ops.extend(leaves);
                    ops.push(Op::Send { to: 0, ttl_ms, multicast });
                    ops.push(Op::Send { to: 1, ttl_ms, multicast: !multicast });
                    ops.push(Op::Advance(if multicast { 9_000 } else { 1 }));
                    ops.push(Op::Join { labels: 3 });
                    ops.push(Op::Join { labels: 3 });
                    ops.push(Op::Leave(live));
                    ops.push(Op::Send { to: 2, ttl_ms, multicast });
                    ops.push(Op::Leave(live));
                    ops.push(Op::Send { to: 2, ttl_ms, multicast });
                    ops.push(Op::Send { to: 2, ttl_ms: 0, multicast });
                    ops.push(Op::Join { labels: 3 });
                    c.case(&format!("gone/{dead}/{live}/{multicast}/{}", ttl_ms == u64::MAX), || scenario(&ops, "d"));
                }
            }
        }
    }
    // histories with leaves and few labels
    for k in 0..if c.thorough { 1500 } else { 100 } {
        let mut ops = vec![];
        for _ in 0..8 + r.below(8) {
            ops.push(match r.below(9) {
                0..=3 => Op::Send { to: r.below(3) as usize, ttl_ms: [0, 10_000, 3_600_000][r.below(3) as usize], multicast: r.below(2) == 1 },
                4..=6 => Op::Join { labels: [1, 3, 2][r.below(3) as usize] },
                7 => Op::Leave(r.below(2) as usize),
                _ => Op::Leave(0),
            });
        }
        c.case(&format!("leaves/{}/{k}", c.seed), || scenario(&ops, "l").map_err(|e| format!("{e}; history {ops:?}")));
    }
    // many held messages, delivered in order
    let mut ops: Vec<Op> = (0..60).map(|i| Op::Send { to: if i % 3 == 0 { 1 } else { 0 }, ttl_ms: 100_000, multicast: i % 2 == 0 }).collect();
    ops.push(Op::Join { labels: 1 });
    ops.push(Op::Join { labels: 2 });
    c.case("many", || scenario(&ops, "m"));
    // other traffic, then the long-held message
    let mut ops = vec![Op::Send { to: 0, ttl_ms: 100_000, multicast: false }];
    for _ in 0..5 {
        ops.push(Op::Traffic);
        ops.push(Op::Join { labels: 2 });
        ops.push(Op::Refused);
        ops.push(Op::Advance(15_000));
        ops.push(Op::Leave(0));
        ops.push(Op::Traffic);
    }
    ops.push(Op::Join { labels: 1 });
    c.case("held-through-traffic", || scenario(&ops, "t"));
}

struct Held {
    id: u16,
    to: usize,
    expire: Option<i64>,
}
struct Ep {
    labels: u64,
    name: String,
    tx: Tx,
    rx: Rx,
}

fn scenario(ops: &[Op], _tag: &str) -> Result<bool, String> {
    let id = uid();
    let (tx, mut rx) = controller(&id, &["ctl"])?;
    // every other message comes from another endpoint than the controller's
    let (far, _far_rx) = client(&id, &["far"])?;
    sys::freeze_all(true);
    let mut held: Vec<Held> = vec![];
    let mut eps: Vec<Ep> = vec![];
    let mut next = 1u16;
    let mut nontrivial = false;
    for (step, op) in ops.iter().enumerate() {
        // what every connected endpoint gets through this step
        let mut expect: Vec<Vec<u16>> = eps.iter().map(|_| vec![]).collect();
        let mut unicast: Option<(u16, Vec<usize>)> = None;
        let now = sys::now_ns();
        match op {
            Op::Send { to, ttl_ms, multicast } => {
                let ttl = if *ttl_ms == u64::MAX { Duration::MAX } else { Duration::from_millis(*ttl_ms) };
                let m = next;
                next += 1;
                let from = if m % 2 == 0 { &far } else { &tx };
                from.send(msg(targets()[*to].1.clone(), *multicast, ttl, m, b"x")).map_err(|e| format!("send {e:?}"))?;
                if m % 2 == 0 {
                    sync(&far, "ctl", &mut rx)?;
                }
                let who: Vec<usize> = (0..eps.len()).filter(|i| matches(*to, eps[*i].labels)).collect();
                if who.is_empty() {
                    if *ttl_ms > 0 {
                        held.push(Held { id: m, to: *to, expire: if *ttl_ms == u64::MAX { None } else { Some(now + *ttl_ms as i64 * 1_000_000) } });
                    }
                } else if *multicast {
                    for w in who {
                        expect[w].push(m);
                    }
                } else {
                    unicast = Some((m, who));
                }
            }
            Op::Join { labels } => {
                let name = format!("ep{step}");
                let mut l: Vec<&str> = (0..3).filter(|b| labels >> b & 1 == 1).map(|b| L[b]).collect();
                l.push(&name);
                let (etx, erx) = client(&id, &l)?;
                let mut got = vec![];
                held.retain(|h| {
                    if h.expire.map_or(false, |e| e <= now) {
                        nontrivial = true;
                        return false;
                    }
                    if matches(h.to, *labels) {
                        got.push(h.id);
                        nontrivial = true;
                        return false;
                    }
                    true
                });
                eps.push(Ep { labels: *labels, name, tx: etx, rx: erx });
                expect.push(got);
            }
            Op::Leave(i) => {
                if *i < eps.len() {
                    eps.remove(*i);
                    expect.remove(*i);
                }
            }
            Op::Advance(ms) => sys::advance_ms(*ms),
            Op::Traffic => {
                for _ in 0..3 {
                    tx.send(msg(LabelOp::from("ctl"), false, Duration::from_secs(1), 0, b"t")).map_err(|e| format!("{e:?}"))?;
                }
                sync(&tx, "ctl", &mut rx)?;
                if let Some(e) = eps.first() {
                    e.tx.send(msg(LabelOp::from("nobody"), true, Duration::ZERO, 0, b"t")).map_err(|e| format!("{e:?}"))?;
                }
            }
            Op::Refused => {
                // asks for every label, with the wrong token: must not be given held messages
                let r = ipmb::join::<ipmb::BytesMessage, ipmb::BytesMessage>(client_opts(&id, &L, "wrong"), Some(Duration::from_secs(5)));
                check!(matches!(r, Err(ipmb::JoinError::TokenMismatch)), "a join with the wrong token ended with {:?}", r.err());
            }
        }
        let mut uni_got = 0;
        for i in 0..eps.len() {
            let name = eps[i].name.clone();
            let got = ids(&drain(&tx, &name, &mut eps[i].rx)?);
            if let Some((m, who)) = &unicast {
                if got == [*m] && who.contains(&i) {
                    uni_got += 1;
                    continue;
                }
            }
            check!(got == expect[i], "step {step} ({op:?}): endpoint {name} with labels {:03b} got messages {got:?} instead of {:?}", eps[i].labels, expect[i]);
        }
        if let Some((m, who)) = &unicast {
            check!(uni_got == 1, "step {step}: unicast {m} for {who:?} was handed over {uni_got} times");
        }
        let got = ids(&drain(&tx, "ctl", &mut rx)?);
        check!(got.iter().all(|g| *g == 0), "step {step}: the controller's endpoint got {got:?}");
    }
    Ok(nontrivial)
}
