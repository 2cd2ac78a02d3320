use crate::{bus::*, check, sys, Ctx, Rng};
use ipmb::{BytesMessage, LabelOp, MemoryRegion, Message};
use std::collections::HashMap;
use std::time::Duration;

pub fn run(c: &Ctx) {
    c.rule("histories of creating, cloning, wrapping, dropping, sending (unicast, multicast, to nobody, held, expiring, to failing receivers, more copies of one region in a message), receiving and dropping received messages on up to three regions and four endpoints; after every step each count is compared with the model; non-trivial: a copy was in flight");
    let mut r = Rng(c.seed.wrapping_mul(101));
    for k in 0..if c.thorough { 1500 } else { 110 } {
        let seed = r.next();
        c.case(&format!("history/{k}/{seed}"), || history(seed));
    }
    c.case("basics", basics);
    for k in 0..6 {
        c.case(&format!("failing-multicast/{k}"), || failing(k));
    }
}

fn basics() -> Result<bool, String> {
    for size in [0usize, 1, 4096] {
        let a = MemoryRegion::new(size).ok_or("new")?;
        check!(a.ref_count() == 1, "a new region counts {}", a.ref_count());
        let b = a.clone().map_err(|e| format!("{e}"))?;
        check!(a.ref_count() == 2 && b.ref_count() == 2, "after cloning: {}", a.ref_count());
        let c = MemoryRegion::from_object(a.object().clone().map_err(|e| format!("{e}"))?);
        check!(a.ref_count() == 3, "after wrapping the object: {}", a.ref_count());
        drop(a);
        check!(c.ref_count() == 2, "after dropping: {}", c.ref_count());
        drop(b);
        check!(c.ref_count() == 1, "after dropping: {}", c.ref_count());
        let mut v = vec![c];
        for i in 2..400u32 {
            let n = v[0].clone().map_err(|e| format!("{e}"))?;
            v.push(n);
            check!(v[0].ref_count() == i, "{i} clones count {}", v[0].ref_count());
        }
        v.truncate(1);
        check!(v[0].ref_count() == 1, "after dropping the clones");
        let mut m = msg(LabelOp::True, false, Duration::ZERO, 1, b"");
        m.memory_regions.push(v[0].clone().map_err(|e| format!("{e}"))?);
        check!(v[0].ref_count() == 2, "attached");
        drop(m);
        check!(v[0].ref_count() == 1, "a message dropped without being sent");
        // sharing of failures
        let fails = MemoryRegion::new(usize::MAX - 12).is_none();
        let _ = fails;
    }
    Ok(true)
}

struct Ep {
    l: &'static str,
    tx: Tx,
    rx: Rx,
    queue: Vec<Vec<usize>>, // messages waiting: the regions in them
}
fn history(seed: u64) -> Result<bool, String> {
    let mut r = Rng(seed);
    let id = uid();
    let (ctx, crx) = controller(&id, &["ctl", "g"])?;
    let mut eps = vec![Ep { l: "ctl", tx: ctx, rx: crx, queue: vec![] }];
    let names = ["a", "b", "c"];
    let mut joined = 0;
    for _ in 0..2 {
        let l = names[joined];
        let (tx, rx) = client(&id, &[l, "g"])?;
        eps.push(Ep { l, tx, rx, queue: vec![] });
        joined += 1;
    }
    let mut keep: Vec<MemoryRegion> = vec![];
    let mut handles: Vec<Vec<MemoryRegion>> = vec![vec![], vec![], vec![]];
    for _ in 0..3 {
        keep.push(MemoryRegion::new(r.below(9000) as usize).ok_or("new")?);
    }
    let mut received: Vec<(Message<BytesMessage>, Vec<usize>)> = vec![];
    // held for the endpoint "late": regions of each held message
    let mut held: Vec<Vec<usize>> = vec![];
    let mut log: Vec<String> = vec![];
    let mut flew = false;
    for _ in 0..26 {
        match r.below(14) {
            0 | 1 => {
                let g = r.below(3) as usize;
                handles[g].push(keep[g].clone().map_err(|e| format!("{e}"))?);
                log.push(format!("clone {g}"));
            }
            2 => {
                let g = r.below(3) as usize;
                let o = keep[g].object().clone().map_err(|e| format!("{e}"))?;
                handles[g].push(MemoryRegion::from_object(o));
                log.push(format!("wrap {g}"));
            }
            3 => {
                let g = r.below(3) as usize;
                handles[g].pop();
                log.push(format!("drop {g}"));
            }
            4..=8 => {
                let n = r.below(4);
                let regs: Vec<usize> = (0..n).map(|_| r.below(3) as usize).collect();
                let from = r.below(eps.len() as u64) as usize;
                let (op, mc, ttl, to): (LabelOp, bool, u64, Vec<usize>) = match r.below(7) {
                    0 => (LabelOp::from("nobody"), r.below(2) == 0, 0, vec![]),
                    1 => {
                        let t = r.below(eps.len() as u64) as usize;
                        (LabelOp::from(eps[t].l), false, 0, vec![t])
                    }
                    2 => {
                        let t = r.below(eps.len() as u64) as usize;
                        (LabelOp::from(eps[t].l), true, 0, vec![t])
                    }
                    3 | 4 => (LabelOp::from("g"), true, 0, (0..eps.len()).collect()),
                    5 => {
                        let there = eps.len() > 3;
                        if !there {
                            held.push(regs.clone());
                        }
                        (LabelOp::from("late"), r.below(2) == 0, 1000, if there { vec![3] } else { vec![] })
                    }
                    _ => (LabelOp::from("g").and(!LabelOp::from("ctl")), true, 0, (1..eps.len()).collect()),
                };
                let mut m = msg(op, mc, Duration::from_secs(ttl), 9, b"x");
                for g in &regs {
                    m.memory_regions.push(match handles[*g].pop() {
                        Some(h) => h,
                        None => keep[*g].clone().map_err(|e| format!("{e}"))?,
                    });
                }
                eps[from].tx.send(m).map_err(|e| format!("{e:?}"))?;
                for t in &to {
                    eps[*t].queue.push(regs.clone());
                    flew |= n > 0;
                }
                log.push(format!("send {regs:?} from {from} to {to:?} multicast {mc} ttl {ttl}"));
                // the controller handled it
                let (a, b) = eps.split_at_mut(1);
                let tx = if from == 0 { a[0].tx.clone() } else { b[from - 1].tx.clone() };
                // everything before the sentinel stays with the controller's receiver: take it as received
                for m in drain(&tx, "ctl", &mut a[0].rx)? {
                    let q = a[0].queue.remove(0);
                    received.push((m, q));
                }
            }
            9 | 10 => {
                let t = 1 + r.below(eps.len() as u64 - 1) as usize;
                if !eps[t].queue.is_empty() {
                    let m = eps[t].rx.recv(Some(Duration::from_secs(3))).map_err(|e| format!("{e:?}"))?;
                    let q = eps[t].queue.remove(0);
                    check!(m.memory_regions.len() == q.len(), "{} regions received instead of {}", m.memory_regions.len(), q.len());
                    received.push((m, q));
                    log.push(format!("receive at {t}"));
                }
            }
            11 => {
                if !received.is_empty() {
                    let i = r.below(received.len() as u64) as usize;
                    received.remove(i);
                    log.push("drop received".into());
                }
            }
            12 => {
                // take the regions out of a received message
                if let Some((mut m, q)) = received.pop() {
                    for (g, h) in q.iter().zip(m.memory_regions.drain(..)) {
                        handles[*g].push(h);
                    }
                    log.push("take received".into());
                }
            }
            _ => {
                if joined < 3 && !held.is_empty() && r.below(2) == 0 {
                    let (tx, rx) = client(&id, &["late", "g"])?;
                    let q = std::mem::take(&mut held);
                    flew = true;
                    eps.push(Ep { l: "late", tx, rx, queue: q });
                    joined += 1;
                    log.push("join late".into());
                    let (a, _) = eps.split_at_mut(1);
                    for m in drain(&a[0].tx.clone(), "ctl", &mut a[0].rx)? {
                        let q = a[0].queue.remove(0);
                        received.push((m, q));
                    }
                }
            }
        }
        let mut want: HashMap<usize, u32> = HashMap::new();
        for g in 0..3 {
            *want.entry(g).or_default() += 1 + handles[g].len() as u32;
        }
        for q in eps.iter().flat_map(|e| &e.queue).chain(&held).chain(received.iter().map(|x| &x.1)) {
            for g in q {
                *want.entry(*g).or_default() += 1;
            }
        }
        for g in 0..3 {
            let got = keep[g].ref_count();
            check!(got == want[&g], "region {g} counts {got} instead of {} after {log:?}", want[&g]);
        }
    }
    Ok(flew)
}

/// a multicast in which some receivers fail, and a unicast that falls through to the next
fn failing(k: u64) -> Result<bool, String> {
    let id = uid();
    let (ctx, mut crx) = controller(&id, &["ctl"])?;
    let mut eps = vec![];
    for _ in 0..4 {
        eps.push(client(&id, &["g"])?);
    }
    let reg = MemoryRegion::new(5000).ok_or("new")?;
    // endpoints k and k+1 (mod 4) are gone
    let gone: Vec<usize> = match k {
        0 => vec![0],
        1 => vec![3],
        2 => vec![0, 1],
        3 => vec![1, 2],
        4 => vec![0, 1, 2, 3],
        _ => vec![0, 3],
    };
    let mut alive: Vec<Option<(Tx, Rx)>> = eps.into_iter().map(Some).collect();
    for g in &gone {
        alive[*g] = None;
    }
    for (round, mc) in [(0, true), (1, false), (2, true)] {
        let mut m = msg(LabelOp::from("g"), mc, Duration::ZERO, 5, b"");
        m.memory_regions.push(reg.clone().map_err(|e| format!("{e}"))?);
        m.memory_regions.push(reg.clone().map_err(|e| format!("{e}"))?);
        ctx.send(m).map_err(|e| format!("{e:?}"))?;
        sync(&ctx, "ctl", &mut crx)?;
        let n = (4 - gone.len()).min(if mc { 4 } else { 1 }) as u32;
        check!(reg.ref_count() == 1 + 2 * n, "round {round}: {n} copies of two handles were handed over, the count is {}", reg.ref_count());
        let mut got = 0;
        for e in alive.iter_mut().flatten() {
            if let Ok(m) = e.1.recv(Some(Duration::from_millis(if mc { 2000 } else { 20 }))) {
                got += 1;
                check!(m.memory_regions.len() == 2, "regions");
            }
            let w = 1 + 2 * (n - got);
            check!(reg.ref_count() == w, "round {round}: after {got} of {n} received and dropped, the count is {} not {w}", reg.ref_count());
        }
        check!(got == n, "{got} of {n} received");
    }
    // the sender's own connection fails with an error, once
    let tx = alive.iter().flatten().next().map(|e| e.0.clone());
    if let Some(tx) = tx {
        sys::SEND_PLAN.with(|p| p.borrow_mut().extend([sys::Plan::Errno(libc::EPIPE)]));
        let mut m = msg(LabelOp::from("ctl"), false, Duration::ZERO, 6, b"");
        m.memory_regions.push(reg.clone().map_err(|e| format!("{e}"))?);
        tx.send(m).map_err(|e| format!("{e:?}"))?;
        let got = crx.recv(Some(Duration::from_secs(3))).map_err(|e| format!("{e:?}"))?;
        check!(reg.ref_count() == 2, "a send that failed once and was repeated: {}", reg.ref_count());
        drop(got);
        check!(reg.ref_count() == 1, "after all: {}", reg.ref_count());
    }
    Ok(true)
}
