//! C10 and C11: the region allocator against a model.
use crate::{bus::*, c06::ino, check, sys, Ctx, Rng};
use ipmb::{LabelOp, MemoryRegion, MemoryRegistry};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

pub fn run(c: &Ctx, c11: bool) {
    c.rule("histories of allocating (sizes around powers of two and each other's doubles, tags, with and without callback), cloning, dropping, sending and receiving, maintaining and letting time pass around five seconds, on a clock only the history moves; every result is judged by what the allocator holds, identified by the kernel object; non-trivial: a region was reused and a callback ran");
    let mut r = Rng(c.seed.wrapping_mul(7919) + c11 as u64);
    for k in 0..if c.thorough { 20000 } else { 1500 } {
        let seed = r.next();
        c.case(&format!("history/{k}/{seed}"), || history(seed, c11));
    }
    c.case("exhaustive", || exhaustive(c11, if c.thorough { 6 } else { 5 }));
    c.case("huge", huge);
    for k in 0..8 {
        c.case(&format!("in-flight/{k}"), || in_flight(k));
    }
    c.case("many", || many(c11));
}

struct Entry {
    ino: (u64, u64),
    size: usize,
    tag: Option<String>,
    last: i64,
    cb: Option<usize>,
    live: Vec<MemoryRegion>,
}
struct World {
    reg: Option<MemoryRegistry>,
    entries: Vec<Entry>,
    ran: Rc<RefCell<Vec<usize>>>,
    next: usize,
    reused: bool,
    called: bool,
    c11: bool,
    /// entries whose allocator copy may be gone (free for more than five seconds at some maintenance)
    log: Vec<String>,
}
const SEC: i64 = 1_000_000_000;
impl World {
    fn new(c11: bool) -> Self {
        World { reg: Some(MemoryRegistry::default()), entries: vec![], ran: Default::default(), next: 0, reused: false, called: false, c11, log: vec![] }
    }
    /// callbacks due at an allocation or maintenance call: of everything free
    fn due(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.entries.iter().filter(|e| e.live.is_empty()).filter_map(|e| e.cb).collect();
        v.sort();
        v
    }
    fn judge(&mut self, due: Vec<usize>, lenient: bool) -> Result<(), String> {
        let mut ran: Vec<usize> = self.ran.borrow_mut().drain(..).collect();
        ran.sort();
        if lenient && ran.is_empty() {
            return Ok(());
        }
        check!(ran == due, "the callbacks {ran:?} ran, those due were {due:?}; history {:?}", self.log);
        for e in self.entries.iter_mut() {
            if e.cb.map_or(false, |c| ran.contains(&c)) {
                e.cb = None;
                self.called = true;
            }
        }
        Ok(())
    }
    fn alloc(&mut self, size: usize, tag: Option<&str>, cb: bool) -> Result<bool, String> {
        let now = sys::now_ns();
        let due = self.due();
        self.log.push(format!("alloc {size} {tag:?} cb {cb}"));
        let reg = self.reg.as_mut().unwrap();
        let id = self.next;
        self.next += 1;
        let got = if cb {
            let ran = self.ran.clone();
            reg.alloc_with_free(size, tag, move || ran.borrow_mut().push(id))
        } else {
            reg.alloc(size, tag)
        };
        let Some(region) = got else {
            // nothing that fits was free, and a new one cannot be made
            self.judge(due, true)?;
            return Ok(false);
        };
        self.judge(due, false)?;
        let i = ino(region.object());
        let cap = region.buffer_size() as usize;
        check!(cap >= size, "asked for {size} bytes, got {cap}; history {:?}", self.log);
        let known = self.entries.iter().position(|e| e.ino == i);
        let fits = |e: &Entry| e.live.is_empty() && e.size >= size && e.size < size.saturating_mul(2) && e.tag.as_deref() == tag && now - e.last < 5 * SEC;
        match known {
            Some(k) => {
                let e = &mut self.entries[k];
                check!(e.live.is_empty(), "the region returned is in use; history {:?}", self.log);
                check!(e.tag.as_deref() == tag, "a region with tag {:?} is reused for tag {tag:?}; history {:?}", e.tag, self.log);
                check!(cap == e.size && cap < size.saturating_mul(2).max(1), "a region of {cap} bytes is reused for {size}; history {:?}", self.log);
                e.last = now;
                e.live.push(region);
                e.cb = cb.then_some(id);
                self.reused = true;
            }
            None => {
                if let Some(e) = self.entries.iter().find(|e| fits(e)) {
                    return Err(format!("a new region is made although one of {} bytes is free since it was allocated {} ms ago; history {:?}", e.size, (now - e.last) / 1_000_000, self.log));
                }
                check!(cap == size, "a new region has {cap} bytes instead of {size}; history {:?}", self.log);
                self.entries.push(Entry { ino: i, size: cap, tag: tag.map(|s| s.into()), last: now, cb: cb.then_some(id), live: vec![region] });
            }
        }
        // it is ours and the allocator's only
        let e = self.entries.iter().find(|e| e.ino == i).unwrap();
        check!(e.live[0].ref_count() == 2, "the returned region counts {}; history {:?}", e.live[0].ref_count(), self.log);
        Ok(true)
    }
    fn maintain(&mut self) -> Result<(), String> {
        self.log.push("maintain".into());
        let due = self.due();
        self.reg.as_mut().unwrap().maintain();
        self.judge(due, false)
    }
    fn quiet(&mut self) -> Result<(), String> {
        check!(self.ran.borrow().is_empty(), "a callback ran without allocation, maintenance or drop; history {:?}", self.log);
        Ok(())
    }
    /// dropping the allocator runs what is left
    fn end(mut self) -> Result<(bool, bool), String> {
        self.log.push("drop allocator".into());
        let mut due: Vec<usize> = self.entries.iter().filter_map(|e| e.cb).collect();
        due.sort();
        let used: Vec<u32> = self.entries.iter().flat_map(|e| e.live.first()).map(|r| r.ref_count()).collect();
        drop(self.reg.take());
        let mut ran: Vec<usize> = self.ran.borrow_mut().drain(..).collect();
        ran.sort();
        check!(ran == due, "dropping the allocator ran the callbacks {ran:?}, those left were {due:?}; history {:?}", self.log);
        self.called |= !due.is_empty();
        for (r, n) in self.entries.iter().flat_map(|e| e.live.first()).zip(used) {
            check!(r.ref_count() == n - 1, "a region in use counts {} after the allocator is gone, {n} before", r.ref_count());
        }
        Ok((self.reused, self.called))
    }
}
fn history(seed: u64, c11: bool) -> Result<bool, String> {
    let mut r = Rng(seed);
    sys::freeze(true);
    let mut w = World::new(c11);
    let base = [1usize, 2, 7, 8, 100, 4096, 10_000][r.below(7) as usize];
    let sizes = [base, base, base, base * 2, base * 2 - 1, base + 1, base.max(2) - 1, if seed % 5 == 0 { 0 } else { base * 2 + 1 }];
    let tags = [None, None, None, Some("a"), [Some("b"), Some("")][(seed % 2) as usize]];
    for _ in 0..4 + r.below(22) {
        match r.below(12) {
            0..=4 => {
                let s = sizes[r.below(8) as usize];
                let t = tags[r.below(5) as usize];
                let cb = w.c11 || r.below(2) == 0;
                w.alloc(s, t, cb && r.below(4) > 0)?;
            }
            5..=7 => {
                let held: Vec<usize> = (0..w.entries.len()).filter(|k| !w.entries[*k].live.is_empty()).collect();
                if !held.is_empty() {
                    let k = held[r.below(held.len() as u64) as usize];
                    if w.entries[k].live.pop().is_some() {
                        w.log.push(format!("drop a handle of {}", w.entries[k].size));
                    }
                }
            }
            8 => {
                if !w.entries.is_empty() {
                    let k = r.below(w.entries.len() as u64) as usize;
                    if let Some(h) = w.entries[k].live.first() {
                        let h = h.clone().map_err(|e| format!("{e}"))?;
                        w.entries[k].live.push(h);
                        w.log.push(format!("clone a handle of {}", w.entries[k].size));
                    }
                }
            }
            9 => w.maintain()?,
            _ => {
                let ms = [1u64, 1000, 2500, 4999, 5000, 5001, 20_000][r.below(7) as usize];
                sys::advance_ms(ms);
                w.log.push(format!("{ms} ms pass"));
            }
        }
        w.quiet()?;
    }
    let (reused, called) = w.end()?;
    Ok(reused && called)
}
/// every history up to a length over a small alphabet
fn exhaustive(c11: bool, len: usize) -> Result<bool, String> {
    let n = 7usize;
    for k in 0..n.pow(len as u32) {
        sys::freeze(false);
        sys::freeze(true);
        let mut w = World::new(c11);
        let mut x = k;
        for _ in 0..len {
            match x % n {
                0 => {
                    w.alloc(8, None, true)?;
                }
                1 => {
                    w.alloc(5, None, c11)?;
                }
                2 => {
                    w.alloc(8, Some("t"), true)?;
                }
                3 => {
                    if let Some(e) = w.entries.first_mut() {
                        e.live.pop();
                        w.log.push("drop first".into());
                    }
                }
                4 => {
                    if let Some(e) = w.entries.last_mut() {
                        e.live.pop();
                        w.log.push("drop last".into());
                    }
                }
                5 => w.maintain()?,
                _ => {
                    sys::advance_ms(4000);
                    w.log.push("4 s pass".into());
                }
            }
            w.quiet()?;
            x /= n;
        }
        w.end()?;
    }
    Ok(true)
}
fn huge() -> Result<bool, String> {
    let mut w = World::new(false);
    sys::freeze(true);
    for s in [usize::MAX, usize::MAX - 11, usize::MAX - 12, usize::MAX / 2, usize::MAX / 2 + 1, isize::MAX as usize - 12, isize::MAX as usize + 1, 1 << 62, 1 << 63] {
        w.alloc(16, None, true)?;
        let ok = w.alloc(s, None, true)?;
        if s > isize::MAX as usize {
            check!(!ok, "an allocation of {s} bytes succeeds");
        }
        w.alloc(s, Some("x"), false)?;
        w.maintain()?;
    }
    w.end()?;
    Ok(true)
}
/// a region in a message on its way is not free
fn in_flight(k: u64) -> Result<bool, String> {
    let id = uid();
    let (ctx, mut crx) = controller(&id, &["ctl"])?;
    let (atx, mut arx) = client(&id, &["a"])?;
    sys::freeze(true);
    let mut w = World::new(true);
    w.alloc(64, None, true)?;
    let h = w.entries[0].live.pop().unwrap();
    let i = w.entries[0].ino;
    let to = if k % 2 == 0 { "a" } else { "ctl" };
    let mut m = msg(LabelOp::from(if k & 4 != 0 { "late" } else { to }), k & 2 != 0, Duration::from_secs(1_000_000), 3, b"");
    m.memory_regions.push(h);
    let hidden = vec![MemoryRegion::new(1).ok_or("new")?];
    // the model sees the copy in flight as a handle that is alive
    w.entries[0].live = hidden;
    sys::freeze(false);
    if k % 2 == 0 { &ctx } else { &atx }.send(m).map_err(|e| format!("{e:?}"))?;
    if k % 2 == 0 {
        sync(&ctx, "ctl", &mut crx)?;
    } else {
        drain(&atx, "a", &mut arx)?;
    }
    sys::freeze(true);
    let mut w2 = w;
    for ms in [0, 3000, 6000, 60_000] {
        sys::advance_ms(ms);
        w2.maintain()?;
        let n = w2.entries.len();
        w2.alloc(64, None, false)?;
        check!(w2.entries[0].ino == i && (ms == 0 || w2.entries.len() >= n), "model");
        if let Some(e) = w2.entries.get_mut(1) {
            e.live.clear();
        }
    }
    sys::freeze(false);
    drop((atx, ctx));
    let _ = (&mut arx, &mut crx);
    w2.entries[0].live.clear();
    w2.entries[0].cb = None;
    Ok(true)
}
/// many regions of many sizes and tags, all in use, then all free
fn many(c11: bool) -> Result<bool, String> {
    sys::freeze(true);
    let mut w = World::new(c11);
    let tags: Vec<String> = (0..5).map(|i| format!("t{i}")).collect();
    for round in 0..3 {
        for i in 0..120usize {
            w.alloc(1 + i * 37 % 500, if i % 6 == 5 { None } else { Some(&tags[i % 6]) }, i % 3 != 0)?;
        }
        if round == 1 {
            for e in w.entries.iter_mut().step_by(2) {
                e.live.clear();
            }
        } else {
            for e in w.entries.iter_mut() {
                e.live.clear();
            }
        }
        w.quiet()?;
        sys::advance_ms([1000, 4000, 6000][round]);
        if round == 2 {
            w.maintain()?;
        }
    }
    let (a, b) = w.end()?;
    Ok(a && b)
}
