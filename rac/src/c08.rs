use crate::{bus::*, c06::memfd, check, sys, Ctx, Rng};
use ipmb::{LabelOp, MemoryRegion, Object};
use std::ops::Bound::{self, *};
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;

const SIZES: [usize; 17] = [0, 1, 2, 11, 12, 13, 100, 4083, 4084, 4085, 4095, 4096, 4097, 8180, 8192, 12289, 70_000];

pub fn run(c: &Ctx) {
    c.rule("regions of 0..70000 bytes around page boundaries; sequences of mappings with every kind of bound, positions at and around 0, the page boundaries, the header, the size and usize::MAX; each mapping is compared with a byte-for-byte model, written, and the object read back independently, by clones and by receivers; non-trivial: at least one mapping was refused and one moved");
    let mut r = Rng(c.seed.wrapping_mul(31));
    // every pair of interesting bounds
    for size in SIZES {
        for k in 0..3 {
            c.case(&format!("bounds/{size}/{k}"), || all_bounds(size, k));
        }
        for k in 0..if c.thorough { 60 } else { 3 } {
            let seed = r.next();
            c.case(&format!("sequence/{size}/{k}/{seed}"), || sequence(size, seed, k % 3 == 2));
        }
    }
    c.case("share", share);
    c.case("huge", huge);
    c.case("lying-objects", lying);
}

fn positions(size: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2, 11, 12, 13];
    for b in [4084usize, 4096, 8180, 8192, size, size / 2, 2 * size] {
        for d in [-13i64, -12, -1, 0, 1, 12] {
            let p = b as i64 + d;
            if p >= 0 {
                v.push(p as usize);
            }
        }
    }
    v.extend([usize::MAX, usize::MAX - 1, usize::MAX - 12, usize::MAX / 2, isize::MAX as usize, 1 << 32, (1 << 32) + 1]);
    v.sort();
    v.dedup();
    v
}
/// None: the range must be refused
fn model(size: usize, s: Bound<usize>, e: Bound<usize>) -> Option<(usize, usize)> {
    let start = match s {
        Included(a) => a as u128,
        Excluded(a) => a as u128 + 1,
        Unbounded => 0,
    };
    let end = match e {
        Included(a) => a as u128 + 1,
        Excluded(a) => a as u128,
        Unbounded => size as u128,
    };
    if start > end || end > size as u128 {
        None
    } else {
        Some((start as usize, (end - start) as usize))
    }
}
fn raw_read(o: &Object) -> Vec<u8> {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        libc::fstat(o.as_raw(), &mut st);
        let mut v = vec![0u8; st.st_size as usize];
        let n = libc::pread(o.as_raw(), v.as_mut_ptr() as _, v.len(), 0);
        assert_eq!(n, v.len() as isize);
        v
    }
}
struct M {
    region: MemoryRegion,
    bytes: Vec<u8>,
    stamp: u8,
}
impl M {
    fn new(size: usize) -> Result<M, String> {
        let region = MemoryRegion::new(size).ok_or("new")?;
        check!(region.buffer_size() == size as u64, "a region of {size} bytes says {}", region.buffer_size());
        Ok(M { region, bytes: vec![0; size], stamp: 0 })
    }
    /// map, compare, write, and compare the whole object
    fn step(&mut self, s: Bound<usize>, e: Bound<usize>, write: bool) -> Result<bool, String> {
        let size = self.bytes.len();
        let what = format!("mapping {s:?}..{e:?} of a region of {size} bytes");
        let want = model(size, s, e);
        let rc = self.region.ref_count();
        match (self.region.map((s, e)), want) {
            (Err(_), None) => return Ok(false),
            (Ok(v), None) => return Err(format!("{what} gives {} bytes instead of an error", v.len())),
            (Err(er), Some(_)) => return Err(format!("{what} fails: {er:?}")),
            (Ok(v), Some((o, n))) => {
                check!(v.len() == n, "{what} gives {} bytes", v.len());
                check!(*v == self.bytes[o..o + n], "{what} shows other bytes than the region's");
                if write && n > 0 {
                    self.stamp = self.stamp.wrapping_add(37);
                    for (i, b) in v.iter_mut().enumerate() {
                        *b = self.stamp ^ (i as u8).wrapping_mul(11);
                        self.bytes[o + i] = *b;
                    }
                }
            }
        }
        let raw = raw_read(self.region.object());
        check!(raw.len() == size + 12, "the object has {} bytes for a region of {size}", raw.len());
        check!(raw[12..] == self.bytes[..], "{what}: bytes outside of the range were changed or the range is not where it should be");
        check!(raw[..4] == rc.to_ne_bytes() && raw[4..12] == (size as u64).to_ne_bytes(), "{what}: the header was changed");
        Ok(true)
    }
}
fn all_bounds(size: usize, kind: u64) -> Result<bool, String> {
    let p = positions(size);
    let mut m = M::new(size)?;
    let (mut yes, mut no) = (0, 0);
    for (i, a) in p.iter().enumerate() {
        for (j, b) in p.iter().enumerate() {
            if kind == 0 || (i * 7 + j) % 3 == 0 {
                let (s, e) = match kind {
                    0 => (Included(*a), Excluded(*b)),
                    1 => (Included(*a), Included(*b)),
                    _ => (Excluded(*a), if j % 2 == 0 { Excluded(*b) } else { Included(*b) }),
                };
                if m.step(s, e, (i + j) % 5 == 0)? {
                    yes += 1
                } else {
                    no += 1
                }
            }
        }
        m.step(Included(*a), Unbounded, true)?;
        m.step(Unbounded, Excluded(*a), true)?;
        m.step(Excluded(*a), Unbounded, false)?;
        m.step(Unbounded, Included(*a), false)?;
    }
    m.step(Unbounded, Unbounded, true)?;
    Ok(yes > 0 && no > 0)
}
fn sequence(size: usize, seed: u64, shared: bool) -> Result<bool, String> {
    let mut r = Rng(seed);
    sys::TRACK_MAPS.store(true, SeqCst);
    let bad = sys::BAD_UNMAP.load(SeqCst);
    let maps = sys::MAPS.lock().unwrap().len();
    let p = positions(size);
    {
        let mut m = M::new(size)?;
        let mut other = if shared { Some(m.region.clone().map_err(|e| format!("{e}"))?) } else { None };
        for _ in 0..60 {
            let pick = |r: &mut Rng| if r.below(3) > 0 && size > 0 { r.below(size as u64 + 1) as usize } else { p[r.below(p.len() as u64) as usize] };
            let (a, b) = (pick(&mut r), pick(&mut r));
            let (a, b) = if r.below(5) > 0 { (a.min(b), a.max(b)) } else { (a, b) };
            let s = match r.below(5) {
                0 => Unbounded,
                1 => Excluded(a),
                _ => Included(a),
            };
            let e = match r.below(5) {
                0 => Unbounded,
                1 => Included(b),
                _ => Excluded(b),
            };
            m.step(s, e, r.below(2) == 0)?;
            if let Some(o) = &mut other {
                let v = o.map(..).map_err(|e| format!("{e:?}"))?;
                check!(*v == m.bytes[..], "another holder sees other bytes");
                if size > 0 && r.below(2) == 0 {
                    let i = r.below(size as u64) as usize;
                    v[i] ^= 0x5A;
                    m.bytes[i] ^= 0x5A;
                }
            }
            if let Some((addr, len, _, _)) = sys::MAPS.lock().unwrap().iter().skip(maps).find(|x| x.1 > size + 12 + 4096) {
                return Err(format!("{len} bytes are mapped at {addr:x} for a region of {size}"));
            }
        }
    }
    sys::TRACK_MAPS.store(false, SeqCst);
    check!(sys::BAD_UNMAP.load(SeqCst) == bad, "a mapping is removed with other bounds than it was made with");
    check!(sys::MAPS.lock().unwrap().len() <= maps, "mappings of the region remain");
    Ok(true)
}
/// all holders (clone, wrapped object, receiver of a message) see the same bytes
fn share() -> Result<bool, String> {
    let id = uid();
    let (tx, mut rx) = controller(&id, &["ctl"])?;
    let (_atx, mut arx) = client(&id, &["a"])?;
    for size in [0usize, 1, 13, 4084, 4085, 9000, 70_000] {
        let mut m = M::new(size)?;
        m.step(Unbounded, Unbounded, true)?;
        let mut cl = m.region.clone().map_err(|e| format!("{e}"))?;
        let mut wr = MemoryRegion::from_object(m.region.object().clone().map_err(|e| format!("{e}"))?);
        let mut ms = msg(LabelOp::from("a"), false, Duration::ZERO, 1, b"");
        ms.memory_regions.push(m.region.clone().map_err(|e| format!("{e}"))?);
        tx.send(ms).map_err(|e| format!("{e:?}"))?;
        let mut got = arx.recv(Some(Duration::from_secs(5))).map_err(|e| format!("{e:?}"))?;
        let mut re = got.memory_regions.remove(0);
        for (k, h) in [&mut cl, &mut wr, &mut re].into_iter().enumerate() {
            check!(h.buffer_size() == size as u64, "holder {k} of a region of {size} sees {} bytes", h.buffer_size());
            for (s, e) in [(Unbounded, Unbounded), (Included(size / 2), Unbounded), (Included(size / 3), Excluded(size / 2)), (Unbounded, Excluded(size))] {
                let v = h.map((s, e)).map_err(|e| format!("{e:?}"))?;
                let (o, n) = model(size, s, e).unwrap();
                check!(*v == m.bytes[o..o + n], "holder {k} sees other bytes");
                if n > 0 {
                    v[n / 2] = v[n / 2].wrapping_add(1 + k as u8);
                    m.bytes[o + n / 2] = v[n / 2];
                }
            }
            check!(h.map(..size + 1).is_err(), "holder {k} can map beyond the region");
            m.step(Unbounded, Unbounded, true)?;
        }
    }
    sync(&tx, "ctl", &mut rx)?;
    Ok(true)
}
/// sizes that cannot be had fail instead of crashing; large sparse ones work
fn huge() -> Result<bool, String> {
    for s in [usize::MAX, usize::MAX - 5, usize::MAX - 12, usize::MAX - 11, isize::MAX as usize, isize::MAX as usize - 12, 1 << 62] {
        if let Some(r) = MemoryRegion::new(s) {
            check!(r.buffer_size() == s as u64, "a region of {s} bytes says {}", r.buffer_size());
        }
    }
    let size = (5usize << 30) + 7;
    let Some(mut r) = MemoryRegion::new(size) else { return Ok(false) };
    check!(r.buffer_size() == size as u64, "size of a large region");
    for (i, o) in [0usize, (4 << 30) - 13, (4 << 30) - 12, 4 << 30, size - 9].iter().enumerate() {
        let v = r.map(*o..*o + 9).map_err(|e| format!("{e:?}"))?;
        check!(v.len() == 9, "length");
        v.fill(i as u8 + 1);
    }
    for (i, o) in [0usize, (4 << 30) - 13, (4 << 30) - 12, 4 << 30, size - 9].iter().enumerate() {
        let mut b = [0u8; 1];
        unsafe { libc::pread(r.object().as_raw(), b.as_mut_ptr() as _, 1, (*o + 12) as _) };
        check!(b[0] == i as u8 + 1, "offset {o} is mapped somewhere else");
    }
    check!(r.map(size - 8..size + 1).is_err(), "beyond the end");
    Ok(true)
}
/// regions received from a peer state sizes that their objects do not have
fn lying() -> Result<bool, String> {
    for (file, said) in [(12usize, 1u64), (100, 89), (100, u64::MAX), (4096, 4085), (4096, 1 << 40), (11, 0), (0, 0), (4, 0)] {
        let mut b = vec![0u8; file];
        if file >= 12 {
            b[4..12].copy_from_slice(&said.to_ne_bytes());
        }
        let o = memfd(&b);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| MemoryRegion::from_object(o)));
        crate::PANICS.lock().unwrap().clear();
        // an object that is no region may be refused, but must not give access beyond its end
        if let Ok(mut r) = r {
            if let Ok(v) = r.map(..) {
                check!(v.len() + 12 <= file, "an object of {file} bytes is mapped as {} bytes", v.len());
            }
        }
    }
    // an object longer than the region is fine
    let mut b = vec![7u8; 5000];
    b[..4].copy_from_slice(&3u32.to_ne_bytes());
    b[4..12].copy_from_slice(&100u64.to_ne_bytes());
    let mut r = MemoryRegion::from_object(memfd(&b));
    check!(r.buffer_size() == 100 && r.ref_count() == 4, "wrapping an object");
    check!(r.map(..).map(|v| v.len()).unwrap_or(0) == 100, "an open range does not end at the region's size");
    check!(r.map(..101).is_err(), "mapping beyond the region's size");
    Ok(true)
}
