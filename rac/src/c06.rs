use crate::{bus::*, check, Ctx, Rng};
use ipmb::{BytesMessage, LabelOp, MemoryRegion, Message, Object, Selector};
use std::time::Duration;

pub fn memfd(content: &[u8]) -> Object {
    unsafe {
        let fd = libc::memfd_create(c"rac".as_ptr(), libc::MFD_CLOEXEC);
        assert!(fd >= 0);
        assert_eq!(libc::pwrite(fd, content.as_ptr() as _, content.len(), 0), content.len() as isize);
        Object::from_raw(fd)
    }
}
/// what a descriptor refers to
pub fn ino(o: &Object) -> (u64, u64) {
    unsafe {
        let mut s: libc::stat = std::mem::zeroed();
        assert_eq!(libc::fstat(o.as_raw(), &mut s), 0, "descriptor is not open");
        (s.st_dev as u64, s.st_ino as u64)
    }
}

pub fn run(c: &Ctx) {
    c.rule("messages with payloads of 0..64 kB (dense around alignment and powers of two), 0..253 objects and regions in all proportions, formats and contents random, between controller and endpoints in every direction, unicast and multicast; non-trivial: the payload or the attachments are not empty");
    let mut r = Rng(c.seed);
    let mut sizes: Vec<usize> = (0..70).collect();
    for p in [128usize, 250, 251, 256, 1024, 4096, 8192, 16384, 32768, 60000, 65535, 65536, 66000] {
        sizes.extend([p - 3, p - 2, p - 1, p, p + 1, p + 2, p + 3]);
    }
    let mut atts: Vec<(usize, usize)> = vec![];
    for o in 0..5 {
        for m in 0..5 {
            atts.push((o, m));
        }
    }
    atts.extend([(64, 0), (65, 0), (0, 64), (0, 65), (32, 33), (100, 28), (253, 0), (0, 253), (127, 126), (252, 1), (1, 252), (63, 2), (16, 0), (17, 0), (0, 17)]);
    for dir in 0..4 {
        for ch in sizes.chunks(12) {
            let seed = r.next();
            c.case(&format!("sizes/dir{dir}/{}..{}", ch[0], ch[ch.len() - 1]), || batch(dir, &ch.iter().map(|s| (*s, 0, 0)).collect::<Vec<_>>(), seed));
        }
        for ch in atts.chunks(5) {
            let seed = r.next();
            c.case(&format!("attachments/dir{dir}/{:?}", ch), || batch(dir, &ch.iter().map(|a| (seed as usize % 50, a.0, a.1)).collect::<Vec<_>>(), seed));
        }
        for k in 0..if c.thorough { 400 } else { 12 } {
            let seed = r.next();
            let mut rr = Rng(seed);
            let b: Vec<_> = (0..6).map(|_| (rr.below(40000) as usize, rr.below(20) as usize, rr.below(20) as usize)).collect();
            c.case(&format!("mixed/dir{dir}/{k}/{seed}"), || batch(dir, &b, seed));
        }
    }
    c.case("multicast", || multicast());
    c.case("held", || held_roundtrip());
}

struct Sent {
    format: u16,
    data: Vec<u8>,
    objs: Vec<(u64, u64)>,
    regions: Vec<(u64, u64)>,
}
fn make(r: &mut Rng, to: LabelOp, multicast: bool, ttl: Duration, size: usize, no: usize, nm: usize) -> (Message<BytesMessage>, Sent) {
    let data: Vec<u8> = (0..size).map(|_| r.next() as u8).collect();
    let format = r.below(0xFFFE) as u16;
    let mut s = if multicast { Selector::multicast(to) } else { Selector::unicast(to) };
    s.ttl = ttl;
    let mut m = Message::new(s, BytesMessage { format, data: data.clone() });
    for i in 0..no {
        m.objects.push(memfd(&[i as u8; 4]));
    }
    for i in 0..nm {
        let mut g = MemoryRegion::new(16 + i).unwrap();
        g.map(..).unwrap().fill(i as u8 + 1);
        m.memory_regions.push(g);
    }
    let sent = Sent { format, data, objs: m.objects.iter().map(ino).collect(), regions: m.memory_regions.iter().map(|g| ino(g.object())).collect() };
    (m, sent)
}
fn compare(m: &mut Message<BytesMessage>, s: &Sent) -> Result<(), String> {
    check!(m.payload.format == s.format, "format {} became {}", s.format, m.payload.format);
    check!(m.payload.data == s.data, "a payload of {} bytes arrived with {} bytes or different content", s.data.len(), m.payload.data.len());
    let o: Vec<_> = m.objects.iter().map(ino).collect();
    check!(o == s.objs, "{} objects were sent, {} arrived{}", s.objs.len(), o.len(), if o.len() == s.objs.len() { " but not the same in the same order" } else { "" });
    let g: Vec<_> = m.memory_regions.iter().map(|g| ino(g.object())).collect();
    check!(g == s.regions, "{} regions were sent, {} arrived{}", s.regions.len(), g.len(), if g.len() == s.regions.len() { " but not the same in the same order" } else { "" });
    for (i, g) in m.memory_regions.iter_mut().enumerate() {
        check!(g.buffer_size() == 16 + i as u64, "region {i} has size {}", g.buffer_size());
        check!(g.map(..).map_err(|e| format!("{e:?}"))?.iter().all(|b| *b == i as u8 + 1), "region {i} has other contents");
    }
    Ok(())
}

fn batch(dir: usize, items: &[(usize, usize, usize)], seed: u64) -> Result<bool, String> {
    let mut r = Rng(seed);
    let id = uid();
    let (ctx, mut crx) = controller(&id, &["ctl"])?;
    let (atx, mut arx) = client(&id, &["a"])?;
    let (btx, mut brx) = client(&id, &["b"])?;
    let (tx, rx, to) = match dir {
        0 => (&ctx, &mut arx, "a"),
        1 => (&atx, &mut crx, "ctl"),
        2 => (&ctx, &mut crx, "ctl"),
        _ => (&atx, &mut brx, "b"),
    };
    let _ = &btx;
    for (size, no, nm) in items {
        let (m, s) = make(&mut r, LabelOp::from(to), false, Duration::ZERO, *size, *no, *nm);
        tx.send(m).map_err(|e| format!("{e:?}"))?;
        let mut got = recv_some(rx, r.below(2) == 0).map_err(|e| format!("a message with {size} bytes, {no} objects and {nm} regions does not arrive: {e:?}"))?;
        compare(&mut got, &s).map_err(|e| format!("{size} bytes, {no} objects, {nm} regions: {e}"))?;
    }
    let left = drain(tx, to, rx)?;
    check!(left.is_empty(), "more messages arrived than were sent");
    Ok(true)
}

/// receive with a limit, or without one (a case that does not finish is reported)
fn recv_some(rx: &mut Rx, limit: bool) -> Result<Message<BytesMessage>, ipmb::RecvError> {
    rx.recv(if limit { Some(Duration::from_secs(5)) } else { None })
}

fn multicast() -> Result<bool, String> {
    let mut r = Rng(3);
    let id = uid();
    let (ctx, mut crx) = controller(&id, &["g"])?;
    let mut eps = vec![];
    for _ in 0..3 {
        eps.push(client(&id, &["g"])?);
    }
    for (size, no, nm) in [(0, 0, 0), (1, 1, 0), (5, 0, 1), (100, 3, 2), (3000, 2, 5), (0, 20, 20), (7, 0, 0)] {
        for from in 0..2 {
            let (m, s) = make(&mut r, LabelOp::from("g"), true, Duration::ZERO, size, no, nm);
            if from == 0 {
                ctx.send(m).map_err(|e| format!("{e:?}"))?;
            } else {
                eps[1].0.send(m).map_err(|e| format!("{e:?}"))?;
            }
            for (_, rx) in eps.iter_mut() {
                let mut got = recv_some(rx, r.below(2) == 0).map_err(|e| format!("multicast: {e:?}"))?;
                compare(&mut got, &s)?;
            }
            let mut got = recv_some(&mut crx, r.below(2) == 0).map_err(|e| format!("multicast to the controller: {e:?}"))?;
            compare(&mut got, &s)?;
        }
    }
    Ok(true)
}

/// a message waiting for its receiver is the same when it gets there
fn held_roundtrip() -> Result<bool, String> {
    let mut r = Rng(4);
    let id = uid();
    let (ctx, mut crx) = controller(&id, &["ctl"])?;
    let (atx, _arx) = client(&id, &["a"])?;
    let mut sent = vec![];
    for (i, (size, no, nm)) in [(0, 0, 0), (9, 1, 1), (1000, 0, 3), (2, 5, 0)].iter().enumerate() {
        let (m, s) = make(&mut r, LabelOp::from("late"), i % 2 == 0, Duration::from_secs(600), *size, *no, *nm);
        if i % 2 == 0 { &ctx } else { &atx }.send(m).map_err(|e| format!("{e:?}"))?;
        // in order through the controller
        sync(&atx, "ctl", &mut crx)?;
        sync(&ctx, "ctl", &mut crx)?;
        sent.push(s);
    }
    let (_l, mut rx) = client(&id, &["late"])?;
    for s in &sent {
        let mut got = recv_some(&mut rx, s.format % 2 == 0).map_err(|e| format!("held: {e:?}"))?;
        compare(&mut got, s)?;
    }
    Ok(true)
}
