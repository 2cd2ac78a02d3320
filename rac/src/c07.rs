use crate::{bus::*, c05::fake_controller, c06::memfd, check, sys, Ctx, Rng};
use ipmb::LabelOp;
use std::os::fd::IntoRawFd;
use std::time::Duration;

/// frames of real traffic, to start from
struct Base {
    join: Vec<u8>,
    msg: Vec<u8>,
}
fn base() -> &'static Base {
    static B: std::sync::OnceLock<Base> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        let id = uid();
        let addr = addr_of(&id);
        let (tx, _rx) = controller(&id, &["ctl"]).unwrap();
        let join = frame(header(), &join_selector(), &join_payload(own_version(), "tok", &["zz"]));
        let (p, _) = raw_join(&addr, &join).unwrap();
        tx.send(msg(LabelOp::from("zz").or("w").and(!LabelOp::from("v")), true, Duration::ZERO, 300, b"some payload")).unwrap();
        let m = wait_frame(p.rd.0, 3000).unwrap();
        Base { join, msg: m.data }
    })
}

pub fn fd_extra(kind: u64) -> i32 {
    unsafe {
        match kind {
            0 => libc::open(c"/dev/null".as_ptr(), libc::O_RDWR | libc::O_CLOEXEC),
            1 => {
                let mut p = [0, 0];
                libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC);
                libc::syscall(libc::SYS_close, p[1] as i64);
                p[0]
            }
            2 => memfd(&[]).into_raw(),
            3 => memfd(&[1; 11]).into_raw(),
            4 => memfd(&[0xFF; 12]).into_raw(),
            5 => memfd(&[0xFF; 4096]).into_raw(),
            6 => libc::open(c"/".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC),
            7 => libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0),
            8 => {
                let r = ipmb::MemoryRegion::new(100).unwrap();
                libc::fcntl(r.object().as_raw(), libc::F_DUPFD_CLOEXEC, 0)
            }
            9 => std::fs::File::open("/proc/self/exe").unwrap().into_raw_fd(),
            _ => {
                // a region whose stated size exceeds the object
                let mut b = vec![0u8; 4096];
                b[4..12].copy_from_slice(&u64::MAX.to_ne_bytes());
                memfd(&b).into_raw()
            }
        }
    }
}

pub fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut d = b.to_vec();
    let sel_size = u32::from_ne_bytes(b[4..8].try_into().unwrap()) as usize;
    let pay_off = 8 + sel_size.div_ceil(4) * 4;
    match r.below(10) {
        0 => d.truncate(r.below(d.len() as u64 + 1) as usize),
        1 | 2 => {
            for _ in 0..=r.below(4) {
                let i = r.below(d.len() as u64) as usize;
                d[i] = [0, 1, 2, 0x7F, 0x80, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF, r.0 as u8][r.below(11) as usize];
            }
        }
        3 => {
            let v = [0u32, 1, 3, 4, 0x7FFF_FFFF, 0x8000_0000, u32::MAX, u32::MAX - 3, u32::MAX - 7, u32::MAX - 8, (d.len() - 8) as u32, (d.len() - 9) as u32, d.len() as u32, sel_size as u32 + 1, sel_size as u32 - 1];
            d[4..8].copy_from_slice(&v[r.below(v.len() as u64) as usize].to_ne_bytes());
        }
        4 => {
            let p = d.len() - pay_off - 4;
            let v = [0u32, 1, 0x7FFF_FFFF, u32::MAX, u32::MAX - 3, p as u32 + 1, p as u32, p as u32 - 1, p as u32 + 4, 0x8000_0000];
            d[pay_off..pay_off + 4].copy_from_slice(&v[r.below(v.len() as u64) as usize].to_ne_bytes());
        }
        5 => {
            // cut inside the fields
            let cuts = [1, 3, 4, 5, 7, 8, 9, pay_off - 1, pay_off, pay_off + 1, pay_off + 3, pay_off + 4, d.len() - 1];
            d.truncate(cuts[r.below(cuts.len() as u64) as usize]);
        }
        6 => {
            let n = r.below(64) as usize;
            d.extend((0..n).map(|_| r.next() as u8));
        }
        7 => d = (0..r.below(200) + 1).map(|_| r.next() as u8).collect(),
        8 => {
            // garbage selector or payload with right sizes
            let h = header();
            let n1 = r.below(40) as usize;
            let n2 = r.below(60) as usize;
            let s: Vec<u8> = if r.below(2) == 0 { unframe(b).unwrap().1 } else { (0..n1).map(|_| r.next() as u8 % 8).collect() };
            let p: Vec<u8> = (0..n2).map(|_| r.next() as u8).collect();
            d = frame(h, &s, &p);
        }
        _ => {
            let i = r.below(d.len() as u64) as usize;
            d.remove(i);
        }
    }
    d
}

pub fn run(c: &Ctx) {
    c.rule("mutated real frames (truncated anywhere, length fields at and around every limit, bytes altered, garbage selectors and payloads) with attachments of every kind (none, regions, pipes, sockets, short or lying files, more than allowed), sent to a controller and to an endpoint; afterwards all others must work and no handle may stay; non-trivial: the frame differs from a well-formed one");
    let mut r = Rng(c.seed.wrapping_mul(77));
    let n = if c.thorough { 1500 } else { 130 };
    for k in 0..n {
        let seed = r.next();
        c.case(&format!("controller/{k}/{seed}"), || to_controller(seed, 24));
    }
    for k in 0..n / 2 {
        let seed = r.next();
        c.case(&format!("endpoint/{k}/{seed}"), || to_endpoint(seed));
    }
    for k in 0..16 {
        c.case(&format!("region-claims/{k}"), || region_claims(k));
    }
    // every length of a real frame
    let len = base().msg.len();
    c.case("every-length", || {
        let frames: Vec<Vec<u8>> = (1..=len).map(|l| base().msg[..l].to_vec()).chain((1..base().join.len()).map(|l| base().join[..l].to_vec())).collect();
        feed(&frames.iter().map(|f| (f.clone(), vec![])).collect::<Vec<_>>())
    });
    c.case("nesting", nesting);
}

/// deeply nested label expressions: in a process of their own, because they may end it
fn nesting() -> Result<bool, String> {
    use std::process::{Command, Stdio};
    for kind in ["not", "and", "or"] {
        let st = Command::new(std::env::current_exe().unwrap())
            .args(["child-nesting", kind])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .map_err(|e| format!("{e}"))?;
        check!(st.success(), "a frame with a deeply nested ({kind}) label expression ends the controller's process: {st}");
    }
    Ok(true)
}
pub fn child_nesting(kind: &str) {
    let id = uid();
    let addr = addr_of(&id);
    let (tx, mut rx) = controller(&id, &["ctl"]).unwrap();
    let (_, sel, pay) = unframe(&base().msg).unwrap();
    // the expression of the captured frame comes first: Or(zz, And(..))...; put a nested one instead
    let tail = sel_tail(&sel);
    for depth in [100usize, 1000, 10_000, 40_000] {
        let mut s = vec![];
        match kind {
            "not" => s.extend(std::iter::repeat(3u8).take(depth)),
            "and" => s.extend(std::iter::repeat(4u8).take(depth)),
            _ => s.extend(std::iter::repeat(5u8).take(depth)),
        }
        s.push(0);
        if kind != "not" {
            s.extend(std::iter::repeat(0u8).take(depth));
        }
        s.extend(&tail);
        let conn = connect_to(&addr).unwrap();
        let _ = send_frame(conn.0, &frame(header(), &s, &pay), &[]);
        sync(&tx, "ctl", &mut rx).unwrap();
    }
    std::process::exit(0);
}
/// what follows the label expression in a selector: mode, uuid, count, ttl
fn sel_tail(sel: &[u8]) -> Vec<u8> {
    // expression: And(Or(zz, w), Not(v))
    fn skip(s: &[u8], mut i: usize) -> usize {
        let t = s[i];
        i += 1;
        match t {
            0 | 1 => i,
            2 => i + 1 + s[i] as usize,
            3 => skip(s, i),
            _ => {
                i = skip(s, i);
                skip(s, i)
            }
        }
    }
    sel[skip(sel, 0)..].to_vec()
}

fn settle_fds(before: usize, what: &str) -> Result<(), String> {
    let end = sys::real_ns() + 3_000_000_000;
    loop {
        let now = sys::open_fds();
        if now.len() <= before {
            return Ok(());
        }
        if sys::real_ns() > end {
            return Err(format!("{} handles stay open after {what}: {:?}", now.len() - before, &now[now.len().saturating_sub(6)..]));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn feed(frames: &[(Vec<u8>, Vec<u64>)]) -> Result<bool, String> {
    let id = uid();
    let addr = addr_of(&id);
    let (tx, mut rx) = controller(&id, &["ctl"])?;
    let (atx, mut arx) = client(&id, &["a"])?;
    sync(&atx, "ctl", &mut rx)?;
    let before = sys::open_fds().len();
    let mut conns: Vec<(usize, OwnFd)> = vec![];
    for (i, (f, kinds)) in frames.iter().enumerate() {
        let conn = connect_to(&addr).map_err(|e| format!("{e}"))?;
        // a well-formed message may be held for its time to live, with its attachments
        let held = unframe(f).and_then(|u| ipmb::decode::<ipmb::Selector>(&u.1).ok()).map_or(false, |s| !s.ttl.is_zero());
        let none = vec![];
        let kinds = if held { &none } else { kinds };
        let fds: Vec<OwnFd> = kinds.iter().map(|k| OwnFd(fd_extra(*k))).collect();
        let raw: Vec<i32> = fds.iter().map(|f| f.0).collect();
        let _ = send_frame(conn.0, f, &raw);
        drop(fds);
        conns.push((i, conn));
        if i % 4 == 3 {
            sync(&tx, "ctl", &mut rx).map_err(|e| format!("after frame {i} {:?} with {kinds:?}: {e}", f))?;
            let _ = drain(&atx, "a", &mut arx).map_err(|e| format!("after frame {i} {:?}: {e}", f))?;
            // a connection a malformed frame came on is gone
            for (j, conn) in conns.drain(..) {
                let f = &frames[j].0;
                if unframe(f).map_or(true, |u| ipmb::decode::<ipmb::Selector>(&u.1).is_err()) {
                    check!(f.is_empty() || wait_closed(conn.0, 2000), "the connection the malformed frame {f:?} came on is still open");
                }
            }
        }
    }
    drop(conns);
    sync(&tx, "ctl", &mut rx)?;
    // others go on: send, receive, join
    drain(&atx, "a", &mut arx)?;
    {
        let (btx, mut brx) = client(&id, &["b"])?;
        btx.send(msg(LabelOp::from("a"), false, Duration::ZERO, 55, b"x")).map_err(|e| format!("{e:?}"))?;
        let m = arx.recv(Some(Duration::from_secs(3))).map_err(|e| format!("{e:?}"))?;
        check!(m.payload.format == 55, "wrong message");
        drain(&atx, "b", &mut brx)?;
    }
    // the controller finds out that b is gone
    tx.send(msg(LabelOp::True, true, Duration::ZERO, 1, b"")).map_err(|e| format!("{e:?}"))?;
    sync(&tx, "ctl", &mut rx)?;
    drain(&tx, "a", &mut arx)?;
    settle_fds(before, "malformed frames")?;
    Ok(true)
}

fn to_controller(seed: u64, n: usize) -> Result<bool, String> {
    let mut r = Rng(seed);
    let mut frames = vec![];
    for _ in 0..n {
        let b = if r.below(2) == 0 { &base().join } else { &base().msg };
        let f = mutate(&mut r, b);
        let k = match r.below(4) {
            0 => 0,
            1 => 1,
            2 => r.below(4),
            _ => r.below(10),
        };
        let kinds = (0..k).map(|_| r.below(11)).collect();
        frames.push((f, kinds));
    }
    feed(&frames)
}

/// A frame that claims regions: too many for its objects, or objects that are no regions.
fn region_claims(k: u64) -> Result<bool, String> {
    let (_, sel, pay) = unframe(&base().msg).unwrap();
    let tail = sel_tail(&sel);
    // mode, uuid(16), count varint, ttl
    let mut frames = vec![];
    for count in [1u64, 2, 3, 250, 251, 65535] {
        let mut s = vec![0u8]; // True
        s.push(tail[0]);
        s.extend(&tail[1..17]);
        s.extend(varint(count));
        s.extend(&tail[18..]);
        for n in [0u64, 1, 2, 3] {
            let kinds: Vec<u64> = (0..n).map(|i| (k + i * 3) % 11).collect();
            frames.push((frame(header(), &s, &pay), kinds));
        }
    }
    feed(&frames)
}

/// malformed frames from the controller's side: the endpoint joins again and works
fn to_endpoint(seed: u64) -> Result<bool, String> {
    let mut r = Rng(seed);
    let f = mutate(&mut r, &base().msg);
    let wellformed = unframe(&f).map_or(false, |u| u.0[0] == 0xFF && compatible([u.0[1], u.0[2], u.0[3]], own_version()));
    let mut p = vec![0u8];
    p.extend([7u8; 16]);
    let ack = frame(header(), &crate::c05::ack_selector(), &p);
    let before = sys::open_fds().len();
    {
        let (_tx, mut rx) = fake_controller(ack, vec![f.clone()], Some(Duration::from_secs(5))).map_err(|e| format!("join: {e:?}"))?;
        sys::freeze(true);
        // either a message, a decode error, or (after the failed attempt to join again) a timeout
        let r = rx.recv(Some(Duration::from_secs(1)));
        sys::freeze(false);
        if let Ok(m) = &r {
            check!(wellformed, "the malformed frame {f:?} was delivered with payload {:?}", m.payload);
        }
    }
    settle_fds(before, "a malformed frame at an endpoint")?;
    Ok(true)
}
