//! The C API compiled from its real source, driven as a C program would.
use crate::{bus::{self, addr_of, client, controller, drain, listen_at, msg, own_version, uid}, c06::{ino, memfd}, check, sys, Ctx, Rng};
use ipmb::{BytesMessage, LabelOp};
use std::{cell::RefCell, ffi::{c_char, c_void, CString}, mem, ptr, rc::Rc, sync::atomic::{AtomicU64, Ordering::SeqCst}, time::Duration};
use sys::{Plan, WaitStep};

#[allow(dead_code, clippy::all)]
#[path = "/repo/ipmb-ffi/src/lib.rs"]
mod ffi;
use ffi::*;

/// the C structures, as in the generated header
#[repr(C)]
#[derive(Clone, Copy)]
struct CSelector {
    label_op: *const c_void,
    mode: u32,
    ttl: u32,
}
#[repr(C)]
struct COptions {
    identifier: *const c_char,
    label: *const c_void,
    token: *const c_char,
    controller_affinity: bool,
}
fn options(id: &CString, l: &Label, token: &CString, affinity: bool) -> Options {
    let o = COptions { identifier: id.as_ptr(), label: l as *const Label as _, token: token.as_ptr(), controller_affinity: affinity };
    assert_eq!(mem::size_of::<COptions>(), mem::size_of::<Options>());
    unsafe { mem::transmute(o) }
}
fn selector(op: &ffi::LabelOp, multicast: bool, ttl: u32) -> Selector {
    let s = CSelector { label_op: op as *const ffi::LabelOp as _, mode: multicast as u32, ttl };
    assert_eq!(mem::size_of::<CSelector>(), mem::size_of::<Selector>());
    unsafe { mem::transmute(s) }
}
fn c(s: &str) -> CString {
    CString::new(s).unwrap()
}
fn label(l: &[&str]) -> Label {
    unsafe {
        let mut r = ipmb_label();
        for s in l {
            ipmb_label_insert(&mut r, c(s).as_ptr());
        }
        r
    }
}
fn leaf(s: &str) -> ffi::LabelOp {
    unsafe { ipmb_label_op_leaf(c(s).as_ptr()) }
}
fn cjoin(id: &str, l: &[&str], token: &str, affinity: bool, timeout: u32) -> Result<(Sender, Receiver), i32> {
    let (id, token, l) = (c(id), c(token), label(l));
    let mut s = mem::MaybeUninit::<Sender>::uninit();
    let mut r = mem::MaybeUninit::<Receiver>::uninit();
    unsafe {
        match ipmb_join(options(&id, &l, &token, affinity), timeout, s.as_mut_ptr(), r.as_mut_ptr()) {
            ERROR_CODE_SUCCESS => Ok((s.assume_init(), r.assume_init())),
            e => Err(e),
        }
    }
}
fn crecv(r: &mut Receiver, timeout: u32) -> Result<Message, i32> {
    let mut m = mem::MaybeUninit::<Message>::uninit();
    unsafe {
        match ipmb_recv(r, m.as_mut_ptr(), timeout) {
            ERROR_CODE_SUCCESS => Ok(m.assume_init()),
            e => Err(e),
        }
    }
}
fn cdata(m: &Message) -> (u16, Vec<u8>) {
    let (mut f, mut p, mut n) = (0u16, ptr::null(), 0u32);
    unsafe {
        ipmb_message_bytes_data(m, &mut f, &mut p, &mut n);
        (f, if n == 0 { vec![] } else { std::slice::from_raw_parts(p, n as usize).to_vec() })
    }
}
fn cregion(size: usize) -> Result<MemoryRegion, i32> {
    let mut m = mem::MaybeUninit::<MemoryRegion>::uninit();
    unsafe {
        match ipmb_memory_region(size, m.as_mut_ptr()) {
            ERROR_CODE_SUCCESS => Ok(m.assume_init()),
            e => Err(e),
        }
    }
}
fn rnull(r: &MemoryRegion) -> bool {
    unsafe { *(r as *const MemoryRegion as *const *mut c_void) }.is_null()
}

pub fn run(ctx: &Ctx) {
    ctx.rule("C functions compiled from the real source and called as from C: join outcomes against scripted controllers, sends and receives with many timeouts on a virtual clock, messages with every payload length and attachments at every index, mappings at many offsets and sizes, labels and expressions against direct evaluation, null outputs; non-trivial: every case");
    let mut r = Rng(ctx.seed.wrapping_mul(32452843));
    let own = own_version();
    // join: every outcome, with timeouts
    let answers: Vec<(&str, J, i32)> = vec![
        ("ok", J::Answer({ let mut p = vec![0u8]; p.extend([9u8; 16]); p }), ERROR_CODE_SUCCESS),
        ("version", J::Answer(vec![1, own[0].wrapping_add(1), 2, 3]), ERROR_CODE_VERSION_MISMATCH),
        ("token", J::Answer(vec![2]), ERROR_CODE_TOKEN_MISMATCH),
        ("denied", J::Denied, ERROR_CODE_PERMISSION_DENIED),
    ];
    for t in [100_000u32, 0x7fff_ffff, TIMEOUT_INFINITE - 1, TIMEOUT_INFINITE] {
        for (n, j, want) in &answers {
            for nulls in 0..4 {
                ctx.case(&format!("join/{n}/{t}/{nulls}"), || join(j, *want, t, nulls));
            }
        }
    }
    for t in [0u32, 1, 10, 1999, 2000, 2001, 65_536, 4_000_000, 0x8000_0000, TIMEOUT_INFINITE - 1] {
        ctx.case(&format!("join/timeout/{t}"), || join_timeout(t));
        ctx.case(&format!("recv/timeout/{t}"), || recv_timeout(t));
    }
    ctx.case("join/infinite", || join_infinite());
    ctx.case("recv/infinite", || recv_infinite());
    ctx.case("join/utf8", not_utf8);
    ctx.case("join/affinity", affinity);
    for w in ["token", "version", "denied", "timeout", "decode"] {
        ctx.case(&format!("errors/{w}"), || errors(w));
    }
    for t in [0u32, 1, 7, 30_000, 0xffff_fffe, 0xffff_ffff] {
        for m in [false, true] {
            ctx.case(&format!("selector/{t}/{m}"), || ttl(t, m));
        }
    }
    for n in [0usize, 1, 2, 3, 4, 5, 7, 255, 256, 4096, 65_000] {
        for f in [0u16, 1, 0x1234, 0xfffe] {
            ctx.case(&format!("payload/{n}/{f}"), || payload(n, f));
        }
    }
    for n in 0..5 {
        for m in 0..4 {
            ctx.case(&format!("attached/{n}/{m}"), || attached(n, m));
        }
    }
    for size in [0usize, 1, 100, 4083, 4084, 4085, 4096, 9000, 1 << 20] {
        ctx.case(&format!("region/{size}"), || region(size, &mut r));
    }
    for s in [usize::MAX, usize::MAX - 11, usize::MAX - 12, usize::MAX - 13, 1 << 63, (1 << 63) - 11] {
        ctx.case(&format!("too-large/{s}"), || too_large(s));
    }
    ctx.case("registry", registry);
    ctx.case("registry/tags", registry_tags);
    ctx.case("labels", labels);
    for k in 0..if ctx.thorough { 3000 } else { 300 } {
        ctx.case(&format!("expr/{}/{k}", ctx.seed), || expr(&mut Rng(r.next())));
    }
    ctx.case("version", version);
    ctx.case("handles", || handles(&mut Rng(ctx.seed)));
}

enum J {
    Answer(Vec<u8>),
    Denied,
}

fn scripted(j: &J, id: &str, l: &[&str], token: &str, affinity: bool, timeout: u32, nulls: u32) -> (i32, Option<Sender>, Option<Receiver>, Option<Vec<u8>>, Option<bus::OwnFd>, Option<bus::OwnFd>) {
    let got: Rc<RefCell<Option<(Vec<u8>, bus::OwnFd, bus::OwnFd)>>> = Default::default();
    match j {
        J::Denied => sys::CONNECT_PLAN.with(|p| p.borrow_mut().extend((0..20).map(|_| Plan::Errno(libc::EACCES)))),
        J::Answer(p) => {
            let a = bus::frame(bus::header(), &crate::c05::ack_selector(), p);
            let listener: Rc<RefCell<Option<bus::OwnFd>>> = Default::default();
            let l2 = listener.clone();
            sys::CONNECT_HOOK.with(|h| {
                *h.borrow_mut() = Some(Box::new(move |a: &[u8]| {
                    if l2.borrow().is_none() {
                        *l2.borrow_mut() = Some(listen_at(a));
                    }
                }))
            });
            let g = got.clone();
            sys::WAIT_SCRIPT.with(|s| {
                s.borrow_mut().push_back(WaitStep::Do(
                    0,
                    Box::new(move || unsafe {
                        let c = bus::OwnFd(libc::accept4(listener.borrow().as_ref().unwrap().0, ptr::null_mut(), ptr::null_mut(), libc::SOCK_CLOEXEC));
                        let f = bus::recv_frame(c.0, false).unwrap();
                        let _ = bus::send_frame(f.fds[0], &a, &[]);
                        *g.borrow_mut() = Some((f.data, c, bus::OwnFd(f.fds[0])));
                    }),
                ))
            });
        }
    }
    let (id, token, l) = (c(id), c(token), label(l));
    let (mut s, mut r): (usize, usize) = (0, 0);
    sys::freeze(true);
    let e = unsafe {
        ipmb_join(
            options(&id, &l, &token, affinity),
            timeout,
            if nulls & 1 == 1 { ptr::null_mut() } else { &mut s as *mut usize as *mut Sender },
            if nulls & 2 == 2 { ptr::null_mut() } else { &mut r as *mut usize as *mut Receiver },
        )
    };
    sys::freeze(false);
    sys::CONNECT_HOOK.with(|h| *h.borrow_mut() = None);
    let s = (s != 0).then(|| unsafe { mem::transmute::<usize, Sender>(s) });
    let r = (r != 0).then(|| unsafe { mem::transmute::<usize, Receiver>(r) });
    let (d, cn, w) = match got.borrow_mut().take() {
        Some((a, b, c)) => (Some(a), Some(b), Some(c)),
        None => (None, None, None),
    };
    (e, s, r, d, cn, w)
}

fn join(j: &J, want: i32, t: u32, nulls: u32) -> Result<bool, String> {
    let (e, s, r, d, _c, _w) = scripted(j, &uid(), &["la", "lb"], "to ken", false, t, nulls);
    check!(e == want, "joining gave {e}, expected {want}");
    if let Some(d) = d {
        let p = bus::unframe(&d).unwrap().2;
        let (a, b) = (bus::join_payload(own_version(), "to ken", &["la", "lb"]), bus::join_payload(own_version(), "to ken", &["lb", "la"]));
        check!(p == a || p == b, "the request carries {p:?}");
    }
    let ok = want == ERROR_CODE_SUCCESS;
    check!(s.is_some() == (ok && nulls & 1 == 0), "sender output");
    check!(r.is_some() == (ok && nulls & 2 == 0), "receiver output");
    Ok(true)
}

fn join_timeout(t: u32) -> Result<bool, String> {
    let id = uid();
    let _ = addr_of(&id);
    // attempts take time themselves when the timeout is very long
    let slow = if t > 1_000_000 { t as u64 / 8 } else { 0 };
    if slow > 0 {
        sys::CONNECT_HOOK.with(|h| *h.borrow_mut() = Some(Box::new(move |_: &[u8]| sys::advance_ms(slow))));
    }
    sys::freeze(true);
    let start = sys::now_ns();
    let e = cjoin(&id, &["a"], "t", false, t);
    let el = (sys::now_ns() - start) / 1_000_000;
    sys::freeze(false);
    sys::CONNECT_HOOK.with(|h| *h.borrow_mut() = None);
    check!(matches!(e, Err(ERROR_CODE_TIMEOUT)), "joining without a controller gave {:?}", e.err());
    check!(el >= t as i64 && el <= t as i64 + 3 + slow as i64, "a join timeout of {t} ms took {el} ms");
    Ok(true)
}
fn recv_timeout(t: u32) -> Result<bool, String> {
    let mut p = vec![0u8];
    p.extend([9u8; 16]);
    let (e, s, r, _d, _c, _w) = scripted(&J::Answer(p), &uid(), &["a"], "t", false, 1000, 0);
    check!(e == 0, "join: {e}");
    let (_s, mut r) = (s.unwrap(), r.unwrap());
    sys::freeze(true);
    let start = sys::now_ns();
    let m = crecv(&mut r, t).map(|m| cdata(&m));
    let el = (sys::now_ns() - start) / 1_000_000;
    sys::freeze(false);
    check!(m == Err(ERROR_CODE_TIMEOUT), "receiving nothing gave {m:?}");
    check!(el >= t as i64 && el <= t as i64 + 3, "a receive timeout of {t} ms took {el} ms");
    Ok(true)
}
/// keeps trying far beyond 2^32 milliseconds
fn join_infinite() -> Result<bool, String> {
    let id = uid();
    let n = Rc::new(std::cell::Cell::new(0));
    let n2 = n.clone();
    let id2 = id.clone();
    sys::CONNECT_HOOK.with(|h| {
        *h.borrow_mut() = Some(Box::new(move |_: &[u8]| {
            n2.set(n2.get() + 1);
            sys::advance_ms(1 << 31);
            if n2.get() == 6 {
                let id = id2.clone();
                mem::forget(std::thread::spawn(move || mem::forget(controller(&id, &["ctl"]).unwrap())).join());
            }
        }))
    });
    sys::VSLEEP.with(|v| v.set(true));
    let e = cjoin(&id, &["a"], "tok", false, TIMEOUT_INFINITE);
    sys::VSLEEP.with(|v| v.set(false));
    sys::CONNECT_HOOK.with(|h| *h.borrow_mut() = None);
    check!(e.is_ok(), "joining without a timeout ended with {:?}", e.err());
    check!(n.get() == 6, "{} attempts", n.get());
    Ok(true)
}
fn recv_infinite() -> Result<bool, String> {
    let mut p = vec![0u8];
    p.extend([9u8; 16]);
    let (e, s, r, _d, _c, w) = scripted(&J::Answer(p), &uid(), &["e"], "t", false, 1000, 0);
    check!(e == 0, "join: {e}");
    let (_s, mut r) = (s.unwrap(), r.unwrap());
    let w = w.unwrap();
    let data = crate::c15::message_for_e(77);
    sys::WAIT_SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        s.push_back(WaitStep::Eintr((1u64 << 33) * 1_000_000));
        s.push_back(WaitStep::Do(
            5,
            Box::new(move || {
                let _ = bus::send_frame(w.0, &data, &[]);
                mem::forget(w);
            }),
        ))
    });
    sys::freeze(true);
    let m = crecv(&mut r, TIMEOUT_INFINITE).map(|m| cdata(&m));
    sys::freeze(false);
    check!(m == Ok((77, b"abc".to_vec())), "receiving without a timeout gave {m:?}");
    Ok(true)
}
fn not_utf8() -> Result<bool, String> {
    let bad = CString::new(vec![b'a', 0xff, b'b']).unwrap();
    let good = c(&uid());
    let l = label(&["x"]);
    unsafe {
        for (i, t) in [(&bad, &good), (&good, &bad), (&bad, &bad)] {
            let (mut s, mut r) = (0usize, 0usize);
            let e = ipmb_join(options(i, &l, t, true), 10, &mut s as *mut usize as _, &mut r as *mut usize as _);
            check!(e == ERROR_CODE_UNKNOWN, "text that is not UTF-8 gave {e}");
            check!(s == 0 && r == 0, "outputs were written on failure");
        }
    }
    Ok(true)
}
fn affinity() -> Result<bool, String> {
    let id = uid();
    check!(matches!(cjoin(&id, &["a"], "tok", false, 0), Err(ERROR_CODE_TIMEOUT)), "an endpoint not allowed to be controller joined an empty bus");
    let (mut s, mut r) = cjoin(&id, &["a"], "tok", true, 2000).map_err(|e| format!("join as controller: {e}"))?;
    check!(matches!(cjoin(&id, &["a"], "tokX", true, 2000), Err(ERROR_CODE_TOKEN_MISMATCH)), "wrong token");
    let (mut s2, mut r2) = cjoin(&id, &["b"], "tok", true, 2000).map_err(|e| format!("second join: {e}"))?;
    unsafe {
        let (a, b) = (leaf("a"), leaf("b"));
        check!(ipmb_send(&mut s2, ipmb_message(selector(&a, false, 0), 1, b"xy".as_ptr(), 2)) == 0, "send");
        check!(ipmb_send(&mut s, ipmb_message(selector(&b, true, 0), 2, b"z".as_ptr(), 1)) == 0, "send");
    }
    let m = crecv(&mut r, 3000).map_err(|e| format!("recv {e}"))?;
    check!(cdata(&m) == (1, b"xy".to_vec()), "message");
    let m = crecv(&mut r2, 3000).map_err(|e| format!("recv {e}"))?;
    check!(cdata(&m) == (2, b"z".to_vec()), "message");
    check!(matches!(crecv(&mut r2, 0), Err(ERROR_CODE_TIMEOUT)), "nothing more");
    Ok(true)
}
/// the controller is gone and the next one refuses
fn errors(w: &str) -> Result<bool, String> {
    let own = own_version();
    for recv in [false, true] {
        let mut p = vec![0u8];
        p.extend([9u8; 16]);
        let (e, s, r, _d, conn, wr) = scripted(&J::Answer(p), &uid(), &["e"], "t", false, 1000, 0);
        check!(e == 0, "join: {e}");
        let (mut s, mut r) = (s.unwrap(), r.unwrap());
        if w == "decode" {
            if !recv {
                continue;
            }
            // a text of 5 bytes announced, 1 present
            let f = bus::unframe(&crate::c15::message_for_e(1)).unwrap();
            bus::send_frame(wr.as_ref().unwrap().0, &bus::frame(bus::header(), &f.1, &[1, 5, 1]), &[]).map_err(|e| e.to_string())?;
            let m = crecv(&mut r, 1000).map(|m| cdata(&m));
            check!(m == Err(ERROR_CODE_DECODE), "a payload that does not decode gave {m:?}");
            bus::send_frame(wr.as_ref().unwrap().0, &crate::c15::message_for_e(4), &[]).map_err(|e| e.to_string())?;
            let m = crecv(&mut r, 1000).map(|m| cdata(&m));
            check!(m == Ok((4, b"abc".to_vec())), "afterwards {m:?}");
            continue;
        }
        drop(conn);
        drop(wr);
        let (plan, want) = match w {
            "token" => (Some(J::Answer(vec![2])), ERROR_CODE_TOKEN_MISMATCH),
            "version" => (Some(J::Answer(vec![1, own[0].wrapping_add(1), 0, 0])), ERROR_CODE_VERSION_MISMATCH),
            "denied" => (Some(J::Denied), ERROR_CODE_PERMISSION_DENIED),
            _ => (None, ERROR_CODE_TIMEOUT),
        };
        if plan.is_none() && !recv {
            continue;
        }
        match &plan {
            Some(J::Denied) => sys::CONNECT_PLAN.with(|p| p.borrow_mut().extend((0..20).map(|_| Plan::Errno(libc::EACCES)))),
            Some(J::Answer(p)) => {
                let a = bus::frame(bus::header(), &crate::c05::ack_selector(), p);
                let listener: Rc<RefCell<Option<bus::OwnFd>>> = Default::default();
                let l2 = listener.clone();
                sys::CONNECT_HOOK.with(|h| {
                    *h.borrow_mut() = Some(Box::new(move |a: &[u8]| {
                        if l2.borrow().is_none() {
                            *l2.borrow_mut() = Some(listen_at(a));
                        }
                    }))
                });
                sys::WAIT_SCRIPT.with(|s| {
                    s.borrow_mut().push_back(WaitStep::Do(
                        0,
                        Box::new(move || unsafe {
                            let c = bus::OwnFd(libc::accept4(listener.borrow().as_ref().unwrap().0, ptr::null_mut(), ptr::null_mut(), libc::SOCK_CLOEXEC));
                            let f = bus::recv_frame(c.0, false).unwrap();
                            let _ = bus::send_frame(f.fds[0], &a, &[]);
                            bus::close_fds(&f);
                        }),
                    ))
                });
            }
            None => {}
        }
        sys::freeze(true);
        let e = unsafe {
            if recv {
                crecv(&mut r, 60_000).err().unwrap_or(0)
            } else {
                let a = leaf("a");
                ipmb_send(&mut s, ipmb_message(selector(&a, false, 0), 1, b"xy".as_ptr(), 2))
            }
        };
        sys::freeze(false);
        bus::reset();
        check!(e == want, "{w}: {} gave {e}, expected {want}", if recv { "receiving" } else { "sending" });
    }
    Ok(true)
}
/// mode, expression and time to live as the peer sees them
fn ttl(t: u32, multicast: bool) -> Result<bool, String> {
    let mut p = vec![0u8];
    p.extend([9u8; 16]);
    let (e, s, _r, _d, conn, _w) = scripted(&J::Answer(p), &uid(), &["e"], "t", false, 1000, 0);
    check!(e == 0, "join: {e}");
    let mut s = s.unwrap();
    let conn = conn.unwrap();
    // the same message through the native interface
    let (tx, _rx, _wr, conn2) = crate::c13::endpoint()?;
    let op = || LabelOp::from("a").and("b").or(!LabelOp::from("c"));
    tx.send(msg(op(), multicast, Duration::from_millis(t as u64), 0x55, b"hello")).map_err(|e| format!("{e:?}"))?;
    let want = bus::wait_frame(conn2.borrow().as_ref().unwrap().0, 1000).ok_or("native")?;
    unsafe {
        let o = ipmb_label_op_or(ipmb_label_op_and(leaf("a"), leaf("b")), ipmb_label_op_not(leaf("c")));
        check!(ipmb_send(&mut s, ipmb_message(selector(&o, multicast, t), 0x55, b"hello".as_ptr(), 5)) == 0, "send");
        let o2 = ipmb_message(selector(&o, multicast, t), 0x55, b"hello".as_ptr(), 5);
        ipmb_label_op_drop(o);
        check!(ipmb_send(&mut s, o2) == 0, "send after the expression was dropped");
    }
    for _ in 0..2 {
        let got = bus::wait_frame(conn.0, 1000).ok_or("nothing sent")?;
        let (a, b) = (bus::unframe(&got.data), bus::unframe(&want.data));
        check!(a == b, "the C API sent {a:?}, the same message is {b:?}");
    }
    Ok(true)
}
fn payload(n: usize, f: u16) -> Result<bool, String> {
    let data: Vec<u8> = (0..n).map(|i| (i * 7 + n) as u8).collect();
    unsafe {
        let o = leaf("ctl");
        let m = ipmb_message(selector(&o, false, 0), f, data.as_ptr(), n as u32);
        check!(cdata(&m) == (f, data.clone()), "a message made of {n} bytes has {:?}", cdata(&m).1.len());
        if n == 0 {
            let m = ipmb_message(selector(&o, false, 0), f, ptr::null(), 0);
            check!(cdata(&m) == (f, vec![]), "an empty payload given as null");
            ipmb_message_drop(m);
        }
        ipmb_message_drop(m);
        // the data is copied
        let mut tmp = data.clone();
        let m = ipmb_message(selector(&o, false, 0), f, tmp.as_ptr(), n as u32);
        tmp.iter_mut().for_each(|b| *b = !*b);
        check!(cdata(&m).1 == data, "the payload was not copied");
        // partial length
        if n > 1 {
            let m = ipmb_message(selector(&o, false, 0), f, data.as_ptr(), n as u32 - 1);
            check!(cdata(&m).1 == data[..n - 1], "size of a message");
        }
        if n <= 4096 {
            let id = uid();
            let (tx, mut rx) = controller(&id, &["ctl"])?;
            let (mut s, mut r) = cjoin(&id, &["e"], "tok", false, 5000).map_err(|e| format!("join {e}"))?;
            check!(ipmb_send(&mut s, m) == 0, "send");
            let g = rx.recv(Some(Duration::from_secs(5))).map_err(|e| format!("the native side does not get the message: {e:?}"))?;
            check!(g.payload.format == f && g.payload.data == data, "the native side got something else");
            tx.send(msg(LabelOp::from("e"), false, Duration::ZERO, f, &data)).map_err(|e| format!("{e:?}"))?;
            let g = crecv(&mut r, 5000).map_err(|e| format!("recv {e}"))?;
            check!(cdata(&g) == (f, data), "the C side got something else");
        }
    }
    Ok(true)
}
fn raw_ino(fd: i32) -> Option<(u64, u64)> {
    unsafe {
        let mut s: libc::stat = mem::zeroed();
        (libc::fstat(fd, &mut s) == 0).then_some((s.st_dev, s.st_ino))
    }
}
fn attached(n: usize, m: usize) -> Result<bool, String> {
    let id = uid();
    let (mut s, mut r) = cjoin(&id, &["a"], "tok", true, 5000).map_err(|e| format!("join {e}"))?;
    let _ = sys::BAD_CLOSE.swap(0, SeqCst);
    unsafe {
        let o = leaf("a");
        let mut g = ipmb_message(selector(&o, false, 0), 1, ptr::null(), 0);
        let mut inos = vec![];
        let mut mine = vec![];
        for i in 0..n {
            let f = memfd(&[i as u8; 3]);
            inos.push(ino(&f));
            let raw = f.into_raw();
            ipmb_message_object_append(&mut g, raw as u64);
        }
        for i in 0..m {
            let mut g2 = cregion(50 + i).map_err(|e| format!("region {e}"))?;
            let p = ipmb_memory_region_map(&mut g2, 0, -1, ptr::null_mut());
            check!(!p.is_null(), "map");
            ptr::write_bytes(p, i as u8 + 1, 50 + i);
            let mut cl = mem::MaybeUninit::<MemoryRegion>::uninit();
            check!(ipmb_memory_region_clone(&g2, cl.as_mut_ptr()) == 0, "clone");
            check!(ipmb_memory_region_ref_count(&g2) == 2, "reference count after cloning");
            ipmb_message_memory_region_append(&mut g, cl.assume_init());
            check!(ipmb_memory_region_ref_count(&g2) == 2, "reference count after appending");
            mine.push(g2);
        }
        for (i, want) in inos.iter().enumerate() {
            let o = ipmb_message_object_get(&g, i);
            check!(raw_ino(o as i32) == Some(*want), "object {i}");
        }
        check!(ipmb_message_object_get(&g, n) == 0 && ipmb_message_object_get(&g, usize::MAX) == 0, "an index out of range");
        check!(ipmb_message_object_retrieve(&mut g, n) == 0 && ipmb_message_object_retrieve(&mut g, usize::MAX) == 0, "an index out of range");
        check!(rnull(&*mem::ManuallyDrop::new(ipmb_message_memory_region_get(&mut g, m))), "an index out of range");
        let x = mem::ManuallyDrop::new(ipmb_message_memory_region_retrieve(&mut g, m));
        check!(rnull(&x), "an index out of range");
        let x = mem::ManuallyDrop::new(ipmb_message_memory_region_retrieve(&mut g, usize::MAX));
        check!(rnull(&x), "an index out of range");
        check!(ipmb_send(&mut s, g) == 0, "send");
        let mut g = crecv(&mut r, 5000).map_err(|e| format!("recv {e}"))?;
        // borrowed, any number of times
        for _ in 0..3 {
            for (i, want) in inos.iter().enumerate() {
                let o = ipmb_message_object_get(&g, i);
                check!(raw_ino(o as i32) == Some(*want), "object {i} of the received message");
            }
            for i in 0..m {
                let mut b = mem::ManuallyDrop::new(ipmb_message_memory_region_get(&mut g, i));
                check!(!rnull(&b), "region {i} of the received message");
                let mut n = -1isize;
                let p = ipmb_memory_region_map(&mut b, 0, -1, &mut n);
                check!(n == 50 + i as isize && *p == i as u8 + 1 && *p.add(49) == i as u8 + 1, "content of region {i}");
                check!(ipmb_memory_region_ref_count(&mine[i]) == 2, "a borrow changed the reference count");
            }
        }
        // owned, in an order that shifts indices
        let mut left = inos.clone();
        let mut k = 0;
        while !left.is_empty() {
            let i = (k * 5 + 1) % left.len();
            let o = ipmb_message_object_retrieve(&mut g, i);
            let want = left.remove(i);
            check!(raw_ino(o as i32) == Some(want), "object retrieved at {i}");
            let still = ipmb_message_object_get(&g, left.len());
            check!(still == 0, "an object is still in the message after it was retrieved");
            if k == 0 {
                // outlives the message
            }
            ipmb_object_drop(o);
            check!(raw_ino(o as i32) != Some(want), "an object was not released");
            k += 1;
        }
        let keep = if m > 0 { Some(ipmb_message_memory_region_retrieve(&mut g, 0)) } else { None };
        ipmb_message_drop(g);
        for (i, g2) in mine.iter().enumerate() {
            let n = ipmb_memory_region_ref_count(g2);
            check!(n == 1 + (i == 0) as u32, "region {i} has reference count {n} after the message was dropped");
        }
        if let Some(mut k) = keep {
            let p = ipmb_memory_region_map(&mut k, 1, 2, ptr::null_mut());
            check!(!p.is_null() && *p == 1, "a retrieved region after its message was dropped");
            ipmb_memory_region_drop(k);
            check!(ipmb_memory_region_ref_count(&mine[0]) == 1, "reference count after dropping the retrieved region");
        }
    }
    let bad = sys::BAD_CLOSE.load(SeqCst);
    check!(bad == 0, "{bad} handles were closed twice");
    Ok(true)
}
fn region(size: usize, r: &mut Rng) -> Result<bool, String> {
    unsafe {
        let mut g = cregion(size).map_err(|e| format!("region {e}"))?;
        check!(ipmb_memory_region_ref_count(&g) == 1, "a new region");
        if size > 0 {
            let mut n = 0;
            let p = ipmb_memory_region_map(&mut g, 0, -1, &mut n);
            check!(!p.is_null() && n as usize == size, "mapping everything gave {n}");
            for i in 0..size {
                *p.add(i) = (i * 31 + 7) as u8;
            }
        }
        let edge = [0usize, 1, 2, 11, 12, 13, 4083, 4084, 4085, 4095, 4096, 4097, 8191, 8192, size.wrapping_sub(1), size, size.wrapping_add(1), usize::MAX, usize::MAX - 11, isize::MAX as usize];
        for k in 0..600 {
            let pick = |r: &mut Rng| if r.below(3) == 0 { r.below(size as u64 + 3) as usize } else { edge[r.below(edge.len() as u64) as usize] };
            let off = pick(r);
            let len: isize = if k % 4 == 0 { [-1isize, -2, isize::MIN][r.below(3) as usize] } else { (pick(r) as isize).max(0) };
            let mut n = -7isize;
            let p = ipmb_memory_region_map(&mut g, off, len, if k % 5 == 0 { ptr::null_mut() } else { &mut n });
            let want = if len < 0 { size.checked_sub(off) } else { off.checked_add(len as usize).filter(|e| *e <= size).map(|_| len as usize) };
            match want {
                None => check!(p.is_null(), "mapping {off} {len} of a region of {size} gave a pointer"),
                Some(w) => {
                    check!(!p.is_null(), "mapping {off} {len} of a region of {size} failed");
                    if k % 5 != 0 {
                        check!(n == w as isize, "mapping {off} {len} of a region of {size} has size {n}");
                    }
                    for i in [0, w / 2, w.saturating_sub(1)] {
                        if i < w {
                            check!(*p.add(i) == ((off + i) * 31 + 7) as u8, "mapping {off} {len}: byte {i} is that of another offset");
                        }
                    }
                }
            }
        }
    }
    Ok(true)
}
fn too_large(s: usize) -> Result<bool, String> {
    unsafe {
        let r = cregion(s);
        check!(matches!(r, Err(ERROR_CODE_UNKNOWN)), "a region of {s} bytes");
        let mut g = ipmb_memory_registry();
        let mut out = 0usize;
        let n = AtomicU64::new(0);
        let e = ipmb_memory_registry_alloc(&mut g, s, ptr::null(), &mut out as *mut usize as _);
        check!(e == ERROR_CODE_UNKNOWN && out == 0, "allocating {s} bytes gave {e}");
        let e = ipmb_memory_registry_alloc_with_free(&mut g, s, ptr::null(), &n as *const _ as _, Some(freed), &mut out as *mut usize as _);
        check!(e == ERROR_CODE_UNKNOWN && out == 0, "allocating {s} bytes gave {e}");
        ipmb_memory_registry_drop(g);
    }
    Ok(true)
}
extern "C" fn freed(p: *mut c_void) {
    unsafe { &*(p as *const AtomicU64) }.fetch_add(1, SeqCst);
}
fn ralloc(g: &mut MemoryRegistry, n: usize, tag: Option<&str>, free: Option<&AtomicU64>) -> Result<MemoryRegion, i32> {
    let mut out = mem::MaybeUninit::<MemoryRegion>::uninit();
    let t = tag.map(c);
    let tp = t.as_ref().map_or(ptr::null(), |t| t.as_ptr());
    unsafe {
        let e = match free {
            Some(f) => ipmb_memory_registry_alloc_with_free(g, n, tp, f as *const _ as _, Some(freed), out.as_mut_ptr()),
            None if n % 2 == 0 => ipmb_memory_registry_alloc_with_free(g, n, tp, ptr::null_mut(), None, out.as_mut_ptr()),
            None => ipmb_memory_registry_alloc(g, n, tp, out.as_mut_ptr()),
        };
        if e == 0 {
            Ok(out.assume_init())
        } else {
            Err(e)
        }
    }
}
fn registry() -> Result<bool, String> {
    unsafe {
        let n = AtomicU64::new(0);
        let mut g = ipmb_memory_registry();
        let a = ralloc(&mut g, 100, None, Some(&n)).map_err(|e| format!("{e}"))?;
        check!(ipmb_memory_region_ref_count(&a) == 2, "an allocated region has two handles");
        ipmb_memory_registry_maintain(&mut g);
        check!(n.load(SeqCst) == 0, "the callback ran while the region was in use");
        drop(a);
        check!(n.load(SeqCst) == 0, "the callback ran without maintenance");
        ipmb_memory_registry_maintain(&mut g);
        check!(n.load(SeqCst) == 1, "the callback ran {} times", n.load(SeqCst));
        let b = ralloc(&mut g, 100, None, Some(&n)).map_err(|e| format!("{e}"))?;
        drop(b);
        ipmb_memory_registry_drop(g);
        check!(n.load(SeqCst) == 2, "dropping the allocator ran the callback {} times", n.load(SeqCst) - 1);
    }
    Ok(true)
}
fn object_of(r: &MemoryRegion) -> (u64, u64) {
    ino((**r).object())
}
fn registry_tags() -> Result<bool, String> {
    let mut g = unsafe { ipmb_memory_registry() };
    for (i, t) in [None, Some(""), Some("x"), Some("xy"), Some("X")].into_iter().enumerate() {
        for (j, t2) in [None, Some(""), Some("x"), Some("xy"), Some("X")].into_iter().enumerate() {
            let size = 1000 * (1 + i * 5 + j) * 3;
            let a = ralloc(&mut g, size, t, None).map_err(|e| format!("{e}"))?;
            check!((*a).buffer_size() as usize >= size, "size");
            let o = object_of(&a);
            drop(a);
            let b = ralloc(&mut g, size, t2, None).map_err(|e| format!("{e}"))?;
            check!((object_of(&b) == o) == (t == t2), "a region of tag {t:?} for a request with {t2:?}");
        }
    }
    Ok(true)
}
fn labels() -> Result<bool, String> {
    let l = label(&["a", "b c", "a", "ü", ""]);
    for (s, w) in [("a", true), ("b c", true), ("ü", true), ("", true), ("b", false), ("A", false), ("u", false)] {
        check!(LabelOp::from(s).validate(&l) == w, "label contains {s:?}");
    }
    unsafe { ipmb_label_drop(l) };
    Ok(true)
}
fn expr(r: &mut Rng) -> Result<bool, String> {
    // the expression built through C, and its truth by evaluation
    fn build(r: &mut Rng, d: u32, on: &[&str], text: &mut String) -> (ffi::LabelOp, bool) {
        let names = ["a", "b", "cc", ""];
        unsafe {
            match if d == 0 { r.below(3) } else { r.below(7) } {
                0 => {
                    let b = r.below(2) == 0;
                    text.push_str(if b { "T" } else { "F" });
                    (ipmb_label_op_bool(b), b)
                }
                1 | 2 => {
                    let n = names[r.below(4) as usize];
                    text.push_str(&format!("{n:?}"));
                    (leaf(n), on.contains(&n))
                }
                3 => {
                    text.push('!');
                    let (x, v) = build(r, d - 1, on, text);
                    (ipmb_label_op_not(x), !v)
                }
                4 | 5 => {
                    text.push('(');
                    let (x, v) = build(r, d - 1, on, text);
                    text.push('&');
                    let (y, w) = build(r, d - 1, on, text);
                    text.push(')');
                    (ipmb_label_op_and(x, y), v && w)
                }
                _ => {
                    text.push('(');
                    let (x, v) = build(r, d - 1, on, text);
                    text.push('|');
                    let (y, w) = build(r, d - 1, on, text);
                    text.push(')');
                    (ipmb_label_op_or(x, y), v || w)
                }
            }
        }
    }
    let all = ["a", "b", "cc", ""];
    let mask = r.below(16);
    let on: Vec<&str> = all.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).collect();
    let l = label(&on);
    let mut text = String::new();
    let d = 1 + r.below(5) as u32;
    let (x, want) = build(r, d, &on, &mut text);
    check!((*x).validate(&l) == want, "{text} on {on:?} is not {want}");
    Ok(true)
}
fn version() -> Result<bool, String> {
    let v = ipmb::version();
    unsafe {
        for m in 0..8 {
            let mut o = [99u8; 3];
            let p = o.as_mut_ptr();
            let q = |i: usize| if m >> i & 1 == 1 { p.add(i) } else { ptr::null_mut() };
            ipmb_version(q(0), q(1), q(2));
            for (i, w) in [v.major(), v.minor(), v.patch()].into_iter().enumerate() {
                check!(o[i] == if m >> i & 1 == 1 { w } else { 99 }, "version component {i}");
            }
        }
        let s = ipmb_version_pre();
        let (mut p, mut n) = (ptr::null(), 0usize);
        ipmb_rstring_data(&s, &mut p, &mut n);
        let t = std::slice::from_raw_parts(p as *const u8, n).to_vec();
        check!(t == ipmb::version_pre().as_bytes(), "prerelease text");
        ipmb_rstring_drop(s);
    }
    Ok(true)
}
/// everything handed over is released once: descriptors before and after
fn handles(r: &mut Rng) -> Result<bool, String> {
    let id = uid();
    let (_tx, _rx) = controller(&id, &["ctl"])?;
    let warm = cjoin(&id, &["w"], "tok", false, 5000).map_err(|e| format!("{e}"))?;
    drop(warm);
    let (tx, mut rx) = client(&id, &["probe"])?;
    bus::sync(&tx, "probe", &mut rx)?;
    std::thread::sleep(Duration::from_millis(30));
    let before = sys::open_fds().len();
    let _ = sys::BAD_CLOSE.swap(0, SeqCst);
    for _ in 0..20 {
        let (mut s, mut rc) = cjoin(&id, &["a"], "tok", false, 5000).map_err(|e| format!("{e}"))?;
        unsafe {
            let o = leaf("a");
            let mut m = ipmb_message(selector(&o, false, 0), 1, b"abc".as_ptr(), 3);
            for _ in 0..r.below(3) {
                ipmb_message_object_append(&mut m, memfd(b"x").into_raw() as u64);
            }
            for _ in 0..r.below(3) {
                ipmb_message_memory_region_append(&mut m, cregion(10).map_err(|e| format!("{e}"))?);
            }
            if r.below(4) == 0 {
                ipmb_message_drop(m);
            } else {
                check!(ipmb_send(&mut s, m) == 0, "send");
                let m = crecv(&mut rc, 5000).map_err(|e| format!("recv {e}"))?;
                drop(m);
            }
            check!(cjoin(&id, &["a"], "bad", false, 5000).is_err(), "wrong token");
            ipmb_sender_drop(s);
            ipmb_receiver_drop(rc);
        }
    }
    // the controller notices the closed connections
    let mut after = 0;
    for _ in 0..100 {
        tx.send(msg(LabelOp::True, true, Duration::ZERO, 3, b"")).map_err(|e| format!("{e:?}"))?;
        let _ = drain(&tx, "probe", &mut rx)?;
        after = sys::open_fds().len();
        if after <= before {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    check!(after <= before, "{before} descriptors were open before, {after} after everything was dropped");
    let bad = sys::BAD_CLOSE.load(SeqCst);
    check!(bad == 0, "{bad} handles were closed twice");
    let _: Option<BytesMessage> = None;
    Ok(true)
}
