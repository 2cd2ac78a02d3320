//! Driving real buses: endpoints through the public API, and raw peers speaking captured frames.
use crate::sys::{self, Plan, WaitStep};
use ipmb::{BytesMessage, EndpointReceiver, EndpointSender, Label, LabelOp, Message, Options, Selector};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Duration;

pub type Tx = EndpointSender<BytesMessage>;
pub type Rx = EndpointReceiver<BytesMessage>;

static N: AtomicU64 = AtomicU64::new(0);
pub fn uid() -> String {
    format!("rac-{}-{}", std::process::id(), N.fetch_add(1, SeqCst))
}
pub fn label(l: &[&str]) -> Label {
    let mut r = Label::default();
    for s in l {
        r.insert(s);
    }
    r
}
pub fn opts(id: &str, l: &[&str], token: &str) -> Options {
    Options::new(id, label(l), token)
}
pub fn client_opts(id: &str, l: &[&str], token: &str) -> Options {
    let mut o = opts(id, l, token);
    o.controller_affinity = false;
    o
}
pub fn controller(id: &str, l: &[&str]) -> Result<(Tx, Rx), String> {
    ipmb::join(opts(id, l, "tok"), Some(Duration::from_secs(20))).map_err(|e| format!("controller join: {e:?}"))
}
pub fn client(id: &str, l: &[&str]) -> Result<(Tx, Rx), String> {
    ipmb::join(client_opts(id, l, "tok"), Some(Duration::from_secs(20))).map_err(|e| format!("client join: {e:?}"))
}
pub fn bytes(tag: u16, data: &[u8]) -> BytesMessage {
    BytesMessage { format: tag, data: data.to_vec() }
}
pub fn msg(op: LabelOp, multicast: bool, ttl: Duration, tag: u16, data: &[u8]) -> Message<BytesMessage> {
    let mut s = if multicast { Selector::multicast(op) } else { Selector::unicast(op) };
    s.ttl = ttl;
    Message::new(s, bytes(tag, data))
}
pub const SENTINEL: u16 = 0xFFFF;
static SENT: AtomicU64 = AtomicU64::new(1);

/// Everything the receiver gets up to a sentinel sent now from `tx` to the label `me` of that receiver.
pub fn drain(tx: &Tx, me: &str, rx: &mut Rx) -> Result<Vec<Message<BytesMessage>>, String> {
    let n = SENT.fetch_add(1, SeqCst).to_le_bytes();
    tx.send(msg(LabelOp::from(me), false, Duration::ZERO, SENTINEL, &n)).map_err(|e| format!("sentinel: {e:?}"))?;
    let mut v = vec![];
    loop {
        match rx.recv(Some(Duration::from_secs(3))) {
            Ok(m) if m.payload.format == SENTINEL => {
                if m.payload.data == n {
                    return Ok(v);
                }
            }
            Ok(m) => v.push(m),
            Err(e) => return Err(format!("a live endpoint ({me}) does not get messages any more: {e:?}")),
        }
    }
}

/// Everything each receiver gets up to a sentinel sent now from `tx` to all of them by the expression.
pub fn drain_each(tx: &Tx, op: LabelOp, rxs: &mut [&mut Rx]) -> Result<Vec<Vec<Message<BytesMessage>>>, String> {
    let n = SENT.fetch_add(1, SeqCst).to_le_bytes();
    tx.send(msg(op, true, Duration::ZERO, SENTINEL, &n)).map_err(|e| format!("sentinel: {e:?}"))?;
    let mut r = vec![];
    for (i, rx) in rxs.iter_mut().enumerate() {
        let mut v = vec![];
        loop {
            match rx.recv(Some(Duration::from_secs(3))) {
                Ok(m) if m.payload.format == SENTINEL => {
                    if m.payload.data == n {
                        break;
                    }
                }
                Ok(m) => v.push(m),
                Err(e) => return Err(format!("live endpoint {i} does not get a message sent to all: {e:?}")),
            }
        }
        r.push(v);
    }
    Ok(r)
}

pub fn reset() {
    sys::freeze(false);
    sys::freeze_all(false);
    sys::WAITS.with(|w| w.borrow_mut().clear());
    sys::SLEPT.with(|w| w.borrow_mut().clear());
    sys::WAIT_SCRIPT.with(|w| w.borrow_mut().clear());
    sys::CONNECT_PLAN.with(|w| w.borrow_mut().clear());
    sys::BIND_PLAN.with(|w| w.borrow_mut().clear());
    sys::SEND_PLAN.with(|w| w.borrow_mut().clear());
    sys::ADDRS.with(|w| w.borrow_mut().clear());
    sys::CONNECTS.with(|w| w.set(0));
    sys::BINDS.with(|w| w.set(0));
    sys::CONNECT_HOOK.with(|w| *w.borrow_mut() = None);
    *sys::SEND_FAIL_FD.lock().unwrap() = None;
}

/// The socket address the library uses for an identifier.
pub fn addr_of(id: &str) -> Vec<u8> {
    reset();
    sys::CONNECT_PLAN.with(|p| p.borrow_mut().extend((0..8).map(|_| Plan::Errno(libc::ECONNREFUSED))));
    sys::freeze(true);
    let _ = ipmb::join::<BytesMessage, BytesMessage>(client_opts(id, &[], ""), Some(Duration::from_millis(1)));
    let a = sys::ADDRS.with(|a| a.borrow()[0].clone());
    reset();
    a
}

pub struct Frame {
    pub data: Vec<u8>,
    pub fds: Vec<i32>,
}

pub fn recv_frame(fd: i32, nonblock: bool) -> Result<Frame, i32> {
    unsafe {
        let mut data = vec![0u8; 1 << 18];
        let mut ctl = [0u64; 256];
        let mut iov = libc::iovec { iov_base: data.as_mut_ptr() as _, iov_len: data.len() };
        let mut h: libc::msghdr = std::mem::zeroed();
        h.msg_iov = &mut iov;
        h.msg_iovlen = 1;
        h.msg_control = ctl.as_mut_ptr() as _;
        h.msg_controllen = std::mem::size_of_val(&ctl) as _;
        let n = libc::recvmsg(fd, &mut h, if nonblock { libc::MSG_DONTWAIT } else { 0 } | libc::MSG_CMSG_CLOEXEC);
        if n < 0 {
            return Err(*libc::__errno_location());
        }
        data.truncate(n as usize);
        let mut fds = vec![];
        if h.msg_controllen > 0 {
            let c = ctl.as_ptr() as *const libc::cmsghdr;
            let cnt = ((*c).cmsg_len as usize - 16) / 4;
            let p = libc::CMSG_DATA(c) as *const i32;
            for i in 0..cnt {
                fds.push(*p.add(i));
            }
        }
        Ok(Frame { data, fds })
    }
}

pub fn send_frame(fd: i32, data: &[u8], fds: &[i32]) -> Result<(), i32> {
    unsafe {
        let mut ctl = [0u64; 256];
        let mut iov = libc::iovec { iov_base: data.as_ptr() as *mut _, iov_len: data.len() };
        let mut h: libc::msghdr = std::mem::zeroed();
        h.msg_iov = &mut iov;
        h.msg_iovlen = 1;
        if !fds.is_empty() {
            h.msg_control = ctl.as_mut_ptr() as _;
            h.msg_controllen = libc::CMSG_SPACE((fds.len() * 4) as u32) as _;
            let c = ctl.as_mut_ptr() as *mut libc::cmsghdr;
            (*c).cmsg_len = libc::CMSG_LEN((fds.len() * 4) as u32) as _;
            (*c).cmsg_level = libc::SOL_SOCKET;
            (*c).cmsg_type = libc::SCM_RIGHTS;
            let p = libc::CMSG_DATA(c) as *mut i32;
            for (i, f) in fds.iter().enumerate() {
                *p.add(i) = *f;
            }
        }
        if libc::syscall(libc::SYS_sendmsg, fd as i64, &h, libc::MSG_NOSIGNAL as i64) == -1 {
            return Err(*libc::__errno_location());
        }
        Ok(())
    }
}

pub struct OwnFd(pub i32);
impl Drop for OwnFd {
    fn drop(&mut self) {
        unsafe { libc::syscall(libc::SYS_close, self.0 as i64) };
    }
}

pub fn listen_at(addr: &[u8]) -> OwnFd {
    unsafe {
        let fd = libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0);
        assert_eq!(libc::syscall(libc::SYS_bind, fd as i64, addr.as_ptr(), addr.len()), 0, "bind");
        libc::listen(fd, 32);
        OwnFd(fd)
    }
}
pub fn connect_to(addr: &[u8]) -> Result<OwnFd, i32> {
    unsafe {
        let fd = OwnFd(libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0));
        if libc::syscall(libc::SYS_connect, fd.0 as i64, addr.as_ptr(), addr.len()) == -1 {
            return Err(*libc::__errno_location());
        }
        Ok(fd)
    }
}
pub fn pair() -> (OwnFd, OwnFd) {
    let mut p = [0, 0];
    unsafe {
        libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr());
    }
    (OwnFd(p[0]), OwnFd(p[1]))
}

/// The frame a real endpoint sends to join, captured by standing in for the controller.
pub fn capture_join(id: &str, l: &[&str], token: &str) -> Vec<u8> {
    use std::{cell::RefCell, rc::Rc};
    reset();
    let listener: Rc<RefCell<Option<OwnFd>>> = Default::default();
    let got: Rc<RefCell<Option<Frame>>> = Default::default();
    let l2 = listener.clone();
    sys::CONNECT_HOOK.with(|h| {
        *h.borrow_mut() = Some(Box::new(move |a: &[u8]| {
            if l2.borrow().is_none() {
                *l2.borrow_mut() = Some(listen_at(a));
            }
        }))
    });
    let (l3, g3) = (listener.clone(), got.clone());
    sys::WAIT_SCRIPT.with(|s| {
        s.borrow_mut().push_back(WaitStep::Do(
            0,
            Box::new(move || unsafe {
                let c = OwnFd(libc::accept4(l3.borrow().as_ref().unwrap().0, std::ptr::null_mut(), std::ptr::null_mut(), libc::SOCK_CLOEXEC));
                let f = recv_frame(c.0, false).unwrap();
                for fd in &f.fds {
                    libc::syscall(libc::SYS_close, *fd as i64);
                }
                *g3.borrow_mut() = Some(f);
            }),
        ))
    });
    sys::freeze(true);
    let _ = ipmb::join::<BytesMessage, BytesMessage>(client_opts(id, l, token), Some(Duration::from_millis(1)));
    reset();
    let f = got.borrow_mut().take().expect("no join frame captured");
    f.data
}

/// A peer that joined a real bus with a captured frame and reads the raw frames routed to it.
pub struct Raw {
    pub conn: OwnFd,
    pub rd: OwnFd,
}
pub fn raw_join(addr: &[u8], frame: &[u8]) -> Result<(Raw, Option<Frame>), String> {
    let conn = connect_to(addr).map_err(|e| format!("raw connect errno {e}"))?;
    let (rd, wr) = pair();
    send_frame(conn.0, frame, &[wr.0]).map_err(|e| format!("raw join send errno {e}"))?;
    drop(wr);
    let ack = wait_frame(rd.0, 3000);
    Ok((Raw { conn, rd }, ack))
}
/// next frame within the time, None when the other side closed or nothing came
pub fn wait_frame(fd: i32, ms: i32) -> Option<Frame> {
    unsafe {
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        if libc::poll(&mut p, 1, ms) <= 0 {
            return None;
        }
    }
    match recv_frame(fd, true) {
        Ok(f) if !f.data.is_empty() => Some(f),
        _ => None,
    }
}
/// whether the other side closed the connection within the time
pub fn wait_closed(fd: i32, ms: i32) -> bool {
    let end = sys::real_ns() + ms as i64 * 1_000_000;
    loop {
        unsafe {
            let mut p = libc::pollfd { fd, events: libc::POLLIN | libc::POLLRDHUP, revents: 0 };
            libc::poll(&mut p, 1, ((end - sys::real_ns()) / 1_000_000).max(0) as i32);
            if p.revents & (libc::POLLHUP | libc::POLLERR | libc::POLLRDHUP) != 0 {
                return true;
            }
            if p.revents & libc::POLLIN != 0 {
                match recv_frame(fd, true) {
                    Ok(f) if f.data.is_empty() => return true,
                    Ok(f) => f.fds.iter().for_each(|f| {
                        libc::syscall(libc::SYS_close, *f as i64);
                    }),
                    Err(_) => {}
                }
            }
        }
        if sys::real_ns() >= end {
            return false;
        }
    }
}
pub fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}

pub fn varint(n: u64) -> Vec<u8> {
    match n {
        0..=250 => vec![n as u8],
        251..=0xFFFF => [vec![251], (n as u16).to_le_bytes().to_vec()].concat(),
        0x10000..=0xFFFF_FFFF => [vec![252], (n as u32).to_le_bytes().to_vec()].concat(),
        _ => [vec![253], n.to_le_bytes().to_vec()].concat(),
    }
}
/// header version, selector, payload
pub fn unframe(d: &[u8]) -> Option<([u8; 4], Vec<u8>, Vec<u8>)> {
    let u = |o: usize| d.get(o..o + 4).map(|b| u32::from_ne_bytes(b.try_into().unwrap()) as usize);
    let s = u(4)?;
    let sel = d.get(8..8 + s)?.to_vec();
    let o = 8 + s.div_ceil(4) * 4;
    let p = u(o)?;
    let pay = d.get(o + 4..o + 4 + p)?.to_vec();
    Some((d[..4].try_into().unwrap(), sel, pay))
}
pub fn frame(h: [u8; 4], sel: &[u8], pay: &[u8]) -> Vec<u8> {
    let mut v = h.to_vec();
    v.extend((sel.len() as u32).to_ne_bytes());
    v.extend(sel);
    while v.len() % 4 != 0 {
        v.push(0);
    }
    v.extend((pay.len() as u32).to_ne_bytes());
    v.extend(pay);
    while v.len() % 4 != 0 {
        v.push(0);
    }
    v
}
pub fn join_payload(ver: [u8; 3], token: &str, labels: &[&str]) -> Vec<u8> {
    let mut p = ver.to_vec();
    p.extend(varint(token.len() as u64));
    p.extend(token.as_bytes());
    p.extend(varint(labels.len() as u64));
    for l in labels {
        p.extend(varint(l.len() as u64));
        p.extend(l.as_bytes());
    }
    p
}
pub fn own_version() -> [u8; 3] {
    let v = ipmb::version();
    [v.major(), v.minor(), v.patch()]
}
pub fn header() -> [u8; 4] {
    let v = own_version();
    [0xFF, v[0], v[1], v[2]]
}
pub fn compatible(a: [u8; 3], b: [u8; 3]) -> bool {
    a[0] == b[0] && (a[0] != 0 || a[1] == b[1])
}
/// the selector of join frames, as a real endpoint encodes it
pub fn join_selector() -> Vec<u8> {
    static S: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    S.get_or_init(|| unframe(&capture_join(&uid(), &["x"], "t")).unwrap().1).clone()
}
#[derive(Debug, PartialEq, Clone)]
pub enum Ack {
    Ok,
    ErrVersion([u8; 3]),
    ErrToken,
    None,
    Other(Vec<u8>),
}
pub fn ack_of(f: &Option<Frame>) -> Ack {
    let Some(f) = f else { return Ack::None };
    match unframe(&f.data) {
        Some((_, _, p)) => match (p.first(), p.len()) {
            (Some(0), 17) => Ack::Ok,
            (Some(1), 4) => Ack::ErrVersion([p[1], p[2], p[3]]),
            (Some(2), 1) => Ack::ErrToken,
            _ => Ack::Other(p),
        },
        None => Ack::Other(f.data.clone()),
    }
}
pub fn close_fds(f: &Frame) {
    for fd in &f.fds {
        unsafe { libc::syscall(libc::SYS_close, *fd as i64) };
    }
}
/// the controller has handled everything sent to it so far
pub fn sync(tx: &Tx, me: &str, rx: &mut Rx) -> Result<(), String> {
    drain(tx, me, rx).map(|_| ())
}
/// message ids (format) of drained messages
pub fn ids(m: &[Message<BytesMessage>]) -> Vec<u16> {
    m.iter().map(|m| m.payload.format).collect()
}

/// Helper processes (used where a controller has to die).
pub fn child(args: &[String]) {
    match args[0].as_str() {
        "child-controller" => {
            let l: Vec<&str> = args[2..].iter().map(|s| s.as_str()).collect();
            let (_tx, mut rx) = controller(&args[1], &l).unwrap();
            println!("ready");
            loop {
                let _ = rx.recv(None);
            }
        }
        "child-nesting" => crate::c07::child_nesting(&args[1]),
        a => panic!("{a}"),
    }
}
