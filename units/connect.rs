// C04, C05, C12, C17, C19: the two ways onto a bus, looking up its controller and becoming it.
use vstd::prelude::*;
use std::marker::PhantomData;
use std::sync::Arc;
verus! {

//@include prelude.inc
//@include time.inc
broadcast use {time_model::times, names::utf8_names};

pub type Bytes = [u8; 16];
#[verifier::external_body]
pub struct Label { x: u8 }
#[derive(Clone, Copy)]
/*@type file=ipmb/src/lib.rs item=Version
@*/
pub uninterp spec fn this_version() -> Version;
#[verifier::external_body]
pub fn version() -> (r: Version) ensures r == this_version() { unimplemented!() }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct EndpointID { x: u8 }
impl EndpointID {
    #[verifier::external_body]
    pub fn new() -> EndpointID { unimplemented!() }
}
#[verifier::external_body]
pub struct Encoding { x: u8 }
#[verifier::external_body]
pub struct Decoding { x: u8 }
/*@type file=ipmb/src/errors.rs item=Error
subst: bincode::error::EncodeError ==> Encoding
subst: bincode::error::DecodeError ==> Decoding
subst: std::io::Error ==> io::Error
@*/
#[verifier::external_body]
pub struct SmolStr { x: u8 }
/*@type file=ipmb/src/label.rs item=LabelOp
@*/
#[verifier::external_body]
pub struct Selector { x: u8 }
impl Selector {
    #[verifier::external_body]
    pub fn unicast(op: LabelOp) -> Selector { unimplemented!() }
}

// ---- descriptors: each number that was handed out has one owner
#[verifier::external_body]
pub struct Fd { x: u8 }
impl Fd {
    pub uninterp spec fn raw(&self) -> i32;
    #[verifier::external_body]
    pub fn as_raw(&self) -> (r: i32) ensures r == self.raw() { unimplemented!() }
    /// takes over a descriptor nobody owns
    #[verifier::external_body]
    pub fn from_raw(fd: i32, Tracked(tr): Tracked<&mut Kernel>) -> (r: Fd)
        requires old(tr)@.loose.contains(fd)
        ensures r.raw() == fd, final(tr)@ == (World { loose: old(tr)@.loose.remove(fd), ..old(tr)@ }) { unimplemented!() }
}
pub type Object = Fd;
/*@type file=ipmb/src/platform/linux/fd.rs item=Local
@*/
#[verifier::external_body]
pub struct Remote { x: u8 }
impl Remote {
    pub uninterp spec fn raw(&self) -> i32;
    #[verifier::external_body]
    pub fn new(fd: Fd) -> (r: Remote) ensures r.raw() == fd.raw() { unimplemented!() }
}
#[verifier::external_body]
pub struct MemoryRegion { x: u8 }

// ---- messages
pub mod message { use super::*;
/*@type file=ipmb/src/message.rs item=ConnectMessage
@*/
/*@type file=ipmb/src/message.rs item=ConnectMessageAck
@*/
impl ConnectMessageAck {
    /// what an answer says (C06, C14)
    #[verifier::external_body]
    pub fn decode(uuid: Bytes, data: PayloadData) -> (r: Result<ConnectMessageAck, Error>)
        ensures r == ack_of(uuid, data), r matches Err(e) ==> e is TypeUuidNotFound || e is Decode { unimplemented!() }
}
}
pub use message::*;
pub uninterp spec fn ack_of(uuid: Bytes, data: PayloadData) -> Result<ConnectMessageAck, Error>;
#[verifier::external_body]
pub struct PayloadData { x: u8 }
pub struct Tag { pub uuid: Bytes }
pub struct EncodedMessage { pub selector: Tag, pub payload_data: PayloadData, pub objects: Vec<Object> }
pub uninterp spec fn connect_of(m: EncodedMessage) -> ConnectMessage;
pub struct Message<T> { pub payload: T, pub objects: Vec<Object>, pub memory_regions: Vec<MemoryRegion> }
impl Message<ConnectMessage> {
    /// contract of `Message::new`, proved in the unit `endpoint`
    #[verifier::external_body]
    pub fn new(s: Selector, payload: ConnectMessage) -> (r: Self) ensures r.payload == payload, r.objects@.len() == 0, r.memory_regions@.len() == 0 { unimplemented!() }
    /// contract proved in the unit `frame`
    #[verifier::external_body]
    pub fn into_encoded(self) -> (r: EncodedMessage) ensures connect_of(r) == self.payload, r.objects@ == self.objects@ { unimplemented!() }
}
impl EncodedMessage {
    /// contract of `EncodedMessage::send`, proved in the unit `frame`
    #[verifier::external_body]
    pub fn send(&mut self, remote: &Remote, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<(), Error>)
        ensures *final(self) == *old(self), r matches Err(e) ==> e is Disconnect,
            final(tr)@ == (World { log: old(tr)@.log.push(Ev::Sent { fd: remote.raw(), asks: connect_of(*old(self)), objects: raws(old(self).objects@), ok: r is Ok }), ..old(tr)@ }) { unimplemented!() }
}
pub open spec fn raws(s: Seq<Object>) -> Seq<i32> { s.map_values(|f: Fd| f.raw()) }

// ---- the system
#[allow(inconsistent_fields)]
pub ghost enum Ev {
    Socket { fd: i32 },
    /// tried to connect; the name, and why it failed
    Connect { fd: i32, name: Seq<i8>, fail: Option<io::ErrorKind> },
    Pair { ok: bool, a: i32, b: i32 },
    Sent { fd: i32, asks: ConnectMessage, objects: Seq<i32>, ok: bool },
    /// waited for an answer
    Answer { hub: IoHub, ns: Option<int>, remote: Option<Remote>, r: Result<EncodedMessage, Error> },
    Bind { fd: i32, name: Seq<i8>, fail: Option<io::ErrorKind> },
    Listen { fd: i32, ok: bool },
}
pub ghost struct World {
    pub log: Seq<Ev>,
    /// open, and owned by nobody
    pub loose: Set<i32>,
    /// why the last call failed
    pub kind: io::ErrorKind,
}
#[verifier::external_body]
pub tracked struct Kernel { x: u8 }
impl Kernel { pub uninterp spec fn view(&self) -> World; }
pub mod io { use super::*;
    #[derive(Clone, Copy)]
    pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o }
    }
    impl PartialEq for ErrorKind {
        #[verifier::external_body]
        fn eq(&self, o: &ErrorKind) -> bool { unimplemented!() }
    }
    impl Eq for ErrorKind {}
    #[verifier::external_body]
    pub struct Error { x: u8 }
    impl Error {
        pub uninterp spec fn kind_spec(&self) -> ErrorKind;
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind_spec() { unimplemented!() }
        #[verifier::external_body]
        pub fn last_os_error(Tracked(tr): Tracked<&mut Kernel>) -> (r: Error) ensures r.kind_spec() == old(tr)@.kind, final(tr)@ == old(tr)@ { unimplemented!() }
    }
}
/// sizes of what is passed by address
pub trait Plain { spec fn bytes_n() -> int; }
impl Plain for i32 { open spec fn bytes_n() -> int { 4 } }
impl Plain for libc::sockaddr_un { open spec fn bytes_n() -> int { 110 } }
pub mod mem { use super::*;
    #[verifier::external_body]
    pub fn size_of_val<T: Plain>(x: &T) -> (r: usize) ensures r == T::bytes_n() { unimplemented!() }
}
/// what an address names: as many bytes of it as are passed
pub open spec fn named(a: libc::sockaddr_un, n: u32) -> Seq<i8> { a.sun_path@.subrange(0, n - 2) }
pub mod libc { use super::*;
    pub const AF_UNIX: i32 = 1;
    pub const SOCK_SEQPACKET: i32 = 5;
    pub const SOCK_CLOEXEC: i32 = 0x80000;
    pub const SOL_SOCKET: i32 = 1;
    pub const SO_SNDBUF: i32 = 7;
    pub const SO_RCVBUF: i32 = 8;
    pub const SHUT_RD: i32 = 0;
    pub const SHUT_WR: i32 = 1;
    #[allow(non_camel_case_types)]
    pub struct sockaddr_un { pub sun_family: u16, pub sun_path: [i8; 108] }
    /// keeps the borders of messages
    pub open spec fn packets(t: i32) -> bool { t == SOCK_SEQPACKET | SOCK_CLOEXEC || t == SOCK_SEQPACKET }
    #[verifier::external_body]
    pub fn socket(domain: i32, t: i32, protocol: i32, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        requires domain == AF_UNIX, packets(t), protocol == 0
        ensures r >= -1, !old(tr)@.loose.contains(r),
            final(tr)@ == (World { log: old(tr)@.log.push(Ev::Socket { fd: r }), loose: if r == -1 { old(tr)@.loose } else { old(tr)@.loose.insert(r) }, kind: final(tr)@.kind }) { unimplemented!() }
    #[verifier::external_body]
    pub fn connect(fd: i32, a: &sockaddr_un, n: u32, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        requires 2 <= n <= 110, a.sun_family == AF_UNIX
        ensures -1 <= r <= 0, final(tr)@ == (World { log: old(tr)@.log.push(Ev::Connect { fd, name: named(*a, n), fail: if r == 0 { None } else { Some(final(tr)@.kind) } }), kind: final(tr)@.kind, ..old(tr)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn bind(fd: i32, a: &sockaddr_un, n: u32, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        requires 2 <= n <= 110, a.sun_family == AF_UNIX
        ensures -1 <= r <= 0, final(tr)@ == (World { log: old(tr)@.log.push(Ev::Bind { fd, name: named(*a, n), fail: if r == 0 { None } else { Some(final(tr)@.kind) } }), kind: final(tr)@.kind, ..old(tr)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn listen(fd: i32, n: i32, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        requires n > 0
        ensures -1 <= r <= 0, final(tr)@ == (World { log: old(tr)@.log.push(Ev::Listen { fd, ok: r == 0 }), kind: final(tr)@.kind, ..old(tr)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn socketpair(domain: i32, t: i32, protocol: i32, p: &mut [i32; 2], Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        requires domain == AF_UNIX, packets(t), protocol == 0
        ensures -1 <= r <= 0, r == 0 ==> final(p)[0] != final(p)[1] && !old(tr)@.loose.contains(final(p)[0]) && !old(tr)@.loose.contains(final(p)[1]),
            final(tr)@ == (World { log: old(tr)@.log.push(Ev::Pair { ok: r == 0, a: final(p)[0], b: final(p)[1] }), loose: if r == 0 { old(tr)@.loose.insert(final(p)[0]).insert(final(p)[1]) } else { old(tr)@.loose }, kind: final(tr)@.kind }) { unimplemented!() }
    #[verifier::external_body]
    pub fn setsockopt(fd: i32, level: i32, name: i32, v: &i32, n: u32) -> (r: i32) { unimplemented!() }
    #[verifier::external_body]
    pub fn shutdown(fd: i32, how: i32) -> (r: i32) { unimplemented!() }
    /// copies up to the NUL, and fills the rest of the `n` bytes with zeros
    #[verifier::external_body]
    pub fn strncpy(dst: &mut [i8], src: CPtr, n: usize)
        requires n <= old(dst)@.len()
        ensures final(dst)@ == padded(src.bytes(), n as int) + old(dst)@.skip(n as int) { unimplemented!() }
}
pub open spec fn padded(b: Seq<u8>, n: int) -> Seq<i8> { Seq::new(n as nat, |i: int| if i < b.len() { b[i] as i8 } else { 0 }) }
pub struct CPtr { x: u8 }
impl CPtr { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
/// `a[from..]`
pub trait Tail { fn tail(&mut self, from: usize) -> (r: &mut [i8]); }
pub open spec fn tail_of(old_: Seq<i8>, final_: Seq<i8>, r: Seq<i8>, r_final: Seq<i8>, from: int) -> bool {
    r == old_.skip(from) && (r_final.len() == r.len() ==> final_ == old_.take(from) + r_final)
}
#[verifier::external_body]
pub fn array_tail(a: &mut [i8; 108], from: usize) -> (r: &mut [i8])
    requires from <= 108
    ensures tail_of(old(a)@, final(a)@, r@, final(r)@, from as int) { unimplemented!() }
pub mod ffi { use super::*;
    #[verifier::external_body]
    pub struct CString { x: u8 }
    #[derive(Debug)]
    pub struct NulError;
    impl CString {
        pub uninterp spec fn bytes(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn new(s: &str) -> (r: Result<CString, NulError>) ensures r is Ok == !has_nul(utf8(s@)), r matches Ok(c) ==> c.bytes() == utf8(s@) { unimplemented!() }
        #[verifier::external_body]
        pub fn as_ptr(&self) -> (r: CPtr) ensures r.bytes() == self.bytes() { unimplemented!() }
    }
}

// ---- names (C17)
pub mod names { use super::*;
/// the bytes of a string
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub broadcast axiom fn utf8_injective(a: Seq<char>, b: Seq<char>) ensures #[trigger] utf8(a) == #[trigger] utf8(b) ==> a == b;
pub broadcast group utf8_names { utf8_injective }
}
pub use names::*;
pub open spec fn has_nul(b: Seq<u8>) -> bool { exists|i: int| 0 <= i < b.len() && #[trigger] b[i] == 0 }
/// the abstract name of a bus
pub open spec fn bus_name(identifier: Seq<char>) -> Seq<i8> { seq![0i8] + padded(utf8(identifier), 106) + seq![0i8] }
/// identifiers that are different name different buses (longer ones, and ones with a NUL, are in known_findings.txt)
pub proof fn lemma_names(a: Seq<char>, b: Seq<char>)
    requires bus_name(a) == bus_name(b), utf8(a).len() <= 106, utf8(b).len() <= 106, !has_nul(utf8(a)), !has_nul(utf8(b))
    ensures a == b
{
    let x = utf8(a); let y = utf8(b);
    assert forall|i: int| 0 <= i < 106 implies padded(x, 106)[i] == padded(y, 106)[i] by {
        assert(bus_name(a)[i + 1] == padded(x, 106)[i]);
        assert(bus_name(b)[i + 1] == padded(y, 106)[i]);
    }
    if x.len() < y.len() {
        let k = x.len() as int;
        assert(padded(x, 106)[k] == 0); assert(padded(y, 106)[k] == y[k] as i8);
        let c = y[k]; assert((c as i8) == 0i8 ==> c == 0) by (bit_vector);
    } else if y.len() < x.len() {
        let k = y.len() as int;
        assert(padded(y, 106)[k] == 0); assert(padded(x, 106)[k] == x[k] as i8);
        let c = x[k]; assert((c as i8) == 0i8 ==> c == 0) by (bit_vector);
    }
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(padded(x, 106)[i] == x[i] as i8); assert(padded(y, 106)[i] == y[i] as i8); let v = x[i]; let w = y[i]; assert((v as i8) == (w as i8) ==> v == w) by (bit_vector); }
    assert(x =~= y);
}
/*@fn file=ipmb/src/platform/linux.rs item=identifier_to_socket_addr
sig: fn identifier_to_socket_addr(identifier: &str) -> (r: libc::sockaddr_un)
spec:
    requires !has_nul(utf8(identifier@)),
    ensures r.sun_family == libc::AF_UNIX, r.sun_path@ =~= bus_name(identifier@),
mode tail: array
subst opt: identifier.as_ptr() as _ ==> identifier.as_ptr()
subst opt: addr.sun_path.len() ==> 108
@*/

// ---- waiting (unit `io`)
#[verifier::external_body]
pub struct IoMultiplexing { x: u8 }
#[verifier::external_body]
pub struct IoHub { x: u8 }
impl IoHub {
    pub uninterp spec fn im(&self) -> Arc<IoMultiplexing>;
    /// the connections it reads
    pub uninterp spec fn reads(&self) -> Seq<i32>;
    pub uninterp spec fn listens(&self) -> Option<i32>;
    pub uninterp spec fn queue(&self) -> Option<int>;
    #[verifier::external_body]
    pub fn for_endpoint(local: Local, im: Arc<IoMultiplexing>) -> (r: IoHub)
        ensures r.im() == im, r.reads() == seq![local.0.raw()], r.listens() is None, r.queue() is None { unimplemented!() }
    #[verifier::external_body]
    pub fn for_bus_controller(listener: Fd, rx: mpsc::Receiver<EncodedMessage>, im: Arc<IoMultiplexing>) -> (r: IoHub)
        ensures r.im() == im, r.reads().len() == 0, r.listens() == Some(listener.raw()), r.queue() == Some(rx.queue()) { unimplemented!() }
    #[verifier::external_body]
    pub fn recv(&mut self, timeout: Option<Duration>, remote: Option<&Remote>, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<EncodedMessage, Error>)
        ensures final(self).im() == old(self).im(), final(self).reads() == old(self).reads(), final(self).listens() == old(self).listens(), final(self).queue() == old(self).queue(),
            final(tr)@ == (World { log: old(tr)@.log.push(Ev::Answer { hub: *old(self), ns: match timeout { Some(d) => Some(d.ns()), None => None }, remote: match remote { Some(x) => Some(*x), None => None }, r }), ..old(tr)@ }) { unimplemented!() }
}
pub mod mpsc { use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { x: PhantomData<T> }
    impl<T> Sender<T> { pub uninterp spec fn queue(&self) -> int; }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { x: PhantomData<T> }
    impl<T> Receiver<T> { pub uninterp spec fn queue(&self) -> int; }
    #[verifier::external_body]
    pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.queue() == r.1.queue() { unimplemented!() }
}
/*@type file=ipmb/src/platform/linux.rs item=MAXIMUM_BUF_SIZE
@*/

// ---- looking up
/// the bus asked for, with this version, this token and this label, and one end of a connection to answer to
pub open spec fn asked(s: Seq<Ev>, identifier: Seq<char>, label: Label, token: String) -> bool {
    &&& s.len() > 0 && s[0] is Socket
    &&& s.len() > 1 ==> s[1] is Connect && s[1]->Connect_fd == s[0]->Socket_fd && s[1]->Connect_name =~= bus_name(identifier)
    &&& s.len() > 2 ==> s[1]->Connect_fail is None && s[2] is Pair
    &&& s.len() > 3 ==> s[2]->Pair_ok && s[3] is Sent && s[3]->Sent_fd == s[0]->Socket_fd && s[3]->asks == (ConnectMessage { version: this_version(), token, label })
            && s[3]->objects =~= seq![s[2]->b]
    &&& s.len() > 4 ==> s[3]->Sent_ok && s[4] is Answer && s[4]->hub.reads() =~= seq![s[2]->a]
            // not for ever
            && (s[4]->ns matches Some(n) && n <= 10_000_000_000) && (s[4]->Answer_remote matches Some(x) && x.raw() == s[0]->Socket_fd)
    &&& s.len() <= 5
}
pub open spec fn answer(r: Result<(IoHub, Remote, EndpointID), Error>, s: Seq<Ev>, m: EncodedMessage) -> bool {
    match ack_of(m.selector.uuid, m.payload_data) {
        Ok(ConnectMessageAck::Ok(id)) => r matches Ok(x) && x.2 == id && x.1.raw() == s[0]->Socket_fd && x.0.reads() =~= seq![s[2]->a],
        Ok(ConnectMessageAck::ErrVersion(v)) => r matches Err(e) && e matches Error::VersionMismatch(u, _) && u == v,
        Ok(ConnectMessageAck::ErrToken) => r matches Err(e) && e is TokenMismatch,
        Err(x) => r matches Err(e) && e == x,
    }
}
/// what the last thing that happened means
pub open spec fn looked(r: Result<(IoHub, Remote, EndpointID), Error>, s: Seq<Ev>) -> bool {
    match s.last() {
        Ev::Socket { fd } => fd == -1 && (r matches Err(e) && e is IoError),
        Ev::Connect { fail, .. } => (fail matches Some(k)) && (r matches Err(e)) && match fail->Some_0 {
            io::ErrorKind::ConnectionRefused | io::ErrorKind::NotFound => r->Err_0 is IdentifierNotInUse,
            io::ErrorKind::PermissionDenied => r->Err_0 is PermissionDenied,
            _ => r->Err_0 is IoError,
        },
        Ev::Pair { ok, .. } => !ok && (r matches Err(e) && e is IoError),
        Ev::Sent { ok, .. } => !ok && (r matches Err(e) && e is Disconnect),
        Ev::Answer { r: Err(x), .. } => r matches Err(e) && e == x,
        Ev::Answer { r: Ok(m), .. } => answer(r, s, m),
        _ => false,
    }
}
/*@fn file=ipmb/src/platform/linux.rs item=look_up
sig: pub fn look_up(identifier: &str, label: Label, token: String, im: Arc<IoMultiplexing>, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<(IoHub, Remote, EndpointID), Error>)
spec:
    requires old(tr)@.log.len() == 0, !has_nul(utf8(identifier@)),
    ensures
        asked(final(tr)@.log, identifier@, label, token), looked(r, final(tr)@.log), r matches Ok(x) ==> x.0.im() == im,
        // every descriptor has an owner, which releases it
        final(tr)@.loose =~= old(tr)@.loose,
subst opt: pair.as_mut_ptr() ==> &mut pair
ghost socket: Tracked(tr)
ghost from_raw: Tracked(tr)
ghost connect: Tracked(tr)
ghost last_os_error: Tracked(tr)
ghost socketpair: Tracked(tr)
ghost send: Tracked(tr)
ghost recv: Tracked(tr)
@*/
// ---- becoming the controller
pub open spec fn registered(s: Seq<Ev>, identifier: Seq<char>, im: Arc<IoMultiplexing>, r: Result<(IoHub, mpsc::Sender<EncodedMessage>, EndpointID), Error>) -> bool {
    &&& s.len() > 0 && s[0] is Socket
    &&& s.len() > 1 ==> s[1] is Bind && s[1]->Bind_fd == s[0]->Socket_fd && s[1]->Bind_name =~= bus_name(identifier)
    &&& s.len() > 2 ==> s[1]->Bind_fail is None && s[2] is Listen && s[2]->Listen_fd == s[0]->Socket_fd
    &&& s.len() <= 3
    &&& match s.last() {
        Ev::Socket { fd } => fd == -1 && (r matches Err(e) && e is IoError),
        Ev::Bind { fail, .. } => (fail matches Some(k)) && (r matches Err(e)) && match fail->Some_0 {
            io::ErrorKind::AddrInUse => r->Err_0 is IdentifierInUse,
            io::ErrorKind::PermissionDenied => r->Err_0 is PermissionDenied,
            _ => r->Err_0 is IoError,
        },
        // listening: what it accepts, and what is sent here, is read by the hub
        Ev::Listen { ok: true, fd } => r matches Ok(x) && x.0.im() == im && x.0.listens() == Some(fd) && x.0.queue() == Some(x.1.queue()),
        Ev::Listen { ok: false, .. } => r matches Err(e) && e is IoError,
        _ => false,
    }
}
/*@fn file=ipmb/src/platform/linux.rs item=register
sig: pub fn register(identifier: &str, im: Arc<IoMultiplexing>, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<(IoHub, mpsc::Sender<EncodedMessage>, EndpointID), Error>)
spec:
    requires old(tr)@.log.len() == 0, !has_nul(utf8(identifier@)),
    ensures registered(final(tr)@.log, identifier@, im, r), final(tr)@.loose =~= old(tr)@.loose,
ghost socket: Tracked(tr)
ghost from_raw: Tracked(tr)
ghost bind: Tracked(tr)
ghost listen: Tracked(tr)
ghost last_os_error: Tracked(tr)
@*/
fn main() {}
} // verus!
