// C07, C13, C18: waiting for frames. What an endpoint waits for, for how long, and what it takes.
use vstd::prelude::*;
use std::mem;
use std::sync::Arc;
verus! {

//@include prelude.inc
//@include time.inc
broadcast use {time_model::times, lists::raws_push, lists::skip_push, lists::add_push};
global size_of usize == 8;

/// what was taken, and what it was
pub ghost enum Ev {
    /// from the queue of the controller
    Queue(EncodedMessage),
    /// from a connection
    Read(i32, Result<EncodedMessage, Error>),
}
/// waited, at a time, for at most so many milliseconds (negative: forever); so many events
pub ghost struct Wait { pub at: int, pub ms: int, pub n: int }
pub ghost struct World {
    pub taken: Seq<Ev>,
    pub waits: Seq<Wait>,
    /// connections accepted
    pub opened: Seq<i32>,
    /// open descriptors that nothing owns yet
    pub loose: Set<i32>,
    pub now: int,
    /// reading these would not block
    pub ready: Set<i32>,
    /// what an instance watches, and the value it reports for it
    pub watched: Set<(i32, i32, u64)>,
    /// nothing was put into the queue since it was looked at without the waker telling
    pub looked: bool,
    /// there is somebody who may put something into the queue
    pub queue: bool,
    /// the last thing reported
    pub reported: Seq<libc::epoll_event>,
    pub buffer: int,
}
#[verifier::external_body]
pub tracked struct Kernel { x: u8 }
impl Kernel { pub uninterp spec fn view(&self) -> World; }
/// nothing of this call but the passing of time
pub open spec fn later(a: World, b: World) -> bool { b == (World { now: b.now, ..a }) && b.now >= a.now }

impl Fd {
    #[verifier::external_body]
    pub fn as_raw(&self) -> (r: i32) ensures r == self.raw(), r >= 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw(fd: i32, Tracked(tr): Tracked<&mut Kernel>) -> (r: Fd)
        requires fd >= 0, old(tr)@.loose.contains(fd)
        ensures r.raw() == fd, final(tr)@ == (World { loose: old(tr)@.loose.remove(fd), ..old(tr)@ }) { unimplemented!() }
}

impl Instant {
    /// reading the clock takes no time
    #[verifier::external_body]
    pub fn now(Tracked(tr): Tracked<&mut Kernel>) -> (r: Instant)
        ensures r.ns() == old(tr)@.now, r.ns() + far() <= max_instant(), final(tr)@ == old(tr)@ { unimplemented!() }
}
//@include deadline.inc

pub mod ffi { #[allow(non_camel_case_types)] pub type c_int = i32; }
pub mod ptr { use super::*;
    pub struct Null;
    #[verifier::external_body]
    pub fn null_mut() -> Null { unimplemented!() }
}
pub mod libc {
    use super::*;
    #[allow(non_camel_case_types)]
    #[derive(Clone, Copy)]
    pub struct epoll_event { pub events: u32, pub u64: u64 }
    pub const EPOLLIN: i32 = 1;
    pub const EPOLLOUT: i32 = 4;
    pub const EPOLLHUP: i32 = 16;
    pub const EPOLL_CTL_ADD: i32 = 1;
    pub const SOL_SOCKET: i32 = 1;
    pub const SO_ERROR: i32 = 4;
    pub const SO_SNDBUF: i32 = 7;
    pub const SO_RCVBUF: i32 = 8;
    pub const POLLIN: i16 = 1;
    pub const POLLOUT: i16 = 4;
    pub const POLLERR: i16 = 8;
    pub const POLLHUP: i16 = 16;
    pub const POLLNVAL: i16 = 32;
    #[allow(non_camel_case_types)]
    pub struct pollfd { pub fd: i32, pub events: i16, pub revents: i16 }
    /// at most `max` events, each for something watched; level-triggered: what is reported is ready
    #[verifier::external_body]
    pub fn epoll_wait(ep: i32, p: EvPtr, max: i32, timeout: i32, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        requires
            max > 0, max <= p.cap(),
            // a message in the queue that the waker does not tell of any more was looked for
            old(tr)@.queue ==> old(tr)@.looked,
        ensures
            -1 <= r <= max, waited(old(tr)@, final(tr)@, ep, p.id(), timeout as int, r as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn epoll_ctl(ep: i32, op: i32, fd: i32, ev: &mut epoll_event, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        requires op == EPOLL_CTL_ADD, !watched_any(old(tr)@, ep, fd)
        ensures r == 0, final(tr)@ == (World { watched: if old(ev).events & 1 == 1 { old(tr)@.watched.insert((ep, fd, old(ev).u64)) } else { old(tr)@.watched }, ..old(tr)@ }) { unimplemented!() }
    /// blocks when there is nothing to accept; the new descriptor is not watched, and not one that is open
    #[verifier::external_body]
    pub fn accept(fd: i32, a: ptr::Null, b: ptr::Null, Ghost(live): Ghost<spec_fn(i32) -> bool>, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        requires old(tr)@.ready.contains(fd)
        ensures r >= -1, !live(r),
            r == -1 ==> final(tr)@ == (World { ready: old(tr)@.ready.remove(fd), ..old(tr)@ }),
            r != -1 ==> !old(tr)@.loose.contains(r) && final(tr)@ == (World { ready: old(tr)@.ready.remove(fd), watched: unwatched(old(tr)@, r), opened: old(tr)@.opened.push(r), loose: old(tr)@.loose.insert(r), ..old(tr)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn setsockopt(fd: i32, level: i32, name: i32, v: &i32, n: u32) -> (r: i32) { unimplemented!() }
    /// descriptors and memory suffice
    #[verifier::external_body]
    pub fn epoll_create1(flags: i32, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        ensures r >= 0, !old(tr)@.loose.contains(r), final(tr)@ == (World { watched: old(tr)@.watched.filter(|x: (i32, i32, u64)| x.0 != r && x.1 != r), loose: old(tr)@.loose.insert(r), ..old(tr)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn eventfd(n: u32, flags: i32, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        ensures r >= 0, !old(tr)@.loose.contains(r), final(tr)@ == (World { watched: old(tr)@.watched.filter(|x: (i32, i32, u64)| x.1 != r), loose: old(tr)@.loose.insert(r), ..old(tr)@ }) { unimplemented!() }
    /// adds to the number of an eventfd; zero tells nobody
    #[verifier::external_body]
    pub fn write(fd: i32, v: &u64, n: usize, Tracked(tr): Tracked<&mut Kernel>) -> (r: isize)
        requires n == 8, *v > 0, *v < 0xffff_ffff
        ensures r == 8, final(tr)@ == (World { ready: old(tr)@.ready.insert(fd), ..old(tr)@ }) { unimplemented!() }
    /// blocks when there is nothing to read
    #[verifier::external_body]
    pub fn read(fd: i32, v: &mut u64, n: usize, Tracked(tr): Tracked<&mut Kernel>) -> (r: isize)
        requires old(tr)@.ready.contains(fd), n == 8
        ensures final(tr)@ == (World { ready: old(tr)@.ready.remove(fd), looked: false, ..old(tr)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn getsockopt(fd: i32, level: i32, name: i32, v: &mut i32, n: &mut u32, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        requires level == SOL_SOCKET, name == SO_ERROR, *old(n) == 4
        ensures final(tr)@ == old(tr)@, -1 <= r <= 0, (r == -1) == no_socket(fd), r == 0 ==> *final(v) == pending_error(fd) { unimplemented!() }
    #[verifier::external_body]
    pub fn poll(p: &mut pollfd, n: u64, timeout: i32, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        // never blocks
        requires n == 1, timeout == 0
        ensures final(tr)@ == old(tr)@, -1 <= r <= 1, final(p).fd == old(p).fd,
            // what is wrong is reported without being asked for
            (r == 1 && final(p).revents & 56i16 != 0) == hung_up(old(p).fd) { unimplemented!() }
}
pub uninterp spec fn no_socket(fd: i32) -> bool;
pub uninterp spec fn pending_error(fd: i32) -> i32;
/// the other side has closed its end, or the connection failed
pub uninterp spec fn hung_up(fd: i32) -> bool;
pub open spec fn watched_any(w: World, ep: i32, fd: i32) -> bool { exists|d: u64| #[trigger] w.watched.contains((ep, fd, d)) }
pub open spec fn unwatched(w: World, fd: i32) -> Set<(i32, i32, u64)> { w.watched.filter(|x: (i32, i32, u64)| x.1 != fd) }
pub open spec fn waited(a: World, b: World, ep: i32, buffer: int, ms: int, r: int) -> bool {
    &&& b.waits == a.waits.push(Wait { at: a.now, ms, n: if r < 0 { 0 } else { r } }) && b.taken == a.taken && b.opened == a.opened && b.loose == a.loose
    &&& b.now >= a.now
    // woken up without an event only after the time, or by a signal (-1)
    &&& r == 0 ==> ms >= 0 && b.now >= a.now + ms * 1_000_000
    &&& b.watched == a.watched && b.looked == a.looked && b.queue == a.queue
    &&& b.buffer == buffer && b.reported.len() == if r < 0 { 0 } else { r }
    &&& forall|i: int| 0 <= i < b.reported.len() ==> exists|fd: i32| #[trigger] b.ready.contains(fd) && b.watched.contains((ep, fd, (#[trigger] b.reported[i]).u64))
    &&& forall|i: int, j: int| 0 <= i < j < b.reported.len() ==> (#[trigger] b.reported[i]).u64 != (#[trigger] b.reported[j]).u64
}
/// the buffer that events are reported in
#[verifier::external_body]
pub struct Events { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct EvPtr { x: u8 }
impl EvPtr { pub uninterp spec fn cap(&self) -> int; pub uninterp spec fn id(&self) -> int; }
impl Events {
    pub uninterp spec fn view(&self) -> Seq<libc::epoll_event>;
    pub uninterp spec fn cap(&self) -> int;
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Events) ensures r.cap() >= n, r.cap() <= 0x7fff_ffff, r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut_ptr(&mut self) -> (r: EvPtr) ensures r.cap() == old(self).cap(), r.id() == old(self).id(), *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r == self.cap() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@.len() == 0, final(self).cap() == old(self).cap() { unimplemented!() }
    /// only what the system wrote is initialised
    #[verifier::external_body]
    pub fn set_len(&mut self, n: usize, Tracked(tr): Tracked<&mut Kernel>)
        requires old(tr)@.buffer == old(self).id(), n <= old(tr)@.reported.len()
        ensures final(self)@ == old(tr)@.reported.subrange(0, n as int), final(self).cap() == old(self).cap(), final(tr)@ == old(tr)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
/// `drain`, whose elements are removed however the loop over them ends
#[verifier::external_body]
pub fn __drain_from(e: &mut Events, n: usize) -> (r: Vec<libc::epoll_event>)
    requires n == 0
    ensures r@ == old(e)@, final(e)@.len() == 0, final(e).cap() == old(e).cap() { unimplemented!() }

// ---- messages and their sources
#[verifier::external_body]
pub struct EncodedMessage { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Version { x: u8 }
#[verifier::external_body]
pub struct Encoding { x: u8 }
#[verifier::external_body]
pub struct Decoding { x: u8 }
#[verifier::external_body]
pub struct IoError { x: u8 }
/*@type file=ipmb/src/errors.rs item=Error
subst: bincode::error::EncodeError ==> Encoding
subst: bincode::error::DecodeError ==> Decoding
subst: std::io::Error ==> IoError
@*/
impl EncodedMessage {
    /// (unit `frame`) blocks unless something arrived; waiting is not its business
    #[verifier::external_body]
    pub fn from_local(local: &mut Local, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<EncodedMessage, Error>)
        requires old(tr)@.ready.contains(old(local).0.raw())
        ensures *final(local) == *old(local), !(r matches Err(e) && e is Timeout),
            final(tr)@ == (World { taken: old(tr)@.taken.push(Ev::Read(old(local).0.raw(), r)), ready: old(tr)@.ready.remove(old(local).0.raw()), ..old(tr)@ }) { unimplemented!() }
}
pub struct Remote { pub v: i32, pub fd: FdLock }
#[verifier::external_body]
pub struct FdLock { x: u8 }
impl Remote {
/*@fn file=ipmb/src/platform/linux/fd.rs item=Remote::is_dead
sig: pub fn is_dead(&self, Tracked(tr): Tracked<&mut Kernel>) -> (r: bool)
spec:
    ensures r == (no_socket(self.v) || pending_error(self.v) != 0 || hung_up(self.v)), final(tr)@ == old(tr)@
pre: proof { assert((16i16 | 8i16 | 32i16) == 56i16) by (bit_vector); }
subst opt: mem::size_of_val(&err) ==> 4u32
ghost getsockopt: Tracked(tr)
ghost poll: Tracked(tr)
@*/
}
pub mod mpsc { use super::*;
    pub enum TryRecvError { Empty, Disconnected }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { x: core::marker::PhantomData<T> }
    impl Receiver<EncodedMessage> {
        #[verifier::external_body]
        pub fn try_recv(&self, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<EncodedMessage, TryRecvError>)
            ensures match r {
                Ok(m) => final(tr)@ == (World { taken: old(tr)@.taken.push(Ev::Queue(m)), ..old(tr)@ }),
                Err(TryRecvError::Empty) => final(tr)@ == (World { looked: true, ..old(tr)@ }),
                Err(TryRecvError::Disconnected) => final(tr)@ == (World { queue: false, ..old(tr)@ }),
            } { unimplemented!() }
    }
}

// ---- waiting
/*@type file=ipmb/src/platform/linux/io_mul.rs item=IoMultiplexing
@*/
/// an upper bound on how long to wait: the time that is left, rounded up to milliseconds
pub open spec fn in_time(ms: int, left: Option<int>) -> bool {
    match left { None => ms < 0, Some(d) => ms >= 0 && (ms == 0 || (ms - 1) * 1_000_000 < d) }
}
impl IoMultiplexing {
/*@fn file=ipmb/src/platform/linux/io_mul.rs item=IoMultiplexing::register
sig: pub fn register(&self, fd: &Fd, Tracked(tr): Tracked<&mut Kernel>)
spec:
    requires !watched_any(old(tr)@, self.fd.raw(), fd.raw()),
    // it is watched, and told by its number
    ensures final(tr)@ == (World { watched: old(tr)@.watched.insert((self.fd.raw(), fd.raw(), fd.raw() as u64)), ..old(tr)@ }), fd.raw() >= 0,
pre: proof { assert(1u32 & 1 == 1) by (bit_vector); }
ghost epoll_ctl: Tracked(tr)
@*/
/*@fn file=ipmb/src/platform/linux/io_mul.rs item=IoMultiplexing::wait
sig: pub fn wait(&self, events: &mut Events, timeout: Option<Duration>, Tracked(tr): Tracked<&mut Kernel>)
spec:
    requires old(tr)@.queue ==> old(tr)@.looked, 0 < old(events).cap() <= 0x7fff_ffff,
    ensures
        final(events).cap() == old(events).cap(), final(events)@ == final(tr)@.reported,
        exists|ms: int, r: int| #[trigger] waited(old(tr)@, final(tr)@, self.fd.raw(), old(events).id(), ms, r)
            // not forever, and not longer than asked
            && in_time(ms, match timeout { Some(d) => Some(d.ns()), None => None }),
ghost epoll_wait: Tracked(tr)
ghost set_len: Tracked(tr)
@*/
/*@fn file=ipmb/src/platform/linux/io_mul.rs item=IoMultiplexing::new
sig: pub fn new(Tracked(tr): Tracked<&mut Kernel>) -> (r: IoMultiplexing)
spec:
    ensures
        // it watches its waker and nothing else
        watches(final(tr)@, r, r.waker_fd.raw()),
        forall|fd: i32, d: u64| #[trigger] final(tr)@.watched.contains((r.fd.raw(), fd, d)) ==> fd == r.waker_fd.raw() && d == fd as u64 && fd >= 0,
        final(tr)@ == (World { watched: final(tr)@.watched, loose: final(tr)@.loose, ..old(tr)@ }),
        // every descriptor it opened has an owner
        final(tr)@.loose =~= old(tr)@.loose,
ghost epoll_create1: Tracked(tr)
ghost eventfd: Tracked(tr)
ghost from_raw: Tracked(tr)
ghost register: Tracked(tr)
@*/
/*@fn file=ipmb/src/platform/linux/io_mul.rs item=IoMultiplexing::wake
sig: pub fn wake(&self, Tracked(tr): Tracked<&mut Kernel>)
spec:
    // whoever waits is told
    ensures final(tr)@ == (World { ready: old(tr)@.ready.insert(self.waker_fd.raw()), ..old(tr)@ }),
subst: mem::size_of_val(&u) ==> 8
ghost write: Tracked(tr)
@*/
/*@fn file=ipmb/src/platform/linux/io_mul.rs item=IoMultiplexing::clear_waker
sig: pub fn clear_waker(&self, Tracked(tr): Tracked<&mut Kernel>)
spec:
    requires old(tr)@.ready.contains(self.waker_fd.raw()),
    ensures final(tr)@ == (World { ready: old(tr)@.ready.remove(self.waker_fd.raw()), looked: false, ..old(tr)@ }),
subst: mem::size_of_val(&u) ==> 8
ghost read: Tracked(tr)
@*/
}

// ---- receiving
/*@type file=ipmb/src/platform/linux.rs item=MAXIMUM_BUF_SIZE
@*/
/*@type file=ipmb/src/platform/linux.rs item=IoHub
subst: Vec<libc::epoll_event> ==> Events
@*/
pub use lists::*;
pub mod lists { use super::*;
#[verifier::external_body]
pub struct Fd { x: u8 }
impl Fd { pub uninterp spec fn raw(&self) -> i32; }
/*@type file=ipmb/src/platform/linux/fd.rs item=Local
@*/
pub open spec fn raws(l: Seq<Local>) -> Seq<i32> { l.map_values(|x: Local| x.0.raw()) }
pub broadcast proof fn raws_push(l: Seq<Local>, x: Local)
    ensures #[trigger] raws(l.push(x)) == raws(l).push(x.0.raw())
{ assert(raws(l.push(x)) =~= raws(l).push(x.0.raw())); }
pub broadcast proof fn skip_push(l: Seq<i32>, x: i32, n: int)
    requires 0 <= n <= l.len()
    ensures #[trigger] l.push(x).skip(n) == l.skip(n).push(x)
{ assert(l.push(x).skip(n) =~= l.skip(n).push(x)); }
pub broadcast proof fn add_push(a: Seq<i32>, l: Seq<i32>, x: i32)
    ensures #[trigger] (a + l.push(x)) == (a + l).push(x)
{ assert(a + l.push(x) =~= (a + l).push(x)); }
}
pub open spec fn watches(w: World, im: IoMultiplexing, fd: i32) -> bool { w.watched.contains((im.fd.raw(), fd, fd as u64)) }
/// when to give up
pub open spec fn end_of(start: int, d: Duration) -> int { if start + d.ns() <= max_instant() { start + d.ns() } else { start + far() } }
pub open spec fn left(start: int, timeout: Option<Duration>, at: int) -> Option<int> {
    match timeout { None => None, Some(d) => Some(if end_of(start, d) >= at { end_of(start, d) - at } else { 0 }) }
}
/// no wait could end after the timeout
pub open spec fn waiting(a: World, b: World, timeout: Option<Duration>) -> bool {
    &&& b.waits.len() >= a.waits.len() && b.now >= a.now
    &&& forall|i: int| a.waits.len() <= i < b.waits.len() ==> in_time((#[trigger] b.waits[i]).ms, left(a.now, timeout, b.waits[i].at))
}
pub open spec fn read(fd: i32, r: Result<EncodedMessage, Error>) -> Ev { Ev::Read(fd, r) }
pub open spec fn recv_post(a: World, b: World, timeout: Option<Duration>, r: Result<EncodedMessage, Error>) -> bool {
    &&& waiting(a, b, timeout)
    &&& match r {
        // the one thing taken is what is returned
        Ok(m) => b.taken == a.taken.push(Ev::Queue(m)) || b.taken == a.taken.push(read(b.taken.last()->Read_0, r)),
        // not too early, never without a timeout, and with nothing there
        Err(Error::Timeout) => b.taken == a.taken && timeout is Some && b.now >= end_of(a.now, timeout->0) && b.waits.len() > a.waits.len() && b.waits.last().n == 0,
        Err(_) => b.taken == a.taken.push(read(b.taken.last()->Read_0, r)),
    }
}
/// the connections there were and those accepted, without the one that failed
pub open spec fn all(s: IoHub, n: int, opened: Seq<i32>) -> Seq<i32> { raws(s.local_list@) + opened.skip(n) }
pub open spec fn kept(s0: IoHub, s: IoHub, a: World, b: World, r: Result<EncodedMessage, Error>) -> bool {
    let c = all(s0, a.opened.len() as int, b.opened);
    if r matches Err(e) && !(e is Timeout) {
        exists|k: int| 0 <= k < c.len() && b.taken.last() == read(#[trigger] c[k], r) && (raws(s.local_list@) =~= c.remove(k) || raws(s.local_list@) =~= c.update(k, c.last()).drop_last())
    } else {
        raws(s.local_list@) =~= c
    }
}
/// what the hub holds open
pub open spec fn live(s: IoHub) -> spec_fn(i32) -> bool {
    (|fd: i32| fd == s.im.fd.raw() || fd == s.im.waker_fd.raw() || (s.listener matches Some(l) && l.raw() == fd) || exists|i: int| 0 <= i < s.local_list@.len() && (#[trigger] s.local_list@[i]).0.raw() == fd)
}
/// these can be served without blocking
pub open spec fn pending(d: Seq<libc::epoll_event>, w: World) -> bool {
    &&& forall|i: int| 0 <= i < d.len() ==> told(w, (#[trigger] d[i]).u64)
    &&& forall|i: int, j: int| 0 <= i < j < d.len() ==> (#[trigger] d[i]).u64 != (#[trigger] d[j]).u64
}
pub open spec fn told(w: World, d: u64) -> bool { w.ready.contains(d as i32) && d <= i32::MAX }
pub open spec fn inv(s: IoHub, s0: IoHub, b: World, a: World, timeout: Option<Duration>, end: Option<Instant>) -> bool {
    &&& s.wf(b) && s.im == s0.im && s.listener == s0.listener
    &&& (s.bus_rx is Some) == b.queue
    &&& waiting(a, b, timeout) && b.taken == a.taken
    &&& (end is Some) == (timeout is Some) && (end matches Some(e) ==> e.ns() == end_of(a.now, timeout->0))
    &&& b.loose =~= a.loose
    &&& b.opened.len() >= a.opened.len() && raws(s.local_list@) =~= all(s0, a.opened.len() as int, b.opened)
}
impl IoHub {
    /// every source of messages is watched
    pub open spec fn wf(self, w: World) -> bool {
        &&& 0 < self.in_buffer.cap() <= 0x7fff_ffff
        &&& (self.bus_rx is Some) == w.queue
        &&& watches(w, *self.im, self.im.waker_fd.raw())
        &&& self.listener matches Some(l) ==> watches(w, *self.im, l.raw())
        &&& forall|i: int| 0 <= i < self.local_list@.len() ==> watches(w, *self.im, (#[trigger] self.local_list@[i]).0.raw())
        // what is reported is known
        &&& forall|fd: i32, d: u64| #[trigger] w.watched.contains((self.im.fd.raw(), fd, d)) ==> d == fd as u64 && fd >= 0
    }
/*@fn file=ipmb/src/platform/linux.rs item=IoHub::for_endpoint
sig: pub fn for_endpoint(local: Local, im: Arc<IoMultiplexing>, Tracked(tr): Tracked<&mut Kernel>) -> (r: IoHub)
spec:
    requires !watched_any(old(tr)@, im.fd.raw(), local.0.raw()), watches(old(tr)@, *im, im.waker_fd.raw()), !old(tr)@.queue,
        forall|fd: i32, d: u64| #[trigger] old(tr)@.watched.contains((im.fd.raw(), fd, d)) ==> d == fd as u64 && fd >= 0,
    ensures r.wf(final(tr)@), r.bus_rx is None, r.listener is None, r.local_list@ == seq![local], r.im == im,
subst: Vec::with_capacity ==> Events::with_capacity
ghost register: Tracked(tr)
@*/
/*@fn file=ipmb/src/platform/linux.rs item=IoHub::for_bus_controller
sig: pub fn for_bus_controller(listener: Fd, bus_rx: mpsc::Receiver<EncodedMessage>, im: Arc<IoMultiplexing>, Tracked(tr): Tracked<&mut Kernel>) -> (r: IoHub)
spec:
    requires !watched_any(old(tr)@, im.fd.raw(), listener.raw()), watches(old(tr)@, *im, im.waker_fd.raw()), old(tr)@.queue,
        forall|fd: i32, d: u64| #[trigger] old(tr)@.watched.contains((im.fd.raw(), fd, d)) ==> d == fd as u64 && fd >= 0,
    ensures r.wf(final(tr)@), r.bus_rx == Some(bus_rx), r.listener == Some(listener), r.local_list@.len() == 0, r.im == im,
subst: Vec::with_capacity ==> Events::with_capacity
ghost register: Tracked(tr)
@*/
/*@fn file=ipmb/src/platform/linux.rs item=IoHub::io_multiplexing
sig: pub fn io_multiplexing(&self) -> (r: Arc<IoMultiplexing>)
spec:
    ensures r == self.im
@*/
/*@fn file=ipmb/src/platform/linux.rs item=IoHub::recv
sig: pub fn recv(&mut self, timeout: Option<Duration>, remote: Option<&Remote>, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<EncodedMessage, Error>)
spec:
    requires old(self).wf(old(tr)@),
    ensures
        final(self).wf(final(tr)@),
        final(self).im == old(self).im && final(self).listener == old(self).listener,
        recv_post(old(tr)@, final(tr)@, timeout, r),
        // every descriptor it opened has an owner
        final(tr)@.loose =~= old(tr)@.loose,
        // the connections are those there were and those accepted, without the one that failed
        kept(*old(self), *final(self), old(tr)@, final(tr)@, r),
loop loop0:
    invariant_except_break
        inv(*self, *old(self), tr@, old(tr)@, timeout, end),
    invariant
        true,
    ensures
        self.wf(tr@), self.im == old(self).im, self.listener == old(self).listener,
        recv_post(old(tr)@, tr@, timeout, __v_loop0), tr@.loose =~= old(tr)@.loose,
        kept(*old(self), *self, old(tr)@, tr@, __v_loop0),
loop for0:
    invariant
        inv(*self, *old(self), tr@, old(tr)@, timeout, end), self.in_buffer@.len() == 0,
        pending(__d_for0@, tr@),
    ensures
        inv(*self, *old(self), tr@, old(tr)@, timeout, end),
    decreases __d_for0.len(),
loop find0:
    invariant
        0 <= __i_find0 <= self.local_list.len(),
        inv(*self, *old(self), tr@, old(tr)@, timeout, end),
        __r_find0 matches Some(j) ==> all(*old(self), old(tr)@.opened.len() as int, tr@.opened)[j as int] == ev.u64 as i32 && j < self.local_list.len() && ev.u64 == self.local_list@[j as int].0.raw() as u64,
    decreases self.local_list.len() - __i_find0,
attr: #[verifier::exec_allows_no_decreases_clause]
mode for0: take
mode loop0: Result<EncodedMessage, Error>
ghost now: Tracked(tr)
ghost try_recv: Tracked(tr)
ghost wait: Tracked(tr)
ghost clear_waker: Tracked(tr)
ghost accept: Ghost(live(*self)), Tracked(tr)
ghost register: Tracked(tr)
ghost from_local: Tracked(tr)
ghost from_raw: Tracked(tr)
@*/
}
}
fn main() {}
