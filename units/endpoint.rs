// C13, C14, C15, C18: the two halves of an endpoint.
use vstd::prelude::*;
use std::marker::PhantomData;
use std::sync::Arc;
verus! {

//@include prelude.inc
//@include time.inc
broadcast use time_model::times;

pub type Bytes = [u8; 16];
pub uninterp spec fn matches(op: LabelOp, l: Label) -> bool;
#[verifier::external_body]
pub struct Label { x: u8 }
#[verifier::external_body]
pub struct SmolStr { x: u8 }
/*@type file=ipmb/src/label.rs item=LabelOp
@*/
impl LabelOp {
    /// contract proved in the unit `label`
    #[verifier::external_body]
    pub fn validate(&self, label: &Label) -> (r: bool) ensures r == matches(*self, *label) { unimplemented!() }
}
/*@type file=ipmb/src/lib.rs item=SelectorMode
@*/
/*@type file=ipmb/src/lib.rs item=Selector
@*/
/*@type file=ipmb/src/lib.rs item=Version
@*/
/*@type file=ipmb/src/options.rs item=Options
@*/
impl Clone for Options {
    #[verifier::external_body]
    fn clone(&self) -> (r: Options) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct EndpointID { x: u8 }
#[verifier::external_body]
pub struct Remote { x: u8 }
#[verifier::external_body]
pub struct Object { x: u8 }
#[verifier::external_body]
pub struct MemoryRegion { x: u8 }
#[verifier::external_body]
pub struct Decoding { x: u8 }
#[verifier::external_body]
pub struct Encoding { x: u8 }
#[verifier::external_body]
pub struct IoError { x: u8 }
/*@type file=ipmb/src/errors.rs item=Error
subst: bincode::error::EncodeError ==> Encoding
subst: bincode::error::DecodeError ==> Decoding
subst: std::io::Error ==> IoError
@*/
fn drop<T>(x: T) {}
pub assume_specification [u32::overflowing_add] (a: u32, b: u32) -> (r: (u32, bool))
    ensures r.0 == if a + b > u32::MAX { (a + b - 0x1_0000_0000) as u32 } else { (a + b) as u32 }, r.1 == (a + b > u32::MAX);

// ---- errors
/*@type file=ipmb/src/errors.rs item=JoinError
@*/
/*@type file=ipmb/src/errors.rs item=SendError
@*/
/*@type file=ipmb/src/errors.rs item=RecvError
subst: bincode::error::DecodeError ==> Decoding
@*/
pub open spec fn send_error(e: JoinError) -> SendError {
    match e {
        JoinError::VersionMismatch(v) => SendError::VersionMismatch(v),
        JoinError::TokenMismatch => SendError::TokenMismatch,
        JoinError::Timeout => SendError::Timeout,
        JoinError::PermissionDenied => SendError::PermissionDenied,
    }
}
pub open spec fn recv_error(e: JoinError) -> RecvError {
    match e {
        JoinError::VersionMismatch(v) => RecvError::VersionMismatch(v),
        JoinError::TokenMismatch => RecvError::TokenMismatch,
        JoinError::Timeout => RecvError::Timeout,
        JoinError::PermissionDenied => RecvError::PermissionDenied,
    }
}
impl vstd::std_specs::convert::FromSpecImpl<JoinError> for SendError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: JoinError) -> SendError { send_error(e) }
}
impl From<JoinError> for SendError {
/*@fn file=ipmb/src/errors.rs item=SendError~as~From<JoinError>::from
sig: fn from(value: JoinError) -> (r: SendError)
noreach: an item of a trait
@*/
}
impl vstd::std_specs::convert::FromSpecImpl<JoinError> for RecvError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: JoinError) -> RecvError { recv_error(e) }
}
impl From<JoinError> for RecvError {
/*@fn file=ipmb/src/errors.rs item=RecvError~as~From<JoinError>::from
sig: fn from(value: JoinError) -> (r: RecvError)
noreach: an item of a trait
@*/
}

// ---- messages
/// what a type of messages is (C14): its identifier and its encoding
pub trait MessageBox: Sized {
    spec fn uuid_spec(&self) -> Bytes;
    spec fn encoded(&self) -> Seq<u8>;
    spec fn decoded(uuid: Bytes, data: Seq<u8>) -> Result<Self, Error>;
    fn uuid(&self) -> (r: Bytes) ensures r == self.uuid_spec();
    fn decode(uuid: Bytes, data: &[u8]) -> (r: Result<Self, Error>)
        ensures r == Self::decoded(uuid, data@), r matches Err(e) ==> e is TypeUuidNotFound || e is Decode;
}
/*@type file=ipmb/src/message.rs item=Message
@*/
/*@type file=ipmb/src/platform/linux/encoded_message.rs item=EncodedMessage
subst: crate::Selector ==> Selector
subst: crate::Object ==> Object
subst: crate::MemoryRegion ==> MemoryRegion
@*/
/// what is sent carries the message, its attachments and the identifier of its type
pub open spec fn carries<T: MessageBox>(f: EncodedMessage, m: Message<T>) -> bool {
    &&& f.selector.label_op == m.selector.label_op && f.selector.mode == m.selector.mode && f.selector.ttl == m.selector.ttl
    &&& f.selector.uuid == m.payload.uuid_spec()
    &&& f.selector.memory_region_count == m.memory_regions@.len()
    &&& f.payload_data@ == m.payload.encoded() && f.objects@ == m.objects@ && f.memory_regions@ == m.memory_regions@
}
pub uninterp spec fn frame_of<T>(m: Message<T>) -> EncodedMessage;
/// the frame of a message as it is when it is sent
pub open spec fn frame<T: MessageBox>(m: Message<T>) -> EncodedMessage {
    frame_of(Message { selector: Selector { uuid: m.payload.uuid_spec(), memory_region_count: m.memory_regions@.len() as u16, ..m.selector }, ..m })
}
impl<T: MessageBox> Message<T> {
/*@fn file=ipmb/src/message.rs item=Message::new
sig: pub fn new(mut selector: Selector, payload: T) -> (r: Message<T>)
spec:
    ensures
        r.payload == payload, r.objects@.len() == 0, r.memory_regions@.len() == 0,
        r.selector == (Selector { uuid: payload.uuid_spec(), ..selector }),
@*/
    /// contract proved in the unit `frame`
    #[verifier::external_body]
    pub fn into_encoded(self) -> (r: EncodedMessage)
        ensures r == frame_of(self), r.selector == self.selector, r.payload_data@ == self.payload.encoded(), r.objects@ == self.objects@, r.memory_regions@ == self.memory_regions@ { unimplemented!() }
}

// ---- the outside
pub ghost struct Hand { pub remote: Option<Remote>, pub bus: Option<Sender<EncodedMessage>>, pub msg: EncodedMessage, pub ok: bool }
pub ghost struct Joining { pub options: Options, pub epoch: u32, pub im: Arc<IoMultiplexing>, pub r: Result<Rule, JoinError> }
/// something was received, or not
pub ghost struct Got { pub hub: Option<IoHub>, pub queue: Option<Receiver<EncodedMessage>>, pub r: Result<EncodedMessage, Error> }
pub ghost struct World {
    /// what the lock protects: as it was left, as it was when last taken for writing, as last read
    pub rule: Rule,
    pub before: Rule,
    pub seen: Rule,
    /// the joins made while the lock was last held
    pub made: Seq<Joining>,
    /// the options the endpoint joined with
    pub options: Options,
    /// the caller holds the receiver
    pub receiving: bool,
    /// the receiver was dropped
    pub closed: bool,
    /// when to give up
    pub end: Option<int>,
    pub now: int,
    pub handed: Seq<Hand>,
    pub got: Seq<Got>,
    pub woken: Option<IoMultiplexing>,
}
#[verifier::external_body]
pub tracked struct Kernel { x: u8 }
impl Kernel { pub uninterp spec fn view(&self) -> World; }
pub open spec fn later(a: World, b: World) -> bool { b == (World { now: b.now, ..a }) && b.now >= a.now }
pub open spec fn end_of(start: int, d: Duration) -> int { if start + d.ns() <= max_instant() { start + d.ns() } else { start + far() } }
/// waiting that long, from now, does not end too late
pub open spec fn fits(timeout: Option<Duration>, w: World) -> bool {
    w.end matches Some(e) ==> (timeout matches Some(d) && end_of(w.now, d) <= if e >= w.now { e } else { w.now })
}
/// a time out is due
pub open spec fn due(timeout: Option<Duration>, a: World, b: World) -> bool { timeout matches Some(d) && b.now >= end_of(a.now, d) }

impl EncodedMessage {
    /// contract of `EncodedMessage::send`, proved in the unit `frame`; blocks while the receiver's buffer is full
    #[verifier::external_body]
    pub fn send(&mut self, remote: &Remote, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<(), Error>)
        ensures *final(self) == *old(self), r matches Err(e) ==> e is Disconnect, final(tr)@.now >= old(tr)@.now,
            final(tr)@ == (World { now: final(tr)@.now, handed: old(tr)@.handed.push(Hand { remote: Some(*remote), bus: None, msg: *old(self), ok: r is Ok }), ..old(tr)@ }) { unimplemented!() }
}
#[verifier::external_body]
pub struct IoHub { x: u8 }
impl IoHub {
    /// contract of `IoHub::recv`, proved in the unit `io`
    #[verifier::external_body]
    pub fn recv(&self, timeout: Option<Duration>, remote: Option<&Remote>, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<EncodedMessage, Error>)
        requires fits(timeout, old(tr)@)
        ensures final(tr)@.now >= old(tr)@.now, r matches Err(e) ==> (e is Timeout ==> due(timeout, old(tr)@, final(tr)@)),
            final(tr)@ == (World { now: final(tr)@.now, got: old(tr)@.got.push(Got { hub: Some(*self), queue: None, r }), ..old(tr)@ }) { unimplemented!() }
}
#[verifier::external_body]
pub struct IoMultiplexing { x: u8 }
impl IoMultiplexing {
    /// contract of `IoMultiplexing::wake`, proved in the unit `io`
    #[verifier::external_body]
    pub fn wake(&self, Tracked(tr): Tracked<&mut Kernel>) ensures final(tr)@ == (World { woken: Some(*self), ..old(tr)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: IoMultiplexing) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T> { x: PhantomData<T> }
#[derive(Debug)]
pub struct Gone;
impl Sender<EncodedMessage> {
    /// the controller's thread lives as long as the process
    #[verifier::external_body]
    pub fn send(&self, m: EncodedMessage, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<(), Gone>)
        ensures r is Ok, final(tr)@ == (World { woken: None, handed: old(tr)@.handed.push(Hand { remote: None, bus: Some(*self), msg: m, ok: true }), ..old(tr)@ }) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { x: PhantomData<T> }
pub enum RecvTimeoutError { Timeout, Disconnected }
pub open spec fn heard(w: World, q: Receiver<EncodedMessage>, r: Result<EncodedMessage, Error>, b: World) -> bool {
    b == (World { now: b.now, got: w.got.push(Got { hub: None, queue: Some(q), r }), ..w }) && b.now >= w.now
}
impl Receiver<EncodedMessage> {
    #[verifier::external_body]
    pub fn recv_timeout(&self, timeout: Duration, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<EncodedMessage, RecvTimeoutError>)
        requires fits(Some(timeout), old(tr)@)
        ensures match r {
            Ok(m) => heard(old(tr)@, *self, Ok(m), final(tr)@),
            Err(e) => e is Timeout && due(Some(timeout), old(tr)@, final(tr)@) && heard(old(tr)@, *self, Err(Error::Timeout), final(tr)@),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn recv(&self, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<EncodedMessage, Gone>)
        requires fits(None, old(tr)@)
        ensures r matches Ok(m) && heard(old(tr)@, *self, Ok(m), final(tr)@) { unimplemented!() }
}
impl Instant {
    /// reading the clock takes no time
    #[verifier::external_body]
    pub fn now(Tracked(tr): Tracked<&mut Kernel>) -> (r: Instant) ensures r.ns() == old(tr)@.now, r.ns() + far() <= max_instant(), final(tr)@ == old(tr)@ { unimplemented!() }
}
pub mod thread { use super::*;
    #[verifier::external_body]
    pub fn sleep(d: Duration, Tracked(tr): Tracked<&mut Kernel>) requires fits(Some(d), old(tr)@) ensures later(old(tr)@, final(tr)@) { unimplemented!() }
}
//@include deadline.inc

// ---- locks; a thread does not panic while it holds one
#[derive(Debug)]
pub struct Poison;
pub struct Mutex<T> { pub v: T }
impl<T> Mutex<T> {
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Result<&T, Poison>) ensures r matches Ok(x) && *x == self.v { unimplemented!() }
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Mutex<T>) ensures r.v == v { unimplemented!() }
}
pub enum TryLockError { WouldBlock, Poisoned(Poison) }
#[verifier::external_body]
pub struct RwLock { x: u8 }
/// what others may have made of it, and may rely on
pub open spec fn good(w: World, r: Rule) -> bool {
    &&& r is Client ==> r->Client_options == w.options && (r->reader_closed ==> r->io_hub is None)
    &&& w.closed ==> closed(r)
    &&& w.receiving ==> !w.closed && !closed(r)
}
pub open spec fn closed(r: Rule) -> bool {
    match r { Rule::Client { reader_closed, .. } => reader_closed, Rule::Server { receiver, .. } => receiver is None }
}
impl RwLock {
    /// what it was made with
    pub uninterp spec fn first(&self) -> Rule;
    #[verifier::external_body]
    pub fn new(r: Rule) -> (x: RwLock) ensures x.first() == r { unimplemented!() }
    #[verifier::external_body]
    pub fn read<'a>(&'a self, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<&'a Rule, Poison>)
        requires good(old(tr)@, old(tr)@.rule)
        ensures r is Ok, taken(old(tr)@, final(tr)@, *(r->Ok_0)), final(tr)@ == (World { seen: *(r->Ok_0), made: seq![], closed: final(tr)@.closed, rule: *(r->Ok_0), before: *(r->Ok_0), now: final(tr)@.now, ..old(tr)@ }) { unimplemented!() }
    /// the receiver stays closed whoever holds the lock
    #[verifier::external_body]
    pub fn write<'a>(&'a self, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<&'a mut Rule, Poison>)
        requires good(old(tr)@, old(tr)@.rule)
        ensures r is Ok, wrote(old(tr)@, final(tr)@, *(r->Ok_0), *final(r->Ok_0)) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_write<'a>(&'a self, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<&'a mut Rule, TryLockError>)
        requires good(old(tr)@, old(tr)@.rule)
        ensures match r {
            Ok(x) => wrote(old(tr)@, final(tr)@, *x, *final(x)),
            Err(e) => e is WouldBlock && final(tr)@ == old(tr)@,
        } { unimplemented!() }
}
pub open spec fn taken(a: World, b: World, r: Rule) -> bool {
    good(a, r) && b.now >= a.now && (a.closed ==> b.closed) && b.closed == closed(r)
}
pub open spec fn wrote(a: World, b: World, r: Rule, after: Rule) -> bool {
    taken(a, b, r) && b == (World { rule: after, before: r, made: seq![], closed: b.closed, now: b.now, ..a })
}

// ---- endpoints
/*@type file=ipmb/src/lib.rs item=Rule
@*/
/*@type file=ipmb/src/lib.rs item=EndpointSender
subst: Arc<RwLock<Rule>> ==> Arc<RwLock>
@*/
/*@type file=ipmb/src/lib.rs item=EndpointReceiver
subst: Arc<RwLock<Rule>> ==> Arc<RwLock>
@*/
/// the endpoint is a new one, with the same options
pub open spec fn joined(r: Rule, options: Options, epoch: u32, im: Arc<IoMultiplexing>) -> bool {
    !closed(r) && match r {
        Rule::Client { options: o, epoch: e, im: i, io_hub, .. } => o == options && e == epoch && i == im && io_hub is Some,
        Rule::Server { .. } => true,
    }
}
pub open spec fn shut(r: Rule) -> Rule {
    match r {
        Rule::Client { endpoint_id, options, remote, io_hub, reader_closed, im, epoch } => Rule::Client { endpoint_id, options, remote, io_hub: None, reader_closed: true, im, epoch },
        Rule::Server { endpoint_id, bus_sender, receiver, im } => Rule::Server { endpoint_id, bus_sender, receiver: None, im },
    }
}
impl Rule {
    /// contract of `Rule::join`, proved in the unit `join`
    #[verifier::external_body]
    pub fn join(options: Options, epoch: u32, im: Arc<IoMultiplexing>, timeout: Option<Duration>, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<Rule, JoinError>)
        requires fits(timeout, old(tr)@)
        ensures
            r matches Ok(x) ==> joined(x, options, epoch, im),
            r matches Err(e) ==> (e is Timeout ==> due(timeout, old(tr)@, final(tr)@)),
            final(tr)@.now >= old(tr)@.now,
            final(tr)@ == (World { now: final(tr)@.now, made: old(tr)@.made.push(Joining { options, epoch, im, r }), ..old(tr)@ }) { unimplemented!() }
/*@fn file=ipmb/src/lib.rs item=Rule::reader_close
sig: fn reader_close(&mut self)
spec:
    ensures *final(self) == shut(*old(self)),
@*/
}
/// what was done while the lock was held: nothing, or the one connection that was seen to be gone is replaced
pub open spec fn kept(w: World) -> bool { w.rule == w.before && w.made.len() == 0 }
pub open spec fn once(w: World) -> bool {
    &&& w.made.len() == 1 && w.before is Client && w.seen is Client && w.before->epoch == w.seen->epoch
    &&& w.made[0].options == w.options && w.made[0].im == w.before->Client_im && w.made[0].epoch != w.before->epoch
}
pub open spec fn rejoined(w: World) -> bool {
    once(w) && (w.made[0].r matches Ok(r) && w.rule == if closed(w.before) { shut(r) } else { r })
}
/// the attempt failed: the connection is not used again
pub open spec fn failed(w: World, e: JoinError) -> bool {
    &&& once(w) && w.made[0].r == Err::<Rule, JoinError>(e)
    &&& w.rule is Client && w.rule->io_hub is None && w.rule->epoch == w.before->epoch && w.rule->reader_closed == w.before->reader_closed && w.rule->Client_options == w.options
}
/// all attempts of this call but the last failed
pub open spec fn tried(h: Seq<Hand>, n: int, msg: EncodedMessage) -> bool {
    forall|i: int| n <= i < h.len() ==> !(#[trigger] h[i]).ok && h[i].msg == msg && h[i].remote is Some
}
/// whether a frame is for the caller
pub open spec fn is_for<R: MessageBox>(g: Got, w: World) -> bool {
    g.r matches Ok(f) && !(R::decoded(f.selector.uuid, f.payload_data@) matches Err(e) && e is TypeUuidNotFound) && (g.hub is Some ==> matches(f.selector.label_op, w.options.label))
}
/// everything received by this call that is not returned: not for the caller, or the connection was gone
pub open spec fn skipped<R: MessageBox>(g: Seq<Got>, n: int, w: World) -> bool {
    forall|i: int| n <= i < g.len() ==> !is_for::<R>(#[trigger] g[i], w) && !(g[i].r matches Err(e) && e is Timeout)
}
/// this call found the connection gone
pub open spec fn noticed(w: World, w0: World) -> bool {
    w.handed.len() > w0.handed.len() && (w.seen matches Rule::Client { remote, .. } && w.handed.last().remote == Some(remote))
}
pub open spec fn sending(w: World, w0: World, m: EncodedMessage) -> bool {
    &&& good(w, w.rule) && (kept(w) || (rejoined(w) && noticed(w, w0))) && w.end is None && w.options == w0.options && w.receiving == w0.receiving && w.got == w0.got
    &&& w.handed.len() >= w0.handed.len() && w.handed.take(w0.handed.len() as int) =~= w0.handed && tried(w.handed, w0.handed.len() as int, m)
}
/// handed over, and only once, to the endpoint's controller
pub open spec fn sent(w: World, w0: World, m: EncodedMessage) -> bool {
    let n = w0.handed.len() as int;
    let h = w.handed;
    &&& h.len() > n && h.last().ok && h.last().msg == m && tried(h.drop_last(), n, m) && h.take(n) =~= w0.handed
    &&& match w.seen {
        Rule::Client { remote, .. } => h.last().remote == Some(remote),
        Rule::Server { bus_sender, im, .. } => h.last().bus == Some(bus_sender.v) && w.woken == Some(*im),
    }
    &&& good(w, w.rule)
}
/// never handed over, because the endpoint could not join again
pub open spec fn unsent(w: World, w0: World, m: EncodedMessage, e: SendError) -> bool {
    let n = w0.handed.len() as int;
    &&& w.handed.take(n) =~= w0.handed && tried(w.handed, n, m)
    &&& w.made.len() > 0 && (w.made.last().r matches Err(j) && e == send_error(j) && failed(w, j)) && noticed(w, w0)
}
impl<T: MessageBox> EndpointSender<T> {
/*@fn file=ipmb/src/lib.rs item=EndpointSender::send
sig: pub fn send(&self, mut msg: Message<T>, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<(), SendError>)
spec:
    requires
        good(old(tr)@, old(tr)@.rule), kept(old(tr)@), old(tr)@.end is None, !old(tr)@.receiving, msg.memory_regions@.len() < 0x10000,
    ensures
        carries(frame(msg), msg),
        match r { Ok(_) => sent(final(tr)@, old(tr)@, frame(msg)), Err(e) => unsent(final(tr)@, old(tr)@, frame(msg), e) },
mode try: from
attr: #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
mode loop0: Result<(), SendError>
pre: let ghost m0 = msg;
before loop0: let ghost f = msg; proof { assert(f == frame(m0)); assert(carries(f, m0)); }
loop loop0:
    invariant_except_break
        sending(tr@, old(tr)@, f), msg == f,
    ensures
        __v_loop0 is Ok, sent(tr@, old(tr)@, f),
ghost send: Tracked(tr)
ghost wake: Tracked(tr)
ghost read: Tracked(tr)
ghost try_write: Tracked(tr)
ghost write: Tracked(tr)
ghost join: Tracked(tr)
ghost sleep: Tracked(tr)
@*/
}
/// this call found the connection gone, or it was given up before
pub open spec fn missing(w: World, w0: World) -> bool {
    w.seen matches Rule::Client { io_hub, .. } && match io_hub {
        None => true,
        Some(h) => w.got.len() > w0.got.len() && w.got.last().hub == Some(h.v) && w.got.last().r is Err,
    }
}
pub open spec fn receiving<R: MessageBox>(w: World, w0: World) -> bool {
    let n = w0.got.len() as int;
    &&& good(w, w.rule) && (kept(w) || (rejoined(w) && missing(w, w0))) && w.end == w0.end && w.options == w0.options && w.receiving && w.handed == w0.handed
    &&& w.got.len() >= n && w.got.take(n) =~= w0.got && skipped::<R>(w.got, n, w)
}
/// the frame is the last thing received, and for the caller
pub open spec fn took<R: MessageBox>(w: World, w0: World, f: EncodedMessage) -> bool {
    let n = w0.got.len() as int;
    &&& w.got.len() > n && w.got.take(n) =~= w0.got && skipped::<R>(w.got.drop_last(), n, w)
    &&& w.got.last().r == Ok::<EncodedMessage, Error>(f) && is_for::<R>(w.got.last(), w)
    &&& match w.seen {
        Rule::Client { io_hub, .. } => io_hub matches Some(h) && w.got.last().hub == Some(h.v),
        Rule::Server { receiver, .. } => receiver matches Some(q) && w.got.last().queue == Some(q.v),
    }
}
pub open spec fn recv_post<R: MessageBox>(w: World, w0: World, r: Result<Message<R>, RecvError>) -> bool {
    let n = w0.got.len() as int;
    match r {
        // the first message for the caller, with what is attached to it
        Ok(m) => {
            let f = w.got.last().r->Ok_0;
            &&& took::<R>(w, w0, f) && R::decoded(f.selector.uuid, f.payload_data@) == Ok::<R, Error>(m.payload)
            &&& m.objects@ == f.objects@ && m.memory_regions@ == f.memory_regions@ && m.selector == (Selector { uuid: m.payload.uuid_spec(), ..f.selector })
        },
        Err(RecvError::Decode(x)) => {
            let f = w.got.last().r->Ok_0;
            took::<R>(w, w0, f) && R::decoded(f.selector.uuid, f.payload_data@) == Err::<R, Error>(Error::Decode(x))
        },
        Err(e) => {
            // not too early, and never without a timeout
            &&& e is Timeout ==> (w.end matches Some(t) && w.now >= t)
            &&& w.got.len() >= n && w.got.take(n) =~= w0.got
            &&& {
                // nothing came
                ||| e is Timeout && kept(w) && w.got.len() > n && (w.got.last().r matches Err(x) && x is Timeout) && skipped::<R>(w.got.drop_last(), n, w)
                // the endpoint could not join again
                ||| w.made.len() > 0 && (w.made.last().r matches Err(j) && e == recv_error(j) && failed(w, j)) && missing(w, w0) && skipped::<R>(w.got, n, w)
            }
        },
    }
}
impl<R: MessageBox> EndpointReceiver<R> {
/*@fn file=ipmb/src/lib.rs item=EndpointReceiver::recv
sig: pub fn recv(&mut self, timeout: Option<Duration>, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<Message<R>, RecvError>)
spec:
    requires
        good(old(tr)@, old(tr)@.rule), kept(old(tr)@), old(tr)@.receiving,
        old(tr)@.end == (match timeout { Some(d) => Some(end_of(old(tr)@.now, d)), None => None }),
    ensures
        recv_post::<R>(final(tr)@, old(tr)@, r),
mode try: from
attr: #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
mode loop0: Result<Message<R>, RecvError>
loop loop0:
    invariant_except_break
        receiving::<R>(tr@, old(tr)@),
    ensures
        recv_post::<R>(tr@, old(tr)@, __v_loop0),
ghost now: Tracked(tr)
ghost read: Tracked(tr)
ghost write: Tracked(tr)
ghost try_write: Tracked(tr)
ghost join: Tracked(tr)
ghost recv: Tracked(tr)
ghost recv_timeout: Tracked(tr)
@*/
}
impl<R> EndpointReceiver<R> {
/*@fn file=ipmb/src/lib.rs item=EndpointReceiver~as~Drop::drop
sig: fn drop(&mut self, Tracked(tr): Tracked<&mut Kernel>)
spec:
    requires good(old(tr)@, old(tr)@.rule), kept(old(tr)@),
    // closed, and nothing else
    ensures closed(final(tr)@.rule), final(tr)@.rule == shut(final(tr)@.before), final(tr)@.got == old(tr)@.got, final(tr)@.handed == old(tr)@.handed,
ghost write: Tracked(tr)
@*/
}
/*@fn file=ipmb/src/lib.rs item=join
sig: pub fn join<T: MessageBox, R: MessageBox>(options: Options, timeout: Option<Duration>, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<(EndpointSender<T>, EndpointReceiver<R>), JoinError>)
spec:
    requires fits(timeout, old(tr)@), old(tr)@.made.len() == 0,
    ensures
        // one attempt, with these options and this timeout
        final(tr)@.made.len() == 1 && final(tr)@.made[0].options == options,
        match r {
            Ok((s, x)) => final(tr)@.made[0].r == Ok::<Rule, JoinError>(s.rule.first()) && joined(s.rule.first(), options, 0, final(tr)@.made[0].im)
                // both halves of one endpoint
                && s.rule == x.rule,
            Err(e) => final(tr)@.made[0].r == Err::<Rule, JoinError>(e) && (e is Timeout ==> due(timeout, old(tr)@, final(tr)@)),
        }
ghost join: Tracked(tr)
@*/
}
fn main() {}
