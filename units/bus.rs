// C02, C03, C04, C05, C18: the bus controller.
use vstd::prelude::*;
use std::mem;
verus! {

//@include prelude.inc
//@include time.inc
broadcast use time_model::times;

pub type Bytes = [u8; 16];
#[verifier::external_body]
pub fn bytes_eq(a: &Bytes, b: &Bytes) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub uninterp spec fn connect_uuid() -> Bytes;
#[verifier::external_body]
pub fn uuid_of_ConnectMessage() -> (r: Bytes) ensures r == connect_uuid() { unimplemented!() }

// ---- labels (contract proved in the unit `label`)
#[verifier::external_body]
pub struct Label { x: u8 }
#[verifier::external_body]
pub struct SmolStr { x: u8 }
/*@type file=ipmb/src/label.rs item=LabelOp
@*/
pub uninterp spec fn matches(op: LabelOp, l: Label) -> bool;
impl LabelOp {
    #[verifier::external_body]
    pub fn validate(&self, label: &Label) -> (r: bool) ensures r == matches(*self, *label) { unimplemented!() }
}
pub uninterp spec fn same_label(a: Label, b: Label) -> bool;
impl vstd::std_specs::cmp::PartialEqSpecImpl for Label {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Label) -> bool { same_label(*self, *o) }
}
impl PartialEq for Label {
    #[verifier::external_body]
    fn eq(&self, o: &Label) -> (r: bool) { unimplemented!() }
}

// ---- descriptors
#[verifier::external_body]
pub struct Fd { x: u8 }
impl Fd {
    pub uninterp spec fn raw(&self) -> i32;
    #[verifier::external_body]
    pub fn as_raw(&self) -> (r: i32) ensures r == self.raw() { unimplemented!() }
}
pub type Object = Fd;
#[verifier::external_body]
pub struct MemoryRegion { x: u8 }
#[verifier::external_body]
pub struct FdLock { x: u8 }
pub struct Mutex;
impl Mutex {
    #[verifier::external_body]
    pub fn new(f: Fd) -> (r: FdLock) ensures r == lock_of(f) { unimplemented!() }
}
pub uninterp spec fn lock_of(f: Fd) -> FdLock;
pub open spec fn remote_of(f: Fd) -> Remote { Remote { v: f.raw(), fd: lock_of(f) } }
/*@type file=ipmb/src/platform/linux/fd.rs item=Remote
subst: Mutex<Fd> ==> FdLock
@*/
impl vstd::std_specs::cmp::PartialEqSpecImpl for Remote {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Remote) -> bool { self.v == o.v }
}
impl PartialEq for Remote {
/*@fn file=ipmb/src/platform/linux/fd.rs item=Remote~as~PartialEq::eq
sig: fn eq(&self, other: &Remote) -> (r: bool)
noreach: an item of a trait
@*/
}
/// what the system says about the connection
pub uninterp spec fn dead(t: Seq<Ev>, r: Remote) -> bool;
impl Remote {
/*@fn file=ipmb/src/platform/linux/fd.rs item=Remote::new
sig: pub fn new(fd: Fd) -> (r: Remote)
spec:
    ensures r == remote_of(fd),
@*/
    #[verifier::external_body]
    pub fn is_dead(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: bool) ensures r == dead(old(tr)@, *self), final(tr)@ == old(tr)@ { unimplemented!() }
}

// ---- messages
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct EndpointID { x: u8 }
pub uninterp spec fn fresh_id(t: Seq<Ev>) -> EndpointID;
impl EndpointID {
    #[verifier::external_body]
    pub fn new(Tracked(tr): Tracked<&mut Trace>) -> (r: EndpointID) ensures r == fresh_id(old(tr)@), final(tr)@ == old(tr)@ { unimplemented!() }
}
/*@type file=ipmb/src/lib.rs item=SelectorMode
attr: #[derive(PartialEq, Eq, Structural, Clone, Copy)]
@*/
/*@type file=ipmb/src/lib.rs item=Selector
@*/
impl Clone for Selector {
    #[verifier::external_body]
    fn clone(&self) -> (r: Selector) ensures r == *self { unimplemented!() }
}
impl Selector {
    #[verifier::external_body]
    pub fn unicast(op: LabelOp) -> (r: Selector) ensures r == plain_selector() { unimplemented!() }
}
pub uninterp spec fn plain_selector() -> Selector;
/*@type file=ipmb/src/lib.rs item=Version
attr: #[derive(Clone, Copy)]
@*/
pub uninterp spec fn this_version() -> Version;
#[verifier::external_body]
pub fn version() -> (r: Version) ensures r == this_version() { unimplemented!() }

/// C05, from the property statement
pub open spec fn compatible(a: Version, b: Version) -> bool {
    if a.0.0 == 0 && b.0.0 == 0 { a.0.1 == b.0.1 } else { a.0.0 == b.0.0 }
}
impl Version {
/*@fn file=ipmb/src/lib.rs item=Version::major
sig: pub fn major(&self) -> (r: u8)
spec:
    ensures r == self.0.0,
@*/
/*@fn file=ipmb/src/lib.rs item=Version::minor
sig: pub fn minor(&self) -> (r: u8)
spec:
    ensures r == self.0.1,
@*/
/*@fn file=ipmb/src/lib.rs item=Version::patch
sig: pub fn patch(&self) -> (r: u8)
spec:
    ensures r == self.0.2,
@*/
/*@fn file=ipmb/src/lib.rs item=Version::compatible
sig: pub fn compatible(&self, rhs: Version) -> (r: bool)
spec:
    ensures r == compatible(*self, rhs),
@*/
}
/// an equivalence, symmetric in particular: both sides of a join decide alike
proof fn compatible_symmetric(a: Version, b: Version)
    ensures compatible(a, b) == compatible(b, a), compatible(a, a) {}
proof fn compatible_transitive(a: Version, b: Version, c: Version)
    requires compatible(a, b), compatible(b, c)
    ensures compatible(a, c) {}

/*@type file=ipmb/src/message.rs item=ConnectMessage
@*/
/*@type file=ipmb/src/message.rs item=ConnectMessageAck
@*/
#[verifier::external_body]
pub struct Encoding { x: u8 }
#[verifier::external_body]
pub struct Decoding { x: u8 }
#[verifier::external_body]
pub struct IoError { x: u8 }
/*@type file=ipmb/src/errors.rs item=Error
subst: bincode::error::EncodeError ==> Encoding
subst: bincode::error::DecodeError ==> Decoding
subst: std::io::Error ==> IoError
@*/

/*@type file=ipmb/src/platform/linux/encoded_message.rs item=EncodedMessage
subst: crate::Selector ==> Selector
subst: crate::Object ==> Object
subst: crate::MemoryRegion ==> MemoryRegion
@*/
/// the frame of an acknowledgement (what it decodes to is C06)
pub uninterp spec fn ack_frame(s: Selector, a: ConnectMessageAck) -> EncodedMessage;
/// what the payload of a join request decodes to
pub uninterp spec fn connect_of(data: Seq<u8>) -> Option<ConnectMessage>;
#[verifier::external_body]
pub fn decode<T>(data: &[u8]) -> (r: Result<ConnectMessage, Error>)
    ensures r matches Ok(v) ==> connect_of(data@) == Some(v), r is Err ==> connect_of(data@) is None { unimplemented!() }
pub struct Message<T> { pub payload: T, pub s: Selector }
impl Message<ConnectMessageAck> {
    #[verifier::external_body]
    pub fn new(s: Selector, payload: ConnectMessageAck) -> (r: Self) ensures r.payload == payload, r.s == s { unimplemented!() }
    #[verifier::external_body]
    pub fn into_encoded(self) -> (r: EncodedMessage) ensures r == ack_frame(self.s, self.payload) { unimplemented!() }
}

// ---- the outside world
/// everything the controller does to the outside, in order
pub enum Ev {
    /// an attempt to write the message to the connection, and whether the system took it
    Sent(Remote, EncodedMessage, bool),
    /// handed to the receiver in the controller's own process
    Delivered(EncodedMessage),
    /// something was taken from the hub
    Received(Result<EncodedMessage, Error>),
}
#[verifier::external_body]
pub tracked struct Trace { x: u8 }
impl Trace { pub uninterp spec fn view(&self) -> Seq<Ev>; }
/// whether the system takes the message, any function of what happened so far
pub uninterp spec fn net(t: Seq<Ev>, r: Remote, m: EncodedMessage) -> bool;
/// whether the controller's own receiver still exists
pub uninterp spec fn own_receiver(t: Seq<Ev>) -> bool;
/// what arrives next, any function of what happened so far
pub uninterp spec fn next_message(t: Seq<Ev>) -> Result<EncodedMessage, Error>;
pub uninterp spec fn clock(t: Seq<Ev>) -> Instant;

impl EncodedMessage {
    /// contract of `EncodedMessage::send`, proved in the unit `frame`
    #[verifier::external_body]
    pub fn send(&mut self, remote: &Remote, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<(), Error>)
        ensures
            *final(self) == *old(self),
            r matches Err(e) ==> e is Disconnect,
            r is Ok == net(old(tr)@, *remote, *old(self)),
            final(tr)@ == old(tr)@.push(Ev::Sent(*remote, *old(self), r is Ok)),
    { unimplemented!() }
/*@fn file=ipmb/src/platform/linux/encoded_message.rs item=EncodedMessage::extract_remote
sig: pub fn extract_remote(&mut self) -> (r: Option<Remote>)
spec:
    requires old(self).selector.uuid@ == connect_uuid()@,
    ensures
        final(self).selector == old(self).selector, final(self).payload_data == old(self).payload_data,
        r == if old(self).objects@.len() > 0 { Some(remote_of(old(self).objects@.last())) } else { None },
@*/
}
pub struct SendError<T>(pub T);
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T> { x: Option<T> }
impl Sender<EncodedMessage> {
    #[verifier::external_body]
    pub fn send(&self, m: EncodedMessage, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<(), SendError<EncodedMessage>>)
        ensures
            r is Ok == own_receiver(old(tr)@),
            final(tr)@ == if r is Ok { old(tr)@.push(Ev::Delivered(m)) } else { old(tr)@ },
            r matches Err(e) ==> e.0 == m,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct IoHub { x: u8 }
impl IoHub {
    #[verifier::external_body]
    pub fn recv(&mut self, timeout: Option<Duration>, remote: Option<&Remote>, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<EncodedMessage, Error>)
        ensures r == next_message(old(tr)@), final(tr)@ == old(tr)@.push(Ev::Received(r))
    { unimplemented!() }
}
//@include deadline.inc
pub assume_specification<T: std::default::Default> [std::mem::take] (s: &mut T) -> (r: T) ensures r == *old(s), T::default.ensures((), *final(s));
impl Instant {
    #[verifier::external_body]
    pub fn now(Tracked(tr): Tracked<&mut Trace>) -> (r: Instant) ensures r == clock(old(tr)@), r.ns() + far() <= max_instant(), final(tr)@ == old(tr)@ { unimplemented!() }
}

/*@type file=ipmb/src/bus_controller.rs item=Endpoint
@*/
/*@type file=ipmb/src/bus_controller.rs item=BusController
@*/

// ---- the specification: what routing means (C02)
pub struct Out { pub eps: Seq<Endpoint>, pub tr: Seq<Ev>, pub routed: bool }
/// the first `k` connected endpoints have been considered for message `m`
pub open spec fn route(eps: Seq<Endpoint>, k: nat, m: EncodedMessage, tr: Seq<Ev>) -> Out
    decreases k
{
    if k == 0 { Out { eps: seq![], tr, routed: false } } else {
        let p = route(eps, (k - 1) as nat, m, tr);
        let e = eps[k - 1];
        if p.routed && m.selector.mode == SelectorMode::Unicast {
            Out { eps: p.eps.push(e), ..p }
        } else if matches(m.selector.label_op, e.label) {
            let ok = net(p.tr, e.remote, m);
            // an endpoint whose connection is gone is forgotten
            Out { eps: if ok { p.eps.push(e) } else { p.eps }, tr: p.tr.push(Ev::Sent(e.remote, m, ok)), routed: p.routed || ok }
        } else {
            Out { eps: p.eps.push(e), ..p }
        }
    }
}
pub struct Handled { pub eps: Seq<Endpoint>, pub tr: Seq<Ev>, pub remain: Option<EncodedMessage>, pub connected: bool }
pub open spec fn handle_user(eps: Seq<Endpoint>, own: Label, m: EncodedMessage, tr: Seq<Ev>) -> Handled {
    let o = route(eps, eps.len(), m, tr);
    let mine = matches(m.selector.label_op, own) && (!o.routed || m.selector.mode == SelectorMode::Multicast);
    let taken = mine && own_receiver(o.tr);
    Handled {
        eps: o.eps,
        tr: if taken { o.tr.push(Ev::Delivered(m)) } else { o.tr },
        // nobody got it: it is kept
        remain: if o.routed || taken { None } else { Some(m) },
        connected: false,
    }
}


/// C04: what a join request leads to
pub open spec fn verdict(data: Seq<u8>, token: Seq<char>, id: EndpointID) -> ConnectMessageAck {
    match connect_of(data) {
        None => ConnectMessageAck::ErrVersion(this_version()),
        Some(c) => if !compatible(c.version, this_version()) { ConnectMessageAck::ErrVersion(this_version()) }
            else if c.token@ != token { ConnectMessageAck::ErrToken }
            else { ConnectMessageAck::Ok(id) },
    }
}
pub open spec fn listed(eps: Seq<Endpoint>, label: Label, v: i32) -> bool {
    exists|i: int| 0 <= i < eps.len() && same_label((#[trigger] eps[i]).label, label) && eps[i].remote.v == v
}
pub open spec fn connect(eps: Seq<Endpoint>, token: Seq<char>, m: EncodedMessage, tr: Seq<Ev>) -> Handled {
    if m.objects@.len() == 0 {
        // nobody to answer
        Handled { eps, tr, remain: None, connected: false }
    } else {
        let remote = remote_of(m.objects@.last());
        let id = fresh_id(tr);
        let v = verdict(m.payload_data@, token, id);
        let a = ack_frame(m.selector, v);
        // the joiner gets exactly one answer, and is admitted exactly when that is the positive one and reached it
        let ok = net(tr, remote, a);
        let label = connect_of(m.payload_data@)->0.label;
        let admit = v is Ok && ok && !listed(eps, label, remote.v);
        Handled { eps: if admit { eps.push(Endpoint { id, label, remote }) } else { eps }, tr: tr.push(Ev::Sent(remote, a, ok)), remain: None, connected: admit }
    }
}
pub open spec fn handle(eps: Seq<Endpoint>, own: Label, token: Seq<char>, m: EncodedMessage, tr: Seq<Ev>) -> Handled {
    if m.selector.uuid@ == connect_uuid()@ { connect(eps, token, m, tr) } else { handle_user(eps, own, m, tr) }
}
/// C03: the first `k` kept messages have been tried again because an endpoint joined
pub struct Retried { pub eps: Seq<Endpoint>, pub tr: Seq<Ev>, pub kept: Seq<(Instant, EncodedMessage)> }
pub open spec fn retry(eps: Seq<Endpoint>, own: Label, token: Seq<char>, tr: Seq<Ev>, buf: Seq<(Instant, EncodedMessage)>, k: nat, now: Instant) -> Retried
    decreases k
{
    if k == 0 { Retried { eps, tr, kept: seq![] } } else {
        let p = retry(eps, own, token, tr, buf, (k - 1) as nat, now);
        let (expire, m) = buf[k - 1];
        if expire.ns() <= now.ns() { p } else {
            let h = handle(p.eps, own, token, m, p.tr);
            Retried { eps: h.eps, tr: h.tr, kept: match h.remain { Some(x) => p.kept.push((expire, x)), None => p.kept } }
        }
    }
}
pub struct State { pub eps: Seq<Endpoint>, pub own: Label, pub token: Seq<char>, pub buf: Seq<(Instant, EncodedMessage)>, pub last: Instant, pub tr: Seq<Ev> }
pub open spec fn state_of(b: BusController, tr: Seq<Ev>) -> State {
    State { eps: b.endpoints@, own: b.label, token: b.token@, buf: b.message_buffer@, last: b.last_detect_reachable, tr }
}
/// one round of the controller
pub open spec fn step(s: State) -> State {
    let r = next_message(s.tr);
    let t1 = s.tr.push(Ev::Received(r));
    match r {
        Err(Error::VersionMismatch(_, Some(remote))) => {
            let a = ack_frame(plain_selector(), ConnectMessageAck::ErrVersion(this_version()));
            State { tr: t1.push(Ev::Sent(remote, a, net(t1, remote, a))), ..s }
        },
        Err(_) => State { tr: t1, ..s },
        Ok(m) => {
            let now = clock(t1);
            let h = handle(s.eps, s.own, s.token, m, t1);
            let (eps2, tr2, buf2) = match h.remain {
                Some(x) => (h.eps, h.tr, if x.selector.ttl.ns() == 0 { s.buf } else { s.buf.push((deadline_of(now, x.selector.ttl), x)) }),
                None => if h.connected {
                    let q = retry(h.eps, s.own, s.token, h.tr, s.buf, s.buf.len(), now);
                    (q.eps, q.tr, q.kept)
                } else { (h.eps, h.tr, s.buf) },
            };
            State {
                eps: reachable(eps2, tr2, now, s.last),
                last: if check_due(now, s.last) { now } else { s.last },
                buf: unexpired(buf2, now),
                tr: tr2,
                ..s
            }
        },
    }
}

/// what is still to be kept
pub open spec fn unexpired(buf: Seq<(Instant, EncodedMessage)>, now: Instant) -> Seq<(Instant, EncodedMessage)>
    decreases buf.len()
{
    if buf.len() == 0 { buf } else {
        let p = unexpired(buf.drop_last(), now);
        if buf.last().0.ns() > now.ns() { p.push(buf.last()) } else { p }
    }
}
pub open spec fn alive(eps: Seq<Endpoint>, tr: Seq<Ev>) -> Seq<Endpoint>
    decreases eps.len()
{
    if eps.len() == 0 { eps } else {
        let p = alive(eps.drop_last(), tr);
        if !dead(tr, eps.last().remote) { p.push(eps.last()) } else { p }
    }
}
pub open spec fn check_due(now: Instant, last: Instant) -> bool { now.ns() - last.ns() > 30_000_000_000 }
pub open spec fn reachable(eps: Seq<Endpoint>, tr: Seq<Ev>, now: Instant, last: Instant) -> Seq<Endpoint> {
    if check_due(now, last) { alive(eps, tr) } else { eps }
}

impl BusController {
    pub open spec fn same_but_buffer(&self, o: &BusController) -> bool {
        self.label == o.label && self.token == o.token && self.endpoint_id == o.endpoint_id && self.sender == o.sender
        && self.endpoints == o.endpoints && self.message_buffer_swap == o.message_buffer_swap
        && self.io_hub == o.io_hub && self.last_detect_reachable == o.last_detect_reachable
    }
    /// nothing but the connected endpoints changes
    pub open spec fn same_but_endpoints(&self, o: &BusController) -> bool {
        self.label == o.label && self.token == o.token && self.endpoint_id == o.endpoint_id && self.sender == o.sender
        && self.message_buffer == o.message_buffer && self.message_buffer_swap == o.message_buffer_swap
        && self.io_hub == o.io_hub && self.last_detect_reachable == o.last_detect_reachable
    }

/*@fn file=ipmb/src/bus_controller.rs item=BusController::endpoint_connect
attr: #[verifier::loop_isolation(false)]
sig: pub fn endpoint_connect(&mut self, mut encoded_msg: EncodedMessage, Tracked(tr): Tracked<&mut Trace>) -> (r: bool)
spec:
    requires encoded_msg.selector.uuid@ == connect_uuid()@,
    ensures
        final(self).same_but_endpoints(old(self)),
        connect(old(self).endpoints@, old(self).token@, encoded_msg, old(tr)@) == (Handled { eps: final(self).endpoints@, tr: final(tr)@, remain: None, connected: r }),
ghost send: Tracked(tr)
ghost EndpointID::new: Tracked(tr)
loop any0?:
    invariant
        __i_any0 <= self.endpoints@.len(),
        __r_any0 == exists|i: int| 0 <= i < __i_any0 && same_label((#[trigger] self.endpoints@[i]).label, connect_of(m0.payload_data@)->0.label) && self.endpoints@[i].remote.v == remote_of(m0.objects@.last()).v,
    decreases self.endpoints@.len() - __i_any0,
loop for0?:
    invariant
        __i_for0 <= self.endpoints@.len(),
        !exists|i: int| 0 <= i < __i_for0 && same_label((#[trigger] self.endpoints@[i]).label, connect_of(m0.payload_data@)->0.label) && self.endpoints@[i].remote.v == remote_of(m0.objects@.last()).v,
    decreases self.endpoints@.len() - __i_for0,
mode for0: index
pre: let ghost m0 = encoded_msg;
@*/

/*@fn file=ipmb/src/bus_controller.rs item=BusController::handle_message
attr: #[verifier::loop_isolation(false)]
sig: pub fn handle_message(&mut self, mut encoded_msg: EncodedMessage, Tracked(tr): Tracked<&mut Trace>) -> (r: (Option<EncodedMessage>, bool))
spec:
    ensures
        final(self).same_but_endpoints(old(self)),
        handle(old(self).endpoints@, old(self).label, old(self).token@, encoded_msg, old(tr)@)
            == (Handled { eps: final(self).endpoints@, tr: final(tr)@, remain: r.0, connected: r.1 }),
ghost send: Tracked(tr)
ghost endpoint_connect: Tracked(tr)
before retain0: let ghost at = *self;
loop retain0:
    invariant
        encoded_msg == m0,
        self.same_but_endpoints(&at),
        __i_retain0 <= self.endpoints@.len() <= eps0.len(),
        ({
            let k = eps0.len() - (self.endpoints@.len() - __i_retain0);
            let o = route(eps0, k as nat, m0, tr0);
            &&& 0 <= k <= eps0.len()
            &&& self.endpoints@ =~= o.eps + eps0.skip(k)
            &&& __i_retain0 == o.eps.len()
            &&& tr@ == o.tr
            &&& routed == o.routed
        }),
    decreases self.endpoints@.len() - __i_retain0,
pre: let ghost eps0 = self.endpoints@; let ghost m0 = encoded_msg; let ghost tr0 = tr@;
@*/

/*@fn file=ipmb/src/bus_controller.rs item=BusController::maintain
attr: #[verifier::loop_isolation(false)]
sig: pub fn maintain(&mut self, now: Instant)
spec:
    ensures
        final(self).message_buffer@ == unexpired(old(self).message_buffer@, now),
        final(self).same_but_buffer(old(self)),
before retain0: let ghost at = *self;
loop retain0:
    invariant
        __i_retain0 <= self.message_buffer@.len() <= buf0.len(),
        self.same_but_buffer(&at),
        ({
            let k = buf0.len() - (self.message_buffer@.len() - __i_retain0);
            &&& 0 <= k <= buf0.len()
            &&& self.message_buffer@ =~= unexpired(buf0.take(k), now) + buf0.skip(k)
            &&& __i_retain0 == unexpired(buf0.take(k), now).len()
            &&& k < buf0.len() ==> buf0.take(k + 1).drop_last() =~= buf0.take(k)
            &&& k == buf0.len() ==> buf0.take(k) =~= buf0
        }),
    decreases self.message_buffer@.len() - __i_retain0,
pre: let ghost buf0 = self.message_buffer@;
@*/

/*@fn file=ipmb/src/bus_controller.rs item=BusController::detect_reachable
attr: #[verifier::loop_isolation(false)]
sig: pub fn detect_reachable(&mut self, now: Instant, Tracked(tr): Tracked<&mut Trace>)
spec:
    ensures
        final(tr)@ == old(tr)@,
        final(self).endpoints@ == reachable(old(self).endpoints@, old(tr)@, now, old(self).last_detect_reachable),
        final(self).last_detect_reachable == if check_due(now, old(self).last_detect_reachable) { now } else { old(self).last_detect_reachable },
        final(self).same_but_endpoints(&BusController { last_detect_reachable: final(self).last_detect_reachable, ..*old(self) }),
ghost is_dead: Tracked(tr)
before retain0: let ghost at = *self;
loop retain0:
    invariant
        tr@ == old(tr)@,
        __i_retain0 <= self.endpoints@.len() <= eps0.len(),
        self.same_but_endpoints(&at),
        ({
            let k = eps0.len() - (self.endpoints@.len() - __i_retain0);
            &&& 0 <= k <= eps0.len()
            &&& self.endpoints@ =~= alive(eps0.take(k), tr@) + eps0.skip(k)
            &&& __i_retain0 == alive(eps0.take(k), tr@).len()
            &&& k < eps0.len() ==> eps0.take(k + 1).drop_last() =~= eps0.take(k)
            &&& k == eps0.len() ==> eps0.take(k) =~= eps0
        }),
    decreases self.endpoints@.len() - __i_retain0,
pre: let ghost eps0 = self.endpoints@;
@*/

/*@fn file=ipmb/src/bus_controller.rs item=BusController::new
sig: pub fn new(endpoint_id: EndpointID, label: Label, token: String, sender: Sender<EncodedMessage>, io_hub: IoHub, Tracked(tr): Tracked<&mut Trace>) -> (r: BusController)
spec:
    ensures
        // nobody is on the bus yet, and nothing is kept
        r.endpoints@.len() == 0, r.message_buffer@.len() == 0, r.message_buffer_swap@.len() == 0,
        r.label == label, r.token == token, r.sender == sender, r.io_hub == io_hub, r.endpoint_id == endpoint_id, final(tr)@ == old(tr)@,
        // where the loop starts
        r.message_buffer_swap@ == Seq::<(Instant, EncodedMessage)>::empty(), all_admitted(r.endpoints@, token@, old(tr)@), all_user(r.message_buffer@),
ghost Instant::now: Tracked(tr)
@*/
/*@fn file=ipmb/src/bus_controller.rs item=BusController::run@loop
attr: #[verifier::loop_isolation(false)]
sig: pub fn run_step(&mut self, Tracked(tr): Tracked<&mut Trace>)
spec:
    requires old(self).message_buffer_swap@ == Seq::<(Instant, EncodedMessage)>::empty(),
    ensures
        final(self).message_buffer_swap@ == Seq::<(Instant, EncodedMessage)>::empty(),
        step(state_of(*old(self), old(tr)@)) == state_of(*final(self), final(tr)@),
ghost send: Tracked(tr)
ghost recv: Tracked(tr)
ghost handle_message: Tracked(tr)
ghost detect_reachable: Tracked(tr)
ghost Instant::now: Tracked(tr)
loop for0?if=message_buffer_swap:
    invariant
        __src_for0@.len() <= buf0.len(),
        __src_for0@ =~= buf0.skip(buf0.len() - __src_for0@.len()),
        self.message_buffer@.len() == 0,
        self.label == old(self).label, self.token == old(self).token, self.last_detect_reachable == old(self).last_detect_reachable,
        retry(h1.eps, old(self).label, old(self).token@, h1.tr, buf0, (buf0.len() - __src_for0@.len()) as nat, now)
            == (Retried { eps: self.endpoints@, tr: tr@, kept: self.message_buffer_swap@ }),
    decreases __src_for0@.len(),
loop for0?:
    invariant
        __src_for0@.len() <= buf0.len(),
        __src_for0@ =~= buf0.skip(buf0.len() - __src_for0@.len()),
        self.message_buffer_swap@.len() == 0,
        self.label == old(self).label, self.token == old(self).token, self.last_detect_reachable == old(self).last_detect_reachable,
        retry(h1.eps, old(self).label, old(self).token@, h1.tr, buf0, (buf0.len() - __src_for0@.len()) as nat, now)
            == (Retried { eps: self.endpoints@, tr: tr@, kept: self.message_buffer@ }),
    decreases __src_for0@.len(),
pre:
    let ghost buf0 = self.message_buffer@;
    let ghost t1 = tr@.push(Ev::Received(next_message(tr@)));
    let ghost h1 = handle(self.endpoints@, self.label, self.token@, next_message(tr@)->Ok_0, t1);
    assert(buf0.len() == 0 ==> buf0 =~= Seq::empty());
@*/
}


// ---- the properties, over the specification the code was shown to follow
pub open spec fn extends(t: Seq<Ev>, u: Seq<Ev>) -> bool { t.len() <= u.len() && forall|i: int| 0 <= i < t.len() ==> t[i] == #[trigger] u[i] }
/// the event means somebody has the message
pub open spec fn consumed(e: Ev) -> bool { e is Delivered || (e matches Ev::Sent(_, _, ok) && ok) }
pub open spec fn consumers(t: Seq<Ev>, from: nat) -> nat
    decreases t.len()
{
    if t.len() <= from { 0 } else { consumers(t.drop_last(), from) + if consumed(t.last()) { 1nat } else { 0nat } }
}
/// the connected endpoints the expression asks for, in order
pub open spec fn targets(eps: Seq<Endpoint>, k: nat, op: LabelOp) -> Seq<Remote>
    decreases k
{
    if k == 0 { seq![] } else {
        let p = targets(eps, (k - 1) as nat, op);
        if matches(op, eps[k - 1].label) { p.push(eps[k - 1].remote) } else { p }
    }
}
/// the connections written to since `from`
pub open spec fn written(t: Seq<Ev>, from: nat) -> Seq<Remote>
    decreases t.len()
{
    if t.len() <= from { seq![] } else {
        let p = written(t.drop_last(), from);
        match t.last() { Ev::Sent(r, _, _) => p.push(r), _ => p }
    }
}
/// C02: routing one message
proof fn lemma_route(eps: Seq<Endpoint>, k: nat, m: EncodedMessage, tr: Seq<Ev>)
    requires k <= eps.len()
    ensures ({
        let o = route(eps, k, m, tr);
        &&& extends(tr, o.tr)
        // only endpoints the expression selects are written to, and only with this message
        &&& forall|i: int| tr.len() <= i < o.tr.len() ==> ((#[trigger] o.tr[i]) matches Ev::Sent(r, x, ok) && x == m && exists|j: int| 0 <= j < k && (#[trigger] eps[j]).remote == r && matches(m.selector.label_op, eps[j].label))
        &&& (o.routed <==> consumers(o.tr, tr.len()) > 0)
        // unicast: at most one gets it
        &&& m.selector.mode == SelectorMode::Unicast ==> consumers(o.tr, tr.len()) <= 1
        // multicast: every selected endpoint is written to once, in order
        &&& m.selector.mode == SelectorMode::Multicast ==> written(o.tr, tr.len()) == targets(eps, k, m.selector.label_op)
        // unicast that reached nobody was tried on every selected endpoint
        &&& !o.routed ==> written(o.tr, tr.len()) == targets(eps, k, m.selector.label_op)
        // an endpoint is forgotten only after a failed write
        &&& o.eps.len() <= k
        &&& forall|i: int| 0 <= i < o.eps.len() ==> exists|j: int| 0 <= j < k && (#[trigger] eps[j]) == #[trigger] o.eps[i]
        &&& forall|j: int| 0 <= j < k ==> (exists|i: int| 0 <= i < o.eps.len() && (#[trigger] o.eps[i]) == eps[j]) || (exists|i: int| tr.len() <= i < o.tr.len() && #[trigger] o.tr[i] == Ev::Sent((#[trigger] eps[j]).remote, m, false))
    })
    decreases k
{
    if k > 0 {
        let n = (k - 1) as nat;
        lemma_route(eps, n, m, tr);
        let p = route(eps, n, m, tr);
        let o = route(eps, k, m, tr);
        let e = eps[n as int];
        if o.tr.len() > p.tr.len() { assert(o.tr.drop_last() =~= p.tr); }
        assert forall|i: int| tr.len() <= i < o.tr.len() implies ((#[trigger] o.tr[i]) matches Ev::Sent(r, x, ok) && x == m && exists|j: int| 0 <= j < k && (#[trigger] eps[j]).remote == r && matches(m.selector.label_op, eps[j].label)) by {
            if i < p.tr.len() { assert(o.tr[i] == p.tr[i]); } else { assert(eps[n as int].remote == e.remote); }
        }
        assert forall|i: int| 0 <= i < o.eps.len() implies exists|j: int| 0 <= j < k && (#[trigger] eps[j]) == #[trigger] o.eps[i] by {
            if i < p.eps.len() { assert(o.eps[i] == p.eps[i]); } else { assert(eps[n as int] == o.eps[i]); }
        }
        assert forall|j: int| 0 <= j < k implies (exists|i: int| 0 <= i < o.eps.len() && (#[trigger] o.eps[i]) == eps[j]) || (exists|i: int| tr.len() <= i < o.tr.len() && #[trigger] o.tr[i] == Ev::Sent((#[trigger] eps[j]).remote, m, false)) by {
            if j < n {
                if exists|i: int| 0 <= i < p.eps.len() && (#[trigger] p.eps[i]) == eps[j] {
                    let i = choose|i: int| 0 <= i < p.eps.len() && (#[trigger] p.eps[i]) == eps[j];
                    assert(o.eps[i] == eps[j]);
                } else {
                    let i = choose|i: int| tr.len() <= i < p.tr.len() && #[trigger] p.tr[i] == Ev::Sent(eps[j].remote, m, false);
                    assert(o.tr[i] == p.tr[i]);
                }
            } else if o.eps.len() > p.eps.len() {
                assert(o.eps[p.eps.len() as int] == eps[j]);
            } else {
                assert(o.tr[p.tr.len() as int] == Ev::Sent(eps[j].remote, m, false));
            }
        }
    }
}
/// C02: the whole decision, the controller's own endpoint included
proof fn lemma_handle_user(eps: Seq<Endpoint>, own: Label, m: EncodedMessage, tr: Seq<Ev>)
    ensures ({
        let h = handle_user(eps, own, m, tr);
        let n = consumers(h.tr, tr.len());
        &&& extends(tr, h.tr)
        // kept exactly when nobody has it
        &&& (h.remain is None <==> n > 0)
        &&& h.remain matches Some(x) ==> x == m
        &&& m.selector.mode == SelectorMode::Unicast ==> n <= 1
        &&& m.selector.mode == SelectorMode::Multicast ==> written(h.tr, tr.len()) == targets(eps, eps.len(), m.selector.label_op)
        &&& h.remain is Some ==> written(h.tr, tr.len()) == targets(eps, eps.len(), m.selector.label_op) && (matches(m.selector.label_op, own) ==> !own_receiver(h.tr))
        // the controller's own receiver only gets what its label is asked for, and at most once
        &&& forall|i: int| tr.len() <= i < h.tr.len() ==> match #[trigger] h.tr[i] {
            Ev::Delivered(x) => x == m && matches(m.selector.label_op, own) && i == h.tr.len() - 1,
            Ev::Sent(r, x, ok) => x == m && exists|j: int| 0 <= j < eps.len() && (#[trigger] eps[j]).remote == r && matches(m.selector.label_op, eps[j].label),
            Ev::Received(_) => false,
        }
        &&& m.selector.mode == SelectorMode::Multicast && matches(m.selector.label_op, own) && h.tr.last() is Delivered == false ==> !own_receiver(h.tr)
        &&& !h.connected
    })
{
    let o = route(eps, eps.len(), m, tr);
    let h = handle_user(eps, own, m, tr);
    lemma_route(eps, eps.len(), m, tr);
    if h.tr.len() > o.tr.len() { assert(h.tr.drop_last() =~= o.tr); }
    assert forall|i: int| tr.len() <= i < h.tr.len() implies match #[trigger] h.tr[i] {
            Ev::Delivered(x) => x == m && matches(m.selector.label_op, own) && i == h.tr.len() - 1,
            Ev::Sent(r, x, ok) => x == m && exists|j: int| 0 <= j < eps.len() && (#[trigger] eps[j]).remote == r && matches(m.selector.label_op, eps[j].label),
            Ev::Received(_) => false,
        } by { if i < o.tr.len() { assert(h.tr[i] == o.tr[i]); } }
}

/// C04: what makes an endpoint one of the bus
pub open spec fn admitted(e: Endpoint, token: Seq<char>, tr: Seq<Ev>) -> bool {
    exists|i: int, j: int| 0 <= i < j < tr.len() && #[trigger] proof_of(e, token, tr[i], tr[j])
}
pub open spec fn proof_of(e: Endpoint, token: Seq<char>, a: Ev, b: Ev) -> bool {
    &&& a is Received && a->Received_0 is Ok
    &&& {
        let m = a->Received_0->Ok_0;
        let c = connect_of(m.payload_data@);
        &&& m.selector.uuid@ == connect_uuid()@ && m.objects@.len() > 0 && e.remote == remote_of(m.objects@.last())
        &&& c is Some && c->0.token@ == token && compatible(c->0.version, this_version()) && c->0.label == e.label
        // and it was told so
        &&& b == Ev::Sent(e.remote, ack_frame(m.selector, ConnectMessageAck::Ok(e.id)), true)
    }
}
pub open spec fn all_admitted(eps: Seq<Endpoint>, token: Seq<char>, tr: Seq<Ev>) -> bool {
    forall|i: int| 0 <= i < eps.len() ==> admitted(#[trigger] eps[i], token, tr)
}
/// kept messages are messages for endpoints, never join requests
pub open spec fn all_user(buf: Seq<(Instant, EncodedMessage)>) -> bool {
    forall|i: int| 0 <= i < buf.len() ==> (#[trigger] buf[i]).1.selector.uuid@ != connect_uuid()@
}
proof fn lemma_admitted_later(e: Endpoint, token: Seq<char>, t: Seq<Ev>, u: Seq<Ev>)
    requires admitted(e, token, t), extends(t, u)
    ensures admitted(e, token, u)
{
    let (i, j) = choose|i: int, j: int| 0 <= i < j < t.len() && #[trigger] proof_of(e, token, t[i], t[j]);
    assert(u[i] == t[i] && u[j] == t[j]);
    assert(proof_of(e, token, u[i], u[j]));
}
proof fn lemma_handle_admitted(s: State, m: EncodedMessage, tr: Seq<Ev>)
    requires all_admitted(s.eps, s.token, tr), m.selector.uuid@ == connect_uuid()@ ==> tr.len() > 0 && tr.last() == Ev::Received(Ok::<EncodedMessage, Error>(m))
    ensures ({
        let h = handle(s.eps, s.own, s.token, m, tr);
        &&& extends(tr, h.tr)
        &&& all_admitted(h.eps, s.token, h.tr)
        &&& h.remain matches Some(x) ==> x == m && m.selector.uuid@ != connect_uuid()@
        &&& h.connected ==> h.remain is None
    })
{
    let h = handle(s.eps, s.own, s.token, m, tr);
    if m.selector.uuid@ == connect_uuid()@ {
        assert forall|i: int| 0 <= i < h.eps.len() implies admitted(#[trigger] h.eps[i], s.token, h.tr) by {
            if i < s.eps.len() {
                assert(h.eps[i] == s.eps[i]);
                lemma_admitted_later(s.eps[i], s.token, tr, h.tr);
            } else {
                assert(proof_of(h.eps[i], s.token, h.tr[tr.len() - 1], h.tr[tr.len() as int]));
            }
        }
    } else {
        lemma_handle_user(s.eps, s.own, m, tr);
        lemma_route(s.eps, s.eps.len(), m, tr);
        assert forall|i: int| 0 <= i < h.eps.len() implies admitted(#[trigger] h.eps[i], s.token, h.tr) by {
            let j = choose|j: int| 0 <= j < s.eps.len() && (#[trigger] s.eps[j]) == h.eps[i];
            lemma_admitted_later(s.eps[j], s.token, tr, h.tr);
        }
    }
}
proof fn lemma_retry(s: State, tr: Seq<Ev>, buf: Seq<(Instant, EncodedMessage)>, k: nat, now: Instant)
    requires all_admitted(s.eps, s.token, tr), all_user(buf), k <= buf.len()
    ensures ({
        let q = retry(s.eps, s.own, s.token, tr, buf, k, now);
        &&& extends(tr, q.tr)
        &&& all_admitted(q.eps, s.token, q.tr)
        &&& all_user(q.kept)
        // C03: nothing is tried after its time is over, and what is kept keeps its time and is among what was kept
        &&& forall|i: int| tr.len() <= i < q.tr.len() ==> match #[trigger] q.tr[i] {
            Ev::Sent(_, x, _) => exists|j: int| 0 <= j < k && (#[trigger] buf[j]).1 == x && buf[j].0.ns() > now.ns(),
            Ev::Delivered(x) => exists|j: int| 0 <= j < k && (#[trigger] buf[j]).1 == x && buf[j].0.ns() > now.ns(),
            Ev::Received(_) => false,
        }
        &&& forall|i: int| 0 <= i < q.kept.len() ==> exists|j: int| 0 <= j < k && (#[trigger] buf[j]) == #[trigger] q.kept[i] && buf[j].0.ns() > now.ns()
    })
    decreases k
{
    if k > 0 {
        let n = (k - 1) as nat;
        lemma_retry(s, tr, buf, n, now);
        let p = retry(s.eps, s.own, s.token, tr, buf, n, now);
        let q = retry(s.eps, s.own, s.token, tr, buf, k, now);
        let (expire, m) = buf[n as int];
        if expire.ns() > now.ns() {
            assert(m.selector.uuid@ != connect_uuid()@);
            let s2 = State { eps: p.eps, ..s };
            lemma_handle_admitted(s2, m, p.tr);
            lemma_handle_user(p.eps, s.own, m, p.tr);
            let h = handle(p.eps, s.own, s.token, m, p.tr);
            assert forall|i: int| tr.len() <= i < q.tr.len() implies match #[trigger] q.tr[i] {
                Ev::Sent(_, x, _) => exists|j: int| 0 <= j < k && (#[trigger] buf[j]).1 == x && buf[j].0.ns() > now.ns(),
                Ev::Delivered(x) => exists|j: int| 0 <= j < k && (#[trigger] buf[j]).1 == x && buf[j].0.ns() > now.ns(),
                Ev::Received(_) => false,
            } by { if i < p.tr.len() { assert(q.tr[i] == p.tr[i]); } else { assert(buf[n as int].1 == m); } }
            assert forall|i: int| 0 <= i < q.kept.len() implies exists|j: int| 0 <= j < k && (#[trigger] buf[j]) == #[trigger] q.kept[i] && buf[j].0.ns() > now.ns() by {
                if i < p.kept.len() { assert(q.kept[i] == p.kept[i]); } else { assert(buf[n as int] == q.kept[i]); }
            }
        }
    }
}
/// the other half of `lemma_retry`
proof fn lemma_retry_kept(s: State, tr: Seq<Ev>, buf: Seq<(Instant, EncodedMessage)>, k: nat, now: Instant)
    requires k <= buf.len(), all_admitted(s.eps, s.token, tr), all_user(buf)
    ensures ({
        let q = retry(s.eps, s.own, s.token, tr, buf, k, now);
        &&& extends(tr, q.tr)
        // and a message whose time is not over is given to somebody or kept
        &&& forall|j: int| 0 <= j < k && (#[trigger] buf[j]).0.ns() > now.ns() ==> (exists|i: int| 0 <= i < q.kept.len() && #[trigger] q.kept[i] == buf[j])
            || (exists|i: int| tr.len() <= i < q.tr.len() && consumed(#[trigger] q.tr[i]) && msg_of(q.tr[i]) == Some(buf[j].1))
    })
    decreases k
{
    if k > 0 {
        let n = (k - 1) as nat;
        lemma_retry_kept(s, tr, buf, n, now);
        assert(all_user(buf));
        let p = retry(s.eps, s.own, s.token, tr, buf, n, now);
        let q = retry(s.eps, s.own, s.token, tr, buf, k, now);
        let (expire, m) = buf[n as int];
        if expire.ns() > now.ns() {
            assert(m.selector.uuid@ != connect_uuid()@);
            let s2 = State { eps: p.eps, ..s };
            lemma_retry(s, tr, buf, n, now);
            lemma_handle_admitted(s2, m, p.tr);
            lemma_handle_user(p.eps, s.own, m, p.tr);
            let h = handle(p.eps, s.own, s.token, m, p.tr);
            assert forall|j: int| 0 <= j < k && (#[trigger] buf[j]).0.ns() > now.ns() implies (exists|i: int| 0 <= i < q.kept.len() && #[trigger] q.kept[i] == buf[j])
                || (exists|i: int| tr.len() <= i < q.tr.len() && consumed(#[trigger] q.tr[i]) && msg_of(q.tr[i]) == Some(buf[j].1)) by {
                if j < n {
                    if exists|i: int| 0 <= i < p.kept.len() && #[trigger] p.kept[i] == buf[j] {
                        let i = choose|i: int| 0 <= i < p.kept.len() && #[trigger] p.kept[i] == buf[j];
                        assert(q.kept[i] == buf[j]);
                    } else {
                        let i = choose|i: int| tr.len() <= i < p.tr.len() && consumed(#[trigger] p.tr[i]) && msg_of(p.tr[i]) == Some(buf[j].1);
                        assert(q.tr[i] == p.tr[i]);
                    }
                } else if h.remain is Some {
                    assert(q.kept[p.kept.len() as int] == buf[j]);
                } else {
                    lemma_some_consumer(h.tr, p.tr.len());
                    let i = choose|i: int| p.tr.len() <= i < h.tr.len() && consumed(#[trigger] h.tr[i]);
                    assert(consumed(q.tr[i]) && msg_of(q.tr[i]) == Some(m));
                }
            }
        }
    }
}
pub open spec fn msg_of(e: Ev) -> Option<EncodedMessage> {
    match e { Ev::Sent(_, m, _) => Some(m), Ev::Delivered(m) => Some(m), Ev::Received(_) => None }
}
proof fn lemma_some_consumer(t: Seq<Ev>, from: nat)
    requires consumers(t, from) > 0
    ensures exists|i: int| from <= i < t.len() && consumed(#[trigger] t[i])
    decreases t.len()
{
    if t.len() > from {
        if consumed(t.last()) { assert(consumed(t[t.len() - 1])); } else {
            lemma_some_consumer(t.drop_last(), from);
            let i = choose|i: int| from <= i < t.drop_last().len() && consumed(#[trigger] t.drop_last()[i]);
            assert(t[i] == t.drop_last()[i]);
        }
    }
}
proof fn lemma_unexpired(buf: Seq<(Instant, EncodedMessage)>, now: Instant)
    ensures
        forall|i: int| 0 <= i < unexpired(buf, now).len() ==> (#[trigger] unexpired(buf, now)[i]).0.ns() > now.ns() && buf.contains(unexpired(buf, now)[i]),
        forall|j: int| 0 <= j < buf.len() && (#[trigger] buf[j]).0.ns() > now.ns() ==> unexpired(buf, now).contains(buf[j]),
        all_user(buf) ==> all_user(unexpired(buf, now)),
    decreases buf.len()
{
    if buf.len() > 0 {
        let p = buf.drop_last();
        let u = unexpired(buf, now);
        lemma_unexpired(p, now);
        let up = unexpired(p, now);
        assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).0.ns() > now.ns() && buf.contains(u[i]) by {
            if i < up.len() { assert(u[i] == up[i]); let k = choose|k: int| 0 <= k < p.len() && p[k] == up[i]; assert(buf[k] == up[i]); } else { assert(buf[buf.len() - 1] == u[i]); }
        }
        assert forall|j: int| 0 <= j < buf.len() && (#[trigger] buf[j]).0.ns() > now.ns() implies u.contains(buf[j]) by {
            if j < p.len() { assert(p[j] == buf[j]); let k = choose|k: int| 0 <= k < up.len() && up[k] == p[j]; assert(u[k] == buf[j]); } else { assert(u[u.len() - 1] == buf[j]); }
        }
        if all_user(buf) { assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).1.selector.uuid@ != connect_uuid()@ by { assert(p[i] == buf[i]); } }
    }
}
proof fn lemma_alive(eps: Seq<Endpoint>, tr: Seq<Ev>)
    ensures
        forall|i: int| 0 <= i < alive(eps, tr).len() ==> eps.contains(#[trigger] alive(eps, tr)[i]),
        // C02: only an endpoint whose connection is gone is forgotten
        forall|j: int| 0 <= j < eps.len() && !dead(tr, (#[trigger] eps[j]).remote) ==> alive(eps, tr).contains(eps[j]),
    decreases eps.len()
{
    if eps.len() > 0 {
        let p = eps.drop_last();
        let u = alive(eps, tr);
        lemma_alive(p, tr);
        let up = alive(p, tr);
        assert forall|i: int| 0 <= i < u.len() implies eps.contains(#[trigger] u[i]) by {
            if i < up.len() { assert(u[i] == up[i]); let k = choose|k: int| 0 <= k < p.len() && p[k] == up[i]; assert(eps[k] == up[i]); } else { assert(eps[eps.len() - 1] == u[i]); }
        }
        assert forall|j: int| 0 <= j < eps.len() && !dead(tr, (#[trigger] eps[j]).remote) implies u.contains(eps[j]) by {
            if j < p.len() { assert(p[j] == eps[j]); let k = choose|k: int| 0 <= k < up.len() && up[k] == p[j]; assert(u[k] == eps[j]); } else { assert(u[u.len() - 1] == eps[j]); }
        }
    }
}
/// what holds between rounds
pub open spec fn inv(s: State) -> bool { all_admitted(s.eps, s.token, s.tr) && all_user(s.buf) }
/// the invariant is kept by every round, whatever arrives
proof fn lemma_step(s: State)
    requires inv(s)
    ensures
        inv(step(s)), extends(s.tr, step(s).tr), step(s).token == s.token, step(s).own == s.own,
        // C18: one message is taken from the hub in a round, and it is handled before the next is taken
        forall|i: int| s.tr.len() < i < step(s).tr.len() ==> !((#[trigger] step(s).tr[i]) is Received),
        step(s).tr.len() > s.tr.len() && step(s).tr[s.tr.len() as int] == Ev::Received(next_message(s.tr)),
{
    let r = next_message(s.tr);
    let t1 = s.tr.push(Ev::Received(r));
    assert(extends(s.tr, t1));
    assert forall|i: int| 0 <= i < s.eps.len() implies admitted(#[trigger] s.eps[i], s.token, t1) by { lemma_admitted_later(s.eps[i], s.token, s.tr, t1); }
    match r {
        Err(Error::VersionMismatch(_, Some(remote))) => {
            assert(extends(s.tr, step(s).tr));
            assert forall|i: int| 0 <= i < s.eps.len() implies admitted(#[trigger] s.eps[i], s.token, step(s).tr) by { lemma_admitted_later(s.eps[i], s.token, s.tr, step(s).tr); }
        },
        Err(_) => {},
        Ok(m) => {
            let now = clock(t1);
            let s1 = State { tr: t1, ..s };
            lemma_handle_admitted(s1, m, t1);
            let h = handle(s.eps, s.own, s.token, m, t1);
            if m.selector.uuid@ != connect_uuid()@ { lemma_handle_user(s.eps, s.own, m, t1); }
            if h.remain is None && h.connected {
                lemma_retry(State { eps: h.eps, ..s }, h.tr, s.buf, s.buf.len(), now);
            }
            let (eps2, tr2, buf2) = match h.remain {
                Some(x) => (h.eps, h.tr, if x.selector.ttl.ns() == 0 { s.buf } else { s.buf.push((deadline_of(now, x.selector.ttl), x)) }),
                None => if h.connected {
                    let q = retry(h.eps, s.own, s.token, h.tr, s.buf, s.buf.len(), now);
                    (q.eps, q.tr, q.kept)
                } else { (h.eps, h.tr, s.buf) },
            };
            assert(all_user(buf2));
            lemma_unexpired(buf2, now);
            lemma_alive(eps2, tr2);
            assert(all_admitted(eps2, s.token, tr2));
            assert forall|i: int| 0 <= i < step(s).eps.len() implies admitted(#[trigger] step(s).eps[i], s.token, tr2) by {
                let e = step(s).eps[i];
                assert(eps2.contains(e));
                let k = choose|k: int| 0 <= k < eps2.len() && eps2[k] == e;
                assert(admitted(eps2[k], s.token, tr2));
            }
        },
    }
}
/// C03: a round gives a kept message to somebody, keeps it with the same time, or its time is over;
/// and it never keeps a message that was not to be kept.
proof fn lemma_ttl(s: State)
    requires inv(s), next_message(s.tr) is Ok
    ensures ({
        let now = clock(s.tr.push(Ev::Received(next_message(s.tr))));
        let m = next_message(s.tr)->Ok_0;
        let s2 = step(s);
        &&& forall|j: int| 0 <= j < s.buf.len() && (#[trigger] s.buf[j]).0.ns() > now.ns() ==> s2.buf.contains(s.buf[j])
            || (exists|i: int| s.tr.len() < i < s2.tr.len() && consumed(#[trigger] s2.tr[i]) && msg_of(s2.tr[i]) == Some(s.buf[j].1))
        &&& forall|i: int| 0 <= i < s2.buf.len() ==> (#[trigger] s2.buf[i]).0.ns() > now.ns()
            && (s.buf.contains(s2.buf[i]) || (s2.buf[i] == (deadline_of(now, m.selector.ttl), m) && m.selector.ttl.ns() > 0))
        // what is tried in a round is the message that arrived, an answer to it, or a kept message in its time
        &&& forall|i: int| s.tr.len() < i < s2.tr.len() && msg_of(#[trigger] s2.tr[i]) is Some ==> {
            let x = msg_of(s2.tr[i])->0;
            x == m || (exists|a: ConnectMessageAck| x == #[trigger] ack_frame(m.selector, a)) || (exists|j: int| 0 <= j < s.buf.len() && (#[trigger] s.buf[j]).1 == x && s.buf[j].0.ns() > now.ns())
        }
    })
{
    let r = next_message(s.tr);
    let m = r->Ok_0;
    let t1 = s.tr.push(Ev::Received(r));
    let now = clock(t1);
    let s2 = step(s);
    assert forall|i: int| 0 <= i < s.eps.len() implies admitted(#[trigger] s.eps[i], s.token, t1) by { lemma_admitted_later(s.eps[i], s.token, s.tr, t1); }
    lemma_handle_admitted(State { tr: t1, ..s }, m, t1);
    let h = handle(s.eps, s.own, s.token, m, t1);
    if m.selector.uuid@ != connect_uuid()@ { lemma_handle_user(s.eps, s.own, m, t1); }
    let q = retry(h.eps, s.own, s.token, h.tr, s.buf, s.buf.len(), now);
    if h.remain is None && h.connected {
        lemma_retry(State { eps: h.eps, ..s }, h.tr, s.buf, s.buf.len(), now);
    }
    let buf2 = match h.remain {
        Some(x) => if x.selector.ttl.ns() == 0 { s.buf } else { s.buf.push((deadline_of(now, x.selector.ttl), x)) },
        None => if h.connected { q.kept } else { s.buf },
    };
    lemma_unexpired(buf2, now);
    assert(s2.buf == unexpired(buf2, now));
    assert forall|j: int| 0 <= j < s.buf.len() && (#[trigger] s.buf[j]).0.ns() > now.ns() implies s2.buf.contains(s.buf[j])
            || (exists|i: int| s.tr.len() < i < s2.tr.len() && consumed(#[trigger] s2.tr[i]) && msg_of(s2.tr[i]) == Some(s.buf[j].1)) by {
        if h.remain is None && h.connected {
            lemma_retry_kept(State { eps: h.eps, ..s }, h.tr, s.buf, s.buf.len(), now);
            if exists|i: int| 0 <= i < q.kept.len() && #[trigger] q.kept[i] == s.buf[j] {
                let i = choose|i: int| 0 <= i < q.kept.len() && #[trigger] q.kept[i] == s.buf[j];
                assert(buf2[i] == s.buf[j]);
            } else {
                let i = choose|i: int| h.tr.len() <= i < q.tr.len() && consumed(#[trigger] q.tr[i]) && msg_of(q.tr[i]) == Some(s.buf[j].1);
                assert(consumed(s2.tr[i]));
            }
        } else {
            assert(buf2[j] == s.buf[j]);
        }
    }
    assert forall|i: int| 0 <= i < s2.buf.len() implies (#[trigger] s2.buf[i]).0.ns() > now.ns()
            && (s.buf.contains(s2.buf[i]) || (s2.buf[i] == (deadline_of(now, m.selector.ttl), m) && m.selector.ttl.ns() > 0)) by {
        let e = s2.buf[i];
        let k = choose|k: int| 0 <= k < buf2.len() && buf2[k] == e;
        if h.remain is None && h.connected {
            let j = choose|j: int| 0 <= j < s.buf.len() && (#[trigger] s.buf[j]) == q.kept[k];
            assert(s.buf[j] == e);
        } else if k < s.buf.len() {
            assert(s.buf[k] == e);
        }
    }
    assert forall|i: int| s.tr.len() < i < s2.tr.len() && msg_of(#[trigger] s2.tr[i]) is Some implies {
            let x = msg_of(s2.tr[i])->0;
            x == m || (exists|a: ConnectMessageAck| x == #[trigger] ack_frame(m.selector, a)) || (exists|j: int| 0 <= j < s.buf.len() && (#[trigger] s.buf[j]).1 == x && s.buf[j].0.ns() > now.ns())
        } by {
        if i < h.tr.len() { assert(s2.tr[i] == h.tr[i]); }
    }
}

} // verus!
fn main() {}
