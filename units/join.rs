// C12: what joining ends in.
use vstd::prelude::*;
use std::marker::PhantomData;
use std::sync::Arc;
verus! {

//@include prelude.inc
//@include time.inc
broadcast use {time_model::times, tries::tries_push};

#[verifier::external_body]
pub struct Label { x: u8 }
impl Clone for Label {
    #[verifier::external_body]
    fn clone(&self) -> (r: Label) ensures r == *self { unimplemented!() }
}
/*@type file=ipmb/src/lib.rs item=Version
@*/
pub uninterp spec fn this_version() -> Version;
#[verifier::external_body]
pub fn version() -> (r: Version) ensures r == this_version() { unimplemented!() }
/*@type file=ipmb/src/options.rs item=Options
@*/
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct EndpointID { x: u8 }
#[verifier::external_body]
pub struct Remote { x: u8 }
#[verifier::external_body]
pub struct EncodedMessage { x: u8 }
#[verifier::external_body]
pub struct Encoding { x: u8 }
#[verifier::external_body]
pub struct Decoding { x: u8 }
#[verifier::external_body]
pub struct IoFailure { x: u8 }
/*@type file=ipmb/src/errors.rs item=Error
subst: bincode::error::EncodeError ==> Encoding
subst: bincode::error::DecodeError ==> Decoding
subst: std::io::Error ==> IoFailure
@*/
/*@type file=ipmb/src/errors.rs item=JoinError
@*/
#[verifier::external_body]
pub struct IoMultiplexing { x: u8 }
#[verifier::external_body]
pub struct IoHub { x: u8 }
impl IoHub {
    pub uninterp spec fn im(&self) -> Arc<IoMultiplexing>;
    #[verifier::external_body]
    pub fn io_multiplexing(&self) -> (r: Arc<IoMultiplexing>) ensures r == self.im() { unimplemented!() }
}
pub struct Mutex<T> { pub v: T }
impl<T> Mutex<T> {
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Mutex<T>) ensures r.v == v { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T> { x: PhantomData<T> }
impl<T> Sender<T> { pub uninterp spec fn queue(&self) -> int; }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { x: PhantomData<T> }
impl<T> Receiver<T> { pub uninterp spec fn queue(&self) -> int; }
pub mod mpsc { use super::*;
    #[verifier::external_body]
    pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.queue() == r.1.queue() { unimplemented!() }
}

// ---- what was tried
#[allow(inconsistent_fields)]
pub ghost enum Try {
    /// looked for the controller of the bus
    LookUp { identifier: Seq<char>, label: Label, token: Seq<char>, im: Arc<IoMultiplexing>, r: Result<(IoHub, Remote, EndpointID), Error> },
    /// tried to become it
    Register { identifier: Seq<char>, im: Arc<IoMultiplexing>, r: Result<(IoHub, Sender<EncodedMessage>, EndpointID), Error> },
}
pub ghost struct World {
    pub now: int,
    /// when to give up
    pub end: Option<int>,
    pub tries: Seq<Try>,
    pub started: Seq<BusController>,
    /// the clock was looked at, and slept, since the last attempt
    pub waited: bool,
}
#[verifier::external_body]
pub tracked struct Kernel { x: u8 }
impl Kernel { pub uninterp spec fn view(&self) -> World; }
pub open spec fn later(a: World, b: World) -> bool { b == (World { now: b.now, ..a }) && b.now >= a.now }
pub open spec fn end_of(start: int, d: Duration) -> int { if start + d.ns() <= max_instant() { start + d.ns() } else { start + far() } }
impl Instant {
    /// reading the clock takes no time
    #[verifier::external_body]
    pub fn now(Tracked(tr): Tracked<&mut Kernel>) -> (r: Instant) ensures r.ns() == old(tr)@.now, r.ns() + far() <= max_instant(), final(tr)@ == old(tr)@ { unimplemented!() }
}
pub mod thread { use super::*;
    /// there is something to wait for, it is not slept past the end, and not for long
    #[verifier::external_body]
    pub fn sleep(d: Duration, Tracked(tr): Tracked<&mut Kernel>)
        requires old(tr)@.end matches Some(e) ==> old(tr)@.now < e && old(tr)@.now + d.ns() <= e, d.ns() <= 10_000_000_000,
        ensures final(tr)@ == (World { now: final(tr)@.now, waited: true, ..old(tr)@ }), final(tr)@.now >= old(tr)@.now { unimplemented!() }
}
/// contract proved in the unit `connect`
#[verifier::external_body]
pub fn look_up(identifier: &str, label: Label, token: String, im: Arc<IoMultiplexing>, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<(IoHub, Remote, EndpointID), Error>)
    // the time was looked at since the last attempt
    requires old(tr)@.tries.len() > 0 ==> old(tr)@.waited
    ensures final(tr)@.now >= old(tr)@.now, final(tr)@ == (World { now: final(tr)@.now, waited: false, tries: old(tr)@.tries.push(Try::LookUp { identifier: identifier@, label, token: token@, im, r }), ..old(tr)@ }) { unimplemented!() }
/// contract proved in the unit `connect`
#[verifier::external_body]
pub fn register(identifier: &str, im: Arc<IoMultiplexing>, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<(IoHub, Sender<EncodedMessage>, EndpointID), Error>)
    ensures r matches Ok(x) ==> x.0.im() == im,
        final(tr)@.now >= old(tr)@.now, final(tr)@ == (World { now: final(tr)@.now, tries: old(tr)@.tries.push(Try::Register { identifier: identifier@, im, r }), ..old(tr)@ }) { unimplemented!() }
#[verifier::external_body]
pub struct BusController { x: u8 }
impl BusController {
    pub uninterp spec fn endpoint_id(&self) -> EndpointID;
    pub uninterp spec fn label(&self) -> Label;
    pub uninterp spec fn token(&self) -> String;
    pub uninterp spec fn sender(&self) -> Sender<EncodedMessage>;
    pub uninterp spec fn io_hub(&self) -> IoHub;
    /// contract proved in the unit `bus`
    #[verifier::external_body]
    pub fn new(endpoint_id: EndpointID, label: Label, token: String, sender: Sender<EncodedMessage>, io_hub: IoHub) -> (r: BusController)
        ensures r.endpoint_id() == endpoint_id, r.label() == label, r.token() == token, r.sender() == sender, r.io_hub() == io_hub { unimplemented!() }
    /// starts the thread of the controller
    #[verifier::external_body]
    pub fn run(self, Tracked(tr): Tracked<&mut Kernel>) ensures final(tr)@ == (World { started: old(tr)@.started.push(self), ..old(tr)@ }) { unimplemented!() }
}
//@include deadline.inc

// ---- joining
/*@type file=ipmb/src/lib.rs item=Rule
@*/
pub mod tries { use super::*;
pub open spec fn unanswered(t: Try) -> bool { t matches Try::LookUp { r: Err(e), .. } && e is Timeout }
pub open spec fn refused(t: Try) -> bool {
    match t { Try::LookUp { r: Err(e), .. } => e is PermissionDenied, Try::Register { r: Err(e), .. } => e is PermissionDenied, _ => false }
}
pub open spec fn nobody(t: Try) -> bool { t matches Try::LookUp { r: Err(e), .. } && e is IdentifierNotInUse }
/// known at once
pub open spec fn decisive(t: Try) -> bool {
    match t {
        Try::LookUp { r: Ok(_), .. } => true,
        Try::LookUp { r: Err(e), .. } => e is VersionMismatch || e is TokenMismatch,
        Try::Register { r, .. } => r is Ok,
    }
}
pub open spec fn unanswered_n(s: Seq<Try>) -> int decreases s.len() { if s.len() == 0 { 0 } else { unanswered_n(s.drop_last()) + if unanswered(s.last()) { 1int } else { 0 } } }
pub open spec fn refused_n(s: Seq<Try>) -> int decreases s.len() { if s.len() == 0 { 0 } else { refused_n(s.drop_last()) + if refused(s.last()) { 1int } else { 0 } } }
/// every attempt is made with the options, and to become the controller only when nobody is and it is allowed
pub open spec fn proper(s: Seq<Try>, o: Options, im: Arc<IoMultiplexing>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> match #[trigger] s[i] {
        Try::LookUp { identifier, label, token, im: m, .. } => identifier == o.identifier@ && label == o.label && token == o.token@ && m == im,
        Try::Register { identifier, im: m, .. } => identifier == o.identifier@ && m == im && o.controller_affinity && i > 0 && nobody(s[i - 1]),
    }
}
/// nothing that was learnt so far decides
pub open spec fn undecided(s: Seq<Try>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> !decisive(#[trigger] s[i])) && unanswered_n(s) <= 5 && refused_n(s) <= 5
}
pub broadcast proof fn drop_push(s: Seq<Try>, x: Try) ensures (#[trigger] s.push(x)).drop_last() == s, s.push(x).last() == x { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn undecided_push(s: Seq<Try>, x: Try)
    ensures undecided(#[trigger] s.push(x)) == (undecided(s) && !decisive(x) && unanswered_n(s.push(x)) <= 5 && refused_n(s.push(x)) <= 5)
{
    drop_push(s, x);
    let t = s.push(x);
    if undecided(t) { assert forall|i: int| 0 <= i < s.len() implies !decisive(#[trigger] s[i]) by { assert(t[i] == s[i]); } assert(t[s.len() as int] == x); }
}
pub broadcast proof fn unanswered_push(s: Seq<Try>, x: Try) ensures #[trigger] unanswered_n(s.push(x)) == unanswered_n(s) + if unanswered(x) { 1int } else { 0 } { drop_push(s, x); }
pub broadcast proof fn refused_push(s: Seq<Try>, x: Try) ensures #[trigger] refused_n(s.push(x)) == refused_n(s) + if refused(x) { 1int } else { 0 } { drop_push(s, x); }
pub broadcast group tries_push { drop_push, undecided_push, unanswered_push, refused_push }
}
pub use tries::*;
pub open spec fn outcome(w0: World, w: World, o: Options, epoch: u32, im: Arc<IoMultiplexing>, r: Result<Rule, JoinError>) -> bool {
    let s = w.tries;
    &&& proper(s, o, im)
    &&& s.len() > 0
    &&& match r {
        Ok(Rule::Client { endpoint_id, options, remote, io_hub, reader_closed, im: m, epoch: n }) => {
            &&& s.last() matches Try::LookUp { r: Ok(x), .. } && io_hub matches Some(h) && x == (h.v, remote, endpoint_id)
            &&& options == o && !reader_closed && m == im && n == epoch && w.started == w0.started
        },
        Ok(Rule::Server { endpoint_id, bus_sender, receiver, im: m }) => {
            &&& s.last() matches Try::Register { r: Ok(x), .. } && receiver matches Some(q) && x.1 == bus_sender.v && x.2 == endpoint_id && m == im
                // and the controller is running
                && w.started.len() == w0.started.len() + 1 && ({
                    let c = w.started.last();
                    w.started.drop_last() =~= w0.started && c.endpoint_id() == endpoint_id && c.label() == o.label && c.token()@ == o.token@ && c.io_hub() == x.0 && c.sender().queue() == q.v.queue()
                })
        },
        Err(e) => w.started == w0.started && match e {
            JoinError::TokenMismatch => s.last() matches Try::LookUp { r: Err(x), .. } && x is TokenMismatch,
            JoinError::VersionMismatch(v) => {
                ||| (s.last() matches Try::LookUp { r: Err(x), .. } && (x matches Error::VersionMismatch(u, _) && u == v))
                ||| (v == Version((0, 0, 0)) && unanswered(s.last()) && unanswered_n(s) > 5)
            },
            JoinError::PermissionDenied => refused(s.last()) && refused_n(s) > 5,
            JoinError::Timeout => (w.end matches Some(t) && w.now >= t) && undecided(s),
        },
    }
    // as soon as it is known
    &&& undecided(s.drop_last())
}
impl Rule {
/*@fn file=ipmb/src/lib.rs item=Rule::join
sig: fn join(options: Options, epoch: u32, im: Arc<IoMultiplexing>, timeout: Option<Duration>, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<Rule, JoinError>)
spec:
    requires
        old(tr)@.tries.len() == 0,
        old(tr)@.end == (match timeout { Some(d) => Some(end_of(old(tr)@.now, d)), None => None }),
    ensures
        outcome(old(tr)@, final(tr)@, options, epoch, im, r), final(tr)@.now >= old(tr)@.now, final(tr)@.end == old(tr)@.end,
attr: #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
mode loop0: Rule
loop loop0:
    invariant_except_break
        proper(tr@.tries, options, im), tr@.tries.len() > 0 ==> tr@.waited, undecided(tr@.tries), tr@.end == old(tr)@.end, tr@.now >= old(tr)@.now, tr@.started == old(tr)@.started,
        timeout_count == unanswered_n(tr@.tries), permission_denied_count == refused_n(tr@.tries),
    ensures
        outcome(old(tr)@, tr@, options0, epoch, im0, Ok(__v_loop0)), tr@.now >= old(tr)@.now, tr@.end == old(tr)@.end,
pre: let ghost options0 = options; let ghost im0 = im;
ghost now: Tracked(tr)
ghost sleep: Tracked(tr)
ghost look_up: Tracked(tr)
ghost register: Tracked(tr)
ghost run: Tracked(tr)
@*/
}
fn main() {}
} // verus!
