// The small values everything else is made of: selectors, options, owned descriptors, halves of an
// endpoint, and the guard against deeply nested label expressions.
use vstd::prelude::*;
use std::marker::PhantomData;
use std::sync::Arc;
verus! {

//@include prelude.inc

// ---- selectors and options (C02, C03, C12)
#[verifier::external_body]
pub struct LabelOp { x: u8 }
#[verifier::external_body]
pub struct Label { x: u8 }
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Duration { pub ns: u64 }
impl Duration {
    pub const ZERO: Duration = Duration { ns: 0 };
    pub fn from_secs(s: u64) -> (r: Duration) requires s <= 1000 ensures r.ns == s * 1_000_000_000 { Duration { ns: s * 1_000_000_000 } }
    pub fn from_millis(s: u64) -> (r: Duration) requires s <= 1_000_000 ensures r.ns == s * 1_000_000 { Duration { ns: s * 1_000_000 } }
    pub fn default() -> (r: Duration) ensures r.ns == 0 { Duration { ns: 0 } }
}
pub type Bytes = [u8; 16];
/*@type file=ipmb/src/lib.rs item=SelectorMode
@*/
/*@type file=ipmb/src/lib.rs item=Selector
@*/
/// a conversion (trusted: `Into` is what the type says it is)
pub trait Conv<T> { spec fn conv(&self) -> T; fn into(self) -> (r: T) where Self: Sized ensures r == self.conv(); }

impl Selector {
/*@fn file=ipmb/src/lib.rs item=Selector::unicast
sig: pub fn unicast<L: Conv<LabelOp>>(label_op: L) -> (r: Selector)
spec:
    ensures r.label_op == label_op.conv(), r.mode == SelectorMode::Unicast, r.ttl.ns == 0, r.memory_region_count == 0,
@*/
/*@fn file=ipmb/src/lib.rs item=Selector::multicast
sig: pub fn multicast<L: Conv<LabelOp>>(label_op: L) -> (r: Selector)
spec:
    ensures r.label_op == label_op.conv(), r.mode == SelectorMode::Multicast, r.ttl.ns == 0, r.memory_region_count == 0,
@*/
}
/*@type file=ipmb/src/options.rs item=Options
@*/
impl Options {
/*@fn file=ipmb/src/options.rs item=Options::new
sig: pub fn new<I: Conv<String>, K: Conv<String>>(identifier: I, label: Label, token: K) -> (r: Options)
spec:
    ensures r.identifier == identifier.conv(), r.label == label, r.token == token.conv(), r.controller_affinity,
@*/
}

// ---- the halves of an endpoint share one rule (C15, C18)
#[verifier::external_body]
pub struct Rule { x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { x: PhantomData<T> }
pub struct EndpointSender<T> { pub rule: Arc<RwLock<Rule>>, pub _marker: PhantomData<T> }
impl<T> EndpointSender<T> {
/*@fn file=ipmb/src/lib.rs item=EndpointSender~as~Clone::clone
sig: pub fn clone(&self) -> (r: EndpointSender<T>)
spec:
    ensures r.rule == self.rule,
@*/
}

// ---- a descriptor has one owner (C19)
pub ghost struct Table {
    /// descriptors that are open and owned by a value of this process
    pub open: Set<int>,
    /// descriptors that were closed
    pub closed: Set<int>,
}
#[verifier::external_body]
pub tracked struct Kernel { x: u8 }
impl Kernel { pub uninterp spec fn view(&self) -> Table; }
#[verifier::external_body]
pub struct IoError { x: u8 }
pub mod fd {
    use super::*;
    pub type RawFd = i32;
    #[verifier::external_body]
    pub struct OwnedFd { x: u8 }
    impl OwnedFd {
        #[verifier::external_body]
        pub fn released(self, Tracked(tr): Tracked<&mut Kernel>)
            requires old(tr)@.open.contains(self.raw())
            ensures final(tr)@.open == old(tr)@.open.remove(self.raw()), final(tr)@.closed == old(tr)@.closed.insert(self.raw()) { unimplemented!() }
        pub uninterp spec fn raw(&self) -> int;
        /// only for a descriptor that is open and has no other owner
        #[verifier::external_body]
        pub unsafe fn from_raw_fd(raw: RawFd, Tracked(tr): Tracked<&mut Kernel>) -> (r: OwnedFd)
            requires !old(tr)@.open.contains(raw as int)
            ensures r.raw() == raw, final(tr)@ == (Table { open: old(tr)@.open.insert(raw as int), ..old(tr)@ }) { unimplemented!() }
        #[verifier::external_body]
        pub fn into_raw_fd(self, Tracked(tr): Tracked<&mut Kernel>) -> (r: RawFd)
            requires old(tr)@.open.contains(self.raw())
            ensures r == self.raw(), final(tr)@.open == old(tr)@.open.remove(self.raw()), final(tr)@.closed == old(tr)@.closed { unimplemented!() }
        #[verifier::external_body]
        pub fn as_raw_fd(&self) -> (r: RawFd) ensures r == self.raw() { unimplemented!() }
        /// another descriptor of the same object
        #[verifier::external_body]
        pub fn try_clone(&self, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<OwnedFd, IoError>)
            ensures match r {
                Ok(f) => !old(tr)@.open.contains(f.raw()) && final(tr)@ == (Table { open: old(tr)@.open.insert(f.raw()), ..old(tr)@ }) && same_object(f.raw(), self.raw()),
                Err(_) => final(tr)@ == old(tr)@,
            } { unimplemented!() }
    }
}
pub uninterp spec fn same_object(a: int, b: int) -> bool;
/*@type file=ipmb/src/platform/linux/fd.rs item=Fd
@*/
impl Fd {
    /// the end of a value that nobody took
    #[verifier::external_body]
    fn released(self, Tracked(tr): Tracked<&mut Kernel>)
        requires old(tr)@.open.contains(self.0.raw())
        ensures final(tr)@.open == old(tr)@.open.remove(self.0.raw()), final(tr)@.closed == old(tr)@.closed.insert(self.0.raw()) { unimplemented!() }
/*@fn file=ipmb/src/platform/linux/fd.rs item=Fd::clone
sig: pub fn clone(&self, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<Fd, IoError>)
ghost try_clone: Tracked(tr)
spec:
    ensures match r {
        Ok(f) => !old(tr)@.open.contains(f.0.raw()) && final(tr)@ == (Table { open: old(tr)@.open.insert(f.0.raw()), ..old(tr)@ }) && same_object(f.0.raw(), self.0.raw()),
        Err(_) => final(tr)@ == old(tr)@,
    },
@*/
/*@fn file=ipmb/src/platform/linux/fd.rs item=Fd::from_raw
sig: pub unsafe fn from_raw(raw: fd::RawFd, Tracked(tr): Tracked<&mut Kernel>) -> (r: Fd)
ghost fd::OwnedFd::from_raw_fd: Tracked(tr)
spec:
    requires !old(tr)@.open.contains(raw as int),
    ensures r.0.raw() == raw, final(tr)@ == (Table { open: old(tr)@.open.insert(raw as int), ..old(tr)@ }),
@*/
/*@fn file=ipmb/src/platform/linux/fd.rs item=Fd::into_raw
sig: pub fn into_raw(self, Tracked(tr): Tracked<&mut Kernel>) -> (r: fd::RawFd)
ghost into_raw_fd: Tracked(tr)
ghost released: Tracked(tr)
mode params: drop
spec:
    requires old(tr)@.open.contains(self.0.raw()),
    ensures r == self.0.raw(), final(tr)@.open == old(tr)@.open.remove(self.0.raw()), final(tr)@.closed == old(tr)@.closed,
@*/
/*@fn file=ipmb/src/platform/linux/fd.rs item=Fd::as_raw
sig: pub fn as_raw(&self) -> (r: fd::RawFd)
spec:
    ensures r == self.0.raw(),
@*/
}

// ---- deeply nested expressions are refused, and only those (C07)
/// how many expressions are being decoded around the one under way (thread-local)
#[verifier::external_body]
pub tracked struct Thread { x: u8 }
impl Thread {
    pub uninterp spec fn nesting(&self) -> nat;
}
pub struct Nesting {}
pub const NESTING: Nesting = Nesting {};
impl Nesting {
    #[verifier::external_body]
    pub fn get(&self, Tracked(tr): Tracked<&mut Thread>) -> (r: usize) ensures r == old(tr).nesting(), *final(tr) == *old(tr) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, n: usize, Tracked(tr): Tracked<&mut Thread>) ensures final(tr).nesting() == n { unimplemented!() }
}
impl Nesting {
    #[verifier::external_body]
    pub fn replace(&self, n: usize, Tracked(tr): Tracked<&mut Thread>) -> (r: usize)
        ensures r == old(tr).nesting(), final(tr).nesting() == n { unimplemented!() }
}
pub trait Deserializer { type Error; }
/// what a nested expression is decoded from is again decoded by the function under contract, from a smaller input
#[verifier::external_body]
pub fn decode_boxed<D: Deserializer>(d: D, Tracked(tr): Tracked<&mut Thread>) -> (r: Result<Box<LabelOp>, D::Error>)
    requires 1 <= old(tr).nesting() <= MAX_NESTING
    ensures final(tr).nesting() == old(tr).nesting(), r == decoded(d) { unimplemented!() }
#[verifier::external_body]
pub fn decode_one<D: Deserializer>(d: D, Tracked(tr): Tracked<&mut Thread>) -> (r: Result<LabelOp, D::Error>)
    requires 1 <= old(tr).nesting() <= MAX_NESTING
    ensures
        final(tr).nesting() == old(tr).nesting(),
        match (r, decoded(d)) { (Ok(x), Ok(y)) => x == *y, (Err(x), Err(y)) => x == y, _ => false } { unimplemented!() }
pub uninterp spec fn decoded<D: Deserializer>(d: D) -> Result<Box<LabelOp>, D::Error>;
#[verifier::external_body]
pub fn refused<E>(s: &str) -> E { unimplemented!() }
/*@type file=ipmb/src/label.rs item=MAX_NESTING
@*/
/*@fn file=ipmb/src/label.rs item=deserialize_nested
sig: pub fn deserialize_nested<D: Deserializer>(deserializer: D, Tracked(tr): Tracked<&mut Thread>) -> (r: Result<Box<LabelOp>, D::Error>)
spec:
    ensures
        final(tr).nesting() == old(tr).nesting(),
        old(tr).nesting() >= MAX_NESTING ==> r is Err,
        old(tr).nesting() < 512 ==> r == decoded(deserializer),
ghost get: Tracked(tr)
ghost set: Tracked(tr)
ghost Box::deserialize: Tracked(tr)
subst opt: Box::<LabelOp>::deserialize ==> decode_boxed
subst opt: Box::deserialize ==> decode_boxed
subst opt: LabelOp::deserialize ==> decode_one
ghost LabelOp::deserialize: Tracked(tr)
ghost replace: Tracked(tr)
subst opt: de::Error::custom ==> refused
subst opt: D::Error::custom ==> refused
@*/

} // verus!
fn main() {}
