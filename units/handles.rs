// C16: the handles of the C API own one boxed value each, which is released or taken over exactly once
use vstd::prelude::*;
verus! {

//@include prelude.inc

pub mod model {
use super::*;
/// boxed values that only a raw pointer refers to
pub ghost struct World {
    /// address -> (type, value)
    pub live: Map<int, (int, int)>,
    /// handles whose destructor will not run
    pub forgotten: Set<int>,
    /// boxes that are never released
    pub leaked: bool,
}
#[verifier::external_body]
pub tracked struct Sys { x: u8 }
impl Sys { pub uninterp spec fn view(&self) -> World; }
/// a raw pointer of a type
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct To<T> { x: core::marker::PhantomData<T> }
impl<T> Copy for To<T> {}
impl<T> Clone for To<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: To<T>) ensures r == *self { unimplemented!() }
}
impl<T> To<T> { pub uninterp spec fn at(&self) -> int; }
#[allow(non_camel_case_types)]
pub struct c_void {}
pub type Raw = To<c_void>;
pub trait IsRaw { spec fn addr(self) -> int; }
impl<T> IsRaw for To<T> { open spec fn addr(self) -> int { self.at() } }
#[verifier::external_body]
pub fn __cast<T, R: IsRaw>(x: R) -> (r: To<T>) ensures r.at() == x.addr() { unimplemented!() }
pub trait Stored: Sized { spec fn ty() -> int; spec fn id(&self) -> int; }
pub open spec fn slot<T: Stored>(x: T) -> (int, int) { (T::ty(), x.id()) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Box<T> { x: Option<T> }
impl<T: Stored> Box<T> {
    pub uninterp spec fn view(&self) -> T;
    #[verifier::external_body]
    pub fn new(x: T) -> (r: Box<T>) ensures r@ == x { unimplemented!() }
    /// a place that nothing else has
    #[verifier::external_body]
    pub fn into_raw(b: Box<T>, Tracked(tr): Tracked<&mut Sys>) -> (r: To<T>)
        ensures !old(tr)@.live.contains_key(r.at()), final(tr)@ == (World { live: old(tr)@.live.insert(r.at(), slot(b@)), ..old(tr)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn leak(b: Box<T>, Tracked(tr): Tracked<&mut Sys>) -> (r: To<T>)
        ensures !old(tr)@.live.contains_key(r.at()), final(tr)@ == (World { live: old(tr)@.live.insert(r.at(), slot(b@)), ..old(tr)@ }) { unimplemented!() }
    /// only once for each place, and with the type that was put there
    #[verifier::external_body]
    pub fn from_raw(p: To<T>, Tracked(tr): Tracked<&mut Sys>) -> (r: Box<T>)
        requires old(tr)@.live.contains_key(p.at()), old(tr)@.live[p.at()].0 == T::ty()
        ensures slot(r@) == old(tr)@.live[p.at()], final(tr)@ == (World { live: old(tr)@.live.remove(p.at()), ..old(tr)@ }) { unimplemented!() }
    /// `*Box::from_raw(p)`
    #[verifier::external_body]
    pub fn taken(p: To<T>, Tracked(tr): Tracked<&mut Sys>) -> (r: T)
        requires old(tr)@.live.contains_key(p.at()), old(tr)@.live[p.at()].0 == T::ty()
        ensures slot(r) == old(tr)@.live[p.at()], final(tr)@ == (World { live: old(tr)@.live.remove(p.at()), ..old(tr)@ }) { unimplemented!() }
}
pub mod ptr {
use super::*;
#[verifier::external_body]
pub fn read<T: Stored>(p: To<T>, Tracked(tr): Tracked<&mut Sys>) -> (r: T)
    requires old(tr)@.live.contains_key(p.at()), old(tr)@.live[p.at()].0 == T::ty()
    ensures slot(r) == old(tr)@.live[p.at()], final(tr)@ == old(tr)@ { unimplemented!() }
/// the value is released, its place is not
#[verifier::external_body]
pub fn drop_in_place<T: Stored>(p: To<T>, Tracked(tr): Tracked<&mut Sys>)
    requires old(tr)@.live.contains_key(p.at()), old(tr)@.live[p.at()].0 == T::ty()
    ensures final(tr)@ == (World { leaked: true, ..old(tr)@ }) { unimplemented!() }
}
#[verifier::external_body]
pub fn __deref<'a, T: Stored>(p: To<T>, Tracked(tr): Tracked<&mut Sys>) -> (r: &'a T)
    requires old(tr)@.live.contains_key(p.at()), old(tr)@.live[p.at()].0 == T::ty()
    ensures slot(*r) == old(tr)@.live[p.at()], final(tr)@ == old(tr)@ { unimplemented!() }
#[verifier::external_body]
pub fn __deref_mut<'a, T: Stored>(p: To<T>, Tracked(tr): Tracked<&mut Sys>) -> (r: &'a mut T)
    requires old(tr)@.live.contains_key(p.at()), old(tr)@.live[p.at()].0 == T::ty()
    ensures slot(*r) == old(tr)@.live[p.at()], final(tr)@ == old(tr)@ { unimplemented!() }
/// what owns something: a handle, or a box
pub trait Owner { spec fn at_end(self, w: World) -> World; }
impl<T: Stored> Owner for Box<T> { open spec fn at_end(self, w: World) -> World { World { leaked: true, ..w } } }
pub mod mem {
use super::*;
#[verifier::external_body]
pub fn forget<O: Owner>(x: O, Tracked(tr): Tracked<&mut Sys>) ensures final(tr)@ == x.at_end(old(tr)@) { unimplemented!() }
}
#[verifier::external_body]
pub fn drop<T: Stored>(x: Box<T>) { unimplemented!() }
/// the values that handles stand for
#[verifier::external_body]
pub struct String { x: u8 }
impl Stored for String { open spec fn ty() -> int { 0 } uninterp spec fn id(&self) -> int; }
pub mod ipmb {
use super::*;
pub struct BytesMessage {}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct EndpointSender<T> { x: Option<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct EndpointReceiver<T> { x: Option<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Message<T> { x: Option<T> }
#[verifier::external_body]
pub struct MemoryRegistry { x: u8 }
#[verifier::external_body]
pub struct MemoryRegion { x: u8 }
#[verifier::external_body]
pub struct Label { x: u8 }
#[verifier::external_body]
pub struct LabelOp { x: u8 }
impl<T> Stored for EndpointSender<T> { open spec fn ty() -> int { 1 } uninterp spec fn id(&self) -> int; }
impl<T> Stored for EndpointReceiver<T> { open spec fn ty() -> int { 2 } uninterp spec fn id(&self) -> int; }
impl<T> Stored for Message<T> { open spec fn ty() -> int { 3 } uninterp spec fn id(&self) -> int; }
impl Stored for MemoryRegistry { open spec fn ty() -> int { 4 } uninterp spec fn id(&self) -> int; }
impl Stored for MemoryRegion { open spec fn ty() -> int { 5 } uninterp spec fn id(&self) -> int; }
impl Stored for Label { open spec fn ty() -> int { 6 } uninterp spec fn id(&self) -> int; }
impl Stored for LabelOp { open spec fn ty() -> int { 7 } uninterp spec fn id(&self) -> int; }
}
} // model
pub use model::*;

//@include handle.inc H=RString T=String V=String F=String
//@include handle.inc H=Sender T=ipmb::EndpointSender<ipmb::BytesMessage> V=EndpointSender F=ipmb::EndpointSender<ipmb::BytesMessage>
//@include handle.inc H=Receiver T=ipmb::EndpointReceiver<ipmb::BytesMessage> V=EndpointReceiver F=ipmb::EndpointReceiver<ipmb::BytesMessage>
//@include handle.inc H=MemoryRegistry T=ipmb::MemoryRegistry V=MemoryRegistry F=ipmb::MemoryRegistry
//@include handle.inc H=Message T=ipmb::Message<ipmb::BytesMessage> V=Message F=ipmb::Message<ipmb::BytesMessage>
//@include handle.inc H=MemoryRegion T=ipmb::MemoryRegion V=MemoryRegion F=ipmb::MemoryRegion
//@include handle.inc H=Label T=ipmb::Label V=Label F=ipmb::Label
//@include handle.inc H=LabelOp T=ipmb::LabelOp V=LabelOp F=ipmb::LabelOp

fn main() {}
} // verus!
