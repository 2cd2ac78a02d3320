// C16: the C API. Every exported function is one event on the bus's side, with its arguments converted and its outcome reported
use vstd::prelude::*;
verus! {

//@include prelude.inc
//@include time.inc

pub mod model {
use super::*;
pub type Bytes8 = Seq<u8>;
/// what the C side asks of the bus
#[allow(inconsistent_fields)]
pub ghost enum Event {
    Join { identifier: Seq<u8>, label: Set<Seq<u8>>, token: Seq<u8>, affinity: bool, timeout: Option<int>, out: Result<(int, int), ipmb::JoinError> },
    Send { who: int, msg: Msg, out: Result<(), ipmb::SendError> },
    Recv { who: int, timeout: Option<int>, out: Result<Msg, ipmb::RecvError> },
    Registry { id: int },
    Alloc { registry: int, size: int, tag: Option<Seq<u8>>, free: Option<Seq<(int, int)>>, out: Option<int> },
    Maintain { registry: int },
    Region { size: int, out: Option<int> },
    Map { region: int, from: int, to: Option<int>, out: Option<(int, int)> },
    Count { region: int, out: u32 },
    Clone { region: int, out: Result<int, ()> },
    /// a number became an owned object
    Own { obj: int },
    /// an owned object became a number that somebody else has to close
    Disown { obj: int },
    Released { what: What },
    Leaked { what: What },
}
pub ghost enum What { Sender(int), Receiver(int), Registry(int), Message(Msg), Region(int), Label(Set<Seq<u8>>), LabelOp(Tree), Text(Seq<u8>), Object(int) }
pub ghost enum Tree { True, False, Leaf(Seq<u8>), Not(Box<Tree>), And(Box<Tree>, Box<Tree>), Or(Box<Tree>, Box<Tree>) }
pub ghost struct Sel { pub op: Tree, pub multicast: bool, pub ttl: int }
pub ghost struct Msg { pub selector: Sel, pub format: int, pub data: Seq<u8>, pub objects: Seq<int>, pub regions: Seq<int> }

#[verifier::external_body]
pub tracked struct Sys { x: u8 }
impl Sys { pub uninterp spec fn view(&self) -> Seq<Event>; }

// ---- C text
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct CText { x: u8 }
impl CText {
    pub uninterp spec fn null(&self) -> bool;
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn is_null(self) -> (r: bool) ensures r == self.null() { unimplemented!() }
}
pub uninterp spec fn utf8(s: Seq<u8>) -> bool;
pub uninterp spec fn lossy(s: Seq<u8>) -> Seq<u8>;
pub mod text {
use super::*;
#[verifier::external_body]
pub broadcast proof fn lossy_is_exact(s: Seq<u8>)
    ensures utf8(s) ==> #[trigger] lossy(s) == s { }
}
#[verifier::external_body]
pub struct CStr { x: u8 }
pub struct Utf8Error {}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Str { x: u8 }
#[verifier::external_body]
pub struct String { x: u8 }
#[verifier::external_body]
pub struct Cow { x: u8 }
impl CStr {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_ptr(s: CText) -> (r: CStr) requires !s.null() ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Result<Str, Utf8Error>)
        ensures r is Ok == utf8(self@), r matches Ok(x) ==> x@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: Cow) ensures r@ == lossy(self@) { unimplemented!() }
}
impl Str {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn to_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
impl String {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from(s: Str) -> (r: String) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: BytePtr) ensures !r.null(), r.at() == self.at(), r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    pub uninterp spec fn at(&self) -> int;
}
impl Cow {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub trait AsTag { spec fn shown(self) -> Option<Seq<u8>>; fn as_tag(&self) -> (r: Option<Str>) ensures text_of(r) == self.shown(); }
pub open spec fn text_of(s: Option<Str>) -> Option<Seq<u8>> { match s { Some(x) => Some(x@), None => None } }
impl AsTag for Option<Cow> {
    open spec fn shown(self) -> Option<Seq<u8>> { match self { Some(x) => Some(x@), None => None } }
    #[verifier::external_body]
    fn as_tag(&self) -> (r: Option<Str>) { unimplemented!() }
}
impl AsTag for Option<String> {
    open spec fn shown(self) -> Option<Seq<u8>> { match self { Some(x) => Some(x@), None => None } }
    #[verifier::external_body]
    fn as_tag(&self) -> (r: Option<Str>) { unimplemented!() }
}
/// a label or an expression is made of text
pub trait Text { spec fn bytes(self) -> Seq<u8>; }
impl Text for Cow { open spec fn bytes(self) -> Seq<u8> { self@ } }
impl Text for String { open spec fn bytes(self) -> Seq<u8> { self@ } }
impl Text for Str { open spec fn bytes(self) -> Seq<u8> { self@ } }

// ---- pointers
/// bytes somewhere: a null pointer, or an address with as many bytes as are readable there
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct BytePtr { x: u8 }
impl BytePtr {
    pub uninterp spec fn null(&self) -> bool;
    pub uninterp spec fn at(&self) -> int;
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn is_null(self) -> (r: bool) ensures r == self.null() { unimplemented!() }
}
pub mod slice {
use super::*;
#[verifier::external_body]
pub struct Slice { x: u8 }
impl Slice {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn from_raw_parts(p: BytePtr, n: usize) -> (r: Slice)
    requires !p.null(), n <= p@.len()
    ensures r@ == p@.take(n as int) { unimplemented!() }
}
pub trait AsPtr { spec fn content(&self) -> Seq<u8>; spec fn place(&self) -> int;
    fn ptr_of(&self) -> (r: BytePtr) ensures r@ == self.content(), r.at() == self.place(), !r.null(); }
pub uninterp spec fn at_vec(v: Vec<u8>) -> int;
impl AsPtr for Vec<u8> {
    open spec fn content(&self) -> Seq<u8> { self@ }
    open spec fn place(&self) -> int { at_vec(*self) }
    #[verifier::external_body]
    fn ptr_of(&self) -> (r: BytePtr) { unimplemented!() }
}
impl AsPtr for String {
    open spec fn content(&self) -> Seq<u8> { self@ }
    open spec fn place(&self) -> int { self.at() }
    #[verifier::external_body]
    fn ptr_of(&self) -> (r: BytePtr) { unimplemented!() }
}
/// where the caller wants a result, or null
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Out<T> { x: Option<T> }
impl<T> Out<T> {
    pub uninterp spec fn null(&self) -> bool;
    /// what was written there
    pub uninterp spec fn view(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == self.null() { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, v: T)
        requires !old(self).null()
        ensures final(self)@ == Some(v), !final(self).null() { unimplemented!() }
}
pub mod ptr {
use super::*;
#[verifier::external_body]
pub fn write<T>(p: &mut Out<T>, v: T)
    requires !old(p).null()
    ensures final(p)@ == Some(v), !final(p).null() { unimplemented!() }
pub trait Null: Sized { spec fn is_nul(self) -> bool; }
impl Null for BytePtr { open spec fn is_nul(self) -> bool { self.null() } }
impl Null for HandlePtr { open spec fn is_nul(self) -> bool { self@ is Null } }
#[verifier::external_body]
pub fn null_mut<T: Null>() -> (r: T) ensures r.is_nul() { unimplemented!() }
}
/// the pointer inside of a handle
pub ghost enum Handle { Null, Owned(int), Borrowed(int) }
#[verifier::external_body]
pub struct HandlePtr { x: u8 }
impl HandlePtr { pub uninterp spec fn view(&self) -> Handle; }
#[verifier::external_body]
pub fn __cast<T, R: IsRegion>(x: &mut R) -> (r: HandlePtr)
    ensures r@ == Handle::Borrowed(old(x).rid()), *final(x) == *old(x) { unimplemented!() }
pub trait IsRegion { spec fn rid(&self) -> int; }
impl IsRegion for ipmb::MemoryRegion { open spec fn rid(&self) -> int { self.id() } }

/// the C side's free function and its context
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct FreeFn { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Context { x: u8 }
impl Context { pub uninterp spec fn id(&self) -> int; }
impl FreeFn {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn call(&self, c: Context, log: &mut Later) ensures final(log)@ == old(log)@.push((self.id(), c.id())) { unimplemented!() }
}
/// what a callback does when it runs
#[verifier::external_body]
pub struct Later { x: u8 }
impl Later {
    pub uninterp spec fn view(&self) -> Seq<(int, int)>;
    #[verifier::external_body]
    pub fn new() -> (r: Later) ensures r@ == Seq::<(int, int)>::empty() { unimplemented!() }
}
/// ranges of a mapping
pub struct Bounds { pub from: usize, pub to: Option<usize> }
pub fn __range_from_(a: usize) -> (r: Bounds) ensures r == (Bounds { from: a, to: None }) { Bounds { from: a, to: None } }
pub fn __range_from_to(a: usize, b: usize) -> (r: Bounds) ensures r == (Bounds { from: a, to: Some(b) }) { Bounds { from: a, to: Some(b) } }
pub fn __range_to(b: usize) -> (r: Bounds) ensures r == (Bounds { from: 0, to: Some(b) }) { Bounds { from: 0, to: Some(b) } }
pub fn __range_() -> (r: Bounds) ensures r == (Bounds { from: 0, to: None }) { Bounds { from: 0, to: None } }

// ---- the bus
pub mod ipmb {
use super::*;
pub struct Options { pub identifier: String, pub label: Label, pub token: String, pub controller_affinity: bool }
#[verifier::external_body]
pub struct Version { x: u8 }
impl Version {
    pub uninterp spec fn view(&self) -> (u8, u8, u8);
    #[verifier::external_body]
    pub fn major(&self) -> (r: u8) ensures r == self@.0 { unimplemented!() }
    #[verifier::external_body]
    pub fn minor(&self) -> (r: u8) ensures r == self@.1 { unimplemented!() }
    #[verifier::external_body]
    pub fn patch(&self) -> (r: u8) ensures r == self@.2 { unimplemented!() }
}
pub uninterp spec fn own() -> (u8, u8, u8);
pub uninterp spec fn own_pre() -> Seq<u8>;
#[verifier::external_body]
pub fn version() -> (r: Version) ensures r@ == own() { unimplemented!() }
#[verifier::external_body]
pub fn version_pre() -> (r: String) ensures r@ == own_pre() { unimplemented!() }
pub struct Error {}
pub enum JoinError { VersionMismatch(Version), TokenMismatch, PermissionDenied, Timeout }
pub enum SendError { VersionMismatch(Version), TokenMismatch, PermissionDenied, Timeout }
pub enum RecvError { Timeout, Decode(Error), VersionMismatch(Version), TokenMismatch, PermissionDenied }
pub struct BytesMessage { pub format: u16, pub data: Vec<u8> }
#[verifier::external_body]
pub struct EndpointSender { x: u8 }
#[verifier::external_body]
pub struct EndpointReceiver { x: u8 }
impl EndpointSender { pub uninterp spec fn id(&self) -> int; }
impl EndpointReceiver { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body]
pub fn join<T, R>(o: Options, timeout: Option<Duration>, Tracked(tr): Tracked<&mut Sys>) -> (r: Result<(EndpointSender, EndpointReceiver), JoinError>)
    ensures final(tr)@ == old(tr)@.push(Event::Join { identifier: o.identifier@, label: o.label@, token: o.token@, affinity: o.controller_affinity, timeout: odur(timeout),
        out: match r { Ok(p) => Ok((p.0.id(), p.1.id())), Err(e) => Err(e) } }) { unimplemented!() }
#[verifier::external_body]
pub struct Label { x: u8 }
impl Label {
    pub uninterp spec fn view(&self) -> Set<Seq<u8>>;
    #[verifier::external_body]
    pub fn default() -> (r: Label) ensures r@ == Set::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Label) ensures r@ == Set::<Seq<u8>>::empty() { unimplemented!() }
}
pub enum LabelOp { True, False, Other(Opaque) }
#[verifier::external_body]
pub struct Opaque { x: u8 }
impl Opaque { pub uninterp spec fn view(&self) -> Tree; }
impl LabelOp {
    pub open spec fn view(&self) -> Tree { match self { LabelOp::True => Tree::True, LabelOp::False => Tree::False, LabelOp::Other(o) => o@ } }
    #[verifier::external_body]
    pub fn from<T: Text>(s: T) -> (r: LabelOp) ensures r@ == Tree::Leaf(s.bytes()) { unimplemented!() }
    #[verifier::external_body]
    pub fn not(self) -> (r: LabelOp) ensures r@ == Tree::Not(Box::new(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn and<R: Conv<LabelOp>>(self, o: R) -> (r: LabelOp) requires o.ok() ensures exists|x: LabelOp| o.rel(x) && r@ == Tree::And(Box::new(self@), Box::new(#[trigger] x@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn or<R: Conv<LabelOp>>(self, o: R) -> (r: LabelOp) requires o.ok() ensures exists|x: LabelOp| o.rel(x) && r@ == Tree::Or(Box::new(self@), Box::new(#[trigger] x@)) { unimplemented!() }
}
pub struct Selector { pub label_op: LabelOp, pub mode: SelectorMode, pub ttl: Duration, pub uuid: u128 }
pub enum SelectorMode { Unicast, Multicast }
impl Selector {
    pub open spec fn view(&self) -> Sel { Sel { op: self.label_op@, multicast: self.mode is Multicast, ttl: self.ttl.ns() } }
    #[verifier::external_body]
    pub fn unicast(op: LabelOp) -> (r: Selector) ensures r.label_op@ == op@, r.mode is Unicast { unimplemented!() }
    #[verifier::external_body]
    pub fn multicast(op: LabelOp) -> (r: Selector) ensures r.label_op@ == op@, r.mode is Multicast { unimplemented!() }
}
#[verifier::external_body]
pub struct Object { x: u8 }
impl Object {
    pub uninterp spec fn id(&self) -> int;
    /// from here on closing it is this value's duty
    #[verifier::external_body]
    pub fn from_raw(n: i32, Tracked(tr): Tracked<&mut Sys>) -> (r: Object)
        ensures r.id() == n, final(tr)@ == old(tr)@.push(Event::Own { obj: n as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_raw(self, Tracked(tr): Tracked<&mut Sys>) -> (r: i32)
        ensures r == self.id(), r >= 0, final(tr)@ == old(tr)@.push(Event::Disown { obj: r as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_raw(&self) -> (r: i32) ensures r == self.id(), r >= 0 { unimplemented!() }
}
#[verifier::external_body]
pub struct MemoryRegion { x: u8 }
#[verifier::external_body]
pub struct Mapped { x: u8 }
impl Mapped {
    pub uninterp spec fn view(&self) -> (int, int);
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.1, r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut_ptr(&self) -> (r: BytePtr) ensures r.at() == self@.0, !r.null() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: BytePtr) ensures r.at() == self@.0, !r.null() { unimplemented!() }
}
impl MemoryRegion {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(n: usize, Tracked(tr): Tracked<&mut Sys>) -> (r: Option<MemoryRegion>)
        ensures final(tr)@ == old(tr)@.push(Event::Region { size: n as int, out: oid(r) }) { unimplemented!() }
}
pub open spec fn oid(r: Option<MemoryRegion>) -> Option<int> { match r { Some(x) => Some(x.id()), None => None } }
#[verifier::external_body]
pub struct MemoryRegistry { x: u8 }
impl MemoryRegistry {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn default(Tracked(tr): Tracked<&mut Sys>) -> (r: MemoryRegistry) ensures final(tr)@ == old(tr)@.push(Event::Registry { id: r.id() }) { unimplemented!() }
}
pub struct Message { pub selector: Selector, pub payload: BytesMessage, pub objects: Vec<Object>, pub memory_regions: Vec<MemoryRegion> }
impl Message {
    pub open spec fn view(&self) -> Msg { msg_of(self.selector, self.payload, self.objects, self.memory_regions) }
    #[verifier::external_body]
    pub fn new(s: Selector, p: BytesMessage) -> (r: Message)
        ensures r.selector@ == s@, r.payload == p, r.objects@.len() == 0, r.memory_regions@.len() == 0 { unimplemented!() }
}
} // ipmb
pub open spec fn odur(t: Option<Duration>) -> Option<int> { match t { Some(d) => Some(d.ns()), None => None } }
pub open spec fn msg_of(s: ipmb::Selector, p: ipmb::BytesMessage, o: Vec<ipmb::Object>, m: Vec<ipmb::MemoryRegion>) -> Msg {
    Msg { selector: s@, format: p.format as int, data: p.data@, objects: o@.map_values(|x: ipmb::Object| x.id()), regions: m@.map_values(|x: ipmb::MemoryRegion| x.id()) }
}

// ---- handles: what the conversions of `opaque_type!` do is proved in the second half
pub trait Conv<T>: Sized {
    spec fn ok(self) -> bool;
    spec fn rel(self, r: T) -> bool;
    fn conv(self) -> (r: T) requires self.ok() ensures self.rel(r);
}
pub struct RString { pub inner: String }
pub struct Sender { pub inner: ipmb::EndpointSender }
pub struct Receiver { pub inner: ipmb::EndpointReceiver }
pub struct MemoryRegistry { pub inner: ipmb::MemoryRegistry }
pub struct MemoryRegion(pub HandlePtr);
pub struct Label { pub inner: ipmb::Label }
pub struct LabelOp { pub inner: ipmb::LabelOp }
pub struct Message { pub selector: ipmb::Selector, pub payload: ipmb::BytesMessage, pub objects: Vec<ipmb::Object>, pub memory_regions: Vec<ipmb::MemoryRegion> }
impl Message { pub open spec fn view(&self) -> Msg { msg_of(self.selector, self.payload, self.objects, self.memory_regions) } }

impl Conv<RString> for String { open spec fn ok(self) -> bool { true } open spec fn rel(self, r: RString) -> bool { r.inner == self } fn conv(self) -> (r: RString) { RString { inner: self } } }
impl Conv<Sender> for ipmb::EndpointSender { open spec fn ok(self) -> bool { true } open spec fn rel(self, r: Sender) -> bool { r.inner == self } fn conv(self) -> (r: Sender) { Sender { inner: self } } }
impl Conv<Receiver> for ipmb::EndpointReceiver { open spec fn ok(self) -> bool { true } open spec fn rel(self, r: Receiver) -> bool { r.inner == self } fn conv(self) -> (r: Receiver) { Receiver { inner: self } } }
impl Conv<MemoryRegistry> for ipmb::MemoryRegistry { open spec fn ok(self) -> bool { true } open spec fn rel(self, r: MemoryRegistry) -> bool { r.inner == self } fn conv(self) -> (r: MemoryRegistry) { MemoryRegistry { inner: self } } }
impl Conv<Label> for ipmb::Label { open spec fn ok(self) -> bool { true } open spec fn rel(self, r: Label) -> bool { r.inner == self } fn conv(self) -> (r: Label) { Label { inner: self } } }
impl Conv<LabelOp> for ipmb::LabelOp { open spec fn ok(self) -> bool { true } open spec fn rel(self, r: LabelOp) -> bool { r.inner == self } fn conv(self) -> (r: LabelOp) { LabelOp { inner: self } } }
impl Conv<ipmb::LabelOp> for LabelOp { open spec fn ok(self) -> bool { true } open spec fn rel(self, r: ipmb::LabelOp) -> bool { r == self.inner } fn conv(self) -> (r: ipmb::LabelOp) { self.inner } }
impl Conv<ipmb::LabelOp> for ipmb::LabelOp { open spec fn ok(self) -> bool { true } open spec fn rel(self, r: ipmb::LabelOp) -> bool { r == self } fn conv(self) -> (r: ipmb::LabelOp) { self } }
impl Conv<Message> for ipmb::Message {
    open spec fn ok(self) -> bool { true }
    open spec fn rel(self, r: Message) -> bool { r == (Message { selector: self.selector, payload: self.payload, objects: self.objects, memory_regions: self.memory_regions }) }
    fn conv(self) -> (r: Message) { Message { selector: self.selector, payload: self.payload, objects: self.objects, memory_regions: self.memory_regions } }
}
impl Conv<ipmb::Message> for Message {
    open spec fn ok(self) -> bool { true }
    open spec fn rel(self, r: ipmb::Message) -> bool { r == (ipmb::Message { selector: self.selector, payload: self.payload, objects: self.objects, memory_regions: self.memory_regions }) }
    fn conv(self) -> (r: ipmb::Message) { ipmb::Message { selector: self.selector, payload: self.payload, objects: self.objects, memory_regions: self.memory_regions } }
}
impl Conv<MemoryRegion> for ipmb::MemoryRegion {
    open spec fn ok(self) -> bool { true }
    open spec fn rel(self, r: MemoryRegion) -> bool { r.0@ == Handle::Owned(self.id()) }
    #[verifier::external_body]
    fn conv(self) -> (r: MemoryRegion) { unimplemented!() }
}
impl Conv<ipmb::MemoryRegion> for MemoryRegion {
    open spec fn ok(self) -> bool { self.0@ is Owned }
    open spec fn rel(self, r: ipmb::MemoryRegion) -> bool { r.id() == self.0@->Owned_0 }
    #[verifier::external_body]
    fn conv(self) -> (r: ipmb::MemoryRegion) { unimplemented!() }
}
impl Conv<ipmb::Selector> for Selector {
    open spec fn ok(self) -> bool { true }
    open spec fn rel(self, r: ipmb::Selector) -> bool { r@ == sel(self) }
    fn conv(self) -> (r: ipmb::Selector) { selector_from(self) }
}
impl LabelOp {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ipmb::LabelOp) ensures r@ == self.inner@ { unimplemented!() }
}
impl Label {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ipmb::Label) ensures r@ == self.inner@ { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<T: Text>(&mut self, s: T) ensures final(self).inner@ == old(self).inner@.insert(s.bytes()) { unimplemented!() }
}
impl RString {
    #[verifier::external_body]
    pub fn ptr_of(&self) -> (r: BytePtr) ensures !r.null(), r.at() == self.inner.at(), r@ == self.inner@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.inner@.len() { unimplemented!() }
}
impl Sender {
    #[verifier::external_body]
    pub fn send(&mut self, m: ipmb::Message, Tracked(tr): Tracked<&mut Sys>) -> (r: Result<(), ipmb::SendError>)
        ensures *final(self) == *old(self), final(tr)@ == old(tr)@.push(Event::Send { who: old(self).inner.id(), msg: m@, out: r }) { unimplemented!() }
}
impl Receiver {
    #[verifier::external_body]
    pub fn recv(&mut self, timeout: Option<Duration>, Tracked(tr): Tracked<&mut Sys>) -> (r: Result<ipmb::Message, ipmb::RecvError>)
        ensures *final(self) == *old(self),
            final(tr)@ == old(tr)@.push(Event::Recv { who: old(self).inner.id(), timeout: odur(timeout), out: match r { Ok(m) => Ok(m@), Err(e) => Err(e) } }) { unimplemented!() }
}
impl MemoryRegistry {
    #[verifier::external_body]
    pub fn alloc(&mut self, size: usize, tag: Option<Str>, Tracked(tr): Tracked<&mut Sys>) -> (r: Option<ipmb::MemoryRegion>)
        ensures final(self).inner.id() == old(self).inner.id(),
            final(tr)@ == old(tr)@.push(Event::Alloc { registry: old(self).inner.id(), size: size as int, tag: text_of(tag), free: None, out: ipmb::oid(r) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_with_free(&mut self, size: usize, tag: Option<Str>, free: Later, Tracked(tr): Tracked<&mut Sys>) -> (r: Option<ipmb::MemoryRegion>)
        ensures final(self).inner.id() == old(self).inner.id(),
            final(tr)@ == old(tr)@.push(Event::Alloc { registry: old(self).inner.id(), size: size as int, tag: text_of(tag), free: Some(free@), out: ipmb::oid(r) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn maintain(&mut self, Tracked(tr): Tracked<&mut Sys>)
        ensures final(self).inner.id() == old(self).inner.id(), final(tr)@ == old(tr)@.push(Event::Maintain { registry: old(self).inner.id() }) { unimplemented!() }
}
impl MemoryRegion {
    pub open spec fn valid(&self) -> bool { !(self.0@ is Null) }
    pub open spec fn id(&self) -> int { match self.0@ { Handle::Owned(i) => i, Handle::Borrowed(i) => i, Handle::Null => -1 } }
    #[verifier::external_body]
    pub fn map(&mut self, b: Bounds, Tracked(tr): Tracked<&mut Sys>) -> (r: Result<ipmb::Mapped, ipmb::Error>)
        requires old(self).valid()
        ensures *final(self) == *old(self),
            final(tr)@ == old(tr)@.push(Event::Map { region: old(self).id(), from: b.from as int, to: match b.to { Some(x) => Some(x as int), None => None }, out: match r { Ok(v) => Some(v@), Err(_) => None } }) { unimplemented!() }
    #[verifier::external_body]
    pub fn ref_count(&self, Tracked(tr): Tracked<&mut Sys>) -> (r: u32)
        requires self.valid()
        ensures final(tr)@ == old(tr)@.push(Event::Count { region: self.id(), out: r }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self, Tracked(tr): Tracked<&mut Sys>) -> (r: Result<ipmb::MemoryRegion, ipmb::Error>)
        requires self.valid()
        ensures final(tr)@ == old(tr)@.push(Event::Clone { region: self.id(), out: match r { Ok(x) => Ok(x.id()), Err(_) => Err(()) } }) { unimplemented!() }
}
/// dropping a value: explicitly, or at the end of its scope
pub trait Owned: Sized {
    spec fn what(self) -> What;
    spec fn whole(self) -> bool;
    #[verifier::external_body]
    fn released(self, Tracked(tr): Tracked<&mut Sys>) requires self.whole() ensures final(tr)@ == old(tr)@.push(Event::Released { what: self.what() }) { unimplemented!() }
}
impl Owned for RString { open spec fn what(self) -> What { What::Text(self.inner@) } open spec fn whole(self) -> bool { true } }
impl Owned for Sender { open spec fn what(self) -> What { What::Sender(self.inner.id()) } open spec fn whole(self) -> bool { true } }
impl Owned for Receiver { open spec fn what(self) -> What { What::Receiver(self.inner.id()) } open spec fn whole(self) -> bool { true } }
impl Owned for MemoryRegistry { open spec fn what(self) -> What { What::Registry(self.inner.id()) } open spec fn whole(self) -> bool { true } }
impl Owned for Message { open spec fn what(self) -> What { What::Message(self@) } open spec fn whole(self) -> bool { true } }
impl Owned for MemoryRegion { open spec fn what(self) -> What { What::Region(self.id()) } open spec fn whole(self) -> bool { self.0@ is Owned } }
impl Owned for Label { open spec fn what(self) -> What { What::Label(self.inner@) } open spec fn whole(self) -> bool { true } }
impl Owned for LabelOp { open spec fn what(self) -> What { What::LabelOp(self.inner@) } open spec fn whole(self) -> bool { true } }
impl Owned for ipmb::Object { open spec fn what(self) -> What { What::Object(self.id()) } open spec fn whole(self) -> bool { true } }
#[verifier::external_body]
pub fn drop<T: Owned>(x: T, Tracked(tr): Tracked<&mut Sys>) requires x.whole() ensures final(tr)@ == old(tr)@.push(Event::Released { what: x.what() }) { unimplemented!() }
pub mod mem {
use super::*;
#[verifier::external_body]
pub fn forget<T: Owned>(x: T, Tracked(tr): Tracked<&mut Sys>) ensures final(tr)@ == old(tr)@.push(Event::Leaked { what: x.what() }) { unimplemented!() }
}
} // model
pub use model::*;

pub mod spec {
use super::*;
#[derive(Clone, Copy)]
pub struct Selector { pub label_op: &'static LabelOp, pub mode: SelectorMode, pub ttl: u32 }
#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
pub enum SelectorMode { kUnicast, kMulticast }
pub struct Options { pub identifier: CText, pub label: &'static Label, pub token: CText, pub controller_affinity: bool }
pub type ErrorCode = i32;
pub type Object = u64;

/// milliseconds, with all ones for no limit
pub open spec fn ms(t: u32) -> Option<int> { if t == 0xffff_ffff { None } else { Some(t * 1_000_000) } }
pub open spec fn sel(s: Selector) -> Sel { Sel { op: s.label_op.inner@, multicast: s.mode is kMulticast, ttl: s.ttl * 1_000_000 } }
pub open spec fn tag_of(t: CText) -> Option<Seq<u8>> { if t.null() { None } else { Some(lossy(t@)) } }
// the documented codes
pub open spec fn join_code(r: Result<(int, int), ipmb::JoinError>) -> int {
    match r {
        Ok(_) => 0,
        Err(ipmb::JoinError::Timeout) => -2,
        Err(ipmb::JoinError::VersionMismatch(_)) => -4,
        Err(ipmb::JoinError::TokenMismatch) => -5,
        Err(ipmb::JoinError::PermissionDenied) => -6,
    }
}
pub open spec fn send_code(r: Result<(), ipmb::SendError>) -> int {
    match r {
        Ok(_) => 0,
        Err(ipmb::SendError::Timeout) => -2,
        Err(ipmb::SendError::VersionMismatch(_)) => -4,
        Err(ipmb::SendError::TokenMismatch) => -5,
        Err(ipmb::SendError::PermissionDenied) => -6,
    }
}
pub open spec fn recv_code(r: Result<Msg, ipmb::RecvError>) -> int {
    match r {
        Ok(_) => 0,
        Err(ipmb::RecvError::Timeout) => -2,
        Err(ipmb::RecvError::Decode(_)) => -3,
        Err(ipmb::RecvError::VersionMismatch(_)) => -4,
        Err(ipmb::RecvError::TokenMismatch) => -5,
        Err(ipmb::RecvError::PermissionDenied) => -6,
    }
}
pub open spec fn joined(o: Options, t: u32, out: Result<(int, int), ipmb::JoinError>) -> Event {
    Event::Join { identifier: o.identifier@, label: o.label.inner@, token: o.token@, affinity: o.controller_affinity, timeout: ms(t), out }
}
/// an optional result
pub open spec fn unless_null<T>(old: Out<T>, new: Out<T>, done: bool, v: spec_fn(T) -> bool) -> bool {
    &&& new.null() == old.null()
    &&& if done && !old.null() { new@ is Some && v(new@->0) } else { new@ == old@ }
}
/// a region that was asked for
pub open spec fn region_out(old: Out<MemoryRegion>, new: Out<MemoryRegion>, out: Option<int>, code: i32) -> bool {
    match out {
        Some(id) => code == 0 && new@ is Some && ((new@->0).0)@ == Handle::Owned(id),
        None => code == -1 && new@ == old@,
    }
}
} // spec
pub use spec::*;
broadcast use {times, text::lossy_is_exact};

/*@type file=ipmb-ffi/src/lib.rs item=ERROR_CODE_SUCCESS
@*/
/*@type file=ipmb-ffi/src/lib.rs item=ERROR_CODE_UNKNOWN
@*/
/*@type file=ipmb-ffi/src/lib.rs item=ERROR_CODE_TIMEOUT
@*/
/*@type file=ipmb-ffi/src/lib.rs item=ERROR_CODE_DECODE
@*/
/*@type file=ipmb-ffi/src/lib.rs item=ERROR_CODE_VERSION_MISMATCH
@*/
/*@type file=ipmb-ffi/src/lib.rs item=ERROR_CODE_TOKEN_MISMATCH
@*/
/*@type file=ipmb-ffi/src/lib.rs item=ERROR_CODE_PERMISSION_DENIED
@*/
/*@type file=ipmb-ffi/src/lib.rs item=TIMEOUT_INFINITE
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_rstring_data
sig: pub fn ipmb_rstring_data(rstring: &RString, ptr: &mut BytePtr, size: &mut usize)
spec: ensures !final(ptr).null(), final(ptr).at() == rstring.inner.at(), *final(size) == rstring.inner@.len()
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_version
sig: pub fn ipmb_version(major: &mut Out<u8>, minor: &mut Out<u8>, patch: &mut Out<u8>)
spec: ensures
        unless_null(*old(major), *final(major), true, |v: u8| v == ipmb::own().0),
        unless_null(*old(minor), *final(minor), true, |v: u8| v == ipmb::own().1),
        unless_null(*old(patch), *final(patch), true, |v: u8| v == ipmb::own().2),
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
mode out: major,minor,patch
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_version_pre
sig: pub fn ipmb_version_pre() -> (r: RString)
spec: ensures r.inner@ == ipmb::own_pre()
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_join
sig: pub fn ipmb_join(options: Options, timeout: u32, p_sender: &mut Out<Sender>, p_receiver: &mut Out<Receiver>, Tracked(tr): Tracked<&mut Sys>) -> (r: ErrorCode)
spec: requires !options.identifier.null(), !options.token.null()
    ensures
        utf8(options.identifier@) && utf8(options.token@) ==> final(tr)@.len() == old(tr)@.len() + 1 && ({
            let out = final(tr)@.last()->Join_out;
            &&& final(tr)@ == old(tr)@.push(joined(options, timeout, out)) && r == join_code(out)
            &&& unless_null(*old(p_sender), *final(p_sender), out is Ok, |s: Sender| s.inner.id() == (out->Ok_0).0)
            &&& unless_null(*old(p_receiver), *final(p_receiver), out is Ok, |s: Receiver| s.inner.id() == (out->Ok_0).1)
        }),
        !(utf8(options.identifier@) && utf8(options.token@)) ==> r == -1 && final(tr)@ == old(tr)@ && *final(p_sender) == *old(p_sender) && *final(p_receiver) == *old(p_receiver),
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
pre: proof { assert(!0u32 == 0xffff_ffffu32) by (bit_vector); }
mode out: p_sender,p_receiver
ghost ipmb::join: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_send
sig: pub fn ipmb_send(sender: &mut Sender, message: Message, Tracked(tr): Tracked<&mut Sys>) -> (r: ErrorCode)
spec: ensures
        final(tr)@.len() == old(tr)@.len() + 1,
        final(tr)@ == old(tr)@.push(Event::Send { who: old(sender).inner.id(), msg: message@, out: final(tr)@.last()->Send_out }),
        r == send_code(final(tr)@.last()->Send_out),
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
ghost send: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_recv
sig: pub fn ipmb_recv(receiver: &mut Receiver, p_message: &mut Out<Message>, timeout: u32, Tracked(tr): Tracked<&mut Sys>) -> (r: ErrorCode)
spec: requires !old(p_message).null()
    ensures
        final(tr)@.len() == old(tr)@.len() + 1,
        ({ let out = final(tr)@.last()->Recv_out;
            &&& final(tr)@ == old(tr)@.push(Event::Recv { who: old(receiver).inner.id(), timeout: ms(timeout), out }) && r == recv_code(out)
            &&& unless_null(*old(p_message), *final(p_message), out is Ok, |m: Message| m@ == out->Ok_0) }),
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
pre: proof { assert(!0u32 == 0xffff_ffffu32) by (bit_vector); }
mode out: p_message
ghost recv: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_memory_registry
sig: pub fn ipmb_memory_registry(Tracked(tr): Tracked<&mut Sys>) -> (r: MemoryRegistry)
spec: ensures final(tr)@ == old(tr)@.push(Event::Registry { id: r.inner.id() })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
ghost default: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_memory_registry_alloc
sig: pub fn ipmb_memory_registry_alloc(registry: &mut MemoryRegistry, min_size: usize, tag: CText, out_region: &mut Out<MemoryRegion>, Tracked(tr): Tracked<&mut Sys>) -> (r: ErrorCode)
spec: requires !old(out_region).null()
    ensures
        final(registry).inner.id() == old(registry).inner.id(),
        final(tr)@.len() == old(tr)@.len() + 1,
        ({ let out = final(tr)@.last()->Alloc_out;
            &&& final(tr)@ == old(tr)@.push(Event::Alloc { registry: old(registry).inner.id(), size: min_size as int, tag: tag_of(tag), free: None, out })
            &&& region_out(*old(out_region), *final(out_region), out, r) }),
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
mode out: out_region
ghost alloc: Tracked(tr)
ghost alloc_with_free: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_memory_registry_alloc_with_free
sig: pub fn ipmb_memory_registry_alloc_with_free(registry: &mut MemoryRegistry, min_size: usize, tag: CText, free_context: Context, free: Option<FreeFn>, out_region: &mut Out<MemoryRegion>, Tracked(tr): Tracked<&mut Sys>) -> (r: ErrorCode)
spec: requires !old(out_region).null()
    ensures
        final(registry).inner.id() == old(registry).inner.id(),
        final(tr)@.len() == old(tr)@.len() + 1,
        ({ let out = final(tr)@.last()->Alloc_out;
            &&& final(tr)@ == old(tr)@.push(Event::Alloc { registry: old(registry).inner.id(), size: min_size as int, tag: tag_of(tag), free: match free { Some(f) => Some(seq![(f.id(), free_context.id())]), None => None }, out })
            &&& region_out(*old(out_region), *final(out_region), out, r) }),
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
mode later: alloc_with_free
mode out: out_region
ghost alloc: Tracked(tr)
ghost alloc_with_free: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_memory_registry_maintain
sig: pub fn ipmb_memory_registry_maintain(registry: &mut MemoryRegistry, Tracked(tr): Tracked<&mut Sys>)
spec: ensures final(registry).inner.id() == old(registry).inner.id(), final(tr)@ == old(tr)@.push(Event::Maintain { registry: old(registry).inner.id() })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
ghost maintain: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_message
sig: pub fn ipmb_message(selector: Selector, format: u16, ptr: BytePtr, size: u32) -> (r: Message)
spec: requires !ptr.null() ==> size <= ptr@.len()
    ensures r@ == (Msg { selector: sel(selector), format: format as int, data: if ptr.null() { seq![] } else { ptr@.take(size as int) }, objects: seq![], regions: seq![] })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
exit: proof { assert(__r@.objects =~= seq![]); assert(__r@.regions =~= seq![]); assert(__r@.data =~= (if ptr.null() { seq![] } else { ptr@.take(size as int) })); }
mode exit: Message
subst opt: ipmb :: Message :: < ipmb :: BytesMessage > :: new ==> ipmb :: Message :: new
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_message_bytes_data
sig: pub fn ipmb_message_bytes_data(message: &Message, format: &mut u16, ptr: &mut BytePtr, size: &mut u32)
spec: requires message.payload.data@.len() <= u32::MAX
    ensures *final(format) == message@.format, !final(ptr).null(), final(ptr)@ == message@.data, final(ptr).at() == at_vec(message.payload.data), *final(size) == message@.data.len()
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_message_object_append
sig: pub fn ipmb_message_object_append(message: &mut Message, obj: Object, Tracked(tr): Tracked<&mut Sys>)
spec: requires 0 <= obj <= i32::MAX
    ensures
        final(message)@ == (Msg { objects: old(message)@.objects.push(obj as int), ..old(message)@ }),
        final(tr)@ == old(tr)@.push(Event::Own { obj: obj as int }),
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
ghost from_raw: Tracked(tr)
ghost mem::forget: Tracked(tr)
post: proof { assert(message@.objects =~= old(message)@.objects.push(obj_in as int)); }
pre: let ghost obj_in = obj;
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_message_object_retrieve
sig: pub fn ipmb_message_object_retrieve(message: &mut Message, index: usize, Tracked(tr): Tracked<&mut Sys>) -> (r: Object)
spec: ensures
        index < old(message)@.objects.len() ==> r == old(message)@.objects[index as int] && final(message)@ == (Msg { objects: old(message)@.objects.remove(index as int), ..old(message)@ })
            && final(tr)@ == old(tr)@.push(Event::Disown { obj: r as int }),
        index >= old(message)@.objects.len() ==> r == 0 && *final(message) == *old(message) && final(tr)@ == old(tr)@,
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
ghost into_raw: Tracked(tr)
exit: proof { if index < old(message)@.objects.len() { assert(message@.objects =~= old(message)@.objects.remove(index as int)); } }
mode exit: Object
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_message_object_get
sig: pub fn ipmb_message_object_get(message: &Message, index: usize, Tracked(tr): Tracked<&mut Sys>) -> (r: Object)
spec: ensures r == (if index < message@.objects.len() { message@.objects[index as int] } else { 0 }), final(tr)@ == old(tr)@
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
ghost into_raw: Tracked(tr)
ghost from_raw: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_object_drop
sig: pub fn ipmb_object_drop(obj: Object, Tracked(tr): Tracked<&mut Sys>)
spec: requires 0 <= obj <= i32::MAX
    ensures final(tr)@ == old(tr)@.push(Event::Own { obj: obj as int }) || final(tr)@ == old(tr)@.push(Event::Own { obj: obj as int }).push(Event::Released { what: What::Object(obj as int) })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
ghost from_raw: Tracked(tr)
ghost into_raw: Tracked(tr)
ghost drop: Tracked(tr)
ghost mem::forget: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_message_memory_region_append
sig: pub fn ipmb_message_memory_region_append(message: &mut Message, region: MemoryRegion)
spec: requires region.0@ is Owned
    ensures final(message)@ == (Msg { regions: old(message)@.regions.push(region.id()), ..old(message)@ })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
post: proof { assert(message@.regions =~= old(message)@.regions.push(region.id())); }
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_message_memory_region_retrieve
sig: pub fn ipmb_message_memory_region_retrieve(message: &mut Message, index: usize) -> (r: MemoryRegion)
spec: ensures
        index < old(message)@.regions.len() ==> r.0@ == Handle::Owned(old(message)@.regions[index as int]) && final(message)@ == (Msg { regions: old(message)@.regions.remove(index as int), ..old(message)@ }),
        index >= old(message)@.regions.len() ==> r.0@ is Null && *final(message) == *old(message),
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
exit: proof { if index < old(message)@.regions.len() { assert(message@.regions =~= old(message)@.regions.remove(index as int)); } }
mode exit: MemoryRegion
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_message_memory_region_get
sig: pub fn ipmb_message_memory_region_get(message: &mut Message, index: usize) -> (r: MemoryRegion)
spec: ensures
        index < old(message)@.regions.len() ==> r.0@ == Handle::Borrowed(old(message)@.regions[index as int]),
        index >= old(message)@.regions.len() ==> r.0@ is Null,
        final(message)@ == old(message)@,
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
exit: proof { assert(message@.regions =~= old(message)@.regions); }
mode exit: MemoryRegion
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_memory_region
sig: pub fn ipmb_memory_region(size: usize, out_region: &mut Out<MemoryRegion>, Tracked(tr): Tracked<&mut Sys>) -> (r: ErrorCode)
spec: requires !old(out_region).null()
    ensures
        final(tr)@.len() == old(tr)@.len() + 1,
        final(tr)@ == old(tr)@.push(Event::Region { size: size as int, out: final(tr)@.last()->Region_out }),
        region_out(*old(out_region), *final(out_region), final(tr)@.last()->Region_out, r),
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
mode out: out_region
ghost ipmb::MemoryRegion::new: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_memory_region_map
sig: pub fn ipmb_memory_region_map(region: &mut MemoryRegion, offset: usize, size: isize, real_size: &mut Out<isize>, Tracked(tr): Tracked<&mut Sys>) -> (r: BytePtr)
spec: requires old(region).valid()
    ensures
        *final(region) == *old(region),
        final(tr)@.len() == old(tr)@.len() + 1,
        ({ let out = final(tr)@.last()->Map_out;
            &&& final(tr)@ == old(tr)@.push(Event::Map { region: old(region).id(), from: offset as int, out,
                    to: if size < 0 { None } else if offset + size > usize::MAX { Some(usize::MAX as int) } else { Some(offset + size) } })
            &&& out is None ==> r.null()
            &&& out is Some ==> !r.null() && r.at() == (out->0).0
            &&& unless_null(*old(real_size), *final(real_size), out is Some, |n: isize| n == (out->0).1) }),
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
subst opt: Some(__v) => Some ==> Ok(__v) => Ok
subst opt: Some(__v) => ==> Ok(__v) =>
subst opt: None => None ==> Err(__e) => Err(__e)
subst opt: None => ==> Err(_) =>
mode out: real_size
mode range: call
ghost map: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_memory_region_ref_count
sig: pub fn ipmb_memory_region_ref_count(region: &MemoryRegion, Tracked(tr): Tracked<&mut Sys>) -> (r: u32)
spec: requires region.valid()
    ensures final(tr)@ == old(tr)@.push(Event::Count { region: region.id(), out: r })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
ghost ref_count: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_memory_region_clone
sig: pub fn ipmb_memory_region_clone(region: &MemoryRegion, out_region: &mut Out<MemoryRegion>, Tracked(tr): Tracked<&mut Sys>) -> (r: ErrorCode)
spec: requires region.valid(), !old(out_region).null()
    ensures
        final(tr)@.len() == old(tr)@.len() + 1,
        final(tr)@ == old(tr)@.push(Event::Clone { region: region.id(), out: final(tr)@.last()->Clone_out }),
        region_out(*old(out_region), *final(out_region), (match final(tr)@.last()->Clone_out { Ok(x) => Some(x), Err(_) => None }), r),
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
mode out: out_region
ghost clone: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_label
sig: pub fn ipmb_label() -> (r: Label)
spec: ensures r.inner@ == Set::<Seq<u8>>::empty()
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_label_insert
sig: pub fn ipmb_label_insert(label: &mut Label, s: CText)
spec: requires !s.null()
    ensures final(label).inner@ == old(label).inner@.insert(lossy(s@))
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_label_op_bool
sig: pub fn ipmb_label_op_bool(v: bool) -> (r: LabelOp)
spec: ensures r.inner@ == (if v { Tree::True } else { Tree::False })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_label_op_leaf
sig: pub fn ipmb_label_op_leaf(s: CText) -> (r: LabelOp)
spec: requires !s.null()
    ensures r.inner@ == Tree::Leaf(lossy(s@))
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_label_op_not
sig: pub fn ipmb_label_op_not(left: LabelOp) -> (r: LabelOp)
spec: ensures r.inner@ == Tree::Not(Box::new(left.inner@))
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
mode not: method
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_label_op_and
sig: pub fn ipmb_label_op_and(left: LabelOp, right: LabelOp) -> (r: LabelOp)
spec: ensures r.inner@ == Tree::And(Box::new(left.inner@), Box::new(right.inner@))
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_label_op_or
sig: pub fn ipmb_label_op_or(left: LabelOp, right: LabelOp) -> (r: LabelOp)
spec: ensures r.inner@ == Tree::Or(Box::new(left.inner@), Box::new(right.inner@))
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_rstring_drop
sig: pub fn ipmb_rstring_drop(rstring: RString, Tracked(tr): Tracked<&mut Sys>)
spec: ensures final(tr)@ == old(tr)@.push(Event::Released { what: What::Text(rstring.inner@) })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
mode params: drop
ghost released: Tracked(tr)
ghost drop: Tracked(tr)
ghost mem::forget: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_sender_drop
sig: pub fn ipmb_sender_drop(sender: Sender, Tracked(tr): Tracked<&mut Sys>)
spec: ensures final(tr)@ == old(tr)@.push(Event::Released { what: What::Sender(sender.inner.id()) })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
mode params: drop
ghost released: Tracked(tr)
ghost drop: Tracked(tr)
ghost mem::forget: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_receiver_drop
sig: pub fn ipmb_receiver_drop(receiver: Receiver, Tracked(tr): Tracked<&mut Sys>)
spec: ensures final(tr)@ == old(tr)@.push(Event::Released { what: What::Receiver(receiver.inner.id()) })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
mode params: drop
ghost released: Tracked(tr)
ghost drop: Tracked(tr)
ghost mem::forget: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_memory_registry_drop
sig: pub fn ipmb_memory_registry_drop(registry: MemoryRegistry, Tracked(tr): Tracked<&mut Sys>)
spec: ensures final(tr)@ == old(tr)@.push(Event::Released { what: What::Registry(registry.inner.id()) })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
mode params: drop
ghost released: Tracked(tr)
ghost drop: Tracked(tr)
ghost mem::forget: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_message_drop
sig: pub fn ipmb_message_drop(message: Message, Tracked(tr): Tracked<&mut Sys>)
spec: ensures final(tr)@ == old(tr)@.push(Event::Released { what: What::Message(message@) })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
mode params: drop
ghost released: Tracked(tr)
ghost drop: Tracked(tr)
ghost mem::forget: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_memory_region_drop
sig: pub fn ipmb_memory_region_drop(region: MemoryRegion, Tracked(tr): Tracked<&mut Sys>)
spec: requires region.0@ is Owned
    ensures final(tr)@ == old(tr)@.push(Event::Released { what: What::Region(region.id()) })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
mode params: drop
ghost released: Tracked(tr)
ghost drop: Tracked(tr)
ghost mem::forget: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_label_drop
sig: pub fn ipmb_label_drop(label: Label, Tracked(tr): Tracked<&mut Sys>)
spec: ensures final(tr)@ == old(tr)@.push(Event::Released { what: What::Label(label.inner@) })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
mode params: drop
ghost released: Tracked(tr)
ghost drop: Tracked(tr)
ghost mem::forget: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=ipmb_label_op_drop
sig: pub fn ipmb_label_op_drop(left: LabelOp, Tracked(tr): Tracked<&mut Sys>)
spec: ensures final(tr)@ == old(tr)@.push(Event::Released { what: What::LabelOp(left.inner@) })
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
mode params: drop
ghost released: Tracked(tr)
ghost drop: Tracked(tr)
ghost mem::forget: Tracked(tr)
@*/

/*@fn file=ipmb-ffi/src/lib.rs item=Selector~as~From::from
sig: pub fn selector_from(v: Selector) -> (r: ipmb::Selector)
spec: ensures r@ == sel(v)
subst opt: . into ( ) ==> . conv ( )
subst opt: . as_deref ( ) ==> . as_tag ( )
subst opt: . as_ptr ( ) ==> . ptr_of ( )
@*/

fn main() {}
} // verus!
