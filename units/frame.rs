// C06, C07: the layout of a frame. The encoder writes it, the decoder finds the same parts in it.
use vstd::prelude::*;
use std::mem;
verus! {

//@include prelude.inc
//@include mem.inc
broadcast use {raws_lemma::raws_split, mem_axioms::bytes, has_lemma::has_eq, hdr_axiom::hdr_len, hdr_axiom::hdr_inj, seqs::sub_sub, seqs::sub_all};
global size_of usize == 8;
pub mod seqs { use super::*;
pub broadcast proof fn sub_sub(s: Seq<u8>, a: int, n: int)
    requires 0 <= a <= s.len(), 0 <= n <= s.len() - a
    ensures #[trigger] s.subrange(a, s.len() as int).subrange(0, n) == s.subrange(a, a + n)
{ assert(s.subrange(a, s.len() as int).subrange(0, n) =~= s.subrange(a, a + n)); }
pub broadcast proof fn sub_all<A>(s: Seq<A>, n: int)
    requires n == s.len()
    ensures #[trigger] s.subrange(0, n) == s
{ assert(s.subrange(0, n) =~= s); }
}

/// what is outside the memory of this process
pub ghost struct World {
    /// the frame that waits at the connection, if any
    pub next: Option<Incoming>,
    /// descriptors the system handed to this process, and which of them an owner was made for, in order
    pub received: Seq<i32>,
    pub owned: Seq<i32>,
    /// the reference counts in shared memory, by kernel object
    pub counts: spec_fn(int) -> int,
    /// what was written to connections
    pub sent: Seq<Sent>,
    pub interrupted: bool,
    pub peeked: bool,
}
pub ghost struct Incoming { pub data: Seq<u8>, pub fds: Seq<i32> }
pub ghost struct Sent { pub fd: i32, pub data: Seq<Option<u8>>, pub control: Seq<Option<u8>>, pub counts: spec_fn(int) -> int, pub ok: bool }
pub type RawFd = i32;
pub open spec fn a4(n: int) -> int { (n + 3) / 4 * 4 }
pub trait Align4: Sized {
    spec fn fits(self) -> bool;
    spec fn rounded(self) -> Self;
    fn align4(self) -> (r: Self) requires self.fits() ensures r == self.rounded();
}
impl Align4 for usize {
    open spec fn fits(self) -> bool { self <= usize::MAX - 3 }
    open spec fn rounded(self) -> usize { a4(self as int) as usize }
/*@fn file=ipmb/src/util/mod.rs item=usize~as~Align4::align4
sig: fn align4(self) -> (r: Self)
noreach: an item of a trait
subst: self ==> s_
pre: let mut s_ = self; proof { lemma_align4(self); }
@*/
}
proof fn lemma_align4(n: usize)
    ensures (n & 3 == 0) == (n % 4 == 0), n & !3 == n - n % 4, (n & !3) <= n,
        n <= usize::MAX - 3 ==> ((n + 3) as usize & !3) == a4(n as int), n <= usize::MAX - 3 ==> ((n + 3) as usize) / 4 * 4 == a4(n as int),
        n <= usize::MAX - 3 ==> a4(n as int) == if n % 4 == 0 { n as int } else { n - n % 4 + 4 }
{
    assert((n & 3 == 0) == (n % 4 == 0)) by (bit_vector);
    assert(n & !3 == sub(n, n % 4)) by (bit_vector);
    assert(n & !3 <= n) by (bit_vector);
    if n <= usize::MAX - 3 {
        let m = (n + 3) as usize;
        assert(m & !3 == sub(m, m % 4)) by (bit_vector);
    }
}
/// `u32::from_ne_bytes`
#[verifier::external_body]
pub fn from_ne4(b: [u8; 4]) -> (r: u32) ensures r == un4(b@) { unimplemented!() }

/// the reference count of one region changed
pub open spec fn counted(m: Mem, o: int, d: int) -> Mem {
    Mem { world: World { counts: |x: int| if x == o { (m.world.counts)(x) + d } else { (m.world.counts)(x) }, ..m.world }, ..m }
}
// ---- reading a frame
pub open spec fn u32_at(s: Seq<u8>, o: int) -> Option<u32> {
    if o + 4 <= s.len() { Some(un4(s.subrange(o, o + 4))) } else { None }
}
/// the selector and the payload, if the frame is long enough for the sizes it states
pub open spec fn parts(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match u32_at(s, 4) {
        None => None,
        Some(n) => if 8 + n > s.len() { None } else {
            let o = 8 + a4(n as int);
            match u32_at(s, o) {
                None => None,
                Some(p) => if o + 4 + p > s.len() { None } else { Some((s.subrange(8, 8 + n), s.subrange(o + 4, o + 4 + p))) },
            }
        },
    }
}
/*@fn file=ipmb/src/platform/linux/encoded_message.rs item=read_u32
sig: fn read_u32(data: &[u8], offset: usize) -> (r: Option<u32>)
spec:
    ensures r == u32_at(data@, offset as int),
subst: u32::from_ne_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]) ==> from_ne4(four(bytes))
@*/
/// the array literal of the code; its elements are checked to be in range here
fn four(b: &[u8]) -> (r: [u8; 4])
    requires b@.len() >= 4
    ensures r@ == b@.subrange(0, 4)
{
    let r = [b[0], b[1], b[2], b[3]];
    assert(r@ =~= b@.subrange(0, 4));
    r
}
/*@fn file=ipmb/src/platform/linux/encoded_message.rs item=split_frame
sig: fn split_frame<'a>(data: &'a [u8]) -> (r: Option<(&'a [u8], &'a [u8])>)
spec:
    ensures
        r is Some == parts(data@) is Some,
        r matches Some(x) ==> parts(data@) == Some((x.0@, x.1@)),
@*/

// ---- writing a frame
impl Fd {
    #[verifier::external_body]
    pub fn as_raw(&self) -> (r: i32) ensures r == self.raw() { unimplemented!() }
    /// makes an owner: of a descriptor this process received and that has none yet
    #[verifier::external_body]
    pub fn from_raw(raw: i32, Tracked(tr): Tracked<&mut Heap>) -> (r: Fd)
        requires old(tr)@.world.owned.len() < old(tr)@.world.received.len(), old(tr)@.world.received[old(tr)@.world.owned.len() as int] == raw
        ensures r.raw() == raw, final(tr)@ == (Mem { world: World { owned: old(tr)@.world.owned.push(raw), ..old(tr)@.world }, ..old(tr)@ }) { unimplemented!() }
}
#[verifier::external_body]
pub struct MemoryRegion { x: u8 }
/// the kernel object behind a descriptor
pub uninterp spec fn ino(o: Object) -> int;
pub uninterp spec fn is_region(raw: i32) -> bool;
impl MemoryRegion {
    pub uninterp spec fn obj(&self) -> Object;
    /// contract of `MemoryRegion::try_from_object`, proved in the unit `region`
    #[verifier::external_body]
    pub fn try_from_object(obj: Object, Tracked(tr): Tracked<&mut Heap>) -> (r: Result<MemoryRegion, Error>)
        ensures r matches Ok(x) ==> x.obj() == obj && final(tr)@ == counted(old(tr)@, ino(obj), 1),
            r is Err ==> final(tr)@ == old(tr)@, r is Ok == is_region(obj.raw()), r matches Err(e) ==> e is MemoryRegionMapping { unimplemented!() }
    /// contract of `MemoryRegion::ref_count_inner`, proved in the unit `region`
    #[verifier::external_body]
    pub fn ref_count_inner(&self, val: i32, Tracked(tr): Tracked<&mut Heap>) -> (r: u32)
        ensures final(tr)@ == counted(old(tr)@, ino(self.obj()), val as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn object(&self) -> (r: &Object) ensures *r == self.obj() { unimplemented!() }
}
#[verifier::external_body]
pub struct LabelOp { x: u8 }
#[verifier::external_body]
pub struct Duration { x: u8 }
pub type Bytes = [u8; 16];
/*@type file=ipmb/src/lib.rs item=SelectorMode
@*/
/*@type file=ipmb/src/lib.rs item=Selector
@*/
pub uninterp spec fn selector_bytes(s: Selector) -> Seq<u8>;
#[derive(Debug)]
pub struct EncodeError { x: u8 }
/// the serialised selector (bincode; that it decodes to the same selector is trusted, and checked at run time)
pub mod bincode {
    pub mod config { pub fn standard() {} }
    pub mod serde {
        use super::super::*;
        #[verifier::external_body]
        pub fn encode_to_vec(s: &Selector, c: ()) -> (r: Result<Data, EncodeError>) ensures r is Ok, r->Ok_0@ == selector_bytes(*s) { unimplemented!() }
    }
}
pub trait MessageBox: Sized {
    spec fn encoded(&self) -> Seq<u8>;
    fn encode(&self) -> (r: Result<Data, EncodeError>) ensures r is Ok, r->Ok_0@ == self.encoded();
}
/*@type file=ipmb/src/lib.rs item=Version
attr: #[derive(Clone, Copy)]
@*/
impl Version {
    #[verifier::external_body]
    pub fn major(&self) -> (r: u8) ensures r == self.0.0 { unimplemented!() }
    #[verifier::external_body]
    pub fn minor(&self) -> (r: u8) ensures r == self.0.1 { unimplemented!() }
    #[verifier::external_body]
    pub fn patch(&self) -> (r: u8) ensures r == self.0.2 { unimplemented!() }
}
pub uninterp spec fn this_version() -> Version;
#[verifier::external_body]
pub fn version() -> (r: Version) ensures r == this_version() { unimplemented!() }

/*@type file=ipmb/src/message.rs item=Message
@*/
/*@type file=ipmb/src/platform/linux/encoded_message.rs item=EncodedMessage
subst: crate::Selector ==> Selector
subst: crate::Object ==> Object
subst: crate::MemoryRegion ==> MemoryRegion
subst: &'static [u8] ==> Part
subst: iov_data: Vec<u8> ==> iov_data: Buf
subst: control_data: Vec<u8> ==> control_data: Buf
@*/

/// the kernel's header of a control message
#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
pub struct cmsghdr { pub cmsg_len: usize, pub cmsg_level: i32, pub cmsg_type: i32 }
pub use hdr_axiom::hdr_bytes;
pub mod libc {
    use super::*;
    pub use super::cmsghdr;
    pub const SOL_SOCKET: i32 = 1;
    pub const SCM_RIGHTS: i32 = 1;
    #[verifier::external_body]
    pub fn CMSG_SPACE(n: u32) -> (r: u32) requires n <= 0xffff_0000 ensures r == 16 + (n + 7) / 8 * 8 { unimplemented!() }
    #[verifier::external_body]
    pub fn CMSG_LEN(n: u32) -> (r: u32) requires n <= 0xffff_0000 ensures r == 16 + n { unimplemented!() }
    #[verifier::external_body]
    pub fn CMSG_DATA(p: Ptr<cmsghdr>) -> (r: Ptr<u8>) ensures r.blk() == p.blk(), r.off() == p.off() + 16 { unimplemented!() }
}
pub mod hdr_axiom { use super::*;
pub uninterp spec fn hdr_bytes(h: cmsghdr) -> Seq<u8>;
pub broadcast axiom fn hdr_len(h: cmsghdr) ensures #[trigger] hdr_bytes(h).len() == 16;
pub broadcast axiom fn hdr_inj(a: cmsghdr, b: cmsghdr) requires #[trigger] hdr_bytes(a) == #[trigger] hdr_bytes(b) ensures a == b;
}
/// `&mut *control_ptr`
#[verifier::external_body]
pub fn cmsg_mut<'a>(p: Ptr<cmsghdr>, Tracked(tr): Tracked<&'a mut Heap>) -> (r: &'a mut cmsghdr)
    requires in_bounds(old(tr)@, p.blk(), p.off(), 16), aligned(old(tr)@, p.blk(), p.off(), 8)
    ensures final(tr)@ == stored(old(tr)@, p.blk(), p.off(), hdr_bytes(*final(r)))
{ unimplemented!() }
#[verifier::external_body]
pub fn __cast<U, T>(p: Ptr<T>) -> (r: Ptr<U>) ensures r.blk() == p.blk(), r.off() == p.off() { unimplemented!() }

pub trait AlignOf: Pod { spec fn align() -> int; }
impl AlignOf for u32 { open spec fn align() -> int { 4 } }
impl AlignOf for usize { open spec fn align() -> int { 8 } }
impl Pod for usize {
    uninterp spec fn bytes(self) -> Seq<u8>;
    open spec fn size() -> int { 8 }
}
pub open spec fn ceil(n: int, s: int) -> int { n / s * s + (if n % s == 0 { 0 } else { s }) }
pub open spec fn fresh(m: Mem, m2: Mem, b: Buf, n: int, a: int) -> bool {
    &&& !m.blocks.contains_key(b.blk())
    &&& b.length() == n
    &&& m2.blocks == m.blocks.insert(b.blk(), Block { data: Seq::new(b.length() as nat, |i: int| None::<u8>), align: a })
    // it will be freed once
    &&& m2.owners =~= m.owners.insert(b.blk(), 1)
    &&& m2.world == m.world
}
/// a vector of which only the allocation matters
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RVec<T> { x: usize, y: std::marker::PhantomData<T> }
impl<T> RVec<T> {
    pub uninterp spec fn blk(&self) -> int;
    #[verifier::external_body]
    pub fn as_mut_ptr(&mut self) -> (r: Ptr<T>) ensures r.blk() == old(self).blk(), r.off() == 0, *final(self) == *old(self) { unimplemented!() }
}
impl<T: AlignOf> RVec<T> {
    #[verifier::external_body]
    pub fn with_capacity(n: usize, Tracked(tr): Tracked<&mut Heap>) -> (r: RVec<T>)
        requires n * T::size() <= isize::MAX
        ensures !old(tr)@.blocks.contains_key(r.blk()),
            final(tr)@.blocks == old(tr)@.blocks.insert(r.blk(), Block { data: Seq::new((n * T::size()) as nat, |i: int| None::<u8>), align: T::align() }),
            final(tr)@.owners == old(tr)@.owners.insert(r.blk(), 1), final(tr)@.world == old(tr)@.world { unimplemented!() }
}
/// `Vec::from_raw_parts`: the whole of an allocation, which it will free
#[verifier::external_body]
pub fn from_raw_parts_vec(p: Ptr<u8>, len: usize, cap: usize, Tracked(tr): Tracked<&mut Heap>) -> (r: Buf)
    requires p.off() == 0, len <= cap, old(tr)@.blocks.contains_key(p.blk()), old(tr)@.blocks[p.blk()].data.len() == cap
    ensures r.blk() == p.blk(), r.length() == len, final(tr)@.blocks == old(tr)@.blocks, final(tr)@.world == old(tr)@.world, final(tr)@.owners == old(tr)@.owners.insert(p.blk(), old(tr)@.owners[p.blk()] + 1) { unimplemented!() }
#[verifier::external_body]
pub fn forget<T>(v: RVec<T>, Tracked(tr): Tracked<&mut Heap>)
    ensures final(tr)@.blocks == old(tr)@.blocks, final(tr)@.world == old(tr)@.world, final(tr)@.owners == old(tr)@.owners.insert(v.blk(), old(tr)@.owners[v.blk()] - 1) { unimplemented!() }
#[verifier::external_body]
pub fn size_of_pod<T: Pod>() -> (r: usize) ensures r == T::size() { unimplemented!() }
proof fn lemma_ceil(n: int, s: int)
    requires n >= 0, s > 0
    ensures n / s >= 0, n / s * s <= n, (n / s + 1) * s == n / s * s + s, 0 <= n / s <= n, n == n / s * s + n % s, n % s < s
{
    assert(n == n / s * s + n % s && n % s < s) by (nonlinear_arith) requires n >= 0, s > 0;
    assert(n / s >= 0 && n / s * s <= n && (n / s + 1) * s == n / s * s + s && n / s <= n) by (nonlinear_arith) requires n >= 0, s > 0;
}
/*@fn file=ipmb/src/platform/linux.rs item=alloc_buffer
sig: pub fn alloc_buffer<T: AlignOf>(size: usize, Tracked(tr): Tracked<&mut Heap>) -> (r: Buf)
spec:
    requires 0 < T::size() <= 8, size <= isize::MAX - 8,
    ensures fresh(old(tr)@, final(tr)@, r, ceil(size as int, T::size()), T::align()), r.length() >= size,
pre: proof { lemma_ceil(size as int, T::size()); }
subst: mem::size_of::<T>() ==> size_of_pod::<T>()
subst: Vec::from_raw_parts ==> from_raw_parts_vec
subst: mem::forget ==> forget
subst: Vec::<T> ==> RVec::<T>
ghost with_capacity: Tracked(tr)
ghost from_raw_parts: Tracked(tr)
ghost forget: Tracked(tr)
subst: buf_t.as_mut_ptr().cast::<u8>() ==> buf_t.as_mut_ptr().cast()
@*/

/// C06: the frame of these bytes; what is not mentioned is padding
pub open spec fn is_frame(f: Seq<Option<u8>>, v: Version, sel: Seq<u8>, pay: Seq<u8>) -> bool {
    let o = 8 + a4(sel.len() as int);
    &&& f.len() == o + 4 + a4(pay.len() as int)
    &&& has(f, 0, seq![0xFFu8, v.0.0, v.0.1, v.0.2])
    &&& has(f, 4, ne4(sel.len() as u32))
    &&& has(f, 8, sel)
    &&& has(f, o, ne4(pay.len() as u32))
    &&& has(f, o + 4, pay)
}
/// what arrives when these bytes are sent: bytes never written have some value
pub open spec fn arrives(f: Seq<Option<u8>>, s: Seq<u8>) -> bool {
    s.len() == f.len() && forall|i: int| #![trigger f[i]] #![trigger s[i]] 0 <= i < f.len() && f[i] is Some ==> s[i] == f[i]->0
}
/// C06: the receiver finds in the frame exactly the selector and the payload the sender put there,
/// whatever their lengths, and the version of the sender
proof fn lemma_round_trip(f: Seq<Option<u8>>, s: Seq<u8>, v: Version, sel: Seq<u8>, pay: Seq<u8>)
    requires is_frame(f, v, sel, pay), arrives(f, s), sel.len() < 0x1_0000_0000, pay.len() < 0x1_0000_0000
    ensures parts(s) == Some((sel, pay)), s.len() >= 4, s.subrange(0, 4) =~= seq![0xFFu8, v.0.0, v.0.1, v.0.2]
{
    let o = 8 + a4(sel.len() as int);
    assert(s.subrange(0, 4) =~= seq![0xFFu8, v.0.0, v.0.1, v.0.2]);
    assert(s.subrange(4, 8) =~= ne4(sel.len() as u32));
    assert(s.subrange(8, 8 + sel.len() as int) =~= sel);
    assert(s.subrange(o, o + 4) =~= ne4(pay.len() as u32)) by {
        assert forall|i: int| 0 <= i < 4 implies s[o + i] == #[trigger] ne4(pay.len() as u32)[i] by { assert(f[o + i] == Some(ne4(pay.len() as u32)[i])); }
    }
    assert(s.subrange(o + 4, o + 4 + pay.len() as int) =~= pay) by {
        assert forall|i: int| 0 <= i < pay.len() implies s[o + 4 + i] == #[trigger] pay[i] by { assert(f[o + 4 + i] == Some(pay[i])); }
    }
}
/// the descriptors of a message, objects first, each in its order
pub open spec fn fds(objects: Seq<Object>, regions: Seq<MemoryRegion>) -> Seq<i32> {
    Seq::new(objects.len() + regions.len(), |i: int| if i < objects.len() { objects[i].raw() } else { regions[i - objects.len()].obj().raw() })
}
pub open spec fn is_control(f: Seq<Option<u8>>, d: Seq<i32>) -> bool {
    &&& f.len() == 16 + (4 * d.len() + 7) / 8 * 8
    &&& has(f, 0, hdr_bytes(cmsghdr { cmsg_len: (16 + 4 * d.len()) as usize, cmsg_level: libc::SOL_SOCKET, cmsg_type: libc::SCM_RIGHTS }))
    &&& forall|k: int| 0 <= k < d.len() ==> has(f, 16 + 4 * k, #[trigger] ne4i(d[k]))
}
impl<T: MessageBox> Message<T> {
    pub open spec fn small(&self) -> bool {
        selector_bytes(self.selector).len() < 0x1_0000_0000 && self.payload.encoded().len() < 0x1_0000_0000
        && self.objects@.len() + self.memory_regions@.len() < 0x1000_0000
    }
/*@fn file=ipmb/src/platform/linux.rs item=Message::encode_inner
sig: fn encode_inner(&self, Tracked(tr): Tracked<&mut Heap>) -> (r: (Part, Buf, Buf))
spec:
    requires self.small(),
    ensures
        r.1.blk() != r.2.blk(),
        final(tr)@.blocks.contains_key(r.1.blk()), final(tr)@.blocks.contains_key(r.2.blk()),
        is_frame(final(tr)@.blocks[r.1.blk()].data, this_version(), selector_bytes(self.selector), self.payload.encoded()),
        is_control(final(tr)@.blocks[r.2.blk()].data, fds(self.objects@, self.memory_regions@)),
        r.1.length() == final(tr)@.blocks[r.1.blk()].data.len(), r.2.length() == final(tr)@.blocks[r.2.blk()].data.len(),
        final(tr)@.world == old(tr)@.world,
        // the payload a local receiver decodes is the one in the frame
        r.0.blk() == r.1.blk(), r.0.off() == 12 + a4(selector_bytes(self.selector).len() as int), r.0.length() == self.payload.encoded().len(),
subst: Vec<u8> ==> Buf
subst: u32::from_ne_bytes ==> from_ne4
subst: &mut *control_ptr ==> cmsg_mut(control_ptr, Tracked(tr))
ghost alloc_buffer: Tracked(tr)
subst: let control_ref ==> let ghost mem1 = tr@; let control_ref
ghost write: Tracked(tr)
ghost copy_nonoverlapping: Tracked(tr)
ghost from_raw_parts: Tracked(tr)
ghost offset: Tracked(tr)
loop for0?if=control_data_ptr=control_data_ptr.:
    invariant
        __i_for0 <= self.objects@.len() + self.memory_regions@.len(),
        self.small(),
        control_data_ptr.blk() == control_data.blk(), control_data_ptr.off() == 16 + 4 * __i_for0,
        tr@.blocks.contains_key(control_data.blk()), control_data.blk() != iov_data.blk(),
        tr@.blocks.contains_key(iov_data.blk()),
        tr@.world == mem1.world,
        tr@.blocks[iov_data.blk()] == mem1.blocks[iov_data.blk()],
        tr@.blocks[control_data.blk()].data.len() == 16 + (4 * fds(self.objects@, self.memory_regions@).len() + 7) / 8 * 8,
        tr@.blocks[control_data.blk()].align == 8,
        has(tr@.blocks[control_data.blk()].data, 0, hdr_bytes(cmsghdr { cmsg_len: (16 + 4 * fds(self.objects@, self.memory_regions@).len()) as usize, cmsg_level: libc::SOL_SOCKET, cmsg_type: libc::SCM_RIGHTS })),
        forall|k: int| 0 <= k < __i_for0 ==> has(tr@.blocks[control_data.blk()].data, 16 + 4 * k, #[trigger] ne4i(fds(self.objects@, self.memory_regions@)[k])),
    decreases self.objects@.len() + self.memory_regions@.len() - __i_for0,
loop for0?if=control_data_ptr.add(:
    invariant
        __i_for0 <= self.objects@.len() + self.memory_regions@.len(),
        self.small(),
        control_data_ptr.blk() == control_data.blk(), control_data_ptr.off() == 16,
        tr@.blocks.contains_key(control_data.blk()), control_data.blk() != iov_data.blk(),
        tr@.blocks.contains_key(iov_data.blk()),
        tr@.world == mem1.world,
        tr@.blocks[iov_data.blk()] == mem1.blocks[iov_data.blk()],
        tr@.blocks[control_data.blk()].data.len() == 16 + (4 * fds(self.objects@, self.memory_regions@).len() + 7) / 8 * 8,
        tr@.blocks[control_data.blk()].align == 8,
        has(tr@.blocks[control_data.blk()].data, 0, hdr_bytes(cmsghdr { cmsg_len: (16 + 4 * fds(self.objects@, self.memory_regions@).len()) as usize, cmsg_level: libc::SOL_SOCKET, cmsg_type: libc::SCM_RIGHTS })),
        forall|k: int| 0 <= k < __i_for0 ==> has(tr@.blocks[control_data.blk()].data, 16 + 4 * k, #[trigger] ne4i(fds(self.objects@, self.memory_regions@)[k])),
    decreases self.objects@.len() + self.memory_regions@.len() - __i_for0,
@*/
/*@fn file=ipmb/src/platform/linux.rs item=Message::into_encoded
sig: pub fn into_encoded(self, Tracked(tr): Tracked<&mut Heap>) -> (r: EncodedMessage)
spec:
    requires self.small(),
    ensures
        is_sent(r, final(tr)@),
        r.selector == self.selector, r.objects@ == self.objects@, r.memory_regions@ == self.memory_regions@,
        is_frame(final(tr)@.blocks[r.iov_data.blk()].data, this_version(), selector_bytes(self.selector), self.payload.encoded()),
        is_control(final(tr)@.blocks[r.control_data.blk()].data, fds(self.objects@, self.memory_regions@)),
        r.payload_data.blk() == r.iov_data.blk(), r.payload_data.off() == 12 + a4(selector_bytes(self.selector).len() as int), r.payload_data.length() == self.payload.encoded().len(),
        final(tr)@.world == old(tr)@.world,
ghost encode_inner: Tracked(tr)
@*/
}

// ---- connections
pub open spec fn initialised(m: Mem, blk: int, from: int, to: int) -> bool {
    forall|i: int| from <= i < to ==> (#[trigger] m.blocks[blk].data[i]) is Some
}
pub open spec fn compatible(a: Version, b: Version) -> bool {
    if a.0.0 == 0 && b.0.0 == 0 { a.0.1 == b.0.1 } else { a.0.0 == b.0.0 }
}
impl Version {
    /// contract proved in the unit `bus`
    #[verifier::external_body]
    pub fn compatible(&self, rhs: Version) -> (r: bool) ensures r == compatible(*self, rhs) { unimplemented!() }
}
#[verifier::external_body]
pub struct Remote { x: u8 }
impl Remote {
    pub uninterp spec fn raw(&self) -> i32;
    #[verifier::external_body]
    pub fn new(f: Fd) -> (r: Remote) ensures r.raw() == f.raw() { unimplemented!() }
    /// the lock that makes a message one write
    #[verifier::external_body]
    pub fn lock(&self) -> (r: &Fd) ensures r.raw() == self.raw() { unimplemented!() }
}
/*@type file=ipmb/src/platform/linux/fd.rs item=Local
@*/
#[verifier::external_body]
pub struct Encoding { x: u8 }
#[verifier::external_body]
pub struct Decoding { x: u8 }
#[verifier::external_body]
pub struct IoError { x: u8 }
/*@type file=ipmb/src/errors.rs item=Error
subst: bincode::error::EncodeError ==> Encoding
subst: bincode::error::DecodeError ==> Decoding
subst: std::io::Error ==> IoError
@*/
/*@type file=ipmb/src/platform/linux/encoded_message.rs item=SCM_MAX_FD
@*/
/*@type file=ipmb/src/platform/linux/encoded_message.rs item=Meta
@*/
/// what the bytes of a selector decode to (bincode)
pub uninterp spec fn selector_of(b: Seq<u8>) -> Option<Selector>;
#[verifier::external_body]
pub fn decode(b: &[u8]) -> (r: Result<Selector, Error>)
    ensures r matches Ok(s) ==> selector_of(b@) == Some(s), r matches Err(e) ==> selector_of(b@) is None && e is Decode { unimplemented!() }
/// `u32::to_ne_bytes`
#[verifier::external_body]
pub fn to_ne4(v: u32) -> (r: [u8; 4]) ensures r@ == ne4(v) { unimplemented!() }
pub trait ToNe { fn to_ne4(self) -> [u8; 4]; }
impl ToNe for u32 {
    fn to_ne4(self) -> (r: [u8; 4]) ensures r@ == ne4(self) { to_ne4(self) }
}
/// `slice::from_raw_parts(s.as_ptr(), s.len())`: the same bytes, with the lifetime of the buffer that moves into the message
#[verifier::external_body]
pub fn same_bytes(s: &[u8]) -> (r: Part) ensures r.bytes() == s@ { unimplemented!() }
impl Part { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn __drain_from<T>(v: &mut Vec<T>, n: usize) -> (r: Vec<T>)
    requires n <= old(v)@.len()
    ensures final(v)@ == old(v)@.subrange(0, n as int), r@ == old(v)@.subrange(n as int, old(v)@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn cmsg_read(p: Ptr<cmsghdr>, Tracked(tr): Tracked<&mut Heap>) -> (r: cmsghdr)
    requires in_bounds(old(tr)@, p.blk(), p.off(), 16), aligned(old(tr)@, p.blk(), p.off(), 8), initialised(old(tr)@, p.blk(), p.off(), p.off() + 16)
    ensures has(old(tr)@.blocks[p.blk()].data, p.off(), hdr_bytes(r)), final(tr)@ == old(tr)@ { unimplemented!() }
/// `p as usize - q as usize`
#[verifier::external_body]
pub fn ptr_diff<A, B>(p: Ptr<A>, q: Ptr<B>) -> (r: usize) requires p.blk() == q.blk(), p.off() >= q.off() ensures r == p.off() - q.off() { unimplemented!() }

/// the message header of the system, without the vector of parts, which is passed along
#[allow(non_camel_case_types)]
pub struct msghdr { pub msg_control: Ptr<u8>, pub msg_controllen: usize, pub msg_flags: u32, pub msg_iovlen: usize }
#[allow(non_camel_case_types)]
pub struct iovec { pub iov_base: Ptr<u8>, pub iov_len: usize }
pub mod sys {
    use super::*;
    pub use super::{iovec, msghdr, cmsghdr};
    pub const MSG_PEEK: u32 = 2;
    pub const MSG_CTRUNC: u32 = 8;
    pub const MSG_TRUNC: u32 = 0x20;
    pub use super::libc::{CMSG_SPACE, CMSG_DATA, CMSG_LEN};
    #[verifier::external_body]
    pub fn zeroed() -> (r: msghdr) ensures r.msg_controllen == 0 { unimplemented!() }
    /// nothing is written beyond the two areas; with MSG_PEEK | MSG_TRUNC the length of the frame is told and the frame stays
    #[verifier::external_body]
    pub fn recvmsg(fd: i32, h: &mut msghdr, flags: u32, v: &iovec, Tracked(tr): Tracked<&mut Heap>) -> (r: isize)
        requires
            v.iov_len > 0 ==> in_bounds(old(tr)@, v.iov_base.blk(), v.iov_base.off(), v.iov_len as int),
            old(h).msg_controllen > 0 ==> in_bounds(old(tr)@, old(h).msg_control.blk(), old(h).msg_control.off(), old(h).msg_controllen as int),
            old(h).msg_controllen > 0 && v.iov_len > 0 ==> old(h).msg_control.blk() != v.iov_base.blk(),
            flags == MSG_PEEK | MSG_TRUNC | MSG_CTRUNC || flags == 0,
            old(h).msg_iovlen == 1,
        ensures
            final(h).msg_control == old(h).msg_control, final(h).msg_iovlen == old(h).msg_iovlen,
            flags == MSG_PEEK | MSG_TRUNC | MSG_CTRUNC ==> peeked(old(tr)@, final(tr)@, r) && final(h).msg_controllen <= old(h).msg_controllen,
            flags == 0 ==> taken(old(tr)@, final(tr)@, r, *old(h), *final(h), *v),
    { unimplemented!() }
    /// the whole frame is read from memory, and written to the connection at once or not at all
    #[verifier::external_body]
    pub fn sendmsg(fd: i32, h: &msghdr, flags: i32, v: &iovec, Tracked(tr): Tracked<&mut Heap>) -> (r: isize)
        requires
            in_bounds(old(tr)@, v.iov_base.blk(), v.iov_base.off(), v.iov_len as int), v.iov_base.off() == 0, v.iov_len == old(tr)@.blocks[v.iov_base.blk()].data.len(),
            in_bounds(old(tr)@, h.msg_control.blk(), h.msg_control.off(), h.msg_controllen as int), h.msg_control.off() == 0, h.msg_controllen == old(tr)@.blocks[h.msg_control.blk()].data.len(),
            h.msg_iovlen == 1, flags == 0,
        ensures
            r >= -1,
            final(tr)@.world.interrupted ==> final(tr)@ == (Mem { world: World { interrupted: true, ..old(tr)@.world }, ..old(tr)@ }) && r == -1,
            !final(tr)@.world.interrupted ==> final(tr)@ == (Mem { world: World {
                interrupted: false,
                sent: old(tr)@.world.sent.push(Sent { fd, data: old(tr)@.blocks[v.iov_base.blk()].data, control: old(tr)@.blocks[h.msg_control.blk()].data, counts: old(tr)@.world.counts, ok: r != -1 }),
                ..old(tr)@.world }, ..old(tr)@ }),
    { unimplemented!() }
}
pub open spec fn peeked(m: Mem, m2: Mem, r: isize) -> bool {
    &&& m2 == (Mem { world: World { peeked: true, ..m.world }, ..m })
    &&& match m.world.next { Some(f) => r == f.data.len() && f.data.len() < 0x8000_0000, None => r <= 0 }
}
/// the frame is taken: as many bytes and descriptors as there is room for
pub open spec fn taken(m: Mem, m2: Mem, r: isize, h: msghdr, h2: msghdr, v: iovec) -> bool {
    match m.world.next {
        // nothing arrives: the connection is gone
        None => r <= 0 && m2 == m,
        Some(f) => {
            let k = h2.msg_controllen;
            let got = m2.world.received.subrange(m.world.received.len() as int, m2.world.received.len() as int);
            if r < 0 { m2 == m } else {
            &&& m2.world == (World { next: None, received: m2.world.received, ..m.world })
            &&& m.world.received.len() <= m2.world.received.len()
            &&& m2.world.received == m.world.received + got
            &&& m2.owners == m.owners && m2.blocks.dom() == m.blocks.dom()
            &&& forall|b: int| #![trigger m2.blocks[b]] m.blocks.contains_key(b) ==> m2.blocks[b].align == m.blocks[b].align && m2.blocks[b].data.len() == m.blocks[b].data.len()
                && (b != v.iov_base.blk() && b != h.msg_control.blk() ==> m2.blocks[b] == m.blocks[b])
            &&& r == if f.data.len() <= v.iov_len { f.data.len() as int } else { v.iov_len as int }
            &&& (h2.msg_flags & sys::MSG_TRUNC == sys::MSG_TRUNC) == (f.data.len() > v.iov_len)
            &&& r > 0 ==> has(m2.blocks[v.iov_base.blk()].data, v.iov_base.off(), f.data.subrange(0, r as int))
            // descriptors are only withheld with a mark
            &&& got.len() <= f.fds.len() && got == f.fds.subrange(0, got.len() as int)
            &&& (h2.msg_flags & sys::MSG_CTRUNC == sys::MSG_CTRUNC) == (got.len() < f.fds.len())
            &&& k <= h.msg_controllen
            &&& (k == 0) == (got.len() == 0)
            &&& got.len() > 0 ==> {
                let c = m2.blocks[h.msg_control.blk()].data;
                &&& k >= 16 + 4 * got.len()
                &&& has(c, h.msg_control.off(), hdr_bytes(cmsghdr { cmsg_len: (16 + 4 * got.len()) as usize, cmsg_level: libc::SOL_SOCKET, cmsg_type: libc::SCM_RIGHTS }))
                &&& forall|i: int| 0 <= i < got.len() ==> has(c, h.msg_control.off() + 16 + 4 * i, #[trigger] ne4i(got[i]))
            }
            }
        },
    }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other }
pub mod io {
    use super::*;
    pub use super::ErrorKind;
    #[verifier::external_body]
    pub struct Error { x: u8 }
    impl Error {
        pub uninterp spec fn k(&self) -> ErrorKind;
        #[verifier::external_body]
        pub fn last_os_error(Tracked(tr): Tracked<&mut Heap>) -> (r: Error) ensures (r.k() == ErrorKind::Interrupted) == old(tr)@.world.interrupted, final(tr)@ == old(tr)@ { unimplemented!() }
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k() { unimplemented!() }
    }
}
/// how often an object is among the first `k` regions
pub open spec fn occ(regions: Seq<MemoryRegion>, k: nat, o: int) -> int
    decreases k
{
    if k == 0 { 0 } else { occ(regions, (k - 1) as nat, o) + if ino(regions[k - 1].obj()) == o { 1int } else { 0 } }
}
/// every region of the message counted once more for each time it is in it
pub open spec fn with_copies(c: spec_fn(int) -> int, regions: Seq<MemoryRegion>) -> spec_fn(int) -> int {
    |o: int| c(o) + occ(regions, regions.len(), o)
}
/// what this message leaves at a connection
pub open spec fn is_sent(e: EncodedMessage, m: Mem) -> bool {
    &&& m.blocks.contains_key(e.iov_data.blk()) && m.blocks[e.iov_data.blk()].data.len() == e.iov_data.length()
    &&& m.blocks.contains_key(e.control_data.blk()) && m.blocks[e.control_data.blk()].data.len() == e.control_data.length()
}
/// what a frame means to the receiver
pub open spec fn header_ok(data: Seq<u8>) -> bool { data.len() >= 4 && data[0] == 0xFF && compatible(this_version(), Version((data[1], data[2], data[3]))) }
pub open spec fn header_bad(data: Seq<u8>) -> bool { data.len() >= 4 && !header_ok(data) }
pub use raws_lemma::*;
pub mod raws_lemma { use super::*;
#[verifier::external_body]
pub struct Fd { x: u8 }
impl Fd { pub uninterp spec fn raw(&self) -> i32; }
pub type Object = Fd;
pub open spec fn raws(v: Seq<Object>) -> Seq<i32> { Seq::new(v.len(), |i: int| v[i].raw()) }
pub broadcast proof fn raws_split(v: Seq<Object>, n: int)
    requires 0 <= n <= v.len()
    ensures #[trigger] raws(v.subrange(0, n)) + raws(v.subrange(n, v.len() as int)) == raws(v)
{ assert(raws(v.subrange(0, n)) + raws(v.subrange(n, v.len() as int)) =~= raws(v)); }
}
pub open spec fn region_raws(v: Seq<MemoryRegion>) -> Seq<i32> { Seq::new(v.len(), |i: int| v[i].obj().raw()) }

pub open spec fn is_decoded(f: Incoming, e: EncodedMessage) -> bool {
    &&& header_ok(f.data)
    &&& parts(f.data) is Some
    &&& selector_of((parts(f.data)->0).0) == Some(e.selector)
    &&& e.payload_data.bytes() == (parts(f.data)->0).1
    &&& e.memory_regions@.len() == e.selector.memory_region_count
    &&& f.fds =~= raws(e.objects@) + region_raws(e.memory_regions@)
}
pub open spec fn is_mismatch(f: Incoming, v: Version, t: Option<Remote>) -> bool {
    &&& header_bad(f.data)
    &&& v == if f.data[0] == 0xFF { Version((f.data[1], f.data[2], f.data[3])) } else { Version((0, 0, 0)) }
    // whom to tell
    &&& t is Some == (f.fds.len() > 0)
    &&& t matches Some(x) ==> x.raw() == f.fds.last()
}
/// well formed
pub open spec fn acceptable(f: Incoming) -> bool {
    &&& header_ok(f.data)
    &&& parts(f.data) is Some
    &&& selector_of((parts(f.data)->0).0) is Some
    &&& ({ let n = selector_of((parts(f.data)->0).0)->0.memory_region_count;
           n <= f.fds.len() && forall|i: int| f.fds.len() - n <= i < f.fds.len() ==> is_region(#[trigger] f.fds[i]) })
}
/// C06: a message that is sent and received is the message (`f.fds` are new descriptors of the objects of `d`)
proof fn lemma_delivery(frame: Seq<Option<u8>>, control: Seq<Option<u8>>, sel: Selector, pay: Seq<u8>, v: Version, f: Incoming, e: EncodedMessage)
    requires
        is_frame(frame, v, selector_bytes(sel), pay), arrives(frame, f.data),
        selector_bytes(sel).len() < 0x1_0000_0000, pay.len() < 0x1_0000_0000,
        // bincode (trusted)
        selector_of(selector_bytes(sel)) == Some(sel),
        is_decoded(f, e),
    ensures
        e.selector == sel,
        e.payload_data.bytes() == pay,
        e.objects@.len() + e.memory_regions@.len() == f.fds.len(),
        forall|i: int| 0 <= i < e.objects@.len() ==> (#[trigger] e.objects@[i]).raw() == f.fds[i],
        forall|i: int| 0 <= i < e.memory_regions@.len() ==> (#[trigger] e.memory_regions@[i]).obj().raw() == f.fds[e.objects@.len() + i],
{
    lemma_round_trip(frame, f.data, v, selector_bytes(sel), pay);
    let a = raws(e.objects@) + region_raws(e.memory_regions@);
    assert forall|i: int| 0 <= i < e.objects@.len() implies (#[trigger] e.objects@[i]).raw() == f.fds[i] by { assert(a[i] == raws(e.objects@)[i]); }
    assert forall|i: int| 0 <= i < e.memory_regions@.len() implies (#[trigger] e.memory_regions@[i]).obj().raw() == f.fds[e.objects@.len() + i] by {
        assert(a[e.objects@.len() + i] == region_raws(e.memory_regions@)[i]);
    }
}
/// C05, C06: a frame of a compatible version is accepted
proof fn lemma_accepted(frame: Seq<Option<u8>>, sel: Selector, pay: Seq<u8>, v: Version, f: Incoming)
    requires
        is_frame(frame, v, selector_bytes(sel), pay), arrives(frame, f.data),
        selector_bytes(sel).len() < 0x1_0000_0000, pay.len() < 0x1_0000_0000,
        selector_of(selector_bytes(sel)) == Some(sel),
        sel.memory_region_count <= f.fds.len(),
        forall|i: int| f.fds.len() - sel.memory_region_count <= i < f.fds.len() ==> is_region(#[trigger] f.fds[i]),
    ensures
        compatible(this_version(), v) ==> acceptable(f),
        !compatible(this_version(), v) ==> header_bad(f.data),
{
    lemma_round_trip(frame, f.data, v, selector_bytes(sel), pay);
    let h = f.data.subrange(0, 4);
    assert(f.data[0] == h[0] && f.data[1] == h[1] && f.data[2] == h[2] && f.data[3] == h[3]);
}
impl EncodedMessage {
/*@fn file=ipmb/src/platform/linux/encoded_message.rs item=EncodedMessage::from_local
sig: pub fn from_local(local: &mut Local, Tracked(tr): Tracked<&mut Heap>) -> (r: Result<EncodedMessage, Error>)
spec:
    requires old(tr)@.world.owned == old(tr)@.world.received,
    ensures
        // C19: every descriptor the system handed over has exactly one owner, whatever the frame was
        final(tr)@.world.owned == final(tr)@.world.received,
        old(tr)@.world.received.len() <= final(tr)@.world.received.len(),
        r matches Ok(e) ==> {
            &&& old(tr)@.world.next is Some
            &&& is_decoded(old(tr)@.world.next->0, e)
            // the copies that were on their way are the copies in the message
            &&& final(tr)@.world.counts =~= old(tr)@.world.counts
        },
        // C05
        r matches Err(Error::VersionMismatch(v, t)) ==> {
            &&& old(tr)@.world.next is Some
            &&& is_mismatch(old(tr)@.world.next->0, v, t)
        },
        // a frame that was taken in full is refused only for a reason
        final(tr)@.world.next is None && (old(tr)@.world.next matches Some(f) && final(tr)@.world.received == old(tr)@.world.received + f.fds)
            ==> (r is Ok) == acceptable(old(tr)@.world.next->0) && (header_bad(old(tr)@.world.next->0.data) ==> r is Err && r->Err_0 is VersionMismatch),
        old(tr)@.world.next is None ==> r is Err && r->Err_0 is Disconnect,
        // the time of the receiver is not over because of a frame
        r matches Err(e) ==> !(e is Timeout),
pre: assert(0x20u32 | 8u32 == 0x28u32) by (bit_vector); assert(forall|f: u32| #![trigger f & 0x28u32] (f & 0x28u32 != 0) == ((f & 0x20u32 == 0x20u32) || (f & 8u32 == 8u32))) by (bit_vector);
subst: libc:: ==> sys::
subst: mem::zeroed ==> sys::zeroed
subst: hdr.msg_iov = &mut iov; ==>
subst opt: u32::to_ne_bytes ==> to_ne4
subst opt: .to_ne_bytes() ==> .to_ne4()
ghost from_raw_parts: -
subst: slice::from_raw_parts(payload_data.as_ptr(), payload_data.len()) ==> same_bytes(payload_data)
subst: &iov_data ==> buf_slice(&iov_data, Tracked(tr))
subst opt: super:: ==>
subst opt: let mut objects = vec![]; ==> let mut objects: Vec<Object> = vec![];
subst: (*control_ptr).cmsg_len ==> cmsg_read(control_ptr, Tracked(tr)).cmsg_len
subst: control_data_ptr as usize - control_ptr as usize ==> ptr_diff(control_data_ptr, control_ptr)
subst: Vec<u8> ==> Buf
ghost alloc_buffer: Tracked(tr)
ghost recvmsg: &iov
ghost recvmsg: Tracked(tr)
ghost from_raw: Tracked(tr)
ghost read: Tracked(tr)
ghost offset: Tracked(tr)
ghost try_from_object: Tracked(tr)
ghost ref_count_inner: Tracked(tr)
before for0: let ghost m1 = tr@; let ghost got = m1.world.received.subrange(m1.world.owned.len() as int, m1.world.received.len() as int);
loop for0?if=control_data_ptr=control_data_ptr.:
    invariant
        __i_for0 <= __n_for0, __n_for0 == got.len(), m1.world.owned.len() + got.len() == m1.world.received.len(),
        got == m1.world.received.subrange(m1.world.owned.len() as int, m1.world.received.len() as int),
        tr@ == (Mem { world: World { owned: tr@.world.owned, ..m1.world }, ..m1 }),
        tr@.world.owned == m1.world.owned + got.subrange(0, __i_for0 as int),
        control_data_ptr.blk() == control_data.blk(), control_data_ptr.off() == 16 + 4 * __i_for0,
        in_bounds(m1, control_data.blk(), 0, 16 + 4 * __n_for0), m1.blocks[control_data.blk()].align == 8,
        forall|i: int| 0 <= i < __n_for0 ==> has(m1.blocks[control_data.blk()].data, 16 + 4 * i, ne4i(#[trigger] got[i])),
        __i_for0 < __n_for0 ==> has(m1.blocks[control_data.blk()].data, 16 + 4 * __i_for0, ne4i(got[__i_for0 as int])),
        raws(objects@) == got.subrange(0, __i_for0 as int),
    decreases __n_for0 - __i_for0,
loop for0?if=control_data_ptr.add(:
    invariant
        __i_for0 <= __n_for0, __n_for0 == got.len(), m1.world.owned.len() + got.len() == m1.world.received.len(),
        got == m1.world.received.subrange(m1.world.owned.len() as int, m1.world.received.len() as int),
        tr@ == (Mem { world: World { owned: tr@.world.owned, ..m1.world }, ..m1 }),
        tr@.world.owned == m1.world.owned + got.subrange(0, __i_for0 as int),
        control_data_ptr.blk() == control_data.blk(), control_data_ptr.off() == 16,
        in_bounds(m1, control_data.blk(), 0, 16 + 4 * __n_for0), m1.blocks[control_data.blk()].align == 8,
        forall|i: int| 0 <= i < __n_for0 ==> has(m1.blocks[control_data.blk()].data, 16 + 4 * i, ne4i(#[trigger] got[i])),
        __i_for0 < __n_for0 ==> has(m1.blocks[control_data.blk()].data, 16 + 4 * __i_for0, ne4i(got[__i_for0 as int])),
        raws(objects@) == got.subrange(0, __i_for0 as int),
    decreases __n_for0 - __i_for0,
mode collect0: MemoryRegion
before collect0: let ghost m2 = tr@; let ghost d0 = __d_collect0@;
loop collect0:
    invariant
        __d_collect0@.len() + __o_collect0@.len() + (if __e_collect0 is Err { 1int } else { 0 }) == d0.len(),
        __e_collect0 is Err ==> !is_region((raws(objects@) + raws(d0))[(objects@.len() + __o_collect0@.len()) as int]) && !(__e_collect0->Err_0 is VersionMismatch) && !(__e_collect0->Err_0 is Timeout),
        forall|i: int| 0 <= i < __o_collect0@.len() ==> __o_collect0@[i].obj() == #[trigger] d0[i] && is_region(d0[i].raw()),
        forall|i: int| 0 <= i < __d_collect0@.len() ==> #[trigger] __d_collect0@[i] == d0[d0.len() - __d_collect0@.len() + i],
        tr@ == (Mem { world: World { counts: tr@.world.counts, ..m2.world }, ..m2 }),
        tr@.world.counts =~= m2.world.counts,
    decreases __d_collect0@.len(),
@*/
/*@fn file=ipmb/src/platform/linux/encoded_message.rs item=EncodedMessage::send
sig: pub fn send(&mut self, remote: &Remote, Tracked(tr): Tracked<&mut Heap>) -> (r: Result<(), Error>)
spec:
    requires is_sent(*old(self), old(tr)@),
    ensures
        *final(self) == *old(self),
        r matches Err(e) ==> e is Disconnect,
        final(tr)@.blocks == old(tr)@.blocks,
        // one frame, to this connection; when it is on its way its regions are already counted
        final(tr)@.world.sent == old(tr)@.world.sent.push(Sent {
            fd: remote.raw(), data: old(tr)@.blocks[old(self).iov_data.blk()].data, control: old(tr)@.blocks[old(self).control_data.blk()].data,
            counts: with_copies(old(tr)@.world.counts, old(self).memory_regions@), ok: r is Ok }),
        // C09: the count changes by the copies handed over
        r is Ok ==> final(tr)@.world.counts =~= with_copies(old(tr)@.world.counts, old(self).memory_regions@),
        r is Err ==> final(tr)@.world.counts =~= old(tr)@.world.counts,
        final(tr)@.world.owned == old(tr)@.world.owned,
attr: #[verifier::exec_allows_no_decreases_clause]
subst: libc:: ==> sys::
subst: mem::zeroed ==> sys::zeroed
subst: hdr.msg_iov = &mut iov; ==>
subst opt: as _; ==> ;
ghost ref_count_inner: Tracked(tr)
ghost sendmsg: &iov
ghost sendmsg: Tracked(tr)
ghost last_os_error: Tracked(tr)
loop for0:
    invariant
        __i_for0 <= self.memory_regions@.len(),
        *self == *old(self),
        tr@ == (Mem { world: World { counts: tr@.world.counts, ..old(tr)@.world }, ..old(tr)@ }),
        forall|o: int| #[trigger] (tr@.world.counts)(o) == (old(tr)@.world.counts)(o) + occ(self.memory_regions@, __i_for0 as nat, o),
    decreases self.memory_regions@.len() - __i_for0,
mode loop0: isize
loop loop0:
    invariant_except_break
        tr@.world.sent == old(tr)@.world.sent,
    invariant
        is_sent(*old(self), old(tr)@),
        hdr.msg_control.blk() == self.control_data.blk(), hdr.msg_control.off() == 0, hdr.msg_controllen == self.control_data.length(), hdr.msg_iovlen == 1,
        iov.iov_base.blk() == self.iov_data.blk(), iov.iov_base.off() == 0, iov.iov_len == self.iov_data.length(),
        remote_guard.raw() == remote.raw(),
        *self == *old(self),
        tr@.world.counts =~= with_copies(old(tr)@.world.counts, self.memory_regions@),
        tr@.world.owned == old(tr)@.world.owned,
        tr@.blocks == old(tr)@.blocks,
    ensures
        !tr@.world.interrupted,
        tr@.world.sent == old(tr)@.world.sent.push(Sent {
            fd: remote.raw(), data: old(tr)@.blocks[old(self).iov_data.blk()].data, control: old(tr)@.blocks[old(self).control_data.blk()].data,
            counts: with_copies(old(tr)@.world.counts, old(self).memory_regions@), ok: __v_loop0 != -1 }),
loop for1:
    invariant
        __i_for1 <= self.memory_regions@.len(),
        *self == *old(self),
        !tr@.world.interrupted,
        tr@.blocks == old(tr)@.blocks,
        tr@.world.owned == old(tr)@.world.owned,
        tr@.world.sent == old(tr)@.world.sent.push(Sent {
            fd: remote.raw(), data: old(tr)@.blocks[old(self).iov_data.blk()].data, control: old(tr)@.blocks[old(self).control_data.blk()].data,
            counts: with_copies(old(tr)@.world.counts, old(self).memory_regions@), ok: false }),
        forall|o: int| #[trigger] (tr@.world.counts)(o) == with_copies(old(tr)@.world.counts, self.memory_regions@)(o) - occ(self.memory_regions@, __i_for1 as nat, o),
    decreases self.memory_regions@.len() - __i_for1,
@*/
}
} // verus!
fn main() {}
