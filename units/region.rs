// C08, C09: memory regions: their layout, their mappings and their reference count
use vstd::prelude::*;
use std::mem;
verus! {

//@include prelude.inc
global size_of usize == 8;

/// the shared objects of the system and the mappings of this process
pub ghost struct Sys {
    /// length of each file; no process changes it after the creation
    pub sizes: Map<int, int>,
    /// the cells that all processes share: reference count, length of the buffer
    pub counts: Map<int, u32>,
    pub lens: Map<int, u64>,
    /// open descriptors that nothing owns yet
    pub loose: Set<i32>,
    pub maps: Map<int, Mapping>,
}
pub ghost struct Mapping { pub ino: int, pub off: int, pub len: int }
#[verifier::external_body]
pub tracked struct Kernel { x: u8 }
impl Kernel { pub uninterp spec fn view(&self) -> Sys; }

#[verifier::external_body]
pub struct Object { x: u8 }
pub type Fd = Object;
/// the file behind a descriptor
pub uninterp spec fn ino(o: Object) -> int;
pub uninterp spec fn raw_ino(fd: i32) -> int;
/// a file, and not a socket, a directory or a device
pub uninterp spec fn regular(i: int) -> bool;
pub struct IoError {}
impl Object {
    #[verifier::external_body]
    /// an open number nothing owns yet
    pub fn from_raw(fd: i32, Tracked(tr): Tracked<&mut Kernel>) -> (r: Object)
        requires old(tr)@.loose.contains(fd)
        ensures ino(r) == raw_ino(fd), final(tr)@ == (Sys { loose: old(tr)@.loose.remove(fd), ..old(tr)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_raw(&self) -> (r: i32) ensures raw_ino(r) == ino(*self) { unimplemented!() }
    /// another descriptor of the same file
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Result<Object, IoError>) ensures r matches Ok(o) ==> ino(o) == ino(*self) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Version { x: u8 }
#[verifier::external_body]
pub struct Remote { x: u8 }
#[verifier::external_body]
pub struct Encoding { x: u8 }
#[verifier::external_body]
pub struct Decoding { x: u8 }
/*@type file=ipmb/src/errors.rs item=Error
subst: bincode::error::EncodeError ==> Encoding
subst: bincode::error::DecodeError ==> Decoding
subst: std::io::Error ==> IoError
@*/
/// `expect`: does not return without a value
pub trait OrPanic<T>: Sized {
    spec fn value(self) -> Option<T>;
    fn or_panic(self, msg: &str) -> (r: T) ensures self.value() == Some(r);
}
impl<T, E> OrPanic<T> for Result<T, E> {
    open spec fn value(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    #[verifier::external_body]
    fn or_panic(self, msg: &str) -> (r: T) { unimplemented!() }
}

/// a part of a mapping
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Slice { x: u8 }
impl Slice {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn off(&self) -> int;
    pub uninterp spec fn length(&self) -> int;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.length() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: P) ensures r.id() == self.id(), r.off() == self.off() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut_ptr(&self) -> (r: P) ensures r.id() == self.id(), r.off() == self.off() { unimplemented!() }
    /// `&mut []`
    #[verifier::external_body]
    pub fn empty() -> (r: Slice) ensures r.length() == 0 { unimplemented!() }
}
/// a pointer into a mapping; `off` may be outside, only accesses are checked
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct P { x: u8 }
impl P {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn off(&self) -> int;
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (r: P) ensures r.id() == self.id(), r.off() == self.off() + n { unimplemented!() }
    #[verifier::external_body]
    pub fn sub(self, n: usize) -> (r: P) ensures r.id() == self.id(), r.off() == self.off() - n { unimplemented!() }
    #[verifier::external_body]
    pub fn cast<U>(self) -> (r: P) ensures r.id() == self.id(), r.off() == self.off() { unimplemented!() }
    #[verifier::external_body]
    pub fn read_unaligned(self, Tracked(tr): Tracked<&mut Kernel>) -> (r: u64)
        requires accessible(old(tr)@, self, 8), file_off(old(tr)@, self) == LEN_CELL()
        ensures final(tr)@ == old(tr)@, r == old(tr)@.lens[old(tr)@.maps[self.id()].ino] { unimplemented!() }
    #[verifier::external_body]
    pub fn write_unaligned(self, v: u64, Tracked(tr): Tracked<&mut Kernel>)
        requires accessible(old(tr)@, self, 8), file_off(old(tr)@, self) == LEN_CELL()
        ensures final(tr)@ == (Sys { lens: old(tr)@.lens.insert(old(tr)@.maps[self.id()].ino, v), ..old(tr)@ }) { unimplemented!() }
}
/// where all peers look for the length; behind the reference count
pub open spec fn LEN_CELL() -> int { MemoryRegion::HEADER_REFERENCE_COUNT as int }
pub open spec fn file_off(k: Sys, p: P) -> int { k.maps[p.id()].off + p.off() }
/// `n` bytes are mapped, and the file reaches that far
pub open spec fn accessible(k: Sys, p: P, n: int) -> bool {
    &&& k.maps.contains_key(p.id()) && 0 <= p.off() && p.off() + n <= k.maps[p.id()].len
    &&& file_off(k, p) + n <= k.sizes[k.maps[p.id()].ino]
}
pub open spec fn same(a: Sys, b: Sys) -> bool { a.sizes =~= b.sizes && a.counts =~= b.counts && a.lens =~= b.lens && a.maps =~= b.maps }
/// the reference count of a file
#[verifier::external_body]
pub struct AtomicU32 { x: u8 }
pub enum Ordering { SeqCst }
pub open spec fn counted(k: Sys, i: int, d: int) -> Sys { Sys { counts: k.counts.insert(i, wrap(k.counts[i] + d)), ..k } }
pub open spec fn wrap(n: int) -> u32 { (n % 0x1_0000_0000) as u32 }
impl AtomicU32 {
    pub uninterp spec fn ino(&self) -> int;
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(tr): Tracked<&mut Kernel>) -> (r: u32)
        ensures r == old(tr)@.counts[self.ino()], final(tr)@ == old(tr)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: u32, o: Ordering, Tracked(tr): Tracked<&mut Kernel>)
        ensures final(tr)@ == (Sys { counts: old(tr)@.counts.insert(self.ino(), v), ..old(tr)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, v: u32, o: Ordering, Tracked(tr): Tracked<&mut Kernel>) -> (r: u32)
        ensures r == old(tr)@.counts[self.ino()], final(tr)@ == counted(old(tr)@, self.ino(), v as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, v: u32, o: Ordering, Tracked(tr): Tracked<&mut Kernel>) -> (r: u32)
        ensures r == old(tr)@.counts[self.ino()], final(tr)@ == counted(old(tr)@, self.ino(), -(v as int)) { unimplemented!() }
}
/// the bytes at the pointer are used as the reference count: the first four of the file
#[verifier::external_body]
pub fn transmute(p: P, Tracked(tr): Tracked<&mut Kernel>) -> (r: AtomicU32)
    requires accessible(old(tr)@, p, 4), file_off(old(tr)@, p) == 0
    ensures r.ino() == old(tr)@.maps[p.id()].ino, final(tr)@ == old(tr)@ { unimplemented!() }

pub mod libc {
    use super::*;
    pub const MFD_CLOEXEC: u32 = 1;
    pub const PROT_READ: i32 = 1;
    pub const PROT_WRITE: i32 = 2;
    pub const MAP_SHARED: i32 = 1;
    pub const MAP_PRIVATE: i32 = 2;
    pub const PROT_NONE: i32 = 0;
    pub const PROT_EXEC: i32 = 4;
    pub const S_IFSOCK: u32 = 0o140000;
    pub const S_IFDIR: u32 = 0o040000;
    pub const S_IFCHR: u32 = 0o020000;
    pub const S_IFMT: u32 = 0o170000;
    pub const S_IFREG: u32 = 0o100000;
    #[allow(non_camel_case_types)]
    pub struct stat { pub st_mode: u32, pub st_size: i64 }
    /// a new empty file
    #[verifier::external_body]
    pub fn memfd_create(name: (), flags: u32, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        ensures r == -1 ==> final(tr)@ == old(tr)@,
            r != -1 ==> !old(tr)@.sizes.contains_key(raw_ino(r)) && regular(raw_ino(r)) && final(tr)@ == (Sys { sizes: old(tr)@.sizes.insert(raw_ino(r), 0), counts: old(tr)@.counts.insert(raw_ino(r), 0), lens: old(tr)@.lens.insert(raw_ino(r), 0), loose: old(tr)@.loose.insert(r), ..old(tr)@ }) && !old(tr)@.loose.contains(r) { unimplemented!() }
    /// negative sizes are refused
    #[verifier::external_body]
    pub fn ftruncate(fd: i32, size: i64, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        ensures r == -1 ==> final(tr)@ == old(tr)@,
            r != -1 ==> size >= 0 && final(tr)@ == (Sys { sizes: old(tr)@.sizes.insert(raw_ino(fd), size as int), ..old(tr)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn fstat(fd: i32, s: &mut stat, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        ensures final(tr)@ == old(tr)@,
            r != -1 ==> (final(s).st_mode & S_IFMT == S_IFREG) == regular(raw_ino(fd)) && (regular(raw_ino(fd)) ==> final(s).st_size == old(tr)@.sizes[raw_ino(fd)] && final(s).st_size >= 0 && old(tr)@.sizes.contains_key(raw_ino(fd)) && old(tr)@.counts.contains_key(raw_ino(fd))) { unimplemented!() }
    #[verifier::external_body]
    pub fn zeroed() -> stat { unimplemented!() }
    /// offsets that are not a multiple of the page size, and empty mappings, are refused
    #[verifier::external_body]
    pub fn mmap(hint: P, len: usize, prot: i32, flags: i32, fd: i32, off: i64, Tracked(tr): Tracked<&mut Kernel>) -> (r: P)
        ensures
            failed(r) ==> final(tr)@ == old(tr)@,
            !failed(r) ==> {
                &&& page_aligned(off as int) && len > 0 && off >= 0
                &&& prot == PROT_READ | PROT_WRITE && flags == MAP_SHARED
                &&& !old(tr)@.maps.contains_key(r.id()) && r.off() == 0
                &&& final(tr)@ == (Sys { maps: old(tr)@.maps.insert(r.id(), Mapping { ino: raw_ino(fd), off: off as int, len: len as int }), ..old(tr)@ })
            },
            // the only reason the arguments can give
            !page_aligned(off as int) || len == 0 || off < 0 ==> failed(r),
    { unimplemented!() }
    /// a whole mapping, and nothing else
    #[verifier::external_body]
    pub fn munmap(p: P, len: usize, Tracked(tr): Tracked<&mut Kernel>) -> (r: i32)
        requires old(tr)@.maps.contains_key(p.id()), p.off() == 0, old(tr)@.maps[p.id()].len == len
        ensures r == 0, final(tr)@ == (Sys { maps: old(tr)@.maps.remove(p.id()), ..old(tr)@ }) { unimplemented!() }
}
pub uninterp spec fn failed(p: P) -> bool;
#[verifier::external_body]
pub fn is_failed(p: P) -> (r: bool) ensures r == failed(p) { unimplemented!() }
#[verifier::external_body]
pub fn null_mut() -> P { unimplemented!() }
pub fn __cstr() {}
#[verifier::external_body]
pub fn __cast<U, T>(p: T) -> (r: T) ensures r == p { unimplemented!() }

/// one less than the page size, a power of two
pub uninterp spec fn mask() -> usize;
#[verifier::external_body]
pub fn page_mask() -> (r: usize) ensures r == mask() { unimplemented!() }
pub open spec fn page_aligned(n: int) -> bool { 0 <= n <= usize::MAX && (n as usize) & mask() == 0 }
pub open spec fn trunc(n: usize) -> usize { n & !mask() }
proof fn lemma_trunc(n: usize)
    ensures trunc(n) <= n, page_aligned(trunc(n) as int), trunc(0) == 0
{
    let m = mask();
    assert(n & !m <= n && (n & !m) & m == 0 && 0usize & !m == 0) by (bit_vector);
}

/*@type file=ipmb/src/platform/mod.rs item=MemoryRegion
@*/
/*@type file=ipmb/src/platform/mod.rs item=MappedRegion
subst: &'static mut [u8] ==> Slice
@*/

pub open spec fn mapped(m: MappedRegion, i: int) -> Mapping {
    Mapping { ino: i, off: trunc(m.offset) as int, len: m.offset - trunc(m.offset) + m.buffer.length() }
}
impl MappedRegion {
    /// the slice is the part of the file at `offset`, inside a mapping that nothing else owns
    pub open spec fn wf(self, k: Sys, i: int) -> bool {
        &&& k.maps.contains_key(self.buffer.id())
        &&& k.maps[self.buffer.id()] == mapped(self, i)
        &&& self.buffer.off() == self.offset - trunc(self.offset)
        &&& self.offset + self.buffer.length() <= i64::MAX
    }
/*@fn file=ipmb/src/platform/linux.rs item=MappedRegion::map
sig: pub fn map(obj: &Object, aligned_offset: usize, aligend_size: usize, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<P, Error>)
spec:
    requires aligned_offset <= i64::MAX,
    ensures
        r matches Err(e) ==> e is MemoryRegionMapping && final(tr)@ == old(tr)@,
        r matches Ok(p) ==> {
            &&& page_aligned(aligned_offset as int) && aligend_size > 0
            &&& !old(tr)@.maps.contains_key(p.id()) && p.off() == 0
            &&& final(tr)@ == (Sys { maps: old(tr)@.maps.insert(p.id(), Mapping { ino: ino(*obj), off: aligned_offset as int, len: aligend_size as int }), ..old(tr)@ })
        },
subst: ptr::null_mut() ==> null_mut()
subst: addr == libc::MAP_FAILED ==> is_failed(addr)
subst opt: addr as _ ==> addr
ghost mmap: Tracked(tr)
@*/
/*@fn file=ipmb/src/platform/linux.rs item=MappedRegion::unmap
sig: pub fn unmap(addr: P, len: usize, Tracked(tr): Tracked<&mut Kernel>)
spec:
    requires old(tr)@.maps.contains_key(addr.id()), addr.off() == 0, old(tr)@.maps[addr.id()].len == len
    ensures final(tr)@ == (Sys { maps: old(tr)@.maps.remove(addr.id()), ..old(tr)@ })
subst opt: addr as _ ==> addr
ghost munmap: Tracked(tr)
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MappedRegion::from_object
sig: pub fn from_object(obj: &Object, offset: usize, size: usize, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<MappedRegion, Error>)
spec:
    requires offset + size <= i64::MAX,
    ensures
        r matches Err(e) ==> e is MemoryRegionMapping && final(tr)@ == old(tr)@,
        r matches Ok(m) ==> {
            &&& m.offset == offset && m.buffer.length() == size
            &&& m.wf(final(tr)@, ino(*obj))
            &&& !old(tr)@.maps.contains_key(m.buffer.id())
            &&& final(tr)@ == (Sys { maps: old(tr)@.maps.insert(m.buffer.id(), mapped(m, ino(*obj))), ..old(tr)@ })
        },
pre: proof { lemma_trunc(offset); }
subst: slice::from_raw_parts_mut ==> from_raw_parts_mut
ghost map: Tracked(tr)
ghost from_raw_parts_mut: Tracked(tr)
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MappedRegion::as_slice
sig: pub fn as_slice(&self) -> (r: Slice)
spec:
    ensures r == self.buffer
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MappedRegion::as_mut
sig: pub fn as_mut(&mut self) -> (r: Slice)
spec:
    ensures r == old(self).buffer, *final(self) == *old(self)
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MappedRegion~as~Drop::drop
sig: pub fn drop_(&mut self, Tracked(tr): Tracked<&mut Kernel>)
spec:
    requires exists|i: int| old(self).wf(old(tr)@, i),
    ensures final(tr)@ == (Sys { maps: old(tr)@.maps.remove(old(self).buffer.id()), ..old(tr)@ })
pre: proof { lemma_trunc(self.offset); }
ghost unmap: Tracked(tr)
subst opt: addr as _ ==> addr
@*/
}
/// the bytes belong to the mapping
#[verifier::external_body]
pub fn from_raw_parts_mut(p: P, n: usize, Tracked(tr): Tracked<&mut Kernel>) -> (r: Slice)
    requires old(tr)@.maps.contains_key(p.id()), 0 <= p.off(), p.off() + n <= old(tr)@.maps[p.id()].len
    ensures r.id() == p.id(), r.off() == p.off(), r.length() == n, final(tr)@ == old(tr)@ { unimplemented!() }
/*@fn file=ipmb/src/platform/mod.rs item=trunc_page
sig: fn trunc_page(size: usize) -> (r: usize)
spec:
    ensures r == trunc(size)
@*/

// ---- ranges
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
pub trait RangeBounds: Sized {
    spec fn lo(&self) -> Bound<usize>;
    spec fn hi(&self) -> Bound<usize>;
    fn start_bound(&self) -> (r: Bound<&usize>) ensures same_bound(r, self.lo());
    fn end_bound(&self) -> (r: Bound<&usize>) ensures same_bound(r, self.hi());
}
pub open spec fn same_bound(a: Bound<&usize>, b: Bound<usize>) -> bool {
    match a {
        Bound::Included(x) => b == Bound::Included(*x),
        Bound::Excluded(x) => b == Bound::Excluded(*x),
        Bound::Unbounded => b == Bound::<usize>::Unbounded,
    }
}
/// first byte of the range
pub open spec fn first(b: Bound<usize>) -> int { match b { Bound::Included(x) => x as int, Bound::Excluded(x) => x + 1, Bound::Unbounded => 0 } }
/// the byte behind the range, in a buffer of `n` bytes
pub open spec fn end(b: Bound<usize>, n: int) -> int { match b { Bound::Included(x) => x + 1, Bound::Excluded(x) => x as int, Bound::Unbounded => n } }
/*@fn file=ipmb/src/util/mod.rs item=range_to_offset_size
sig: pub fn range_to_offset_size<S: RangeBounds>(bounds: S) -> (r: Option<(usize, Option<usize>)>)
spec:
    ensures
        r is None ==> (first(bounds.lo()) > usize::MAX || (!(bounds.hi() is Unbounded) && (end(bounds.hi(), 0) > usize::MAX || end(bounds.hi(), 0) < first(bounds.lo())))),
        r matches Some(x) ==> {
            &&& x.0 == first(bounds.lo())
            &&& x.1 is None == bounds.hi() is Unbounded
            &&& x.1 matches Some(n) ==> n == end(bounds.hi(), 0) - first(bounds.lo())
        },
@*/
pub mod util { pub use super::range_to_offset_size; }

// ---- regions
impl MemoryRegion {
/*@type file=ipmb/src/platform/mod.rs item=MemoryRegion::HEADER_REFERENCE_COUNT
@*/
/*@type file=ipmb/src/platform/mod.rs item=MemoryRegion::HEADER_BUFFER_SIZE
@*/
    pub open spec fn hl() -> int { Self::HEADER_REFERENCE_COUNT + Self::HEADER_BUFFER_SIZE }
    pub open spec fn ino(self) -> int { ino(self.obj) }
    /// what a region means in every state between two calls
    pub open spec fn wf(self, k: Sys) -> bool {
        &&& self.header.offset == 0 && self.header.buffer.length() == Self::hl()
        &&& self.header.wf(k, self.ino())
        &&& Self::hl() + self.buffer_size <= k.sizes[self.ino()] <= i64::MAX
        &&& k.counts.contains_key(self.ino())
        // only bytes behind the header, and only bytes the file has
        &&& self.buffer matches Some(b) ==> b.wf(k, self.ino()) && b.offset >= Self::hl() && b.buffer.length() > 0
                && b.offset + b.buffer.length() <= Self::hl() + self.buffer_size && b.buffer.id() != self.header.buffer.id()
    }
/*@fn file=ipmb/src/platform/linux.rs item=MemoryRegion::obj_new
sig: pub fn obj_new(size: usize, Tracked(tr): Tracked<&mut Kernel>) -> (r: Option<Object>)
spec:
    ensures
        final(tr)@.maps == old(tr)@.maps,
        // every descriptor it opened has an owner
        final(tr)@.loose =~= old(tr)@.loose,
        forall|i: int| #[trigger] old(tr)@.sizes.contains_key(i) ==> final(tr)@.sizes.contains_key(i) && final(tr)@.sizes[i] == old(tr)@.sizes[i] && final(tr)@.counts[i] == old(tr)@.counts[i] && final(tr)@.lens[i] == old(tr)@.lens[i],
        r matches Some(o) ==> {
            &&& !old(tr)@.sizes.contains_key(ino(o))
            &&& regular(ino(o)) && size <= i64::MAX
            &&& same(final(tr)@, Sys { sizes: old(tr)@.sizes.insert(ino(o), size as int), counts: old(tr)@.counts.insert(ino(o), 0), lens: old(tr)@.lens.insert(ino(o), 0), ..old(tr)@ })
        },
ghost memfd_create: Tracked(tr)
ghost from_raw: Tracked(tr)
ghost ftruncate: Tracked(tr)
pre: assert(size > i64::MAX ==> (size as i64) < 0) by (bit_vector); assert(size <= i64::MAX ==> size as i64 == size) by (bit_vector);
@*/
/*@fn file=ipmb/src/platform/linux.rs item=MemoryRegion::obj_size
sig: pub fn obj_size(obj: &Object, Tracked(tr): Tracked<&mut Kernel>) -> (r: Option<u64>)
spec:
    ensures
        final(tr)@ == old(tr)@,
        r matches Some(n) ==> regular(ino(*obj)) && n == old(tr)@.sizes[ino(*obj)] && n <= i64::MAX && old(tr)@.counts.contains_key(ino(*obj)),
subst: mem::zeroed ==> libc::zeroed
ghost fstat: Tracked(tr)
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MemoryRegion::header_length
sig: pub fn header_length() -> (r: usize)
spec:
    ensures r == Self::hl()
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MemoryRegion::object
sig: pub fn object(&self) -> (r: &Object)
spec:
    ensures *r == self.obj
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MemoryRegion::buffer_size
sig: pub fn buffer_size(&self) -> (r: u64)
spec:
    ensures r == self.buffer_size
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MemoryRegion::ref_count_inner
sig: pub fn ref_count_inner(&self, val: i32, Tracked(tr): Tracked<&mut Kernel>) -> (r: u32)
spec:
    requires self.wf(old(tr)@), -1 <= val <= 1,
    ensures
        r == old(tr)@.counts[self.ino()],
        // the count of this object changes by `val`, nothing else changes
        same(final(tr)@, counted(old(tr)@, self.ino(), val as int)),
subst: mem::transmute ==> transmute
subst opt: let rc: &AtomicU32 ==> let rc: AtomicU32
ghost transmute: Tracked(tr)
ghost load: Tracked(tr)
ghost fetch_add: Tracked(tr)
ghost fetch_sub: Tracked(tr)
pre: proof { lemma_trunc(0); }
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MemoryRegion::ref_count
sig: pub fn ref_count(&self, Tracked(tr): Tracked<&mut Kernel>) -> (r: u32)
spec:
    requires self.wf(old(tr)@),
    ensures r == old(tr)@.counts[self.ino()], same(final(tr)@, old(tr)@),
ghost ref_count_inner: Tracked(tr)
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MemoryRegion::new
sig: pub fn new(size: usize, Tracked(tr): Tracked<&mut Kernel>) -> (r: Option<MemoryRegion>)
spec:
    ensures
        r matches Some(m) ==> {
            &&& m.wf(final(tr)@) && m.buffer is None
            &&& m.buffer_size == size && final(tr)@.lens[m.ino()] == size && final(tr)@.sizes[m.ino()] == Self::hl() + size
            // a fresh object that is referred to once
            &&& !old(tr)@.sizes.contains_key(m.ino()) && regular(m.ino())
            &&& final(tr)@.counts =~= old(tr)@.counts.insert(m.ino(), 1)
            &&& final(tr)@.maps == old(tr)@.maps.insert(m.header.buffer.id(), mapped(m.header, m.ino()))
        },
subst: .expect ==> .or_panic
subst: mem::transmute ==> transmute
subst opt: let rc: &AtomicU32 ==> let rc: AtomicU32
ghost transmute: Tracked(tr)
ghost obj_new: Tracked(tr)
ghost from_object: Tracked(tr)
ghost store: Tracked(tr)
ghost write_unaligned: Tracked(tr)
pre: proof { lemma_trunc(0); }
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MemoryRegion::try_from_object
sig: pub fn try_from_object(obj: Object, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<MemoryRegion, Error>)
spec:
    ensures
        r matches Err(e) ==> e is MemoryRegionMapping && final(tr)@.counts == old(tr)@.counts && final(tr)@.sizes == old(tr)@.sizes && final(tr)@.lens == old(tr)@.lens,
        r matches Ok(m) ==> {
            &&& m.obj == obj && m.wf(final(tr)@) && m.buffer is None
            // only what the object says about itself and its size allows
            &&& m.buffer_size == old(tr)@.lens[ino(obj)] && regular(ino(obj))
            // one more reference
            &&& final(tr)@.counts =~= counted(old(tr)@, ino(obj), 1).counts
            &&& final(tr)@.sizes == old(tr)@.sizes && final(tr)@.lens == old(tr)@.lens
            &&& final(tr)@.maps == old(tr)@.maps.insert(m.header.buffer.id(), mapped(m.header, m.ino()))
            &&& !old(tr)@.maps.contains_key(m.header.buffer.id())
        },
ghost obj_size: Tracked(tr)
ghost from_object: Tracked(tr)
ghost read_unaligned: Tracked(tr)
ghost ref_count_inner: Tracked(tr)
pre: proof { lemma_trunc(0); }
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MemoryRegion::from_object
sig: pub fn from_object(obj: Object, Tracked(tr): Tracked<&mut Kernel>) -> (m: MemoryRegion)
spec:
    ensures
        m.obj == obj && m.wf(final(tr)@) && m.buffer is None,
        m.buffer_size == old(tr)@.lens[ino(obj)],
        same(final(tr)@, Sys { maps: old(tr)@.maps.insert(m.header.buffer.id(), mapped(m.header, m.ino())), ..counted(old(tr)@, ino(obj), 1) }),
        !old(tr)@.maps.contains_key(m.header.buffer.id()),
subst: .expect ==> .or_panic
ghost try_from_object: Tracked(tr)
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MemoryRegion::clone
sig: pub fn clone(&self, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<MemoryRegion, IoError>)
spec:
    requires self.wf(old(tr)@),
    ensures
        r is Err ==> final(tr)@ == old(tr)@,
        // the same object, referred to once more
        r matches Ok(m) ==> {
            &&& m.ino() == self.ino() && m.wf(final(tr)@) && self.wf(final(tr)@)
            &&& m.buffer_size == old(tr)@.lens[m.ino()]
            &&& same(final(tr)@, Sys { maps: old(tr)@.maps.insert(m.header.buffer.id(), mapped(m.header, m.ino())), ..counted(old(tr)@, m.ino(), 1) })
        },
subst opt: Some(__v) => Some ==> Ok(__v) => Ok
subst opt: None => None ==> Err(__e) => Err(__e)
ghost from_object: Tracked(tr)
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MemoryRegion~as~Drop::drop
sig: pub fn drop_(&mut self, Tracked(tr): Tracked<&mut Kernel>)
spec:
    requires old(self).wf(old(tr)@),
    ensures
        // the fields are dropped next, with all mappings still there
        *final(self) == *old(self) && final(self).wf(final(tr)@),
        same(final(tr)@, counted(old(tr)@, old(self).ino(), -1)),
ghost ref_count_inner: Tracked(tr)
@*/
/*@fn file=ipmb/src/platform/mod.rs item=MemoryRegion::map
sig: pub fn map<S: RangeBounds>(&mut self, range: S, Tracked(tr): Tracked<&mut Kernel>) -> (r: Result<Slice, Error>)
spec:
    requires old(self).wf(old(tr)@),
    ensures
        final(self).wf(final(tr)@),
        final(self).obj == old(self).obj && final(self).header == old(self).header && final(self).buffer_size == old(self).buffer_size,
        // neither lengths nor counts change, nor mappings of anything else
        same(final(tr)@, Sys { maps: final(tr)@.maps, ..old(tr)@ }),
        forall|i: int| #[trigger] old(tr)@.maps.contains_key(i) && !(old(self).buffer matches Some(b) && b.buffer.id() == i) ==> final(tr)@.maps.contains_key(i) && final(tr)@.maps[i] == old(tr)@.maps[i],
        // a range that is not within the buffer
        r matches Ok(x) ==> first(range.lo()) <= end(range.hi(), old(self).buffer_size as int) <= old(self).buffer_size,
        r is Err ==> *final(self) == *old(self) && final(tr)@ == old(tr)@,
        // the bytes of the range and no others
        r matches Ok(x) ==> x.length() == end(range.hi(), old(self).buffer_size as int) - first(range.lo()),
        r matches Ok(x) ==> x.length() > 0 ==> {
            &&& final(self).buffer is Some && x == final(self).buffer->0.buffer
            &&& final(tr)@.maps.contains_key(x.id()) && final(tr)@.maps[x.id()].ino == old(self).ino()
            &&& final(tr)@.maps[x.id()].off + x.off() == Self::hl() + first(range.lo())
            &&& 0 <= x.off() && x.off() + x.length() <= final(tr)@.maps[x.id()].len
        },
subst: Ok(&mut []) ==> Ok(Slice::empty())
mode drop: buffer
ghost drop: Tracked(tr)
pre: proof { assert forall|n: usize| #[trigger] trunc(n) <= n by { lemma_trunc(n) }; }
ghost from_object: Tracked(tr)
@*/
}
/// a field that is assigned to drops its old value: the contract of `MappedRegion::drop`
pub trait OldValue: Sized {
    spec fn droppable(self, k: Sys) -> bool;
    spec fn gone(self, k: Sys) -> Sys;
    fn drop(&mut self, Tracked(tr): Tracked<&mut Kernel>)
        requires old(self).droppable(old(tr)@),
        ensures final(tr)@ == old(self).gone(old(tr)@);
}
impl OldValue for Option<MappedRegion> {
    open spec fn droppable(self, k: Sys) -> bool { self matches Some(b) ==> b.wf(k, k.maps[b.buffer.id()].ino) }
    open spec fn gone(self, k: Sys) -> Sys { match self { Some(b) => Sys { maps: k.maps.remove(b.buffer.id()), ..k }, None => k } }
    fn drop(&mut self, Tracked(tr): Tracked<&mut Kernel>) {
        match self { Some(b) => b.drop_(Tracked(tr)), None => {} }
    }
}
}
fn main() {}
