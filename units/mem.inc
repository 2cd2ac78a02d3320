// ---- memory (trusted stand-ins): blocks of bytes, pointers with an owner and an offset
/// four bytes in the order of the machine
pub mod mem_axioms {
use super::*;
pub uninterp spec fn ne4(v: u32) -> Seq<u8>;
pub uninterp spec fn un4(s: Seq<u8>) -> u32;
pub uninterp spec fn ne4i(v: i32) -> Seq<u8>;
pub uninterp spec fn un4i(s: Seq<u8>) -> i32;
pub broadcast axiom fn ne4_un4(v: u32) ensures #[trigger] ne4(v).len() == 4, un4(ne4(v)) == v;
pub broadcast axiom fn un4_ne4(s: Seq<u8>) requires s.len() == 4 ensures ne4(#[trigger] un4(s)) == s;
pub broadcast axiom fn ne4i_un4(v: i32) ensures #[trigger] ne4i(v).len() == 4, un4i(ne4i(v)) == v;
pub broadcast group bytes { ne4_un4, un4_ne4, ne4i_un4 }
}
pub use mem_axioms::*;
/// the bytes of one allocation, `None` where nothing was written yet
pub ghost struct Block { pub data: Seq<Option<u8>>, pub align: int }
/// `owners`: how many vectors would free the allocation when dropped; `world`: what is outside this process's memory
pub ghost struct Mem { pub blocks: Map<int, Block>, pub owners: Map<int, int>, pub world: World }
#[verifier::external_body]
pub tracked struct Heap { x: u8 }
impl Heap { pub uninterp spec fn view(&self) -> Mem; }
pub open spec fn put(s: Seq<Option<u8>>, off: int, b: Seq<u8>) -> Seq<Option<u8>> {
    Seq::new(s.len(), |i: int| if off <= i < off + b.len() { Some(b[i - off]) } else { s[i] })
}
pub open spec fn stored(m: Mem, blk: int, off: int, b: Seq<u8>) -> Mem {
    Mem { blocks: m.blocks.insert(blk, Block { data: put(m.blocks[blk].data, off, b), ..m.blocks[blk] }), ..m }
}
pub use has_lemma::*;
pub mod has_lemma { use super::*;
pub open spec fn has(f: Seq<Option<u8>>, off: int, b: Seq<u8>) -> bool {
    forall|i: int| off <= i < off + b.len() ==> (#[trigger] f[i]) == Some(b[i - off])
}
pub broadcast proof fn has_eq(f: Seq<Option<u8>>, off: int, a: Seq<u8>, b: Seq<u8>)
    requires #[trigger] has(f, off, a), #[trigger] has(f, off, b), a.len() == b.len()
    ensures a == b
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(f[off + i] == Some(a[i])); }
    assert(a =~= b);
}
}
/// `n` bytes at the pointer belong to one live allocation
pub open spec fn in_bounds(m: Mem, blk: int, off: int, n: int) -> bool {
    m.blocks.contains_key(blk) && 0 <= off && n >= 0 && off + n <= m.blocks[blk].data.len()
}
pub open spec fn aligned(m: Mem, blk: int, off: int, a: int) -> bool { off % a == 0 && m.blocks[blk].align % a == 0 }
/// what a value looks like in memory
#[allow(unused)]
pub trait Pod: Sized {
    spec fn bytes(self) -> Seq<u8>;
    spec fn size() -> int;
}
impl Pod for u32 {
    open spec fn bytes(self) -> Seq<u8> { ne4(self) }
    open spec fn size() -> int { 4 }
}
impl Pod for i32 {
    open spec fn bytes(self) -> Seq<u8> { ne4i(self) }
    open spec fn size() -> int { 4 }
}
impl Pod for u8 {
    open spec fn bytes(self) -> Seq<u8> { seq![self] }
    open spec fn size() -> int { 1 }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Ptr<T> { x: usize, y: std::marker::PhantomData<T> }
impl<T> Clone for Ptr<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for Ptr<T> {}
impl<T> Ptr<T> {
    pub uninterp spec fn blk(&self) -> int;
    pub uninterp spec fn off(&self) -> int;
}
impl<T: Pod> Ptr<T> {
    /// stays within the allocation or one past it, as the language requires
    #[verifier::external_body]
    pub fn offset(self, n: isize, Tracked(tr): Tracked<&mut Heap>) -> (r: Ptr<T>)
        requires in_bounds(old(tr)@, self.blk(), self.off(), n * T::size())
        ensures r.blk() == self.blk(), r.off() == self.off() + n * T::size(), final(tr)@ == old(tr)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn add(self, n: usize, Tracked(tr): Tracked<&mut Heap>) -> (r: Ptr<T>)
        requires in_bounds(old(tr)@, self.blk(), self.off(), n * T::size())
        ensures r.blk() == self.blk(), r.off() == self.off() + n * T::size(), final(tr)@ == old(tr)@ { unimplemented!() }
}
impl<T> Ptr<T> {
    #[verifier::external_body]
    pub fn cast<U>(self) -> (r: Ptr<U>) ensures r.blk() == self.blk(), r.off() == self.off() { unimplemented!() }
}
/// bytes that are only read
pub struct CPtr { x: u8 }
impl CPtr { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
/// a vector of bytes produced elsewhere
#[verifier::external_body]
pub struct Data { x: u8 }
impl Data {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: CPtr) ensures r.bytes() == self@ { unimplemented!() }
}
/// a vector of bytes written through pointers
#[verifier::external_body]
pub struct Buf { x: u8 }
impl Buf {
    pub uninterp spec fn blk(&self) -> int;
    pub uninterp spec fn length(&self) -> int;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.length() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut_ptr(&mut self) -> (r: Ptr<u8>) ensures *final(self) == *old(self), r.blk() == old(self).blk(), r.off() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: Ptr<u8>) ensures r.blk() == self.blk(), r.off() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self).blk() == old(self).blk(), final(self).length() == if n < old(self).length() { n as int } else { old(self).length() } { unimplemented!() }
}
/// the bytes of a vector: all of them have been written
#[verifier::external_body]
pub fn buf_slice<'a>(b: &'a Buf, Tracked(tr): Tracked<&mut Heap>) -> (r: &'a [u8])
    requires in_bounds(old(tr)@, b.blk(), 0, b.length()), forall|i: int| 0 <= i < b.length() ==> (#[trigger] old(tr)@.blocks[b.blk()].data[i]) is Some
    ensures r@.len() == b.length(), has(old(tr)@.blocks[b.blk()].data, 0, r@), final(tr)@ == old(tr)@ { unimplemented!() }
/// a borrowed part of a block
#[verifier::external_body]
pub struct Part { x: u8 }
impl Part {
    pub uninterp spec fn blk(&self) -> int;
    pub uninterp spec fn off(&self) -> int;
    pub uninterp spec fn length(&self) -> int;
}
pub mod ptr {
    use super::*;
    #[verifier::external_body]
    pub fn null_mut<T>() -> (r: Ptr<T>) { unimplemented!() }
    /// the bytes belong to the allocation and have been written
    #[verifier::external_body]
    pub fn read<T: Pod>(p: Ptr<T>, Tracked(tr): Tracked<&mut Heap>) -> (r: T)
        requires in_bounds(old(tr)@, p.blk(), p.off(), T::size()), aligned(old(tr)@, p.blk(), p.off(), T::size()),
            forall|i: int| p.off() <= i < p.off() + T::size() ==> (#[trigger] old(tr)@.blocks[p.blk()].data[i]) is Some
        ensures has(old(tr)@.blocks[p.blk()].data, p.off(), r.bytes()), r.bytes().len() == T::size(), final(tr)@ == old(tr)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn write<T: Pod>(p: Ptr<T>, v: T, Tracked(tr): Tracked<&mut Heap>)
        requires in_bounds(old(tr)@, p.blk(), p.off(), T::size()), aligned(old(tr)@, p.blk(), p.off(), T::size())
        ensures final(tr)@ == stored(old(tr)@, p.blk(), p.off(), v.bytes()) { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_nonoverlapping(src: CPtr, p: Ptr<u8>, n: usize, Tracked(tr): Tracked<&mut Heap>)
        requires n <= src.bytes().len(), in_bounds(old(tr)@, p.blk(), p.off(), n as int)
        ensures final(tr)@ == stored(old(tr)@, p.blk(), p.off(), src.bytes().subrange(0, n as int)) { unimplemented!() }
}
pub mod slice {
    use super::*;
    /// the bytes have to be there and to have been written
    #[verifier::external_body]
    pub fn from_raw_parts(p: Ptr<u8>, n: usize, Tracked(tr): Tracked<&mut Heap>) -> (r: Part)
        requires in_bounds(old(tr)@, p.blk(), p.off(), n as int),
            forall|i: int| p.off() <= i < p.off() + n ==> (#[trigger] old(tr)@.blocks[p.blk()].data[i]) is Some
        ensures r.blk() == p.blk(), r.off() == p.off(), r.length() == n, final(tr)@ == old(tr)@ { unimplemented!() }
}
