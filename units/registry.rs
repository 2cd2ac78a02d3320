// C10, C11: the allocator reuses regions nobody else holds, and calls every free callback once
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {

//@include prelude.inc
//@include time.inc

pub mod model {
use super::*;
/// what happens outside of this module. A count is shared with other processes: only what was read can be known
pub ghost struct World {
    /// the counts that were read: a region, and whether its count was one
    pub reads: Seq<(int, bool)>,
    /// the callbacks that ran
    pub ran: Seq<int>,
    /// regions of which the caller of the allocator gets a handle
    pub held: Set<int>,
    /// regions that were created
    pub made: Map<int, int>,
    /// an operation of the system failed
    pub failed: bool,
    pub now: int,
}
#[verifier::external_body]
pub tracked struct Sys { x: u8 }
impl Sys { pub uninterp spec fn view(&self) -> World; }

#[verifier::external_body]
pub struct MemoryRegion { x: u8 }
pub enum Error { MemoryRegionMapping }
impl MemoryRegion {
    pub uninterp spec fn id(&self) -> int;
    /// units region and c09: with two handles the count is two at least
    #[verifier::external_body]
    pub fn ref_count(&self, Tracked(tr): Tracked<&mut Sys>) -> (r: u32)
        ensures
            final(tr)@ == (World { reads: old(tr)@.reads.push((self.id(), r == 1)), ..old(tr)@ }),
            r == 1 ==> !old(tr)@.held.contains(self.id()),
    { unimplemented!() }
    /// only `0` leaves the count alone
    #[verifier::external_body]
    pub(crate) fn ref_count_inner(&self, val: i32, Tracked(tr): Tracked<&mut Sys>) -> (r: u32)
        requires val == 0
        ensures
            final(tr)@ == (World { reads: old(tr)@.reads.push((self.id(), r == 1)), ..old(tr)@ }),
            r == 1 ==> !old(tr)@.held.contains(self.id()),
    { unimplemented!() }
    /// two handles from here on
    #[verifier::external_body]
    pub fn clone(&self, Tracked(tr): Tracked<&mut Sys>) -> (r: Result<MemoryRegion, Error>)
        ensures
            r matches Ok(o) ==> o.id() == self.id() && final(tr)@ == (World { held: old(tr)@.held.insert(self.id()), ..old(tr)@ }),
            r is Err ==> final(tr)@ == (World { failed: true, ..old(tr)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new(n: usize, Tracked(tr): Tracked<&mut Sys>) -> (r: Option<MemoryRegion>)
        ensures
            r matches Some(o) ==> !old(tr)@.made.contains_key(o.id()) && final(tr)@ == (World { made: old(tr)@.made.insert(o.id(), n as int), ..old(tr)@ }),
            r is None ==> final(tr)@ == (World { failed: true, ..old(tr)@ }),
    { unimplemented!() }
}

/// a boxed `FnOnce`: running it consumes it
#[verifier::external_body]
pub struct Callback { x: u8 }
impl Callback { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body]
pub fn run(f: Callback, Tracked(tr): Tracked<&mut Sys>)
    ensures final(tr)@ == (World { ran: old(tr)@.ran.push(f.id()), ..old(tr)@ }) { unimplemented!() }

/// a borrowed and an owned string
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Str { x: u8 }
#[verifier::external_body]
pub struct String { x: u8 }
impl Str {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn to_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
impl String {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from(s: Str) -> (r: String) ensures r@ == s@ { unimplemented!() }
}
pub struct ToOwned {}
impl ToOwned {
    #[verifier::external_body]
    pub fn to_owned(s: Str) -> (r: String) ensures r@ == s@ { unimplemented!() }
}
pub open spec fn text(s: Option<Str>) -> Option<Seq<u8>> { match s { Some(x) => Some(x@), None => None } }
pub open spec fn otext(s: Option<String>) -> Option<Seq<u8>> { match s { Some(x) => Some(x@), None => None } }
/// `Option<String>::as_deref`
pub trait AsTag { spec fn shown(self) -> Option<Seq<u8>>; fn as_tag(&self) -> (r: Option<Str>) ensures text(r) == self.shown(); }
impl AsTag for Option<String> {
    open spec fn shown(self) -> Option<Seq<u8>> { otext(self) }
    #[verifier::external_body]
    fn as_tag(&self) -> (r: Option<Str>) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Str) -> bool { self@ == o@ }
}
impl PartialEq for Str {
    #[verifier::external_body]
    fn eq(&self, o: &Str) -> (r: bool) { unimplemented!() }
}

impl Instant {
    #[verifier::external_body]
    pub fn now(Tracked(tr): Tracked<&mut Sys>) -> (r: Instant)
        ensures r.ns() == final(tr)@.now, final(tr)@.now >= old(tr)@.now, final(tr)@ == (World { now: final(tr)@.now, ..old(tr)@ }) { unimplemented!() }
}

// ---- the map: sorted by key (trusted: BTreeMap<usize, _>)
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Sorted<V> { x: Vec<V> }
impl<V> Sorted<V> {
    pub uninterp spec fn view(&self) -> Seq<(usize, V)>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn key_at(&self, i: usize) -> (r: usize) requires i < self@.len() ensures r == self@[i as int].0 { unimplemented!() }
    #[verifier::external_body]
    pub fn value_at_mut(&mut self, i: usize) -> (r: &mut V)
        requires i < old(self)@.len()
        ensures *r == old(self)@[i as int].1, final(self)@ == old(self)@.update(i as int, (old(self)@[i as int].0, *final(r))) { unimplemented!() }
    #[verifier::external_body]
    pub fn value_at(&self, i: usize) -> (r: &V) requires i < self@.len() ensures *r == self@[i as int].1 { unimplemented!() }
    /// the first index with this key or a larger one
    #[verifier::external_body]
    pub fn lower(&self, k: usize) -> (r: usize)
        ensures
            r <= self@.len(),
            forall|i: int| 0 <= i < r ==> (#[trigger] self@[i]).0 < k,
            forall|i: int| r <= i < self@.len() ==> (#[trigger] self@[i]).0 >= k,
    { unimplemented!() }
    /// the first index with a larger key
    #[verifier::external_body]
    pub fn upper(&self, k: usize) -> (r: usize)
        ensures
            r <= self@.len(),
            forall|i: int| 0 <= i < r ==> (#[trigger] self@[i]).0 <= k,
            forall|i: int| r <= i < self@.len() ==> (#[trigger] self@[i]).0 > k,
    { unimplemented!() }
}
impl<T> Sorted<Vec<T>> {
    /// removes and drops an empty vector; one with items would have to drop these
    #[verifier::external_body]
    pub fn remove_at(&mut self, i: usize)
        requires i < old(self)@.len(), old(self)@[i as int].1@.len() == 0
        ensures final(self)@ == old(self)@.remove(i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: usize) -> (r: &mut Vec<T>)
        ensures exists|q: int| #[trigger] entry_at(old(self)@, final(self)@, k, q, *r, *final(r)) { unimplemented!() }
}
pub open spec fn entry_at<T>(old: Seq<(usize, Vec<T>)>, new: Seq<(usize, Vec<T>)>, k: usize, q: int, before: Vec<T>, after: Vec<T>) -> bool {
    ||| 0 <= q < old.len() && old[q].0 == k && before == old[q].1 && new == old.update(q, (k, after))
    ||| 0 <= q <= old.len() && before@.len() == 0 && new == old.insert(q, (k, after))
}
} // model
pub use model::*;

pub mod spec {
use super::*;
pub struct MemoryRegistry { pub inner: Sorted<Vec<MemoryRegionEntry>> }
pub struct MemoryRegionEntry { pub region: MemoryRegion, pub last_alloc: Instant, pub tag: Option<String>, pub guard: Guard }
pub struct Guard { pub free: Option<Callback> }
/// what the allocator keeps, by size
pub type Kept = Seq<(usize, MemoryRegionEntry)>;
pub open spec fn tagged(k: usize, es: Seq<MemoryRegionEntry>) -> Kept { Seq::new(es.len(), |i: int| (k, es[i])) }
pub open spec fn flat(m: Seq<(usize, Vec<MemoryRegionEntry>)>) -> Kept
    decreases m.len()
{
    if m.len() == 0 { seq![] } else { flat(m.drop_last()) + tagged(m.last().0, m.last().1@) }
}
impl MemoryRegistry { pub open spec fn view(&self) -> Kept { flat(self.inner@) } }

pub type Reads = Seq<(int, bool)>;
/// since `from`, the count of a region was read as one, or as something else
pub open spec fn read(w: Reads, from: int, id: int, one: bool) -> bool { exists|i: int| from <= i < w.len() && #[trigger] w[i] == (id, one) }
pub open spec fn cb(e: MemoryRegionEntry) -> Seq<int> { match e.guard.free { Some(f) => seq![f.id()], None => seq![] } }
/// an entry that was found free keeps its place for five seconds after it was given out the last time, without its callback
pub open spec fn spent(e: MemoryRegionEntry, n: MemoryRegionEntry) -> bool { n == MemoryRegionEntry { guard: Guard { free: None }, ..e } }
pub open spec fn aged(e: MemoryRegionEntry, now: Instant) -> bool { now.ns() - e.last_alloc.ns() >= 5_000_000_000 }
/// what maintenance does with an entry: `n` is what is left of it, `ran` are the callbacks that run
pub open spec fn kept_busy(e: (usize, MemoryRegionEntry), n: (usize, MemoryRegionEntry), ran: Seq<int>, w: Reads, from: int) -> bool {
    n == e && ran.len() == 0 && read(w, from, e.1.region.id(), false)
}
pub open spec fn kept_free(e: (usize, MemoryRegionEntry), n: (usize, MemoryRegionEntry), ran: Seq<int>, w: Reads, from: int, now: Instant) -> bool {
    n.0 == e.0 && spent(e.1, n.1) && ran == cb(e.1) && read(w, from, e.1.region.id(), true) && !aged(e.1, now)
}
pub open spec fn released(e: (usize, MemoryRegionEntry), ran: Seq<int>, w: Reads, from: int, now: Instant) -> bool {
    ran == cb(e.1) && read(w, from, e.1.region.id(), true) && aged(e.1, now)
}
/// maintenance of all entries: `new` is what is left, `ran` are the callbacks that run, in this order
pub open spec fn swept(es: Kept, new: Kept, ran: Seq<int>, w: Reads, from: int, now: Instant) -> bool
    decreases es.len()
{
    if es.len() == 0 { new.len() == 0 && ran.len() == 0 } else {
        let e = es.last();
        ||| new.len() > 0 && kept_busy(e, new.last(), seq![], w, from) && swept(es.drop_last(), new.drop_last(), ran, w, from, now)
        ||| new.len() > 0 && ends_with(ran, cb(e.1)) && kept_free(e, new.last(), cb(e.1), w, from, now)
            && swept(es.drop_last(), new.drop_last(), front(ran, cb(e.1)), w, from, now)
        ||| ends_with(ran, cb(e.1)) && released(e, cb(e.1), w, from, now) && swept(es.drop_last(), new, front(ran, cb(e.1)), w, from, now)
    }
}
pub open spec fn ends_with(a: Seq<int>, b: Seq<int>) -> bool { b.len() <= a.len() && a.skip(a.len() - b.len()) == b }
pub open spec fn front(a: Seq<int>, b: Seq<int>) -> Seq<int> { a.take(a.len() - b.len()) }

// ---- allocation
pub open spec fn fits(e: (usize, MemoryRegionEntry), size: usize, tag: Option<Seq<u8>>) -> bool {
    size <= e.0 && e.0 < (if 2 * size > usize::MAX { usize::MAX as int } else { 2 * size }) && otext(e.1.tag) == tag
}
/// a free entry that fits is given out: its old callback ran, and the new one is kept
pub open spec fn reused(es: Kept, p: int, new: Kept, w0: World, w: World, n: int, now: Instant, size: usize, tag: Option<Seq<u8>>, free: Option<Callback>, id: int) -> bool {
    let e = es[p].1;
    let e2 = MemoryRegionEntry { last_alloc: now, guard: Guard { free }, ..e };
    let ran = w.ran.skip(w0.ran.len() as int);
    &&& 0 <= p < es.len() && fits(es[p], size, tag) && id == e.region.id()
    // nobody else had it
    &&& w0.reads.len() < n <= w.reads.len() && w.reads[n - 1] == (id, true)
    &&& ran.len() >= cb(e).len() && ran.take(cb(e).len() as int) == cb(e)
    // maintenance of everything
    &&& swept(es.update(p, (es[p].0, e2)), new, ran.skip(cb(e).len() as int), w.reads, n, now)
    // and the entry that was given out is kept with its callback
    &&& !read(w.reads, n, id, true) && new.contains((es[p].0, e2))
}
pub open spec fn all_busy(es: Kept, w0: World, w: World, size: usize, tag: Option<Seq<u8>>) -> bool {
    forall|p: int| 0 <= p < es.len() && fits(#[trigger] es[p], size, tag) ==> read(w.reads, w0.reads.len() as int, es[p].1.region.id(), false)
}
pub open spec fn fresh(e: MemoryRegionEntry, now: Instant, tag: Option<Seq<u8>>, free: Option<Callback>, id: int) -> bool {
    e.region.id() == id && e.last_alloc == now && otext(e.tag) == tag && e.guard == (Guard { free })
}
/// a new region, of exactly the size
pub open spec fn created(es: Kept, mid: Kept, q: int, new: Kept, w0: World, w: World, now: Instant, size: usize, tag: Option<Seq<u8>>, free: Option<Callback>, id: int) -> bool {
    &&& all_busy(es, w0, w, size, tag)
    &&& swept(es, mid, w.ran.skip(w0.ran.len() as int), w.reads, w0.reads.len() as int, now)
    &&& 0 <= q <= mid.len() && new == mid.insert(q, new[q])
    &&& new[q].0 == size && fresh(new[q].1, now, tag, free, id)
    &&& w.made == w0.made.insert(id, size as int) && !w0.made.contains_key(id)
}
pub open spec fn allocated(es: Kept, new: Kept, w0: World, w: World, size: usize, tag: Option<Seq<u8>>, free: Option<Callback>, r: Option<MemoryRegion>) -> bool {
    &&& w0.reads.is_prefix_of(w.reads) && w0.ran.is_prefix_of(w.ran)
    &&& r matches Some(x) ==> {
        &&& w.held == w0.held.insert(x.id())
        &&& {
            ||| exists|p: int, n: int, now: Instant| w0.now <= now.ns() <= w.now && #[trigger] reused(es, p, new, w0, w, n, now, size, tag, free, x.id())
            ||| exists|mid: Kept, q: int, now: Instant| w0.now <= now.ns() <= w.now && #[trigger] created(es, mid, q, new, w0, w, now, size, tag, free, x.id())
        }
    }
    &&& r is None ==> {
        // only when the system fails, and the callback that was given does not run
        &&& w.failed && w.held == w0.held
        &&& {
            ||| all_busy(es, w0, w, size, tag) && exists|now: Instant| w0.now <= now.ns() <= w.now && #[trigger] swept(es, new, w.ran.skip(w0.ran.len() as int), w.reads, w0.reads.len() as int, now)
            ||| w.ran == w0.ran && new == es
            ||| w.ran == w0.ran && exists|p: int, now: Instant| 0 <= p < es.len() && w0.now <= now.ns() <= w.now && new == es.update(p, (#[trigger] es[p].0, MemoryRegionEntry { last_alloc: now, ..#[trigger] later(es[p].1, now) }))
        }
    }
}
pub open spec fn later(e: MemoryRegionEntry, now: Instant) -> MemoryRegionEntry { e }
} // spec
pub use spec::*;
broadcast use times;

pub proof fn lemma_grow(es: Kept, new: Kept, ran: Seq<int>, w: Reads, v: Reads, from: int, now: Instant)
    requires swept(es, new, ran, w, from, now), w.is_prefix_of(v), from >= 0
    ensures swept(es, new, ran, v, from, now)
    decreases es.len()
{
    if es.len() > 0 {
        let e = es.last();
        let id = e.1.region.id();
        assert forall|b: bool| read(w, from, id, b) implies read(v, from, id, b) by {
            let i = choose|i: int| from <= i < w.len() && #[trigger] w[i] == (id, b);
            assert(v[i] == w[i]);
        }
        if new.len() > 0 && kept_busy(e, new.last(), seq![], w, from) && swept(es.drop_last(), new.drop_last(), ran, w, from, now) {
            lemma_grow(es.drop_last(), new.drop_last(), ran, w, v, from, now);
        } else if new.len() > 0 && ends_with(ran, cb(e.1)) && kept_free(e, new.last(), cb(e.1), w, from, now)
            && swept(es.drop_last(), new.drop_last(), front(ran, cb(e.1)), w, from, now) {
            lemma_grow(es.drop_last(), new.drop_last(), front(ran, cb(e.1)), w, v, from, now);
        } else {
            lemma_grow(es.drop_last(), new, front(ran, cb(e.1)), w, v, from, now);
        }
    }
}
/// one step of maintenance
pub proof fn lemma_step(es: Kept, new: Kept, ran: Seq<int>, w: Reads, from: int, now: Instant, e: (usize, MemoryRegionEntry), n: Option<(usize, MemoryRegionEntry)>, r: Seq<int>)
    requires
        swept(es, new, ran, w, from, now),
        match n { Some(x) => kept_busy(e, x, r, w, from) || kept_free(e, x, r, w, from, now), None => released(e, r, w, from, now) },
    ensures swept(es.push(e), match n { Some(x) => new.push(x), None => new }, ran + r, w, from, now)
{
    let es2 = es.push(e);
    assert(es2.drop_last() =~= es);
    let new2 = match n { Some(x) => new.push(x), None => new };
    if n is Some { assert(new2.drop_last() =~= new); }
    let ran2 = ran + r;
    if r.len() == 0 { assert(ran2 =~= ran); }
    assert(ran2.skip(ran2.len() - r.len()) =~= r);
    assert(ran2.take(ran2.len() - r.len()) =~= ran);
    if n is Some && kept_busy(e, n->0, r, w, from) { assert(r =~= seq![]); }
}
pub proof fn lemma_flat_push(m: Seq<(usize, Vec<MemoryRegionEntry>)>, x: (usize, Vec<MemoryRegionEntry>))
    ensures flat(m.push(x)) == flat(m) + tagged(x.0, x.1@)
{
    assert(m.push(x).drop_last() =~= m);
}
pub proof fn lemma_flat_add(a: Seq<(usize, Vec<MemoryRegionEntry>)>, b: Seq<(usize, Vec<MemoryRegionEntry>)>)
    ensures flat(a + b) == flat(a) + flat(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(flat(a) + flat(b) =~= flat(a)); } else {
        lemma_flat_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(flat(a) + (flat(b.drop_last()) + tagged(b.last().0, b.last().1@)) =~= flat(a) + flat(b.drop_last()) + tagged(b.last().0, b.last().1@));
    }
}

pub proof fn lemma_flat_at(m: Seq<(usize, Vec<MemoryRegionEntry>)>, a: int)
    requires 0 <= a < m.len()
    ensures flat(m) == flat(m.take(a)) + tagged(m[a].0, m[a].1@) + flat(m.skip(a + 1))
{
    lemma_flat_add(m.take(a + 1), m.skip(a + 1));
    assert(m.take(a + 1) + m.skip(a + 1) =~= m);
    assert(m.take(a + 1).drop_last() =~= m.take(a));
}
/// the same keys and entries
pub open spec fn alike(m: Seq<(usize, Vec<MemoryRegionEntry>)>, n: Seq<(usize, Vec<MemoryRegionEntry>)>) -> bool {
    m.len() == n.len() && forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 == n[i].0 && m[i].1@ == n[i].1@
}
pub proof fn lemma_flat_alike(m: Seq<(usize, Vec<MemoryRegionEntry>)>, n: Seq<(usize, Vec<MemoryRegionEntry>)>)
    requires alike(m, n)
    ensures flat(m) == flat(n)
    decreases m.len()
{
    if m.len() > 0 {
        assert(m[m.len() - 1].0 == n[m.len() - 1].0);
        lemma_flat_alike(m.drop_last(), n.drop_last());
    }
}
pub proof fn lemma_reads(w: Reads, v: Reads, from: int)
    requires w.is_prefix_of(v), from >= 0
    ensures forall|id: int, one: bool| #[trigger] read(w, from, id, one) ==> read(v, from, id, one)
{
    assert forall|id: int, one: bool| #[trigger] read(w, from, id, one) implies read(v, from, id, one) by {
        let i = choose|i: int| from <= i < w.len() && #[trigger] w[i] == (id, one);
        assert(v[i] == w[i]);
    }
}
/// replacing an entry
pub proof fn lemma_flat_update(m: Seq<(usize, Vec<MemoryRegionEntry>)>, n: Seq<(usize, Vec<MemoryRegionEntry>)>, a: int, b: int, e: MemoryRegionEntry) -> (p: int)
    requires 0 <= a < m.len(), n.len() == m.len(), 0 <= b < m[a].1@.len(), n[a].0 == m[a].0, n[a].1@ == m[a].1@.update(b, e), forall|i: int| 0 <= i < m.len() && i != a ==> (#[trigger] m[i]).0 == n[i].0 && m[i].1@ == n[i].1@
    ensures 0 <= p < flat(m).len(), flat(m)[p] == (m[a].0, m[a].1@[b]), flat(n) == flat(m).update(p, (m[a].0, e))
{
    lemma_flat_at(m, a);
    lemma_flat_at(n, a);
    lemma_flat_alike(m.take(a), n.take(a));
    lemma_flat_alike(m.skip(a + 1), n.skip(a + 1));
    assert(m[a].0 == n[a].0);
    let p = flat(m.take(a)).len() + b;
    assert(flat(n) =~= flat(m).update(p, (m[a].0, e)));
    p
}
pub proof fn lemma_tagged_push(k: usize, b: Seq<MemoryRegionEntry>, e: MemoryRegionEntry)
    ensures tagged(k, b.push(e)) == tagged(k, b).push((k, e)), tagged(k, b).len() == b.len()
{ assert(tagged(k, b.push(e)) =~= tagged(k, b).push((k, e))); }
pub proof fn lemma_seq_insert(x: Kept, t: Kept, y: Kept, e: (usize, MemoryRegionEntry))
    ensures x + t.push(e) + y == (x + t + y).insert((x.len() + t.len()) as int, e)
{ assert(x + t.push(e) + y =~= (x + t + y).insert((x.len() + t.len()) as int, e)); }
/// adding an entry
pub proof fn lemma_flat_insert(m: Seq<(usize, Vec<MemoryRegionEntry>)>, n: Seq<(usize, Vec<MemoryRegionEntry>)>, k: usize, a: int, before: Vec<MemoryRegionEntry>, after: Vec<MemoryRegionEntry>, e: MemoryRegionEntry) -> (q: int)
    requires entry_at(m, n, k, a, before, after), after@ == before@.push(e)
    ensures 0 <= q <= flat(m).len(), flat(n) == flat(m).insert(q, (k, e))
{
    let q: int = (flat(m.take(a)).len() + before@.len()) as int;
    lemma_flat_at(n, a);
    assert(m.take(a) =~= n.take(a));
    if a < m.len() && m[a].0 == k && before == m[a].1 && n == m.update(a, (k, after)) {
        lemma_flat_at(m, a);
        assert(m.skip(a + 1) =~= n.skip(a + 1));
    } else {
        lemma_flat_add(m.take(a), m.skip(a));
        assert(m.take(a) + m.skip(a) =~= m);
        assert(m.skip(a) =~= n.skip(a + 1));
    }
    let (x, y) = (flat(m.take(a)), flat(n.skip(a + 1)));
    lemma_tagged_push(k, before@, e);
    lemma_seq_insert(x, tagged(k, before@), y, (k, e));
    assert(tagged(k, Seq::<MemoryRegionEntry>::empty()) =~= seq![]);
    assert(x + seq![] + y =~= x + y);
    q
}
/// a key without an entry
pub proof fn lemma_flat_entry(m: Seq<(usize, Vec<MemoryRegionEntry>)>, n: Seq<(usize, Vec<MemoryRegionEntry>)>, k: usize, a: int, before: Vec<MemoryRegionEntry>, after: Vec<MemoryRegionEntry>)
    requires entry_at(m, n, k, a, before, after), after@ == before@
    ensures flat(n) == flat(m)
{
    lemma_flat_at(n, a);
    assert(m.take(a) =~= n.take(a));
    if a < m.len() && m[a].0 == k && before == m[a].1 && n == m.update(a, (k, after)) {
        lemma_flat_at(m, a);
        assert(m.skip(a + 1) =~= n.skip(a + 1));
    } else {
        lemma_flat_add(m.take(a), m.skip(a));
        assert(m.take(a) + m.skip(a) =~= m);
        assert(m.skip(a) =~= n.skip(a + 1));
    }
    assert(flat(n) =~= flat(m));
}
pub proof fn lemma_flat_find(m: Seq<(usize, Vec<MemoryRegionEntry>)>, p: int) -> (r: (int, int))
    requires 0 <= p < flat(m).len()
    ensures 0 <= r.0 < m.len(), 0 <= r.1 < m[r.0].1@.len(), flat(m)[p] == (m[r.0].0, m[r.0].1@[r.1])
    decreases m.len()
{
    if p < flat(m.drop_last()).len() { lemma_flat_find(m.drop_last(), p) } else { (m.len() - 1, p - flat(m.drop_last()).len()) }
}
/// what was not found free is still there
pub proof fn lemma_stays(es: Kept, new: Kept, ran: Seq<int>, w: Reads, from: int, now: Instant, p: int)
    requires swept(es, new, ran, w, from, now), 0 <= p < es.len(), !read(w, from, es[p].1.region.id(), true)
    ensures new.contains(es[p])
    decreases es.len()
{
    let e = es.last();
    if new.len() > 0 && kept_busy(e, new.last(), seq![], w, from) && swept(es.drop_last(), new.drop_last(), ran, w, from, now) {
        if p < es.len() - 1 {
            lemma_stays(es.drop_last(), new.drop_last(), ran, w, from, now, p);
            let i = new.drop_last().index_of(es[p]);
            assert(new[i] == es[p]);
        } else { assert(new[new.len() - 1] == es[p]); }
    } else if new.len() > 0 && ends_with(ran, cb(e.1)) && kept_free(e, new.last(), cb(e.1), w, from, now)
        && swept(es.drop_last(), new.drop_last(), front(ran, cb(e.1)), w, from, now) {
        lemma_stays(es.drop_last(), new.drop_last(), front(ran, cb(e.1)), w, from, now, p);
        let i = new.drop_last().index_of(es[p]);
        assert(new[i] == es[p]);
    } else {
        lemma_stays(es.drop_last(), new, front(ran, cb(e.1)), w, from, now, p);
    }
}
/// the windows of maintenance: an earlier beginning sees more
pub proof fn lemma_wider(es: Kept, new: Kept, ran: Seq<int>, w: Reads, from: int, from2: int, now: Instant)
    requires swept(es, new, ran, w, from, now), 0 <= from2 <= from
    ensures swept(es, new, ran, w, from2, now)
    decreases es.len()
{
    if es.len() > 0 {
        let e = es.last();
        let id = e.1.region.id();
        assert forall|b: bool| read(w, from, id, b) implies read(w, from2, id, b) by {
            let i = choose|i: int| from <= i < w.len() && #[trigger] w[i] == (id, b);
        }
        if new.len() > 0 && kept_busy(e, new.last(), seq![], w, from) && swept(es.drop_last(), new.drop_last(), ran, w, from, now) {
            lemma_wider(es.drop_last(), new.drop_last(), ran, w, from, from2, now);
        } else if new.len() > 0 && ends_with(ran, cb(e.1)) && kept_free(e, new.last(), cb(e.1), w, from, now)
            && swept(es.drop_last(), new.drop_last(), front(ran, cb(e.1)), w, from, now) {
            lemma_wider(es.drop_last(), new.drop_last(), front(ran, cb(e.1)), w, from, from2, now);
        } else {
            lemma_wider(es.drop_last(), new, front(ran, cb(e.1)), w, from, from2, now);
        }
    }
}
pub proof fn lemma_busy_later(es: Kept, w0: World, w: World, v: World, size: usize, tag: Option<Seq<u8>>)
    requires all_busy(es, w0, w, size, tag), w.reads.is_prefix_of(v.reads)
    ensures all_busy(es, w0, v, size, tag)
{
    assert forall|p: int| 0 <= p < es.len() && fits(#[trigger] es[p], size, tag) implies read(v.reads, w0.reads.len() as int, es[p].1.region.id(), false) by {
        let id = es[p].1.region.id();
        let i = choose|i: int| w0.reads.len() <= i < w.reads.len() && #[trigger] w.reads[i] == (id, false);
        assert(v.reads[i] == w.reads[i]);
    }
}
pub proof fn lemma_all_busy(m: Seq<(usize, Vec<MemoryRegionEntry>)>, lo: int, hi: int, w0: World, w: World, size: usize, tag: Option<Seq<u8>>)
    requires
        0 <= lo, hi <= m.len(),
        forall|i: int| 0 <= i < lo ==> (#[trigger] m[i]).0 < size,
        forall|i: int| hi <= i < m.len() ==> (#[trigger] m[i]).0 >= 2 * size || m[i].0 >= usize::MAX,
        forall|a: int, b: int| lo <= a < hi && 0 <= b < m[a].1@.len() && otext((#[trigger] m[a].1@[b]).tag) == tag ==> read(w.reads, w0.reads.len() as int, m[a].1@[b].region.id(), false),
    ensures all_busy(flat(m), w0, w, size, tag)
{
    let es = flat(m);
    assert forall|p: int| 0 <= p < es.len() && fits(#[trigger] es[p], size, tag) implies read(w.reads, w0.reads.len() as int, es[p].1.region.id(), false) by {
        let r = lemma_flat_find(m, p);
        assert(m[r.0].0 == es[p].0);
        assert(m[r.0].1@[r.1] == es[p].1);
    }
}

// ---- each callback that is given runs once: it is kept or it has run, and nothing else runs
pub open spec fn cbs(es: Kept) -> Multiset<int>
    decreases es.len()
{
    if es.len() == 0 { Multiset::empty() } else { cbs(es.drop_last()).add(cb(es.last().1).to_multiset()) }
}
pub proof fn lemma_swept_once(es: Kept, new: Kept, ran: Seq<int>, w: Reads, from: int, now: Instant)
    requires swept(es, new, ran, w, from, now)
    ensures cbs(es) =~= cbs(new).add(ran.to_multiset())
    decreases es.len()
{
    if es.len() == 0 { ran.to_multiset_ensures(); assert(ran =~= seq![]); Seq::<int>::empty().to_multiset_ensures(); } else {
        let e = es.last();
        let c = cb(e.1);
        if new.len() > 0 && kept_busy(e, new.last(), seq![], w, from) && swept(es.drop_last(), new.drop_last(), ran, w, from, now) {
            lemma_swept_once(es.drop_last(), new.drop_last(), ran, w, from, now);
        } else {
            vstd::seq_lib::lemma_multiset_commutative(front(ran, c), c);
            assert(front(ran, c) + c =~= ran);
            if new.len() > 0 && ends_with(ran, c) && kept_free(e, new.last(), c, w, from, now) && swept(es.drop_last(), new.drop_last(), front(ran, c), w, from, now) {
                lemma_swept_once(es.drop_last(), new.drop_last(), front(ran, c), w, from, now);
                assert(cb(new.last().1) =~= seq![]);
                Seq::<int>::empty().to_multiset_ensures();
            } else {
                lemma_swept_once(es.drop_last(), new, front(ran, c), w, from, now);
            }
        }
    }
}
pub proof fn lemma_update_cbs(es: Kept, p: int, x: (usize, MemoryRegionEntry))
    requires 0 <= p < es.len()
    ensures cbs(es.update(p, x)).add(cb(es[p].1).to_multiset()) =~= cbs(es).add(cb(x.1).to_multiset())
    decreases es.len()
{
    let n = es.update(p, x);
    if p < es.len() - 1 {
        assert(n.drop_last() =~= es.drop_last().update(p, x));
        lemma_update_cbs(es.drop_last(), p, x);
        let (a, b, c, d, l) = (cbs(n.drop_last()), cb(es[p].1).to_multiset(), cbs(es.drop_last()), cb(x.1).to_multiset(), cb(es.last().1).to_multiset());
        assert forall|y: int| a.add(l).add(b).count(y) == c.add(l).add(d).count(y) by { assert(a.add(b).count(y) == c.add(d).count(y)); }
        assert(a.add(l).add(b) =~= c.add(l).add(d));
    } else {
        assert(n.drop_last() =~= es.drop_last());
    }
}
pub proof fn lemma_insert_cbs(es: Kept, q: int, x: (usize, MemoryRegionEntry))
    requires 0 <= q <= es.len()
    ensures cbs(es.insert(q, x)) =~= cbs(es).add(cb(x.1).to_multiset())
    decreases es.len()
{
    let n = es.insert(q, x);
    if q < es.len() {
        assert(n.drop_last() =~= es.drop_last().insert(q, x));
        lemma_insert_cbs(es.drop_last(), q, x);
    } else {
        assert(n.drop_last() =~= es);
    }
}
pub open spec fn given(free: Option<Callback>, r: Option<MemoryRegion>) -> Seq<int> { match (free, r) { (Some(f), Some(_)) => seq![f.id()], _ => seq![] } }
/// C11: allocating accounts for every callback, the one that was given too if it succeeds
pub proof fn lemma_once(es: Kept, new: Kept, w0: World, w: World, size: usize, tag: Option<Seq<u8>>, free: Option<Callback>, r: Option<MemoryRegion>)
    requires allocated(es, new, w0, w, size, tag, free, r)
    ensures cbs(es).add(given(free, r).to_multiset()) =~= cbs(new).add(w.ran.skip(w0.ran.len() as int).to_multiset())
{
    let ran = w.ran.skip(w0.ran.len() as int);
    Seq::<int>::empty().to_multiset_ensures();
    if r is Some {
        let id = (r->0).id();
        if exists|p: int, n: int, now: Instant| w0.now <= now.ns() <= w.now && #[trigger] reused(es, p, new, w0, w, n, now, size, tag, free, id) {
            let (p, n, now) = choose|p: int, n: int, now: Instant| w0.now <= now.ns() <= w.now && #[trigger] reused(es, p, new, w0, w, n, now, size, tag, free, id);
            let e = es[p].1;
            let e2 = MemoryRegionEntry { last_alloc: now, guard: Guard { free }, ..e };
            let c = cb(e);
            lemma_update_cbs(es, p, (es[p].0, e2));
            lemma_swept_once(es.update(p, (es[p].0, e2)), new, ran.skip(c.len() as int), w.reads, n, now);
            vstd::seq_lib::lemma_multiset_commutative(c, ran.skip(c.len() as int));
            assert(c + ran.skip(c.len() as int) =~= ran);
            assert(cb(e2) =~= given(free, r));
        } else {
            let (mid, q, now) = choose|mid: Kept, q: int, now: Instant| w0.now <= now.ns() <= w.now && #[trigger] created(es, mid, q, new, w0, w, now, size, tag, free, id);
            lemma_swept_once(es, mid, ran, w.reads, w0.reads.len() as int, now);
            lemma_insert_cbs(mid, q, new[q]);
            assert(cb(new[q].1) =~= given(free, r));
        }
    } else if w.ran == w0.ran && new == es {
        assert(ran =~= seq![]);
    } else if w.ran == w0.ran && exists|p: int, now: Instant| 0 <= p < es.len() && w0.now <= now.ns() <= w.now && new == es.update(p, (#[trigger] es[p].0, MemoryRegionEntry { last_alloc: now, ..#[trigger] later(es[p].1, now) })) {
        let (p, now) = choose|p: int, now: Instant| 0 <= p < es.len() && w0.now <= now.ns() <= w.now && new == es.update(p, (#[trigger] es[p].0, MemoryRegionEntry { last_alloc: now, ..#[trigger] later(es[p].1, now) }));
        let e2 = MemoryRegionEntry { last_alloc: now, ..es[p].1 };
        lemma_update_cbs(es, p, (es[p].0, e2));
        assert(cb(e2) == cb(es[p].1));
        assert(ran =~= seq![]);
        assert(cbs(new).add(cb(e2).to_multiset()) =~= cbs(es).add(cb(e2).to_multiset()));
        assert forall|x: int| cbs(new).count(x) == cbs(es).count(x) by {
            assert(cbs(new).add(cb(e2).to_multiset()).count(x) == cbs(es).add(cb(e2).to_multiset()).count(x));
        }
    } else {
        let now = choose|now: Instant| w0.now <= now.ns() <= w.now && #[trigger] swept(es, new, ran, w.reads, w0.reads.len() as int, now);
        lemma_swept_once(es, new, ran, w.reads, w0.reads.len() as int, now);
    }
}

/// dropping an entry drops its guard
fn drop_removed(e: MemoryRegionEntry, Tracked(tr): Tracked<&mut Sys>)
    ensures final(tr)@ == (World { ran: old(tr)@.ran + cb(e), ..old(tr)@ })
{
    let mut g = e;
    g.guard.drop(Tracked(tr));
    proof { assert(old(tr)@.ran + cb(e) =~= tr@.ran); }
}

impl Guard {
/*@fn file=ipmb/src/memory_registry.rs item=Guard~as~Drop::drop
sig: fn drop(&mut self, Tracked(tr): Tracked<&mut Sys>)
spec:
    ensures
        // the callback runs, and is gone
        final(self).free is None,
        final(tr)@ == (World { ran: old(tr)@.ran + (match old(self).free { Some(f) => seq![f.id()], None => seq![] }), ..old(tr)@ }),
mode call: run
ghost run: Tracked(tr)
post: proof { if old(self).free is None { assert(old(tr)@.ran + seq![] =~= old(tr)@.ran); } else { assert(tr@.ran =~= old(tr)@.ran + seq![(old(self).free->0).id()]); } }
@*/
}

impl MemoryRegistry {
/*@fn file=ipmb/src/memory_registry.rs item=MemoryRegistry::maintain_inner
attr: #[verifier::loop_isolation(false)] #[verifier::rlimit(40)]
sig: fn maintain_inner(&mut self, now: Instant, Tracked(tr): Tracked<&mut Sys>)
spec:
    ensures
        final(tr)@.held == old(tr)@.held, final(tr)@.made == old(tr)@.made, final(tr)@.failed == old(tr)@.failed, final(tr)@.now == old(tr)@.now,
        old(tr)@.reads.is_prefix_of(final(tr)@.reads), old(tr)@.ran.is_prefix_of(final(tr)@.ran),
        forall|i: int| old(tr)@.reads.len() <= i < final(tr)@.reads.len() && #[trigger] final(tr)@.reads[i].1 ==> !old(tr)@.held.contains(final(tr)@.reads[i].0),
        swept(old(self)@, final(self)@, final(tr)@.ran.skip(old(tr)@.ran.len() as int), final(tr)@.reads, old(tr)@.reads.len() as int, now),
mode retain0: map
mode retain1: drop
mode drop: guard
ghost ref_count: Tracked(tr)
ghost ref_count_inner: Tracked(tr)
ghost drop: Tracked(tr)
ghost drop_removed: Tracked(tr)
loop retain0:
    invariant
        __i_retain0 <= self.inner@.len() <= m0.len(),
        tr@.held == w0.held, tr@.made == w0.made, tr@.failed == w0.failed, tr@.now == w0.now,
        w0.reads.is_prefix_of(tr@.reads), w0.ran.is_prefix_of(tr@.ran),
        forall|i: int| w0.reads.len() <= i < tr@.reads.len() && #[trigger] tr@.reads[i].1 ==> !w0.held.contains(tr@.reads[i].0),
        ({
            let k = m0.len() - (self.inner@.len() - __i_retain0);
            &&& self.inner@.skip(__i_retain0 as int) =~= m0.skip(k)
            &&& swept(flat(m0.take(k)), flat(self.inner@.take(__i_retain0 as int)), tr@.ran.skip(w0.ran.len() as int), tr@.reads, w0.reads.len() as int, now)
        }),
    decreases self.inner@.len() - __i_retain0,
loop retain1:
    invariant
        __i_retain1 <= rs@.len() <= es0.len(),
        tr@.held == w0.held, tr@.made == w0.made, tr@.failed == w0.failed, tr@.now == w0.now,
        w0.reads.is_prefix_of(tr@.reads), w0.ran.is_prefix_of(tr@.ran),
        forall|i: int| w0.reads.len() <= i < tr@.reads.len() && #[trigger] tr@.reads[i].1 ==> !w0.held.contains(tr@.reads[i].0),
        ({
            let j = es0.len() - (rs@.len() - __i_retain1);
            &&& rs@.skip(__i_retain1 as int) =~= es0.skip(j)
            &&& swept(done + tagged(k, es0.take(j)), left + tagged(k, rs@.take(__i_retain1 as int)), tr@.ran.skip(w0.ran.len() as int), tr@.reads, w0.reads.len() as int, now)
        }),
    decreases rs@.len() - __i_retain1,
begin retain0:
    let ghost k0 = m0.len() - (self.inner@.len() - __i_retain0); let ghost i0 = __i_retain0 as int; let ghost cur = self.inner@;
    let ghost done = flat(m0.take(k0)); let ghost left = flat(cur.take(i0));
    assert(cur.skip(i0)[0] == m0.skip(k0)[0]);
    let ghost k = cur[i0].0; let ghost es0 = cur[i0].1@;
before retain1:
    proof {
        assert(tagged(k, es0.take(0)) =~= seq![]); assert(done + seq![] =~= done); assert(left + seq![] =~= left); assert(rs@.take(0) =~= es0.take(0));
    }
begin retain1:
    let ghost j0 = es0.len() - (rs@.len() - __i_retain1); let ghost i1 = __i_retain1 as int; let ghost rs0 = rs@; let ghost w1 = tr@;
    assert(rs0.skip(i1)[0] == es0.skip(j0)[0]);
end retain1:
    proof {
        let e = (k, es0[j0]);
        let r = tr@.ran.skip(w1.ran.len() as int);
        let n = if __keep_retain1 { Some((k, rs@[i1])) } else { None };
        let from = w0.reads.len() as int;
        if tr@.reads.last().1 { assert(r =~= cb(e.1)); } else { assert(r =~= seq![]); }
        lemma_grow(done + tagged(k, es0.take(j0)), left + tagged(k, rs0.take(i1)), w1.ran.skip(w0.ran.len() as int), w1.reads, tr@.reads, from, now);
        assert(read(tr@.reads, from, e.1.region.id(), tr@.reads.last().1));
        lemma_step(done + tagged(k, es0.take(j0)), left + tagged(k, rs0.take(i1)), w1.ran.skip(w0.ran.len() as int), tr@.reads, from, now, e, n, r);
        assert(done + tagged(k, es0.take(j0 + 1)) =~= (done + tagged(k, es0.take(j0))).push(e));
        if __keep_retain1 { assert(left + tagged(k, rs@.take(i1 + 1)) =~= (left + tagged(k, rs0.take(i1))).push(n->0)); }
        else { assert(left + tagged(k, rs@.take(i1)) =~= left + tagged(k, rs0.take(i1))); }
        assert(tr@.ran.skip(w0.ran.len() as int) =~= w1.ran.skip(w0.ran.len() as int) + r);
        assert(es0.len() - (rs@.len() - __i_retain1) == j0 + 1);
        if __keep_retain1 { assert(rs@.skip(i1 + 1) =~= rs0.skip(i1).skip(1)); } else { assert(rs@.skip(i1) =~= rs0.skip(i1).skip(1)); }
        assert(es0.skip(j0 + 1) =~= es0.skip(j0).skip(1));
    }
end retain0:
    proof {
        lemma_flat_push(m0.take(k0), m0[k0]);
        assert(m0.take(k0 + 1) =~= m0.take(k0).push(m0[k0]));
        assert(m0.skip(k0 + 1) =~= m0.skip(k0).skip(1));
        assert(es0.take(es0.len() as int) =~= es0);
        assert(m0[k0] == cur[i0]);
        if __keep_retain0 { assert(self.inner@.skip(i0 + 1) =~= cur.skip(i0).skip(1)); } else { assert(self.inner@.skip(i0) =~= cur.skip(i0).skip(1)); }
        if __keep_retain0 {
            lemma_flat_push(cur.take(i0), self.inner@[i0]);
            assert(self.inner@.take(i0 + 1) =~= cur.take(i0).push(self.inner@[i0]));
        } else {
            assert(self.inner@.take(i0) =~= cur.take(i0));
        }
    }
after retain1:
    let ghost rs1 = rs@;
    assert(tagged(k, rs1.take(0)) =~= seq![]); assert(left + seq![] =~= left); assert(rs1.take(rs1.len() as int) =~= rs1);
pre: let ghost m0 = self.inner@; let ghost w0 = tr@; assert(m0.skip(0) =~= m0);
post: assert(self.inner@.take(self.inner@.len() as int) =~= self.inner@); assert(m0.take(m0.len() as int) =~= m0);
@*/

/*@fn file=ipmb/src/memory_registry.rs item=MemoryRegistry::alloc_inner
attr: #[verifier::loop_isolation(false)] #[verifier::rlimit(40)]
sig: fn alloc_inner(&mut self, min_size: usize, tag: Option<Str>, free: Option<Callback>, Tracked(tr): Tracked<&mut Sys>) -> (r: Option<MemoryRegion>)
spec:
    ensures allocated(old(self)@, final(self)@, old(tr)@, final(tr)@, min_size, text(tag), free, r),
subst opt: .as_deref() ==> .as_tag()
subst opt: str::to_owned ==> ToOwned::to_owned
subst opt: String::from ==> ToOwned::to_owned
mode try: option
mode for0: map_inline
mode for1: index_mut
mode drop: guard
ghost ref_count: Tracked(tr)
ghost ref_count_inner: Tracked(tr)
ghost clone: Tracked(tr)
ghost maintain_inner: Tracked(tr)
ghost drop: Tracked(tr)
ghost MemoryRegion::new: Tracked(tr)
ghost Instant::now: Tracked(tr)
at maintain_inner: proof { m1 = self.inner@; w1 = tr@; }
at entry_or_default: proof { m2 = self.inner@; }
loop for0:
    invariant
        lo <= __i_for0,
        alike(self.inner@, m0),
        tr@ == (World { reads: tr@.reads, ..wn }), w0.reads.is_prefix_of(tr@.reads),
        forall|a: int, b: int| lo <= a < __i_for0 && 0 <= b < m0[a].1@.len() && otext((#[trigger] m0[a].1@[b]).tag) == text(tag) ==> read(tr@.reads, n0, m0[a].1@[b].region.id(), false),
    decreases __n_for0 - __i_for0,
loop for1:
    invariant
        alike(self.inner@, m0),
        tr@ == (World { reads: tr@.reads, ..wn }), w0.reads.is_prefix_of(tr@.reads),
        forall|a: int, b: int| lo <= a < a0 && 0 <= b < m0[a].1@.len() && otext((#[trigger] m0[a].1@[b]).tag) == text(tag) ==> read(tr@.reads, n0, m0[a].1@[b].region.id(), false),
        forall|b: int| 0 <= b < __i_for1 && otext((#[trigger] es0[b]).tag) == text(tag) ==> read(tr@.reads, n0, es0[b].region.id(), false),
    decreases es0.len() - __i_for1,
before for0:
    let ghost lo = __i_for0 as int; let ghost wn = tr@;
end for0:
    assert(alike(self.inner@, m0));
end for1:
    proof {
        assert(self.inner@[a0].1@ =~= es0);
        lemma_reads(wr.reads, tr@.reads, n0);
        if otext(es0[b0].tag) == text(tag) { assert(tr@.reads.last() == (es0[b0].region.id(), false)); assert(read(tr@.reads, n0, es0[b0].region.id(), false)); }
    }
begin for0:
    let ghost a0 = __i_for0 as int; let ghost es0 = m0[a0].1@; assert(self.inner@[a0].1@ == es0);
begin for1:
    let ghost b0 = __i_for1 as int; assert(self.inner@[a0].1@ == es0); let ghost wr = tr@; proof { hit = (a0, b0); }
after for0:
    proof { hit = (-1, -1); lemma_all_busy(m0, lo, __n_for0 as int, w0, tr@, min_size, text(tag)); wb = tr@; }
pre: let ghost mut hit = (-1int, -1int); let ghost mut m1 = self.inner@; let ghost mut m2 = self.inner@; let ghost mut w1 = tr@; let ghost mut wb = tr@; let ghost m0 = self.inner@; let ghost w0 = tr@; let ghost n0 = w0.reads.len() as int;
mode exit: Option<MemoryRegion>
exit: proof {
        let es = flat(m0); let new = self@; let w = tr@; let t = text(tag);
        let ran = w.ran.skip(w0.ran.len() as int);
        if hit.0 >= 0 {
            let e = m0[hit.0].1@[hit.1]; let k = m0[hit.0].0;
            if __r is Some {
                let e2 = MemoryRegionEntry { last_alloc: now, guard: Guard { free }, ..e };
                let p = lemma_flat_update(m0, m1, hit.0, hit.1, e2);
                let n = w1.reads.len() as int;
                assert(es[p] == (k, e));
                assert(w1.ran =~= w0.ran + cb(e));
                assert forall|i: int| 0 <= i < w1.ran.len() implies #[trigger] w.ran[i] == w1.ran[i] by { assert(w1.ran.is_prefix_of(w.ran)); }
                assert(ran.take(cb(e).len() as int) =~= cb(e));
                assert(ran.skip(cb(e).len() as int) =~= w.ran.skip(w1.ran.len() as int));
                if read(w.reads, n, e.region.id(), true) {
                    let i = choose|i: int| n <= i < w.reads.len() && #[trigger] w.reads[i] == (e.region.id(), true);
                    assert(w.reads[i].1);
                }
                lemma_stays(flat(m1), new, w.ran.skip(w1.ran.len() as int), w.reads, n, now, p);
                assert(fits(es[p], min_size, t));
                assert(w0.reads.len() < n <= w.reads.len());
                assert(w1.reads[n - 1] == (e.region.id(), true)); assert(w.reads[n - 1] == w1.reads[n - 1]);
                assert(new.contains((es[p].0, e2)));
                assert(reused(es, p, new, w0, w, n, now, min_size, t, free, (__r->0).id()));
            } else if alike(m0, self.inner@) {
                lemma_flat_alike(m0, self.inner@);
            } else {
                let e2 = MemoryRegionEntry { last_alloc: now, ..e };
                assert(!(self.inner@[hit.0].1@ =~= m0[hit.0].1@)) by { if self.inner@[hit.0].1@ =~= m0[hit.0].1@ { assert(alike(m0, self.inner@)); } }
                let p = lemma_flat_update(m0, self.inner@, hit.0, hit.1, e2);
                assert(later(es[p].1, now) == e);
                assert(new == es.update(p, (es[p].0, e2)));
            }
        } else {
            lemma_flat_alike(m1, m0);
            assert(w1.ran == w0.ran);
            lemma_busy_later(es, w0, wb, w, min_size, t);
            if __r is Some {
                let mid = flat(m2);
                lemma_wider(es, mid, ran, w.reads, w1.reads.len() as int, w0.reads.len() as int, now);
                let (a, before, after) = choose|a: int, before: Vec<MemoryRegionEntry>, after: Vec<MemoryRegionEntry>| #[trigger] entry_at(m2, self.inner@, min_size, a, before, after) && after@.len() == before@.len() + 1 && after@ == before@.push(after@.last()) && fresh(after@.last(), now, t, free, (__r->0).id());
                let q = lemma_flat_insert(m2, self.inner@, min_size, a, before, after, after@.last());
                assert(new[q] == (min_size, after@.last()));
                assert(created(es, mid, q, new, w0, w, now, min_size, t, free, (__r->0).id()));
            } else {
                if exists|a: int, v: Vec<MemoryRegionEntry>, x: Vec<MemoryRegionEntry>| #[trigger] entry_at(m2, self.inner@, min_size, a, v, x) && x@ == v@ {
                    let (a, v, x) = choose|a: int, v: Vec<MemoryRegionEntry>, x: Vec<MemoryRegionEntry>| #[trigger] entry_at(m2, self.inner@, min_size, a, v, x) && x@ == v@;
                    lemma_flat_entry(m2, self.inner@, min_size, a, v, x);
                }
                lemma_wider(es, new, ran, w.reads, w1.reads.len() as int, w0.reads.len() as int, now);
            }
        }
    }
@*/

/*@fn file=ipmb/src/memory_registry.rs item=MemoryRegistry::alloc
sig: pub fn alloc(&mut self, min_size: usize, tag: Option<Str>, Tracked(tr): Tracked<&mut Sys>) -> (r: Option<MemoryRegion>)
spec:
    ensures
        allocated(old(self)@, final(self)@, old(tr)@, final(tr)@, min_size, text(tag), None, r),
        cbs(old(self)@) =~= cbs(final(self)@).add(final(tr)@.ran.skip(old(tr)@.ran.len() as int).to_multiset()),
ghost alloc_inner: Tracked(tr)
mode exit: Option<MemoryRegion>
exit: proof { lemma_once(old(self)@, self@, old(tr)@, tr@, min_size, text(tag), None, __r); Seq::<int>::empty().to_multiset_ensures(); }
@*/

/*@fn file=ipmb/src/memory_registry.rs item=MemoryRegistry::alloc_with_free
sig: pub fn alloc_with_free(&mut self, min_size: usize, tag: Option<Str>, free: Callback, Tracked(tr): Tracked<&mut Sys>) -> (r: Option<MemoryRegion>)
spec:
    ensures
        allocated(old(self)@, final(self)@, old(tr)@, final(tr)@, min_size, text(tag), Some(free), r),
        cbs(old(self)@).add(given(Some(free), r).to_multiset()) =~= cbs(final(self)@).add(final(tr)@.ran.skip(old(tr)@.ran.len() as int).to_multiset()),
ghost alloc_inner: Tracked(tr)
subst opt: Box<dyn FnOnce()> ==> Callback
subst opt: Box::new(free) ==> free
mode exit: Option<MemoryRegion>
pre: let ghost free0 = free;
exit: proof { lemma_once(old(self)@, self@, old(tr)@, tr@, min_size, text(tag), Some(free0), __r); }
@*/

/*@fn file=ipmb/src/memory_registry.rs item=MemoryRegistry::maintain
sig: pub fn maintain(&mut self, Tracked(tr): Tracked<&mut Sys>)
spec:
    ensures
        exists|now: Instant| old(tr)@.now <= now.ns() <= final(tr)@.now && #[trigger] swept(old(self)@, final(self)@, final(tr)@.ran.skip(old(tr)@.ran.len() as int), final(tr)@.reads, old(tr)@.reads.len() as int, now),
        cbs(old(self)@) =~= cbs(final(self)@).add(final(tr)@.ran.skip(old(tr)@.ran.len() as int).to_multiset()),
        final(tr)@.held == old(tr)@.held, final(tr)@.made == old(tr)@.made,
ghost maintain_inner: Tracked(tr)
ghost Instant::now: Tracked(tr)
post: proof {
        let ran = tr@.ran.skip(old(tr)@.ran.len() as int);
        let now = choose|now: Instant| old(tr)@.now <= now.ns() <= tr@.now && #[trigger] swept(old(self)@, self@, ran, tr@.reads, old(tr)@.reads.len() as int, now);
        lemma_swept_once(old(self)@, self@, ran, tr@.reads, old(tr)@.reads.len() as int, now);
    }
@*/
}

fn main() {}
} // verus!
