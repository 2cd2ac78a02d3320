// C01: labels and label expressions.
use vstd::prelude::*;
verus! {

//@include prelude.inc

// ---- stand-ins for dependencies (trusted): a SmolStr is the string it was made from
#[verifier::external_body]
pub struct SmolStr { s: String }
pub type Str = Seq<u8>;
pub uninterp spec fn str_bytes(s: &str) -> Str;
impl SmolStr {
    pub uninterp spec fn view(&self) -> Str;
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: SmolStr) ensures r@ == str_bytes(s) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures str_bytes(r) == self@ { unimplemented!() }
}
// string comparison is byte for byte (trusted: PartialEq of SmolStr and str)
pub trait Text { spec fn text(&self) -> Str; }
impl Text for str { open spec fn text(&self) -> Str { str_bytes(self) } }
impl Text for SmolStr { open spec fn text(&self) -> Str { self@ } }
impl<T: Text + ?Sized> Text for &T { open spec fn text(&self) -> Str { (*self).text() } }
#[verifier::external_body]
pub fn str_eq<A: Text, B: Text>(a: A, b: B) -> (r: bool) ensures r == (a.text() == b.text()) { unimplemented!() }
// SmallVec<[SmolStr; 8]> is a vector (trusted)
pub struct Label(pub Vec<SmolStr>);

pub open spec fn strs(v: Seq<SmolStr>) -> Seq<Str> { v.map_values(|x: SmolStr| x@) }

impl Label {
    pub open spec fn has(&self, s: Str) -> bool { exists|i: int| 0 <= i < self.0@.len() && (#[trigger] self.0@[i])@ == s }
    /// each string once
    pub open spec fn wf(&self) -> bool {
        forall|i: int, j: int| 0 <= i < j < self.0@.len() ==> (#[trigger] self.0@[i])@ != (#[trigger] self.0@[j])@
    }

/*@fn file=ipmb/src/label.rs item=Label::insert
sig: pub fn insert(&mut self, s: &str)
spec:
    requires old(self).wf(),
    ensures
        final(self).wf(),
        forall|t: Str| final(self).has(t) <==> old(self).has(t) || t == str_bytes(s),
loop any0?:
    invariant
        self.wf(), *self == *old(self),
        __i_any0 <= self.0@.len(),
        __r_any0 == exists|j: int| 0 <= j < __i_any0 && (#[trigger] self.0@[j])@ == str_bytes(s),
        __r_any0 ==> self.has(str_bytes(s)),
    decreases self.0@.len() - __i_any0,
loop for0?:
    invariant
        self.wf(), *self == *old(self),
        __i_for0 <= self.0@.len(),
        forall|j: int| 0 <= j < __i_for0 ==> (#[trigger] self.0@[j])@ != str_bytes(s),
    decreases self.0@.len() - __i_for0,
loop find0?:
    invariant
        self.wf(), *self == *old(self),
        __i_find0 <= self.0@.len(),
        __r_find0 is None ==> forall|j: int| 0 <= j < __i_find0 ==> (#[trigger] self.0@[j])@ != str_bytes(s),
        __r_find0 is Some ==> __r_find0->0 < self.0@.len() && self.0@[__r_find0->0 as int]@ == str_bytes(s),
    decreases self.0@.len() - __i_find0,
mode eq: str_eq
subst opt: s.as_ref() ==> s
attr: #[verifier::loop_isolation(false)]
post: proof { if self.0@.len() > old(self).0@.len() { lemma_pushed(*old(self), *self, str_bytes(s)); } }
@*/

/*@fn file=ipmb/src/label.rs item=Label::remove
sig: pub fn remove(&mut self, s: &str)
spec:
    requires old(self).wf(),
    ensures
        final(self).wf(),
        forall|t: Str| final(self).has(t) <==> old(self).has(t) && t != str_bytes(s),
loop retain0?:
    invariant
        self.wf(),
        __i_retain0 <= self.0@.len(),
        forall|k: int| 0 <= k < __i_retain0 ==> (#[trigger] self.0@[k])@ != str_bytes(s),
        forall|t: Str| t != str_bytes(s) ==> (self.has(t) <==> old(self).has(t)),
        forall|t: Str| self.has(t) ==> old(self).has(t),
    decreases self.0@.len() - __i_retain0,
loop find0?:
    invariant
        self.wf(), *self == *old(self),
        __i_find0 <= self.0@.len(),
        __r_find0 is None ==> forall|j: int| 0 <= j < __i_find0 ==> (#[trigger] self.0@[j])@ != str_bytes(s),
        __r_find0 is Some ==> __r_find0->0 < self.0@.len() && self.0@[__r_find0->0 as int]@ == str_bytes(s),
    decreases self.0@.len() - __i_find0,
mode eq: str_eq
subst opt: self.0.remove(i) ==> label_drop(self, i)
subst opt: self.0.remove(__i_retain0) ==> label_drop(self, __i_retain0)
@*/

/*@fn file=ipmb/src/label.rs item=Label::all
sig: pub fn all(&self, sub: &Vec<&str>) -> (r: bool)
spec:
    ensures r == forall|i: int| 0 <= i < sub@.len() ==> self.has(str_bytes(#[trigger] sub@[i])),
mode for0: index
mode shared: sub
mode eq: str_eq
attr: #[verifier::loop_isolation(false)]
loop for0?:
    invariant
        __i_for0 <= sub@.len(),
        forall|i: int| 0 <= i < __i_for0 ==> self.has(str_bytes(#[trigger] sub@[i])),
    decreases sub@.len() - __i_for0,
loop all0?:
    invariant
        __i_all0 <= sub@.len(),
        __r_all0 == forall|i: int| 0 <= i < __i_all0 ==> self.has(str_bytes(#[trigger] sub@[i])),
    decreases sub@.len() - __i_all0,
loop any0?:
    invariant
        __i_any0 <= self.0@.len(),
        __r_any0 == exists|j: int| 0 <= j < __i_any0 && (#[trigger] self.0@[j])@ == str_bytes(s),
    decreases self.0@.len() - __i_any0,
@*/

/*@fn file=ipmb/src/label.rs item=Label::iter
sig: pub fn iter(&self) -> (r: Vec<&str>)
spec:
    ensures r@.len() == self.0@.len(), forall|i: int| 0 <= i < r@.len() ==> str_bytes(#[trigger] r@[i]) == self.0@[i]@,
mode lazy: &str
loop for0:
    invariant
        __i_for0 <= self.0@.len(), __lazy@.len() == __i_for0,
        forall|i: int| 0 <= i < __i_for0 ==> str_bytes(#[trigger] __lazy@[i]) == self.0@[i]@,
    decreases self.0@.len() - __i_for0,
@*/

/*@fn file=ipmb/src/label.rs item=Label~as~From::from
sig: pub fn from(it: Vec<&str>) -> (r: Label)
spec:
    ensures
        r.wf(),
        forall|t: Str| r.has(t) <==> exists|i: int| 0 <= i < it@.len() && str_bytes(#[trigger] it@[i]) == t,
mode shared: it
mode for0: index
attr: #[verifier::loop_isolation(false)]
subst opt: Self::default() ==> Label(Vec::new())
subst opt: Label::default() ==> Label(Vec::new())
subst opt: Default::default() ==> Label(Vec::new())
loop for0:
    invariant
        label.wf(), __i_for0 <= it@.len(),
        forall|t: Str| label.has(t) <==> exists|i: int| 0 <= i < __i_for0 && str_bytes(#[trigger] it@[i]) == t,
    decreases it@.len() - __i_for0,
@*/
}

proof fn lemma_pushed(a: Label, b: Label, s: Str)
    requires a.wf(), b.0@.len() == a.0@.len() + 1, b.0@ =~= a.0@.push(b.0@.last()), b.0@.last()@ == s,
    ensures forall|t: Str| b.has(t) <==> a.has(t) || t == s,
{
    assert forall|t: Str| b.has(t) <==> a.has(t) || t == s by {
        let n = a.0@.len() as int;
        assert(b.0@[n]@ == s);
        assert(forall|k: int| 0 <= k < n ==> b.0@[k] == a.0@[k]);
        if a.has(t) { let k = choose|k: int| 0 <= k < n && (#[trigger] a.0@[k])@ == t; assert(b.0@[k]@ == t); }
        if b.has(t) { let k = choose|k: int| 0 <= k < b.0@.len() && (#[trigger] b.0@[k])@ == t; if k < n { assert(a.0@[k]@ == t); } }
    }
}
/// removing the element at `i`
fn label_drop(l: &mut Label, i: usize)
    requires old(l).wf(), i < old(l).0@.len(),
    ensures
        final(l).wf(), final(l).0@ == old(l).0@.remove(i as int),
        forall|t: Str| t != old(l).0@[i as int]@ ==> (final(l).has(t) <==> old(l).has(t)),
        forall|t: Str| final(l).has(t) ==> old(l).has(t),
{
    let _ = l.0.remove(i);
    proof {
        let o = old(l).0@;
        let n = l.0@;
        assert forall|t: Str| n.len() == o.len() - 1 && l.has(t) implies old(l).has(t) by {
            let k = choose|k: int| 0 <= k < n.len() && (#[trigger] n[k])@ == t;
            let m = if k < i { k } else { k + 1 };
            assert(o[m]@ == t);
        }
        assert forall|t: Str| t != o[i as int]@ && old(l).has(t) implies l.has(t) by {
            let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k])@ == t;
            let m = if k < i { k } else { k - 1 };
            assert(n[m]@ == t);
        }
        assert forall|a: int, b: int| 0 <= a < b < n.len() implies (#[trigger] n[a])@ != (#[trigger] n[b])@ by {
            let a2 = if a < i { a } else { a + 1 };
            let b2 = if b < i { b } else { b + 1 };
            assert(o[a2]@ != o[b2]@);
        }
    }
}

pub enum LabelOp {
    True,
    False,
    Leaf(SmolStr),
    Not(Box<LabelOp>),
    And(Box<LabelOp>, Box<LabelOp>),
    Or(Box<LabelOp>, Box<LabelOp>),
}

/// the value of the formula, from the property statement
pub open spec fn eval(e: LabelOp, l: Label) -> bool
    decreases e
{
    match e {
        LabelOp::True => true,
        LabelOp::False => false,
        LabelOp::Leaf(s) => l.has(s@),
        LabelOp::Not(a) => !eval(*a, l),
        LabelOp::And(a, b) => eval(*a, l) && eval(*b, l),
        LabelOp::Or(a, b) => eval(*a, l) || eval(*b, l),
    }
}

impl LabelOp {
/*@fn file=ipmb/src/label.rs item=LabelOp::and
sig: pub fn and(self, v: LabelOp) -> (r: LabelOp)
spec:
    ensures forall|l: Label| #[trigger] eval(r, l) == (eval(self, l) && eval(v, l)),
subst: v.into() ==> v
@*/
/*@fn file=ipmb/src/label.rs item=LabelOp::or
sig: pub fn or(self, v: LabelOp) -> (r: LabelOp)
spec:
    ensures forall|l: Label| #[trigger] eval(r, l) == (eval(self, l) || eval(v, l)),
subst: v.into() ==> v
@*/
/*@fn file=ipmb/src/label.rs item=LabelOp~as~Not::not
sig: pub fn not(self) -> (r: LabelOp)
spec:
    ensures forall|l: Label| #[trigger] eval(r, l) == !eval(self, l),
@*/
/*@fn file=ipmb/src/label.rs item=LabelOp~as~From::from
sig: pub fn from(value: &str) -> (r: LabelOp)
spec:
    ensures forall|l: Label| #[trigger] eval(r, l) == l.has(str_bytes(value)),
subst: value.into() ==> SmolStr::new(value)
@*/
/*@fn file=ipmb/src/label.rs item=LabelOp::validate
sig: pub fn validate(&self, label: &Label) -> (r: bool)
spec:
    ensures r == eval(*self, *label),
    decreases self,
mode early: label.iter() ==> label.0.iter()
subst opt: iter::once(v.as_str()) ==> &once(v.as_str())
subst opt: [v.as_str()] ==> &once(v.as_str())
mode eq: str_eq
loop any0?:
    invariant
        __i_any0 <= label.0@.len(),
        __r_any0 == exists|j: int| 0 <= j < __i_any0 && (#[trigger] label.0@[j])@ == v@,
    decreases label.0@.len() - __i_any0,
@*/
}
/// iter::once
fn once<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures r@ == seq![s], r@[0] == s { let mut v = Vec::new(); v.push(s); v }

// ---- the property over whole histories of insertions and removals
pub enum Op { Insert(Str), Remove(Str) }
pub open spec fn contains_after(h: Seq<Op>, t: Str) -> bool
    decreases h.len()
{
    if h.len() == 0 { false } else {
        match h.last() {
            Op::Insert(s) => t == s || contains_after(h.drop_last(), t),
            Op::Remove(s) => t != s && contains_after(h.drop_last(), t),
        }
    }
}
/// "contains exactly the strings inserted and not removed since"
proof fn lemma_history(h: Seq<Op>, t: Str)
    ensures contains_after(h, t) <==> exists|i: int| 0 <= i < h.len() && #[trigger] h[i] == Op::Insert(t)
        && forall|j: int| i < j < h.len() ==> #[trigger] h[j] != Op::Remove(t)
    decreases h.len()
{
    if h.len() > 0 {
        let p = h.drop_last();
        let n = h.len() - 1;
        lemma_history(p, t);
        if contains_after(p, t) && h.last() != Op::Remove(t) {
            let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == Op::Insert(t) && forall|j: int| i < j < p.len() ==> #[trigger] p[j] != Op::Remove(t);
            assert(h[i] == Op::Insert(t));
            assert forall|j: int| i < j < h.len() implies #[trigger] h[j] != Op::Remove(t) by { if j < n { assert(p[j] == h[j]); } }
        }
        if h.last() == Op::Insert(t) { assert(h[n] == Op::Insert(t)); }
        if exists|i: int| 0 <= i < h.len() && #[trigger] h[i] == Op::Insert(t) && forall|j: int| i < j < h.len() ==> #[trigger] h[j] != Op::Remove(t) {
            let i = choose|i: int| 0 <= i < h.len() && #[trigger] h[i] == Op::Insert(t) && forall|j: int| i < j < h.len() ==> #[trigger] h[j] != Op::Remove(t);
            if i < n {
                assert(p[i] == Op::Insert(t));
                assert forall|j: int| i < j < p.len() implies #[trigger] p[j] != Op::Remove(t) by { assert(p[j] == h[j]); }
                assert(h[n] != Op::Remove(t));
            }
        }
    }
}

} // verus!
fn main() {}
