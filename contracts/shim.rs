pub use core::ops::Range;
// ---------------------------------------------------------------------------------------------
// Trusted contracts of the standard library as the extracted code uses it. Each `external_body`
// below is an assumption (see DESIGN.md); the evidence counts them.
// ---------------------------------------------------------------------------------------------

// Iterators: `rem` is what is still to come.
pub trait VIterator: Sized {
    type Item;
    spec fn rem(&self) -> Seq<Self::Item>;
    /// what `next` needs
    spec fn wf_it(&self) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).wf_it()
        ensures
            r is Some ==> final(self).wf_it(),
            old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1);
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SeqIter<T> { x: std::marker::PhantomData<T> }

impl<T> VIterator for SeqIter<T> {
    type Item = T;
    uninterp spec fn rem(&self) -> Seq<T>;
    open spec fn wf_it(&self) -> bool { true }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
}

impl<T> SeqIter<T> {
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: SeqIter<(usize, T)>)
        ensures r.rem().len() == self.rem().len(), self.rem().len() <= usize::MAX,
            forall|i: int| 0 <= i < self.rem().len() ==> #[trigger] r.rem()[i] == (i as usize, self.rem()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: SeqIter<T>) ensures r.rem() == self.rem().reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: SeqIter<T>)
        ensures r.rem() == (if n <= self.rem().len() { self.rem().skip(n as int) } else { Seq::<T>::empty() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: SeqIter<T>)
        ensures r.rem() == (if n <= self.rem().len() { self.rem().take(n as int) } else { self.rem() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<J: IntoV<T>>(self, o: J) -> (r: SeqIter<T>) ensures r.rem() == self.rem() + o.elems() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rem().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.rem().len() { unimplemented!() }
    pub fn vinto_iter(self) -> (r: SeqIter<T>) ensures r.rem() == self.rem() { self }
}

pub open spec fn derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
impl<'a, T> SeqIter<&'a T> {
    /// the same elements in the same order
    #[verifier::external_body]
    pub fn veq_m(self, o: SeqIter<&'a T>) -> (r: bool) ensures r == (derefs(self.rem()) == derefs(o.rem())) { unimplemented!() }
    #[verifier::external_body]
    pub fn vcloned(self) -> (r: SeqIter<T>)
        ensures r.rem() == derefs(self.rem())
    { unimplemented!() }
}

// What a `for` loop, `extend` or `chain` takes its elements from.
pub trait IntoV<T>: Sized {
    spec fn elems(&self) -> Seq<T>;
}
pub trait ForV: Sized {
    type It: VIterator;
    spec fn all(&self) -> Seq<<Self::It as VIterator>::Item>;
    spec fn ok(&self, s: Seq<<Self::It as VIterator>::Item>) -> bool;
    open spec fn pre(&self) -> bool { true }
    fn to_viter(self) -> (r: Self::It) requires self.pre() ensures self.ok(r.rem()), r.wf_it();
}
pub fn into_viter<I: ForV>(x: I) -> (r: I::It) requires x.pre() ensures x.ok(r.rem()), r.wf_it() { x.to_viter() }
pub trait VChain: VIterator {
    fn chain<J: IntoV<Self::Item>>(self, o: J) -> (r: SeqIter<Self::Item>) requires self.wf_it() ensures r.rem() == self.rem() + o.elems();
}
impl<I: VIterator> VChain for I {
    #[verifier::external_body]
    fn chain<J: IntoV<I::Item>>(self, o: J) -> (r: SeqIter<I::Item>) { unimplemented!() }
}

pub fn vnone<I: VIterator>(it: &I) -> (r: Option<I::Item>) ensures r is None { None }
pub trait VCapacity { fn vcapacity(&self) -> usize; }
impl<T> VCapacity for Vec<T> { #[verifier::external_body] fn vcapacity(&self) -> usize { self.capacity() } }
impl<I: VIterator> ForV for I {
    type It = I;
    open spec fn all(&self) -> Seq<I::Item> { self.rem() }
    open spec fn ok(&self, s: Seq<I::Item>) -> bool { s == self.rem() }
    open spec fn pre(&self) -> bool { self.wf_it() }
    fn to_viter(self) -> (r: I) { self }
}
impl<T> IntoV<T> for SeqIter<T> { open spec fn elems(&self) -> Seq<T> { self.rem() } }

pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }

impl<T> ForV for Vec<T> {
    type It = SeqIter<T>;
    open spec fn all(&self) -> Seq<T> { self@ }
    open spec fn ok(&self, s: Seq<T>) -> bool { s == self@ && s.len() <= usize::MAX }
    #[verifier::external_body]
    fn to_viter(self) -> (r: SeqIter<T>) { unimplemented!() }
}
impl<'a, T> ForV for &'a Vec<T> {
    type It = SeqIter<&'a T>;
    open spec fn all(&self) -> Seq<&'a T> { refs(self@) }
    open spec fn ok(&self, s: Seq<&'a T>) -> bool { s == refs::<T>(self@) && s.len() <= usize::MAX }
    #[verifier::external_body]
    fn to_viter(self) -> (r: SeqIter<&'a T>) { unimplemented!() }
}
impl<'a, T> ForV for &'a [T] {
    type It = SeqIter<&'a T>;
    open spec fn all(&self) -> Seq<&'a T> { refs(self@) }
    open spec fn ok(&self, s: Seq<&'a T>) -> bool { s == refs::<T>(self@) && s.len() <= usize::MAX }
    #[verifier::external_body]
    fn to_viter(self) -> (r: SeqIter<&'a T>) { unimplemented!() }
}

pub trait RInt: Sized { spec fn int(self) -> int; spec fn of(i: int) -> Self; }
impl RInt for usize { open spec fn int(self) -> int { self as int } open spec fn of(i: int) -> usize { i as usize } }
impl RInt for u32 { open spec fn int(self) -> int { self as int } open spec fn of(i: int) -> u32 { i as u32 } }
impl RInt for i32 { open spec fn int(self) -> int { self as int } open spec fn of(i: int) -> i32 { i as i32 } }
#[verifier::external_body]
pub fn vrange<T: RInt>(a: T, b: T) -> (r: SeqIter<T>)
    ensures
        r.rem().len() == (if b.int() >= a.int() { b.int() - a.int() } else { 0 }),
        forall|i: int| 0 <= i < r.rem().len() ==> #[trigger] r.rem()[i] == T::of(a.int() + i)
{ unimplemented!() }

#[verifier::external_body]
pub fn vonce<T>(x: T) -> (r: SeqIter<T>) ensures r.rem() == seq![x] { unimplemented!() }

pub trait ViterVec<T> {
    spec fn vseq(&self) -> Seq<T>;
    fn viter<'a>(&'a self) -> (r: SeqIter<&'a T>) ensures r.rem() == refs::<T>(self.vseq()), r.rem().len() <= usize::MAX;
    fn vget<'a>(&'a self, i: usize) -> (r: Option<&'a T>)
        ensures match r { Some(x) => i < self.vseq().len() && *x == self.vseq()[i as int], None => i >= self.vseq().len() };
    fn vfirst<'a>(&'a self) -> (r: Option<&'a T>)
        ensures match r { Some(x) => self.vseq().len() > 0 && *x == self.vseq()[0], None => self.vseq().len() == 0 };
    fn vlast<'a>(&'a self) -> (r: Option<&'a T>)
        ensures match r { Some(x) => self.vseq().len() > 0 && *x == self.vseq().last(), None => self.vseq().len() == 0 };
    fn vis_empty(&self) -> (r: bool) ensures r == (self.vseq().len() == 0);
}
impl<T> ViterVec<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn viter<'a>(&'a self) -> (r: SeqIter<&'a T>) { unimplemented!() }
    fn vget<'a>(&'a self, i: usize) -> (r: Option<&'a T>) { if i < self.len() { Some(&self[i]) } else { None } }
    fn vfirst<'a>(&'a self) -> (r: Option<&'a T>) { if 0 < self.len() { Some(&self[0]) } else { None } }
    fn vlast<'a>(&'a self) -> (r: Option<&'a T>) { if 0 < self.len() { Some(&self[self.len() - 1]) } else { None } }
    fn vis_empty(&self) -> (r: bool) { self.len() == 0 }
}
impl<T> ViterVec<T> for [T] {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn viter<'a>(&'a self) -> (r: SeqIter<&'a T>) { unimplemented!() }
    fn vget<'a>(&'a self, i: usize) -> (r: Option<&'a T>) { if i < self.len() { Some(&self[i]) } else { None } }
    fn vfirst<'a>(&'a self) -> (r: Option<&'a T>) { if 0 < self.len() { Some(&self[0]) } else { None } }
    fn vlast<'a>(&'a self) -> (r: Option<&'a T>) { if 0 < self.len() { Some(&self[self.len() - 1]) } else { None } }
    fn vis_empty(&self) -> (r: bool) { self.len() == 0 }
}
pub trait VecHas<T> { fn vcontains(&self, x: &T) -> (r: bool); }
impl<T> VecHas<T> for Vec<T> { #[verifier::external_body] fn vcontains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() } }
pub trait VecInto<T>: Sized {
    fn vinto_iter(self) -> (r: SeqIter<T>);
}
pub trait VecOps<T>: Sized {
    spec fn vv(&self) -> Seq<T>;
    fn vinto_iter(self) -> (r: SeqIter<T>) ensures r.rem() == self.vv(), r.rem().len() <= usize::MAX;
    fn vtruncate(&mut self, n: usize)
        ensures final(self).vv() == (if n <= old(self).vv().len() { old(self).vv().take(n as int) } else { old(self).vv() });
}
impl<T> VecOps<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vinto_iter(self) -> (r: SeqIter<T>) { unimplemented!() }
    #[verifier::external_body]
    fn vtruncate(&mut self, n: usize) { unimplemented!() }
}

pub trait VExtendVec<T>: Sized {
    spec fn ext_seq(&self) -> Seq<T>;
    fn vextend<I: ExtV<T>>(&mut self, o: I)
        ensures o.ext_ok(final(self).ext_seq().skip(old(self).ext_seq().len() as int)), final(self).ext_seq().len() >= old(self).ext_seq().len(),
            final(self).ext_seq().take(old(self).ext_seq().len() as int) == old(self).ext_seq();
}
/// what `Vec::extend` takes
pub trait ExtV<T>: Sized { spec fn ext_ok(&self, s: Seq<T>) -> bool; }
impl<T> VExtendVec<T> for Vec<T> {
    open spec fn ext_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vextend<I: ExtV<T>>(&mut self, o: I) { unimplemented!() }
}
impl<T> ExtV<T> for SeqIter<T> { open spec fn ext_ok(&self, s: Seq<T>) -> bool { s == self.rem() } }
impl<T> ExtV<T> for Vec<T> { open spec fn ext_ok(&self, s: Seq<T>) -> bool { s == self@ } }
// Structural equality and cloning: derived (or hand-written equivalent) PartialEq / Clone.
#[verifier::external_body]
pub fn veq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub trait VEqM: Sized { fn veq_m(&self, o: &Self) -> (r: bool) ensures r == (*self == *o); }
impl<T> VEqM for T { #[verifier::external_body] fn veq_m(&self, o: &Self) -> (r: bool) { unimplemented!() } }
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
pub trait VCloned<T> { spec fn plain(&self) -> Option<T>; fn vcloned(self) -> (r: Option<T>) where Self: Sized ensures r == self.plain(); }
impl<'a, T> VCloned<T> for Option<&'a T> {
    open spec fn plain(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } }
    #[verifier::external_body]
    fn vcloned(self) -> (r: Option<T>) { unimplemented!() }
}
pub trait VAsRef<T> { fn vas_ref<'a>(&'a self) -> (r: Option<&'a T>); }
impl<T> VAsRef<T> for Option<T> {
    fn vas_ref<'a>(&'a self) -> (r: Option<&'a T>)
        ensures r == (match *self { Some(x) => Some(&x), None => None })
    { match self { Some(x) => Some(x), None => None } }
}

// `assert!`: must be provable. A refusal (`panic!` with a stated reason): ends the run.
pub fn vassert(b: bool) requires b { }
#[verifier::external_body]
pub fn vunreachable<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn vdiverge<T>() -> (r: T) ensures false { unimplemented!() }

/// a bound `Ord`: its order is only used by the collections
pub trait VOrd { }
impl<T> VOrd for T { }
pub enum Ordering { Less, Equal, Greater }
pub trait VCmp { fn vcmp(&self, o: &Self) -> (r: Ordering); }
impl VCmp for u32 {
    fn vcmp(&self, o: &Self) -> (r: Ordering)
        ensures r == (if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater })
    { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
}
pub fn min(a: u32, b: u32) -> (r: u32) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn max(a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }

// Ranges of u32
pub trait RangeU32 {
    spec fn lo(&self) -> u32;
    spec fn hi(&self) -> u32;
    fn vis_empty(&self) -> (r: bool) ensures r == (self.lo() >= self.hi());
    fn vcontains(&self, x: &u32) -> (r: bool) ensures r == (self.lo() <= *x < self.hi());
}
impl RangeU32 for std::ops::Range<u32> {
    open spec fn lo(&self) -> u32 { self.start }
    open spec fn hi(&self) -> u32 { self.end }
    fn vis_empty(&self) -> (r: bool) { self.start >= self.end }
    fn vcontains(&self, x: &u32) -> (r: bool) { self.start <= *x && *x < self.end }
}

/// the number, given by value or by reference
pub trait VNum<T>: Sized { spec fn num(self) -> T; fn vval(self) -> (r: T) ensures r == self.num(); }
impl VNum<usize> for usize { open spec fn num(self) -> usize { self } fn vval(self) -> (r: usize) { self } }
impl<'a> VNum<usize> for &'a usize { open spec fn num(self) -> usize { *self } fn vval(self) -> (r: usize) { *self } }
impl VNum<u32> for u32 { open spec fn num(self) -> u32 { self } fn vval(self) -> (r: u32) { self } }
impl<'a> VNum<u32> for &'a u32 { open spec fn num(self) -> u32 { *self } fn vval(self) -> (r: u32) { *self } }
impl VNum<i32> for i32 { open spec fn num(self) -> i32 { self } fn vval(self) -> (r: i32) { self } }
pub fn vval<T, N: VNum<T>>(x: N) -> (r: T) ensures r == x.num() { x.vval() }

// Types that are indices (`Copy + Into<usize> + From<usize>` in the source)
pub trait UIdx: Copy {
    spec fn idx(self) -> usize;
    spec fn mk(i: usize) -> Self;
    proof fn idx_mk(i: usize) ensures Self::mk(i).idx() == i;
    fn vinto(self) -> (r: usize) ensures r == self.idx();
    fn from(i: usize) -> (r: Self) ensures r == Self::mk(i);
}
impl UIdx for usize {
    open spec fn idx(self) -> usize { self }
    open spec fn mk(i: usize) -> usize { i }
    proof fn idx_mk(i: usize) {}
    fn vinto(self) -> (r: usize) { self }
    fn from(i: usize) -> (r: usize) { i }
}

// The order of BTree keys (derived or under contract: see `vlt_*`)
pub uninterp spec fn vlt<T>(a: T, b: T) -> bool;
pub open spec fn sorted<T>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] vlt(s[i], s[j]) }
pub broadcast axiom fn vlt_irrefl<T>(a: T) ensures #[trigger] vlt(a, a) ==> false;
pub axiom fn vlt_asym<T>(a: T, b: T) ensures vlt(a, b) ==> !vlt(b, a);
pub broadcast axiom fn vlt_usize(a: usize, b: usize) ensures #[trigger] vlt(a, b) == (a < b);

pub open spec fn enumerates<T>(s: Seq<T>, x: Set<T>) -> bool {
    &&& x.finite() && s.len() == x.len() && s.no_duplicates()
    &&& forall|v: T| #[trigger] x.contains(v) <==> s.contains(v)
    &&& s.len() <= usize::MAX
}

pub fn vtake<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() {
    let mut e = Vec::new();
    core::mem::swap(v, &mut e);
    e
}
#[verifier::external_body]
pub fn vslice_from<'a, T>(v: &'a Vec<T>, a: usize) -> (r: &'a [T]) requires a <= v@.len() ensures r@ == v@.skip(a as int) { unimplemented!() }
#[verifier::external_body]
pub fn vslice<'a, T>(v: &'a Vec<T>, a: usize, b: usize) -> (r: &'a [T]) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { unimplemented!() }
/// a `Vec` of non-zero-sized elements holds at most `isize::MAX` bytes
pub axiom fn vec_len_max<T>(v: Vec<T>) ensures v@.len() < usize::MAX;
/// where `--vacuity` asserts it, it must not be provable
pub uninterp spec fn vac_pt(n: int) -> bool;
