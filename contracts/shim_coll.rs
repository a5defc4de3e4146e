// ---------------------------------------------------------------------------------------------
// Trusted contracts of the collections (std, indexmap, bit-vec). Keys are compared by value: for
// the ordered collections this assumes that the key's order is total and agrees with equality.
// ---------------------------------------------------------------------------------------------
/// what a lookup in a collection of `T` takes: a reference to a `T`, or a `T` that is itself a reference
pub trait KeyOf<T>: Sized { spec fn the_key(self) -> T; }
impl<'a, T> KeyOf<T> for &'a T { open spec fn the_key(self) -> T { *self } }
impl<'a, T> KeyOf<&'a T> for &'a T { open spec fn the_key(self) -> &'a T { self } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { x: std::marker::PhantomData<T> }

impl<T> BTreeSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vremove<Q: KeyOf<T>>(&mut self, x: Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(x.the_key()), r == old(self)@.contains(x.the_key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vcontains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vis_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX, (r == 0) == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn viter<'a>(&'a self) -> (r: SeqIter<&'a T>) ensures enum_refs(r.rem(), self@), sorted_refs(r.rem()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vinto_iter(self) -> (r: SeqIter<T>) ensures enumerates(r.rem(), self@), sorted(r.rem()) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter<const N: usize>(a: [T; N]) -> (r: Self) ensures forall|x: T| #[trigger] r@.contains(x) <==> a@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vextend<'a>(&mut self, o: &'a BTreeSet<T>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
}
impl<T> Clone for BTreeSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<T> ForV for BTreeSet<T> {
    type It = SeqIter<T>;
    uninterp spec fn all(&self) -> Seq<T>;
    open spec fn ok(&self, s: Seq<T>) -> bool { enumerates(s, self@) && sorted(s) }
    #[verifier::external_body]
    fn to_viter(self) -> (r: SeqIter<T>) { unimplemented!() }
}
impl<'a, T> ForV for &'a BTreeSet<T> {
    type It = SeqIter<&'a T>;
    uninterp spec fn all(&self) -> Seq<&'a T>;
    open spec fn ok(&self, s: Seq<&'a T>) -> bool { enum_refs(s, self@) && sorted_refs(s) }
    #[verifier::external_body]
    fn to_viter(self) -> (r: SeqIter<&'a T>) { unimplemented!() }
}
impl<T> ExtV<T> for BTreeSet<T> { open spec fn ext_ok(&self, s: Seq<T>) -> bool { enumerates(s, self@) && sorted(s) } }
/// the references of `s` are to the elements of `x`, each once
pub open spec fn enum_refs<'a, T>(s: Seq<&'a T>, x: Set<T>) -> bool {
    &&& x.finite() && s.len() == x.len() && s.len() <= usize::MAX
    &&& forall|i: int| 0 <= i < s.len() ==> x.contains(*#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *#[trigger] s[i] != *#[trigger] s[j]
    &&& forall|v: T| #[trigger] x.contains(v) ==> exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == v
}
/// cloning the elements of a set and collecting them again gives the set
pub proof fn derefs_set<'a, T>(s: Seq<&'a T>, x: Set<T>)
    requires enum_refs(s, x) ensures derefs(s).to_set() =~= x
{
    assert forall|v: T| #[trigger] x.contains(v) <==> derefs(s).to_set().contains(v) by {
        if x.contains(v) { let i = choose|i: int| 0 <= i < s.len() && *#[trigger] s[i] == v; assert(derefs(s)[i] == v); }
        if derefs(s).contains(v) { let i = choose|i: int| 0 <= i < s.len() && derefs(s)[i] == v; assert(*s[i] == v); }
    }
}
pub open spec fn sorted_refs<'a, T>(s: Seq<&'a T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> vlt(*#[trigger] s[i], *#[trigger] s[j]) }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { x: std::marker::PhantomData<T> }
impl<T> HashSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vcontains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vis_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX, (r == 0) == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn viter<'a>(&'a self) -> (r: SeqIter<&'a T>) ensures enum_refs(r.rem(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vinto_iter(self) -> (r: SeqIter<T>) ensures enumerates(r.rem(), self@) { unimplemented!() }
}
impl<T> ForV for HashSet<T> {
    type It = SeqIter<T>;
    uninterp spec fn all(&self) -> Seq<T>;
    open spec fn ok(&self, s: Seq<T>) -> bool { enumerates(s, self@) }
    #[verifier::external_body]
    fn to_viter(self) -> (r: SeqIter<T>) { unimplemented!() }
}

// ---- collecting -------------------------------------------------------------------------------
pub trait FromVec<T>: Sized {
    spec fn from_ok(&self, v: Seq<T>) -> bool;
    fn from_vec(v: Vec<T>) -> (r: Self) ensures r.from_ok(v@);
}
impl<T> FromVec<T> for Vec<T> {
    open spec fn from_ok(&self, v: Seq<T>) -> bool { self@ == v }
    fn from_vec(v: Vec<T>) -> (r: Self) { v }
}
impl<T> FromVec<T> for BTreeSet<T> {
    open spec fn from_ok(&self, v: Seq<T>) -> bool { self@ == v.to_set() }
    #[verifier::external_body]
    fn from_vec(v: Vec<T>) -> (r: Self) { unimplemented!() }
}
impl<T> FromVec<T> for HashSet<T> {
    open spec fn from_ok(&self, v: Seq<T>) -> bool { self@ == v.to_set() }
    #[verifier::external_body]
    fn from_vec(v: Vec<T>) -> (r: Self) { unimplemented!() }
}
pub fn collect_into<C: FromVec<T>, T>(v: Vec<T>) -> (r: C) ensures r.from_ok(v@) { C::from_vec(v) }
impl<T> SeqIter<T> {
    #[verifier::external_body]
    pub fn vcollect<C: FromVec<T>>(self) -> (r: C) ensures r.from_ok(self.rem()) { unimplemented!() }
}

// ---- ordered maps -----------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
           r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vget<'a, Q: KeyOf<K>>(&'a self, k: Q) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.contains_key(k.the_key()) && *v == self@[k.the_key()], None => !self@.contains_key(k.the_key()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), (r == 0) == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vis_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn viter<'a>(&'a self) -> (r: SeqIter<(&'a K, &'a V)>) ensures map_refs(r.rem(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: SeqIter<&'a K>) ensures enum_refs(r.rem(), self@.dom()), sorted_refs(r.rem()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vkeys_snapshot(&self) -> (r: SeqIter<K>) ensures enumerates(r.rem(), self@.dom()), sorted(r.rem()) { unimplemented!() }
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
      ensures match r {
        Entry::Vacant(e) => !old(self)@.contains_key(k) && e.key == k && *e.map == *old(self) && *final(e.map) == *final(self),
        Entry::Occupied(e) => old(self)@.contains_key(k) && e.key == k && *e.map == *old(self) && *final(e.map) == *final(self),
      }
    {
        if self.contains_key(&k) { Entry::Occupied(OccupiedEntry { map: self, key: k }) } else { Entry::Vacant(VacantEntry { map: self, key: k }) }
    }
    #[verifier::external_body]
    pub fn from<const N: usize>(a: [(K, V); N]) -> (r: Self)
        ensures N == 1 ==> r@ == Map::<K, V>::empty().insert(a@[0].0, a@[0].1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter<const N: usize>(a: [(K, V); N]) -> (r: Self)
        ensures N == 1 ==> r@ == Map::<K, V>::empty().insert(a@[0].0, a@[0].1)
    { unimplemented!() }
}
impl<K, V> Clone for BTreeMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<'a, K, V> ForV for &'a BTreeMap<K, V> {
    type It = SeqIter<(&'a K, &'a V)>;
    uninterp spec fn all(&self) -> Seq<(&'a K, &'a V)>;
    open spec fn ok(&self, s: Seq<(&'a K, &'a V)>) -> bool { map_refs(s, self@) }
    #[verifier::external_body]
    fn to_viter(self) -> (r: SeqIter<(&'a K, &'a V)>) { unimplemented!() }
}
/// the entries of the map, each once, by increasing key
pub open spec fn map_refs<'a, K, V>(s: Seq<(&'a K, &'a V)>, m: Map<K, V>) -> bool {
    &&& m.dom().finite() && s.len() == m.dom().len() && s.len() <= usize::MAX
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*#[trigger] s[i].0) && *s[i].1 == m[*s[i].0]
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0 && vlt(*s[i].0, *s[j].0)
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
}
#[verifier::reject_recursive_types(K)]
pub struct VacantEntry<'a, K, V> { pub map: &'a mut BTreeMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
pub struct OccupiedEntry<'a, K, V> { pub map: &'a mut BTreeMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>) }
impl<'a, K, V> Entry<'a, K, V> {
    pub open spec fn the_map(self) -> &'a mut BTreeMap<K, V> { match self { Entry::Vacant(e) => e.map, Entry::Occupied(e) => e.map } }
    pub open spec fn the_key(self) -> K { match self { Entry::Vacant(e) => e.key, Entry::Occupied(e) => e.key } }
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
       ensures final(self.the_map())@ == old(self.the_map())@.insert(self.the_key(), *final(r)),
           *r == (if old(self.the_map())@.contains_key(self.the_key()) { old(self.the_map())@[self.the_key()] } else { v })
    { unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V)
       ensures *r == v, final(self.map)@ == old(self.map)@.insert(self.key, *final(r))
    { unimplemented!() }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(&mut self, v: V) -> (r: V)
        requires old(old(self).map)@.contains_key(old(self).key)
        ensures r == old(old(self).map)@[old(self).key], final(self).key == old(self).key,
            old(final(self).map)@ == old(old(self).map)@.insert(old(self).key, v), *final(final(self).map) == *final(old(self).map)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'b>(&'b mut self) -> (r: &'b mut V)
        requires old(old(self).map)@.contains_key(old(self).key)
        ensures *r == old(old(self).map)@[old(self).key], final(self).key == old(self).key,
            old(final(self).map)@ == old(old(self).map)@.insert(old(self).key, *final(r)), *final(final(self).map) == *final(old(self).map)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vget<'b>(&'b self) -> (r: &'b V) requires old(self.map)@.contains_key(self.key) ensures *r == old(self.map)@[self.key] { unimplemented!() }
}

// ---- bits -------------------------------------------------------------------------------------
pub type BitVec = Vec<bool>;
pub trait BitVecOps: Sized {
    spec fn bits(&self) -> Seq<bool>;
    fn from_elem(n: usize, b: bool) -> (r: Self) ensures r.bits() == Seq::new(n as nat, |i: int| b);
    fn vset(&mut self, i: usize, b: bool) requires i < old(self).bits().len() ensures final(self).bits() == old(self).bits().update(i as int, b);
}
impl BitVecOps for Vec<bool> {
    open spec fn bits(&self) -> Seq<bool> { self@ }
    #[verifier::external_body]
    fn from_elem(n: usize, b: bool) -> (r: Vec<bool>) { unimplemented!() }
    fn vset(&mut self, i: usize, b: bool) { self[i] = b; }
}
pub axiom fn btree_map_ext<K, V>(a: BTreeMap<K, V>, b: BTreeMap<K, V>) ensures a@ == b@ ==> a == b;
/// sets with the same elements are equal
pub broadcast axiom fn btree_ext<T>(a: BTreeSet<T>, b: BTreeSet<T>) ensures #[trigger] a.view() == #[trigger] b.view() ==> a == b;
pub trait ArrInto<T>: Sized { fn vinto(self) -> (r: HashSet<T>); }
impl<T> ArrInto<T> for [T; 1] {
    #[verifier::external_body]
    fn vinto(self) -> (r: HashSet<T>) ensures r@ == Set::<T>::empty().insert(self@[0]) { unimplemented!() }
}
/// the value of each key, the last of them
pub open spec fn pairs_map<K, V>(s: Seq<(K, V)>, n: int) -> Map<K, V> decreases n { if n <= 0 { Map::empty() } else { pairs_map(s, n - 1).insert(s[n - 1].0, s[n - 1].1) } }
impl<K, V> FromVec<(K, V)> for BTreeMap<K, V> {
    open spec fn from_ok(&self, v: Seq<(K, V)>) -> bool { self@ == pairs_map(v, v.len() as int) }
    #[verifier::external_body]
    fn from_vec(v: Vec<(K, V)>) -> (r: Self) { unimplemented!() }
}
/// a `BTreeMap` is finite
pub axiom fn btree_map_finite<K, V>(m: BTreeMap<K, V>) ensures m@.dom().finite();
// ---- insertion-ordered sets (indexmap); elements are told apart by value: assumes that `Hash` agrees with `Eq`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct IndexSet<T> { x: std::marker::PhantomData<T> }
impl<T> IndexSet<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter<const N: usize>(a: [T; N]) -> (r: Self) ensures N == 1 ==> r@ == seq![a@[0]] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool)
        ensures r == !old(self)@.contains(x), final(self)@ == (if old(self)@.contains(x) { old(self)@ } else { old(self)@.push(x) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vcontains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vis_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn viter<'a>(&'a self) -> (r: SeqIter<&'a T>) ensures r.rem() == refs::<T>(self@), r.rem().len() <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn get_index_of(&self, x: &T) -> (r: Option<usize>)
        ensures match r { Some(i) => i < self@.len() && self@[i as int] == *x, None => !self@.contains(*x) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_index<'a>(&'a self, i: usize) -> (r: Option<&'a T>)
        ensures match r { Some(x) => i < self@.len() && self@[i as int] == *x, None => i >= self@.len() }
    { unimplemented!() }
}
/// the elements of an insertion-ordered set are distinct
pub axiom fn index_set_distinct<T>(s: IndexSet<T>) ensures s@.no_duplicates(), s@.len() <= isize::MAX;
// ---- hashing: what is fed to the hasher, and a digest that is a function of it ----------------
#[verifier::external_body]
pub struct Word { x: u8 }
pub uninterp spec fn words_of<T>(x: T) -> Seq<Word>;
pub uninterp spec fn digest<H>(w: Seq<Word>) -> u64;
pub trait Hasher: Sized {
    spec fn fed(&self) -> Seq<Word>;
    fn finish(&self) -> (r: u64) ensures r == digest::<Self>(self.fed());
}
#[verifier::external_body]
pub struct DefaultHasher { x: u8 }
impl DefaultHasher {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.fed() == Seq::<Word>::empty() { unimplemented!() }
}
impl Hasher for DefaultHasher {
    uninterp spec fn fed(&self) -> Seq<Word>;
    #[verifier::external_body]
    fn finish(&self) -> (r: u64) { unimplemented!() }
}
/// derived `Hash`
pub trait VHash: Sized { fn hash<H: Hasher>(&self, h: &mut H) ensures final(h).fed() == old(h).fed() + words_of(*self); }
impl<T> VHash for T { #[verifier::external_body] fn hash<H: Hasher>(&self, h: &mut H) { unimplemented!() } }
// ---- values taken out by hand (core::mem::ManuallyDrop) ---------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ManuallyDrop<T> { x: std::marker::PhantomData<T> }
impl<T> ManuallyDrop<T> {
    pub uninterp spec fn view(&self) -> T;
    /// the value has not been taken out
    pub uninterp spec fn live(&self) -> bool;
    #[verifier::external_body]
    pub fn new(x: T) -> (r: Self) ensures r@ == x, r.live() { unimplemented!() }
    #[verifier::external_body]
    pub fn take(slot: &mut ManuallyDrop<T>) -> (r: T) requires old(slot).live() ensures r == old(slot)@ { unimplemented!() }
}
// ---- insertion-ordered maps (indexmap) --------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { x: std::marker::PhantomData<(K, V)> }
#[verifier::reject_recursive_types(K)]
pub struct IEntry<'a, K, V> { pub map: &'a mut IndexMap<K, V>, pub key: K }
impl<K, V> IndexMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    pub uninterp spec fn order(&self) -> Seq<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty(), r.order() == Seq::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), final(self).order() == (if old(self)@.contains_key(k) { old(self).order() } else { old(self).order().push(k) }),
           r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vget<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.order().len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: SeqIter<&'a K>) ensures r.rem() == refs::<K>(self.order()), r.rem().len() <= isize::MAX { unimplemented!() }
    pub fn entry<'a>(&'a mut self, k: K) -> (r: IEntry<'a, K, V>)
        ensures r.key == k, *r.map == *old(self), *final(r.map) == *final(self)
    { IEntry { map: self, key: k } }
}
impl<'a, K, V> IEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
       ensures final(self.map)@ == old(self.map)@.insert(self.key, *final(r)),
           final(self.map).order() == (if old(self.map)@.contains_key(self.key) { old(self.map).order() } else { old(self.map).order().push(self.key) }),
           *r == (if old(self.map)@.contains_key(self.key) { old(self.map)@[self.key] } else { v })
    { unimplemented!() }
}
/// the order of an insertion-ordered map lists its keys, each once
pub axiom fn index_map_order<K, V>(m: IndexMap<K, V>) ensures m.order().no_duplicates(), m.order().len() <= isize::MAX, forall|k: K| #[trigger] m@.contains_key(k) <==> m.order().contains(k);
impl<T> IndexSet<T> {
    #[verifier::external_body]
    pub fn vinto_iter<'a>(&'a self) -> (r: SeqIter<&'a T>) ensures r.rem() == refs::<T>(self@), r.rem().len() <= isize::MAX { unimplemented!() }
}
