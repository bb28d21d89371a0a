pub mod coll {
use super::*;
// ===================== hash collections (indexmap), by contract =====================
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct IndexSet<T> { v: Vec<T> }
impl<T> IndexSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    /// the elements in insertion order
    pub uninterp spec fn seq(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap_remove(&mut self, x: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*x), r == old(self)@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.seq().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.seq().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn difference<'a>(&'a self, o: &'a IndexSet<T>) -> (r: VxDiff<'a, T>) ensures r.a == self@, r.b == o@ { unimplemented!() }
}
impl<'a, T> VxInto for &'a IndexSet<T> {
    type Out = &'a IndexSet<T>;
    open spec fn vx_into_spec(self) -> &'a IndexSet<T> { self }
    fn vx_into(self) -> &'a IndexSet<T> { self }
}
impl<T> VxGet<T> for IndexSet<T> {
    open spec fn vx_gview(&self) -> Seq<T> { self.seq() }
    #[verifier::external_body]
    fn vx_get(&self, i: usize) -> &T { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_contains_ref<T>(s: &IndexSet<&T>, x: &T) -> (r: bool) ensures r == s@.contains(x) { unimplemented!() }
/// the ordered elements are exactly the set
pub broadcast axiom fn iset_seq<T>(s: IndexSet<T>, x: T)
    ensures #![trigger s@.contains(x)] s@.contains(x) == s.seq().contains(x);
#[verifier::accept_recursive_types(T)]
pub struct VxDiff<'a, T> { pub ghost a: Set<T>, pub ghost b: Set<T>, pub x: &'a u8 }
impl<'a, T> VxDiff<'a, T> {
    /// the first call: an element of the difference, if there is one
    #[verifier::external_body]
    pub fn next(self) -> (r: Option<&'a T>)
        ensures (match r { Some(x) => self.a.contains(*x) && !self.b.contains(*x), None => forall|x: T| #[trigger] self.a.contains(x) ==> self.b.contains(x) }) { unimplemented!() }
}
impl<T> VxSlice<T> for IndexSet<T> {
    open spec fn vx_view(&self) -> Seq<T> { self.seq() }
    #[verifier::external_body]
    fn vx_slice(&self) -> (r: &[T]) { unimplemented!() }
}
pub uninterp spec fn iset_owned<T>(s: IndexSet<T>) -> VxOwned<T>;
pub broadcast axiom fn iset_owned_seq<T>(s: IndexSet<T>)
    ensures #![trigger iset_owned(s)] iset_owned(s).0@ == s.seq();
impl<T> VxInto for IndexSet<T> {
    type Out = VxOwned<T>;
    open spec fn vx_into_spec(self) -> VxOwned<T> { iset_owned(self) }
    #[verifier::external_body]
    fn vx_into(self) -> VxOwned<T> { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { v: Vec<(K, V)> }
impl<K, V> IndexMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    pub uninterp spec fn seq(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty(), r.seq().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), (match r { Some(x) => old(self)@.contains_pair(k, x), None => !old(self)@.dom().contains(k) }) { unimplemented!() }
    /// writes through an entry; the old value is not used
    #[verifier::external_body]
    pub fn vx_put(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    /// reads through an entry
    #[verifier::external_body]
    pub fn vx_at(&self, k: &K) -> (r: &V) requires self@.dom().contains(*k), ensures *r == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_at_mut(&mut self, k: &K) -> (r: &mut V) requires old(self)@.dom().contains(*k), ensures *r == old(self)@[*k], final(self)@ == old(self)@.insert(*k, *final(r)) { unimplemented!() }
    /// the i-th value, by mutable reference: the keys and their order do not change
    #[verifier::external_body]
    pub fn vx_value_mut(&mut self, i: usize) -> (r: &mut V) requires i < old(self).seq().len(), ensures *r == old(self).seq()[i as int].1, final(self).seq() == old(self).seq().update(i as int, (old(self).seq()[i as int].0, *final(r))) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty(), final(self).seq().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures (match r { Some(x) => self@.contains_pair(*k, *x), None => !self@.dom().contains(*k) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap_remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), (match r { Some(x) => old(self)@.contains_pair(*k, x), None => !old(self)@.dom().contains(*k) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.seq().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.seq().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: Vec<&'a K>) ensures r@.len() == self.seq().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.seq()[i].0 { unimplemented!() }
}
/// each key occurs once
#[verifier::external_body]
pub proof fn imap_distinct<K, V>(s: IndexMap<K, V>)
    ensures forall|i: int, j: int| #![trigger s.seq()[i], s.seq()[j]] 0 <= i < j < s.seq().len() ==> s.seq()[i].0 != s.seq()[j].0 {}
impl<K: Clone, V: Clone> Clone for IndexMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub broadcast axiom fn imap_seq<K, V>(s: IndexMap<K, V>, i: int)
    ensures #![trigger s.seq()[i]] 0 <= i < s.seq().len() ==> s@.contains_pair(s.seq()[i].0, s.seq()[i].1);
pub broadcast axiom fn imap_key<K, V>(s: IndexMap<K, V>, k: K)
    ensures #![trigger s@.dom().contains(k)] s@.dom().contains(k) ==> s.seq().contains((k, s@[k]));
impl<K, V> VxSlice<(K, V)> for IndexMap<K, V> {
    open spec fn vx_view(&self) -> Seq<(K, V)> { self.seq() }
    #[verifier::external_body]
    fn vx_slice(&self) -> (r: &[(K, V)]) { unimplemented!() }
}
pub uninterp spec fn imap_owned<K, V>(s: IndexMap<K, V>) -> VxOwned<(K, V)>;
pub broadcast axiom fn imap_owned_seq<K, V>(s: IndexMap<K, V>)
    ensures #![trigger imap_owned(s)] imap_owned(s).0@ == s.seq();
impl<K, V> VxInto for IndexMap<K, V> {
    type Out = VxOwned<(K, V)>;
    open spec fn vx_into_spec(self) -> VxOwned<(K, V)> { imap_owned(self) }
    #[verifier::external_body]
    fn vx_into(self) -> VxOwned<(K, V)> { unimplemented!() }
}
pub uninterp spec fn imap_ref<'a, K, V>(s: &'a IndexMap<K, V>) -> &'a [(K, V)];
pub broadcast axiom fn imap_ref_seq<'a, K, V>(s: &'a IndexMap<K, V>)
    ensures #![trigger imap_ref(s)] imap_ref(s)@ == s.seq();
impl<'a, K, V> VxInto for &'a IndexMap<K, V> {
    type Out = &'a [(K, V)];
    open spec fn vx_into_spec(self) -> &'a [(K, V)] { imap_ref(self) }
    #[verifier::external_body]
    fn vx_into(self) -> &'a [(K, V)] { unimplemented!() }
}
/// multisets: a map to counts
pub struct MultiSet<T>(pub IndexMap<T, usize>);
impl<T> MultiSet<T> {
    pub open spec fn count(&self, x: T) -> nat { if self.0@.dom().contains(x) { self.0@[x] as nat } else { 0 } }
    pub fn new() -> (r: Self) ensures r.0@ == Map::<T, usize>::empty() { MultiSet(IndexMap::new()) }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: usize)
        ensures final(self).0@ == old(self).0@.insert(x, (old(self).count(x) + 1) as usize), final(self).count(x) == old(self).count(x) + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, x: &T) -> (r: usize) ensures r == self.count(*x) { unimplemented!() }
}
/// the bound `Hash` of the source (hashing itself is inside the assumed contracts of the collections)
pub trait Hash {}
impl<T> Hash for T {}
/// an iterator kept in a variable: a cursor over its elements
pub struct VxCursor<T> { pub v: VxOwned<T>, pub i: usize }
pub fn vx_cursor<T>(v: Vec<T>) -> (r: VxCursor<T>) ensures r.v.0@ == v@, r.i == 0 { VxCursor { v: VxOwned(v), i: 0 } }
impl<T> VxCursor<T> {
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).v == old(self).v,
            (match r { Some(x) => old(self).i < old(self).v.0@.len() && x == old(self).v.0@[old(self).i as int] && final(self).i == old(self).i + 1,
                None => old(self).i >= old(self).v.0@.len() && final(self).i == old(self).i })
    { if self.i < self.v.len() { let k = self.i; self.i = k + 1; Some(self.v.vx_get(k)) } else { None } }
}
pub open spec fn chunks_spec(n: int, k: int) -> int { if k <= 0 { 0 } else { (n + k - 1) / k } }
#[verifier::external_body]
pub fn vx_chunks(n: usize, k: usize) -> (r: usize) requires k > 0, ensures r == chunks_spec(n as int, k as int), r <= n { unimplemented!() }
#[verifier::external_body]
pub fn vx_chunk<'a, T>(s: &'a [T], i: usize, k: usize) -> (r: &'a [T])
    requires k > 0, i < chunks_spec(s@.len() as int, k as int),
    ensures i * k < s@.len(), r@ == s@.subrange(i * k, if (i + 1) * k <= s@.len() { (i + 1) * k } else { s@.len() as int }) { unimplemented!() }
pub broadcast group coll { iset_seq, iset_owned_seq, imap_seq, imap_key, imap_owned_seq, imap_ref_seq }
} // mod coll
pub use coll::*;
