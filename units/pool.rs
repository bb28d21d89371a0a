// ===================== term pools: hash consing (specification; not extracted) =====================
use std::cmp::Ordering;
use vstd::std_specs::cmp::*;
/// terms, compared by the derived (structural, one level deep) equality
#[verifier::external_body]
pub struct Term { x: u8 }
impl PartialEqSpecImpl for Term { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } }
impl PartialEq for Term {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl Eq for Term {}
/// what a value feeds to a hasher
pub enum VxFed { Addr(int), Value(Term) }
#[verifier::external_body]
pub struct VxHasher { x: u8 }
impl VxHasher { pub uninterp spec fn view(&self) -> Seq<VxFed>; }
impl Term {
    #[verifier::external_body]
    pub fn hash(&self, state: &mut VxHasher) ensures final(state)@ == old(state)@.push(VxFed::Value(*self)) { unimplemented!() }
}
pub mod sync {
    use super::*;
    /// std::sync::Arc: an address, and the immutable value stored there
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Arc<T> { x: std::sync::Arc<T> }
    impl<T> Arc<T> {
        pub uninterp spec fn addr(&self) -> int;
        pub uninterp spec fn view(&self) -> T;
        #[verifier::external_body]
        pub fn new(v: T) -> (r: Self) ensures r@ == v { unimplemented!() }
        #[verifier::external_body]
        pub fn ptr_eq(a: &Self, b: &Self) -> (r: bool) ensures r == (a.addr() == b.addr()) { unimplemented!() }
        #[verifier::external_body]
        pub fn as_ref(&self) -> (r: &T) ensures *r == self@ { unimplemented!() }
        #[verifier::external_body]
        pub fn as_ptr(a: &Self) -> (r: VxPtr) ensures r@ == a.addr() { unimplemented!() }
    }
    impl<T> Clone for Arc<T> {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
    impl<T> std::ops::Deref for Arc<T> {
        type Target = T;
        #[verifier::external_body]
        fn deref(&self) -> (r: &T) ensures *r == self@ { unimplemented!() }
    }
    /// two handles with the same address are the same object (and so have the same value)
    pub broadcast axiom fn same_addr<T>(a: Arc<T>, b: Arc<T>)
        ensures #![trigger a.addr(), b.addr()] a.addr() == b.addr() ==> a == b;
    #[verifier::external_body]
    pub struct VxPtr { x: u8 }
    impl VxPtr {
        pub uninterp spec fn view(&self) -> int;
        #[verifier::external_body]
        pub fn hash(&self, state: &mut VxHasher) ensures final(state)@ == old(state)@.push(VxFed::Addr(self@)) { unimplemented!() }
    }
}
pub use sync::Arc;
pub use sync::same_addr;
/// the newtype of ast/rc.rs
pub struct Rc<T>(pub Arc<T>);
impl<T> Clone for Rc<T> {
    fn clone(&self) -> (r: Self) ensures r == *self { Rc(self.0.clone()) }
}
impl<T> PartialEqSpecImpl for Rc<T> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } }
/// (proved on the real code: rc_eq)
impl<T> PartialEq for Rc<T> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl<T> Eq for Rc<T> {}
impl<T> Rc<T> {
    pub open spec fn view(&self) -> T { self.0@ }
}
/// indexmap::IndexSet<ByValue>, accessed by value (its contract needs ByValue's Eq, Hash and Borrow to go by value: byvalue_eq, byvalue_hash, byvalue_borrow)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct IndexSet<T> { v: Vec<T> }
impl IndexSet<ByValue> {
    pub uninterp spec fn view(&self) -> Seq<ByValue>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<ByValue>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, t: &Term) -> (r: Option<&ByValue>)
        ensures (match r { Some(e) => own(*self, *t) == Some(e.0), None => own(*self, *t) is None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, e: ByValue) -> (r: bool)
        ensures own(*old(self), e.0@) is None ==> forall|t: Term| #[trigger] own(*final(self), t) == (if t == e.0@ { Some(e.0) } else { own(*old(self), t) }),
            own(*old(self), e.0@) is Some ==> *final(self) == *old(self) { unimplemented!() }
}
/// the element of the set that holds the term
pub uninterp spec fn own(s: IndexSet<ByValue>, t: Term) -> Option<Rc<Term>>;
pub broadcast axiom fn own_value(s: IndexSet<ByValue>, t: Term)
    ensures #[trigger] own(s, t) is Some ==> own(s, t)->Some_0@ == t;
pub broadcast axiom fn own_empty(s: IndexSet<ByValue>, t: Term)
    ensures s@.len() == 0 ==> #[trigger] own(s, t) is None;
pub broadcast group pool { own_value, own_empty, same_addr }
/// the object that stands for a term in a storage, if there is one
pub open spec fn lk(s: Storage, t: Term) -> Option<Rc<Term>> {
    match s.1 {
        Some(p) => if own(p@.storage.0, t) is Some { own(p@.storage.0, t) } else { own(s.0, t) },
        None => own(s.0, t),
    }
}
/// the prior pool has no prior pool of its own
pub open spec fn wf(s: Storage) -> bool { s.1 matches Some(p) ==> p@.storage.1 is None }
/// nothing that was stored is lost or replaced
pub open spec fn grows(a: Storage, b: Storage) -> bool {
    a.1 == b.1 && forall|t: Term| #[trigger] lk(a, t) is Some ==> lk(b, t) == lk(a, t)
}
pub open spec fn empty_storage(s: Storage) -> bool { forall|t: Term| #[trigger] own(s.0, t) is None }
impl Default for Storage {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.1 is None, empty_storage(r) { unimplemented!() }
}
impl Default for PrimitivePool {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.storage.1 is None, empty_storage(r.storage) { unimplemented!() }
}
// --- a lock shared between threads ---
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RwLock<T> { x: std::sync::RwLock<T> }
/// the object that stands for a term in the pools this lock holds, now and at any later time. Each
/// critical section is proved to only add to the pool, so this is well defined.
pub uninterp spec fn obj(l: RwLock<PrimitivePool>, t: Term) -> Rc<Term>;
pub uninterp spec fn prior_of(l: RwLock<PrimitivePool>) -> Option<Arc<PrimitivePool>>;
pub open spec fn agrees(l: RwLock<PrimitivePool>, s: Storage) -> bool {
    s.1 == prior_of(l) && wf(s) && forall|t: Term| #[trigger] lk(s, t) is Some ==> lk(s, t) == Some(obj(l, t))
}
pub struct VxLockResult<T> { pub g: T }
impl<T> VxLockResult<T> {
    pub fn vx_unwrap(self) -> (r: T) ensures r == self.g { self.g }
}
pub struct VxReadGuard<'a> { pub p: &'a PrimitivePool }
impl<'a> std::ops::Deref for VxReadGuard<'a> {
    type Target = PrimitivePool;
    fn deref(&self) -> (r: &PrimitivePool) ensures *r == *self.p { self.p }
}
impl RwLock<PrimitivePool> {
    #[verifier::external_body]
    pub fn new(p: PrimitivePool) -> (r: Self) requires wf(p.storage) ensures agrees(r, p.storage) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self) -> (r: VxLockResult<VxReadGuard<'_>>) ensures agrees(*self, r.g.p.storage) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_acquire(&self) -> (r: PrimitivePool) ensures agrees(*self, r.storage) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_release(&self, p: PrimitivePool, Ghost(before): Ghost<PrimitivePool>)
        requires wf(p.storage), grows(before.storage, p.storage)
        ensures agrees(*self, p.storage) { unimplemented!() }
}
/// `lock.write().unwrap().add(term)`
pub fn vx_locked_add(l: &RwLock<PrimitivePool>, term: Term) -> (r: Rc<Term>)
    ensures r@ == term, r == obj(*l, term)
{
    let mut g = l.vx_acquire();
    let ghost g0 = g;
    let r = g.add(term);
    l.vx_release(g, Ghost(g0));
    r
}

/// the shared pool is built on top of the global one
pub open spec fn cp_ok(c: ContextPool) -> bool { prior_of(c.inner@) == Some(c.global_pool) && c.global_pool@.storage.1 is None }
/// the guarantee: whatever terms are added, in any order and from any of the threads that share the lock, a term
/// always gets the same object, different terms get different objects, and the terms of the global pool keep theirs
pub proof fn one_object(a: ContextPool, b: ContextPool, t: Term, u: Term, x: Rc<Term>, y: Rc<Term>)
    requires a.inner == b.inner, x == obj(a.inner@, t), y == obj(b.inner@, u), x@ == t, y@ == u
    ensures (x.0.addr() == y.0.addr()) == (t == u)
{ broadcast use pool; }
