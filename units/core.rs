// ===================== core prelude (specification; not extracted) =====================
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use std::cmp::Ordering;
global size_of usize == 8;
// --- dependency types, opaque with a mathematical view ---
#[verifier::external_body]
pub struct Integer { x: u8 }
impl Integer { pub uninterp spec fn view(&self) -> int; }
#[verifier::external_body]
pub struct Rational { x: u8 }
impl Rational { pub uninterp spec fn view(&self) -> real; }
#[verifier::external_body]
pub struct VxStr { x: u8 }
#[verifier::external_body]
pub struct VxBoxTerms { x: u8 }

// --- Rc: the newtype over Arc of /repo, with pointer equality identified with structural equality
//     (hash-consing; assumed here, see the trusted base) ---
pub struct Rc<T>(pub Arc<T>);
impl<T> Clone for Rc<T> {
    fn clone(&self) -> (r: Self) ensures r == *self { Rc(self.0.clone()) }
}
impl<T> std::ops::Deref for Rc<T> {
    type Target = T;
    fn deref(&self) -> (r: &T) ensures *r == *self.0 { &*self.0 }
}
impl<T> Rc<T> {
    pub fn as_ref(&self) -> (r: &T) ensures *r == *self.0 { &*self.0 }
}
impl Rc<Term> {
    pub fn as_term(&self) -> (r: &Term) ensures *r == *self.0 { &*self.0 }
}
impl Term {
    pub fn as_term(&self) -> (r: &Term) ensures r == self { self }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Rc<Term> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for Rc<Term> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl Eq for Rc<Term> {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Term {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for Term {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl Eq for Term {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Sort {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for Sort {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl Eq for Sort {}

impl PartialEqSpecImpl for BindingList {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for BindingList {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl Eq for BindingList {}
impl BindingList {
    pub fn len(&self) -> (r: usize) ensures r == self.0@.len() { self.0.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.0@.len() == 0) { self.0.len() == 0 }
}
impl PartialEqSpecImpl for Constant {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for Constant {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl Eq for Constant {}
// --- errors: payloads are dropped by the extraction ---
#[verifier::external_body]
pub struct CheckerError { x: u8 }
pub type RuleResult = Result<(), CheckerError>;
#[verifier::external_body]
pub fn vx_err<E>() -> E { unimplemented!() }
pub fn vx_res<T>(x: Result<T, CheckerError>) -> (r: Result<T, CheckerError>) ensures r == x { x }
pub fn vx_ok_or<T, E>(o: Option<T>) -> (r: Result<T, E>)
    ensures (match o { Some(x) => r == Ok::<T, E>(x), None => r is Err })
{ match o { Some(x) => Ok(x), None => Err(vx_err()) } }
pub fn vx_map_err<T, E, F>(o: Result<T, E>) -> (r: Result<T, F>)
    ensures (match o { Ok(x) => r == Ok::<T, F>(x), Err(_) => r is Err })
{ match o { Ok(x) => Ok(x), Err(_) => Err(vx_err()) } }
#[verifier::external_body]
pub fn vx_panic() -> ! { panic!() }

// --- slices ---
pub enum VxSl<'a, T> { S0, S1(&'a T), S2(&'a T, &'a T), S3(&'a T, &'a T, &'a T), S4(&'a T, &'a T, &'a T, &'a T), S5(&'a T, &'a T, &'a T, &'a T, &'a T), Many }
pub fn vx_slk<'a, T>(s: &'a [T]) -> (r: VxSl<'a, T>)
    ensures (match r {
        VxSl::S0 => s@.len() == 0,
        VxSl::S1(a) => s@.len() == 1 && *a == s@[0],
        VxSl::S2(a, b) => s@.len() == 2 && *a == s@[0] && *b == s@[1],
        VxSl::S3(a, b, c) => s@.len() == 3 && *a == s@[0] && *b == s@[1] && *c == s@[2],
        VxSl::S4(a, b, c, d) => s@.len() == 4 && *a == s@[0] && *b == s@[1] && *c == s@[2] && *d == s@[3],
        VxSl::S5(a, b, c, d, e) => s@.len() == 5 && *a == s@[0] && *b == s@[1] && *c == s@[2] && *d == s@[3] && *e == s@[4],
        VxSl::Many => s@.len() > 5,
    })
{
    if s.len() == 0 { VxSl::S0 }
    else if s.len() == 1 { VxSl::S1(&s[0]) }
    else if s.len() == 2 { VxSl::S2(&s[0], &s[1]) }
    else if s.len() == 3 { VxSl::S3(&s[0], &s[1], &s[2]) }
    else if s.len() == 4 { VxSl::S4(&s[0], &s[1], &s[2], &s[3]) }
    else if s.len() == 5 { VxSl::S5(&s[0], &s[1], &s[2], &s[3], &s[4]) }
    else { VxSl::Many }
}
pub fn vx_sub<'a, T>(s: &'a [T], a: usize, b: usize) -> (r: &'a [T])
    requires a <= b <= s@.len(),
    ensures r@ == s@.subrange(a as int, b as int)
{ vstd::slice::slice_subrange(s, a, b) }
/// `&s[a..]`: panics (diverges) past the end
pub fn vx_sub_from<'a, T>(s: &'a [T], a: usize) -> (r: &'a [T])
    ensures a <= s@.len(), r@ == s@.subrange(a as int, s@.len() as int)
{ if a > s.len() { vx_panic() } vstd::slice::slice_subrange(s, a, s.len()) }
pub fn vx_pre1<'a, T>(s: &'a [T]) -> (r: Option<(&'a T, &'a [T])>)
    ensures (match r { Some((a, t)) => s@.len() >= 1 && *a == s@[0] && t@ == s@.subrange(1, s@.len() as int), None => s@.len() == 0 })
{ if s.len() == 0 { None } else { Some((&s[0], vx_sub_from(s, 1))) } }
pub fn vx_suf1<'a, T>(s: &'a [T]) -> (r: Option<(&'a [T], &'a T)>)
    ensures (match r { Some((t, a)) => s@.len() >= 1 && *a == s@[s@.len() - 1] && t@ == s@.subrange(0, s@.len() - 1), None => s@.len() == 0 })
{ if s.len() == 0 { None } else { Some((vx_sub(s, 0, s.len() - 1), &s[s.len() - 1])) } }
pub trait VxSlice<T> {
    spec fn vx_view(&self) -> Seq<T>;
    fn vx_slice(&self) -> (r: &[T]) ensures r@ == self.vx_view();
}
impl<T> VxSlice<T> for Vec<T> {
    open spec fn vx_view(&self) -> Seq<T> { self@ }
    fn vx_slice(&self) -> (r: &[T]) { self.as_slice() }
}
impl<T> VxSlice<T> for [T] {
    open spec fn vx_view(&self) -> Seq<T> { self@ }
    fn vx_slice(&self) -> (r: &[T]) { self }
}
/// by-value iteration sources
pub trait VxInto: Sized {
    type Out;
    spec fn vx_into_spec(self) -> Self::Out;
    fn vx_into(self) -> (r: Self::Out) ensures r == self.vx_into_spec();
}
impl<'a, T> VxInto for &'a [T] {
    type Out = &'a [T];
    open spec fn vx_into_spec(self) -> &'a [T] { self }
    fn vx_into(self) -> &'a [T] { self }
}
impl<'a, T> VxInto for &'a Vec<T> {
    type Out = &'a Vec<T>;
    open spec fn vx_into_spec(self) -> &'a Vec<T> { self }
    fn vx_into(self) -> &'a Vec<T> { self }
}
pub struct VxOwned<T>(pub Vec<T>);
impl<T> VxInto for Vec<T> {
    type Out = VxOwned<T>;
    open spec fn vx_into_spec(self) -> VxOwned<T> { VxOwned(self) }
    fn vx_into(self) -> VxOwned<T> { VxOwned(self) }
}
impl<T> VxOwned<T> {
    pub fn len(&self) -> (r: usize) ensures r == self.0@.len() { self.0.len() }
    #[verifier::external_body]
    pub fn vx_get(&self, i: usize) -> (r: T) requires i < self.0@.len(), ensures r == self.0@[i as int] { unimplemented!() }
}
pub trait VxGet<T> {
    spec fn vx_gview(&self) -> Seq<T>;
    fn vx_get(&self, i: usize) -> (r: &T) requires i < self.vx_gview().len(), ensures *r == self.vx_gview()[i as int];
}
impl<T> VxGet<T> for [T] {
    open spec fn vx_gview(&self) -> Seq<T> { self@ }
    fn vx_get(&self, i: usize) -> &T { &self[i] }
}
impl<T> VxGet<T> for Vec<T> {
    open spec fn vx_gview(&self) -> Seq<T> { self@ }
    fn vx_get(&self, i: usize) -> &T { &self[i] }
}
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
/// lengths of two sequences in memory: their sum fits (assumed)
#[verifier::external_body]
pub fn vx_addlen(a: usize, b: usize) -> (r: usize) ensures r == a + b { a + b }
pub fn vx_sub0(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { 0int } else { a - b }) { if a <= b { 0 } else { a - b } }
#[verifier::external_body]
pub fn vx_own<T: Clone>(x: &T) -> (r: T) ensures r == *x { x.clone() }
#[verifier::external_body]
pub fn vx_vec_from<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { Vec::from(a) }
pub fn vx_eqv<T: PartialEqSpec>(a: &T, b: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == a.eq_spec(b)
{ *a == *b }
// --- ranges of allowed lengths ---
pub struct VxRangeFrom { pub start: usize }
pub struct VxRange { pub start: usize, pub end: usize }
pub struct VxRangeTo { pub end: usize }
pub trait VxIntoRange: Sized {
    spec fn rg(&self, n: usize) -> bool;
    fn vx_conv(self) -> (r: Range) ensures forall|n: usize| #[trigger] r.has(n) == self.rg(n);
}
impl Range { pub open spec fn has(&self, n: usize) -> bool {
    (match self.0 { Some(a) => n >= a, None => true }) && (match self.1 { Some(a) => n <= a, None => true }) } }
impl VxIntoRange for usize {
    open spec fn rg(&self, n: usize) -> bool { n == *self }
    fn vx_conv(self) -> Range { range_from_usize(self) }
}
impl VxIntoRange for VxRangeFrom {
    open spec fn rg(&self, n: usize) -> bool { n >= self.start }
    fn vx_conv(self) -> Range { range_from_rangefrom(self) }
}

/// `unwrap`/`expect`: a panic is modelled as divergence
pub trait VxUnwrap<T>: Sized { spec fn is_uw(self, r: T) -> bool; fn vx_unwrap(self) -> (r: T) ensures self.is_uw(r); }
impl<T> VxUnwrap<T> for Option<T> { open spec fn is_uw(self, r: T) -> bool { self == Some(r) }
    fn vx_unwrap(self) -> (r: T) { match self { Some(x) => x, None => vx_panic() } } }
impl<T, E> VxUnwrap<T> for Result<T, E> { open spec fn is_uw(self, r: T) -> bool { self == Ok::<T, E>(r) }
    fn vx_unwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => vx_panic() } } }

pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@;

pub fn vx_teq2<A: PartialEqSpec, B: PartialEqSpec>(a: (&A, &B), b: (&A, &B)) -> (r: bool)
    ensures A::obeys_eq_spec() && B::obeys_eq_spec() ==> r == (a.0.eq_spec(b.0) && a.1.eq_spec(b.1))
{ *a.0 == *b.0 && *a.1 == *b.1 }
#[verifier::external_body]
pub fn vx_sub_from_mut<'a, T>(s: &'a mut [T], a: usize) -> (r: &'a mut [T])
    requires a <= old(s)@.len(),
    ensures r@ == old(s)@.subrange(a as int, old(s)@.len() as int)
{ &mut s[a..] }
/// a peekable iterator over a slice
pub struct VxPeek<'a, T> { pub s: &'a [T], pub i: usize }
pub trait VxPeekable<T> { fn vx_peekable(&self) -> (r: VxPeek<T>) ensures r.s@ == self.vx_pview(), r.i == 0; spec fn vx_pview(&self) -> Seq<T>; }
impl<T> VxPeekable<T> for [T] {
    open spec fn vx_pview(&self) -> Seq<T> { self@ }
    fn vx_peekable(&self) -> VxPeek<T> { VxPeek { s: self, i: 0 } }
}
impl<'a, T> VxPeek<'a, T> {
    pub fn peek(&self) -> (r: Option<&'a T>)
        ensures (match r { Some(x) => self.i < self.s@.len() && *x == self.s@[self.i as int], None => self.i >= self.s@.len() })
    { if self.i < self.s.len() { Some(&self.s[self.i]) } else { None } }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures final(self).s == old(self).s,
            (match r { Some(x) => old(self).i < old(self).s@.len() && *x == old(self).s@[old(self).i as int] && final(self).i == old(self).i + 1, None => old(self).i >= old(self).s@.len() && final(self).i == old(self).i })
    { if self.i < self.s.len() { let k = self.i; self.i = k + 1; Some(&self.s[k]) } else { None } }
}

pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    ensures a < old(s)@.len() && b < old(s)@.len() && final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);

/// integer ranges
pub trait VxIdx: Sized {
    spec fn ix(self) -> int;
    spec fn ix_max() -> int;
    /// the length of a range, assumed to fit in a usize
    fn vx_rlen_(a: Self, b: Self) -> (r: usize) ensures r == (if a.ix() < b.ix() { b.ix() - a.ix() } else { 0 });
    fn vx_rleni_(a: Self, b: Self) -> (r: usize) ensures r == (if a.ix() <= b.ix() { b.ix() - a.ix() + 1 } else { 0 });
    fn vx_rat_(a: Self, i: usize) -> (r: Self) requires a.ix() + i <= Self::ix_max(), ensures r.ix() == a.ix() + i;
}
macro_rules! vx_idx { ($t:ident) => { verus! {
impl VxIdx for $t {
    open spec fn ix(self) -> int { self as int }
    open spec fn ix_max() -> int { $t::MAX as int }
    #[verifier::external_body]
    fn vx_rlen_(a: Self, b: Self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_rleni_(a: Self, b: Self) -> (r: usize) { unimplemented!() }
    fn vx_rat_(a: Self, i: usize) -> (r: Self) { assert(i <= $t::MAX - a); a + i as $t }
}
} } }
vx_idx!(usize);
vx_idx!(u32);
vx_idx!(u64);
pub fn vx_rlen<T: VxIdx>(a: T, b: T) -> (r: usize) ensures r == (if a.ix() < b.ix() { b.ix() - a.ix() } else { 0 }) { T::vx_rlen_(a, b) }
pub fn vx_rleni<T: VxIdx>(a: T, b: T) -> (r: usize) ensures r == (if a.ix() <= b.ix() { b.ix() - a.ix() + 1 } else { 0 }) { T::vx_rleni_(a, b) }
pub fn vx_rat<T: VxIdx>(a: T, i: usize) -> (r: T) requires a.ix() + i <= T::ix_max(), ensures r.ix() == a.ix() + i { T::vx_rat_(a, i) }

/// slices in memory have fewer than 2^48 elements (assumed)
#[verifier::external_body]
pub proof fn mem_bound<T>(s: &[T]) ensures s@.len() < 0x1_0000_0000_0000 {}

/// conversion of a length to a narrower type
#[verifier::external_body]
pub fn vx_try_conv(a: usize) -> (r: Option<u32>) ensures (match r { Some(x) => x as int == a as int, None => a > u32::MAX }) { unimplemented!() }
impl Clone for Sort {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// indexing that diverges (panics) out of range
pub trait VxAt<T> {
    spec fn vx_aview(&self) -> Seq<T>;
    fn vx_at(&self, i: usize) -> (r: &T) ensures i < self.vx_aview().len() <= usize::MAX, *r == self.vx_aview()[i as int];
}
impl<T> VxAt<T> for Vec<T> {
    open spec fn vx_aview(&self) -> Seq<T> { self@ }
    fn vx_at(&self, i: usize) -> &T { if i < self.len() { &self[i] } else { vx_panic() } }
}
impl<T> VxAt<T> for [T] {
    open spec fn vx_aview(&self) -> Seq<T> { self@ }
    fn vx_at(&self, i: usize) -> &T { if i < self.len() { &self[i] } else { vx_panic() } }
}
pub fn vx_set_at<T>(v: &mut Vec<T>, i: usize, x: T)
    ensures i < old(v)@.len(), final(v)@ == old(v)@.update(i as int, x)
{ if i < v.len() { v.set(i, x); } else { vx_panic() } }
#[verifier::external_body]
pub fn vx_push_at<T>(v: &mut Vec<Vec<T>>, i: usize, x: T)
    ensures i < old(v)@.len(), final(v)@.len() == old(v)@.len(), final(v)@[i as int]@ == old(v)@[i as int]@.push(x),
        forall|j: int| 0 <= j < old(v)@.len() && j != i ==> #[trigger] final(v)@[j] == old(v)@[j]
{ v[i].push(x); }
#[verifier::external_body]
pub fn vx_mut_at<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    ensures i < old(v)@.len(), *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r))
{ &mut v[i] }
pub fn vx_inc_by(x: &mut usize, n: usize) ensures *final(x) == *old(x) + n { if *x > usize::MAX - n { vx_panic() } *x = *x + n; }
pub fn vx_dec_by(x: &mut usize, n: usize) ensures *final(x) == *old(x) - n { if *x < n { vx_panic() } *x = *x - n; }
/// `n - 1` on sizes; underflow is modelled as divergence
pub fn vx_dec(n: usize) -> (r: usize) ensures r == n - 1 { if n == 0 { vx_panic() } else { n - 1 } }
pub trait VxExtend<T> { spec fn vx_ev(&self) -> Seq<T>; fn vx_extend(&mut self, v: Vec<T>) ensures final(self).vx_ev() == old(self).vx_ev() + v@; }
impl<T> VxExtend<T> for Vec<T> {
    open spec fn vx_ev(&self) -> Seq<T> { self@ }
    fn vx_extend(&mut self, v: Vec<T>) { let mut v = v; self.append(&mut v); }
}
#[verifier::external_body]
pub fn from_ref<'a, T>(x: &'a T) -> (r: &'a [T]) ensures r@.len() == 1, r@[0] == *x { std::slice::from_ref(x) }
#[verifier::external_body]
pub fn vx_empty_slice<'a, T>() -> (r: &'a [T]) ensures r@.len() == 0 { &[] }
