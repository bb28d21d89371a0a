// generated by gen_num.py: assumed contracts of rug::Integer / rug::Rational
pub open spec fn rcmp(a: real, b: real) -> Option<Ordering> { if a < b { Some(Ordering::Less) } else if a > b { Some(Ordering::Greater) } else { Some(Ordering::Equal) } }
pub open spec fn icmp(a: int, b: int) -> Option<Ordering> { if a < b { Some(Ordering::Less) } else if a > b { Some(Ordering::Greater) } else { Some(Ordering::Equal) } }
pub trait IntLike { spec fn iv(&self) -> int; }
pub trait RatLike { spec fn rv(&self) -> real; }
/// mathematical floor / Euclidean operations
pub open spec fn trunc_div(a: int, b: int) -> int { if b == 0 { 0 } else if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn is_int(r: real) -> bool { exists|i: int| #[trigger] i2r(i) == r }
pub open spec fn i2r(i: int) -> real { i as real }

impl IntLike for i32 { open spec fn iv(&self) -> int { *self as int } }
impl RatLike for i32 { open spec fn rv(&self) -> real { (*self as int) as real } }
impl IntLike for i64 { open spec fn iv(&self) -> int { *self as int } }
impl RatLike for i64 { open spec fn rv(&self) -> real { (*self as int) as real } }
impl IntLike for u32 { open spec fn iv(&self) -> int { *self as int } }
impl RatLike for u32 { open spec fn rv(&self) -> real { (*self as int) as real } }
impl IntLike for u64 { open spec fn iv(&self) -> int { *self as int } }
impl RatLike for u64 { open spec fn rv(&self) -> real { (*self as int) as real } }
impl IntLike for usize { open spec fn iv(&self) -> int { *self as int } }
impl RatLike for usize { open spec fn rv(&self) -> real { (*self as int) as real } }
impl IntLike for u8 { open spec fn iv(&self) -> int { *self as int } }
impl RatLike for u8 { open spec fn rv(&self) -> real { (*self as int) as real } }
impl IntLike for Integer { open spec fn iv(&self) -> int { self@ } }
impl RatLike for Integer { open spec fn rv(&self) -> real { self@ as real } }
impl<'a> IntLike for &'a Integer { open spec fn iv(&self) -> int { self@ } }
impl<'a> RatLike for &'a Integer { open spec fn rv(&self) -> real { self@ as real } }
impl RatLike for Rational { open spec fn rv(&self) -> real { self@ } }
impl<'a> RatLike for &'a Rational { open spec fn rv(&self) -> real { self@ } }
impl<T: IntLike> std::ops::Add<T> for Integer { type Output = Integer;
 #[verifier::external_body] fn add(self, o: T) -> (r: Integer) ensures r@ == self@ + o.iv() { unimplemented!() } }
impl<T: IntLike> AddSpecImpl<T> for Integer { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: T) -> bool { true } uninterp spec fn add_spec(self, o: T) -> Integer; }
impl<'a, T: IntLike> std::ops::Add<T> for &'a Integer { type Output = Integer;
 #[verifier::external_body] fn add(self, o: T) -> (r: Integer) ensures r@ == (*self)@ + o.iv() { unimplemented!() } }
impl<'a, T: IntLike> AddSpecImpl<T> for &'a Integer { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: T) -> bool { true } uninterp spec fn add_spec(self, o: T) -> Integer; }
impl<T: IntLike> std::ops::AddAssign<T> for Integer {
 #[verifier::external_body] fn add_assign(&mut self, o: T) ensures final(self)@ == old(self)@ + o.iv() { unimplemented!() } }
impl<T: IntLike> AddAssignSpecImpl<T> for Integer { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: T) -> bool { true } uninterp spec fn add_assign_spec(&self, o: T) -> &Integer; }
impl<T: IntLike> std::ops::Sub<T> for Integer { type Output = Integer;
 #[verifier::external_body] fn sub(self, o: T) -> (r: Integer) ensures r@ == self@ - o.iv() { unimplemented!() } }
impl<T: IntLike> SubSpecImpl<T> for Integer { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: T) -> bool { true } uninterp spec fn sub_spec(self, o: T) -> Integer; }
impl<'a, T: IntLike> std::ops::Sub<T> for &'a Integer { type Output = Integer;
 #[verifier::external_body] fn sub(self, o: T) -> (r: Integer) ensures r@ == (*self)@ - o.iv() { unimplemented!() } }
impl<'a, T: IntLike> SubSpecImpl<T> for &'a Integer { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: T) -> bool { true } uninterp spec fn sub_spec(self, o: T) -> Integer; }
impl<T: IntLike> std::ops::SubAssign<T> for Integer {
 #[verifier::external_body] fn sub_assign(&mut self, o: T) ensures final(self)@ == old(self)@ - o.iv() { unimplemented!() } }
impl<T: IntLike> SubAssignSpecImpl<T> for Integer { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: T) -> bool { true } uninterp spec fn sub_assign_spec(&self, o: T) -> &Integer; }
impl<T: IntLike> std::ops::Mul<T> for Integer { type Output = Integer;
 #[verifier::external_body] fn mul(self, o: T) -> (r: Integer) ensures r@ == self@ * o.iv() { unimplemented!() } }
impl<T: IntLike> MulSpecImpl<T> for Integer { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: T) -> bool { true } uninterp spec fn mul_spec(self, o: T) -> Integer; }
impl<'a, T: IntLike> std::ops::Mul<T> for &'a Integer { type Output = Integer;
 #[verifier::external_body] fn mul(self, o: T) -> (r: Integer) ensures r@ == (*self)@ * o.iv() { unimplemented!() } }
impl<'a, T: IntLike> MulSpecImpl<T> for &'a Integer { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: T) -> bool { true } uninterp spec fn mul_spec(self, o: T) -> Integer; }
impl<T: IntLike> std::ops::MulAssign<T> for Integer {
 #[verifier::external_body] fn mul_assign(&mut self, o: T) ensures final(self)@ == old(self)@ * o.iv() { unimplemented!() } }
impl<T: IntLike> MulAssignSpecImpl<T> for Integer { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: T) -> bool { true } uninterp spec fn mul_assign_spec(&self, o: T) -> &Integer; }
impl<T: IntLike> std::ops::Div<T> for Integer { type Output = Integer;
 #[verifier::external_body] fn div(self, o: T) -> (r: Integer) ensures o.iv() != 0 && r@ == trunc_div(self@, o.iv()) { unimplemented!() } }
impl<T: IntLike> DivSpecImpl<T> for Integer { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: T) -> bool { true } uninterp spec fn div_spec(self, o: T) -> Integer; }
impl<'a, T: IntLike> std::ops::Div<T> for &'a Integer { type Output = Integer;
 #[verifier::external_body] fn div(self, o: T) -> (r: Integer) ensures o.iv() != 0 && r@ == trunc_div((*self)@, o.iv()) { unimplemented!() } }
impl<'a, T: IntLike> DivSpecImpl<T> for &'a Integer { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: T) -> bool { true } uninterp spec fn div_spec(self, o: T) -> Integer; }
impl<T: IntLike> std::ops::DivAssign<T> for Integer {
 #[verifier::external_body] fn div_assign(&mut self, o: T) ensures o.iv() != 0 && final(self)@ == trunc_div(old(self)@, o.iv()) { unimplemented!() } }
impl<T: IntLike> DivAssignSpecImpl<T> for Integer { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, o: T) -> bool { true } uninterp spec fn div_assign_spec(&self, o: T) -> &Integer; }
impl<T: IntLike> std::ops::Rem<T> for Integer { type Output = Integer;
 #[verifier::external_body] fn rem(self, o: T) -> (r: Integer) ensures o.iv() != 0 && r@ == self@ - o.iv() * trunc_div(self@, o.iv()) { unimplemented!() } }
impl<T: IntLike> RemSpecImpl<T> for Integer { open spec fn obeys_rem_spec() -> bool { false } open spec fn rem_req(self, o: T) -> bool { true } uninterp spec fn rem_spec(self, o: T) -> Integer; }
impl<'a, T: IntLike> std::ops::Rem<T> for &'a Integer { type Output = Integer;
 #[verifier::external_body] fn rem(self, o: T) -> (r: Integer) ensures o.iv() != 0 && r@ == (*self)@ - o.iv() * trunc_div((*self)@, o.iv()) { unimplemented!() } }
impl<'a, T: IntLike> RemSpecImpl<T> for &'a Integer { open spec fn obeys_rem_spec() -> bool { false } open spec fn rem_req(self, o: T) -> bool { true } uninterp spec fn rem_spec(self, o: T) -> Integer; }
impl<T: IntLike> std::ops::RemAssign<T> for Integer {
 #[verifier::external_body] fn rem_assign(&mut self, o: T) ensures o.iv() != 0 && final(self)@ == old(self)@ - o.iv() * trunc_div(old(self)@, o.iv()) { unimplemented!() } }
impl<T: IntLike> RemAssignSpecImpl<T> for Integer { open spec fn obeys_rem_assign_spec() -> bool { false } open spec fn rem_assign_req(&self, o: T) -> bool { true } uninterp spec fn rem_assign_spec(&self, o: T) -> &Integer; }
impl std::ops::Shl<usize> for Integer { type Output = Integer;
 #[verifier::external_body] fn shl(self, o: usize) -> (r: Integer) ensures r@ == self@ * p2(o as int), self@ == 1 ==> r@ == p2(o as int) { unimplemented!() } }
impl ShlSpecImpl<usize> for Integer { open spec fn obeys_shl_spec() -> bool { false } open spec fn shl_req(self, o: usize) -> bool { true } uninterp spec fn shl_spec(self, o: usize) -> Integer; }
impl<'a> std::ops::Shl<usize> for &'a Integer { type Output = Integer;
 #[verifier::external_body] fn shl(self, o: usize) -> (r: Integer) ensures r@ == (*self)@ * p2(o as int), (*self)@ == 1 ==> r@ == p2(o as int) { unimplemented!() } }
impl<'a> ShlSpecImpl<usize> for &'a Integer { open spec fn obeys_shl_spec() -> bool { false } open spec fn shl_req(self, o: usize) -> bool { true } uninterp spec fn shl_spec(self, o: usize) -> Integer; }
impl<T: RatLike> std::ops::Add<T> for Rational { type Output = Rational;
 #[verifier::external_body] fn add(self, o: T) -> (r: Rational) ensures r@ == self@ + o.rv() { unimplemented!() } }
impl<T: RatLike> AddSpecImpl<T> for Rational { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: T) -> bool { true } uninterp spec fn add_spec(self, o: T) -> Rational; }
impl<'a, T: RatLike> std::ops::Add<T> for &'a Rational { type Output = Rational;
 #[verifier::external_body] fn add(self, o: T) -> (r: Rational) ensures r@ == (*self)@ + o.rv() { unimplemented!() } }
impl<'a, T: RatLike> AddSpecImpl<T> for &'a Rational { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: T) -> bool { true } uninterp spec fn add_spec(self, o: T) -> Rational; }
impl<T: RatLike> std::ops::AddAssign<T> for Rational {
 #[verifier::external_body] fn add_assign(&mut self, o: T) ensures final(self)@ == old(self)@ + o.rv() { unimplemented!() } }
impl<T: RatLike> AddAssignSpecImpl<T> for Rational { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: T) -> bool { true } uninterp spec fn add_assign_spec(&self, o: T) -> &Rational; }
impl<T: RatLike> std::ops::Sub<T> for Rational { type Output = Rational;
 #[verifier::external_body] fn sub(self, o: T) -> (r: Rational) ensures r@ == self@ - o.rv() { unimplemented!() } }
impl<T: RatLike> SubSpecImpl<T> for Rational { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: T) -> bool { true } uninterp spec fn sub_spec(self, o: T) -> Rational; }
impl<'a, T: RatLike> std::ops::Sub<T> for &'a Rational { type Output = Rational;
 #[verifier::external_body] fn sub(self, o: T) -> (r: Rational) ensures r@ == (*self)@ - o.rv() { unimplemented!() } }
impl<'a, T: RatLike> SubSpecImpl<T> for &'a Rational { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: T) -> bool { true } uninterp spec fn sub_spec(self, o: T) -> Rational; }
impl<T: RatLike> std::ops::SubAssign<T> for Rational {
 #[verifier::external_body] fn sub_assign(&mut self, o: T) ensures final(self)@ == old(self)@ - o.rv() { unimplemented!() } }
impl<T: RatLike> SubAssignSpecImpl<T> for Rational { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: T) -> bool { true } uninterp spec fn sub_assign_spec(&self, o: T) -> &Rational; }
impl<T: RatLike> std::ops::Mul<T> for Rational { type Output = Rational;
 #[verifier::external_body] fn mul(self, o: T) -> (r: Rational) ensures r@ == self@ * o.rv() { unimplemented!() } }
impl<T: RatLike> MulSpecImpl<T> for Rational { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: T) -> bool { true } uninterp spec fn mul_spec(self, o: T) -> Rational; }
impl<'a, T: RatLike> std::ops::Mul<T> for &'a Rational { type Output = Rational;
 #[verifier::external_body] fn mul(self, o: T) -> (r: Rational) ensures r@ == (*self)@ * o.rv() { unimplemented!() } }
impl<'a, T: RatLike> MulSpecImpl<T> for &'a Rational { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: T) -> bool { true } uninterp spec fn mul_spec(self, o: T) -> Rational; }
impl<T: RatLike> std::ops::MulAssign<T> for Rational {
 #[verifier::external_body] fn mul_assign(&mut self, o: T) ensures final(self)@ == old(self)@ * o.rv() { unimplemented!() } }
impl<T: RatLike> MulAssignSpecImpl<T> for Rational { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: T) -> bool { true } uninterp spec fn mul_assign_spec(&self, o: T) -> &Rational; }
impl<T: RatLike> std::ops::Div<T> for Rational { type Output = Rational;
 #[verifier::external_body] fn div(self, o: T) -> (r: Rational) ensures o.rv() != 0real && r@ == self@ / o.rv() { unimplemented!() } }
impl<T: RatLike> DivSpecImpl<T> for Rational { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: T) -> bool { true } uninterp spec fn div_spec(self, o: T) -> Rational; }
impl<'a, T: RatLike> std::ops::Div<T> for &'a Rational { type Output = Rational;
 #[verifier::external_body] fn div(self, o: T) -> (r: Rational) ensures o.rv() != 0real && r@ == (*self)@ / o.rv() { unimplemented!() } }
impl<'a, T: RatLike> DivSpecImpl<T> for &'a Rational { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: T) -> bool { true } uninterp spec fn div_spec(self, o: T) -> Rational; }
impl<T: RatLike> std::ops::DivAssign<T> for Rational {
 #[verifier::external_body] fn div_assign(&mut self, o: T) ensures o.rv() != 0real && final(self)@ == old(self)@ / o.rv() { unimplemented!() } }
impl<T: RatLike> DivAssignSpecImpl<T> for Rational { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, o: T) -> bool { true } uninterp spec fn div_assign_spec(&self, o: T) -> &Rational; }
impl std::ops::Neg for Integer { type Output = Integer; #[verifier::external_body] fn neg(self) -> (r: Integer) ensures r@ == -self@ { unimplemented!() } }
impl NegSpecImpl for Integer { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } uninterp spec fn neg_spec(self) -> Integer; }
impl<T: IntLike> PartialEqSpecImpl<T> for Integer { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &T) -> bool { self@ == o.iv() } }
impl<T: IntLike> PartialEq<T> for Integer { #[verifier::external_body] fn eq(&self, o: &T) -> bool { unimplemented!() } }
impl<T: IntLike> PartialOrdSpecImpl<T> for Integer { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &T) -> Option<Ordering> { icmp(self@, o.iv()) } }
impl<T: IntLike> PartialOrd<T> for Integer { #[verifier::external_body] fn partial_cmp(&self, o: &T) -> Option<Ordering> { unimplemented!() } }
impl Clone for Integer { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl std::ops::Neg for Rational { type Output = Rational; #[verifier::external_body] fn neg(self) -> (r: Rational) ensures r@ == -self@ { unimplemented!() } }
impl NegSpecImpl for Rational { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } uninterp spec fn neg_spec(self) -> Rational; }
impl<T: RatLike> PartialEqSpecImpl<T> for Rational { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &T) -> bool { self@ == o.rv() } }
impl<T: RatLike> PartialEq<T> for Rational { #[verifier::external_body] fn eq(&self, o: &T) -> bool { unimplemented!() } }
impl<T: RatLike> PartialOrdSpecImpl<T> for Rational { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &T) -> Option<Ordering> { rcmp(self@, o.rv()) } }
impl<T: RatLike> PartialOrd<T> for Rational { #[verifier::external_body] fn partial_cmp(&self, o: &T) -> Option<Ordering> { unimplemented!() } }
impl Clone for Rational { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub trait VxConv<T>: Sized {
    spec fn conv_ok(self, r: T) -> bool;
    fn vx_conv(self) -> (r: T) ensures self.conv_ok(r);
}
impl<T> VxConv<T> for T {
    open spec fn conv_ok(self, r: T) -> bool { r == self }
    fn vx_conv(self) -> T { self }
}
impl VxConv<Rational> for Integer {
    open spec fn conv_ok(self, r: Rational) -> bool { r@ == self@ as real }
    #[verifier::external_body] fn vx_conv(self) -> Rational { unimplemented!() }
}
impl VxConv<Integer> for usize {
    open spec fn conv_ok(self, r: Integer) -> bool { r@ == self as int }
    #[verifier::external_body] fn vx_conv(self) -> Integer { unimplemented!() }
}
impl Integer {
    #[verifier::external_body] pub fn to_i32_wrapping(&self) -> (r: i32) ensures (r as int - self@) % 4294967296 == 0 { unimplemented!() }
}
impl VxConv<Integer> for i32 {
    open spec fn conv_ok(self, r: Integer) -> bool { r@ == self as int }
    #[verifier::external_body] fn vx_conv(self) -> Integer { unimplemented!() }
}
impl Integer {
    #[verifier::external_body] pub fn from<T: IntLike>(x: T) -> (r: Integer) ensures r@ == x.iv() { unimplemented!() }
    #[verifier::external_body] pub fn i_pow_u(b: i32, e: u32) -> (r: Integer) ensures r@ == vstd::arithmetic::power::pow(b as int, e as nat) { unimplemented!() }
    #[verifier::external_body] pub fn u_pow_u(b: u32, e: u32) -> (r: Integer) ensures r@ == vstd::arithmetic::power::pow(b as int, e as nat) { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Integer) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body] pub fn to_usize(&self) -> (r: Option<usize>) ensures (match r { Some(n) => n as int == self@, None => self@ < 0 || self@ > usize::MAX as int }) { unimplemented!() }
    #[verifier::external_body] pub fn to_u32(&self) -> (r: Option<u32>) ensures (match r { Some(n) => n as int == self@, None => self@ < 0 || self@ > u32::MAX as int }) { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures r == (self@ < 0) { unimplemented!() }
    #[verifier::external_body] pub fn is_positive(&self) -> (r: bool) ensures r == (self@ > 0) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: Integer) ensures r@ == (if self@ < 0 { -self@ } else { self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn div_euc(self, o: Integer) -> (r: Integer) ensures o@ != 0, r@ == self@ / o@ { unimplemented!() }
    #[verifier::external_body] pub fn div_rem_euc(self, o: Integer) -> (r: (Integer, Integer)) ensures o@ != 0, r.0@ == self@ / o@, r.1@ == self@ % o@ { unimplemented!() }
    #[verifier::external_body] pub fn gcd_mut(&mut self, o: &Integer) ensures final(self)@ >= 0, idvd(final(self)@, old(self)@), idvd(final(self)@, o@) { unimplemented!() }
    /// az::... Euclidean remainder with the sign convention of rug's `modulo`
    #[verifier::external_body] pub fn modulo(self, o: &Integer) -> (r: Integer) ensures o@ != 0, r@ == self@ % o@ { unimplemented!() }
    #[verifier::external_body] pub fn test_bit(&self, i: u32) -> (r: bool) ensures r == bit_of(self@, i as int) { unimplemented!() }
}
pub open spec fn idvd(g: int, x: int) -> bool { exists|k: int| x == #[trigger] (g * k) }
#[verifier::external_body] pub fn max(a: Integer, b: Integer) -> (r: Integer) ensures r@ == (if a@ >= b@ { a@ } else { b@ }) { unimplemented!() }
pub uninterp spec fn bit_of(v: int, i: int) -> bool;
impl Rational {
    #[verifier::external_body] pub fn from<T: RatLike>(x: T) -> (r: Rational) ensures r@ == x.rv() { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Rational) ensures r@ == 0real { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0real) { unimplemented!() }
    #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures r == (self@ < 0real) { unimplemented!() }
    #[verifier::external_body] pub fn is_positive(&self) -> (r: bool) ensures r == (self@ > 0real) { unimplemented!() }
    #[verifier::external_body] pub fn is_integer(&self) -> (r: bool) ensures r == is_int(self@) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: Rational) ensures r@ == (if self@ < 0real { -self@ } else { self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn as_neg(&self) -> (r: Rational) ensures r@ == -self@ { unimplemented!() }
    #[verifier::external_body] pub fn neg_assign(&mut self) ensures final(self)@ == -old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn floor_mut(&mut self) ensures is_int(final(self)@), final(self)@ <= old(self)@, old(self)@ < final(self)@ + 1real { unimplemented!() }
    pub uninterp spec fn numer_spec(&self) -> int;
    #[verifier::external_body] pub fn numer(&self) -> (r: &Integer) ensures r@ == self.numer_spec(), is_int(self@) ==> r@ as real == self@ { unimplemented!() }
    #[verifier::external_body] pub fn cmp(&self, o: &Rational) -> (r: Ordering) ensures Some(r) == rcmp(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn recip(self) -> (r: Rational) ensures self@ != 0real, r@ == 1real / self@ { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: Rational) ensures is_int(r@), r@ <= self@, self@ < r@ + 1real { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: Rational) ensures is_int(r@), r@ >= self@, self@ > r@ - 1real { unimplemented!() }
    #[verifier::external_body] pub fn into_numer_denom(self) -> (r: (Integer, Integer)) ensures r.1@ > 0, self@ == (r.0@ as real) / (r.1@ as real), is_int(self@) ==> r.1@ == 1 && r.0@ as real == self@ { unimplemented!() }
}

