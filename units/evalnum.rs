// ===================== integers as infinite two's complement bit strings (assumed contracts of rug::Integer) =====================
/// bit i of the two's complement representation
pub open spec fn bitv(v: int, i: int) -> bool { (v / p2(i)) % 2 == 1 }
/// the bitwise operations, which act on every bit of the two's complement representations
pub uninterp spec fn iand(a: int, b: int) -> int;
pub uninterp spec fn ior(a: int, b: int) -> int;
pub uninterp spec fn ixor(a: int, b: int) -> int;
#[verifier::external_body] pub proof fn bits_ax(a: int, b: int)
    ensures forall|i: int| 0 <= i ==> #[trigger] bitv(iand(a, b), i) == (bitv(a, i) && bitv(b, i)),
        forall|i: int| 0 <= i ==> #[trigger] bitv(ior(a, b), i) == (bitv(a, i) || bitv(b, i)),
        forall|i: int| 0 <= i ==> #[trigger] bitv(ixor(a, b), i) == (bitv(a, i) != bitv(b, i)) { }
impl Integer {
    #[verifier::external_body] pub fn keep_bits(self, n: u32) -> (r: Integer) ensures r@ == self@ % p2(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn get_bit(&self, i: u32) -> (r: bool) ensures r == bitv(self@, i as int) { unimplemented!() }
    #[verifier::external_body] pub fn significant_bits(&self) -> (r: u32) ensures self@ > 0 ==> r >= 1 && r == ilog2(self@) + 1 { unimplemented!() }
    #[verifier::external_body] pub fn is_power_of_two(&self) -> (r: bool) ensures r == ispow2(self@) { unimplemented!() }
    #[verifier::external_body] pub fn rem_floor(self, o: Integer) -> (r: Integer) ensures o@ != 0, r@ == frem(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Integer) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body] pub fn set_bit(&mut self, i: u32, b: bool) -> (r: ())
        ensures final(self)@ == old(self)@ + (if b == bitv(old(self)@, i as int) { 0 } else if b { p2(i as int) } else { -p2(i as int) }) { unimplemented!() }
}
/// the remainder with the sign of the divisor
pub open spec fn frem(a: int, b: int) -> int { if b > 0 { a % b } else { -((-a) % (-b)) } }
impl std::ops::Not for Integer { type Output = Integer; #[verifier::external_body] fn not(self) -> (r: Integer) ensures r@ == -self@ - 1 { unimplemented!() } }
impl NotSpecImpl for Integer { open spec fn obeys_not_spec() -> bool { false } open spec fn not_req(self) -> bool { true } uninterp spec fn not_spec(self) -> Integer; }
impl<T: IntLike> std::ops::BitAnd<T> for Integer { type Output = Integer;
 #[verifier::external_body] fn bitand(self, o: T) -> (r: Integer) ensures r@ == iand(self@, o.iv()) { unimplemented!() } }
impl<T: IntLike> BitAndSpecImpl<T> for Integer { open spec fn obeys_bitand_spec() -> bool { false } open spec fn bitand_req(self, o: T) -> bool { true } uninterp spec fn bitand_spec(self, o: T) -> Integer; }
impl<T: IntLike> std::ops::BitOr<T> for Integer { type Output = Integer;
 #[verifier::external_body] fn bitor(self, o: T) -> (r: Integer) ensures r@ == ior(self@, o.iv()) { unimplemented!() } }
impl<T: IntLike> BitOrSpecImpl<T> for Integer { open spec fn obeys_bitor_spec() -> bool { false } open spec fn bitor_req(self, o: T) -> bool { true } uninterp spec fn bitor_spec(self, o: T) -> Integer; }
impl<T: IntLike> std::ops::BitXor<T> for Integer { type Output = Integer;
 #[verifier::external_body] fn bitxor(self, o: T) -> (r: Integer) ensures r@ == ixor(self@, o.iv()) { unimplemented!() } }
impl<T: IntLike> BitXorSpecImpl<T> for Integer { open spec fn obeys_bitxor_spec() -> bool { false } open spec fn bitxor_req(self, o: T) -> bool { true } uninterp spec fn bitxor_spec(self, o: T) -> Integer; }
impl<T: IntLike> std::ops::BitOrAssign<T> for Integer {
 #[verifier::external_body] fn bitor_assign(&mut self, o: T) ensures final(self)@ == ior(old(self)@, o.iv()) { unimplemented!() } }
impl<T: IntLike> BitOrAssignSpecImpl<T> for Integer { open spec fn obeys_bitor_assign_spec() -> bool { false } open spec fn bitor_assign_req(&self, o: T) -> bool { true } uninterp spec fn bitor_assign_spec(&self, o: T) -> &Integer; }
impl std::ops::Shr<usize> for Integer { type Output = Integer;
 #[verifier::external_body] fn shr(self, o: usize) -> (r: Integer) ensures r@ == self@ / p2(o as int) { unimplemented!() } }
impl ShrSpecImpl<usize> for Integer { open spec fn obeys_shr_spec() -> bool { false } open spec fn shr_req(self, o: usize) -> bool { true } uninterp spec fn shr_spec(self, o: usize) -> Integer; }
impl std::ops::ShlAssign<usize> for Integer {
 #[verifier::external_body] fn shl_assign(&mut self, o: usize) ensures final(self)@ == old(self)@ * p2(o as int) { unimplemented!() } }
impl ShlAssignSpecImpl<usize> for Integer { open spec fn obeys_shl_assign_spec() -> bool { false } open spec fn shl_assign_req(&self, o: usize) -> bool { true } uninterp spec fn shl_assign_spec(&self, o: usize) -> &Integer; }
impl PartialEqSpecImpl<Rational> for Integer { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Rational) -> bool { self@ as real == o@ } }
impl PartialEq<Rational> for Integer { #[verifier::external_body] fn eq(&self, o: &Rational) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl<Rational> for Integer { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Rational) -> Option<Ordering> { rcmp(self@ as real, o@) } }
impl PartialOrd<Rational> for Integer { #[verifier::external_body] fn partial_cmp(&self, o: &Rational) -> Option<Ordering> { unimplemented!() } }
impl Clone for Constant { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
