#!/usr/bin/env python3
"""generates num.rs: the assumed contracts of rug's Integer and Rational (mathematical integers and rationals)"""
out=[]
w=out.append
w("// generated by gen_num.py: assumed contracts of rug::Integer / rug::Rational")
w('''pub open spec fn rcmp(a: real, b: real) -> Option<Ordering> { if a < b { Some(Ordering::Less) } else if a > b { Some(Ordering::Greater) } else { Some(Ordering::Equal) } }
pub open spec fn icmp(a: int, b: int) -> Option<Ordering> { if a < b { Some(Ordering::Less) } else if a > b { Some(Ordering::Greater) } else { Some(Ordering::Equal) } }
pub trait IntLike { spec fn iv(&self) -> int; }
pub trait RatLike { spec fn rv(&self) -> real; }
/// mathematical floor / Euclidean operations
pub open spec fn trunc_div(a: int, b: int) -> int { if b == 0 { 0 } else if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn is_int(r: real) -> bool { exists|i: int| #[trigger] i2r(i) == r }
pub open spec fn i2r(i: int) -> real { i as real }
''')
for t in ["i32","i64","u32","u64","usize","u8"]:
    w(f"impl IntLike for {t} {{ open spec fn iv(&self) -> int {{ *self as int }} }}")
    w(f"impl RatLike for {t} {{ open spec fn rv(&self) -> real {{ (*self as int) as real }} }}")
for t in ["Integer","&Integer"]:
    g="<'a> " if t[0]=='&' else " "
    ty=t.replace('&',"&'a ")
    w(f"impl{g}IntLike for {ty} {{ open spec fn iv(&self) -> int {{ self@ }} }}")
    w(f"impl{g}RatLike for {ty} {{ open spec fn rv(&self) -> real {{ self@ as real }} }}")
for t in ["Rational","&Rational"]:
    g="<'a> " if t[0]=='&' else " "
    ty=t.replace('&',"&'a ")
    w(f"impl{g}RatLike for {ty} {{ open spec fn rv(&self) -> real {{ self@ }} }}")
def ops(T,L,v,ops):
    for (tr,fn,expr) in ops:
        e=expr.replace("A","self@").replace("B",f"o.{v}()")
        w(f'''impl<T: {L}> std::ops::{tr}<T> for {T} {{ type Output = {T};
 #[verifier::external_body] fn {fn}(self, o: T) -> (r: {T}) ensures {e} {{ unimplemented!() }} }}
impl<T: {L}> {tr}SpecImpl<T> for {T} {{ open spec fn obeys_{fn}_spec() -> bool {{ false }} open spec fn {fn}_req(self, o: T) -> bool {{ true }} uninterp spec fn {fn}_spec(self, o: T) -> {T}; }}''')
        e=expr.replace("A","(*self)@").replace("B",f"o.{v}()")
        w(f'''impl<'a, T: {L}> std::ops::{tr}<T> for &'a {T} {{ type Output = {T};
 #[verifier::external_body] fn {fn}(self, o: T) -> (r: {T}) ensures {e} {{ unimplemented!() }} }}
impl<'a, T: {L}> {tr}SpecImpl<T> for &'a {T} {{ open spec fn obeys_{fn}_spec() -> bool {{ false }} open spec fn {fn}_req(self, o: T) -> bool {{ true }} uninterp spec fn {fn}_spec(self, o: T) -> {T}; }}''')
        e=expr.replace("r@","final(self)@").replace("A","old(self)@").replace("B",f"o.{v}()")
        w(f'''impl<T: {L}> std::ops::{tr}Assign<T> for {T} {{
 #[verifier::external_body] fn {fn}_assign(&mut self, o: T) ensures {e} {{ unimplemented!() }} }}
impl<T: {L}> {tr}AssignSpecImpl<T> for {T} {{ open spec fn obeys_{fn}_assign_spec() -> bool {{ false }} open spec fn {fn}_assign_req(&self, o: T) -> bool {{ true }} uninterp spec fn {fn}_assign_spec(&self, o: T) -> &{T}; }}''')
ops("Integer","IntLike","iv",[("Add","add","r@ == A + B"),("Sub","sub","r@ == A - B"),("Mul","mul","r@ == A * B"),
  ("Div","div","B != 0 && r@ == trunc_div(A, B)"),("Rem","rem","B != 0 && r@ == A - B * trunc_div(A, B)")])
for (T,L) in [("Integer","self@"),("&'a Integer","(*self)@")]:
    g="<'a>" if T[0]=='&' else ""
    w(f'''impl{g} std::ops::Shl<usize> for {T} {{ type Output = Integer;
 #[verifier::external_body] fn shl(self, o: usize) -> (r: Integer) ensures r@ == {L} * p2(o as int), {L} == 1 ==> r@ == p2(o as int) {{ unimplemented!() }} }}
impl{g} ShlSpecImpl<usize> for {T} {{ open spec fn obeys_shl_spec() -> bool {{ false }} open spec fn shl_req(self, o: usize) -> bool {{ true }} uninterp spec fn shl_spec(self, o: usize) -> Integer; }}''')
ops("Rational","RatLike","rv",[("Add","add","r@ == A + B"),("Sub","sub","r@ == A - B"),("Mul","mul","r@ == A * B"),("Div","div","B != 0real && r@ == A / B")])
for T,L,v,c in [("Integer","IntLike","iv","icmp"),("Rational","RatLike","rv","rcmp")]:
    w(f'''impl std::ops::Neg for {T} {{ type Output = {T}; #[verifier::external_body] fn neg(self) -> (r: {T}) ensures r@ == -self@ {{ unimplemented!() }} }}
impl NegSpecImpl for {T} {{ open spec fn obeys_neg_spec() -> bool {{ false }} open spec fn neg_req(self) -> bool {{ true }} uninterp spec fn neg_spec(self) -> {T}; }}
impl<T: {L}> PartialEqSpecImpl<T> for {T} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &T) -> bool {{ self@ == o.{v}() }} }}
impl<T: {L}> PartialEq<T> for {T} {{ #[verifier::external_body] fn eq(&self, o: &T) -> bool {{ unimplemented!() }} }}
impl<T: {L}> PartialOrdSpecImpl<T> for {T} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, o: &T) -> Option<Ordering> {{ {c}(self@, o.{v}()) }} }}
impl<T: {L}> PartialOrd<T> for {T} {{ #[verifier::external_body] fn partial_cmp(&self, o: &T) -> Option<Ordering> {{ unimplemented!() }} }}
impl Clone for {T} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}''')
w('''pub trait VxConv<T>: Sized {
    spec fn conv_ok(self, r: T) -> bool;
    fn vx_conv(self) -> (r: T) ensures self.conv_ok(r);
}
impl<T> VxConv<T> for T {
    open spec fn conv_ok(self, r: T) -> bool { r == self }
    fn vx_conv(self) -> T { self }
}
impl VxConv<Rational> for Integer {
    open spec fn conv_ok(self, r: Rational) -> bool { r@ == self@ as real }
    #[verifier::external_body] fn vx_conv(self) -> Rational { unimplemented!() }
}
impl VxConv<Integer> for usize {
    open spec fn conv_ok(self, r: Integer) -> bool { r@ == self as int }
    #[verifier::external_body] fn vx_conv(self) -> Integer { unimplemented!() }
}
impl Integer {
    #[verifier::external_body] pub fn to_i32_wrapping(&self) -> (r: i32) ensures (r as int - self@) % 4294967296 == 0 { unimplemented!() }
}
impl VxConv<Integer> for i32 {
    open spec fn conv_ok(self, r: Integer) -> bool { r@ == self as int }
    #[verifier::external_body] fn vx_conv(self) -> Integer { unimplemented!() }
}
impl Integer {
    #[verifier::external_body] pub fn from<T: IntLike>(x: T) -> (r: Integer) ensures r@ == x.iv() { unimplemented!() }
    #[verifier::external_body] pub fn i_pow_u(b: i32, e: u32) -> (r: Integer) ensures r@ == vstd::arithmetic::power::pow(b as int, e as nat) { unimplemented!() }
    #[verifier::external_body] pub fn u_pow_u(b: u32, e: u32) -> (r: Integer) ensures r@ == vstd::arithmetic::power::pow(b as int, e as nat) { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Integer) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body] pub fn to_usize(&self) -> (r: Option<usize>) ensures (match r { Some(n) => n as int == self@, None => self@ < 0 || self@ > usize::MAX as int }) { unimplemented!() }
    #[verifier::external_body] pub fn to_u32(&self) -> (r: Option<u32>) ensures (match r { Some(n) => n as int == self@, None => self@ < 0 || self@ > u32::MAX as int }) { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures r == (self@ < 0) { unimplemented!() }
    #[verifier::external_body] pub fn is_positive(&self) -> (r: bool) ensures r == (self@ > 0) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: Integer) ensures r@ == (if self@ < 0 { -self@ } else { self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn div_euc(self, o: Integer) -> (r: Integer) ensures o@ != 0, r@ == self@ / o@ { unimplemented!() }
    #[verifier::external_body] pub fn div_rem_euc(self, o: Integer) -> (r: (Integer, Integer)) ensures o@ != 0, r.0@ == self@ / o@, r.1@ == self@ % o@ { unimplemented!() }
    #[verifier::external_body] pub fn gcd_mut(&mut self, o: &Integer) ensures final(self)@ >= 0, idvd(final(self)@, old(self)@), idvd(final(self)@, o@) { unimplemented!() }
    /// az::... Euclidean remainder with the sign convention of rug's `modulo`
    #[verifier::external_body] pub fn modulo(self, o: &Integer) -> (r: Integer) ensures o@ != 0, r@ == self@ % o@ { unimplemented!() }
    #[verifier::external_body] pub fn test_bit(&self, i: u32) -> (r: bool) ensures r == bit_of(self@, i as int) { unimplemented!() }
}
pub open spec fn idvd(g: int, x: int) -> bool { exists|k: int| x == #[trigger] (g * k) }
#[verifier::external_body] pub fn max(a: Integer, b: Integer) -> (r: Integer) ensures r@ == (if a@ >= b@ { a@ } else { b@ }) { unimplemented!() }
pub uninterp spec fn bit_of(v: int, i: int) -> bool;
impl Rational {
    #[verifier::external_body] pub fn from<T: RatLike>(x: T) -> (r: Rational) ensures r@ == x.rv() { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Rational) ensures r@ == 0real { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0real) { unimplemented!() }
    #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures r == (self@ < 0real) { unimplemented!() }
    #[verifier::external_body] pub fn is_positive(&self) -> (r: bool) ensures r == (self@ > 0real) { unimplemented!() }
    #[verifier::external_body] pub fn is_integer(&self) -> (r: bool) ensures r == is_int(self@) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: Rational) ensures r@ == (if self@ < 0real { -self@ } else { self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn as_neg(&self) -> (r: Rational) ensures r@ == -self@ { unimplemented!() }
    #[verifier::external_body] pub fn neg_assign(&mut self) ensures final(self)@ == -old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn floor_mut(&mut self) ensures is_int(final(self)@), final(self)@ <= old(self)@, old(self)@ < final(self)@ + 1real { unimplemented!() }
    pub uninterp spec fn numer_spec(&self) -> int;
    #[verifier::external_body] pub fn numer(&self) -> (r: &Integer) ensures r@ == self.numer_spec(), is_int(self@) ==> r@ as real == self@ { unimplemented!() }
    #[verifier::external_body] pub fn cmp(&self, o: &Rational) -> (r: Ordering) ensures Some(r) == rcmp(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn recip(self) -> (r: Rational) ensures self@ != 0real, r@ == 1real / self@ { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: Rational) ensures is_int(r@), r@ <= self@, self@ < r@ + 1real { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: Rational) ensures is_int(r@), r@ >= self@, self@ > r@ - 1real { unimplemented!() }
    #[verifier::external_body] pub fn into_numer_denom(self) -> (r: (Integer, Integer)) ensures r.1@ > 0, self@ == (r.0@ as real) / (r.1@ as real), is_int(self@) ==> r.1@ == 1 && r.0@ as real == self@ { unimplemented!() }
}
''')
open(__import__("os").path.dirname(__import__("os").path.abspath(__file__))+"/num.rs","w").write("\n".join(out)+"\n")
