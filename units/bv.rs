pub mod bvm {
use super::*;
// ===================== bit-vectors as sequences of bits, least significant first =====================
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
/// bv2nat
pub open spec fn bn(s: Seq<bool>) -> int decreases s.len() { if s.len() == 0 { 0 } else { bn(s.drop_last()) + b2i(s.last()) * p2(s.len() - 1) } }
/// nat2bv
pub open spec fn nb(v: int, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| (v / p2(i)) % 2 == 1) }
pub open spec fn bneg(s: Seq<bool>) -> bool { s.len() > 0 && s.last() }
/// the value in two's complement
pub open spec fn sn(s: Seq<bool>) -> int { if bneg(s) { bn(s) - p2(s.len() as int) } else { bn(s) } }
pub open spec fn bnot(a: Seq<bool>) -> Seq<bool> { Seq::new(a.len(), |i: int| !a[i]) }
pub open spec fn bvneg(a: Seq<bool>) -> Seq<bool> { nb(p2(a.len() as int) - bn(a), a.len() as int) }
pub open spec fn babs(a: Seq<bool>) -> Seq<bool> { if bneg(a) { bvneg(a) } else { a } }
pub open spec fn budiv(a: Seq<bool>, b: Seq<bool>) -> Seq<bool> { let n = a.len() as int; if bn(b) == 0 { nb(p2(n) - 1, n) } else { nb(bn(a) / bn(b), n) } }
pub open spec fn burem(a: Seq<bool>, b: Seq<bool>) -> Seq<bool> { let n = a.len() as int; if bn(b) == 0 { a } else { nb(bn(a) % bn(b), n) } }
/// the binary operators of the SMT-LIB theory (operands of the same width, except for concat)
pub open spec fn bv2(op: Operator, a: Seq<bool>, b: Seq<bool>) -> Seq<bool> {
    let n = a.len() as int;
    match op {
        Operator::BvAnd => Seq::new(a.len(), |i: int| a[i] && b[i]),
        Operator::BvOr => Seq::new(a.len(), |i: int| a[i] || b[i]),
        Operator::BvXor => Seq::new(a.len(), |i: int| a[i] != b[i]),
        Operator::BvXNor => Seq::new(a.len(), |i: int| a[i] == b[i]),
        Operator::BvNAnd => Seq::new(a.len(), |i: int| !(a[i] && b[i])),
        Operator::BvNOr => Seq::new(a.len(), |i: int| !(a[i] || b[i])),
        Operator::BvAdd => nb(bn(a) + bn(b), n),
        Operator::BvSub => nb(bn(a) - bn(b) + p2(n), n),
        Operator::BvMul => nb(bn(a) * bn(b), n),
        Operator::BvUDiv => budiv(a, b),
        Operator::BvURem => burem(a, b),
        Operator::BvShl => nb(bn(a) * p2(bn(b)), n),
        Operator::BvLShr => nb(bn(a) / p2(bn(b)), n),
        Operator::BvAShr => if bneg(a) { bnot(nb(bn(bnot(a)) / p2(bn(b)), n)) } else { nb(bn(a) / p2(bn(b)), n) },
        Operator::BvSDiv => { let q = budiv(babs(a), babs(b)); if bneg(a) != bneg(b) { bvneg(q) } else { q } },
        Operator::BvSRem => { let r = burem(babs(a), babs(b)); if bneg(a) { bvneg(r) } else { r } },
        Operator::BvSMod => { let u = burem(babs(a), babs(b));
            if bn(u) == 0 { u } else if !bneg(a) && !bneg(b) { u } else if bneg(a) && !bneg(b) { nb(bn(bvneg(u)) + bn(b), n) }
            else if !bneg(a) && bneg(b) { nb(bn(u) + bn(b), n) } else { bvneg(u) } },
        // the first operand is the most significant
        Operator::BvConcat => b + a,
        Operator::BvComp => seq![a == b],
        _ => a,
    }
}
/// rotation to the right (towards the least significant bit)
pub open spec fn rotr(s: Seq<bool>, k: int) -> Seq<bool> { Seq::new(s.len(), |j: int| s[(j + k) % (s.len() as int)]) }
pub open spec fn brep(s: Seq<bool>, k: int) -> Seq<bool> decreases k { if k <= 0 { Seq::empty() } else { s + brep(s, k - 1) } }
/// floor of the base 2 logarithm (0 for numbers that have none)
pub open spec fn ilog2(v: int) -> int decreases v { if v <= 1 { 0 } else { 1 + ilog2(v / 2) } }
pub open spec fn ispow2(v: int) -> bool { v > 0 && v == p2(ilog2(v)) }
/// left-associative application
pub open spec fn bvl(op: Operator, v: Seq<Val>) -> Seq<bool> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0].bits() } else { bv2(op, bvl(op, v.drop_last()), v.last().bits()) }
}
} // mod bvm
pub use bvm::*;
