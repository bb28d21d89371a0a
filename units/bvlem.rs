pub mod bvl {
use super::*;
// ===================== lemmas about bit sequences (all proved) =====================
pub proof fn p2_pos(n: int) ensures p2(n) >= 1 decreases n { if n > 0 { p2_pos(n - 1); } }
pub proof fn p2_add(a: int, b: int) requires a >= 0, b >= 0 ensures p2(a + b) == p2(a) * p2(b) decreases b {
    if b > 0 { p2_add(a, b - 1); assert(p2(a + b) == 2 * p2(a + (b - 1))); assert(p2(a) * (2 * p2(b - 1)) == 2 * (p2(a) * p2(b - 1))) by (nonlinear_arith); }
    else { assert(p2(a) * 1 == p2(a)); }
}
pub proof fn bn_bound(s: Seq<bool>) ensures 0 <= bn(s) < p2(s.len() as int) decreases s.len() {
    if s.len() > 0 { bn_bound(s.drop_last()); assert(p2(s.len() as int) == 2 * p2(s.len() - 1)); }
}
pub proof fn bn_push(s: Seq<bool>, b: bool) ensures bn(s.push(b)) == bn(s) + b2i(b) * p2(s.len() as int) {
    assert(s.push(b).drop_last() =~= s);
}
/// prefixes
pub proof fn bn_take(s: Seq<bool>, k: int) requires 0 <= k < s.len() ensures bn(s.take(k + 1)) == bn(s.take(k)) + b2i(s[k]) * p2(k) {
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    bn_push(s.take(k), s[k]);
}
pub proof fn bn_cat(a: Seq<bool>, b: Seq<bool>) ensures bn(a + b) == bn(a) + p2(a.len() as int) * bn(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(p2(a.len() as int) * 0 == 0); }
    else {
        let (c, l) = (b.drop_last(), b.last());
        assert((a + b).drop_last() =~= a + c);
        bn_cat(a, c);
        p2_add(a.len() as int, c.len() as int);
        let (pa, pc, x) = (p2(a.len() as int), p2(c.len() as int), b2i(l));
        assert(x * (pa * pc) == pa * (x * pc)) by (nonlinear_arith);
        assert(pa * (bn(c) + x * pc) == pa * bn(c) + pa * (x * pc)) by (nonlinear_arith);
    }
}
pub proof fn bn_low(s: Seq<bool>) requires s.len() > 0 ensures bn(s) == b2i(s[0]) + 2 * bn(s.skip(1)) {
    assert(s =~= s.take(1) + s.skip(1));
    bn_cat(s.take(1), s.skip(1));
    assert(s.take(1).drop_last() =~= Seq::<bool>::empty());
    assert(bn(s.take(1)) == b2i(s[0])) by { reveal_with_fuel(bn, 3); reveal_with_fuel(p2, 2); }
    assert(p2(1) == 2) by { reveal_with_fuel(p2, 3); }
}
pub proof fn nb_bn(s: Seq<bool>) ensures nb(bn(s), s.len() as int) == s {
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] nb(bn(s), s.len() as int)[i] == s[i] by {
        assert(s =~= s.take(i) + s.skip(i));
        bn_cat(s.take(i), s.skip(i));
        bn_bound(s.take(i)); p2_pos(i); bn_low(s.skip(i)); bn_bound(s.skip(i).skip(1));
        let (q, r, p) = (bn(s.skip(i)), bn(s.take(i)), p2(i));
        assert(s.take(i).len() == i);
        assert(p * q == q * p) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(bn(s), p, q, r);
    }
    assert(nb(bn(s), s.len() as int) =~= s);
}
pub proof fn nb_mod(v: int, k: int, n: int) requires n >= 0 ensures nb(v + k * p2(n), n) == nb(v, n) {
    assert forall|i: int| 0 <= i < n implies #[trigger] nb(v + k * p2(n), n)[i] == nb(v, n)[i] by {
        p2_pos(i); p2_add(i, n - i);
        let (p, e) = (p2(i), p2(n - i - 1));
        assert(p2(n - i) == 2 * e);
        assert(k * (p * (2 * e)) == p * (k * (2 * e))) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish_fancy(v / p, v % p, p) ;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, p);
        assert(v + k * p2(n) == p * (v / p + k * (2 * e)) + v % p) by {
            assert(p * (v / p + k * (2 * e)) == p * (v / p) + p * (k * (2 * e))) by (nonlinear_arith);
        }
        vstd::arithmetic::div_mod::lemma_mod_bound(v, p);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v + k * p2(n), p, v / p + k * (2 * e), v % p);
        assert(k * (2 * e) == 2 * (k * e)) by (nonlinear_arith);
        assert((v / p + 2 * (k * e)) % 2 == (v / p) % 2);
    }
    assert(nb(v + k * p2(n), n) =~= nb(v, n));
}
/// a sequence whose value is congruent to v is v's representation
pub proof fn nb_is(s: Seq<bool>, v: int, k: int) requires v == bn(s) + k * p2(s.len() as int) ensures s == nb(v, s.len() as int) {
    nb_mod(bn(s), k, s.len() as int);
    nb_bn(s);
}
// ---- ripple-carry addition
pub open spec fn carry(a: Seq<bool>, b: Seq<bool>, c0: bool, i: int) -> bool decreases i {
    if i <= 0 { c0 } else { (a[i - 1] && b[i - 1]) || ((a[i - 1] != b[i - 1]) && carry(a, b, c0, i - 1)) }
}
pub open spec fn ripple(a: Seq<bool>, b: Seq<bool>, c0: bool) -> Seq<bool> { Seq::new(a.len(), |i: int| (a[i] != b[i]) != carry(a, b, c0, i)) }
pub proof fn ripple_prefix(a: Seq<bool>, b: Seq<bool>, c0: bool, k: int)
    requires a.len() == b.len(), 0 <= k <= a.len(),
    ensures bn(ripple(a, b, c0).take(k)) + p2(k) * b2i(carry(a, b, c0, k)) == bn(a.take(k)) + bn(b.take(k)) + b2i(c0),
    decreases k,
{
    let r = ripple(a, b, c0);
    if k == 0 {
        assert(r.take(0).len() == 0 && a.take(0).len() == 0 && b.take(0).len() == 0);
        assert(p2(0) == 1);
    } else {
        ripple_prefix(a, b, c0, k - 1);
        bn_take(r, k - 1); bn_take(a, k - 1); bn_take(b, k - 1);
        let (x, y, c, p) = (a[k - 1], b[k - 1], carry(a, b, c0, k - 1), p2(k - 1));
        assert(p2(k) == 2 * p);
        assert(b2i((x != y) != c) * p + 2 * p * b2i(carry(a, b, c0, k)) == b2i(x) * p + b2i(y) * p + p * b2i(c)) by (nonlinear_arith)
            requires carry(a, b, c0, k) == ((x && y) || ((x != y) && c));
    }
}
pub proof fn ripple_add(a: Seq<bool>, b: Seq<bool>, c0: bool)
    requires a.len() == b.len(),
    ensures ripple(a, b, c0) == nb(bn(a) + bn(b) + b2i(c0), a.len() as int), ripple(a, b, c0).len() == a.len(),
        bn(ripple(a, b, c0)) + p2(a.len() as int) * b2i(carry(a, b, c0, a.len() as int)) == bn(a) + bn(b) + b2i(c0),
{
    let n = a.len() as int;
    let r = ripple(a, b, c0);
    ripple_prefix(a, b, c0, n);
    assert(r.take(n) =~= r && a.take(n) =~= a && b.take(n) =~= b);
    let k = b2i(carry(a, b, c0, n));
    assert(k * p2(n) == p2(n) * k) by (nonlinear_arith);
    nb_is(r, bn(a) + bn(b) + b2i(c0), k);
}
pub proof fn bn_not(a: Seq<bool>) ensures bn(bnot(a)) == p2(a.len() as int) - 1 - bn(a) decreases a.len() {
    if a.len() > 0 {
        assert(bnot(a).drop_last() =~= bnot(a.drop_last()));
        bn_not(a.drop_last());
        assert(p2(a.len() as int) == 2 * p2(a.len() - 1));
        assert(bnot(a).last() == !a.last());
    }
}
pub proof fn bn_zero(n: int) requires n >= 0 ensures bn(Seq::new(n as nat, |i: int| false)) == 0 decreases n {
    let z = Seq::new(n as nat, |i: int| false);
    if n > 0 { assert(z.drop_last() =~= Seq::new((n - 1) as nat, |i: int| false)); bn_zero(n - 1); }
}
/// two's complement negation
pub proof fn neg_add(a: Seq<bool>, z: Seq<bool>)
    requires z == Seq::new(a.len(), |i: int| false),
    ensures ripple(bnot(a), z, true) == bvneg(a),
{
    ripple_add(bnot(a), z, true); bn_not(a); bn_zero(a.len() as int);
}
/// comparison from the most significant bit down
pub proof fn lt_step(a: Seq<bool>, b: Seq<bool>, k: int)
    requires a.len() == b.len(), 0 <= k < a.len(),
    ensures (bn(a.take(k + 1)) < bn(b.take(k + 1))) == ((a[k] == b[k] && bn(a.take(k)) < bn(b.take(k))) || (!a[k] && b[k])),
{
    bn_take(a, k); bn_take(b, k); bn_bound(a.take(k)); bn_bound(b.take(k)); p2_pos(k);
}
// ---- shift-and-add multiplication
/// the j-th partial product, truncated
pub open spec fn partial(x: Seq<bool>, y: Seq<bool>, j: int) -> Seq<bool> { Seq::new(x.len(), |i: int| j <= i && y[j] && x[i - j]) }
pub open spec fn macc(x: Seq<bool>, y: Seq<bool>, j: int) -> Seq<bool> decreases j {
    if j <= 0 { partial(x, y, 0) } else { ripple(macc(x, y, j - 1), partial(x, y, j), false) }
}
pub proof fn partial_val(x: Seq<bool>, y: Seq<bool>, j: int)
    requires x.len() == y.len(), 0 <= j < x.len(),
    ensures exists|k: int| b2i(y[j]) * p2(j) * bn(x) == bn(partial(x, y, j)) + #[trigger] (k * p2(x.len() as int)),
{
    let n = x.len() as int;
    let s = partial(x, y, j);
    if !y[j] {
        assert(s =~= Seq::new(x.len(), |i: int| false));
        bn_zero(n);
        assert(b2i(y[j]) * p2(j) * bn(x) == 0) by (nonlinear_arith) requires b2i(y[j]) == 0;
        assert(0int * p2(n) == 0);
    } else {
        let z = Seq::new(j as nat, |i: int| false);
        assert(s =~= z + x.take(n - j));
        bn_cat(z, x.take(n - j));
        bn_zero(j);
        assert(x =~= x.take(n - j) + x.skip(n - j));
        bn_cat(x.take(n - j), x.skip(n - j));
        p2_add(j, n - j);
        let k = bn(x.skip(n - j));
        assert(1 * p2(j) * bn(x) == p2(j) * bn(x.take(n - j)) + k * p2(n)) by (nonlinear_arith)
            requires bn(x) == bn(x.take(n - j)) + p2(n - j) * k, p2(n) == p2(j) * p2(n - j);
    }
}
pub proof fn macc_val(x: Seq<bool>, y: Seq<bool>, j: int)
    requires x.len() == y.len(), 0 <= j < x.len(),
    ensures macc(x, y, j).len() == x.len(), exists|k: int| bn(x) * bn(y.take(j + 1)) == bn(macc(x, y, j)) + #[trigger] (k * p2(x.len() as int)),
    decreases j,
{
    let n = x.len() as int;
    bn_take(y, j);
    partial_val(x, y, j);
    let k1 = choose|k: int| b2i(y[j]) * p2(j) * bn(x) == bn(partial(x, y, j)) + #[trigger] (k * p2(n));
    if j == 0 {
        assert(y.take(0).len() == 0);
        assert(bn(x) * (0 + b2i(y[0]) * p2(0)) == b2i(y[0]) * p2(0) * bn(x)) by (nonlinear_arith);
        assert(bn(x) * bn(y.take(1)) == bn(macc(x, y, 0)) + k1 * p2(n));
    } else {
        macc_val(x, y, j - 1);
        let k2 = choose|k: int| bn(x) * bn(y.take(j)) == bn(macc(x, y, j - 1)) + #[trigger] (k * p2(n));
        let (a, b) = (macc(x, y, j - 1), partial(x, y, j));
        ripple_add(a, b, false);
        let c = b2i(carry(a, b, false, n));
        assert(bn(x) * bn(y.take(j + 1)) == bn(macc(x, y, j)) + (k1 + k2 + c) * p2(n)) by (nonlinear_arith)
            requires bn(y.take(j + 1)) == bn(y.take(j)) + b2i(y[j]) * p2(j), b2i(y[j]) * p2(j) * bn(x) == bn(b) + k1 * p2(n),
                bn(x) * bn(y.take(j)) == bn(a) + k2 * p2(n), bn(macc(x, y, j)) + p2(n) * c == bn(a) + bn(b);
    }
}
pub proof fn macc_mul(x: Seq<bool>, y: Seq<bool>)
    requires x.len() == y.len(), x.len() > 0,
    ensures macc(x, y, x.len() - 1) == nb(bn(x) * bn(y), x.len() as int),
{
    let n = x.len() as int;
    macc_val(x, y, n - 1);
    assert(y.take(n) =~= y);
    let k = choose|k: int| bn(x) * bn(y.take(n)) == bn(macc(x, y, n - 1)) + #[trigger] (k * p2(n));
    nb_is(macc(x, y, n - 1), bn(x) * bn(y), k);
}
} // mod bvl
pub use bvl::*;
