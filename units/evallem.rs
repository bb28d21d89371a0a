// ===================== evaluation: one lemma per operator =====================
/// a bit-vector value: its bits, its unsigned and its signed value
pub open spec fn isbv(v: Value, x: int, w: int) -> bool { v matches Value::BitVec(i, u) && i@ == x && u == w && 0 < w < 0x8000_0000 && 0 <= x < p2(w) }
pub open spec fn sval(x: int, w: int) -> int { if bitv(x, w - 1) { x - p2(w) } else { x } }
pub proof fn bv_val(x: int, w: int) requires 0 < w, 0 <= x < p2(w)
    ensures bn(nb(x, w)) == x, nb(x, w).len() == w, sn(nb(x, w)) == sval(x, w), bneg(nb(x, w)) == bitv(x, w - 1), -p2(w - 1) <= sval(x, w) < p2(w - 1), p2(w) == 2 * p2(w - 1), p2(w - 1) >= 1,
        bitv(x, w - 1) == (sval(x, w) < 0)
{
    nb_val(x, w); assert(nb(x, w)[w - 1] == bitv(x, w - 1)); p2_pos(w - 1);
    let s = nb(x, w);
    bn_bound(s.drop_last());
    assert(bn(s) == bn(s.drop_last()) + b2i(s.last()) * p2(w - 1));
    assert(s.last() == bitv(x, w - 1));
}
pub proof fn l_not(x: int, w: int) requires 0 < w, 0 <= x < p2(w) ensures nb((-x - 1) % p2(w), w) == bnot(nb(x, w)) {
    bv_val(x, w); bn_not(nb(x, w)); rep(bnot(nb(x, w)), -x - 1, -1);
}
pub proof fn l_neg(x: int, w: int) requires 0 < w, 0 <= x < p2(w) ensures nb((-x) % p2(w), w) == bvneg(nb(x, w)) {
    bv_val(x, w); nb_low(-x, w); nb_mod(-x, 1, w);
}
pub proof fn l_sub(x: int, y: int, w: int) requires 0 < w, 0 <= x < p2(w), 0 <= y < p2(w)
    ensures nb((sval(x, w) - sval(y, w)) % p2(w), w) == bv2(Operator::BvSub, nb(x, w), nb(y, w)) {
    bv_val(x, w); bv_val(y, w);
    let d = sval(x, w) - sval(y, w);
    nb_low(d, w);
    let p = p2(w);
    let k = 1 + b2i(bitv(x, w - 1)) - b2i(bitv(y, w - 1));
    let (bx, by) = (b2i(bitv(x, w - 1)), b2i(bitv(y, w - 1)));
    assert(bx * p == if bitv(x, w - 1) { p } else { 0 }) by (nonlinear_arith) requires bx == if bitv(x, w - 1) { 1int } else { 0int };
    assert(by * p == if bitv(y, w - 1) { p } else { 0 }) by (nonlinear_arith) requires by == if bitv(y, w - 1) { 1int } else { 0int };
    assert(x - y + p == d + k * p) by (nonlinear_arith) requires d == (x - b2i(bitv(x, w - 1)) * p) - (y - b2i(bitv(y, w - 1)) * p), k == 1 + b2i(bitv(x, w - 1)) - b2i(bitv(y, w - 1));
    nb_mod(d, k, w);
}
/// the bitwise operators
pub proof fn l_bits(op: Operator, x: int, y: int, r: int, w: int)
    requires 0 < w, 0 <= x < p2(w), 0 <= y < p2(w),
        op == Operator::BvAnd ==> forall|i: int| 0 <= i ==> #[trigger] bitv(r, i) == (bitv(x, i) && bitv(y, i)),
        op == Operator::BvOr ==> forall|i: int| 0 <= i ==> #[trigger] bitv(r, i) == (bitv(x, i) || bitv(y, i)),
        op == Operator::BvXor ==> forall|i: int| 0 <= i ==> #[trigger] bitv(r, i) == (bitv(x, i) != bitv(y, i)),
        op == Operator::BvAnd || op == Operator::BvOr || op == Operator::BvXor,
    ensures nb(r % p2(w), w) == bv2(op, nb(x, w), nb(y, w)), bn(bv2(op, nb(x, w), nb(y, w))) == r % p2(w),
        nb((-r - 1) % p2(w), w) == bnot(bv2(op, nb(x, w), nb(y, w)))
{
    nb_low(r, w); nb_low(-r - 1, w);
    assert forall|i: int| 0 <= i < w implies #[trigger] nb(r, w)[i] == bv2(op, nb(x, w), nb(y, w))[i] && nb(-r - 1, w)[i] == !nb(r, w)[i] by {
        assert(nb(r, w)[i] == bitv(r, i)); assert(nb(x, w)[i] == bitv(x, i)); assert(nb(y, w)[i] == bitv(y, i));
        bitv_not(r, i); assert(nb(-r - 1, w)[i] == bitv(-r - 1, i));
    }
    assert(nb(r, w) =~= bv2(op, nb(x, w), nb(y, w)));
    assert(nb(-r - 1, w) =~= bnot(nb(r, w)));
}
pub proof fn l_nbits(op: Operator, a: Seq<bool>, b: Seq<bool>) requires a.len() == b.len()
    ensures bnot(bv2(Operator::BvAnd, a, b)) == bv2(Operator::BvNAnd, a, b), bnot(bv2(Operator::BvOr, a, b)) == bv2(Operator::BvNOr, a, b), bnot(bv2(Operator::BvXor, a, b)) == bv2(Operator::BvXNor, a, b)
{
    assert(bnot(bv2(Operator::BvAnd, a, b)) =~= bv2(Operator::BvNAnd, a, b));
    assert(bnot(bv2(Operator::BvOr, a, b)) =~= bv2(Operator::BvNOr, a, b));
    assert(bnot(bv2(Operator::BvXor, a, b)) =~= bv2(Operator::BvXNor, a, b));
}
pub proof fn l_arith(x: int, y: int, w: int) requires 0 < w, 0 <= x < p2(w), 0 <= y < p2(w)
    ensures nb((x + y) % p2(w), w) == bv2(Operator::BvAdd, nb(x, w), nb(y, w)), nb((x * y) % p2(w), w) == bv2(Operator::BvMul, nb(x, w), nb(y, w)),
        bn(bv2(Operator::BvAdd, nb(x, w), nb(y, w))) == (x + y) % p2(w), bn(bv2(Operator::BvMul, nb(x, w), nb(y, w))) == (x * y) % p2(w)
{
    bv_val(x, w); bv_val(y, w); nb_low(x + y, w); nb_low(x * y, w);
}
pub proof fn l_udiv(x: int, y: int, w: int) requires 0 < w, 0 <= x < p2(w), 0 <= y < p2(w)
    ensures nb((if y == 0 { p2(w) - 1 } else { trunc_div(x, y) }) % p2(w), w) == budiv(nb(x, w), nb(y, w)),
        nb((if y == 0 { x } else { x - y * trunc_div(x, y) }) % p2(w), w) == burem(nb(x, w), nb(y, w))
{
    bv_val(x, w); bv_val(y, w);
    nb_low(if y == 0 { p2(w) - 1 } else { trunc_div(x, y) }, w);
    nb_low(if y == 0 { x } else { x - y * trunc_div(x, y) }, w);
    if y != 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y); }
}
/// absolute values of signed operands
pub proof fn l_abs(x: int, w: int) requires 0 < w, 0 <= x < p2(w)
    ensures bn(babs(nb(x, w))) == (if sval(x, w) < 0 { -sval(x, w) } else { sval(x, w) }), babs(nb(x, w)).len() == w
{
    bv_val(x, w);
    if bneg(nb(x, w)) { nb_val(p2(w) - x, w); }
}
pub proof fn l_sdiv(x: int, y: int, w: int) requires 0 < w, 0 <= x < p2(w), 0 <= y < p2(w), sval(y, w) != 0
    ensures nb(trunc_div(sval(x, w), sval(y, w)) % p2(w), w) == bv2(Operator::BvSDiv, nb(x, w), nb(y, w))
{
    bv_val(x, w); bv_val(y, w); l_abs(x, w); l_abs(y, w);
    let (a, b) = (sval(x, w), sval(y, w));
    let (aa, ab) = (if a < 0 { -a } else { a }, if b < 0 { -b } else { b });
    let q = aa / ab;
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(aa, ab);
    vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(aa, 1, ab);
    assert(aa / 1 == aa);
    assert(0 <= q <= p2(w - 1));
    nb_val(q, w);
    let s = budiv(babs(nb(x, w)), babs(nb(y, w)));
    assert(s == nb(q, w) && bn(s) == q);
    let t = trunc_div(a, b);
    assert(t == (if (a < 0) != (b < 0) { -q } else { q }));
    nb_low(t, w);
    if (a < 0) != (b < 0) { nb_mod(-q, 1, w); }
}
pub proof fn trem_abs(a: int, b: int) requires b != 0
    ensures a - b * trunc_div(a, b) == (if a < 0 { -((-a) % (if b < 0 { -b } else { b })) } else { a % (if b < 0 { -b } else { b }) })
{
    let (aa, ab) = (if a < 0 { -a } else { a }, if b < 0 { -b } else { b });
    let q = aa / ab;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(aa, ab);
    assert(trunc_div(a, b) == (if (a < 0) != (b < 0) { -q } else { q }));
    assert(b * (-q) == -(b * q) && (-b) * q == -(b * q)) by (nonlinear_arith);
}
pub proof fn l_srem(x: int, y: int, w: int) requires 0 < w, 0 <= x < p2(w), 0 <= y < p2(w), sval(y, w) != 0
    ensures nb((sval(x, w) - sval(y, w) * trunc_div(sval(x, w), sval(y, w))) % p2(w), w) == bv2(Operator::BvSRem, nb(x, w), nb(y, w))
{
    bv_val(x, w); bv_val(y, w); l_abs(x, w); l_abs(y, w);
    let (a, b) = (sval(x, w), sval(y, w));
    let (aa, ab) = (if a < 0 { -a } else { a }, if b < 0 { -b } else { b });
    let m = aa % ab;
    vstd::arithmetic::div_mod::lemma_mod_bound(aa, ab);
    trem_abs(a, b);
    nb_val(m, w);
    let s = burem(babs(nb(x, w)), babs(nb(y, w)));
    assert(s == nb(m, w));
    let t = a - b * trunc_div(a, b);
    nb_low(t, w);
    if a < 0 { nb_mod(-m, 1, w); }
}
pub proof fn l_smod(x: int, y: int, w: int) requires 0 < w, 0 <= x < p2(w), 0 <= y < p2(w), sval(y, w) != 0
    ensures nb(frem(sval(x, w), sval(y, w)) % p2(w), w) == bv2(Operator::BvSMod, nb(x, w), nb(y, w))
{
    bv_val(x, w); bv_val(y, w); l_abs(x, w); l_abs(y, w);
    let (a, b) = (sval(x, w), sval(y, w));
    let (aa, ab) = (if a < 0 { -a } else { a }, if b < 0 { -b } else { b });
    let m = aa % ab;
    vstd::arithmetic::div_mod::lemma_mod_bound(aa, ab);
    nb_val(m, w);
    let u = burem(babs(nb(x, w)), babs(nb(y, w)));
    assert(u == nb(m, w) && bn(u) == m);
    let t = frem(a, b);
    nb_low(t, w);
    let n = p2(w);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(aa, ab);
    let q = aa / ab;
    assert(ab * (-q) == -(ab * q)) by (nonlinear_arith);
    assert(ab * (-q - 1) == -(ab * q) - ab) by (nonlinear_arith);
    assert((-q) * ab == ab * (-q)) by (nonlinear_arith);
    assert((-q - 1) * ab == ab * (-q - 1)) by (nonlinear_arith);
    if a >= 0 && b > 0 { }
    else if a < 0 && b > 0 {
        assert(aa == -a && ab == b && -a == ab * q + m);
        if m == 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, b, -q, 0); }
        else { assert(a == (-q - 1) * b + (b - m)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, b, -q - 1, b - m); nb_val(n - m, w); nb_mod(b - m, 1, w); }
    } else if a >= 0 && b < 0 {
        assert(aa == a && ab == -b && a == ab * q + m); assert(-a == -(ab * q) - m);
        if m == 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-a, -b, -q, 0); }
        else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-a, -b, -q - 1, ab - m); nb_mod(m + b, 1, w); assert(m + y == m + b + n); }
    } else {
        if m == 0 { assert(t == 0); } else { assert(t == -m); nb_mod(-m, 1, w); }
    }
}
pub proof fn l_shl(x: int, y: int, w: int) requires 0 < w, 0 <= x < p2(w), 0 <= y < p2(w)
    ensures nb((if y < w { x * p2(y) } else { 0 }) % p2(w), w) == bv2(Operator::BvShl, nb(x, w), nb(y, w))
{
    bv_val(x, w); bv_val(y, w);
    nb_low(if y < w { x * p2(y) } else { 0 }, w);
    if y >= w { p2_add(w, y - w); nb_mod(0, x * p2(y - w), w); let (a, b) = (p2(w), p2(y - w)); assert(x * (a * b) == 0 + (x * b) * a) by (nonlinear_arith); }
}
pub proof fn l_lshr(x: int, y: int, w: int) requires 0 < w, 0 <= x < p2(w), 0 <= y < p2(w)
    ensures nb((x / p2(y)) % p2(w), w) == bv2(Operator::BvLShr, nb(x, w), nb(y, w))
{
    bv_val(x, w); bv_val(y, w); nb_low(x / p2(y), w);
}
/// b ones followed by w - b zeros
pub open spec fn msk(b: int, w: int) -> int { (p2(b) - 1) * p2(w - b) }
pub proof fn l_mask(b: int, w: int, i: int) requires 0 <= b <= w, 0 <= i ensures bitv(msk(b, w), i) == (w - b <= i < w) {
    let z = Seq::new((w - b) as nat, |i: int| false); let o = Seq::new(b as nat, |i: int| true);
    bn_cat(z, o); bn_zero(w - b); ones(b); bits_of(z + o, i);
    let (p, q) = (p2(b) - 1, p2(w - b));
    assert(p * q == q * p) by (nonlinear_arith);
}
pub proof fn l_ashr(x: int, y: int, w: int, r: int)
    requires 0 < w, 0 <= x < p2(w), 0 <= y < p2(w), ({ let b = if y < w { y } else { w };
        if bitv(x, w - 1) { forall|i: int| 0 <= i ==> #[trigger] bitv(r, i) == (bitv(x / p2(b), i) || bitv(msk(b, w), i)) } else { r == x / p2(b) } })
    ensures nb(r % p2(w), w) == bv2(Operator::BvAShr, nb(x, w), nb(y, w))
{
    let b = if y < w { y } else { w };
    bv_val(x, w); bv_val(y, w); nb_low(r, w);
    let a = nb(x, w); let t = bv2(Operator::BvAShr, a, nb(y, w));
    bn_bound(bnot(a));
    assert(t.len() == w);
    assert forall|i: int| 0 <= i < w implies #[trigger] nb(r, w)[i] == t[i] by {
        bitv_div(x, b, i); bitv_div(bn(bnot(a)), y, i); bitv_div(x, y, i); l_mask(b, w, i);
        bits_of(a, i + b); bits_of(bnot(a), i + y); bits_of(a, i + y);
        assert(nb(r, w)[i] == bitv(r, i));
        assert(nb(bn(bnot(a)) / p2(y), w)[i] == bitv(bn(bnot(a)) / p2(y), i));
        assert(nb(x / p2(y), w)[i] == bitv(x / p2(y), i));
    }
    assert(nb(r, w) =~= t);
}
pub proof fn l_concat(a: Seq<bool>, y: int, w: int) requires 0 < w, 0 <= y < p2(w)
    ensures bn(bv2(Operator::BvConcat, a, nb(y, w))) == bn(a) * p2(w) + y, bv2(Operator::BvConcat, a, nb(y, w)).len() == a.len() + w
{
    bv_val(y, w); bn_cat(nb(y, w), a);
    let (p, q) = (p2(w), bn(a));
    assert(p * q == q * p) by (nonlinear_arith);
}
pub proof fn l_comp(x: int, y: int, w: int) requires 0 < w, 0 <= x < p2(w), 0 <= y < p2(w) ensures nb((if x == y { 1int } else { 0int }) % p2(1), 1) == seq![nb(x, w) == nb(y, w)] {
    bv_val(x, w); bv_val(y, w);
    let s = seq![nb(x, w) == nb(y, w)];
    assert(bn(s) == b2i(x == y)) by { reveal_with_fuel(bn, 3); assert(s.drop_last().len() == 0); }
    rep(s, b2i(x == y), 0);
}
pub proof fn l_zext(x: int, w: int, k: int) requires 0 < w, 0 <= x < p2(w), k >= 0
    ensures nb(x % p2(w + k), w + k) == nb(x, w) + Seq::new(k as nat, |i: int| false)
{
    bv_val(x, w); let z = Seq::new(k as nat, |i: int| false);
    bn_cat(nb(x, w), z); bn_zero(k); rep(nb(x, w) + z, x, 0);
}
pub proof fn l_sext(x: int, w: int, k: int) requires 0 < w, 0 <= x < p2(w), k >= 0
    ensures nb(sval(x, w) % p2(w + k), w + k) == nb(x, w) + Seq::new(k as nat, |i: int| bneg(nb(x, w)))
{
    bv_val(x, w);
    if bneg(nb(x, w)) {
        let z = Seq::new(k as nat, |i: int| true);
        bn_cat(nb(x, w), z); ones(k); p2_add(w, k);
        let (a, b) = (p2(w), p2(k)); assert(a * (b - 1) == a * b - a) by (nonlinear_arith);
        assert(bn(z) == b - 1); assert(sval(x, w) == x - a); assert(p2(w + k) == a * b);
        rep(nb(x, w) + z, sval(x, w), -1);
        assert(z =~= Seq::new(k as nat, |i: int| bneg(nb(x, w))));
    } else {
        l_zext(x, w, k);
        assert(Seq::new(k as nat, |i: int| false) =~= Seq::new(k as nat, |i: int| bneg(nb(x, w))));
    }
}
pub proof fn l_extract(x: int, w: int, i: int, j: int) requires 0 < w, 0 <= x < p2(w), 0 <= j <= i < w
    ensures nb(((x % p2(i + 1)) / p2(j)) % p2(i - j + 1), i - j + 1) == nb(x, w).subrange(j, i + 1)
{
    let v = (x % p2(i + 1)) / p2(j); let n = i - j + 1;
    nb_low(v, n); nb_low(x, i + 1);
    assert forall|k: int| 0 <= k < n implies #[trigger] nb(v, n)[k] == nb(x, w).subrange(j, i + 1)[k] by {
        assert(nb(v, n)[k] == bitv(v, k)); bitv_div(x % p2(i + 1), j, k); bitv_mod(x, i + 1, k + j);
        assert(nb(x, w)[j + k] == bitv(x, j + k));
    }
    assert(nb(v, n) =~= nb(x, w).subrange(j, i + 1));
}
pub open spec fn rotv(x: int, w: int, r: int) -> int { (x % p2(r)) * p2(w - r) + x / p2(r) }
pub proof fn l_rotr(x: int, w: int, k: int) requires 0 < w, 0 <= x < p2(w) ensures nb(rotv(x, w, k % w) % p2(w), w) == rotr(nb(x, w), k) {
    let r = k % w; vstd::arithmetic::div_mod::lemma_mod_bound(k, w);
    bv_val(x, w); let s = nb(x, w); let (lo, hi) = (s.take(r), s.skip(r));
    assert(s =~= lo + hi); bn_cat(lo, hi); bn_bound(lo); p2_pos(r);
    assert(p2(r) * bn(hi) == bn(hi) * p2(r)) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, p2(r), bn(hi), bn(lo));
    let t = hi + lo; bn_cat(hi, lo);
    assert(hi.len() == w - r && lo.len() == r);
    let (a, b) = (p2(w - r), bn(lo)); assert(a * b == b * a) by (nonlinear_arith);
    assert(bn(t) == rotv(x, w, r));
    rep(t, rotv(x, w, r), 0);
    assert forall|j: int| 0 <= j < w implies #[trigger] t[j] == rotr(s, k)[j] by {
        vstd::arithmetic::div_mod::lemma_add_mod_noop_right(j, k, w);
        if j + r < w { vstd::arithmetic::div_mod::lemma_small_mod((j + r) as nat, w as nat); }
        else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j + r, w, 1, j + r - w); }
    }
    assert(t =~= rotr(s, k));
}
pub proof fn rot_left(s: Seq<bool>, k: int) requires s.len() > 0, k >= 0 ensures rotr(s, s.len() - k % (s.len() as int)) == rotr(s, -k) {
    let w = s.len() as int;
    assert forall|j: int| 0 <= j < w implies #[trigger] rotr(s, w - k % w)[j] == rotr(s, -k)[j] by {
        let q = k / w; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, w);
        vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(1 + q, j - k, w);
        assert(w * (1 + q) == w + w * q) by (nonlinear_arith);
    }
    assert(rotr(s, w - k % w) =~= rotr(s, -k));
}
