// ===================== the steps of the folds in eval_op =====================
pub open spec fn ix(j: int) -> int { j }
pub open spec fn veq2(s: Seq<Value>, k: int) -> bool { veq(s[k], s[k + 1]) }
pub open spec fn veqij(s: Seq<Value>, i: int, j: int) -> bool { veq(s[i], s[j]) }
pub open spec fn hy(op: Operator, s: Seq<Value>) -> bool { exists|m: Model| #[trigger] opre(m, op, s) }
pub proof fn nbl(x: int, w: int) requires w >= 0 ensures nb(x, w).len() == w {}
pub proof fn bvl2(op: Operator, v: Seq<Val>) requires v.len() == 2 ensures bvl(op, v) == bv2(op, v[0].bits(), v[1].bits()) {
    reveal_with_fuel(bvl, 3); assert(v.drop_last().len() == 1); assert(v.drop_last()[0] == v[0]);
}
/// values of one kind and width are equal exactly if they mean the same
pub proof fn l_veq(a: Value, b: Value)
    requires canon(a), canon(b), vk(a) == vk(b), vv(a).isb() == vv(b).isb(), (vv(a) is BV) == (vv(b) is BV), vv(a).bits().len() == vv(b).bits().len()
    ensures veq(a, b) == (vv(a) == vv(b))
{
    match (a, b) {
        (Value::BitVec(x, w), Value::BitVec(y, z)) => {
            nbl(x@, w as int); nbl(y@, z as int); nb_val(x@, w as int); nb_val(y@, z as int);
        }
        (Value::String(x), Value::String(y)) => {}
        (Value::Integer(x), Value::Integer(y)) => { i2r_hom(); }
        _ => {}
    }
}
pub proof fn i2r_hom()
    ensures forall|a: int, b: int| #[trigger] i2r(a + b) == i2r(a) + i2r(b), forall|a: int, b: int| #[trigger] i2r(a - b) == i2r(a) - i2r(b),
        forall|a: int, b: int| #[trigger] i2r(a * b) == i2r(a) * i2r(b), forall|a: int| #[trigger] i2r(-a) == -i2r(a), i2r(0) == 0real, i2r(1) == 1real,
        forall|a: int, b: int| (#[trigger] i2r(a) == #[trigger] i2r(b)) == (a == b)
{
    assert forall|a: int, b: int| #[trigger] i2r(a * b) == i2r(a) * i2r(b) by { real_mul(a, b); }
}
/// the value of the left-associative application to the first k + 1 values
pub open spec fn fv(op: Operator, s: Seq<Value>, k: int) -> real decreases k {
    if k <= 0 { vv(s[0]).num() } else {
        let (a, b) = (fv(op, s, k - 1), vv(s[k]).num());
        match op { Operator::Add => a + b, Operator::Sub => a - b, Operator::Mult => a * b, Operator::RealDiv => a / b, _ => (r2i(a) / r2i(b)) as real }
    }
}
pub proof fn l_fvk(m: Model, op: Operator, s: Seq<Value>, k: int)
    requires 0 <= k < s.len(), op == Operator::RealDiv || op == Operator::IntDiv ==> forall|j: int| 1 <= j < s.len() ==> vv(#[trigger] s[j]).num() != 0real,
    ensures op == Operator::Add ==> fv(op, s, k) == sum_n(vvs(s).take(k + 1)), op == Operator::Mult ==> fv(op, s, k) == prod_n(vvs(s).take(k + 1)),
        op == Operator::Sub ==> fv(op, s, k) == vv(s[0]).num() - sum_n(vvs(s).take(k + 1).drop_first()),
        op == Operator::RealDiv || op == Operator::IntDiv ==> fv(op, s, k) == quot_n(m, op, vvs(s).take(k + 1)),
    decreases k
{
    let t = vvs(s).take(k + 1);
    assert(t.last() == vv(s[k]));
    assert(t.drop_last() =~= vvs(s).take(k));
    if k > 0 {
        l_fvk(m, op, s, k - 1);
        assert(t.drop_first().last() == vv(s[k]));
        assert(t.drop_first().drop_last() =~= vvs(s).take(k).drop_first());
        let b = vv(s[k]).num();
        assert(sum_n(t) == sum_n(t.drop_last()) + b);
        assert(prod_n(t) == prod_n(t.drop_last()) * b);
        assert(sum_n(t.drop_first()) == sum_n(t.drop_first().drop_last()) + b);
        if op == Operator::RealDiv || op == Operator::IntDiv { assert(b != 0real); assert(quot_n(m, op, t) == quot2(m, op, quot_n(m, op, t.drop_last()), b)); }
    } else {
        assert(t.len() == 1); assert(t[0] == vv(s[0]));
        assert(t.drop_last().len() == 0);
        assert(t.drop_first().len() == 0);
        let a = vv(s[0]).num();
        assert(prod_n(t) == prod_n(t.drop_last()) * a); assert(prod_n(t.drop_last()) == 1real);
        assert(1real * a == a);
        assert(sum_n(t) == sum_n(t.drop_last()) + a); assert(sum_n(t.drop_last()) == 0real); assert(0real + a == a);
        assert(sum_n(t.drop_first()) == 0real); assert(a - 0real == a);
    }
}
pub proof fn l_fv(m: Model, op: Operator, s: Seq<Value>)
    requires s.len() >= 1, op == Operator::RealDiv || op == Operator::IntDiv ==> forall|j: int| 1 <= j < s.len() ==> vv(#[trigger] s[j]).num() != 0real,
    ensures op == Operator::Add || op == Operator::Mult || op == Operator::RealDiv || op == Operator::IntDiv ==> Val::N(fv(op, s, s.len() - 1)) == ev_op(m, op, vvs(s)),
        op == Operator::Sub && s.len() > 1 ==> Val::N(fv(op, s, s.len() - 1)) == ev_op(m, op, vvs(s)),
{
    l_fvk(m, op, s, s.len() - 1);
    assert(vvs(s).take(s.len() as int) =~= vvs(s));
}
pub open spec fn cmpv(op: Operator, a: Value, b: Value) -> bool {
    match op { Operator::LessThan => vv(a).num() < vv(b).num(), Operator::GreaterThan => vv(a).num() > vv(b).num(), Operator::LessEq => vv(a).num() <= vv(b).num(), _ => vv(a).num() >= vv(b).num() }
}
pub open spec fn cmpj(op: Operator, s: Seq<Value>, j: int) -> bool { cmpv(op, s[j], s[j + 1]) }
pub open spec fn bopv(op: Operator, a: int, b: int) -> int {
    match op { Operator::BvAnd => iand(a, b), Operator::BvOr => ior(a, b), Operator::BvXor => ixor(a, b), Operator::BvAdd => a + b, _ => a * b }
}
pub open spec fn foldop(op: Operator) -> bool { op == Operator::BvAnd || op == Operator::BvOr || op == Operator::BvXor || op == Operator::BvAdd || op == Operator::BvMul }
pub open spec fn bvinv(op: Operator, s: Seq<Value>, i: int, x: int, w: int) -> bool {
    0 < w < 0x8000_0000 && 0 <= x < p2(w) && s.len() > i >= 0 && (s[0] matches Value::BitVec(_, w0) && w0 == w) && nb(x, w) == bvl(op, vvs(s).take(i + 1))
}
pub proof fn l_bvinit(op: Operator, s: Seq<Value>, x: Integer, w: usize) requires foldop(op), hy(op, s), s.len() > 0, s[0] == Value::BitVec(x, w) ensures bvinv(op, s, 0, x@, w as int) {
    let t = vvs(s).take(1); assert(t.len() == 1); assert(t[0] == vv(s[0])); assert(canon(s[0]));
}
pub proof fn l_bop(op: Operator, x: int, y: int, w: int) requires foldop(op), 0 < w, 0 <= x < p2(w), 0 <= y < p2(w)
    ensures nb(bopv(op, x, y) % p2(w), w) == bv2(op, nb(x, w), nb(y, w)), 0 <= bopv(op, x, y) % p2(w) < p2(w)
{
    bits_ax(x, y); p2_pos(w); nb_low(bopv(op, x, y), w);
    if op == Operator::BvAdd || op == Operator::BvMul { l_arith(x, y, w); } else { l_bits(op, x, y, bopv(op, x, y), w); }
}
pub proof fn l_bvstep(op: Operator, s: Seq<Value>, i: int, acc: int, y: Integer, z: usize, r: int, w: int)
    requires foldop(op), hy(op, s), 1 <= i < s.len(), bvinv(op, s, i - 1, acc, w), s[i] == Value::BitVec(y, z), r == bopv(op, acc, y@) % p2(w)
    ensures bvinv(op, s, i, r, w)
{
    let m = choose|m: Model| #[trigger] opre(m, op, s);
    assert(opre(m, op, s));
    assert(canon(s[i]) && canon(s[0]));
    assert(vvs(s)[i] == vv(s[i]) && vvs(s)[0] == vv(s[0]));
    assert(vvs(s)[i].wd(vvs(s)[0].bits().len() as int));
    assert(z == w);
    l_bop(op, acc, y@, w);
    let t = vvs(s).take(i + 1);
    assert(t.drop_last() =~= vvs(s).take(i)); assert(t.last() == vv(s[i]));
}
pub proof fn l_bvend(op: Operator, s: Seq<Value>, r: int, w: int) requires bvinv(op, s, s.len() - 1, r, w)
    ensures r % p2(w) == r, 0 <= r < p2(w), 0 < w < 0x8000_0000, nb(r, w) == bvl(op, vvs(s))
{
    vstd::arithmetic::div_mod::lemma_small_mod(r as nat, p2(w) as nat);
    assert(vvs(s).take(s.len() as int) =~= vvs(s));
}
pub open spec fn ccinv(s: Seq<Value>, i: int, x: int, w: int) -> bool {
    &&& 0 <= i <= s.len()
    &&& x == bn(bvl(Operator::BvConcat, vvs(s).take(i)))
    &&& w == bvl(Operator::BvConcat, vvs(s).take(i)).len()
}
pub proof fn l_ccstep(s: Seq<Value>, i: int, x: int, w: int, y: Integer, z: usize, x2: int, w2: int)
    requires hy(Operator::BvConcat, s), 1 <= i <= s.len(), ccinv(s, i - 1, x, w), s[i - 1] == Value::BitVec(y, z), x2 == x * p2(z as int) + y@, w2 == w + z
    ensures ccinv(s, i, x2, w2)
{
    let op = Operator::BvConcat;
    let m = choose|m: Model| #[trigger] opre(m, op, s);
    assert(opre(m, op, s));
    assert(canon(s[i - 1]));
    let t = vvs(s).take(i);
    assert(t.drop_last() =~= vvs(s).take(i - 1)); assert(t.last() == vv(s[i - 1]));
    nb_val(y@, z as int); nbl(y@, z as int);
    if i == 1 {
        assert(t.len() == 1); assert(t[0] == vv(s[0]));
        assert(vvs(s).take(0).len() == 0); assert(x == 0 && w == 0);
        assert(0 * p2(z as int) == 0);
    } else { l_concat(bvl(op, vvs(s).take(i - 1)), y@, z as int); }
}
pub proof fn l_ccend(m: Model, s: Seq<Value>, x: int, w: int)
    requires opre(m, Operator::BvConcat, s), ccinv(s, s.len() as int, x, w)
    ensures 0 < w < 0x8000_0000, 0 <= x < p2(w), x % p2(w) == x, Val::BV(nb(x, w)) == ev_op(m, Operator::BvConcat, vvs(s))
{
    assert(vvs(s).take(s.len() as int) =~= vvs(s));
    let b = bvl(Operator::BvConcat, vvs(s));
    assert(ev_op(m, Operator::BvConcat, vvs(s)) == Val::BV(b));
    bn_bound(b); nb_bn(b);
    vstd::arithmetic::div_mod::lemma_small_mod(x as nat, p2(w) as nat);
}
pub proof fn l_ashr_use(x: int, y: int, w: int)
    requires 0 < w, 0 <= x < p2(w), 0 <= y < p2(w)
    ensures ({ let b = if y < w { y } else { w }; let r = if bitv(x, w - 1) { ior(x / p2(b), msk(b, w)) } else { x / p2(b) };
        nb(r % p2(w), w) == bv2(Operator::BvAShr, nb(x, w), nb(y, w)) && 0 <= r % p2(w) < p2(w) })
{
    let b = if y < w { y } else { w }; let r = if bitv(x, w - 1) { ior(x / p2(b), msk(b, w)) } else { x / p2(b) };
    bits_ax(x / p2(b), msk(b, w)); l_ashr(x, y, w, r); nb_low(r, w);
}
pub proof fn l_nlog(op: Operator, x: int, y: int, w: int)
    requires 0 < w, 0 <= x < p2(w), 0 <= y < p2(w)
    ensures ({ let b = match op { Operator::BvNAnd => Operator::BvAnd, Operator::BvNOr => Operator::BvOr, _ => Operator::BvXor };
        let r = (-bopv(b, x, y) - 1) % p2(w);
        op == Operator::BvNAnd || op == Operator::BvNOr || op == Operator::BvXNor ==> nb(r, w) == bv2(op, nb(x, w), nb(y, w)) && 0 <= r < p2(w) })
{
    let b = match op { Operator::BvNAnd => Operator::BvAnd, Operator::BvNOr => Operator::BvOr, _ => Operator::BvXor };
    let v = bopv(b, x, y); let p = p2(w);
    l_bop(b, x, y, w); p2_pos(w);
    let t = v % p; let q = v / p;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, p);
    assert(p * q == q * p) by (nonlinear_arith);
    assert((-q) * p == -(q * p)) by (nonlinear_arith);
    nb_mod(-t - 1, -q, w); assert(-v - 1 == -t - 1 + (-q) * p);
    nb_low(-v - 1, w); nb_low(-t - 1, w);
    l_not(t, w);
    nbl(x, w); nbl(y, w);
    l_nbits(op, nb(x, w), nb(y, w));
}
pub proof fn l_mod(a: int, b: int) requires a >= 0, b != 0 ensures a - b * trunc_div(a, b) == a % b {
    trem_abs(a, b);
    if b < 0 { mod_neg(a, b); }
}
pub proof fn mod_neg(a: int, b: int) requires b < 0 ensures a % b == a % (-b) {
    let (c, q, r) = (-b, a / (-b), a % (-b));
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, c);
    vstd::arithmetic::div_mod::lemma_mod_bound(a, c);
    assert(c * q == b * (-q)) by (nonlinear_arith) requires c == -b;
    mod_neg_uniq(a, b, -q, r);
}
pub proof fn mod_neg_uniq(a: int, b: int, q: int, r: int) requires b < 0, a == b * q + r, 0 <= r < -b ensures a % b == r {
    let (q2, r2) = (a / b, a % b);
    assert(a == b * q2 + r2 && 0 <= r2 < -b) by (nonlinear_arith) requires b < 0, q2 == a / b, r2 == a % b;
    assert(b * (q - q2) == r2 - r) by (nonlinear_arith) requires b * q + r == b * q2 + r2;
    assert(q == q2) by (nonlinear_arith) requires b * (q - q2) == r2 - r, -(-b) < r2 - r < -b, b < 0;
}
pub proof fn l_floor(a: real, f: real) requires is_int(f), f <= a, a < f + 1real ensures f == rfloor(a) as real {
    let i = choose|i: int| #[trigger] i2r(i) == f;
    assert(i2r(i) <= a && a < i2r(i) + 1real);
    let j = rfloor(a);
    assert(i2r(j) <= a && a < i2r(j) + 1real);
    assert(i == j);
}
pub open spec fn isbit(op: Operator, v: Value) -> bool { if op == Operator::BvBbTerm { v is Bool } else { v is Integer } }
pub open spec fn bitval(op: Operator, v: Value) -> bool { match v { Value::Bool(b) => b, Value::Integer(i) => i@ == 1, _ => false } }
pub open spec fn bbs(op: Operator, s: Seq<Value>, i: int) -> Seq<bool> { Seq::new(i as nat, |k: int| bitval(op, s[k])) }
pub open spec fn bbinv(op: Operator, s: Seq<Value>, i: int, x: int) -> bool { 0 <= i <= s.len() && (s.len() < 0x8000_0000 ==> x == bn(bbs(op, s, i))) && forall|k: int| 0 <= k < i ==> isbit(op, #[trigger] s[k]) }
pub proof fn l_bbstep(op: Operator, s: Seq<Value>, i: int, x: int) requires 1 <= i <= s.len(), bbinv(op, s, i - 1, x), isbit(op, s[i - 1])
    ensures ({ let b = bitval(op, s[i - 1]); let j = i - 1; s.len() < 0x8000_0000 ==> bbinv(op, s, i, x + (if b == bitv(x, j) { 0 } else if b { p2(j) } else { -p2(j) })) })
{
    let t = bbs(op, s, i - 1);
    if s.len() < 0x8000_0000 {
    bits_of(t, i - 1);
    let u = bbs(op, s, i);
    assert(u.drop_last() =~= t); assert(u.last() == bitval(op, s[i - 1]));
    let p = p2(i - 1);
    assert(b2i(u.last()) * p == (if u.last() { p } else { 0 })) by (nonlinear_arith) requires b2i(u.last()) == (if u.last() { 1int } else { 0int });
    }
}
pub proof fn l_bbend(m: Model, op: Operator, s: Seq<Value>, x: int) requires op == Operator::BvBbTerm || op == Operator::BvPBbTerm, opre(m, op, s), bbinv(op, s, s.len() as int, x)
    ensures 0 <= x < p2(s.len() as int), 0 < s.len() < 0x8000_0000, Val::BV(nb(x, s.len() as int)) == ev_op(m, op, vvs(s))
{
    let t = bbs(op, s, s.len() as int); bn_bound(t); nb_bn(t); i2r_hom();
    let v = vvs(s);
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] t[k] == (if op == Operator::BvBbTerm { v[k].tt() } else { v[k].num() == 1real }) by { assert(v[k] == vv(s[k])); assert(isbit(op, s[k])); }
    if op == Operator::BvBbTerm { assert(t =~= Seq::new(v.len(), |i: int| v[i].tt())); } else { assert(t =~= Seq::new(v.len(), |i: int| v[i].num() == 1real)); }
}
pub proof fn l_cmp(op: Operator, s: Seq<Value>, r: Value)
    requires op == Operator::LessThan || op == Operator::GreaterThan || op == Operator::LessEq || op == Operator::GreaterEq,
        r == Value::Bool(forall|j: int| 0 <= j < s.len() - 1 ==> cmpj(op, s, #[trigger] ix(j))),
    ensures good_op(op, s, r)
{
    reveal(good_op);
    let v = vvs(s);
    let b = forall|j: int| 0 <= j < s.len() - 1 ==> cmpj(op, s, #[trigger] ix(j));
    if op == Operator::LessThan {
        assert forall|m: Model| #[trigger] opre(m, op, s) implies opost(m, op, s, r) by {
            assert forall|j: int| 0 <= j < s.len() - 1 implies cmpj(op, s, #[trigger] ix(j)) == (v[j].num() < v[j + 1].num()) by {}
            let d = forall|j: int| 0 <= j < v.len() - 1 ==> (#[trigger] v[j]).num() < v[j + 1].num();
            if b { assert forall|j: int| 0 <= j < v.len() - 1 implies (#[trigger] v[j]).num() < v[j + 1].num() by { assert(cmpj(op, s, ix(j))); } assert(d); }
            else { let j = choose|j: int| 0 <= j < s.len() - 1 && !cmpj(op, s, #[trigger] ix(j)); assert(!(v[j].num() < v[j + 1].num())); assert(!d); }
            assert(ev_op(m, op, v) == Val::B(d));
        }
    }
    if op == Operator::GreaterThan {
        assert forall|m: Model| #[trigger] opre(m, op, s) implies opost(m, op, s, r) by {
            assert forall|j: int| 0 <= j < s.len() - 1 implies cmpj(op, s, #[trigger] ix(j)) == (v[j].num() > v[j + 1].num()) by {}
            let d = forall|j: int| 0 <= j < v.len() - 1 ==> (#[trigger] v[j]).num() > v[j + 1].num();
            if b { assert forall|j: int| 0 <= j < v.len() - 1 implies (#[trigger] v[j]).num() > v[j + 1].num() by { assert(cmpj(op, s, ix(j))); } assert(d); }
            else { let j = choose|j: int| 0 <= j < s.len() - 1 && !cmpj(op, s, #[trigger] ix(j)); assert(!(v[j].num() > v[j + 1].num())); assert(!d); }
            assert(ev_op(m, op, v) == Val::B(d));
        }
    }
    if op == Operator::LessEq {
        assert forall|m: Model| #[trigger] opre(m, op, s) implies opost(m, op, s, r) by {
            assert forall|j: int| 0 <= j < s.len() - 1 implies cmpj(op, s, #[trigger] ix(j)) == (v[j].num() <= v[j + 1].num()) by {}
            let d = forall|j: int| 0 <= j < v.len() - 1 ==> (#[trigger] v[j]).num() <= v[j + 1].num();
            if b { assert forall|j: int| 0 <= j < v.len() - 1 implies (#[trigger] v[j]).num() <= v[j + 1].num() by { assert(cmpj(op, s, ix(j))); } assert(d); }
            else { let j = choose|j: int| 0 <= j < s.len() - 1 && !cmpj(op, s, #[trigger] ix(j)); assert(!(v[j].num() <= v[j + 1].num())); assert(!d); }
            assert(ev_op(m, op, v) == Val::B(d));
        }
    }
    if op == Operator::GreaterEq {
        assert forall|m: Model| #[trigger] opre(m, op, s) implies opost(m, op, s, r) by {
            assert forall|j: int| 0 <= j < s.len() - 1 implies cmpj(op, s, #[trigger] ix(j)) == (v[j].num() >= v[j + 1].num()) by {}
            let d = forall|j: int| 0 <= j < v.len() - 1 ==> (#[trigger] v[j]).num() >= v[j + 1].num();
            if b { assert forall|j: int| 0 <= j < v.len() - 1 implies (#[trigger] v[j]).num() >= v[j + 1].num() by { assert(cmpj(op, s, ix(j))); } assert(d); }
            else { let j = choose|j: int| 0 <= j < s.len() - 1 && !cmpj(op, s, #[trigger] ix(j)); assert(!(v[j].num() >= v[j + 1].num())); assert(!d); }
            assert(ev_op(m, op, v) == Val::B(d));
        }
    }
}

/// k copies of a bit-vector
pub open spec fn repinv(s: Seq<bool>, k: int, x: int) -> bool { k >= 0 && x == bn(brep(s, k)) }
pub proof fn l_repstep(s: Seq<bool>, k: int, x: int) requires k >= 1, repinv(s, k - 1, x) ensures repinv(s, k, x * p2(s.len() as int) + bn(s)) {
    bn_cat(s, brep(s, k - 1)); let p = p2(s.len() as int);
    assert(x * p == p * x) by (nonlinear_arith);
}
pub proof fn brep_len(s: Seq<bool>, k: int) requires k >= 0 ensures brep(s, k).len() == k * s.len() decreases k {
    if k > 0 { brep_len(s, k - 1); let n = s.len() as int; assert(k * n == (k - 1) * n + n) by (nonlinear_arith); } else { assert(0 * s.len() == 0); }
}
pub proof fn l_repend(s: Seq<bool>, k: int, x: int) requires repinv(s, k, x) ensures brep(s, k).len() == k * s.len(), nb(x, k * s.len()) == brep(s, k), x % p2(k * s.len()) == x, 0 <= x < p2(k * s.len()) {
    let b = brep(s, k); brep_len(s, k); bn_bound(b); nb_bn(b); vstd::arithmetic::div_mod::lemma_small_mod(x as nat, p2(b.len() as int) as nat);
}
