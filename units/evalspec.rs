// ===================== evaluation (specification) =====================
pub open spec fn vv(v: Value) -> Val {
    match v {
        Value::Bool(b) => Val::B(b),
        Value::Integer(i) => Val::N(i2r(i@)),
        Value::Real(r) => Val::N(r@),
        Value::String(s) => Val::S(s@),
        Value::BitVec(x, w) => Val::BV(nb(x@, w as int)),
    }
}
/// integer, real or other
pub open spec fn vk(v: Value) -> int { match v { Value::Integer(_) => 1, Value::Real(_) => 2, _ => 0 } }
pub open spec fn canon(v: Value) -> bool { v matches Value::BitVec(x, w) ==> 0 < w < 0x8000_0000 && 0 <= x@ < p2(w as int) }
pub open spec fn vvz(v: Value) -> bool { (v matches Value::Integer(i) && i@ == 0) || (v matches Value::Real(r) && r@ == 0real) }
pub open spec fn vvs(s: Seq<Value>) -> Seq<Val> { Seq::new(s.len(), |i: int| vv(s[i])) }
pub open spec fn vks(s: Seq<Value>) -> Seq<int> { Seq::new(s.len(), |i: int| vk(s[i])) }
/// the value a literal stands for
pub open spec fn lit(t: Term) -> Option<Value> {
    match t {
        Term::Const(Constant::Integer(i)) => Some(Value::Integer(i)),
        Term::Const(Constant::Real(r)) => Some(Value::Real(r)),
        Term::Const(Constant::String(s)) => Some(Value::String(s)),
        Term::Const(Constant::BitVec(x, w)) => Some(Value::BitVec(x, w)),
        Term::Op(Operator::True, _) => Some(Value::Bool(true)),
        Term::Op(Operator::False, _) => Some(Value::Bool(false)),
        _ => None,
    }
}
pub open spec fn is_lits(s: Seq<Rc<Term>>, v: Seq<Value>) -> bool { s.len() == v.len() && forall|i: int| 0 <= i < s.len() ==> lit(*(#[trigger] s[i]).0) == Some(v[i]) }
/// the kind of number an operation yields (0: not a number)
pub open spec fn opkind(op: Operator, k: Seq<int>) -> int {
    match op {
        Operator::Add | Operator::Sub | Operator::Mult => if exists|i: int| 0 <= i < k.len() && #[trigger] k[i] == 2 { 2 } else { 1 },
        Operator::RealDiv | Operator::ToReal => 2,
        Operator::IntDiv | Operator::Mod | Operator::Pow2 | Operator::Log2 | Operator::ToInt | Operator::UBvToInt | Operator::SBvToInt | Operator::BvSize => 1,
        Operator::Abs => k[0],
        Operator::Ite => k[1],
        _ => 0,
    }
}
pub open spec fn popkind(op: ParamOperator) -> int { if op == ParamOperator::BvIntOf { 1 } else { 0 } }
/// bit-vectors have at least one bit, and widths fit in 31 bits
pub open spec fn okv(v: Val) -> bool { v is BV ==> 0 < v.bits().len() < 0x8000_0000 }
/// well-sortedness that values do not show: the arguments of an equality and the branches of a conditional are of one sort
pub open spec fn kok(op: Operator, k: Seq<int>) -> bool {
    match op {
        Operator::Equals | Operator::Distinct => forall|i: int, j: int| 0 <= i < k.len() && 0 <= j < k.len() ==> #[trigger] k[i] == #[trigger] k[j],
        Operator::Ite => k.len() == 3 && k[1] == k[2],
        Operator::RealDiv => k.len() >= 2,
        Operator::Implies => k.len() >= 1,
        Operator::BvBbTerm | Operator::BvPBbTerm => 0 < k.len() < 0x8000_0000,
        _ => true,
    }
}
/// the known finding: the remainder of a negative dividend
pub open spec fn mod_ok(op: Operator, v: Seq<Val>) -> bool { op == Operator::Mod ==> v[0].num() >= 0real }
pub open spec fn opre(m: Model, op: Operator, s: Seq<Value>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> canon(#[trigger] s[i])) && ty_op(op, vvs(s)) && kok(op, vks(s)) && okv(ev_op(m, op, vvs(s))) && mod_ok(op, vvs(s))
}
pub open spec fn opost(m: Model, op: Operator, s: Seq<Value>, v: Value) -> bool {
    canon(v) && vv(v) == ev_op(m, op, vvs(s)) && vk(v) == opkind(op, vks(s))
}
#[verifier::opaque]
pub open spec fn good_op(op: Operator, s: Seq<Value>, v: Value) -> bool { forall|m: Model| #[trigger] opre(m, op, s) ==> opost(m, op, s, v) }
pub open spec fn ixs(s: Seq<Value>) -> Seq<Term> { Seq::new(s.len(), |i: int| match s[i] { Value::Integer(n) => Term::Const(Constant::Integer(n)), _ => Term::Const(Constant::String(arbitrary())) }) }
pub open spec fn ppre(m: Model, op: ParamOperator, ix: Seq<Value>, s: Seq<Value>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> canon(#[trigger] s[i])) && ty_pop(op, ixs(ix), vvs(s)) && okv(ev_pop(m, op, ixs(ix), vvs(s)))
}
pub open spec fn ppost(m: Model, op: ParamOperator, ix: Seq<Value>, s: Seq<Value>, v: Value) -> bool {
    canon(v) && vv(v) == ev_pop(m, op, ixs(ix), vvs(s)) && vk(v) == popkind(op)
}
#[verifier::opaque]
pub open spec fn good_pop(op: ParamOperator, ix: Seq<Value>, s: Seq<Value>, v: Value) -> bool { forall|m: Model| #[trigger] ppre(m, op, ix, s) ==> ppost(m, op, ix, s, v) }
// ---- arithmetic of representations
pub proof fn r2i_is(i: int) ensures r2i(i2r(i)) == i, is_int(i2r(i)) { assert(i2r(i) == i2r(i)); let j = r2i(i2r(i)); assert(i2r(j) == i2r(i)); }
pub proof fn mod_split(v: int, p: int) requires p > 0 ensures v % (p * 2) == p * ((v / p) % 2) + v % p {
    let (q, r) = (v / p, v % p);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, p);
    vstd::arithmetic::div_mod::lemma_mod_bound(v, p);
    let (q2, r2) = (q / 2, q % 2);
    assert(q == 2 * q2 + r2 && 0 <= r2 < 2);
    assert(p * q == (p * 2) * q2 + p * r2) by (nonlinear_arith) requires q == 2 * q2 + r2;
    assert(0 <= p * r2 + r < p * 2) by (nonlinear_arith) requires 0 <= r2 < 2, 0 <= r < p;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v, p * 2, q2, p * r2 + r);
}
pub proof fn bn_nb(v: int, n: int) requires n >= 0 ensures bn(nb(v, n)) == v % p2(n), nb(v, n).len() == n decreases n {
    if n == 0 { assert(p2(0) == 1); } else {
        bn_nb(v, n - 1); p2_pos(n - 1);
        assert(nb(v, n).drop_last() =~= nb(v, n - 1));
        let (p, q) = (p2(n - 1), v / p2(n - 1));
        mod_split(v, p);
        assert(p * 2 == p2(n));
        assert(nb(v, n).last() == (q % 2 == 1));
        assert(p * (q % 2) == b2i(q % 2 == 1) * p) by (nonlinear_arith) requires q % 2 == 0 || q % 2 == 1;
    }
}
/// the canonical representation of v
pub proof fn nb_low(v: int, n: int) requires n >= 0 ensures nb(v % p2(n), n) == nb(v, n), 0 <= v % p2(n) < p2(n), bn(nb(v, n)) == v % p2(n) {
    bn_nb(v, n); nb_bn(nb(v, n)); p2_pos(n);
    vstd::arithmetic::div_mod::lemma_mod_bound(v, p2(n));
}
pub proof fn nb_val(v: int, n: int) requires n >= 0, 0 <= v < p2(n) ensures bn(nb(v, n)) == v {
    bn_nb(v, n); vstd::arithmetic::div_mod::lemma_small_mod(v as nat, p2(n) as nat);
}

/// v is congruent to the value of s
pub proof fn rep(s: Seq<bool>, v: int, k: int) requires v == bn(s) + k * p2(s.len() as int) ensures nb(v % p2(s.len() as int), s.len() as int) == s {
    nb_is(s, v, k); nb_low(v, s.len() as int);
}
/// the bits of a non-negative number below 2^n, and of its representation
pub proof fn bits_of(s: Seq<bool>, i: int) requires 0 <= i ensures bitv(bn(s), i) == (i < s.len() && s[i]) {
    bn_bound(s); p2_pos(i);
    if i < s.len() { nb_bn(s); assert(nb(bn(s), s.len() as int)[i] == bitv(bn(s), i)); }
    else { p2_add(s.len() as int, i - s.len()); p2_pos(i - s.len()); p2_pos(s.len() as int);
        let (a, b) = (p2(s.len() as int), p2(i - s.len()));
        assert(a <= a * b) by (nonlinear_arith) requires a >= 1, b >= 1;
        vstd::arithmetic::div_mod::lemma_basic_div(bn(s), p2(i)); }
}
pub proof fn bitv_div(v: int, b: int, i: int) requires v >= 0, b >= 0, i >= 0 ensures bitv(v / p2(b), i) == bitv(v, i + b) {
    p2_pos(b); p2_pos(i); p2_add(b, i);
    vstd::arithmetic::div_mod::lemma_div_denominator(v, p2(b), p2(i));
}
pub proof fn bitv_mod(v: int, n: int, i: int) requires 0 <= i < n ensures bitv(v % p2(n), i) == bitv(v, i) {
    nb_low(v, n);
    assert(nb(v % p2(n), n)[i] == bitv(v % p2(n), i)); assert(nb(v, n)[i] == bitv(v, i));
}
pub proof fn bitv_not(v: int, i: int) requires i >= 0 ensures bitv(-v - 1, i) == !bitv(v, i) {
    let p = p2(i); p2_pos(i);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, p); vstd::arithmetic::div_mod::lemma_mod_bound(v, p);
    let (q, r) = (v / p, v % p);
    assert(p * (-q - 1) == -(p * q) - p) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-v - 1, p, -q - 1, p - 1 - r);
}
pub proof fn ones(n: int) requires n >= 0 ensures bn(Seq::new(n as nat, |i: int| true)) == p2(n) - 1 {
    let z = Seq::new(n as nat, |i: int| false);
    bn_zero(n); bn_not(z);
    assert(bnot(z) =~= Seq::new(n as nat, |i: int| true));
}
