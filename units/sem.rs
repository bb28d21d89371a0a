pub mod semm {
use super::*;
// ===================== meaning of terms (specification) =====================
pub enum Val { B(bool), N(real), BV(Seq<bool>), S(Seq<char>), U(int) }
pub struct Model {
    pub var: spec_fn(Seq<char>, Term) -> Val,
    pub app: spec_fn(Val, Seq<Val>) -> Val,
    pub op: spec_fn(Operator, Seq<Val>) -> Val,
    pub pop: spec_fn(ParamOperator, Seq<Term>, Seq<Val>) -> Val,
    pub other: spec_fn(Term) -> Val,
    /// the value that stands for a function, given by the sorts of its parameters and its results
    pub lam: spec_fn(Seq<Term>, spec_fn(Seq<Val>) -> Val) -> Val,
    pub dom: spec_fn(Term, Val) -> bool,
    /// division by zero
    pub div0: spec_fn(Operator, real) -> real,
}
impl Val {
    pub open spec fn tt(self) -> bool { self == Val::B(true) }
    pub open spec fn isb(self) -> bool { self is B }
    pub open spec fn bits(self) -> Seq<bool> { match self { Val::BV(s) => s, _ => Seq::empty() } }
    pub open spec fn wd(self, n: int) -> bool { self is BV && self.bits().len() == n }
    pub open spec fn num(self) -> real { match self { Val::N(r) => r, _ => 0real } }
}
pub open spec fn const_val(c: Constant) -> Val {
    match c {
        Constant::Integer(i) => Val::N(i@ as real),
        Constant::Real(r) => Val::N(r@),
        Constant::String(s) => Val::S(s@),
        Constant::BitVec(v, w) => Val::BV(nb(v@, w as int)),
    }
}
#[verifier::opaque]
pub open spec fn ev(m: Model, t: Term) -> Val
    decreases t, 0int
{
    match t {
        Term::Const(c) => const_val(c),
        Term::Op(op, args) => ev_op(m, op, ev_seq(m, args@)),
        Term::App(f, args) => (m.app)(ev(m, *f.0), ev_seq(m, args@)),
        Term::ParamOp { op, op_args, args } => ev_pop(m, op, Seq::new(op_args@.len(), |i: int| *op_args@[i].0), ev_seq(m, args@)),
        Term::Var(n, s) => (m.var)(n@, *s.0),
        Term::Binder(Binder::Forall, bs, inner) => Val::B(forall_tt(m, bs.0@, *inner.0)),
        Term::Binder(Binder::Exists, bs, inner) => Val::B(exists_tt(m, bs.0@, *inner.0)),
        Term::Binder(Binder::Choice, bs, inner) => choice_val(m, bs.0@, *inner.0),
        Term::Binder(Binder::Lambda, bs, inner) => lambda_val(m, bs.0@, *inner.0),
        Term::Let(bs, inner) => ev(upd_let(m, bs.0@, ev_binds(m, bs.0@)), *inner.0),
        _ => (m.other)(t),
    }
}
/// the values of the definitions of a (parallel) `let`
pub open spec fn ev_binds(m: Model, s: Seq<(String, Rc<Term>)>) -> Seq<Val>
    decreases s, 0int
{
    Seq::new(s.len(), |i: int| if 0 <= i < s.len() { ev(m, *s[i].1.0) } else { Val::B(false) })
}
/// the variables a `let` defines have the sorts of their definitions
pub open spec fn upd_let(m: Model, bs: Seq<(String, Rc<Term>)>, vs: Seq<Val>) -> Model {
    Model { var: |n: Seq<char>, s: Term| match last_let(bs, n, s) { Some(i) => vs[i], None => (m.var)(n, s) }, ..m }
}
pub open spec fn last_let(bs: Seq<(String, Rc<Term>)>, n: Seq<char>, s: Term) -> Option<int>
    decreases bs.len()
{
    if bs.len() == 0 { None } else if bs.last().0@ == n && sort_of(*bs.last().1.0) == s { Some(bs.len() - 1) } else { last_let(bs.drop_last(), n, s) }
}
pub open spec fn ev_seq(m: Model, s: Seq<Rc<Term>>) -> Seq<Val>
    decreases s, 0int
{
    Seq::new(s.len(), |i: int| if 0 <= i < s.len() { ev(m, *s[i].0) } else { Val::B(false) })
}

pub open spec fn forall_tt(m: Model, bs: Seq<(String, Rc<Term>)>, inner: Term) -> bool
    decreases inner, 1int
{
    forall|vs: Seq<Val>| #[trigger] binds_ok(m, bs, vs) ==> ev(upd(m, bs, vs), inner).tt()
}
pub open spec fn exists_tt(m: Model, bs: Seq<(String, Rc<Term>)>, inner: Term) -> bool
    decreases inner, 1int
{
    exists|vs: Seq<Val>| #[trigger] binds_ok(m, bs, vs) && ev(upd(m, bs, vs), inner).tt()
}
/// some value of the (only) variable that satisfies the body, if there is one
pub open spec fn choice_val(m: Model, bs: Seq<(String, Rc<Term>)>, inner: Term) -> Val
    decreases inner, 1int
{
    pick(|vs: Seq<Val>| binds_ok(m, bs, vs) && ev(upd(m, bs, vs), inner).tt())[0]
}
pub open spec fn lambda_val(m: Model, bs: Seq<(String, Rc<Term>)>, inner: Term) -> Val
    decreases inner, 1int
{
    (m.lam)(Seq::new(bs.len(), |i: int| *bs[i].1.0), |vs: Seq<Val>| if binds_ok(m, bs, vs) { ev(upd(m, bs, vs), inner) } else { Val::U(0) })
}
/// the same choice for the same set of values
pub open spec fn pick(p: spec_fn(Seq<Val>) -> bool) -> Seq<Val> { choose|vs: Seq<Val>| #[trigger] p(vs) }
/// values for the variables of a binder, taken from the domains of their sorts
pub open spec fn binds_ok(m: Model, bs: Seq<(String, Rc<Term>)>, vs: Seq<Val>) -> bool {
    vs.len() == bs.len() && forall|i: int| 0 <= i < vs.len() ==> (m.dom)(*bs[i].1.0, #[trigger] vs[i])
}
/// the model with the variables of a binder (re)bound; the last binding of a name wins
pub open spec fn upd(m: Model, bs: Seq<(String, Rc<Term>)>, vs: Seq<Val>) -> Model {
    Model { var: |n: Seq<char>, s: Term| match last_bind(bs, n, s) { Some(i) => vs[i], None => (m.var)(n, s) }, ..m }
}
pub open spec fn last_bind(bs: Seq<(String, Rc<Term>)>, n: Seq<char>, s: Term) -> Option<int>
    decreases bs.len()
{
    if bs.len() == 0 { None } else if bs.last().0@ == n && *bs.last().1.0 == s { Some(bs.len() - 1) } else { last_bind(bs.drop_last(), n, s) }
}
pub open spec fn ev_op(m: Model, op: Operator, v: Seq<Val>) -> Val {
    match op {
        Operator::True => Val::B(true),
        Operator::False => Val::B(false),
        Operator::Not => Val::B(!v[0].tt()),
        Operator::And => Val::B(all_tt(v)),
        Operator::Or => Val::B(some_tt(v)),
        Operator::Xor => Val::B(xor_tt(v)),
        Operator::Implies => Val::B(implies_tt(v)),
        Operator::Equals => Val::B(all_eq(v)),
        Operator::Distinct => Val::B(pairwise_ne(v)),
        Operator::Ite => if v[0].tt() { v[1] } else { v[2] },
        Operator::BvBbTerm => Val::BV(Seq::new(v.len(), |i: int| v[i].tt())),
        Operator::BvPBbTerm => Val::BV(Seq::new(v.len(), |i: int| v[i].num() == 1real)),
        Operator::BvNot => Val::BV(bnot(v[0].bits())),
        Operator::BvNeg => Val::BV(bvneg(v[0].bits())),
        Operator::BvAnd | Operator::BvOr | Operator::BvXor | Operator::BvXNor | Operator::BvNAnd | Operator::BvNOr | Operator::BvAdd | Operator::BvSub
        | Operator::BvMul | Operator::BvUDiv | Operator::BvURem | Operator::BvShl | Operator::BvLShr | Operator::BvAShr | Operator::BvSDiv
        | Operator::BvSRem | Operator::BvSMod | Operator::BvConcat | Operator::BvComp => Val::BV(bvl(op, v)),
        Operator::BvULt => Val::B(bn(v[0].bits()) < bn(v[1].bits())),
        Operator::BvULe => Val::B(bn(v[0].bits()) <= bn(v[1].bits())),
        Operator::BvUGt => Val::B(bn(v[0].bits()) > bn(v[1].bits())),
        Operator::BvUGe => Val::B(bn(v[0].bits()) >= bn(v[1].bits())),
        Operator::BvSLt => Val::B(sn(v[0].bits()) < sn(v[1].bits())),
        Operator::BvSLe => Val::B(sn(v[0].bits()) <= sn(v[1].bits())),
        Operator::BvSGt => Val::B(sn(v[0].bits()) > sn(v[1].bits())),
        Operator::BvSGe => Val::B(sn(v[0].bits()) >= sn(v[1].bits())),
        Operator::Add => Val::N(sum_n(v)),
        Operator::Sub => Val::N(if v.len() == 1 { -v[0].num() } else { v[0].num() - sum_n(v.drop_first()) }),
        Operator::Mult => Val::N(prod_n(v)),
        Operator::RealDiv => Val::N(quot_n(m, op, v)),
        Operator::IntDiv => Val::N(quot_n(m, op, v)),
        Operator::Mod => Val::N(if v[1].num() == 0real { (m.div0)(op, v[0].num()) } else { (r2i(v[0].num()) % r2i(v[1].num())) as real }),
        Operator::Abs => Val::N(if v[0].num() < 0real { -v[0].num() } else { v[0].num() }),
        Operator::LessThan => Val::B(forall|i: int| 0 <= i < v.len() - 1 ==> (#[trigger] v[i]).num() < v[i + 1].num()),
        Operator::LessEq => Val::B(forall|i: int| 0 <= i < v.len() - 1 ==> (#[trigger] v[i]).num() <= v[i + 1].num()),
        Operator::GreaterThan => Val::B(forall|i: int| 0 <= i < v.len() - 1 ==> (#[trigger] v[i]).num() > v[i + 1].num()),
        Operator::GreaterEq => Val::B(forall|i: int| 0 <= i < v.len() - 1 ==> (#[trigger] v[i]).num() >= v[i + 1].num()),
        Operator::ToReal => Val::N(v[0].num()),
        Operator::ToInt => Val::N(rfloor(v[0].num()) as real),
        Operator::IsInt => Val::B(is_int(v[0].num())),
        Operator::Pow2 => Val::N(if v[0].num() < 0real { 0real } else { i2r(p2(r2i(v[0].num()))) }),
        Operator::Log2 => Val::N(i2r(ilog2(r2i(v[0].num())))),
        Operator::IsPow2 => Val::B(ispow2(r2i(v[0].num()))),
        Operator::UBvToInt => Val::N(i2r(bn(v[0].bits()))),
        Operator::SBvToInt => Val::N(i2r(sn(v[0].bits()))),
        Operator::BvSize => Val::N(i2r(v[0].bits().len() as int)),
        Operator::BvConst => Val::BV(nb(r2i(v[0].num()), r2i(v[1].num()))),
        _ => (m.op)(op, v),
    }
}
pub open spec fn sum_n(v: Seq<Val>) -> real decreases v.len() { if v.len() == 0 { 0real } else { sum_n(v.drop_last()) + v.last().num() } }
pub open spec fn prod_n(v: Seq<Val>) -> real decreases v.len() { if v.len() == 0 { 1real } else { prod_n(v.drop_last()) * v.last().num() } }
/// the integer equal to a real (for reals that are integers)
pub open spec fn r2i(r: real) -> int { choose|i: int| #[trigger] i2r(i) == r }
pub open spec fn rfloor(r: real) -> int { choose|i: int| #[trigger] i2r(i) <= r && r < i2r(i) + 1real }
/// left-associative division; `div` is the Euclidean one
pub open spec fn quot2(m: Model, op: Operator, a: real, b: real) -> real {
    if b == 0real { (m.div0)(op, a) } else if op == Operator::RealDiv { a / b } else { (r2i(a) / r2i(b)) as real }
}
pub open spec fn quot_n(m: Model, op: Operator, v: Seq<Val>) -> real decreases v.len() {
    if v.len() == 0 { 0real } else if v.len() == 1 { v[0].num() } else { quot2(m, op, quot_n(m, op, v.drop_last()), v.last().num()) }
}
pub open spec fn is01(v: Val) -> bool { v == Val::N(0real) || v == Val::N(1real) }
/// the value of an index
pub open spec fn ixv(t: Term) -> int { match t { Term::Const(Constant::Integer(i)) => i@, _ => 0 } }
pub open spec fn ev_pop(m: Model, op: ParamOperator, ix: Seq<Term>, v: Seq<Val>) -> Val {
    match op {
        ParamOperator::BvBitOf => Val::B(v[0].bits()[ixv(ix[0])]),
        ParamOperator::BvIntOf => Val::N(if v[0].bits()[ixv(ix[0])] { 1real } else { 0real }),
        ParamOperator::BvExtract => Val::BV(v[0].bits().subrange(ixv(ix[1]), ixv(ix[0]) + 1)),
        ParamOperator::SignExtend => Val::BV(v[0].bits() + Seq::new(ixv(ix[0]) as nat, |i: int| bneg(v[0].bits()))),
        ParamOperator::ZeroExtend => Val::BV(v[0].bits() + Seq::new(ixv(ix[0]) as nat, |i: int| false)),
        ParamOperator::RotateRight => Val::BV(rotr(v[0].bits(), ixv(ix[0]))),
        ParamOperator::RotateLeft => Val::BV(rotr(v[0].bits(), -ixv(ix[0]))),
        ParamOperator::Repeat => Val::BV(brep(v[0].bits(), ixv(ix[0]))),
        ParamOperator::IntToBv => Val::BV(nb(r2i(v[0].num()), ixv(ix[0]))),
        ParamOperator::BvConst => Val::BV(nb(ixv(ix[0]), ixv(ix[1]))),
        _ => (m.pop)(op, ix, v),
    }
}
pub open spec fn all_tt(v: Seq<Val>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).tt() }
pub open spec fn some_tt(v: Seq<Val>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).tt() }
pub open spec fn xor_tt(v: Seq<Val>) -> bool decreases v.len() {
    if v.len() == 0 { false } else { xor_tt(v.drop_last()) != v.last().tt() }
}
/// right associative; the last element is the conclusion
pub open spec fn implies_tt(v: Seq<Val>) -> bool {
    (exists|i: int| 0 <= i < v.len() - 1 && !(#[trigger] v[i]).tt()) || v[v.len() - 1].tt()
}
pub open spec fn all_eq(v: Seq<Val>) -> bool { forall|i: int| 0 <= i < v.len() - 1 ==> #[trigger] v[i] == v[i + 1] }
pub open spec fn pairwise_ne(v: Seq<Val>) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] != #[trigger] v[j]
}

/// semantic typing of a term in a model: every argument of a Boolean connective is Boolean, both sides of an
/// equality have values of the same kind (implied by well-sortedness, which the parser enforces)
#[verifier::opaque]
pub open spec fn ty(m: Model, t: Term) -> bool
    decreases t
{
    (sort_of(t) matches Term::Sort(Sort::BitVec(w)) ==> w > 0 && ev(m, t).wd(w as int))
    && (sort_of(t) == Term::Sort(Sort::Int) ==> ev(m, t) is N && is_int(ev(m, t).num()))
    && (sort_of(t) == Term::Sort(Sort::Real) ==> ev(m, t) is N)
    // numerals have no sign: negative numbers are written (- n)
    && (num_const(t) matches Some(q) ==> q >= 0real) && match t {
        Term::Op(op, args) => ty_op(op, ev_seq(m, args@))
            && (op == Operator::Ite && args@.len() == 3 ==> sort_of(*args@[1].0) == sort_of(*args@[2].0))
            && (forall|i: int| 0 <= i < args@.len() ==> ty(m, *(#[trigger] args@[i]).0)),
        Term::App(f, args) => (forall|i: int| 0 <= i < args@.len() ==> ty(m, *(#[trigger] args@[i]).0)),
        Term::ParamOp { op, op_args, args } => ty_pop(op, Seq::new(op_args@.len(), |i: int| *op_args@[i].0), ev_seq(m, args@))
            && (forall|i: int| 0 <= i < args@.len() ==> ty(m, *(#[trigger] args@[i]).0)),
        Term::Binder(_, bs, inner) => forall|vs: Seq<Val>| #[trigger] binds_ok(m, bs.0@, vs) ==> ty(upd(m, bs.0@, vs), *inner.0),
        Term::Let(bs, inner) => ty(upd_let(m, bs.0@, ev_binds(m, bs.0@)), *inner.0) && (forall|i: int| 0 <= i < bs.0@.len() ==> ty(m, *(#[trigger] bs.0@[i]).1.0)),
        _ => true,
    }
}
pub open spec fn ty_op(op: Operator, v: Seq<Val>) -> bool {
    match op {
        Operator::Not => v.len() == 1 && v[0].isb(),
        Operator::And | Operator::Or | Operator::Xor | Operator::Implies => forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).isb(),
        Operator::Equals | Operator::Distinct => forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() ==> (#[trigger] v[i]).isb() == (#[trigger] v[j]).isb() && (v[i] is BV) == (v[j] is BV) && v[i].bits().len() == v[j].bits().len(),
        Operator::Ite => v.len() == 3 && v[0].isb() && v[1].isb() == v[2].isb(),
        Operator::BvBbTerm => forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).isb(),
        // the bits of a pseudo-Boolean vector are 0 or 1
        Operator::BvPBbTerm => forall|i: int| 0 <= i < v.len() ==> is01(#[trigger] v[i]),
        Operator::Add | Operator::Sub | Operator::Mult | Operator::RealDiv | Operator::LessThan | Operator::LessEq | Operator::GreaterThan | Operator::GreaterEq
            => v.len() >= 1 && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is N,
        Operator::IntDiv | Operator::Mod => v.len() >= 2 && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is N && is_int(v[i].num()),
        Operator::ToReal => v.len() == 1 && v[0] is N && is_int(v[0].num()),
        Operator::Abs | Operator::ToInt | Operator::IsInt => v.len() == 1 && v[0] is N,
        Operator::Pow2 | Operator::Log2 | Operator::IsPow2 => v.len() == 1 && v[0] is N && is_int(v[0].num()),
        Operator::BvConst => v.len() == 2 && v[0] is N && is_int(v[0].num()) && v[1] is N && is_int(v[1].num()) && v[1].num() > 0real,
        Operator::UBvToInt | Operator::SBvToInt | Operator::BvSize => v.len() == 1 && v[0] is BV,
        Operator::BvNot | Operator::BvNeg => v.len() == 1 && v[0] is BV,
        Operator::BvConcat => v.len() >= 2 && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is BV,
        Operator::BvAdd | Operator::BvMul | Operator::BvAnd | Operator::BvOr | Operator::BvXor => v.len() >= 2 && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wd(v[0].bits().len() as int),
        Operator::BvXNor | Operator::BvNAnd | Operator::BvNOr | Operator::BvSub | Operator::BvUDiv | Operator::BvURem | Operator::BvShl
        | Operator::BvLShr | Operator::BvAShr | Operator::BvSDiv | Operator::BvSRem | Operator::BvSMod | Operator::BvComp
        | Operator::BvULt | Operator::BvULe | Operator::BvUGt | Operator::BvUGe | Operator::BvSLt | Operator::BvSLe | Operator::BvSGt | Operator::BvSGe
            => v.len() == 2 && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wd(v[0].bits().len() as int),
        _ => true,
    }
}
pub open spec fn ty_pop(op: ParamOperator, ix: Seq<Term>, v: Seq<Val>) -> bool {
    match op {
        ParamOperator::BvExtract => ix.len() == 2 && v.len() == 1 && v[0] is BV && v[0].bits().len() > ixv(ix[0]) >= ixv(ix[1]) >= 0,
        ParamOperator::SignExtend | ParamOperator::ZeroExtend => ix.len() == 1 && v.len() == 1 && v[0] is BV && ixv(ix[0]) >= 0,
        ParamOperator::RotateLeft | ParamOperator::RotateRight | ParamOperator::Repeat => ix.len() == 1 && v.len() == 1 && v[0] is BV && ixv(ix[0]) >= 0,
        ParamOperator::IntToBv => ix.len() == 1 && v.len() == 1 && v[0] is N && is_int(v[0].num()),
        ParamOperator::BvConst => ix.len() == 2 && v.len() == 0,
        ParamOperator::BvBitOf | ParamOperator::BvIntOf => ix.len() == 1 && v.len() == 1 && v[0] is BV && 0 <= ixv(ix[0]) < v[0].bits().len(),
        _ => true,
    }
}
/// one-step unfolding; gated by a mention of the arguments of `t` (the program has matched on it)
pub broadcast proof fn ev_op_unfold(m: Model, t: Term)
    ensures
        #![trigger ev(m, t), t->Op_1]
        t is Op ==> ev(m, t) == ev_op(m, t->Op_0, ev_seq(m, t->Op_1@)),
{
    reveal(ev);
    if let Term::Op(op, args) = t {
    }
}
pub broadcast proof fn ty_unfold(m: Model, t: Term)
    ensures
        #![trigger ty(m, t), t->Op_1]
        t is Op && ty(m, t) ==> ty_op(t->Op_0, ev_seq(m, t->Op_1@)) && (forall|i: int| 0 <= i < t->Op_1@.len() ==> ty(m, *(#[trigger] t->Op_1@[i]).0)),
{
    reveal(ty);
    if let Term::Op(op, args) = t {
    }
}
pub broadcast proof fn ev_seq_index(m: Model, s: Seq<Rc<Term>>, i: int)
    ensures
        #![trigger ev_seq(m, s), s[i]]
        ev_seq(m, s).len() == s.len(),
        0 <= i < s.len() ==> ev_seq(m, s)[i] == ev(m, *s[i].0),
{
    reveal(ev);
}
pub broadcast proof fn xor_two(v: Seq<Val>)
    ensures
        v.len() == 2 ==> #[trigger] xor_tt(v) == (v[0].tt() != v[1].tt()),
{
    if v.len() == 2 {
        assert(v.drop_last().len() == 1);
        assert(v.drop_last().drop_last().len() == 0);
        reveal_with_fuel(xor_tt, 4);
    }
}
/// the same function or operator applied to arguments with the same values
pub proof fn ev_cong(m: Model, a: Seq<Rc<Term>>, b: Seq<Rc<Term>>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> ev(m, *(#[trigger] a[i]).0) == ev(m, *b[i].0),
    ensures ev_seq(m, a) == ev_seq(m, b),
{
    reveal(ev);
    assert(ev_seq(m, a) =~= ev_seq(m, b));
}
pub proof fn ev_app(m: Model, t: Term)
    ensures t is App ==> ev(m, t) == (m.app)(ev(m, *t->App_0.0), ev_seq(m, t->App_1@)),
{
    reveal(ev);
}
pub proof fn ty_binder(m: Model, b: Binder, bs: BindingList, x: Rc<Term>)
    requires ty(m, Term::Binder(b, bs, x))
    ensures forall|vs: Seq<Val>| #[trigger] binds_ok(m, bs.0@, vs) ==> ty(upd(m, bs.0@, vs), *x.0)
{
    reveal(ty);
    let t = Term::Binder(b, bs, x);
    assert(t matches Term::Binder(_, bs1, in1) && bs1 == bs && in1 == x);
    assert forall|vs: Seq<Val>| #[trigger] binds_ok(m, bs.0@, vs) implies ty(upd(m, bs.0@, vs), *x.0) by { assert(ty(m, t)); }
}
/// choice and lambda terms depend only on the values of their bodies (the closures in `choice_val`
/// and `lambda_val` are extensional; the verifier does not unfold a closure in a recursive definition)
#[verifier::external_body]
pub proof fn choice_lambda_ext(m: Model, bs: Seq<(String, Rc<Term>)>, x: Rc<Term>, y: Rc<Term>)
    requires forall|vs: Seq<Val>| #[trigger] binds_ok(m, bs, vs) ==> ev(upd(m, bs, vs), *x.0) == ev(upd(m, bs, vs), *y.0)
    ensures choice_val(m, bs, *x.0) == choice_val(m, bs, *y.0), lambda_val(m, bs, *x.0) == lambda_val(m, bs, *y.0),
{
}
/// a binder over bodies with the same values
pub proof fn ev_binder_cong(m: Model, b: Binder, bs: BindingList, x: Rc<Term>, y: Rc<Term>)
    requires forall|vs: Seq<Val>| #[trigger] binds_ok(m, bs.0@, vs) ==> ev(upd(m, bs.0@, vs), *x.0) == ev(upd(m, bs.0@, vs), *y.0)
    ensures ev(m, Term::Binder(b, bs, x)) == ev(m, Term::Binder(b, bs, y)),
{
    reveal(ev);
    let s = bs.0@;
    choice_lambda_ext(m, s, x, y);
    match b {
        Binder::Forall => { assert(forall_tt(m, s, *x.0) == forall_tt(m, s, *y.0)); }
        Binder::Exists => { assert(exists_tt(m, s, *x.0) == exists_tt(m, s, *y.0)); }
        _ => {}
    }
}
/// of the constructors used to build terms
pub broadcast proof fn ev_mk(m: Model, op: Operator, v: Vec<Rc<Term>>)
    ensures #[trigger] ev(m, Term::Op(op, v)) == ev_op(m, op, ev_seq(m, v@)),
{
    reveal(ev);
}
pub broadcast proof fn ty_param(m: Model, t: Term)
    ensures
        #![trigger ty(m, t), t->ParamOp_args]
        t is ParamOp && ty(m, t) ==> ty_pop(t->ParamOp_op, Seq::new(t->ParamOp_op_args@.len(), |i: int| *t->ParamOp_op_args@[i].0), ev_seq(m, t->ParamOp_args@)) && (forall|i: int| 0 <= i < t->ParamOp_args@.len() ==> ty(m, *(#[trigger] t->ParamOp_args@[i]).0)),
{
    reveal(ty);
}
pub proof fn ty_bits(m: Model, t: Term)
    ensures ty(m, t) && (sort_of(t) matches Term::Sort(Sort::BitVec(w))) ==> sort_of(t)->Sort_0->BitVec_0 > 0 && ev(m, t).wd(sort_of(t)->Sort_0->BitVec_0 as int),
{
    reveal(ty);
}
pub proof fn ty_bits_rc(m: Model, t: Rc<Term>)
    ensures ty(m, *t.0) && (sort_of(*t.0) matches Term::Sort(Sort::BitVec(w))) ==> sort_of(*t.0)->Sort_0->BitVec_0 > 0 && ev(m, *t.0).wd(sort_of(*t.0)->Sort_0->BitVec_0 as int),
{
    reveal(ty);
}
pub proof fn ev_param(m: Model, t: Term)
    ensures t is ParamOp ==> ev(m, t) == ev_pop(m, t->ParamOp_op, Seq::new(t->ParamOp_op_args@.len(), |i: int| *t->ParamOp_op_args@[i].0), ev_seq(m, t->ParamOp_args@)),
{
    reveal(ev);
}
pub broadcast proof fn ev_binder(m: Model, t: Term)
    ensures
        #![trigger ev(m, t), t->Binder_1]
        t is Binder && t->Binder_0 == Binder::Forall ==> ev(m, t) == Val::B(forall_tt(m, t->Binder_1.0@, *t->Binder_2.0)),
        t is Binder && t->Binder_0 == Binder::Exists ==> ev(m, t) == Val::B(exists_tt(m, t->Binder_1.0@, *t->Binder_2.0)),
{
    reveal(ev);
}
pub broadcast proof fn quant_dual(m: Model, bs: Seq<(String, Rc<Term>)>, t: Term)
    ensures
        #![trigger exists_tt(m, bs, t), t->Op_1]
        #![trigger forall_tt(m, bs, t), t->Op_1]
        t is Op && t->Op_0 == Operator::Not && t->Op_1@.len() == 1 ==>
            exists_tt(m, bs, t) == !forall_tt(m, bs, *t->Op_1@[0].0) && forall_tt(m, bs, t) == !exists_tt(m, bs, *t->Op_1@[0].0),
{
    broadcast use {ev_op_unfold, ev_seq_index};
    if t is Op && t->Op_0 == Operator::Not && t->Op_1@.len() == 1 {
        let u = *t->Op_1@[0].0;
        reveal(ev);
        assert forall|vs: Seq<Val>| #![trigger binds_ok(m, bs, vs)] ev(upd(m, bs, vs), t).tt() == !ev(upd(m, bs, vs), u).tt() by {
        }
        assert(exists_tt(m, bs, t) == !forall_tt(m, bs, u));
        assert(forall_tt(m, bs, t) == !exists_tt(m, bs, u));
    }
}
pub broadcast group sem {
    quant_dual,
    ev_binder,
    ev_seq_index, xor_two, ev_op_unfold, ty_unfold }


pub open spec fn cl_true(m: Model, s: Seq<Rc<Term>>) -> bool { exists|i: int| 0 <= i < s.len() && ev(m, *(#[trigger] s[i]).0).tt() }
pub open spec fn cl_ty(m: Model, s: Seq<Rc<Term>>) -> bool { forall|i: int| 0 <= i < s.len() ==> ty(m, *(#[trigger] s[i]).0) && ev(m, *s[i].0).isb() }
/// the conclusion follows from the premises in every model that gives the terms values of their sorts
/// the term `t` stands for the clause `cl`: its only literal, or the disjunction of its literals
pub open spec fn clause_as(t: Rc<Term>, cl: Seq<Rc<Term>>) -> bool {
    (cl.len() == 1 && t == cl[0]) || (*t.0 matches Term::Op(Operator::Or, a) && a@ == cl)
}
pub open spec fn prems_true(m: Model, a: RuleArgs) -> bool {
    forall|k: int| 0 <= k < a.premises@.len() ==> cl_ty(m, (#[trigger] a.premises@[k]).clause@) && cl_true(m, a.premises@[k].clause@)
}
pub open spec fn rule_sound(a: RuleArgs) -> bool {
    forall|m: Model| #![trigger cl_ty(m, a.conclusion@)]
        cl_ty(m, a.conclusion@)
        && prems_true(m, a)
        && (forall|k: int| 0 <= k < a.args@.len() ==> ty(m, *(#[trigger] a.args@[k]).0))
        ==> cl_true(m, a.conclusion@)
}
pub open spec fn is_bool_const(t: Term, b: bool) -> bool {
    t matches Term::Op(op, args) && args@.len() == 0 && op == (if b { Operator::True } else { Operator::False })
}
pub open spec fn is_neg(t: Rc<Term>, inner: Rc<Term>) -> bool {
    *t.0 matches Term::Op(Operator::Not, args) && args@.len() == 1 && args@[0] == inner
}
pub open spec fn is_neg_form(t: Rc<Term>) -> bool {
    *t.0 matches Term::Op(Operator::Not, args) && args@.len() == 1
}
#[verifier::external_body]
pub struct VxPool { x: u8 }
pub uninterp spec fn sort_of(t: Term) -> Term;
pub open spec fn bool_op(op: Operator) -> bool {
    op == Operator::True || op == Operator::False || op == Operator::Not || op == Operator::And || op == Operator::Or || op == Operator::Xor
    || op == Operator::Implies || op == Operator::Equals || op == Operator::Distinct
    || op == Operator::LessThan || op == Operator::LessEq || op == Operator::GreaterThan || op == Operator::GreaterEq
}
/// the sorts of Boolean operations and of `ite` (assumed of the pool's sort computation)
pub axiom fn sort_of_bool(t: Term)
    ensures t is Op && bool_op(t->Op_0) ==> sort_of(t) == Term::Sort(Sort::Bool);
pub axiom fn sort_of_ite(t: Term)
    ensures t is Op && t->Op_0 == Operator::Ite && t->Op_1@.len() == 3 ==> sort_of(t) == sort_of(*t->Op_1@[1].0);
/// typing of terms that were just built
pub broadcast proof fn ty_mk(m: Model, op: Operator, v: Vec<Rc<Term>>)
    ensures #![trigger ty(m, Term::Op(op, v))]
        bool_op(op) && ty_op(op, ev_seq(m, v@)) && (forall|i: int| 0 <= i < v@.len() ==> ty(m, *(#[trigger] v@[i]).0)) ==> ty(m, Term::Op(op, v)),
        op == Operator::Ite && ty_op(op, ev_seq(m, v@)) && ty(m, *v@[0].0) && ty(m, *v@[1].0) && ty(m, *v@[2].0) && sort_of(*v@[1].0) == sort_of(*v@[2].0) ==> ty(m, Term::Op(op, v)),
{
    reveal(ty);
    let t = Term::Op(op, v);
    sort_of_bool(t);
    sort_of_ite(t);
    ev_mk(m, op, v);
    assert(ev_seq(m, v@).len() == v@.len()) by { ev_seq_index(m, v@, 0); }
    if op == Operator::Ite { ev_seq_index(m, v@, 0); ev_seq_index(m, v@, 1); ev_seq_index(m, v@, 2); assert(v@[0] == v@[0]); assert forall|i: int| 0 <= i < v@.len() && v@.len() == 3 && ty(m, *v@[0].0) && ty(m, *v@[1].0) && ty(m, *v@[2].0) implies ty(m, *(#[trigger] v@[i]).0) by {} }
}
pub broadcast proof fn ty_const(m: Model, t: Term, b: bool)
    ensures #![trigger is_bool_const(t, b), ty(m, t)]
        is_bool_const(t, b) ==> ty(m, t) && ev(m, t) == Val::B(b),
{
    if is_bool_const(t, b) {
        ty_mk(m, t->Op_0, t->Op_1);
        ev_mk(m, t->Op_0, t->Op_1);
    }
}
pub broadcast proof fn ite_sorts(m: Model, t: Term)
    ensures #![trigger ty(m, t), t->Op_1]
        ty(m, t) && t is Op && t->Op_0 == Operator::Ite && t->Op_1@.len() == 3 ==> sort_of(t) == sort_of(*t->Op_1@[1].0) && sort_of(*t->Op_1@[1].0) == sort_of(*t->Op_1@[2].0),
{
    reveal(ty);
    sort_of_ite(t);
}
pub broadcast proof fn and_two(v: Seq<Val>) ensures v.len() == 2 ==> #[trigger] all_tt(v) == (v[0].tt() && v[1].tt()) {}
pub broadcast proof fn or_two(v: Seq<Val>) ensures v.len() == 2 ==> #[trigger] some_tt(v) == (v[0].tt() || v[1].tt()) {}
pub broadcast proof fn imp_two(v: Seq<Val>) ensures v.len() == 2 ==> #[trigger] implies_tt(v) == (!v[0].tt() || v[1].tt()) {}
pub broadcast proof fn eq_two(v: Seq<Val>) ensures v.len() == 2 ==> #[trigger] all_eq(v) == (v[0] == v[1]) {}
pub broadcast group two { and_two, or_two, imp_two, eq_two }
pub broadcast group mk { ev_mk, ty_mk, ty_const }
impl VxPool {
    #[verifier::external_body]
    pub fn add(&self, t: Term) -> (r: Rc<Term>) ensures *r.0 == t { unimplemented!() }
    #[verifier::external_body]
    pub fn sort(&self, t: &Rc<Term>) -> (r: Rc<Term>) ensures *r.0 == sort_of(*t.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn bool_true(&self) -> (r: Rc<Term>) ensures is_bool_const(*r.0, true) { unimplemented!() }
    #[verifier::external_body]
    pub fn bool_false(&self) -> (r: Rc<Term>) ensures is_bool_const(*r.0, false) { unimplemented!() }
    #[verifier::external_body]
    pub fn bool_constant(&self, b: bool) -> (r: Rc<Term>) ensures is_bool_const(*r.0, b) { unimplemented!() }
}

/// the stack of subproof contexts; `holds` is the meaning of its assignments in a model
#[verifier::external_body]
pub struct VxCtx { x: u8 }
#[verifier::external_body]
pub struct VxDur { x: u8 }
impl VxCtx {
    pub uninterp spec fn holds(&self, m: Model) -> bool;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    /// substituting by the context's assignments keeps the value in the models where they hold
    #[verifier::external_body]
    pub fn apply(&self, pool: &VxPool, t: &Rc<Term>) -> (r: Rc<Term>)
        ensures forall|m: Model| #![trigger self.holds(m)] self.holds(m) ==> ev(m, *r.0) == ev(m, *t.0) { unimplemented!() }
}
pub open spec fn same_ev(a: Rc<Term>, b: Rc<Term>) -> bool { forall|m: Model| #![trigger ev(m, *a.0)] #![trigger ev(m, *b.0)] ev(m, *a.0) == ev(m, *b.0) }
/// comparison modulo reordering of equalities and renaming of bound variables
#[verifier::external_body]
pub fn alpha_equiv(a: &Rc<Term>, b: &Rc<Term>, time: &VxDur) -> (r: bool)
    ensures r ==> same_ev(*a, *b) { unimplemented!() }
/// as `rule_sound`, in the models where the assignments of the enclosing anchors hold
pub open spec fn rule_sound_ctx(a: RuleArgs) -> bool {
    forall|m: Model| #![trigger cl_ty(m, a.conclusion@)]
        cl_ty(m, a.conclusion@) && a.context.holds(m) && prems_true(m, a) ==> cl_true(m, a.conclusion@)
}
/// every sort has a value
pub open spec fn has_val(m: Model, s: Term) -> bool { exists|v: Val| #[trigger] (m.dom)(s, v) }
pub open spec fn dom_ne(m: Model) -> bool { forall|s: Term| #[trigger] has_val(m, s) }
/// as `rule_sound`, in the models whose domains are not empty
pub open spec fn rule_sound_dom(a: RuleArgs) -> bool {
    forall|m: Model| #![trigger cl_ty(m, a.conclusion@)] cl_ty(m, a.conclusion@) && dom_ne(m) && prems_true(m, a) ==> cl_true(m, a.conclusion@)
}
pub proof fn binds_exist(m: Model, bs: Seq<(String, Rc<Term>)>) -> (vs: Seq<Val>)
    requires dom_ne(m),
    ensures binds_ok(m, bs, vs),
{
    let vs = Seq::new(bs.len(), |i: int| choose|v: Val| #[trigger] (m.dom)(*bs[i].1.0, v));
    assert forall|i: int| 0 <= i < vs.len() implies (m.dom)(*bs[i].1.0, #[trigger] vs[i]) by { assert(has_val(m, *bs[i].1.0)); }
    vs
}
pub open spec fn num_const(t: Term) -> Option<real> {
    match t {
        Term::Const(Constant::Integer(i)) => Some(i@ as real),
        Term::Const(Constant::Real(q)) => Some(q@),
        _ => None,
    }
}
pub open spec fn snum_const(t: Term) -> Option<real> {
    match t {
        Term::Op(Operator::Sub, args) => if args@.len() == 1 { match num_const(*args@[0].0) { Some(q) => Some(-q), None => None } } else { None },
        _ => num_const(t),
    }
}
pub broadcast proof fn snum_ev(m: Model, t: Term)
    ensures #![trigger ev(m, t), snum_const(t)] snum_const(t) is Some ==> ev(m, t) == Val::N(snum_const(t)->Some_0)
{
    broadcast use {ev_op_unfold, ev_seq_index};
    reveal(ev);
    if let Term::Op(Operator::Sub, args) = t { ev_op_unfold(m, t); if args@.len() == 1 { ev_seq_index(m, args@, 0); assert(ev(m, *args@[0].0).num() == num_const(*args@[0].0)->Some_0 || num_const(*args@[0].0) is None); } }
}
pub broadcast proof fn num_ev(m: Model, t: Term)
    ensures #![trigger ev(m, t), num_const(t)] num_const(t) is Some ==> ev(m, t) == Val::N(num_const(t)->Some_0)
{ reveal(ev); }
pub broadcast group numc { snum_ev, num_ev }
} // mod semm
pub use semm::*;
