pub mod pbsm {
use super::*;
pub open spec fn tv(m: Model, t: Rc<Term>) -> Val { ev(m, *t.0) }
pub open spec fn opargs(t: Rc<Term>) -> Seq<Rc<Term>> { t.0->Op_1@ }
pub open spec fn arg(t: Rc<Term>, i: int) -> Rc<Term> { opargs(t)[i] }
pub open spec fn o2(t: Rc<Term>, op: Operator, a: Rc<Term>, b: Rc<Term>) -> bool { *t.0 matches Term::Op(o, v) && o == op && v@.len() == 2 && v@[0] == a && v@[1] == b }
pub proof fn o2_ev(m: Model, t: &Rc<Term>, op: Operator, a: &Rc<Term>, b: &Rc<Term>)
    requires o2(*t, op, *a, *b)
    ensures ev(m, *t.0) == ev_op(m, op, seq![tv(m, *a), tv(m, *b)]), ty(m, *t.0) ==> ty(m, *a.0) && ty(m, *b.0) && ty_op(op, seq![tv(m, *a), tv(m, *b)])
{
    broadcast use sem;
    let u = *t.0;
    let w = u->Op_1;
    ev_seq_index(m, w@, 0);
    ev_seq_index(m, w@, 1);
    assert(ev_seq(m, w@) =~= seq![tv(m, *a), tv(m, *b)]);
}
pub open spec fn isnum(t: Rc<Term>, k: int) -> bool { num_const(*t.0) == Some(k as real) }
pub proof fn isnum_ev(m: Model, t: &Rc<Term>, k: int) requires isnum(*t, k) ensures ev(m, *t.0) == Val::N(k as real) { reveal(ev); }
pub open spec fn iconst(t: Rc<Term>, k: int) -> bool { *t.0 matches Term::Const(Constant::Integer(j)) && j@ == k }
pub open spec fn is_split(t: Rc<Term>, s: Seq<Rc<Term>>) -> bool {
    forall|m: Model| #![trigger ev(m, *t.0)] sum_n(ev_seq(m, s)) == ev(m, *t.0).num()
}
pub proof fn split_one(t: &Rc<Term>, s: Seq<Rc<Term>>) requires s.len() == 1, s[0] == *t ensures is_split(*t, s) {
    broadcast use arith;
    assert forall|m: Model| #![trigger ev(m, *t.0)] sum_n(ev_seq(m, s)) == ev(m, *t.0).num() by { ev_seq_index(m, s, 0); }
}
pub open spec fn is_add(t: Rc<Term>) -> bool { *t.0 is Op && t.0->Op_0 == Operator::Add }
pub proof fn split_add(t: &Rc<Term>) ensures *t.0 matches Term::Op(Operator::Add, a) ==> is_split(*t, a@) {
    broadcast use sem;
    if is_add(*t) {
        assert forall|m: Model| #![trigger ev(m, *t.0)] sum_n(ev_seq(m, t.0->Op_1@)) == ev(m, *t.0).num() by { let u = *t.0; let b = u->Op_1; }
    }
}
pub proof fn mul_const(m: Model, e: &Rc<Term>, c: &Rc<Term>, u: &Rc<Term>, k: int)
    requires *e.0 matches Term::Op(Operator::Mult, a) && a@.len() == 2 && a@[0] == *c && a@[1] == *u, *c.0 matches Term::Const(Constant::Integer(j)) && j@ == k,
    ensures ev(m, *e.0).num() == (k as real) * ev(m, *u.0).num()
{
    broadcast use {sem, arith};
    let t = *e.0;
    let a = t->Op_1;
    ev_seq_index(m, a@, 0);
    ev_seq_index(m, a@, 1);
    assert(ev(m, *c.0).num() == k as real) by { reveal(ev); }
}
} // mod pbsm
pub use pbsm::*;
