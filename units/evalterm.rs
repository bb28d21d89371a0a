// ===================== terms are evaluated bottom-up =====================
pub proof fn lit_ev(m: Model, t: Term) ensures lit(t) matches Some(v) ==> ev(m, t) == vv(v) {
    reveal(ev);
    if let Some(v) = lit(t) { match t {
        Term::Op(op, args) => { ev_op_unfold(m, t); }
        _ => {}
    } }
}
pub proof fn good_leaf(t: Term) requires !(t is Const), !(t is Op), !(t is ParamOp) ensures good(t, t) { reveal(good); }
pub proof fn good_const(t: Term, r: Term) requires t is Const, lit(r) == lit(t) ensures good(t, r) {
    reveal(good);
    assert forall|m: Model| ty(m, t) && wk(m, t) implies #[trigger] ev(m, t) == ev(m, t) && good_at(m, t, r) by { lit_ev(m, t); lit_ev(m, r); }
}
pub proof fn goods_ev(m: Model, s: Seq<Rc<Term>>, r: Seq<Rc<Term>>)
    requires goods(s, r, s.len() as int), r.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> ty(m, *(#[trigger] s[i]).0) && wk(m, *s[i].0)
    ensures ev_seq(m, r) =~= ev_seq(m, s), forall|i: int| 0 <= i < s.len() ==> good_at(m, *(#[trigger] s[i]).0, *r[i].0)
{
    assert forall|i: int| 0 <= i < s.len() implies good_at(m, *(#[trigger] s[i]).0, *r[i].0) by {
        assert(good(*s[i].0, *r[i].0)); reveal(good); let e = ev(m, *s[i].0);
    }
    ev_seq_index(m, s, 0); ev_seq_index(m, r, 0);
    assert forall|i: int| 0 <= i < s.len() implies ev_seq(m, r)[i] == ev_seq(m, s)[i] by { ev_seq_index(m, s, i); ev_seq_index(m, r, i); assert(good_at(m, *s[i].0, *r[i].0)); }
}
/// the values of literals that the arguments evaluate to
pub proof fn lits_of(m: Model, s: Seq<Rc<Term>>, r: Seq<Rc<Term>>, v: Seq<Value>)
    requires goods(s, r, s.len() as int), r.len() == s.len(), is_lits(r, v), forall|i: int| 0 <= i < s.len() ==> ty(m, *(#[trigger] s[i]).0) && wk(m, *s[i].0)
    ensures vvs(v) == ev_seq(m, s), vks(v) == kds(s), forall|i: int| 0 <= i < v.len() ==> canon(#[trigger] v[i]), forall|i: int| 0 <= i < s.len() ==> gr(*(#[trigger] s[i]).0)
{
    goods_ev(m, s, r);
    ev_seq_index(m, s, 0);
    assert forall|i: int| 0 <= i < v.len() implies canon(#[trigger] v[i]) && vv(v[i]) == ev_seq(m, s)[i] && vk(v[i]) == kd(*s[i].0) && gr(*s[i].0) by {
        assert(lit(*r[i].0) == Some(v[i])); lit_ev(m, *r[i].0); assert(good_at(m, *s[i].0, *r[i].0)); ev_seq_index(m, s, i);
    }
    assert(vvs(v) =~= ev_seq(m, s));
    assert forall|i: int| 0 <= i < s.len() implies gr(*(#[trigger] s[i]).0) by { assert(canon(v[i])); }
    assert(vks(v).len() == kds(s).len());
    assert forall|i: int| 0 <= i < s.len() implies vks(v)[i] == kds(s)[i] by { assert(canon(v[i])); }
    assert(vks(v) =~= kds(s));
}
pub proof fn op_keep(op: Operator, a: Vec<Rc<Term>>, b: Vec<Rc<Term>>)
    requires goods(a@, b@, a@.len() as int), b@.len() == a@.len()
    ensures good(Term::Op(op, a), Term::Op(op, b))
{
    let (t, r) = (Term::Op(op, a), Term::Op(op, b));
    reveal(good);
    assert forall|m: Model| ty(m, t) && wk(m, t) implies #[trigger] ev(m, t) == ev(m, t) && good_at(m, t, r) by {
        ty_unfold(m, t); ev_op_unfold(m, t); ev_op_unfold(m, r);
        assert(t->Op_1 == a);
        goods_ev(m, a@, b@);
    }
}
pub proof fn op_step(op: Operator, a: Vec<Rc<Term>>, b: Seq<Rc<Term>>, s: Seq<Value>, v: Value, r: Term)
    requires goods(a@, b, a@.len() as int), b.len() == a@.len(), is_lits(b, s), good_op(op, s, v), lit(r) == Some(v)
    ensures good(Term::Op(op, a), r)
{
    let t = Term::Op(op, a);
    reveal(good);
    assert forall|m: Model| ty(m, t) && wk(m, t) implies #[trigger] ev(m, t) == ev(m, t) && good_at(m, t, r) by {
        ty_unfold(m, t); ev_op_unfold(m, t);
        assert(t->Op_1 == a);
        lits_of(m, a@, b, s);
        assert(gr(t));
        assert(opre(m, op, s));
        reveal(good_op);
        assert(opost(m, op, s, v));
        lit_ev(m, r);
    }
}
pub open spec fn ixt(s: Seq<Rc<Term>>) -> Seq<Term> { Seq::new(s.len(), |i: int| *s[i].0) }
pub open spec fn nums(s: Seq<Rc<Term>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (*(#[trigger] s[i]).0 matches Term::Const(Constant::Integer(_))) }
/// the indices evaluate to themselves
pub proof fn ix_same(s: Seq<Rc<Term>>, r: Seq<Rc<Term>>)
    requires goods(s, r, s.len() as int), r.len() == s.len(), nums(s)
    ensures ixt(s) == ixt(r)
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] *r[i].0 == *s[i].0 by { assert(good(*s[i].0, *r[i].0)); reveal(good); }
    assert(ixt(s) =~= ixt(r));
}
pub proof fn ix_lits(s: Seq<Rc<Term>>, x: Seq<Value>) requires nums(s), is_lits(s, x) ensures ixs(x) == ixt(s) {
    assert forall|i: int| 0 <= i < s.len() implies ixs(x)[i] == *s[i].0 by { assert(lit(*s[i].0) == Some(x[i])); }
    assert(ixs(x) =~= ixt(s));
}
pub proof fn pop_keep(op: ParamOperator, ia: Vec<Rc<Term>>, ib: Vec<Rc<Term>>, a: Vec<Rc<Term>>, b: Vec<Rc<Term>>)
    requires goods(ia@, ib@, ia@.len() as int), ib@.len() == ia@.len(), goods(a@, b@, a@.len() as int), b@.len() == a@.len()
    ensures good(Term::ParamOp { op, op_args: ia, args: a }, Term::ParamOp { op, op_args: ib, args: b })
{
    let (t, r) = (Term::ParamOp { op, op_args: ia, args: a }, Term::ParamOp { op, op_args: ib, args: b });
    reveal(good);
    assert forall|m: Model| ty(m, t) && wk(m, t) implies #[trigger] ev(m, t) == ev(m, t) && good_at(m, t, r) by {
        ty_param(m, t); ev_param(m, t); ev_param(m, r);
        assert(t->ParamOp_args == a);
        goods_ev(m, a@, b@);
        ix_same(ia@, ib@);
        assert(Seq::new(ia@.len(), |i: int| *ia@[i].0) =~= ixt(ia@));
        assert(Seq::new(ib@.len(), |i: int| *ib@[i].0) =~= ixt(ib@));
    }
}
pub proof fn pop_step(op: ParamOperator, ia: Vec<Rc<Term>>, ib: Seq<Rc<Term>>, a: Vec<Rc<Term>>, b: Seq<Rc<Term>>, x: Seq<Value>, s: Seq<Value>, v: Value, r: Term)
    requires goods(ia@, ib, ia@.len() as int), ib.len() == ia@.len(), goods(a@, b, a@.len() as int), b.len() == a@.len(), is_lits(ib, x), is_lits(b, s), good_pop(op, x, s, v), lit(r) == Some(v)
    ensures good(Term::ParamOp { op, op_args: ia, args: a }, r)
{
    let t = Term::ParamOp { op, op_args: ia, args: a };
    reveal(good);
    assert forall|m: Model| ty(m, t) && wk(m, t) implies #[trigger] ev(m, t) == ev(m, t) && good_at(m, t, r) by {
        ty_param(m, t); ev_param(m, t);
        assert(t->ParamOp_args == a);
        lits_of(m, a@, b, s);
        assert(gr(t));
        ix_same(ia@, ib);
        assert(nums(ib)) by { assert forall|i: int| 0 <= i < ib.len() implies (*(#[trigger] ib[i]).0 matches Term::Const(Constant::Integer(_))) by { assert(ixt(ib)[i] == ixt(ia@)[i]); assert(*ia@[i].0 matches Term::Const(Constant::Integer(_))); } }
        ix_lits(ib, x);
        assert(Seq::new(ia@.len(), |i: int| *ia@[i].0) =~= ixt(ia@));
        assert(ppre(m, op, x, s));
        reveal(good_pop);
        assert(ppost(m, op, x, s, v));
        lit_ev(m, r);
    }
}
pub proof fn good_leaf_rc(t: &Rc<Term>) ensures !(*t.0 is Const) && !(*t.0 is Op) && !(*t.0 is ParamOp) ==> good(*t.0, *t.0) { reveal(good); }
pub proof fn good_const_rc(t: &Rc<Term>, r: &Term) ensures *t.0 is Const && lit(*r) == lit(*t.0) ==> good(*t.0, *r) {
    assert(forall|u: Term, v: Term| #![trigger good(u, v)] u is Const && lit(v) == lit(u) ==> good(u, v)) by {
        assert forall|u: Term, v: Term| #![trigger good(u, v)] u is Const && lit(v) == lit(u) implies good(u, v) by { good_const(u, v); }
    }
}
pub open spec fn op_fits(t: Term, op: Operator, b: Seq<Rc<Term>>) -> bool { t is Op && t->Op_0 == op && t->Op_1@.len() == b.len() && goods(t->Op_1@, b, b.len() as int) }
/// the two ways an application is evaluated
pub proof fn op_both(t: &Rc<Term>, op: Operator, b: &Vec<Rc<Term>>)
    requires op_fits(*t.0, op, b@)
    ensures good(*t.0, Term::Op(op, *b)),
        forall|s: Seq<Value>, v: Value, r: Term| #[trigger] is_lits(b@, s) && #[trigger] good_op(op, s, v) && #[trigger] lit(r) == Some(v) ==> good(*t.0, r)
{
    assert forall|u: Term| #[trigger] op_fits(u, op, b@) implies good(u, Term::Op(op, *b)) by { op_keep(op, u->Op_1, *b); }
    assert forall|u: Term, s: Seq<Value>, v: Value, r: Term| #[trigger] op_fits(u, op, b@) && #[trigger] is_lits(b@, s) && #[trigger] good_op(op, s, v) && #[trigger] lit(r) == Some(v) implies good(u, r) by {
        op_step(op, u->Op_1, b@, s, v, r);
    }
}
pub open spec fn pop_fits(t: Term, op: ParamOperator, ib: Seq<Rc<Term>>, b: Seq<Rc<Term>>) -> bool {
    t is ParamOp && t->ParamOp_op == op && t->ParamOp_args@.len() == b.len() && goods(t->ParamOp_args@, b, b.len() as int) && t->ParamOp_op_args@.len() == ib.len() && goods(t->ParamOp_op_args@, ib, ib.len() as int)
}
pub proof fn pop_both(t: &Rc<Term>, op: ParamOperator, ib: &Vec<Rc<Term>>, b: &Vec<Rc<Term>>)
    requires pop_fits(*t.0, op, ib@, b@)
    ensures good(*t.0, Term::ParamOp { op, op_args: *ib, args: *b }),
        forall|x: Seq<Value>, s: Seq<Value>, v: Value, r: Term| #[trigger] is_lits(ib@, x) && #[trigger] is_lits(b@, s) && #[trigger] good_pop(op, x, s, v) && #[trigger] lit(r) == Some(v) ==> good(*t.0, r)
{
    assert forall|u: Term| #[trigger] pop_fits(u, op, ib@, b@) implies good(u, Term::ParamOp { op, op_args: *ib, args: *b }) by { pop_keep(op, u->ParamOp_op_args, *ib, u->ParamOp_args, *b); }
    assert forall|u: Term, x: Seq<Value>, s: Seq<Value>, v: Value, r: Term| #[trigger] pop_fits(u, op, ib@, b@) && #[trigger] is_lits(ib@, x) && #[trigger] is_lits(b@, s) && #[trigger] good_pop(op, x, s, v) && #[trigger] lit(r) == Some(v) implies good(u, r) by {
        pop_step(op, u->ParamOp_op_args, ib@, u->ParamOp_args, b@, x, s, v, r);
    }
}
