// ===================== the verdict: what an accepted proof guarantees =====================
#[verifier::external_body]
pub struct VxPool { x: u8 }
#[verifier::external_body]
pub struct Rules { x: u8 }
/// the stack of subproof contexts; rules read it, and are assumed to leave it as it is
#[verifier::external_body]
pub struct ContextStack { x: u8 }
pub type VxCtx = ContextStack;
impl ContextStack {
    /// the arguments of the anchors of the open subproofs
    pub uninterp spec fn view(&self) -> Seq<Seq<AnchorArg>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<Seq<AnchorArg>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, args: &[AnchorArg]) ensures final(self)@ == old(self)@.push(args@) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) ensures final(self)@ == (if old(self)@.len() > 0 { old(self)@.drop_last() } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
// --- strings ---
pub trait VxStrView { spec fn vx_sv(&self) -> Seq<char>; fn vx_str(&self) -> (r: &str) ensures r@ == self.vx_sv(); }
impl VxStrView for str { open spec fn vx_sv(&self) -> Seq<char> { self@ } fn vx_str(&self) -> &str { self } }
impl VxStrView for String { open spec fn vx_sv(&self) -> Seq<char> { self@ } fn vx_str(&self) -> &str { self.as_str() } }
#[verifier::external_body]
pub fn vx_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct HashSet<T> { v: Vec<T> }
impl HashSet<String> {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn contains(&self, x: &String) -> (r: bool) ensures r == self@.contains(x@) { unimplemented!() }
}
// --- rules: opaque functions from the parts of a step to a result ---
pub struct Rule { pub trivial: bool, pub id: u64 }
#[verifier::external_body]
pub fn vx_named_fn() -> (r: Rule) ensures !r.trivial { unimplemented!() }
#[verifier::external_body]
pub fn vx_trivial_fn() -> (r: Rule) ensures r.trivial { unimplemented!() }
pub struct PremV { pub index: (usize, usize), pub clause: Seq<Rc<Term>> }
pub struct Inp {
    pub conclusion: Seq<Rc<Term>>,
    pub premises: Seq<PremV>,
    pub args: Seq<Rc<Term>>,
    pub prev: Option<PremV>,
    pub discharge: Seq<ProofCommand>,
    pub context: Seq<Seq<AnchorArg>>,
}
/// the rule function returned `Ok` on these inputs
pub uninterp spec fn accepts(rule: Rule, i: Inp) -> bool;
/// no term is moved to a scope where one of its variables has a different meaning (`check_local_variables`)
pub uninterp spec fn scope_ok(i: Inp, depth: int, is_end: bool) -> bool;
/// equality modulo reordering of equalities and n-ary chaining, as used for assumptions
pub uninterp spec fn assume_eq(a: Rc<Term>, b: Rc<Term>) -> bool;
pub struct Polyeq { pub reord: bool, pub nary: bool }
impl Polyeq {
    pub fn new() -> (r: Self) ensures !r.reord, !r.nary { Polyeq { reord: false, nary: false } }
    pub fn mod_reordering(self, b: bool) -> (r: Self) ensures r.reord == b, r.nary == self.nary { Polyeq { reord: b, nary: self.nary } }
    pub fn mod_nary(self, b: bool) -> (r: Self) ensures r.nary == b, r.reord == self.reord { Polyeq { reord: self.reord, nary: b } }
    #[verifier::external_body]
    pub fn eq_with_time(&mut self, a: &Rc<Term>, b: &Rc<Term>) -> (r: bool) ensures r ==> assume_eq(*a, *b), *final(self) == *old(self) { unimplemented!() }
}
pub open spec fn prem_v(p: Premise) -> PremV { PremV { index: p.index, clause: p.clause@ } }
pub open spec fn prems_v(s: Seq<Premise>) -> Seq<PremV> { Seq::new(s.len(), |i: int| prem_v(s[i])) }
pub open spec fn deref_all(s: Seq<&ProofCommand>) -> Seq<ProofCommand> { Seq::new(s.len(), |i: int| *s[i]) }
pub open spec fn inp_of(a: RuleArgs) -> Inp {
    Inp {
        conclusion: a.conclusion@,
        premises: prems_v(a.premises@),
        args: a.args@,
        prev: (match a.previous_command { Some(p) => Some(prem_v(p)), None => None }),
        discharge: deref_all(a.discharge@),
        context: a.context@,
    }
}
#[verifier::external_body]
pub fn vx_apply(rule: Rule, a: RuleArgs) -> (r: RuleResult) ensures r is Ok ==> accepts(rule, inp_of(a)) { unimplemented!() }

// --- the specification ---
/// the clause a command shows
pub open spec fn concl(c: ProofCommand) -> Seq<Rc<Term>>
    decreases c
{
    match c {
        ProofCommand::Assume { term, .. } => seq![term],
        ProofCommand::Step(s) => s.clause@,
        ProofCommand::Subproof(s) => if s.commands@.len() > 0 { concl(s.commands@[s.commands@.len() - 1]) } else { Seq::empty() },
    }
}
/// a command in its place: for each open subproof (the outermost first), its commands and the current position
pub type Lv = Seq<(int, Seq<ProofCommand>)>;
pub open spec fn args_at(l: (int, Seq<ProofCommand>)) -> Seq<AnchorArg> {
    match l.1[l.0] { ProofCommand::Subproof(s) => s.args@, _ => Seq::empty() }
}
/// the contexts opened by the subproofs at these positions
pub open spec fn ctx_of(lv: Lv) -> Seq<Seq<AnchorArg>>
{ Seq::new(lv.len(), |i: int| args_at(lv[i])) }
pub open spec fn is_end(lv: Lv) -> bool { lv.len() > 1 && lv.last().0 + 1 == lv.last().1.len() }
pub open spec fn in_lv(lv: Lv, p: (usize, usize)) -> ProofCommand { lv[p.0 as int].1[p.1 as int] }
/// what the rule of a step is given
pub open spec fn inputs(s: ProofStep, lv: Lv) -> Inp {
    Inp {
        conclusion: s.clause@,
        premises: Seq::new(s.premises@.len(), |i: int| PremV { index: s.premises@[i], clause: concl(in_lv(lv, s.premises@[i])) }),
        args: s.args@,
        prev: if is_end(lv) { Some(PremV { index: ((lv.len() - 1) as usize, (lv.last().1.len() - 2) as usize), clause: concl(lv.last().1[lv.last().1.len() - 2]) }) } else { None },
        discharge: Seq::new(s.discharge@.len(), |i: int| in_lv(lv, s.discharge@[i])),
        context: ctx_of(lv.drop_last()),
    }
}
/// every local assumption of the subproof is discharged
pub open spec fn discharged(cmds: Seq<ProofCommand>, depth: int, d: Seq<(usize, usize)>) -> bool {
    forall|i: int| 0 <= i < cmds.len() && #[trigger] cmds[i] is Assume ==> d.contains((depth as usize, i as usize))
}
/// a step is accepted by its rule; with `h`, it may also be a hole
pub open spec fn step_ok(h: bool, cfg: Config, s: ProofStep, lv: Lv) -> bool {
    ||| h && (cfg.allowed_rules@.contains(s.rule@) || cfg.ignore_unknown_rules)
    ||| step_checked(h, s, lv)
}
pub open spec fn step_checked(h: bool, s: ProofStep, lv: Lv) -> bool {
    &&& s.discharge@.len() > 0 ==> s.rule@ == "subproof"@
    &&& scope_ok(inputs(s, lv), lv.len() - 1, is_end(lv))
    &&& is_end(lv) ==> discharged(lv.last().1, lv.len() - 1, s.discharge@)
    &&& exists|rule: Rule| #[trigger] accepts(rule, inputs(s, lv)) && (rule.trivial ==> h)
}
/// `check_step_core`, in terms of what it is given
pub open spec fn core_ok(h: bool, cfg: Config, s: ProofStep, i: Inp, depth: int, end: bool, sub: Option<&[ProofCommand]>) -> bool {
    ||| h && (cfg.allowed_rules@.contains(s.rule@) || cfg.ignore_unknown_rules)
    ||| {
        &&& s.discharge@.len() > 0 ==> s.rule@ == "subproof"@
        &&& scope_ok(i, depth, end)
        &&& end && sub is Some ==> discharged(sub->Some_0@, depth, s.discharge@)
        &&& exists|rule: Rule| #[trigger] accepts(rule, i) && (rule.trivial ==> h)
    }
}
/// an assumption of the whole proof is one of the premises of the problem
pub open spec fn assume_ok(cfg: Config, prem: Set<Rc<Term>>, t: Rc<Term>) -> bool {
    prem.contains(t) || (!cfg.elaborated && exists|p: Rc<Term>| prem.contains(p) && #[trigger] assume_eq(t, p))
}
/// the command, with everything in it, was checked
pub open spec fn cmd_ok(h: bool, cfg: Config, prem: Set<Rc<Term>>, c: ProofCommand, lv: Lv) -> bool
    decreases c
{
    match c {
        ProofCommand::Assume { term, .. } => lv.len() > 1 || assume_ok(cfg, prem, term),
        ProofCommand::Step(s) => step_ok(h, cfg, s, lv),
        ProofCommand::Subproof(sp) => forall|i: int| 0 <= i < sp.commands@.len() ==> cmd_ok(h, cfg, prem, #[trigger] sp.commands@[i], lv.push((i, sp.commands@))),
    }
}
pub proof fn cmd_ok_mono(h1: bool, h2: bool, cfg: Config, prem: Set<Rc<Term>>, c: ProofCommand, lv: Lv)
    requires cmd_ok(h1, cfg, prem, c, lv), h1 ==> h2,
    ensures cmd_ok(h2, cfg, prem, c, lv),
    decreases c
{
    match c {
        ProofCommand::Subproof(sp) => {
            assert forall|i: int| 0 <= i < sp.commands@.len() implies cmd_ok(h2, cfg, prem, #[trigger] sp.commands@[i], lv.push((i, sp.commands@))) by {
                cmd_ok_mono(h1, h2, cfg, prem, sp.commands@[i], lv.push((i, sp.commands@)));
            }
        }
        _ => {}
    }
}
/// what the parser guarantees: a subproof ends in a step
pub open spec fn wf_cmds(cmds: Seq<ProofCommand>) -> bool { forall|i: int| 0 <= i < cmds.len() ==> #[trigger] wf_cmd(cmds[i]) }
pub open spec fn wf_cmd(c: ProofCommand) -> bool
    decreases c
{
    match c {
        ProofCommand::Subproof(sp) => sp.commands@.len() > 0 && sp.commands@[sp.commands@.len() - 1] is Step
            && (forall|i: int| 0 <= i < sp.commands@.len() ==> wf_cmd(#[trigger] sp.commands@[i])),
        _ => true,
    }
}
// --- the iterator's stack ---
pub type Stk<'a> = Seq<(usize, &'a [ProofCommand])>;
pub open spec fn lvs(s: Stk) -> Lv { Seq::new(s.len(), |j: int| (s[j].0 - 1, s[j].1@)) }
pub open spec fn wf_stk(s: Stk) -> bool {
    &&& s.len() > 0
    &&& forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 <= s[j].1@.len()
}
/// finished subproofs are closed
pub open spec fn fin(s: Stk) -> Stk
    decreases s.len()
{
    if s.len() > 1 && s.last().0 == s.last().1@.len() { fin(s.drop_last()) } else { s }
}
pub proof fn fin_wf(s: Stk)
    requires wf_stk(s),
    ensures wf_stk(fin(s)), fin(s).len() <= s.len(), fin(s).len() > 1 ==> fin(s).last().0 < fin(s).last().1@.len(),
        fin(s) == s.take(fin(s).len() as int),
    decreases s.len()
{
    if s.len() > 1 && s.last().0 == s.last().1@.len() {
        let d = s.drop_last();
        assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).0 <= d[j].1@.len() by { assert(d[j] == s[j]); }
        fin_wf(d);
        assert(s.take(fin(s).len() as int) =~= d.take(fin(s).len() as int));
    } else {
        assert(s.take(s.len() as int) =~= s);
    }
}
/// the result of advancing the iterator
pub open spec fn stepped(s: Stk, t: Stk, c: ProofCommand) -> bool {
    let f = fin(s);
    &&& f.last().0 < f.last().1@.len()
    &&& c == f.last().1@[f.last().0 as int]
    &&& match c {
        ProofCommand::Subproof(sp) => t.len() == f.len() + 1 && t.last().0 == 0 && t.last().1@ == sp.commands@ && t.drop_last() == bump(f),
        _ => t == bump(f),
    }
}
pub open spec fn bump(f: Stk) -> Stk { f.update(f.len() - 1, ((f.last().0 + 1) as usize, f.last().1)) }
#[verifier::external_body]
pub fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures (match r { Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(x)), None => old(v)@.len() == 0 && final(v)@ == old(v)@ })
{ v.last_mut() }
// --- the loop invariant ---
pub open spec fn done(h: bool, cfg: Config, prem: Set<Rc<Term>>, s: Stk, j: int, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> cmd_ok(h, cfg, prem, #[trigger] s[j].1@[i], lvs(s).take(j).push((i, s[j].1@)))
}
pub open spec fn done1(h: bool, cfg: Config, prem: Set<Rc<Term>>, s: Stk, j: int) -> bool { done(h, cfg, prem, s, j, s[j].0 - 1) }
/// everything before the current position was checked; `pending`: the current command itself was not
pub open spec fn inv(h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Stk, pending: bool) -> bool {
    &&& wf_stk(s)
    &&& s[0].1@ == cmds
    &&& forall|j: int| 0 <= j < s.len() ==> #[trigger] wf_cmds(s[j].1@)
    &&& forall|j: int| 0 <= j < s.len() - 1 ==> (#[trigger] s[j]).0 >= 1 && s[j].1@[s[j].0 - 1] is Subproof && s[j].1@[s[j].0 - 1]->Subproof_0.commands@ == s[j + 1].1@
    &&& forall|j: int| 0 <= j < s.len() - 1 ==> #[trigger] done1(h, cfg, prem, s, j)
    &&& done(h, cfg, prem, s, s.len() - 1, s.last().0 - (if pending { 1int } else { 0int }))
    &&& pending ==> s.last().0 >= 1
}
/// an empty clause was shown by a command of the proof itself
pub open spec fn empty_shown(cmds: Seq<ProofCommand>, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] concl(cmds[i])).len() == 0 }
pub proof fn inv_mono(h1: bool, h2: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Stk, pending: bool)
    requires inv(h1, cfg, prem, cmds, s, pending), h1 ==> h2,
    ensures inv(h2, cfg, prem, cmds, s, pending),
{
    assert forall|j: int, n: int| done(h1, cfg, prem, s, j, n) implies #[trigger] done(h2, cfg, prem, s, j, n) by {
        assert forall|i: int| 0 <= i < n implies cmd_ok(h2, cfg, prem, #[trigger] s[j].1@[i], lvs(s).take(j).push((i, s[j].1@))) by {
            cmd_ok_mono(h1, h2, cfg, prem, s[j].1@[i], lvs(s).take(j).push((i, s[j].1@)));
        }
    }
    assert forall|j: int| 0 <= j < s.len() - 1 implies #[trigger] done1(h2, cfg, prem, s, j) by {
        assert(done1(h1, cfg, prem, s, j));
    }
}
pub proof fn done_frame(h: bool, cfg: Config, prem: Set<Rc<Term>>, s: Stk, t: Stk, j: int, n: int)
    requires done(h, cfg, prem, s, j, n), 0 <= j < s.len(), 0 <= j < t.len(), s.take(j) =~= t.take(j), s[j].1@ == t[j].1@,
    ensures done(h, cfg, prem, t, j, n),
{
    assert forall|k: int| 0 <= k < j implies s[k] == t[k] by { assert(s.take(j)[k] == t.take(j)[k]); }
    assert(lvs(s).take(j) =~= lvs(t).take(j));
    assert forall|i: int| 0 <= i < n implies cmd_ok(h, cfg, prem, #[trigger] t[j].1@[i], lvs(t).take(j).push((i, t[j].1@))) by {
        assert(cmd_ok(h, cfg, prem, s[j].1@[i], lvs(s).take(j).push((i, s[j].1@))));
    }
}
/// closing a finished subproof
pub proof fn inv_pop(h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Stk)
    requires inv(h, cfg, prem, cmds, s, false), s.len() > 1, s.last().0 == s.last().1@.len(),
    ensures inv(h, cfg, prem, cmds, s.drop_last(), false),
{
    let d = s.drop_last();
    let top = s.len() - 1;
    assert forall|j: int| 0 <= j < d.len() implies d[j] == s[j] by {}
    assert forall|j: int| 0 <= j < d.len() implies #[trigger] wf_cmds(d[j].1@) by { assert(wf_cmds(s[j].1@)); }
    assert forall|j: int| 0 <= j < d.len() - 1 implies (#[trigger] d[j]).0 >= 1 && d[j].1@[d[j].0 - 1] is Subproof && d[j].1@[d[j].0 - 1]->Subproof_0.commands@ == d[j + 1].1@ by {
        assert(s[j].0 >= 1); assert(d[j + 1] == s[j + 1]);
    }
    assert forall|j: int| 0 <= j < d.len() - 1 implies #[trigger] done1(h, cfg, prem, d, j) by {
        assert(done1(h, cfg, prem, s, j));
        assert(s.take(j) =~= d.take(j));
        done_frame(h, cfg, prem, s, d, j, s[j].0 - 1);
    }
    let p = top - 1;
    assert(done1(h, cfg, prem, s, p));
    assert(s.take(p) =~= d.take(p));
    done_frame(h, cfg, prem, s, d, p, s[p].0 - 1);
    let i0 = s[p].0 - 1;
    let c = s[p].1@[i0];
    assert(s[p].0 >= 1);
    let lv = lvs(d).take(p).push((i0, d[p].1@));
    assert(cmd_ok(h, cfg, prem, c, lv)) by {
        let sp = c->Subproof_0;
        assert(sp.commands@ == s[p + 1].1@);
        assert(lv =~= lvs(s).take(top));
        assert forall|i: int| 0 <= i < sp.commands@.len() implies cmd_ok(h, cfg, prem, #[trigger] sp.commands@[i], lv.push((i, sp.commands@))) by {
            assert(cmd_ok(h, cfg, prem, s[top].1@[i], lvs(s).take(top).push((i, s[top].1@))));
        }
    }
    assert(d.last() == s[p]);
    assert(done(h, cfg, prem, d, d.len() - 1, d.last().0 as int)) by {
        assert forall|i: int| 0 <= i < d.last().0 implies cmd_ok(h, cfg, prem, #[trigger] d[p].1@[i], lvs(d).take(p).push((i, d[p].1@))) by {
            if i < i0 {} else { assert(i == i0); }
        }
    }
}
pub proof fn inv_fin(h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Stk)
    requires inv(h, cfg, prem, cmds, s, false),
    ensures inv(h, cfg, prem, cmds, fin(s), false),
    decreases s.len()
{
    if s.len() > 1 && s.last().0 == s.last().1@.len() {
        inv_pop(h, cfg, prem, cmds, s);
        inv_fin(h, cfg, prem, cmds, s.drop_last());
    }
}
/// the iterator moved on to the next command of the innermost subproof
pub proof fn inv_bump(h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, f: Stk)
    requires inv(h, cfg, prem, cmds, f, false), f.last().0 < f.last().1@.len(),
    ensures inv(h, cfg, prem, cmds, bump(f), true), bump(f).last().0 == f.last().0 + 1, lvs(bump(f)).drop_last() =~= lvs(f).drop_last(),
        bump(f).last().1 == f.last().1, bump(f).len() == f.len(),
{
    let p = f.len() - 1;
    let t = bump(f);
    vstd::slice::axiom_spec_len(f.last().1);
    assert(f.last().0 + 1 <= usize::MAX);
    assert forall|j: int| 0 <= j < p implies t[j] == f[j] by {}
    assert(t[p].1 == f[p].1 && t[p].0 == f[p].0 + 1);
    assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0 <= t[j].1@.len() by { if j < p { assert(f[j].0 <= f[j].1@.len()); } }
    assert forall|j: int| 0 <= j < t.len() implies #[trigger] wf_cmds(t[j].1@) by { assert(wf_cmds(f[j].1@)); }
    assert forall|j: int| 0 <= j < t.len() - 1 implies (#[trigger] t[j]).0 >= 1 && t[j].1@[t[j].0 - 1] is Subproof && t[j].1@[t[j].0 - 1]->Subproof_0.commands@ == t[j + 1].1@ by {
        assert(f[j].0 >= 1); assert(f[j + 1].1 == t[j + 1].1);
    }
    assert forall|j: int| 0 <= j < p implies #[trigger] done1(h, cfg, prem, t, j) by {
        assert(done1(h, cfg, prem, f, j));
        assert(f.take(j) =~= t.take(j));
        done_frame(h, cfg, prem, f, t, j, f[j].0 - 1);
    }
    assert(f.take(p) =~= t.take(p));
    done_frame(h, cfg, prem, f, t, p, f[p].0 as int);
}
/// the iterator entered a subproof
pub proof fn inv_enter(h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, b: Stk, t: Stk)
    requires inv(h, cfg, prem, cmds, b, true), t.len() == b.len() + 1, t.drop_last() == b, t.last().0 == 0,
        b.last().1@[b.last().0 - 1] is Subproof, t.last().1@ == b.last().1@[b.last().0 - 1]->Subproof_0.commands@,
    ensures inv(h, cfg, prem, cmds, t, false), t.last().1@.len() > 0,
{
    let p = b.len() - 1;
    let c = b[p].1@[b[p].0 - 1];
    let sp = c->Subproof_0;
    assert forall|j: int| 0 <= j <= p implies t[j] == b[j] by { assert(t.drop_last()[j] == t[j]); }
    assert(wf_cmds(b[p].1@));
    assert(wf_cmd(c));
    assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0 <= t[j].1@.len() by { if j <= p { assert(b[j].0 <= b[j].1@.len()); } else { assert(t[j] == t.last()); } }
    assert forall|j: int| 0 <= j < t.len() implies #[trigger] wf_cmds(t[j].1@) by {
        if j <= p { assert(wf_cmds(b[j].1@)); } else {
            assert(t[j] == t.last());
            assert forall|i: int| 0 <= i < sp.commands@.len() implies wf_cmd(#[trigger] sp.commands@[i]) by {}
        }
    }
    assert forall|j: int| 0 <= j < t.len() - 1 implies (#[trigger] t[j]).0 >= 1 && t[j].1@[t[j].0 - 1] is Subproof && t[j].1@[t[j].0 - 1]->Subproof_0.commands@ == t[j + 1].1@ by {
        if j < p { assert(b[j].0 >= 1); assert(b[j + 1] == t[j + 1]); } else { assert(t[j + 1] == t.last()); }
    }
    assert forall|j: int| 0 <= j < t.len() - 1 implies #[trigger] done1(h, cfg, prem, t, j) by {
        if j < p { assert(done1(h, cfg, prem, b, j)); }
        assert(b.take(j) =~= t.take(j));
        done_frame(h, cfg, prem, b, t, j, b[j].0 - 1);
    }
}
pub proof fn inv_next(h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Stk, t: Stk, c: ProofCommand)
    requires inv(h, cfg, prem, cmds, s, false), stepped(s, t, c),
    ensures inv(h, cfg, prem, cmds, t, !(c is Subproof)),
        !(c is Subproof) ==> t.len() == fin(s).len() && lvs(t).drop_last() == lvs(fin(s)).drop_last() && c == t.last().1@[t.last().0 - 1],
        c is Subproof ==> fin(t) == t && ctx_of(lvs(t).drop_last()) == ctx_of(lvs(fin(s)).drop_last()).push(c->Subproof_0.args@),
{
    inv_fin(h, cfg, prem, cmds, s);
    fin_wf(s);
    let f = fin(s);
    let b = bump(f);
    inv_bump(h, cfg, prem, cmds, f);
    if c is Subproof {
        inv_enter(h, cfg, prem, cmds, b, t);
        let l = lvs(t).drop_last();
        let k = lvs(f).drop_last();
        let p = f.len() - 1;
        assert(l.len() == k.len() + 1);
        assert forall|j: int| 0 <= j < p implies l[j] == k[j] by { assert(t.drop_last()[j] == b[j]); assert(lvs(b).drop_last()[j] == k[j]); }
        assert(t.drop_last()[p] == b[p]);
        assert(args_at(l[p]) == c->Subproof_0.args@);
        assert(ctx_of(l) =~= ctx_of(k).push(c->Subproof_0.args@));
    }
}
/// the current command was checked
pub proof fn inv_checked(h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Stk)
    requires inv(h, cfg, prem, cmds, s, true), cmd_ok(h, cfg, prem, s.last().1@[s.last().0 - 1], lvs(s)),
    ensures inv(h, cfg, prem, cmds, s, false),
{
    let p = s.len() - 1;
    let i0 = s[p].0 - 1;
    assert(lvs(s).take(p).push((i0, s[p].1@)) =~= lvs(s));
    assert forall|i: int| 0 <= i < s.last().0 implies cmd_ok(h, cfg, prem, #[trigger] s[p].1@[i], lvs(s).take(p).push((i, s[p].1@))) by {
        if i < i0 {} else { assert(i == i0); }
    }
}
/// the contexts of the open subproofs after a step
pub proof fn ctx_after(h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Stk)
    requires inv(h, cfg, prem, cmds, s, false), s.last().0 >= 1, 
    ensures is_end(lvs(s)) ==> fin(s) == s.drop_last() && lvs(fin(s)).drop_last() =~= lvs(s).drop_last().drop_last(),
        !is_end(lvs(s)) ==> fin(s) == s,
        is_end(lvs(s)) ==> s.last().1@[s.last().0 - 1] is Step && s[s.len() - 2].1@[s[s.len() - 2].0 - 1]->Subproof_0.commands@ == s.last().1@ && s[s.len() - 2].1@[s[s.len() - 2].0 - 1] is Subproof,
{
    if is_end(lvs(s)) {
        let d = s.drop_last();
        let p = s.len() - 2;
        assert(d.last() == s[p]);
        assert(s[p].0 >= 1 && s[p].1@[s[p].0 - 1] is Subproof);
        if d.len() > 1 {
            // the parent is itself a subproof, hence ends in a step
            assert(s[p - 1].1@[s[p - 1].0 - 1] is Subproof);
            assert(wf_cmds(s[p - 1].1@));
            assert(wf_cmd(s[p - 1].1@[s[p - 1].0 - 1]));
            assert(s[p].0 < s[p].1@.len());
        }
        assert(wf_cmds(s[p].1@));
        assert(wf_cmd(s[p].1@[s[p].0 - 1]));
        assert(s[p + 1] == s.last());
        assert(fin(d) == d);
        assert(lvs(d).drop_last() =~= lvs(s).drop_last().drop_last());
    }
}
/// what an accepted proof guarantees
pub open spec fn proof_ok(h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>) -> bool {
    &&& forall|i: int| 0 <= i < cmds.len() ==> cmd_ok(h, cfg, prem, #[trigger] cmds[i], seq![(i, cmds)])
    &&& empty_shown(cmds, cmds.len() as int)
}
pub proof fn inv_end(h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Stk)
    requires inv(h, cfg, prem, cmds, s, false), fin(s).len() == 1, fin(s)[0].0 == fin(s)[0].1@.len(),
    ensures forall|i: int| 0 <= i < cmds.len() ==> cmd_ok(h, cfg, prem, #[trigger] cmds[i], seq![(i, cmds)]),
{
    inv_fin(h, cfg, prem, cmds, s);
    let f = fin(s);
    assert(f.last() == f[0]);
    assert forall|i: int| 0 <= i < cmds.len() implies cmd_ok(h, cfg, prem, #[trigger] cmds[i], seq![(i, cmds)]) by {
        assert(lvs(f).take(0).push((i, f[0].1@)) =~= seq![(i, cmds)]);
        assert(f[0].1@[i] == cmds[i]);
    }
}
/// one round of the loop
pub proof fn inv_round(h0: bool, h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Stk, c: ProofCommand)
    requires inv(h0, cfg, prem, cmds, s, true), h0 ==> h, c == s.last().1@[s.last().0 - 1], cmd_ok(h, cfg, prem, c, lvs(s)),
    ensures inv(h, cfg, prem, cmds, s, false),
        is_end(lvs(s)) ==> c is Step && fin(s) == s.drop_last() && ctx_of(lvs(fin(s)).drop_last()) == ctx_of(lvs(s).drop_last()).drop_last() && lvs(s).drop_last().len() > 0,
        !is_end(lvs(s)) ==> fin(s) == s,
        concl(c).len() == 0 && ctx_of(lvs(fin(s)).drop_last()).len() == 0 ==> empty_shown(cmds, cmds.len() as int),
{
    inv_mono(h0, h, cfg, prem, cmds, s, true);
    inv_checked(h, cfg, prem, cmds, s);
    ctx_after(h, cfg, prem, cmds, s);
    if is_end(lvs(s)) {
        let l = lvs(s).drop_last();
        assert(lvs(fin(s)).drop_last() == l.drop_last());
        assert(ctx_of(l.drop_last()) =~= ctx_of(l).drop_last());
        assert(l.len() > 0);
        if s.len() == 2 {
            let q = s[0].1@[s[0].0 - 1];
            assert(concl(q) == concl(c));
            assert(s[0].1@ == cmds);
            assert(0 <= s[0].0 - 1 < cmds.len());
        }
    } else {
        if s.len() == 1 {
            assert(s.last() == s[0]);
            assert(concl(cmds[s[0].0 - 1]) == concl(c));
        }
    }
}
