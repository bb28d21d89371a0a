// ===================== parallel checking: schedules cover the proof =====================
#[verifier::external_body]
pub struct PrimitivePool { x: u8 }
#[verifier::external_body]
pub struct ProblemPrelude { x: u8 }
impl Schedule {
    /// `derive(Default)`
    pub fn default() -> (r: Self) ensures r.steps@.len() == 0 { Schedule { steps: Vec::new() } }
}
pub type Error = CheckerError;
pub enum ControlFlow { Continue(()), Break(()) }
impl ControlFlow {
    pub fn vx_go(&self) -> (r: bool) ensures r == (*self is Continue) { match self { ControlFlow::Continue(_) => true, _ => false } }
}
/// the handle of a scoped thread
pub struct VxJoin<T> { pub v: T }
pub fn vx_spawned(v: Res) -> (r: Option<VxJoin<Res>>) ensures r == Some(VxJoin { v }) { Some(VxJoin { v }) }
impl<T> VxJoin<T> {
    pub fn join(self) -> (r: Option<T>) ensures r == Some(self.v) { Some(self.v) }
}
pub type LocalPool = VxPool;
#[verifier::external_body]
pub struct ContextPool { x: u8 }
impl ContextPool {
    #[verifier::external_body]
    pub fn from_global(p: &Arc<PrimitivePool>) -> Self { unimplemented!() }
}
impl VxPool {
    #[verifier::external_body]
    pub fn from_previous(p: &ContextPool) -> Self { unimplemented!() }
}
impl Config {
    /// `derive(Clone)`
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl ContextStack {
    #[verifier::external_body]
    pub fn push_with_id(&mut self, args: &[AnchorArg], id: usize) ensures final(self)@ == old(self)@.push(args@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_previous(c: &ContextStack) -> (r: Self) ensures r@ == Seq::<Seq<AnchorArg>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_usage(u: &Vec<usize>) -> (r: Self) ensures r@ == Seq::<Seq<AnchorArg>>::empty() { unimplemented!() }
}
/// the flag with which a worker tells the others that it found an error: one worker's handle
pub struct VxFlag { pub id: Ghost<int>, pub stored: Ghost<bool> }
/// the flag was set by some worker, at some time
pub uninterp spec fn flag_set(id: int) -> bool;
impl VxFlag {
    #[verifier::external_body]
    pub fn vx_new() -> (r: Self) ensures !r.stored@ { unimplemented!() }
    /// a handle for one more worker
    #[verifier::external_body]
    pub fn vx_handle(&self) -> (r: VxFlag) ensures r.id == self.id, !r.stored@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_load(&self) -> (r: bool) ensures r ==> flag_set(self.id@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_store(&mut self, v: bool) ensures final(self).stored@, final(self).id == old(self).id { unimplemented!() }
}
pub type Ent = (usize, usize);
/// one entry of a schedule, seen as a move: (_, MAX) closes the innermost open subproof, (d, i) goes to the
/// i-th command of the innermost open subproof, and opens it if it is itself a subproof
pub open spec fn wstep(l: Lv, e: Ent) -> Lv {
    if e.1 == usize::MAX { if l.len() > 0 { l.drop_last() } else { l } } else {
        let t = l.update(l.len() - 1, (e.1 as int, l.last().1));
        match l.last().1[e.1 as int] { ProofCommand::Subproof(sp) => t.push((-1int, sp.commands@)), _ => t }
    }
}
pub open spec fn walk(cmds: Seq<ProofCommand>, s: Seq<Ent>, k: int) -> Lv
    decreases k
{
    if k <= 0 { seq![(-1int, cmds)] } else { wstep(walk(cmds, s, k - 1), s[k - 1]) }
}
/// the command the k-th entry goes to
pub open spec fn ent_cmd(cmds: Seq<ProofCommand>, s: Seq<Ent>, k: int) -> ProofCommand { walk(cmds, s, k).last().1[s[k].1 as int] }
/// the k-th entry visits this step or assumption, at this position
pub open spec fn visits(cmds: Seq<ProofCommand>, s: Seq<Ent>, k: int, c: ProofCommand, lv: Lv) -> bool {
    s[k].1 != usize::MAX && !(c is Subproof) && walk(cmds, s, k + 1) == lv && c == ent_cmd(cmds, s, k)
}
/// if the k-th entry visits a step or an assumption, it was accepted
pub open spec fn entry_ok(h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Seq<Ent>, k: int) -> bool {
    s[k].1 == usize::MAX || ent_cmd(cmds, s, k) is Subproof || cmd_ok(h, cfg, prem, ent_cmd(cmds, s, k), walk(cmds, s, k + 1))
}
#[verifier::opaque]
pub open spec fn entries_ok(h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Seq<Ent>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> #[trigger] entry_ok(h, cfg, prem, cmds, s, k)
}
pub proof fn entries_mono(h1: bool, h2: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Seq<Ent>, n: int)
    requires entries_ok(h1, cfg, prem, cmds, s, n), h1 ==> h2,
    ensures entries_ok(h2, cfg, prem, cmds, s, n),
{
    reveal(entries_ok);
    assert forall|k: int| 0 <= k < n implies #[trigger] entry_ok(h2, cfg, prem, cmds, s, k) by {
        assert(entry_ok(h1, cfg, prem, cmds, s, k));
        if s[k].1 != usize::MAX && !(ent_cmd(cmds, s, k) is Subproof) { cmd_ok_mono(h1, h2, cfg, prem, ent_cmd(cmds, s, k), walk(cmds, s, k + 1)); }
    }
}
pub proof fn entries_none(h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Seq<Ent>)
    ensures entries_ok(h, cfg, prem, cmds, s, 0),
{
    reveal(entries_ok);
}
/// the entries from a to k close subproofs, the entry k is in order
pub proof fn entries_next(h1: bool, h2: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Seq<Ent>, a: int, k: int)
    requires entries_ok(h1, cfg, prem, cmds, s, a), h1 ==> h2, 0 <= a <= k, all_close(s, a, k), entry_ok(h2, cfg, prem, cmds, s, k),
    ensures entries_ok(h2, cfg, prem, cmds, s, k + 1),
{
    entries_mono(h1, h2, cfg, prem, cmds, s, a);
    reveal(entries_ok);
    assert forall|x: int| 0 <= x < k + 1 implies #[trigger] entry_ok(h2, cfg, prem, cmds, s, x) by { if a <= x < k { assert(s[x].1 == usize::MAX); } }
}
/// the end of the schedule was reached: the rest of the entries close subproofs
pub proof fn entries_rest(h: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Seq<Ent>, a: int, n: int)
    requires entries_ok(h, cfg, prem, cmds, s, a), 0 <= a <= n, all_close(s, a, n),
    ensures entries_ok(h, cfg, prem, cmds, s, n),
{
    reveal(entries_ok);
    assert forall|x: int| 0 <= x < n implies #[trigger] entry_ok(h, cfg, prem, cmds, s, x) by { if a <= x < n { assert(s[x].1 == usize::MAX); } }
}
/// each open subproof is the one the entry below it points to
pub open spec fn nested(cmds: Seq<ProofCommand>, l: Lv) -> bool {
    &&& l.len() > 0 ==> l[0].1 == cmds
    &&& forall|j: int| 0 <= j < l.len() - 1 ==> 0 <= (#[trigger] l[j]).0 < l[j].1.len() && l[j].1[l[j].0] is Subproof && l[j].1[l[j].0]->Subproof_0.commands@ == l[j + 1].1
}
pub open spec fn same_cmds(st: Seq<&[ProofCommand]>, l: Lv) -> bool {
    st.len() == l.len() && forall|j: int| 0 <= j < l.len() ==> (#[trigger] st[j])@ == l[j].1
}
pub open spec fn it_ok(it: ScheduleIter, cmds: Seq<ProofCommand>) -> bool {
    let l = walk(cmds, it.steps@, it.step_id as int);
    it.step_id <= it.steps@.len() && same_cmds(it.proof_stack@, l) && nested(cmds, l)
}
pub open spec fn all_close(s: Seq<Ent>, a: int, b: int) -> bool { forall|j: int| a <= j < b ==> (#[trigger] s[j]).1 == usize::MAX }
/// after closing subproofs, an initial part of the position is left
pub proof fn closed_prefix(cmds: Seq<ProofCommand>, s: Seq<Ent>, a: int, b: int)
    requires all_close(s, a, b), 0 <= a <= b,
    ensures walk(cmds, s, b).len() <= walk(cmds, s, a).len(), walk(cmds, s, b) == walk(cmds, s, a).take(walk(cmds, s, b).len() as int),
    decreases b - a
{
    let x = walk(cmds, s, a);
    if a == b { assert(x.take(x.len() as int) =~= x); } else {
        closed_prefix(cmds, s, a, b - 1);
        let y = walk(cmds, s, b - 1);
        assert(s[b - 1].1 == usize::MAX);
        let z = walk(cmds, s, b);
        assert(z == wstep(y, s[b - 1]));
        assert(z =~= x.take(z.len() as int));
    }
}
/// what happens to the position and to the contexts at the entry k, which is not a closing one
pub proof fn walk_next(cmds: Seq<ProofCommand>, s: Seq<Ent>, a: int, k: int)
    requires 0 <= a <= k, all_close(s, a, k), s[k].1 != usize::MAX, walk(cmds, s, k).len() > 0,
    ensures
        ({
            let x = walk(cmds, s, a);
            let y = walk(cmds, s, k + 1);
            let c = ent_cmd(cmds, s, k);
            let d = y.len() - (if c is Subproof { 2int } else { 1int });
            &&& 0 <= d < x.len()
            &&& c is Subproof ==> ctx_of(y.drop_last()) == ctx_of(x.drop_last()).take(d).push(c->Subproof_0.args@)
            &&& !(c is Subproof) ==> ctx_of(y.drop_last()) == ctx_of(x.drop_last()).take(d) && y.last() == (s[k].1 as int, walk(cmds, s, k).last().1)
        }),
{
    closed_prefix(cmds, s, a, k);
    let x = walk(cmds, s, a);
    let l = walk(cmds, s, k);
    let y = walk(cmds, s, k + 1);
    let c = ent_cmd(cmds, s, k);
    assert(y == wstep(l, s[k]));
    assert(l == x.take(l.len() as int));
    let d = l.len() - 1;
    if c is Subproof {
        assert(args_at(y.drop_last()[d]) == c->Subproof_0.args@);
        assert(ctx_of(y.drop_last()) =~= ctx_of(x.drop_last()).take(d).push(c->Subproof_0.args@));
    } else {
        assert(ctx_of(y.drop_last()) =~= ctx_of(x.drop_last()).take(d));
    }
}
/// an empty clause at the position of a command of the proof, or of the last one of a subproof of it
pub proof fn empty_at(cmds: Seq<ProofCommand>, l: Lv, c: ProofCommand)
    requires nested(cmds, l), l.len() > 0, 0 <= l.last().0 < l.last().1.len(), c == l.last().1[l.last().0], concl(c).len() == 0,
        l.len() - 1 - (if is_end(l) { 1int } else { 0int }) == 0,
    ensures empty_shown(cmds, cmds.len() as int),
{
    if l.len() == 1 {
        assert(concl(cmds[l[0].0]).len() == 0);
    } else {
        assert(l[0].1[l[0].0] is Subproof);
        assert(concl(cmds[l[0].0]) == concl(c));
    }
}
/// at most this many entries fit in the memory
pub open spec fn fits(s: Seq<Ent>) -> bool { s.len() < 0x1000_0000_0000_0000 }
pub proof fn walk_len(cmds: Seq<ProofCommand>, s: Seq<Ent>, k: int)
    requires 0 <= k,
    ensures walk(cmds, s, k).len() <= k + 1,
    decreases k
{
    if k > 0 { walk_len(cmds, s, k - 1); }
}
/// the position the iterator is at
pub open spec fn lv_of(it: ScheduleIter) -> Lv { walk(it.proof_stack@[0]@, it.steps@, it.step_id as int) }
/// it is at a step or an assumption
pub open spec fn at_leaf(it: ScheduleIter) -> bool {
    &&& it.proof_stack@.len() > 0
    &&& it_ok(it, it.proof_stack@[0]@)
    &&& it.step_id > 0
    &&& it.steps@[it.step_id - 1].1 != usize::MAX
    &&& lv_of(it).last().0 == it.steps@[it.step_id - 1].1
}
pub fn vx_b2u(b: bool) -> (r: usize) ensures r == (if b { 1usize } else { 0usize }) { if b { 1 } else { 0 } }
// --- models of the collections of the scheduler ---
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct BinaryHeap<T> { v: Vec<T> }
impl<T> BinaryHeap<T> {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> Option<T> { unimplemented!() }
}
impl HashSet<usize> {
    pub uninterp spec fn s(&self) -> Set<usize>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.s() == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: usize) -> (r: bool) ensures final(self).s() == old(self).s().insert(x) { unimplemented!() }
    /// the elements, each of them once, in some order
    #[verifier::external_body]
    pub fn vx_slice(&self) -> (r: &[usize]) ensures r@.no_duplicates(), forall|x: usize| #[trigger] self.s().contains(x) <==> r@.contains(x) { unimplemented!() }
}
#[verifier::external_body]
pub fn from_elem<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
// --- coverage ---
pub struct CP { pub cmds: Seq<ProofCommand>, pub loads: Seq<Seq<Ent>> }
/// some entry of some schedule visits the step or assumption
pub open spec fn vis(P: CP, c: ProofCommand, lv: Lv) -> bool {
    exists|w: int, k: int| 0 <= w < P.loads.len() && 0 <= k < P.loads[w].len() && #[trigger] visits(P.cmds, P.loads[w], k, c, lv)
}
/// everything in the command is visited
pub open spec fn cov(P: CP, c: ProofCommand, lv: Lv) -> bool
    decreases c
{
    match c {
        ProofCommand::Subproof(sp) => forall|i: int| 0 <= i < sp.commands@.len() ==> cov(P, #[trigger] sp.commands@[i], lv.push((i, sp.commands@))),
        _ => vis(P, c, lv),
    }
}
pub open spec fn c_done(P: CP, s: Stk, j: int, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> cov(P, #[trigger] s[j].1@[i], lvs(s).take(j).push((i, s[j].1@)))
}
pub open spec fn c_done1(P: CP, s: Stk, j: int) -> bool { c_done(P, s, j, s[j].0 - 1) }
/// everything before the current position was checked; `pending`: the current command itself was not
pub open spec fn c_inv(P: CP, cmds: Seq<ProofCommand>, s: Stk, pending: bool) -> bool {
    &&& wf_stk(s)
    &&& s[0].1@ == cmds
    &&& forall|j: int| 0 <= j < s.len() ==> #[trigger] wf_cmds(s[j].1@)
    &&& forall|j: int| 0 <= j < s.len() - 1 ==> (#[trigger] s[j]).0 >= 1 && s[j].1@[s[j].0 - 1] is Subproof && s[j].1@[s[j].0 - 1]->Subproof_0.commands@ == s[j + 1].1@
    &&& forall|j: int| 0 <= j < s.len() - 1 ==> #[trigger] c_done1(P, s, j)
    &&& c_done(P, s, s.len() - 1, s.last().0 - (if pending { 1int } else { 0int }))
    &&& pending ==> s.last().0 >= 1
}
pub proof fn c_done_frame(P: CP, s: Stk, t: Stk, j: int, n: int)
    requires c_done(P, s, j, n), 0 <= j < s.len(), 0 <= j < t.len(), s.take(j) =~= t.take(j), s[j].1@ == t[j].1@,
    ensures c_done(P, t, j, n),
{
    assert forall|k: int| 0 <= k < j implies s[k] == t[k] by { assert(s.take(j)[k] == t.take(j)[k]); }
    assert(lvs(s).take(j) =~= lvs(t).take(j));
    assert forall|i: int| 0 <= i < n implies cov(P, #[trigger] t[j].1@[i], lvs(t).take(j).push((i, t[j].1@))) by {
        assert(cov(P, s[j].1@[i], lvs(s).take(j).push((i, s[j].1@))));
    }
}
/// closing a finished subproof
pub proof fn c_inv_pop(P: CP, cmds: Seq<ProofCommand>, s: Stk)
    requires c_inv(P, cmds, s, false), s.len() > 1, s.last().0 == s.last().1@.len(),
    ensures c_inv(P, cmds, s.drop_last(), false),
{
    let d = s.drop_last();
    let top = s.len() - 1;
    assert forall|j: int| 0 <= j < d.len() implies d[j] == s[j] by {}
    assert forall|j: int| 0 <= j < d.len() implies #[trigger] wf_cmds(d[j].1@) by { assert(wf_cmds(s[j].1@)); }
    assert forall|j: int| 0 <= j < d.len() - 1 implies (#[trigger] d[j]).0 >= 1 && d[j].1@[d[j].0 - 1] is Subproof && d[j].1@[d[j].0 - 1]->Subproof_0.commands@ == d[j + 1].1@ by {
        assert(s[j].0 >= 1); assert(d[j + 1] == s[j + 1]);
    }
    assert forall|j: int| 0 <= j < d.len() - 1 implies #[trigger] c_done1(P, d, j) by {
        assert(c_done1(P, s, j));
        assert(s.take(j) =~= d.take(j));
        c_done_frame(P, s, d, j, s[j].0 - 1);
    }
    let p = top - 1;
    assert(c_done1(P, s, p));
    assert(s.take(p) =~= d.take(p));
    c_done_frame(P, s, d, p, s[p].0 - 1);
    let i0 = s[p].0 - 1;
    let c = s[p].1@[i0];
    assert(s[p].0 >= 1);
    let lv = lvs(d).take(p).push((i0, d[p].1@));
    assert(cov(P, c, lv)) by {
        let sp = c->Subproof_0;
        assert(sp.commands@ == s[p + 1].1@);
        assert(lv =~= lvs(s).take(top));
        assert forall|i: int| 0 <= i < sp.commands@.len() implies cov(P, #[trigger] sp.commands@[i], lv.push((i, sp.commands@))) by {
            assert(cov(P, s[top].1@[i], lvs(s).take(top).push((i, s[top].1@))));
        }
    }
    assert(d.last() == s[p]);
    assert(c_done(P, d, d.len() - 1, d.last().0 as int)) by {
        assert forall|i: int| 0 <= i < d.last().0 implies cov(P, #[trigger] d[p].1@[i], lvs(d).take(p).push((i, d[p].1@))) by {
            if i < i0 {} else { assert(i == i0); }
        }
    }
}
pub proof fn c_inv_fin(P: CP, cmds: Seq<ProofCommand>, s: Stk)
    requires c_inv(P, cmds, s, false),
    ensures c_inv(P, cmds, fin(s), false),
    decreases s.len()
{
    if s.len() > 1 && s.last().0 == s.last().1@.len() {
        c_inv_pop(P, cmds, s);
        c_inv_fin(P, cmds, s.drop_last());
    }
}
/// the iterator moved on to the next command of the innermost subproof
pub proof fn c_inv_bump(P: CP, cmds: Seq<ProofCommand>, f: Stk)
    requires c_inv(P, cmds, f, false), f.last().0 < f.last().1@.len(),
    ensures c_inv(P, cmds, bump(f), true), bump(f).last().0 == f.last().0 + 1, lvs(bump(f)).drop_last() =~= lvs(f).drop_last(),
        bump(f).last().1 == f.last().1, bump(f).len() == f.len(),
{
    let p = f.len() - 1;
    let t = bump(f);
    vstd::slice::axiom_spec_len(f.last().1);
    assert(f.last().0 + 1 <= usize::MAX);
    assert forall|j: int| 0 <= j < p implies t[j] == f[j] by {}
    assert(t[p].1 == f[p].1 && t[p].0 == f[p].0 + 1);
    assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0 <= t[j].1@.len() by { if j < p { assert(f[j].0 <= f[j].1@.len()); } }
    assert forall|j: int| 0 <= j < t.len() implies #[trigger] wf_cmds(t[j].1@) by { assert(wf_cmds(f[j].1@)); }
    assert forall|j: int| 0 <= j < t.len() - 1 implies (#[trigger] t[j]).0 >= 1 && t[j].1@[t[j].0 - 1] is Subproof && t[j].1@[t[j].0 - 1]->Subproof_0.commands@ == t[j + 1].1@ by {
        assert(f[j].0 >= 1); assert(f[j + 1].1 == t[j + 1].1);
    }
    assert forall|j: int| 0 <= j < p implies #[trigger] c_done1(P, t, j) by {
        assert(c_done1(P, f, j));
        assert(f.take(j) =~= t.take(j));
        c_done_frame(P, f, t, j, f[j].0 - 1);
    }
    assert(f.take(p) =~= t.take(p));
    c_done_frame(P, f, t, p, f[p].0 as int);
}
/// the iterator entered a subproof
pub proof fn c_inv_enter(P: CP, cmds: Seq<ProofCommand>, b: Stk, t: Stk)
    requires c_inv(P, cmds, b, true), t.len() == b.len() + 1, t.drop_last() == b, t.last().0 == 0,
        b.last().1@[b.last().0 - 1] is Subproof, t.last().1@ == b.last().1@[b.last().0 - 1]->Subproof_0.commands@,
    ensures c_inv(P, cmds, t, false), t.last().1@.len() > 0,
{
    let p = b.len() - 1;
    let c = b[p].1@[b[p].0 - 1];
    let sp = c->Subproof_0;
    assert forall|j: int| 0 <= j <= p implies t[j] == b[j] by { assert(t.drop_last()[j] == t[j]); }
    assert(wf_cmds(b[p].1@));
    assert(wf_cmd(c));
    assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0 <= t[j].1@.len() by { if j <= p { assert(b[j].0 <= b[j].1@.len()); } else { assert(t[j] == t.last()); } }
    assert forall|j: int| 0 <= j < t.len() implies #[trigger] wf_cmds(t[j].1@) by {
        if j <= p { assert(wf_cmds(b[j].1@)); } else {
            assert(t[j] == t.last());
            assert forall|i: int| 0 <= i < sp.commands@.len() implies wf_cmd(#[trigger] sp.commands@[i]) by {}
        }
    }
    assert forall|j: int| 0 <= j < t.len() - 1 implies (#[trigger] t[j]).0 >= 1 && t[j].1@[t[j].0 - 1] is Subproof && t[j].1@[t[j].0 - 1]->Subproof_0.commands@ == t[j + 1].1@ by {
        if j < p { assert(b[j].0 >= 1); assert(b[j + 1] == t[j + 1]); } else { assert(t[j + 1] == t.last()); }
    }
    assert forall|j: int| 0 <= j < t.len() - 1 implies #[trigger] c_done1(P, t, j) by {
        if j < p { assert(c_done1(P, b, j)); }
        assert(b.take(j) =~= t.take(j));
        c_done_frame(P, b, t, j, b[j].0 - 1);
    }
}
pub proof fn c_inv_next(P: CP, cmds: Seq<ProofCommand>, s: Stk, t: Stk, c: ProofCommand)
    requires c_inv(P, cmds, s, false), stepped(s, t, c),
    ensures c_inv(P, cmds, t, !(c is Subproof)),
        !(c is Subproof) ==> t.len() == fin(s).len() && lvs(t).drop_last() == lvs(fin(s)).drop_last() && c == t.last().1@[t.last().0 - 1],
        c is Subproof ==> fin(t) == t && ctx_of(lvs(t).drop_last()) == ctx_of(lvs(fin(s)).drop_last()).push(c->Subproof_0.args@),
{
    c_inv_fin(P, cmds, s);
    fin_wf(s);
    let f = fin(s);
    let b = bump(f);
    c_inv_bump(P, cmds, f);
    if c is Subproof {
        c_inv_enter(P, cmds, b, t);
        let l = lvs(t).drop_last();
        let k = lvs(f).drop_last();
        let p = f.len() - 1;
        assert(l.len() == k.len() + 1);
        assert forall|j: int| 0 <= j < p implies l[j] == k[j] by { assert(t.drop_last()[j] == b[j]); assert(lvs(b).drop_last()[j] == k[j]); }
        assert(t.drop_last()[p] == b[p]);
        assert(args_at(l[p]) == c->Subproof_0.args@);
        assert(ctx_of(l) =~= ctx_of(k).push(c->Subproof_0.args@));
    }
}
/// the current command was checked
pub proof fn c_inv_checked(P: CP, cmds: Seq<ProofCommand>, s: Stk)
    requires c_inv(P, cmds, s, true), cov(P, s.last().1@[s.last().0 - 1], lvs(s)),
    ensures c_inv(P, cmds, s, false),
{
    let p = s.len() - 1;
    let i0 = s[p].0 - 1;
    assert(lvs(s).take(p).push((i0, s[p].1@)) =~= lvs(s));
    assert forall|i: int| 0 <= i < s.last().0 implies cov(P, #[trigger] s[p].1@[i], lvs(s).take(p).push((i, s[p].1@))) by {
        if i < i0 {} else { assert(i == i0); }
    }
}
/// the contexts of the open subproofs after a step
pub proof fn c_ctx_after(P: CP, cmds: Seq<ProofCommand>, s: Stk)
    requires c_inv(P, cmds, s, false), s.last().0 >= 1, 
    ensures is_end(lvs(s)) ==> fin(s) == s.drop_last() && lvs(fin(s)).drop_last() =~= lvs(s).drop_last().drop_last(),
        !is_end(lvs(s)) ==> fin(s) == s,
        is_end(lvs(s)) ==> s.last().1@[s.last().0 - 1] is Step && s[s.len() - 2].1@[s[s.len() - 2].0 - 1]->Subproof_0.commands@ == s.last().1@ && s[s.len() - 2].1@[s[s.len() - 2].0 - 1] is Subproof,
{
    if is_end(lvs(s)) {
        let d = s.drop_last();
        let p = s.len() - 2;
        assert(d.last() == s[p]);
        assert(s[p].0 >= 1 && s[p].1@[s[p].0 - 1] is Subproof);
        if d.len() > 1 {
            // the parent is itself a subproof, hence ends in a step
            assert(s[p - 1].1@[s[p - 1].0 - 1] is Subproof);
            assert(wf_cmds(s[p - 1].1@));
            assert(wf_cmd(s[p - 1].1@[s[p - 1].0 - 1]));
            assert(s[p].0 < s[p].1@.len());
        }
        assert(wf_cmds(s[p].1@));
        assert(wf_cmd(s[p].1@[s[p].0 - 1]));
        assert(s[p + 1] == s.last());
        assert(fin(d) == d);
        assert(lvs(d).drop_last() =~= lvs(s).drop_last().drop_last());
    }
}
pub proof fn c_inv_end(P: CP, cmds: Seq<ProofCommand>, s: Stk)
    requires c_inv(P, cmds, s, false), fin(s).len() == 1, fin(s)[0].0 == fin(s)[0].1@.len(),
    ensures forall|i: int| 0 <= i < cmds.len() ==> cov(P, #[trigger] cmds[i], seq![(i, cmds)]),
{
    c_inv_fin(P, cmds, s);
    let f = fin(s);
    assert(f.last() == f[0]);
    assert forall|i: int| 0 <= i < cmds.len() implies cov(P, #[trigger] cmds[i], seq![(i, cmds)]) by {
        assert(lvs(f).take(0).push((i, f[0].1@)) =~= seq![(i, cmds)]);
        assert(f[0].1@[i] == cmds[i]);
    }
}
// --- the invariants of the scheduler ---
pub open spec fn loads_of(v: Seq<Schedule>) -> Seq<Seq<Ent>> { Seq::new(v.len(), |w: int| v[w].steps@) }
pub open spec fn cp(cmds: Seq<ProofCommand>, v: Seq<Schedule>) -> CP { CP { cmds, loads: loads_of(v) } }
pub open spec fn stk<'a>(v: Seq<StackLevel<'a>>) -> Stk<'a> { Seq::new(v.len(), |j: int| (v[j].id, v[j].cmds)) }
/// the walk of a schedule so far: each entry is at the level it says, and inside the subproof
pub open spec fn ent_wf(cmds: Seq<ProofCommand>, s: Seq<Ent>, k: int) -> bool {
    let l = walk(cmds, s, k);
    l.len() == s[k].0 + 1 && (s[k].1 == usize::MAX || s[k].1 < l.last().1.len())
}
pub open spec fn end_of(cmds: Seq<ProofCommand>, s: Seq<Ent>) -> Lv { walk(cmds, s, s.len() as int) }
/// where a schedule ends is on the path to the current position
pub open spec fn winv(cmds: Seq<ProofCommand>, s: Seq<Ent>, g: Stk) -> bool {
    let l = end_of(cmds, s);
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] ent_wf(cmds, s, k)
    &&& 1 <= l.len() <= g.len()
    &&& forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).1 == g[j].1@
    &&& forall|j: int| 0 <= j < l.len() - 1 ==> (#[trigger] l[j]).0 == g[j].0 - 1
}
pub open spec fn all_winv(cmds: Seq<ProofCommand>, v: Seq<Schedule>, g: Stk) -> bool { forall|w: int| 0 <= w < v.len() ==> winv(cmds, #[trigger] v[w].steps@, g) }
/// a level knows the schedules that are inside it
pub open spec fn used_ok(cmds: Seq<ProofCommand>, v: Seq<Schedule>, st: Seq<StackLevel>) -> bool {
    forall|w: int, j: int| 0 <= w < v.len() && 1 <= j < st.len() ==> (#[trigger] st[j].used_by.s().contains(w as usize) <==> j < end_of(cmds, (#[trigger] v[w]).steps@).len())
}
pub open spec fn openers_ok(st: Seq<StackLevel>) -> bool {
    forall|j: int| 1 <= j < st.len() ==> (#[trigger] st[j]).pre_req == Some(((j - 1) as usize, (st[j - 1].id - 1) as usize))
}
pub proof fn walk_prefix(cmds: Seq<ProofCommand>, s: Seq<Ent>, t: Seq<Ent>, k: int)
    requires 0 <= k <= s.len(), k <= t.len(), s.take(k) =~= t.take(k),
    ensures walk(cmds, s, k) == walk(cmds, t, k),
    decreases k
{
    if k > 0 {
        assert(s.take(k - 1) =~= s.take(k).take(k - 1));
        assert(t.take(k - 1) =~= t.take(k).take(k - 1));
        walk_prefix(cmds, s, t, k - 1);
        assert(s[k - 1] == s.take(k)[k - 1] && t[k - 1] == t.take(k)[k - 1]);
    }
}
pub proof fn walk_push(cmds: Seq<ProofCommand>, s: Seq<Ent>, e: Ent)
    ensures end_of(cmds, s.push(e)) == wstep(end_of(cmds, s), e), forall|k: int| 0 <= k <= s.len() ==> #[trigger] walk(cmds, s.push(e), k) == walk(cmds, s, k),
        forall|k: int| 0 <= k < s.len() && ent_wf(cmds, s, k) ==> #[trigger] ent_wf(cmds, s.push(e), k),
{
    let t = s.push(e);
    assert forall|k: int| 0 <= k <= s.len() implies #[trigger] walk(cmds, t, k) == walk(cmds, s, k) by {
        assert(s.take(k) =~= t.take(k));
        walk_prefix(cmds, s, t, k);
    }
    assert(walk(cmds, t, s.len() as int + 1) == wstep(walk(cmds, t, s.len() as int), t[s.len() as int]));
    assert forall|k: int| 0 <= k < s.len() && ent_wf(cmds, s, k) implies #[trigger] ent_wf(cmds, t, k) by { assert(walk(cmds, t, k) == walk(cmds, s, k)); }
}
/// the visits of a schedule stay when entries are added
pub proof fn vis_push(P: CP, w: int, e: Ent)
    requires 0 <= w < P.loads.len(),
    ensures mono(P, CP { cmds: P.cmds, loads: P.loads.update(w, P.loads[w].push(e)) }),
{
    reveal(mono);
    let s = P.loads[w];
    let Q = CP { cmds: P.cmds, loads: P.loads.update(w, s.push(e)) };
    walk_push(P.cmds, s, e);
    assert forall|c: ProofCommand, lv: Lv| vis(P, c, lv) implies #[trigger] vis(Q, c, lv) by {
        let (v, k) = choose|v: int, k: int| 0 <= v < P.loads.len() && 0 <= k < P.loads[v].len() && #[trigger] visits(P.cmds, P.loads[v], k, c, lv);
        if v == w { assert(s.push(e)[k] == s[k]); assert(walk(P.cmds, s.push(e), k) == walk(P.cmds, s, k)); assert(walk(P.cmds, s.push(e), k + 1) == walk(P.cmds, s, k + 1)); }
        assert(visits(Q.cmds, Q.loads[v], k, c, lv));
    }
}
/// ... and when the last one, which opens a subproof, is removed
pub proof fn vis_pop(P: CP, w: int)
    requires 0 <= w < P.loads.len(), P.loads[w].len() > 0, ent_cmd(P.cmds, P.loads[w], P.loads[w].len() - 1) is Subproof,
    ensures mono(P, CP { cmds: P.cmds, loads: P.loads.update(w, P.loads[w].drop_last()) }),
{
    reveal(mono);
    let s = P.loads[w].drop_last();
    let e = P.loads[w].last();
    assert(s.push(e) =~= P.loads[w]);
    let Q = CP { cmds: P.cmds, loads: P.loads.update(w, s) };
    walk_push(P.cmds, s, e);
    assert forall|c: ProofCommand, lv: Lv| vis(P, c, lv) implies #[trigger] vis(Q, c, lv) by {
        let (v, k) = choose|v: int, k: int| 0 <= v < P.loads.len() && 0 <= k < P.loads[v].len() && #[trigger] visits(P.cmds, P.loads[v], k, c, lv);
        if v == w { assert(k < s.len()); assert(s.push(e)[k] == s[k]); assert(walk(P.cmds, s.push(e), k) == walk(P.cmds, s, k)); assert(walk(P.cmds, s.push(e), k + 1) == walk(P.cmds, s, k + 1)); }
        assert(visits(Q.cmds, Q.loads[v], k, c, lv));
    }
}
#[verifier::opaque]
pub open spec fn mono(P: CP, Q: CP) -> bool { forall|c: ProofCommand, lv: Lv| vis(P, c, lv) ==> #[trigger] vis(Q, c, lv) }
pub proof fn cov_mono(P: CP, Q: CP, c: ProofCommand, lv: Lv)
    requires cov(P, c, lv), mono(P, Q),
    ensures cov(Q, c, lv),
    decreases c
{
    reveal(mono);
    match c {
        ProofCommand::Subproof(sp) => {
            assert forall|i: int| 0 <= i < sp.commands@.len() implies cov(Q, #[trigger] sp.commands@[i], lv.push((i, sp.commands@))) by {
                cov_mono(P, Q, sp.commands@[i], lv.push((i, sp.commands@)));
            }
        }
        _ => { assert(vis(P, c, lv)); assert(vis(Q, c, lv)); }
    }
}
pub proof fn c_inv_mono(P: CP, Q: CP, cmds: Seq<ProofCommand>, s: Stk, pending: bool)
    requires c_inv(P, cmds, s, pending), mono(P, Q),
    ensures c_inv(Q, cmds, s, pending),
{
    assert forall|j: int, n: int| c_done(P, s, j, n) implies #[trigger] c_done(Q, s, j, n) by {
        assert forall|i: int| 0 <= i < n implies cov(Q, #[trigger] s[j].1@[i], lvs(s).take(j).push((i, s[j].1@))) by {
            cov_mono(P, Q, s[j].1@[i], lvs(s).take(j).push((i, s[j].1@)));
        }
    }
    assert forall|j: int| 0 <= j < s.len() - 1 implies #[trigger] c_done1(Q, s, j) by { assert(c_done1(P, s, j)); }
}
/// every step and assumption of the proof is visited
pub open spec fn all_cov(P: CP) -> bool { forall|i: int| 0 <= i < P.cmds.len() ==> cov(P, #[trigger] P.cmds[i], seq![(i, P.cmds)]) }
pub proof fn all_cov_mono(P: CP, Q: CP)
    requires all_cov(P), mono(P, Q), P.cmds == Q.cmds,
    ensures all_cov(Q),
{
    assert forall|i: int| 0 <= i < Q.cmds.len() implies cov(Q, #[trigger] Q.cmds[i], seq![(i, Q.cmds)]) by { assert(cov(P, P.cmds[i], seq![(i, P.cmds)])); cov_mono(P, Q, P.cmds[i], seq![(i, P.cmds)]); }
}
pub proof fn mono_trans(P: CP, Q: CP, R: CP)
    requires mono(P, Q), mono(Q, R),
    ensures mono(P, R),
{
    reveal(mono);
    assert forall|c: ProofCommand, lv: Lv| vis(P, c, lv) implies #[trigger] vis(R, c, lv) by { assert(vis(Q, c, lv)); }
}
/// all of it is visited, and every visit was accepted
pub proof fn cov_ok(P: CP, h: bool, cfg: Config, prem: Set<Rc<Term>>, c: ProofCommand, lv: Lv)
    requires cov(P, c, lv), forall|w: int| 0 <= w < P.loads.len() ==> entries_ok(h, cfg, prem, P.cmds, #[trigger] P.loads[w], P.loads[w].len() as int),
    ensures cmd_ok(h, cfg, prem, c, lv),
    decreases c
{
    match c {
        ProofCommand::Subproof(sp) => {
            assert forall|i: int| 0 <= i < sp.commands@.len() implies cmd_ok(h, cfg, prem, #[trigger] sp.commands@[i], lv.push((i, sp.commands@))) by {
                cov_ok(P, h, cfg, prem, sp.commands@[i], lv.push((i, sp.commands@)));
            }
        }
        _ => {
            let (w, k) = choose|w: int, k: int| 0 <= w < P.loads.len() && 0 <= k < P.loads[w].len() && #[trigger] visits(P.cmds, P.loads[w], k, c, lv);
            assert(entries_ok(h, cfg, prem, P.cmds, P.loads[w], P.loads[w].len() as int)); reveal(entries_ok);
            assert(entry_ok(h, cfg, prem, P.cmds, P.loads[w], k));
        }
    }
}
/// what the last entry of a schedule says about where it ends
pub proof fn last_entry(cmds: Seq<ProofCommand>, s: Seq<Ent>, g: Stk)
    requires winv(cmds, s, g),
    ensures s.len() == 0 ==> end_of(cmds, s).len() == 1,
        s.len() > 0 && s.last().1 == usize::MAX ==> end_of(cmds, s).len() == s.last().0,
        s.len() > 0 && s.last().1 != usize::MAX ==> s.last().0 < g.len() && s.last().1 < g[s.last().0 as int].1@.len() && ent_cmd(cmds, s, s.len() - 1) == g[s.last().0 as int].1@[s.last().1 as int]
            && end_of(cmds, s).len() == s.last().0 + (if ent_cmd(cmds, s, s.len() - 1) is Subproof { 2int } else { 1int })
            && (ent_cmd(cmds, s, s.len() - 1) is Subproof ==> s.last().1 == g[s.last().0 as int].0 - 1),
{
    if s.len() > 0 {
        let e = s.last();
        let l = walk(cmds, s, s.len() - 1);
        assert(ent_wf(cmds, s, s.len() - 1));
        assert(end_of(cmds, s) == wstep(l, e));
        if e.1 != usize::MAX {
            let z = end_of(cmds, s);
            assert(z[e.0 as int].1 == l.last().1);
            assert(z[e.0 as int].0 == e.1);
        }
    }
}
/// the schedule closes the innermost subproof
pub proof fn close_push(cmds: Seq<ProofCommand>, s: Seq<Ent>, g: Stk, e: Ent)
    requires winv(cmds, s, g), g.len() > 1, end_of(cmds, s).len() == g.len(), e == ((g.len() - 1) as usize, usize::MAX), g.len() <= usize::MAX,
    ensures winv(cmds, s.push(e), g.drop_last()), end_of(cmds, s.push(e)).len() == g.len() - 1,
{
    walk_push(cmds, s, e);
    let t = s.push(e);
    let h = g.drop_last();
    let z = end_of(cmds, t);
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] ent_wf(cmds, t, k) by { if k < s.len() { assert(ent_wf(cmds, s, k)); } else { assert(walk(cmds, t, k) == walk(cmds, s, k)); } }
    assert forall|j: int| 0 <= j < z.len() implies (#[trigger] z[j]).1 == h[j].1@ by { assert(z[j] == end_of(cmds, s)[j]); }
    assert forall|j: int| 0 <= j < z.len() - 1 implies (#[trigger] z[j]).0 == h[j].0 - 1 by { assert(z[j] == end_of(cmds, s)[j]); }
}
/// the schedule opened the innermost subproof for nothing
pub proof fn close_pop(cmds: Seq<ProofCommand>, s: Seq<Ent>, g: Stk)
    requires winv(cmds, s, g), end_of(cmds, s).len() == g.len(), s.len() > 0, s.last().1 != usize::MAX, ent_cmd(cmds, s, s.len() - 1) is Subproof,
    ensures winv(cmds, s.drop_last(), g.drop_last()), end_of(cmds, s.drop_last()).len() == g.len() - 1,
{
    let t = s.drop_last();
    let e = s.last();
    assert(t.push(e) =~= s);
    walk_push(cmds, t, e);
    last_entry(cmds, s, g);
    let l = walk(cmds, s, s.len() - 1);
    assert(l == end_of(cmds, t));
    assert(ent_wf(cmds, s, s.len() - 1));
    let z = end_of(cmds, s);
    assert(z == wstep(l, e));
    let h = g.drop_last();
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] ent_wf(cmds, t, k) by { assert(ent_wf(cmds, s, k)); assert(walk(cmds, t, k) == walk(cmds, s, k)); assert(t[k] == s[k]); }
    assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j]).1 == h[j].1@ by { assert(z[j].1 == l[j].1); }
    assert forall|j: int| 0 <= j < l.len() - 1 implies (#[trigger] l[j]).0 == h[j].0 - 1 by { assert(z[j] == l[j]); }
}
/// the schedule opens the next one of the open subproofs
pub proof fn open_push(cmds: Seq<ProofCommand>, s: Seq<Ent>, g: Stk, e: Ent)
    requires winv(cmds, s, g), end_of(cmds, s).len() < g.len(),
        ({ let d = end_of(cmds, s).len() as int; e.0 == d - 1 && e.1 == g[d - 1].0 - 1 && e.1 < g[d - 1].1@.len() && e.1 != usize::MAX
            && g[d - 1].1@[e.1 as int] is Subproof && g[d - 1].1@[e.1 as int]->Subproof_0.commands@ == g[d].1@ }),
    ensures winv(cmds, s.push(e), g), end_of(cmds, s.push(e)).len() == end_of(cmds, s).len() + 1, s.push(e).last() == e,
{
    walk_push(cmds, s, e);
    let t = s.push(e);
    let l = end_of(cmds, s);
    let z = end_of(cmds, t);
    let d = l.len() as int;
    assert(l.last() == l[d - 1]);
    assert(l[d - 1].1 == g[d - 1].1@);
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] ent_wf(cmds, t, k) by { if k < s.len() { assert(ent_wf(cmds, s, k)); } else { assert(walk(cmds, t, k) == walk(cmds, s, k)); } }
    assert forall|j: int| 0 <= j < z.len() implies (#[trigger] z[j]).1 == g[j].1@ by { if j < d - 1 { assert(z[j] == l[j]); } }
    assert forall|j: int| 0 <= j < z.len() - 1 implies (#[trigger] z[j]).0 == g[j].0 - 1 by { if j < d - 1 { assert(z[j] == l[j]); } }
}
/// the schedule gets the current command
pub proof fn visit_push(cmds: Seq<ProofCommand>, s: Seq<Ent>, g: Stk, e: Ent, t: Stk, c: ProofCommand)
    requires winv(cmds, s, g), wf_stk(g), end_of(cmds, s).len() == g.len(), e.0 == g.len() - 1, e.1 == g.last().0, e.1 < g.last().1@.len(), e.1 != usize::MAX, stepped(g, t, c), fin(g) == g,
    ensures winv(cmds, s.push(e), t), end_of(cmds, s.push(e)).len() == t.len(), !(c is Subproof) ==> visits(cmds, s.push(e), s.len() as int, c, lvs(t)),
{
    walk_push(cmds, s, e);
    let q = s.push(e);
    let l = end_of(cmds, s);
    let z = end_of(cmds, q);
    let d = g.len() as int;
    assert(l.last() == l[d - 1]);
    assert(l[d - 1].1 == g[d - 1].1@);
    assert(e.1 + 1 <= usize::MAX);
    let b = bump(g);
    assert forall|j: int| 0 <= j < d implies #[trigger] t[j] == b[j] by { if c is Subproof { assert(t.drop_last()[j] == t[j]); } }
    assert forall|k: int| 0 <= k < q.len() implies #[trigger] ent_wf(cmds, q, k) by { if k < s.len() { assert(ent_wf(cmds, s, k)); } else { assert(walk(cmds, q, k) == walk(cmds, s, k)); } }
    assert forall|j: int| 0 <= j < z.len() implies (#[trigger] z[j]).1 == t[j].1@ by { if j < d { assert(t[j] == b[j]); if j < d - 1 { assert(z[j] == l[j]); } } else { assert(t[j] == t.last()); } }
    assert forall|j: int| 0 <= j < z.len() - 1 implies (#[trigger] z[j]).0 == t[j].0 - 1 by { assert(t[j] == b[j]); if j < d - 1 { assert(z[j] == l[j]); } }
    if !(c is Subproof) {
        assert(walk(cmds, q, s.len() as int) == l);
        assert(q[s.len() as int] == e);
        assert(walk(cmds, q, s.len() as int + 1) == z);
        assert forall|j: int| 0 <= j < d implies z[j] == lvs(t)[j] by { assert(t[j] == b[j]); if j < d - 1 { assert(z[j] == l[j]); } }
        assert(z =~= lvs(t));
    }
}
pub proof fn other_step(cmds: Seq<ProofCommand>, s: Seq<Ent>, g: Stk, t: Stk, c: ProofCommand)
    requires winv(cmds, s, g), stepped(g, t, c), fin(g) == g, wf_stk(g),
    ensures winv(cmds, s, t),
{
    let d = g.len() as int;
    let b = bump(g);
    let l = end_of(cmds, s);
    assert forall|j: int| 0 <= j < d implies #[trigger] t[j] == b[j] by { if c is Subproof { assert(t.drop_last()[j] == t[j]); } }
    assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j]).1 == t[j].1@ by { assert(t[j] == b[j]); }
    assert forall|j: int| 0 <= j < l.len() - 1 implies (#[trigger] l[j]).0 == t[j].0 - 1 by { assert(t[j] == b[j]); }
}
/// the schedules in xs, up to n, are no longer in the innermost subproof
#[verifier::opaque]
pub open spec fn closed(cmds: Seq<ProofCommand>, l0: Seq<Schedule>, v: Seq<Schedule>, xs: Seq<usize>, n: int, g: Stk) -> bool {
    &&& v.len() == l0.len()
    &&& forall|w: int| 0 <= w < v.len() ==> (if xs.take(n).contains(w as usize) { g.len() > 1 ==> closed1(cmds, #[trigger] v[w].steps@, g) } else { v[w].steps@ == l0[w].steps@ })
}
pub open spec fn closed1(cmds: Seq<ProofCommand>, s: Seq<Ent>, g: Stk) -> bool { winv(cmds, s, g.drop_last()) && end_of(cmds, s).len() == g.len() - 1 }
#[verifier::opaque]
pub open spec fn sched_inv(cmds: Seq<ProofCommand>, v: Seq<Schedule>, st: Seq<StackLevel>) -> bool {
    &&& st.len() > 0
    &&& c_inv(cp(cmds, v), cmds, stk(st), false)
    &&& all_winv(cmds, v, stk(st))
    &&& used_ok(cmds, v, st)
    &&& openers_ok(st)
}
pub proof fn sched_start(cmds: Seq<ProofCommand>, v: Seq<Schedule>, st: Seq<StackLevel>)
    requires wf_cmds(cmds), forall|w: int| 0 <= w < v.len() ==> (#[trigger] v[w]).steps@.len() == 0, st.len() == 1, st[0].id == 0, st[0].cmds@ == cmds,
    ensures sched_inv(cmds, v, st),
{
    reveal(sched_inv);
    let g = stk(st);
    assert forall|w: int| 0 <= w < v.len() implies winv(cmds, #[trigger] v[w].steps@, g) by { assert(end_of(cmds, v[w].steps@) == seq![(-1int, cmds)]); }
}
/// before the schedule xs[n] leaves the innermost subproof
pub proof fn close_before(cmds: Seq<ProofCommand>, l0: Seq<Schedule>, v: Seq<Schedule>, st: Seq<StackLevel>, xs: Seq<usize>, n: int)
    requires sched_inv(cmds, l0, st), closed(cmds, l0, v, xs, n, stk(st)), v.len() <= usize::MAX, xs.no_duplicates(), 0 <= n < xs.len(),
        forall|x: usize| st[st.len() - 1].used_by.s().contains(x) <==> #[trigger] xs.contains(x),
    ensures xs[n] < v.len() && v[xs[n] as int].steps@.len() == 0 ==> closed(cmds, l0, v, xs, n + 1, stk(st)),
{
    reveal(sched_inv); reveal(closed);
    let g = stk(st);
    let x = xs[n];
    assert(xs.take(n + 1) =~= xs.take(n).push(x));
    assert(xs.contains(x));
    if x < v.len() && v[x as int].steps@.len() == 0 {
        assert(!xs.take(n).contains(x)) by { if xs.take(n).contains(x) { let k = choose|k: int| 0 <= k < n && #[trigger] xs.take(n)[k] == x; assert(xs[k] == xs[n]); } }
        last_entry(cmds, l0[x as int].steps@, g);
        assert(st[st.len() - 1].used_by.s().contains(x));
        assert forall|w: int| 0 <= w < v.len() implies (if xs.take(n + 1).contains(w as usize) { g.len() > 1 ==> closed1(cmds, #[trigger] v[w].steps@, g) } else { v[w].steps@ == l0[w].steps@ }) by {
            contains_push(xs, n, w as usize);
            if g.len() > 1 && w == x { assert(st[g.len() - 1].used_by.s().contains(w as usize) <==> g.len() - 1 < end_of(cmds, l0[w].steps@).len()); }
        }
    }
}
pub proof fn contains_push(xs: Seq<usize>, n: int, y: usize)
    requires 0 <= n < xs.len(),
    ensures xs.take(n + 1).contains(y) <==> xs.take(n).contains(y) || y == xs[n],
{
    if xs.take(n + 1).contains(y) { let k = choose|k: int| 0 <= k < n + 1 && #[trigger] xs.take(n + 1)[k] == y; if k < n { assert(xs.take(n)[k] == y); } }
    if xs.take(n).contains(y) { let k = choose|k: int| 0 <= k < n && #[trigger] xs.take(n)[k] == y; assert(xs.take(n + 1)[k] == y); }
    assert(xs.take(n + 1)[n] == xs[n]);
}
/// the schedule xs[n] left it: its opening entry was removed, or a closing one was added
pub proof fn close_after(cmds: Seq<ProofCommand>, l0: Seq<Schedule>, v: Seq<Schedule>, v2: Seq<Schedule>, st: Seq<StackLevel>, xs: Seq<usize>, n: int)
    requires sched_inv(cmds, l0, st), closed(cmds, l0, v, xs, n, stk(st)), v.len() <= usize::MAX, xs.no_duplicates(), 0 <= n < xs.len(), mono(cp(cmds, l0), cp(cmds, v)),
        forall|x: usize| st[st.len() - 1].used_by.s().contains(x) <==> #[trigger] xs.contains(x), xs[n] < v.len(), v2.len() == v.len(), st.len() <= usize::MAX,
        forall|w: int| 0 <= w < v.len() && w != xs[n] ==> #[trigger] v2[w] == v[w],
        ({ let s = v[xs[n] as int].steps@; let e = s.last(); s.len() > 0 && (
            v2[xs[n] as int].steps@ == s.push(((st.len() - 1) as usize, usize::MAX))
            || v2[xs[n] as int].steps@ == s.drop_last() && e.0 < st.len() && e.1 < st[e.0 as int].cmds@.len() && st[e.0 as int].cmds@[e.1 as int] is Subproof) }),
    ensures closed(cmds, l0, v2, xs, n + 1, stk(st)), mono(cp(cmds, l0), cp(cmds, v2)),
{
    reveal(sched_inv); reveal(closed);
    let g = stk(st);
    let x = xs[n];
    let s = v[x as int].steps@;
    let e = s.last();
    let c = ((st.len() - 1) as usize, usize::MAX);
    assert(xs.contains(x));
    assert(st[st.len() - 1].used_by.s().contains(x));
    assert(!xs.take(n).contains(x)) by { if xs.take(n).contains(x) { let k = choose|k: int| 0 <= k < n && #[trigger] xs.take(n)[k] == x; assert(xs[k] == xs[n]); } }
    assert(s == l0[x as int].steps@);
    assert(winv(cmds, l0[x as int].steps@, g));
    last_entry(cmds, s, g);
    if v2[x as int].steps@ == s.push(c) {
        vis_push(cp(cmds, v), x as int, c);
        assert(loads_of(v2) =~= loads_of(v).update(x as int, s.push(c)));
    } else {
        vstd::slice::axiom_spec_len(st[e.0 as int].cmds);
        vis_pop(cp(cmds, v), x as int);
        assert(loads_of(v2) =~= loads_of(v).update(x as int, s.drop_last()));
    }
    mono_trans(cp(cmds, l0), cp(cmds, v), cp(cmds, v2));
    if g.len() > 1 {
        assert(st[g.len() - 1].used_by.s().contains(x) <==> g.len() - 1 < end_of(cmds, l0[x as int].steps@).len());
        if v2[x as int].steps@ == s.push(c) { close_push(cmds, s, g, c); } else { close_pop(cmds, s, g); }
        assert(closed1(cmds, v2[x as int].steps@, g));
    }
    assert forall|w: int| 0 <= w < v2.len() implies (if xs.take(n + 1).contains(w as usize) { g.len() > 1 ==> closed1(cmds, #[trigger] v2[w].steps@, g) } else { v2[w].steps@ == l0[w].steps@ }) by {
        contains_push(xs, n, w as usize);
        if w != x { assert(v2[w] == v[w]); assert(if xs.take(n).contains(w as usize) { g.len() > 1 ==> closed1(cmds, v[w].steps@, g) } else { v[w].steps@ == l0[w].steps@ }); }
    }
}
/// all of them left it
pub open spec fn closing(cmds: Seq<ProofCommand>, l0: Seq<Schedule>, v: Seq<Schedule>, st: Seq<StackLevel>, xs: Seq<usize>) -> bool {
    &&& sched_inv(cmds, l0, st)
    &&& closed(cmds, l0, v, xs, xs.len() as int, stk(st))
    &&& mono(cp(cmds, l0), cp(cmds, v))
    &&& v.len() <= usize::MAX
    &&& forall|x: usize| st[st.len() - 1].used_by.s().contains(x) <==> #[trigger] xs.contains(x)
    &&& st.last().id == st.last().cmds@.len()
}
pub proof fn close_one(cmds: Seq<ProofCommand>, l0: Seq<Schedule>, v: Seq<Schedule>, st: Seq<StackLevel>, xs: Seq<usize>, w: int)
    requires closing(cmds, l0, v, st, xs), 0 <= w < v.len(), st.len() > 1,
    ensures winv(cmds, v[w].steps@, stk(st).drop_last()), v.len() == l0.len(),
        st[st.len() - 1].used_by.s().contains(w as usize) ==> end_of(cmds, v[w].steps@).len() == st.len() - 1 && end_of(cmds, l0[w].steps@).len() == st.len(),
        !st[st.len() - 1].used_by.s().contains(w as usize) ==> v[w].steps@ == l0[w].steps@ && end_of(cmds, v[w].steps@).len() < st.len(),
{
    let g = stk(st);
    let top = g.len() - 1;
    let x = w as usize;
    assert(xs.take(xs.len() as int) =~= xs);
    assert(v.len() == l0.len() && (if xs.contains(x) { g.len() > 1 ==> closed1(cmds, v[w].steps@, g) } else { v[w].steps@ == l0[w].steps@ })) by { reveal(closed); }
    assert(winv(cmds, l0[w].steps@, g) && (st[top].used_by.s().contains(x) <==> top < end_of(cmds, l0[w].steps@).len())) by { reveal(sched_inv); }
    assert(st[top].used_by.s().contains(x) <==> xs.contains(x));
    if !xs.contains(x) {
        let s = v[w].steps@;
        let l = end_of(cmds, s);
        assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j]).1 == g.drop_last()[j].1@ by { assert(l[j].1 == g[j].1@); }
        assert forall|j: int| 0 <= j < l.len() - 1 implies (#[trigger] l[j]).0 == g.drop_last()[j].0 - 1 by { assert(l[j].0 == g[j].0 - 1); }
    }
}
pub proof fn close_used(cmds: Seq<ProofCommand>, l0: Seq<Schedule>, v: Seq<Schedule>, st: Seq<StackLevel>, xs: Seq<usize>)
    requires closing(cmds, l0, v, st, xs), st.len() > 1,
    ensures used_ok(cmds, v, st.drop_last()), openers_ok(st.drop_last()),
{
    let d = st.drop_last();
    assert(used_ok(cmds, l0, st) && openers_ok(st)) by { reveal(sched_inv); }
    assert forall|w: int, j: int| 0 <= w < v.len() && 1 <= j < d.len() implies (#[trigger] d[j].used_by.s().contains(w as usize) <==> j < end_of(cmds, (#[trigger] v[w]).steps@).len()) by {
        close_one(cmds, l0, v, st, xs, w);
        assert(st[j].used_by.s().contains(w as usize) <==> j < end_of(cmds, l0[w].steps@).len());
    }
    assert forall|j: int| 1 <= j < d.len() implies (#[trigger] d[j]).pre_req == Some(((j - 1) as usize, (d[j - 1].id - 1) as usize)) by { assert(st[j].pre_req == Some(((j - 1) as usize, (st[j - 1].id - 1) as usize))); }
}
pub proof fn close_all(cmds: Seq<ProofCommand>, l0: Seq<Schedule>, v: Seq<Schedule>, st: Seq<StackLevel>, xs: Seq<usize>)
    requires closing(cmds, l0, v, st, xs),
    ensures st.len() > 1 ==> sched_inv(cmds, v, st.drop_last()), st.len() == 1 ==> all_cov(cp(cmds, v)),
{
    let g = stk(st);
    let d = st.drop_last();
    assert(c_inv(cp(cmds, l0), cmds, g, false) && st.len() == g.len()) by { reveal(sched_inv); }
    if st.len() > 1 { assert(stk(d) =~= g.drop_last()); }
    if st.len() == 1 {
        c_inv_end(cp(cmds, l0), cmds, g);
        all_cov_mono(cp(cmds, l0), cp(cmds, v));
    } else if st.len() > 1 {
        c_inv_mono(cp(cmds, l0), cp(cmds, v), cmds, g, false);
        c_inv_pop(cp(cmds, v), cmds, g);
        close_used(cmds, l0, v, st, xs);
        assert forall|w: int| 0 <= w < v.len() implies winv(cmds, #[trigger] v[w].steps@, stk(d)) by { close_one(cmds, l0, v, st, xs, w); }
        reveal(sched_inv);
    }
}
pub proof fn close_start(cmds: Seq<ProofCommand>, l0: Seq<Schedule>, st: Seq<StackLevel>, xs: Seq<usize>)
    ensures closed(cmds, l0, l0, xs, 0, stk(st)), mono(cp(cmds, l0), cp(cmds, l0)),
{
    reveal(closed); reveal(mono);
    assert(xs.take(0) =~= Seq::empty());
}
/// the schedule w gets the entries that open the subproofs below the level l
#[verifier::opaque]
pub open spec fn open_inv(cmds: Seq<ProofCommand>, v0: Seq<Schedule>, v: Seq<Schedule>, st0: Seq<StackLevel>, st: Seq<StackLevel>, w: int, l: int) -> bool {
    let g = stk(st0);
    let n = end_of(cmds, v[w].steps@).len();
    &&& sched_inv(cmds, v0, st0)
    &&& v.len() == v0.len() <= usize::MAX && 0 <= w < v.len()
    &&& forall|x: int| 0 <= x < v.len() && x != w ==> (#[trigger] v[x]).steps@ == v0[x].steps@
    &&& mono(cp(cmds, v0), cp(cmds, v))
    &&& stk(st) =~= g
    &&& winv(cmds, v[w].steps@, g)
    &&& openers_ok(st)
    &&& forall|x: int, j: int| 0 <= x < v.len() && x != w && 1 <= j < st.len() ==> (#[trigger] st[j].used_by.s().contains(x as usize) <==> j < end_of(cmds, (#[trigger] v[x]).steps@).len())
    &&& forall|j: int| 1 <= j < st.len() ==> (j < n - 1 ==> (#[trigger] st[j]).used_by.s().contains(w as usize)) && (j >= n ==> !st[j].used_by.s().contains(w as usize))
    &&& 1 <= l <= st.len()
    &&& n == l || (n == l + 1 && v[w].steps@.len() > 0 && v[w].steps@.last() == ((l - 1) as usize, (g[l - 1].0 - 1) as usize))
}
pub proof fn open_start(cmds: Seq<ProofCommand>, v: Seq<Schedule>, st: Seq<StackLevel>, w: int, il: int)
    requires sched_inv(cmds, v, st), 0 <= w < v.len() <= usize::MAX,
        ({ let s = v[w].steps@; if s.len() == 0 { il == 0 } else if s.last().1 == usize::MAX { il == s.last().0 - 1 } else { il == s.last().0 } }),
    ensures open_inv(cmds, v, v, st, st, w, il + 1), il >= 0, il + 1 <= st.len(),
{
    reveal(sched_inv); reveal(open_inv); reveal(mono);
    last_entry(cmds, v[w].steps@, stk(st));
    assert(winv(cmds, v[w].steps@, stk(st)));
    assert forall|j: int| 1 <= j < st.len() implies (j < end_of(cmds, v[w].steps@).len() - 1 ==> (#[trigger] st[j]).used_by.s().contains(w as usize)) && (j >= end_of(cmds, v[w].steps@).len() ==> !st[j].used_by.s().contains(w as usize)) by {
        assert(st[j].used_by.s().contains(w as usize) <==> j < end_of(cmds, v[w].steps@).len());
    }
}
#[verifier::rlimit(60)]
pub proof fn open_step(cmds: Seq<ProofCommand>, v0: Seq<Schedule>, v: Seq<Schedule>, v2: Seq<Schedule>, st0: Seq<StackLevel>, st: Seq<StackLevel>, st2: Seq<StackLevel>, w: int, l: int, op: Ent, last: Ent)
    requires open_inv(cmds, v0, v, st0, st, w, l), l < st.len() <= usize::MAX, st[l].pre_req == Some(op),
        last == (if v[w].steps@.len() > 0 { v[w].steps@.last() } else { (usize::MAX, 0usize) }),
        v2.len() == v.len(), st2.len() == st.len(),
        forall|x: int| 0 <= x < v.len() && x != w ==> #[trigger] v2[x] == v[x],
        last == op ==> v2 == v && st2 == st,
        last != op ==> v2[w].steps@ == v[w].steps@.push(op) && op.0 < st.len() && st2 == st.update(op.0 as int, st2[op.0 as int])
            && st2[op.0 as int].id == st[op.0 as int].id && st2[op.0 as int].cmds == st[op.0 as int].cmds && st2[op.0 as int].pre_req == st[op.0 as int].pre_req
            && st2[op.0 as int].used_by.s() == st[op.0 as int].used_by.s().insert(w as usize),
    ensures open_inv(cmds, v0, v2, st0, st2, w, l + 1), l + 1 <= st2.len(),
{
    reveal(sched_inv); reveal(open_inv);
    let g = stk(st0);
    let s = v[w].steps@;
    let n = end_of(cmds, s).len();
    let G = st[l];
    assert(stk(st)[l - 1] == g[l - 1]);
    assert(g[l - 1].0 == st[l - 1].id);
    assert(op == ((l - 1) as usize, (st[l - 1].id - 1) as usize));
    let c = g[l - 1].1@[g[l - 1].0 - 1];
    assert(g[l - 1].0 >= 1 && c is Subproof && c->Subproof_0.commands@ == g[l].1@);
    assert(g[l - 1].0 <= g[l - 1].1@.len());
    vstd::slice::axiom_spec_len(g[l - 1].1);
    last_entry(cmds, s, g);
    if last == op {
        assert(n == l + 1) by { if s.len() > 0 { assert(ent_cmd(cmds, s, s.len() - 1) == g[op.0 as int].1@[op.1 as int]); } else { assert(op.0 < usize::MAX); } }
    } else {
        assert(n == l);
        open_push(cmds, s, g, op);
        vis_push(cp(cmds, v), w, op);
        assert(loads_of(v2) =~= loads_of(v).update(w, s.push(op)));
        mono_trans(cp(cmds, v0), cp(cmds, v), cp(cmds, v2));
        assert(stk(st2) =~= g) by { assert forall|j: int| 0 <= j < st.len() implies stk(st2)[j] == g[j] by { assert(stk(st)[j] == g[j]); } }
        assert forall|x: int, j: int| 0 <= x < v2.len() && x != w && 1 <= j < st2.len() implies (#[trigger] st2[j].used_by.s().contains(x as usize) <==> j < end_of(cmds, (#[trigger] v2[x]).steps@).len()) by {
            assert(v2[x] == v[x]);
            assert(st[j].used_by.s().contains(x as usize) <==> j < end_of(cmds, v[x].steps@).len());
        }
        assert forall|j: int| 1 <= j < st2.len() implies (j < n ==> (#[trigger] st2[j]).used_by.s().contains(w as usize)) && (j >= n + 1 ==> !st2[j].used_by.s().contains(w as usize)) by {
            assert(st[j].used_by.s().contains(w as usize) || !st[j].used_by.s().contains(w as usize));
        }
        assert forall|j: int| 1 <= j < st2.len() implies (#[trigger] st2[j]).pre_req == Some(((j - 1) as usize, (st2[j - 1].id - 1) as usize)) by { assert(st[j].pre_req == Some(((j - 1) as usize, (st[j - 1].id - 1) as usize))); }
    }
}
/// the current command is given to the schedule w
pub open spec fn asg(cmds: Seq<ProofCommand>, v0: Seq<Schedule>, v: Seq<Schedule>, v2: Seq<Schedule>, st0: Seq<StackLevel>, st: Seq<StackLevel>, st2: Seq<StackLevel>, w: int, c: ProofCommand) -> bool {
    &&& open_inv(cmds, v0, v, st0, st, w, st.len() as int)
    &&& st.len() <= usize::MAX
    &&& st.last().id < st.last().cmds@.len()
    &&& c == st.last().cmds@[st.last().id as int]
    &&& v2.len() == v.len()
    &&& forall|x: int| 0 <= x < v.len() && x != w ==> #[trigger] v2[x] == v[x]
    &&& v2[w].steps@ == v[w].steps@.push(((st.len() - 1) as usize, st.last().id))
    &&& st2.len() == st.len() + (if c is Subproof { 1int } else { 0int })
    &&& forall|j: int| 0 <= j < st.len() - 1 ==> #[trigger] st2[j] == st[j]
    &&& ({ let a = st[st.len() - 1]; let b = st2[st.len() - 1]; b.id == a.id + 1 && b.cmds == a.cmds && b.pre_req == a.pre_req && b.used_by.s() == a.used_by.s().insert(w as usize) })
    &&& c is Subproof ==> ({ let b = st2[st.len() as int]; b.id == 0 && b.cmds@ == c->Subproof_0.commands@ && b.pre_req == Some(((st.len() - 1) as usize, st.last().id)) && b.used_by.s() == Set::<usize>::empty().insert(w as usize) })
}
pub proof fn asg_step(cmds: Seq<ProofCommand>, v0: Seq<Schedule>, v: Seq<Schedule>, v2: Seq<Schedule>, st0: Seq<StackLevel>, st: Seq<StackLevel>, st2: Seq<StackLevel>, w: int, c: ProofCommand)
    requires asg(cmds, v0, v, v2, st0, st, st2, w, c),
    ensures stepped(stk(st0), stk(st2), c), fin(stk(st0)) == stk(st0), stk(st0).len() == st.len(), stk(st0).last().0 == st.last().id, stk(st0).last().1 == st.last().cmds, end_of(cmds, v[w].steps@).len() == st.len(), st.len() >= 1,
        winv(cmds, v[w].steps@, stk(st0)), mono(cp(cmds, v0), cp(cmds, v)), sched_inv(cmds, v0, st0), 0 <= w < v.len() <= usize::MAX, v0.len() == v.len(),
        forall|x: int| 0 <= x < v.len() && x != w ==> (#[trigger] v[x]).steps@ == v0[x].steps@, wf_stk(stk(st0)),
{
    reveal(open_inv);
    let g = stk(st0);
    let d = st.len() as int;
    let t = stk(st2);
    assert(wf_stk(g)) by { reveal(sched_inv); }
    assert(stk(st)[d - 1] == g[d - 1]);
    vstd::slice::axiom_spec_len(st.last().cmds);
    assert(fin(g) == g);
    let b = bump(g);
    assert forall|j: int| 0 <= j < d implies #[trigger] t[j] == b[j] by { assert(stk(st)[j] == g[j]); }
    if c is Subproof { assert(t.drop_last() =~= b); } else { assert(t =~= b); }
}
pub proof fn asg_cov(cmds: Seq<ProofCommand>, v0: Seq<Schedule>, v: Seq<Schedule>, v2: Seq<Schedule>, st0: Seq<StackLevel>, st: Seq<StackLevel>, st2: Seq<StackLevel>, w: int, c: ProofCommand)
    requires asg(cmds, v0, v, v2, st0, st, st2, w, c),
    ensures c_inv(cp(cmds, v2), cmds, stk(st2), false), all_winv(cmds, v2, stk(st2)), end_of(cmds, v2[w].steps@).len() == st2.len(),
{
    asg_step(cmds, v0, v, v2, st0, st, st2, w, c);
    let g = stk(st0);
    let s = v[w].steps@;
    let e = ((st.len() - 1) as usize, st.last().id);
    let t = stk(st2);
    let P0 = cp(cmds, v0); let P = cp(cmds, v); let P2 = cp(cmds, v2);
    vstd::slice::axiom_spec_len(st.last().cmds);
    vis_push(P, w, e);
    assert(loads_of(v2) =~= loads_of(v).update(w, s.push(e)));
    mono_trans(P0, P, P2);
    assert(c_inv(P0, cmds, g, false) && all_winv(cmds, v0, g)) by { reveal(sched_inv); }
    c_inv_mono(P0, P2, cmds, g, false);
    c_inv_next(P2, cmds, g, t, c);
    visit_push(cmds, s, g, e, t, c);
    if !(c is Subproof) {
        assert(P2.loads[w] == s.push(e));
        assert(visits(P2.cmds, P2.loads[w], s.len() as int, c, lvs(t)));
        assert(vis(P2, c, lvs(t)));
        c_inv_checked(P2, cmds, t);
    }
    assert forall|x: int| 0 <= x < v2.len() implies winv(cmds, #[trigger] v2[x].steps@, t) by {
        if x != w { assert(v2[x] == v[x]); assert(winv(cmds, v0[x].steps@, g)); other_step(cmds, v[x].steps@, g, t, c); }
    }
}
pub proof fn asg_used(cmds: Seq<ProofCommand>, v0: Seq<Schedule>, v: Seq<Schedule>, v2: Seq<Schedule>, st0: Seq<StackLevel>, st: Seq<StackLevel>, st2: Seq<StackLevel>, w: int, c: ProofCommand)
    requires asg(cmds, v0, v, v2, st0, st, st2, w, c), end_of(cmds, v2[w].steps@).len() == st2.len(),
    ensures used_ok(cmds, v2, st2), openers_ok(st2),
{
    asg_step(cmds, v0, v, v2, st0, st, st2, w, c);
    reveal(open_inv);
    let d = st.len() as int;
    let g = stk(st0);
    assert forall|x: int, j: int| 0 <= x < v2.len() && 1 <= j < st2.len() implies (#[trigger] st2[j].used_by.s().contains(x as usize) <==> j < end_of(cmds, (#[trigger] v2[x]).steps@).len()) by {
        if x != w {
            assert(v2[x] == v[x]);
            assert(winv(cmds, v0[x].steps@, g)) by { reveal(sched_inv); }
            if j < d { assert(st[j].used_by.s().contains(x as usize) <==> j < end_of(cmds, v[x].steps@).len()); }
        } else if j < d {
            assert(j < d - 1 ==> st[j].used_by.s().contains(w as usize));
        }
    }
    assert forall|j: int| 1 <= j < st2.len() implies (#[trigger] st2[j]).pre_req == Some(((j - 1) as usize, (st2[j - 1].id - 1) as usize)) by {
        if j < d { assert(st[j].pre_req == Some(((j - 1) as usize, (st[j - 1].id - 1) as usize))); assert(st2[j - 1] == st[j - 1]); }
    }
}
pub proof fn assign(cmds: Seq<ProofCommand>, v0: Seq<Schedule>, v: Seq<Schedule>, v2: Seq<Schedule>, st0: Seq<StackLevel>, st: Seq<StackLevel>, st2: Seq<StackLevel>, w: int, c: ProofCommand)
    requires asg(cmds, v0, v, v2, st0, st, st2, w, c),
    ensures sched_inv(cmds, v2, st2), st2.len() > 0,
{
    asg_cov(cmds, v0, v, v2, st0, st, st2, w, c);
    asg_used(cmds, v0, v, v2, st0, st, st2, w, c);
    asg_step(cmds, v0, v, v2, st0, st, st2, w, c);
    reveal(sched_inv);
}
// --- the result of all the workers ---
pub type Res = CarcaraResult<(bool, bool)>;
/// the flag is set only by `store`, and (as proved for `worker_thread_check`) a worker that stored gives an error:
/// when no worker gives one, the flag was never set
#[verifier::external_body]
pub proof fn flag_unset(id: int, rs: Seq<VxJoin<Res>>)
    requires forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).v is Ok,
    ensures !flag_set(id),
{
}
/// the schedules fit in the memory
pub open spec fn all_fit(v: Seq<Schedule>) -> bool { forall|w: int| 0 <= w < v.len() ==> fits((#[trigger] v[w]).steps@) }
/// what the result of one worker says
pub open spec fn res_ok(r: Res, id: int, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, s: Seq<Ent>) -> bool {
    r matches Ok(x) ==> (flag_set(id) || entries_ok(x.1, cfg, prem, cmds, s, s.len() as int)) && (x.0 ==> empty_shown(cmds, cmds.len() as int))
}
pub open spec fn all_res(rs: Seq<VxJoin<Res>>, n: int, id: int, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, v: Seq<Schedule>) -> bool {
    n <= v.len() && rs.len() >= n && forall|w: int| 0 <= w < n ==> res_ok((#[trigger] rs[w]).v, id, cfg, prem, cmds, v[w].steps@)
}
/// the results up to n are not errors, and are taken into account
pub open spec fn merged(rs: Seq<VxJoin<Res>>, n: int, reached: bool, holey: bool) -> bool {
    forall|w: int| 0 <= w < n ==> (#[trigger] rs[w]).v is Ok && (rs[w].v->Ok_0.1 ==> holey)
}
pub open spec fn reached_by(rs: Seq<VxJoin<Res>>, n: int) -> bool { exists|w: int| 0 <= w < n && (#[trigger] rs[w]).v is Ok && rs[w].v->Ok_0.0 }
/// all the workers accepted
pub proof fn all_accepted(rs: Seq<VxJoin<Res>>, id: int, holey: bool, cfg: Config, prem: Set<Rc<Term>>, cmds: Seq<ProofCommand>, v: Seq<Schedule>)
    requires all_res(rs, rs.len() as int, id, cfg, prem, cmds, v), rs.len() == v.len(), merged(rs, rs.len() as int, true, holey), reached_by(rs, rs.len() as int), all_cov(cp(cmds, v)),
    ensures proof_ok(holey, cfg, prem, cmds),
{
    flag_unset(id, rs);
    let P = cp(cmds, v);
    assert forall|w: int| 0 <= w < P.loads.len() implies entries_ok(holey, cfg, prem, P.cmds, #[trigger] P.loads[w], P.loads[w].len() as int) by {
        assert(res_ok(rs[w].v, id, cfg, prem, cmds, v[w].steps@));
        entries_mono(rs[w].v->Ok_0.1, holey, cfg, prem, cmds, v[w].steps@, v[w].steps@.len() as int);
    }
    assert forall|i: int| 0 <= i < cmds.len() implies cmd_ok(holey, cfg, prem, #[trigger] cmds[i], seq![(i, cmds)]) by {
        assert(cov(P, P.cmds[i], seq![(i, P.cmds)]));
        cov_ok(P, holey, cfg, prem, cmds[i], seq![(i, cmds)]);
    }
}
