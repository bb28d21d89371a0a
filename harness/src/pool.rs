//! Bounded search: does a history of term constructions, through any of the term pools and from any thread, give every
//! term exactly one object (and its sort and free variables as they should be)?
use crate::jstr;
use crate::rng::Rng;
use carcara::ast::pool::advanced::{ContextPool, LocalPool};
use carcara::ast::{Binder, BindingList, Constant, Operator, ParamOperator, PrimitivePool, Rc, Sort, Term, TermPool};
use std::collections::{BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum S {
    Bool,
    Int,
    Real,
    Bv(usize),
    Str,
    U,
}
fn sort(pool: &mut dyn TermPool, s: S) -> Rc<Term> {
    let t = match s {
        S::Bool => Sort::Bool,
        S::Int => Sort::Int,
        S::Real => Sort::Real,
        S::Bv(w) => Sort::BitVec(w),
        S::Str => Sort::String,
        S::U => Sort::Atom("U".into(), Default::default()),
    };
    pool.add(Term::Sort(t))
}
#[derive(Clone, Debug)]
enum T {
    Num(S, i64, usize),
    Str(String),
    Var(String, S),
    Op(Operator, Vec<T>),
    App(usize, Vec<T>),
    Quant(Binder, Vec<(String, S)>, Box<T>),
    Let(Vec<(String, T)>, Box<T>),
    Extract(usize, usize, Box<T>),
}
const FUNS: [(&str, &[S], S); 3] = [("f", &[S::Int], S::Int), ("p", &[S::U, S::Int], S::Bool), ("g", &[S::U], S::U)];

fn key(t: &T) -> String {
    format!("{:?}", t)
}
fn sort_of(t: &T) -> S {
    match t {
        T::Num(s, _, _) | T::Var(_, s) => *s,
        T::Str(_) => S::Str,
        T::App(f, _) => FUNS[*f].2,
        T::Quant(Binder::Choice, b, _) => b[0].1,
        T::Quant(..) => S::Bool,
        T::Let(_, x) => sort_of(x),
        T::Extract(i, j, _) => S::Bv(i - j + 1),
        T::Op(o, a) => match o {
            Operator::Add | Operator::Sub | Operator::Mult => {
                if a.iter().any(|x| sort_of(x) == S::Real) {
                    S::Real
                } else {
                    S::Int
                }
            }
            Operator::IntDiv | Operator::Mod | Operator::StrLen => S::Int,
            Operator::StrConcat => S::Str,
            Operator::RealDiv | Operator::ToReal => S::Real,
            Operator::Ite => sort_of(&a[1]),
            Operator::BvAdd | Operator::BvNot | Operator::BvMul => sort_of(&a[0]),
            Operator::BvConcat => S::Bv(a.iter().map(|x| if let S::Bv(w) = sort_of(x) { w } else { 0 }).sum()),
            Operator::BvBbTerm => S::Bv(a.len()),
            _ => S::Bool,
        },
    }
}
fn free(t: &T, out: &mut BTreeSet<(String, String)>) {
    let del = |b: &[(String, S)], s: &mut BTreeSet<(String, String)>| {
        for (v, so) in b {
            s.remove(&(v.clone(), format!("{:?}", so)));
        }
    };
    match t {
        T::Num(..) | T::Str(_) => (),
        T::Var(v, s) => {
            out.insert((v.clone(), format!("{:?}", s)));
        }
        T::Op(_, a) => a.iter().for_each(|x| free(x, out)),
        T::App(f, a) => {
            out.insert((FUNS[*f].0.into(), "fun".into()));
            a.iter().for_each(|x| free(x, out))
        }
        T::Quant(_, b, x) => {
            let mut s = BTreeSet::new();
            free(x, &mut s);
            del(b, &mut s);
            out.extend(s);
        }
        T::Let(b, x) => {
            let mut s = BTreeSet::new();
            free(x, &mut s);
            del(&b.iter().map(|(v, t)| (v.clone(), sort_of(t))).collect::<Vec<_>>(), &mut s);
            out.extend(s);
            b.iter().for_each(|(_, x)| free(x, out));
        }
        T::Extract(_, _, x) => free(x, out),
    }
}
fn text(r: &mut Rng) -> String {
    let n = *r.clone_pick(&[0, 1, 2, 3, 20, 70, 300, 5000]);
    let mut s: String = (0..n).map(|i| if i % 7 == 3 { 'é' } else { 'a' }).collect();
    for _ in 0..r.below(3) {
        s.push(*r.clone_pick(&['a', 'A', ' ', '"', '\n']));
    }
    s
}
fn gen(r: &mut Rng, s: S, d: usize) -> T {
    let name = |r: &mut Rng| ["x", "y", "z"][r.below(3)].to_string();
    if d > 0 && r.chance(1, 7) {
        let b: Vec<_> = (0..1 + r.below(2))
            .map(|_| {
                let s = *r.clone_pick(&[S::Int, S::Bool, S::U, S::Real, S::Bv(4)]);
                (name(r), gen(r, s, d - 1))
            })
            .collect();
        return T::Let(b, Box::new(gen(r, s, d - 1)));
    }
    if d == 0 || r.chance(1, 6) {
        return if r.chance(1, 2) || s == S::U {
            T::Var(name(r), s)
        } else {
            match s {
                S::Bool => T::Op(if r.chance(1, 2) { Operator::True } else { Operator::False }, vec![]),
                S::Bv(w) => T::Num(s, r.below(4) as i64 & ((1 << w) - 1), w),
                S::Str => T::Str(text(r)),
                _ if r.chance(1, 8) => T::Num(s, (1 << (8 + r.below(54))) + r.below(2) as i64, 1),
                _ => T::Num(s, r.below(4) as i64 - 1, 1 + r.below(2)),
            }
        };
    }
    let n = 2 + r.below(2);
    let mut many = |r: &mut Rng, s: S, n: usize| (0..n).map(|_| gen(r, s, d - 1)).collect::<Vec<_>>();
    if r.chance(1, 8) {
        let mut v = vec![gen(r, S::Bool, d - 1)];
        v.extend(many(r, s, 2));
        return T::Op(Operator::Ite, v);
    }
    match s {
        S::Int => match r.below(6) {
            5 => T::Op(Operator::StrLen, many(r, S::Str, 1)),
            0 => T::App(0, many(r, S::Int, 1)),
            1 => T::Op(Operator::IntDiv, many(r, S::Int, 2)),
            2 => T::Op(Operator::Sub, many(r, S::Int, n)),
            3 => T::Op(Operator::Mult, many(r, S::Int, n)),
            _ => T::Op(Operator::Add, many(r, S::Int, n)),
        },
        S::Real => match r.below(3) {
            0 => T::Op(Operator::ToReal, many(r, S::Int, 1)),
            1 => T::Op(Operator::RealDiv, many(r, S::Real, 2)),
            _ => T::Op(Operator::Add, many(r, S::Real, n)),
        },
        S::Bool => match r.below(7) {
            0 | 1 => {
                let b: Vec<_> = (0..1 + r.below(2)).map(|_| (name(r), *r.clone_pick(&[S::Int, S::U, S::Real]))).collect();
                T::Quant(if r.chance(1, 2) { Binder::Forall } else { Binder::Exists }, b, Box::new(gen(r, S::Bool, d - 1)))
            }
            2 => T::App(1, vec![gen(r, S::U, d - 1), gen(r, S::Int, d - 1)]),
            3 => T::Op(Operator::Not, many(r, S::Bool, 1)),
            4 => T::Op(Operator::Or, many(r, S::Bool, n)),
            5 => {
                let w = 1 + r.below(5);
                let t = *r.clone_pick(&[S::Int, S::U, S::Real, S::Str, S::Bv(4), S::Bv(w)]);
                T::Op(Operator::Equals, many(r, t, 2))
            }
            _ => T::Op(Operator::And, many(r, S::Bool, n)),
        },
        S::Bv(w) => match r.below(4) {
            0 => T::Op(Operator::BvBbTerm, many(r, S::Bool, w)),
            1 if w > 1 => T::Op(Operator::BvConcat, vec![gen(r, S::Bv(1), d - 1), gen(r, S::Bv(w - 1), d - 1)]),
            2 => T::Extract(w, 1, Box::new(gen(r, S::Bv(w + 2), d - 1))),
            _ => T::Op(Operator::BvAdd, many(r, s, 2)),
        },
        S::Str => T::Op(Operator::StrConcat, many(r, s, n)),
        S::U => {
            if r.chance(1, 3) {
                T::Quant(Binder::Choice, vec![(name(r), S::U)], Box::new(gen(r, S::Bool, d - 1)))
            } else {
                T::App(2, many(r, S::U, 1))
            }
        }
    }
}
impl Rng {
    fn clone_pick<'a, X>(&mut self, v: &'a [X]) -> &'a X {
        &v[self.below(v.len())]
    }
}
fn fun(pool: &mut dyn TermPool, f: usize) -> Rc<Term> {
    let mut v: Vec<_> = FUNS[f].1.iter().map(|s| sort(pool, *s)).collect();
    v.push(sort(pool, FUNS[f].2));
    let s = pool.add(Term::Sort(Sort::Function(v)));
    pool.add(Term::new_var(FUNS[f].0, s))
}
/// builds the term bottom up, recording the object of every subterm
fn build(pool: &mut dyn TermPool, t: &T, log: &mut Vec<(String, Rc<Term>, T)>) -> Rc<Term> {
    let x = match t {
        T::Num(S::Int, n, _) => Term::new_int(*n),
        T::Num(S::Bv(w), n, _) => Term::Const(Constant::BitVec((*n).into(), *w)),
        T::Str(x) => Term::new_string(x.as_str()),
        T::Num(_, n, d) => Term::new_real(rug::Rational::from((*n, *d as i64))),
        T::Var(v, s) => {
            let s = sort(pool, *s);
            Term::new_var(v.as_str(), s)
        }
        T::Op(o, a) => {
            let a = a.iter().map(|x| build(pool, x, log)).collect();
            Term::Op(*o, a)
        }
        T::App(f, a) => {
            let h = fun(pool, *f);
            let a = a.iter().map(|x| build(pool, x, log)).collect();
            Term::App(h, a)
        }
        T::Quant(b, vs, x) => {
            let vs = vs.iter().map(|(v, s)| (v.clone(), sort(pool, *s))).collect();
            let x = build(pool, x, log);
            Term::Binder(*b, BindingList(vs), x)
        }
        T::Let(bs, x) => {
            let bs = bs.iter().map(|(v, t)| (v.clone(), build(pool, t, log))).collect();
            let x = build(pool, x, log);
            Term::Let(BindingList(bs), x)
        }
        T::Extract(i, j, x) => {
            let op_args = [*i, *j].iter().map(|i| pool.add(Term::new_int(*i))).collect();
            let args = vec![build(pool, x, log)];
            Term::ParamOp { op: ParamOperator::BvExtract, op_args, args }
        }
    };
    let r = pool.add(x);
    // the value of a real constant, and not the way it was written, determines it
    let k = if let T::Num(S::Real, n, d) = t { format!("real {}", rug::Rational::from((*n, *d as i64))) } else { key(t) };
    log.push((k, r.clone(), t.clone()));
    r
}
#[derive(Default)]
struct World {
    by_key: HashMap<String, Rc<Term>>,
    by_ptr: HashMap<usize, String>,
    all: Vec<(Rc<Term>, T)>,
}
/// keys of the real constants must not distinguish equal values
fn norm(k: &str, t: &T) -> String {
    fn n(t: &T) -> T {
        let v = |x: &Vec<T>| x.iter().map(n).collect::<Vec<_>>();
        match t {
            T::Num(S::Real, a, b) => {
                let (x, y) = rug::Rational::from((*a, *b as i64)).into_numer_denom();
                T::Num(S::Real, x.to_i64().unwrap(), y.to_usize().unwrap())
            }
            T::Num(S::Int, a, _) => T::Num(S::Int, *a, 1),
            T::Op(o, a) => T::Op(*o, v(a)),
            T::App(f, a) => T::App(*f, v(a)),
            T::Quant(b, l, x) => T::Quant(*b, l.clone(), Box::new(n(x))),
            T::Let(l, x) => T::Let(l.iter().map(|(a, b)| (a.clone(), n(b))).collect(), Box::new(n(x))),
            T::Extract(i, j, x) => T::Extract(*i, *j, Box::new(n(x))),
            t => t.clone(),
        }
    }
    let _ = k;
    key(&n(t))
}
impl World {
    fn note(&mut self, log: Vec<(String, Rc<Term>, T)>) -> Option<String> {
        for (k, r, t) in log {
            let k = norm(&k, &t);
            match self.by_key.get(&k) {
                Some(o) if *o != r => return Some(format!("the term {} was given two objects", r)),
                Some(_) => (),
                None => {
                    if let Some(o) = self.by_ptr.insert(Rc::as_ptr(&r) as usize, k.clone()) {
                        return Some(format!("one object stands for {} and {}", o, k));
                    }
                    self.by_key.insert(k, r.clone());
                    self.all.push((r, t));
                }
            }
        }
        None
    }
}
fn check_term(pool: &mut dyn TermPool, r: &Rc<Term>, t: &T) -> Option<String> {
    let want = sort(pool, sort_of(t));
    let got = pool.sort(r);
    if want != got {
        return Some(format!("the sort of {} is {}, and not the same object as the sort {}", r, got, want));
    }
    let mut f = BTreeSet::new();
    free(t, &mut f);
    let mut want: Vec<Rc<Term>> = Vec::new();
    for s in [S::Bool, S::Int, S::Real, S::U, S::Str, S::Bv(1), S::Bv(2), S::Bv(3), S::Bv(4), S::Bv(5), S::Bv(6), S::Bv(7), S::Bv(8), S::Bv(9), S::Bv(10)] {
        for (v, so) in &f {
            if *so == format!("{:?}", s) {
                let s = sort(pool, s);
                want.push(pool.add(Term::new_var(v.as_str(), s)));
            }
        }
    }
    for i in 0..FUNS.len() {
        if f.contains(&(FUNS[i].0.to_string(), "fun".into())) {
            want.push(fun(pool, i));
        }
    }
    let got = pool.free_vars(r);
    if got.len() != want.len() || want.iter().any(|w| !got.contains(w)) {
        let l = |v: Vec<String>| v.join(" ");
        return Some(format!("the free variables of {} are said to be ({}), and not the same objects as ({})", r, l(got.iter().map(|x| x.to_string()).collect()), l(want.iter().map(|x| x.to_string()).collect())));
    }
    None
}
fn history(seed: u64) -> (usize, Option<String>) {
    let mut r = Rng(seed);
    let mut w = World::default();
    let mut n = 0;
    let sorts = [S::Bool, S::Bool, S::Int, S::Real, S::Bv(4), S::U];
    let recipes: Vec<T> = (0..6 + r.below(10))
        .map(|_| {
            let s = *r.clone_pick(&sorts);
            gen(&mut r, s, 3)
        })
        .collect();
    let mut global = PrimitivePool::new();
    for _ in 0..r.below(12) {
        let t = r.pick(&recipes).clone();
        let mut log = vec![];
        let o = build(&mut global, &t, &mut log);
        n += log.len();
        if let Some(e) = w.note(log).or_else(|| if r.0 % 3 == 0 { check_term(&mut global, &o, &t) } else { None }) {
            return (n, Some(e));
        }
    }
    let global = Arc::new(global);
    let mut ctx = ContextPool::from_global(&global);
    let mut ctx2 = ContextPool::from_previous(&ctx);
    let mut locals: Vec<_> = (0..3).map(|i| LocalPool::from_previous(if i == 1 { &ctx2 } else { &ctx })).collect();
    if r.chance(1, 4) {
        // real threads
        let logs: Vec<_> = std::thread::scope(|sc| {
            let hs: Vec<_> = locals
                .drain(..)
                .map(|mut p| {
                    let (mut r, recipes) = (Rng(r.next()), &recipes);
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(sc, move || {
                            let mut log = vec![];
                            for _ in 0..10 {
                                let t = r.pick(recipes).clone();
                                build(&mut p, &t, &mut log);
                            }
                            log
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        for l in logs {
            match l {
                Ok(l) => {
                    n += l.len();
                    if let Some(e) = w.note(l) {
                        return (n, Some(e));
                    }
                }
                Err(_) => return (n, Some("a thread that adds terms to its pool crashed".into())),
            }
        }
        locals = vec![LocalPool::from_previous(&ctx)];
    }
    for _ in 0..25 {
        let k = r.below(locals.len() + 2);
        let pool: &mut dyn TermPool = match k {
            0 => &mut ctx,
            1 => &mut ctx2,
            k => &mut locals[k - 2],
        };
        if r.chance(1, 3) && !w.all.is_empty() {
            let (o, t) = w.all[r.below(w.all.len())].clone();
            if let Some(e) = check_term(pool, &o, &t) {
                return (n, Some(e));
            }
        } else {
            let t = r.pick(&recipes).clone();
            let mut log = vec![];
            let o = build(pool, &t, &mut log);
            n += log.len();
            if let Some(e) = w.note(log).or_else(|| check_term(pool, &o, &t)) {
                return (n, Some(e));
            }
        }
    }
    let same = |a: &Rc<Term>, b: &Rc<Term>| {
        if (**a == **b) == (a == b) { None } else { Some(format!("comparing {} with {} by identity and by structure gives different answers", a, b)) }
    };
    for _ in 0..if w.all.is_empty() { 0 } else { 40 } {
        if let Some(e) = same(&w.all[r.below(w.all.len())].0, &w.all[r.below(w.all.len())].0) {
            return (n, Some(e));
        }
    }
    // literals that are almost the same
    let (k, d) = (1i64 << (8 + r.below(54)), 1 + r.below(3) as i64);
    let pool = &mut ctx;
    let lits: Vec<Rc<Term>> = vec![
        Term::new_int(k),
        Term::new_int(k + 1),
        Term::new_int(-k),
        Term::new_real(rug::Rational::from((k, d))),
        Term::new_real(rug::Rational::from((k + 1, d))),
        Term::new_real(rug::Rational::from((-k, d))),
        Term::new_real(rug::Rational::from((d, k + 1))),
        Term::new_string(k.to_string()),
        Term::new_string(format!("{} ", k)),
        Term::Const(Constant::BitVec(k.into(), 70)),
        Term::Const(Constant::BitVec(k.into(), 71)),
        Term::Const(Constant::BitVec((k + 1).into(), 70)),
    ]
    .into_iter()
    .map(|t| pool.add(t))
    .collect();
    for i in 0..lits.len() {
        for j in 0..lits.len() {
            let (a, b) = (&lits[i], &lits[j]);
            if (a == b) != (i == j) {
                return (n, Some(format!("{} and {} are held to be the same term", a, b)));
            }
            if let Some(e) = same(a, b) {
                return (n, Some(e));
            }
        }
    }
    (n, None)
}
pub fn run(secs: f64, seed: u64, threads: usize) -> String {
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let hs: Vec<_> = (0..threads)
        .map(|th| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let (mut runs, mut adds, mut found) = (0usize, 0usize, Vec::<(u64, String)>::new());
                    let mut i = 0u64;
                    while Instant::now() < end && found.len() < 2 {
                        let s = seed.wrapping_mul(1_000_003).wrapping_add(th as u64).wrapping_mul(1_000_000_007).wrapping_add(i);
                        i += 1;
                        let (n, e) = match catch_unwind(AssertUnwindSafe(|| history(s))) {
                            Ok(x) => x,
                            Err(p) => {
                                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                                (0, Some(format!("a pool operation crashed: {}", m)))
                            }
                        };
                        runs += 1;
                        adds += n;
                        if let Some(e) = e {
                            found.push((s, e));
                        }
                    }
                    (runs, adds, found)
                })
                .unwrap()
        })
        .collect();
    let (mut runs, mut adds, mut found) = (0, 0, vec![]);
    for h in hs {
        if let Ok((a, b, f)) = h.join() {
            runs += a;
            adds += b;
            found.extend(f);
        }
    }
    found.truncate(3);
    format!(
        "{{\"runs\":{},\"accepted\":{},\"distinct_accepted\":{},\"panics\":0,\"stuck\":0,\"rules\":{{\"terms added\":[{},0]}},\"samples\":[],\"found\":[{}]}}",
        runs,
        runs,
        runs,
        adds,
        found.iter().map(|(s, e)| format!("{{\"key\":\"pool\",\"rule\":\"pool\",\"history_seed\":{},\"what\":{},\"replay\":\"vharness pool --history {}\"}}", s, jstr(e), s)).collect::<Vec<_>>().join(",")
    )
}
pub fn replay(seed: u64) {
    println!("{:?}", history(seed));
}
