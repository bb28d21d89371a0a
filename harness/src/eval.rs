//! Three-valued evaluator of carcara terms in randomly chosen models.  Independent oracle: the semantics is
//! written from SMT-LIB / the Alethe specification, not from carcara's code.
use carcara::ast::*;
use rug::{Integer, Rational};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    B(bool),
    N(Rational),
    Bv(Integer, usize),
    S(Vec<u32>),
    U(String, u32),
    /// an uninterpreted function, identified by its seed and its return sort (printed)
    F(u64, String),
    /// a lambda: pointer-ish identity plus captured environment
    L(usize, Vec<(String, V)>),
    Arr(u64, String, BTreeMap<V, V>),
    ArrC(Box<V>, BTreeMap<V, V>),
    Re(Box<Regex>),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Regex {
    None,
    All,
    AllChar,
    Lit(Vec<u32>),
    Cat(Vec<Regex>),
    Union(Vec<Regex>),
    Inter(Vec<Regex>),
    Star(Box<Regex>),
    Comp(Box<Regex>),
    Range(u32, u32),
}

/// Err(()) = unknown
pub type R = Result<V, ()>;

pub fn hash64(xs: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in xs {
        h ^= x.wrapping_mul(0x9E3779B97F4A7C15);
        h = h.rotate_left(23).wrapping_mul(0x2545F4914F6CDD1D);
        h ^= h >> 29;
    }
    h
}
pub fn hstr(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 31)
}
pub fn hval(v: &V) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

#[derive(Clone)]
pub struct Model {
    pub seed: u64,
    /// 0/1 integers (pseudo-boolean mode)
    pub pb: bool,
    pub vars: RefCell<HashMap<(String, String), V>>,
    pub usize_: u32,
    pub small: bool,
    pub alphabet: Vec<u32>,
    pub nums: Vec<Rational>,
    pub budget: RefCell<u64>,
}

pub type Env = Vec<(String, V)>;

fn sort_key(s: &Rc<Term>) -> String {
    format!("{}", s)
}

impl Model {
    pub fn new(seed: u64) -> Model {
        Model {
            seed,
            pb: false,
            vars: Default::default(),
            usize_: 1 + (hash64(&[seed, 77]) % 3) as u32,
            small: hash64(&[seed, 78]) % 2 == 0,
            alphabet: "ab".chars().map(|c| c as u32).collect(),
            nums: vec![],
            budget: RefCell::new(200_000),
        }
    }
    pub fn random_value(&self, sort: &Sort, h: u64) -> R {
        Ok(match sort {
            Sort::Bool => V::B(hash64(&[h, 1]) & 1 == 1),
            Sort::Int => {
                if self.pb {
                    return Ok(V::N(Rational::from((hash64(&[h, 2]) & 1) as i64)));
                }
                let r = hash64(&[h, 2]);
                let r = if r % 5 == 0 && !self.nums.is_empty() {
                    let k = self.nums[(r / 7) as usize % self.nums.len()].clone();
                    let k = k.floor() + Rational::from((r / 1000 % 3) as i64 - 1);
                    k
                } else if self.small {
                    Rational::from((r % 3) as i64 - 1)
                } else if r % 16 == 0 {
                    Rational::from((r % 2001) as i64 - 1000)
                } else {
                    Rational::from((r / 64 % 11) as i64 - 5)
                };
                V::N(r)
            }
            Sort::Real => {
                let r = hash64(&[h, 3]);
                let r = if r % 5 == 0 && !self.nums.is_empty() {
                    let k = self.nums[(r / 7) as usize % self.nums.len()].clone();
                    k + Rational::from(((r / 1000 % 5) as i64 - 2, 2))
                } else if self.small {
                    Rational::from(((r % 5) as i64 - 2, 2))
                } else {
                    Rational::from(((r / 64 % 41) as i64 - 20, 1 + (r / 4096 % 4) as i64))
                };
                V::N(r)
            }
            Sort::BitVec(w) => {
                let mut x = Integer::new();
                for i in 0..*w {
                    if hash64(&[h, 4, i as u64]) & 1 == 1 {
                        x |= Integer::from(1) << i as u32;
                    }
                }
                match hash64(&[h, 41]) % 8 {
                    0 => x = Integer::new(),
                    1 => x = (Integer::from(1) << *w as u32) - 1,
                    2 if *w > 0 => x = Integer::from(1) << (*w as u32 - 1),
                    _ => {}
                }
                V::Bv(x, *w)
            }
            Sort::String => {
                let n = (hash64(&[h, 5]) % 5) as usize;
                V::S(
                    (0..n)
                        .map(|i| self.alphabet[hash64(&[h, 6, i as u64]) as usize % self.alphabet.len()])
                        .collect(),
                )
            }
            Sort::Atom(n, args) => {
                let mut k = n.to_string();
                for a in args.iter() {
                    k += &format!(" {}", a);
                }
                let m = self.usize_of(&k);
                V::U(k, (hash64(&[h, 7]) % m as u64) as u32)
            }
            Sort::Function(ss) => V::F(hash64(&[h, 8]), sort_key(ss.last().unwrap())),
            Sort::Array(_, y) => V::Arr(hash64(&[h, 9]), sort_key(y), BTreeMap::new()),
            _ => return Err(()),
        })
    }
    fn usize_of(&self, name: &str) -> u32 {
        1 + ((hash64(&[self.seed, hstr(name), 5]) % self.usize_ as u64) as u32)
    }
    pub fn var(&self, name: &str, sort: &Rc<Term>) -> R {
        let key = (name.to_string(), sort_key(sort));
        if let Some(v) = self.vars.borrow().get(&key) {
            return Ok(v.clone());
        }
        let v = self.random_value(sort.as_sort().ok_or(())?, hash64(&[self.seed, hstr(&key.0), hstr(&key.1)]))?;
        self.vars.borrow_mut().insert(key, v.clone());
        Ok(v)
    }
    pub fn set(&self, name: &str, sort: &Rc<Term>, v: V) {
        self.vars.borrow_mut().insert((name.to_string(), sort_key(sort)), v);
    }
    /// elements of the domain of a sort and whether this is all of them
    pub fn domain(&self, sort: &Sort) -> Result<(Vec<V>, bool), ()> {
        Ok(match sort {
            Sort::Bool => (vec![V::B(false), V::B(true)], true),
            Sort::Atom(n, args) => {
                let mut k = n.to_string();
                for a in args.iter() {
                    k += &format!(" {}", a);
                }
                ((0..self.usize_of(&k)).map(|i| V::U(k.clone(), i)).collect(), true)
            }
            Sort::BitVec(w) if *w <= 4 => ((0..1u32 << w).map(|i| V::Bv(Integer::from(i), *w)).collect(), true),
            Sort::BitVec(w) => {
                let top = Integer::from(1) << *w as u32;
                (
                    vec![
                        V::Bv(Integer::new(), *w),
                        V::Bv(Integer::from(1), *w),
                        V::Bv(top.clone() - 1, *w),
                        V::Bv(top / 2, *w),
                    ],
                    false,
                )
            }
            Sort::Int => {
                let mut v: Vec<V> = (-2..=3).map(|i| V::N(Rational::from(i))).collect();
                for n in &self.nums {
                    if n.is_integer() {
                        v.push(V::N(n.clone()));
                        v.push(V::N(n.clone() + 1));
                    }
                }
                v.dedup();
                (v, false)
            }
            Sort::Real => {
                let mut v: Vec<V> = (-3..=4).map(|i| V::N(Rational::from((i, 2)))).collect();
                for n in &self.nums {
                    v.push(V::N(n.clone()));
                }
                (v, false)
            }
            Sort::String => {
                let mut v = vec![V::S(vec![])];
                for &a in &self.alphabet {
                    v.push(V::S(vec![a]));
                    v.push(V::S(vec![a, self.alphabet[0]]));
                }
                (v, false)
            }
            Sort::Function(ss) => {
                let n = ss.len();
                let _ = n;
                ((0..3u64).map(|i| V::F(hash64(&[self.seed, i, 99]), sort_key(ss.last().unwrap()))).collect(), false)
            }
            Sort::Array(_, y) => {
                ((0..2u64).map(|i| V::Arr(hash64(&[self.seed, i, 98]), sort_key(y), BTreeMap::new())).collect(), false)
            }
            _ => return Err(()),
        })
    }
    fn tick(&self) -> Result<(), ()> {
        let mut b = self.budget.borrow_mut();
        if *b == 0 {
            return Err(());
        }
        *b -= 1;
        Ok(())
    }
    pub fn reset_budget(&self) {
        *self.budget.borrow_mut() = 200_000;
    }

    pub fn apply(&self, f: &V, fterm: &Rc<Term>, args: &[V], ret: Option<&Sort>, env: &Env) -> R {
        match f {
            V::F(seed, _) => {
                let mut h = vec![*seed, self.seed, 1234];
                for a in args {
                    if matches!(a, V::L(..)) {
                        return Err(());
                    }
                    h.push(hval(a));
                }
                self.random_value(ret.ok_or(())?, hash64(&h))
            }
            V::L(_, captured) => {
                // only reachable with the lambda term at hand
                let Term::Binder(Binder::Lambda, bs, body) = fterm.as_ref() else { return Err(()) };
                if bs.len() != args.len() {
                    return Err(());
                }
                let mut e = captured.clone();
                let _ = env;
                for (b, a) in bs.iter().zip(args) {
                    e.push((bkey(b), a.clone()));
                }
                self.eval(body, &e)
            }
            _ => Err(()),
        }
    }

    pub fn eq(&self, a: &V, b: &V) -> Result<bool, ()> {
        match (a, b) {
            (V::F(x, _), V::F(y, _)) => {
                if x == y {
                    Ok(true)
                } else {
                    Err(())
                }
            }
            (V::L(..), _) | (_, V::L(..)) => {
                if a == b {
                    Ok(true)
                } else {
                    Err(())
                }
            }
            (V::Arr(s, _, m), V::Arr(t, _, n)) => {
                if s == t && m == n {
                    Ok(true)
                } else {
                    Err(())
                }
            }
            (V::ArrC(..) | V::Arr(..), _) | (_, V::ArrC(..)) => {
                if a == b {
                    Ok(true)
                } else {
                    Err(())
                }
            }
            (V::Re(x), V::Re(y)) => {
                if x == y {
                    return Ok(true);
                }
                Err(())
            }
            _ => Ok(a == b),
        }
    }

    fn truth(&self, t: &Rc<Term>, env: &Env) -> Result<bool, ()> {
        match self.eval(t, env)? {
            V::B(b) => Ok(b),
            _ => Err(()),
        }
    }
    fn num(&self, t: &Rc<Term>, env: &Env) -> Result<Rational, ()> {
        match self.eval(t, env)? {
            V::N(b) => Ok(b),
            _ => Err(()),
        }
    }
    fn int(&self, t: &Rc<Term>, env: &Env) -> Result<Integer, ()> {
        let r = self.num(t, env)?;
        if r.is_integer() {
            Ok(r.numer().clone())
        } else {
            Err(())
        }
    }
    fn bv(&self, t: &Rc<Term>, env: &Env) -> Result<(Integer, usize), ()> {
        match self.eval(t, env)? {
            V::Bv(b, w) => Ok((b, w)),
            _ => Err(()),
        }
    }
    fn st(&self, t: &Rc<Term>, env: &Env) -> Result<Vec<u32>, ()> {
        match self.eval(t, env)? {
            V::S(b) => Ok(b),
            _ => Err(()),
        }
    }
    fn re(&self, t: &Rc<Term>, env: &Env) -> Result<Regex, ()> {
        match self.eval(t, env)? {
            V::Re(b) => Ok(*b),
            _ => Err(()),
        }
    }

    /// clause truth (disjunction), three-valued
    pub fn clause(&self, c: &[Rc<Term>], env: &Env) -> Result<bool, ()> {
        let mut unk = false;
        for t in c {
            match self.truth(t, env) {
                Ok(true) => return Ok(true),
                Ok(false) => {}
                Err(()) => unk = true,
            }
        }
        if unk {
            Err(())
        } else {
            Ok(false)
        }
    }

    fn is_free(&self, name: &str, t: &Rc<Term>) -> bool {
        // conservative textual check
        match t.as_ref() {
            Term::Var(n, _) => n == name,
            Term::Const(_) | Term::Sort(_) => false,
            Term::App(f, a) => self.is_free(name, f) || a.iter().any(|x| self.is_free(name, x)),
            Term::Op(_, a) => a.iter().any(|x| self.is_free(name, x)),
            Term::ParamOp { args, .. } => args.iter().any(|x| self.is_free(name, x)),
            Term::Binder(_, b, i) => !b.iter().any(|(n, _)| n == name) && self.is_free(name, i),
            Term::Let(b, i) => {
                b.iter().any(|(_, v)| self.is_free(name, v))
                    || (!b.iter().any(|(n, _)| n == name) && self.is_free(name, i))
            }
        }
    }

    fn quant(&self, bs: &[SortedVar], body: &Rc<Term>, env: &mut Env, forall: bool) -> Result<bool, ()> {
        self.tick()?;
        if bs.is_empty() {
            return self.truth(body, env);
        }
        let (name, sort) = &bs[0];
        let shadowed = bs[1..].iter().any(|b| &b.0 == name);
        if shadowed || !self.is_free(name, body) {
            return self.quant(&bs[1..], body, env, forall);
        }
        let (dom, mut complete) = self.domain(sort.as_sort().ok_or(())?)?;
        for v in dom {
            env.push((bkey(&bs[0]), v));
            let r = self.quant(&bs[1..], body, env, forall);
            env.pop();
            match r {
                Ok(b) if b != forall => return Ok(b),
                Ok(_) => {}
                Err(()) => complete = false,
            }
        }
        if complete {
            Ok(forall)
        } else {
            Err(())
        }
    }

    pub fn eval(&self, t: &Rc<Term>, env: &Env) -> R {
        self.tick()?;
        match t.as_ref() {
            Term::Const(c) => Ok(match c {
                Constant::Integer(i) => V::N(Rational::from(i.clone())),
                Constant::Real(r) => V::N(r.clone()),
                Constant::String(s) => V::S(s.chars().map(|c| c as u32).collect()),
                Constant::BitVec(v, w) => V::Bv(v.clone(), *w),
            }),
            Term::Var(n, s) => {
                let k = vkey(n, s);
                for (m, v) in env.iter().rev() {
                    if *m == k {
                        return Ok(v.clone());
                    }
                }
                self.var(n, s)
            }
            Term::App(f, args) => {
                let a: Result<Vec<V>, ()> = args.iter().map(|x| self.eval(x, env)).collect();
                let a = a?;
                let fv = self.eval(f, env)?;
                let ret = fun_ret(f);
                self.apply(&fv, f, &a, ret.as_ref(), env)
            }
            Term::Sort(_) => Err(()),
            Term::Binder(b, bs, body) => match b {
                Binder::Forall | Binder::Exists => {
                    let mut e = env.clone();
                    Ok(V::B(self.quant(bs, body, &mut e, *b == Binder::Forall)?))
                }
                Binder::Choice => {
                    if bs.len() != 1 {
                        return Err(());
                    }
                    let (dom, complete) = self.domain(bs[0].1.as_sort().ok_or(())?)?;
                    let mut e = env.clone();
                    for v in dom.iter() {
                        e.push((bkey(&bs[0]), v.clone()));
                        let r = self.truth(body, &e);
                        e.pop();
                        if r? {
                            return Ok(v.clone());
                        }
                    }
                    if complete {
                        Ok(dom[0].clone())
                    } else {
                        Err(())
                    }
                }
                Binder::Lambda => {
                    let mut cap: Env = vec![];
                    for (n, v) in env {
                        cap.push((n.clone(), v.clone()));
                    }
                    Ok(V::L(&**body as *const Term as usize, cap))
                }
            },
            Term::Let(bs, body) => {
                let mut e = env.clone();
                for (n, v) in bs.iter() {
                    let val = self.eval(v, env)?;
                    let s = Term::new_var(n, val_sort(v));
                    let _ = s;
                    e.push((let_key(n, v), val));
                }
                self.eval(body, &e)
            }
            Term::Op(op, args) => self.op(*op, args, env),
            Term::ParamOp { op, op_args, args } => {
                let name = op.to_string();
                let k: Result<Vec<usize>, ()> = op_args
                    .iter()
                    .map(|a| match a.as_ref() {
                        Term::Const(Constant::Integer(i)) => i.to_usize().ok_or(()),
                        _ => Err(()),
                    })
                    .collect();
                match name.as_str() {
                    "extract" => {
                        let k = k?;
                        let (v, w) = self.bv(&args[0], env)?;
                        let (hi, lo) = (k[0], k[1]);
                        if hi < lo || hi >= w {
                            return Err(());
                        }
                        Ok(V::Bv((v >> lo as u32).keep_bits((hi - lo + 1) as u32), hi - lo + 1))
                    }
                    "@bit_of" => {
                        let k = k?;
                        let (v, w) = self.bv(&args[0], env)?;
                        if k[0] >= w {
                            return Err(());
                        }
                        Ok(V::B(v.get_bit(k[0] as u32)))
                    }
                    "@int_of" => {
                        let k = k?;
                        let (v, w) = self.bv(&args[0], env)?;
                        if k[0] >= w {
                            return Err(());
                        }
                        Ok(V::N(Rational::from(v.get_bit(k[0] as u32) as i32)))
                    }
                    "zero_extend" => {
                        let k = k?;
                        let (v, w) = self.bv(&args[0], env)?;
                        Ok(V::Bv(v, w + k[0]))
                    }
                    "sign_extend" => {
                        let k = k?;
                        let (v, w) = self.bv(&args[0], env)?;
                        let s = signed(&v, w);
                        Ok(mkbv(s, w + k[0]))
                    }
                    "rotate_left" | "rotate_right" => {
                        let k = k?;
                        let (v, w) = self.bv(&args[0], env)?;
                        if w == 0 {
                            return Err(());
                        }
                        let r = k[0] % w;
                        let r = if name == "rotate_left" { r } else { (w - r) % w };
                        let hi = Integer::from(&v << r as u32);
                        let lo = v >> (w - r) as u32;
                        Ok(mkbv(hi | lo, w))
                    }
                    "repeat" => {
                        let k = k?;
                        let (v, w) = self.bv(&args[0], env)?;
                        let mut r = Integer::new();
                        for _ in 0..k[0] {
                            r = (r << w as u32) | v.clone();
                        }
                        Ok(V::Bv(r, w * k[0]))
                    }
                    "bv" => {
                        let k = k?;
                        if k.len() != 2 {
                            return Err(());
                        }
                        Ok(mkbv(Integer::from(k[0]), k[1]))
                    }
                    "int_to_bv" => {
                        let k = k?;
                        let i = self.int(&args[0], env)?;
                        Ok(mkbv(i, k[0]))
                    }
                    "re.^" => {
                        let k = k?;
                        let r = self.re(&args[0], env)?;
                        if k[0] > 20 {
                            return Err(());
                        }
                        Ok(V::Re(Box::new(Regex::Cat(vec![r; k[0]]))))
                    }
                    "re.loop" => {
                        let k = k?;
                        let r = self.re(&args[0], env)?;
                        if k[1] > 20 {
                            return Err(());
                        }
                        if k[0] > k[1] {
                            return Ok(V::Re(Box::new(Regex::None)));
                        }
                        Ok(V::Re(Box::new(Regex::Union((k[0]..=k[1]).map(|n| Regex::Cat(vec![r.clone(); n])).collect()))))
                    }
                    "const" => Ok(V::ArrC(Box::new(self.eval(&args[0], env)?), BTreeMap::new())),
                    _ => Err(()),
                }
            }
        }
    }

    fn op(&self, op: Operator, args: &[Rc<Term>], env: &Env) -> R {
        use Operator::*;
        let b = |x: bool| Ok(V::B(x));
        let n = args.len();
        macro_rules! need {
            ($k:expr) => {
                if n != $k {
                    return Err(());
                }
            };
        }
        match op {
            True => b(true),
            False => b(false),
            Not => {
                need!(1);
                b(!self.truth(&args[0], env)?)
            }
            And | Or => {
                let unit = op == And;
                let mut unk = false;
                for a in args {
                    match self.truth(a, env) {
                        Ok(x) if x != unit => return b(!unit),
                        Ok(_) => {}
                        Err(()) => unk = true,
                    }
                }
                if unk {
                    Err(())
                } else {
                    b(unit)
                }
            }
            Cl => Ok(V::B(self.clause(args, env)?)),
            Xor => {
                let mut r = false;
                for a in args {
                    r ^= self.truth(a, env)?;
                }
                b(r)
            }
            Implies => {
                if n == 0 {
                    return Err(());
                }
                let mut unk = false;
                for a in &args[..n - 1] {
                    match self.truth(a, env) {
                        Ok(false) => return b(true),
                        Ok(true) => {}
                        Err(()) => unk = true,
                    }
                }
                match self.truth(&args[n - 1], env) {
                    Ok(true) => b(true),
                    Ok(false) if !unk => b(false),
                    _ => Err(()),
                }
            }
            Equals => {
                if n >= 2 && args.iter().all(|a| a == &args[0]) {
                    return b(true);
                }
                let vs: Result<Vec<V>, ()> = args.iter().map(|a| self.eval(a, env)).collect();
                let vs = vs?;
                let mut unk = false;
                for w in vs.windows(2) {
                    match self.eq(&w[0], &w[1]) {
                        Ok(false) => return b(false),
                        Ok(true) => {}
                        Err(()) => unk = true,
                    }
                }
                if unk {
                    Err(())
                } else {
                    b(true)
                }
            }
            Distinct => {
                let vs: Result<Vec<V>, ()> = args.iter().map(|a| self.eval(a, env)).collect();
                let vs = vs?;
                let mut unk = false;
                for i in 0..n {
                    for j in i + 1..n {
                        match self.eq(&vs[i], &vs[j]) {
                            Ok(true) => return b(false),
                            Ok(false) => {}
                            Err(()) => unk = true,
                        }
                    }
                }
                if unk {
                    Err(())
                } else {
                    b(true)
                }
            }
            Ite => {
                need!(3);
                match self.truth(&args[0], env) {
                    Ok(true) => self.eval(&args[1], env),
                    Ok(false) => self.eval(&args[2], env),
                    Err(()) => {
                        let (x, y) = (self.eval(&args[1], env)?, self.eval(&args[2], env)?);
                        if self.eq(&x, &y)? {
                            Ok(x)
                        } else {
                            Err(())
                        }
                    }
                }
            }
            Add | Mult | Sub | RealDiv | IntDiv | Mod | Abs | ToReal | ToInt | IsInt | LessThan | GreaterThan
            | LessEq | GreaterEq | Pow2 | IsPow2 | Log2 => {
                let vs: Result<Vec<Rational>, ()> = args.iter().map(|a| self.num(a, env)).collect();
                let vs = vs?;
                if n == 0 {
                    return match op { Add => Ok(V::N(Rational::new())), Mult => Ok(V::N(Rational::from(1))), _ => Err(()) };
                }
                let chain = |f: &dyn Fn(&Rational, &Rational) -> bool| Ok(V::B(vs.windows(2).all(|w| f(&w[0], &w[1]))));
                match op {
                    Add => Ok(V::N(vs.iter().fold(Rational::new(), |a, x| a + x))),
                    Mult => Ok(V::N(vs.iter().fold(Rational::from(1), |a, x| a * x))),
                    Sub => {
                        if n == 1 {
                            return Ok(V::N(-vs[0].clone()));
                        }
                        Ok(V::N(vs[1..].iter().fold(vs[0].clone(), |a, x| a - x)))
                    }
                    RealDiv => {
                        let mut r = vs[0].clone();
                        for x in &vs[1..] {
                            if *x == 0 {
                                r = Rational::from((hash64(&[self.seed, hval(&V::N(r)), 31]) % 5) as i64 - 2);
                            } else {
                                r /= x;
                            }
                        }
                        Ok(V::N(r))
                    }
                    IntDiv | Mod => {
                        let mut r = vs[0].clone();
                        for x in &vs[1..] {
                            if !r.is_integer() || !x.is_integer() {
                                return Err(());
                            }
                            if *x == 0 {
                                r = Rational::from(
                                    (hash64(&[self.seed, hval(&V::N(r)), if op == IntDiv { 32 } else { 33 }]) % 5) as i64 - 2,
                                );
                            } else {
                                let (q, m) = ediv(r.numer(), x.numer());
                                r = Rational::from(if op == IntDiv { q } else { m });
                            }
                        }
                        Ok(V::N(r))
                    }
                    Abs => {
                        need!(1);
                        Ok(V::N(vs[0].clone().abs()))
                    }
                    ToReal => {
                        need!(1);
                        Ok(V::N(vs[0].clone()))
                    }
                    ToInt => {
                        need!(1);
                        Ok(V::N(vs[0].clone().floor()))
                    }
                    IsInt => {
                        need!(1);
                        b(vs[0].is_integer())
                    }
                    LessThan => chain(&|x, y| x < y),
                    GreaterThan => chain(&|x, y| x > y),
                    LessEq => chain(&|x, y| x <= y),
                    GreaterEq => chain(&|x, y| x >= y),
                    Pow2 => {
                        need!(1);
                        if vs[0] < 0 || vs[0] > 4000 || !vs[0].is_integer() {
                            return Err(());
                        }
                        Ok(V::N(Rational::from(Integer::from(1) << vs[0].numer().to_u32().unwrap())))
                    }
                    IsPow2 => {
                        need!(1);
                        if !vs[0].is_integer() {
                            return Err(());
                        }
                        b(vs[0] > 0 && vs[0].numer().count_ones() == Some(1))
                    }
                    Log2 => {
                        need!(1);
                        if vs[0] <= 0 || !vs[0].is_integer() {
                            return Err(());
                        }
                        Ok(V::N(Rational::from(vs[0].numer().significant_bits() - 1)))
                    }
                    _ => Err(()),
                }
            }
            Select => {
                need!(2);
                let a = self.eval(&args[0], env)?;
                let i = self.eval(&args[1], env)?;
                self.select(&a, &i, &args[0])
            }
            Store => {
                need!(3);
                let a = self.eval(&args[0], env)?;
                let i = self.eval(&args[1], env)?;
                let v = self.eval(&args[2], env)?;
                match a {
                    V::Arr(s, k, mut m) => {
                        m.insert(i, v);
                        Ok(V::Arr(s, k, m))
                    }
                    V::ArrC(d, mut m) => {
                        m.insert(i, v);
                        Ok(V::ArrC(d, m))
                    }
                    _ => Err(()),
                }
            }
            StrConcat => {
                let mut r = vec![];
                for a in args {
                    r.extend(self.st(a, env)?);
                }
                Ok(V::S(r))
            }
            StrLen => {
                need!(1);
                Ok(V::N(Rational::from(self.st(&args[0], env)?.len())))
            }
            StrLessThan | StrLessEq => {
                let vs: Result<Vec<_>, ()> = args.iter().map(|a| self.st(a, env)).collect();
                let vs = vs?;
                b(vs.windows(2).all(|w| if op == StrLessThan { w[0] < w[1] } else { w[0] <= w[1] }))
            }
            CharAt => {
                need!(2);
                let s = self.st(&args[0], env)?;
                let i = self.int(&args[1], env)?;
                Ok(V::S(substr(&s, &i, &Integer::from(1))))
            }
            Substring => {
                need!(3);
                let s = self.st(&args[0], env)?;
                let i = self.int(&args[1], env)?;
                let l = self.int(&args[2], env)?;
                Ok(V::S(substr(&s, &i, &l)))
            }
            PrefixOf => {
                need!(2);
                let (x, y) = (self.st(&args[0], env)?, self.st(&args[1], env)?);
                b(y.starts_with(&x))
            }
            SuffixOf => {
                need!(2);
                let (x, y) = (self.st(&args[0], env)?, self.st(&args[1], env)?);
                b(y.ends_with(&x))
            }
            Contains => {
                need!(2);
                let (x, y) = (self.st(&args[0], env)?, self.st(&args[1], env)?);
                b(find(&x, &y, 0).is_some())
            }
            IndexOf => {
                need!(3);
                let (x, y) = (self.st(&args[0], env)?, self.st(&args[1], env)?);
                let i = self.int(&args[2], env)?;
                if i < 0 || i > x.len() {
                    return Ok(V::N(Rational::from(-1)));
                }
                Ok(V::N(match find(&x, &y, i.to_usize().unwrap()) {
                    Some(k) => Rational::from(k),
                    None => Rational::from(-1),
                }))
            }
            Replace => {
                need!(3);
                let (x, y, z) = (self.st(&args[0], env)?, self.st(&args[1], env)?, self.st(&args[2], env)?);
                Ok(V::S(match find(&x, &y, 0) {
                    None => x,
                    Some(k) => [&x[..k], &z[..], &x[k + y.len()..]].concat(),
                }))
            }
            ReplaceAll => {
                need!(3);
                let (x, y, z) = (self.st(&args[0], env)?, self.st(&args[1], env)?, self.st(&args[2], env)?);
                if y.is_empty() {
                    return Ok(V::S(x));
                }
                let mut r = vec![];
                let mut i = 0;
                while i < x.len() {
                    if x[i..].starts_with(&y) {
                        r.extend_from_slice(&z);
                        i += y.len();
                    } else {
                        r.push(x[i]);
                        i += 1;
                    }
                }
                Ok(V::S(r))
            }
            StrIsDigit => {
                need!(1);
                let s = self.st(&args[0], env)?;
                b(s.len() == 1 && (48..58).contains(&s[0]))
            }
            StrToCode => {
                need!(1);
                let s = self.st(&args[0], env)?;
                Ok(V::N(if s.len() == 1 { Rational::from(s[0]) } else { Rational::from(-1) }))
            }
            StrFromCode => {
                need!(1);
                let i = self.int(&args[0], env)?;
                if i < 0 || i > 196607 {
                    return Ok(V::S(vec![]));
                }
                Ok(V::S(vec![i.to_u32().unwrap()]))
            }
            StrToInt => {
                need!(1);
                let s = self.st(&args[0], env)?;
                if s.is_empty() || s.iter().any(|c| !(48..58).contains(c)) {
                    return Ok(V::N(Rational::from(-1)));
                }
                let t: String = s.iter().map(|&c| char::from_u32(c).unwrap()).collect();
                Ok(V::N(Rational::from(t.parse::<Integer>().unwrap())))
            }
            StrFromInt => {
                need!(1);
                let i = self.int(&args[0], env)?;
                if i < 0 {
                    return Ok(V::S(vec![]));
                }
                Ok(V::S(i.to_string().chars().map(|c| c as u32).collect()))
            }
            ReplaceRe | ReplaceReAll => Err(()),
            StrToRe => {
                need!(1);
                Ok(V::Re(Box::new(Regex::Lit(self.st(&args[0], env)?))))
            }
            StrInRe => {
                need!(2);
                let s = self.st(&args[0], env)?;
                let r = self.re(&args[1], env)?;
                let mut memo = HashMap::new();
                let mut fuel = 20000;
                b(matches(&r, &s, 0, s.len(), &mut memo, &mut fuel)?)
            }
            ReNone => Ok(V::Re(Box::new(Regex::None))),
            ReAll => Ok(V::Re(Box::new(Regex::All))),
            ReAllChar => Ok(V::Re(Box::new(Regex::AllChar))),
            ReConcat | ReUnion | ReIntersection => {
                let vs: Result<Vec<_>, ()> = args.iter().map(|a| self.re(a, env)).collect();
                let vs = vs?;
                Ok(V::Re(Box::new(match op {
                    ReConcat => Regex::Cat(vs),
                    ReUnion => Regex::Union(vs),
                    _ => Regex::Inter(vs),
                })))
            }
            ReKleeneClosure => {
                need!(1);
                Ok(V::Re(Box::new(Regex::Star(Box::new(self.re(&args[0], env)?)))))
            }
            ReComplement => {
                need!(1);
                Ok(V::Re(Box::new(Regex::Comp(Box::new(self.re(&args[0], env)?)))))
            }
            ReDiff => {
                let vs: Result<Vec<_>, ()> = args.iter().map(|a| self.re(a, env)).collect();
                let mut vs = vs?;
                for v in vs.iter_mut().skip(1) {
                    *v = Regex::Comp(Box::new(v.clone()));
                }
                Ok(V::Re(Box::new(Regex::Inter(vs))))
            }
            ReKleeneCross => {
                need!(1);
                let r = self.re(&args[0], env)?;
                Ok(V::Re(Box::new(Regex::Cat(vec![r.clone(), Regex::Star(Box::new(r))]))))
            }
            ReOption => {
                need!(1);
                let r = self.re(&args[0], env)?;
                Ok(V::Re(Box::new(Regex::Union(vec![Regex::Lit(vec![]), r]))))
            }
            ReRange => {
                need!(2);
                let (x, y) = (self.st(&args[0], env)?, self.st(&args[1], env)?);
                if x.len() != 1 || y.len() != 1 {
                    return Ok(V::Re(Box::new(Regex::None)));
                }
                Ok(V::Re(Box::new(Regex::Range(x[0], y[0]))))
            }
            BvBbTerm => {
                let mut r = Integer::new();
                for (i, a) in args.iter().enumerate() {
                    if self.truth(a, env)? {
                        r |= Integer::from(1) << i as u32;
                    }
                }
                Ok(V::Bv(r, n))
            }
            BvPBbTerm => {
                let mut r = Integer::new();
                for (i, a) in args.iter().enumerate() {
                    let k = self.int(a, env)?;
                    if k == 1 {
                        r |= Integer::from(1) << i as u32;
                    } else if k != 0 {
                        return Err(());
                    }
                }
                Ok(V::Bv(r, n))
            }
            BvConst => {
                need!(2);
                let (v, w) = (self.int(&args[0], env)?, self.int(&args[1], env)?);
                Ok(mkbv(v, w.to_usize().filter(|w| *w < 10000).ok_or(())?))
            }
            BvSize => {
                need!(1);
                Ok(V::N(Rational::from(self.bv(&args[0], env)?.1)))
            }
            UBvToInt => {
                need!(1);
                Ok(V::N(Rational::from(self.bv(&args[0], env)?.0)))
            }
            SBvToInt => {
                need!(1);
                let (v, w) = self.bv(&args[0], env)?;
                Ok(V::N(Rational::from(signed(&v, w))))
            }
            RareList | Delete => Err(()),
            _ => {
                // bit-vector operators
                let vs: Result<Vec<_>, ()> = args.iter().map(|a| self.bv(a, env)).collect();
                let vs = vs?;
                if n == 0 {
                    return Err(());
                }
                let w = vs[0].1;
                if op == BvConcat {
                    let mut r = Integer::new();
                    let mut tw = 0;
                    for (v, w) in vs {
                        r = (r << w as u32) | v;
                        tw += w;
                    }
                    return Ok(V::Bv(r, tw));
                }
                if vs.iter().any(|v| v.1 != w) || w == 0 {
                    return Err(());
                }
                let x = vs[0].0.clone();
                let mask = (Integer::from(1) << w as u32) - 1;
                let fold = |f: &dyn Fn(Integer, &Integer) -> Integer| {
                    Ok(mkbv(vs[1..].iter().fold(vs[0].0.clone(), |a, v| f(a, &v.0)), w))
                };
                match op {
                    BvNot => {
                        need!(1);
                        return Ok(V::Bv(mask - x, w));
                    }
                    BvNeg => {
                        need!(1);
                        return Ok(mkbv(-x, w));
                    }
                    BvAnd => return fold(&|a, b| a & b),
                    BvOr => return fold(&|a, b| a | b),
                    BvXor => return fold(&|a, b| a ^ b),
                    BvAdd => return fold(&|a, b| a + b),
                    BvMul => return fold(&|a, b| a * b),
                    _ => {}
                }
                need!(2);
                let y = vs[1].0.clone();
                let (sx, sy) = (signed(&x, w), signed(&y, w));
                let one = |c: bool| Ok(V::B(c));
                match op {
                    BvNAnd => Ok(V::Bv(mask - (x & y), w)),
                    BvNOr => Ok(V::Bv(mask - (x | y), w)),
                    BvXNor => Ok(V::Bv(mask - (x ^ y), w)),
                    BvComp => Ok(V::Bv(Integer::from((x == y) as u32), 1)),
                    BvSub => Ok(mkbv(x - y, w)),
                    BvUDiv => Ok(V::Bv(if y == 0 { mask } else { x / y }, w)),
                    BvURem => Ok(V::Bv(if y == 0 { x } else { x % y }, w)),
                    BvSDiv => Ok(if y == 0 {
                        mkbv(if sx < 0 { Integer::from(1) } else { Integer::from(-1) }, w)
                    } else {
                        mkbv(sx / sy, w)
                    }),
                    BvSRem => Ok(if y == 0 { mkbv(sx, w) } else { mkbv(sx % sy, w) }),
                    BvSMod => Ok(if y == 0 {
                        mkbv(sx, w)
                    } else {
                        // sign follows divisor
                        let m = sx % sy.clone();
                        let m = if m != 0 && ((m < 0) != (sy < 0)) { m + sy } else { m };
                        mkbv(m, w)
                    }),
                    BvShl => Ok(if y >= w { V::Bv(Integer::new(), w) } else { mkbv(x << y.to_u32().unwrap(), w) }),
                    BvLShr => Ok(if y >= w { V::Bv(Integer::new(), w) } else { mkbv(x >> y.to_u32().unwrap(), w) }),
                    BvAShr => Ok(if y >= w {
                        mkbv(if sx < 0 { Integer::from(-1) } else { Integer::new() }, w)
                    } else {
                        mkbv(sx >> y.to_u32().unwrap(), w)
                    }),
                    BvULt => one(x < y),
                    BvULe => one(x <= y),
                    BvUGt => one(x > y),
                    BvUGe => one(x >= y),
                    BvSLt => one(sx < sy),
                    BvSLe => one(sx <= sy),
                    BvSGt => one(sx > sy),
                    BvSGe => one(sx >= sy),
                    _ => Err(()),
                }
            }
        }
    }

    fn select(&self, a: &V, i: &V, aterm: &Rc<Term>) -> R {
        match a {
            V::Arr(s, _, m) => match m.get(i) {
                Some(v) => Ok(v.clone()),
                None => {
                    let Sort::Array(_, y) = term_sort(aterm).ok_or(())? else { return Err(()) };
                    self.random_value(y.as_sort().ok_or(())?, hash64(&[*s, hval(i), 55]))
                }
            },
            V::ArrC(d, m) => Ok(m.get(i).cloned().unwrap_or((**d).clone())),
            _ => Err(()),
        }
    }
}

/// environment keys carry the name and the sort: a variable is identified by both
pub fn vkey(n: &str, s: &Rc<Term>) -> String {
    format!("{}\u{1}{}", n, s)
}
pub fn bkey(b: &SortedVar) -> String {
    vkey(&b.0, &b.1)
}
fn let_key(n: &str, v: &Rc<Term>) -> String {
    format!("{}\u{1}{}", n, val_sort(v))
}
pub fn val_sort(v: &Rc<Term>) -> Rc<Term> {
    let mut pool = PrimitivePool::new();
    match term_sort(v) {
        Some(s) => pool.add(Term::Sort(s)),
        None => pool.add(Term::Sort(Sort::Bool)),
    }
}

/// sort of a term, computed structurally (independent of the pool's cache)
pub fn term_sort(t: &Rc<Term>) -> Option<Sort> {
    use Operator::*;
    Some(match t.as_ref() {
        Term::Const(Constant::Integer(_)) => Sort::Int,
        Term::Const(Constant::Real(_)) => Sort::Real,
        Term::Const(Constant::String(_)) => Sort::String,
        Term::Const(Constant::BitVec(_, w)) => Sort::BitVec(*w),
        Term::Var(_, s) => s.as_sort()?.clone(),
        Term::App(f, _) => fun_ret(f)?,
        Term::Sort(_) => Sort::Type,
        Term::Binder(Binder::Forall | Binder::Exists, ..) => Sort::Bool,
        Term::Binder(Binder::Choice, b, _) => b[0].1.as_sort()?.clone(),
        Term::Binder(Binder::Lambda, b, body) => {
            let mut pool = PrimitivePool::new();
            let mut v: Vec<Rc<Term>> = b.iter().map(|x| x.1.clone()).collect();
            v.push(pool.add(Term::Sort(term_sort(body)?)));
            Sort::Function(v)
        }
        Term::Let(_, i) => term_sort(i)?,
        Term::ParamOp { .. } => t.raw_sort(),
        Term::Op(op, args) => match op {
            Ite => term_sort(&args[1])?,
            Store => term_sort(&args[0])?,
            Select => match term_sort(&args[0])? {
                Sort::Array(_, y) => y.as_sort()?.clone(),
                _ => return None,
            },
            _ => t.raw_sort(),
        },
    })
}
pub fn fun_ret(f: &Rc<Term>) -> Option<Sort> {
    match term_sort(f)? {
        Sort::Function(ss) => ss.last()?.as_sort().cloned(),
        _ => None,
    }
}

pub fn ediv(a: &Integer, b: &Integer) -> (Integer, Integer) {
    // Euclidean: 0 <= m < |b|
    let m = {
        let ab = b.clone().abs();
        let mut m = Integer::from(a % &ab);
        if m < 0 {
            m += &ab;
        }
        m
    };
    let q = Integer::from(a - &m) / b;
    (q, m)
}
pub fn signed(v: &Integer, w: usize) -> Integer {
    if w > 0 && v.get_bit(w as u32 - 1) {
        v.clone() - (Integer::from(1) << w as u32)
    } else {
        v.clone()
    }
}
pub fn mkbv(v: Integer, w: usize) -> V {
    let m = Integer::from(1) << w as u32;
    let mut r = v % &m;
    if r < 0 {
        r += m;
    }
    V::Bv(r, w)
}
fn substr(s: &[u32], i: &Integer, l: &Integer) -> Vec<u32> {
    if *i < 0 || *i >= s.len() || *l <= 0 {
        return vec![];
    }
    let i = i.to_usize().unwrap();
    let l = l.to_usize().unwrap_or(usize::MAX).min(s.len() - i);
    s[i..i + l].to_vec()
}
fn find(x: &[u32], y: &[u32], from: usize) -> Option<usize> {
    (from..=x.len()).find(|&k| x[k..].starts_with(y))
}
fn matches(
    r: &Regex,
    s: &[u32],
    i: usize,
    j: usize,
    memo: &mut HashMap<(*const Regex, usize, usize), bool>,
    fuel: &mut u32,
) -> Result<bool, ()> {
    if *fuel == 0 {
        return Err(());
    }
    *fuel -= 1;
    let key = (r as *const Regex, i, j);
    if let Some(b) = memo.get(&key) {
        return Ok(*b);
    }
    let b = match r {
        Regex::None => false,
        Regex::All => true,
        Regex::AllChar => j - i == 1,
        Regex::Lit(l) => &s[i..j] == &l[..],
        Regex::Range(a, b) => j - i == 1 && *a <= s[i] && s[i] <= *b,
        Regex::Union(v) => {
            let mut x = false;
            for r in v {
                x |= matches(r, s, i, j, memo, fuel)?;
            }
            x
        }
        Regex::Inter(v) => {
            let mut x = true;
            for r in v {
                x &= matches(r, s, i, j, memo, fuel)?;
            }
            x
        }
        Regex::Comp(c) => !matches(c, s, i, j, memo, fuel)?,
        Regex::Cat(v) => cat(v, s, i, j, memo, fuel)?,
        Regex::Star(c) => {
            // positions reachable
            let mut reach = vec![false; j + 1];
            reach[i] = true;
            for p in i..j {
                if reach[p] {
                    for q in p + 1..=j {
                        if !reach[q] && matches(c, s, p, q, memo, fuel)? {
                            reach[q] = true;
                        }
                    }
                }
            }
            reach[j]
        }
    };
    memo.insert(key, b);
    Ok(b)
}
fn cat(
    v: &[Regex],
    s: &[u32],
    i: usize,
    j: usize,
    memo: &mut HashMap<(*const Regex, usize, usize), bool>,
    fuel: &mut u32,
) -> Result<bool, ()> {
    let mut reach = vec![false; j + 1];
    reach[i] = true;
    for r in v {
        let mut next = vec![false; j + 1];
        for p in i..=j {
            if reach[p] {
                for q in p..=j {
                    if !next[q] && matches(r, s, p, q, memo, fuel)? {
                        next[q] = true;
                    }
                }
            }
        }
        reach = next;
    }
    Ok(reach[j])
}
