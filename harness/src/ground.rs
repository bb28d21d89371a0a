//! Bounded search: does `evaluate` give ground terms the values that SMT-LIB gives them?  Random ground terms, every
//! subterm of which is evaluated by carcara and compared with the independent evaluator of eval.rs.
use crate::eval::{Model, V};
use crate::jstr;
use crate::rng::Rng;
use crate::sound::{parse, Opts};
use carcara::ast::{Constant, Operator, ProofCommand, Rc, Term};
use rug::Integer;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum S {
    Bool,
    Int,
    Real,
    Bv(usize),
    Str,
}
fn nat(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "0".into(),
        1 => "1".into(),
        2 | 3 => r.below(4).to_string(),
        4 | 5 => r.below(40).to_string(),
        6 => (1u64 << r.below(63)).to_string(),
        _ => format!("{}{:018}", r.next(), r.next() % 1_000_000_000_000_000_000),
    }
}
fn width(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => 31 + r.below(4),
        1 => 63 + r.below(4),
        2 => 7 + r.below(3),
        3..=5 => 1 + r.below(2),
        _ => 3 + r.below(3),
    }
}
fn bv(r: &mut Rng, w: usize) -> String {
    let k = r.below(6);
    let bits: String = (0..w)
        .map(|i| {
            let b = match k {
                0 => false,
                1 => true,
                2 => i == 0,
                3 => i == w - 1,
                _ => r.chance(1, 2),
            };
            if b {
                '1'
            } else {
                '0'
            }
        })
        .collect();
    format!("#b{}", bits)
}
fn gen(r: &mut Rng, s: S, d: usize) -> String {
    let any = |r: &mut Rng| *r.pick(&[S::Bool, S::Int, S::Int, S::Real, S::Str, S::Bv(3), S::Bv(1)]);
    if d == 0 || r.chance(1, 6) {
        return match s {
            S::Bool => r.pick(&["true", "false"]).to_string(),
            S::Int => {
                let n = nat(r);
                if r.chance(1, 3) {
                    format!("(- {})", n)
                } else {
                    n
                }
            }
            S::Real => match r.below(3) {
                0 => format!("{}.0", nat(r)),
                1 => format!("{}.{}", r.below(30), r.below(100)),
                _ => format!("(- {}.5)", r.below(5)),
            },
            S::Bv(w) => bv(r, w),
            S::Str => r.pick(&["\"\"", "\"a\"", "\"ab\"", "\"b\""]).to_string(),
        };
    }
    let e = d - 1;
    let many = |r: &mut Rng, op: &str, s: S, lo: usize| {
        let n = lo + if r.chance(1, 3) { r.below(3) } else { 0 };
        let v: Vec<String> = (0..n).map(|_| gen(r, s, e)).collect();
        format!("({} {})", op, v.join(" "))
    };
    if r.chance(1, 8) {
        return format!("(ite {} {} {})", gen(r, S::Bool, e), gen(r, s, e), gen(r, s, e));
    }
    match s {
        S::Bool => match r.below(5) {
            0 => format!("(not {})", gen(r, S::Bool, e)),
            1 => {
                let op = *r.pick(&["and", "or", "xor", "=>"]);
                many(r, op, S::Bool, 2)
            }
            2 => {
                let (op, t) = (*r.pick(&["=", "distinct"]), any(r));
                many(r, op, t, 2)
            }
            3 => {
                let (op, t) = (*r.pick(&["<", "<=", ">", ">="]), *r.pick(&[S::Int, S::Real]));
                many(r, op, t, 2)
            }
            _ => {
                let w = width(r);
                match r.below(8) {
                    0 => format!("(is_int {})", gen(r, S::Real, e)),
                    1 => format!("(int.ispow2 {})", gen(r, S::Int, e)),
                    2 => format!("((_ @bit_of {}) {})", r.below(w), gen(r, S::Bv(w), e)),
                    _ => format!("({} {} {})", r.pick(&["bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"]), gen(r, S::Bv(w), e), gen(r, S::Bv(w), e)),
                }
            }
        },
        S::Int => match r.below(10) {
            0 => format!("(- {})", gen(r, S::Int, e)),
            1..=3 => {
                let op = *r.pick(&["+", "-", "*"]);
                many(r, op, S::Int, 2)
            }
            4..=6 => {
                let op = *r.pick(&["div", "mod"]);
                many(r, op, S::Int, 2)
            }
            7 => format!("(abs {})", gen(r, S::Int, e)),
            8 => match r.below(3) {
                0 => format!("(to_int {})", gen(r, S::Real, e)),
                1 => format!("(int.pow2 {})", if r.chance(1, 2) { r.below(70).to_string() } else { format!("(- {})", r.below(9)) }),
                _ => format!("(int.log2 {})", gen(r, S::Int, 0)),
            },
            _ => {
                let w = width(r);
                match r.below(4) {
                    0 => format!("(ubv_to_int {})", gen(r, S::Bv(w), e)),
                    1 | 2 => format!("(sbv_to_int {})", gen(r, S::Bv(w), e)),
                    _ => format!("(@bvsize {})", gen(r, S::Bv(w), e)),
                }
            }
        },
        S::Real => match r.below(5) {
            0 => format!("(- {})", gen(r, S::Real, e)),
            1 => format!("(to_real {})", gen(r, S::Int, e)),
            2 => many(r, "/", S::Real, 2),
            _ => {
                let op = *r.pick(&["+", "-", "*"]);
                many(r, op, S::Real, 2)
            }
        },
        S::Str => gen(r, S::Str, 0),
        S::Bv(w) => match r.below(12) {
            0 => format!("({} {})", r.pick(&["bvnot", "bvneg"]), gen(r, s, e)),
            1 | 2 => {
                let op = *r.pick(&["bvand", "bvor", "bvxor", "bvadd", "bvmul"]);
                many(r, op, s, 2)
            }
            3..=6 => format!(
                "({} {} {})",
                r.pick(&["bvnand", "bvnor", "bvxnor", "bvsub", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod", "bvshl", "bvlshr", "bvashr", "bvshl", "bvlshr", "bvashr"]),
                gen(r, s, e),
                gen(r, s, e)
            ),
            7 if w > 1 => {
                let k = 1 + r.below(w - 1);
                format!("(concat {} {})", gen(r, S::Bv(k), e), gen(r, S::Bv(w - k), e))
            }
            8 => {
                let (lo, hi) = (r.below(4), r.below(4));
                format!("((_ extract {} {}) {})", lo + w - 1, lo, gen(r, S::Bv(lo + w + hi), e))
            }
            9 => {
                let k = r.below(w);
                format!("((_ {} {}) {})", r.pick(&["sign_extend", "zero_extend"]), k, gen(r, S::Bv(w - k), e))
            }
            10 => match r.below(3) {
                0 if w % 2 == 0 => format!("((_ repeat 2) {})", gen(r, S::Bv(w / 2), e)),
                1 => format!("((_ int_to_bv {}) {})", w, gen(r, S::Int, e)),
                _ => format!("((_ {} {}) {})", r.pick(&["rotate_left", "rotate_right"]), r.below(2 * w + 2), gen(r, s, e)),
            },
            11 if w == 1 => format!("(bvcomp {} {})", gen(r, S::Bv(2), e), gen(r, S::Bv(2), e)),
            _ => gen(r, s, 0),
        },
    }
}
fn subterms(t: &Rc<Term>, out: &mut Vec<Rc<Term>>) {
    match t.as_ref() {
        Term::Op(_, a) | Term::ParamOp { args: a, .. } => a.iter().for_each(|x| subterms(x, out)),
        _ => {}
    }
    out.push(t.clone());
}
/// a remainder of a negative dividend is taken (known finding)
fn neg_mod(t: &Rc<Term>, m: &Model) -> bool {
    let mut v = vec![];
    subterms(t, &mut v);
    v.iter().any(|x| match x.as_ref() {
        Term::Op(Operator::Mod, a) => matches!(m.eval(&a[0], &vec![]), Ok(V::N(q)) if q < 0),
        _ => false,
    })
}
fn kind(t: &Term) -> Option<u8> {
    match t {
        Term::Const(Constant::Integer(_)) => Some(0),
        Term::Const(Constant::Real(_)) => Some(1),
        Term::Const(Constant::String(_)) => Some(2),
        Term::Const(Constant::BitVec(..)) => Some(3),
        Term::Op(Operator::True | Operator::False, _) => Some(4),
        _ => None,
    }
}
/// the number of subterms compared, of those with a value, and the smallest term that evaluates wrongly
fn one(seed: u64) -> (usize, usize, Option<(String, String, String)>) {
    let mut r = Rng(seed);
    let s = *r.pick(&[S::Bool, S::Int, S::Real, S::Bv(0), S::Bv(0)]);
    let s = if s == S::Bv(0) { S::Bv(width(&mut r)) } else { s };
    let d = 1 + r.below(3);
    let t = gen(&mut r, s, d);
    let proof = format!("(step t1 (cl (= {} {})) :rule hole)\n", t, t);
    let Some((_, p, _, mut pool)) = parse("", &proof, &Opts { elaborated: false, rare: None, subtyping: false }) else {
        return (0, 0, None);
    };
    let ProofCommand::Step(st) = &p.commands[0] else { return (0, 0, None) };
    let Term::Op(_, a) = st.clause[0].as_ref() else { return (0, 0, None) };
    let mut ts = vec![];
    subterms(&a[0], &mut ts);
    let (m1, m2) = (Model::new(hash(seed, 1)), Model::new(hash(seed, 2)));
    let (mut n, mut lits) = (0, 0);
    for x in &ts {
        n += 1;
        let e = match catch_unwind(AssertUnwindSafe(|| x.evaluate(&mut pool))) {
            Ok(e) => e,
            Err(_) => continue,
        };
        if kind(&e).is_some() {
            lits += 1;
        }
        for m in [&m1, &m2] {
            m.reset_budget();
            let (Ok(u), Ok(v)) = (m.eval(x, &vec![]), m.eval(&e, &vec![])) else { continue };
            let mut bad = u != v;
            if let (Term::Const(Constant::BitVec(i, w)), V::Bv(_, w2)) = (e.as_ref(), &u) {
                bad |= w != w2 || *i < 0 || *i >= Integer::from(1) << (*w as u32);
            }
            if bad {
                let key = if neg_mod(x, m) { "evaluate:mod-negative" } else { "evaluate" };
                return (n, lits, Some((key.into(), format!("(step t1 (cl (= {} {})) :rule evaluate)", x, e), format!("SMT-LIB: {:?}, carcara: {:?}", u, v))));
            }
        }
    }
    (n, lits, None)
}
fn hash(a: u64, b: u64) -> u64 {
    crate::eval::hash64(&[a, b])
}
pub fn run(secs: f64, seed: u64, threads: usize) -> String {
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let hs: Vec<_> = (0..threads)
        .map(|th| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let (mut n, mut l, mut runs, mut found) = (0, 0, 0usize, Vec::<(String, String, String)>::new());
                    let mut i = 0u64;
                    while Instant::now() < end && found.len() < 6 {
                        i += 1;
                        let (a, b, f) = one(hash(seed.wrapping_add(i << 8), th as u64));
                        runs += 1;
                        n += a;
                        l += b;
                        if let Some(f) = f {
                            // each known finding once; others are all kept
                            if !found.iter().any(|g| g.0 == f.0 && f.0 != "evaluate") {
                                found.push(f);
                            }
                        }
                    }
                    (runs, n, l, found)
                })
                .unwrap()
        })
        .collect();
    let (mut runs, mut n, mut l, mut found) = (0, 0, 0, Vec::<(String, String, String)>::new());
    for h in hs {
        if let Ok((a, b, c, f)) = h.join() {
            runs += a;
            n += b;
            l += c;
            for x in f {
                if found.iter().filter(|g| g.0 == x.0).count() < 2 {
                    found.push(x);
                }
            }
        }
    }
    format!(
        "{{\"runs\":{},\"accepted\":{},\"distinct_accepted\":{},\"panics\":0,\"stuck\":0,\"rules\":{{\"ground terms compared\":[{},{}]}},\"samples\":[],\"found\":[{}]}}",
        runs,
        n,
        n,
        n,
        l,
        found.iter().map(|(k, t, w)| format!("{{\"key\":{},\"rule\":\"evaluate\",\"proof\":{},\"what\":{}}}", jstr(k), jstr(t), jstr(w))).collect::<Vec<_>>().join(",")
    )
}
