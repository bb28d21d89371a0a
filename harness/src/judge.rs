//! Local soundness oracle for accepted proofs: in every sampled model, a step whose premises are true must have
//! a true conclusion.
use crate::eval::*;
use crate::rng::Rng;
use carcara::ast::*;
use rug::Rational;
use std::collections::BTreeMap;

pub const HOLES: &[&str] = &["hole", "lia_generic"];

pub struct Ctx<'a> {
    pub cmds: &'a [ProofCommand],
    pub env: Env,
    pub args: &'a [AnchorArg],
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub step: String,
    pub rule: String,
    pub clause: String,
    pub premises: Vec<String>,
    pub model: Vec<String>,
    pub seed: u64,
    pub env: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    /// rule -> (steps judged, model evaluations where the premises were true and the conclusion had a value)
    pub rules: BTreeMap<String, (u64, u64)>,
}

/// all (or up to `cap`) assignments of the anchor arguments; bool: complete
pub fn contexts(m: &Model, args: &[AnchorArg], base: &Env, cap: usize) -> Result<(Vec<Env>, bool), ()> {
    let mut envs = vec![base.clone()];
    let mut complete = true;
    for a in args {
        match a {
            AnchorArg::Variable(v) => {
                let (dom, c) = m.domain(v.1.as_sort().ok_or(())?)?;
                complete &= c;
                let mut next = vec![];
                for e in &envs {
                    for d in &dom {
                        let mut e2 = e.clone();
                        e2.push((bkey(v), d.clone()));
                        next.push(e2);
                    }
                }
                if next.len() > cap {
                    complete = false;
                    let step = next.len() / cap + 1;
                    next = next.into_iter().step_by(step).collect();
                }
                envs = next;
            }
            AnchorArg::Assign(v, t) => {
                for e in envs.iter_mut() {
                    let val = m.eval(t, e)?;
                    e.push((bkey(v), val));
                }
            }
        }
    }
    Ok((envs, complete))
}

fn hole_free(cmds: &[ProofCommand]) -> bool {
    cmds.iter().all(|c| match c {
        ProofCommand::Assume { .. } => true,
        ProofCommand::Step(s) => !HOLES.contains(&s.rule.as_str()),
        ProofCommand::Subproof(s) => hole_free(&s.commands),
    })
}
fn outer_refs(cmds: &[ProofCommand], depth: usize, out: &mut Vec<(usize, usize)>) {
    for c in cmds {
        match c {
            ProofCommand::Assume { .. } => {}
            ProofCommand::Step(s) => out.extend(s.premises.iter().filter(|p| p.0 < depth)),
            ProofCommand::Subproof(s) => outer_refs(&s.commands, depth, out),
        }
    }
}

fn cmd_clause(c: &ProofCommand) -> &[Rc<Term>] {
    c.clause()
}

/// premise condition for the closing step of a subproof
fn closing_ok(m: &Model, sub: &Subproof, stack: &[Ctx], depth: usize) -> bool {
    let parent = &stack.last().unwrap().env;
    let n = sub.commands.len();
    if n < 2 {
        return true;
    }
    let Ok((envs, complete)) = contexts(m, &sub.args, parent, 64) else { return false };
    let prev = &sub.commands[n - 2];
    for e in &envs {
        let mut vac = false;
        for c in &sub.commands {
            if let ProofCommand::Assume { term, .. } = c {
                match m.clause(std::slice::from_ref(term), e) {
                    Ok(true) => {}
                    Ok(false) => {
                        vac = true;
                        break;
                    }
                    Err(()) => return false,
                }
            }
        }
        if vac {
            continue;
        }
        match m.clause(cmd_clause(prev), e) {
            Ok(true) => {}
            _ => return false,
        }
        // premises of the closing step that live inside the subproof
        if let Some(ProofCommand::Step(s)) = sub.commands.last() {
            for &(d, i) in &s.premises {
                if d == depth && m.clause(cmd_clause(&sub.commands[i]), e) != Ok(true) {
                    return false;
                }
            }
        }
    }
    if complete {
        return true;
    }
    if !hole_free(&sub.commands[..n - 1]) {
        return false;
    }
    let mut refs = vec![];
    outer_refs(&sub.commands, stack.len(), &mut refs);
    refs.iter().all(|&(d, i)| m.clause(cmd_clause(&stack[d].cmds[i]), &stack[d].env) == Ok(true))
}

pub fn force(m: &Model, t: &Rc<Term>, want: bool, r: &mut Rng, depth: u32) {
    let env: Env = vec![];
    if depth == 0 {
        return;
    }
    if let Ok(V::B(b)) = m.eval(t, &env) {
        if b == want {
            return;
        }
    }
    match t.as_ref() {
        Term::Var(n, s) => {
            if s.as_sort() == Some(&Sort::Bool) {
                m.set(n, s, V::B(want));
            }
        }
        Term::Op(op, a) => match (op, want) {
            (Operator::Not, _) => force(m, &a[0], !want, r, depth - 1),
            (Operator::And, true) | (Operator::Or, false) => {
                for x in a {
                    force(m, x, want, r, depth - 1);
                }
            }
            (Operator::And, false) | (Operator::Or, true) => {
                if !a.is_empty() {
                    force(m, r.pick(a), want, r, depth - 1)
                }
            }
            (Operator::Implies, true) => {
                let k = r.below(a.len());
                force(m, &a[k], k == a.len() - 1, r, depth - 1)
            }
            (Operator::Implies, false) => {
                for (i, x) in a.iter().enumerate() {
                    force(m, x, i < a.len() - 1, r, depth - 1)
                }
            }
            (Operator::Xor, _) if !a.is_empty() => {
                let k = r.below(a.len());
                if let Ok(V::B(b)) = m.eval(&a[k], &env) {
                    force(m, &a[k], !b, r, depth - 1)
                }
            }
            (Operator::Equals, true) => {
                if term_sort(&a[0]) == Some(Sort::Bool) {
                    let k = r.below(a.len());
                    if let Ok(V::B(b)) = m.eval(&a[k], &env) {
                        for x in a {
                            force(m, x, b, r, depth - 1);
                        }
                    }
                } else {
                    let k = r.below(a.len());
                    if let Ok(v) = m.eval(&a[k], &env) {
                        for x in a {
                            assign(m, x, &v, r, depth - 1);
                        }
                    }
                }
            }
            (Operator::Equals, false) if a.len() == 2 => {
                let k = r.below(2);
                if let Ok(V::B(b)) = m.eval(&a[k], &env) {
                    force(m, &a[k], !b, r, depth - 1)
                } else {
                    scramble(m, &a[k], r);
                }
            }
            (Operator::Distinct, false) if a.len() >= 2 => {
                let (i, j) = (r.below(a.len()), r.below(a.len()));
                if let Ok(v) = m.eval(&a[i], &env) {
                    assign(m, &a[j], &v, r, depth - 1);
                }
            }
            (Operator::LessThan | Operator::LessEq | Operator::GreaterThan | Operator::GreaterEq, _) if a.len() == 2 => {
                let k = r.below(2);
                if let Ok(V::N(v)) = m.eval(&a[1 - k], &env) {
                    let isint = term_sort(&a[k]) == Some(Sort::Int);
                    let d = if isint { Rational::from(r.below(5) as i64 - 2) } else { Rational::from((r.below(9) as i64 - 4, 2)) };
                    let target = V::N(if isint { (v + d).floor() } else { v + d });
                    assign(m, &a[k], &target, r, depth - 1);
                }
            }
            (Operator::Ite, _) => {
                let k = 1 + r.below(2);
                force(m, &a[0], k == 1, r, depth - 1);
                force(m, &a[k], want, r, depth - 1);
            }
            _ => {
                if !a.is_empty() {
                    scramble(m, t, r)
                }
            }
        },
        _ => scramble(m, t, r),
    }
}

/// re-randomises one variable of the term
fn scramble(m: &Model, t: &Rc<Term>, r: &mut Rng) {
    let mut vs = vec![];
    vars(t, &mut vs, 0);
    if !vs.is_empty() {
        let (n, s) = r.pick(&vs).clone();
        if let Some(srt) = s.as_sort() {
            if let Ok(v) = m.random_value(srt, r.next()) {
                m.set(&n, &s, v);
            }
        }
    }
}
pub fn vars(t: &Rc<Term>, out: &mut Vec<(String, Rc<Term>)>, depth: u32) {
    if out.len() > 40 || depth > 30 {
        return;
    }
    match t.as_ref() {
        Term::Var(n, s) => out.push((n.clone(), s.clone())),
        Term::App(f, a) => {
            vars(f, out, depth + 1);
            a.iter().for_each(|x| vars(x, out, depth + 1))
        }
        Term::Op(_, a) | Term::ParamOp { args: a, .. } => a.iter().for_each(|x| vars(x, out, depth + 1)),
        Term::Binder(_, _, i) => vars(i, out, depth + 1),
        Term::Let(b, i) => {
            b.iter().for_each(|x| vars(&x.1, out, depth + 1));
            vars(i, out, depth + 1)
        }
        _ => {}
    }
}

fn assign(m: &Model, t: &Rc<Term>, v: &V, r: &mut Rng, depth: u32) {
    let env: Env = vec![];
    if depth == 0 || m.eval(t, &env).as_ref() == Ok(v) {
        return;
    }
    match t.as_ref() {
        Term::Var(n, s) => {
            if let (Some(Sort::Int), V::N(x)) = (s.as_sort(), v) {
                if !x.is_integer() {
                    return;
                }
                if m.pb && *x != 0 && *x != 1 {
                    return;
                }
            }
            m.set(n, s, v.clone())
        }
        Term::Op(op, a) => match (op, v) {
            (Operator::Add, V::N(x)) if !a.is_empty() => {
                let k = r.below(a.len());
                let mut rest = x.clone();
                for (i, y) in a.iter().enumerate() {
                    if i != k {
                        match m.eval(y, &env) {
                            Ok(V::N(z)) => rest -= z,
                            _ => return,
                        }
                    }
                }
                assign(m, &a[k], &V::N(rest), r, depth - 1)
            }
            (Operator::Sub, V::N(x)) if a.len() == 1 => assign(m, &a[0], &V::N(-x.clone()), r, depth - 1),
            (Operator::Sub, V::N(x)) if a.len() == 2 => {
                if r.chance(1, 2) {
                    if let Ok(V::N(z)) = m.eval(&a[1], &env) {
                        assign(m, &a[0], &V::N(x.clone() + z), r, depth - 1)
                    }
                } else if let Ok(V::N(z)) = m.eval(&a[0], &env) {
                    assign(m, &a[1], &V::N(z - x), r, depth - 1)
                }
            }
            (Operator::Mult, V::N(x)) if a.len() == 2 => {
                let k = r.below(2);
                if let Ok(V::N(z)) = m.eval(&a[1 - k], &env) {
                    if z != 0 {
                        assign(m, &a[k], &V::N(x.clone() / z), r, depth - 1)
                    }
                }
            }
            (Operator::RealDiv, V::N(x)) if a.len() == 2 => {
                if let Ok(V::N(z)) = m.eval(&a[1], &env) {
                    if z != 0 {
                        assign(m, &a[0], &V::N(x.clone() * z), r, depth - 1)
                    }
                }
            }
            (Operator::ToReal, _) if a.len() == 1 => assign(m, &a[0], v, r, depth - 1),
            (Operator::Ite, _) if a.len() == 3 => {
                let k = 1 + r.below(2);
                force(m, &a[0], k == 1, r, depth - 1);
                assign(m, &a[k], v, r, depth - 1);
            }
            (Operator::StrConcat, V::S(x)) if !a.is_empty() => {
                // split at random points
                let mut rest = x.clone();
                for (i, y) in a.iter().enumerate() {
                    let k = if i == a.len() - 1 {
                        rest.len()
                    } else {
                        match m.eval(y, &env) {
                            Ok(V::S(z)) if rest.starts_with(&z) && r.chance(1, 2) => z.len(),
                            _ => r.below(rest.len() + 1),
                        }
                    };
                    let head: Vec<u32> = rest[..k].to_vec();
                    rest = rest[k..].to_vec();
                    assign(m, y, &V::S(head), r, depth - 1);
                }
            }
            (Operator::BvBbTerm, V::Bv(x, w)) if *w == a.len() => {
                for (i, y) in a.iter().enumerate() {
                    force(m, y, x.get_bit(i as u32), r, depth - 1)
                }
            }
            _ => {}
        },
        _ => {}
    }
}

/// every literal `l` of a pseudo-Boolean sum of `(* c l)` is 0 or 1
fn pb01(m: &Model, t: &Rc<Term>, env: &Env) -> bool {
    let one = std::slice::from_ref(t);
    let parts: &[Rc<Term>] = match t.as_ref() {
        Term::Op(Operator::Add, a) => a,
        _ => one,
    };
    parts.iter().all(|p| match p.as_ref() {
        Term::Op(Operator::Mult, a) if a.len() == 2 => is01(m, &a[1], env),
        _ => true,
    })
}
fn is01(m: &Model, t: &Rc<Term>, env: &Env) -> bool {
    matches!(m.eval(t, env), Ok(V::N(x)) if x == 0 || x == 1)
}
/// the side conditions of the rules that are only sound for pseudo-Boolean variables (0 or 1) and for integers
fn side(m: &Model, s: &ProofStep, stack: &[Ctx], env: &Env) -> bool {
    match s.rule.as_str() {
        "cp_division" | "cp_saturation" => s.premises.iter().all(|&(d, i)| {
            cmd_clause(&stack[d].cmds[i]).iter().all(|t| match t.as_ref() {
                Term::Op(_, a) => a.iter().all(|x| pb01(m, x, env)),
                _ => true,
            })
        }),
        "cp_literal" => s.args.iter().all(|t| match t.as_ref() {
            Term::Op(Operator::Mult, a) if a.len() == 2 => is01(m, &a[1], env),
            _ => is01(m, t, env),
        }),
        "cp_normalize" => {
            fn rel(m: &Model, t: &Rc<Term>, env: &Env) -> bool {
                match t.as_ref() {
                    Term::Op(Operator::Not, a) => rel(m, &a[0], env),
                    Term::Op(Operator::And | Operator::Or, a) => a.iter().all(|x| rel(m, x, env)),
                    Term::Op(Operator::Equals, a) if term_sort(&a[0]) == Some(Sort::Bool) => a.iter().all(|x| rel(m, x, env)),
                    Term::Op(_, a) => a.iter().all(|x| match m.eval(x, env) {
                        Ok(V::N(v)) => v.is_integer(),
                        _ => true,
                    }),
                    _ => true,
                }
            }
            s.clause.iter().all(|t| rel(m, t, env))
        }
        _ => true,
    }
}

pub struct Judge<'a> {
    pub stats: Stats,
    pub rng: Rng,
    pub rules: &'a dyn Fn(&str) -> bool,
    pub violations: Vec<Violation>,
}

impl<'a> Judge<'a> {
    fn report(&mut self, m: &Model, s: &ProofStep, stack: &[Ctx], env: &Env) {
        let mut model = vec![format!("seed={} universe={} pb={}", m.seed, m.usize_, m.pb)];
        let mut vs: Vec<String> = m.vars.borrow().iter().map(|(k, v)| format!("{} : {} = {:?}", k.0, k.1, v)).collect();
        vs.sort();
        model.extend(vs);
        self.violations.push(Violation {
            step: s.id.clone(),
            rule: s.rule.clone(),
            clause: s.clause.iter().map(|t| format!("{}", t)).collect::<Vec<_>>().join("  |  "),
            premises: s
                .premises
                .iter()
                .filter(|p| p.0 < stack.len())
                .map(|&(d, i)| cmd_clause(&stack[d].cmds[i]).iter().map(|t| format!("{}", t)).collect::<Vec<_>>().join("  |  "))
                .collect(),
            model,
            seed: m.seed,
            env: env.iter().map(|(k, v)| format!("{} = {:?}", k.replace('\u{1}', " : "), v)).collect(),
        });
    }

    fn step(&mut self, m: &Model, s: &ProofStep, stack: &[Ctx], closing: Option<&Subproof>) {
        if HOLES.contains(&s.rule.as_str()) || !(self.rules)(&s.rule) {
            return;
        }
        m.reset_budget();
        // stack: for a closing step, the frame of the subproof has been popped already
        let env = stack.last().unwrap().env.clone();
        let prem = |m: &Model| {
            s.premises.iter().all(|&(d, i)| (d == stack.len() && closing.is_some()) || d < stack.len() && m.clause(cmd_clause(&stack[d].cmds[i]), &stack[d].env) == Ok(true))
        };
        let e = self.stats.rules.entry(s.rule.clone()).or_default();
        e.0 += 1;
        let prem = |m: &Model| prem(m) && side(m, s, stack, &env);
        let ok = prem(m) && closing.map_or(true, |c| closing_ok(m, c, stack, stack.len()));
        if ok {
            match m.clause(&s.clause, &env) {
                Ok(true) => e.1 += 1,
                Ok(false) => {
                    e.1 += 1;
                    self.report(m, s, stack, &env);
                    return;
                }
                Err(()) => {}
            }
        }
        // guided search for a counter-model
        if stack.len() == 1 && closing.is_none() {
            for round in 0..3 {
                let m2 = m.clone();
                m2.reset_budget();
                for t in &s.clause {
                    force(&m2, t, false, &mut self.rng, 8);
                }
                for k in 0..6 {
                    if prem(&m2) {
                        break;
                    }
                    for &(d, i) in &s.premises {
                        let c = cmd_clause(&stack[d].cmds[i]);
                        if m2.clause(c, &vec![]) == Ok(false) && !c.is_empty() {
                            let t = self.rng.pick(c).clone();
                            force(&m2, &t, true, &mut self.rng, 8);
                        }
                    }
                    if k % 2 == 1 {
                        for t in &s.clause {
                            force(&m2, t, false, &mut self.rng, 8);
                        }
                    }
                }
                let _ = round;
                m2.reset_budget();
                if prem(&m2) {
                    match m2.clause(&s.clause, &env) {
                        Ok(true) => self.stats.rules.get_mut(&s.rule).unwrap().1 += 1,
                        Ok(false) => {
                            self.stats.rules.get_mut(&s.rule).unwrap().1 += 1;
                            self.report(&m2, s, stack, &env);
                            return;
                        }
                        Err(()) => {}
                    }
                }
            }
        }
    }

    fn walk<'b>(&mut self, m: &Model, stack: &mut Vec<Ctx<'b>>, sub: Option<&'b Subproof>) {
        let cmds = stack.last().unwrap().cmds;
        let n = cmds.len();
        for (i, c) in cmds.iter().enumerate() {
            if !self.violations.is_empty() {
                return;
            }
            match c {
                ProofCommand::Assume { .. } => {}
                ProofCommand::Step(s) => {
                    if sub.is_some() && i == n - 1 {
                        continue; // judged by the parent
                    }
                    self.step(m, s, stack, None);
                }
                ProofCommand::Subproof(sp) => {
                    let base = stack.last().unwrap().env.clone();
                    if let Ok((envs, _)) = contexts(m, &sp.args, &base, 64) {
                        for _ in 0..envs.len().min(2) {
                            let e = self.rng.pick(&envs).clone();
                            stack.push(Ctx { cmds: &sp.commands, env: e, args: &sp.args });
                            self.walk(m, stack, Some(sp));
                            stack.pop();
                        }
                    }
                    if let Some(ProofCommand::Step(s)) = sp.commands.last() {
                        self.step(m, s, stack, Some(sp));
                    }
                }
            }
        }
    }

    pub fn judge(&mut self, proof: &Proof, models: u64, seed: u64, setup: &dyn Fn(&mut Model)) {
        for k in 0..models {
            let mut m = Model::new(hash64(&[seed, k]));
            setup(&mut m);
            let mut stack = vec![Ctx { cmds: &proof.commands, env: vec![], args: &[] }];
            self.walk(&m, &mut stack, None);
            if !self.violations.is_empty() {
                return;
            }
        }
    }
}
