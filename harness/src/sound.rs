use crate::case::*;
use crate::judge::*;
use crate::rng::Rng;
use crate::sexp::*;
use carcara::ast::*;
use carcara::{checker, parser};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub enum Outcome {
    ParseError,
    Rejected(String, String),
    Accepted,
    Panicked,
}

pub struct Opts {
    pub elaborated: bool,
    pub rare: Option<String>,
    pub subtyping: bool,
}

pub fn pconfig(o: &Opts) -> parser::Config {
    parser::Config { apply_function_defs: true, allow_int_real_subtyping: o.subtyping, ..Default::default() }
}

pub fn parse(defs: &str, proof: &str, o: &Opts) -> Option<(Problem, Proof, carcara::ast::rare_rules::Rules, PrimitivePool)> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        parser::parse_instance(
            defs.as_bytes(),
            proof.as_bytes(),
            o.rare.as_ref().map(|s| s.as_bytes()),
            pconfig(o),
        )
    }));
    match r {
        Ok(Ok(x)) => Some(x),
        _ => None,
    }
}

pub fn run<T>(defs: &str, proof: &str, o: &Opts, f: impl FnOnce(&Problem, &Proof, &mut PrimitivePool) -> T) -> (Outcome, Option<T>) {
    let Some((mut problem, mut proof, rules, mut pool)) = parse(defs, proof, o) else {
        return (Outcome::ParseError, None);
    };
    problem.premises = proof
        .commands
        .iter()
        .filter_map(|c| match c {
            ProofCommand::Assume { term, .. } => Some(term.clone()),
            _ => None,
        })
        .collect();
    proof.commands.push(ProofCommand::Step(ProofStep {
        id: "end".into(),
        clause: Vec::new(),
        rule: "hole".into(),
        premises: Vec::new(),
        args: Vec::new(),
        discharge: Vec::new(),
    }));
    let r = catch_unwind(AssertUnwindSafe(|| {
        checker::ProofChecker::new(&mut pool, &rules, checker::Config::new().elaborated(o.elaborated)).check(&problem, &proof)
    }));
    match r {
        Err(_) => (Outcome::Panicked, None),
        Ok(Ok(_)) => {
            proof.commands.pop();
            let t = f(&problem, &proof, &mut pool);
            (Outcome::Accepted, Some(t))
        }
        Ok(Err(carcara::Error::Checker { inner, step, .. })) => (Outcome::Rejected(step.to_string(), inner.to_string()), None),
        Ok(Err(e)) => (Outcome::Rejected(String::new(), e.to_string()), None),
    }
}

pub struct Params {
    pub corpus: String,
    pub files: Vec<String>,
    pub rules: HashSet<String>,
    pub secs: f64,
    pub seed: u64,
    pub threads: usize,
    pub out: Option<String>,
}

#[derive(Default)]
pub struct Totals {
    pub runs: AtomicU64,
    pub parse_err: AtomicU64,
    pub rejected: AtomicU64,
    pub accepted: AtomicU64,
    pub panics: AtomicU64,
}

pub fn nums(p: &[S], out: &mut Vec<rug::Rational>, alph: &mut Vec<u32>) {
    for x in p {
        match x {
            S::A(a) => {
                if a.chars().next().map_or(false, |c| c.is_ascii_digit()) && out.len() < 12 {
                    let t = if let Some((i, f)) = a.split_once('.') {
                        let d = rug::Integer::from(10).clone();
                        let mut den = rug::Integer::from(1);
                        for _ in 0..f.len() {
                            den *= &d;
                        }
                        format!("{}{}", i, f).parse::<rug::Integer>().ok().map(|n| rug::Rational::from((n, den)))
                    } else {
                        a.parse::<rug::Integer>().ok().map(rug::Rational::from)
                    };
                    if let Some(t) = t {
                        if !out.contains(&t) {
                            out.push(t);
                        }
                    }
                } else if a.starts_with('"') {
                    for c in a[1..a.len() - 1].chars() {
                        if !alph.contains(&(c as u32)) && alph.len() < 10 {
                            alph.push(c as u32);
                        }
                    }
                }
            }
            S::L(v) => nums(v, out, alph),
        }
    }
}

pub struct Found {
    pub v: Violation,
    pub defs: String,
    pub proof: String,
    pub elaborated: bool,
    pub subtyping: bool,
}

pub fn check_case(
    defs: &str,
    proof: &[S],
    o: &Opts,
    pb: bool,
    models: u64,
    seed: u64,
    rules: &dyn Fn(&str) -> bool,
    st: &mut Stats,
) -> (Outcome, Option<Found>) {
    let t = text(proof);
    let (mut ns, mut al) = (vec![], vec![97u32, 98]);
    nums(proof, &mut ns, &mut al);
    let (out, f) = run(defs, &t, o, |_, p, _| {
        let mut j = Judge { stats: Stats::default(), rng: Rng(seed), rules, violations: vec![] };
        let r = catch_unwind(AssertUnwindSafe(|| {
            j.judge(p, models, seed, &|m| {
                m.nums = ns.clone();
                m.alphabet = al.clone();
                m.pb = pb;
            });
            j
        }));
        match r {
            Ok(mut j) => {
                for (k, v) in std::mem::take(&mut j.stats.rules) {
                    let e = st.rules.entry(k).or_default();
                    e.0 += v.0;
                    e.1 += v.1;
                }
                j.violations.pop()
            }
            Err(_) => None,
        }
    });
    (
        out,
        f.flatten().map(|v| Found { v, defs: defs.to_string(), proof: t, elaborated: o.elaborated, subtyping: o.subtyping }),
    )
}

#[derive(Default)]
pub struct Shared {
    pub tot: Totals,
    pub stats: Mutex<Stats>,
    pub found: Mutex<Vec<Found>>,
    pub distinct: Mutex<HashSet<u64>>,
    pub samples: Mutex<Vec<String>>,
    pub stop: AtomicBool,
    pub stuck: AtomicU64,
}

type Prog = Arc<Mutex<(Instant, String)>>;

struct World {
    cases: Vec<Case>,
    groups: Vec<(String, Vec<usize>)>,
    dons: Vec<Vec<S>>,
    rare: Option<String>,
    rules: HashSet<String>,
    seed: u64,
    out: Option<String>,
}

fn worker(th: u64, w: Arc<World>, sh: Arc<Shared>, prog: Prog, deadline: Instant) {
    let mut r = Rng(w.seed.wrapping_mul(1000003).wrapping_add(th * 7919 + 1));
    let mut st = Stats::default();
    let mut pools: Vec<Vec<Vec<S>>> = w.cases.iter().map(|c| vec![c.proof.clone()]).collect();
    let mut local: Vec<u64> = vec![];
    let mut queue: Vec<usize> = if th == 0 { (0..w.cases.len()).rev().collect() } else { vec![] };
    let is_rule = |r: &str| w.rules.contains(r);
    let mut flush_at = Instant::now() + Duration::from_millis(500);
    loop {
        let done = sh.stop.load(Ordering::Relaxed) || Instant::now() >= deadline;
        if done || Instant::now() >= flush_at {
            sh.distinct.lock().unwrap().extend(local.drain(..));
            let mut s = sh.stats.lock().unwrap();
            for (k, v) in std::mem::take(&mut st.rules) {
                let e = s.rules.entry(k).or_default();
                e.0 += v.0;
                e.1 += v.1;
            }
            flush_at = Instant::now() + Duration::from_millis(500);
        }
        if done {
            break;
        }
        let gi = r.below(w.groups.len());
        let (ci, fresh) = match queue.pop() {
            Some(i) => (i, true),
            None => (*r.pick(&w.groups[gi].1), false),
        };
        let c = &w.cases[ci];
        let k = r.below(pools[ci].len());
        let mut proof = pools[ci][k].clone();
        if !fresh {
            let n = 1 + r.below(4);
            for _ in 0..n {
                mutate(&mut r, c, &mut proof, &w.dons[gi]);
            }
        }
        if proof.iter().map(|x| x.count()).sum::<usize>() > 1500 {
            continue;
        }
        let o = Opts {
            elaborated: r.chance(1, 6),
            rare: if c.file == "rare" { w.rare.clone() } else { None },
            subtyping: r.chance(1, 12),
        };
        let pb = c.file.starts_with("cutting_planes") || c.file.starts_with("pb_blasting");
        for attempt in 0..5 {
            sh.tot.runs.fetch_add(1, Ordering::Relaxed);
            *prog.lock().unwrap() = (Instant::now(), text(&proof));
            let (out, f) = check_case(&c.defs, &proof, &o, pb, if fresh { 40 } else { 6 }, r.next(), &is_rule, &mut st);
            match out {
                Outcome::ParseError => {
                    sh.tot.parse_err.fetch_add(1, Ordering::Relaxed);
                    break;
                }
                Outcome::Panicked => {
                    sh.tot.panics.fetch_add(1, Ordering::Relaxed);
                    break;
                }
                Outcome::Rejected(step, msg) => {
                    sh.tot.rejected.fetch_add(1, Ordering::Relaxed);
                    if step.is_empty() || attempt == 4 || !error_guided(&mut r, &mut proof, &step, &msg) {
                        break;
                    }
                }
                Outcome::Accepted => {
                    sh.tot.accepted.fetch_add(1, Ordering::Relaxed);
                    local.push(crate::eval::hstr(&text(&proof)));
                    if let Some(f) = f {
                        let mut fs = sh.found.lock().unwrap();
                        match fs.iter_mut().find(|g| g.v.rule == f.v.rule && g.key() == f.key()) {
                            // keep the shortest counterexample per rule
                            Some(g) => {
                                if g.proof.len() > f.proof.len() {
                                    *g = f
                                }
                            }
                            None => {
                                if let Some(o) = &w.out {
                                    use std::io::Write;
                                    if let Ok(mut h) = std::fs::OpenOptions::new().create(true).append(true).open(o) {
                                        let _ = writeln!(h, "{}", f.json());
                                    }
                                }
                                fs.push(f);
                            }
                        }
                    }
                    if pools[ci].len() < 40 {
                        pools[ci].push(proof.clone());
                    } else {
                        let k = 1 + r.below(39);
                        pools[ci][k] = proof.clone();
                    }
                    if th == 0 && r.chance(1, 500) {
                        let mut s = sh.samples.lock().unwrap();
                        if s.len() < 5 {
                            s.push(text(&proof));
                        }
                    }
                    break;
                }
            }
        }
    }
    *prog.lock().unwrap() = (Instant::now() + Duration::from_secs(1_000_000), String::new());
}

/// `(= (div n n) 1)`, with the same term n twice
fn self_division(clause: &str) -> bool {
    let c: Vec<&str> = clause.split_whitespace().collect();
    let c = c.join(" ");
    for op in ["(= (div ", "(= (/ "] {
        if let Some(k) = c.find(op) {
            let b = &c.as_bytes()[k + op.len()..];
            let (mut d, mut args, mut start) = (0i32, vec![], 0);
            for (i, ch) in b.iter().enumerate() {
                match ch {
                    b'(' => d += 1,
                    b' ' if d == 0 => {
                        args.push(&b[start..i]);
                        start = i + 1;
                    }
                    b')' if d == 0 => {
                        args.push(&b[start..i]);
                        break;
                    }
                    b')' => d -= 1,
                    _ => (),
                }
            }
            return args.len() == 2 && args[0] == args[1];
        }
    }
    false
}

impl Found {
    /// identifies a known finding (known-findings.txt)
    pub fn key(&self) -> String {
        let r = self.v.rule.as_str();
        if ["bind", "let", "onepoint", "sko_ex", "sko_forall", "refl"].contains(&r) && shadowing(&self.defs, &self.proof) {
            return "anchor-shadowing".into();
        }
        if r == "div_simplify" && self_division(&self.v.clause) {
            return "div_simplify:self".into();
        }
        if r == "evaluate" && (self.v.clause.contains("(mod (- ") || self.v.clause.contains("(mod -")) {
            return "evaluate:mod-negative".into();
        }
        r.into()
    }
    pub fn json(&self) -> String {
        use crate::jstr;
        let f = self;
        format!(
            "{{\"key\":{},\"rule\":{},\"step\":{},\"clause\":{},\"premises\":[{}],\"model\":[{}],\"env\":[{}],\"defs\":{},\"proof\":{},\"elaborated\":{},\"subtyping\":{}}}",
            jstr(&f.key()),
            jstr(&f.v.rule),
            jstr(&f.v.step),
            jstr(&f.v.clause),
            f.v.premises.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            f.v.model.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            f.v.env.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            jstr(&f.defs),
            jstr(&f.proof),
            f.elaborated,
            f.subtyping
        )
    }
}

pub fn fuzz(p: &Params) -> Arc<Shared> {
    let mut cases: Vec<Case> = vec![];
    for f in &p.files {
        cases.extend(load(&p.corpus, f));
    }
    let rare = std::fs::read_to_string(format!("{}/rare_rules.rare", p.corpus)).ok();
    let all: HashSet<String>;
    let prules = if p.rules.is_empty() {
        all = cases.iter().flat_map(|c| rules_of(&c.proof)).filter(|r| !crate::judge::HOLES.contains(&r.as_str())).collect();
        &all
    } else {
        &p.rules
    };
    cases.retain(|c| rules_of(&c.proof).iter().any(|r| prules.contains(r)));
    // group by rule under test
    let mut by_rule: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, c) in cases.iter().enumerate() {
        for r in rules_of(&c.proof).into_iter().filter(|r| prules.contains(r)).collect::<HashSet<_>>() {
            by_rule.entry(r).or_default().push(i);
        }
    }
    let groups: Vec<(String, Vec<usize>)> = by_rule.into_iter().collect();
    let dons: Vec<Vec<S>> = groups
        .iter()
        .map(|g| donors(&g.1.iter().map(|&i| &cases[i]).collect::<Vec<_>>()))
        .collect();
    let sh = Arc::new(Shared::default());
    if groups.is_empty() {
        return sh;
    }
    let w = Arc::new(World { cases, groups, dons, rare, rules: prules.clone(), seed: p.seed, out: p.out.clone() });
    let deadline = Instant::now() + Duration::from_secs_f64(p.secs);
    let mut progs: Vec<Prog> = vec![];
    let mut spawned = 0u64;
    let spawn = |progs: &mut Vec<Prog>, spawned: &mut u64| {
        let prog: Prog = Arc::new(Mutex::new((Instant::now(), String::new())));
        progs.push(prog.clone());
        let (w, sh, id) = (w.clone(), sh.clone(), *spawned);
        *spawned += 1;
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || worker(id, w, sh, prog, deadline))
            .unwrap();
    };
    for _ in 0..p.threads {
        spawn(&mut progs, &mut spawned);
    }
    loop {
        std::thread::sleep(Duration::from_millis(50));
        let now = Instant::now();
        let mut i = 0;
        while i < progs.len() {
            let (t, txt) = progs[i].lock().unwrap().clone();
            if t > now + Duration::from_secs(1000) {
                progs.remove(i);
            } else if now.saturating_duration_since(t) > Duration::from_secs(4) {
                sh.stuck.fetch_add(1, Ordering::Relaxed);
                if let Ok(d) = std::env::var("VH_STUCK") {
                    let _ = std::fs::write(format!("{}/{}.alethe", d, spawned), txt);
                }
                progs.remove(i);
                if spawned < 24 && now < deadline {
                    spawn(&mut progs, &mut spawned);
                }
            } else {
                i += 1;
            }
        }
        if progs.is_empty() || now > deadline + Duration::from_secs(5) {
            break;
        }
    }
    sh
}
