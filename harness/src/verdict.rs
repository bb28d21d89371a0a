//! Bounded search: does the verdict (valid / holey / invalid) of whole proofs match an independent
//! count of what the proof contains? Proofs are generated with known good, bad and hole steps.
use crate::jstr;
use crate::rng::Rng;
use carcara::{checker, parser};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict {
    Valid,
    Holey,
    Invalid,
}

#[derive(Clone, Debug)]
pub struct Gen {
    pub problem: String,
    pub proof: String,
    pub ignore_unknown: bool,
    pub elaborated: bool,
    pub allowed: Vec<String>,
    pub expected: Verdict,
    pub why: String,
}

struct B<'a> {
    r: &'a mut Rng,
    out: Vec<String>,
    n: usize,
    bad: Vec<String>,
    holey: bool,
    empty: bool,
    ignore: bool,
    allowed: Vec<String>,
    premises: Vec<String>,
    p_bad: usize,
    p_hole: usize,
}

fn neg(l: &str) -> String {
    format!("(not {})", l)
}
fn cl(c: &[String]) -> String {
    if c.is_empty() {
        "(cl)".into()
    } else {
        format!("(cl {})", c.join(" "))
    }
}
type Fact = (String, Vec<String>);

impl<'a> B<'a> {
    fn atom(&mut self) -> String {
        format!("p{}", self.r.below(4))
    }
    fn lit(&mut self) -> String {
        let a = self.atom();
        if self.r.chance(1, 2) {
            neg(&a)
        } else {
            a
        }
    }
    fn id(&mut self, prefix: &str, k: &str) -> String {
        self.n += 1;
        if prefix.is_empty() {
            format!("{}{}", k, self.n)
        } else {
            format!("{}.{}{}", prefix, k, self.n)
        }
    }
    /// one step; returns its fact
    fn step(&mut self, prefix: &str, facts: &[Fact], want: Option<Vec<String>>) -> Fact {
        let id = self.id(prefix, "t");
        let broken = self.r.chance(1, self.p_bad);
        let a = self.atom();
        let b = format!("p{}", (a[1..].parse::<usize>().unwrap() + 1) % 4);
        let hole = self.r.chance(1, self.p_hole);
        if hole || want.is_some() {
            let c = want.unwrap_or_else(|| (0..self.r.below(3)).map(|_| self.lit()).collect());
            let rule = match self.r.below(7) {
                0..=2 => "hole",
                3 => "lia_generic",
                4 => "rule_foo",
                5 => "rule_bar",
                _ => "Hole",
            };
            let prem = if facts.is_empty() || self.r.chance(1, 2) { String::new() } else { format!(" :premises ({})", self.r.pick(facts).0) };
            if rule == "rule_foo" || rule == "rule_bar" || rule == "Hole" {
                self.holey = true;
                if !self.ignore && !self.allowed.iter().any(|x| x == rule) {
                    self.bad.push(format!("{}: unknown rule", id));
                }
            } else {
                self.holey = true;
            }
            self.out.push(format!("(step {} {} :rule {}{})", id, cl(&c), rule, prem));
            return (id, c);
        }
        let allow = |s: &mut Self, rule: &str, ok: bool| {
            if s.allowed.iter().any(|x| x == rule) {
                s.holey = true;
            } else if !ok {
                s.bad.push(format!("{}: wrong {}", id, rule));
            }
        };
        match self.r.below(6) {
            5 => {
                allow(self, "refl", !broken);
                let t = format!("(= (or {} p9) (or {} p9))", a, if broken { &b } else { &a });
                self.out.push(format!("(step {} (cl {}) :rule refl)", id, t));
                (id, vec![t])
            }
            0 => {
                allow(self, "not_not", !broken);
                let c = vec![neg(&neg(&neg(&a))), if broken { b } else { a }];
                self.out.push(format!("(step {} {} :rule not_not)", id, cl(&c)));
                (id, c)
            }
            1 => {
                allow(self, "true", !broken);
                let c = vec![if broken { "false".to_string() } else { "true".to_string() }];
                self.out.push(format!("(step {} {} :rule true)", id, cl(&c)));
                (id, c)
            }
            2 => {
                allow(self, "equiv_pos1", !broken);
                let c = if broken {
                    vec![format!("(not (= {} {}))", a, b), a, b]
                } else {
                    vec![format!("(not (= {} {}))", a, b), a, neg(&b)]
                };
                self.out.push(format!("(step {} {} :rule equiv_pos1)", id, cl(&c)));
                (id, c)
            }
            3 if !facts.is_empty() => {
                // weakening
                let f = self.r.pick(facts).clone();
                let l = self.lit();
                let mut c = f.1.clone();
                let drop = broken && !c.is_empty();
                if drop {
                    c[0] = format!("(or {} {})", c[0], l);
                } else {
                    c.push(l);
                }
                allow(self, "weakening", !drop);
                self.out.push(format!("(step {} {} :rule weakening :premises ({}))", id, cl(&c), f.0));
                (id, c)
            }
            _ => {
                // unit resolution
                let units: Vec<&Fact> = facts.iter().filter(|f| f.1.len() == 1).collect();
                let pair = units.iter().find_map(|f| units.iter().find(|g| g.1[0] == neg(&f.1[0])).map(|g| (f.0.clone(), g.0.clone(), f.1[0].clone())));
                match pair {
                    Some((x, y, l)) => {
                        allow(self, "resolution", true);
                        self.out.push(format!("(step {} (cl) :rule resolution :premises ({} {}) :args ({} true))", id, x, y, l));
                        (id, vec![])
                    }
                    None => {
                        allow(self, "or_neg", !broken);
                        let c = vec![format!("(or {} {})", a, b), neg(if broken { "p9" } else { &a })];
                        self.out.push(format!("(step {} {} :rule or_neg :args (0))", id, cl(&c)));
                        (id, c)
                    }
                }
            }
        }
    }
    fn block(&mut self, prefix: &str, outer: &[Fact], depth: usize, top: bool) -> (Vec<Fact>, Vec<Fact>) {
        let mut facts: Vec<Fact> = outer.to_vec();
        let mut assumed = vec![];
        let na = if top { self.r.below(4) } else { self.r.below(3) };
        for _ in 0..na {
            let id = self.id(prefix, "h");
            let t = if top && !self.r.chance(1, self.p_bad) && !self.premises.is_empty() {
                let ps = self.premises.clone();
                self.r.pick(&ps).clone()
            } else {
                self.lit()
            };
            if top && !self.premises.contains(&t) {
                self.bad.push(format!("{}: not a premise", id));
            }
            self.out.push(format!("(assume {} {})", id, t));
            facts.push((id.clone(), vec![t.clone()]));
            assumed.push((id, vec![t]));
        }
        let n = self.r.below(4);
        for _ in 0..n {
            if depth < 3 && self.r.chance(2, 5) {
                let f = self.subproof(prefix, &facts, depth + 1);
                if top && f.1.is_empty() {
                    self.empty = true;
                }
                facts.push(f);
            } else {
                let f = self.step(prefix, &facts, None);
                if top && f.1.is_empty() {
                    self.empty = true;
                }
                facts.push(f);
            }
        }
        (facts, assumed)
    }
    /// a subproof whose context renames a variable; the variables have the names of constants
    fn renaming(&mut self, prefix: &str) -> Fact {
        let id = self.id(prefix, "t");
        let i = self.r.below(4);
        let (x, y, z) = (format!("p{}", i), format!("p{}", (i + 1) % 4), format!("p{}", (i + 2) % 4));
        self.out.push(format!("(anchor :step {} :args (({} Bool) (:= ({} Bool) {})))", id, y, x, y));
        let n = 1 + self.r.below(2);
        for _ in 0..n {
            let sid = self.id(&id, "t");
            let w = if self.r.chance(1, self.p_bad) { self.bad.push(format!("{}: wrong refl", sid)); &z } else { &y };
            self.out.push(format!("(step {} (cl (= (or {} {}) (or {} {}))) :rule refl)", sid, x, z, w, z));
        }
        let sid = self.id(&id, "t");
        self.out.push(format!("(step {} (cl (= (or {} p9) (or {} p9))) :rule refl)", sid, x, y));
        let w = if self.r.chance(1, self.p_bad) { self.bad.push(format!("{}: wrong bind", id)); &z } else { &y };
        let t = format!("(= (forall (({} Bool)) (or {} p9)) (forall (({} Bool)) (or {} p9)))", x, x, y, w);
        self.out.push(format!("(step {} (cl {}) :rule bind)", id, t));
        (id, vec![t])
    }
    fn subproof(&mut self, prefix: &str, facts: &[Fact], depth: usize) -> Fact {
        if self.r.chance(1, 5) {
            return self.renaming(prefix);
        }
        let id = self.id(prefix, "t");
        self.out.push(format!("(anchor :step {})", id));
        let (inner, assumed) = self.block(&id, facts, depth, false);
        // the last command before the end must conclude a unit clause
        let last = if self.r.chance(1, 2) && inner.len() > facts.len() + assumed.len() && inner.last().unwrap().1.len() == 1 {
            inner.last().unwrap().clone()
        } else {
            let sid = self.id(&id, "t");
            let a = self.atom();
            let (c, bad) = if self.r.chance(1, self.p_bad) { ("false".to_string(), true) } else { ("true".to_string(), false) };
            let _ = a;
            if self.allowed.iter().any(|x| x == "true") {
                self.holey = true;
            } else if bad {
                self.bad.push(format!("{}: wrong true", sid));
            }
            self.out.push(format!("(step {} (cl {}) :rule true)", sid, c));
            (sid, vec![c])
        };
        match self.r.below(8) {
            0 => {
                // another rule ends the subproof
                let rule = *self.r.pick(&["hole", "lia_generic", "rule_foo"]);
                let c: Vec<String> = (0..self.r.below(2)).map(|_| self.lit()).collect();
                self.holey = true;
                let skip = self.allowed.iter().any(|x| x == rule);
                if rule == "rule_foo" {
                    if !skip && !self.ignore {
                        self.bad.push(format!("{}: unknown rule", id));
                    }
                } else if !skip && !assumed.is_empty() {
                    self.bad.push(format!("{}: not discharged", id));
                }
                self.out.push(format!("(step {} {} :rule {})", id, cl(&c), rule));
                (id, c)
            }
            k => {
                let mut dis: Vec<Fact> = assumed.clone();
                let skip = self.allowed.iter().any(|x| x == "subproof");
                if skip {
                    self.holey = true;
                }
                if k == 1 && !dis.is_empty() && self.r.chance(1, self.p_bad) {
                    let i = self.r.below(dis.len());
                    dis.remove(i);
                    if !skip {
                        self.bad.push(format!("{}: not discharged", id));
                    }
                }
                // assumptions of the enclosing scopes may be discharged too
                let outer: Vec<&Fact> = facts.iter().filter(|f| f.0.rsplit('.').next().unwrap().starts_with('h')).collect();
                if !outer.is_empty() && self.r.chance(1, if dis.len() < assumed.len() { 2 } else { 6 }) {
                    let f = (*self.r.pick(&outer)).clone();
                    let i = self.r.below(dis.len() + 1);
                    dis.insert(i, f);
                }
                let mut c: Vec<String> = dis.iter().map(|d| neg(&d.1[0])).collect();
                c.push(last.1[0].clone());
                if self.r.chance(1, 2 * self.p_bad) {
                    let i = self.r.below(c.len());
                    c[i] = format!("(and {} p0)", c[i]);
                    if !skip {
                        self.bad.push(format!("{}: wrong conclusion", id));
                    }
                }
                let d = if dis.is_empty() { String::new() } else { format!(" :discharge ({})", dis.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" ")) };
                self.out.push(format!("(step {} {} :rule subproof{})", id, cl(&c), d));
                (id, c)
            }
        }
    }
}

pub fn generate(r: &mut Rng) -> Gen {
    let mut premises: Vec<String> = vec![];
    for _ in 0..r.below(5) {
        let a = format!("p{}", r.below(4));
        let l = match r.below(4) {
            0 => neg(&a),
            1 => format!("(or {} p{})", a, r.below(4)),
            2 => format!("(= {} true)", a),
            _ => a,
        };
        if !premises.contains(&l) {
            premises.push(l);
        }
    }
    let allowed: Vec<String> = ["rule_foo", "rule_bar", "true", "resolution", "hole", "subproof", "not_not", "weakening", "Hole"]
        .iter()
        .filter(|_| r.chance(1, 12))
        .map(|s| s.to_string())
        .collect();
    let ignore = r.chance(1, 3);
    let elaborated = r.chance(1, 5);
    let (p_bad, p_hole) = match r.below(4) {
        0 => (1_000_000, 1_000_000),
        1 => (1_000_000, 8),
        2 => (30, 1_000_000),
        _ => (30, 12),
    };
    let mut b = B { r, out: vec![], n: 0, bad: vec![], holey: false, empty: false, ignore, allowed: allowed.clone(), premises: premises.clone(), p_bad, p_hole };
    let (facts, _) = b.block("", &[], 0, true);
    if !b.empty && !b.r.chance(1, 12) {
        // reach the empty clause: by resolution if there are complementary premises, or with a hole
        let comp = b.premises.iter().find_map(|x| b.premises.iter().find(|y| **y == neg(x)).map(|y| (x.clone(), y.clone())));
        match comp {
            Some((x, y)) => {
                let i = b.id("", "h");
                b.out.push(format!("(assume {} {})", i, x));
                let j = b.id("", "h");
                b.out.push(format!("(assume {} {})", j, y));
                let k = b.id("", "t");
                if b.allowed.iter().any(|x| x == "resolution") {
                    b.holey = true;
                }
                b.out.push(format!("(step {} (cl) :rule resolution :premises ({} {}) :args ({} true))", k, i, j, x));
            }
            None => {
                b.step("", &facts, Some(vec![]));
            }
        }
        b.empty = true;
        if b.r.chance(1, 4) {
            b.step("", &facts, None);
        }
    }
    let expected = if !b.bad.is_empty() || !b.empty {
        Verdict::Invalid
    } else if b.holey {
        Verdict::Holey
    } else {
        Verdict::Valid
    };
    let mut why = b.bad.join("; ");
    if !b.empty {
        why += " no empty clause";
    }
    let proof = b.out.join("\n") + "\n";
    let mut problem = String::from("(set-logic QF_UF)\n");
    for i in [0, 1, 2, 3, 9] {
        problem += &format!("(declare-fun p{} () Bool)\n", i);
    }
    for p in &premises {
        problem += &format!("(assert {})\n", p);
    }
    problem += "(check-sat)\n";
    Gen { problem, proof, ignore_unknown: ignore, elaborated, allowed, expected, why }
}

fn config(g: &Gen) -> checker::Config {
    let mut c = checker::Config::new().elaborated(g.elaborated).ignore_unknown_rules(g.ignore_unknown);
    c.allowed_rules = g.allowed.iter().cloned().collect();
    c
}

pub fn sequential(g: &Gen, stats: bool) -> Option<Verdict> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        carcara::check(g.problem.as_bytes(), g.proof.as_bytes(), None, parser::Config::default(), config(g), stats)
    }));
    class(r)
}

pub fn parallel(g: &Gen, threads: usize) -> Option<Verdict> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        carcara::check_parallel(g.problem.as_bytes(), g.proof.as_bytes(), None, parser::Config::default(), config(g), false, threads, 8 << 20)
    }));
    class(r)
}

fn class(r: std::thread::Result<Result<bool, carcara::Error>>) -> Option<Verdict> {
    match r {
        Err(_) => None,
        Ok(Ok(true)) => Some(Verdict::Holey),
        Ok(Ok(false)) => Some(Verdict::Valid),
        Ok(Err(carcara::Error::Checker { .. })) | Ok(Err(carcara::Error::DoesNotReachEmptyClause)) => Some(Verdict::Invalid),
        // anything else is a malformed proof, that is, a fault of the generator
        Ok(Err(e)) => {
            if std::env::var("VH_DEBUG").is_ok() {
                eprintln!("{}", e);
            }
            None
        }
    }
}

/// runs the command line tool, if it was built
pub fn cli(g: &Gen, bin: &str, dir: &std::path::Path, threads: usize) -> Option<Verdict> {
    let (a, b) = (dir.join("x.alethe"), dir.join("x.smt2"));
    std::fs::write(&a, &g.proof).ok()?;
    std::fs::write(&b, &g.problem).ok()?;
    let mut c = std::process::Command::new(bin);
    c.arg("check").arg("--log").arg("off").arg("-u").arg(threads.to_string());
    if g.ignore_unknown {
        c.arg("--ignore-unknown-rules");
    }
    if g.elaborated {
        c.arg("--check-granularity").arg("elaborated");
    }
    if !g.allowed.is_empty() {
        c.arg("--allowed-rules");
        for r in &g.allowed {
            c.arg(r);
        }
        c.arg("--");
    }
    c.arg(&a).arg(&b);
    let o = c.output().ok()?;
    let s = String::from_utf8_lossy(&o.stdout);
    match (s.trim(), o.status.success()) {
        ("valid", true) => Some(Verdict::Valid),
        ("holey", true) => Some(Verdict::Holey),
        ("invalid", false) => Some(Verdict::Invalid),
        _ => {
            if std::env::var("VH_DEBUG").is_ok() {
                eprintln!("{:?}\n{}\n{}", o.status, s, String::from_utf8_lossy(&o.stderr));
            }
            None
        }
    }
}

pub struct Params {
    pub secs: f64,
    pub seed: u64,
    pub threads: usize,
    /// what is compared: "seq", "par" or "cli"
    pub mode: Vec<String>,
    pub bin: Option<String>,
    pub out: Option<String>,
}

pub fn run(p: &Params) -> String {
    let runs = Arc::new(AtomicU64::new(0));
    let okc = Arc::new([AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)]);
    let panics = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Vec<String>>> = Default::default();
    let samples: Arc<Mutex<Vec<String>>> = Default::default();
    let stop = Arc::new(AtomicBool::new(false));
    let deadline = Instant::now() + Duration::from_secs_f64(p.secs);
    let mut hs = vec![];
    for th in 0..p.threads {
        let (runs, okc, panics, found, samples, stop) = (runs.clone(), okc.clone(), panics.clone(), found.clone(), samples.clone(), stop.clone());
        let (seed, mode, bin, outf) = (p.seed, p.mode.clone(), p.bin.clone(), p.out.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut r = Rng(seed.wrapping_mul(99991).wrapping_add(th as u64 * 7919 + 5));
                    let dir = std::env::temp_dir().join(format!("vh_verdict_{}_{}", std::process::id(), th));
                    let _ = std::fs::create_dir_all(&dir);
                    while Instant::now() < deadline && !stop.load(Ordering::Relaxed) {
                        let g = generate(&mut r);
                        let m = r.pick(&mode).clone();
                        let (got, base, how) = match m.as_str() {
                            "par" => {
                                let k = 2 + r.below(6);
                                (parallel(&g, k), sequential(&g, false), format!("check_parallel with {} threads", k))
                            }
                            "parx" => {
                                let k = 1 + r.below(7);
                                (parallel(&g, k), Some(g.expected), format!("check_parallel with {} threads", k))
                            }
                            "cli" => match &bin {
                                Some(b) => {
                                    let k = 1 + r.below(3);
                                    (cli(&g, b, &dir, k), Some(g.expected), format!("carcara check -u {}", k))
                                }
                                None => continue,
                            },
                            _ => (sequential(&g, false), Some(g.expected), "check".to_string()),
                        };
                        runs.fetch_add(1, Ordering::Relaxed);
                        match (got, base) {
                            (x, Some(e)) if x != Some(e) && (x.is_some() || m == "par") => {
                                let x = x.map_or("Crash".to_string(), |x| format!("{:?}", x));
                                let rule = if m == "par" { "parallel" } else { "verdict" };
                                let js = format!(
                                    "{{\"key\":{},\"rule\":{},\"how\":{},\"expected\":{},\"got\":{},\"because\":{},\"allowed_rules\":{},\"ignore_unknown_rules\":{},\"elaborated\":{},\"defs\":{},\"proof\":{}}}",
                                    jstr(rule), jstr(rule), jstr(&how), jstr(&format!("{:?}", e)), jstr(&x), jstr(&g.why),
                                    jstr(&g.allowed.join(",")), g.ignore_unknown, g.elaborated, jstr(&g.problem), jstr(&g.proof)
                                );
                                if let Some(o) = &outf {
                                    use std::io::Write;
                                    if let Ok(mut h) = std::fs::OpenOptions::new().create(true).append(true).open(o) {
                                        let _ = writeln!(h, "{}", js);
                                    }
                                }
                                let mut f = found.lock().unwrap();
                                f.push(js);
                                f.sort_by_key(|s| s.len());
                                f.truncate(3);
                                if f.len() >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            (Some(x), Some(_)) => {
                                okc[x as usize].fetch_add(1, Ordering::Relaxed);
                                if th == 0 && r.chance(1, 300) {
                                    let mut s = samples.lock().unwrap();
                                    if s.len() < 3 {
                                        s.push(g.proof.clone());
                                    }
                                }
                            }
                            _ => {
                                panics.fetch_add(1, Ordering::Relaxed);
                            }
                        }
                    }
                    let _ = std::fs::remove_dir_all(&dir);
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let n = |i: usize| okc[i].load(Ordering::Relaxed);
    let f = found.lock().unwrap();
    let s = samples.lock().unwrap();
    format!(
        "{{\"runs\":{},\"accepted\":{},\"distinct_accepted\":{},\"panics\":{},\"stuck\":0,\"rules\":{{\"valid\":[{},0],\"holey\":[{},0],\"invalid\":[{},0]}},\"samples\":[{}],\"found\":[{}]}}",
        runs.load(Ordering::Relaxed),
        n(0) + n(1),
        n(0) + n(1),
        panics.load(Ordering::Relaxed),
        n(0),
        n(1),
        n(2),
        s.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
        f.join(",")
    )
}
