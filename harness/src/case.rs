//! Corpus cases, random terms, mutations.
use crate::rng::Rng;
use crate::sexp::*;

#[derive(Clone)]
pub struct Case {
    pub file: String,
    pub func: String,
    pub name: String,
    pub defs: String,
    pub decls: Decls,
    pub proof: Vec<S>,
    pub expected: bool,
}

#[derive(Clone, Default, Debug)]
pub struct Decls {
    pub funs: Vec<(String, Vec<S>, S)>,
    pub sorts: Vec<String>,
}

pub fn decls(defs: &str) -> Decls {
    let mut d = Decls::default();
    for c in parse_all(defs).unwrap_or_default() {
        let Some(l) = c.list() else { continue };
        match c.head() {
            Some("declare-fun") if l.len() == 4 => {
                if let (Some(n), Some(a)) = (l[1].atom(), l[2].list()) {
                    d.funs.push((n.to_string(), a.clone(), l[3].clone()));
                }
            }
            Some("declare-const") if l.len() == 3 => {
                if let Some(n) = l[1].atom() {
                    d.funs.push((n.to_string(), vec![], l[2].clone()));
                }
            }
            Some("declare-sort") if l.len() >= 2 => {
                if let Some(n) = l[1].atom() {
                    d.sorts.push(n.to_string());
                }
            }
            _ => {}
        }
    }
    d
}

pub fn load(dir: &str, file: &str) -> Vec<Case> {
    let mut text = std::fs::read_to_string(format!("{}/{}.txt", dir, file)).unwrap_or_default();
    text += &std::fs::read_to_string(format!("{}/{}_more.txt", dir, file)).unwrap_or_default();
    let mut out = vec![];
    for rec in text.split("\u{1e}\n") {
        let f: Vec<&str> = rec.split('\u{1f}').collect();
        if f.len() != 5 {
            continue;
        }
        let Some(proof) = parse_all(f[3]) else { continue };
        out.push(Case {
            file: file.into(),
            func: f[0].into(),
            name: f[1].into(),
            defs: f[2].into(),
            decls: decls(f[2]),
            proof,
            expected: f[4] == "1",
        });
        // the same case with the anchor variables renamed apart from everything else
        let c = out.last().unwrap();
        let mut names = vec![];
        for x in &c.proof {
            if x.head() == Some("anchor") {
                anchor_names(x, &mut names);
            }
        }
        names.sort();
        names.dedup();
        if !names.is_empty() {
            let mut v = Case::clone(c);
            v.proof = v.proof.iter().map(|x| rename(x, &names)).collect();
            v.name += " (fresh anchor variables)";
            out.push(v);
        }
    }
    out
}

pub fn anchor_names(a: &S, out: &mut Vec<String>) {
    let Some(l) = a.list() else { return };
    for w in l.windows(2) {
        if w[0].atom() == Some(":args") {
            for x in w[1].list().unwrap_or(&vec![]) {
                let Some(y) = x.list() else { continue };
                let n = if y.first().and_then(|h| h.atom()) == Some(":=") { y.get(1).map(|z| z.list().and_then(|z| z.first()).unwrap_or(z)) } else { y.first() };
                if let Some(n) = n.and_then(|n| n.atom()) {
                    out.push(n.to_string());
                }
            }
        }
    }
}
fn rename(x: &S, names: &[String]) -> S {
    match x {
        S::A(a) if names.contains(a) => S::A(format!("{}_fr", a)),
        S::A(_) => x.clone(),
        S::L(v) => S::L(v.iter().map(|y| rename(y, names)).collect()),
    }
}
/// an anchor variable has the name of a declared symbol or of an enclosing anchor's variable
pub fn shadowing(defs: &str, proof: &str) -> bool {
    let declared: Vec<String> = decls(defs).funs.into_iter().map(|f| f.0).collect();
    let mut open: Vec<(String, Vec<String>)> = vec![];
    for c in parse_all(proof).unwrap_or_default() {
        let Some(l) = c.list() else { continue };
        if c.head() == Some("anchor") {
            let id = l.windows(2).find(|w| w[0].atom() == Some(":step")).and_then(|w| w[1].atom()).unwrap_or("").to_string();
            let mut ns = vec![];
            anchor_names(&c, &mut ns);
            for (i, n) in ns.iter().enumerate() {
                if declared.contains(n) || open.iter().any(|o| o.1.contains(n)) || ns[..i].contains(n) {
                    return true;
                }
            }
            open.push((id, ns));
        } else if c.head() == Some("step") && open.last().is_some_and(|o| Some(o.0.as_str()) == l.get(1).and_then(|x| x.atom())) {
            open.pop();
        }
    }
    false
}

pub fn rules_of(proof: &[S]) -> Vec<String> {
    let mut r = vec![];
    for c in proof {
        if let Some(l) = c.list() {
            for w in l.windows(2) {
                if w[0].atom() == Some(":rule") {
                    if let Some(x) = w[1].atom() {
                        r.push(x.to_string());
                    }
                }
            }
        }
    }
    r
}

pub fn text(proof: &[S]) -> String {
    let mut s = String::new();
    for c in proof {
        s += &c.to_string();
        s.push('\n');
    }
    s
}

// ---------------------------------------------------------------- random terms
pub struct Gen<'a> {
    pub d: &'a Decls,
    pub locals: Vec<(String, S)>,
    pub wide: bool,
}

fn is_bv(s: &S) -> Option<usize> {
    let l = s.list()?;
    if l.len() == 3 && l[0].atom() == Some("_") && l[1].atom() == Some("BitVec") {
        l[2].atom()?.parse().ok()
    } else {
        None
    }
}
fn bvlit(r: &mut Rng, w: usize) -> S {
    let mut s = String::from("#b");
    let k = r.below(5);
    for i in 0..w {
        s.push(match k {
            0 => '0',
            1 => '1',
            2 => {
                if i == 0 {
                    '1'
                } else {
                    '0'
                }
            }
            _ => {
                if r.chance(1, 2) {
                    '1'
                } else {
                    '0'
                }
            }
        });
    }
    S::A(s)
}
pub fn op(h: &str, a: Vec<S>) -> S {
    let mut v = vec![S::a(h)];
    v.extend(a);
    S::L(v)
}

impl<'a> Gen<'a> {
    pub fn leaf(&self, r: &mut Rng, sort: &S) -> S {
        let mut c: Vec<S> = vec![];
        for (n, a, s) in &self.d.funs {
            if a.is_empty() && s == sort {
                c.push(S::a(n));
            }
        }
        for (n, s) in &self.locals {
            if s == sort {
                c.push(S::a(n));
            }
        }
        if !c.is_empty() && r.chance(2, 3) {
            return r.pick(&c).clone();
        }
        match sort.atom() {
            Some("Bool") => S::a(if r.chance(1, 2) { "true" } else { "false" }),
            Some("Int") => {
                let k = match r.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => r.below(1000),
                    _ => r.below(8),
                };
                let t = S::A(k.to_string());
                if r.chance(1, 4) {
                    op("-", vec![t])
                } else {
                    t
                }
            }
            Some("Real") => {
                let t = match r.below(6) {
                    0 => S::a("0.0"),
                    1 => S::a("1.0"),
                    2 => S::a("0.5"),
                    3 => op("/", vec![S::A(format!("{}.0", r.below(7))), S::A(format!("{}.0", 1 + r.below(5)))]),
                    _ => S::A(format!("{}.{}", r.below(6), [0, 0, 5, 25][r.below(4)])),
                };
                if r.chance(1, 4) {
                    op("-", vec![t])
                } else {
                    t
                }
            }
            Some("String") => {
                let n = r.below(4);
                let s: String = (0..n).map(|_| *r.pick(&['a', 'b', 'c', '0', '1'])).collect();
                S::A(format!("\"{}\"", s))
            }
            _ => {
                if let Some(w) = is_bv(sort) {
                    return bvlit(r, w);
                }
                if !c.is_empty() {
                    return r.pick(&c).clone();
                }
                S::a("true")
            }
        }
    }
    pub fn term(&self, r: &mut Rng, sort: &S, depth: usize) -> S {
        if depth == 0 || r.chance(1, 4) {
            return self.leaf(r, sort);
        }
        // declared functions
        let fs: Vec<_> = self.d.funs.iter().filter(|f| !f.1.is_empty() && &f.2 == sort).collect();
        if !fs.is_empty() && r.chance(1, 4) {
            let f = *r.pick(&fs);
            return op(&f.0, f.1.iter().map(|s| self.term(r, s, depth - 1)).collect());
        }
        let d = depth - 1;
        let b = S::a("Bool");
        let many = |r: &mut Rng, s: &S, lo: usize, hi: usize| -> Vec<S> {
            let n = lo + r.below(hi - lo + 1);
            (0..n).map(|_| self.term(r, s, d)).collect()
        };
        match sort.atom() {
            Some("Bool") => match r.below(12) {
                0 | 1 => op("not", vec![self.term(r, &b, d)]),
                2 => op("and", many(r, &b, 2, 3)),
                3 => op("or", many(r, &b, 2, 3)),
                4 => op("=>", many(r, &b, 2, 2)),
                5 => op("xor", many(r, &b, 2, 2)),
                6 => op("=", many(r, &b, 2, 2)),
                7 => op("ite", many(r, &b, 3, 3)),
                _ => {
                    let s = self.some_sort(r);
                    match s.atom() {
                        Some("Int") | Some("Real") if r.chance(2, 3) => {
                            let o = *r.pick(&["<", "<=", ">", ">=", "="]);
                            op(o, many(r, &s, 2, 2))
                        }
                        Some("Bool") => op("=", many(r, &b, 2, 2)),
                        _ => {
                            if is_bv(&s).is_some() && r.chance(2, 3) {
                                let o = *r.pick(&["bvult", "bvule", "bvslt", "bvsle", "bvugt", "bvuge", "bvsgt", "bvsge"]);
                                return op(o, many(r, &s, 2, 2));
                            }
                            if s.atom() == Some("String") && r.chance(1, 2) {
                                let o = *r.pick(&["str.prefixof", "str.suffixof", "str.contains", "str.<", "str.<="]);
                                return op(o, many(r, &s, 2, 2));
                            }
                            let o = *r.pick(&["=", "=", "distinct"]);
                            op(o, many(r, &s, 2, if o == "=" { 2 } else { 3 }))
                        }
                    }
                }
            },
            Some("Int") => match r.below(9) {
                0 | 1 => op("+", many(r, sort, 2, 3)),
                2 => op("*", many(r, sort, 2, 2)),
                3 => op("-", many(r, sort, 1, 2)),
                4 => op("ite", vec![self.term(r, &b, d), self.term(r, sort, d), self.term(r, sort, d)]),
                5 if self.wide => op("div", many(r, sort, 2, 2)),
                6 if self.wide => op("mod", many(r, sort, 2, 2)),
                7 if self.wide => op("abs", many(r, sort, 1, 1)),
                _ => self.leaf(r, sort),
            },
            Some("Real") => match r.below(7) {
                0 | 1 => op("+", many(r, sort, 2, 3)),
                2 => op("*", many(r, sort, 2, 2)),
                3 => op("-", many(r, sort, 1, 2)),
                4 => op("ite", vec![self.term(r, &b, d), self.term(r, sort, d), self.term(r, sort, d)]),
                5 if self.wide => op("/", many(r, sort, 2, 2)),
                _ => self.leaf(r, sort),
            },
            Some("String") => match r.below(8) {
                0..=3 => op("str.++", many(r, sort, 2, 3)),
                4 if self.wide => op("str.replace", many(r, sort, 3, 3)),
                5 if self.wide => op("str.from_int", vec![self.term(r, &S::a("Int"), d)]),
                6 => op("str.at", vec![self.term(r, sort, d), self.term(r, &S::a("Int"), 0)]),
                7 => op("str.substr", vec![self.term(r, sort, d), self.term(r, &S::a("Int"), 0), self.term(r, &S::a("Int"), 0)]),
                _ => self.leaf(r, sort),
            },
            _ => {
                if is_bv(sort).is_some() {
                    let o = *r.pick(&[
                        "bvadd", "bvmul", "bvand", "bvor", "bvxor", "bvsub", "bvnot", "bvneg", "bvudiv", "bvurem", "bvshl", "bvlshr",
                        "bvashr", "bvsdiv", "bvsrem", "bvsmod", "bvnand", "bvnor", "bvxnor",
                    ]);
                    let n = if o == "bvnot" || o == "bvneg" { 1 } else { 2 };
                    return op(o, many(r, sort, n, n));
                }
                if r.chance(1, 4) {
                    return op("ite", vec![self.term(r, &b, d), self.term(r, sort, d), self.term(r, sort, d)]);
                }
                self.leaf(r, sort)
            }
        }
    }
    pub fn some_sort(&self, r: &mut Rng) -> S {
        if self.d.funs.is_empty() {
            return S::a(*r.pick(&["Bool", "Int", "Real"]));
        }
        let f = r.pick(&self.d.funs);
        f.2.clone()
    }
}

const BOOL: &[&str] = &[
    "not", "and", "or", "=>", "xor", "=", "distinct", "<", "<=", ">", ">=", "forall", "exists", "true", "false", "is_int", "bvult",
    "bvule", "bvslt", "bvsle", "bvugt", "bvuge", "bvsgt", "bvsge", "str.prefixof", "str.suffixof", "str.contains", "str.in_re",
    "str.<", "str.<=", "str.is_digit",
];

/// crude sort guess; wrong guesses are rejected by the parser
pub fn guess(t: &S, d: &Decls) -> S {
    match t {
        S::A(s) => {
            if s.starts_with('"') {
                return S::a("String");
            }
            if s == "true" || s == "false" {
                return S::a("Bool");
            }
            if let Some(b) = s.strip_prefix("#b") {
                return S::L(vec![S::a("_"), S::a("BitVec"), S::A(b.len().to_string())]);
            }
            if let Some(b) = s.strip_prefix("#x") {
                return S::L(vec![S::a("_"), S::a("BitVec"), S::A((4 * b.len()).to_string())]);
            }
            if s.chars().next().map_or(false, |c| c.is_ascii_digit()) {
                return S::a(if s.contains('.') || s.contains('/') { "Real" } else { "Int" });
            }
            for (n, a, r) in &d.funs {
                if n == s && a.is_empty() {
                    return r.clone();
                }
            }
            S::a("?")
        }
        S::L(v) => {
            let Some(h) = t.head() else { return S::a("?") };
            if BOOL.contains(&h) {
                return S::a("Bool");
            }
            match h {
                "+" | "-" | "*" | "ite" | "abs" if v.len() > 1 => guess(v.last().unwrap(), d),
                "/" | "to_real" => S::a("Real"),
                "div" | "mod" | "str.len" | "to_int" | "str.indexof" | "str.to_int" | "str.to_code" | "ubv_to_int" => S::a("Int"),
                "str.++" | "str.at" | "str.substr" | "str.replace" | "str.from_int" => S::a("String"),
                "bvadd" | "bvmul" | "bvand" | "bvor" | "bvxor" | "bvnot" | "bvneg" | "bvsub" if v.len() > 1 => guess(&v[1], d),
                _ => {
                    for (n, _, r) in &d.funs {
                        if n == h {
                            return r.clone();
                        }
                    }
                    S::a("?")
                }
            }
        }
    }
}

const FAMS: &[&[&str]] = &[
    &["and", "or", "xor", "=>", "="],
    &["<", "<=", ">", ">=", "=", "distinct"],
    &["+", "-", "*", "/"],
    &["div", "mod", "+", "*", "-"],
    &["forall", "exists", "choice", "lambda"],
    &["true", "false"],
    &["bvand", "bvor", "bvxor", "bvxnor", "bvnand", "bvnor", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod", "bvshl", "bvlshr", "bvashr"],
    &["bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge", "=", "bvcomp"],
    &["str.prefixof", "str.suffixof", "str.contains", "=", "str.<", "str.<="],
    &["re.*", "re.+", "re.opt", "re.comp"],
    &["re.++", "re.union", "re.inter", "re.diff"],
    &["extract", "@bit_of", "@int_of", "zero_extend", "sign_extend", "rotate_left", "rotate_right", "repeat"],
    &["Int", "Real", "Bool"],
    &["bvnot", "bvneg"],
];

/// positions (node index within the command list) that are inside terms (clause literals and rule args)
fn term_slots(c: &S) -> Vec<usize> {
    // returns indices of children of the command holding terms: clause (index of `(cl ...)`), :args, assume term
    let mut out = vec![];
    if let Some(l) = c.list() {
        match c.head() {
            Some("assume") if l.len() == 3 => out.push(2),
            Some("step") => {
                for (i, x) in l.iter().enumerate() {
                    if x.head() == Some("cl") && l[i - 1].atom() != Some(":premises") {
                        out.push(i);
                    }
                    if i > 0 && l[i - 1].atom() == Some(":args") {
                        out.push(i);
                    }
                }
            }
            Some("anchor") => {
                for i in 1..l.len() {
                    if l[i - 1].atom() == Some(":args") {
                        out.push(i);
                    }
                }
            }
            _ => {}
        }
    }
    out
}

pub fn mutate(r: &mut Rng, c: &Case, proof: &mut Vec<S>, donors: &[S]) {
    if proof.is_empty() {
        return;
    }
    // prefer the last command (the rule under test), sometimes others
    let ci = if r.chance(1, 2) { proof.len() - 1 } else { r.below(proof.len()) };
    let ci = if proof[ci].head().is_none() { 0 } else { ci };
    let slots = term_slots(&proof[ci]);
    let g = Gen { d: &c.decls, locals: vec![], wide: r.chance(1, 3) };
    // command-level mutations
    if slots.is_empty() || r.chance(1, 10) {
        match r.below(6) {
            0 if proof.len() > 1 => {
                let k = r.below(proof.len());
                proof.remove(k);
            }
            1 if proof.len() > 1 => {
                let k = r.below(proof.len() - 1);
                proof.swap(k, k + 1);
            }
            _ => {
                // premises / discharge list edits
                if let Some(l) = proof[ci].list_mut() {
                    for i in 1..l.len() {
                        if matches!(l[i - 1].atom(), Some(":premises") | Some(":args") | Some(":discharge")) {
                            if let Some(p) = l[i].list_mut() {
                                if !p.is_empty() {
                                    list_edit(r, p, 0);
                                }
                            }
                        }
                    }
                }
            }
        }
        return;
    }
    let si = *r.pick(&slots);
    let anchor = proof[ci].head() == Some("anchor");
    // consistent renaming / replacement over the whole proof
    if r.chance(1, 10) {
        let mut subs = vec![];
        proof[ci].list().unwrap()[si].subterms(&mut subs);
        let from = (*r.pick(&subs)).clone();
        if from.head() != Some("cl") && from.atom() != Some("cl") {
            let to = if r.chance(1, 3) {
                (*r.pick(&subs)).clone()
            } else {
                let s = guess(&from, &c.decls);
                if s.atom() == Some("?") {
                    (*r.pick(&subs)).clone()
                } else {
                    g.term(r, &s, 2)
                }
            };
            if to.head() != Some("cl") && to.atom() != Some("cl") {
                let whole = r.chance(3, 4);
                for (k, cmd) in proof.iter_mut().enumerate() {
                    if whole || k == ci {
                        for s in term_slots(cmd) {
                            let l = cmd.list_mut().unwrap();
                            l[s] = l[s].replace(&from, &to);
                        }
                    }
                }
            }
        }
        return;
    }
    let slot = &mut proof[ci].list_mut().unwrap()[si];
    let total = slot.count();
    let node = if total > 1 { 1 + r.below(total - 1) } else { 0 };
    let all: Vec<S> = {
        let mut v = vec![];
        slot.subterms(&mut v);
        v.into_iter().filter(|x| x.head() != Some("cl") && x.atom() != Some("cl")).cloned().collect()
    };
    let Some(t) = slot.nth(node).cloned() else { return };
    let is_cl = t.atom() == Some("cl") || t.head() == Some("cl");
    let choice = r.below(13);
    let new = match choice {
        0 if !is_cl && !anchor => Some(op("not", vec![t.clone()])),
        1 if t.head() == Some("not") => t.list().and_then(|l| l.get(1).cloned()),
        2 | 3 if !is_cl => {
            let s = guess(&t, &c.decls);
            if s.atom() == Some("?") {
                None
            } else {
                let d = r.below(3);
                Some(g.term(r, &s, d))
            }
        }
        4 if !is_cl && !all.is_empty() => Some(r.pick(&all).clone()),
        5 if !is_cl && !donors.is_empty() => {
            let d = r.pick(donors);
            Some(d.clone())
        }
        6 | 7 => {
            if let Some(a) = t.atom() {
                let mut res = None;
                if a.strip_prefix('-').unwrap_or(a).chars().next().map_or(false, |c| c.is_ascii_digit()) {
                    res = Some(num_edit(r, a));
                } else if a.starts_with("#b") && a.len() > 2 {
                    let mut b: Vec<u8> = a.bytes().collect();
                    let k = 2 + r.below(b.len() - 2);
                    b[k] ^= 1;
                    res = Some(S::A(String::from_utf8(b).unwrap()));
                } else if a.starts_with('"') {
                    res = Some(str_edit(r, a));
                } else {
                    let f: Vec<_> = FAMS.iter().filter(|f| f.contains(&a)).collect();
                    if !f.is_empty() {
                        let f = r.pick(&f);
                        res = Some(S::a(*r.pick(f)));
                    } else {
                        // another declared symbol
                        if let Some(x) = c.decls.funs.iter().find(|x| x.0 == a) {
                            let cs: Vec<_> = c.decls.funs.iter().filter(|y| y.1 == x.1 && y.2 == x.2).collect();
                            res = Some(S::a(&r.pick(&cs).0));
                        } else if !all.is_empty() {
                            let atoms: Vec<_> = all.iter().filter(|x| x.atom().is_some()).collect();
                            if !atoms.is_empty() {
                                res = Some((*r.pick(&atoms)).clone());
                            }
                        }
                    }
                }
                res
            } else {
                None
            }
        }
        8 if t.head() == Some("=") && t.list().unwrap().len() == 3 => {
            let l = t.list().unwrap();
            Some(op("=", vec![l[2].clone(), l[1].clone()]))
        }
        _ => None,
    };
    if let Some(n) = new {
        if let Some(x) = slot.nth_mut(node) {
            *x = n;
        }
        return;
    }
    // list edits on some list node
    for _ in 0..10 {
        let node = r.below(total);
        if let Some(S::L(v)) = slot.nth_mut(node) {
            if v.is_empty() {
                continue;
            }
            let keep = if v[0].atom().is_some() && !v[0].atom().unwrap().starts_with(|c: char| c.is_ascii_digit()) { 1 } else { 0 };
            let keep = if si_is_args(node, si) { 0 } else { keep };
            if v.len() > keep {
                if r.chance(1, 5) && v.len() < 9 {
                    let k = keep + r.below(v.len() - keep + 1);
                    let s = guess(v.last().unwrap(), &c.decls);
                    if s.atom() != Some("?") {
                        let t = g.term(r, &s, 1);
                        v.insert(k, t);
                        return;
                    }
                }
                list_edit(r, v, keep);
                return;
            } else if v[0].atom() == Some("cl") {
                let t = g.term(r, &S::a("Bool"), 1);
                v.push(t);
                return;
            }
        }
    }
}
fn si_is_args(_node: usize, _si: usize) -> bool {
    false
}

fn list_edit(r: &mut Rng, v: &mut Vec<S>, keep: usize) {
    let n = v.len() - keep;
    if n == 0 {
        return;
    }
    match r.below(5) {
        0 => {
            let k = keep + r.below(n);
            v.remove(k);
        }
        1 => {
            let k = keep + r.below(n);
            let j = keep + r.below(n + 1);
            let x = v[k].clone();
            v.insert(j, x);
        }
        2 if n >= 2 => {
            let i = keep + r.below(n);
            let j = keep + r.below(n);
            v.swap(i, j);
        }
        3 if n >= 2 => {
            let i = keep + r.below(n);
            let j = keep + r.below(n);
            v[i] = v[j].clone();
        }
        _ => {
            if n >= 2 {
                v[keep..].reverse();
            }
        }
    }
}

fn num_edit(r: &mut Rng, a: &str) -> S {
    if r.chance(1, 8) {
        // GMP-style negative literal
        return match a.strip_prefix('-') {
            Some(b) => S::a(b),
            None => S::A(format!("-{}", a)),
        };
    }
    let a = a.strip_prefix('-').unwrap_or(a);
    let t = match r.below(8) {
        0 => "0".to_string(),
        1 => "1".to_string(),
        2 => "2".to_string(),
        _ => match a.split('.').next().unwrap().parse::<u64>() {
            Ok(n) => match r.below(5) {
                0 => (n.wrapping_add(1)).to_string(),
                1 => (n.saturating_sub(1)).to_string(),
                2 => (n.wrapping_mul(2)).to_string(),
                3 => (n / 2).to_string(),
                _ => r.below(12).to_string(),
            },
            Err(_) => "3".into(),
        },
    };
    if a.contains('.') {
        let f = *r.pick(&["0", "0", "5", "25", "75"]);
        S::A(format!("{}.{}", t, f))
    } else {
        S::A(t)
    }
}
fn str_edit(r: &mut Rng, a: &str) -> S {
    let mut c: Vec<char> = a[1..a.len() - 1].chars().collect();
    match r.below(4) {
        0 if !c.is_empty() => {
            let k = r.below(c.len());
            c.remove(k);
        }
        1 if !c.is_empty() => {
            let k = r.below(c.len());
            c.truncate(k);
        }
        2 if !c.is_empty() => {
            let k = r.below(c.len());
            c[k] = *r.pick(&['a', 'b', 'c', '1']);
        }
        _ => {
            let k = r.below(c.len() + 1);
            c.insert(k, *r.pick(&['a', 'b', 'c', '1']));
        }
    }
    S::A(format!("\"{}\"", c.into_iter().collect::<String>()))
}

/// all declared-sort sub-terms of a case, to be spliced into others with the same declarations
pub fn donors(cases: &[&Case]) -> Vec<S> {
    let mut out: Vec<S> = vec![];
    let mut seen = std::collections::HashSet::new();
    for c in cases {
        for cmd in &c.proof {
            for s in term_slots(cmd) {
                let mut v = vec![];
                cmd.list().unwrap()[s].subterms(&mut v);
                for x in v {
                    if x.head() != Some("cl") && x.atom() != Some("cl") && x.count() < 30 && seen.insert(x.to_string()) {
                        out.push(x.clone());
                    }
                }
            }
        }
    }
    out
}

/// quoted terms of an error message
pub fn quoted(msg: &str) -> Vec<S> {
    let mut out = vec![];
    let parts: Vec<&str> = msg.split('\'').collect();
    let mut i = 1;
    while i < parts.len() {
        if let Some(mut v) = parse_all(parts[i]) {
            if v.len() == 1 {
                out.push(v.pop().unwrap());
            }
        }
        i += 2;
    }
    out
}

/// try to repair the failing step as the error message suggests
pub fn error_guided(r: &mut Rng, proof: &mut [S], step: &str, msg: &str) -> bool {
    let q = quoted(msg);
    if q.len() < 2 {
        return false;
    }
    let i = r.below(q.len());
    let j = (i + 1 + r.below(q.len() - 1)) % q.len();
    let (from, to) = (&q[i], &q[j]);
    for cmd in proof.iter_mut() {
        if cmd.list().and_then(|l| l.get(1)).and_then(|x| x.atom()) == Some(step) {
            for s in term_slots(cmd) {
                let l = cmd.list_mut().unwrap();
                // replace one random occurrence or all
                let mut occ = vec![];
                let n = l[s].count();
                for k in 0..n {
                    if l[s].nth(k) == Some(from) {
                        occ.push(k);
                    }
                }
                if !occ.is_empty() {
                    let k = *r.pick(&occ);
                    if let Some(x) = l[s].nth_mut(k) {
                        *x = to.clone();
                    }
                    return true;
                }
            }
        }
    }
    false
}
