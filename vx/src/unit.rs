//! Unit files (.vu): which functions are extracted, and the contracts spliced onto them.
use crate::{print, xform, Db, FnSrc, Report};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::Path;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, FnArg, Pat, Stmt};

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub path: String,
    pub name: Option<String>,
    pub attr: String,
    pub ret: Option<String>,
    pub spec: String,
    pub start: String,
    pub loops: BTreeMap<String, String>, // "LOOP_0", "INLOOP_0", ...
    pub at: Vec<(String, String)>,
    pub subst: Vec<(String, String)>,
    pub lifts: Vec<(String, String, String)>, // name, captured args (exprs), header text
    pub lift_specs: HashMap<String, String>,
    pub mutidx: bool,
    pub boolops: bool,
    pub threads: bool,
    pub resmap: Vec<String>,
    pub hoist: HashMap<String, usize>,
    pub hoist_spec: String,
    pub external: bool,
    pub trusted: bool,
    /// verified as n copies, in each of which only some of the arms of a match are reachable
    pub split: Option<(String, usize)>,
    pub params: Vec<(String, String)>, // type replacement: name -> type
    pub generics: Option<String>,
    pub rename: Vec<(String, String)>,
    pub retty: Option<String>,
    pub implty: Option<String>,
    pub iters: Vec<String>,
    pub partial: bool,
    pub erase: Vec<String>,
}

pub enum Piece {
    Raw(String),
    Type { path: String, keep: Option<Vec<String>>, attr: String },
    Fn(FnSpec),
}

pub struct Unit {
    pub pieces: Vec<Piece>,
    pub paths: HashMap<String, String>,
    pub prologue: String,
    pub partial: bool,
    /// variables that only feed statistics
    pub erase: Vec<String>,
    /// struct fields left out (as `%type .. keep` leaves them out of the declaration)
    pub nofield: Vec<String>,
}

pub fn parse_unit(p: &Path) -> Unit {
    let mut u = Unit {
        pieces: vec![],
        paths: HashMap::new(),
        prologue: String::new(),
        partial: false,
        erase: vec![],
        nofield: vec![],
    };
    parse_into(p, &mut u);
    u
}

fn parse_into(p: &Path, u: &mut Unit) {
    let text = std::fs::read_to_string(p).unwrap_or_else(|_| panic!("unit file {:?}", p));
    let dir = p.parent().unwrap();
    enum Cur {
        None,
        Raw,
        Spec,
        Start,
        Attr,
        Loop(String),
        At(String),
        LiftSpec(String),
        HoistSpec,
    }
    let mut cur = Cur::None;
    let mut buf = String::new();
    fn flush(cur: &mut Cur, buf: &mut String, u: &mut Unit) {
        let t = std::mem::take(buf);
        let f = |u: &mut Unit, g: &mut dyn FnMut(&mut FnSpec)| {
            if let Some(Piece::Fn(f)) = u.pieces.last_mut() {
                g(f)
            } else if !t.trim().is_empty() {
                panic!("contract text outside a %fn: {}", t)
            }
        };
        match cur {
            Cur::None => {}
            Cur::Raw => u.pieces.push(Piece::Raw(t.clone())),
            Cur::Spec => f(u, &mut |x| x.spec += &t),
            Cur::Start => f(u, &mut |x| x.start += &t),
            Cur::Attr => f(u, &mut |x| x.attr += &t),
            Cur::Loop(k) => f(u, &mut |x| *x.loops.entry(k.clone()).or_default() += &t),
            Cur::At(k) => f(u, &mut |x| x.at.push((k.clone(), t.clone()))),
            Cur::LiftSpec(k) => f(u, &mut |x| {
                x.lift_specs.insert(k.clone(), t.clone());
            }),
            Cur::HoistSpec => f(u, &mut |x| x.hoist_spec += &t),
        }
        *cur = Cur::None;
    }
    for line in text.lines() {
        let Some(d) = line.strip_prefix('%') else {
            buf.push_str(line);
            buf.push('\n');
            continue;
        };
        flush(&mut cur, &mut buf, u);
        let (cmd, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
        let rest = rest.trim();
        macro_rules! cf {
            () => {
                match u.pieces.last_mut() {
                    Some(Piece::Fn(f)) => f,
                    _ => panic!("no current %fn for %{}", cmd),
                }
            };
        }
        match cmd {
            "#" | "" => {}
            "include" => parse_into(&dir.join(rest), u),
            "prelude" => {
                let t = std::fs::read_to_string(dir.join(rest)).unwrap_or_else(|_| panic!("prelude {}", rest));
                u.pieces.push(Piece::Raw(t));
            }
            "raw" => cur = Cur::Raw,
            // from here on, out-of-range indexing is modelled as divergence (a panic)
            "partial" => u.partial = true,
            "total" => u.partial = false,
            "erase" => {
                let names = rest.split_whitespace().map(|s| s.to_string());
                if let Some(Piece::Fn(f)) = u.pieces.last_mut() {
                    f.erase.extend(names);
                } else {
                    u.erase.extend(names);
                }
            }
            "nofield" => u.nofield.extend(rest.split_whitespace().map(|s| s.to_string())),
            "prologue" => u.prologue = rest.to_string(),
            "path" => {
                let (a, b) = rest.split_once("=>").unwrap();
                u.paths.insert(a.trim().to_string(), b.trim().to_string());
            }
            "type" => {
                let mut it = rest.split_whitespace();
                let path = it.next().unwrap().to_string();
                let mut keep = None;
                let mut attr = String::new();
                let mut words = it.peekable();
                while let Some(w) = words.next() {
                    if w == "keep" {
                        keep = Some(words.next().unwrap().split(',').map(|s| s.to_string()).collect());
                    } else if w == "attr" {
                        attr = words.by_ref().collect::<Vec<_>>().join(" ");
                    }
                }
                u.pieces.push(Piece::Type { path, keep, attr });
            }
            "fn" => {
                let mut it = rest.split_whitespace();
                let path = it.next().unwrap().to_string();
                let mut f = FnSpec {
                    path,
                    partial: u.partial,
                    ..Default::default()
                };
                while let Some(w) = it.next() {
                    match w {
                        "as" => f.name = Some(it.next().unwrap().to_string()),
                        "trusted" => f.trusted = true,
                        w => panic!("unknown word {} in %fn", w),
                    }
                }
                u.pieces.push(Piece::Fn(f));
                cur = Cur::Spec;
            }
            "rules" => {
                // %rules module SPECNAME: f1 f2 ...
                let (head, fs) = rest.split_once(':').map(|_| rest.rsplit_once(" : ").unwrap()).unwrap();
                for n in fs.split_whitespace() {
                    let (n, newn) = match n.split_once('=') {
                        Some((a, b)) => (a, Some(b.to_string())),
                        None => (n, None),
                    };
                    let f = FnSpec {
                        path: format!("{}::{}", head.trim(), n),
                        name: newn,
                        spec: "  ensures r is Ok ==> rule_sound($0),\n".into(),
                        partial: u.partial,
                        ..Default::default()
                    };
                    u.pieces.push(Piece::Fn(f));
                }
            }
            "spec" => cur = Cur::Spec,
            "start" => cur = Cur::Start,
            "attr" => cur = Cur::Attr,
            "ret" => cf!().ret = Some(rest.to_string()),
            "retty" => cf!().retty = Some(rest.to_string()),
            "loop" => cur = Cur::Loop(format!("LOOP_{}", rest)),
            "inloop" => cur = Cur::Loop(format!("INLOOP_{}", rest)),
            "endloop" => cur = Cur::Loop(format!("ENDLOOP_{}", rest)),
            "before" => cur = Cur::Loop(format!("BEFORE_{}", rest)),
            "after" => cur = Cur::Loop(format!("AFTER_{}", rest)),
            "flat" => cur = Cur::Loop(format!("FLAT_{}", rest)),
            "inflat" => cur = Cur::Loop(format!("INFLAT_{}", rest)),
            "at" => cur = Cur::At(rest.to_string()),
            // after the value (`vx_a`) of a match arm is computed
            "split" => {
                let (a, n) = rest.rsplit_once(' ').expect("split");
                cf!().split = Some((a.trim().to_string(), n.parse().unwrap()));
            }
            "arm" => cur = Cur::At(format!("=>{}", rest)),
            "subst" => {
                let (a, b) = rest.split_once("=>>").expect("=>>");
                cf!().subst.push((a.trim().to_string(), b.trim().to_string()));
            }
            "param" => {
                let (a, b) = rest.split_once(':').unwrap();
                cf!().params.push((a.trim().to_string(), b.trim().to_string()));
            }
            "iter" => cf!().iters.extend(rest.split_whitespace().map(|s| s.to_string())),
            "impl" => cf!().implty = Some(rest.to_string()),
            "generics" => cf!().generics = Some(rest.to_string()),
            "rename" => {
                let (a, b) = rest.split_once("=>").unwrap();
                cf!().rename.push((a.trim().to_string(), b.trim().to_string()));
            }
            "lift" => {
                // %lift name(captures) header: `fn header params typed`
                let (name, r) = rest.split_once('(').unwrap();
                let (caps, hdr) = r.split_once(')').unwrap();
                let n = name.trim().to_string();
                cf!().lifts.push((n.clone(), caps.trim().to_string(), hdr.trim().to_string()));
                cur = Cur::LiftSpec(n);
            }
            "threads" => {
                cf!().threads = true;
                cf!().resmap = rest.split_whitespace().map(|s| s.to_string()).collect();
            }
            "mutidx" => cf!().mutidx = true,
            "boolops" => cf!().boolops = true,
            "hoist" => {
                // %hoist callee argindex ; following text: header (params and contract)
                let mut it = rest.split_whitespace();
                let n = it.next().unwrap().to_string();
                let k = it.next().unwrap().parse().unwrap();
                cf!().hoist.insert(n, k);
                cur = Cur::HoistSpec;
            }
            x => panic!("unknown directive %{}", x),
        }
    }
    flush(&mut cur, &mut buf, u);
}

pub fn emit(u: &Unit, db: &Db, external: &BTreeSet<String>, rep: &mut Report) -> String {
    let mut body = String::new();
    let mut known: BTreeSet<String> = BTreeSet::new();
    for p in &u.pieces {
        match p {
            Piece::Raw(t) => names_in(t, &mut known),
            Piece::Fn(f) => {
                known.insert(f.name.clone().unwrap_or_else(|| f.path.rsplit("::").next().unwrap().to_string()));
            }
            _ => {}
        }
    }
    let mut calls: BTreeMap<String, String> = BTreeMap::new(); // callee -> module of the caller
    for p in &u.pieces {
        match p {
            Piece::Raw(t) => {
                body += "\n// VXRAW\n";
                body += t;
                body += "\n";
            }
            Piece::Type { path, keep, attr } => match db.types.get(path) {
                Some(it) => body += &emit_type(it, keep, attr, u, rep),
                None => rep.missing.push(format!("type {}", path)),
            },
            Piece::Fn(f) => match db.fns.get(&f.path) {
                Some(src) => body += &emit_caught(f, src, u, external, rep, &mut calls),
                // (an inner function is emitted with the function around it)
                None if body.contains(&format!("<- {}\n", f.path)) => {}
                None => rep.missing.push(f.path.clone()),
            },
        }
    }
    // functions called but not listed: extracted without a contract
    let mut todo: Vec<(String, String)> = calls.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    while let Some((c, m)) = todo.pop() {
        if known.contains(&c) {
            continue;
        }
        let path = crate::join(&m, &c);
        if let Some(src) = db.fns.get(&path) {
            known.insert(c.clone());
            let f = FnSpec {
                path: path.clone(),
                partial: u.partial,
                ..Default::default()
            };
            let mut calls2 = BTreeMap::new();
            rep.auto_helpers.push(path);
            body += &emit_caught(&f, src, u, external, rep, &mut calls2);
            todo.extend(calls2);
        }
    }
    format!(
        "#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, unreachable_code, unused_must_use, non_snake_case, unused_labels, unreachable_patterns)]\nuse vstd::prelude::*;\n{}verus! {{\n{}\n}} // verus!\nfn main() {{}}\n",
        if body.contains("pub use sync::Arc;") { "" } else { "use std::sync::Arc;\n" },
        body
    )
}

fn names_in(t: &str, out: &mut BTreeSet<String>) {
    let toks: Vec<&str> = t.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty()).collect();
    for w in toks.windows(2) {
        if w[0] == "fn" || w[0] == "struct" || w[0] == "enum" {
            out.insert(w[1].to_string());
        }
    }
}

fn mk<'a>(u: &'a Unit, rep: &'a mut Report, outer: &str) -> xform::X<'a> {
    xform::X {
        ord: 0,
        src: 0,
        tmp: 0,
        rewrites: &mut rep.rewrites,
        paths: &u.paths,
        unsupported: None,
        hoisted: vec![],
        outer: outer.to_string(),
        lifts: HashMap::new(),
        lifted: vec![],
        n_escaping: 0,
        hoist_calls: HashMap::new(),
        hoisted_closures: vec![],
        drop_generics: false,
        result_collect: false,
    }
}

fn emit_type(it: &syn::Item, keep: &Option<Vec<String>>, attr: &str, u: &Unit, rep: &mut Report) -> String {
    let mut it = it.clone();
    let mut x = mk(u, rep, "");
    match &mut it {
        syn::Item::Struct(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            if let Some(k) = keep {
                if let syn::Fields::Named(n) = &mut s.fields {
                    n.named = n.named.iter().filter(|f| k.contains(&f.ident.as_ref().unwrap().to_string())).cloned().collect();
                }
            }
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
                x.visit_type_mut(&mut f.ty);
            }
        }
        syn::Item::Enum(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                    x.visit_type_mut(&mut f.ty);
                }
            }
        }
        syn::Item::Type(t) => {
            t.attrs.clear();
            t.vis = parse_quote!(pub);
            x.visit_type_mut(&mut t.ty);
        }
        syn::Item::Const(t) => {
            t.attrs.clear();
            t.vis = parse_quote!(pub);
            x.visit_type_mut(&mut t.ty);
        }
        _ => {}
    }
    format!("{}\n{}\n", attr, print::print(it.to_token_stream()))
}

struct Calls<'a>(&'a mut BTreeMap<String, String>, String);
impl<'a, 'b> syn::visit::Visit<'b> for Calls<'a> {
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if p.path.segments.len() == 1 {
                self.0.insert(p.path.segments[0].ident.to_string(), self.1.clone());
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr(&mut self, e: &'b syn::Expr) {
        if let syn::Expr::Verbatim(t) = e {
            // loops are opaque token streams: scan for `ident (`
            scan(t.clone(), self.0, &self.1);
        }
        syn::visit::visit_expr(self, e);
    }
}
fn scan(t: proc_macro2::TokenStream, m: &mut BTreeMap<String, String>, md: &str) {
    use proc_macro2::TokenTree::*;
    let v: Vec<_> = t.into_iter().collect();
    for (i, x) in v.iter().enumerate() {
        if let Group(g) = x {
            if i > 0 && g.delimiter() == proc_macro2::Delimiter::Parenthesis {
                if let Ident(id) = &v[i - 1] {
                    let prev_dot = i >= 2 && matches!(&v[i-2], Punct(p) if p.as_char() == '.' || p.as_char() == ':');
                    if !prev_dot {
                        m.insert(id.to_string(), md.to_string());
                    }
                }
            }
            scan(g.stream(), m, md);
        }
    }
}

struct Renamer<'a>(&'a [(String, String)]);
impl VisitMut for Renamer<'_> {
    fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) {
        for (a, b) in self.0 {
            if i == a.as_str() {
                *i = format_ident!("{}", b);
            }
        }
    }
}

struct WrapArm {
    pat: String,
    ph: syn::Ident,
    left: usize,
    done: bool,
}
impl VisitMut for WrapArm {
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        if self.done {
            return;
        }
        let p = norm(&a.pat.to_token_stream().to_string());
        if p.split('|').any(|x| x == self.pat) {
            if self.left == 0 {
                let (b, ph) = (&a.body, &self.ph);
                *a.body = parse_quote!({ let vx_a = #b; #ph; vx_a });
                self.done = true;
                return;
            }
            self.left -= 1;
        }
        syn::visit_mut::visit_arm_mut(self, a);
    }
}
fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// `a[i]` read outside a place context: `(*a.vx_at(i))`, which diverges out of range; `a[i].push(e)`, `a[i] = e` and
/// `a[i] op= e` go through helpers that diverge as well; with `%mutidx`, so do the calls of mutating methods on `a[i]`
/// and `a[i].f`, and `a[i] += n`, `a[i] -= n` diverge on overflow
struct Partial(usize, bool);
/// `a[i]` -> `(*vx_mut_at(&mut a, i))`, `a[i].f` -> `(*vx_mut_at(&mut a, i)).f`
fn mut_place(e: &mut syn::Expr) -> bool {
    use syn::Expr;
    match e {
        Expr::Index(ix) if !matches!(&*ix.index, Expr::Range(_)) && matches!(&*ix.expr, Expr::Path(_)) => {
            let (b, i) = (&ix.expr, &ix.index);
            *e = parse_quote!((*vx_mut_at(&mut #b, #i)));
            true
        }
        Expr::Field(f) => mut_place(&mut f.base),
        _ => false,
    }
}
impl VisitMut for Partial {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        use syn::Expr;
        let single = |x: &Expr| matches!(x, Expr::Index(i) if !matches!(&*i.index, Expr::Range(_)));
        match e {
            Expr::Assign(a) if single(&a.left) => {
                let Expr::Index(ix) = &mut *a.left else { unreachable!() };
                self.visit_expr_mut(&mut ix.index);
                self.visit_expr_mut(&mut a.right);
                let (b, i, v) = (&ix.expr, &ix.index, &a.right);
                if !single(b) {
                    *e = parse_quote!({ let vx_v = #v; vx_set_at(&mut #b, #i, vx_v); });
                    self.0 += 1;
                }
            }
            Expr::Reference(r) if r.mutability.is_some() => {}
            Expr::Binary(b)
                if self.1
                    && matches!(b.op, syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_))
                    && single(&b.left) =>
            {
                self.visit_expr_mut(&mut b.right);
                let add = matches!(b.op, syn::BinOp::AddAssign(_));
                let mut l = (*b.left).clone();
                if mut_place(&mut l) {
                    let v = &b.right;
                    let Expr::Paren(p) = l else { unreachable!() };
                    let Expr::Unary(u) = &*p.expr else { unreachable!() };
                    let r = &u.expr;
                    *e = if add { parse_quote!(vx_inc_by(#r, #v)) } else { parse_quote!(vx_dec_by(#r, #v)) };
                    self.0 += 1;
                }
            }
            Expr::MethodCall(m)
                if self.1
                    && ["push", "pop", "insert", "clear", "remove", "truncate"].iter().any(|x| m.method == x)
                    && mut_place(&mut (*m.receiver).clone()) =>
            {
                mut_place(&mut m.receiver);
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                self.0 += 1;
            }
            Expr::MethodCall(m) if m.method == "push" && single(&m.receiver) => {
                let Expr::Index(ix) = &mut *m.receiver else { unreachable!() };
                self.visit_expr_mut(&mut ix.index);
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                let (b, i, v) = (&ix.expr, &ix.index, &m.args[0]);
                *e = parse_quote!({ let vx_v = #v; vx_push_at(&mut #b, #i, vx_v); });
                self.0 += 1;
            }
            Expr::Index(ix) if !matches!(&*ix.index, Expr::Range(_)) => {
                self.visit_expr_mut(&mut ix.expr);
                self.visit_expr_mut(&mut ix.index);
                let (b, i) = (&ix.expr, &ix.index);
                *e = parse_quote!((*#b.vx_at(#i)));
                self.0 += 1;
            }
            _ => syn::visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// `a | b`, `a & b`, `a |= b`, `a &= b`, where all operands are Booleans without effects: `||`, `&&`
struct BoolOps(usize);
fn no_effect(e: &syn::Expr) -> bool {
    use syn::Expr;
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => no_effect(&f.base),
        Expr::Paren(p) => no_effect(&p.expr),
        Expr::Unary(u) => no_effect(&u.expr),
        Expr::Binary(b) => no_effect(&b.left) && no_effect(&b.right),
        _ => false,
    }
}
impl VisitMut for BoolOps {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let syn::Expr::Binary(b) = e else { return };
        if !no_effect(&b.left) || !no_effect(&b.right) {
            return;
        }
        let (l, r) = (&b.left, &b.right);
        let n: syn::Expr = match b.op {
            syn::BinOp::BitOr(_) => parse_quote!(((#l) || (#r))),
            syn::BinOp::BitAnd(_) => parse_quote!(((#l) && (#r))),
            syn::BinOp::BitOrAssign(_) => parse_quote!(#l = (#l) || (#r)),
            syn::BinOp::BitAndAssign(_) => parse_quote!(#l = (#l) && (#r)),
            _ => return,
        };
        *e = n;
        self.0 += 1;
    }
}

/// `thread::scope(|s| body)` as the last expression: the body; `builder.spawn_scoped(s, move || body)`: the body is run
/// where the thread is started, and joining gives its result (the threads share nothing mutable but the flag, whose
/// contract does not depend on the order); `x.map(f)` on the listed functions, which give a `Result`
struct Threads<'a>(&'a [String], usize);
impl VisitMut for Threads<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        if let Some(syn::Stmt::Expr(syn::Expr::Call(c), None)) = b.stmts.last() {
            let p = norm(&c.func.to_token_stream().to_string());
            if p.ends_with("thread::scope") && c.args.len() == 1 {
                if let syn::Expr::Closure(k) = &c.args[0] {
                    let body = (*k.body).clone();
                    b.stmts.pop();
                    match body {
                        syn::Expr::Block(x) => b.stmts.extend(x.block.stmts),
                        x => b.stmts.push(syn::Stmt::Expr(x, None)),
                    }
                    self.1 += 1;
                }
            }
        }
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "spawn_scoped" && m.args.len() == 2 {
                if let syn::Expr::Closure(k) = &m.args[1] {
                    let t = norm(&k.body.to_token_stream().to_string());
                    if k.inputs.is_empty() && !t.contains("return") && !t.contains('?') {
                        let b = &k.body;
                        *e = parse_quote!(vx_spawned(#b));
                        self.1 += 1;
                    }
                }
            } else if m.method == "map" && m.args.len() == 1 {
                if let (syn::Expr::MethodCall(r), syn::Expr::Closure(_)) = (&*m.receiver, &m.args[0]) {
                    if self.0.iter().any(|n| r.method == n) {
                        let b = crate::pipe::apply(&m.args[0], parse_quote!(vx_o));
                        *e = parse_quote!((match #r { Ok(vx_o) => Ok(#b), Err(vx_e) => Err(vx_e) }));
                        self.1 += 1;
                    }
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

/// `(a, b) = e` -> `{ let (vx_d0, vx_d1) = e; a = vx_d0; b = vx_d1; }`
struct Destruct;
impl VisitMut for Destruct {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Assign(a) = e {
            if let syn::Expr::Tuple(t) = &*a.left {
                if t.elems.iter().all(|x| matches!(x, syn::Expr::Path(_))) {
                    let ids: Vec<_> = (0..t.elems.len()).map(|i| quote::format_ident!("vx_d{}", i)).collect();
                    let (l, r) = (t.elems.iter(), &a.right);
                    *e = parse_quote!({ let (#(#ids),*) = #r; #(#l = #ids;)* });
                }
            }
        }
    }
}

struct NoField<'a>(&'a [String]);
impl VisitMut for NoField<'_> {
    fn visit_expr_struct_mut(&mut self, s: &mut syn::ExprStruct) {
        s.fields = std::mem::take(&mut s.fields)
            .into_iter()
            .filter(|f| !self.0.contains(&f.member.to_token_stream().to_string()))
            .collect();
        syn::visit_mut::visit_expr_struct_mut(self, s);
    }
}

struct Subst<'a> {
    rules: &'a [(String, String)],
    hits: Vec<usize>,
}
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        let t = norm(&e.to_token_stream().to_string());
        for (k, (a, b)) in self.rules.iter().enumerate() {
            if norm(a) == t {
                *e = syn::parse_str(b).unwrap_or_else(|er| panic!("bad subst {}: {}", b, er));
                self.hits[k] += 1;
                return;
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_type_mut(&mut self, e: &mut syn::Type) {
        let t = norm(&e.to_token_stream().to_string());
        for (k, (a, b)) in self.rules.iter().enumerate() {
            if let Some(a) = a.strip_prefix("type ") {
                if norm(a) == t {
                    *e = syn::parse_str(b).unwrap_or_else(|er| panic!("bad subst {}: {}", b, er));
                    self.hits[k] += 1;
                    return;
                }
            }
        }
        syn::visit_mut::visit_type_mut(self, e);
    }
}

fn emit_fn(f: &FnSpec, src: &FnSrc, u: &Unit, external: &BTreeSet<String>, rep: &mut Report, calls: &mut BTreeMap<String, String>) -> String {
    let name = f.name.clone().unwrap_or_else(|| f.path.rsplit("::").next().unwrap().to_string());
    let label = label_of(f, &name);
    let mut sig = src.sig.clone();
    let mut block = src.block.clone();
    let mut unsupported: Option<String> = None;
    Destruct.visit_block_mut(&mut block);
    if f.threads {
        let mut t = Threads(&f.resmap, 0);
        t.visit_block_mut(&mut block);
        *rep.rewrites.entry("scoped thread run where it is started".into()).or_insert(0) += t.1;
    }
    if !u.erase.is_empty() || !f.erase.is_empty() {
        let names: Vec<String> = u.erase.iter().chain(&f.erase).cloned().collect();
        let mut er = crate::erase::Erase { names: &names, n: 0 };
        er.visit_block_mut(&mut block);
        er.visit_signature_mut(&mut sig);
        if er.n > 0 {
            *rep.rewrites.entry("statistics and timing statement dropped".into()).or_insert(0) += er.n;
        }
    }
    if !u.nofield.is_empty() {
        // `name!part`: not in the functions whose path has this part
        let names: Vec<String> = u
            .nofield
            .iter()
            .filter_map(|n| match n.split_once('!') {
                Some((n, p)) => (!f.path.contains(p)).then(|| n.to_string()),
                None => Some(n.clone()),
            })
            .collect();
        NoField(&names).visit_block_mut(&mut block);
    }
    if f.boolops {
        let mut p = BoolOps(0);
        p.visit_block_mut(&mut block);
        if p.0 > 0 {
            *rep.rewrites.entry("eager `|`, `&` on Booleans as `||`, `&&`".into()).or_insert(0) += p.0;
        }
    }
    // %subst on the source
    if f.partial {
        let n = {
            let mut p = Partial(0, f.mutidx);
            p.visit_block_mut(&mut block);
            p.0
        };
        if n > 0 {
            *rep.rewrites.entry("out-of-range index modelled as divergence".into()).or_insert(0) += n;
        }
    }
    let mut sub = Subst {
        rules: &f.subst,
        hits: vec![0; f.subst.len()],
    };
    sub.visit_block_mut(&mut block);
    sub.visit_signature_mut(&mut sig);
    let nsub: usize = sub.hits.iter().sum();
    if nsub > 0 {
        *rep.rewrites.entry("unit-file substitution".into()).or_insert(0) += nsub;
    }
    if !f.rename.is_empty() {
        Renamer(&f.rename).visit_block_mut(&mut block);
        Renamer(&f.rename).visit_signature_mut(&mut sig);
    }
    let outer = name.clone();
    crate::pipe::ITERS.with(|i| *i.borrow_mut() = f.iters.clone());
    crate::pipe::MUTS.with(|i| i.borrow_mut().clear());
    crate::pipe::OPTFN.with(|i| *i.borrow_mut() = sig.output.to_token_stream().to_string().starts_with("-> Option"));
    let mut x = mk(u, rep, &outer);
    for (n, caps, _) in &f.lifts {
        let caps: Vec<String> = caps.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
        x.lifts.insert(n.clone(), (format!("{}__{}", name, n), caps));
    }
    x.hoist_calls = f.hoist.clone();
    // parameters
    let mut pre: Vec<Stmt> = vec![];
    let mut pnames: Vec<String> = vec![];
    for (k, a) in sig.inputs.iter_mut().enumerate() {
        match a {
            FnArg::Receiver(r) => {
                pnames.push("self".into());
                if r.reference.is_none() && r.mutability.is_some() {
                    r.mutability = None;
                    RenameSelf.visit_block_mut(&mut block);
                    pre.push(parse_quote!(let mut vx_self = self;));
                    x.count("mut self as a local variable");
                }
            }
            FnArg::Typed(t) => {
                t.attrs.clear();
                let id = match &*t.pat {
                    Pat::Ident(i) if i.mutability.is_none() && i.subpat.is_none() => i.ident.clone(),
                    Pat::Ident(i) => {
                        let id = i.ident.clone();
                        pre.push(parse_quote!(let mut #id = #id;));
                        id
                    }
                    p => {
                        let is_rule = t.ty.to_token_stream().to_string().contains("RuleArgs");
                        let id = if is_rule { format_ident!("args") } else { format_ident!("vx_arg{}", k) };
                        pre.push(parse_quote!(let #p = #id;));
                        id
                    }
                };
                pnames.push(id.to_string());
                if let syn::Type::Reference(r) = &*t.ty {
                    let inner = r.elem.to_token_stream().to_string();
                    if r.mutability.is_some() && (inner.starts_with("Vec <") || inner.starts_with('[')) {
                        crate::pipe::MUTS.with(|m| m.borrow_mut().push(id.to_string()));
                    }
                }
                t.pat = parse_quote!(#id);
                if let Some((_, ty)) = f.params.iter().find(|(n, _)| id == n.as_str()) {
                    t.ty = syn::parse_str(ty).expect("param type");
                }
            }
        }
    }
    let mut stmts = pre;
    stmts.append(&mut block.stmts);
    block.stmts = stmts;
    x.visit_block_mut(&mut block);
    x.visit_signature_mut(&mut sig);
    sig.ident = format_ident!("{}", name);
    sig.constness = None;
    if let Some(g) = &f.generics {
        let g: syn::Generics = syn::parse_str(g).expect("generics");
        sig.generics = g;
    }
    if let Some(us) = x.unsupported.take() {
        unsupported = Some(us);
    }
    let hoisted = std::mem::take(&mut x.hoisted);
    let lifted = std::mem::take(&mut x.lifted);
    let hcl = std::mem::take(&mut x.hoisted_closures);
    drop(x);
    let mut shape: Vec<String> = vec![format!("subst{:?} hoisted{} lifted{}", sub.hits, hoisted.len(), lifted.len() + hcl.len())];
    // %at insertion: before the first statement whose text starts with the anchor
    for (anchor, _) in &f.at {
        let (a, nth) = match anchor.rsplit_once('#') {
            Some((a, n)) if n.parse::<usize>().is_ok() => (a, n.parse().unwrap()),
            _ => (anchor.as_str(), 0usize),
        };
        let idx = f.at.iter().position(|(b, _)| b == anchor).unwrap();
        let ph = format_ident!("__VXP_AT_{}", idx);
        let mut left = nth;
        shape.push(idx.to_string());
        let done = match a.strip_prefix("=>") {
            Some(p) => {
                let mut w = WrapArm {
                    pat: norm(p),
                    ph: ph.clone(),
                    left: nth,
                    done: false,
                };
                w.visit_block_mut(&mut block);
                w.done
            }
            None => insert_at(&mut block, &norm(a), &ph, &mut left),
        };
        if !done {
            eprintln!("vx: note: anchor not found in {}: {}", f.path, anchor);
            shape.push("lost".into());
        }
    }
    syn::visit::Visit::visit_block(&mut Calls(calls, src.module.clone()), &block);
    let btext = block.to_token_stream().to_string();
    let mut marks: Vec<String> = vec![];
    for (i, _) in btext.match_indices("__VXP_") {
        let k: String = btext[i + 6..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        if k.starts_with("LOOP_") || k.starts_with("FLAT_") {
            marks.push(k);
        }
    }
    shape.push(marks.join(","));
    rep.shape.insert(label.clone(), shape.join(" "));
    let is_ext = external.contains(&name) || external.contains(&label) || f.trusted || unsupported.is_some();
    let trait_impl = f.implty.as_ref().map_or(false, |t| t.contains(" for "));
    let status = if f.trusted {
        "trusted"
    } else if let Some(us) = &unsupported {
        rep.unsupported.push((f.path.clone(), us.clone()));
        "unsupported"
    } else if is_ext {
        "external"
    } else if f.spec.trim().is_empty() && !trait_impl {
        "no-contract"
    } else {
        "contract"
    };
    rep.functions.push((f.path.clone(), label.clone(), status.into()));
    // signature text
    let mut out = String::new();
    out += &format!("\n// VXFN {} <- {}\n", label, f.path);
    out += &f.attr;
    if is_ext {
        out += "#[verifier::external_body]\n";
    }
    let split = if is_ext { None } else { f.split.clone() };
    if split.is_some() {
        out += "#[verifier::external_body] /* proved case by case below */\n";
    }
    let head = out.len();
    out += "#[verifier::loop_isolation(false)]\n#[verifier::exec_allows_no_decreases_clause]\n";
    if !trait_impl {
        out += "pub ";
    }
    let rname = f.ret.clone().unwrap_or_else(|| "r".into());
    let mut retty = match &sig.output {
        syn::ReturnType::Default => None,
        syn::ReturnType::Type(_, t) => Some(t.to_token_stream()),
    };
    if let Some(t) = &f.retty {
        retty = Some(t.parse().unwrap());
    }
    let mut sig2 = sig.clone();
    sig2.output = syn::ReturnType::Default;
    let wh = sig2.generics.where_clause.take();
    out += print::print(sig2.to_token_stream()).trim();
    if let Some(t) = retty {
        out += &format!(" -> ({}: {})", rname, print::print(t).trim());
    }
    if let Some(w) = wh {
        out += &format!(" {}", print::print(w.to_token_stream()).trim());
    }
    let fill = |t: &str| -> String {
        let mut t = t.to_string();
        for (k, p) in pnames.iter().enumerate() {
            t = t.replace(&format!("${}", k), p);
        }
        t
    };
    out += "\n";
    out += &fill(&f.spec);
    if is_ext {
        out += "{ unimplemented!() }\n";
    } else if let Some((on, n)) = split {
        let header = out[head..].to_string();
        out += "{ unimplemented!() }\n";
        *rep.rewrites.entry("match proved arm by arm".into()).or_insert(0) += 1;
        for k in 0..n {
            let mut b = block.clone();
            let mut c = Chunk { on: norm(&on), k, n, done: false };
            c.visit_block_mut(&mut b);
            if !c.done && k > 0 {
                break;
            }
            let b = print::print(b.to_token_stream());
            let b = b.trim();
            let b = format!("{{\n{}\n{}\n{}", u.prologue, fill(&f.start), &b[1..]);
            out += &format!("\n// VXFN {} <- {}\n{}", label, f.path, f.attr);
            out += &header.replacen(&format!("fn {}", name), &format!("fn {}_vxc{}", name, k), 1);
            out += &fill_placeholders(&b, f, &fill);
            out += "\n";
        }
    } else {
        let b = print::print(block.to_token_stream());
        let b = b.trim();
        // body with the start text
        let b = format!("{{\n{}\n{}\n{}", u.prologue, fill(&f.start), &b[1..]);
        out += &fill_placeholders(&b, f, &fill);
        out += "\n";
    }
    // impl wrapper
    if let Some((ty, gen)) = &src.imp {
        if let Some(t) = &f.implty {
            if t != "none" {
                out = format!("impl{} {{\n{}}}\n", if t.starts_with('<') { t.to_string() } else { format!(" {}", t) }, out);
            }
        } else {
            let mut ty = ty.clone();
            let mut x = mk(u, rep, "");
            x.visit_type_mut(&mut ty);
            let g = gen.to_token_stream();
            out = format!("impl {} {} {{\n{}}}\n", print::print(g).trim(), print::print(ty.to_token_stream()).trim(), out);
        }
    }
    // hoisted inner functions
    for h in hoisted {
        let hs = FnSrc {
            sig: h.sig.clone(),
            block: (*h.block).clone(),
            imp: None,
            module: src.module.clone(),
        };
        let hname = h.sig.ident.to_string();
        let key = format!("{}::{}", f.path, hname);
        let spec = u.pieces.iter().find_map(|p| match p {
            Piece::Fn(g) if g.path == key => Some(g.clone()),
            _ => None,
        });
        let hf = spec.unwrap_or_else(|| FnSpec {
            path: key.clone(),
            name: Some(hname.clone()),
            ..Default::default()
        });
        rep.missing.retain(|m| *m != key);
        out += &emit_fn(&hf, &hs, u, external, rep, calls);
    }
    // lifted closures
    for (n, cl) in lifted {
        let (_, _, hdr) = f.lifts.iter().find(|(a, _, _)| *a == n).unwrap();
        let spec = f.lift_specs.get(&n).cloned().unwrap_or_default();
        let full = format!("{}__{}", name, n);
        out += &emit_closure(&full, hdr, &spec, &cl, f, u, rep, calls, src, external);
    }
    for (n, cl) in hcl {
        // first line of the hoist text: header; rest: contract
        let (hdr, spec) = f.hoist_spec.split_once('\n').unwrap_or((&f.hoist_spec, ""));
        out += &emit_closure(&n, hdr, spec, &cl, f, u, rep, calls, src, external);
    }
    out
}

/// leaves one in n arms of a match reachable
struct Chunk {
    on: String,
    k: usize,
    n: usize,
    done: bool,
}
impl VisitMut for Chunk {
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        if self.done || norm(&m.expr.to_token_stream().to_string()) != self.on {
            return syn::visit_mut::visit_expr_match_mut(self, m);
        }
        self.done = true;
        for (i, a) in m.arms.iter_mut().enumerate() {
            if i % self.n != self.k {
                a.body = parse_quote!(vx_never());
            }
        }
    }
}

pub fn label_of(f: &FnSpec, name: &str) -> String {
    let _ = f;
    name.to_string()
}

/// a function the extraction cannot handle is reported and left out; the rest of the unit is still emitted
fn emit_caught(f: &FnSpec, src: &FnSrc, u: &Unit, external: &BTreeSet<String>, rep: &mut Report, calls: &mut BTreeMap<String, String>) -> String {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| emit_fn(f, src, u, external, rep, calls)));
    match r {
        Ok(s) => s,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            eprintln!("vx: {}: {}", f.path, m);
            rep.unsupported.push((f.path.clone(), m));
            String::new()
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn emit_closure(
    full: &str,
    hdr: &str,
    spec: &str,
    cl: &syn::ExprClosure,
    f: &FnSpec,
    u: &Unit,
    rep: &mut Report,
    calls: &mut BTreeMap<String, String>,
    src: &FnSrc,
    external: &BTreeSet<String>,
) -> String {
    // hdr: `(params) -> ret`; the closure's own parameter names are bound from $-names vx_c0, vx_c1, ...
    let sig: syn::Signature = syn::parse_str(&format!("fn {}{}", full, hdr.trim())).unwrap_or_else(|e| panic!("header {}: {}", hdr, e));
    let body = &cl.body;
    let mut stmts: Vec<Stmt> = vec![];
    let np = sig.inputs.len();
    let nc = cl.inputs.len();
    for (k, p) in cl.inputs.iter().enumerate() {
        let q = match p {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        if let Some(FnArg::Typed(t)) = sig.inputs.iter().nth(np - nc + k) {
            let a = &t.pat;
            if a.to_token_stream().to_string() != q.to_token_stream().to_string() {
                stmts.push(parse_quote!(let #q = #a;));
            }
        }
    }
    let block: syn::Block = parse_quote!({ #(#stmts)* #body });
    let mut g = FnSpec {
        path: format!("{}::{}", f.path, full.rsplit("__").next().unwrap()),
        name: Some(full.to_string()),
        spec: spec.to_string(),
        ..Default::default()
    };
    // loop annotations of closures: written in the unit as a separate %fn with path <f.path>::<closure>
    if let Some(h) = u.pieces.iter().find_map(|p| match p {
        Piece::Fn(h) if h.path == g.path => Some(h.clone()),
        _ => None,
    }) {
        let nm = g.name.clone();
        g = h;
        g.name = nm;
        if g.spec.trim().is_empty() {
            g.spec = spec.to_string();
        }
        rep.missing.retain(|m| *m != g.path);
    }
    let s = FnSrc {
        sig,
        block,
        imp: None,
        module: src.module.clone(),
    };
    emit_fn(&g, &s, u, external, rep, calls)
}

fn insert_at(b: &mut syn::Block, anchor: &str, ph: &proc_macro2::Ident, left: &mut usize) -> bool {
    struct V<'a> {
        anchor: &'a str,
        ph: &'a proc_macro2::Ident,
        left: &'a mut usize,
        done: bool,
    }
    impl VisitMut for V<'_> {
        fn visit_block_mut(&mut self, b: &mut syn::Block) {
            if self.done {
                return;
            }
            let mut k = 0;
            while k < b.stmts.len() {
                let t = norm(&b.stmts[k].to_token_stream().to_string());
                if t.starts_with(self.anchor) {
                    if *self.left == 0 {
                        let ph = self.ph;
                        b.stmts.insert(k, parse_quote!(#ph;));
                        self.done = true;
                        return;
                    }
                    *self.left -= 1;
                }
                self.visit_stmt_mut(&mut b.stmts[k]);
                if self.done {
                    return;
                }
                k += 1;
            }
        }
        fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
            if let syn::Expr::Verbatim(t) = e {
                // `{ PH [label] loop PH {..} PH }`: patch textually by reparsing groups
                let nt = patch(t.clone(), self);
                *e = syn::Expr::Verbatim(nt);
                return;
            }
            syn::visit_mut::visit_expr_mut(self, e);
        }
    }
    fn patch(t: proc_macro2::TokenStream, v: &mut V) -> proc_macro2::TokenStream {
        use proc_macro2::TokenTree;
        let mut out = proc_macro2::TokenStream::new();
        for x in t {
            match x {
                TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace && !v.done => {
                    let gt: proc_macro2::TokenStream = TokenTree::Group(g.clone()).into();
                    if let Ok(mut b) = syn::parse2::<syn::Block>(gt) {
                        v.visit_block_mut(&mut b);
                        out.extend(b.to_token_stream());
                    } else {
                        let inner = patch(g.stream(), v);
                        out.extend(quote!({ #inner }));
                    }
                }
                x => out.extend(std::iter::once(x)),
            }
        }
        out
    }
    let mut v = V { anchor, ph, left, done: false };
    v.visit_block_mut(b);
    v.done
}

fn fill_placeholders(b: &str, f: &FnSpec, fill: &dyn Fn(&str) -> String) -> String {
    let mut out = String::new();
    let mut rest = b;
    while let Some(p) = rest.find("__VXP_") {
        out += &rest[..p];
        let tail = &rest[p + 6..];
        let end = tail.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(tail.len());
        let key = &tail[..end];
        let mut after = &tail[end..];
        let is_loop = key.starts_with("LOOP_") || key.starts_with("FLAT_");
        let tr = after.trim_start();
        if let Some(t) = tr.strip_prefix(';') {
            after = t;
        }
        if let Some(k) = key.strip_prefix("AT_") {
            let k: usize = k.parse().unwrap();
            out += &fill(&f.at[k].1);
        } else {
            let txt = f.loops.get(key).map(|t| fill(t)).unwrap_or_default();
            if is_loop {
                // the mark is the first statement of the loop body: the clauses go before the brace
                let o = out.trim_end().strip_suffix('{').expect("loop mark").trim_end().to_string();
                out = o;
                let mut inv = txt.clone();
                let (i, n) = if let Some(k) = key.strip_prefix("LOOP_") {
                    (format!("vx_i{}", k), format!("vx_n{}", k))
                } else {
                    // the flat loop is the latest `vx_jK < vx_mK`
                    let p = out.rfind("vx_j").unwrap_or(0);
                    let w: String = out[p..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    (w.clone(), w.replace("vx_j", "vx_m"))
                };
                let auto = out.ends_with(&format!("{} < {}", i, n));
                let e = i.replace("vx_i", "vx_e");
                let early = out.ends_with(&format!("{} && {} < {}", e, i, n));
                if auto {
                    inv = inv.replace("@j", &i);
                    let base = format!("0 <= {} <= {},", i, n);
                    if inv.contains("invariant_except_break") {
                        inv = inv.replacen("invariant_except_break", &format!("invariant {}\n invariant_except_break", base), 1);
                    } else if inv.contains("invariant") {
                        inv = inv.replacen("invariant", &format!("invariant {}", base), 1);
                    } else {
                        inv = format!("invariant {}\n{}", base, inv);
                    }
                    if !inv.contains("decreases") {
                        if early {
                            inv += &format!("\n decreases ({} - {}) + (if {} {{ 1int }} else {{ 0int }})", n, i, e);
                        } else {
                            inv += &format!("\n decreases {} - {}", n, i);
                        }
                    }
                }
                out += "\n";
                out += &inv;
                out += "\n{";
            } else {
                out += &txt;
            }
        }
        rest = after;
    }
    out += rest;
    out
}

/// `self` as the local variable `vx_self`
struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.path.is_ident("self") {
            *p = parse_quote!(vx_self);
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}
