//! The mechanical rewriting of a function body into Verus' subset.
use crate::{pipe, slices};
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt, Type};

pub struct X<'a> {
    pub ord: usize,
    pub src: usize,
    pub tmp: usize,
    pub rewrites: &'a mut BTreeMap<String, usize>,
    pub paths: &'a HashMap<String, String>,
    pub unsupported: Option<String>,
    /// functions defined inside the body, hoisted out
    pub hoisted: Vec<syn::ItemFn>,
    pub outer: String,
    /// closures bound by `let name = |..|`, lifted: name -> (new function name, captured args)
    pub lifts: HashMap<String, (String, Vec<String>)>,
    pub lifted: Vec<(String, syn::ExprClosure)>,
    /// how many closures that leave early were lifted so far
    pub n_escaping: usize,
    /// closures passed as arguments that are hoisted into functions: (callee name, arg index)
    pub hoist_calls: HashMap<String, usize>,
    pub hoisted_closures: Vec<(String, syn::ExprClosure)>,
    pub drop_generics: bool,
    pub result_collect: bool,
}

impl X<'_> {
    /// `let [a, b] = [x, y]` and `let [a, b] = [x, y].map(|v| e)` as a tuple
    fn array_let(&mut self, l: &mut syn::Local) {
        let (Pat::Slice(ps), Some(init)) = (&l.pat, &l.init) else {
            return;
        };
        if ps
            .elems
            .iter()
            .any(|p| matches!(p, Pat::Rest(_)) || matches!(p, Pat::Ident(i) if i.subpat.is_some()))
        {
            return;
        }
        let (arr, f) = match &*init.expr {
            Expr::Array(a) => (a, None),
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => match (&*m.receiver, &m.args[0]) {
                (Expr::Array(a), Expr::Closure(c)) if c.inputs.len() == 1 => (a, Some(c)),
                _ => return,
            },
            _ => return,
        };
        if arr.elems.len() != ps.elems.len() || arr.elems.len() < 2 {
            return;
        }
        let es: Vec<Expr> = arr
            .elems
            .iter()
            .map(|e| match f {
                None => e.clone(),
                Some(c) => {
                    let (p, b) = (&c.inputs[0], &c.body);
                    parse_quote!({ let #p = #e; #b })
                }
            })
            .collect();
        let ps = &ps.elems;
        let (p, e): (Pat, Expr) = (parse_quote!((#ps)), parse_quote!((#(#es),*)));
        l.pat = p;
        *l.init.as_mut().unwrap().expr = e;
        self.count("array of known length as a tuple");
    }
    pub fn count(&mut self, k: &str) {
        *self.rewrites.entry(k.to_string()).or_insert(0) += 1;
    }
    fn unsup(&mut self, s: &str) {
        if self.unsupported.is_none() {
            self.unsupported = Some(s.to_string());
        }
    }
    pub fn fresh(&mut self, p: &str) -> syn::Ident {
        self.tmp += 1;
        format_ident!("{}{}", p, self.tmp)
    }

    pub fn flatten_path(&self, p: &mut syn::Path) {
        let full = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        if let Some(to) = self.paths.get(&full) {
            let np: syn::Path = syn::parse_str(to).unwrap();
            let args = p.segments.last().unwrap().arguments.clone();
            let mut np = np;
            if np.segments.last().unwrap().arguments.is_none() {
                np.segments.last_mut().unwrap().arguments = args;
            }
            *p = np;
            return;
        }
        let n = p.segments.len();
        if n < 2 {
            p.leading_colon = None;
            return;
        }
        let idents: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        const PRIM: &[&str] = &["usize", "u32", "u64", "u8", "i32", "i64", "isize", "bool", "str", "u128", "i128", "char"];
        let upper = |s: &str| s.chars().next().map_or(false, |c| c.is_uppercase());
        let mut start = n - 1;
        for (k, s) in idents.iter().enumerate() {
            if upper(s) || PRIM.contains(&s.as_str()) {
                start = k;
                break;
            }
        }
        let segs: Vec<syn::PathSegment> = p.segments.iter().skip(start).cloned().collect();
        p.leading_colon = None;
        p.segments = segs.into_iter().collect();
    }

    fn desugar_ref_pats(&mut self, p: &mut Pat, post: &mut Vec<Stmt>) {
        match p {
            Pat::Reference(r) => {
                let id = self.fresh("vx_p");
                let mut inner = (*r.pat).clone();
                *p = parse_quote!(#id);
                self.desugar_ref_pats(&mut inner, post);
                post.push(parse_quote!(let #inner = vx_own(#id);));
            }
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|e| self.desugar_ref_pats(e, post)),
            Pat::Paren(t) => self.desugar_ref_pats(&mut t.pat, post),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|e| self.desugar_ref_pats(e, post)),
            _ => {}
        }
    }

    fn closure_simplify(&mut self, c: &mut Expr) {
        // `|&x| ..` => `|vx_p| { let x = *vx_p; .. }`
        if let Expr::Closure(cl) = c {
            let mut post = vec![];
            for p in cl.inputs.iter_mut() {
                let mut q = p.clone();
                if let Pat::Type(t) = &q {
                    q = (*t.pat).clone();
                }
                self.desugar_ref_pats(&mut q, &mut post);
                *p = q;
            }
            if !post.is_empty() {
                let b = &cl.body;
                cl.body = parse_quote!({ #(#post)* #b });
            }
        }
    }
}

impl X<'_> {
    fn lift_chain(&mut self, m: &mut syn::ExprMethodCall) {
        if let Expr::MethodCall(r) = &mut *m.receiver {
            self.lift_chain(r);
        }
        if pipe::ADAPTERS.contains(&m.method.to_string().as_str()) && m.args.len() == 1 {
            if let Expr::Closure(c) = &m.args[0] {
                let key = format!("cl{}", self.n_escaping);
                if has_escape(&c.body) && self.lifts.contains_key(&key) {
                    self.n_escaping += 1;
                    self.count("closure lifted to a function");
                    self.lifted.push((key.clone(), c.clone()));
                    let (nf, caps) = self.lifts[&key].clone();
                    let nf = format_ident!("{}", nf);
                    let caps: Vec<Expr> = caps.iter().map(|c| syn::parse_str(c).unwrap()).collect();
                    m.args[0] = parse_quote!(|vx_c| #nf(#(#caps,)* vx_c));
                }
            }
        }
    }
}

fn has_escape(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// `E?` inside an iterator closure: leaves the element loop (the sink decides what that means)
struct TryOut {
    /// None: `?` on an Option in a find_map closure; Some(e): Result collect with success flag `e`
    flag: Option<syn::Ident>,
    option: bool,
    bad: bool,
    depth: usize,
}
impl VisitMut for TryOut {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) => return,
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
            Expr::Return(r) => {
                let err = match &r.expr {
                    Some(x) => match &**x {
                        Expr::Call(c) => c.func.to_token_stream().to_string() == "Err",
                        _ => false,
                    },
                    None => false,
                };
                match &self.flag {
                    Some(f) if err && !self.option && self.depth == 0 => {
                        *e = parse_quote!({ #f = false; continue; });
                        return;
                    }
                    _ => self.bad = true,
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            if self.depth > 0 {
                self.bad = true;
            }
            let x = &t.expr;
            *e = match (&self.flag, self.option) {
                (Some(f), false) => {
                    parse_quote!((match #x { Ok(vx_v) => vx_v, Err(_) => { #f = false; continue; } }))
                }
                (Some(f), true) => {
                    parse_quote!((match #x { Some(vx_v) => vx_v, None => { #f = false; continue; } }))
                }
                (None, _) => parse_quote!((match #x { Some(vx_v) => vx_v, None => { continue; } })),
            };
        }
    }
}
fn try_out(c: &mut syn::ExprClosure, sink: &str, ord: usize) -> bool {
    let e = format_ident!("vx_e{}", ord);
    let mut t = match sink {
        "Result" => TryOut {
            flag: Some(e),
            option: false,
            bad: false,
            depth: 0,
        },
        "Option" => TryOut {
            flag: Some(e),
            option: true,
            bad: false,
            depth: 0,
        },
        "find_map" => TryOut {
            flag: None,
            option: true,
            bad: false,
            depth: 0,
        },
        _ => return false,
    };
    t.visit_expr_mut(&mut c.body);
    !t.bad
}

fn collect_type_of(m: &syn::ExprMethodCall) -> Option<String> {
    let t = m.turbofish.as_ref()?;
    match t.args.first()? {
        syn::GenericArgument::Type(t) => type_head(t),
        _ => None,
    }
}

pub fn type_head(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
        _ => None,
    }
}

/// the head of the first type argument: `Vec<IndexSet<T>>` => `IndexSet`
fn type_arg(t: &Type) -> Option<String> {
    if let Type::Path(p) = t {
        if let syn::PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments {
            if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                return type_head(t);
            }
        }
    }
    None
}
/// `.map(|x| ..collect())` inside a chain collected into `Vec<el>`
fn inner_collect(e: &mut Expr, el: &str) {
    let Expr::MethodCall(m) = e else { return };
    if m.method != "map" {
        return;
    }
    if let Some(Expr::Closure(c)) = m.args.first_mut() {
        let mut b: &mut Expr = &mut c.body;
        while let Expr::Block(k) = b {
            match k.block.stmts.last_mut() {
                Some(Stmt::Expr(x, None)) => b = x,
                _ => return,
            }
        }
        if let Expr::MethodCall(c) = b {
            if c.method == "collect" && c.turbofish.is_none() {
                let id = format_ident!("{}", el);
                c.turbofish = Some(parse_quote!(::<#id>));
            }
        }
    }
}

/// uses of an occupied or vacant entry `e` of `m` at key `k`
struct EntryUse {
    e: String,
    m: Expr,
    k: syn::Ident,
    bad: bool,
}
impl VisitMut for EntryUse {
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        if let Expr::MethodCall(c) = x {
            if c.receiver.to_token_stream().to_string() == self.e {
                let (m, k) = (&self.m, &self.k);
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                *x = match (c.method.to_string().as_str(), args.len()) {
                    ("insert", 1) => {
                        let a = &args[0];
                        parse_quote!(#m.vx_put(#k, #a))
                    }
                    ("get", 0) => parse_quote!(#m.vx_at(&#k)),
                    ("get_mut", 0) => parse_quote!(#m.vx_at_mut(&#k)),
                    ("remove", 0) | ("swap_remove", 0) => parse_quote!(#m.swap_remove(&#k)),
                    _ => {
                        self.bad = true;
                        return;
                    }
                };
                return;
            }
        }
        if x.to_token_stream().to_string() == self.e {
            self.bad = true;
        }
        visit_mut::visit_expr_mut(self, x);
    }
}
/// `match m.entry(k) { Entry::Occupied(e) => A, Entry::Vacant(e) => B }`
fn entry_match(x: &mut Expr, k: syn::Ident) -> Option<Expr> {
    let Expr::Match(mm) = x else { return None };
    let Expr::MethodCall(c) = &*mm.expr else {
        return None;
    };
    if c.method != "entry" || c.args.len() != 1 || mm.arms.len() != 2 {
        return None;
    }
    let (m, key) = ((*c.receiver).clone(), c.args[0].clone());
    let (mut occ, mut vac) = (None, None);
    for a in &mm.arms {
        let Pat::TupleStruct(t) = &a.pat else {
            return None;
        };
        let kind = t.path.segments.last()?.ident.to_string();
        let name = match t.elems.first()? {
            Pat::Ident(i) => i.ident.to_string(),
            Pat::Wild(_) => "_".into(),
            _ => return None,
        };
        let mut body = (*a.body).clone();
        let mut u = EntryUse {
            e: name,
            m: m.clone(),
            k: k.clone(),
            bad: false,
        };
        u.visit_expr_mut(&mut body);
        if u.bad || a.guard.is_some() {
            return None;
        }
        match kind.as_str() {
            "Occupied" => occ = Some(body),
            "Vacant" => vac = Some(body),
            _ => return None,
        }
    }
    let (o, v) = (occ?, vac?);
    Some(parse_quote!({ let #k = #key; if #m.contains_key(&#k) { #o } else { #v } }))
}

/// the receiver of a `map` on a Result, as a match
fn result_map(x: &mut X, e: &Expr) -> Expr {
    if let Expr::MethodCall(m) = e {
        if m.method == "map" && m.args.len() == 1 {
            if let Some(Expr::Closure(_)) = m.args.first() {
                let r = result_map(x, &m.receiver);
                let t = x.fresh("vx_q");
                let mut c = m.args[0].clone();
                x.closure_simplify(&mut c);
                let b = pipe::apply(&c, parse_quote!(#t));
                return parse_quote!((match #r { Ok(#t) => Ok(#b), Err(vx_er) => Err(vx_er) }));
            }
        }
    }
    e.clone()
}

impl VisitMut for X<'_> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        self.flatten_path(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        // `&mut dyn TermPool`, `&mut PrimitivePool` => `&VxPool`
        if let Type::Reference(r) = t {
            let s = r.elem.to_token_stream().to_string().replace(' ', "");
            if s.ends_with("dynTermPool") || s.ends_with("PrimitivePool") {
                let lt = &r.lifetime;
                *t = parse_quote!(& #lt VxPool);
                self.count("pool reference made shared (pool state is not modelled)");
                return;
            }
            for (from, to) in [("ContextStack", "VxCtx"), ("Duration", "VxDur")] {
                if s == from {
                    let lt = &r.lifetime;
                    let n = quote::format_ident!("{}", to);
                    *t = parse_quote!(& #lt #n);
                    self.count("context and timer references made shared (their state is not modelled)");
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // inner functions of different blocks may have the same name
        for i in 0..b.stmts.len() {
            if let Stmt::Item(syn::Item::Fn(f)) = &b.stmts[i] {
                let n = f.sig.ident.to_string();
                let k = self
                    .hoisted
                    .iter()
                    .filter(|h| h.sig.ident == n || h.sig.ident.to_string().starts_with(&format!("{}_vx", n)))
                    .count();
                if k > 0 {
                    let to = format_ident!("{}_vx{}", n, k);
                    RenameCalls(&n, &to).visit_block_mut(b);
                }
            }
        }
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(syn::Item::Fn(f)) => {
                    self.count("inner function hoisted");
                    self.hoisted.push(f);
                }
                Stmt::Item(syn::Item::Use(_)) => {}
                Stmt::Item(syn::Item::Const(c)) => {
                    // local constant => let
                    let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                    if type_head(ty).is_some() {
                        out.push(parse_quote!(let #id: #ty = #e;));
                    } else {
                        out.push(Stmt::Item(syn::Item::Const(c)));
                    }
                }
                Stmt::Local(mut l) => {
                    l.attrs.clear();
                    self.array_let(&mut l);
                    // lifted closures
                    if let (Some(init), Pat::Ident(pi)) = (&l.init, strip_type(&l.pat)) {
                        if let Expr::Closure(cl) = &*init.expr {
                            let name = pi.ident.to_string();
                            if self.lifts.contains_key(&name) {
                                self.count("local closure lifted to a function");
                                self.lifted.push((name, cl.clone()));
                                continue;
                            }
                        }
                    }
                    let mut post = vec![];
                    self.desugar_ref_pats(&mut l.pat, &mut post);
                    if let (Some(init), Pat::Ident(pi)) = (&mut l.init, &l.pat) {
                        if pi.mutability.is_some() {
                            if let Expr::MethodCall(m) = &*init.expr {
                                let mut probe = 0;
                                if (pipe::ADAPTERS.contains(&m.method.to_string().as_str()) || m.method == "iter" || m.method == "into_iter")
                                    && pipe::parse(&init.expr, &mut probe).is_some()
                                {
                                    self.count("mutable iterator as a cursor over the collected elements");
                                    let x = (*init.expr).clone();
                                    *init.expr = parse_quote!(vx_cursor(#x.collect::<Vec<_>>()));
                                }
                            }
                        }
                    }
                    if let Some(init) = &mut l.init {
                        let mut pat = l.pat.clone();
                        if slices::has_slice(&pat) {
                            self.count("slice pattern");
                            if let Pat::Type(_) = pat {
                                self.unsup("typed slice pattern in let");
                            }
                            if !slices::rewrite(&mut init.expr, &mut [&mut pat]) {
                                self.unsup("slice pattern in let");
                            }
                            l.pat = pat;
                        }
                        // typed collect
                        let ty = match &l.pat {
                            Pat::Type(t) => type_head(&t.ty),
                            _ => None,
                        };
                        if let Some(ty) = ty {
                            let is_try = matches!(&*init.expr, Expr::Try(_));
                            let te = match &mut *init.expr {
                                Expr::Try(t) => &mut t.expr,
                                _ => &mut init.expr,
                            };
                            if let Expr::MethodCall(m) = &mut **te {
                                if m.method == "collect" && m.turbofish.is_none() {
                                    let tyid = if is_try { format_ident!("Result") } else { format_ident!("{}", ty) };
                                    m.turbofish = Some(parse_quote!(::<#tyid>));
                                    if let Pat::Type(t) = &l.pat {
                                        if let Some(el) = type_arg(&t.ty) {
                                            inner_collect(&mut m.receiver, &el);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    out.push(Stmt::Local(l));
                    out.extend(post);
                }
                Stmt::Macro(m) => {
                    let nm = m.mac.path.segments.last().unwrap().ident.to_string();
                    if ["debug_assert", "debug_assert_eq"].contains(&nm.as_str()) {
                        continue;
                    }
                    out.push(Stmt::Macro(m));
                }
                s => {
                    // logging blocks expand to `{ let lvl = ::log::Level::..; .. }`
                    let t = s.to_token_stream().to_string();
                    let shape = matches!(&s, Stmt::Expr(Expr::Block(_) | Expr::If(_), _));
                    if shape && t.contains(":: log ::") && t.contains("STATIC_MAX_LEVEL") {
                        self.count("logging statement dropped");
                        continue;
                    }
                    out.push(s);
                }
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // attributes on expressions
        match e {
            Expr::Match(m) => m.attrs.clear(),
            Expr::If(m) => m.attrs.clear(),
            Expr::Block(m) => m.attrs.clear(),
            Expr::Paren(m) => m.attrs.clear(),
            _ => {}
        }
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(m) = &mut *t.expr {
                if m.method == "try_fold" {
                    m.method = syn::Ident::new("try_fold_q", m.method.span());
                }
            }
        }
        // a closure that leaves early, as a function with its own contract
        if let Expr::MethodCall(m) = e {
            self.lift_chain(m);
        }
        // string literals in patterns and comparisons
        if let Some(n) = str_match(e) {
            self.count("match on string literals as comparisons");
            *e = n;
        }
        if let Expr::Binary(b) = e {
            let eq = matches!(b.op, syn::BinOp::Eq(_));
            if eq || matches!(b.op, syn::BinOp::Ne(_)) {
                let is_lit = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)));
                if is_lit(&b.right) || is_lit(&b.left) {
                    let (l, r) = (&b.left, &b.right);
                    self.count("string comparison");
                    *e = if eq {
                        parse_quote!(vx_streq(#l.vx_str(), #r.vx_str()))
                    } else {
                        parse_quote!(!vx_streq(#l.vx_str(), #r.vx_str()))
                    };
                }
            }
        }
        if let Expr::Match(m) = e {
            split_guarded_or(self, m);
        }
        // map entries
        if matches!(e, Expr::Match(_)) {
            let k = self.fresh("vx_k");
            if let Some(n) = entry_match(e, k) {
                self.count("map entry match as lookup and insertion");
                *e = n;
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            // `r.or_else(|err| ..)` on a Result
            if name == "or_else" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.len() == 1 && !has_escape(&c.body) {
                        let r = result_map(self, &m.receiver.clone());
                        let (p, b) = (&c.inputs[0], &c.body);
                        self.count("Result combinator inlined");
                        *e = parse_quote!((match #r { Ok(vx_ok) => Ok(vx_ok), Err(#p) => #b }));
                    }
                }
            } else if name == "retain" && m.args.len() == 1 && pipe::is_place(&m.receiver) && matches!(m.args[0], Expr::Closure(_)) {
                let (r, c) = (&m.receiver, &m.args[0]);
                self.count("retain as filter and collect");
                *e = parse_quote!({ #r = #r.into_iter().filter(#c).collect::<Vec<_>>(); });
            } else if name == "extend" && m.args.len() == 1 {
                m.method = format_ident!("vx_extend");
            }
        }
        // a range of a slice as receiver
        if let Expr::MethodCall(m) = e {
            let mut r = &*m.receiver;
            while let Expr::Paren(p) = r {
                r = &p.expr;
            }
            if let Expr::Index(ix) = r {
                if let Expr::Range(_) = &*ix.index {
                    let r = r.clone();
                    *m.receiver = parse_quote!((&#r));
                }
            }
            // also below iterator adapters
            let mut cur = &mut *m.receiver;
            while let Expr::MethodCall(k) = cur {
                if let Expr::Index(ix) = &*k.receiver {
                    if let Expr::Range(_) = &*ix.index {
                        let r = (*k.receiver).clone();
                        *k.receiver = parse_quote!((&#r));
                    }
                }
                cur = &mut *k.receiver;
            }
        }
        // `&[] as &[_]`
        if let Expr::Cast(c) = e {
            if let (Type::Reference(r), Expr::Reference(x)) = (&*c.ty, &*c.expr) {
                if let (Type::Slice(_), Expr::Array(a)) = (&*r.elem, &*x.expr) {
                    if a.elems.is_empty() {
                        self.count("empty slice literal");
                        *e = parse_quote!(vx_empty_slice());
                    }
                }
            }
        }
        // `&E as &Term`
        if let Expr::Cast(c) = e {
            if let Type::Reference(r) = &*c.ty {
                let t = r.elem.to_token_stream().to_string().replace(' ', "");
                if t.ends_with("Term") {
                    let inner = match &*c.expr {
                        Expr::Reference(r) => (*r.expr).clone(),
                        x => x.clone(),
                    };
                    self.count("`as &Term` coercion");
                    *e = parse_quote!((#inner).as_term());
                }
            }
        }
        // error payloads
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let recv = &m.receiver;
            if (name == "ok_or_else" || name == "ok_or") && m.args.len() == 1 {
                self.count("error payload dropped");
                *e = parse_quote!(vx_ok_or(#recv));
            } else if name == "map_err" && m.args.len() == 1 {
                self.count("error payload dropped");
                // a receiver that fails with the (payload-free) error needs its type spelled out
                *e = if recv.to_token_stream().to_string().contains("ok_or") {
                    parse_quote!(vx_map_err::<_, CheckerError, _>(#recv))
                } else {
                    parse_quote!(vx_map_err(#recv))
                };
            } else if (name == "unwrap" && m.args.is_empty()) || (name == "expect" && m.args.len() == 1) {
                self.count("panic modelled as divergence");
                *e = parse_quote!(#recv.vx_unwrap());
            } else if name == "try_into" && m.args.is_empty() {
                self.count("`try_into` as a contracted conversion");
                *e = parse_quote!(vx_try_conv(#recv));
            } else if name == "into" && m.args.is_empty() {
                self.count("`into` as a contracted conversion");
                *e = parse_quote!(#recv.vx_conv());
            }
        }
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f == "Err" && c.args.len() == 1 {
                let a = c.args[0].to_token_stream().to_string();
                if a != "vx_err ()" && a != "vx_er" {
                    self.count("error payload dropped");
                    *e = parse_quote!(Err(vx_err()));
                }
            } else if f.contains("panicking::") || f.ends_with("unreachable_display") || f.ends_with("panic_fmt") {
                self.count("panic modelled as divergence");
                *e = parse_quote!(vx_panic());
            } else if f.ends_with("into_vec") && c.args.len() == 1 {
                // vec![..]
                if let Expr::Call(b) = &c.args[0] {
                    if let Some(Expr::Array(a)) = b.args.first() {
                        let el = a.elems.iter().cloned().collect::<Vec<_>>();
                        self.count("vec! literal");
                        let mut v: Expr = parse_quote!(vx_vec(VxArr([#(#el),*])));
                        if let Expr::Call(c) = &mut v {
                            // keep the elements visible to the visitor
                            c.func = parse_quote!(vx_vec_from);
                            c.args = std::iter::once::<Expr>(parse_quote!([#(#el),*])).collect();
                        }
                        *e = v;
                    }
                }
            } else if self.lifts.contains_key(&f) {
                let (nf, caps) = self.lifts[&f].clone();
                let nf = format_ident!("{}", nf);
                let caps: Vec<Expr> = caps.iter().map(|c| syn::parse_str(c).unwrap()).collect();
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                *e = parse_quote!(#nf(#(#caps,)* #(#args),*));
            }
        }
        // hoisted closure arguments
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if let Some(&k) = self.hoist_calls.get(&f) {
                if let Some(Expr::Closure(cl)) = c.args.iter().nth(k).cloned().as_ref() {
                    let nm = format!("{}__cl{}", self.outer, self.hoisted_closures.len());
                    self.count("closure argument hoisted to a function");
                    let id = format_ident!("{}", nm);
                    self.hoisted_closures.push((nm, cl.clone()));
                    *c.args.iter_mut().nth(k).unwrap() = parse_quote!(#id);
                }
            }
        }
        // `matches!`-like and slice patterns
        match e {
            Expr::Match(m) => {
                let mut pats: Vec<&mut Pat> = m.arms.iter_mut().map(|a| &mut a.pat).collect();
                if pats.iter().any(|p| slices::has_slice(p)) {
                    self.count("slice pattern");
                    let mut sc = (*m.expr).clone();
                    if !slices::rewrite(&mut sc, &mut pats) {
                        self.unsup("slice pattern in match");
                    }
                    *m.expr = sc;
                }
            }
            Expr::If(_) => {
                // split `if let PAT = E`
                if let Expr::If(i) = e {
                    if let Expr::Let(l) = &mut *i.cond {
                        if slices::has_slice(&l.pat) {
                            self.count("slice pattern");
                            let mut sc = (*l.expr).clone();
                            let mut p = (*l.pat).clone();
                            if !slices::rewrite(&mut sc, &mut [&mut p]) {
                                self.unsup("slice pattern in if let");
                            }
                            *l.expr = sc;
                            *l.pat = p;
                        }
                    }
                }
            }
            Expr::Index(ix) => {
                if let Expr::Range(_) = &*ix.index {
                    self.unsup("range index outside `&`");
                }
            }
            _ => {}
        }
        // `&x[a..b]`
        if let Expr::Reference(r) = e {
            if let Expr::Index(ix) = &*r.expr {
                if let Expr::Range(rg) = &*ix.index {
                    let base = &ix.expr;
                    let a = rg.start.clone().map(|x| *x).unwrap_or(parse_quote!(0));
                    let incl = matches!(rg.limits, syn::RangeLimits::Closed(_));
                    self.count("slice range");
                    let new: Expr = match &rg.end {
                        None if r.mutability.is_some() => parse_quote!(vx_sub_from_mut(#base, #a)),
                        None => parse_quote!(vx_sub_from((#base).vx_slice(), #a)),
                        Some(b) if incl => parse_quote!(vx_sub((#base).vx_slice(), #a, #b + 1)),
                        Some(b) => parse_quote!(vx_sub((#base).vx_slice(), #a, #b)),
                    };
                    *e = new;
                }
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                let s = r.expr.to_token_stream().to_string();
                if s == "* pool" || s == "* args . pool" || s == "pool" {
                    let x = &r.expr;
                    *e = parse_quote!(&#x);
                }
            }
        }
        // while let
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, sc, body, label) = (l.pat.clone(), l.expr.clone(), w.body.clone(), w.label.clone());
                self.count("while let");
                let mut lp: Expr = parse_quote!(loop { if let #p = #sc #body else { break; } });
                if let Expr::Loop(l) = &mut lp {
                    l.label = label;
                }
                *e = lp;
            }
        }
        // for loops
        if let Expr::ForLoop(f) = e {
            let ord = self.ord;
            self.ord += 1;
            self.count("for loop as an index loop");
            let mut post = vec![];
            let mut pat = (*f.pat).clone();
            self.desugar_ref_pats(&mut pat, &mut post);
            let mut src = (*f.expr).clone();
            range_receivers(&mut src);
            fix_chain(self, &mut src, "", 0);
            let p = pipe::source(&src, &mut self.src);
            let mut body = post;
            if slices::has_slice(&pat) {
                self.unsup("slice pattern in for");
            }
            body.extend(f.body.stmts.clone());
            let b = pipe::build(
                p,
                ord,
                pipe::LoopOut {
                    pre: vec![],
                    cond: None,
                    body,
                    result: None,
                },
                &pat,
                f.label.clone(),
                &mut self.src,
            );
            *e = Expr::Block(parse_quote!(#b));
        }
        // iterator sinks
        let is_sink = matches!(&*e, Expr::MethodCall(m) if pipe::SINKS.contains(&m.method.to_string().as_str()));
        if is_sink {
            let mut mc = match e {
                Expr::MethodCall(m) => m.clone(),
                _ => unreachable!(),
            };
            // is it really an iterator chain?
            let mut probe = 0;
            if pipe::parse(&mc.receiver, &mut probe).is_some() {
                let mut rc = (*mc.receiver).clone();
                let ord = self.ord;
                let ty = collect_type_of(&mc);
                let kind = if mc.method == "collect" {
                    ty.clone().unwrap_or_default()
                } else {
                    mc.method.to_string()
                };
                fix_chain(self, &mut rc, &kind, ord);
                *mc.receiver = rc;
                for a in mc.args.iter_mut() {
                    self.closure_simplify(a);
                    if let Expr::Closure(c) = a {
                        if mc.method != "try_fold_q" && has_escape(&c.body) && !try_out(c, &kind, ord) {
                            self.unsup("`?`/return inside an iterator closure");
                        }
                    }
                }
                self.ord += 1;
                match pipe::sink(&mc, ord, &mut self.src, ty.as_deref()) {
                    Some(x) => {
                        self.count(&format!("iterator chain ({}) as an index loop", mc.method));
                        *e = x;
                    }
                    None => self.unsup(&format!("iterator sink {}", mc.method)),
                }
            }
        }
        // an iterator chain kept as a value: collected
        let is_adapter = matches!(&*e, Expr::MethodCall(m) if pipe::ADAPTERS.contains(&m.method.to_string().as_str()));
        if is_adapter {
            let mut probe = 0;
            if pipe::parse(e, &mut probe).is_some() {
                let mut rc = e.clone();
                let ord = self.ord;
                fix_chain(self, &mut rc, "", ord);
                self.ord += 1;
                let mc: syn::ExprMethodCall = parse_quote!(#rc.collect());
                if let Some(x) = pipe::sink(&mc, ord, &mut self.src, Some("Vec")) {
                    self.count("lazy iterator collected");
                    *e = x;
                }
            }
        }
        // tuple comparison
        if let Expr::Binary(b) = e {
            if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) {
                let n = [&b.left, &b.right]
                    .iter()
                    .filter_map(|x| match &***x {
                        Expr::Tuple(t) => Some(t.elems.len()),
                        _ => None,
                    })
                    .max();
                if n == Some(2) {
                    let (l, r) = (&b.left, &b.right);
                    self.count("tuple comparison");
                    *e = if matches!(b.op, syn::BinOp::Eq(_)) {
                        parse_quote!(vx_teq2(#l, #r))
                    } else {
                        parse_quote!(!vx_teq2(#l, #r))
                    };
                }
            }
        }
        // map_or_else(|| A, f)
        if let Expr::MethodCall(m) = e {
            if m.method == "map_or_else" && m.args.len() == 2 {
                if let Expr::Closure(k) = &m.args[0] {
                    if k.inputs.is_empty() && !has_escape(&k.body) {
                        let (d, r) = (k.body.clone(), m.receiver.clone());
                        let t = self.fresh("vx_q");
                        let f = m.args[1].clone();
                        let b = match &f {
                            Expr::Path(p) => Some(parse_quote!(#p(#t))),
                            Expr::Closure(c) if !has_escape(&c.body) => Some(pipe::apply(&f, parse_quote!(#t))),
                            _ => None,
                        };
                        if let Some(b) = b {
                            let b: Expr = b;
                            self.count("option combinator");
                            *e = parse_quote!((match #r { Some(#t) => #b, None => #d }));
                        }
                    }
                }
            }
        }
        // Option combinators with a closure
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let cl = m.args.iter().last().cloned();
            if let Some(Expr::Closure(_)) = &cl {
                let mut c = cl.unwrap();
                self.closure_simplify(&mut c);
                let esc = matches!(&c, Expr::Closure(k) if has_escape(&k.body));
                let r = m.receiver.clone();
                let t = self.fresh("vx_q");
                let new: Option<Expr> = match (name.as_str(), m.args.len()) {
                    ("filter", 1) => {
                        let b = pipe::apply(&c, parse_quote!(&#t));
                        Some(parse_quote!((match #r { Some(#t) => { if #b { Some(#t) } else { None } } None => None })))
                    }
                    ("and_then", 1) => {
                        let b = pipe::apply(&c, parse_quote!(#t));
                        Some(parse_quote!((match #r { Some(#t) => #b, None => None })))
                    }
                    ("map", 1) => {
                        let b = pipe::apply(&c, parse_quote!(#t));
                        Some(parse_quote!((match #r { Some(#t) => Some(#b), None => None })))
                    }
                    ("is_none_or", 1) => {
                        let b = pipe::apply(&c, parse_quote!(#t));
                        Some(parse_quote!((match #r { Some(#t) => #b, None => true })))
                    }
                    ("is_some_and", 1) => {
                        let b = pipe::apply(&c, parse_quote!(#t));
                        Some(parse_quote!((match #r { Some(#t) => #b, None => false })))
                    }
                    ("then", 1) if matches!(&c, Expr::Closure(k) if k.inputs.is_empty()) => {
                        if let Expr::Closure(k) = &c {
                            let b = &k.body;
                            Some(parse_quote!((if #r { Some(#b) } else { None })))
                        } else {
                            None
                        }
                    }
                    ("map_or", 2) => {
                        let d = m.args[0].clone();
                        let b = pipe::apply(&c, parse_quote!(#t));
                        Some(parse_quote!((match #r { Some(#t) => #b, None => #d })))
                    }
                    ("unwrap_or_else", 1) => {
                        if let Expr::Closure(k) = &c {
                            let b = &k.body;
                            Some(parse_quote!((match #r { Some(#t) => #t, None => #b })))
                        } else {
                            None
                        }
                    }
                    ("or_else", 1) => {
                        if let Expr::Closure(k) = &c {
                            let b = &k.body;
                            Some(parse_quote!((match #r { Some(#t) => Some(#t), None => #b })))
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                if let Some(x) = new {
                    if esc {
                        self.unsup("`?`/return inside an Option closure");
                    }
                    self.count("Option combinator inlined");
                    *e = x;
                }
            }
        }
        // remaining ranges
        if let Expr::Range(r) = e {
            let new: Option<Expr> = match (&r.start, &r.end) {
                (Some(a), None) => Some(parse_quote!(VxRangeFrom { start: #a })),
                (Some(a), Some(b)) => Some(parse_quote!(VxRange { start: #a, end: #b })),
                (None, Some(b)) => Some(parse_quote!(VxRangeTo { end: #b })),
                (None, None) => None,
            };
            if let Some(x) = new {
                *e = x;
            }
        }
        // plain `while` / `loop`
        if let Expr::While(w) = e {
            if !starts_with_loop_mark(&w.body) {
                let ord = self.ord;
                self.ord += 1;
                mark_loop(&mut w.body, ord);
                let (pb, pa) = (format_ident!("__VXP_BEFORE_{}", ord), format_ident!("__VXP_AFTER_{}", ord));
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let w2 = w.clone();
                *e = parse_quote!({ #pb; #w2 #pa; });
                return;
            }
        }
        if let Expr::Loop(l) = e {
            if !starts_with_loop_mark(&l.body) {
                let ord = self.ord;
                self.ord += 1;
                mark_loop(&mut l.body, ord);
                let (pb, pa) = (format_ident!("__VXP_BEFORE_{}", ord), format_ident!("__VXP_AFTER_{}", ord));
                self.visit_block_mut(&mut l.body);
                let l2 = l.clone();
                *e = parse_quote!({ #pb; #l2 #pa; });
                return;
            }
        }
        // closures that stay
        if let Expr::Closure(_) = e {
            self.closure_simplify(e);
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn range_receivers(e: &mut Expr) {
    let mut cur = e;
    while let Expr::MethodCall(k) = cur {
        if let Expr::Index(ix) = &*k.receiver {
            if let Expr::Range(_) = &*ix.index {
                let r = (*k.receiver).clone();
                *k.receiver = parse_quote!((&#r));
            }
        }
        cur = &mut *k.receiver;
    }
}
fn starts_with_loop_mark(b: &Block) -> bool {
    b.stmts.first().map_or(false, |s| s.to_token_stream().to_string().starts_with("__VXP_"))
}
fn mark_loop(b: &mut Block, ord: usize) {
    let ph = format_ident!("__VXP_LOOP_{}", ord);
    let s = format_ident!("__VXP_INLOOP_{}", ord);
    let en = format_ident!("__VXP_ENDLOOP_{}", ord);
    // a trailing expression statement must stay unit-typed
    if let Some(Stmt::Expr(x, None)) = b.stmts.last().cloned() {
        b.stmts.pop();
        b.stmts.push(Stmt::Expr(x, Some(Default::default())));
    }
    b.stmts.insert(0, parse_quote!(#s;));
    b.stmts.insert(0, parse_quote!(#ph;));
    b.stmts.push(parse_quote!(#en;));
}

fn strip_type(p: &Pat) -> &Pat {
    match p {
        Pat::Type(t) => &t.pat,
        _ => p,
    }
}

/// simplifies the closures inside a chain
fn fix_chain(x: &mut X, e: &mut Expr, kind: &str, ord: usize) {
    match e {
        Expr::MethodCall(m) => {
            fix_chain(x, &mut m.receiver, kind, ord);
            if matches!(m.method.to_string().as_str(), "map" | "filter" | "filter_map" | "flat_map" | "take_while") {
                for a in m.args.iter_mut() {
                    x.closure_simplify(a);
                    if let Expr::Closure(c) = a {
                        if has_escape(&c.body) && (kind == "find_map" || !try_out(c, kind, ord)) {
                            x.unsup("`?`/return inside an iterator closure");
                        }
                    }
                }
            } else {
                for a in m.args.iter_mut() {
                    fix_chain(x, a, kind, ord);
                }
            }
        }
        Expr::Paren(p) => fix_chain(x, &mut p.expr, kind, ord),
        _ => {}
    }
}

/// `match s { "a" | "b" if g => x, .., _ => d }` as a chain of comparisons; a function or closure named in an arm (a
/// table of functions) becomes an opaque value, which is `vx_trivial_fn()` if the closure ignores its arguments
fn str_match(e: &Expr) -> Option<Expr> {
    let Expr::Match(m) = e else { return None };
    fn lits(p: &Pat, out: &mut Vec<Expr>) -> bool {
        match p {
            Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => {
                let l = &l.lit;
                out.push(parse_quote!(#l));
                true
            }
            Pat::Or(o) => o.cases.iter().all(|c| lits(c, out)),
            _ => false,
        }
    }
    if !matches!(&*m.expr, Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_)) {
        return None;
    }
    let last = m.arms.last()?;
    if !matches!(last.pat, Pat::Wild(_)) || last.guard.is_some() {
        return None;
    }
    let value = |b: &Expr| -> Expr {
        match b {
            Expr::Path(p) if p.path.segments.len() >= 2 || p.path.is_ident("check_rare") => {
                parse_quote!(vx_named_fn())
            }
            Expr::Closure(c) => {
                let ignores = c.inputs.iter().all(|p| matches!(p, Pat::Wild(_)));
                if ignores {
                    parse_quote!(vx_trivial_fn())
                } else {
                    parse_quote!(vx_named_fn())
                }
            }
            b => b.clone(),
        }
    };
    let sc = &m.expr;
    // consecutive arms with the same value are merged
    let mut groups: Vec<(Vec<Expr>, Expr)> = vec![];
    for a in &m.arms[..m.arms.len() - 1] {
        let mut ls = vec![];
        if !lits(&a.pat, &mut ls) {
            return None;
        }
        let b = value(&a.body);
        let cs: Vec<Expr> = ls.iter().map(|l| parse_quote!(vx_streq(#sc, #l))).collect();
        let cs = match &a.guard {
            Some((_, g)) => vec![{
                let o = balanced(&cs);
                parse_quote!((#o && (#g)))
            }],
            None => cs,
        };
        match groups.last_mut() {
            Some((c, v)) if v.to_token_stream().to_string() == b.to_token_stream().to_string() => c.extend(cs),
            _ => groups.push((cs, b)),
        }
    }
    let mut res = value(&last.body);
    for (cs, b) in groups.into_iter().rev() {
        let cond = balanced(&cs);
        res = parse_quote!(if #cond { #b } else { #res });
    }
    Some(res)
}
fn balanced(cs: &[Expr]) -> Expr {
    match cs.len() {
        1 => cs[0].clone(),
        n => {
            let (a, b) = (balanced(&cs[..n / 2]), balanced(&cs[n / 2..]));
            parse_quote!((#a || #b))
        }
    }
}

/// the verifier does not take an alternative pattern together with a guard: one arm for each alternative
fn split_guarded_or(x: &mut X, m: &mut syn::ExprMatch) {
    let mut arms = vec![];
    for a in std::mem::take(&mut m.arms) {
        let ps = if a.guard.is_some() { alternatives(&a.pat) } else { vec![] };
        if ps.len() > 1 {
            x.count("guarded alternative pattern as separate arms");
            for p in ps {
                let mut b = a.clone();
                b.pat = p;
                b.comma = Some(Default::default());
                arms.push(b);
            }
        } else {
            arms.push(a);
        }
    }
    m.arms = arms;
}
fn alternatives(p: &Pat) -> Vec<Pat> {
    fn product<'a>(it: impl Iterator<Item = &'a Pat>) -> Vec<Vec<Pat>> {
        let mut out: Vec<Vec<Pat>> = vec![vec![]];
        for p in it {
            let alts = alternatives(p);
            out = out
                .into_iter()
                .flat_map(|o| {
                    alts.iter().map(move |a| {
                        let mut o = o.clone();
                        o.push(a.clone());
                        o
                    })
                })
                .collect();
        }
        out
    }
    match p {
        Pat::Or(o) => o.cases.iter().flat_map(alternatives).collect(),
        Pat::Paren(q) => alternatives(&q.pat),
        Pat::Reference(r) => alternatives(&r.pat)
            .into_iter()
            .map(|q| {
                let mut r = r.clone();
                *r.pat = q;
                Pat::Reference(r)
            })
            .collect(),
        Pat::Ident(i) => match &i.subpat {
            None => vec![p.clone()],
            Some((at, s)) => alternatives(s)
                .into_iter()
                .map(|q| {
                    let mut i = i.clone();
                    i.subpat = Some((*at, Box::new(q)));
                    Pat::Ident(i)
                })
                .collect(),
        },
        Pat::Tuple(t) => product(t.elems.iter())
            .into_iter()
            .map(|v| {
                let mut t = t.clone();
                t.elems = v.into_iter().collect();
                Pat::Tuple(t)
            })
            .collect(),
        Pat::TupleStruct(t) => product(t.elems.iter())
            .into_iter()
            .map(|v| {
                let mut t = t.clone();
                t.elems = v.into_iter().collect();
                Pat::TupleStruct(t)
            })
            .collect(),
        _ => vec![p.clone()],
    }
}

struct RenameCalls<'a>(&'a str, &'a syn::Ident);
impl VisitMut for RenameCalls<'_> {
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.path.is_ident(self.0) {
            p.path = syn::Path::from(self.1.clone());
        }
    }
    fn visit_item_fn_mut(&mut self, f: &mut syn::ItemFn) {
        if f.sig.ident == self.0 {
            f.sig.ident = self.1.clone();
        }
        visit_mut::visit_item_fn_mut(self, f);
    }
}
