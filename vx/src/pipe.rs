//! Iterator chains, turned into index loops (semantic inlining of the closures).
use quote::{format_ident, quote, ToTokens};
use syn::{parse_quote, Block, Expr, ExprMethodCall, Pat, Stmt};

pub enum Stage {
    Filter(Expr),
    FilterMap(Expr),
    FlatMap(Expr),
    Map(Expr),
    Dedup,
    TakeWhile(Expr),
}

pub struct Pipe {
    pub setup: Vec<Stmt>,
    pub len: Expr,
    pub get: Box<dyn Fn(Expr) -> Expr>,
    pub stages: Vec<Stage>,
}

pub fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Index(i) => is_place(&i.expr) && matches!(&*i.index, Expr::Path(_) | Expr::Lit(_)),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && is_place(&u.expr),
        Expr::Reference(r) => is_place(&r.expr),
        _ => false,
    }
}

/// `c(arg)` with the closure inlined
pub fn apply(c: &Expr, arg: Expr) -> Expr {
    match c {
        Expr::Closure(cl) => {
            let body = &cl.body;
            let mut pats: Vec<Pat> = vec![];
            for p in &cl.inputs {
                pats.push(p.clone());
            }
            if pats.len() == 1 {
                let p = &pats[0];
                if let Pat::Ident(pi) = p {
                    if pi.subpat.is_none() && arg.to_token_stream().to_string() == pi.ident.to_string() {
                        return parse_quote!({ #body });
                    }
                }
                parse_quote!({ let #p = #arg; #body })
            } else {
                // caller passes a tuple
                parse_quote!({ let (#(#pats),*) = #arg; #body })
            }
        }
        other => parse_quote!(#other(#arg)),
    }
}

fn simple_base(recv: &Expr, method: &str, n: &mut usize) -> Pipe {
    let k = *n;
    *n += 1;
    let s = format_ident!("vx_s{}", k);
    let m = format_ident!("{}", method);
    let mut setup: Vec<Stmt> = vec![];
    if is_place(recv) {
        setup.push(parse_quote!(let #s = #recv.#m();));
    } else if method == "vx_into" {
        setup.push(parse_quote!(let #s = (#recv).#m();));
    } else {
        let t = format_ident!("vx_t{}", k);
        setup.push(parse_quote!(let #t = &#recv;));
        setup.push(parse_quote!(let #s = #t.#m();));
    }
    let s2 = s.clone();
    let get: Box<dyn Fn(Expr) -> Expr> = if method == "vx_into" {
        Box::new(move |i| parse_quote!(#s2.vx_get(#i)))
    } else {
        Box::new(move |i| parse_quote!(&#s2[#i]))
    };
    Pipe {
        setup,
        len: parse_quote!(#s.len()),
        get,
        stages: vec![],
    }
}

/// Source of a `for` loop or of an adapter argument: a chain or any iterable value.
pub fn source(e: &Expr, n: &mut usize) -> Pipe {
    if let Some(p) = parse(e, n) {
        return p;
    }
    if let Expr::Path(p) = e {
        if p.path.get_ident().is_some_and(|i| MUTS.with(|m| m.borrow().contains(&i.to_string()))) {
            return mut_base(e);
        }
    }
    if let Expr::Reference(r) = e {
        if r.mutability.is_none() {
            return simple_base(&r.expr, "vx_slice", n);
        }
        if is_place(&r.expr) {
            return mut_base(&r.expr);
        }
    }
    simple_base(e, "vx_into", n)
}

/// every element in turn, by mutable reference
fn mut_base(b: &Expr) -> Pipe {
    let b = b.clone();
    let b2 = b.clone();
    Pipe {
        setup: vec![],
        len: parse_quote!(#b.len()),
        get: Box::new(move |i| parse_quote!(&mut #b2[#i])),
        stages: vec![],
    }
}

thread_local! {
    /// parameters of type `&mut Vec` or `&mut [T]`: iterated by mutable reference
    pub static MUTS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) };
    /// variables of iterator type, materialised as vectors (%iter)
    /// the function being extracted returns an `Option`
    pub static OPTFN: std::cell::RefCell<bool> = const { std::cell::RefCell::new(false) };
    pub static ITERS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) };
}

pub fn parse(e: &Expr, n: &mut usize) -> Option<Pipe> {
    match e {
        Expr::Path(p) => {
            let s = p.path.get_ident()?.to_string();
            if ITERS.with(|i| i.borrow().contains(&s)) {
                return Some(simple_base(e, "vx_into", n));
            }
            None
        }
        Expr::Paren(p) => parse(&p.expr, n),
        Expr::Range(r) => {
            let a = r.start.as_ref()?.clone();
            let b = r.end.as_ref()?.clone();
            let k = *n;
            *n += 1;
            let (sa, sb) = (format_ident!("vx_a{}", k), format_ident!("vx_b{}", k));
            let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
            let mut setup: Vec<Stmt> = vec![];
            setup.push(parse_quote!(let #sa = #a;));
            setup.push(parse_quote!(let #sb = #b;));
            let sa2 = sa.clone();
            let len: Expr = if incl {
                parse_quote!(vx_rleni(#sa, #sb))
            } else {
                parse_quote!(vx_rlen(#sa, #sb))
            };
            Some(Pipe {
                setup,
                len,
                get: Box::new(move |i| parse_quote!(vx_rat(#sa2, #i))),
                stages: vec![],
            })
        }
        Expr::MethodCall(m) => parse_call(m, n),
        Expr::Call(c) => {
            let s = c.func.to_token_stream().to_string().replace(' ', "");
            if s.ends_with("once") && c.args.len() == 1 {
                let k = *n;
                *n += 1;
                let o = format_ident!("vx_o{}", k);
                let a = &c.args[0];
                let o2 = o.clone();
                return Some(Pipe {
                    setup: vec![parse_quote!(let #o = #a;)],
                    len: parse_quote!(1usize),
                    get: Box::new(move |_| parse_quote!(vx_own(&#o2))),
                    stages: vec![],
                });
            }
            None
        }
        _ => None,
    }
}

fn parse_call(m: &ExprMethodCall, n: &mut usize) -> Option<Pipe> {
    let name = m.method.to_string();
    match (name.as_str(), m.args.len()) {
        ("iter", 0) => Some(simple_base(&m.receiver, "vx_slice", n)),
        ("iter_mut", 0) if is_place(&m.receiver) => Some(mut_base(&m.receiver)),
        // the values of a map, by mutable reference
        ("values_mut", 0) if is_place(&m.receiver) => {
            let (b, b2) = (m.receiver.clone(), m.receiver.clone());
            Some(Pipe {
                setup: vec![],
                len: parse_quote!(#b.len()),
                get: Box::new(move |i| parse_quote!(#b2.vx_value_mut(#i))),
                stages: vec![],
            })
        }
        ("windows", 1) => {
            let p = simple_base(&m.receiver, "vx_slice", n);
            let k = *n - 1;
            let s = format_ident!("vx_s{}", k);
            let w = &m.args[0];
            let wi = format_ident!("vx_w{}", k);
            let mut setup = p.setup;
            setup.push(parse_quote!(let #wi: usize = #w;));
            Some(Pipe {
                setup,
                len: parse_quote!(vx_winlen(#s.len(), #wi)),
                get: Box::new(move |i| parse_quote!(vx_sub(#s, #i, #i + #wi))),
                stages: vec![],
            })
        }
        ("chunks", 1) => {
            let p = simple_base(&m.receiver, "vx_slice", n);
            let k = *n - 1;
            let s = format_ident!("vx_s{}", k);
            let w = &m.args[0];
            let wi = format_ident!("vx_w{}", k);
            let mut setup = p.setup;
            setup.push(parse_quote!(let #wi: usize = #w;));
            Some(Pipe {
                setup,
                len: parse_quote!(vx_chunks(#s.len(), #wi)),
                get: Box::new(move |i| parse_quote!(vx_chunk(#s, #i, #wi))),
                stages: vec![],
            })
        }
        ("into_iter", 0) => Some(match parse(&m.receiver, n) {
            Some(p) => p,
            None => simple_base(&m.receiver, "vx_into", n),
        }),
        ("by_ref" | "peekable", 0) => None,
        ("zip", 1) => {
            let a = parse(&m.receiver, n)?;
            if !a.stages.is_empty() {
                return None;
            }
            let b = source(&m.args[0], n);
            if !b.stages.is_empty() {
                return None;
            }
            let mut setup = a.setup;
            setup.extend(b.setup);
            let (la, lb) = (a.len, b.len);
            let (ga, gb) = (a.get, b.get);
            Some(Pipe {
                setup,
                len: parse_quote!(vx_min(#la, #lb)),
                get: Box::new(move |i| {
                    let x = ga(i.clone());
                    let y = gb(i);
                    parse_quote!((#x, #y))
                }),
                stages: vec![],
            })
        }
        ("chain", 1) => {
            let a = parse(&m.receiver, n)?;
            let b = source(&m.args[0], n);
            if !a.stages.is_empty() || !b.stages.is_empty() {
                return None;
            }
            let mut setup = a.setup;
            setup.extend(b.setup);
            let (la, lb) = (a.len, b.len);
            let (ga, gb) = (a.get, b.get);
            let la2 = la.clone();
            Some(Pipe {
                setup,
                len: parse_quote!(vx_addlen(#la, #lb)),
                get: Box::new(move |i| {
                    let x = ga(i.clone());
                    let y = gb(parse_quote!((#i - #la2)));
                    parse_quote!((if #i < #la2 { #x } else { #y }))
                }),
                stages: vec![],
            })
        }
        ("enumerate", 0) => {
            let a = parse(&m.receiver, n)?;
            if !a.stages.is_empty() {
                return None;
            }
            let g = a.get;
            Some(Pipe {
                get: Box::new(move |i| {
                    let x = g(i.clone());
                    parse_quote!((#i, #x))
                }),
                ..Pipe {
                    setup: a.setup,
                    len: a.len,
                    get: Box::new(|e| e),
                    stages: vec![],
                }
            })
        }
        ("rev", 0) => {
            let a = parse(&m.receiver, n)?;
            if !a.stages.is_empty() {
                return None;
            }
            let g = a.get;
            let l = a.len.clone();
            Some(Pipe {
                setup: a.setup,
                len: a.len,
                get: Box::new(move |i| g(parse_quote!((#l - 1 - #i)))),
                stages: vec![],
            })
        }
        ("skip", 1) => {
            let a = parse(&m.receiver, n)?;
            if !a.stages.is_empty() {
                return None;
            }
            let k = *n;
            *n += 1;
            let d = format_ident!("vx_d{}", k);
            let arg = &m.args[0];
            let mut setup = a.setup;
            setup.push(parse_quote!(let #d: usize = #arg;));
            let g = a.get;
            let l = a.len;
            Some(Pipe {
                setup,
                len: parse_quote!(vx_sub0(#l, #d)),
                get: Box::new(move |i| g(parse_quote!((#i + #d)))),
                stages: vec![],
            })
        }
        ("take", 1) => {
            let a = parse(&m.receiver, n)?;
            if !a.stages.is_empty() {
                return None;
            }
            let k = *n;
            *n += 1;
            let d = format_ident!("vx_d{}", k);
            let arg = &m.args[0];
            let mut setup = a.setup;
            setup.push(parse_quote!(let #d: usize = #arg;));
            let l = a.len;
            Some(Pipe {
                setup,
                len: parse_quote!(vx_min(#l, #d)),
                get: a.get,
                stages: vec![],
            })
        }
        ("cloned" | "copied", 0) => {
            let a = parse(&m.receiver, n)?;
            if a.stages.is_empty() {
                let g = a.get;
                Some(Pipe {
                    setup: a.setup,
                    len: a.len,
                    get: Box::new(move |i| {
                        let x = g(i);
                        parse_quote!(vx_own(#x))
                    }),
                    stages: vec![],
                })
            } else {
                let mut a = a;
                a.stages.push(Stage::Map(parse_quote!(vx_own)));
                Some(a)
            }
        }
        ("map", 1) => {
            let a = parse(&m.receiver, n)?;
            let c = m.args[0].clone();
            if a.stages.is_empty() {
                let g = a.get;
                Some(Pipe {
                    setup: a.setup,
                    len: a.len,
                    get: Box::new(move |i| apply(&c, g(i))),
                    stages: vec![],
                })
            } else {
                let mut a = a;
                a.stages.push(Stage::Map(c));
                Some(a)
            }
        }
        ("filter", 1) | ("filter_map", 1) | ("flat_map", 1) | ("take_while", 1) => {
            let mut a = parse(&m.receiver, n)?;
            let c = m.args[0].clone();
            a.stages.push(match name.as_str() {
                "filter" => Stage::Filter(c),
                "filter_map" => Stage::FilterMap(c),
                "take_while" => Stage::TakeWhile(c),
                _ => Stage::FlatMap(c),
            });
            Some(a)
        }
        ("flatten", 0) => {
            let mut a = parse(&m.receiver, n)?;
            a.stages.push(Stage::FlatMap(parse_quote!(|vx_q| vx_q)));
            Some(a)
        }
        ("dedup", 0) => {
            let mut a = parse(&m.receiver, n)?;
            a.stages.push(Stage::Dedup);
            Some(a)
        }
        _ => None,
    }
}

pub const ADAPTERS: &[&str] = &[
    "map",
    "filter",
    "filter_map",
    "flat_map",
    "chain",
    "zip",
    "enumerate",
    "rev",
    "skip",
    "take",
    "take_while",
    "cloned",
    "copied",
    "windows",
];
pub const SINKS: &[&str] = &[
    "all",
    "any",
    "collect",
    "position",
    "find",
    "count",
    "sum",
    "fold",
    "eq",
    "for_each",
    "try_for_each",
    "find_map",
    "try_fold_q",
    "last",
    "product",
    "max",
    "min",
    "next",
    "min_by_key",
    "max_by_key",
];

/// What to do with each element; `x` names the element.
pub struct LoopOut {
    pub pre: Vec<Stmt>,
    pub cond: Option<Expr>,
    pub body: Vec<Stmt>,
    pub result: Option<Expr>,
}

/// Builds `{ setup; pre; while cond && i < n PLACEHOLDER { x = get(i); i += 1; stages { body } } result }`
pub fn build(p: Pipe, ord: usize, out: LoopOut, x: &Pat, label: Option<syn::Label>, n: &mut usize) -> Block {
    let i = format_ident!("vx_i{}", ord);
    let nn = format_ident!("vx_n{}", ord);
    let ph = format_ident!("__VXP_LOOP_{}", ord);
    let phs = format_ident!("__VXP_INLOOP_{}", ord);
    let phe = format_ident!("__VXP_ENDLOOP_{}", ord);
    let phb = format_ident!("__VXP_BEFORE_{}", ord);
    let pha = format_ident!("__VXP_AFTER_{}", ord);
    let setup = &p.setup;
    let len = &p.len;
    let item = (p.get)(parse_quote!(#i));
    // innermost to outermost
    let xv = format_ident!("vx_x{}", ord);
    let tw = format_ident!("vx_w_{}", ord);
    let mut has_tw = false;
    let dd = format_ident!("vx_dd{}", ord);
    let mut has_dd = false;
    let body_stmts = &out.body;
    let is_same = matches!(x, Pat::Ident(pi) if pi.ident == xv);
    let mut inner: Block = if is_same {
        parse_quote!({ #(#body_stmts)* })
    } else {
        parse_quote!({ let #x = #xv; #(#body_stmts)* })
    };
    for st in p.stages.iter().rev() {
        inner = match st {
            Stage::Map(c) => {
                let e = apply(c, parse_quote!(#xv));
                let s = &inner.stmts;
                parse_quote!({ let #xv = #e; #(#s)* })
            }
            Stage::Filter(c) => {
                let e = apply(c, parse_quote!(&#xv));
                let s = &inner.stmts;
                parse_quote!({ if #e { #(#s)* } })
            }
            Stage::FilterMap(c) => {
                let e = apply(c, parse_quote!(#xv));
                let s = &inner.stmts;
                parse_quote!({ if let Some(#xv) = #e { #(#s)* } })
            }
            Stage::TakeWhile(c) => {
                let e = apply(c, parse_quote!(&#xv));
                let s = &inner.stmts;
                has_tw = true;
                parse_quote!({ if #e { #(#s)* } else { #tw = false; } })
            }
            Stage::FlatMap(c) => {
                let e = apply(c, parse_quote!(#xv));
                let q = source(&e, n);
                let k = *n;
                *n += 1;
                let j = format_ident!("vx_j{}", k);
                let m = format_ident!("vx_m{}", k);
                let iph = format_ident!("__VXP_FLAT_{}", ord);
                let iphs = format_ident!("__VXP_INFLAT_{}", ord);
                let qs = &q.setup;
                let ql = &q.len;
                let qg = (q.get)(parse_quote!(#j));
                let s = &inner.stmts;
                let w: syn::ExprWhile = parse_quote!(while #j < #m { #iph; #iphs; let #xv = #qg; #j = #j + 1; #(#s)* });
                parse_quote!({ #(#qs)* let #m: usize = #ql; let mut #j: usize = 0; #w })
            }
            Stage::Dedup => {
                let s = &inner.stmts;
                has_dd = true;
                parse_quote!({ if #dd.insert(vx_own(&#xv)) { #(#s)* } })
            }
        };
    }
    let istm = &inner.stmts;
    let mut w: syn::ExprWhile = parse_quote!(while true { #ph; #phs; let #xv = #item; #i = #i + 1; #(#istm)* #phe; });
    let cond = out.cond.as_ref();
    let twc = if has_tw { Some(quote!(#tw &&)) } else { None };
    w.cond = Box::new(match cond {
        Some(c) => parse_quote!(#c && #twc #i < #nn),
        None => parse_quote!(#twc #i < #nn),
    });
    w.label = label;
    let pre = &out.pre;
    let twd: Option<Stmt> = if has_tw { Some(parse_quote!(let mut #tw = true;)) } else { None };
    let ddd: Option<Stmt> = if has_dd { Some(parse_quote!(let mut #dd = IndexSet::new();)) } else { None };
    let res = &out.result;
    parse_quote!({
        #(#setup)*
        let #nn: usize = #len;
        #(#pre)*
        #twd
        #ddd
        let mut #i: usize = 0;
        #phb;
        #w
        #pha;
        #res
    })
}

pub fn sink(m: &ExprMethodCall, ord: usize, n: &mut usize, collect_ty: Option<&str>) -> Option<Expr> {
    let name = m.method.to_string();
    if !SINKS.contains(&name.as_str()) {
        return None;
    }
    if name == "eq" && m.args.len() == 1 {
        let a = parse(&m.receiver, n)?;
        let b = source(&m.args[0], n);
        if !a.stages.is_empty() || !b.stages.is_empty() {
            return None;
        }
        let r = format_ident!("vx_r{}", ord);
        let nb = format_ident!("vx_nb{}", ord);
        let nn = format_ident!("vx_n{}", ord);
        let mut setup = a.setup;
        setup.extend(b.setup);
        let lb = b.len;
        let (ga, gb) = (a.get, b.get);
        let p = Pipe {
            setup,
            len: a.len,
            get: Box::new(move |i| {
                let x = ga(i.clone());
                let y = gb(i);
                parse_quote!((#x, #y))
            }),
            stages: vec![],
        };
        let xv = format_ident!("vx_x{}", ord);
        let blk = build(
            p,
            ord,
            LoopOut {
                pre: vec![parse_quote!(let #nb: usize = #lb;), parse_quote!(let mut #r: bool = #nn == #nb;)],
                cond: Some(parse_quote!(#r)),
                body: vec![parse_quote!({ let (vx_l, vx_rr) = #xv; if !(vx_eqv(vx_l, vx_rr)) { #r = false; } })],
                result: Some(parse_quote!(#r)),
            },
            &parse_quote!(#xv),
            None,
            n,
        );
        return Some(parse_quote!(#blk));
    }
    let p = parse(&m.receiver, n)?;
    let r = format_ident!("vx_r{}", ord);
    let xv = format_ident!("vx_x{}", ord);
    let xp: Pat = parse_quote!(#xv);
    let c = m.args.first().cloned();
    let lo = match name.as_str() {
        "all" => {
            let b = apply(&c?, parse_quote!(#xv));
            LoopOut {
                pre: vec![parse_quote!(let mut #r: bool = true;)],
                cond: Some(parse_quote!(#r)),
                body: vec![parse_quote!(if !(#b) { #r = false; })],
                result: Some(parse_quote!(#r)),
            }
        }
        "any" => {
            let b = apply(&c?, parse_quote!(#xv));
            LoopOut {
                pre: vec![parse_quote!(let mut #r: bool = false;)],
                cond: Some(parse_quote!(!#r)),
                body: vec![parse_quote!(if #b { #r = true; })],
                result: Some(parse_quote!(#r)),
            }
        }
        "for_each" => {
            let b = apply(&c?, parse_quote!(#xv));
            LoopOut {
                pre: vec![],
                cond: None,
                body: vec![parse_quote!(#b;)],
                result: None,
            }
        }
        // only with a closure that gives a `ControlFlow`
        "try_for_each" => {
            let c = c?;
            if !c.to_token_stream().to_string().contains("ControlFlow") {
                return None;
            }
            let b = apply(&c, parse_quote!(#xv));
            LoopOut {
                pre: vec![parse_quote!(let mut #r = ControlFlow::Continue(());)],
                cond: Some(parse_quote!(#r.vx_go())),
                body: vec![parse_quote!(#r = #b;)],
                result: Some(parse_quote!(#r)),
            }
        }
        "position" => {
            let b = apply(&c?, parse_quote!(#xv));
            let i = format_ident!("vx_i{}", ord);
            if !p.stages.is_empty() {
                return None;
            }
            LoopOut {
                pre: vec![parse_quote!(let mut #r: Option<usize> = None;)],
                cond: Some(parse_quote!(#r.is_none())),
                body: vec![parse_quote!(if #b { #r = Some(#i - 1); })],
                result: Some(parse_quote!(#r)),
            }
        }
        "find" => {
            let b = apply(&c?, parse_quote!(&#xv));
            LoopOut {
                pre: vec![parse_quote!(let mut #r = None;)],
                cond: Some(parse_quote!(#r.is_none())),
                body: vec![parse_quote!(if #b { #r = Some(#xv); })],
                result: Some(parse_quote!(#r)),
            }
        }
        "next" => LoopOut {
            pre: vec![parse_quote!(let mut #r = None;)],
            cond: Some(parse_quote!(#r.is_none())),
            body: vec![parse_quote!(#r = Some(#xv);)],
            result: Some(parse_quote!(#r)),
        },
        "last" => LoopOut {
            pre: vec![parse_quote!(let mut #r = None;)],
            cond: None,
            body: vec![parse_quote!(#r = Some(#xv);)],
            result: Some(parse_quote!(#r)),
        },
        "find_map" => {
            let b = apply(&c?, parse_quote!(#xv));
            LoopOut {
                pre: vec![parse_quote!(let mut #r = None;)],
                cond: Some(parse_quote!(#r.is_none())),
                body: vec![parse_quote!(#r = #b;)],
                result: Some(parse_quote!(#r)),
            }
        }
        "min_by_key" | "max_by_key" => {
            // ties: the first minimum, the last maximum
            let c = c?;
            let k = format_ident!("vx_key{}", ord);
            let b = apply(&c, parse_quote!(&#xv));
            let cmp: Expr = if name == "min_by_key" {
                parse_quote!(vx_ky < #k)
            } else {
                parse_quote!(vx_ky >= #k)
            };
            LoopOut {
                pre: vec![parse_quote!(let mut #r = None;), parse_quote!(let mut #k = 0;)],
                cond: None,
                body: vec![parse_quote!({ let vx_ky = #b; if #r.is_none() || #cmp { #k = vx_ky; #r = Some(#xv); } })],
                result: Some(parse_quote!(#r)),
            }
        }
        "count" => LoopOut {
            pre: vec![parse_quote!(let mut #r: usize = 0;)],
            cond: None,
            body: vec![parse_quote!(#r = #r + 1;)],
            result: Some(parse_quote!(#r)),
        },
        "sum" => LoopOut {
            pre: vec![parse_quote!(let mut #r = vx_zero();)],
            cond: None,
            body: vec![parse_quote!(#r = vx_plus(#r, #xv);)],
            result: Some(parse_quote!(#r)),
        },
        "fold" => {
            let init = c?;
            let f = m.args.iter().nth(1)?.clone();
            let b = match &f {
                Expr::Closure(cl) if cl.inputs.len() == 2 => {
                    let (pa, px) = (&cl.inputs[0], &cl.inputs[1]);
                    let body = &cl.body;
                    quote!({ let #pa = #r; let #px = #xv; #body })
                }
                other => quote!(#other(#r, #xv)),
            };
            LoopOut {
                pre: vec![parse_quote!(let mut #r = #init;)],
                cond: None,
                body: vec![parse_quote!(#r = #b;)],
                result: Some(parse_quote!(#r)),
            }
        }
        // followed by `?`: an error leaves the function
        "try_fold_q" => {
            let init = c?;
            let f = m.args.iter().nth(1)?.clone();
            let b = match &f {
                Expr::Closure(cl) if cl.inputs.len() == 2 => {
                    let (pa, px) = (&cl.inputs[0], &cl.inputs[1]);
                    let body = &cl.body;
                    quote!({ let #pa = #r; let #px = #xv; #body })
                }
                other => quote!(#other(#r, #xv)),
            };
            if OPTFN.with(|o| *o.borrow()) {
                LoopOut {
                    pre: vec![parse_quote!(let mut #r = #init;)],
                    cond: None,
                    body: vec![parse_quote!(#r = match #b { Some(vx_ok) => vx_ok, None => { return None; } };)],
                    result: Some(parse_quote!(Some(#r))),
                }
            } else {
                LoopOut {
                    pre: vec![parse_quote!(let mut #r = #init;)],
                    cond: None,
                    body: vec![parse_quote!(#r = match vx_res(#b) { Ok(vx_ok) => vx_ok, Err(_) => { return Err(vx_err()); } };)],
                    result: Some(parse_quote!(vx_res(Ok(#r)))),
                }
            }
        }
        "collect" => {
            let ty = collect_ty.unwrap_or("Vec");
            match ty {
                "Result" => {
                    let e = format_ident!("vx_e{}", ord);
                    LoopOut {
                        pre: vec![parse_quote!(let mut #r = Vec::new();), parse_quote!(let mut #e: bool = true;)],
                        cond: Some(parse_quote!(#e)),
                        body: vec![parse_quote!(match vx_res(#xv) { Ok(vx_ok) => { #r.push(vx_ok); } Err(_) => { #e = false; } })],
                        result: Some(parse_quote!(if #e { Ok(#r) } else { Err(vx_err()) })),
                    }
                }
                "Option" => {
                    let e = format_ident!("vx_e{}", ord);
                    LoopOut {
                        pre: vec![parse_quote!(let mut #r = Vec::new();), parse_quote!(let mut #e: bool = true;)],
                        cond: Some(parse_quote!(#e)),
                        body: vec![parse_quote!(match #xv { Some(vx_ok) => { #r.push(vx_ok); } None => { #e = false; } })],
                        result: Some(parse_quote!(if #e { Some(#r) } else { None })),
                    }
                }
                "IndexSet" | "HashSet" | "MultiSet" => {
                    let t = format_ident!("{}", ty);
                    LoopOut {
                        pre: vec![parse_quote!(let mut #r = #t::new();)],
                        cond: None,
                        body: vec![parse_quote!(#r.insert(#xv);)],
                        result: Some(parse_quote!(#r)),
                    }
                }
                "IndexMap" | "HashMap" => {
                    let t = format_ident!("{}", ty);
                    LoopOut {
                        pre: vec![parse_quote!(let mut #r = #t::new();)],
                        cond: None,
                        body: vec![parse_quote!({ let (vx_k, vx_v) = #xv; #r.insert(vx_k, vx_v); })],
                        result: Some(parse_quote!(#r)),
                    }
                }
                "Vec" => LoopOut {
                    pre: vec![parse_quote!(let mut #r = Vec::new();)],
                    cond: None,
                    body: vec![parse_quote!(#r.push(#xv);)],
                    result: Some(parse_quote!(#r)),
                },
                _ => return None,
            }
        }
        _ => return None,
    };
    let blk = build(p, ord, lo, &xp, None, n);
    Some(parse_quote!(#blk))
}
