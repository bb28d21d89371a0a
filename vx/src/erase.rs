//! `%erase names`: removal of code that only feeds statistics and timing. The listed variables may be bound, updated
//! and passed on; nothing else may depend on them (a use that is left over makes the function fail to compile, hence
//! undecided), and a removed statement contains no `?`, `return`, `break` or `continue`.
use quote::ToTokens;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{Block, Expr, Pat, Stmt};

pub struct Erase<'a> {
    pub names: &'a [String],
    pub n: usize,
}

struct Escapes(bool);
impl<'a> Visit<'a> for Escapes {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
fn escapes(e: &Expr) -> bool {
    let mut v = Escapes(false);
    v.visit_expr(e);
    v.0
}

impl Erase<'_> {
    fn is_name(&self, s: &str) -> bool {
        self.names.iter().any(|n| n == s)
    }
    /// the variable an expression is a place or reference of
    fn root(e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) if p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
            Expr::Field(f) => Self::root(&f.base),
            Expr::Reference(r) => Self::root(&r.expr),
            Expr::Unary(u) => Self::root(&u.expr),
            Expr::Paren(p) => Self::root(&p.expr),
            Expr::MethodCall(m) => Self::root(&m.receiver),
            _ => None,
        }
    }
    fn erased(&self, e: &Expr) -> bool {
        if let Expr::Call(c) = e {
            // `Some(stats)`
            return c.args.len() == 1 && c.func.to_token_stream().to_string() == "Some" && self.erased(&c.args[0]);
        }
        if let Expr::Path(p) = e {
            // `None::<&mut CheckerStatistics<..>>`
            let t = p.to_token_stream().to_string();
            if t.starts_with("None") && t.contains("CheckerStatistics") {
                return true;
            }
        }
        Self::root(e).is_some_and(|r| self.is_name(&r))
    }
    /// only assignments to, and method calls on, erased things (or fields of the payload `p`)
    fn only_stats(&self, b: &Block, p: &[String]) -> bool {
        let mut local: Vec<String> = p.to_vec();
        b.stmts.iter().all(|s| match s {
            Stmt::Local(l) => {
                if let Pat::Ident(i) = &l.pat {
                    local.push(i.ident.to_string());
                }
                l.init.as_ref().is_none_or(|i| !escapes(&i.expr))
            }
            Stmt::Expr(e, _) => {
                let ok = |r: &Expr| Self::root(r).is_some_and(|r| self.is_name(&r) || local.contains(&r));
                match e {
                    Expr::Assign(a) => ok(&a.left) && !escapes(&a.right),
                    Expr::Binary(b) => ok(&b.left) && !escapes(&b.right),
                    Expr::MethodCall(m) => ok(&m.receiver) && m.args.iter().all(|a| !escapes(a)),
                    _ => false,
                }
            }
            _ => false,
        })
    }
    fn idents(p: &Pat) -> Vec<String> {
        struct V(Vec<String>);
        impl<'a> Visit<'a> for V {
            fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
                self.0.push(i.ident.to_string());
            }
        }
        let mut v = V(vec![]);
        v.visit_pat(p);
        v.0
    }
}

impl VisitMut for Erase<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let drop = match &s {
                Stmt::Local(l) => {
                    let id = match &l.pat {
                        Pat::Ident(i) => Some(i.ident.to_string()),
                        Pat::Type(t) => match &*t.pat {
                            Pat::Ident(i) => Some(i.ident.to_string()),
                            _ => None,
                        },
                        _ => None,
                    };
                    id.is_some_and(|i| self.is_name(&i)) && l.init.as_ref().is_none_or(|i| !escapes(&i.expr))
                }
                Stmt::Expr(Expr::Assign(a), _) => self.erased(&a.left) && !escapes(&a.right),
                Stmt::Expr(Expr::Binary(x), _) => self.erased(&x.left) && !escapes(&x.right) && x.op.to_token_stream().to_string().ends_with('='),
                Stmt::Expr(Expr::If(i), _) => match &*i.cond {
                    Expr::Let(l) => self.erased(&l.expr) && i.else_branch.is_none() && self.only_stats(&i.then_branch, &Self::idents(&l.pat)),
                    _ => false,
                },
                _ => false,
            };
            if drop {
                self.n += 1;
            } else {
                out.push(s);
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => {
                c.args = std::mem::take(&mut c.args).into_iter().filter(|a| !self.erased(a)).collect();
            }
            Expr::MethodCall(c) => {
                c.args = std::mem::take(&mut c.args).into_iter().filter(|a| !self.erased(a)).collect();
            }
            Expr::Tuple(t) if t.elems.len() > 2 => {
                t.elems = std::mem::take(&mut t.elems).into_iter().filter(|a| !self.erased(a)).collect();
            }
            Expr::Struct(s) => {
                s.fields = std::mem::take(&mut s.fields).into_iter().filter(|f| !self.erased(&f.expr)).collect();
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_tuple_mut(&mut self, t: &mut syn::PatTuple) {
        if t.elems.len() > 2 {
            t.elems = std::mem::take(&mut t.elems)
                .into_iter()
                .filter(|p| !matches!(p, Pat::Ident(i) if self.is_name(&i.ident.to_string())))
                .collect();
        }
        visit_mut::visit_pat_tuple_mut(self, t);
    }
    fn visit_type_tuple_mut(&mut self, t: &mut syn::TypeTuple) {
        if t.elems.len() > 2 {
            t.elems = std::mem::take(&mut t.elems)
                .into_iter()
                .filter(|p| !p.to_token_stream().to_string().starts_with("CheckerStatistics"))
                .collect();
        }
        visit_mut::visit_type_tuple_mut(self, t);
    }
    fn visit_signature_mut(&mut self, s: &mut syn::Signature) {
        s.inputs = std::mem::take(&mut s.inputs)
            .into_iter()
            .filter(|a| match a {
                syn::FnArg::Typed(t) => !Self::idents(&t.pat).iter().any(|i| self.is_name(i)),
                _ => true,
            })
            .collect();
    }
}
