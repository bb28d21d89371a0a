//! `use Enum::*` inside a function: variants are written with the name of their enum
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Item, Pat};

fn enums(items: &[Item], out: &mut BTreeMap<String, BTreeSet<String>>) {
    for i in items {
        match i {
            Item::Enum(e) => {
                out.entry(e.ident.to_string())
                    .or_default()
                    .extend(e.variants.iter().map(|v| v.ident.to_string()));
            }
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    enums(its, out);
                }
            }
            _ => {}
        }
    }
}

pub fn qualify(f: &mut syn::File) {
    let mut e = BTreeMap::new();
    enums(&f.items, &mut e);
    Q { enums: e, scope: vec![] }.visit_file_mut(f);
}

struct Q {
    enums: BTreeMap<String, BTreeSet<String>>,
    /// the enums whose variants are in scope
    scope: Vec<String>,
}

fn glob(t: &syn::UseTree) -> Option<String> {
    match t {
        syn::UseTree::Path(p) => match &*p.tree {
            syn::UseTree::Glob(_) => Some(p.ident.to_string()),
            t => glob(t),
        },
        _ => None,
    }
}

impl Q {
    fn find(&self, p: &syn::Path) -> Option<syn::Path> {
        let id = p.get_ident()?;
        let en = self.scope.iter().rev().find(|e| self.enums[*e].contains(&id.to_string()))?;
        let en = quote::format_ident!("{}", en);
        Some(parse_quote!(#en::#id))
    }
}

impl VisitMut for Q {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let n = self.scope.len();
        for s in &b.stmts {
            if let syn::Stmt::Item(Item::Use(u)) = s {
                if let Some(e) = glob(&u.tree) {
                    if self.enums.contains_key(&e) {
                        self.scope.push(e);
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
        self.scope.truncate(n);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                if let Some(q) = self.find(&p.path) {
                    p.path = q;
                }
            }
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        match p {
            Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() => {
                if let Some(q) = self.find(&i.ident.clone().into()) {
                    *p = parse_quote!(#q);
                }
            }
            Pat::TupleStruct(t) => {
                if let Some(q) = self.find(&t.path) {
                    t.path = q;
                }
            }
            _ => {}
        }
    }
}
