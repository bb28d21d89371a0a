//! Rewrites slice patterns (unsupported by Verus) into patterns over the prelude's `VxSl` view.
use quote::{format_ident, quote};
use std::collections::BTreeSet;
use syn::{parse_quote, Expr, Pat};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Form {
    Exact,
    Pre(usize),
    Suf(usize),
    Ends, // [first, mid @ .., last]
}

fn strip<'a>(p: &'a Pat) -> &'a Pat {
    match p {
        Pat::Paren(x) => strip(&x.pat),
        Pat::Reference(x) => strip(&x.pat),
        _ => p,
    }
}

fn form_of(s: &syn::PatSlice) -> Form {
    let is_rest = |p: &Pat| match p {
        Pat::Rest(_) => true,
        Pat::Ident(i) => matches!(i.subpat.as_ref().map(|(_, s)| &**s), Some(Pat::Rest(_))),
        _ => false,
    };
    let n = s.elems.len();
    match s.elems.iter().position(is_rest) {
        None => Form::Exact,
        Some(k) if k == n - 1 => Form::Pre(n - 1),
        Some(0) => Form::Suf(n - 1),
        Some(1) if n == 3 => Form::Ends,
        Some(_) => Form::Exact,
    }
}

/// Does any slice pattern occur in this pattern (at any depth)?
pub fn has_slice(p: &Pat) -> bool {
    match p {
        Pat::Slice(_) => true,
        Pat::Paren(x) => has_slice(&x.pat),
        Pat::Reference(x) => has_slice(&x.pat),
        Pat::Or(o) => o.cases.iter().any(has_slice),
        Pat::Tuple(t) => t.elems.iter().any(has_slice),
        Pat::TupleStruct(t) => t.elems.iter().any(has_slice),
        Pat::Struct(t) => t.fields.iter().any(|f| has_slice(&f.pat)),
        Pat::Ident(i) => i.subpat.as_ref().map_or(false, |(_, s)| has_slice(s)),
        _ => false,
    }
}

fn forms(p: &Pat, out: &mut BTreeSet<Form>, binds: &mut bool) {
    match strip(p) {
        Pat::Slice(s) => {
            out.insert(form_of(s));
        }
        Pat::Or(o) => o.cases.iter().for_each(|c| forms(c, out, binds)),
        Pat::Ident(i) => {
            *binds = true;
            if let Some((_, s)) = &i.subpat {
                forms(s, out, &mut false);
            }
        }
        _ => {}
    }
}

/// Rewrites a scrutinee and all the patterns it is matched with. Returns false if unsupported.
pub fn rewrite(scrut: &mut Expr, pats: &mut [&mut Pat]) -> bool {
    if !pats.iter().any(|p| has_slice(p)) {
        return true;
    }
    // tuple scrutinee: component-wise
    let mut sc = scrut.clone();
    while let Expr::Paren(p) = &sc {
        sc = (*p.expr).clone();
    }
    if let Expr::Tuple(t) = &mut sc {
        let n = t.elems.len();
        for k in 0..n {
            let mut sub: Vec<&mut Pat> = vec![];
            for p in pats.iter_mut() {
                collect_component(p, k, &mut sub);
            }
            if !rewrite(&mut t.elems[k], &mut sub) {
                return false;
            }
        }
        *scrut = sc;
        return true;
    }
    // slice at this position
    let direct = pats.iter().any(|p| {
        let mut f = BTreeSet::new();
        forms(p, &mut f, &mut false);
        !f.is_empty()
    });
    if direct {
        let mut fs = BTreeSet::new();
        let mut binds = false;
        for p in pats.iter() {
            forms(p, &mut fs, &mut binds);
        }
        let fs: Vec<Form> = fs.into_iter().collect();
        if fs.len() == 1 && !binds {
            let f = &fs[0];
            let call = view(f, quote!(#scrut));
            for p in pats.iter_mut() {
                if !conv_single(p, f) {
                    return false;
                }
            }
            *scrut = syn::parse2(call).unwrap();
            return true;
        }
        // general: tuple of views, plus the slice itself
        let views: Vec<_> = fs.iter().map(|f| view(f, quote!(vx_t))).collect();
        let e = scrut.clone();
        *scrut = parse_quote!({ let vx_t = #e; (#(#views,)* vx_t) });
        for p in pats.iter_mut() {
            if !conv_multi(p, &fs) {
                return false;
            }
        }
        return true;
    }
    // Some([..]) over an option-valued scrutinee
    let opt = pats.iter().all(|p| match strip(p) {
        Pat::TupleStruct(ts) => ts.path.segments.last().unwrap().ident == "Some",
        Pat::Wild(_) | Pat::Ident(_) => true,
        Pat::Or(_) => true,
        _ => false,
    });
    if opt {
        let mut fs = BTreeSet::new();
        let mut binds = false;
        let mut tuple_arity = None;
        for p in pats.iter() {
            if let Pat::TupleStruct(ts) = strip(p) {
                if let Pat::Tuple(t) = strip(&ts.elems[0]) {
                    tuple_arity = Some(t.elems.len());
                }
                forms(&ts.elems[0], &mut fs, &mut binds);
            }
        }
        if tuple_arity.is_some() {
            return false;
        }
        let fs: Vec<Form> = fs.into_iter().collect();
        let views: Vec<_> = fs.iter().map(|f| view(f, quote!(vx_t))).collect();
        let e = scrut.clone();
        *scrut = parse_quote!(match #e { Some(vx_t) => Some((#(#views,)* vx_t)), None => None });
        for p in pats.iter_mut() {
            match &mut **p {
                Pat::TupleStruct(ts) => {
                    let mut inner: Pat = ts.elems[0].clone();
                    if !conv_multi(&mut inner, &fs) {
                        return false;
                    }
                    ts.elems[0] = inner;
                }
                Pat::Wild(_) | Pat::Ident(_) => {}
                _ => return false,
            }
        }
        return true;
    }
    false
}

fn collect_component<'a>(p: &'a mut Pat, k: usize, out: &mut Vec<&'a mut Pat>) {
    match p {
        Pat::Tuple(t) => {
            if let Some(x) = t.elems.iter_mut().nth(k) {
                out.push(x);
            }
        }
        Pat::Paren(x) => collect_component(&mut x.pat, k, out),
        Pat::Or(o) => {
            for c in o.cases.iter_mut() {
                collect_component(c, k, out);
            }
        }
        _ => {}
    }
}

fn view(f: &Form, e: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    match f {
        Form::Exact => quote!(vx_slk(#e)),
        Form::Pre(n) => {
            let i = format_ident!("vx_pre{}", n);
            quote!(#i(#e))
        }
        Form::Suf(n) => {
            let i = format_ident!("vx_suf{}", n);
            quote!(#i(#e))
        }
        Form::Ends => quote!(vx_ends(#e)),
    }
}

fn slice_to_view(s: &syn::PatSlice, f: &Form) -> Pat {
    let conv_rest = |p: &Pat| -> Pat {
        match p {
            Pat::Rest(_) => parse_quote!(_),
            Pat::Ident(i) if i.subpat.is_some() => {
                let id = &i.ident;
                parse_quote!(#id)
            }
            p => p.clone(),
        }
    };
    let el: Vec<Pat> = s.elems.iter().map(conv_rest).collect();
    match f {
        Form::Exact => {
            let v = format_ident!("S{}", el.len());
            if el.is_empty() {
                parse_quote!(VxSl::S0)
            } else {
                parse_quote!(VxSl::#v(#(#el),*))
            }
        }
        _ => parse_quote!(Some((#(#el),*))),
    }
}

fn conv_single(p: &mut Pat, f: &Form) -> bool {
    match p {
        Pat::Slice(s) => {
            *p = slice_to_view(s, f);
            true
        }
        Pat::Reference(r) => {
            let mut inner = (*r.pat).clone();
            let ok = conv_single(&mut inner, f);
            *p = inner;
            ok
        }
        Pat::Paren(x) => conv_single(&mut x.pat, f),
        Pat::Or(o) => o.cases.iter_mut().all(|c| conv_single(c, f)),
        Pat::Wild(_) => true,
        _ => false,
    }
}

fn conv_multi(p: &mut Pat, fs: &[Form]) -> bool {
    match p {
        Pat::Slice(s) => {
            let f = form_of(s);
            let k = fs.iter().position(|x| *x == f).unwrap();
            let el: Vec<Pat> = (0..=fs.len()).map(|j| if j == k { slice_to_view(s, &f) } else { parse_quote!(_) }).collect();
            *p = parse_quote!((#(#el),*));
            true
        }
        Pat::Reference(r) => {
            let mut inner = (*r.pat).clone();
            let ok = conv_multi(&mut inner, fs);
            *p = inner;
            ok
        }
        Pat::Paren(x) => conv_multi(&mut x.pat, fs),
        Pat::Or(o) => o.cases.iter_mut().all(|c| conv_multi(c, fs)),
        Pat::Wild(_) => true,
        Pat::Ident(i) => {
            let id = &i.ident;
            let mut el: Vec<Pat> = vec![];
            if let Some((_, s)) = &i.subpat {
                if let Pat::Slice(s) = &**s {
                    let f = form_of(s);
                    let k = fs.iter().position(|x| *x == f).unwrap();
                    for j in 0..fs.len() {
                        el.push(if j == k { slice_to_view(s, &f) } else { parse_quote!(_) });
                    }
                } else {
                    return false;
                }
            } else {
                for _ in 0..fs.len() {
                    el.push(parse_quote!(_));
                }
            }
            el.push(parse_quote!(#id));
            *p = parse_quote!((#(#el),*));
            true
        }
        _ => false,
    }
}
