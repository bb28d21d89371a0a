//! vx: mechanical extraction of functions of /repo's (macro-expanded) source into a Verus file.
//! usage: vx <expanded.rs> <unit.vu> <out.rs> <report.json> [--external fn1,fn2]
mod erase;
mod globs;
mod pipe;
mod print;
mod slices;
mod unit;
mod xform;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::{Item, ItemFn, Signature};

/// Everything found in the expanded crate, by path.
pub struct Db {
    pub fns: BTreeMap<String, FnSrc>,
    pub types: BTreeMap<String, Item>,
}

#[derive(Clone)]
pub struct FnSrc {
    pub sig: Signature,
    pub block: syn::Block,
    /// `Some(self type, generics)` if the function is in an impl
    pub imp: Option<(syn::Type, syn::Generics)>,
    pub module: String,
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => {
            let seg = p.path.segments.last().unwrap();
            // `impl Rc<Term>` and `impl Term` are both named `Term`-like: keep the generic argument
            if seg.ident == "Rc" {
                if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                    if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                        return format!("Rc<{}>", type_name(t));
                    }
                }
            }
            seg.ident.to_string()
        }
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => "?".into(),
    }
}

fn collect(items: &[Item], path: &str, db: &mut Db) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if m.ident == "tests" || m.attrs.iter().any(|a| quote::quote!(#a).to_string().contains("cfg (test)")) {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    let p = if path.is_empty() {
                        m.ident.to_string()
                    } else {
                        format!("{}::{}", path, m.ident)
                    };
                    collect(its, &p, db);
                }
            }
            Item::Fn(f) => {
                db.fns.insert(
                    join(path, &f.sig.ident.to_string()),
                    FnSrc {
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        imp: None,
                        module: path.to_string(),
                    },
                );
            }
            Item::Impl(i) => {
                let tn = type_name(&i.self_ty);
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        let name = match &i.trait_ {
                            None => join(path, &format!("{}::{}", tn, f.sig.ident)),
                            Some((_, tp, _)) => {
                                let t = quote::quote!(#tp).to_string().replace(' ', "");
                                let t = t
                                    .rsplit_once("::")
                                    .map(|x| if x.0.contains('<') { t.clone() } else { x.1.to_string() })
                                    .unwrap_or(t.clone());
                                join(path, &format!("{}::{}::{}", tn, t, f.sig.ident))
                            }
                        };
                        db.fns.insert(
                            name,
                            FnSrc {
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                imp: Some(((*i.self_ty).clone(), i.generics.clone())),
                                module: path.to_string(),
                            },
                        );
                    }
                }
            }
            Item::Trait(t) => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        if let Some(b) = &f.default {
                            db.fns.insert(
                                join(path, &format!("{}::{}", t.ident, f.sig.ident)),
                                FnSrc {
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                    imp: None,
                                    module: path.to_string(),
                                },
                            );
                        }
                    }
                }
            }
            Item::Enum(e) => {
                db.types.insert(join(path, &e.ident.to_string()), it.clone());
            }
            Item::Struct(e) => {
                db.types.insert(join(path, &e.ident.to_string()), it.clone());
            }
            Item::Type(e) => {
                db.types.insert(join(path, &e.ident.to_string()), it.clone());
            }
            Item::Const(e) => {
                db.types.insert(join(path, &e.ident.to_string()), it.clone());
            }
            _ => {}
        }
    }
}

pub fn join(a: &str, b: &str) -> String {
    if a.is_empty() {
        b.to_string()
    } else {
        format!("{}::{}", a, b)
    }
}

pub struct Report {
    pub functions: Vec<(String, String, String)>, // (source path, emitted name, status)
    pub missing: Vec<String>,
    pub unsupported: Vec<(String, String)>,
    pub rewrites: BTreeMap<String, usize>,
    pub auto_helpers: Vec<String>,
    pub shape: BTreeMap<String, String>,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).expect("expanded source");
    let src = src.replace("$crate", "crate");
    let mut file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("cannot parse expanded source: {} at {:?}", e, e.span().start());
            std::process::exit(3);
        }
    };
    let mut db = Db {
        fns: BTreeMap::new(),
        types: BTreeMap::new(),
    };
    globs::qualify(&mut file);
    collect(&file.items, "", &mut db);
    if a[2] == "--list" {
        for k in db.fns.keys() {
            println!("{}", k);
        }
        for k in db.types.keys() {
            println!("type {}", k);
        }
        return;
    }
    let mut external: BTreeSet<String> = BTreeSet::new();
    let mut i = 5;
    while i < a.len() {
        if a[i] == "--external" {
            external = a[i + 1].split(',').map(|s| s.to_string()).collect();
            i += 1;
        }
        i += 1;
    }
    let u = unit::parse_unit(std::path::Path::new(&a[2]));
    let mut rep = Report {
        functions: vec![],
        missing: vec![],
        unsupported: vec![],
        rewrites: BTreeMap::new(),
        auto_helpers: vec![],
        shape: BTreeMap::new(),
    };
    let out = unit::emit(&u, &db, &external, &mut rep);
    std::fs::write(&a[3], out).unwrap();
    // report
    let mut s = String::from("{\n");
    let esc = |x: &str| x.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n");
    s += "\"functions\": [\n";
    s += &rep
        .functions
        .iter()
        .map(|(a, b, c)| format!("  [\"{}\", \"{}\", \"{}\"]", esc(a), esc(b), esc(c)))
        .collect::<Vec<_>>()
        .join(",\n");
    s += "],\n\"missing\": [";
    s += &rep.missing.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(", ");
    s += "],\n\"unsupported\": [";
    s += &rep
        .unsupported
        .iter()
        .map(|(x, y)| format!("[\"{}\", \"{}\"]", esc(x), esc(y)))
        .collect::<Vec<_>>()
        .join(", ");
    s += "],\n\"auto_helpers\": [";
    s += &rep.auto_helpers.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(", ");
    s += "],\n\"shape\": {";
    s += &rep
        .shape
        .iter()
        .map(|(k, v)| format!("\"{}\": \"{}\"", esc(k), esc(v)))
        .collect::<Vec<_>>()
        .join(", ");
    s += "},\n\"rewrites\": {";
    s += &rep
        .rewrites
        .iter()
        .map(|(k, v)| format!("\"{}\": {}", esc(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    s += "}\n}\n";
    std::fs::write(&a[4], s).unwrap();
}

#[allow(dead_code)]
fn unused(_: HashMap<String, ItemFn>) {}
