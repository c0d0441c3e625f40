//! vextract --repo DIR --contracts DIR --out FILE --map FILE [--demote fn]...
//!
//! Turns the stages 1 to 3 of /repo/src into one Verus file, with the contracts woven in.
//! What the translation does is listed in DESIGN.md ("Extraction").
mod contracts;
mod derived;
mod desugar;
mod emit;

use quote::ToTokens;
use std::collections::BTreeMap;
use syn::*;

/// A function on its way into the generated file
pub struct Func {
    /// e.g. ast1::Document::from_str
    pub path: String,
    pub module: String,
    pub self_ty: Option<String>,
    pub sig: Signature,
    pub body: Block,
    /// token text of the original, for comparison with the baseline
    pub source: String,
    pub macros: BTreeMap<String, proc_macro2::TokenStream>,
}

#[derive(Default)]
pub struct Module {
    pub types: Vec<Item>,
    pub funcs: Vec<Func>,
    /// (source type, target type) of From impls
    pub into: Vec<(String, String)>,
    pub try_into: Vec<(String, String)>,
    pub consts: Vec<Item>,
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let repo = opt("--repo").unwrap_or("/repo".into());
    let cdir = opt("--contracts").unwrap_or("/verif/contracts".into());
    let demote: Vec<String> =
        args.iter().zip(args.iter().skip(1)).filter(|(a, _)| *a == "--demote").map(|(_, b)| b.clone()).collect();

    let demote_mod: Vec<String> =
        args.iter().zip(args.iter().skip(1)).filter(|(a, _)| *a == "--demote-module").map(|(_, b)| b.clone()).collect();
    let mut demote = demote;
    let mut modules: BTreeMap<String, Module> = BTreeMap::new();
    let src = std::path::Path::new(&repo).join("src");
    for stage in ["ast1", "ast2", "ast3"] {
        let mut files: Vec<_> = std::fs::read_dir(src.join(stage))
            .unwrap()
            .map(|e| e.unwrap().path())
            .filter(|p| p.extension().is_some_and(|e| e == "rs"))
            .collect();
        files.sort();
        let m = modules.entry(stage.to_string()).or_default();
        for f in files {
            collect(m, stage, &std::fs::read_to_string(&f).unwrap());
        }
        // the only values the code compares as a whole are those of stage 1
        if stage == "ast1" {
            derived::derived_eq(m, stage)
        }
    }
    let mut root = Module::default();
    for f in ["error.rs", "internal_error.rs"] {
        collect(&mut root, "", &std::fs::read_to_string(src.join(f)).unwrap());
    }
    // of the root module only the types and `Error::new` are wanted
    root.funcs.retain(|f| f.path == "Error::new");

    for d in &demote_mod {
        for f in &modules[d].funcs {
            demote.push(f.path.clone())
        }
        for t in ["v_to_string", "v_conv", "v_try_conv"] {
            for n in ["Chunk", "ChunkVariant", "Command", "Scope", "Environment", "MathsBlock", "Document", "ScopeVariant"] {
                demote.push(format!("{d}::{n}::{t}"))
            }
        }
    }
    let contracts = contracts::load(std::path::Path::new(&cdir));
    let out = emit::emit(root, modules, &contracts, &demote, std::path::Path::new(&cdir));
    std::fs::write(opt("--out").expect("--out"), &out.text).unwrap();
    std::fs::write(opt("--map").expect("--map"), serde_json::to_string_pretty(&out.map).unwrap()).unwrap();
}

/// Refuses what the rules take to mean something else: a trait that changes what operators, `clone` or
/// loops do, and methods named like those that the rules translate
fn known_impl(i: &ItemImpl) {
    if let Some((_, p, _)) = &i.trait_ {
        let t = p.segments.last().unwrap().ident.to_string();
        const TRAITS: [&str; 9] =
            ["From", "TryFrom", "FromStr", "Display", "Lines", "Validate", "IntoChunks", "Error", "Default"];
        if !TRAITS.contains(&t.as_str()) && t != "Debug" {
            panic!("an impl of {t} is not covered")
        }
    } else {
        for f in &i.items {
            if let ImplItem::Fn(f) = f {
                let n = f.sig.ident.to_string();
                if ["clone", "to_string", "into", "try_into", "parse", "iter", "into_iter", "default", "eq", "ne"].contains(&n.as_str()) {
                    panic!("a method named {n} is not covered")
                }
            }
        }
    }
}

/// Refuses closures that return early: they are read as part of the function
struct Early;

impl<'a> syn::visit::Visit<'a> for Early {
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        struct In;
        impl<'a> syn::visit::Visit<'a> for In {
            fn visit_expr_return(&mut self, _: &'a ExprReturn) {
                panic!("a closure that returns early is not covered")
            }
            fn visit_expr_try(&mut self, _: &'a ExprTry) {
                panic!("a closure that returns early is not covered")
            }
            fn visit_macro(&mut self, m: &'a Macro) {
                let t = m.tokens.to_string();
                if t.contains("return") || t.contains('?') {
                    panic!("a closure that returns early is not covered")
                }
            }
        }
        syn::visit::Visit::visit_expr(&mut In, &c.body);
        syn::visit::visit_expr_closure(self, c)
    }
}

/// Whether an item is compiled out of the ordinary build
fn cfgd_out(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("not") {
            panic!("a negated cfg is not covered")
        }
        a.path().is_ident("cfg") && {
            let t = a.meta.to_token_stream().to_string();
            t.contains("latex_ast_verif") || t.contains("test")
        }
    })
}

fn ty_name(t: &Type) -> String {
    t.to_token_stream().to_string().replace(' ', "").replace("crate::", "")
}

fn collect(m: &mut Module, module: &str, text: &str) {
    let file = syn::parse_file(text).expect("the library parses");
    items(m, module, file.items)
}

fn items(m: &mut Module, module: &str, list: Vec<Item>) {
    let pre = if module.is_empty() { String::new() } else { format!("{module}::") };
    for item in list {
        match item {
            Item::Struct(s) if !cfgd_out(&s.attrs) => m.types.push(Item::Struct(s)),
            Item::Enum(e) if !cfgd_out(&e.attrs) => m.types.push(Item::Enum(e)),
            Item::Const(c) if !cfgd_out(&c.attrs) => m.consts.push(Item::Const(c)),
            Item::Fn(f) if !cfgd_out(&f.attrs) => {
                let path = format!("{pre}{}", f.sig.ident);
                push_fn(m, module, None, &path, f.sig, *f.block, BTreeMap::new())
            }
            Item::Mod(md) if !cfgd_out(&md.attrs) && md.ident != "verif" => {
                if let Some((_, l)) = md.content {
                    items(m, module, l)
                }
            }
            Item::Impl(i) if !cfgd_out(&i.attrs) => {
                known_impl(&i);
                let ty = ty_name(&i.self_ty);
                let mut assoc: Vec<(String, Type)> = vec![];
                let mut tr = None;
                if let Some((_, p, _)) = &i.trait_ {
                    let seg = p.segments.last().unwrap();
                    tr = Some(seg.ident.to_string());
                    if let PathArguments::AngleBracketed(a) = &seg.arguments {
                        if let Some(GenericArgument::Type(t)) = a.args.first() {
                            let mut from = ty_name(t);
                            if !from.contains("::") {
                                from = format!("{pre}{from}")
                            }
                            match seg.ident.to_string().as_str() {
                                "From" => m.into.push((from, format!("{pre}{ty}"))),
                                "TryFrom" => m.try_into.push((from, format!("{pre}{ty}"))),
                                _ => {}
                            }
                        }
                    }
                }
                for it in &i.items {
                    if let ImplItem::Type(t) = it {
                        assoc.push((t.ident.to_string(), t.ty.clone()))
                    }
                }
                for it in i.items {
                    if let ImplItem::Fn(f) = it {
                        if cfgd_out(&f.attrs) {
                            continue;
                        }
                        let mut sig = f.sig;
                        desugar::replace_assoc(&mut sig, &assoc);
                        let mut name = sig.ident.to_string();
                        if tr.as_deref() == Some("From") && ty == "ScopeVariant" {
                            // several conversions to one type: told apart by name
                            let from = &m.into.last().unwrap().0;
                            name = format!("from_{}", from.split("::").next().unwrap());
                            sig.ident = Ident::new(&name, sig.ident.span());
                        }
                        let path = format!("{pre}{ty}::{name}");
                        push_fn(m, module, Some(ty.clone()), &path, sig, f.block, BTreeMap::new())
                    }
                }
            }
            _ => {}
        }
    }
}

fn push_fn(
    m: &mut Module,
    module: &str,
    self_ty: Option<String>,
    path: &str,
    sig: Signature,
    mut body: Block,
    outer: BTreeMap<String, proc_macro2::TokenStream>,
) {
    let source = format!("{} {}", sig.to_token_stream(), body.to_token_stream());
    syn::visit::Visit::visit_block(&mut Early, &body);
    let mut macros = outer;
    let nested = desugar::take_nested(&mut body, &mut macros);
    let mut renames = vec![];
    for n in nested {
        match n {
            Item::Fn(f) => {
                let new = format!("{}_{}", path.rsplit("::").take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("_"), f.sig.ident);
                renames.push((f.sig.ident.to_string(), new.clone()));
                let p = format!("{path}::{}", f.sig.ident);
                let mut sig = f.sig;
                sig.ident = Ident::new(&new, sig.ident.span());
                push_fn(m, module, None, &p, sig, *f.block, macros.clone())
            }
            other => m.types.push(other),
        }
    }
    for t in macros.values_mut() {
        *t = desugar::rename_tokens(t.clone(), &renames)
    }
    let body = desugar::rename_block(body, &renames);
    m.funcs.push(Func {
        path: path.to_string(),
        module: module.to_string(),
        self_ty,
        sig,
        body,
        source,
        macros,
    })
}
