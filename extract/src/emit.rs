//! Prints the Verus file, and the map from its lines to functions and clauses
use crate::contracts::{Clause, Contracts, FnSpec, LoopSpec};
use crate::desugar::{Ds, Ghost};
use crate::{Func, Module};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Out {
    pub text: String,
    pub map: Value,
}

struct W {
    s: String,
    line: usize,
    map: Vec<Value>,
    cur: String,
}

impl W {
    fn put(&mut self, t: &str) {
        // raw identifiers are renamed: Verus loses track of them
        if t.contains("r#") {
            let mut o = String::new();
            let mut rest = t;
            while let Some(i) = rest.find("r#") {
                o.push_str(&rest[..i]);
                rest = &rest[i + 2..];
                if rest.starts_with(|c: char| c.is_alphabetic()) {
                    o.push_str("raw_")
                } else {
                    o.push_str("r#")
                }
            }
            o.push_str(rest);
            self.line += o.matches('\n').count();
            self.s.push_str(&o);
            return;
        }
        self.line += t.matches('\n').count();
        self.s.push_str(t)
    }
    fn nl(&mut self) {
        if !self.s.ends_with('\n') {
            self.put("\n")
        }
    }
    /// one clause, on lines of its own
    fn clause(&mut self, kind: &str, c: &Clause, extra: &str) {
        self.nl();
        let a = self.line;
        self.put("    ");
        self.put(&c.text);
        self.put(",\n");
        self.map.push(json!({
            "first": a, "last": self.line - 1, "fn": self.cur, "kind": kind, "tags": c.tags,
            "text": c.text, "at": extra,
        }))
    }
    fn tokens(&mut self, t: TokenStream, ghosts: &[Ghost]) {
        let v: Vec<TokenTree> = t.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            // __ghost ! ( n ) ;
            if let (TokenTree::Ident(id), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 2)) {
                if id == "__ghost" {
                    let n: usize = g.stream().to_string().parse().unwrap();
                    if let Ghost::Stmt(s) = &ghosts[n] {
                        self.nl();
                        self.put(s);
                        self.nl()
                    }
                    i += 3;
                    if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                        i += 1
                    }
                    continue;
                }
            }
            if let (TokenTree::Ident(id), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 2)) {
                if id == "__smoke" {
                    self.nl();
                    self.put(if g.stream().is_empty() { "if v_case() == 7 { assert(false); }\n" } else { ";\nif v_case() == 7 { assert(false); }\n" });
                    i += 4;
                    continue;
                }
                if id == "__havoc" {
                    self.nl();
                    self.put(&format!("proof {{ {} = arbitrary(); }}\n", g.stream()));
                    i += 4;
                    continue;
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        // a loop contract at its head
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(n))) = (inner.first(), inner.get(2)) {
                            if id == "__ghost" {
                                let n: usize = n.stream().to_string().parse().unwrap();
                                if let Ghost::Loop { invs, decreases, loop_id } = &ghosts[n] {
                                    self.nl();
                                    if !invs.is_empty() {
                                        self.put("invariant\n");
                                        for c in invs {
                                            self.clause("invariant", c, loop_id)
                                        }
                                    }
                                    self.nl();
                                    self.put("decreases ");
                                    self.put(decreases);
                                    self.put(",\n")
                                }
                            }
                        }
                        self.put("{\n");
                        self.tokens(g.stream(), ghosts);
                        self.nl();
                        self.put("}");
                        // no break where an expression goes on
                        match v.get(i + 1) {
                            Some(TokenTree::Punct(_)) => {}
                            _ => self.put("\n"),
                        }
                    } else {
                        self.put(o);
                        self.tokens(g.stream(), ghosts);
                        self.put(c);
                        self.put(" ");
                    }
                }
                TokenTree::Punct(p) => {
                    self.s.push(p.as_char());
                    if p.as_char() == ';' {
                        self.put("\n")
                    } else if p.spacing() == Spacing::Alone {
                        self.put(" ")
                    }
                }
                t => {
                    self.put(&t.to_string());
                    self.put(" ")
                }
            }
            i += 1
        }
    }
}

/// Paths and types as they are named in the generated file
struct Names<'a> {
    module: &'a str,
}

impl VisitMut for Names<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.len() > 1 && p.segments[0].ident == "super" {
            p.segments = p.segments.iter().skip(1).cloned().collect();
        }
        let s = p.to_token_stream().to_string().replace(' ', "");
        if s.starts_with("std::fmt::Formatter") || s.starts_with("fmt::Formatter") || s.starts_with("Formatter<") || s == "Formatter" {
            *p = parse_quote!(Fmt)
        } else if s == "std::fmt::Result" || s == "fmt::Result" {
            *p = parse_quote!(FmtResult)
        } else if s == "ScopeVariant" && self.module.is_empty() {
            *p = parse_quote!(crate::ast1::ScopeVariant)
        }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear()
    }
}

fn plain_enum(e: &ItemEnum, plain: &BTreeSet<String>) -> bool {
    e.variants.iter().all(|v| {
        v.fields.iter().all(|f| {
            let t = f.ty.to_token_stream().to_string().replace(' ', "");
            plain.contains(&t) || matches!(t.as_str(), "char" | "u32" | "bool" | "usize")
        })
    })
}

fn default_of(t: &Type) -> TokenStream {
    let s = t.to_token_stream().to_string();
    if s.starts_with("Option") {
        quote!(None)
    } else if s.starts_with("Vec") {
        quote!(Vec::new())
    } else if s == "String" {
        quote!(String::new())
    } else {
        quote!(<#t>::default())
    }
}

/// the pattern which takes the fields apart and the value made of clones of them
fn fields_clone(f: &Fields) -> (TokenStream, TokenStream) {
    match f {
        Fields::Unnamed(u) => {
            let n: Vec<Ident> = (0..u.unnamed.len()).map(|k| format_ident!("f{k}")).collect();
            (quote!((#(#n),*)), quote!((#(#n.v_clone()),*)))
        }
        Fields::Named(u) => {
            let n: Vec<&Ident> = u.named.iter().filter_map(|x| x.ident.as_ref()).collect();
            (quote!({ #(#n),* }), quote!({ #(#n: #n.v_clone()),* }))
        }
        Fields::Unit => (quote!(), quote!()),
    }
}

/// `derive(Clone)` written out
fn derived_clone(w: &mut W, demote: &[String], path: &str, id: &Ident, body: TokenStream) {
    w.put(&format!("impl VClone for {id} {{\n"));
    let first = w.line;
    let off = demote.iter().any(|d| *d == format!("{path}::{id}::clone"));
    if off {
        w.put("#[verifier::external_body]\n")
    }
    w.put("fn v_clone(&self) -> (r: Self)\n{\n");
    w.tokens(if off { quote!(unimplemented!()) } else { body }, &[]);
    w.nl();
    w.put("}\n");
    let last = w.line;
    w.put("}\n");
    w.map.push(json!({"kind": "fn", "fn": format!("{path}::{id}::clone"), "first": first, "last": last, "synth": "derive(Clone)"}));
}

fn derives(attrs: &[Attribute], what: &str) -> bool {
    attrs.iter().any(|a| {
        let t = a.meta.to_token_stream().to_string();
        t.contains("derive") && t.split(|c: char| !c.is_alphanumeric()).any(|w| w == what)
    })
}

fn types(w: &mut W, demote: &[String], m: &Module, path: &str, c: &Contracts, used: &mut BTreeSet<String>) {
    let mut plain: BTreeSet<String> = BTreeSet::new();
    for _ in 0..3 {
        for t in &m.types {
            if let Item::Enum(e) = t {
                if plain_enum(e, &plain) {
                    plain.insert(e.ident.to_string());
                }
            }
        }
    }
    for t in &m.types {
        match t.clone() {
            Item::Struct(mut s) => {
                let dflt = derives(&s.attrs, "Default");
                let clone = derives(&s.attrs, "Clone");
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                }
                Names { module: path }.visit_item_struct_mut(&mut s);
                if path.is_empty() {
                    w.put("#[derive(Debug)]\n")
                }
                w.tokens(s.to_token_stream(), &[]);
                w.nl();
                let id = &s.ident;
                if clone {
                    let (pat, make) = fields_clone(&s.fields);
                    derived_clone(w, demote, path, id, quote!(match self { #id #pat => #id #make }))
                }
                if dflt {
                    let body = match &s.fields {
                        Fields::Unnamed(u) => {
                            let d = u.unnamed.iter().map(|f| default_of(&f.ty));
                            quote!({ #id(#(#d),*) })
                        }
                        Fields::Named(n) => {
                            let d = n.named.iter().map(|f| {
                                let (n, d) = (&f.ident, default_of(&f.ty));
                                quote!(#n: #d)
                            });
                            quote!({ #id { #(#d),* } })
                        }
                        Fields::Unit => quote!({ #id }),
                    };
                    let p = format!("{path}::{id}::default");
                    let e = FnSpec::default();
                    let spec = c.fns.get(&p).inspect(|_| {
                        used.insert(p.clone());
                    }).unwrap_or(&e);
                    w.put(&format!("impl {id} {{\n"));
                    let first = w.line;
                    w.cur = p.clone();
                    head(w, spec, "pub fn default() -> (r: Self)", false);
                    w.tokens(body, &[]);
                    w.nl();
                    w.put("}\n");
                    let last = w.line;
                    w.map.push(json!({"kind": "fn", "fn": p, "first": first, "last": last, "synth": "derive(Default)"}));
                }
            }
            Item::Enum(mut e) => {
                let clone = derives(&e.attrs, "Clone");
                let p = plain.contains(&e.ident.to_string());
                e.vis = parse_quote!(pub);
                Names { module: path }.visit_item_enum_mut(&mut e);
                if path.is_empty() || (p && path == "ast1") {
                    w.put("#[derive(Debug)]\n")
                }
                if p {
                    w.put("#[derive(PartialEq, Eq, Clone, Copy)]\n")
                }
                w.tokens(e.to_token_stream(), &[]);
                w.nl();
                if p {
                    w.put(&format!("unsafe impl Structural for {} {{}}\n", e.ident))
                }
                if p {
                    derived_clone(w, demote, path, &e.ident, quote!(*self))
                } else if clone {
                    let id = &e.ident;
                    let arms = e.variants.iter().map(|v| {
                        let (n, (pat, make)) = (&v.ident, fields_clone(&v.fields));
                        quote!(#id::#n #pat => #id::#n #make,)
                    });
                    let body = quote!(match self { #(#arms)* });
                    derived_clone(w, demote, path, id, body)
                }
            }
            _ => {}
        }
    }
}

fn head(w: &mut W, spec: &FnSpec, sig: &str, trusted: bool) {
    w.nl();
    for a in &spec.attrs {
        w.put(a);
        w.put("\n")
    }
    if trusted || spec.trusted {
        w.put("#[verifier::external_body]\n")
    } else if !spec.attrs.iter().any(|a| a.contains("loop_isolation")) {
        w.put("#[verifier::loop_isolation(false)]\n")
    }
    w.put(sig);
    w.nl();
    if !spec.requires.is_empty() {
        w.put("    requires\n");
        for c in &spec.requires {
            w.clause("requires", c, "")
        }
    }
    if !spec.ensures.is_empty() {
        w.put("    ensures\n");
        for c in &spec.ensures {
            w.clause("ensures", c, "")
        }
    }
    if let Some(d) = &spec.decreases {
        w.nl();
        w.put("    decreases ");
        w.put(d);
        w.put(",\n")
    }
}

fn sig_text(f: &Func, rename: Option<&str>) -> String {
    let mut s = f.sig.clone();
    Names { module: &f.module }.visit_signature_mut(&mut s);
    let mut subst: Vec<(String, Type)> = vec![];
    for p in s.generics.params.iter() {
        if let GenericParam::Type(t) = p {
            // the only implementation the library has
            if t.bounds.to_token_stream().to_string().contains("IntoChunks") {
                let ty: Type = if f.module == "ast1" { parse_quote!(ast2::Chunk) } else { parse_quote!(ast3::Chunk) };
                subst.push((t.ident.to_string(), ty))
            }
        }
    }
    if !subst.is_empty() {
        s.generics = Generics::default();
        struct V(Vec<(String, Type)>);
        impl VisitMut for V {
            fn visit_type_mut(&mut self, t: &mut Type) {
                let n = t.to_token_stream().to_string();
                if let Some((_, by)) = self.0.iter().find(|(a, _)| *a == n) {
                    *t = by.clone()
                } else {
                    visit_mut::visit_type_mut(self, t)
                }
            }
        }
        V(subst).visit_signature_mut(&mut s)
    }
    let name = rename.map(|n| format_ident!("{n}")).unwrap_or(s.ident.clone());
    let (inp, gen, wh) = (&s.inputs, &s.generics, &s.generics.where_clause);
    let out = match &s.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => format!("-> (r: {})", t.to_token_stream()),
    };
    format!("pub fn {name} {} ({}) {out} {}", gen.to_token_stream(), inp.to_token_stream(), wh.to_token_stream())
}

/// Modules are flat in the generated file: `super::X` is `X`
fn no_super(t: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(id) if id == "super" && v.len() > i + 2 => {
                i += 3;
                continue;
            }
            TokenTree::Group(g) => out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), no_super(g.stream())))),
            t => out.push(t.clone()),
        }
        i += 1
    }
    out.into_iter().collect()
}

fn mut_refs(s: &Signature) -> Vec<String> {
    let mut v = vec![];
    for a in &s.inputs {
        match a {
            FnArg::Receiver(r) if r.reference.is_some() && r.mutability.is_some() => v.push("self".into()),
            FnArg::Typed(t) => {
                if let Type::Reference(r) = &*t.ty {
                    if r.mutability.is_some() {
                        v.push(t.pat.to_token_stream().to_string())
                    }
                }
            }
            _ => {}
        }
    }
    v
}

fn unused(spec: &FnSpec, ds_loops: &[String], ds_at: &[(String, String, usize)]) -> Vec<String> {
    let mut lost = vec![];
    for l in spec.loops.keys() {
        if !ds_loops.contains(l) {
            lost.push(format!("loop {l}"))
        }
    }
    for a in spec.at.keys() {
        if !ds_at.contains(a) {
            lost.push(format!("{} {} {}", a.0, a.1, a.2))
        }
    }
    lost
}

/// Renders a path-qualified type from another module's point of view
fn short(ty: &str, module: &str) -> String {
    match ty.split_once("::") {
        Some((m, t)) if m == module => t.to_string(),
        _ => ty.to_string(),
    }
}

pub fn emit(root: Module, modules: BTreeMap<String, Module>, c: &Contracts, demote: &[String], cdir: &std::path::Path) -> Out {
    let mut w = W { s: String::new(), line: 1, map: vec![], cur: String::new() };
    let mut used: BTreeSet<String> = BTreeSet::new();
    let mut fns: Vec<Value> = vec![];
    let read = |n: &str| std::fs::read_to_string(cdir.join(n)).unwrap_or_default();
    w.put("// generated by vextract from /repo/src and /verif/contracts\n");
    w.put("#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, unused_assignments, unused_must_use, non_snake_case, unreachable_code, path_statements, irrefutable_let_patterns)]\n");
    w.put("use vstd::prelude::*;\nfn main() {}\nverus! {\n");
    let a = w.line;
    w.put(&read("prelude.rs"));
    w.map.push(json!({"kind": "spec", "fn": "prelude", "first": a, "last": w.line}));
    types(&mut w, demote, &root, "", c, &mut used);
    let no = BTreeMap::new();
    for f in &root.funcs {
        func(&mut w, f, c, demote, &mut used, &mut fns, &no);
    }
    let mut into_count: BTreeMap<String, usize> = BTreeMap::new();
    for m in modules.values() {
        for (s, _) in m.into.iter() {
            *into_count.entry(s.clone()).or_default() += 1
        }
    }
    for (name, m) in &modules {
        w.nl();
        w.put(&format!("pub mod {name} {{\nuse super::*;\nuse super::{name}_spec::*;\nuse vstd::prelude::*;\nbroadcast use {{super::group_seq, super::{name}_spec::group_{name}}};\n"));
        types(&mut w, demote, m, name, c, &mut used);
        for f in &m.funcs {
            func(&mut w, f, c, demote, &mut used, &mut fns, &no);
        }
        // `to_string` of a type that has a Display
        for f in m.funcs.iter().filter(|f| f.path.ends_with("::fmt")) {
            let ty = f.self_ty.clone().unwrap();
            let p = format!("{name}::{ty}::v_to_string");
            synth(&mut w, c, &mut used, &p, &ty, "pub fn v_to_string(&self) -> (r: String)",
                "{ let mut f = Fmt { out: String::new() }; let _ = self.fmt(&mut f); f.out }", "ToString over Display", demote);
        }
        // `into` and `try_into` of a type with one target
        for (kind, list) in [("into", modules.values().flat_map(|m| m.into.iter()).collect::<Vec<_>>()),
                             ("try_into", modules.values().flat_map(|m| m.try_into.iter()).collect::<Vec<_>>())] {
            for (src, dst) in list {
                let (sm, sty) = src.split_once("::").unwrap_or(("", src));
                if sm != name {
                    continue;
                }
                if kind == "into" && into_count[src] > 1 {
                    continue; // a trait in the spec file
                }
                let d = short(dst, name);
                let from = if dst.ends_with("ScopeVariant") { format!("from_{sm}") } else { "from".to_string() };
                if kind == "into" {
                    let p = format!("{name}::{sty}::v_conv");
                    synth(&mut w, c, &mut used, &p, sty, &format!("pub fn v_conv(self) -> (r: {d})"),
                        &format!("{{ {d}::{from}(self) }}"), "Into over From", demote);
                } else {
                    let p = format!("{name}::{sty}::v_try_conv");
                    synth(&mut w, c, &mut used, &p, sty, &format!("pub fn v_try_conv(self) -> (r: Result<{d}, crate::Error>)"),
                        &format!("{{ {d}::try_from(self) }}"), "TryInto over TryFrom", demote);
                }
            }
        }
        w.nl();
        w.put("}\n");
        w.put(&format!("pub mod {name}_spec {{\nuse super::*;\nuse super::{name}::*;\nuse vstd::prelude::*;\nbroadcast use super::group_seq;\n"));
        let a = w.line;
        w.put(&read(&format!("{name}.spec.rs")));
        w.map.push(json!({"kind": "spec", "fn": format!("{name}.spec"), "first": a, "last": w.line}));
        w.nl();
        w.put("}\n")
    }
    w.put(&read("root.spec.rs"));
    w.nl();
    w.put("} // verus!\n");
    let mut lost: Vec<Value> = vec![];
    for k in c.fns.keys() {
        if !used.contains(k) {
            lost.push(json!(k))
        }
    }
    let map = json!({ "lines": w.map, "fns": fns, "contracts_without_function": lost });
    Out { text: w.s, map }
}

#[allow(clippy::too_many_arguments)]
fn synth(w: &mut W, c: &Contracts, used: &mut BTreeSet<String>, p: &str, ty: &str, sig: &str, body: &str, why: &str, demote: &[String]) {
    let e = FnSpec::default();
    let spec = c.fns.get(p).inspect(|_| {
        used.insert(p.to_string());
    }).unwrap_or(&e);
    w.nl();
    w.put(&format!("impl {ty} {{\n"));
    let first = w.line;
    w.cur = p.to_string();
    head(w, spec, sig, demote.iter().any(|d| d == p));
    w.put(body);
    w.nl();
    let last = w.line;
    w.map.push(json!({"kind": "fn", "fn": p, "first": first, "last": last, "synth": why}));
    w.put("}\n")
}

fn func(w: &mut W, f: &Func, c: &Contracts, demote: &[String], used: &mut BTreeSet<String>, fns: &mut Vec<Value>, _n: &BTreeMap<String, String>) {
    let e = FnSpec::default();
    let spec = match c.fns.get(&f.path) {
        Some(s) => {
            used.insert(f.path.clone());
            s
        }
        None => &e,
    };
    let has_contract = c.fns.contains_key(&f.path);
    let demoted = demote.iter().any(|d| *d == f.path);
    let mut ghosts: Vec<Ghost> = vec![];
    let mut body: Block = syn::parse2(no_super(f.body.to_token_stream())).unwrap();
    let macros: BTreeMap<String, TokenStream> = f.macros.iter().map(|(k, v)| (k.clone(), no_super(v.clone()))).collect();
    Names { module: &f.module }.visit_block_mut(&mut body);
    let mut ds = Ds::new(spec, c, &macros, &mut ghosts, mut_refs(&f.sig));
    ds.visit_block_mut(&mut body);
    let lost = unused(spec, &ds.used_loops, &ds.used_at);
    let shapes = ds.shape_log.clone();
    Names { module: &f.module }.visit_block_mut(&mut body);
    w.nl();
    if let Some(t) = &f.self_ty {
        w.put(&format!("impl {t} {{\n"))
    }
    let first = w.line;
    w.cur = f.path.clone();
    let cases = match &spec.split {
        Some((on, _)) if !demoted => leaves(&body, on),
        _ => 0,
    };
    if cases > 1 {
        let (on, dec) = spec.split.clone().unwrap();
        // the arms one at a time: in each copy the other arms are assumed away, and so is what follows
        // the loop the arms are in; that is left to one more copy, without any of the arms
        let names: Vec<String> = (0..=cases).map(|i| format!("{}_case{i}", f.sig.ident)).collect();
        for (i, n) in names.iter().enumerate() {
            let mut b = body.clone();
            only(&mut b, &on, i, f, spec, &ghosts);
            if i < cases {
                cut(&mut b, &on)
            }
            Types(&spec.types).visit_block_mut(&mut b);
            let mut sp = spec.clone();
            sp.attrs.push("#[verifier::spinoff_prover]".into());
            let first = w.line;
            one(w, &sp, c, f, &sig_text(f, Some(n)), &b, &ghosts, false);
            w.map.push(json!({"kind": "fn", "fn": f.path, "first": first, "last": w.line - 1, "case": i}));
        }
        let args: Vec<String> = f
            .sig
            .inputs
            .iter()
            .map(|a| match a {
                FnArg::Typed(t) => t.pat.to_token_stream().to_string(),
                FnArg::Receiver(_) => panic!("@split of a method"),
            })
            .collect();
        let mut sp = spec.clone();
        sp.decreases = Some(dec);
        head(w, &sp, &sig_text(f, None), false);
        w.put("{\nlet v_k = v_case();\n");
        let q = if f.self_ty.is_some() { "Self::" } else { "" };
        for (i, n) in names.iter().enumerate() {
            let call = format!("{q}{n}({})", args.join(", "));
            if i + 1 < names.len() {
                w.put(&format!("if v_k == {i} {{ return {call}; }}\n"))
            } else {
                w.put(&format!("{call}\n}}\n"))
            }
        }
    } else {
        one(w, spec, c, f, &sig_text(f, None), &body, &ghosts, demoted);
    }
    let last = w.line - 1;
    w.map.push(json!({"kind": "fn", "fn": f.path, "first": first, "last": last}));
    if f.self_ty.is_some() {
        w.put("}\n")
    }
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    f.source.hash(&mut h);
    let mut ids: Vec<&str> = f
        .source
        .split(|c: char| !c.is_alphanumeric() && c != '_')
        .filter(|w| !w.is_empty())
        .collect();
    ids.sort();
    ids.dedup();
    fns.push(json!({
        "fn": f.path, "module": f.module, "idents": ids, "first": first, "last": last, "hash": format!("{:016x}", h.finish()),
        "shapes": shapes, "lost": lost, "cases": cases, "contract": has_contract, "trusted": spec.trusted, "demoted": demoted,
    }))
}

#[allow(dead_code)]
fn _keep(_: LoopSpec, _: BTreeMap<String, String>) {}

#[allow(clippy::too_many_arguments)]
fn one(w: &mut W, spec: &FnSpec, c: &Contracts, f: &Func, sig: &str, body: &Block, ghosts: &[Ghost], demoted: bool) {
    let mut b2 = body.clone();
    if std::env::var_os("VEXTRACT_SMOKE").is_some() {
        Smoke.visit_block_mut(&mut b2)
    }
    let body = &b2;
    head(w, spec, sig, demoted);
    w.put("{\n");
    if !demoted && !spec.trusted {
        for h in c.hides.get(&f.module).into_iter().flatten() {
            w.put(&format!("hide({h});\n"))
        }
        if !spec.entry.is_empty() {
            w.put(&spec.entry);
            w.nl()
        }
        // the exit text goes before the value of the body
        if spec.exit.is_empty() {
            let b = &body.stmts;
            w.tokens(quote!(#(#b)*), ghosts);
        } else {
            let (last, init) = match body.stmts.split_last() {
                Some((Stmt::Expr(e, None), init)) => (Some(e.clone()), init.to_vec()),
                _ => (None, body.stmts.clone()),
            };
            w.tokens(quote!(#(#init)*), ghosts);
            w.nl();
            match last {
                Some(e) => {
                    w.put("let v_ret = ");
                    w.tokens(e.to_token_stream(), ghosts);
                    w.put(";\n");
                    w.put(&spec.exit);
                    w.nl();
                    w.put("v_ret")
                }
                None => w.put(&spec.exit),
            }
        }
    } else {
        w.put("unimplemented!()")
    }
    w.nl();
    w.put("}\n");
}

/// Visits the leaf arms of the matches on `on`: an arm that is itself a match counts by its arms
struct Leaves<'a> {
    on: String,
    n: usize,
    keep: Option<usize>,
    /// `let mut` names in scope, with the number of loops they are declared in
    muts: Vec<(String, usize)>,
    loops: usize,
    ghosts: &'a [Ghost],
    /// `let ghost mut` names of the function
    gmuts: Vec<String>,
}

impl Leaves<'_> {
    fn arm(&mut self, a: &mut Arm) {
        let inner = match &mut *a.body {
            Expr::Match(m) => Some(m),
            Expr::Block(b) => match b.block.stmts.as_mut_slice() {
                [Stmt::Expr(Expr::Match(m), _)] => Some(m),
                _ => None,
            },
            _ => None,
        };
        if let Some(m) = inner {
            for x in m.arms.iter_mut() {
                self.leaf(x)
            }
            return;
        }
        self.leaf(a)
    }
    /// A closed arm may have changed whatever variable from outside the loop it mentions: the verifier takes
    /// what a loop does not assign to be as it was before the loop
    fn leaf(&mut self, a: &mut Arm) {
        if self.keep.is_some_and(|k| k != self.n) {
            let mut ids = BTreeSet::new();
            let mut gids = BTreeSet::new();
            words(a.body.to_token_stream(), self.ghosts, &mut ids, &mut gids);
            words(syn::parse_str::<TokenStream>(&self.on).unwrap(), self.ghosts, &mut ids, &mut gids);
            let own: BTreeSet<String> = gids.iter().filter_map(|w| w.strip_prefix("let ").map(String::from)).collect();
            let mut h = quote!();
            if self.loops > 0 {
                for (m, l) in &self.muts {
                    if *l < self.loops && ids.contains(m) {
                        let m = format_ident!("{m}");
                        h.extend(quote!(v_havoc(&mut #m);))
                    }
                }
                for g in &self.gmuts {
                    if gids.contains(g) && !own.contains(g) {
                        let g = format_ident!("{g}");
                        h.extend(quote!(__havoc!(#g);))
                    }
                }
            }
            *a.body = syn::parse_quote!({ #h assume(false); v_unreachable() });
            a.comma = Some(Default::default());
        }
        self.n += 1
    }
    fn pat(&mut self, p: &syn::Pat) {
        struct M(Vec<String>);
        impl<'b> syn::visit::Visit<'b> for M {
            fn visit_pat_ident(&mut self, i: &'b syn::PatIdent) {
                if i.mutability.is_some() {
                    self.0.push(i.ident.to_string())
                }
                syn::visit::visit_pat_ident(self, i)
            }
        }
        let mut m = M(vec![]);
        syn::visit::Visit::visit_pat(&mut m, p);
        let l = self.loops;
        self.muts.extend(m.0.into_iter().map(|n| (n, l)))
    }
}

/// identifiers of code, and of the ghost text in it (declared there: with "let " in front)
fn words(t: TokenStream, ghosts: &[Ghost], ids: &mut BTreeSet<String>, gids: &mut BTreeSet<String>) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Group(g) => words(g.stream(), ghosts, ids, gids),
            TokenTree::Ident(id) => {
                if id == "__ghost" {
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        if let Ghost::Stmt(s) = &ghosts[g.stream().to_string().parse::<usize>().unwrap()] {
                            gids.extend(ghost_words(s));
                            gids.extend(ghost_muts(s).into_iter().map(|n| format!("let {n}")))
                        }
                    }
                }
                ids.insert(id.to_string());
            }
            _ => {}
        }
    }
}

fn ghost_words(s: &str) -> Vec<String> {
    s.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()).map(String::from).collect()
}

/// names of the `let ghost mut` in ghost text
fn ghost_muts(s: &str) -> Vec<String> {
    let w = ghost_words(s);
    w.windows(4).filter(|x| x[0] == "let" && x[1] == "ghost" && x[2] == "mut").map(|x| x[3].clone()).collect()
}

impl VisitMut for Leaves<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let k = self.muts.len();
        for s in b.stmts.iter_mut() {
            self.visit_stmt_mut(s);
            if let Stmt::Local(l) = s {
                let p = l.pat.clone();
                self.pat(&p)
            }
        }
        self.muts.truncate(k)
    }
    fn visit_expr_while_mut(&mut self, e: &mut syn::ExprWhile) {
        self.loops += 1;
        visit_mut::visit_expr_while_mut(self, e);
        self.loops -= 1
    }
    fn visit_expr_loop_mut(&mut self, e: &mut syn::ExprLoop) {
        self.loops += 1;
        visit_mut::visit_expr_loop_mut(self, e);
        self.loops -= 1
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        if m.expr.to_token_stream().to_string().replace(' ', "") == self.on {
            for a in m.arms.iter_mut() {
                self.arm(a)
            }
        } else {
            visit_mut::visit_expr_match_mut(self, m)
        }
    }
}

/// Gives a local the type the compiler infers when all arms are there
struct Types<'a>(&'a BTreeMap<String, String>);

impl VisitMut for Types<'_> {
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        if let syn::Pat::Ident(i) = &l.pat {
            if let Some(t) = self.0.get(&i.ident.to_string()) {
                let (p, t): (&syn::PatIdent, syn::Type) = (i, syn::parse_str(t).unwrap());
                l.pat = syn::Pat::Type(syn::PatType {
                    attrs: vec![],
                    pat: Box::new(syn::Pat::Ident(p.clone())),
                    colon_token: Default::default(),
                    ty: Box::new(t),
                });
            }
        }
        visit_mut::visit_local_mut(self, l)
    }
}

/// Marks places in the code at which `false` must not be provable (development only)
struct Smoke;

impl VisitMut for Smoke {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut k = 0;
        while k < b.stmts.len() {
            let t = b.stmts[k].to_token_stream().to_string();
            let after = matches!(&b.stmts[k], Stmt::Expr(Expr::While(_) | Expr::Block(_), _));
            if after && k + 1 < b.stmts.len() {
                b.stmts.insert(k + 1, syn::parse_quote!(__smoke!(1);))
            }
            let _ = t;
            k += 1
        }
        // after the loop contract and what the loop reads
        let mut at = 0;
        for (k, s) in b.stmts.iter().enumerate() {
            let t = s.to_token_stream().to_string();
            if t.starts_with("__ghost") || (matches!(s, Stmt::Local(_)) && t.contains(". v_next ()")) {
                at = k + 1
            } else {
                break;
            }
        }
        if !b.stmts.is_empty() && !b.stmts[0].to_token_stream().to_string().starts_with("assume") && !b.stmts[0].to_token_stream().to_string().starts_with("v_havoc") {
            b.stmts.insert(at, syn::parse_quote!(__smoke!();))
        }
    }
}

fn leaves(b: &Block, on: &str) -> usize {
    let mut b = b.clone();
    let mut l = Leaves {
        on: on.replace(' ', ""), n: 0, keep: None, muts: vec![], loops: 0, ghosts: &[], gmuts: vec![],
    };
    l.visit_block_mut(&mut b);
    l.n
}

/// assumes away what follows the statement that holds the arms
fn cut(b: &mut Block, on: &str) {
    let at = b.stmts.iter().position(|s| {
        let one: Block = Block { brace_token: b.brace_token, stmts: vec![s.clone()] };
        leaves(&one, on) > 0
    });
    if let Some(k) = at {
        if k + 1 < b.stmts.len() {
            b.stmts.insert(k + 1, syn::parse_quote!(assume(false);))
        }
    }
}

fn only(b: &mut Block, on: &str, k: usize, f: &Func, spec: &FnSpec, ghosts: &[Ghost]) {
    let mut gmuts = ghost_muts(&spec.entry);
    for g in ghosts {
        if let Ghost::Stmt(s) = g {
            gmuts.extend(ghost_muts(s))
        }
    }
    gmuts.sort();
    gmuts.dedup();
    let mut l =
        Leaves { on: on.replace(' ', ""), n: 0, keep: Some(k), muts: vec![], loops: 0, ghosts, gmuts };
    for i in &f.sig.inputs {
        if let FnArg::Typed(t) = i {
            l.pat(&t.pat)
        }
    }
    l.visit_block_mut(b)
}
