//! `derive(PartialEq)` written out for the types of a stage, as functions which go through the verifier like others
use crate::{push_fn, Module};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::*;

fn derives_eq(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = a.meta.to_token_stream().to_string();
        t.contains("derive") && t.split(|c: char| !c.is_alphanumeric()).any(|w| w == "PartialEq")
    })
}

/// are `a` and `b`, references to a `t`, equal?
fn same(t: &Type, a: &str, b: &str, vecs: &mut BTreeMap<String, Type>, plain: &[String]) -> String {
    let s = t.to_token_stream().to_string().replace(' ', "");
    if s == "String" {
        return format!("v_str_eq(({a}).v_str(), ({b}).v_str())");
    }
    if plain.contains(&s) || ["u32", "usize", "bool", "char"].contains(&s.as_str()) {
        return format!("(*({a}) == *({b}))");
    }
    if let Type::Tuple(u) = t {
        let v: Vec<String> = u
            .elems
            .iter()
            .enumerate()
            .map(|(k, t)| same(t, &format!("&({a}).{k}"), &format!("&({b}).{k}"), vecs, plain))
            .collect();
        return v.join(" && ");
    }
    if let Some(e) = s.strip_prefix("Vec<").and_then(|e| e.strip_suffix('>')) {
        let n: String = e.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
        let n = n.trim_matches('_').to_string();
        vecs.insert(n.clone(), parse_str(e).unwrap());
        return format!("v_eq_vec_{n}({a}, {b})");
    }
    format!("({a}).v_eq({b})")
}

fn fields(f: &Fields, vecs: &mut BTreeMap<String, Type>, plain: &[String]) -> (String, String, String) {
    let (mut p, mut q, mut e) = (vec![], vec![], vec![]);
    for (k, x) in f.iter().enumerate() {
        let n = x.ident.as_ref().map(|i| format!("{i}: ")).unwrap_or_default();
        p.push(format!("{n}x{k}"));
        q.push(format!("{n}y{k}"));
        e.push(same(&x.ty, &format!("x{k}"), &format!("y{k}"), vecs, plain));
    }
    let wrap = |v: Vec<String>| match f {
        Fields::Named(_) => format!("{{ {} }}", v.join(", ")),
        Fields::Unnamed(_) => format!("({})", v.join(", ")),
        Fields::Unit => String::new(),
    };
    (wrap(p), wrap(q), if e.is_empty() { "true".into() } else { e.join(" && ") })
}

pub fn derived_eq(m: &mut Module, stage: &str) {
    let mut vecs = BTreeMap::new();
    let mut todo = vec![];
    let plain: Vec<String> = m
        .types
        .iter()
        .filter_map(|t| match t {
            Item::Enum(e) if e.variants.iter().all(|v| v.fields.is_empty()) => Some(e.ident.to_string()),
            _ => None,
        })
        .collect();
    for t in &m.types {
        match t {
            Item::Struct(s) if derives_eq(&s.attrs) => {
                let (p, q, e) = fields(&s.fields, &mut vecs, &plain);
                let n = &s.ident;
                todo.push((n.to_string(), format!("match (self, o) {{ ({n} {p}, {n} {q}) => {e} }}")))
            }
            Item::Enum(x) if derives_eq(&x.attrs) && !plain.contains(&x.ident.to_string()) => {
                let n = &x.ident;
                let mut arms = String::new();
                for v in &x.variants {
                    let (p, q, e) = fields(&v.fields, &mut vecs, &plain);
                    let i = &v.ident;
                    arms += &format!("({n}::{i} {p}, {n}::{i} {q}) => {e},\n")
                }
                if x.variants.len() > 1 {
                    arms += "_ => false,"
                }
                todo.push((n.to_string(), format!("match (self, o) {{ {arms} }}")))
            }
            _ => {}
        }
    }
    for (n, body) in todo {
        let f: ItemFn = parse_str(&format!("fn v_eq(&self, o: &Self) -> bool {{ {body} }}")).unwrap();
        push_fn(m, stage, Some(n.clone()), &format!("{stage}::{n}::v_eq"), f.sig, *f.block, BTreeMap::new())
    }
    let mut done: Vec<String> = vec![];
    while let Some((n, t)) = vecs.iter().find(|x| !done.contains(x.0)).map(|(n, t)| (n.clone(), t.clone())) {
        let e = same(&t, "x", "&b[i]", &mut vecs, &plain);
        let ty = t.to_token_stream().to_string();
        let f: ItemFn = parse_str(&format!(
            "fn v_eq_vec_{n}(a: &Vec<{ty}>, b: &Vec<{ty}>) -> bool {{
                if a.len() != b.len() {{ return false; }}
                let mut i: usize = 0;
                for x in a.iter() {{
                    if !({e}) {{ return false; }}
                    i = i + 1;
                }}
                true
            }}"
        ))
        .unwrap();
        push_fn(m, stage, None, &format!("{stage}::v_eq_vec_{n}"), f.sig, *f.block, BTreeMap::new());
        done.push(n)
    }
}
