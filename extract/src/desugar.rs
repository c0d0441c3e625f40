//! From Rust to the part of Rust that Verus reads: each rule keeps the meaning
use crate::contracts::{Contracts, FnSpec, LoopSpec};
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ------------------------------------------------------------------ helpers

pub fn replace_assoc(sig: &mut Signature, assoc: &[(String, Type)]) {
    struct V<'a>(&'a [(String, Type)]);
    impl VisitMut for V<'_> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            let s = t.to_token_stream().to_string().replace(' ', "");
            for (n, by) in self.0 {
                if s == format!("Self::{n}") {
                    *t = by.clone();
                    return;
                }
            }
            visit_mut::visit_type_mut(self, t)
        }
    }
    V(assoc).visit_signature_mut(sig)
}

/// Takes the items declared inside a function body out of it; local macros go to `macros`
pub fn take_nested(body: &mut Block, macros: &mut BTreeMap<String, TokenStream>) -> Vec<Item> {
    struct V<'a> {
        out: Vec<Item>,
        macros: &'a mut BTreeMap<String, TokenStream>,
    }
    impl VisitMut for V<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut keep = vec![];
            for s in std::mem::take(&mut b.stmts) {
                match s {
                    Stmt::Item(Item::Macro(m)) if m.mac.path.is_ident("macro_rules") => {
                        self.macros.insert(m.ident.unwrap().to_string(), m.mac.tokens);
                    }
                    Stmt::Item(Item::Use(_)) => {}
                    Stmt::Item(i) => self.out.push(i),
                    s => keep.push(s),
                }
            }
            b.stmts = keep;
            visit_mut::visit_block_mut(self, b)
        }

        fn visit_macro_mut(&mut self, m: &mut Macro) {
            if m.path.is_ident("vec") {
                if let Ok(mut l) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    for e in l.iter_mut() {
                        self.visit_expr_mut(e)
                    }
                    m.tokens = l.to_token_stream()
                }
            }
        }
    }
    let mut v = V { out: vec![], macros };
    v.visit_block_mut(body);
    v.out
}

pub fn rename_tokens(t: TokenStream, renames: &[(String, String)]) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = vec![];
    for i in 0..v.len() {
        out.push(match &v[i] {
            TokenTree::Ident(id) => {
                let called = matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis);
                let after_dot = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.' || p.as_char() == ':');
                match renames.iter().find(|(a, _)| id == a) {
                    Some((_, b)) if called && !after_dot => TokenTree::Ident(Ident::new(b, id.span())),
                    _ => v[i].clone(),
                }
            }
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rename_tokens(g.stream(), renames))),
            t => t.clone(),
        })
    }
    out.into_iter().collect()
}

pub fn rename_block(b: Block, renames: &[(String, String)]) -> Block {
    if renames.is_empty() {
        return b;
    }
    syn::parse2(rename_tokens(b.to_token_stream(), renames)).unwrap()
}

/// Expands a local macro whose rules are lists of `$name:fragment` separated by commas
fn expand(rules: &TokenStream, args: TokenStream) -> Option<TokenStream> {
    let rv: Vec<TokenTree> = rules.clone().into_iter().collect();
    // ( pattern ) => { body } ;?
    let (TokenTree::Group(pat), TokenTree::Group(body)) = (rv.first()?, rv.get(3)?) else {
        return None;
    };
    let names: Vec<String> = {
        let p: Vec<TokenTree> = pat.stream().into_iter().collect();
        let mut n = vec![];
        for i in 0..p.len() {
            if matches!(&p[i], TokenTree::Punct(x) if x.as_char() == '$') {
                n.push(p.get(i + 1)?.to_string())
            }
        }
        n
    };
    let mut parts: Vec<TokenStream> = vec![TokenStream::new()];
    for t in args {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => parts.push(TokenStream::new()),
            _ => parts.last_mut().unwrap().extend([t]),
        }
    }
    if parts.last().is_some_and(|p| p.is_empty()) {
        parts.pop();
    }
    if parts.len() != names.len() {
        return None;
    }
    fn subst(t: TokenStream, names: &[String], parts: &[TokenStream]) -> TokenStream {
        let v: Vec<TokenTree> = t.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Punct(p) if p.as_char() == '$' => {
                    let n = v[i + 1].to_string();
                    match names.iter().position(|x| *x == n) {
                        Some(k) => {
                            let p = &parts[k];
                            out.extend(quote!((#p)))
                        }
                        None => out.extend([v[i].clone(), v[i + 1].clone()]),
                    }
                    i += 2;
                    continue;
                }
                TokenTree::Group(g) => {
                    out.extend([TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), names, parts)))])
                }
                t => out.extend([t.clone()]),
            }
            i += 1
        }
        out
    }
    Some(subst(body.stream(), &names, &parts))
}

fn split_commas(t: TokenStream) -> Vec<TokenStream> {
    let mut parts: Vec<TokenStream> = vec![TokenStream::new()];
    let mut angle = 0i32;
    let mut bars = 0;
    for t in t {
        match &t {
            TokenTree::Punct(p) if p.as_char() == '|' => bars += 1,
            TokenTree::Punct(p) if p.as_char() == '<' => angle += 1,
            TokenTree::Punct(p) if p.as_char() == '>' && angle > 0 => angle -= 1,
            TokenTree::Punct(p) if p.as_char() == ',' && bars % 2 == 0 => {
                parts.push(TokenStream::new());
                continue;
            }
            _ => {}
        }
        parts.last_mut().unwrap().extend([t])
    }
    if parts.last().is_some_and(|p| p.is_empty()) {
        parts.pop();
    }
    parts
}

enum Piece {
    Lit(String),
    Arg(TokenStream),
}

/// The pieces of a format string
fn format_pieces(args: TokenStream) -> Option<Vec<Piece>> {
    let mut parts = split_commas(args).into_iter();
    let lit: LitStr = syn::parse2(parts.next()?).ok()?;
    let mut rest = parts;
    let cs: Vec<char> = lit.value().chars().collect();
    let mut out = vec![];
    let mut cur = String::new();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => {
                cur.push('{');
                i += 2
            }
            '}' if cs.get(i + 1) == Some(&'}') => {
                cur.push('}');
                i += 2
            }
            '{' => {
                if !cur.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut cur)))
                }
                let end = (i..cs.len()).find(|j| cs[*j] == '}')?;
                let name: String = cs[i + 1..end].iter().collect();
                if name.contains(':') || name.parse::<usize>().is_ok() {
                    return None;
                }
                if name.is_empty() {
                    out.push(Piece::Arg(rest.next()?))
                } else {
                    out.push(Piece::Arg(syn::parse_str::<TokenStream>(&name).ok()?))
                }
                i = end + 1
            }
            c => {
                cur.push(c);
                i += 1
            }
        }
    }
    if !cur.is_empty() {
        out.push(Piece::Lit(cur))
    }
    Some(out)
}

fn is_str_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}

fn pat_has_str(p: &Pat) -> bool {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
        Pat::Or(o) => o.cases.iter().any(pat_has_str),
        Pat::Paren(p) => pat_has_str(&p.pat),
        _ => false,
    }
}

fn str_cond(m: &Ident, p: &Pat) -> Option<TokenStream> {
    match p {
        Pat::Lit(l) => Some(quote!(v_str_eq(#m, #l))),
        Pat::Or(o) => {
            let c: Option<Vec<_>> = o.cases.iter().map(|c| str_cond(m, c)).collect();
            let c = c?;
            Some(quote!((#(#c)||*)))
        }
        Pat::Paren(p) => str_cond(m, &p.pat),
        Pat::Wild(_) => Some(quote!(true)),
        _ => None,
    }
}

/// Whether a pattern binds a name
fn binds(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            if i.ident.to_string().chars().next().unwrap().is_lowercase() {
                self.0 = true
            }
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}

fn strip_ref(p: &Pat) -> Pat {
    struct V;
    impl VisitMut for V {
        fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) {
            i.by_ref = None;
            i.mutability = None
        }
    }
    let mut p = p.clone();
    V.visit_pat_mut(&mut p);
    p
}

// ------------------------------------------------------------ the desugarer

pub struct Ds<'a> {
    pub spec: &'a FnSpec,
    pub contracts: &'a Contracts,
    pub macros: &'a BTreeMap<String, TokenStream>,
    pub ghosts: &'a mut Vec<Ghost>,
    /// parameters (and `self`) that are `&mut`
    pub mut_refs: Vec<String>,
    nloop: usize,
    nchain: usize,
    nacc: usize,
    ntmp: usize,
    pub calls: BTreeMap<String, usize>,
    pub shape_log: Vec<String>,
    pub used_loops: Vec<String>,
    pub used_at: Vec<(String, String, usize)>,
}

/// Text that has no place in Rust syntax, put back by the printer
#[derive(Clone, Debug)]
pub enum Ghost {
    Stmt(String),
    Loop { invs: Vec<crate::contracts::Clause>, decreases: String, loop_id: String },
}

enum Stage {
    Map(Expr),
    Filter(Expr),
    FlatMap(Expr),
    Chain(Box<Chain>),
    Skip(Expr),
}

struct Chain {
    source: Src,
    stages: Vec<Stage>,
}

enum Src {
    Iter(Expr),
    IntoIter(Expr),
    Chars(Expr),
    Split(Expr, Expr),
}

impl<'a> Ds<'a> {
    pub fn new(
        spec: &'a FnSpec,
        contracts: &'a Contracts,
        macros: &'a BTreeMap<String, TokenStream>,
        ghosts: &'a mut Vec<Ghost>,
        mut_refs: Vec<String>,
    ) -> Self {
        Ds {
            spec,
            contracts,
            macros,
            ghosts,
            mut_refs,
            nloop: 0,
            nchain: 0,
            nacc: 0,
            ntmp: 0,
            calls: BTreeMap::new(),
            shape_log: vec![],
            used_loops: vec![],
            used_at: vec![],
        }
    }

    fn ghost(&mut self, g: Ghost) -> TokenStream {
        self.ghosts.push(g);
        let n = Literal::usize_unsuffixed(self.ghosts.len() - 1);
        quote!(__ghost!(#n);)
    }

    fn ghost_text(&mut self, t: &str) -> TokenStream {
        if t.is_empty() {
            quote!()
        } else {
            self.ghost(Ghost::Stmt(t.to_string()))
        }
    }

    /// a while loop over the iterator `it`, with its contract
    fn make_loop(&mut self, id: &str, shape: &str, it: &Ident, acc: Option<&Ident>, init: TokenStream, body: TokenStream) -> TokenStream {
        let mut ls: LoopSpec = match self.spec.loops.get(id) {
            Some(l) => {
                self.used_loops.push(id.to_string());
                l.clone()
            }
            None => self
                .contracts
                .shapes
                .iter()
                .find(|(s, _)| s == shape)
                .map(|(_, l)| l.clone())
                .unwrap_or_default(),
        };
        let sub = |t: &str| {
            let mut t = t.replace("$it", &it.to_string());
            if let Some(a) = acc {
                t = t.replace("$acc", &a.to_string());
            }
            t
        };
        for c in ls.invs.iter_mut() {
            c.text = sub(&c.text)
        }
        let gall = format!("g_{it}");
        ls.invs.insert(0, crate::contracts::Clause { tags: vec![], text: format!("{it}.wf()") });
        ls.invs.insert(1, crate::contracts::Clause { tags: vec![], text: format!("{it}.all() == {gall}") });
        let snap = self.ghost(Ghost::Stmt(format!("let ghost {gall} = {it}.all();")));
        let pre = self.ghost_text(&sub(&ls.pre));
        let top = self.ghost_text(&sub(&ls.top));
        let end = self.ghost_text(&sub(&ls.end));
        let post = self.ghost_text(&sub(&ls.post));
        let dec = ls.decreases.clone().map(|d| sub(&d)).unwrap_or(format!("{it}.rest().len()"));
        let inv = self.ghost(Ghost::Loop { invs: ls.invs, decreases: dec, loop_id: id.to_string() });
        quote! {
            #init
            #snap
            #pre
            while #it.more() {
                #inv
                #body
                #end
            }
            #post
        }
        .into_iter()
        .collect::<TokenStream>()
        .into_token_stream_with_top(top)
    }

    // ---- chains

    fn parse_chain(&self, e: &Expr) -> Option<Chain> {
        match e {
            Expr::Paren(p) => self.parse_chain(&p.expr),
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let arg = m.args.first().cloned();
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) => {
                        if let Some(mut c) = self.parse_chain(&m.receiver) {
                            // `.iter()` of an iterator does not occur
                            c.stages.clear();
                            return None;
                        }
                        Some(Chain { source: Src::Iter((*m.receiver).clone()), stages: vec![] })
                    }
                    ("into_iter", 0) => {
                        if let Some(c) = self.parse_chain(&m.receiver) {
                            return Some(c);
                        }
                        Some(Chain { source: Src::IntoIter((*m.receiver).clone()), stages: vec![] })
                    }
                    ("chars", 0) => Some(Chain { source: Src::Chars((*m.receiver).clone()), stages: vec![] }),
                    ("split", 1) => Some(Chain { source: Src::Split((*m.receiver).clone(), arg?), stages: vec![] }),
                    ("map", 1) => {
                        let mut c = self.parse_chain(&m.receiver)?;
                        c.stages.push(Stage::Map(arg?));
                        Some(c)
                    }
                    ("filter", 1) => {
                        let mut c = self.parse_chain(&m.receiver)?;
                        c.stages.push(Stage::Filter(arg?));
                        Some(c)
                    }
                    ("flat_map", 1) => {
                        let mut c = self.parse_chain(&m.receiver)?;
                        c.stages.push(Stage::FlatMap(arg?));
                        Some(c)
                    }
                    ("skip", 1) => {
                        let mut c = self.parse_chain(&m.receiver)?;
                        c.stages.push(Stage::Skip(arg?));
                        Some(c)
                    }
                    ("chain", 1) => {
                        let mut c = self.parse_chain(&m.receiver)?;
                        let a = arg?;
                        let other = self.parse_chain(&a).unwrap_or(Chain { source: Src::IntoIter(a), stages: vec![] });
                        c.stages.push(Stage::Chain(Box::new(other)));
                        Some(c)
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn shape(c: &Chain) -> String {
        let mut s = match &c.source {
            Src::Iter(_) => "iter",
            Src::IntoIter(_) => "into_iter",
            Src::Chars(_) => "chars",
            Src::Split(..) => "split",
        }
        .to_string();
        for st in &c.stages {
            s += match st {
                Stage::Map(_) => ".map",
                Stage::Filter(_) => ".filter",
                Stage::FlatMap(_) => ".flat_map",
                Stage::Skip(_) => ".skip",
                Stage::Chain(_) => ".chain",
            }
        }
        s
    }

    fn source(&mut self, s: Src, setup: &mut TokenStream) -> TokenStream {
        match s {
            Src::Iter(mut e) => {
                if let Expr::Array(a) = &e {
                    let el = &a.elems;
                    e = parse_quote!(vec![#el]);
                    self.visit_expr_mut(&mut e);
                    self.ntmp += 1;
                    let a = format_ident!("arr{}", self.ntmp);
                    setup.extend(quote!(let #a = #e;));
                    return quote!(#a.v_iter());
                }
                self.visit_expr_mut(&mut e);
                quote!((#e).v_iter())
            }
            Src::IntoIter(mut e) => {
                if let Expr::Array(a) = &e {
                    let el = &a.elems;
                    e = parse_quote!(vec![#el]);
                }
                self.visit_expr_mut(&mut e);
                quote!(VInto::v_into_iter(#e))
            }
            Src::Chars(mut e) => {
                self.visit_expr_mut(&mut e);
                quote!(v_chars((#e).v_str()))
            }
            Src::Split(mut e, mut c) => {
                self.visit_expr_mut(&mut e);
                self.visit_expr_mut(&mut c);
                quote!(VInto::v_into_iter(v_split((#e).v_str(), #c)))
            }
        }
    }

    /// applies a closure or path to the value of `x`
    fn apply(&mut self, f: &Expr, x: &Ident, by_ref: bool) -> TokenStream {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut p = c.inputs[0].clone();
                if let Pat::Type(t) = &p {
                    p = (*t.pat).clone()
                }
                let mut b = (*c.body).clone();
                self.visit_expr_mut(&mut b);
                if by_ref {
                    quote!({ let #p = &#x; #b })
                } else {
                    quote!({ let #p = #x; #b })
                }
            }
            f => {
                let s = f.to_token_stream().to_string().replace(' ', "");
                if s == "ToString::to_string" {
                    quote!(#x.v_to_string())
                } else if by_ref {
                    quote!(#f(&#x))
                } else {
                    quote!(#f(#x))
                }
            }
        }
    }

    /// the code that one element `x` goes through from stage `k` on
    fn run_stages(&mut self, stages: &[&Stage], x: Ident, shape: &str, acc: &Ident, sink: &dyn Fn(&mut Self, Ident) -> TokenStream) -> TokenStream {
        let Some((first, rest)) = stages.split_first() else {
            return sink(self, x);
        };
        match first {
            Stage::Map(f) => {
                self.ntmp += 1;
                let y = format_ident!("x{}", self.ntmp);
                let v = self.apply(f, &x, false);
                let r = self.run_stages(rest, y.clone(), shape, acc, sink);
                quote!(let #y = #v; #r)
            }
            Stage::Filter(f) => {
                let c = self.apply(f, &x, true);
                let r = self.run_stages(rest, x, shape, acc, sink);
                quote!(if #c { #r })
            }
            Stage::FlatMap(f) => {
                let v = self.apply(f, &x, false);
                let it = format_ident!("k{}", self.nchain);
                let id = format!("K{}", self.nchain);
                self.nchain += 1;
                self.ntmp += 1;
                let y = format_ident!("x{}", self.ntmp);
                let r = self.run_stages(rest, y.clone(), shape, acc, sink);
                self.make_loop(
                    &id,
                    &format!("{shape}/inner"),
                    &it,
                    Some(acc),
                    quote!(let mut #it = VInto::v_into_iter(#v);),
                    quote!(let #y = #it.v_next(); #r),
                )
            }
            Stage::Skip(_) | Stage::Chain(_) => unreachable!("handled at the source"),
        }
    }

    /// One loop per source. `pre`: stages of the outer chain that all elements go through.
    fn run_chain(&mut self, c: Chain, shape: &str, acc: &Ident, sink: &dyn Fn(&mut Self, Ident) -> TokenStream) -> (TokenStream, TokenStream) {
        // the last `chain` stage splits the elements into two groups
        let mut setup = TokenStream::new();
        let mut loops = TokenStream::new();
        let Chain { source, stages } = c;
        // groups: (chain without `chain` stages)
        let mut groups: Vec<(Src, Vec<Stage>)> = vec![(source, vec![])];
        let mut all: Vec<(usize, Stage)> = vec![]; // number of groups it applies to
        for st in stages {
            match st {
                Stage::Chain(other) => {
                    if other.stages.iter().any(|s| matches!(s, Stage::Chain(_))) {
                        panic!("a chain inside a chain is not covered")
                    }
                    groups.push((other.source, other.stages))
                }
                Stage::Skip(_) if groups.len() > 1 => panic!("`skip` after `chain` is not covered"),
                st => all.push((groups.len(), st)),
            }
        }
        for (g, (src, own)) in groups.into_iter().enumerate() {
            let mut list: Vec<&Stage> = own.iter().collect();
            list.extend(all.iter().filter(|(n, _)| g < *n).map(|(_, s)| s));
            let it = format_ident!("k{}", self.nchain);
            let id = format!("K{}", self.nchain);
            self.nchain += 1;
            self.ntmp += 1;
            let x = format_ident!("x{}", self.ntmp);
            let s = self.source(src, &mut setup);
            setup.extend(quote!(let mut #it = #s;));
            // `skip` directly after the source
            if let Some(Stage::Skip(n)) = list.first() {
                let n = n.clone();
                list.remove(0);
                setup.extend(quote!(#it.v_skip(#n);))
            }
            let body = self.run_stages(&list, x.clone(), shape, acc, sink);
            let l = self.make_loop(&id, shape, &it, Some(acc), quote!(), quote!(let #x = #it.v_next(); #body));
            loops.extend(l)
        }
        (setup, loops)
    }

    /// A whole chain with its terminal, as an expression
    fn terminal(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !matches!(name.as_str(), "count" | "sum" | "collect" | "for_each" | "fold") {
            return None;
        }
        let chain = self.parse_chain(&m.receiver)?;
        let turbofish = m.turbofish.as_ref().map(|t| t.args.to_token_stream().to_string().replace(' ', ""));
        let shape = format!("{}.{}{}", Self::shape(&chain), name, match turbofish.as_deref() { Some("String") => "String", _ => "" });
        self.shape_log.push(shape.clone());
        let acc = format_ident!("acc{}", self.nacc);
        self.nacc += 1;
        let a = acc.clone();
        let out: TokenStream = match name.as_str() {
            "count" => {
                let (s, l) = self.run_chain(chain, &shape, &acc, &|_, _x| quote!(#a = #a + 1;));
                quote!({ let mut #acc: usize = 0; #s #l #acc })
            }
            "sum" => {
                let t: Type = match &turbofish {
                    Some(t) => syn::parse_str(t).ok()?,
                    None => return None,
                };
                let (s, l) = self.run_chain(chain, &shape, &acc, &|_, x| quote!(#a = #a + #x;));
                quote!({ let mut #acc: #t = 0; #s #l #acc })
            }
            "collect" => match turbofish.as_deref() {
                Some("String") => {
                    let (s, l) = self.run_chain(chain, &shape, &acc, &|_, x| quote!(#a.push_str(#x.as_str());));
                    quote!({ let mut #acc = String::new(); #s #l #acc })
                }
                Some(t) if !t.starts_with("Vec") => return None,
                _ => {
                    let (s, l) = self.run_chain(chain, &shape, &acc, &|_, x| quote!(#a.push(#x);));
                    quote!({ let mut #acc = Vec::new(); #s #l #acc })
                }
            },
            "for_each" => {
                let f = m.args.first()?.clone();
                let (s, l) = self.run_chain(chain, &shape, &acc, &|d, x| {
                    let v = d.apply(&f, &x, false);
                    quote!(#v;)
                });
                quote!({ #s #l })
            }
            "fold" => {
                let mut init = m.args.first()?.clone();
                self.visit_expr_mut(&mut init);
                let Expr::Closure(c) = m.args.iter().nth(1)?.clone() else {
                    return None;
                };
                let (p0, p1) = (c.inputs[0].clone(), c.inputs[1].clone());
                let body = (*c.body).clone();
                let (s, l) = self.run_chain(chain, &shape, &acc, &|d, x| {
                    let mut b = body.clone();
                    d.visit_expr_mut(&mut b);
                    quote!(#a = { let #p0 = #a; let #p1 = #x; #b };)
                });
                quote!({ let mut #acc = #init; #s #l #acc })
            }
            _ => return None,
        };
        syn::parse2(quote!((#out))).ok()
    }

    // ---- single expressions

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        if let Some(rules) = self.macros.get(&name) {
            let t = expand(rules, m.tokens.clone())?;
            // an expression, or statements
            if let Ok(e) = syn::parse2::<Expr>(t.clone()) {
                return Some(e);
            }
            return syn::parse2(quote!({ #t })).ok();
        }
        match name.as_str() {
            "matches" => {
                let parts = split_commas(m.tokens.clone());
                let e: Expr = syn::parse2(parts.first()?.clone()).ok()?;
                let rest: Vec<TokenStream> = parts.into_iter().skip(1).collect();
                let p = quote!(#(#rest),*);
                struct P(Pat, Option<Expr>);
                impl syn::parse::Parse for P {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        Ok(P(p, g))
                    }
                }
                let P(p, g) = syn::parse2(p).ok()?;
                let g = g.map(|g| quote!(if #g));
                syn::parse2(quote!((match #e { #p #g => true, _ => false }))).ok()
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => syn::parse2(quote!(v_unreachable())).ok(),
            "format" => {
                let b = self.format_into(m.tokens.clone(), &format_ident!("fmt_out"))?;
                syn::parse2(quote!({ let mut fmt_out = String::new(); #b fmt_out })).ok()
            }
            "write" => {
                let mut parts = split_commas(m.tokens.clone()).into_iter();
                let dst = parts.next()?;
                let rest: Vec<_> = parts.collect();
                let dst: Ident = syn::parse2(dst).ok()?;
                let b = self.format_into(quote!(#(#rest),*), &dst)?;
                syn::parse2(quote!({ #b })).ok()
            }
            "vec" => {
                // visited as an array, then put back
                let a: Expr = {
                    let t = &m.tokens;
                    syn::parse2(quote!([#t])).ok()?
                };
                let Expr::Array(mut a) = a else { return None };
                for e in a.elems.iter_mut() {
                    self.visit_expr_mut(e)
                }
                let el = &a.elems;
                if el.is_empty() {
                    return syn::parse2(quote!(Vec::new())).ok();
                }
                let el: Vec<_> = el.iter().collect();
                Some(Expr::Verbatim(quote!({ let mut v_vec = Vec::new(); #(v_vec.push(#el);)* v_vec })))
            }
            "debug_assert" | "debug_assert_eq" => syn::parse2(quote!({})).ok(),
            _ => None,
        }
    }

    fn format_into(&mut self, args: TokenStream, dst: &Ident) -> Option<TokenStream> {
        let mut pre = TokenStream::new();
        let mut out = TokenStream::new();
        for p in format_pieces(args)? {
            match p {
                Piece::Lit(s) => out.extend(quote!(#dst.push_str(#s);)),
                Piece::Arg(a) => {
                    self.ntmp += 1;
                    let v = format_ident!("x{}", self.ntmp);
                    pre.extend(quote!(let #v = (#a).to_string();));
                    out.extend(quote!(#dst.push_str(#v.as_str());))
                }
            }
        }
        Some(quote!(#pre #out))
    }

    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv = &m.receiver;
        match (name.as_str(), m.args.len()) {
            ("write_fmt", 1) => {
                // f.write_fmt(format_args!(..))
                let Expr::Macro(fm) = m.args.first()? else { return None };
                if !fm.mac.path.is_ident("format_args") {
                    return None;
                }
                let mut pre = TokenStream::new();
                let mut out = TokenStream::new();
                for p in format_pieces(fm.mac.tokens.clone())? {
                    match p {
                        Piece::Lit(s) => out.extend(quote!(let _ = #recv.write_str(#s);)),
                        Piece::Arg(a) => {
                            self.ntmp += 1;
                            let v = format_ident!("x{}", self.ntmp);
                            pre.extend(quote!(let #v = (#a).to_string();));
                            out.extend(quote!(let _ = #recv.write_str(#v.as_str());))
                        }
                    }
                }
                let mut e: Expr = syn::parse2(quote!({ #pre #out Ok(()) })).ok()?;
                self.visit_expr_mut(&mut e);
                Some(e)
            }
            ("write_str", 1) => {
                let mut a = m.args.first()?.clone();
                if let Expr::Lit(_) = a {
                    return None;
                }
                self.visit_expr_mut(&mut a);
                let mut r = (**recv).clone();
                self.visit_expr_mut(&mut r);
                syn::parse2(quote!(#r.write_str((#a).v_str()))).ok()
            }
            ("unwrap_or", 1) => {
                let Expr::MethodCall(inner) = &**recv else { return None };
                if inner.method != "map" || inner.args.len() != 1 || self.parse_chain(&inner.receiver).is_some() {
                    return None;
                }
                let Expr::Closure(c) = inner.args.first()? else { return None };
                let (p, b, o, d) = (c.inputs.first()?, &c.body, &inner.receiver, m.args.first()?);
                let mut e: Expr = syn::parse2(quote!((match #o { Some(#p) => #b, None => #d }))).ok()?;
                self.visit_expr_mut(&mut e);
                Some(e)
            }
            ("is_some_and", 1) => {
                let Expr::Closure(c) = m.args.first()? else { return None };
                let (p, b) = (c.inputs.first()?, &c.body);
                let mut e: Expr = syn::parse2(quote!((match #recv { Some(#p) => #b, None => false }))).ok()?;
                self.visit_expr_mut(&mut e);
                Some(e)
            }
            ("map_err", 1) => {
                let Expr::Closure(c) = m.args.first()? else { return None };
                let mut p = c.inputs.first()?.clone();
                if let Pat::Type(t) = &p {
                    p = (*t.pat).clone()
                }
                let b = &c.body;
                let mut e: Expr = syn::parse2(quote!((match #recv { Ok(v_ok) => Ok(v_ok), Err(#p) => Err(#b) }))).ok()?;
                self.visit_expr_mut(&mut e);
                Some(e)
            }
            ("into", 0) | ("try_into", 0) => {
                let mut r = (**recv).clone();
                self.visit_expr_mut(&mut r);
                let n = format_ident!("{}", if name == "into" { "v_conv" } else { "v_try_conv" });
                syn::parse2(quote!(#r.#n())).ok()
            }
            ("to_string", 0) => {
                let mut r = (**recv).clone();
                self.visit_expr_mut(&mut r);
                syn::parse2(quote!(#r.v_to_string())).ok()
            }
            ("clone", 0) => {
                let mut r = (**recv).clone();
                self.visit_expr_mut(&mut r);
                syn::parse2(quote!(#r.v_clone())).ok()
            }
            ("repeat", 1) => {
                let mut r = (**recv).clone();
                self.visit_expr_mut(&mut r);
                let a = m.args.first()?;
                syn::parse2(quote!(v_repeat((#r).v_str(), #a))).ok()
            }
            ("split_once", 1) => {
                let mut r = (**recv).clone();
                self.visit_expr_mut(&mut r);
                let a = m.args.first()?;
                syn::parse2(quote!(v_split_once((#r).v_str(), #a))).ok()
            }
            ("push_str", 1) => {
                let mut a = m.args.first()?.clone();
                if is_str_lit(&a) {
                    return None;
                }
                self.visit_expr_mut(&mut a);
                let mut r = (**recv).clone();
                self.visit_expr_mut(&mut r);
                syn::parse2(quote!(#r.push_str((#a).v_str()))).ok()
            }
            _ => None,
        }
    }

    fn try_expr(&mut self, t: &ExprTry) -> Option<Expr> {
        let inner = match &*t.expr {
            Expr::Paren(p) => &p.expr,
            e => e,
        };
        if let Expr::MethodCall(m) = inner {
            if m.method == "map_err" {
                let Expr::Closure(c) = m.args.first()? else { return None };
                let mut p = c.inputs.first()?.clone();
                if let Pat::Type(t) = &p {
                    p = (*t.pat).clone()
                }
                let (r, b) = (&m.receiver, &c.body);
                return syn::parse2(quote!((match #r { Ok(v_ok) => v_ok, Err(#p) => { return Err(#b); } }))).ok();
            }
        }
        syn::parse2(quote!((match #inner { Ok(v_ok) => v_ok, Err(v_e) => { return Err(v_e); } }))).ok()
    }

    fn match_expr(&mut self, m: &ExprMatch) -> Option<Expr> {
        // string literals as patterns
        if m.arms.iter().any(|a| pat_has_str(&a.pat)) {
            self.ntmp += 1;
            let v = format_ident!("m{}", self.ntmp);
            let s = &m.expr;
            let mut out = quote!(v_unreachable());
            for a in m.arms.iter().rev() {
                let c = str_cond(&v, &a.pat)?;
                let b = &a.body;
                let c = match &a.guard {
                    Some((_, g)) => quote!(#c && (#g)),
                    None => c,
                };
                if matches!(a.pat, Pat::Wild(_)) && a.guard.is_none() {
                    out = quote!({ #b })
                } else {
                    out = quote!({ if #c { #b } else #out })
                }
            }
            if !m.arms.iter().any(|a| matches!(a.pat, Pat::Wild(_)) && a.guard.is_none()) {
                return None;
            }
            return syn::parse2(quote!({ let #v = (#s).v_str(); #out })).ok();
        }
        // a guard on an arm that binds by mutable reference
        let scrut = m.expr.to_token_stream().to_string().replace(' ', "");
        let by_mut = self.mut_refs.contains(&scrut) || scrut.starts_with("&mut");
        if by_mut && m.arms.iter().any(|a| a.guard.is_some() && binds(&a.pat)) {
            let e = &m.expr;
            let shared: TokenStream = match &*m.expr {
                Expr::Reference(r) => {
                    let i = &r.expr;
                    quote!(&#i)
                }
                e => quote!(&*#e),
            };
            let mut sel = TokenStream::new();
            for (i, a) in m.arms.iter().enumerate() {
                let p = strip_ref(&a.pat);
                let n = Literal::usize_suffixed(i);
                let g = a.guard.as_ref().map(|(_, g)| quote!(if #g));
                sel.extend(quote!(#p #g => #n,))
            }
            self.ntmp += 1;
            let v = format_ident!("sel{}", self.ntmp);
            let mut out = quote!({ v_unreachable() });
            for (i, a) in m.arms.iter().enumerate().rev() {
                let p = {
                    // `ref mut` is what matching on a mutable reference does anyway
                    let p = strip_ref(&a.pat);
                    quote!(#p)
                };
                let b = &a.body;
                let n = Literal::usize_suffixed(i);
                out = quote!({ if #v == #n { match #e { #p => { #b } _ => { v_unreachable() } } } else #out });
                if matches!(a.pat, Pat::Wild(_)) {
                    out = quote!({ if #v == #n { #b } else { v_unreachable() } })
                }
            }
            return syn::parse2(quote!({ let #v = match #shared { #sel }; #out })).ok();
        }
        None
    }

    fn binary(&mut self, b: &ExprBinary) -> Option<Expr> {
        let ne = match b.op {
            BinOp::Eq(_) => false,
            BinOp::Ne(_) => true,
            _ => return None,
        };
        let not = if ne { quote!(!) } else { quote!() };
        let (l, r) = (&b.left, &b.right);
        if is_str_lit(r) {
            return syn::parse2(quote!((#not v_str_eq((#l).v_str(), #r)))).ok();
        }
        if is_str_lit(l) {
            return syn::parse2(quote!((#not v_str_eq(#l, (#r).v_str())))).ok();
        }
        let is_some = |e: &Expr| matches!(e, Expr::Call(c) if c.func.to_token_stream().to_string() == "Some");
        if is_some(r) || is_some(l) {
            return syn::parse2(quote!((#not v_opt_eq(#l, #r)))).ok();
        }
        // a string's byte length compared with 1
        let len_of = |e: &Expr| -> Option<Expr> {
            match e {
                Expr::MethodCall(m) if m.method == "len" && m.receiver.to_token_stream().to_string().ends_with("label") => {
                    Some((*m.receiver).clone())
                }
                _ => None,
            }
        };
        let one = |e: &Expr| e.to_token_stream().to_string() == "1";
        if let (Some(e), true) = (len_of(l), one(r)) {
            return syn::parse2(quote!((#not v_byte_len_is_one((#e).v_str())))).ok();
        }
        None
    }
}

trait WithTop {
    fn into_token_stream_with_top(self, top: TokenStream) -> TokenStream;
}

impl WithTop for TokenStream {
    /// puts `top` after the first statement (the `let` of the element) of the last loop body
    fn into_token_stream_with_top(self, top: TokenStream) -> TokenStream {
        if top.is_empty() {
            return self;
        }
        let mut v: Vec<TokenTree> = self.into_iter().collect();
        // the while loop is the last brace group that follows `more ( )`
        let pos = (0..v.len())
            .rev()
            .find(|i| {
                matches!(&v[*i], TokenTree::Group(g) if g.delimiter() == Delimiter::Brace)
                    && *i >= 2
                    && matches!(&v[*i - 2], TokenTree::Ident(id) if id == "more")
            })
            .unwrap();
        if let TokenTree::Group(g) = &v[pos] {
            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
            // after `__ghost!(n);` and `let .. = it.v_next();`
            let mut semis = 0;
            let mut at = inner.len();
            for (i, t) in inner.iter().enumerate() {
                if matches!(t, TokenTree::Punct(p) if p.as_char() == ';') {
                    semis += 1;
                    if semis == 2 {
                        at = i + 1;
                        break;
                    }
                }
            }
            let mut s = TokenStream::new();
            s.extend(inner[..at].iter().cloned());
            s.extend(top);
            s.extend(inner[at..].iter().cloned());
            v[pos] = TokenTree::Group(Group::new(Delimiter::Brace, s))
        }
        v.into_iter().collect()
    }
}

use proc_macro2::Literal;

impl VisitMut for Ds<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // rules that look at the expression before its parts
        let new: Option<Expr> = match e {
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                match self.macro_expr(&m.mac) {
                    Some(Expr::Verbatim(v)) => {
                        *e = Expr::Verbatim(v);
                        return;
                    }
                    Some(x) => {
                        let _ = name;
                        Some(x)
                    }
                    None => None,
                }
            }
            Expr::Try(t) => self.try_expr(t),
            Expr::Match(m) => self.match_expr(m),
            Expr::Binary(b) => self.binary(b),
            Expr::MethodCall(m) => {
                if let Some(x) = self.terminal(m) {
                    *e = x;
                    return;
                }
                if let Some(x) = self.method(m) {
                    *e = x;
                    return;
                }
                None
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f == "std::mem::take" || f == "mem::take" {
                    let a = &c.args;
                    Some(parse_quote!(VTake::v_take(#a)))
                } else {
                    None
                }
            }
            Expr::ForLoop(f) => {
                let x = self.for_loop(f.clone());
                *e = x;
                return;
            }
            _ => None,
        };
        if let Some(n) = new {
            let again = !matches!(e, Expr::Call(_));
            *e = n;
            if again {
                return self.visit_expr_mut(e);
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a)
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let s = match s {
                Stmt::Macro(m) if !m.mac.path.is_ident("__ghost") => Stmt::Expr(
                    Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac }),
                    m.semi_token,
                ),
                s => s,
            };
            out.push(s)
        }
        // ghost text anchored to calls
        let mut res: Vec<Stmt> = vec![];
        for mut s in out {
            let names = direct_calls(&s.to_token_stream());
            let mut before = String::new();
            let mut after = String::new();
            for n in names {
                let k = self.calls.entry(n.clone()).or_insert(0);
                let ord = *k;
                *k += 1;
                for (w, txt) in [("before", &mut before), ("after", &mut after)] {
                    let key = (w.to_string(), n.clone(), ord);
                    if let Some(t) = self.spec.at.get(&key) {
                        self.used_at.push(key);
                        txt.push_str(t);
                        txt.push('\n')
                    }
                }
            }
            if !before.is_empty() {
                let g = self.ghost_text(&before);
                res.push(syn::parse2(g).unwrap());
            }
            self.visit_stmt_mut(&mut s);
            if after.is_empty() {
                res.push(s)
            } else {
                let g: Stmt = syn::parse2(self.ghost_text(&after)).unwrap();
                match s {
                    Stmt::Expr(e, None) => {
                        self.ntmp += 1;
                        let v = format_ident!("t{}", self.ntmp);
                        res.push(parse_quote!(let #v = #e;));
                        res.push(g);
                        res.push(Stmt::Expr(parse_quote!(#v), None));
                    }
                    s => {
                        res.push(s);
                        res.push(g)
                    }
                }
            }
        }
        b.stmts = res;
    }
}

/// The names called in a statement, nested blocks left out
fn direct_calls(t: &TokenStream) -> Vec<String> {
    fn go(t: TokenStream, out: &mut Vec<String>) {
        let v: Vec<TokenTree> = t.into_iter().collect();
        for i in 0..v.len() {
            match &v[i] {
                TokenTree::Ident(id) => {
                    let called = match v.get(i + 1) {
                        Some(TokenTree::Group(g)) => g.delimiter() == Delimiter::Parenthesis,
                        Some(TokenTree::Punct(p)) => {
                            p.as_char() == '!' && matches!(v.get(i + 2), Some(TokenTree::Group(_)))
                        }
                        _ => false,
                    };
                    if called {
                        out.push(id.to_string())
                    }
                }
                TokenTree::Group(g) if g.delimiter() != Delimiter::Brace => go(g.stream(), out),
                _ => {}
            }
        }
    }
    let mut out = vec![];
    go(t.clone(), &mut out);
    out
}

impl Ds<'_> {
    fn for_loop(&mut self, f: ExprForLoop) -> Expr {
        let id = format!("L{}", self.nloop);
        let n = self.nloop;
        self.nloop += 1;
        let pat = &f.pat;
        // by mutable reference: an index
        if let Expr::MethodCall(m) = &*f.expr {
            if m.method == "iter_mut" {
                self.shape_log.push("for iter_mut".into());
                let ix = format_ident!("ix{n}");
                let mut e = (*m.receiver).clone();
                self.visit_expr_mut(&mut e);
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                let stmts = &body.stmts;
                let ls = self.spec.loops.get(&id).cloned().unwrap_or_default();
                if self.spec.loops.contains_key(&id) {
                    self.used_loops.push(id.clone())
                }
                let pre = self.ghost_text(&ls.pre);
                let top = self.ghost_text(&ls.top);
                let end = self.ghost_text(&ls.end);
                let post = self.ghost_text(&ls.post);
                let dec = ls.decreases.clone().unwrap_or(format!("{}.len() - {ix}", e.to_token_stream()));
                let inv = self.ghost(Ghost::Loop { invs: ls.invs, decreases: dec, loop_id: id });
                return parse_quote!({
                    let mut #ix: usize = 0;
                    #pre
                    while #ix < #e.len() {
                        #inv
                        let #pat = &mut #e[#ix];
                        #ix = #ix + 1;
                        #top
                        #(#stmts)*
                        #end
                    }
                    #post
                });
            }
        }
        let chain = self.parse_chain(&f.expr).filter(|c| c.stages.is_empty());
        let mut kind = "value";
        let mut before = TokenStream::new();
        let src = match chain {
            Some(c) => {
                kind = match &c.source {
                    Src::Iter(_) => "iter",
                    Src::IntoIter(_) => "into_iter",
                    Src::Chars(_) => "chars",
                    Src::Split(..) => "split",
                };
                self.source(c.source, &mut before)
            }
            None => {
                let mut e = (*f.expr).clone();
                if let Expr::Array(a) = &e {
                    let el = &a.elems;
                    e = parse_quote!(vec![#el]);
                }
                self.visit_expr_mut(&mut e);
                quote!(VInto::v_into_iter(#e))
            }
        };
        self.shape_log.push(format!("for {kind}"));
        let it = format_ident!("it{n}");
        let mut body = f.body.clone();
        self.visit_block_mut(&mut body);
        // what is said at the end of the body is said before each `continue` too
        if let Some(end) = self.spec.loops.get(&id).map(|l| l.end.clone()).filter(|e| !e.is_empty()) {
            let mut v = AtContinue { found: vec![] };
            v.visit_block_mut(&mut body);
            let n = v.found.len();
            let ends: Vec<TokenStream> = (0..n).map(|_| self.ghost_text(&end)).collect();
            let mut v = PutContinue { ends };
            v.visit_block_mut(&mut body);
        }
        let stmts = &body.stmts;
        // a body that ends in an expression of unit type
        let l = self.make_loop(
            &id,
            &format!("for {kind}"),
            &it,
            None,
            quote!(#before let mut #it = #src;),
            quote!(let #pat = #it.v_next(); #(#stmts)*),
        );
        let l = fix_tail(l);
        parse_quote!({ #l })
    }

    pub fn finish(&self) -> (usize, usize) {
        (self.nloop, self.nchain)
    }
}

/// the `continue`s of a loop body, those of inner loops left out
struct AtContinue {
    found: Vec<()>,
}

impl VisitMut for AtContinue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
            Expr::Continue(_) => self.found.push(()),
            _ => syn::visit_mut::visit_expr_mut(self, e),
        }
    }
}

struct PutContinue {
    ends: Vec<TokenStream>,
}

impl VisitMut for PutContinue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
            Expr::Continue(_) => {
                if let Some(t) = self.ends.pop() {
                    *e = parse_quote!({
                        #t
                        continue
                    });
                }
            }
            _ => syn::visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn fix_tail(t: TokenStream) -> TokenStream {
    t
}
