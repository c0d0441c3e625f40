//! One oracle per property, run on the real crate.
use crate::{gen::Src, refparse::*, tree::*};
use latex_ast::{
    ast1,
    ast2::{self, IntoChunks as _},
    ast3,
    traits::{Lines, Validate},
};
use serde::{Deserialize, Serialize};
use std::str::FromStr;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Input {
    /// Source text
    Src(String),
    /// A list of chunks of a stage, built through the API
    Tree(u8, Vec<Item>),
    /// A stage 3 document built through the API
    Doc(Doc3),
    /// A push onto a list of chunks: stage, section, method
    Push(u8, String, String, Vec<Item>, Item),
}

/// Ok(true): held on an input that exercises the property. Ok(false): held, trivially.
pub type Verdict = Result<bool, String>;

macro_rules! ensure {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}

fn same(what: &str, got: &str, want: &str) -> Result<(), String> {
    ensure!(got == want, "{what} is {got:?}, expected {want:?}");
    Ok(())
}

pub fn check(prop: &str, input: &Input) -> Verdict {
    match prop {
        "C01" => c01(input),
        "C02" => c02(input),
        "C03" => c03(input),
        "C04" => c04(input),
        "C05" => c05(input),
        "C06" => c06(input),
        "C07" => c07(input),
        "C08" => c08(input),
        "C09" => c09(input),
        "C10" => c10(input),
        "C11" => c11(input),
        "C12" => c12(input),
        "C13" => c13(input),
        "C14" => c14(input),
        "C15" => c15(input),
        _ => panic!("unknown property"),
    }
}

/// What kinds of generated inputs a property uses
pub fn generate(prop: &str, g: &mut Src) -> Input {
    let r = g.rng.below(4);
    match prop {
        "C03" if r > 0 => match g.rng.below(4) {
            0 => Input::Tree(1, g.tree(1, true)),
            1 => Input::Tree(2, g.tree(2, true)),
            2 => Input::Tree(3, g.tree(3, true)),
            _ => Input::Doc(g.doc3(true)),
        },
        "C04" => {
            let wild = g.rng.chance(1, 2);
            match g.rng.below(4) {
                0 => Input::Tree(1, g.tree(1, wild)),
                1 => Input::Tree(2, g.tree(2, wild)),
                2 => Input::Tree(3, g.tree(3, wild)),
                _ => Input::Doc(g.doc3(wild)),
            }
        }
        "C05" => {
            let stage = 1 + g.rng.below(3) as u8;
            let wild = g.rng.chance(1, 4);
            let mut items = g.tree(stage, wild);
            if g.rng.chance(2, 3) {
                renumber(&mut items)
            }
            let section = if stage == 3 {
                g.rng.pick(&["body", "preamable", "trailing"]).to_string()
            } else {
                "document".into()
            };
            let method = if stage == 1 && g.rng.chance(1, 5) {
                "into"
            } else {
                g.rng.pick(&["push", "push_chunk", "push_unchecked", "push_chunk_unchecked"])
            };
            let end = end_line(&items);
            let line = if g.rng.chance(3, 4) { end } else { end + g.rng.below(3) as u32 };
            let mut node = if method == "into" { g.node(2, 1, false) } else { g.node(stage, 1, wild) };
            let line = if method == "into" { line.max(1) } else { line };
            if method == "into" {
                let mut one = vec![Item { line: 1, node }];
                renumber(&mut one);
                node = one.remove(0).node;
                if !plain_labels(&[Item { line: 1, node: node.clone() }]) {
                    node = Node::Text("t".into())
                }
            }
            Input::Push(stage, section, method.to_string(), items, Item { line, node })
        }
        "C06" | "C08" if r == 0 => Input::Tree(1, numbered_tree(g, 1)),
        "C07" if r <= 1 => Input::Tree(2, numbered_tree(g, 2)),
        "C09" if r > 0 => Input::Tree(3, {
            let w = g.rng.chance(1, 3);
            g.tree(3, w)
        }),
        "C10" if r == 0 => Input::Tree(2, numbered_tree(g, 2)),
        "C10" if r == 1 => Input::Tree(3, numbered_tree(g, 3)),
        "C11" if r == 0 => {
            let mut d = g.doc3(false);
            renumber(&mut d.pre);
            renumber(&mut d.body);
            renumber(&mut d.trailing);
            d.args.iter_mut().for_each(|a| renumber(&mut a.items));
            Input::Doc(d)
        }
        "C11" | "C12" => Input::Src(g.document()),
        "C13" if r == 0 => match g.rng.below(3) {
            0 => Input::Tree(1, numbered_tree(g, 1)),
            1 => Input::Tree(2, numbered_tree(g, 2)),
            _ => Input::Tree(3, numbered_tree(g, 3)),
        },
        "C14" if r == 0 => match g.rng.below(2) {
            0 => Input::Tree(1, numbered_tree(g, 1)),
            _ => Input::Tree(2, numbered_tree(g, 2)),
        },
        _ => Input::Src(g.source()),
    }
}

fn numbered_tree(g: &mut Src, stage: u8) -> Vec<Item> {
    let mut t = g.tree(stage, false);
    renumber(&mut t);
    t
}

fn end_line(items: &[Item]) -> u32 {
    items
        .last()
        .map(|l| l.line + nl(&render(&l.node)))
        .unwrap_or(1)
}

fn e2s(e: &latex_ast::Error) -> String {
    format!("{:?} at line {}", e.r#type, e.line)
}

fn p1(s: &str) -> Result<ast1::Document, latex_ast::Error> {
    ast1::Document::from_str(s)
}
fn p2(s: &str) -> Result<ast2::Document, latex_ast::Error> {
    ast2::Document::from_str(s)
}
fn p3(s: &str) -> Result<ast3::Document, latex_ast::Error> {
    ast3::Document::from_str(s)
}

fn doc1(items: &[Item]) -> ast1::Document {
    ast1::Document::new_unchecked(to1(items))
}
fn doc2(items: &[Item]) -> ast2::Document {
    ast2::Document::new_unchecked(to2(items))
}

/// The tree without its line numbers
fn unline(items: &[Item]) -> Vec<Item> {
    fn args(a: &[Arg]) -> Vec<Arg> {
        a.iter()
            .map(|a| Arg {
                prec: a.prec.clone(),
                br: a.br,
                items: unline(&a.items),
            })
            .collect()
    }
    items
        .iter()
        .map(|i| Item {
            line: 0,
            node: match &i.node {
                Node::Cmd { label, args: a } => Node::Cmd {
                    label: label.clone(),
                    args: args(a),
                },
                Node::Scope(b, s) => Node::Scope(*b, unline(s)),
                Node::Env {
                    label,
                    args: a,
                    content,
                    pb,
                    pe,
                } => Node::Env {
                    label: label.clone(),
                    args: args(a),
                    content: unline(content),
                    pb: pb.clone(),
                    pe: pe.clone(),
                },
                Node::Maths {
                    dollars,
                    display,
                    content,
                } => Node::Maths {
                    dollars: *dollars,
                    display: *display,
                    content: unline(content),
                },
                n => n.clone(),
            },
        })
        .collect()
}

fn each(items: &[Item], f: &mut dyn FnMut(&Node) -> Result<(), String>) -> Result<(), String> {
    for i in items {
        f(&i.node)?;
        match &i.node {
            Node::Text(_) | Node::Par(_) => {}
            Node::Cmd { args, .. } => args.iter().try_for_each(|a| each(&a.items, f))?,
            Node::Scope(_, s) => each(s, f)?,
            Node::Env { args, content, .. } => {
                args.iter().try_for_each(|a| each(&a.items, f))?;
                each(content, f)?
            }
            Node::Maths { content, .. } => each(content, f)?,
        }
    }
    Ok(())
}

fn plain_labels(items: &[Item]) -> bool {
    let mut ok = true;
    let _ = each(items, &mut |n| {
        if let Node::Env { label, .. } = n {
            ok &= !label.chars().any(special)
        }
        Ok(())
    });
    ok
}

// ------------------------------------------------------------------ properties

fn c01(i: &Input) -> Verdict {
    let Input::Src(s) = i else { return Ok(false) };
    let Ok(d) = p1(s) else { return Ok(false) };
    let want = strip(s);
    same("the printed document", &d.to_string(), &want)?;
    same("the text of the chunks", &render_items(&from1(d.chunks())), &want)?;
    Ok(d.chunks().len() > 1)
}

fn c02(i: &Input) -> Verdict {
    let Input::Src(s) = i else { return Ok(false) };
    let Ok(d) = p1(s) else { return Ok(false) };
    numbered(&from1(d.chunks()), "stage 1")?;
    Ok(s.contains('\n') && d.chunks().len() > 1)
}

fn lines_all(stage: u8, items: &[Item]) -> Result<(), String> {
    each(items, &mut |n| {
        let (l, s) = match stage {
            1 => {
                let v = to_node1(n);
                let c = ast1::Chunk::new_unchecked(1, v.clone());
                let inner = match &v {
                    ast1::ChunkVariant::Command(c) => c.lines(),
                    ast1::ChunkVariant::Scope(c) => c.lines(),
                    _ => v.lines(),
                };
                ensure!(
                    c.lines() == v.lines() && inner == v.lines(),
                    "lines of {n:?} differ by level"
                );
                (v.lines(), v.to_string())
            }
            2 => {
                let v = to_node2(n);
                let c = ast2::Chunk::new_unchecked(1, v.clone());
                let inner = match &v {
                    ast2::ChunkVariant::Command(c) => c.lines(),
                    ast2::ChunkVariant::Scope(c) => c.lines(),
                    ast2::ChunkVariant::Environment(c) => c.lines(),
                    _ => v.lines(),
                };
                ensure!(
                    c.lines() == v.lines() && inner == v.lines(),
                    "lines of {n:?} differ by level"
                );
                (v.lines(), v.to_string())
            }
            _ => {
                let v = to_node3(n);
                let c = ast3::Chunk::new_unchecked(1, v.clone());
                let inner = match &v {
                    ast3::ChunkVariant::Command(c) => c.lines(),
                    ast3::ChunkVariant::Scope(c) => c.lines(),
                    ast3::ChunkVariant::Environment(c) => c.lines(),
                    ast3::ChunkVariant::MathsBlock(c) => c.lines(),
                    _ => v.lines(),
                };
                ensure!(
                    c.lines() == v.lines() && inner == v.lines(),
                    "lines of {n:?} differ by level"
                );
                (v.lines(), v.to_string())
            }
        };
        ensure!(
            l == 1 + nl(&s),
            "lines() of stage {stage} {n:?} is {l}, it prints {} lines",
            1 + nl(&s)
        );
        Ok(())
    })
}

fn c03(i: &Input) -> Verdict {
    fn doc(l: u32, s: String) -> Result<(), String> {
        ensure!(
            l == 1 + nl(&s),
            "lines() of the document is {l}, it prints {} lines: {s:?}",
            1 + nl(&s)
        );
        Ok(())
    }
    let d3 = |d: &ast3::Document| -> Result<(), String> {
        let t = from_doc3(d);
        for l in [&t.pre, &t.body, &t.trailing] {
            lines_all(3, l)?
        }
        doc(d.lines(), d.to_string())
    };
    match i {
        Input::Src(s) => {
            if let Ok(d) = p1(s) {
                doc(d.lines(), d.to_string())?;
                lines_all(1, &from1(d.chunks()))?
            }
            if let Ok(d) = p2(s) {
                doc(d.lines(), d.to_string())?;
                lines_all(2, &from2(d.chunks()))?
            }
            if let Ok(d) = p3(s) {
                d3(&d)?
            }
            Ok(s.contains('\n'))
        }
        Input::Tree(k, items) => {
            lines_all(*k, items)?;
            match k {
                1 => doc(doc1(items).lines(), doc1(items).to_string())?,
                2 => doc(doc2(items).lines(), doc2(items).to_string())?,
                _ => {
                    let d = ast3::Document::new_unchecked(
                        to3(items),
                        None,
                        vec![],
                        vec![],
                        vec![],
                        String::new(),
                        String::new(),
                        vec![],
                    );
                    doc(d.lines(), d.to_string())?
                }
            }
            Ok(render_items(items).contains('\n'))
        }
        Input::Doc(d) => {
            d3(&to_doc3(d))?;
            Ok(render3(d).contains('\n'))
        }
        _ => Ok(false),
    }
}

fn judge(
    what: &str,
    got: Result<(), latex_ast::InternalError>,
    want: &[String],
) -> Result<(), String> {
    match got {
        Ok(()) => ensure!(want.is_empty(), "{what} is accepted, it has {want:?}"),
        Err(e) => ensure!(
            want.contains(&format!("{e:?}")),
            "{what} is rejected with {e:?}, it has {want:?}"
        ),
    }
    Ok(())
}

macro_rules! valid_nodes {
    ($fn:ident, $ast:ident, $k:expr, $to:ident, $to_node:ident, $to_args:ident, $to_scope:ident, $mk:ident, $($extra:tt)*) => {
        fn $fn(items: &[Item]) -> Result<(), String> {
            each(items, &mut |n| {
                let mut want = Vec::new();
                violations($k, n, &mut want);
                let v = $to_node(n);
                judge(&format!("chunk variant {n:?}"), v.validate(), &want)?;
                let c = $ast::Chunk::new_unchecked(3, v.clone());
                judge(&format!("chunk {n:?}"), c.validate(), &want)?;
                match $ast::Chunk::new(3, v.clone()) {
                    Ok(d) => {
                        judge(&format!("Chunk::new {n:?}"), Ok(()), &want)?;
                        ensure!(d == c, "Chunk::new built {d:?} from {n:?}")
                    }
                    Err(e) => judge(&format!("Chunk::new {n:?}"), Err(e), &want)?,
                }
                match n {
                    Node::Cmd { label, args } => {
                        let c = $ast::Command::new_unchecked(label.clone(), $to_args(args));
                        judge(&format!("command {n:?}"), c.validate(), &want)?;
                        match $ast::Command::new(label.clone(), $to_args(args)) {
                            Ok(d) => {
                                judge(&format!("Command::new {n:?}"), Ok(()), &want)?;
                                ensure!(d == c, "Command::new built {d:?} from {n:?}")
                            }
                            Err(e) => judge(&format!("Command::new {n:?}"), Err(e), &want)?,
                        }
                    }
                    Node::Scope(b, s) => {
                        let c = $to_scope(*b, s);
                        judge(&format!("scope {n:?}"), c.validate(), &want)?;
                        match $ast::Scope::new($to(s), $mk(*b)) {
                            Ok(d) => {
                                judge(&format!("Scope::new {n:?}"), Ok(()), &want)?;
                                ensure!(d == c, "Scope::new built {d:?} from {n:?}")
                            }
                            Err(e) => judge(&format!("Scope::new {n:?}"), Err(e), &want)?,
                        }
                    }
                    _ => {}
                }
                $($extra)*(n, &want)
            })
        }
    };
}

fn valid_env2(n: &Node, want: &[String]) -> Result<(), String> {
    if let Node::Env { label, args, content, pb, pe } = n {
        let (a, b, c, d, e) = (label.clone(), to_args2(args), to2(content), pb.clone(), pe.clone());
        let u = ast2::Environment::new_unchecked(a.clone(), b.clone(), c.clone(), d.clone(), e.clone());
        judge(&format!("environment {n:?}"), u.validate(), want)?;
        match ast2::Environment::new(a, b, c, d, e) {
            Ok(v) => {
                judge(&format!("Environment::new {n:?}"), Ok(()), want)?;
                ensure!(v == u, "Environment::new built {v:?} from {n:?}")
            }
            Err(e) => judge(&format!("Environment::new {n:?}"), Err(e), want)?,
        }
    }
    Ok(())
}

fn valid_env3(n: &Node, want: &[String]) -> Result<(), String> {
    match n {
        Node::Env { label, args, content, pb, pe } => {
            let (a, b, c, d, e) = (label.clone(), to_args3(args), to3(content), pb.clone(), pe.clone());
            let u = ast3::Environment::new_unchecked(a.clone(), b.clone(), c.clone(), d.clone(), e.clone());
            judge(&format!("environment {n:?}"), u.validate(), want)?;
            match ast3::Environment::new(a, b, c, d, e) {
                Ok(v) => {
                    judge(&format!("Environment::new {n:?}"), Ok(()), want)?;
                    ensure!(v == u, "Environment::new built {v:?} from {n:?}")
                }
                Err(e) => judge(&format!("Environment::new {n:?}"), Err(e), want)?,
            }
        }
        Node::Maths { dollars, display, content } => {
            let v = || if *dollars { ast3::MathsVariant::Dollars } else { ast3::MathsVariant::Brackets };
            let t = || if *display { ast3::MathsType::Outline } else { ast3::MathsType::Inline };
            let u = ast3::MathsBlock::new_unchecked(v(), t(), to3(content));
            judge(&format!("maths {n:?}"), u.validate(), want)?;
            match ast3::MathsBlock::new(v(), t(), to3(content)) {
                Ok(v) => {
                    judge(&format!("MathsBlock::new {n:?}"), Ok(()), want)?;
                    ensure!(v == u, "MathsBlock::new built {v:?} from {n:?}")
                }
                Err(e) => judge(&format!("MathsBlock::new {n:?}"), Err(e), want)?,
            }
        }
        _ => {}
    }
    Ok(())
}

fn no_extra(_: &Node, _: &[String]) -> Result<(), String> {
    Ok(())
}

valid_nodes!(valid1, ast1, 1, to1, to_node1, to_args1, to_scope1, mk_br1, no_extra);
valid_nodes!(valid2, ast2, 2, to2, to_node2, to_args2, to_scope2, mk_br2, valid_env2);
valid_nodes!(valid3, ast3, 3, to3, to_node3, to_args3, to_scope3, mk_br3, valid_env3);

fn c04(i: &Input) -> Verdict {
    match i {
        Input::Tree(k, items) => {
            let mut want = Vec::new();
            violations_doc(*k, items, &mut want);
            match k {
                1 => {
                    valid1(items)?;
                    judge("the document", doc1(items).validate(), &want)?;
                    match ast1::Document::new(to1(items)) {
                        Ok(d) => {
                            judge("Document::new", Ok(()), &want)?;
                            ensure!(d == doc1(items), "Document::new built {d:?}")
                        }
                        Err(e) => judge("Document::new", Err(e), &want)?,
                    }
                }
                2 => {
                    valid2(items)?;
                    judge("the document", doc2(items).validate(), &want)?;
                    match ast2::Document::new(to2(items)) {
                        Ok(d) => {
                            judge("Document::new", Ok(()), &want)?;
                            ensure!(d == doc2(items), "Document::new built {d:?}")
                        }
                        Err(e) => judge("Document::new", Err(e), &want)?,
                    }
                }
                _ => valid3(items)?,
            }
            brackets()?;
            Ok(!items.is_empty())
        }
        Input::Doc(d) => {
            let mut want = Vec::new();
            for l in [&d.pre, &d.body, &d.trailing] {
                violations_doc(3, l, &mut want);
                valid3(l)?
            }
            for a in &d.args {
                violations_list(3, &a.items, &mut want)
            }
            judge("the document", to_doc3(d).validate(), &want)?;
            match ast3::Document::new(
                to3(&d.pre),
                d.class.clone(),
                d.opts.clone(),
                to3(&d.body),
                to_args3(&d.args),
                d.pb.clone(),
                d.pe.clone(),
                to3(&d.trailing),
            ) {
                Ok(n) => {
                    judge("Document::new", Ok(()), &want)?;
                    ensure!(n == to_doc3(d), "Document::new built {n:?}")
                }
                Err(e) => judge("Document::new", Err(e), &want)?,
            }
            Ok(true)
        }
        _ => Ok(false),
    }
}

fn brackets() -> Result<(), String> {
    for b in [Br::Curly, Br::Round, Br::Square] {
        ensure!(
            mk_br1(b).open() == b.open() && mk_br2(b).open() == b.open() && mk_br3(b).open() == b.open(),
            "the opening bracket of {b:?}"
        );
        ensure!(
            mk_br1(b).close() == b.close() && mk_br2(b).close() == b.close() && mk_br3(b).close() == b.close(),
            "the closing bracket of {b:?}"
        );
        ensure!(
            br1(ast1::ScopeVariant::from_opening(b.open())) == b
                && br1(ast1::ScopeVariant::from_closing(b.close())) == b,
            "the kind of the brackets {b:?}"
        );
        ensure!(
            br1(mk_br2(b).into()) == b && br2(mk_br1(b).into()) == b && br2(mk_br3(b).into()) == b && br3(mk_br2(b).into()) == b,
            "the conversions of {b:?}"
        );
    }
    for c in (0..256).filter_map(char::from_u32) {
        ensure!(
            ast1::ScopeVariant::is_opening(c) == Br::opening(c).is_some()
                && ast1::ScopeVariant::is_closing(c) == Br::closing(c).is_some(),
            "whether {c:?} is a bracket"
        );
    }
    Ok(())
}

fn c05(i: &Input) -> Verdict {
    let Input::Push(stage, section, method, items, item) = i else {
        return Ok(false);
    };
    let end = end_line(items);
    let mut want_items = items.clone();
    let mut vs = Vec::new();
    let mut line_ok = true;
    let pieces = if method == "into" {
        // the chunks of the conversion, checked by C07
        let c = ast2::Chunk::new_unchecked(item.line, to_node2(&item.node));
        let mut d = ast1::Document::new_unchecked(vec![]);
        // one by one, so that nothing merges
        let chunks = ast1::IntoChunks::into_chunks(c);
        let out = from1(&chunks);
        d.push_into_unchecked(ast2::Chunk::new_unchecked(item.line, to_node2(&item.node)));
        out
    } else {
        let checked = !method.ends_with("unchecked");
        let line = if method.starts_with("push_chunk") { item.line } else { end };
        if checked {
            violations(*stage, &item.node, &mut vs);
            line_ok = line == end;
        }
        vec![Item { line, node: item.node.clone() }]
    };
    for p in pieces {
        match (want_items.last_mut(), &p.node) {
            (Some(Item { node: Node::Text(a), .. }), Node::Text(b)) => {
                a.push_str(b);
                if *stage == 3 && !method.ends_with("unchecked") && line_ok && vs.is_empty() {
                    violations(3, &Node::Text(a.clone()), &mut vs)
                }
            }
            _ => want_items.push(p),
        }
    }
    let rejected = !vs.is_empty() || !line_ok;
    let (got, res): (Vec<Item>, Option<Result<(), latex_ast::InternalError>>) = match stage {
        1 => {
            let mut d = doc1(items);
            let v = || to_node1(&item.node);
            let r = match method.as_str() {
                "push" => Some(d.push(v())),
                "push_chunk" => Some(d.push_chunk(ast1::Chunk::new_unchecked(item.line, v()))),
                "push_unchecked" => {
                    d.push_unchecked(v());
                    None
                }
                "into" => {
                    d.push_into_unchecked(ast2::Chunk::new_unchecked(item.line, to_node2(&item.node)));
                    None
                }
                _ => {
                    d.push_chunk_unchecked(ast1::Chunk::new_unchecked(item.line, v()));
                    None
                }
            };
            (from1(d.chunks()), r)
        }
        2 => {
            let mut d = doc2(items);
            let v = to_node2(&item.node);
            let r = match method.as_str() {
                "push" => Some(d.push(v)),
                "push_chunk" => Some(d.push_chunk(ast2::Chunk::new_unchecked(item.line, v))),
                "push_unchecked" => {
                    d.push_unchecked(v);
                    None
                }
                _ => {
                    d.push_chunk_unchecked(ast2::Chunk::new_unchecked(item.line, v));
                    None
                }
            };
            (from2(d.chunks()), r)
        }
        _ => {
            let others = [
                vec![],
                vec![Item { line: 1, node: Node::Text("other".into()) }],
                vec![Item { line: 1, node: Node::Text("other\n".into()) }, Item { line: 2, node: Node::Scope(Br::Curly, vec![]) }],
            ];
            let k = items.len() + format!("{:?}", item.node).len();
            let other = |s: &str| &others[(k + k / 3 * (s == "body") as usize + (s == "trailing") as usize) % 3];
            let pick = |s: &str| to3(if section == s { items } else { other(s) });
            let mut d = ast3::Document::new_unchecked(
                pick("preamable"),
                None,
                vec![],
                pick("body"),
                vec![],
                String::new(),
                String::new(),
                pick("trailing"),
            );
            let v = to_node3(&item.node);
            let c = ast3::Chunk::new_unchecked(item.line, v.clone());
            let r = match (section.as_str(), method.as_str()) {
                ("body", "push") => Some(d.push_body(v)),
                ("body", "push_chunk") => Some(d.push_body_chunk(c)),
                ("body", "push_unchecked") => {
                    d.push_body_unchecked(v);
                    None
                }
                ("body", _) => {
                    d.push_body_chunk_unchecked(c);
                    None
                }
                ("preamable", "push") => Some(d.push_preamable(v)),
                ("preamable", "push_chunk") => Some(d.push_preamable_chunk(c)),
                ("preamable", "push_unchecked") => {
                    d.push_preamable_unchecked(v);
                    None
                }
                ("preamable", _) => {
                    d.push_preamable_chunk_unchecked(c);
                    None
                }
                (_, "push") => Some(d.push_trailing(v)),
                (_, "push_chunk") => Some(d.push_trailing_chunk(c)),
                (_, "push_unchecked") => {
                    d.push_trailing_unchecked(v);
                    None
                }
                _ => {
                    d.push_trailing_chunk_unchecked(c);
                    None
                }
            };
            let t = from_doc3(&d);
            for (n, l) in [("preamable", &t.pre), ("body", &t.body), ("trailing", &t.trailing)] {
                ensure!(n == section || l == other(n), "pushing to {section} changed {n}");
            }
            let l = match section.as_str() {
                "body" => t.body,
                "preamable" => t.pre,
                _ => t.trailing,
            };
            (l, r)
        }
    };
    if !line_ok {
        vs.push(format!(
            "IncorrectChunkLineNumber {{ expected: {end}, got: {} }}",
            item.line
        ))
    }
    match res {
        Some(Err(e)) => {
            ensure!(rejected, "{method} rejected with {e:?} what is valid there");
            ensure!(vs.contains(&format!("{e:?}")), "{method} rejected with {e:?}, not {vs:?}");
            ensure!(got == *items, "a rejected {method} changed the document to {got:?}");
        }
        Some(Ok(())) | None => {
            ensure!(!rejected, "{method} accepted {item:?} in spite of {vs:?}");
            ensure!(got == want_items, "{method} gives {got:?}, expected {want_items:?}");
        }
    }
    Ok(!items.is_empty())
}

fn no_begin_end(items: &[Item]) -> Result<(), String> {
    each(items, &mut |n| match n {
        Node::Cmd { label, .. } if label == "begin" || label == "end" => {
            Err(format!("a `\\{label}` command is left in stage 2"))
        }
        _ => Ok(()),
    })
}

fn c06(i: &Input) -> Verdict {
    let (items1, r) = match i {
        Input::Src(s) => {
            let Ok(d) = p1(s) else { return Ok(false) };
            if let Ok(d) = p2(s) {
                same("the printed document", &d.to_string(), &strip(s))?;
            }
            (from1(d.chunks()), ast2::Document::try_from(d))
        }
        Input::Tree(1, t) => (t.clone(), ast2::Document::try_from(doc1(t))),
        _ => return Ok(false),
    };
    let Ok(d) = r else { return Ok(false) };
    let want = render_items(&items1);
    let got = from2(d.chunks());
    same("the printed document", &d.to_string(), &want)?;
    same("the text of the chunks", &render_items(&got), &want)?;
    no_begin_end(&got)?;
    match ref2(&items1) {
        Ok(w) => ensure!(
            unline(&got) == unline(&w),
            "the environments are {:?}, expected {:?}",
            unline(&got),
            unline(&w)
        ),
        Err(e) => return Err(format!("accepted in spite of {e:?}")),
    }
    let mut env = false;
    let _ = each(&got, &mut |n| {
        env |= matches!(n, Node::Env { .. });
        Ok(())
    });
    Ok(env)
}

fn c07(i: &Input) -> Verdict {
    match i {
        Input::Src(s) => {
            let (Ok(a), Ok(b)) = (p1(s), p2(s)) else { return Ok(false) };
            let back = ast1::Document::from(b.clone());
            same("the text back in stage 1", &back.to_string(), &b.to_string())?;
            let (got, want) = (from1(back.chunks()), from1(a.chunks()));
            ensure!(
                got == want,
                "stage 2 goes back to {got:?}, stage 1 was {want:?}"
            );
            Ok(b.chunks().len() > 1)
        }
        Input::Tree(2, t) if plain_labels(t) => {
            let back = ast1::Document::from(doc2(t));
            same("the text back in stage 1", &back.to_string(), &render_items(t))?;
            same(
                "the text of the chunks back in stage 1",
                &render_items(&from1(back.chunks())),
                &render_items(t),
            )?;
            numbered(&from1(back.chunks()), "back in stage 1")?;
            for it in t {
                match &it.node {
                    Node::Scope(b, items) => {
                        let s = to_scope2(*b, items);
                        for n in [s.clone().to_ast1_scope(), ast1::Scope::from(s)] {
                            same("a scope back in stage 1", &n.to_string(), &render(&it.node))?;
                            numbered(&from1(n.chunks()), "a scope back in stage 1")?
                        }
                    }
                    Node::Cmd { label, args } => {
                        let c = ast1::Command::from(ast2::Command::new_unchecked(
                            label.clone(),
                            to_args2(args),
                        ));
                        same("a command back in stage 1", &c.to_string(), &render(&it.node))?;
                    }
                    _ => {}
                }
            }
            Ok(t.len() > 1)
        }
        _ => Ok(false),
    }
}

fn c08(i: &Input) -> Verdict {
    let r = match i {
        Input::Src(s) => p2(s),
        Input::Tree(1, t) => ast2::Document::try_from(doc1(t)),
        _ => return Ok(false),
    };
    let Ok(d) = r else { return Ok(false) };
    let t = from2(d.chunks());
    numbered(&t, "stage 2")?;
    Ok(render_items(&t).contains('\n') && t.len() > 1)
}

fn c09(i: &Input) -> Verdict {
    let t = match i {
        Input::Src(s) => vec![Item { line: 1, node: Node::Text(s.clone()) }],
        Input::Tree(3, t) => t.clone(),
        _ => return Ok(false),
    };
    let got = from3(&ast3::Paragraph::from_chunks(to3(&t)));
    let want = split_paragraphs(&t);
    same("the text", &render_items(&got), &render_items(&t))?;
    ensure!(got == want, "split into {got:?}, expected {want:?}");
    Ok(got.len() > t.len())
}

fn into2(chunks: Vec<ast3::Chunk>) -> Vec<Item> {
    from2(&chunks.into_iter().flat_map(ast3::Chunk::into_chunks).collect::<Vec<_>>())
}

fn c10(i: &Input) -> Verdict {
    let items = match i {
        Input::Src(s) => {
            let Ok(d) = p2(s) else { return Ok(false) };
            from2(d.chunks())
        }
        Input::Tree(2, t) => t.clone(),
        Input::Tree(3, t) => {
            let back = into2(to3(t));
            same("the text back in stage 2", &render_items(&back), &render_items(t))?;
            numbered(&back, "back in stage 2")?;
            return Ok(t.iter().any(|i| matches!(i.node, Node::Maths { .. })));
        }
        _ => return Ok(false),
    };
    let Ok(chunks) = ast3::MathsBlock::from_chunks(to2(&items)) else { return Ok(false) };
    let got = from3(&chunks);
    let printed: String = chunks.iter().map(ToString::to_string).collect();
    same("the printed chunks", &printed, &render_items(&items))?;
    same("the text of the chunks", &render_items(&got), &render_items(&items))?;
    numbered(&got, "stage 3")?;
    match maths(&items) {
        Ok(w) => ensure!(
            unline(&got) == unline(&w),
            "split into {:?}, expected {:?}",
            unline(&got),
            unline(&w)
        ),
        Err(e) => return Err(format!("accepted in spite of {e:?}")),
    }
    let back = into2(chunks);
    same("the text back in stage 2", &render_items(&back), &render_items(&items))?;
    numbered(&back, "back in stage 2")?;
    let mut m = false;
    let _ = each(&got, &mut |n| {
        m |= matches!(n, Node::Maths { .. });
        Ok(())
    });
    Ok(m)
}

fn c11(i: &Input) -> Verdict {
    let (d, want) = match i {
        Input::Src(s) => {
            let (Ok(a), Ok(d)) = (p2(s), p3(s)) else { return Ok(false) };
            if !has_document(&from2(a.chunks())) {
                // known finding: an empty document environment is printed after the text
                same(
                    "the printed document",
                    &d.to_string(),
                    &(strip(s) + "\\begin{document}\\end{document}"),
                )?;
                return Ok(false);
            }
            (d, strip(s))
        }
        Input::Doc(d) => (to_doc3(d), render3(d)),
        _ => return Ok(false),
    };
    let t = from_doc3(&d);
    same("the printed document", &d.to_string(), &want)?;
    same("the text of the sections", &render3(&t), &want)?;
    for (n, l) in [("preamable", &t.pre), ("body", &t.body), ("trailing", &t.trailing)] {
        numbered(l, n)?
    }
    if let Input::Src(_) = i {
        for (i, a) in t.args.iter().enumerate() {
            numbered(&a.items, &format!("argument {i} of the environment"))?
        }
    }
    let back = ast2::Document::from(d);
    let b = from2(back.chunks());
    same("the text back in stage 2", &back.to_string(), &want)?;
    same("the text of the chunks back in stage 2", &render_items(&b), &want)?;
    numbered(&b, "back in stage 2")?;
    Ok(want.contains('\n'))
}

fn c12(i: &Input) -> Verdict {
    let Input::Src(s) = i else { return Ok(false) };
    let (Ok(a), Ok(d)) = (p2(s), p3(s)) else { return Ok(false) };
    let t = from_doc3(&d);
    let Ok(w) = ref3(&from2(a.chunks())) else { return Ok(false) };
    ensure!(t.class == w.class, "the document class is {:?}, expected {:?}", t.class, w.class);
    ensure!(t.opts == w.opts, "the options are {:?}, expected {:?}", t.opts, w.opts);
    Ok(!t.opts.is_empty())
}

fn c13(i: &Input) -> Verdict {
    fn use1(d: ast1::Document) {
        let _ = (d.to_string(), d.lines(), d.validate());
    }
    fn use2(d: ast2::Document) {
        let _ = (d.to_string(), d.lines(), d.validate());
        use1(d.into())
    }
    fn use3(d: ast3::Document) {
        let _ = (d.to_string(), d.lines(), d.validate());
        use2(d.into())
    }
    match i {
        Input::Src(s) => {
            let mut any = false;
            if let Ok(d) = p1(s) {
                any = true;
                use1(d)
            }
            if let Ok(d) = p2(s) {
                use2(d)
            }
            if let Ok(d) = p3(s) {
                use3(d)
            }
            Ok(any)
        }
        Input::Tree(1, t) => {
            use1(doc1(t));
            if let Ok(d) = ast2::Document::try_from(doc1(t)) {
                use2(d)
            }
            Ok(!t.is_empty())
        }
        Input::Tree(2, t) if plain_labels(t) => {
            use2(doc2(t));
            if let Ok(d) = ast3::Document::try_from(doc2(t)) {
                use3(d)
            }
            Ok(!t.is_empty())
        }
        Input::Tree(3, t) if plain_labels(t) => {
            use3(ast3::Document::new_unchecked(
                to3(t),
                None,
                vec![],
                to3(t),
                vec![],
                String::new(),
                String::new(),
                to3(t),
            ));
            Ok(!t.is_empty())
        }
        _ => Ok(false),
    }
}

fn outcome<T>(
    what: &str,
    got: Result<T, latex_ast::Error>,
    want: Result<(), RErr>,
) -> Result<bool, String> {
    match (got, want) {
        (Ok(_), Ok(())) => Ok(false),
        (Ok(_), Err(e)) => Err(format!("{what} accepts, expected {} at line {}", e.kind, e.line)),
        (Err(e), Ok(())) => Err(format!("{what} reports {}, there is nothing wrong", e2s(&e))),
        (Err(e), Err(w)) => {
            ensure!(
                format!("{:?}", e.r#type) == w.kind && e.line == w.line,
                "{what} reports {}, expected {} at line {}",
                e2s(&e),
                w.kind,
                w.line
            );
            Ok(true)
        }
    }
}

fn c14(i: &Input) -> Verdict {
    match i {
        Input::Src(s) => {
            let r1 = ref1(s);
            let r2 = r1.clone().and_then(|t| ref2(&t));
            let r3 = r2.clone().and_then(|t| ref3(&t));
            let a = outcome("stage 1", p1(s), r1.map(|_| ()))?;
            let b = outcome("stage 2", p2(s), r2.map(|_| ()))?;
            let c = outcome("stage 3", p3(s), r3.map(|_| ()))?;
            Ok(a || b || c)
        }
        Input::Tree(1, t) => outcome("stage 2", ast2::Document::try_from(doc1(t)), ref2(t).map(|_| ())),
        Input::Tree(2, t) => outcome("stage 3", ast3::Document::try_from(doc2(t)), ref3(t).map(|_| ())),
        _ => Ok(false),
    }
}

fn c15(i: &Input) -> Verdict {
    let Input::Src(s) = i else { return Ok(false) };
    fn exempt(t: &[Item]) -> bool {
        let mut x = false;
        let _ = each(t, &mut |n| {
            x |= match n {
                Node::Text(s) => s.chars().any(|c| Br::closing(c).is_some()),
                Node::Env { label, .. } => label.chars().any(special),
                _ => false,
            };
            Ok(())
        });
        x
    }
    let Ok(d) = p1(s) else { return Ok(false) };
    if !exempt(&from1(d.chunks())) {
        if let Err(e) = d.validate() {
            return Err(format!("the stage 1 document is rejected: {e:?}"));
        }
    }
    if let Ok(d) = p2(s) {
        if !exempt(&from2(d.chunks())) {
            if let Err(e) = d.validate() {
                return Err(format!("the stage 2 document is rejected: {e:?}"));
            }
        }
    }
    if let Ok(d) = p3(s) {
        let t = from_doc3(&d);
        let mut all = [t.pre, t.body, t.trailing].concat();
        t.args.into_iter().for_each(|a| all.extend(a.items));
        if !exempt(&all) {
            if let Err(e) = d.validate() {
                return Err(format!("the stage 3 document is rejected: {e:?}"));
            }
        }
    }
    Ok(d.chunks().len() > 1)
}
