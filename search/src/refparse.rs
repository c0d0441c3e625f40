//! Reference parsers, written from the description of each stage and not from its code:
//! recursive descent over tokens that know their source line.
use crate::tree::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RErr {
    pub line: u32,
    pub kind: String,
}

fn err<T>(line: u32, kind: impl Into<String>) -> Result<T, RErr> {
    Err(RErr {
        line,
        kind: kind.into(),
    })
}

/// The source without its comments: from an unescaped `%` up to the line break
pub fn strip(src: &str) -> String {
    let mut out = String::new();
    let mut it = src.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => {
                out.push(c);
                if let Some(d) = it.next() {
                    out.push(d)
                }
            }
            '%' => {
                for d in it.by_ref() {
                    if d == '\n' {
                        out.push(d);
                        break;
                    }
                }
            }
            _ => out.push(c),
        }
    }
    out
}

#[derive(Clone, Copy, Debug)]
struct Tok {
    c: char,
    esc: bool,
    line: u32,
}

/// Tokens, and the line of a lone backslash at the end
fn lex(src: &str) -> (Vec<Tok>, Option<u32>) {
    let s = strip(src);
    let mut line = 1;
    let mut out = Vec::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some(d) => {
                    out.push(Tok {
                        c: d,
                        esc: true,
                        line,
                    });
                    line += (d == '\n') as u32
                }
                None => return (out, Some(line)),
            }
        } else {
            out.push(Tok {
                c,
                esc: false,
                line,
            });
            line += (c == '\n') as u32
        }
    }
    (out, None)
}

fn opening(t: &Tok) -> Option<Br> {
    if t.esc {
        None
    } else {
        Br::opening(t.c)
    }
}

/// Index of the bracket closing the one at `i`, counting only brackets of that kind
fn matching(toks: &[Tok], i: usize) -> Option<usize> {
    let br = opening(&toks[i]).unwrap();
    let mut depth = 0usize;
    for (j, t) in toks.iter().enumerate().skip(i) {
        if t.esc {
            continue;
        }
        if t.c == br.open() {
            depth += 1
        } else if t.c == br.close() {
            depth -= 1;
            if depth == 0 {
                return Some(j);
            }
        }
    }
    None
}

pub fn ref1(src: &str) -> Result<Vec<Item>, RErr> {
    let (toks, lone) = lex(src);
    let mut out = list1(&toks, 1)?;
    if let Some(line) = lone {
        out.push(Item {
            line,
            node: Node::Cmd {
                label: String::new(),
                args: vec![],
            },
        })
    }
    Ok(out)
}

/// A list of chunks numbered from line `base`
fn list1(toks: &[Tok], base: u32) -> Result<Vec<Item>, RErr> {
    let mut out: Vec<Item> = Vec::new();
    let mut text = String::new();
    let mut text_line = 0;
    let mut i = 0;
    macro_rules! text {
        () => {
            if !text.is_empty() {
                out.push(Item {
                    line: text_line - base + 1,
                    node: Node::Text(std::mem::take(&mut text)),
                })
            }
        };
    }
    while i < toks.len() {
        let t = toks[i];
        if let Some(br) = opening(&t) {
            text!();
            let Some(j) = matching(toks, i) else {
                return err(t.line, format!("UnclosedScope({br:?})"));
            };
            out.push(Item {
                line: t.line - base + 1,
                node: Node::Scope(br, list1(&toks[i + 1..j], t.line)?),
            });
            i = j + 1;
        } else if t.esc {
            text!();
            let mut label = String::from(t.c);
            let mut spans: Vec<(String, Br, usize, usize)> = Vec::new();
            let mut ws = String::new();
            let mut ws_line = 0;
            i += 1;
            if t.c.is_ascii_alphabetic() {
                while i < toks.len() {
                    let u = toks[i];
                    if let Some(br) = opening(&u) {
                        let Some(j) = matching(toks, i) else {
                            return err(t.line, format!("UnclosedArgument({br:?})"));
                        };
                        spans.push((std::mem::take(&mut ws), br, i, j));
                        i = j + 1;
                    } else if u.esc {
                        break;
                    } else if u.c.is_whitespace() {
                        if ws.is_empty() {
                            ws_line = u.line
                        }
                        ws.push(u.c);
                        i += 1
                    } else if !ws.is_empty() {
                        break;
                    } else if let Some(br) = Br::closing(u.c) {
                        return err(u.line, format!("UnexpectedClosing({br:?})"));
                    } else if spans.is_empty() {
                        label.push(u.c);
                        i += 1
                    } else {
                        break;
                    }
                }
            }
            let mut args = Vec::new();
            for (prec, br, a, b) in spans {
                args.push(Arg {
                    prec,
                    br,
                    items: list1(&toks[a + 1..b], toks[a].line)?,
                })
            }
            out.push(Item {
                line: t.line - base + 1,
                node: Node::Cmd { label, args },
            });
            text = ws;
            text_line = ws_line;
            // what follows whitespace continues that text, unless it opens something new
            if !text.is_empty() && i < toks.len() && !toks[i].esc && opening(&toks[i]).is_none() {
                text.push(toks[i].c);
                i += 1
            }
        } else {
            if text.is_empty() {
                text_line = t.line
            }
            text.push(t.c);
            i += 1
        }
    }
    text!();
    Ok(out)
}

// ------------------------------------------------------------------ stage 2

pub fn ref2(items: &[Item]) -> Result<Vec<Item>, RErr> {
    list2(items, 1)
}

/// `base`: the absolute line of the start of this list
fn list2(items: &[Item], base: u32) -> Result<Vec<Item>, RErr> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < items.len() {
        let it = &items[i];
        let abs = base + it.line - 1;
        match &it.node {
            Node::Scope(b, inner) => out.push(Item {
                line: it.line,
                node: Node::Scope(*b, list2(inner, abs)?),
            }),
            Node::Cmd { label, args } if label == "begin" || label == "end" => {
                check_label(args, abs)?;
                let lab = render_items(&args[0].items);
                if label == "end" {
                    return err(abs, format!("UnexpectedEnd({lab:?})"));
                }
                let (j, end_args) = match matching_end(items, i, base)? {
                    Some(x) => x,
                    None => return err(abs, format!("UnclosedEnvironment({lab:?})")),
                };
                let mut line = abs + nl(&args[0].prec) + nl(&lab);
                let args_new = args2(&args[1..], &mut line)?;
                let rel = line - base;
                let inner: Vec<Item> = items[i + 1..j]
                    .iter()
                    .map(|x| Item {
                        line: x.line - rel,
                        node: x.node.clone(),
                    })
                    .collect();
                let content = list2(&inner, line)?;
                out.push(Item {
                    line: it.line,
                    node: Node::Env {
                        label: lab,
                        args: args_new,
                        content,
                        pb: args[0].prec.clone(),
                        pe: end_args[0].prec.clone(),
                    },
                });
                i = j;
            }
            Node::Cmd { label, args } => {
                let mut line = abs + nl(label);
                out.push(Item {
                    line: it.line,
                    node: Node::Cmd {
                        label: label.clone(),
                        args: args2(args, &mut line)?,
                    },
                })
            }
            n => out.push(Item {
                line: it.line,
                node: n.clone(),
            }),
        }
        i += 1
    }
    Ok(out)
}

fn args2(args: &[Arg], line: &mut u32) -> Result<Vec<Arg>, RErr> {
    let mut out = Vec::new();
    for a in args {
        *line += nl(&a.prec);
        out.push(Arg {
            prec: a.prec.clone(),
            br: a.br,
            items: list2(&a.items, *line)?,
        });
        *line += nl(&render_items(&a.items));
    }
    Ok(out)
}

fn check_label(args: &[Arg], abs: u32) -> Result<(), RErr> {
    if args.first().is_some_and(|a| a.br == Br::Curly) {
        Ok(())
    } else {
        err(abs, "NoEnvironmentLabel")
    }
}

/// The `\end` of the `\begin` at `i`
#[allow(clippy::type_complexity)]
fn matching_end(items: &[Item], i: usize, base: u32) -> Result<Option<(usize, &[Arg])>, RErr> {
    let mut open: Vec<&[Item]> = Vec::new();
    for (j, it) in items.iter().enumerate().skip(i) {
        if let Node::Cmd { label, args } = &it.node {
            let abs = base + it.line - 1;
            if label == "begin" {
                check_label(args, abs)?;
                open.push(&args[0].items)
            } else if label == "end" {
                check_label(args, abs)?;
                if *open.last().unwrap() != args[0].items.as_slice() {
                    return err(
                        abs,
                        format!("UnexpectedEnd({:?})", render_items(&args[0].items)),
                    );
                }
                if args.len() > 1 {
                    return err(abs, "TooManyArgsEnd");
                }
                open.pop();
                if open.is_empty() {
                    return Ok(Some((j, args)));
                }
            }
        }
    }
    Ok(None)
}

// ------------------------------------------------------------------ stage 3

#[derive(Clone)]
enum Ev {
    Ch(char, u32, usize),
    It(Item),
}

impl Ev {
    fn line(&self) -> u32 {
        match self {
            Ev::Ch(_, l, _) => *l,
            Ev::It(i) => i.line,
        }
    }
    fn is_cmd(&self, name: &str) -> bool {
        matches!(self, Ev::It(Item { node: Node::Cmd { label, .. }, .. }) if label == name)
    }
    fn is_dollar(&self) -> bool {
        matches!(self, Ev::Ch('$', ..))
    }
}

/// Splits the maths out of a list of chunks
pub fn maths(items: &[Item]) -> Result<Vec<Item>, RErr> {
    maths_at(items, 1)
}

fn maths_at(items: &[Item], base: u32) -> Result<Vec<Item>, RErr> {
    let mut evs = Vec::new();
    for (k, it) in items.iter().enumerate() {
        if let Node::Text(s) = &it.node {
            let mut l = it.line;
            for c in s.chars() {
                evs.push(Ev::Ch(c, l, k));
                l += (c == '\n') as u32
            }
        } else {
            evs.push(Ev::It(it.clone()))
        }
    }
    let mut out: Vec<Item> = Vec::new();
    let mut i = 0;
    // events to chunks, text grouped as it was
    fn group(evs: &[Ev], off: u32) -> Vec<Item> {
        let mut out: Vec<Item> = Vec::new();
        let mut last = None;
        for e in evs {
            match e {
                Ev::It(i) => {
                    last = None;
                    out.push(Item {
                        line: i.line - off,
                        node: i.node.clone(),
                    })
                }
                Ev::Ch(c, l, k) => {
                    if last == Some(*k) {
                        if let Node::Text(s) = &mut out.last_mut().unwrap().node {
                            s.push(*c)
                        }
                    } else {
                        last = Some(*k);
                        out.push(Item {
                            line: l - off,
                            node: Node::Text(c.to_string()),
                        })
                    }
                }
            }
        }
        out
    }
    while i < evs.len() {
        let e = &evs[i];
        let line = e.line();
        let abs = base + line - 1;
        let mut block = |dollars, display, inner: &[Ev]| -> Result<(), RErr> {
            let content = maths_at(&group(inner, line - 1), abs)?;
            out.push(Item {
                line,
                node: Node::Maths {
                    dollars,
                    display,
                    content,
                },
            });
            Ok(())
        };
        if e.is_cmd(")") || e.is_cmd("]") {
            return err(abs, "UnexpectedMathsEnd");
        } else if e.is_cmd("(") || e.is_cmd("[") {
            let (o, c) = if e.is_cmd("(") { ("(", ")") } else { ("[", "]") };
            let mut depth = 0;
            let mut close = None;
            for (j, f) in evs.iter().enumerate().skip(i) {
                if f.is_cmd(o) {
                    depth += 1
                } else if f.is_cmd(c) {
                    depth -= 1;
                    if depth == 0 {
                        close = Some(j);
                        break;
                    }
                }
            }
            let Some(j) = close else {
                return err(abs, "UnclosedMaths");
            };
            block(false, o == "[", &evs[i + 1..j])?;
            i = j + 1;
        } else if e.is_dollar() {
            let w = if evs.get(i + 1).is_some_and(Ev::is_dollar) {
                2
            } else {
                1
            };
            let Some(j) = (i + w..evs.len()).find(|j| evs[*j].is_dollar()) else {
                return err(abs, "UnclosedMaths");
            };
            if w == 2 && !evs.get(j + 1).is_some_and(Ev::is_dollar) {
                return err(abs, "UnclosedMaths");
            }
            block(true, w == 2, &evs[i + w..j])?;
            i = j + w;
        } else if let Ev::Ch(_, _, k) = e {
            let mut j = i;
            while j < evs.len() && !evs[j].is_dollar() && matches!(evs[j], Ev::Ch(_, _, k2) if k2 == *k)
            {
                j += 1
            }
            out.extend(group(&evs[i..j], 0));
            i = j
        } else if let Ev::It(it) = e {
            out.push(Item {
                line,
                node: node3(&it.node, abs)?,
            });
            i += 1
        }
    }
    Ok(split_paragraphs(&out))
}

fn args3(args: &[Arg], line: &mut u32) -> Result<Vec<Arg>, RErr> {
    let mut out = Vec::new();
    for a in args {
        *line += nl(&a.prec);
        out.push(Arg {
            prec: a.prec.clone(),
            br: a.br,
            items: maths_at(&a.items, *line)?,
        });
        *line += nl(&render_items(&a.items));
    }
    Ok(out)
}

pub fn node3(n: &Node, abs: u32) -> Result<Node, RErr> {
    Ok(match n {
        Node::Cmd { label, args } => Node::Cmd {
            label: label.clone(),
            args: args3(args, &mut (abs + nl(label)))?,
        },
        Node::Scope(b, items) => Node::Scope(*b, maths_at(items, abs)?),
        Node::Env {
            label,
            args,
            content,
            pb,
            pe,
        } => {
            let mut line = abs + nl(label) + nl(pb);
            Node::Env {
                label: label.clone(),
                args: args3(args, &mut line)?,
                content: maths_at(content, line)?,
                pb: pb.clone(),
                pe: pe.clone(),
            }
        }
        n => n.clone(),
    })
}

/// Splits the paragraph breaks out of the Text chunks of a list
pub fn split_paragraphs(items: &[Item]) -> Vec<Item> {
    let mut out = Vec::new();
    for it in items {
        if let Node::Text(s) = &it.node {
            let mut line = it.line;
            for (t, brk) in paragraphs(s) {
                let n = nl(&t);
                out.push(Item {
                    line,
                    node: if brk { Node::Par(t) } else { Node::Text(t) },
                });
                line += n
            }
        } else {
            out.push(it.clone())
        }
    }
    out
}

pub fn options(s: &str) -> Vec<Opt> {
    let ws = |c: char| c.is_whitespace();
    s.split(',')
        .map(|o| {
            let start = o.trim_start_matches(ws);
            let prec = o[..o.len() - start.len()].to_string();
            let arg = start.trim_end_matches(ws);
            let post = start[arg.len()..].to_string();
            // whitespace only: there is nothing it precedes
            let (prec, post) = if arg.is_empty() {
                (String::new(), prec)
            } else {
                (prec, post)
            };
            match arg.find('=') {
                None => (prec, arg.to_string(), None, post),
                Some(i) => {
                    let (k, v) = (&arg[..i], &arg[i + 1..]);
                    let key = k.trim_end_matches(ws);
                    let val = v.trim_start_matches(ws);
                    (
                        prec,
                        key.to_string(),
                        Some((
                            k[key.len()..].to_string(),
                            v[..v.len() - val.len()].to_string(),
                            val.to_string(),
                        )),
                        post,
                    )
                }
            }
        })
        .collect()
}

/// Whether the stage 2 chunks have a document environment
pub fn has_document(items: &[Item]) -> bool {
    items
        .iter()
        .any(|i| matches!(&i.node, Node::Env { label, .. } if label == "document"))
}

pub fn ref3(items: &[Item]) -> Result<Doc3, RErr> {
    let mut d = Doc3 {
        class: None,
        opts: vec![],
        pre: vec![],
        body: vec![],
        args: vec![],
        pb: String::new(),
        pe: String::new(),
        trailing: vec![],
    };
    let at = items
        .iter()
        .position(|i| matches!(&i.node, Node::Env { label, .. } if label == "document"))
        .unwrap_or(items.len());
    for it in &items[..at] {
        if let Node::Cmd { label, args } = &it.node {
            if label == "documentclass" {
                if d.class.is_some() {
                    return err(it.line, "DoubleDocumentClass");
                }
                for a in args {
                    let text = render_items(&a.items);
                    if a.br != Br::Curly {
                        d.opts.extend(options(&text))
                    } else if d.class.is_some() {
                        return err(it.line, "TooManyArgsDocumentClass");
                    } else {
                        d.class = Some(text)
                    }
                }
            }
        }
    }
    let mut end = 0;
    if let Some(it) = items.get(at) {
        if let Node::Env {
            args,
            content,
            pb,
            pe,
            ..
        } = node3(&it.node, it.line)?
        {
            d.body = content;
            d.args = args;
            d.pb = pb;
            d.pe = pe;
        }
        end = it.line + nl(&render(&it.node)) - 1;
    }
    d.pre = maths_at(&items[..at], 1)?;
    if at < items.len() {
        let t: Vec<Item> = items[at + 1..]
            .iter()
            .map(|i| Item {
                line: i.line - end,
                node: i.node.clone(),
            })
            .collect();
        d.trailing = maths_at(&t, end + 1)?;
    }
    Ok(d)
}
