//! A stage-independent mirror of the AST values, with its own printing, counting and validity
//! rules: the oracles compare the crate against these.
use latex_ast::{ast1, ast2, ast3};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Br {
    Curly,
    Round,
    Square,
}

impl Br {
    pub fn open(self) -> char {
        match self {
            Br::Curly => '{',
            Br::Round => '(',
            Br::Square => '[',
        }
    }
    pub fn close(self) -> char {
        match self {
            Br::Curly => '}',
            Br::Round => ')',
            Br::Square => ']',
        }
    }
    pub fn opening(c: char) -> Option<Br> {
        [Br::Curly, Br::Round, Br::Square]
            .into_iter()
            .find(|b| b.open() == c)
    }
    pub fn closing(c: char) -> Option<Br> {
        [Br::Curly, Br::Round, Br::Square]
            .into_iter()
            .find(|b| b.close() == c)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Item {
    pub line: u32,
    pub node: Node,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Arg {
    pub prec: String,
    pub br: Br,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Node {
    Text(String),
    Par(String),
    Cmd {
        label: String,
        args: Vec<Arg>,
    },
    Scope(Br, Vec<Item>),
    Env {
        label: String,
        args: Vec<Arg>,
        content: Vec<Item>,
        pb: String,
        pe: String,
    },
    Maths {
        dollars: bool,
        display: bool,
        content: Vec<Item>,
    },
}

pub type Opt = (String, String, Option<(String, String, String)>, String);

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Doc3 {
    pub class: Option<String>,
    pub opts: Vec<Opt>,
    pub pre: Vec<Item>,
    pub body: Vec<Item>,
    pub args: Vec<Arg>,
    pub pb: String,
    pub pe: String,
    pub trailing: Vec<Item>,
}

pub fn nl(s: &str) -> u32 {
    s.matches('\n').count() as u32
}

// ------------------------------------------------------------------ printing

pub fn render_items(items: &[Item]) -> String {
    items.iter().map(|i| render(&i.node)).collect()
}

pub fn render_args(args: &[Arg]) -> String {
    args.iter()
        .map(|a| {
            format!(
                "{}{}{}{}",
                a.prec,
                a.br.open(),
                render_items(&a.items),
                a.br.close()
            )
        })
        .collect()
}

pub fn render(n: &Node) -> String {
    match n {
        Node::Text(s) | Node::Par(s) => s.clone(),
        Node::Cmd { label, args } => format!("\\{label}{}", render_args(args)),
        Node::Scope(b, items) => format!("{}{}{}", b.open(), render_items(items), b.close()),
        Node::Env {
            label,
            args,
            content,
            pb,
            pe,
        } => format!(
            "\\begin{pb}{{{label}}}{}{}\\end{pe}{{{label}}}",
            render_args(args),
            render_items(content)
        ),
        Node::Maths {
            dollars,
            display,
            content,
        } => {
            let (o, c) = match (dollars, display) {
                (true, true) => ("$$", "$$"),
                (true, false) => ("$", "$"),
                (false, true) => ("\\[", "\\]"),
                (false, false) => ("\\(", "\\)"),
            };
            format!("{o}{}{c}", render_items(content))
        }
    }
}

pub fn render3(d: &Doc3) -> String {
    format!(
        "{}\\begin{}{{document}}{}{}\\end{}{{document}}{}",
        render_items(&d.pre),
        d.pb,
        render_args(&d.args),
        render_items(&d.body),
        d.pe,
        render_items(&d.trailing)
    )
}

// ------------------------------------------------------------------ numbering

/// Checks that every list of chunks is numbered by the line each chunk starts in, counted from
/// the start of the list
pub fn numbered(items: &[Item], what: &str) -> Result<(), String> {
    let mut line = 1;
    for (i, it) in items.iter().enumerate() {
        if it.line != line {
            return Err(format!(
                "{what}: chunk {i} ({:?}) is numbered {}, it starts in line {line}",
                render(&it.node),
                it.line
            ));
        }
        numbered_node(&it.node, &format!("{what}/{i}"))?;
        line += nl(&render(&it.node));
    }
    Ok(())
}

pub fn numbered_node(n: &Node, what: &str) -> Result<(), String> {
    match n {
        Node::Text(_) | Node::Par(_) => Ok(()),
        Node::Cmd { args, .. } => args
            .iter()
            .enumerate()
            .try_for_each(|(i, a)| numbered(&a.items, &format!("{what}/arg{i}"))),
        Node::Scope(_, items) => numbered(items, &format!("{what}/scope")),
        Node::Env { args, content, .. } => {
            args.iter()
                .enumerate()
                .try_for_each(|(i, a)| numbered(&a.items, &format!("{what}/arg{i}")))?;
            numbered(content, &format!("{what}/content"))
        }
        Node::Maths { content, .. } => numbered(content, &format!("{what}/maths")),
    }
}

/// Renumber everything consistently
pub fn renumber(items: &mut [Item]) {
    let mut line = 1;
    for it in items.iter_mut() {
        it.line = line;
        match &mut it.node {
            Node::Text(_) | Node::Par(_) => {}
            Node::Cmd { args, .. } => args.iter_mut().for_each(|a| renumber(&mut a.items)),
            Node::Scope(_, items) => renumber(items),
            Node::Env { args, content, .. } => {
                args.iter_mut().for_each(|a| renumber(&mut a.items));
                renumber(content)
            }
            Node::Maths { content, .. } => renumber(content),
        }
        line += nl(&render(&it.node));
    }
}

// ------------------------------------------------------------------ validity

pub fn special(c: char) -> bool {
    matches!(c, '\\' | '%' | '{' | '}' | '[' | ']' | '(' | ')')
}

/// All the reasons for which a value of a stage is malformed, as the crate names them
pub fn violations(stage: u8, n: &Node, out: &mut Vec<String>) {
    let chars = |s: &str, out: &mut Vec<String>| {
        for c in s.chars().filter(|c| special(*c)) {
            out.push(format!("UnsanitisedCharInString({c:?})"))
        }
    };
    match n {
        Node::Text(s) => {
            chars(s, out);
            if stage == 3 && paragraphs(s).iter().any(|p| p.1) {
                out.push("UnbrokenParagraph".into())
            }
        }
        Node::Par(s) => {
            if s.chars().any(|c| !c.is_whitespace()) {
                out.push("ParagraghBreakNonwhitespace".into())
            }
            if nl(s) < 2 {
                out.push("ParagraphBreakTooShort".into())
            }
        }
        Node::Cmd { label, args } => {
            if stage > 1 && label == "begin" {
                out.push("BeginCommand".into())
            }
            if stage > 1 && label == "end" {
                out.push("EndCommand".into())
            }
            if label.chars().count() != 1 {
                chars(label, out)
            }
            for a in args {
                violations_list(stage, &a.items, out)
            }
        }
        Node::Scope(_, items) => violations_list(stage, items, out),
        Node::Env {
            label,
            args,
            content,
            ..
        } => {
            chars(label, out);
            for a in args {
                violations_list(stage, &a.items, out)
            }
            violations_list(stage, content, out)
        }
        Node::Maths { content, .. } => violations_list(stage, content, out),
    }
}

pub fn violations_list(stage: u8, items: &[Item], out: &mut Vec<String>) {
    items.iter().for_each(|i| violations(stage, &i.node, out))
}

/// As `violations_list`, for a document or section: its own chunks must be numbered
pub fn violations_doc(stage: u8, items: &[Item], out: &mut Vec<String>) {
    let mut line = 1;
    for it in items {
        if it.line != line {
            // the line the crate expects depends on the chunks before, which are right here
            out.push(format!(
                "IncorrectChunkLineNumber {{ expected: {line}, got: {} }}",
                it.line
            ));
            return;
        }
        violations(stage, &it.node, out);
        line += nl(&render(&it.node));
    }
}

/// Split into pieces, (text, is paragraph break): a break runs from the first of two or more
/// newlines with only whitespace between them to the end of the whitespace
pub fn paragraphs(s: &str) -> Vec<(String, bool)> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = Vec::new();
    let mut text = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\n' {
            let mut j = i;
            while j < cs.len() && cs[j].is_whitespace() {
                j += 1
            }
            let run: String = cs[i..j].iter().collect();
            if nl(&run) >= 2 {
                if !text.is_empty() {
                    out.push((std::mem::take(&mut text), false))
                }
                out.push((run, true))
            } else {
                text.push_str(&run)
            }
            i = j
        } else {
            text.push(cs[i]);
            i += 1
        }
    }
    if !text.is_empty() {
        out.push((text, false))
    }
    out
}

// ------------------------------------------------------------------ crate values <-> mirror

macro_rules! br {
    ($name:ident, $back:ident, $t:ty) => {
        pub fn $name(v: $t) -> Br {
            match v {
                <$t>::Curly => Br::Curly,
                <$t>::Round => Br::Round,
                <$t>::Square => Br::Square,
            }
        }
        pub fn $back(b: Br) -> $t {
            match b {
                Br::Curly => <$t>::Curly,
                Br::Round => <$t>::Round,
                Br::Square => <$t>::Square,
            }
        }
    };
}
br!(br1, mk_br1, ast1::ScopeVariant);
br!(br2, mk_br2, ast2::ScopeVariant);
br!(br3, mk_br3, ast3::ScopeVariant);

/// a panic is a violation
fn agree(what: &str, ok: bool) {
    if !ok {
        panic!("{what} does not give what is in the value")
    }
}

macro_rules! common {
    ($ast:ident, $from:ident, $from_args:ident, $from_node:ident, $to:ident, $to_args:ident, $to_node:ident, $to_scope:ident, $br:ident, $mk:ident, $($arms:tt)*) => {
        pub fn $from(chunks: &[$ast::Chunk]) -> Vec<Item> {
            chunks
                .iter()
                .map(|c| {
                    // what the ways to look at a chunk say has to agree
                    if chunks.len() <= 2 {
                        let (line, variant) = c.clone().decompose();
                        agree("Chunk::decompose", line == c.line_no() && variant == *c.variant());
                        let mut d = c.clone();
                        agree("Chunk::variant_mut", *d.variant_mut() == variant);
                        agree("Chunk::variant_owned", d.variant_owned() == variant);
                        match c.variant() {
                            $ast::ChunkVariant::Command(k) => {
                                let (label, args) = k.clone().decompose();
                                agree("Command::decompose", label == *k.label() && args == *k.arguments());
                                agree("Command::label_owned", k.clone().label_owned() == label);
                                agree("Command::arguments_owned", k.clone().arguments_owned() == args);
                            }
                            $ast::ChunkVariant::Scope(s) => {
                                let (list, br) = s.clone().decompose();
                                agree("Scope::decompose", list == *s.chunks() && br == s.variant());
                                agree("Scope::chunks_owned", s.clone().chunks_owned() == list);
                            }
                            _ => {}
                        }
                    }
                    Item { line: c.line_no(), node: $from_node(c.variant()) }
                })
                .collect()
        }
        pub fn $from_args(args: &[(String, $ast::Scope)]) -> Vec<Arg> {
            args.iter()
                .map(|(p, s)| Arg { prec: p.clone(), br: $br(s.variant()), items: $from(s.chunks()) })
                .collect()
        }
        pub fn $to(items: &[Item]) -> Vec<$ast::Chunk> {
            items
                .iter()
                .map(|i| $ast::Chunk::new_unchecked(i.line, $to_node(&i.node)))
                .collect()
        }
        pub fn $to_args(args: &[Arg]) -> Vec<(String, $ast::Scope)> {
            args.iter()
                .map(|a| (a.prec.clone(), $to_scope(a.br, &a.items)))
                .collect()
        }
        pub fn $to_scope(b: Br, items: &[Item]) -> $ast::Scope {
            $ast::Scope::new_unchecked($to(items), $mk(b))
        }
    };
}
common!(ast1, from1, from_args1, from_node1, to1, to_args1, to_node1, to_scope1, br1, mk_br1,);
common!(ast2, from2, from_args2, from_node2, to2, to_args2, to_node2, to_scope2, br2, mk_br2,);
common!(ast3, from3, from_args3, from_node3, to3, to_args3, to_node3, to_scope3, br3, mk_br3,);

pub fn from_node1(v: &ast1::ChunkVariant) -> Node {
    match v {
        ast1::ChunkVariant::Text(s) => Node::Text(s.clone()),
        ast1::ChunkVariant::Command(c) => Node::Cmd {
            label: c.label().clone(),
            args: from_args1(c.arguments()),
        },
        ast1::ChunkVariant::Scope(s) => Node::Scope(br1(s.variant()), from1(s.chunks())),
    }
}

pub fn from_node2(v: &ast2::ChunkVariant) -> Node {
    match v {
        ast2::ChunkVariant::Text(s) => Node::Text(s.clone()),
        ast2::ChunkVariant::Command(c) => Node::Cmd {
            label: c.label().clone(),
            args: from_args2(c.arguments()),
        },
        ast2::ChunkVariant::Scope(s) => Node::Scope(br2(s.variant()), from2(s.chunks())),
        ast2::ChunkVariant::Environment(e) => {
            let (label, args, content, pb, pe) = e.clone().decompose();
            agree("Environment::label", label == *e.label());
            Node::Env {
                label,
                args: from_args2(&args),
                content: from2(&content),
                pb,
                pe,
            }
        }
    }
}

pub fn from_node3(v: &ast3::ChunkVariant) -> Node {
    match v {
        ast3::ChunkVariant::Text(s) => Node::Text(s.clone()),
        ast3::ChunkVariant::ParagraphBreak(s) => Node::Par(s.clone()),
        ast3::ChunkVariant::Command(c) => Node::Cmd {
            label: c.label().clone(),
            args: from_args3(c.arguments()),
        },
        ast3::ChunkVariant::Scope(s) => Node::Scope(br3(s.variant()), from3(s.chunks())),
        ast3::ChunkVariant::Environment(e) => {
            let (label, args, content, pb, pe) = e.clone().decompose();
            agree("Environment::label", label == *e.label());
            Node::Env {
                label,
                args: from_args3(&args),
                content: from3(&content),
                pb,
                pe,
            }
        }
        ast3::ChunkVariant::MathsBlock(m) => {
            let (v, t, content) = m.verif_parts();
            Node::Maths {
                dollars: matches!(v, ast3::MathsVariant::Dollars),
                display: matches!(t, ast3::MathsType::Outline),
                content: from3(content),
            }
        }
    }
}

pub fn to_node1(n: &Node) -> ast1::ChunkVariant {
    match n {
        Node::Text(s) => ast1::ChunkVariant::Text(s.clone()),
        Node::Cmd { label, args } => ast1::ChunkVariant::Command(ast1::Command::new_unchecked(
            label.clone(),
            to_args1(args),
        )),
        Node::Scope(b, items) => ast1::ChunkVariant::Scope(to_scope1(*b, items)),
        _ => panic!("not a stage 1 node"),
    }
}

pub fn to_node2(n: &Node) -> ast2::ChunkVariant {
    match n {
        Node::Text(s) => ast2::ChunkVariant::Text(s.clone()),
        Node::Cmd { label, args } => ast2::ChunkVariant::Command(ast2::Command::new_unchecked(
            label.clone(),
            to_args2(args),
        )),
        Node::Scope(b, items) => ast2::ChunkVariant::Scope(to_scope2(*b, items)),
        Node::Env {
            label,
            args,
            content,
            pb,
            pe,
        } => ast2::ChunkVariant::Environment(ast2::Environment::new_unchecked(
            label.clone(),
            to_args2(args),
            to2(content),
            pb.clone(),
            pe.clone(),
        )),
        _ => panic!("not a stage 2 node"),
    }
}

pub fn to_node3(n: &Node) -> ast3::ChunkVariant {
    match n {
        Node::Text(s) => ast3::ChunkVariant::Text(s.clone()),
        Node::Par(s) => ast3::ChunkVariant::ParagraphBreak(s.clone()),
        Node::Cmd { label, args } => ast3::ChunkVariant::Command(ast3::Command::new_unchecked(
            label.clone(),
            to_args3(args),
        )),
        Node::Scope(b, items) => ast3::ChunkVariant::Scope(to_scope3(*b, items)),
        Node::Env {
            label,
            args,
            content,
            pb,
            pe,
        } => ast3::ChunkVariant::Environment(ast3::Environment::new_unchecked(
            label.clone(),
            to_args3(args),
            to3(content),
            pb.clone(),
            pe.clone(),
        )),
        Node::Maths {
            dollars,
            display,
            content,
        } => ast3::ChunkVariant::MathsBlock(ast3::MathsBlock::new_unchecked(
            if *dollars {
                ast3::MathsVariant::Dollars
            } else {
                ast3::MathsVariant::Brackets
            },
            if *display {
                ast3::MathsType::Outline
            } else {
                ast3::MathsType::Inline
            },
            to3(content),
        )),
    }
}

pub fn from_doc3(d: &ast3::Document) -> Doc3 {
    let (class, opts, pre, body, args, pb, pe, trailing) = d.clone().decompose();
    agree("Document::chunks_preamable", pre == *d.chunks_preamable());
    agree("Document::chunks_body", body == *d.chunks_body());
    agree("Document::chunks_trailing", trailing == *d.chunks_trailing());
    Doc3 {
        class,
        opts,
        pre: from3(&pre),
        body: from3(&body),
        args: from_args3(&args),
        pb,
        pe,
        trailing: from3(&trailing),
    }
}

pub fn to_doc3(d: &Doc3) -> ast3::Document {
    ast3::Document::new_unchecked(
        to3(&d.pre),
        d.class.clone(),
        d.opts.clone(),
        to3(&d.body),
        to_args3(&d.args),
        d.pb.clone(),
        d.pe.clone(),
        to3(&d.trailing),
    )
}
