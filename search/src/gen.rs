//! Inputs: exhaustive strings over small token sets, seeded random sources, seeded random trees.
use crate::tree::*;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// String and char literals, identifiers' numbers of the crate's current source: a change that
/// treats one label or one size specially has to name it
pub struct Dict {
    pub strings: Vec<String>,
    pub sizes: Vec<usize>,
}

impl Dict {
    pub fn harvest(src: &std::path::Path) -> Dict {
        let mut strings = std::collections::BTreeSet::new();
        let mut sizes = std::collections::BTreeSet::new();
        let mut stack = vec![src.to_path_buf()];
        while let Some(p) = stack.pop() {
            if p.is_dir() {
                if p.file_name().is_some_and(|n| n == "tests") {
                    continue;
                }
                if let Ok(rd) = std::fs::read_dir(&p) {
                    stack.extend(rd.flatten().map(|e| e.path()))
                }
            } else if p.extension().is_some_and(|e| e == "rs") {
                if let Ok(t) = std::fs::read_to_string(&p) {
                    scan(&t, &mut strings, &mut sizes)
                }
            }
        }
        Dict {
            strings: strings.into_iter().collect(),
            sizes: sizes.into_iter().collect(),
        }
    }
}

fn scan(
    t: &str,
    strings: &mut std::collections::BTreeSet<String>,
    sizes: &mut std::collections::BTreeSet<usize>,
) {
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '/' if cs.get(i + 1) == Some(&'/') => {
                while i < cs.len() && cs[i] != '\n' {
                    i += 1
                }
            }
            q @ ('"' | '\'') => {
                let mut s = String::new();
                let mut j = i + 1;
                while j < cs.len() && cs[j] != q && (q == '"' || j < i + 12) {
                    if cs[j] == '\\' && j + 1 < cs.len() {
                        j += 1;
                        match cs[j] {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            '0' => s.push('\0'),
                            'u' => {
                                let hex: String = cs[j + 1..]
                                    .iter()
                                    .skip(1)
                                    .take_while(|c| **c != '}')
                                    .collect();
                                if let Some(c) =
                                    u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32)
                                {
                                    s.push(c)
                                }
                                j += hex.len() + 2
                            }
                            c => s.push(c),
                        }
                    } else {
                        s.push(cs[j])
                    }
                    j += 1
                }
                if j < cs.len() && cs[j] == q && (q == '"' || s.chars().count() == 1) {
                    if !s.is_empty() && s.len() <= 40 {
                        strings.insert(s);
                    }
                    i = j
                }
            }
            c if c.is_ascii_digit() && (i == 0 || !(cs[i - 1].is_alphanumeric() || cs[i - 1] == '_')) =>
            {
                let mut n = String::new();
                while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_') {
                    if cs[i] != '_' {
                        n.push(cs[i])
                    }
                    i += 1
                }
                let digits: String = n.chars().take_while(|c| c.is_ascii_digit()).collect();
                let v = if let Some(h) = n.strip_prefix("0x") {
                    usize::from_str_radix(h, 16).ok()
                } else {
                    digits.parse::<usize>().ok()
                };
                if let Some(v) = v {
                    if v > 3 && v <= 70_000 {
                        sizes.insert(v);
                    }
                }
                continue;
            }
            _ => {}
        }
        i += 1
    }
}

/// All strings of at most `max` tokens, `part` of `parts`
pub fn exhaustive(
    toks: &[&str],
    max: usize,
    part: usize,
    parts: usize,
    f: &mut dyn FnMut(&str) -> bool,
) -> bool {
    let mut k = 0usize;
    for len in 0..=max {
        let mut idx = vec![0usize; len];
        loop {
            if k % parts == part {
                let s: String = idx.iter().map(|i| toks[*i]).collect();
                if !f(&s) {
                    return false;
                }
            }
            k += 1;
            let mut p = len;
            loop {
                if p == 0 {
                    break;
                }
                p -= 1;
                idx[p] += 1;
                if idx[p] < toks.len() {
                    break;
                }
                idx[p] = 0;
                if p == 0 {
                    p = usize::MAX;
                    break;
                }
            }
            if p == usize::MAX || len == 0 {
                break;
            }
        }
    }
    true
}

pub const TOK1: &[&str] = &["\\", "a", "{", "}", "(", "]", "[", " ", "\n", "%", "$"];
pub const TOK2: &[&str] = &[
    "\\begin{a}", "\\end{a}", "\\begin{b}", "\\end{b}", "\\begin\n{a}[\n]", "\\end \n{a}", "\n", "t", "\\c{", "}", "{",
    "\\begin", "\\end", "\\end{a}{x}",
];
pub const TOK3: &[&str] = &[
    "$", "\\(", "\\)", "\\[", "\\]", "\n", " ", "x", "{", "}", "\\begin{d}", "\\end{d}",
];
pub const TOKD: &[&str] = &[
    "\\begin{document}", "\\end{document}", "\\begin\n{document}[\n]", "\\end\n{document}", "\n", "x", "$", " ",
    "\\documentclass[a = b,c]{d}", "\\documentclass{e}",
];
pub const TOKO: &[&str] = &["a", "b", " ", "\n", "=", ",", "\u{e9}", "\t"];
pub const TOKP: &[&str] = &["a", " ", "\n", "\t", "\u{a0}", "b\n", "."];

const WORDS: &[&str] = &[
    "a", "b", "word", "Two words", " ", "  ", "\n", "\n\n", "\n \n", "\n\n\n", "\t", "é", "€uro", "𝒳", "1)", "]", ")",
    "}", "{", "(", "[", "$", "$$", "%", "% c\n", "\\", "\\\\", "\\%", "\\$", "\\{", "\\}", "\\ ", "\\\n", "\\a",
    "\\b", "\\item ", "\\(", "\\)", "\\[", "\\]", ",", "=", "\r\n", "\u{85}", "\u{2028}", "\u{a0}", "-", "1", "@", "*",
    "\\begin", "\\end", "\\begin{a}", "\\end{a}", "\\begin{b*}", "\\end{b*}", "\u{0}", "\u{feff}", "''", "~", "&", "#",
    "_", "^", "<", "\\é", "\\1", "\\@", "\\(x\\)", "$x$", "%\n", "%{\n", "%\\",
];

pub struct Src<'a> {
    pub rng: Rng,
    pub dict: &'a Dict,
    budget: i32,
}

impl<'a> Src<'a> {
    pub fn new(seed: u64, dict: &'a Dict) -> Self {
        Src {
            rng: Rng::new(seed),
            dict,
            budget: 0,
        }
    }

    fn word(&mut self) -> String {
        if !self.dict.strings.is_empty() && self.rng.chance(1, 8) {
            self.rng.pick(&self.dict.strings).clone()
        } else {
            self.rng.pick(WORDS).to_string()
        }
    }

    fn ws(&mut self) -> String {
        self.rng
            .pick(&["", "", "", " ", "\n", " \n ", "\t", "\n\n", "\u{2003}", "%c\n"])
            .to_string()
    }

    fn label(&mut self) -> String {
        if !self.dict.strings.is_empty() && self.rng.chance(1, 6) {
            let s = self.rng.pick(&self.dict.strings).clone();
            if !s.chars().any(special) {
                return s;
            }
        }
        self.rng
            .pick(&["a", "b", "itemize", "document", "x\ny", "eq*", "", "é", "begin", "a b"])
            .to_string()
    }

    fn br(&mut self) -> Br {
        *self.rng.pick(&[Br::Curly, Br::Curly, Br::Square, Br::Round])
    }

    fn args(&mut self, depth: usize) -> String {
        let mut out = String::new();
        for _ in 0..*self.rng.pick(&[0, 0, 1, 1, 2, 3]) {
            let b = self.br();
            out += &self.ws();
            out.push(b.open());
            out += &self.list(depth + 1);
            out.push(b.close());
        }
        out
    }

    /// A mostly well formed piece of source
    pub fn list(&mut self, depth: usize) -> String {
        let mut out = String::new();
        let n = self.rng.below(if depth == 0 { 7 } else { 4 });
        for _ in 0..n {
            self.budget -= 1;
            if self.budget < 0 {
                break;
            }
            let k = self.rng.below(if depth > 6 { 6 } else { 14 });
            out += &match k {
                0..=3 => self
                    .rng
                    .pick(&["text", "a b", "\n", "\n\n", " ", "é\n", "x\n\ny", " \n \n ", "12", "\n\n\n", "a)"])
                    .to_string(),
                4 => {
                    if self.rng.chance(1, 5) {
                        self.word()
                    } else {
                        "t".into()
                    }
                }
                5 => self
                    .rng
                    .pick(&["\\\\", "\\%", "\\{", "\\ ", "% note\n", "\\\n", "\\$", "%{\\\n", "\\}", "\\é"])
                    .to_string(),
                6 | 7 => format!("\\{}{}{}", self.cmd_label(), self.args(depth), self.ws()),
                8 => {
                    let b = self.br();
                    format!("{}{}{}", b.open(), self.list(depth + 1), b.close())
                }
                9 | 10 => {
                    let l = self.label();
                    let (p, q, a) = (self.ws(), self.ws(), self.args(depth));
                    format!("\\begin{p}{{{l}}}{a}{}\\end{q}{{{l}}}", self.list(depth + 1))
                }
                _ => {
                    let (o, c) = *self.rng.pick(&[("$", "$"), ("$$", "$$"), ("\\(", "\\)"), ("\\[", "\\]")]);
                    format!("{o}{}{c}", self.list(depth + 1))
                }
            }
        }
        out
    }

    fn cmd_label(&mut self) -> String {
        if !self.dict.strings.is_empty() && self.rng.chance(1, 5) {
            return self.rng.pick(&self.dict.strings).clone();
        }
        self.rng
            .pick(&["a", "item", "frac", "x1", "b", "alpha", "a,", "z\u{e9}"])
            .to_string()
    }

    pub fn document(&mut self) -> String {
        let class = if self.rng.chance(1, 2) {
            let n = self.rng.below(4);
            let opts: Vec<String> = (0..n)
                .map(|_| {
                    let (a, b, c, d) = (self.ws(), self.ws(), self.ws(), self.ws());
                    let k = self.rng.pick(&["key", "a b", "11pt", "é", "", "k"]).to_string();
                    let v = self.rng.pick(&["val", "v w", "a=b", "", "é\u{2003}é"]).to_string();
                    if self.rng.chance(1, 2) {
                        format!("{a}{k}{b}={c}{v}{d}")
                    } else {
                        format!("{a}{k}{d}")
                    }
                })
                .collect();
            let opts = if n == 0 {
                String::new()
            } else {
                format!("{}[{}]", self.ws(), opts.join(","))
            };
            format!("\\documentclass{opts}{}{{article}}", self.ws())
        } else {
            String::new()
        };
        let (a, b, c, d) = (self.list(1), self.list(0), self.list(1), self.list(1));
        let (p, q, ar) = (self.ws(), self.ws(), self.args(5));
        format!("{a}{class}{b}\\begin{p}{{document}}{ar}{c}\\end{q}{{document}}{d}")
    }

    /// Any source
    pub fn source(&mut self) -> String {
        self.budget = 4 + self.rng.below(40) as i32;
        let mut s = match self.rng.below(8) {
            0 | 1 => {
                let n = self.rng.below(14);
                (0..n).map(|_| self.word()).collect()
            }
            2 | 3 | 4 => self.list(0),
            5 | 6 => self.document(),
            _ => self.big(),
        };
        // damage some
        if self.rng.chance(1, 4) {
            let mut cs: Vec<char> = s.chars().collect();
            for _ in 0..1 + self.rng.below(3) {
                let w = self.word();
                if cs.is_empty() {
                    cs = w.chars().collect();
                    continue;
                }
                let i = self.rng.below(cs.len());
                match self.rng.below(4) {
                    0 => {
                        cs.remove(i);
                    }
                    1 => cs.truncate(i),
                    2 => {
                        let j = self.rng.below(cs.len());
                        cs.swap(i, j)
                    }
                    _ => {
                        cs.splice(i..i, w.chars());
                    }
                }
            }
            s = cs.into_iter().collect()
        }
        s
    }

    /// A size worth trying: one the source names, or its neighbours
    fn size(&mut self) -> usize {
        if !self.dict.sizes.is_empty() && self.rng.chance(1, 2) {
            let n = *self.rng.pick(&self.dict.sizes);
            (n + self.rng.below(3)).saturating_sub(1)
        } else {
            *self.rng.pick(&[5, 8, 9, 16, 17, 33, 64, 65, 100, 128, 200, 256, 257])
        }
    }

    /// Something repeated or nested many times
    fn big(&mut self) -> String {
        let n = self.size();
        let inner = self.rng.pick(&["", "x", "\n", "a\n\nb", "$x$"]).to_string();
        match self.rng.below(8) {
            0 => {
                let (o, c) = *self.rng.pick(&[("{", "}"), ("[", "]"), ("(", ")"), ("\\a{", "}"), ("\\begin{a}", "\\end{a}"), ("\\(", "\\)")]);
                let n = n.min(120);
                format!("{}{inner}{}", o.repeat(n), c.repeat(n))
            }
            1 => format!("\\a{}", "{x}".repeat(n.min(2000))),
            2 => "\n".repeat(n.min(70_000)) + &inner,
            3 => format!("\\{}", "a".repeat(n.min(5000))) + &inner,
            4 => {
                let w = self.word();
                w.repeat(n.min(600)) + &inner
            }
            5 => "x".repeat(n.min(70_000)) + &inner,
            6 => {
                let l = self.list(1);
                l.repeat(n.min(40))
            }
            _ => format!("\\a{}{{{inner}}}", " ".repeat(n.min(5000))),
        }
    }

    // ---------------------------------------------------------------- trees

    pub fn string(&mut self, wild: bool) -> String {
        let n = *self.rng.pick(&[0, 1, 1, 2, 3, 5]);
        let mut out = String::new();
        for _ in 0..n {
            out += &if wild && self.rng.chance(1, 5) {
                self.word()
            } else {
                self.rng
                    .pick(&["a", "b c", "\n", "\n", " ", "é", "\n\n", "\t", "x\n", ".", "\u{2003}", "𝒳"])
                    .to_string()
            }
        }
        out
    }

    fn tree_args(&mut self, stage: u8, depth: usize, wild: bool) -> Vec<Arg> {
        (0..*self.rng.pick(&[0, 0, 1, 1, 2, 3]))
            .map(|_| Arg {
                prec: if wild {
                    self.string(wild)
                } else {
                    self.rng.pick(&["", "", " ", "\n", "\n\n "]).to_string()
                },
                br: self.br(),
                items: self.items(stage, depth + 1, wild),
            })
            .collect()
    }

    pub fn node(&mut self, stage: u8, depth: usize, wild: bool) -> Node {
        let kinds = match stage {
            1 => 3,
            2 => 4,
            _ => 6,
        };
        self.budget -= 1;
        let k = if depth > 4 || self.budget < 0 {
            0
        } else {
            self.rng.below(kinds)
        };
        match k {
            0 => Node::Text(self.string(wild)),
            1 => {
                let label = if wild && self.rng.chance(1, 3) {
                    self.string(true)
                } else if self.rng.chance(1, 10) {
                    self.rng.pick(&["(", "%", "\n", "\\", "begin", "end", "{", "éé", "é", ")", "[", "]"]).to_string()
                } else {
                    self.cmd_label()
                };
                let mut args = self.tree_args(stage, depth, wild);
                if !wild && matches!(label.as_str(), "(" | ")" | "[" | "]") {
                    // the parser gives arguments to letters only
                    args.clear()
                }
                Node::Cmd { label, args }
            }
            2 => Node::Scope(self.br(), self.items(stage, depth + 1, wild)),
            3 => Node::Env {
                label: if wild && self.rng.chance(1, 3) {
                    self.string(true)
                } else {
                    self.label()
                },
                args: self.tree_args(stage, depth, wild),
                content: self.items(stage, depth + 1, wild),
                pb: if wild { self.string(wild) } else { self.ws() }.replace('%', ""),
                pe: if wild { self.string(wild) } else { self.ws() }.replace('%', ""),
            },
            4 => Node::Par(if wild && self.rng.chance(1, 2) {
                self.string(true)
            } else {
                self.rng.pick(&["\n\n", "\n \n", "\n\n\n", " \n\n", "\n", " ", "\n\t\n\u{2003}"]).to_string()
            }),
            _ => Node::Maths {
                dollars: self.rng.chance(1, 2),
                display: self.rng.chance(1, 2),
                content: self.items(stage, depth + 1, wild),
            },
        }
    }

    pub fn items(&mut self, stage: u8, depth: usize, wild: bool) -> Vec<Item> {
        let n = self.rng.below(if depth == 0 { 6 } else { 4 });
        (0..n)
            .map(|_| Item {
                line: *self.rng.pick(&[1, 1, 1, 2, 3, 0, 7]),
                node: self.node(stage, depth, wild),
            })
            .collect()
    }

    pub fn tree(&mut self, stage: u8, wild: bool) -> Vec<Item> {
        self.budget = 2 + self.rng.below(30) as i32;
        let mut t = self.items(stage, 0, wild);
        if !self.rng.chance(1, 4) {
            renumber(&mut t);
            if self.rng.chance(1, 6) && !t.is_empty() {
                let i = self.rng.below(t.len());
                t[i].line = t[i].line.wrapping_add(*self.rng.pick(&[1, 2, 5, u32::MAX])).max(0)
            }
        }
        t
    }

    pub fn doc3(&mut self, wild: bool) -> Doc3 {
        Doc3 {
            class: None,
            opts: vec![],
            pre: self.tree(3, wild),
            body: self.tree(3, wild),
            args: self.tree_args(3, 2, wild),
            pb: self.ws().replace('%', ""),
            pe: self.ws().replace('%', ""),
            trailing: self.tree(3, wild),
        }
    }
}

/// Large sources, in a fixed order: every unit repeated in every wrapper, past the sizes of 8
/// and 16 bit counters
pub fn ladder() -> Vec<String> {
    const WRAP: &[(&str, &str)] = &[
        ("", ""),
        ("a", "\\b{c}"),
        ("{", "}x"),
        ("[", "]x"),
        ("\\a{", "}x"),
        ("\\a[", "]{b}x"),
        ("\\a", "{b}x"),
        ("\\[", "\\]x"),
        ("$", "$x"),
        ("\\begin{a}", "\\end{a}x"),
        ("\\begin", "{a}\\end{a}x"),
        ("\\begin{a}{", "}\\end{a}x"),
        ("\\begin{a}x\\end", "{a}x"),
        ("\\documentclass[", "]{a}\\begin{document}\\end{document}"),
        ("\\documentclass{a}", "\\begin{document}x\\end{document}y"),
        ("\\documentclass{a}\\begin{document}", "\\end{document}y"),
        ("\\documentclass{a}\\begin{document}x\\end{document}", "\\a"),
    ];
    const UNIT: &[&str] = &["\n", "x", "x\n", "\n\nx", " ", "%c\n", "{x}", "$x$\n", "\\a{b}\n", "\\\\\n", "a=b,", "\\[x\\]", "\\begin{b}\\end{b}"];
    let mut out = vec![];
    for n in [20, 259] {
        for (a, b) in WRAP {
            for u in UNIT {
                out.push(format!("{a}{}{b}", u.repeat(n)))
            }
        }
    }
    for (a, b) in WRAP {
        for u in ["\n", "x"] {
            out.push(format!("{a}{}{b}", u.repeat(66_000)))
        }
    }
    out
}
