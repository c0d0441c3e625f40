//! The contract files: /verif/contracts/*.vc
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Clause {
    pub tags: Vec<String>,
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct LoopSpec {
    pub invs: Vec<Clause>,
    pub decreases: Option<String>,
    pub pre: String,
    pub top: String,
    pub end: String,
    pub post: String,
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub decreases: Option<String>,
    pub attrs: Vec<String>,
    /// the match whose arms are verified one at a time, and the measure of the function that picks one
    pub split: Option<(String, String)>,
    /// types of locals, for the copies in which the code they are inferred from is closed
    pub types: BTreeMap<String, String>,
    pub entry: String,
    pub exit: String,
    pub loops: BTreeMap<String, LoopSpec>,
    /// (before | after, name, ordinal) -> ghost text
    pub at: BTreeMap<(String, String, usize), String>,
    pub trusted: bool,
    pub used: bool,
}

#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnSpec>,
    /// loop contracts by shape, for generated loops without one of their own
    pub shapes: Vec<(String, LoopSpec)>,
    /// definitions not unfolded in the functions of a module
    pub hides: BTreeMap<String, Vec<String>>,
}

pub fn load(dir: &std::path::Path) -> Contracts {
    let mut c = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().is_some_and(|e| e == "vc"))
        .collect();
    files.sort();
    for f in files {
        parse(&mut c, &std::fs::read_to_string(&f).unwrap(), &f.display().to_string())
    }
    c
}

/// `[C01,C02] text` with continuation lines
fn clauses(block: &str) -> Vec<Clause> {
    let mut out: Vec<Clause> = vec![];
    for l in block.lines() {
        let t = l.trim();
        if t.is_empty() {
            continue;
        }
        if let Some(r) = t.strip_prefix('[') {
            let head = r.split(']').next().unwrap();
            if head.is_empty() || head.split(',').all(|x| x.trim().starts_with('C') && x.trim().len() == 3) {
                let text = r[head.len() + 1..].trim().to_string();
                out.push(Clause {
                    tags: head.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect(),
                    text,
                });
                continue;
            }
        }
        match out.last_mut() {
            Some(c) => {
                c.text.push('\n');
                c.text.push_str(t)
            }
            None => panic!("a clause needs its tags: {t}"),
        }
    }
    out
}

fn parse(c: &mut Contracts, text: &str, file: &str) {
    enum Cur {
        None,
        Fn(String),
        Shape,
    }
    let mut cur = Cur::None;
    let mut lp: Option<String> = None;
    let mut sections: Vec<(String, String)> = vec![];
    for l in text.lines() {
        let t = l.trim_start();
        if t.starts_with('#') && !t.starts_with("#[") {
            continue;
        }
        if t.starts_with('@') {
            sections.push((t[1..].trim().to_string(), String::new()))
        } else if let Some(s) = sections.last_mut() {
            s.1.push_str(l);
            s.1.push('\n')
        }
    }
    for (head, body) in sections {
        let w: Vec<&str> = head.split_whitespace().collect();
        let body_t = body.trim().to_string();
        match w[0] {
            "fn" => {
                cur = Cur::Fn(w[1].to_string());
                lp = None;
                if c.fns.insert(w[1].to_string(), FnSpec::default()).is_some() {
                    panic!("{file}: two contracts for {}", w[1])
                }
                assert!(body_t.is_empty(), "{file}: text after @fn {}", w[1]);
                continue;
            }
            "hide" => {
                let names = body.split_whitespace().map(String::from);
                c.hides.entry(w[1].to_string()).or_default().extend(names);
                continue;
            }
            "shape" => {
                cur = Cur::Shape;
                c.shapes.push((head["shape".len()..].trim().to_string(), LoopSpec::default()));
                continue;
            }
            _ => {}
        }
        let spec: Option<&mut FnSpec> = match &cur {
            Cur::Fn(n) => c.fns.get_mut(n),
            Cur::Shape => None,
            Cur::None => panic!("{file}: @{head} outside a function"),
        };
        let in_loop = |c: &mut Contracts, cur: &Cur, lp: &Option<String>| -> *mut LoopSpec {
            match cur {
                Cur::Fn(n) => c
                    .fns
                    .get_mut(n)
                    .unwrap()
                    .loops
                    .get_mut(lp.as_ref().unwrap_or_else(|| panic!("{file}: @{head} outside a loop")))
                    .unwrap() as *mut _,
                _ => &mut c.shapes.last_mut().unwrap().1 as *mut _,
            }
        };
        match w[0] {
            "requires" => spec.unwrap().requires.extend(clauses(&body)),
            "ensures" => spec.unwrap().ensures.extend(clauses(&body)),
            "attr" => spec.unwrap().attrs.push(head["attr".len()..].trim().to_string()),
            "split" => spec.unwrap().split = Some((head["split".len()..].trim().to_string(), body_t)),
            "type" => {
                spec.unwrap().types.insert(w[1].to_string(), w[2..].join(" "));
            }
            "trusted" => spec.unwrap().trusted = true,
            "entry" => spec.unwrap().entry.push_str(&body_t),
            "exit" => spec.unwrap().exit.push_str(&body_t),
            "loop" => {
                lp = Some(w[1].to_string());
                spec.unwrap().loops.entry(w[1].to_string()).or_default();
            }
            "fdecreases" => spec.unwrap().decreases = Some(format!("{} {}", w[1..].join(" "), body_t).trim().to_string()),
            "decreases" | "inv" | "pre" | "top" | "end" | "post" => {
                // safe: the pointer is used before `c` is touched again
                let l = unsafe { &mut *in_loop(c, &cur, &lp) };
                match w[0] {
                    "inv" => l.invs.extend(clauses(&body)),
                    "decreases" => l.decreases = Some(format!("{} {}", w[1..].join(" "), body_t).trim().to_string()),
                    "pre" => l.pre = body_t,
                    "top" => l.top = body_t,
                    "end" => l.end = body_t,
                    _ => l.post = body_t,
                }
            }
            "before" | "after" => {
                let n = w.get(2).map_or(0, |x| x.parse().unwrap());
                spec.unwrap().at.insert((w[0].to_string(), w[1].to_string(), n), body_t);
            }
            other => panic!("{file}: unknown @{other}"),
        }
    }
}
