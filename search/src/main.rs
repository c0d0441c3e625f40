//! vsearch search PROP --tier T --seed N --secs S --out FILE   look for a failing input
//! vsearch replay FILE                                        run a failing input again
mod gen;
mod props;
mod refparse;
mod tree;

use props::Input;
use std::{
    collections::hash_map::DefaultHasher,
    collections::HashSet,
    hash::{Hash, Hasher},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

/// The oracle's verdict, a panic counting as a violation
fn run(prop: &str, input: &Input) -> props::Verdict {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::check(prop, input))) {
        Ok(v) => v,
        Err(p) => Err(format!(
            "panicked: {}",
            p.downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default()
        )),
    }
}

fn shrink(prop: &str, input: Input) -> Input {
    let t0 = Instant::now();
    let mut best = input;
    if let Input::Src(s) = &best {
        let mut cs: Vec<char> = s.chars().collect();
        let mut step = cs.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            let mut any = false;
            while i < cs.len() && t0.elapsed() < Duration::from_secs(10) {
                let mut d = cs.clone();
                d.drain(i..(i + step).min(d.len()));
                if run(prop, &Input::Src(d.iter().collect())).is_err() {
                    cs = d;
                    any = true
                } else {
                    i += step
                }
            }
            if step == 1 && !any || t0.elapsed() > Duration::from_secs(10) {
                break;
            }
            step = (step / 2).max(1);
        }
        best = Input::Src(cs.iter().collect());
    }
    if let Input::Tree(k, t) = &best {
        let k = *k;
        let mut t = t.clone();
        let mut i = 0;
        while i < t.len() && t0.elapsed() < Duration::from_secs(10) {
            let mut d = t.clone();
            d.remove(i);
            tree::renumber(&mut d);
            if run(prop, &Input::Tree(k, d.clone())).is_err() {
                t = d
            } else {
                i += 1
            }
        }
        best = Input::Tree(k, t)
    }
    best
}

/// The fixed part of the exploration: token sets with the longest string to enumerate
fn spaces(prop: &str, thorough: bool) -> Vec<(&'static str, &'static [&'static str], usize, &'static str, &'static str)> {
    use gen::*;
    let t = thorough as usize;
    match prop {
        "C01" | "C02" => vec![("stage 1", TOK1, 5 + t, "", "")],
        "C03" => vec![("stage 1", TOK1, 4 + t, "", ""), ("stage 3", TOK3, 3 + t, "", "")],
        "C06" | "C07" | "C08" => vec![("stage 2", TOK2, 4 + t, "", ""), ("stage 1", TOK1, 4 + t, "", "")],
        "C09" => vec![("paragraphs", TOKP, 6 + t, "", "")],
        "C10" => vec![("stage 3", TOK3, 4 + t, "", "")],
        "C11" => vec![("document", TOKD, 4 + t, "", ""), ("stage 3", TOK3, 3 + t, "\\begin{document}", "\\end{document}x")],
        "C12" => vec![
            ("options", TOKO, 5 + t, "\\documentclass[", "]{a}\\begin{document}\\end{document}"),
            ("document", TOKD, 3 + t, "", ""),
        ],
        "C13" | "C14" | "C15" => vec![
            ("stage 1", TOK1, 4 + t, "", ""),
            ("stage 2", TOK2, 3 + t, "", ""),
            ("stage 3", TOK3, 3 + t, "", ""),
            ("document", TOKD, 3 + t, "", ""),
        ],
        _ => vec![],
    }
}

/// Whether the list of large sources applies: the properties of trees have none
fn sized(prop: &str) -> bool {
    !matches!(prop, "C04" | "C05")
}

struct Found {
    input: Input,
    msg: String,
    how: String,
}

/// What a thread is working on, kept in a file so that it survives a crash
struct Journal(Option<std::fs::File>);

impl Journal {
    fn open(dir: &str, th: usize) -> Self {
        Journal(if dir.is_empty() {
            None
        } else {
            std::fs::File::create(std::path::Path::new(dir).join(format!("{th}"))).ok()
        })
    }
    fn put(&self, tag: u8, body: &[u8]) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let mut v = Vec::with_capacity(body.len() + 5);
            v.push(tag);
            v.extend((body.len() as u32).to_le_bytes());
            v.extend(body);
            let _ = f.write_at(&v, 0);
        }
    }
}

/// The input a journal file names: one that was enumerated (1), or a generator seed (2)
fn journal_read(path: &std::path::Path, prop: &str, repo: &str) -> Option<Input> {
    let v = std::fs::read(path).ok()?;
    let n = u32::from_le_bytes(v.get(1..5)?.try_into().ok()?) as usize;
    let body = v.get(5..5 + n)?;
    match v[0] {
        1 => Some(Input::Src(String::from_utf8(body.to_vec()).ok()?)),
        _ => {
            let s = u64::from_le_bytes(body.try_into().ok()?);
            let dict = gen::Dict::harvest(&std::path::Path::new(repo).join("src"));
            let mut g = gen::Src::new(s, &dict);
            Some(props::generate(prop, &mut g))
        }
    }
}

#[derive(PartialEq)]
enum Child {
    Held,
    Violated(String),
    Died(String),
    Hung,
}

/// Runs one input in a process of its own
fn child(prop: &str, input: &Input, scratch: &std::path::Path, secs: f64) -> Child {
    let f = scratch.join("candidate.json");
    std::fs::write(&f, serde_json::json!({"found": {"property": prop, "input": input}}).to_string()).unwrap();
    let mut c = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("replay")
        .arg(&f)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    loop {
        match c.try_wait().unwrap() {
            Some(st) => {
                let mut out = String::new();
                use std::io::Read;
                let _ = c.stdout.take().unwrap().read_to_string(&mut out);
                return match st.code() {
                    Some(0) => Child::Held,
                    Some(1) => Child::Violated(out.trim().trim_start_matches("VIOLATED: ").to_string()),
                    _ => Child::Died(format!("{st}")),
                };
            }
            None if t0.elapsed().as_secs_f64() > secs => {
                let _ = c.kill();
                let _ = c.wait();
                return Child::Hung;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}

/// After a crash or hang of a search: finds the input that caused it
fn recover(prop: &str, dir: &str, repo: &str) -> Option<Found> {
    let dir = std::path::Path::new(dir);
    let bad = |i: &Input, secs: f64| match child(prop, i, dir, secs) {
        Child::Held => None,
        Child::Violated(m) => Some(m),
        Child::Died(m) => Some(format!("the process died: {m}")),
        Child::Hung => Some(format!("did not finish within {secs} s")),
    };
    for th in 0..64 {
        let Some(input) = journal_read(&dir.join(th.to_string()), prop, repo) else {
            continue;
        };
        if let Some(mut msg) = bad(&input, 20.0) {
            // shrink a little, in processes of its own
            let mut best = input;
            let t0 = Instant::now();
            if let Input::Src(s) = &best {
                let mut cs: Vec<char> = s.chars().collect();
                let mut step = cs.len().div_ceil(2).max(1);
                while t0.elapsed() < Duration::from_secs(20) {
                    let (mut i, mut any) = (0, false);
                    while i < cs.len() && t0.elapsed() < Duration::from_secs(20) {
                        let mut d = cs.clone();
                        d.drain(i..(i + step).min(d.len()));
                        match bad(&Input::Src(d.iter().collect()), 3.0) {
                            Some(m) => {
                                cs = d;
                                msg = m;
                                any = true
                            }
                            None => i += step,
                        }
                    }
                    if step == 1 && !any {
                        break;
                    }
                    step = (step / 2).max(1)
                }
                best = Input::Src(cs.iter().collect())
            }
            return Some(Found { input: best, msg, how: "recovered from the journal of a search that died or hung".into() });
        }
    }
    None
}

fn search(prop: String, tier: &str, seed: u64, secs: f64, repo: &str, journal: &str) -> (Option<Found>, serde_json::Value) {
    let thorough = tier == "thorough";
    let start = Instant::now();
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let dict = Arc::new(gen::Dict::harvest(&std::path::Path::new(repo).join("src")));
    let found: Arc<Mutex<Option<Found>>> = Arc::new(Mutex::new(None));
    let stop = Arc::new(AtomicBool::new(false));
    let evals = Arc::new(AtomicU64::new(0));
    let enumerated = Arc::new(AtomicU64::new(0));
    let seen: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(Vec::new()));
    let complete = Arc::new(AtomicBool::new(true));
    let large = Arc::new(AtomicU64::new(0));
    let progress: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(0)).collect());
    let ended = Arc::new(AtomicBool::new(false));
    {
        // an evaluation takes well under a millisecond: one of 15 s hangs
        let (progress, ended) = (progress.clone(), ended.clone());
        std::thread::spawn(move || {
            let mut last: Vec<(u64, Instant)> = progress.iter().map(|_| (0, Instant::now())).collect();
            while !ended.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                for (l, p) in last.iter_mut().zip(progress.iter()) {
                    let v = p.load(Ordering::Relaxed);
                    if v != l.0 || v == u64::MAX {
                        *l = (v, Instant::now())
                    } else if v > 0 && l.1.elapsed() > Duration::from_secs(15) {
                        std::process::exit(77)
                    }
                }
            }
        });
    }
    let hs: Vec<_> = (0..threads)
        .map(|th| {
            let (prop, dict, found, stop, evals, enumerated, seen, samples, complete, large, progress) = (
                prop.clone(),
                dict.clone(),
                found.clone(),
                stop.clone(),
                evals.clone(),
                enumerated.clone(),
                seen.clone(),
                samples.clone(),
                complete.clone(),
                large.clone(),
                progress.clone(),
            );
            let journal = Journal::open(journal, th);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let mut mine: HashSet<u64> = HashSet::new();
                    let mut n = 0u64;
                    let mut one = |input: &Input, how: &str, n: &mut u64| -> bool {
                        *n += 1;
                        progress[th].store(*n, Ordering::Relaxed);
                        match run(&prop, input) {
                            Ok(nontrivial) => {
                                if nontrivial {
                                    let mut h = DefaultHasher::new();
                                    serde_json::to_string(input).unwrap().hash(&mut h);
                                    if mine.len() < 400_000 && mine.insert(h.finish()) && mine.len() % 5000 == 1 {
                                        let mut s = samples.lock().unwrap();
                                        if s.len() < 6 {
                                            let mut t = serde_json::to_string(input).unwrap();
                                            if t.len() > 300 {
                                                t = t.chars().take(300).collect::<String>() + "..."
                                            }
                                            s.push(t)
                                        }
                                    }
                                }
                            }
                            Err(msg) => {
                                let mut f = found.lock().unwrap();
                                if f.is_none() {
                                    *f = Some(Found {
                                        input: input.clone(),
                                        msg,
                                        how: how.to_string(),
                                    })
                                }
                                stop.store(true, Ordering::Relaxed)
                            }
                        }
                        !stop.load(Ordering::Relaxed)
                    };
                    let mut go = true;
                    for (name, toks, max, pre, post) in spaces(&prop, thorough) {
                        let limit = if thorough { secs * 0.6 } else { secs * 0.7 };
                        let mut cut = false;
                        let done = gen::exhaustive(toks, max, th, threads, &mut |s| {
                            let src = format!("{pre}{s}{post}");
                            if n % 256 == 0 && start.elapsed().as_secs_f64() > limit {
                                cut = true;
                                return false;
                            }
                            enumerated.fetch_add(1, Ordering::Relaxed);
                            journal.put(1, src.as_bytes());
                            one(&Input::Src(src), &format!("enumeration of {name}"), &mut n)
                        });
                        if cut {
                            complete.store(false, Ordering::Relaxed)
                        } else if !done {
                            go = false;
                            break;
                        }
                    }
                    if go && sized(&prop) {
                        for (i, src) in gen::ladder().into_iter().enumerate() {
                            if i % threads != th || start.elapsed().as_secs_f64() > secs * 0.9 {
                                continue;
                            }
                            journal.put(1, src.as_bytes());
                            large.fetch_add(1, Ordering::Relaxed);
                            go = one(&Input::Src(src), "the list of large sources", &mut n);
                            if !go {
                                break;
                            }
                        }
                    }
                    let mut k = 0u64;
                    while go && start.elapsed().as_secs_f64() < secs {
                        let s = seed
                            .wrapping_mul(1_000_003)
                            .wrapping_add(th as u64)
                            .wrapping_mul(0x1_0000_0000)
                            .wrapping_add(k);
                        k += 1;
                        journal.put(2, &s.to_le_bytes());
                        let mut g = gen::Src::new(s, &dict);
                        let input = props::generate(&prop, &mut g);
                        go = one(&input, &format!("random, generator seed {s}"), &mut n);
                    }
                    progress[th].store(u64::MAX, Ordering::Relaxed);
                    evals.fetch_add(n, Ordering::Relaxed);
                    seen.lock().unwrap().extend(mine);
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            let mut f = found.lock().unwrap();
            if f.is_none() {
                *f = Some(Found { input: Input::Src(String::new()), msg: "the search itself failed".into(), how: "internal".into() })
            }
        }
    }
    ended.store(true, Ordering::Relaxed);
    let found = found.lock().unwrap().take();
    let stats = serde_json::json!({
        "evaluations": evals.load(Ordering::Relaxed),
        "distinct_nontrivial": seen.lock().unwrap().len(),
        "enumerated": enumerated.load(Ordering::Relaxed),
        "enumeration_complete": complete.load(Ordering::Relaxed) && found.is_none(),
        "large_sources": large.load(Ordering::Relaxed),
        "spaces": spaces(&prop, thorough).iter().map(|(n, t, m, a, b)| format!("{n}: all strings of at most {m} of the {} tokens {t:?} between {a:?} and {b:?}", t.len())).collect::<Vec<_>>(),
        "samples": samples.lock().unwrap().clone(),
        "dictionary": {"strings": dict.strings.len(), "sizes": dict.sizes.len()},
        "wall_s": start.elapsed().as_secs_f64(),
    });
    (found, stats)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str, def: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1).cloned())
            .unwrap_or(def.to_string())
    };
    match args.first().map(String::as_str) {
        Some("search") => {
            let prop = args[1].clone();
            let (f, stats) = search(
                prop.clone(),
                &opt("--tier", "quick"),
                opt("--seed", "1").parse().unwrap(),
                opt("--secs", "10").parse().unwrap(),
                &opt("--repo", "/repo"),
                &opt("--journal", ""),
            );
            let out = match f {
                None => serde_json::json!({"found": null, "stats": stats}),
                Some(f) => {
                    let p = prop.clone();
                    let (input, msg) = std::thread::Builder::new()
                        .stack_size(512 << 20)
                        .spawn(move || {
                            let input = shrink(&p, f.input);
                            let msg = run(&p, &input).err().unwrap_or(f.msg);
                            (input, msg)
                        })
                        .unwrap()
                        .join()
                        .unwrap();
                    serde_json::json!({"found": {"property": prop, "input": input, "message": msg, "how": f.how}, "stats": stats})
                }
            };
            let text = serde_json::to_string_pretty(&out).unwrap();
            match opt("--out", "").as_str() {
                "" => println!("{text}"),
                p => std::fs::write(p, text).unwrap(),
            }
        }
        Some("recover") => {
            let out = match recover(&args[1], &opt("--journal", ""), &opt("--repo", "/repo")) {
                None => serde_json::json!({"found": null}),
                Some(f) => serde_json::json!({"found": {"property": args[1], "input": f.input, "message": f.msg, "how": f.how}}),
            };
            std::fs::write(opt("--out", "/dev/stdout"), serde_json::to_string_pretty(&out).unwrap()).unwrap()
        }
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
            let f = &v["found"];
            let input: Input = serde_json::from_value(f["input"].clone()).unwrap();
            let prop = f["property"].as_str().unwrap().to_string();
            let r = std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || run(&prop, &input))
                .unwrap()
                .join()
                .unwrap();
            match r {
                Ok(_) => println!("held"),
                Err(m) => {
                    println!("VIOLATED: {m}");
                    std::process::exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: vsearch search PROP | replay FILE");
            std::process::exit(2)
        }
    }
}
