//! vharness search PROPERTY SEED SECONDS REPLAY_FILE   looks for a failing input of the property
//! vharness trace PROPERTY SEED SECONDS REPLAY_FILE    the same, one case at a time, each written before it is run
//! vharness replay REPLAY_FILE                         runs a recorded case; exit 1 if the property fails on it
mod matcher_kind;
mod oracle;
mod rng;
mod small_kinds;
mod source_kind;

use rng::Rng;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    pub prop: &'static str,
    pub what: String,
}

impl Fail {
    pub fn new(prop: &'static str, what: String) -> Fail {
        Fail { prop, what }
    }
}

pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

type Run = fn(&[String], &mut u64) -> Vec<Fail>;
type Gen = fn(&mut Rng) -> Vec<String>;

const KINDS: [(&str, Gen, Run); 9] = [
    ("matcher", matcher_kind::gen, matcher_kind::run),
    ("parser", small_kinds::gen_parser_case, small_kinds::run_parser),
    ("grammar", small_kinds::gen_grammar, small_kinds::run_grammar),
    ("tokens", small_kinds::gen_token_case, small_kinds::run_tokens),
    ("sorted", small_kinds::gen_sorted, small_kinds::run_sorted),
    ("prefix", small_kinds::gen_prefix, small_kinds::run_prefix),
    ("testmsg", source_kind::gen_testmsg, source_kind::run_testmsg),
    ("source", source_kind::gen_source, source_kind::run_source),
    ("loader", source_kind::gen_loader, source_kind::run_loader),
];

fn kinds_of(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" | "C03" | "C04" => &["matcher"],
        "C02" => &["matcher", "matcher", "matcher", "testmsg", "parser"],
        "C05" | "C06" => &["parser"],
        "C07" => &["grammar"],
        "C08" => &["matcher", "matcher", "grammar", "parser"],
        "C09" => &["testmsg"],
        "C10" => &["source"],
        "C11" => &["loader"],
        "C12" => &["matcher", "tokens", "parser"],
        "C13" => &["sorted"],
        "C14" => &["prefix"],
        _ => panic!("unknown property {}", prop),
    }
}

fn kind(name: &str) -> (&'static str, Gen, Run) {
    *KINDS.iter().find(|k| k.0 == name).expect("unknown kind")
}

fn case_at(prop: &str, seed: u64, i: u64) -> (&'static str, Vec<String>, Run) {
    let ks = kinds_of(prop);
    let k = kind(ks[(i % ks.len() as u64) as usize]);
    let mut h = DefaultHasher::new();
    (prop, seed, i).hash(&mut h);
    let mut r = Rng::new(h.finish());
    (k.0, (k.1)(&mut r), k.2)
}

fn fails_on(run: Run, prop: &str, case: &[String]) -> Option<String> {
    let mut h = 0;
    run(case, &mut h).into_iter().find(|f| f.prop == prop).map(|f| f.what)
}

fn shrink(run: Run, prop: &str, mut case: Vec<String>) -> Vec<String> {
    let end = Instant::now() + Duration::from_secs(10);
    loop {
        let mut smaller = false;
        let mut n = case.len() / 2;
        while n >= 1 {
            let mut i = 0;
            while i + n <= case.len() && Instant::now() < end {
                let mut c = case.clone();
                c.drain(i..i + n);
                if fails_on(run, prop, &c).is_some() {
                    case = c;
                    smaller = true;
                } else {
                    i += 1;
                }
            }
            n /= 2;
        }
        for i in 0..case.len() {
            let mut k = 1;
            while k < case[i].chars().count() && Instant::now() < end {
                let mut c = case.clone();
                c[i] = case[i].chars().enumerate().filter(|x| x.0 != k).map(|x| x.1).collect();
                if fails_on(run, prop, &c).is_some() {
                    case = c;
                    smaller = true;
                } else {
                    k += 1;
                }
            }
        }
        if !smaller || Instant::now() >= end {
            return case;
        }
    }
}

fn esc(s: &str) -> String {
    s.chars().flat_map(|c| if c == '\\' || c == '\n' || c == '\r' { c.escape_default().collect::<Vec<_>>() } else { vec![c] }).collect()
}

pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn write_replay(path: &str, prop: &str, kind: &str, what: &str, case: &[String]) {
    let mut s = format!("property {}\nkind {}\nwhat {}\n", prop, kind, esc(what));
    for l in case {
        s.push_str(&format!("case {}\n", esc(l)));
    }
    std::fs::write(path, s).expect("cannot write the replay file");
}

fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("cannot read the replay file");
    let (mut prop, mut k, mut case) = (String::new(), String::new(), vec![]);
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            prop = x.to_owned();
        } else if let Some(x) = l.strip_prefix("kind ") {
            k = x.to_owned();
        } else if let Some(x) = l.strip_prefix("case ") {
            case.push(unesc(x));
        }
    }
    match fails_on(kind(&k).2, &prop, &case) {
        Some(w) => {
            println!("FAILS property={} {}", prop, w);
            1
        }
        None => {
            println!("holds");
            0
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "replay" {
        std::process::exit(replay(&a[2]));
    }
    if a.len() != 6 {
        eprintln!("usage: vharness search|trace PROPERTY SEED SECONDS REPLAY_FILE | replay FILE");
        std::process::exit(2);
    }
    let trace = a[1] == "trace";
    let prop: &'static str = Box::leak(a[2].clone().into_boxed_str());
    let seed: u64 = a[3].parse().expect("seed");
    let secs: f64 = a[4].parse().expect("seconds");
    let out = a[5].clone();
    kinds_of(prop);
    let threads = if trace { 1 } else { 8 };
    let end = Instant::now() + Duration::from_millis((secs * 1000.0) as u64);
    let stop = Arc::new(AtomicBool::new(false));
    let evals = Arc::new(AtomicU64::new(0));
    let nontrivial = Arc::new(AtomicU64::new(0));
    let hits = Arc::new(AtomicU64::new(0));
    let next = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Option<(&'static str, Vec<String>, String)>>> = Arc::new(Mutex::new(None));
    let sample: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let current: Arc<Vec<Mutex<Option<(Instant, &'static str, Vec<String>)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (stop, evals, hits, next, found, current, out, sample, nontrivial) =
                (stop.clone(), evals.clone(), hits.clone(), next.clone(), found.clone(), current.clone(), out.clone(), sample.clone(), nontrivial.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut seen: HashSet<u64> = HashSet::new();
                    while !stop.load(Ordering::Relaxed) && Instant::now() < end {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        let (k, case, run) = case_at(prop, seed, i);
                        if trace {
                            write_replay(&out, prop, k, "the process ended abnormally on this case", &case);
                        } else {
                            *current[t].lock().unwrap() = Some((Instant::now(), k, case.clone()));
                        }
                        let mut h = 0;
                        let fails = run(&case, &mut h);
                        evals.fetch_add(1, Ordering::Relaxed);
                        hits.fetch_add(h, Ordering::Relaxed);
                        if h > 0 {
                            let mut hs = DefaultHasher::new();
                            case.hash(&mut hs);
                            if seen.len() < 4_000_000 && seen.insert(hs.finish()) {
                                nontrivial.fetch_add(1, Ordering::Relaxed);
                            }
                            if i < 64 {
                                let mut s = sample.lock().unwrap();
                                if s.len() < 3 {
                                    s.push(format!("{} {:?}", k, case));
                                }
                            }
                        }
                        if let Some(f) = fails.into_iter().find(|f| f.prop == prop) {
                            let mut g = found.lock().unwrap();
                            if g.is_none() {
                                *g = Some((k, case, f.what));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    *current[t].lock().unwrap() = None;
                })
                .unwrap()
        })
        .collect();
    // a case which does not end is a failure, too (C08), and any property is undecided on it
    while !hs.iter().all(|h| h.is_finished()) {
        std::thread::sleep(Duration::from_millis(50));
        if trace {
            continue;
        }
        for c in current.iter() {
            if let Some((t, k, case)) = &*c.lock().unwrap() {
                if t.elapsed() > Duration::from_secs(20) {
                    write_replay(&out, prop, k, "does not end", case);
                    println!("HANG property={} replay={}", prop, out);
                    std::process::exit(3);
                }
            }
        }
    }
    for h in hs {
        h.join().unwrap();
    }
    println!("evaluations {}", evals.load(Ordering::Relaxed));
    println!("distinct_nontrivial {}", nontrivial.load(Ordering::Relaxed));
    println!("hits {}", hits.load(Ordering::Relaxed));
    for s in sample.lock().unwrap().iter() {
        println!("sample {}", s.replace('\n', "\\n"));
    }
    let g = found.lock().unwrap().clone();
    if let Some((k, case, _)) = g {
        let run = kind(k).2;
        let case = shrink(run, prop, case);
        let what = fails_on(run, prop, &case).unwrap_or_else(|| "fails, but not every time".into());
        write_replay(&out, prop, k, &what, &case);
        println!("FAILS property={} {}", prop, what.replace('\n', "\\n"));
        std::process::exit(1);
    }
}
