//! Histories of adding, cloning and matching, for both matchers (C01-C04, C08, C12)
use crate::oracle::*;
use crate::rng::Rng;
use crate::{guard, Fail};
use actiondb::matcher::compiled_pattern::TokenType;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::{Matcher, MatcherFactory, Pattern};
use actiondb::parsers::*;
use std::collections::{BTreeMap, BTreeSet};
use uuid::Uuid;

pub type Answer = Option<(usize, Option<String>, Option<BTreeMap<String, String>>, Option<Vec<String>>, BTreeMap<String, String>)>;

/// the number of a pattern which has the uuid of another one
pub fn sharing(id: usize, with: usize) -> usize {
    (with + 1) << 32 | id
}

pub fn uuid_of(i: usize) -> Uuid {
    if i >> 32 != 0 {
        return uuid_of((i >> 32) - 1);
    }
    if i == 0 {
        return Uuid::nil();
    }
    // the number goes into the front, the back or the middle, so that uuids may agree in any half
    let mut b = [7u8; 16];
    for k in 0..8 {
        b[[0, 8, 4][i % 3] + k] = ((i as u64) >> (8 * k)) as u8;
    }
    Uuid::from_bytes(&b).unwrap()
}

pub fn id_of(u: &Uuid) -> usize {
    let b = u.as_bytes();
    for at in [0, 8, 4] {
        let r = (0..8).fold(0u64, |r, k| r | (b[at + k] as u64) << (8 * k)) as usize;
        if uuid_of(r) == *u {
            return r;
        }
    }
    usize::max_value()
}

/// every way of constructing a parser is used; which one depends on the parser only
pub fn build_parser(p: &PSpec) -> Box<dyn Parser> {
    let way = format!("{:?}", p).bytes().fold(0u32, |h, b| (h ^ b as u32).wrapping_mul(0x0100_0193)) >> 7;
    match p {
        PSpec::Set { set, min, max, name } => {
            let s: String = if way & 1 == 0 { set.iter().collect() } else { set.iter().rev().collect() };
            let mut q = match name {
                Some(n) => match way / 2 % 4 {
                    0 => SetParser::with_name(n.clone(), &s),
                    1 => SetParser::from_str(n, &s),
                    2 => {
                        let mut q = SetParser::from_str("other", &s);
                        q.set_name(Some(n.clone()));
                        q
                    }
                    _ => {
                        let mut q = SetParser::with_name(n.clone(), "abc");
                        q.set_character_set(&s);
                        q
                    }
                },
                None if way / 2 % 3 == 0 => {
                    let mut q = SetParser::from_str("other", &s);
                    q.set_name(None);
                    q
                }
                None => SetParser::new(&s),
            };
            if way / 8 % 2 == 0 {
                q.set_max_length(*max);
                q.set_min_length(*min);
            } else {
                q.set_min_length(Some(2));
                q.set_max_length(Some(1));
                q.set_min_length(*min);
                q.set_max_length(*max);
            }
            Box::new(q)
        }
        PSpec::Int { min, max, name } => {
            let mut q = match name {
                Some(n) if way & 1 == 0 => IntParser::with_name(n.clone()),
                Some(n) => {
                    let mut q = IntParser::new();
                    q.set_name(Some(n.clone()));
                    q
                }
                None if way & 1 == 0 => {
                    let mut q = IntParser::with_name("other");
                    q.set_name(None);
                    q
                }
                None => IntParser::new(),
            };
            if way / 8 % 2 == 0 {
                q.set_max_length(*max);
                q.set_min_length(*min);
            } else {
                q.set_min_length(*min);
                q.set_max_length(*max);
            }
            Box::new(q)
        }
        PSpec::Greedy { end, name } => {
            let mut q = match (name, end) {
                (Some(n), Some(e)) if way % 3 == 0 => return Box::new(GreedyParser::from_str(n, e)),
                (Some(n), _) if way % 3 == 1 => {
                    let mut q = GreedyParser::from_str("other", "e");
                    q.set_name(Some(n.clone()));
                    q
                }
                (Some(n), _) => GreedyParser::with_name(n.clone()),
                (None, _) => GreedyParser::new(),
            };
            q.set_end_string(end.clone());
            Box::new(q)
        }
    }
}

pub fn build_tokens(ts: &[TSpec]) -> Vec<TokenType> {
    ts.iter()
        .map(|t| match t {
            TSpec::Lit(s) => TokenType::Literal(s.clone()),
            TSpec::Par(p) => TokenType::Parser(build_parser(p)),
        })
        .collect()
}

pub fn meta(i: usize) -> (Option<String>, Option<BTreeMap<String, String>>, Option<Vec<String>>) {
    let name = if i >> 32 != 0 { Some(format!("u{}", i)) } else if i % 3 == 0 { None } else { Some(format!("name{}", i)) };
    let values = match i % 4 {
        1 => Some(Some((format!("k{}", i), format!("v{}", i))).into_iter().collect()),
        3 if i % 3 != 1 => Some(BTreeMap::new()),
        _ => None,
    };
    let tags = match i % 8 {
        1 | 3 | 5 | 7 => Some(vec![format!("tag{}", i), "x".to_owned()]),
        6 => Some(vec![]),
        _ => None,
    };
    (name, values, tags)
}

pub fn build_pattern(i: usize, ts: &[TSpec]) -> Pattern {
    let (name, values, tags) = meta(i);
    Pattern::new(name, uuid_of(i), build_tokens(ts), None, values, tags)
}

pub fn answer(m: &dyn Matcher, text: &str) -> Answer {
    m.parse(text).map(|r| {
        let p = r.pattern();
        (
            match p.name().and_then(|n| n.strip_prefix('u')).and_then(|n| n.parse::<usize>().ok()).filter(|n| n >> 32 != 0) {
                Some(n) if uuid_of(n) == *p.uuid() => n,
                _ => id_of(p.uuid()),
            },
            p.name().map(|x| x.to_owned()),
            p.values().cloned(),
            p.tags().map(|x| x.to_vec()),
            r.values().iter().map(|(k, v)| ((*k).to_owned(), (*v).to_owned())).collect(),
        )
    })
}

fn fresh(kind: usize) -> Box<dyn Matcher> {
    if kind == 0 {
        Box::new(TrieMatcherFactory::new_matcher())
    } else {
        Box::new(SuffixArrayMatcherFactory::new_matcher())
    }
}

const WHICH: [&str; 2] = ["trie", "suffix array"];

fn opt_num(s: &str) -> Option<usize> {
    s.parse().ok()
}

pub fn parse_token(line: &str) -> Option<TSpec> {
    let mut cs = line.chars();
    let op = cs.next()?;
    let rest = cs.as_str();
    if op == 'l' {
        return Some(TSpec::Lit(rest.to_owned()));
    }
    let mut parts = rest.splitn(2, ':');
    let head = parts.next()?;
    let tail = parts.next().unwrap_or("");
    let mut f = head.split(',');
    let min = opt_num(f.next().unwrap_or(""));
    let max = opt_num(f.next().unwrap_or(""));
    let name = f.next().and_then(|n| n.strip_prefix('=')).map(|x| x.to_owned());
    match op {
        's' => Some(TSpec::Par(PSpec::Set { set: tail.chars().collect::<BTreeSet<char>>(), min, max, name })),
        'i' => Some(TSpec::Par(PSpec::Int { min, max, name })),
        'g' => Some(TSpec::Par(PSpec::Greedy { end: tail.strip_prefix('e').map(|x| x.to_owned()), name })),
        _ => None,
    }
}

pub fn show_token(t: &TSpec) -> String {
    fn h(min: &Option<usize>, max: &Option<usize>, name: &Option<String>) -> String {
        format!(
            "{},{},{}",
            min.map_or("-".into(), |x| x.to_string()),
            max.map_or("-".into(), |x| x.to_string()),
            name.as_ref().map_or("-".into(), |x| format!("={}", x))
        )
    }
    match t {
        TSpec::Lit(s) => format!("l{}", s),
        TSpec::Par(PSpec::Set { set, min, max, name }) => format!("s{}:{}", h(min, max, name), set.iter().collect::<String>()),
        TSpec::Par(PSpec::Int { min, max, name }) => format!("i{}:", h(min, max, name)),
        TSpec::Par(PSpec::Greedy { end, name }) => {
            format!("g{}:{}", h(&None, &None, name), end.as_ref().map_or("".into(), |e| format!("e{}", e)))
        }
    }
}

struct Inst {
    m: Box<dyn Matcher>,
    r: RefMatcher,
    history: Vec<(usize, Vec<TSpec>)>,
    cloned: bool,
}

fn add(inst: &mut [Inst; 2], id: usize, ts: &[TSpec], clone_pattern: bool, fails: &mut Vec<Fail>) -> bool {
    for k in 0..2 {
        let ts2 = ts.to_vec();
        let m = &mut inst[k].m;
        let ok = guard(|| {
            let p = build_pattern(id, &ts2);
            if clone_pattern {
                let q = p.clone();
                m.add_pattern(q);
            } else {
                m.add_pattern(p);
            }
        });
        if let Err(e) = ok {
            fails.push(Fail::new("C08", format!("adding {:?} to the {} panicked: {}", ts, WHICH[k], e)));
            return false;
        }
        inst[k].r.add(id, ts);
        inst[k].history.push((id, ts.to_vec()));
        inst[k].cloned |= clone_pattern;
    }
    true
}

fn query(inst: &Inst, k: usize, text: &str, fails: &mut Vec<Fail>, hits: &mut u64) {
    let w = WHICH[k];
    let matching = inst.r.matching(text);
    let got = match guard(|| answer(&*inst.m, text)) {
        Ok(g) => g,
        Err(e) => {
            let what = format!("matching {:?} with the {} panicked: {}", text, w, e);
            if !matching.is_empty() {
                fails.push(Fail::new("C03", what.clone()));
            }
            fails.push(Fail::new("C08", what));
            return;
        }
    };
    if got.is_some() || !matching.is_empty() {
        *hits += 1;
    }
    match &got {
        None => {
            if !matching.is_empty() {
                fails.push(Fail::new("C03", format!("{}: {:?} matches added pattern(s) {:?}, but no match was reported", w, text, matching)));
            }
        }
        Some((id, name, values, tags, kv)) => {
            let added: Vec<&(usize, Vec<TSpec>)> = inst.history.iter().filter(|x| x.0 == *id).collect();
            if added.is_empty() {
                fails.push(Fail::new("C01", format!("{}: {:?}: the reported pattern {} was never added", w, text, id)));
                return;
            }
            let tokens = &added[0].1;
            let (n, v, t) = meta(*id);
            if (name, values, tags) != (&n, &v, &t) {
                fails.push(Fail::new("C01", format!("{}: {:?}: the reported pattern {} does not carry the name, values or tags it was added with: {:?}", w, text, id, got)));
            }
            match matches(tokens, text) {
                None => {
                    fails.push(Fail::new("C01", format!("{}: {:?} is reported to match pattern {} {:?}, but it does not", w, text, id, tokens)));
                }
                Some(want) => {
                    if *kv != want {
                        fails.push(Fail::new("C02", format!("{}: {:?} matches {:?} with values {:?}, reported {:?}", w, text, tokens, want, kv)));
                    }
                    if inst.r.tokens(*id).is_none() {
                        fails.push(Fail::new("C03", format!("{}: {:?}: reported pattern {} was replaced by a later one with the same tokens", w, text, id)));
                    } else if inst.r.all_normal {
                        let best = inst.r.best(text);
                        if best != Some(*id) {
                            fails.push(Fail::new("C04", format!("{}: {:?} should be reported as pattern {:?}, not {}", w, text, best, id)));
                        }
                    }
                }
            }
        }
    }
    // C12: whatever was cloned on the way, the answer is that of a matcher built without cloning
    if inst.cloned {
        let hist = inst.history.clone();
        let plain = guard(|| {
            let mut m = fresh(k);
            for (id, ts) in &hist {
                m.add_pattern(build_pattern(*id, ts));
            }
            answer(&*m, text)
        });
        if let Ok(plain) = plain {
            if plain != got {
                fails.push(Fail::new("C12", format!("{}: {:?}: a clone answers {:?}, a matcher with the same history {:?}", w, text, got, plain)));
            }
        }
    }
}

pub fn run(case: &[String], hits: &mut u64) -> Vec<Fail> {
    let mut fails = Vec::new();
    let mk = || -> [Inst; 2] {
        [0, 1].map(|k| Inst { m: fresh(k), r: RefMatcher::new(), history: vec![], cloned: false })
    };
    let mut cur = mk();
    let mut other: Option<[Inst; 2]> = None;
    let mut next = 0usize;
    let mut pending: Option<(Vec<TSpec>, bool, Option<usize>)> = None;
    for line in case {
        let op = line.chars().next().unwrap_or(' ');
        if "lsig".contains(op) {
            if let (Some((ts, ..)), Some(t)) = (pending.as_mut(), parse_token(line)) {
                ts.push(t);
            }
            continue;
        }
        if let Some((ts, c, with)) = pending.take() {
            let id = with.filter(|w| *w < next).map_or(next, |w| sharing(next, w));
            next += 1;
            if !add(&mut cur, id, &ts, c, &mut fails) {
                return fails;
            }
        }
        match op {
            '+' => pending = Some((vec![], line.contains('c'), line.find('u').and_then(|k| line[k + 1..].parse().ok()))),
            '?' => {
                let text = &line[1..];
                for k in 0..2 {
                    query(&cur[k], k, text, &mut fails, hits);
                    if let Some(o) = &other {
                        query(&o[k], k, text, &mut fails, hits);
                    }
                }
                if !fails.is_empty() {
                    return fails;
                }
            }
            'c' => {
                let c = [0, 1].map(|k| {
                    let m = guard(|| cur[k].m.boxed_clone());
                    match m {
                        Ok(m) => Some(Inst { m, r: cur[k].r.clone(), history: cur[k].history.clone(), cloned: true }),
                        Err(_) => None,
                    }
                });
                let [a, b] = c;
                match (a, b) {
                    (Some(a), Some(b)) => {
                        // the original must stay as it is, too
                        cur[0].cloned = true;
                        cur[1].cloned = true;
                        other = Some([a, b]);
                    }
                    _ => {
                        fails.push(Fail::new("C08", "cloning a matcher panicked".into()));
                        return fails;
                    }
                }
            }
            'x' => {
                if let Some(o) = other.take() {
                    other = Some(std::mem::replace(&mut cur, o));
                }
            }
            _ => {}
        }
    }
    fails
}

/// characters a change might treat in a special way
pub fn special(rng: &mut Rng) -> char {
    const S: [char; 26] = [
        '\n', '\r', '\t', ' ', '\u{0}', '\u{7f}', '\u{a0}', '\u{feff}', '\u{301}', 'ß', 'İ', 'ﬁ', '0', '9', 'z', 'A', '_', '-', '.', ':', '%', '{', '}', '\\', '"', '/',
    ];
    if rng.chance(1, 4) {
        (rng.below(0x80) as u8) as char
    } else {
        *rng.pick(&S)
    }
}

pub fn chars(rng: &mut Rng) -> Vec<char> {
    if let Some(w) = rng.word(1, 3) {
        let mut v: Vec<char> = w.chars().collect();
        v.extend(['a', '1']);
        if rng.chance(1, 2) {
            v.extend(chars(rng));
        }
        return v;
    }
    match rng.below(11) {
        9 => ('a'..='z').chain('A'..='Z').collect(),
        10 => ('0'..='9').chain('a'..='h').chain("éèß€ .:-".chars()).collect(),
        6 => (0..2 + rng.below(4)).map(|_| special(rng)).collect(),
        7 => vec!['a', 'A', '1', '\n', ' '],
        8 => vec!['a', 'b', 'c', 'd', 'e', 'f', 'g', 'x', '7'],
        0 => vec!['a', 'b'],
        1 => vec!['a', 'b', 'c', '1'],
        2 => vec!['é', 'è', 'a', '1'],
        3 => vec!['a', '€', '₭', '\u{1F600}', '\u{1F601}', '2'],
        4 => vec!['a', 'b', ' ', ':', '0', '9', '\u{0661}'],
        _ => vec!['a', '\u{300}', 'é', 'ê', '\u{0}', '\u{7f}', '\u{80}', '\u{10FFFF}', '3'],
    }
}

pub fn text(rng: &mut Rng, al: &[char], max: usize) -> String {
    let few = if rng.chance(1, 40) { max * 6 } else { max };
    let n = rng.size(few + 1, if max >= 3 { 700 } else { 90 });
    let mut s: String = (0..n).map(|_| *rng.pick(al)).collect();
    if let Some(w) = rng.word(1, 8) {
        match rng.below(3) {
            0 => s.push_str(&w),
            1 => s.insert_str(0, &w),
            _ => s = w,
        }
    }
    s
}

pub fn gen_parser(rng: &mut Rng, al: &[char]) -> PSpec {
    let name = match rng.below(4) {
        0 if rng.chance(1, 12) => Some(rng.pick(&["", "é", "N", "n ", "a.b", "MESSAGE", "k1", "k5", "k9", "name1", "tag1", "x"]).to_string()),
        0 => rng.word(1, 2),
        1 => Some("n".to_owned()),
        2 => Some("m".to_owned()),
        _ => Some(format!("p{}", rng.below(3))),
    };
    let lim = |rng: &mut Rng| if rng.chance(1, 4) { Some(if rng.chance(1, 10) { rng.below(20) } else { rng.size(4, 300) }) } else { None };
    match rng.below(7) {
        0 | 1 => PSpec::Int { min: lim(rng), max: lim(rng), name },
        2 | 3 | 4 => {
            let mut set = BTreeSet::new();
            let n = 1 + rng.size(3, 300);
            for _ in 0..n {
                set.insert(*rng.pick(al));
            }
            if rng.chance(1, 15) {
                set = "0123456789".chars().collect();
            }
            // more characters than the alphabet has
            let mut c = rng.below(3) * 0x61;
            while set.len() < n && n > 5 && c < 0x800 {
                set.extend(char::from_u32(c as u32).filter(|x| !"\n\r".contains(*x)));
                c += 1;
            }
            PSpec::Set { set, min: lim(rng), max: lim(rng), name }
        }
        5 => PSpec::Greedy { end: None, name },
        _ => PSpec::Greedy { end: Some(text(rng, al, 2)), name },
    }
}

pub fn gen_tokens(rng: &mut Rng, al: &[char], raw: bool) -> Vec<TSpec> {
    let limit = if rng.chance(1, 40) { 14 } else if rng.chance(1, 6) { 6 } else { 3 };
    let n = 1 + rng.size(limit, 60);
    let mut ts: Vec<TSpec> = Vec::new();
    for _ in 0..n {
        let after_lit = matches!(ts.last(), Some(TSpec::Lit(_)));
        let lit = rng.chance(3, 5);
        if lit && (raw || !after_lit) {
            let m = if rng.chance(1, 8) { 9 } else { 4 };
            let s = text(rng, al, m);
            if raw || !s.is_empty() {
                ts.push(TSpec::Lit(s));
            }
        } else {
            ts.push(TSpec::Par(gen_parser(rng, al)));
        }
    }
    if ts.is_empty() && !raw {
        ts.push(TSpec::Lit("a".into()));
    }
    if !raw && rng.chance(1, 2) {
        // as the grammar does it: the end string of GREEDY is the literal which follows
        for i in 0..ts.len() {
            let next = match ts.get(i + 1) {
                Some(TSpec::Lit(s)) => Some(s.clone()),
                _ => None,
            };
            if let TSpec::Par(PSpec::Greedy { end, .. }) = &mut ts[i] {
                *end = next;
            }
        }
    }
    ts
}

/// a variation of an earlier pattern, so that edges are shared and split
fn vary(rng: &mut Rng, al: &[char], base: &[TSpec], raw: bool) -> Vec<TSpec> {
    let mut ts = base.to_vec();
    let k = rng.below(ts.len().max(1));
    if let (true, Some(TSpec::Par(p))) = (rng.chance(1, 12), ts.get_mut(k)) {
        // another kind of parser which differs in nothing else
        *p = match p.clone() {
            PSpec::Int { min, max, name } => PSpec::Set { set: "0123456789".chars().collect(), min, max, name },
            PSpec::Set { min, max, name, .. } => PSpec::Int { min, max, name },
            PSpec::Greedy { name, .. } => PSpec::Greedy { end: None, name },
        };
    }
    match rng.below(6) {
        0 => {
            ts.truncate(k + 1);
        }
        1 => {
            if let Some(TSpec::Lit(s)) = ts.get_mut(k) {
                let mut c: Vec<char> = s.chars().collect();
                let at = rng.below(c.len() + 1);
                c.truncate(at);
                c.extend(text(rng, al, 3).chars());
                *s = c.into_iter().collect();
            }
            if rng.chance(1, 2) {
                ts.truncate(k + 1);
            }
        }
        2 => {
            if k < ts.len() {
                ts[k] = TSpec::Par(gen_parser(rng, al));
            }
        }
        3 => {
            ts.push(TSpec::Par(gen_parser(rng, al)));
        }
        4 => {
            ts.truncate(k + 1);
            ts.extend(gen_tokens(rng, al, raw));
        }
        _ => {
            if let Some(TSpec::Par(p)) = ts.get_mut(k) {
                match p {
                    PSpec::Set { min, max, .. } | PSpec::Int { min, max, .. } => {
                        if rng.chance(1, 2) {
                            *min = Some(rng.below(4))
                        } else {
                            *max = Some(rng.below(4))
                        }
                    }
                    PSpec::Greedy { end, .. } => *end = Some(text(rng, al, 2)),
                }
            }
        }
    }
    if !raw {
        let mut out: Vec<TSpec> = Vec::new();
        for t in ts {
            match (out.last_mut(), t) {
                (_, TSpec::Lit(ref s)) if s.is_empty() => {}
                (Some(TSpec::Lit(a)), TSpec::Lit(b)) => a.push_str(&b),
                (_, t) => out.push(t),
            }
        }
        if out.is_empty() {
            out.push(TSpec::Lit("a".into()));
        }
        return out;
    }
    ts
}

fn instantiate(rng: &mut Rng, al: &[char], ts: &[TSpec]) -> String {
    let mut s = String::new();
    for t in ts {
        match t {
            TSpec::Lit(l) => s.push_str(l),
            TSpec::Par(PSpec::Set { set, min, .. }) => {
                let v: Vec<char> = set.iter().cloned().collect();
                if !v.is_empty() {
                    for _ in 0..min.unwrap_or(0).max(1).min(3000) + rng.size(2, 3000) {
                        s.push(*rng.pick(&v));
                    }
                }
            }
            TSpec::Par(PSpec::Int { min, .. }) => {
                for _ in 0..min.unwrap_or(0).max(1).min(3000) + rng.size(2, 3000) {
                    s.push(*rng.pick(&['0', '1', '5', '9']));
                }
            }
            TSpec::Par(PSpec::Greedy { .. }) => s.push_str(&text(rng, al, 3)),
        }
    }
    s
}

/// one node with a great many children
fn gen_many(rng: &mut Rng, n: usize) -> Vec<String> {
    let mut out = vec![];
    let pre: Vec<TSpec> = if rng.chance(1, 2) { vec![] } else { vec![TSpec::Lit("ab".into())] };
    let lits = rng.chance(1, 3);
    let ch = |i: usize| char::from_u32(0x4e00 + i as u32).unwrap();
    let tok = |i: usize| if lits { TSpec::Lit(format!("{}x", ch(i))) } else { TSpec::Par(PSpec::Set { set: Some(ch(i)).into_iter().collect(), min: None, max: None, name: Some(format!("q{}", i)) }) };
    let head: String = if pre.is_empty() { "".into() } else { "ab".into() };
    let txt = |i: usize| if lits { format!("{}{}x", head, ch(i)) } else { format!("{}{}{}", head, ch(i), ch(i)) };
    for i in 0..n {
        out.push("+".into());
        out.extend(pre.iter().chain(Some(&tok(i))).map(show_token));
    }
    for _ in 0..6 {
        let i = if rng.chance(1, 2) { rng.below(n.max(1)) } else { n.max(1) - 1 - rng.below(n.min(4).max(1)) };
        out.push("+".into());
        out.extend(pre.iter().chain(Some(&tok(i))).chain(Some(&TSpec::Lit("-".into()))).map(show_token));
        out.push(format!("?{}-", txt(i)));
        out.push(format!("?{}", txt(i)));
    }
    for i in (0..n).step_by(n / 40 + 1) {
        out.push(format!("?{}", txt(i)));
    }
    out
}

/// Different parsers with the same identity (hash_os), looked for among very many parsers: whatever was added
/// below the one is then found below the other. A case is made from the first such pair.
fn gen_collision(rng: &mut Rng, way: usize) -> Option<Vec<String>> {
    let mut specs: Vec<PSpec> = vec![];
    let n = 200_000;
    match way {
        0 => specs.extend((0x21..).filter_map(char::from_u32).take(n).map(|c| PSpec::Set { set: Some(c).into_iter().collect(), min: None, max: None, name: None })),
        1 => specs.extend((0..n).map(|i| PSpec::Greedy { end: Some(format!("{:x}", i)), name: None })),
        2 => specs.extend((1..450).flat_map(|a| (a..a + 445).map(move |b| PSpec::Int { min: Some(a), max: Some(b), name: None }))),
        3 => specs.extend((0..n).map(|i| PSpec::Int { min: None, max: None, name: Some(format!("n{}", i)) })),
        4 => specs.extend((0..n).map(|i| PSpec::Set { set: "ab".chars().collect(), min: Some(1), max: None, name: Some(format!("n{}", i)) })),
        5 => specs.extend((0..n).map(|i| PSpec::Greedy { end: None, name: Some(format!("n{}", i)) })),
        _ => {
            // every combination of a few values in every field
            let opt = |v: &[&str]| -> Vec<Option<String>> { v.iter().map(|x| Some(x.to_string())).chain(Some(None)).collect() };
            let names = opt(&["", "a", "b", "ab", "aa", "1", "A", "a ", "\u{0}", "\u{ff}", "0123456789", "parser:int", "parser:set"]);
            let lims = [None, Some(0), Some(1), Some(2), Some(3), Some(97), Some(256), Some(257), Some(usize::max_value())];
            for name in &names {
                for end in opt(&["", "a", "b", "ab", "ba", "aa", "aab", "1", "A", "a ", "\u{0}", "\u{ff}"]) {
                    specs.push(PSpec::Greedy { end, name: name.clone() });
                }
                for min in lims {
                    for max in lims {
                        specs.push(PSpec::Int { min, max, name: name.clone() });
                        for set in ["", "a", "b", "ab", "1", "12", "0123456789", "abcdefghi", "\u{0}", "\u{161}", "\u{1}a"] {
                            specs.push(PSpec::Set { set: set.chars().collect(), min, max, name: name.clone() });
                        }
                    }
                }
            }
        }
    }
    let mut seen: std::collections::HashMap<u64, Vec<usize>> = std::collections::HashMap::new();
    let mut pairs = vec![];
    for (i, p) in specs.iter().enumerate() {
        if let Ok(h) = guard(|| build_parser(p).hash_os()) {
            let l = seen.entry(h).or_default();
            pairs.extend(l.iter().take(3).map(|j| (*j, i)));
            l.push(i);
        }
        if pairs.len() > 400 {
            break;
        }
    }
    if pairs.is_empty() {
        return None;
    }
    let mut out = vec![];
    let (i, j) = *rng.pick(&pairs);
    let (i, j) = if rng.chance(1, 2) { (i, j) } else { (j, i) };
    let mut texts = vec![];
    for (k, mark) in [(i, "x"), (j, "y")] {
        let p = specs[k].clone();
        let mut ts = vec![TSpec::Par(p.clone())];
        let mut end = "".to_owned();
        if let PSpec::Greedy { end: Some(e), .. } = &p {
            end = e.clone();
        }
        end.push_str(mark);
        ts.push(TSpec::Lit(end.clone()));
        out.push("+".into());
        out.extend(ts.iter().map(show_token));
        out.push("+".into());
        out.push(show_token(&ts[0]));
        for _ in 0..8 {
            texts.push(instantiate(rng, &['a', '1', 'b'], &ts));
        }
        if let PSpec::Int { max: Some(m), .. } | PSpec::Set { max: Some(m), .. } = &p {
            if *m < 3000 {
                let c = match &p {
                    PSpec::Set { set, .. } => set.iter().next().cloned().unwrap_or('a'),
                    _ => '7',
                };
                texts.push(c.to_string().repeat(*m) + &end);
                texts.push(c.to_string().repeat(*m));
            }
        }
    }
    out.extend(texts.iter().map(|t| format!("?{}", t)));
    let short: Vec<String> = texts.iter().map(|t| format!("?{}", &t[..t.len() - t.chars().last().map_or(0, |c| c.len_utf8())])).collect();
    out.extend(short);
    Some(out)
}

pub fn gen(rng: &mut Rng) -> Vec<String> {
    static HUNTS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    // the last hunt has many pairs to choose from if it finds any
    let h = HUNTS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if h < 16 || rng.chance(1, 4000) {
        if let Some(c) = gen_collision(rng, if h < 16 { h } else { 6 }) {
            return c;
        }
    }
    if rng.chance(1, 20) {
        if let Some(n) = rng.dict_int().filter(|n| *n > 20 && *n <= 700) {
            let n = n + rng.below(4);
            return gen_many(rng, n);
        }
    }
    if rng.chance(1, 2500) {
        let k = rng.below(4);
        let n = 20 + rng.below(60 << k);
        return gen_many(rng, n);
    }
    let al = chars(rng);
    let raw = rng.chance(1, 6);
    let mut out = Vec::new();
    let mut pats: Vec<Vec<TSpec>> = Vec::new();
    let limit = if rng.chance(1, 40) { 40 } else if rng.chance(1, 5) { 12 } else { 5 };
    let n = 1 + rng.size(limit, 90);
    let clones = rng.chance(1, 3);
    let mut queries = |rng: &mut Rng, out: &mut Vec<String>, pats: &Vec<Vec<TSpec>>, n: usize| {
        for _ in 0..n {
            let mut t = if pats.is_empty() || rng.chance(1, 8) {
                text(rng, &al, 5)
            } else {
                let p = rng.pick(pats).clone();
                instantiate(rng, &al, &p)
            };
            if rng.chance(1, 4) {
                let mut c: Vec<char> = t.chars().collect();
                let odd = if rng.chance(1, 2) { special(rng) } else { *rng.pick(&al) };
                match rng.below(5) {
                    4 => c.insert(0, odd),
                    0 => c.push(odd),
                    1 => {
                        let k = rng.below(c.len() + 1);
                        c.truncate(k)
                    }
                    2 => {
                        if !c.is_empty() {
                            let k = rng.below(c.len());
                            c[k] = odd;
                        }
                    }
                    _ => {
                        let k = rng.below(c.len() + 1);
                        c.insert(k, odd);
                    }
                }
                t = c.into_iter().collect();
            }
            out.push(format!("?{}", t));
        }
    };
    // a few messages matched again and again
    let fixed = if rng.chance(1, 4) { 1 + rng.below(3) } else { 0 };
    let mut again: Vec<String> = vec![];
    for _ in 0..n {
        if again.len() < fixed && !pats.is_empty() {
            let b = rng.pick(&pats).clone();
            let p = vary(rng, &al, &b, raw);
            let t = instantiate(rng, &al, &p);
            again.push(format!("?{}", t));
            let base = p;
            if rng.chance(1, 2) {
                out.push(again[again.len() - 1].clone());
                out.push("+".to_owned());
                out.extend(base.iter().map(show_token));
                pats.push(base);
            }
        }
        out.extend(again.iter().cloned());
        let ts = if !pats.is_empty() && rng.chance(3, 5) {
            let b = rng.pick(&pats).clone();
            vary(rng, &al, &b, raw)
        } else if !pats.is_empty() && rng.chance(1, 10) {
            rng.pick(&pats).clone()
        } else {
            gen_tokens(rng, &al, raw)
        };
        let mut op = if clones && rng.chance(1, 3) { "+c".to_owned() } else { "+".to_owned() };
        if !pats.is_empty() && rng.chance(1, if pats.contains(&ts) { 3 } else { 30 }) {
            // the uuid of an earlier pattern, perhaps of the one it replaces
            let same = pats.iter().position(|p| *p == ts).filter(|_| rng.chance(3, 4));
            op.push_str(&format!("u{}", same.unwrap_or_else(|| rng.below(pats.len()))));
        }
        out.push(op);
        out.extend(ts.iter().map(show_token));
        pats.push(ts);
        if clones && rng.chance(1, 3) {
            out.push("c".into());
        }
        if clones && rng.chance(1, 3) {
            out.push("x".into());
        }
        if rng.chance(1, 4) {
            queries(rng, &mut out, &pats, 1);
        }
    }
    out.extend(again.iter().cloned());
    let nq = 4 + rng.below(8);
    let from = out.len();
    queries(rng, &mut out, &pats, nq);
    if rng.chance(1, 4) {
        let mut l = out[from..].to_vec();
        l.reverse();
        out.extend(l);
    }
    out
}
