//! single-call kinds: parsers (C05, C06), grammar (C07), sorted vector (C13), common prefix (C14), clones (C12)
use crate::matcher_kind::{build_parser, chars, gen_parser, gen_tokens, parse_token, show_token, text};
use crate::oracle::*;
use crate::rng::Rng;
use crate::{guard, Fail};
use actiondb::grammar::parser as gp;
use actiondb::matcher::compiled_pattern::TokenType;
use actiondb::parsers::*;
use actiondb::utils::{CommonPrefix, SortedVec};
use std::cmp::Ordering;

// ------------------------------------------------------------------ parsers

fn prop_of(p: &PSpec) -> &'static str {
    match p {
        PSpec::Greedy { .. } => "C06",
        _ => "C05",
    }
}

fn check_parse(p: &dyn Parser, spec: &PSpec, t: &str, prop: &'static str, fails: &mut Vec<Fail>) {
    let want = spec.yields(t);
    match guard(|| p.parse(t).map(|r| (r.value().to_owned(), r.parser().name().map(|x| x.to_owned())))) {
        Err(e) => {
            let what = format!("{:?} on {:?} panicked: {}", spec, t, e);
            fails.push(Fail::new("C08", what.clone()));
            fails.push(Fail::new(prop, what));
        }
        Ok(got) => {
            if got.as_ref().map(|x| &x.0[..]) != want {
                fails.push(Fail::new(prop, format!("{:?} on {:?} yields {:?} instead of {:?}", spec, t, got, want)));
            } else if let Some((_, n)) = got {
                if n.as_deref() != spec.name() {
                    fails.push(Fail::new("C02", format!("{:?} reports its value under the name {:?}", spec, n)));
                }
            }
        }
    }
}

/// a parser line followed by text lines
pub fn run_parser(case: &[String], hits: &mut u64) -> Vec<Fail> {
    let mut fails = Vec::new();
    let mut cur: Option<(PSpec, Box<dyn Parser>)> = None;
    for line in case {
        if let Some(t) = line.strip_prefix('?') {
            if let Some((spec, p)) = &cur {
                if spec.yields(t).is_some() {
                    *hits += 1;
                }
                check_parse(&**p, spec, t, prop_of(spec), &mut fails);
                // a clone is the same parser, and renaming it leaves the original alone
                let r = guard(|| {
                    let mut c = p.boxed_clone();
                    let h = (p.hash_os(), c.hash_os(), c.name().map(|x| x.to_owned()));
                    let a = c.parse(t).map(|x| x.value().to_owned());
                    let b = p.parse(t).map(|x| x.value().to_owned());
                    c.set_name(Some("renamed".to_owned()));
                    (h, a, b, p.name().map(|x| x.to_owned()), c.name().map(|x| x.to_owned()))
                });
                if let Ok((h, a, b, n, cn)) = r {
                    if h.0 != h.1 || h.2.as_deref() != spec.name() || a != b || n.as_deref() != spec.name() || cn.as_deref() != Some("renamed") {
                        fails.push(Fail::new("C12", format!("{:?} on {:?}: clone differs: {:?}", spec, t, (h, a, b, n, cn))));
                    }
                }
            }
        } else if let Some(TSpec::Par(p)) = parse_token(line) {
            // the same parser made in the other ways the library offers
            if let PSpec::Set { set, min, max, name } = &p {
                let s: String = set.iter().collect();
                let mut q = match name {
                    Some(n) => SetParser::from_str(n, "zq"),
                    None => SetParser::new("zq"),
                };
                q.set_character_set(&s);
                q.set_max_length(*max);
                q.set_min_length(*min);
                if q.min_length() != *min || q.max_length() != *max {
                    fails.push(Fail::new("C05", format!("{:?}: limits are {:?} {:?}", p, q.min_length(), q.max_length())));
                }
                if guard(|| q.hash_os()).ok() != guard(|| build_parser(&p).hash_os()).ok() {
                    fails.push(Fail::new("C03", format!("{:?}: equal parsers have different identities", p)));
                }
                cur = Some((p.clone(), if case.len() % 2 == 0 { Box::new(q) } else { build_parser(&p) }));
            } else if let PSpec::Greedy { end: Some(e), name: Some(n) } = &p {
                cur = Some((p.clone(), if case.len() % 2 == 0 { Box::new(GreedyParser::from_str(n, e)) } else { build_parser(&p) }));
            } else {
                cur = Some((p.clone(), build_parser(&p)));
            }
        }
    }
    fails
}

fn wide(rng: &mut Rng) -> Vec<char> {
    let mut al = chars(rng);
    if rng.chance(1, 3) {
        for _ in 0..4 {
            // arbitrary scalar values, weighted to the encoding-length boundaries
            let c = match rng.below(5) {
                0 => rng.below(0x100),
                1 => 0x7f0 + rng.below(0x20),
                2 => 0x660 + rng.below(10),
                3 => 0xfff0 + rng.below(0x20),
                _ => rng.below(0x110000),
            };
            if let Some(c) = std::char::from_u32(c as u32) {
                al.push(c);
            }
        }
    }
    al
}

pub fn gen_parser_case(rng: &mut Rng) -> Vec<String> {
    let al = wide(rng);
    let mut p = gen_parser(rng, &al);
    if let PSpec::Set { min, max, .. } | PSpec::Int { min, max, .. } = &mut p {
        if rng.chance(1, 12) {
            *min = Some(rng.dict_int().unwrap_or(*rng.pick(&[usize::MAX, 255, 256, 257, 65536, 0])));
        }
        if rng.chance(1, 12) {
            *max = Some(rng.dict_int().unwrap_or(*rng.pick(&[usize::MAX, 255, 256, 257, 65536, 0])));
        }
    }
    let is_int = matches!(p, PSpec::Int { .. });
    let greedy = matches!(p, PSpec::Greedy { .. });
    let favour: Vec<char> = match &p {
        PSpec::Set { set, .. } => set.iter().cloned().collect(),
        PSpec::Int { .. } => "0123456789".chars().collect(),
        PSpec::Greedy { end, .. } => end.as_ref().map_or(vec![], |e| e.chars().collect()),
    };
    let end = match &p {
        PSpec::Greedy { end, .. } => end.clone(),
        _ => None,
    };
    let mut out = vec![show_token(&TSpec::Par(p))];
    for _ in 0..4 {
        let n = if rng.chance(1, 60) { 250 + rng.below(20) } else if rng.chance(1, 10) { rng.below(30) } else { rng.size(9, 100_000) };
        // long texts are mostly made of what the parser takes
        let stop = match rng.below(3) {
            0 => n,
            1 => rng.below(n + 1),
            _ => n.max(1) - 1,
        };
        let t: String = (0..n)
            .map(|i| {
                if n > 30 && i < stop && !greedy && !favour.is_empty() || (!favour.is_empty() && rng.chance(2, 3)) {
                    *rng.pick(&favour)
                } else if is_int && rng.chance(1, 2) {
                    *rng.pick(&['/', ':', '٣', '０', '-', 'a', '²'])
                } else if rng.chance(1, 12) {
                    crate::matcher_kind::special(rng)
                } else {
                    *rng.pick(&al)
                }
            })
            .collect();
        let mut t: String = t;
        if let Some(w) = rng.word(1, 6) {
            let k = rng.below(t.chars().count() + 1);
            let k = t.char_indices().nth(k).map_or(t.len(), |x| x.0);
            t.insert_str(k, &w);
        }
        if let (true, Some(e)) = (rng.chance(1, 2), &end) {
            t.push_str(e);
            t.push_str(&text(rng, &al, 3));
        }
        if rng.chance(1, 20) {
            t = if rng.chance(1, 2) { t.to_uppercase() } else { t.to_lowercase() };
        }
        out.push(format!("?{}", t));
    }
    out
}

// ------------------------------------------------------------------ grammar

#[derive(Debug, Clone)]
struct Rec(PSpec);
impl ObjectSafeHash for Rec {
    fn hash_os(&self) -> u64 {
        0
    }
}
impl Parser for Rec {
    fn parse<'a, 'b>(&'a self, _: &'b str) -> Option<ParseResult<'a, 'b>> {
        None
    }
    fn name(&self) -> Option<&str> {
        None
    }
    fn set_name(&mut self, _: Option<String>) {}
    fn boxed_clone(&self) -> Box<dyn Parser> {
        Box::new(self.clone())
    }
}

struct RecFactory;
fn opt(ps: Option<Vec<OptionalParameter>>) -> (Option<usize>, Option<usize>) {
    let (mut min, mut max) = (None, None);
    for p in ps.into_iter().flatten() {
        match p {
            OptionalParameter::Int("min_len", v) => min = Some(v),
            OptionalParameter::Int("max_len", v) => max = Some(v),
            OptionalParameter::Int(_, _) => {}
        }
    }
    (min, max)
}
impl ParserFactory for RecFactory {
    fn new_set<'a>(set: &str, name: Option<&str>, o: Option<Vec<OptionalParameter<'a>>>) -> Box<dyn Parser> {
        let (min, max) = opt(o);
        Box::new(Rec(PSpec::Set { set: set.chars().collect(), min, max, name: name.map(|x| x.to_owned()) }))
    }
    fn new_int(name: Option<&str>, o: Option<Vec<OptionalParameter>>) -> Box<dyn Parser> {
        let (min, max) = opt(o);
        Box::new(Rec(PSpec::Int { min, max, name: name.map(|x| x.to_owned()) }))
    }
    fn new_greedy(name: Option<&str>, end: Option<&str>) -> Box<dyn Parser> {
        Box::new(Rec(PSpec::Greedy { end: end.map(|x| x.to_owned()), name: name.map(|x| x.to_owned()) }))
    }
}

/// what a compiled token is, by its observable behaviour
pub fn token_is(tok: &TokenType, want: &TSpec, probes: &[String], prop: &'static str) -> Result<(), String> {
    match (tok, want) {
        (TokenType::Literal(a), TSpec::Lit(b)) => {
            if a == b { Ok(()) } else { Err(format!("literal {:?} instead of {:?}", a, b)) }
        }
        (TokenType::Parser(p), TSpec::Par(spec)) => {
            if p.name() != spec.name() {
                return Err(format!("parser name {:?} instead of {:?}", p.name(), spec.name()));
            }
            let same = build_parser(spec);
            if p.hash_os() != same.hash_os() {
                return Err(format!("parser {:?} is not {:?}", p, spec));
            }
            let mut fails = vec![];
            for t in probes {
                let got = guard(|| p.parse(t).map(|r| r.value().to_owned()));
                let also = guard(|| same.parse(t).map(|r| r.value().to_owned()));
                if got != also && got != Ok(spec.yields(t).map(|x| x.to_owned())) {
                    fails.push(format!("parser {:?} on {:?} yields {:?}", spec, t, got));
                }
            }
            let _ = prop;
            match fails.pop() {
                Some(f) => Err(f),
                None => Ok(()),
            }
        }
        (a, b) => Err(format!("token {:?} instead of {:?}", a, b)),
    }
}

pub fn probes(ts: &[TSpec]) -> Vec<String> {
    let mut out = vec!["".to_owned(), "0".into(), "12345678901234567890".into(), "a".into(), "abcabc".into()];
    for t in ts {
        match t {
            TSpec::Lit(l) => out.push(l.clone()),
            TSpec::Par(PSpec::Set { set, .. }) => {
                let s: String = set.iter().collect();
                for n in 0..5 {
                    out.push(s.chars().cycle().take(n).collect());
                }
                out.push(format!("{}{}", s, "\u{1}"));
            }
            TSpec::Par(PSpec::Greedy { end: Some(e), .. }) => {
                out.push(format!("x{}y{}", e, e));
                out.push(format!("x{}", &e[..e.char_indices().last().map_or(0, |x| x.0)]));
            }
            _ => {
                for n in 1..5 {
                    out.push("1".repeat(n));
                }
            }
        }
    }
    out
}

pub fn run_grammar(case: &[String], hits: &mut u64) -> Vec<Fail> {
    let mut fails = Vec::new();
    for line in case {
        let src = match line.strip_prefix('p') {
            Some(s) => s,
            None => continue,
        };
        let want = compile(src);
        if want.is_some() {
            *hits += 1;
        }
        let got = match guard(|| gp::pattern(src)) {
            Ok(g) => g.ok(),
            Err(e) => {
                fails.push(Fail::new("C08", format!("compiling {:?} panicked: {}", src, e)));
                fails.push(Fail::new("C07", format!("compiling {:?} panicked: {}", src, e)));
                continue;
            }
        };
        match (&got, &want) {
            (None, None) => {}
            (None, Some(w)) => fails.push(Fail::new("C07", format!("{:?} is rejected, it stands for {:?}", src, w))),
            (Some(g), None) => fails.push(Fail::new("C07", format!("{:?} is accepted as {:?}", src, g))),
            (Some(g), Some(w)) => {
                if g.len() != w.len() {
                    fails.push(Fail::new("C07", format!("{:?} compiles to {:?} instead of {:?}", src, g, w)));
                } else {
                    let pr = probes(w);
                    for (a, b) in g.iter().zip(w) {
                        if let Err(e) = token_is(a, b, &pr, "C07") {
                            fails.push(Fail::new("C07", format!("{:?}: {}", src, e)));
                        }
                    }
                }
            }
        }
        let rec = match guard(|| gp::pattern_with_factory::<RecFactory>(src)) {
            Ok(r) => r.ok(),
            Err(_) => continue,
        };
        let rec: Option<Vec<String>> = rec.map(|ts| {
            ts.iter()
                .map(|t| match t {
                    TokenType::Literal(s) => format!("{:?}", TSpec::Lit(s.clone())),
                    TokenType::Parser(p) => format!("Par({})", format!("{:?}", p).trim_start_matches("Rec(").trim_end_matches(')')),
                })
                .collect()
        });
        let wrec: Option<Vec<String>> = want.as_ref().map(|ts| {
            ts.iter()
                .map(|t| match t {
                    TSpec::Lit(s) => format!("{:?}", TSpec::Lit(s.clone())),
                    TSpec::Par(p) => format!("Par({})", format!("{:?}", Rec(p.clone())).trim_start_matches("Rec(").trim_end_matches(')')),
                })
                .collect()
        });
        if rec != wrec && fails.is_empty() {
            fails.push(Fail::new("C07", format!("{:?}: parsers requested: {:?} instead of {:?}", src, rec, wrec)));
        }
    }
    fails
}

fn more(rng: &mut Rng, many: usize, few: usize) -> usize {
    let n = if rng.chance(1, 20) { many } else { few };
    rng.size(n, 300)
}

fn name(rng: &mut Rng) -> String {
    let pool: Vec<char> = "abzAZ09_.-@{ \u{e9}".chars().collect();
    let good: Vec<char> = "abzAZ_.09".chars().collect();
    if let Some(w) = rng.word(1, 6) {
        return w;
    }
    let n = 1 + more(rng, 40, 5);
    (0..n).map(|_| if rng.chance(1, 30) { crate::matcher_kind::special(rng) } else if rng.chance(1, 10) { *rng.pick(&pool) } else { *rng.pick(&good) }).collect()
}

fn params(rng: &mut Rng) -> String {
    let mut out = String::new();
    for i in 0..more(rng, 9, 4) {
        if i > 0 {
            out.push_str(if rng.chance(1, 8) { " ," } else { *rng.pick(&[",", ", ", ",   "]) });
        }
        out.push_str(if rng.chance(1, 15) { "min-len" } else { *rng.pick(&["min_len", "max_len"]) });
        out.push_str(if rng.chance(1, 20) { " = " } else { "=" });
        let n = *rng.pick(&["0", "1", "3", "10", "007", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "", "-1", "x", "9"]);
        match rng.dict_int() {
            Some(k) => out.push_str(&k.to_string()),
            None if rng.chance(1, 12) => {
                for _ in 0..1 + rng.size(12, 200) {
                    out.push(*rng.pick(&['0', '1', '7', '9']));
                }
            }
            None => out.push_str(n),
        }
    }
    out
}

pub fn gen_pattern_text(rng: &mut Rng) -> String {
    let lits = ["foo", " ", "é", "\u{1F600}", "%", "{", "}", "\\%\\{", "\\", "\\%", "a:b", "(", ")", "\"", "%%", "x\\%\\{y", "\n", "%\\{", "\\%{", "\\%\\%\\{\\{", ":n", ","];
    let mut s = String::new();
    for _ in 0..1 + more(rng, 15, 5) {
        match rng.below(8) {
            0 if rng.chance(1, 3) => {
                for _ in 0..1 + rng.below(8) {
                    s.push(crate::matcher_kind::special(rng));
                }
            }
            0 | 1 | 2 => {
                for _ in 0..1 + rng.size(3, 300) {
                    s.push_str(&rng.pick_str(&lits));
                }
            }
            3 => {
                s.push_str("%{INT");
                if rng.chance(1, 2) {
                    s.push('(');
                    s.push_str(&params(rng));
                    s.push(')');
                }
                if rng.chance(1, 2) {
                    s.push(':');
                    s.push_str(&name(rng));
                }
                s.push('}');
            }
            4 | 5 => {
                s.push_str("%{SET(\"");
                let al: Vec<char> = "abc01\u{e9} }%{\\(),:".chars().collect();
                let n = if rng.chance(1, 10) { 0 } else { 1 + rng.below(4) };
                let n = if rng.chance(1, 20) { n + rng.size(30, 300) } else { n };
                if let Some(w) = rng.word(1, 8) {
                    s.push_str(&w);
                }
                for _ in 0..n {
                    s.push(if rng.chance(1, 12) { crate::matcher_kind::special(rng) } else { *rng.pick(&al) });
                }
                s.push('"');
                if rng.chance(1, 2) {
                    s.push_str(*rng.pick(&[",", ", ", ",  "]));
                    s.push_str(&params(rng));
                }
                s.push(')');
                if rng.chance(1, 2) {
                    s.push(':');
                    s.push_str(&name(rng));
                }
                s.push('}');
            }
            _ => {
                s.push_str("%{GREEDY");
                if rng.chance(1, 2) {
                    s.push(':');
                    s.push_str(&name(rng));
                }
                s.push('}');
            }
        }
    }
    if rng.chance(1, 4) {
        // damage it
        let mut c: Vec<char> = s.chars().collect();
        for _ in 0..1 + rng.below(2) {
            let k = rng.below(c.len().max(1));
            match rng.below(3) {
                0 if !c.is_empty() => {
                    c.remove(k);
                }
                1 => c.insert(k.min(c.len()), *rng.pick(&['%', '{', '}', ':', '"', '(', ')', ',', '-', '9', ' ', 'I', '\u{e9}'])),
                _ => c.truncate(k),
            }
        }
        s = c.into_iter().collect();
    }
    s
}

pub fn gen_grammar(rng: &mut Rng) -> Vec<String> {
    vec![format!("p{}", gen_pattern_text(rng))]
}

// ------------------------------------------------------------------ sorted vector

#[derive(Debug, Clone, Copy)]
struct El(u8, u8);
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        self.0 == o.0
    }
}
impl Eq for El {}
impl PartialOrd for El {
    fn partial_cmp(&self, o: &El) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for El {
    fn cmp(&self, o: &El) -> Ordering {
        self.0.cmp(&o.0)
    }
}

pub fn run_sorted(case: &[String], hits: &mut u64) -> Vec<Fail> {
    let mut fails = vec![];
    let r = guard(|| {
        let mut v: SortedVec<El> = SortedVec::new();
        let mut model: Vec<El> = vec![];
        let mut out = vec![];
        let mut tag = 0u8;
        let mut h = 0;
        for line in case {
            let num: usize = line[1..].parse().unwrap_or(0);
            match &line[..1] {
                "u" => {
                    tag = tag.wrapping_add(1);
                    v.push(El(num as u8, tag));
                    model.push(El(num as u8, tag));
                }
                "r" => {
                    if !model.is_empty() {
                        let k = num % model.len();
                        let want = v.get(k).cloned();
                        let got = v.remove(k);
                        if want.map(|x| (x.0, x.1)) != Some((got.0, got.1)) {
                            out.push(format!("remove({}) gave {:?} instead of {:?}", k, got, want));
                        }
                        match model.iter().position(|x| (x.0, x.1) == (got.0, got.1)) {
                            Some(p) => {
                                model.remove(p);
                            }
                            None => out.push(format!("remove({}) gave {:?}, which is not held", k, got)),
                        }
                    }
                }
                "f" => {
                    let probe = El(num as u8, 0);
                    let held = model.iter().any(|x| x.0 == probe.0);
                    h += held as u64;
                    let pos = v.find_pos(&probe);
                    let ok = match pos {
                        Some(p) => held && v.get(p).map_or(false, |x| x.0 == probe.0),
                        None => !held,
                    };
                    if !ok {
                        out.push(format!("find_pos({}) = {:?}, held: {}", probe.0, pos, held));
                    }
                    let got = v.find(&probe);
                    if got.map(|x| x.0) != if held { Some(probe.0) } else { None } {
                        out.push(format!("find({}) = {:?}, held: {}", probe.0, got, held));
                    }
                    let b = v.binary_search_by(|x| x.0.cmp(&probe.0));
                    let ok = match b {
                        Ok(p) => held && v.get(p).map_or(false, |x| x.0 == probe.0),
                        Err(p) => !held && p <= v.len() && (p == 0 || v.get(p - 1).unwrap().0 < probe.0) && (p == v.len() || v.get(p).unwrap().0 > probe.0),
                    };
                    if !ok {
                        out.push(format!("binary_search_by({}) = {:?}, held: {}", probe.0, b, held));
                    }
                }
                _ => {}
            }
            let all: Vec<El> = (0..v.len()).filter_map(|i| v.get(i).cloned()).collect();
            if all.len() != v.len() || v.is_empty() != (v.len() == 0) || v.get(v.len()).is_some() {
                out.push(format!("len() = {}, is_empty() = {}", v.len(), v.is_empty()));
            }
            let all_mut: Vec<El> = (0..v.len()).filter_map(|i| v.get_mut(i).cloned()).collect();
            let key = |v: &Vec<El>| {
                let mut k: Vec<(u8, u8)> = v.iter().map(|x| (x.0, x.1)).collect();
                k.sort();
                k
            };
            if key(&all) != key(&model) || key(&all_mut) != key(&model) {
                out.push(format!("holds {:?} instead of {:?}", all, model));
            }
            if all.windows(2).any(|w| w[0].0 > w[1].0) {
                out.push(format!("not ascending: {:?}", all));
            }
        }
        (out, h)
    });
    match r {
        Ok((out, h)) => {
            *hits += h;
            fails.extend(out.into_iter().map(|o| Fail::new("C13", o)))
        }
        Err(e) => fails.push(Fail::new("C13", format!("panicked: {}", e))),
    }
    fails
}

pub fn gen_sorted(rng: &mut Rng) -> Vec<String> {
    let limit = if rng.chance(1, 3) { 200 } else { 8 };
    let range = 2 + rng.below(limit);
    let limit = if rng.chance(1, 60) { 400 } else if rng.chance(1, 8) { 60 } else { 10 };
    let n = 1 + rng.size(limit, 1500);
    let growing = rng.chance(1, 3);
    let mut out = vec![];
    if rng.chance(1, 25) {
        // fill it up, drain it, and so on
        let mut len = 0usize;
        for _ in 0..1 + rng.below(3) {
            let up = 1 + rng.size(150, 1500);
            out.extend((0..up).map(|_| format!("u{}", rng.below(range))));
            len += up;
            let keep = rng.below(8).min(len);
            while len > keep {
                out.push(format!("r{}", rng.below(len)));
                len -= 1;
            }
            out.extend((0..3).map(|_| format!("f{}", rng.below(range + 1))));
        }
        return out;
    }
    for _ in 0..n {
        match rng.below(5) {
            0 if !growing => out.push(format!("r{}", rng.size(50, 1500))),
            1 => out.push(format!("f{}", rng.below(range + 1))),
            _ => out.push(format!("u{}", rng.below(range))),
        }
    }
    for _ in 0..3 {
        out.push(format!("f{}", rng.below(range + 1)));
    }
    out
}

// ------------------------------------------------------------------ common prefix

pub fn run_prefix(case: &[String], hits: &mut u64) -> Vec<Fail> {
    let mut fails = vec![];
    let ts: Vec<&str> = case.iter().filter_map(|l| l.strip_prefix('?')).collect();
    for w in ts.windows(2) {
        for (a, b) in [(w[0], w[1]), (w[1], w[0])] {
            let want: usize = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).map(|(x, _)| x.len_utf8()).sum();
            *hits += (want > 0) as u64;
            let r = guard(|| (a.common_prefix_len(b), a.has_common_prefix(b)));
            match r {
                Ok((l, h)) => {
                    if l != want {
                        fails.push(Fail::new("C14", format!("common_prefix_len({:?}, {:?}) = {} instead of {}", a, b, l, want)));
                    }
                    if h != if want > 0 { Some(want) } else { None } {
                        fails.push(Fail::new("C14", format!("has_common_prefix({:?}, {:?}) = {:?}", a, b, h)));
                    }
                }
                Err(e) => fails.push(Fail::new("C14", format!("common prefix of {:?} and {:?} panicked: {}", a, b, e))),
            }
            let r = guard(|| (a.ltrunc(want).to_owned(), a.rtrunc(a.len() - want).to_owned()));
            if r != Ok((a[want..].to_owned(), a[..want].to_owned())) {
                fails.push(Fail::new("C14", format!("cutting {:?} at {} gives {:?}", a, want, r)));
            }
        }
    }
    fails
}

pub fn gen_prefix(rng: &mut Rng) -> Vec<String> {
    let al = wide(rng);
    let al = if rng.chance(1, 3) { vec!['é', 'è', 'ê', '\u{c9}', '€', '₭', '\u{20b0}', '\u{1F600}', '\u{1F601}', '\u{1F640}'] } else { al };
    let limit = if rng.chance(1, 10) { 40 } else { 4 };
    let mut common = text(rng, &al, limit);
    if let Some(n) = rng.dict_int().filter(|n| *n > 40 && *n <= 200_000) {
        if rng.chance(1, 4) {
            common.push_str(&"a".repeat(n));
        }
    } else if rng.chance(1, 1000) {
        let n = rng.size(300, 70_000);
        common.push_str(&rng.pick(&["a", "é", "€"]).repeat(n));
    }
    (0..2).map(|_| format!("?{}{}", common, text(rng, &al, 3))).collect()
}

// ------------------------------------------------------------------ clones of tokens (C12)

pub fn run_tokens(case: &[String], hits: &mut u64) -> Vec<Fail> {
    let mut fails = vec![];
    let ts: Vec<TSpec> = case.iter().filter_map(|l| parse_token(l)).collect();
    let pr = probes(&ts);
    let r = guard(|| {
        let toks = crate::matcher_kind::build_tokens(&ts);
        let mut b = actiondb::matcher::compiled_pattern::CompiledPatternBuilder::new();
        for t in &ts {
            match t {
                TSpec::Lit(s) => b.literal(s.clone()),
                TSpec::Par(p) => b.parser(build_parser(p)),
            };
        }
        let c1 = toks.clone();
        let c2 = b.build();
        drop(toks);
        let id = ts.len() % 9;
        let mut p = crate::matcher_kind::build_pattern(id, &ts);
        let q = p.clone();
        p.pop_first_token();
        let q2 = match guard(|| pattern_clone(id, &ts)) {
            Ok(x) => x,
            Err(e) => Some(format!("panicked: {}", e)),
        };
        (c1, c2, q, q2)
    });
    match r {
        Ok((c1, c2, q, q2)) => {
            if let Some(e) = q2 {
                fails.push(Fail::new("C12", format!("pattern clone: {}", e)));
            }
            for (w, c) in [("clone", &c1), ("builder", &c2), ("pattern clone", q.pattern())] {
                *hits += 1;
                if c.len() != ts.len() {
                    fails.push(Fail::new("C12", format!("{} of {:?} has {} tokens", w, ts, c.len())));
                    continue;
                }
                for (a, b) in c.iter().zip(&ts) {
                    match guard(|| token_is(a, b, &pr, "C12")) {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => fails.push(Fail::new("C12", format!("{}: {}", w, e))),
                        Err(e) => fails.push(Fail::new("C12", format!("{}: panicked: {}", w, e))),
                    }
                }
            }
        }
        Err(e) => fails.push(Fail::new("C12", format!("cloning {:?} panicked: {}", ts, e))),
    }
    fails
}

/// everything but the tokens: what a clone of a pattern carries, compared with the pattern it was made from
fn pattern_clone(id: usize, ts: &[TSpec]) -> Option<String> {
    use actiondb::matcher::pattern::testmessage::TestMessage;
    use actiondb::matcher::Pattern;
    let (name, values, tags) = crate::matcher_kind::meta(id);
    let msgs = |n: usize| -> Option<Vec<TestMessage>> {
        Some((1..n).map(|i| TestMessage::new(format!("m{}", i), crate::matcher_kind::meta(i).1.unwrap_or_default(), crate::matcher_kind::meta(i).2)).collect()).filter(|_| n > 0)
    };
    let mut p = Pattern::new(name, crate::matcher_kind::uuid_of(id), crate::matcher_kind::build_tokens(ts), msgs(id % 4), values, tags);
    let mut q = p.clone();
    let all = |p: &Pattern| (p.name().map(|x| x.to_owned()), *p.uuid(), p.values().cloned(), p.tags().map(|x| x.to_vec()));
    if all(&p) != all(&q) {
        return Some(format!("carries {:?} instead of {:?}", all(&q), all(&p)));
    }
    loop {
        let f = |m: Option<TestMessage>| m.map(|m| (m.message().to_owned(), m.values().clone(), m.tags().map(|x| x.to_vec())));
        match (f(p.pop_test_message()), f(q.pop_test_message())) {
            (None, None) => return None,
            (a, b) if a != b => return Some(format!("has the test message {:?} instead of {:?}", b, a)),
            _ => {}
        }
    }
}

pub fn gen_token_case(rng: &mut Rng) -> Vec<String> {
    let al = chars(rng);
    let raw = rng.chance(1, 3);
    gen_tokens(rng, &al, raw).iter().map(show_token).collect()
}
