//! test messages (C09), building from a source (C10), loading files (C11)
use crate::matcher_kind::{build_tokens, gen_tokens, id_of, parse_token, show_token, text, uuid_of};
use crate::oracle::*;
use crate::rng::Rng;
use crate::small_kinds::{gen_pattern_text, probes, token_is};
use crate::{guard, Fail};
use actiondb::matcher::pattern::testmessage::{Error as TmError, TestMessage};
use actiondb::matcher::result::MatchResult;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::{BuildError, FromPatternSource, Matcher, MatcherFactory, Pattern, PatternLoader};
use actiondb::parsers::*;
use std::collections::BTreeMap;

fn kv(s: &str) -> (String, String) {
    let mut p = s.splitn(2, '=');
    (p.next().unwrap_or("").to_owned(), p.next().unwrap_or("").to_owned())
}

// ------------------------------------------------------------------ C09

#[derive(Default)]
struct Want {
    values: BTreeMap<String, String>,
    tags: Option<Vec<String>>,
}

/// the mismatches there are: (kind, key)
fn mismatches(w: &Want, pvalues: &Option<BTreeMap<String, String>>, ptags: &Option<Vec<String>>, extracted: &BTreeMap<String, String>) -> Vec<String> {
    let mut out = vec![];
    for (k, v) in &w.values {
        let have = extracted.get(k).or_else(|| pvalues.as_ref().and_then(|p| p.get(k)));
        match have {
            None => out.push(format!("key:{}", k)),
            Some(h) if h != v => out.push(format!("value:{}:{}:{}", k, v, h)),
            _ => {}
        }
    }
    if let Some(ts) = &w.tags {
        let bad = match ptags {
            None => true,
            Some(have) => ts.iter().any(|t| !have.contains(t)),
        };
        if bad {
            out.push("tags".into());
        }
    }
    out
}

fn describe(e: &TmError) -> String {
    match e {
        TmError::ValueNotMatch { key, expected_value, got_value, .. } => format!("value:{}:{}:{}", key, expected_value, got_value),
        TmError::KeyNotFound { key, .. } => format!("key:{}", key),
        TmError::UnexpectedTags { .. } => "tags".into(),
        TmError::TestMessageDoesntMatch { message, .. } => format!("nomatch:{}", message),
        TmError::MatchedToOtherPattern { message, .. } => format!("other:{}", message),
    }
}

fn hyph(i: usize) -> String {
    uuid_of(i).hyphenated().to_string()
}

fn error_uuid(e: &TmError) -> String {
    match e {
        TmError::ValueNotMatch { pattern_uuid, .. } | TmError::KeyNotFound { pattern_uuid, .. } | TmError::UnexpectedTags { pattern_uuid, .. } | TmError::TestMessageDoesntMatch { pattern_uuid, .. } => pattern_uuid.clone(),
        TmError::MatchedToOtherPattern { expected_uuid, .. } => expected_uuid.clone(),
    }
}

pub fn run_testmsg(case: &[String], hits: &mut u64) -> Vec<Fail> {
    let mut fails = vec![];
    let mut want = Want::default();
    let mut pvalues: Option<BTreeMap<String, String>> = None;
    let mut ptags: Option<Vec<String>> = None;
    let mut extracted: Vec<(String, String)> = vec![];
    for l in case {
        let op = &l[..l.chars().next().map_or(0, |c| c.len_utf8())];
        let rest = &l[op.len()..];
        match op {
            "w" => {
                let (k, v) = kv(rest);
                want.values.insert(k, v);
            }
            "W" => want.tags.get_or_insert(vec![]).extend(if rest.is_empty() { None } else { Some(rest.to_owned()) }),
            "v" => {
                let (k, v) = kv(rest);
                pvalues.get_or_insert(BTreeMap::new()).insert(k, v);
            }
            "V" => {
                pvalues.get_or_insert(BTreeMap::new());
            }
            "t" => ptags.get_or_insert(vec![]).extend(if rest.is_empty() { None } else { Some(rest.to_owned()) }),
            "e" => extracted.push(kv(rest)),
            _ => {}
        }
    }
    let ext: BTreeMap<String, String> = extracted.iter().cloned().collect();
    let bad = mismatches(&want, &pvalues, &ptags, &ext);
    if bad.is_empty() {
        *hits += 1;
    }
    let r = guard(|| {
        let p = Pattern::new(Some("n".into()), uuid_of(3), vec![], None, pvalues.clone(), ptags.clone());
        let parsers: Vec<IntParser> = extracted.iter().map(|(k, _)| IntParser::with_name(k.clone())).collect();
        let nameless = IntParser::new();
        let mut m = MatchResult::new(&p);
        m.insert(ParseResult::new(&nameless, "zz"));
        for (q, (_, v)) in parsers.iter().zip(&extracted) {
            m.insert(ParseResult::new(q, v));
        }
        let got_values: BTreeMap<String, String> = m.values().iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        let tm = TestMessage::new("msg".into(), want.values.clone(), want.tags.clone());
        let acc = tm.message() == "msg" && tm.values() == &want.values && tm.tags().map(|x| x.to_vec()) == want.tags;
        (got_values, acc, tm.test_result(&m).map_err(|e| (describe(&e), error_uuid(&e))))
    });
    match r {
        Err(e) => fails.push(Fail::new("C09", format!("panicked: {}", e))),
        Ok((gv, acc, res)) => {
            if gv != ext {
                fails.push(Fail::new("C02", format!("inserting {:?} yields {:?}", extracted, gv)));
                return fails;
            }
            if !acc {
                fails.push(Fail::new("C09", "a test message does not hold what it was made of".into()));
            }
            match res {
                Ok(()) if !bad.is_empty() => fails.push(Fail::new("C09", format!("accepted in spite of {:?}", bad))),
                Err((e, _)) if bad.is_empty() => fails.push(Fail::new("C09", format!("rejected with {:?}, all expectations are met", e))),
                Err((e, u)) => {
                    if !bad.contains(&e) {
                        fails.push(Fail::new("C09", format!("error {:?} names none of the mismatches {:?}", e, bad)));
                    } else if u != hyph(3) {
                        fails.push(Fail::new("C09", format!("error names pattern {}", u)));
                    }
                }
                _ => {}
            }
        }
    }
    fails
}

/// mostly a few, at times more
fn few(rng: &mut Rng) -> usize {
    let n = if rng.chance(1, 12) { 10 } else { 4 };
    rng.size(n, 70)
}

pub fn gen_testmsg(rng: &mut Rng) -> Vec<String> {
    let keys = ["a", "b", "ab", "é", "", "A", "a ", "b.c", "z", "_"];
    let vals = ["1", "2", "", "é", "12", "1 ", " 1", "01", "a", "A", "\n"];
    // now and then many different keys and tags
    let many = rng.chance(1, 8);
    let key = |rng: &mut Rng| if many && rng.chance(1, 2) { format!("k{}", rng.below(80)) } else { rng.pick_str(&keys) };
    let mut out = vec![];
    let mut store: BTreeMap<String, String> = BTreeMap::new();
    if rng.chance(2, 3) {
        out.push("V".to_owned());
        for _ in 0..few(rng) {
            let (k, v) = (key(rng), rng.pick_str(&vals));
            out.push(format!("v{}={}", k, v));
            store.insert(k.clone(), v.clone());
        }
    }
    for _ in 0..few(rng) {
        let (k, v) = (key(rng), rng.pick_str(&vals));
        out.push(format!("e{}={}", k, v));
        store.insert(k.clone(), v.clone());
    }
    let tags = ["x", "y", "z", "xy", "X", "", "x ", "é"];
    let tag = |rng: &mut Rng| if many && rng.chance(1, 2) { format!("t{}", rng.below(80)) } else { rng.pick_str(&tags) };
    let mut have = vec![];
    if rng.chance(2, 3) {
        out.push("t".to_owned());
        for _ in 0..few(rng) {
            let t = tag(rng);
            out.push(format!("t{}", t));
            have.push(t);
        }
    }
    for _ in 0..few(rng) {
        let (mut k, mut v) = (key(rng), rng.pick_str(&vals));
        if rng.chance(4, 5) && !store.is_empty() {
            let ks: Vec<String> = store.keys().cloned().collect();
            k = rng.pick(&ks).clone();
            if rng.chance(5, 6) {
                v = store[&k].clone();
            }
        }
        out.push(format!("w{}={}", k, v));
    }
    if rng.chance(1, 2) {
        out.push("W".to_owned());
        for _ in 0..few(rng) {
            let t = if rng.chance(5, 6) && !have.is_empty() { rng.pick(&have).clone() } else { tag(rng) };
            out.push(format!("W{}", t));
        }
    }
    out
}

// ------------------------------------------------------------------ C10

/// A matcher which answers "<index>;k=v;..." with its index-th pattern and these values
#[derive(Debug, Default)]
struct Fake {
    patterns: Vec<(Pattern, usize)>,
}

fn leak_parser(name: &str) -> &'static IntParser {
    thread_local!(static POOL: std::cell::RefCell<BTreeMap<String, &'static IntParser>> = Default::default());
    POOL.with(|p| *p.borrow_mut().entry(name.to_owned()).or_insert_with(|| Box::leak(Box::new(IntParser::with_name(name.to_owned())))))
}

impl Matcher for Fake {
    fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
        let mut it = text.split(';');
        let k: usize = it.next()?.parse().ok()?;
        let p = &self.patterns.get(k)?.0;
        let mut m = MatchResult::new(p);
        for f in it {
            let mut s = f.splitn(2, '=');
            let name = s.next().unwrap_or("");
            m.insert(ParseResult::new(leak_parser(name), s.next().unwrap_or("")));
        }
        Some(m)
    }
    fn add_pattern(&mut self, mut pattern: Pattern) {
        let mut n = 0;
        while pattern.pop_test_message().is_some() {
            n += 1;
        }
        self.patterns.push((pattern, n));
    }
    fn boxed_clone(&self) -> Box<dyn Matcher> {
        Box::new(Fake { patterns: self.patterns.iter().map(|x| (x.0.clone(), x.1)).collect() })
    }
}

struct FakeFactory;
impl MatcherFactory for FakeFactory {
    type Matcher = Fake;
    fn new_matcher() -> Fake {
        Fake::default()
    }
}

#[derive(Clone, Default, Debug)]
struct Item {
    error: bool,
    fault: usize,
    uuid: usize,
    name: Option<String>,
    tokens: Vec<TSpec>,
    values: Option<BTreeMap<String, String>>,
    tags: Option<Vec<String>>,
    msgs: Vec<(String, BTreeMap<String, String>, Option<Vec<String>>)>,
}

fn items(case: &[String]) -> Vec<Item> {
    let mut out: Vec<Item> = vec![];
    for l in case {
        let op = l.chars().next().unwrap_or(' ');
        let rest = &l[op.len_utf8().min(l.len())..];
        match op {
            'E' => out.push(Item { error: true, fault: rest.parse().unwrap_or(0), ..Default::default() }),
            'N' => out.push(Item { uuid: rest.parse().unwrap_or(0), ..Default::default() }),
            _ => {
                if let Some(it) = out.last_mut() {
                    match op {
                        'v' => {
                            let (k, v) = kv(rest);
                            it.values.get_or_insert(BTreeMap::new()).insert(k, v);
                        }
                        'n' => it.name = Some(rest.to_owned()),
                        't' => it.tags.get_or_insert(vec![]).push(rest.to_owned()),
                        'm' => it.msgs.push((rest.to_owned(), BTreeMap::new(), None)),
                        'w' => {
                            if let Some(m) = it.msgs.last_mut() {
                                let (k, v) = kv(rest);
                                m.1.insert(k, v);
                            }
                        }
                        'W' => {
                            if let Some(m) = it.msgs.last_mut() {
                                m.2.get_or_insert(vec![]).push(rest.to_owned());
                            }
                        }
                        'l' | 's' | 'i' | 'g' => it.tokens.extend(parse_token(l)),
                        _ => {}
                    }
                }
            }
        }
    }
    out
}

/// an erroneous item of each kind there is
fn fault(k: usize) -> BuildError {
    let id = uuid_of(987_654_321);
    match k {
        1 => BuildError::Io(std::io::Error::new(std::io::ErrorKind::Other, "scripted")),
        2 => BuildError::NotUtf8FileName,
        3 => BuildError::TestMessage(TmError::key_not_found(&id, "scripted")),
        4 => BuildError::TestMessage(TmError::unexpected_tags(&id, None, None)),
        5 => match Pattern::from_json("{") {
            Err(e) => BuildError::DeserJson(e),
            Ok(_) => BuildError::UnsupportedFileExtension,
        },
        6 => BuildError::TestMessage(TmError::value_not_match(&id, "scripted", "a", "b")),
        7 => BuildError::TestMessage(TmError::matched_to_other_pattern(&id, &id, "scripted")),
        _ => BuildError::UnsupportedFileExtension,
    }
}

fn make(it: &Item) -> Result<Pattern, BuildError> {
    if it.error {
        return Err(fault(it.fault));
    }
    let msgs = if it.msgs.is_empty() && it.uuid % 2 == 0 {
        None
    } else {
        Some(it.msgs.iter().map(|m| TestMessage::new(m.0.clone(), m.1.clone(), m.2.clone())).collect())
    };
    Ok(Pattern::new(it.name.clone(), uuid_of(it.uuid), build_tokens(&it.tokens), msgs, it.values.clone(), it.tags.clone()))
}

/// the answer of the real or fake matcher holding `added`: (index of the pattern, values)
fn ref_answer(fake: bool, r: &RefMatcher, added: &[Item], msg: &str) -> Option<(usize, BTreeMap<String, String>)> {
    if fake {
        let mut it = msg.split(';');
        let k: usize = it.next()?.parse().ok()?;
        if k >= added.len() {
            return None;
        }
        Some((k, it.map(|f| kv(f)).collect()))
    } else {
        let k = r.best(msg)?;
        Some((k, matches(r.tokens(k).unwrap(), msg).unwrap()))
    }
}

fn build_with<F: MatcherFactory>(its: &[Item], strict: bool) -> Result<F::Matcher, BuildError> {
    let its: Vec<Item> = its.to_vec();
    let mut src = its.into_iter().map(|x| make(&x));
    if strict {
        F::Matcher::from_source::<F>(&mut src)
    } else {
        Ok(F::Matcher::from_source_ignore_errors::<F>(&mut src))
    }
}

fn check_build<F: MatcherFactory>(which: &str, fake: Option<fn(&F::Matcher) -> Vec<(usize, usize)>>, its: &[Item], hits: &mut u64, fails: &mut Vec<Fail>) {
    // expectation
    let mut r = RefMatcher::new();
    let mut added: Vec<Item> = vec![];
    let mut first_bad: Option<Vec<String>> = None;
    for it in its {
        let mut bad = vec![];
        if it.error {
            bad.push(format!("item {:?}", fault(it.fault)));
        } else {
            r.add(added.len(), &it.tokens);
            added.push(it.clone());
            for (msg, values, tags) in &it.msgs {
                match ref_answer(fake.is_some(), &r, &added, msg) {
                    None => bad.push(format!("nomatch:{}", msg)),
                    Some((k, ext)) => {
                        if uuid_of(added[k].uuid) != uuid_of(it.uuid) {
                            bad.push(format!("other:{}", msg));
                        } else {
                            let w = Want { values: values.clone(), tags: tags.clone() };
                            bad.extend(mismatches(&w, &added[k].values, &added[k].tags, &ext));
                        }
                    }
                }
            }
        }
        if !bad.is_empty() && first_bad.is_none() {
            first_bad = Some(bad);
        }
    }
    if first_bad.is_none() {
        *hits += 1;
    }
    let contents = |m: &F::Matcher, what: &str, fails: &mut Vec<Fail>| {
        if let Some(f) = fake {
            let got = f(m);
            let want: Vec<(usize, usize)> = added.iter().map(|x| (x.uuid, 0)).collect();
            if got.iter().map(|x| x.0).collect::<Vec<_>>() != want.iter().map(|x| x.0).collect::<Vec<_>>() {
                fails.push(Fail::new("C10", format!("{}: {}: holds {:?} instead of {:?}", which, what, got, want)));
            }
        } else {
            for it in &added {
                for (msg, ..) in &it.msgs {
                    let got = guard(|| m.parse(msg).map(|x| id_of(x.pattern().uuid())));
                    let want = r.best(msg).map(|k| added[k].uuid);
                    if got != Ok(want) {
                        fails.push(Fail::new("C10", format!("{}: {}: after building, {:?} is reported as {:?} instead of {:?}", which, what, msg, got, want)));
                    }
                }
            }
        }
    };
    match guard(|| build_with::<F>(its, true)) {
        Err(e) => fails.push(Fail::new("C10", format!("{}: strict build panicked: {}", which, e))),
        Ok(Ok(m)) => match &first_bad {
            Some(b) => fails.push(Fail::new("C10", format!("{}: the strict build succeeds in spite of {:?}", which, b))),
            None => contents(&m, "strict build", fails),
        },
        Ok(Err(e)) => {
            let d = match &e {
                BuildError::TestMessage(t) if !format!("{:?}", t).contains("scripted") && error_uuid(t) != hyph(987_654_321) => describe(t),
                o => format!("item {:?}", o),
            };
            match &first_bad {
                None => fails.push(Fail::new("C10", format!("{}: the strict build fails with {:?}", which, e))),
                Some(b) if !b.contains(&d) => fails.push(Fail::new("C10", format!("{}: the strict build fails with {:?}, expected one of {:?}", which, e, b))),
                _ => {}
            }
        }
    }
    match guard(|| build_with::<F>(its, false)) {
        Err(e) => fails.push(Fail::new("C10", format!("{}: lenient build panicked: {}", which, e))),
        Ok(Ok(m)) => contents(&m, "lenient build", fails),
        Ok(Err(e)) => fails.push(Fail::new("C10", format!("{}: lenient build fails: {:?}", which, e))),
    }
}

pub fn run_source(case: &[String], hits: &mut u64) -> Vec<Fail> {
    let mut fails = vec![];
    let its = items(case);
    if case.first().map_or(false, |x| x == "real") {
        check_build::<TrieMatcherFactory>("trie", None, &its, hits, &mut fails);
        check_build::<SuffixArrayMatcherFactory>("suffix array", None, &its, hits, &mut fails);
    } else {
        check_build::<FakeFactory>("scripted matcher", Some(|m| m.patterns.iter().map(|x| (id_of(x.0.uuid()), x.1)).collect()), &its, hits, &mut fails);
    }
    fails
}

pub fn gen_source(rng: &mut Rng) -> Vec<String> {
    let mut out = vec![];
    if rng.chance(1, 30) {
        // a long source, the end of which matters
        let n = match rng.dict_int().filter(|n| *n > 20 && *n <= 5000) {
            Some(n) => n + rng.below(4),
            None => rng.below(100),
        };
        out.push("fake".to_owned());
        for i in 0..n {
            out.push(format!("N{}", i + 10));
        }
        out.push(rng.pick(&["m0", "mnone", "E3", "N7"]).to_string());
        return out;
    }
    let real = rng.chance(1, 3);
    out.push(if real { "real" } else { "fake" }.to_owned());
    let mut al = vec!['a', 'b', '1'];
    if rng.chance(1, 4) {
        al = crate::matcher_kind::chars(rng);
    }
    let n = if rng.chance(1, 15) { rng.below(14) } else { rng.size(5, 40) };
    let sloppy = rng.chance(1, 2);
    let mut base: Vec<TSpec> = vec![];
    for i in 0..n {
        if sloppy && rng.chance(1, 8) {
            out.push(format!("E{}", rng.below(8)));
            continue;
        }
        out.push(format!("N{}", if rng.chance(1, 12) { 0 } else if i > 0 && rng.chance(1, 12) { rng.below(i) + 10 } else { i + 10 }));
        let idx = out.iter().filter(|x| x.starts_with('N')).count() - 1;
        if rng.chance(1, 4) {
            // as one of the messages, tags or uuids
            let n = match rng.below(4) {
                0 => out.iter().rev().find_map(|x| x.strip_prefix('m')).unwrap_or("n").to_owned(),
                1 => format!("{}", rng.below(n)),
                2 => hyph(rng.below(i + 2) + 10),
                _ => rng.pick_str(&["", "x", "a", "n"]),
            };
            out.push(format!("n{}", n));
        }
        let mut values: BTreeMap<String, String> = BTreeMap::new();
        for _ in 0..rng.size(3, 40) {
            let (k, v) = (rng.pick_str(&["a", "b", "n"]), rng.pick_str(&["1", "2"]));
            out.push(format!("v{}={}", k, v));
            values.insert(k, v);
        }
        let mut tags = vec![];
        for _ in 0..rng.size(3, 40) {
            let t = rng.pick_str(&["x", "y", "X", "xy"]);
            out.push(format!("t{}", t));
            tags.push(t.clone());
        }
        if real {
            let ts = if !base.is_empty() && rng.chance(1, 5) { base.clone() } else { gen_tokens(rng, &al, false) };
            out.extend(ts.iter().map(show_token));
            base = ts;
        }
        for _ in 0..few(rng) {
            let mut have = values.clone();
            if real {
                let mut t = String::new();
                for tok in &base {
                    match tok {
                        TSpec::Lit(l) => t.push_str(l),
                        TSpec::Par(PSpec::Set { set, .. }) => t.extend(set.iter().take(1)),
                        TSpec::Par(PSpec::Int { .. }) => t.push('1'),
                        _ => t.push_str(&text(rng, &al, 2)),
                    }
                }
                if let Some(e) = matches(&base, &t) {
                    have.extend(e);
                }
                out.push(format!("m{}", t));
            } else {
                let k = if sloppy && rng.chance(1, 6) { rng.below(n + 1) } else { idx };
                let mut m = format!("{}", k);
                for _ in 0..rng.size(3, 40) {
                    let (k, v) = (rng.pick_str(&["a", "b", "c"]), rng.pick_str(&["1", "2", "3"]));
                    m.push_str(&format!(";{}={}", k, v));
                    have.insert(k, v);
                }
                out.push(format!("m{}", if sloppy && rng.chance(1, 15) { "none".into() } else { m }));
            }
            for _ in 0..rng.size(3, 40) {
                if !have.is_empty() && !(sloppy && rng.chance(1, 10)) {
                    let ks: Vec<String> = have.keys().cloned().collect();
                    let k = rng.pick(&ks).clone();
                    out.push(format!("w{}={}", k, have[&k]));
                } else if sloppy {
                    out.push(format!("w{}={}", rng.pick(&["a", "q"]), rng.pick(&["1", "2"])));
                }
            }
            if rng.chance(1, 3) {
                for _ in 0..rng.size(3, 40) {
                    if !tags.is_empty() && !(sloppy && rng.chance(1, 10)) {
                        out.push(format!("W{}", rng.pick(&tags)));
                    } else if sloppy {
                        out.push(format!("W{}", rng.pick(&["x", "y", "z"])));
                    }
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------------ C11

// A document is written out as a small tree, so that JSON and YAML can be made from it
#[derive(Clone, Debug)]
enum V {
    Z,
    S(String),
    N(i64),
    L(Vec<V>),
    M(Vec<(String, V)>),
}

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json(v: &V) -> String {
    match v {
        V::Z => "null".into(),
        V::S(s) => quote(s),
        V::N(n) => n.to_string(),
        V::L(l) => format!("[{}]", l.iter().map(json).collect::<Vec<_>>().join(", ")),
        V::M(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", quote(k), json(v))).collect::<Vec<_>>().join(", ")),
    }
}

/// a key of a YAML mapping: quoted unless it is a plain word
fn key(k: &str) -> String {
    if !k.is_empty() && k.chars().all(|c| c.is_ascii_alphabetic() || c == '_') && !["true", "false", "null", "y", "n", "yes", "no", "on", "off"].contains(&&k.to_lowercase()[..]) {
        k.to_owned()
    } else {
        quote(k)
    }
}

fn yaml(v: &V, ind: usize) -> String {
    let pad = " ".repeat(ind);
    match v {
        V::Z => "null".into(),
        V::S(s) => quote(s),
        V::N(n) => n.to_string(),
        V::L(l) if l.is_empty() => "[]".into(),
        V::M(m) if m.is_empty() => "{}".into(),
        V::L(l) => l
            .iter()
            .map(|x| match x {
                V::Z | V::S(_) | V::N(_) => format!("\n{}- {}", pad, yaml(x, ind + 2)),
                _ => format!("\n{}-{}", pad, yaml(x, ind + 2)),
            })
            .collect(),
        V::M(m) => m
            .iter()
            .map(|(k, x)| match x {
                V::Z | V::S(_) | V::N(_) => format!("\n{}{}: {}", pad, key(k), yaml(x, ind + 2)),
                V::L(l) if l.is_empty() => format!("\n{}{}: []", pad, key(k)),
                V::M(l) if l.is_empty() => format!("\n{}{}: {{}}", pad, key(k)),
                _ => format!("\n{}{}:{}", pad, key(k), yaml(x, ind + 2)),
            })
            .collect(),
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Doc {
    uuid: String,
    name: Option<String>,
    tokens: Vec<TSpec>,
    values: Option<BTreeMap<String, String>>,
    tags: Option<Vec<String>>,
    msgs: Option<Vec<(String, BTreeMap<String, String>, Option<Vec<String>>)>>,
}

// what a document means; None: it is to be rejected
fn strs(v: &V) -> Option<Vec<String>> {
    match v {
        V::L(l) => l.iter().map(|x| if let V::S(s) = x { Some(s.clone()) } else { None }).collect(),
        // serde reads a null as an empty list or map
        V::Z => Some(vec![]),
        _ => None,
    }
}
fn smap(v: &V) -> Option<BTreeMap<String, String>> {
    match v {
        V::M(m) => m.iter().map(|(k, x)| if let V::S(s) = x { Some((k.clone(), s.clone())) } else { None }).collect(),
        V::Z => Some(BTreeMap::new()),
        _ => None,
    }
}
fn str1(v: &V) -> Option<String> {
    if let V::S(s) = v { Some(s.clone()) } else { None }
}
fn good_uuid(s: &str) -> bool {
    let parts: Vec<&str> = s.split('-').collect();
    parts.len() == 5 && parts.iter().map(|p| p.len()).eq([8, 4, 4, 4, 12]) && s.chars().all(|c| c == '-' || c.is_ascii_hexdigit())
}
fn meaning_msg(v: &V) -> Option<(String, BTreeMap<String, String>, Option<Vec<String>>)> {
    let m = if let V::M(m) = v { m } else { return None };
    let (mut message, mut values, mut tags) = (None, BTreeMap::new(), None);
    for (k, x) in m {
        match &k[..] {
            "message" => message = Some(str1(x)?),
            "values" => values = smap(x)?,
            "tags" => tags = Some(strs(x)?),
            _ => return None,
        }
    }
    Some((message?, values, tags))
}
fn meaning_pattern(v: &V) -> Option<Doc> {
    let m = if let V::M(m) = v { m } else { return None };
    let (mut uuid, mut name, mut tokens, mut values, mut tags, mut msgs) = (None, None, None, None, None, None);
    for (k, x) in m {
        match &k[..] {
            "uuid" => {
                let s = str1(x)?;
                if !good_uuid(&s) {
                    return None;
                }
                uuid = Some(s);
            }
            "name" => name = Some(str1(x)?),
            "pattern" => tokens = Some(compile(&str1(x)?)?),
            "values" => values = Some(smap(x)?),
            "tags" => tags = Some(strs(x)?),
            "test_messages" => {
                if let V::Z = x {
                    msgs = Some(vec![]);
                } else if let V::L(l) = x {
                    msgs = Some(l.iter().map(meaning_msg).collect::<Option<Vec<_>>>()?)
                } else {
                    return None;
                }
            }
            _ => return None,
        }
    }
    Some(Doc { uuid: uuid?, name, tokens: tokens?, values, tags, msgs })
}
fn meaning(v: &V) -> Option<Vec<Doc>> {
    let m = if let V::M(m) = v { m } else { return None };
    let mut out = None;
    for (k, x) in m {
        match (&k[..], x) {
            ("patterns", V::L(l)) => out = Some(l.iter().map(meaning_pattern).collect::<Option<Vec<_>>>()?),
            ("patterns", V::Z) => out = Some(vec![]),
            _ => return None,
        }
    }
    out
}

fn tree(case: &[String]) -> V {
    // lines: N (new pattern), then f<field>=<string>, L<field>=<length>, F<field>=<number>, 0<field>, 1<message field>, 2<top field> (nothing: null), v k=v, t tag, m message, w k=v, W tag, V/T/M (empty ones), X<topfield>
    let mut pats: Vec<V> = vec![];
    let mut top: Vec<(String, V)> = vec![];
    let mut no_patterns = false;
    fn field<'a>(m: &'a mut Vec<(String, V)>, k: &str, d: V) -> &'a mut V {
        if let Some(i) = m.iter().position(|x| x.0 == k) {
            return &mut m[i].1;
        }
        m.push((k.to_owned(), d));
        let i = m.len() - 1;
        &mut m[i].1
    }
    for l in case {
        let op = l.chars().next().unwrap_or(' ');
        let rest = &l[op.len_utf8().min(l.len())..];
        let (k, v) = kv(rest);
        if op == '2' {
            top.push((rest.to_owned(), V::Z));
            continue;
        }
        if op == 'N' {
            pats.push(V::M(vec![]));
            continue;
        }
        if op == 'Z' {
            no_patterns = true;
            continue;
        }
        if op == 'X' {
            top.push((k, V::S(v)));
            continue;
        }
        let m = match pats.last_mut() {
            Some(V::M(m)) => m,
            _ => continue,
        };
        let put = |m: &mut Vec<(String, V)>, k: &str, v: V| {
            if !m.iter().any(|x| x.0 == k) {
                m.push((k.to_owned(), v));
            }
        };
        match op {
            'f' => put(m, &k, V::S(v)),
            'L' => put(m, &k, {
                let n = v.parse::<usize>().unwrap_or(1).min(4_000_000);
                V::S(["x", "é", "€"][n % 3].repeat(n))
            }),
            'F' => put(m, &k, V::N(v.parse().unwrap_or(7))),
            '0' => put(m, rest, V::Z),
            'v' => {
                if let V::M(x) = field(m, "values", V::M(vec![])) {
                    if !rest.is_empty() {
                        put(x, &k, V::S(v));
                    }
                }
            }
            't' | 'T' => {
                if let V::L(x) = field(m, "tags", V::L(vec![])) {
                    if !rest.is_empty() || l.starts_with('T') {
                        x.push(V::S(rest.to_owned()));
                    }
                }
            }
            'm' => {
                if let V::L(x) = field(m, "test_messages", V::L(vec![])) {
                    x.push(V::M(if rest == "-" { vec![] } else { vec![("message".into(), V::S(rest.to_owned()))] }));
                }
            }
            'w' | 'W' | 'u' | '1' => {
                if let V::L(x) = field(m, "test_messages", V::L(vec![])) {
                    if let Some(V::M(mm)) = x.last_mut() {
                        match op {
                            'w' => {
                                if let V::M(y) = field(mm, "values", V::M(vec![])) {
                                    put(y, &k, V::S(v));
                                }
                            }
                            'W' => {
                                if let V::L(y) = field(mm, "tags", V::L(vec![])) {
                                    y.push(V::S(rest.to_owned()));
                                }
                            }
                            '1' => put(mm, rest, V::Z),
                            _ => put(mm, &k, V::S(v)),
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if !no_patterns {
        top.insert(0, ("patterns".into(), V::L(pats)));
    }
    V::M(top)
}

fn scratch() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("vharness-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn doc_of(p: Pattern) -> (Doc, Pattern) {
    let mut q = p.clone();
    let mut msgs = vec![];
    while let Some(m) = q.pop_test_message() {
        msgs.push((m.message().to_owned(), m.values().clone(), m.tags().map(|x| x.to_vec())));
    }
    msgs.reverse();
    let d = Doc {
        uuid: p.uuid().hyphenated().to_string(),
        name: p.name().map(|x| x.to_owned()),
        tokens: vec![],
        values: p.values().cloned(),
        tags: p.tags().map(|x| x.to_vec()),
        msgs: Some(msgs),
    };
    (d, p)
}

fn same_doc(got: &(Doc, Pattern), want: &Doc) -> Result<(), String> {
    let (d, p) = got;
    if d.uuid != want.uuid.to_lowercase() || d.name != want.name || d.values != want.values || d.tags != want.tags {
        return Err(format!("loaded {:?} instead of {:?}", d, want));
    }
    if d.msgs.clone().unwrap_or_default() != want.msgs.clone().unwrap_or_default() {
        return Err(format!("test messages {:?} instead of {:?}", d.msgs, want.msgs));
    }
    if p.pattern().len() != want.tokens.len() {
        return Err(format!("tokens {:?} instead of {:?}", p.pattern(), want.tokens));
    }
    let pr = probes(&want.tokens);
    for (a, b) in p.pattern().iter().zip(&want.tokens) {
        token_is(a, b, &pr, "C11")?;
    }
    Ok(())
}

/// first line: "=<file name>" or "=<file name>|<fault>"
pub fn run_loader(case: &[String], hits: &mut u64) -> Vec<Fail> {
    let mut fails = vec![];
    let head = match case.first().and_then(|x| x.strip_prefix('=')) {
        Some(h) => h.to_owned(),
        None => return fails,
    };
    let mut parts = head.splitn(2, '|');
    let fname = parts.next().unwrap().to_owned();
    let fault = parts.next().unwrap_or("").to_owned();
    if fname.is_empty() || fname.contains('/') || fname.contains('\0') || fname == "." || fname == ".." {
        return fails;
    }
    let v = tree(&case[1..]);
    let dir = scratch();
    let path = dir.join(&fname);
    let ext = match fname.rfind('.') {
        Some(i) if i > 0 => Some(&fname[i + 1..]),
        _ => None,
    };
    let kind = match ext {
        Some("json") => "json",
        Some("yaml") | Some("yml") | Some("YAML") | Some("YML") => "yaml",
        _ => "ext",
    };
    let mut body = if kind == "yaml" { format!("---{}\n", yaml(&v, 0)) } else { json(&v) }.into_bytes();
    let mut want = meaning(&v);
    let mut expect = match kind {
        "json" => "DeserJson",
        "yaml" => "DeserYaml",
        _ => "UnsupportedFileExtension",
    };
    if kind == "ext" {
        want = None;
    }
    match &fault[..] {
        "missing" | "dir" => {
            want = None;
            if kind != "ext" {
                expect = "Io";
            }
        }
        "utf8" => {
            want = None;
            body.extend_from_slice(b"\n# \xff\xfe\n");
            if kind != "ext" {
                expect = "Io";
            }
        }
        "cut" => {
            // a JSON document ends with its closing brace: any proper prefix is malformed
            if kind == "json" {
                let n = body.len() - 1;
                body.truncate(n);
                want = None;
            }
        }
        "tail" => {
            if kind == "json" {
                body.extend_from_slice(b" x");
                want = None;
            }
        }
        f if f.starts_with("tail") || f.starts_with("head") => {
            // JSON: nothing but white space may stand beside the document
            let w = &f[4..];
            if kind == "json" && w.chars().any(|c| !" \t\r\n".contains(c)) {
                if f.starts_with("tail") {
                    body.extend_from_slice(w.as_bytes());
                } else {
                    let mut b = w.as_bytes().to_vec();
                    b.extend_from_slice(&body);
                    body = b;
                }
                want = None;
            }
        }
        _ => {}
    }
    match &fault[..] {
        "missing" => {}
        "dir" => std::fs::create_dir_all(&path).unwrap(),
        _ => std::fs::write(&path, &body).unwrap(),
    }
    let p = path.to_str().unwrap().to_owned();
    let r = guard(|| PatternLoader::load_file(&p));
    let strict = guard(|| PatternLoader::from_file::<FakeFactory>(&p));
    let lenient = guard(|| PatternLoader::from_file_ignore_errors::<FakeFactory>(&p));
    // and the same text as a single document of its own
    let singles: Vec<Result<Result<Pattern, String>, String>> = match &v {
        V::M(m) => m
            .iter()
            .filter(|x| x.0 == "patterns")
            .flat_map(|x| match &x.1 {
                V::L(l) => l.iter().map(|d| guard(|| Pattern::from_json(&json(d)).map_err(|e| e.to_string()))).collect::<Vec<_>>(),
                _ => vec![],
            })
            .collect(),
        _ => vec![],
    };
    let _ = std::fs::remove_dir_all(&dir);
    let show = String::from_utf8_lossy(&body).into_owned();
    if want.is_some() {
        *hits += 1;
    }
    let kind_of = |e: &BuildError| format!("{:?}", e).split(|c| c == '(' || c == ' ').next().unwrap_or("").to_owned();
    match (r, &want) {
        (Err(e), _) => fails.push(Fail::new("C11", format!("loading {:?} panicked: {}", show, e))),
        (Ok(Ok(_)), None) => fails.push(Fail::new("C11", format!("{} {:?} is accepted", head, show))),
        (Ok(Err(e)), Some(_)) => fails.push(Fail::new("C11", format!("{} {:?} is rejected: {:?}", head, show, e))),
        (Ok(Err(e)), None) => {
            if kind_of(&e) != expect {
                fails.push(Fail::new("C11", format!("{} {:?}: error {:?} is not a {}", head, show, e, expect)));
            }
        }
        (Ok(Ok(f)), Some(w)) => {
            let held: Vec<(Doc, Pattern)> = f.patterns().iter().cloned().map(doc_of).collect();
            let mut out: Vec<(Doc, Pattern)> = f.into_iter().filter_map(|x| x.ok()).map(doc_of).collect();
            if held.len() != w.len() || out.len() != w.len() {
                fails.push(Fail::new("C11", format!("{} {:?}: {} patterns loaded, {} yielded, {} written", head, show, held.len(), out.len(), w.len())));
            } else {
                for (a, b) in held.iter().zip(w) {
                    if let Err(e) = same_doc(a, b) {
                        fails.push(Fail::new("C11", format!("{} {:?}: {}", head, show, e)));
                    }
                }
                for b in w {
                    match out.iter().position(|a| same_doc(a, b).is_ok()) {
                        Some(i) => {
                            out.remove(i);
                        }
                        None => {
                            fails.push(Fail::new("C11", format!("{} {:?}: {:?} is not yielded once", head, show, b)));
                            break;
                        }
                    }
                }
            }
        }
    }
    if let (Ok(l), true) = (&lenient, fails.is_empty()) {
        match (l, &want) {
            (Ok(m), Some(w)) => {
                if m.patterns.len() != w.len() {
                    fails.push(Fail::new("C11", format!("{} {:?}: lenient build holds {} patterns", head, show, m.patterns.len())));
                }
            }
            (Err(e), Some(_)) => fails.push(Fail::new("C11", format!("{} {:?}: lenient build fails: {:?}", head, show, e))),
            (Ok(_), None) => fails.push(Fail::new("C11", format!("{} {:?}: lenient build from a bad file", head, show))),
            _ => {}
        }
    }
    if let (Ok(Ok(_)), None) = (&strict, &want) {
        fails.push(Fail::new("C11", format!("{} {:?}: built from a bad file", head, show)));
    }
    if let (Ok(Err(e)), Some(w)) = (&strict, &want) {
        if w.iter().all(|d| d.msgs.as_ref().map_or(true, |m| m.is_empty())) {
            fails.push(Fail::new("C11", format!("{} {:?}: cannot be built: {:?}", head, show, e)));
        }
    }
    if let V::M(m) = &v {
        if let Some((_, V::L(l))) = m.iter().find(|x| x.0 == "patterns") {
            for (d, got) in l.iter().zip(singles) {
                match (got, meaning_pattern(d)) {
                    (Err(e), _) => fails.push(Fail::new("C11", format!("{:?} panicked: {}", json(d), e))),
                    (Ok(Ok(p)), Some(w)) => {
                        if let Err(e) = same_doc(&doc_of(p), &w) {
                            fails.push(Fail::new("C11", format!("{:?}: {}", json(d), e)));
                        }
                    }
                    (Ok(Ok(_)), None) => fails.push(Fail::new("C11", format!("{:?} is accepted", json(d)))),
                    (Ok(Err(e)), Some(_)) => fails.push(Fail::new("C11", format!("{:?} is rejected: {}", json(d), e))),
                    (Ok(Err(_)), None) => {}
                }
            }
        }
    }
    fails
}

pub fn gen_loader(rng: &mut Rng) -> Vec<String> {
    let names = ["a.json", "a.yaml", "a.yml", "a.YAML", "a.YML", "x.y.json", "x.json.yml", "a.json", "a.yaml"];
    let odd = ["a.JSON", "a.txt", "json", ".json", "a.", "a.Yaml", "a.jsonx", "a.yaml~", "yaml", "a.json.bak", "a.yAml", "a.js"];
    let mut f = if rng.chance(1, 8) { *rng.pick(&odd) } else { *rng.pick(&names) }.to_owned();
    if rng.chance(1, 12) {
        // the known extensions in every mixture of cases
        f = rng.pick(&["a.json", "a.yaml", "a.yml", "a.Json"]).chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    }
    let fault = if rng.chance(1, 8) { *rng.pick(&["|missing", "|dir", "|utf8", "|cut", "|tail"]) } else { "" };
    let mut head = format!("={}{}", f, fault);
    if let Some(w) = rng.word(1, 4) {
        // a word of the sources as extension, stem, or text before or after the document
        head = match rng.below(4) {
            0 => format!("=a.{}", w.trim_start_matches('.')),
            1 => format!("={}.json", w),
            2 => format!("={}|head{}", f, w),
            _ => format!("={}|tail{}", f, w),
        };
    }
    let mut out = vec![head];
    let bad = rng.chance(1, 3);
    let mut uuids: Vec<String> = vec![];
    let mut last: Vec<String> = vec![];
    for _ in 0..few(rng) {
        out.push("N".into());
        if !last.is_empty() && rng.chance(1, 10) {
            // the same pattern once more
            out.extend(last.iter().cloned());
            continue;
        }
        let mut fields = vec![];
        if !(bad && rng.chance(1, 8)) {
            let mut u: String = "xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx".chars().map(|c| if c == 'x' { *rng.pick(&['0', '9', 'a', 'f', '3']) } else { c }).collect();
            if bad && rng.chance(1, 8) {
                u = rng.pick_str(&["", "not-a-uuid", "9a49c47d-29e9-4072-be84-3b76c681474", "9a49c47d-29e9-4072-be84-3b76c681474g"]);
            }
            if !uuids.is_empty() && rng.chance(1, 6) {
                u = rng.pick(&uuids).clone();
            } else {
                uuids.push(u.clone());
            }
            fields.push(format!("fuuid={}", u));
        }
        if let Some(n) = rng.dict_int().filter(|n| *n <= 3_000_000 && *n > 8) {
            // a document longer than any limit of the sources
            fields.push(format!("Lname={}", n));
        } else if rng.chance(1, 300) {
            fields.push(format!("Lname={}", rng.size(9, 100_000)));
        } else if rng.chance(1, 2) {
            fields.push(format!("fname={}", rng.pick_str(&["n", "", "é \" \\", "a: b", "- x", "7"])));
        }
        if !(bad && rng.chance(1, 8)) {
            let mut p = gen_pattern_text(rng).replace('\n', " ");
            for _ in 0..20 {
                if bad || compile(&p).is_some() {
                    break;
                }
                p = gen_pattern_text(rng).replace('\n', " ");
            }
            if !bad && compile(&p).is_none() {
                p = "x%{INT:n}".into();
            }
            fields.push(format!("fpattern={}", p));
        }
        if rng.chance(1, 3) {
            fields.push("v".into());
            for _ in 0..(few(rng) * 2 / 3) {
                fields.push(format!("v{}={}", rng.pick_str(&["k", "l", "m", "", "k"]), rng.pick_str(&["1", "", "é", "true"])));
            }
        }
        if rng.chance(1, 3) {
            fields.push("t".into());
            for _ in 0..(few(rng) * 2 / 3) {
                fields.push(format!("T{}", rng.pick_str(&["x", "y", "12", "x", ""])));
            }
        }
        for _ in 0..(few(rng) * 2 / 3) {
            fields.push(if bad && rng.chance(1, 8) { "m-".into() } else { format!("m{}", rng.pick_str(&["hello", "a 1", "", "é"])) });
            for _ in 0..(few(rng) * 2 / 3) {
                fields.push(format!("w{}={}", rng.pick_str(&["k", "l", "", "k"]), rng.pick_str(&["1", "é", ""])));
            }
            for _ in 0..rng.size(2, 40) {
                fields.push(format!("W{}", rng.pick_str(&["x", "y", "x", ""])));
            }
            if bad && rng.chance(1, 8) {
                fields.push("uextra=1".into());
            }
            if bad && rng.chance(1, 8) {
                fields.push(rng.pick_str(&["1message", "1values", "1tags", "1extra"]));
            }
        }
        if bad && rng.chance(1, 6) {
            fields.push(rng.pick_str(&["fextra=1", "fUuid=1", "Fname=5", "Fuuid=5", "Fpattern=1", "ftags=x", "fvalues=x", "ftest_messages=x", "ftest_message=x", "fPattern=x"]));
        }
        if bad && rng.chance(1, 6) {
            fields.insert(0, rng.pick_str(&["0uuid", "0name", "0pattern", "0values", "0tags", "0test_messages", "0extra"]));
        }
        // order of the independent fields does not matter; messages stay together
        let k = fields.iter().position(|x| x.starts_with('m')).unwrap_or(fields.len());
        if k > 1 {
            let i = rng.below(k);
            let j = rng.below(k);
            fields.swap(i, j);
        }
        last = fields.clone();
        out.extend(fields);
    }
    if bad && rng.chance(1, 8) {
        out.push("Xextra=1".into());
    }
    if bad && rng.chance(1, 10) {
        out.push("Z".into());
        if rng.chance(1, 3) {
            out.push("2patterns".into());
        }
    }
    out
}
