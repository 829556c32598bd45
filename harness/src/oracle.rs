//! Executable statement of the properties, written independently of /repo's code.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum PSpec {
    Set { set: BTreeSet<char>, min: Option<usize>, max: Option<usize>, name: Option<String> },
    Int { min: Option<usize>, max: Option<usize>, name: Option<String> },
    Greedy { end: Option<String>, name: Option<String> },
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum TSpec {
    Lit(String),
    Par(PSpec),
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Sym {
    C(char),
    P(PSpec),
}

impl PSpec {
    pub fn name(&self) -> Option<&str> {
        match self {
            PSpec::Set { name, .. } | PSpec::Int { name, .. } | PSpec::Greedy { name, .. } => name.as_deref(),
        }
    }

    /// the fragment this parser yields on `text` (C05, C06)
    pub fn yields<'a>(&self, text: &'a str) -> Option<&'a str> {
        match self {
            PSpec::Set { set, min, max, .. } => run(text, &|c| set.contains(&c), *min, *max),
            PSpec::Int { min, max, .. } => run(text, &|c| ('0'..='9').contains(&c), *min, *max),
            PSpec::Greedy { end: None, .. } => Some(text),
            PSpec::Greedy { end: Some(end), .. } => {
                let t: Vec<(usize, char)> = text.char_indices().collect();
                let e: Vec<char> = end.chars().collect();
                for i in 0..=t.len() {
                    if i + e.len() <= t.len() && (0..e.len()).all(|k| t[i + k].1 == e[k]) {
                        let off = if i == t.len() { text.len() } else { t[i].0 };
                        return Some(&text[..off]);
                    }
                }
                None
            }
        }
    }
}

fn run<'a>(text: &'a str, ok: &dyn Fn(char) -> bool, min: Option<usize>, max: Option<usize>) -> Option<&'a str> {
    let mut bytes = 0;
    let mut n = 0;
    for (i, c) in text.char_indices() {
        if !ok(c) {
            break;
        }
        bytes = i + c.len_utf8();
        n += 1;
    }
    if n == 0 || min.map_or(false, |m| n < m) || max.map_or(false, |m| n > m) {
        None
    } else {
        Some(&text[..bytes])
    }
}

pub fn flatten(tokens: &[TSpec]) -> Vec<Sym> {
    let mut out = Vec::new();
    for t in tokens {
        match t {
            TSpec::Lit(s) => out.extend(s.chars().map(Sym::C)),
            TSpec::Par(p) => out.push(Sym::P(p.clone())),
        }
    }
    out
}

/// no empty and no adjacent literals: what the grammar produces
pub fn normalized(tokens: &[TSpec]) -> bool {
    for i in 0..tokens.len() {
        if let TSpec::Lit(s) = &tokens[i] {
            if s.is_empty() {
                return false;
            }
            if i > 0 {
                if let TSpec::Lit(_) = &tokens[i - 1] {
                    return false;
                }
            }
        }
    }
    true
}

/// does the whole text match, and with which values (leftmost fragment per name)
pub fn matches(tokens: &[TSpec], text: &str) -> Option<BTreeMap<String, String>> {
    let mut rest = text;
    let mut values = BTreeMap::new();
    for t in tokens {
        match t {
            TSpec::Lit(s) => {
                if !rest.starts_with(s.as_str()) {
                    return None;
                }
                rest = &rest[s.len()..];
            }
            TSpec::Par(p) => {
                let v = p.yields(rest)?;
                rest = &rest[v.len()..];
                if let Some(n) = p.name() {
                    values.entry(n.to_owned()).or_insert_with(|| v.to_owned());
                }
            }
        }
    }
    if rest.is_empty() { Some(values) } else { None }
}

/// The patterns of a matcher, as a plain list
#[derive(Clone, Default, Debug)]
pub struct RefMatcher {
    pub live: Vec<(usize, Vec<TSpec>)>,
    pub order: BTreeMap<Vec<Sym>, Vec<PSpec>>,
    pub all_normal: bool,
}

impl RefMatcher {
    pub fn new() -> RefMatcher {
        RefMatcher { all_normal: true, ..Default::default() }
    }
    pub fn add(&mut self, id: usize, tokens: &[TSpec]) {
        if tokens.is_empty() {
            return;
        }
        self.all_normal &= normalized(tokens);
        let flat = flatten(tokens);
        self.live.retain(|(_, t)| t.as_slice() != tokens);
        self.live.push((id, tokens.to_vec()));
        for i in 0..flat.len() {
            if let Sym::P(ref p) = flat[i] {
                let o = self.order.entry(flat[..i].to_vec()).or_default();
                if !o.contains(p) {
                    o.push(p.clone());
                }
            }
        }
    }
    pub fn matching(&self, text: &str) -> Vec<usize> {
        self.live.iter().filter(|(_, t)| matches(t, text).is_some()).map(|x| x.0).collect()
    }
    pub fn tokens(&self, id: usize) -> Option<&Vec<TSpec>> {
        self.live.iter().find(|x| x.0 == id).map(|x| &x.1)
    }
    /// C04: is `a` to be preferred to `b`; both match
    pub fn better(&self, a: &[TSpec], b: &[TSpec]) -> bool {
        let (a, b) = (flatten(a), flatten(b));
        let mut i = 0;
        while i < a.len() && i < b.len() && a[i] == b[i] {
            i += 1;
        }
        if i == a.len() {
            return true;
        }
        if i == b.len() {
            return false;
        }
        match (&a[i], &b[i]) {
            (Sym::C(_), _) => true,
            (_, Sym::C(_)) => false,
            (Sym::P(x), Sym::P(y)) => {
                let o = &self.order[&a[..i].to_vec()];
                o.iter().position(|p| p == x) < o.iter().position(|p| p == y)
            }
        }
    }
    pub fn best(&self, text: &str) -> Option<usize> {
        let m = self.matching(text);
        let mut it = m.into_iter();
        let mut best = it.next()?;
        for c in it {
            if self.better(self.tokens(c).unwrap(), self.tokens(best).unwrap()) {
                best = c;
            }
        }
        Some(best)
    }
}

// ---------------------------------------------------------------- grammar (C07)

struct P<'a> {
    s: &'a [char],
    i: usize,
}

impl<'a> P<'a> {
    fn lit(&mut self, t: &str) -> bool {
        let cs: Vec<char> = t.chars().collect();
        if self.s[self.i..].starts_with(&cs) {
            self.i += cs.len();
            true
        } else {
            false
        }
    }
    fn literal(&mut self) -> Option<String> {
        let start = self.i;
        while self.i < self.s.len() && !self.s[self.i..].starts_with(&['%', '{']) {
            self.i += 1;
        }
        if self.i == start {
            return None;
        }
        let raw: String = self.s[start..self.i].iter().collect();
        Some(unescape(&raw))
    }
    fn name(&mut self) -> Option<String> {
        // ":" identifier, first [a-zA-Z_.], then [a-z-A-Z0-9_.] as long as no '-' follows
        let save = self.i;
        if !self.lit(":") {
            return None;
        }
        let start = self.i;
        let first = |c: char| c.is_ascii_alphabetic() || c == '_' || c == '.';
        let more = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '-';
        if self.i >= self.s.len() || !first(self.s[self.i]) {
            self.i = save;
            return None;
        }
        self.i += 1;
        while self.i < self.s.len() && more(self.s[self.i]) && !(self.i + 1 < self.s.len() && self.s[self.i + 1] == '-') {
            self.i += 1;
        }
        Some(self.s[start..self.i].iter().collect())
    }
    fn comma(&mut self) -> bool {
        if !self.lit(",") {
            return false;
        }
        while self.lit(" ") {}
        true
    }
    fn param(&mut self) -> Option<(bool, usize)> {
        let save = self.i;
        for (is_min, key) in [(true, "min_len"), (false, "max_len")] {
            if self.lit(key) && self.lit("=") {
                let mut n: Option<usize> = None;
                let mut sat = false;
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                    let d = self.s[self.i] as usize - '0' as usize;
                    match n.unwrap_or(0).checked_mul(10).and_then(|x| x.checked_add(d)) {
                        Some(x) => n = Some(x),
                        None => {
                            sat = true;
                            n = n.or(Some(0));
                        }
                    }
                    self.i += 1;
                }
                if let Some(n) = n {
                    return Some((is_min, if sat { usize::MAX } else { n }));
                }
            }
            self.i = save;
        }
        None
    }
    fn params(&mut self) -> Vec<(bool, usize)> {
        let mut out = Vec::new();
        if let Some(p) = self.param() {
            out.push(p);
            loop {
                let save = self.i;
                if self.comma() {
                    if let Some(p) = self.param() {
                        out.push(p);
                        continue;
                    }
                }
                self.i = save;
                break;
            }
        }
        out
    }
    fn greedy(&mut self) -> Option<Vec<TSpec>> {
        if !(self.lit("%{") && self.lit("GREEDY")) {
            return None;
        }
        let name = self.name();
        if !self.lit("}") {
            return None;
        }
        let end = self.literal();
        let mut v = vec![TSpec::Par(PSpec::Greedy { end: end.clone(), name })];
        if let Some(e) = end {
            v.push(TSpec::Lit(e));
        }
        Some(v)
    }
    fn set(&mut self) -> Option<TSpec> {
        if !(self.lit("%{") && self.lit("SET") && self.lit("(") && self.lit("\"")) {
            return None;
        }
        let start = self.i;
        while self.i < self.s.len() && self.s[self.i] != '"' {
            self.i += 1;
        }
        if self.i == start {
            return None;
        }
        let set: BTreeSet<char> = self.s[start..self.i].iter().cloned().collect();
        if !self.lit("\"") {
            return None;
        }
        let save = self.i;
        let ps = if self.comma() { self.params() } else { self.i = save; vec![] };
        if !self.lit(")") {
            return None;
        }
        let name = self.name();
        if !self.lit("}") {
            return None;
        }
        let (min, max) = limits(&ps);
        Some(TSpec::Par(PSpec::Set { set, min, max, name }))
    }
    fn int(&mut self) -> Option<TSpec> {
        if !(self.lit("%{") && self.lit("INT")) {
            return None;
        }
        let save = self.i;
        let mut ps = vec![];
        if self.lit("(") {
            ps = self.params();
            if !self.lit(")") {
                ps = vec![];
                self.i = save;
            }
        }
        let name = self.name();
        if !self.lit("}") {
            return None;
        }
        let (min, max) = limits(&ps);
        Some(TSpec::Par(PSpec::Int { min, max, name }))
    }
}

fn limits(ps: &[(bool, usize)]) -> (Option<usize>, Option<usize>) {
    let (mut min, mut max) = (None, None);
    for &(is_min, v) in ps {
        if is_min {
            min = Some(v)
        } else {
            max = Some(v)
        }
    }
    (min, max)
}

/// the escape sequence \%\{ stands for %{
pub fn unescape(raw: &str) -> String {
    let c: Vec<char> = raw.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i..].starts_with(&['\\', '%', '\\', '{']) {
            out.push_str("%{");
            i += 4;
        } else {
            out.push(c[i]);
            i += 1;
        }
    }
    out
}

pub fn compile(text: &str) -> Option<Vec<TSpec>> {
    let cs: Vec<char> = text.chars().collect();
    let mut p = P { s: &cs, i: 0 };
    let mut out = Vec::new();
    while p.i < cs.len() {
        let save = p.i;
        if let Some(v) = p.greedy() {
            out.extend(v);
            continue;
        }
        p.i = save;
        if let Some(l) = p.literal() {
            out.push(TSpec::Lit(l));
            continue;
        }
        p.i = save;
        if let Some(t) = p.set() {
            out.push(t);
            continue;
        }
        p.i = save;
        if let Some(t) = p.int() {
            out.push(t);
            continue;
        }
        return None;
    }
    if out.is_empty() { None } else { Some(out) }
}
