// ---------------------------------------------------------------------------
// Parsers: identity, behaviour, hash
// ---------------------------------------------------------------------------
/// everything that distinguishes one parser from another
enum PId {
    /// SET and INT
    Run { isint: bool, name: Option<Seq<char>>, set: Set<char>, min: Option<usize>, max: Option<usize> },
    Greedy { name: Option<Seq<char>>, end: Option<Seq<char>> },
}

spec fn pname(p: PId) -> Option<Seq<char>> {
    match p {
        PId::Run { isint, name, set, min, max } => name,
        PId::Greedy { name, end } => name,
    }
}

spec fn prenamed(p: PId, n: Option<Seq<char>>) -> PId {
    match p {
        PId::Run { isint, name, set, min, max } => PId::Run { isint, name: n, set, min, max },
        PId::Greedy { name, end } => PId::Greedy { name: n, end },
    }
}

spec fn digits() -> Set<char> { "0123456789"@.to_set() }

/// number of characters at the front of s that are in the set
spec fn run_len(set: Set<char>, s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() > 0 && set.contains(s[0]) { 1 + run_len(set, s.skip(1)) } else { 0 }
}

spec fn len_ok(n: nat, min: Option<usize>, max: Option<usize>) -> bool {
    n > 0 && (match min { Some(x) => n >= x, None => true }) && (match max { Some(x) => n <= x, None => true })
}

/// number of characters the parser consumes at the front of s, if it matches
spec fn pid_parse(p: PId, s: Seq<char>) -> Option<nat> {
    match p {
        PId::Run { isint, name, set, min, max } => if len_ok(run_len(set, s), min, max) { Some(run_len(set, s)) } else { None },
        PId::Greedy { name, end } => match end {
            None => Some(s.len()),
            Some(e) => if exists|k: int| is_first_occ(s, e, k) { Some((choose|k: int| is_first_occ(s, e, k)) as nat) } else { None },
        },
    }
}

proof fn lemma_run_len(set: Set<char>, s: Seq<char>)
    ensures run_len(set, s) <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 && set.contains(s[0]) { lemma_run_len(set, s.skip(1)); }
}

proof fn lemma_run_step(set: Set<char>, s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures
        k < s.len() && set.contains(s[k]) ==> run_len(set, s.skip(k)) == 1 + run_len(set, s.skip(k + 1)),
        k == s.len() || !set.contains(s[k]) ==> run_len(set, s.skip(k)) == 0,
        k < s.len() ==> s.skip(k).skip(1) == s.skip(k + 1) && s.skip(k)[0] == s[k] && s.take(k + 1) == s.take(k).push(s[k]),
{
    if k < s.len() {
        assert(s.skip(k).skip(1) =~= s.skip(k + 1));
        assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    }
}

/// what run_len means: the longest prefix made of characters of the set
proof fn lemma_run_len_spec(set: Set<char>, s: Seq<char>)
    ensures
        run_len(set, s) <= s.len(),
        forall|i: int| 0 <= i < run_len(set, s) ==> set.contains(#[trigger] s[i]),
        run_len(set, s) < s.len() ==> !set.contains(s[run_len(set, s) as int]),
    decreases s.len(),
{
    if s.len() > 0 && set.contains(s[0]) {
        lemma_run_len_spec(set, s.skip(1));
        assert forall|i: int| 0 <= i < run_len(set, s) implies set.contains(#[trigger] s[i]) by {
            if i > 0 { assert(s.skip(1)[i - 1] == s[i]); }
        }
    }
}

proof fn lemma_first_occ_unique(s: Seq<char>, e: Seq<char>, k: int)
    requires is_first_occ(s, e, k),
    ensures 0 <= k <= s.len(), forall|j: int| is_first_occ(s, e, j) ==> j == k,
{
    assert forall|j: int| is_first_occ(s, e, j) implies j == k by {
        if j < k { assert(!occurs_at(s, e, j)); }
        if k < j { assert(!occurs_at(s, e, k)); }
    }
}

proof fn lemma_pid_parse_len(p: PId, s: Seq<char>)
    ensures match pid_parse(p, s) { Some(n) => n <= s.len(), None => true },
{
    match p {
        PId::Run { isint, name, set, min, max } => { lemma_run_len(set, s); }
        PId::Greedy { name, end } => {
            if end is Some && exists|k: int| is_first_occ(s, end->0, k) {
                lemma_first_occ_unique(s, end->0, choose|k: int| is_first_occ(s, end->0, k));
            }
        }
    }
}

proof fn lemma_blen_push(s: Seq<char>, c: char)
    ensures blen(s.push(c)) == blen(s) + encode_scalar(c as u32).len(), 1 <= encode_scalar(c as u32).len() <= 4,
{
    lemma_scalar_len(c);
    assert(s.push(c) =~= s + seq![c]);
    lemma_blen_concat(s, seq![c]);
}

// ----- hash
spec fn pid_stream(p: PId) -> Seq<HVal> {
    match p {
        PId::Run { isint, name, set, min, max } => seq![
            HVal::Str(if isint { "parser:int"@ } else { "parser:set"@ }),
            HVal::OptStr(name), HVal::Chars(set), HVal::OptUsize(min), HVal::OptUsize(max)],
        PId::Greedy { name, end } => seq![HVal::Str("parser:greedy"@), HVal::OptStr(name), HVal::OptStr(end)],
    }
}

spec fn pid_hash(p: PId) -> u64 { sip(pid_stream(p)) }

/// two parsers are merged exactly if they are the same
proof fn lemma_pid_hash(a: PId, b: PId)
    ensures pid_hash(a) == pid_hash(b) <==> a == b,
{
    if pid_hash(a) == pid_hash(b) {
        let (x, y) = (pid_stream(a), pid_stream(b));
        reveal_strlit("parser:int");
        reveal_strlit("parser:set");
        reveal_strlit("parser:greedy");
        assert("parser:int"@[7] == 'i' && "parser:set"@[7] == 's' && "parser:greedy"@[7] == 'g');
        assert(x.subrange(0, 0) =~= y.subrange(0, 0));
        axiom_sip_injective(x, y, 0);
        assert(x.subrange(0, 1) =~= y.subrange(0, 1));
        axiom_sip_injective(x, y, 1);
        assert(x.subrange(0, 2) =~= y.subrange(0, 2));
        axiom_sip_injective(x, y, 2);
        if let PId::Run { .. } = a {
            assert(x.subrange(0, 3) =~= y.subrange(0, 3));
            axiom_sip_injective(x, y, 3);
            assert(x.subrange(0, 4) =~= y.subrange(0, 4));
            axiom_sip_injective(x, y, 4);
        }
    }
}

/// a parser behind a pointer (`Box<Parser>`, `&Parser`): dynamic dispatch reaches one of the
/// implementations, each of which is verified against the contract of the trait
#[verifier::external_body]
struct PDyn { p: u64 }
impl PDyn {
    uninterp spec fn pid(&self) -> PId;
    #[verifier::external_body]
    fn parse<'a, 'b>(&'a self, value: &'b str) -> (r: Option<ParseResult<'a, 'b>>)
        ensures parse_post(self.pid(), value@, r),
    { unimplemented!() }
    #[verifier::external_body]
    fn name(&self) -> (r: Option<&str>)
        ensures orview(r) == pname(self.pid()),
    { unimplemented!() }
    #[verifier::external_body]
    fn set_name(&mut self, name: Option<String>)
        ensures final(self).pid() == prenamed(old(self).pid(), oview(name)),
    { unimplemented!() }
    #[verifier::external_body]
    fn boxed_clone(&self) -> (r: Box<PDyn>)
        ensures r.pid() == self.pid(),
    { unimplemented!() }
    #[verifier::external_body]
    fn hash_os(&self) -> (r: u64)
        ensures r == pid_hash(self.pid()),
    { unimplemented!() }
}
/// unsizing coercions
#[verifier::external_body]
fn vx_as_dyn<P: ObjectSafeHash>(p: &P) -> (r: &PDyn)
    ensures r.pid() == p.pid(),
{ unimplemented!() }
#[verifier::external_body]
fn vx_box_dyn<P: ObjectSafeHash>(p: P) -> (r: Box<PDyn>)
    ensures r.pid() == p.pid(),
{ unimplemented!() }

/// contract of Parser::parse: the value is the consumed prefix, reported under the parser's name
spec fn parse_post(p: PId, s: Seq<char>, r: Option<ParseResult>) -> bool {
    match r {
        Some(x) => pid_parse(p, s) == Some(x.value@.len()) && x.value@ == s.take(x.value@.len() as int)
            && x.value@.len() <= s.len() && pname(x.parser.pid()) == pname(p),
        None => pid_parse(p, s) is None,
    }
}

proof fn lemma_greedy(name: Option<Seq<char>>, e: Seq<char>, s: Seq<char>, k: int)
    requires is_first_occ(s, e, k),
    ensures pid_parse(PId::Greedy { name, end: Some(e) }, s) == Some(k as nat), 0 <= k <= s.len(),
        is_bdy(s, blen(s.take(k)) as int), cidx(s, blen(s.take(k)) as int) == k,
{
    lemma_first_occ_unique(s, e, k);
    lemma_cidx(s, k);
    let j = choose|j: int| is_first_occ(s, e, j);
    assert(is_first_occ(s, e, j));
}

// ----- parsers made from the parameters given in a pattern text
spec fn param(p: OptionalParameter) -> (Seq<char>, usize) {
    match p { OptionalParameter::Int(k, v) => (k@, v) }
}
spec fn params(v: Seq<OptionalParameter>) -> Seq<(Seq<char>, usize)> { Seq::new(v.len(), |i: int| param(v[i])) }
spec fn oparams(o: Option<Vec<OptionalParameter>>) -> Option<Seq<(Seq<char>, usize)>> {
    match o { Some(v) => Some(params(v@)), None => None }
}
struct Lims { min: Option<usize>, max: Option<usize> }
/// the limits after one more parameter
spec fn lim1(a: Lims, p: (Seq<char>, usize)) -> Lims {
    if p.0 == "min_len"@ { Lims { min: Some(p.1), ..a } } else if p.0 == "max_len"@ { Lims { max: Some(p.1), ..a } } else { a }
}
spec fn lims(a: Lims, ps: Seq<(Seq<char>, usize)>) -> Lims
    decreases ps.len(),
{
    if ps.len() == 0 { a } else { lims(lim1(a, ps[0]), ps.skip(1)) }
}
spec fn olims(o: Option<Seq<(Seq<char>, usize)>>) -> Lims {
    let a = Lims { min: None, max: None };
    match o { Some(ps) => lims(a, ps), None => a }
}
spec fn mk_set(set: Seq<char>, name: Option<Seq<char>>, ps: Option<Seq<(Seq<char>, usize)>>) -> PId {
    PId::Run { isint: false, name, set: set.to_set(), min: olims(ps).min, max: olims(ps).max }
}
spec fn mk_int(name: Option<Seq<char>>, ps: Option<Seq<(Seq<char>, usize)>>) -> PId {
    PId::Run { isint: true, name, set: digits(), min: olims(ps).min, max: olims(ps).max }
}
spec fn mk_greedy(name: Option<Seq<char>>, end: Option<Seq<char>>) -> PId { PId::Greedy { name, end } }
