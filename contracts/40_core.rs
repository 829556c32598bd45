// ---------------------------------------------------------------------------
// Patterns and what it means to match one
// ---------------------------------------------------------------------------
/// one step of a pattern: a character of a literal, or a parser
enum Sym { C(char), P(PId) }

struct TMv { message: Seq<char>, values: Map<Seq<char>, Seq<char>>, tags: Option<Seq<Seq<char>>> }

/// everything of a pattern but its tokens
struct Meta {
    name: Option<Seq<char>>,
    uuid: VxUuid,
    values: Option<Map<Seq<char>, Seq<char>>>,
    tags: Option<Seq<Seq<char>>>,
    msgs: Option<Seq<TMv>>,
}

#[verifier::external_body]
#[derive(Clone, Copy)]
struct VxUuid { u: u128 }
impl VxUuid {
    /// any uuid
    #[verifier::external_body]
    fn new_v4() -> (r: VxUuid) { unimplemented!() }
}
impl PartialEqSpecImpl for VxUuid {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VxUuid) -> bool { *self == *o }
}
impl PartialEq for VxUuid {
    #[verifier::external_body]
    fn eq(&self, o: &VxUuid) -> (r: bool) { self.u == o.u }
}

/// contents of a map from strings to strings, as character sequences
uninterp spec fn smap(m: &BTreeMap<String, String>) -> Map<Seq<char>, Seq<char>>;
uninterp spec fn rmap(m: &BTreeMap<&str, &str>) -> Map<Seq<char>, Seq<char>>;

trait VxRefMap<'a, 'b> {
    spec fn rview(&self) -> Map<Seq<char>, Seq<char>>;
    fn vx_insert(&mut self, k: &'a str, v: &'b str) -> (r: Option<&'b str>)
        ensures final(self).rview() == old(self).rview().insert(k@, v@);
}
impl<'a, 'b> VxRefMap<'a, 'b> for BTreeMap<&'a str, &'b str> {
    spec fn rview(&self) -> Map<Seq<char>, Seq<char>> { rmap(self) }
    #[verifier::external_body]
    fn vx_insert(&mut self, k: &'a str, v: &'b str) -> (r: Option<&'b str>) { self.insert(k, v) }
}
#[verifier::external_body]
fn vx_map_new<'a, 'b>() -> (r: BTreeMap<&'a str, &'b str>)
    ensures rmap(&r) == Map::<Seq<char>, Seq<char>>::empty(),
{ BTreeMap::new() }

spec fn svec(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
spec fn otags(o: Option<Vec<String>>) -> Option<Seq<Seq<char>>> {
    match o { Some(v) => Some(svec(v@)), None => None }
}

impl TestMessage {
    spec fn tm(&self) -> TMv { TMv { message: self.message@, values: smap(&self.values), tags: otags(self.tags) } }
}
spec fn omsgs(o: Option<Vec<TestMessage>>) -> Option<Seq<TMv>> {
    match o { Some(v) => Some(Seq::new(v@.len(), |i: int| v@[i].tm())), None => None }
}
spec fn ovals(o: Option<BTreeMap<String, String>>) -> Option<Map<Seq<char>, Seq<char>>> {
    match o { Some(v) => Some(smap(&v)), None => None }
}

impl Pattern {
    spec fn meta(&self) -> Meta {
        Meta { name: oview(self.name), uuid: self.uuid, values: ovals(self.values), tags: otags(self.tags), msgs: omsgs(self.test_messages) }
    }
    spec fn path(&self) -> Seq<Sym> { path_of(self.pattern@) }
}

/// p and q differ in their test messages only
spec fn but_msgs(p: Pattern, q: Pattern) -> bool {
    p.pattern == q.pattern && p.meta() == (Meta { msgs: p.meta().msgs, ..q.meta() })
}
spec fn tms(p: Pattern) -> Seq<TMv> { match p.meta().msgs { Some(s) => s, None => Seq::empty() } }

spec fn lit(s: Seq<char>) -> Seq<Sym> { Seq::new(s.len(), |i: int| Sym::C(s[i])) }

spec fn tok_path(t: TokenType) -> Seq<Sym> {
    match t {
        TokenType::Literal(s) => lit(s@),
        TokenType::Parser(p) => seq![Sym::P(p.pid())],
    }
}

/// the tokens of a pattern as one sequence of characters and parsers
spec fn path_of(t: Seq<TokenType>) -> Seq<Sym>
    decreases t.len(),
{
    if t.len() == 0 { Seq::empty() } else { tok_path(t[0]) + path_of(t.skip(1)) }
}

/// the whole of s is the concatenation of the literals and of what the parsers yield
spec fn matches(p: Seq<Sym>, s: Seq<char>) -> bool
    decreases p.len(),
{
    if p.len() == 0 { s.len() == 0 } else {
        match p[0] {
            Sym::C(c) => s.len() > 0 && s[0] == c && matches(p.skip(1), s.skip(1)),
            Sym::P(q) => match pid_parse(q, s) {
                Some(n) => matches(p.skip(1), s.skip(n as int)),
                None => false,
            },
        }
    }
}

/// name of a parser -> what it consumed; the leftmost parser of a name wins
spec fn binds(p: Seq<Sym>, s: Seq<char>) -> Map<Seq<char>, Seq<char>>
    decreases p.len(),
{
    if p.len() == 0 { Map::empty() } else {
        match p[0] {
            Sym::C(c) => binds(p.skip(1), s.skip(1)),
            Sym::P(q) => match pid_parse(q, s) {
                Some(n) => bind1(binds(p.skip(1), s.skip(n as int)), pname(q), s.take(n as int)),
                None => Map::empty(),
            },
        }
    }
}
spec fn bind1(m: Map<Seq<char>, Seq<char>>, name: Option<Seq<char>>, v: Seq<char>) -> Map<Seq<char>, Seq<char>> {
    match name { Some(n) => m.insert(n, v), None => m }
}

/// a is a prefix of p
spec fn pre(a: Seq<Sym>, p: Seq<Sym>) -> bool { a.len() <= p.len() && p.take(a.len() as int) == a }

proof fn lemma_pre(a: Seq<Sym>, r: Seq<Sym>)
    ensures pre(a, a + r), (a + r).skip(a.len() as int) == r,
{
    assert((a + r).take(a.len() as int) =~= a);
    assert((a + r).skip(a.len() as int) =~= r);
}
proof fn lemma_pre_split(a: Seq<Sym>, p: Seq<Sym>)
    requires pre(a, p),
    ensures p == a + p.skip(a.len() as int),
{
    assert(p =~= p.take(a.len() as int) + p.skip(a.len() as int));
}
proof fn lemma_lit_concat(a: Seq<char>, b: Seq<char>)
    ensures lit(a + b) == lit(a) + lit(b),
{
    assert(lit(a + b) =~= lit(a) + lit(b));
}
/// p starts with lit(a+b) iff it starts with lit(a) and goes on with lit(b)
proof fn lemma_pre_concat(a: Seq<Sym>, b: Seq<Sym>, p: Seq<Sym>)
    ensures pre(a + b, p) <==> pre(a, p) && pre(b, p.skip(a.len() as int)),
        pre(a + b, p) ==> p.skip(a.len() as int).skip(b.len() as int) == p.skip((a + b).len() as int),
{
    if pre(a + b, p) {
        assert(p.take(a.len() as int) =~= a) by {
            assert forall|i: int| 0 <= i < a.len() implies p[i] == a[i] by { assert(p.take((a + b).len() as int)[i] == (a + b)[i]); }
        }
        assert(p.skip(a.len() as int).take(b.len() as int) =~= b) by {
            assert forall|i: int| 0 <= i < b.len() implies p[a.len() + i] == b[i] by { assert(p.take((a + b).len() as int)[a.len() + i] == (a + b)[a.len() + i]); }
        }
    }
    if pre(a, p) && pre(b, p.skip(a.len() as int)) {
        assert(p.take((a + b).len() as int) =~= a + b) by {
            assert forall|i: int| 0 <= i < a.len() + b.len() implies p[i] == (a + b)[i] by {
                if i < a.len() { assert(p.take(a.len() as int)[i] == a[i]); }
                else { assert(p.skip(a.len() as int).take(b.len() as int)[i - a.len()] == b[i - a.len()]); }
            }
        }
    }
    if pre(a + b, p) { assert(p.skip(a.len() as int).skip(b.len() as int) =~= p.skip((a + b).len() as int)); }
}

/// a path that starts with a literal
proof fn lemma_matches_lit(l: Seq<char>, r: Seq<Sym>, s: Seq<char>)
    ensures
        matches(lit(l) + r, s) <==> l.is_prefix_of(s) && matches(r, s.skip(l.len() as int)),
        l.is_prefix_of(s) ==> binds(lit(l) + r, s) == binds(r, s.skip(l.len() as int)),
    decreases l.len(),
{
    let p = lit(l) + r;
    if l.len() == 0 {
        assert(p =~= r);
        assert(s.skip(0) =~= s);
        assert(l =~= s.take(0));
    } else {
        assert(p[0] == Sym::C(l[0]));
        assert(p.skip(1) =~= lit(l.skip(1)) + r);
        if s.len() > 0 && s[0] == l[0] {
            lemma_matches_lit(l.skip(1), r, s.skip(1));
            if l.is_prefix_of(s) {
                assert(s.skip(1).take(l.len() - 1) =~= l.skip(1)) by {
                    assert forall|i: int| 0 <= i < l.len() - 1 implies s.skip(1)[i] == l.skip(1)[i] by { assert(s.take(l.len() as int)[i + 1] == l[i + 1]); }
                }
                assert(s.skip(1).skip(l.len() - 1) =~= s.skip(l.len() as int));
            }
            if l.skip(1).is_prefix_of(s.skip(1)) {
                assert(l =~= s.take(l.len() as int)) by {
                    assert forall|i: int| 0 <= i < l.len() implies s[i] == l[i] by {
                        if i > 0 { assert(s.skip(1).take(l.len() - 1)[i - 1] == l.skip(1)[i - 1]); }
                    }
                }
                assert(s.skip(1).skip(l.len() - 1) =~= s.skip(l.len() as int));
            }
        } else {
            if l.is_prefix_of(s) { assert(s.take(l.len() as int)[0] == l[0]); }
        }
    }
}

/// a path that starts with a parser
proof fn lemma_matches_parser(q: PId, r: Seq<Sym>, s: Seq<char>)
    ensures
        matches(seq![Sym::P(q)] + r, s) <==> pid_parse(q, s) is Some && matches(r, s.skip(pid_parse(q, s)->0 as int)),
        pid_parse(q, s) is Some ==> binds(seq![Sym::P(q)] + r, s) == bind1(binds(r, s.skip(pid_parse(q, s)->0 as int)), pname(q), s.take(pid_parse(q, s)->0 as int)),
{
    let p = seq![Sym::P(q)] + r;
    assert(p.skip(1) =~= r);
}

impl<'a, 'b> MatchResult<'a, 'b> {
    spec fn rmeta(&self) -> Meta { self.pattern.meta() }
    spec fn rvals(&self) -> Map<Seq<char>, Seq<char>> { rmap(&self.values) }
    /// the result reports pattern m, whose path is p, matched on s
    spec fn is_match(&self, p: Seq<Sym>, m: Meta, s: Seq<char>) -> bool {
        &&& matches(p, s)
        &&& self.rmeta() == m
        &&& self.rvals() == binds(p, s)
    }
}
/// tokens as the grammar makes them: no empty literal, no two literals in a row
spec fn canonical(t: Seq<TokenType>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> match #[trigger] t[i] { TokenType::Literal(s) => s@.len() > 0, TokenType::Parser(p) => true }
    &&& forall|i: int| 0 <= i < t.len() - 1 ==> (#[trigger] t[i]) is Parser || t[i + 1] is Parser
}
