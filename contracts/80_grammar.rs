// ---------------------------------------------------------------------------
// The pattern language: every rule maps the text at hand to what is left behind the match and the value
// ---------------------------------------------------------------------------
/// a token of a compiled pattern
enum Tok { Lit(Seq<char>), Par(PId) }
spec fn tok(t: TokenType) -> Tok { match t { TokenType::Literal(s) => Tok::Lit(s@), TokenType::Parser(p) => Tok::Par(p.pid()) } }
spec fn toks(v: Seq<TokenType>) -> Seq<Tok> { Seq::new(v.len(), |i: int| tok(v[i])) }

type Params = Seq<(Seq<char>, usize)>;

/// the part of s in front of rest
spec fn before(s: Seq<char>, rest: Seq<char>) -> Seq<char> { s.take(s.len() - rest.len()) }
spec fn eat(s: Seq<char>, m: Seq<char>) -> Option<(Seq<char>, ())> { if m.is_prefix_of(s) { Some((s.skip(m.len() as int), ())) } else { None } }
spec fn word(s: Seq<char>, m: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { if m.is_prefix_of(s) { Some((s.skip(m.len() as int), m)) } else { None } }
spec fn opt<V>(s: Seq<char>, g: Option<(Seq<char>, V)>) -> (Seq<char>, Option<V>) {
    match g { Some((r, v)) => (r, Some(v)), None => (s, None) }
}
/// s without what stands in front of the first m
spec fn until(s: Seq<char>, m: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 || m.is_prefix_of(s) { s } else { until(s.skip(1), m) }
}
/// one or more characters up to m or the end
spec fn g_text(s: Seq<char>, m: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let r = until(s, m);
    if r.len() < s.len() { Some((r, before(s, r))) } else { None }
}
spec fn g_literal(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { g_text(s, "%{"@) }
spec fn g_string(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match eat(s, "\""@) {
        Some((a, _)) => match g_text(a, "\""@) {
            Some((b, v)) => match eat(b, "\""@) { Some((c, _)) => Some((c, v)), None => None },
            None => None,
        },
        None => None,
    }
}
spec fn alpha(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
spec fn digit(c: char) -> bool { '0' <= c <= '9' }
spec fn id_first(c: char) -> bool { alpha(c) || c == '_' || c == '.' }
spec fn id_char(c: char) -> bool { alpha(c) || digit(c) || c == '-' || c == '_' || c == '.' }
spec fn id_rest(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && id_char(s[0]) && !(s.len() > 1 && s[1] == '-') { id_rest(s.skip(1)) } else { s }
}
spec fn g_identifier(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if s.len() > 0 && id_first(s[0]) { Some((id_rest(s.skip(1)), before(s, id_rest(s.skip(1))))) } else { None }
}
spec fn g_name(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match eat(s, ":"@) { Some((a, _)) => g_identifier(a), None => None }
}
spec fn spaces(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && s[0] == ' ' { spaces(s.skip(1)) } else { s }
}
spec fn g_comma(s: Seq<char>) -> Option<(Seq<char>, ())> {
    match eat(s, ","@) { Some((a, _)) => Some((spaces(a), ())), None => None }
}
spec fn after_digits(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && digit(s[0]) { after_digits(s.skip(1)) } else { s }
}
/// the number written with these digits
spec fn decimal(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { 10 * decimal(s.drop_last()) + (s.last() as nat - '0' as nat) as nat }
}
/// numbers too big count as the biggest one
spec fn g_int(s: Seq<char>) -> Option<(Seq<char>, usize)> {
    let r = after_digits(s);
    if r.len() < s.len() {
        let n = decimal(before(s, r));
        Some((r, if n <= usize::MAX { n as usize } else { usize::MAX }))
    } else { None }
}
spec fn g_param1(s: Seq<char>, key: Seq<char>) -> Option<(Seq<char>, (Seq<char>, usize))> {
    match eat(s, key) {
        Some((a, _)) => match eat(a, "="@) {
            Some((b, _)) => match g_int(b) { Some((c, n)) => Some((c, (key, n))), None => None },
            None => None,
        },
        None => None,
    }
}
spec fn g_param(s: Seq<char>) -> Option<(Seq<char>, (Seq<char>, usize))> {
    match g_param1(s, "min_len"@) { Some(x) => Some(x), None => g_param1(s, "max_len"@) }
}
/// zero or more parameters separated by commas, after those in ps
spec fn g_params(s: Seq<char>, ps: Params) -> (Seq<char>, Params)
    decreases s.len(),
{
    match (if ps.len() == 0 { Some((s, ())) } else { g_comma(s) }) {
        Some((a, _)) => match g_param(a) {
            Some((b, p)) => if b.len() < s.len() { g_params(b, ps.push(p)) } else { (s, ps) },
            None => (s, ps),
        },
        None => (s, ps),
    }
}
spec fn g_set_params(s: Seq<char>) -> Option<(Seq<char>, Params)> {
    match g_comma(s) { Some((a, _)) => Some(g_params(a, Seq::empty())), None => None }
}
spec fn g_int_params(s: Seq<char>) -> Option<(Seq<char>, Params)> {
    match eat(s, "("@) {
        Some((a, _)) => {
            let (b, ps) = g_params(a, Seq::empty());
            match eat(b, ")"@) { Some((c, _)) => Some((c, ps)), None => None }
        }
        None => None,
    }
}
spec fn g_set_tail(c: Seq<char>, set: Seq<char>) -> Option<(Seq<char>, PId)> {
    let (d, ps) = opt(c, g_set_params(c));
    match eat(d, ")"@) {
        Some((e, _)) => { let (f, name) = opt(e, g_name(e)); Some((f, mk_set(set, name, ps))) }
        None => None,
    }
}
spec fn g_set(s: Seq<char>) -> Option<(Seq<char>, PId)> {
    match eat(s, "SET"@) {
        Some((a, _)) => match eat(a, "("@) {
            Some((b, _)) => match g_string(b) { Some((c, set)) => g_set_tail(c, set), None => None },
            None => None,
        },
        None => None,
    }
}
spec fn g_intp(s: Seq<char>) -> Option<(Seq<char>, PId)> {
    match eat(s, "INT"@) {
        Some((a, _)) => {
            let (b, ps) = opt(a, g_int_params(a));
            let (c, name) = opt(b, g_name(b));
            Some((c, mk_int(name, ps)))
        }
        None => None,
    }
}
spec fn g_parser(s: Seq<char>) -> Option<(Seq<char>, PId)> {
    match g_set(s) { Some(x) => Some(x), None => g_intp(s) }
}
spec fn g_piece_parser(s: Seq<char>) -> Option<(Seq<char>, Seq<Tok>)> {
    match eat(s, "%{"@) {
        Some((a, _)) => match g_parser(a) {
            Some((b, p)) => match eat(b, "}"@) { Some((c, _)) => Some((c, seq![Tok::Par(p)])), None => None },
            None => None,
        },
        None => None,
    }
}
spec fn g_piece_literal(s: Seq<char>) -> Option<(Seq<char>, Seq<Tok>)> {
    match g_literal(s) { Some((a, l)) => Some((a, seq![Tok::Lit(unescaped(l))])), None => None }
}
spec fn greedy_toks(name: Option<Seq<char>>, l: Option<Seq<char>>) -> Seq<Tok> {
    match l {
        Some(l) => seq![Tok::Par(mk_greedy(name, Some(unescaped(l)))), Tok::Lit(unescaped(l))],
        None => seq![Tok::Par(mk_greedy(name, None))],
    }
}
spec fn g_greedy(s: Seq<char>) -> Option<(Seq<char>, Seq<Tok>)> {
    match eat(s, "%{"@) {
        Some((a, _)) => match eat(a, "GREEDY"@) {
            Some((b, _)) => {
                let (c, name) = opt(b, g_name(b));
                match eat(c, "}"@) {
                    Some((d, _)) => { let (e, l) = opt(d, g_literal(d)); Some((e, greedy_toks(name, l))) }
                    None => None,
                }
            }
            None => None,
        },
        None => None,
    }
}
spec fn g_piece(s: Seq<char>) -> Option<(Seq<char>, Seq<Tok>)> {
    match g_greedy(s) {
        Some(x) => Some(x),
        None => match g_piece_literal(s) { Some(x) => Some(x), None => g_piece_parser(s) },
    }
}
/// as many pieces as there are, after those in ts
spec fn g_pieces(s: Seq<char>, ts: Seq<Tok>) -> (Seq<char>, Seq<Tok>)
    decreases s.len(),
{
    match g_piece(s) {
        Some((a, t)) => if a.len() < s.len() { g_pieces(a, ts + t) } else { (s, ts) },
        None => (s, ts),
    }
}
spec fn g_pattern(s: Seq<char>) -> Option<(Seq<char>, Seq<Tok>)> {
    if g_piece(s) is Some { Some(g_pieces(s, Seq::empty())) } else { None }
}
/// the tokens of a pattern text, if it is one
spec fn compiled(s: Seq<char>) -> Option<Seq<Tok>> {
    match g_pattern(s) { Some((r, ts)) => if r.len() == 0 { Some(ts) } else { None }, None => None }
}

/// every m in s replaced by w
spec fn replaced(s: Seq<char>, m: Seq<char>, w: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s }
    else if m.len() > 0 && m.is_prefix_of(s) { w + replaced(s.skip(m.len() as int), m, w) }
    else { seq![s[0]] + replaced(s.skip(1), m, w) }
}
spec fn unescaped(s: Seq<char>) -> Seq<char> { replaced(s, r#"\%\{"#@, "%{"@) }

// ----- positions
spec fn rem(s: Seq<char>, pos: int) -> Seq<char> { s.skip(cidx(s, pos)) }

trait GView {
    type V;
    spec fn gv(&self) -> Self::V;
}
impl GView for () { type V = (); spec fn gv(&self) -> () { () } }
impl GView for usize { type V = usize; spec fn gv(&self) -> usize { *self } }
impl<'a> GView for &'a str { type V = Seq<char>; spec fn gv(&self) -> Seq<char> { self@ } }
impl<'a> GView for OptionalParameter<'a> { type V = (Seq<char>, usize); spec fn gv(&self) -> (Seq<char>, usize) { param(*self) } }
impl<'a> GView for Vec<OptionalParameter<'a>> { type V = Params; spec fn gv(&self) -> Params { params(self@) } }
impl GView for Box<PDyn> { type V = PId; spec fn gv(&self) -> PId { self.pid() } }
impl GView for Vec<TokenType> { type V = Seq<Tok>; spec fn gv(&self) -> Seq<Tok> { toks(self@) } }

/// a rule applied at pos had the outcome g
spec fn gave<T: GView>(s: Seq<char>, pos: int, r: RuleResult<T>, g: Option<(Seq<char>, T::V)>) -> bool {
    match r {
        RuleResult::Matched(np, v) => is_bdy(s, np as int) && pos <= np && g is Some && rem(s, np as int) == (g->0).0 && v.gv() == (g->0).1,
        RuleResult::Failed => g is None,
    }
}
spec fn sane(s: Seq<char>, st: ParseState) -> bool { st.max_err_pos <= blen(s) }

broadcast proof fn lemma_rem(s: Seq<char>, n: int)
    requires is_bdy(s, n),
    ensures #![trigger rem(s, n)]
        0 <= n <= blen(s), 0 <= cidx(s, n) <= s.len(), rem(s, n).len() == s.len() - cidx(s, n), rem(s, n).len() == 0 <==> n == blen(s),
        blen(rem(s, n)) == blen(s) - n,
{
    lemma_bdy_range(s, n);
    lemma_blen_pos(rem(s, n));
}
/// the text between two positions
broadcast proof fn lemma_between(s: Seq<char>, a: int, b: int)
    requires is_bdy(s, a), is_bdy(s, b), a <= b,
    ensures #![trigger s.subrange(cidx(s, a), cidx(s, b))]
        cidx(s, a) <= cidx(s, b), s.subrange(cidx(s, a), cidx(s, b)) == before(rem(s, a), rem(s, b)),
{
    lemma_bdy_range(s, a);
    lemma_bdy_range(s, b);
    if cidx(s, b) < cidx(s, a) { lemma_blen_take_mono(s, cidx(s, b), cidx(s, a)); }
    assert(s.subrange(cidx(s, a), cidx(s, b)) =~= before(rem(s, a), rem(s, b)));
}
/// a step of k characters from position n
proof fn lemma_step(s: Seq<char>, n: int, k: int)
    requires is_bdy(s, n), 0 <= k <= rem(s, n).len(),
    ensures ({
        let m = n + blen(rem(s, n).take(k));
        &&& is_bdy(s, m) && n <= m <= blen(s)
        &&& rem(s, m) == rem(s, n).skip(k)
        &&& k > 0 ==> n < m
    }),
{
    lemma_bdy_range(s, n);
    let c = cidx(s, n);
    let m = n + blen(rem(s, n).take(k));
    assert(s.take(c + k) =~= s.take(c) + rem(s, n).take(k));
    lemma_blen_concat(s.take(c), rem(s, n).take(k));
    lemma_cidx(s, c + k);
    lemma_bdy_range(s, m);
    assert(rem(s, m) =~= rem(s, n).skip(k));
    lemma_blen_pos(rem(s, n).take(k));
}
/// bytes at a position agree with m exactly if the characters do
proof fn lemma_eat(s: Seq<char>, n: int, m: Seq<char>)
    requires is_bdy(s, n),
    ensures
        m.is_prefix_of(rem(s, n)) <==> n + blen(m) <= blen(s) && encode_utf8(s).subrange(n, n + blen(m)) == encode_utf8(m),
        m.is_prefix_of(rem(s, n)) ==> is_bdy(s, n + blen(m)) && rem(s, n + blen(m)) == rem(s, n).skip(m.len() as int) && before(rem(s, n), rem(s, n).skip(m.len() as int)) == m,
{
    lemma_bdy_range(s, n);
    let t = rem(s, n);
    encode_utf8_concat(s.take(cidx(s, n)), t);
    let l = blen(m) as int;
    if n + l <= blen(s) {
        assert(encode_utf8(s).subrange(n, n + l) =~= encode_utf8(t).take(l));
    }
    if m.is_prefix_of(t) {
        lemma_prefix_bytes(m, t);
        assert(t.take(m.len() as int) =~= m);
        lemma_step(s, n, m.len() as int);
        assert(before(t, t.skip(m.len() as int)) =~= m);
    }
    if n + l <= blen(s) && encode_utf8(s).subrange(n, n + l) == encode_utf8(m) {
        lemma_byte_prefix(m, t);
    }
}

// ----- every rule consumes something
proof fn lemma_lens()
    ensures "%{"@.len() == 2, "SET"@.len() == 3, "INT"@.len() == 3, "GREEDY"@.len() == 6, "min_len"@.len() == 7, "max_len"@.len() == 7,
        ","@.len() == 1, "="@.len() == 1, ":"@.len() == 1, " "@.len() == 1, "\""@.len() == 1, "("@.len() == 1, ")"@.len() == 1, "}"@.len() == 1,
        " "@[0] == ' ',
{
    reveal_strlit("%{"); reveal_strlit("SET"); reveal_strlit("INT"); reveal_strlit("GREEDY"); reveal_strlit("min_len"); reveal_strlit("max_len");
    reveal_strlit(","); reveal_strlit("="); reveal_strlit(":"); reveal_strlit(" "); reveal_strlit("\""); reveal_strlit("("); reveal_strlit(")"); reveal_strlit("}");
}
proof fn lemma_runs(s: Seq<char>, m: Seq<char>)
    ensures until(s, m).len() <= s.len(), id_rest(s).len() <= s.len(), spaces(s).len() <= s.len(), after_digits(s).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_runs(s.skip(1), m); }
}
broadcast proof fn lemma_param_eats(s: Seq<char>)
    ensures #![trigger g_param(s)] g_param(s) is Some ==> (g_param(s)->0).0.len() < s.len(),
{
    lemma_lens();
}
broadcast proof fn lemma_comma_eats(s: Seq<char>)
    ensures #![trigger g_comma(s)] g_comma(s) is Some ==> (g_comma(s)->0).0.len() < s.len(),
{
    lemma_lens();
    lemma_runs(s.skip(1), s);
}
broadcast proof fn lemma_name_eats(s: Seq<char>)
    ensures #![trigger g_name(s)] g_name(s) is Some ==> (g_name(s)->0).0.len() < s.len(),
{
    lemma_lens();
    lemma_runs(s.skip(1).skip(1), s);
}
proof fn lemma_params_len(s: Seq<char>, ps: Params)
    ensures g_params(s, ps).0.len() <= s.len(),
    decreases s.len(),
{
    match (if ps.len() == 0 { Some((s, ())) } else { g_comma(s) }) {
        Some((a, _)) => match g_param(a) {
            Some((b, p)) => if b.len() < s.len() { lemma_params_len(b, ps.push(p)); }
            None => {}
        },
        None => {}
    }
}
proof fn lemma_string_len(s: Seq<char>)
    ensures g_string(s) is Some ==> (g_string(s)->0).0.len() < s.len(),
{
    lemma_lens();
}
proof fn lemma_parser_len(s: Seq<char>)
    ensures g_parser(s) is Some ==> (g_parser(s)->0).0.len() < s.len(),
{
    broadcast use {lemma_comma_eats, lemma_name_eats};
    lemma_lens();
    if let Some((a, _)) = eat(s, "SET"@) {
        if let Some((b, _)) = eat(a, "("@) {
            lemma_string_len(b);
            if let Some((c, set)) = g_string(b) {
                if let Some((d, _)) = g_comma(c) { lemma_params_len(d, Seq::empty()); }
            }
        }
    }
    if let Some((a, _)) = eat(s, "INT"@) {
        if let Some((b, _)) = eat(a, "("@) { lemma_params_len(b, Seq::empty()); }
    }
}
broadcast proof fn lemma_piece_eats(s: Seq<char>)
    ensures #![trigger g_piece(s)] g_piece(s) is Some ==> (g_piece(s)->0).0.len() < s.len(),
{
    broadcast use {lemma_name_eats};
    lemma_lens();
    if let Some((a, _)) = eat(s, "%{"@) { lemma_parser_len(a); }
}

// ----- values
broadcast proof fn lemma_word(s: Seq<char>, m: Seq<char>)
    ensures #![trigger word(s, m)] word(s, m) is Some ==> before(s, s.skip(m.len() as int)) == m,
{
    if m.is_prefix_of(s) { assert(before(s, s.skip(m.len() as int)) =~= m); }
}
broadcast proof fn lemma_toks_push(v: Seq<TokenType>, t: TokenType)
    ensures #![trigger toks(v.push(t))] toks(v.push(t)) == toks(v).push(tok(t)), v.len() == 0 ==> toks(v.push(t)) == seq![tok(t)],
        v.len() == 1 ==> toks(v.push(t)) == seq![tok(v[0]), tok(t)],
{
    if v.len() == 1 { assert(toks(v.push(t)) =~= seq![tok(v[0]), tok(t)]); }
    assert(toks(v.push(t)) =~= toks(v).push(tok(t)));
    if v.len() == 0 { assert(toks(v.push(t)) =~= seq![tok(t)]); }
}
/// a SET or INT parser after the parameters to come
spec fn after_params(p: PId, ps: Params) -> PId {
    match p {
        PId::Run { isint, name, set, min, max } => PId::Run { isint, name, set, min: lims(Lims { min, max }, ps).min, max: lims(Lims { min, max }, ps).max },
        _ => p,
    }
}
broadcast proof fn lemma_params_next(v: Seq<OptionalParameter>)
    ensures #![trigger params(v.remove(0))] v.len() > 0 ==> params(v).len() > 0 && params(v)[0] == param(v[0]) && params(v).skip(1) == params(v.remove(0)),
{
    if v.len() > 0 { assert(params(v).skip(1) =~= params(v.remove(0))); }
}
broadcast proof fn lemma_params_none(v: Seq<OptionalParameter>)
    ensures #![trigger params(v)] v.len() == 0 ==> params(v) == Params::empty(),
{
    if v.len() == 0 { assert(params(v) =~= Params::empty()); }
}
broadcast proof fn lemma_params_push(v: Seq<OptionalParameter>, p: OptionalParameter)
    ensures #![trigger params(v.push(p))] params(v.push(p)) == params(v).push(param(p)),
{
    assert(params(v.push(p)) =~= params(v).push(param(p)));
}
spec fn flatt(v: Seq<Vec<TokenType>>) -> Seq<Tok>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else { flatt(v.drop_last()) + toks(v.last()@) }
}
broadcast proof fn lemma_flat_push(v: Seq<Vec<TokenType>>, p: Vec<TokenType>)
    ensures #![trigger flatt(v.push(p))] flatt(v.push(p)) == flatt(v) + toks(p@),
{
    assert(v.push(p).drop_last() =~= v);
}
proof fn lemma_sflat_push<T>(v: Seq<Vec<T>>, p: Vec<T>)
    ensures flat(v.push(p)) == flat(v) + p@,
    decreases v.len(),
{
    if v.len() == 0 {
        assert(v.push(p).skip(1) =~= Seq::empty());
        assert(flat(Seq::<Vec<T>>::empty()) =~= Seq::empty());
        assert(flat(v.push(p)) =~= p@);
    } else {
        assert(v.push(p).skip(1) =~= v.skip(1).push(p));
        lemma_sflat_push(v.skip(1), p);
        assert(flat(v.push(p)) =~= flat(v) + p@);
    }
}
broadcast proof fn lemma_flat(v: Seq<Vec<TokenType>>)
    ensures #![trigger flat(v)] toks(flat(v)) == flatt(v),
    decreases v.len(),
{
    if v.len() > 0 {
        lemma_flat(v.drop_last());
        assert(v.drop_last().push(v.last()) =~= v);
        lemma_sflat_push(v.drop_last(), v.last());
        assert(toks(flat(v)) =~= toks(flat(v.drop_last())) + toks(v.last()@));
    } else {
        assert(toks(flat(v)) =~= Seq::empty());
    }
}
// ----- shape of what the grammar makes
spec fn tcanon(t: Seq<Tok>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> match #[trigger] t[i] { Tok::Lit(s) => s.len() > 0, Tok::Par(p) => true }
    &&& forall|i: int| 0 <= i < t.len() - 1 ==> (#[trigger] t[i]) is Par || t[i + 1] is Par
}
/// a literal cannot follow
spec fn closed_by(ts: Seq<Tok>, s: Seq<char>) -> bool { ts.len() > 0 && ts.last() is Lit ==> until(s, "%{"@) == s }
proof fn lemma_until_twice(s: Seq<char>, m: Seq<char>)
    ensures until(until(s, m), m) == until(s, m), until(s, m).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_until_twice(s.skip(1), m); }
}
proof fn lemma_literal_shape(s: Seq<char>)
    ensures match g_literal(s) { Some((a, l)) => until(a, "%{"@) == a && unescaped(l).len() > 0 && !("%{"@.is_prefix_of(s)), None => true },
{
    lemma_until_twice(s, "%{"@);
    lemma_lens();
    reveal_strlit("%{");
}
proof fn lemma_piece_shape(s: Seq<char>, ts: Seq<Tok>)
    requires tcanon(ts), closed_by(ts, s),
    ensures match g_piece(s) { Some((a, t)) => tcanon(ts + t) && closed_by(ts + t, a), None => true },
{
    lemma_literal_shape(s);
    if let Some((a, t)) = g_piece(s) {
        if let Some((x, _)) = eat(s, "%{"@) {
            if let Some((b, _)) = eat(x, "GREEDY"@) {
                let (c, name) = opt(b, g_name(b));
                if let Some((d, _)) = eat(c, "}"@) { lemma_literal_shape(d); }
            }
        }
        let u = ts + t;
        assert(t.len() == 1 || (t.len() == 2 && t[0] is Par && t[1] is Lit));
        assert(forall|i: int| 0 <= i < u.len() ==> u[i] == if i < ts.len() { ts[i] } else { t[i - ts.len()] });
        assert(u.last() == t.last());
    }
}
proof fn lemma_pieces_shape(s: Seq<char>, ts: Seq<Tok>)
    requires tcanon(ts), closed_by(ts, s),
    ensures tcanon(g_pieces(s, ts).1),
    decreases s.len(),
{
    lemma_piece_shape(s, ts);
    if let Some((a, t)) = g_piece(s) { if a.len() < s.len() { lemma_pieces_shape(a, ts + t); } }
}
/// patterns made by the grammar have no empty literal and no two literals in a row
proof fn lemma_compiled_shape(s: Seq<char>, v: Seq<TokenType>)
    requires compiled(s) == Some(#[trigger] toks(v)),
    ensures canonical(v),
{
    lemma_pieces_shape(s, Seq::empty());
    let t = toks(v);
    assert forall|i: int| 0 <= i < v.len() implies match #[trigger] v[i] { TokenType::Literal(s) => s@.len() > 0, TokenType::Parser(p) => true } by { assert(t[i] == tok(v[i])); }
    assert forall|i: int| 0 <= i < v.len() - 1 implies (#[trigger] v[i]) is Parser || v[i + 1] is Parser by { assert(t[i] == tok(v[i]) && t[i + 1] == tok(v[i + 1])); }
}

// ----- std
#[verifier::external_body]
struct VxErrs { e: u8 }
impl VxErrs {
    #[verifier::external_body]
    fn new() -> VxErrs { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, s: &'static str) -> bool { unimplemented!() }
}
#[verifier::external_body]
struct VxLines<'a> { l: &'a str }
impl<'a> VxLines<'a> {
    #[verifier::external_body]
    fn vx_next(&mut self) -> Option<&'a str> { unimplemented!() }
}
trait VxText {
    spec fn text(&self) -> Seq<char>;
    fn vx_lines(&self) -> VxLines<'_>;
    fn vx_replace(&self, m: &str, w: &str) -> (r: String)
        ensures m@.len() > 0 ==> r@ == replaced(self.text(), m@, w@);
}
impl VxText for str {
    spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_lines(&self) -> VxLines<'_> { unimplemented!() }
    #[verifier::external_body]
    fn vx_replace(&self, m: &str, w: &str) -> (r: String) { self.replace(m, w) }
}
#[verifier::external_body]
fn vx_bytes(s: &[u8], a: usize, b: usize) -> (r: &[u8])
    requires a <= b <= s@.len(),
    ensures r@ == s@.subrange(a as int, b as int),
{ &s[a..b] }
#[verifier::external_body]
fn vx_bytes_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }
#[verifier::external_body]
struct VxIntErr { e: u8 }
/// usize::from_str on a text made of digits
#[verifier::external_body]
fn vx_usize_from_str(s: &str) -> (r: Result<usize, VxIntErr>)
    ensures s@.len() > 0 && (forall|i: int| 0 <= i < s@.len() ==> digit(#[trigger] s@[i])) ==> match r {
        Ok(n) => n == decimal(s@),
        Err(_) => decimal(s@) > usize::MAX,
    },
{ unimplemented!() }
fn vx_usize_max() -> (r: usize)
    ensures r == usize::MAX,
{ usize::MAX }
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (o: std::result::Result<T, E>, d: T) -> (r: T)
    where E: std::marker::Destruct, T: std::marker::Destruct,
    ensures r == match o { Ok(x) => x, Err(_) => d };

proof fn lemma_digits(s: Seq<char>)
    ensures forall|i: int| 0 <= i < before(s, after_digits(s)).len() ==> digit(#[trigger] before(s, after_digits(s))[i]),
    decreases s.len(),
{
    lemma_runs(s, s);
    if s.len() > 0 && digit(s[0]) {
        let r = after_digits(s);
        lemma_digits(s.skip(1));
        lemma_runs(s.skip(1), s);
        assert forall|i: int| 0 <= i < before(s, r).len() implies digit(#[trigger] before(s, r)[i]) by {
            if i > 0 { assert(before(s.skip(1), r)[i - 1] == before(s, r)[i]); }
        }
    }
}
