// ---------------------------------------------------------------------------
// Clones
// ---------------------------------------------------------------------------
impl VxClone for VxUuid {
    spec fn same(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
impl VxClone for BTreeMap<String, String> {
    spec fn same(&self, o: &Self) -> bool { smap(self) == smap(o) }
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
spec fn same_toks(a: Seq<TokenType>, b: Seq<TokenType>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i].same(&b[i])
}
proof fn lemma_same_path(a: Seq<TokenType>, b: Seq<TokenType>)
    requires same_toks(a, b),
    ensures path_of(a) == path_of(b), canonical(a) == canonical(b),
    decreases a.len(),
{
    if a.len() > 0 {
        assert(a[0].same(&b[0]));
        assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] a.skip(1)[i].same(&b.skip(1)[i]) by { assert(a[i + 1].same(&b[i + 1])); }
        lemma_same_path(a.skip(1), b.skip(1));
    }
    assert forall|i: int| 0 <= i < a.len() implies a[i] is Literal == b[i] is Literal && (a[i] is Literal ==> a[i]->Literal_0@.len() == b[i]->Literal_0@.len()) by {
        assert(a[i].same(&b[i]));
        if a[i] is Literal { assert(lit(a[i]->Literal_0@).len() == lit(b[i]->Literal_0@).len()); }
    }
    if canonical(a) {
        assert forall|i: int| 0 <= i < b.len() implies match #[trigger] b[i] { TokenType::Literal(s) => s@.len() > 0, TokenType::Parser(p) => true } by { assert(a[i] is Literal || a[i] is Parser); }
        assert forall|i: int| 0 <= i < b.len() - 1 implies (#[trigger] b[i]) is Parser || b[i + 1] is Parser by { assert(a[i] is Parser || a[i + 1] is Parser); }
    }
    if canonical(b) {
        assert forall|i: int| 0 <= i < a.len() implies match #[trigger] a[i] { TokenType::Literal(s) => s@.len() > 0, TokenType::Parser(p) => true } by { assert(b[i] is Literal || b[i] is Parser); }
        assert forall|i: int| 0 <= i < a.len() - 1 implies (#[trigger] a[i]) is Parser || a[i + 1] is Parser by { assert(b[i] is Parser || b[i + 1] is Parser); }
    }
}
broadcast proof fn lemma_same_tags(a: Option<Vec<String>>, b: Option<Vec<String>>)
    ensures #![trigger a.same(&b)] a.same(&b) ==> otags(a) == otags(b),
{
    if a.same(&b) && a is Some {
        assert forall|i: int| 0 <= i < a->0@.len() implies svec(a->0@)[i] == svec(b->0@)[i] by { assert(a->0@[i].same(&b->0@[i])); }
        assert(svec(a->0@) =~= svec(b->0@));
    }
}
broadcast proof fn lemma_same_msgv(a: Option<Vec<TestMessage>>, b: Option<Vec<TestMessage>>)
    ensures #![trigger a.same(&b)] a.same(&b) ==> omsgs(a) == omsgs(b),
{
    if a.same(&b) && a is Some {
        assert forall|i: int| 0 <= i < a->0@.len() implies omsgs(a)->0[i] == omsgs(b)->0[i] by { assert(a->0@[i].same(&b->0@[i])); }
        assert(omsgs(a)->0 =~= omsgs(b)->0);
    }
}
/// C12: a clone of a pattern has the same tokens and the same data
proof fn theorem_pattern_clone(a: Pattern, b: Pattern)
    requires a.same(&b),
    ensures a.path() == b.path(), a.meta() == b.meta(), canonical(a.pattern@) == canonical(b.pattern@),
{
    lemma_same_path(a.pattern@, b.pattern@);
}
spec fn opat(a: Option<Pattern>, b: Option<Pattern>) -> bool {
    match (a, b) { (Some(x), Some(y)) => x.same(&y), (None, None) => true, _ => false }
}
spec fn same_obs<A: Node, B: Node>(a: A, b: B) -> bool { forall|q: Seq<Sym>, x: Obs| #[trigger] a.full(q, x) == b.full(q, x) }

/// C12: two matchers with the same contents give the same answer
proof fn theorem_c12<A: Node, B: Node>(a: A, b: B, s: Seq<char>, ra: Option<MatchResult>, rb: Option<MatchResult>)
    requires same_obs(a, b), tidy(a), a.canon_(), b.canon_(), complete(a, s, ra), complete(b, s, rb), chosen(a, s, ra), chosen(b, s, rb),
    ensures ra is Some <==> rb is Some, ra is Some ==> ra->0.rmeta() == rb->0.rmeta() && ra->0.rvals() == rb->0.rvals(),
{
    if ra is Some {
        let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] a.full(p, Obs::End(m)) && ra->0.is_match(p, m, s) && best(a, p, s);
        assert(b.full(p, Obs::End(m)));
        assert(matches(p, s));
    }
    if rb is Some {
        let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] b.full(p, Obs::End(m)) && rb->0.is_match(p, m, s) && best(b, p, s);
        assert(a.full(p, Obs::End(m)));
        assert(matches(p, s));
    }
    if ra is Some && rb is Some {
        let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] a.full(p, Obs::End(m)) && ra->0.is_match(p, m, s) && best(a, p, s);
        let (o, w) = choose|p: Seq<Sym>, m: Meta| #[trigger] b.full(p, Obs::End(m)) && rb->0.is_match(p, m, s) && best(b, p, s);
        assert(a.full(o, Obs::End(w)) && b.full(p, Obs::End(m)));
        assert(pref(a, p, o));
        assert(pref(b, o, p));
        let k = choose|k: int| #[trigger] pref_at(a, p, o, k);
        let l = choose|l: int| #[trigger] pref_at(b, o, p, l);
        assert(pref_at(a, o, p, l)) by {
            if l < o.len() && o[l] is P {
                let (x, y) = (o[l]->P_0, p[l]->P_0);
                let (i, j) = choose|i: nat, j: nat| i < j && #[trigger] b.full(o.take(l), Obs::Kid(i, x)) && #[trigger] b.full(o.take(l), Obs::Kid(j, y));
                assert(a.full(o.take(l), Obs::Kid(i, x)) && a.full(o.take(l), Obs::Kid(j, y)));
            }
        }
        if k < l { assert(p.take(l)[k] == o.take(l)[k]); }
        if l < k { assert(p.take(k)[l] == o.take(k)[l]); }
        if k == l && k < p.len() && k < o.len() && p[k] is P && o[k] is P {
            let (x, y) = (p[k]->P_0, o[k]->P_0);
            let q = p.take(k);
            let (i, j) = choose|i: nat, j: nat| i < j && #[trigger] a.full(q, Obs::Kid(i, x)) && #[trigger] a.full(q, Obs::Kid(j, y));
            let (i2, j2) = choose|i: nat, j: nat| i < j && #[trigger] a.full(o.take(k), Obs::Kid(i, y)) && #[trigger] a.full(o.take(k), Obs::Kid(j, x));
            assert(compat(Obs::Kid(i, x), Obs::Kid(j2, x)));
            assert(compat(Obs::Kid(j, y), Obs::Kid(i2, y)));
            assert(false);
        }
        if k == l && k == p.len() && k == o.len() { assert(p =~= p.take(k)); assert(o =~= o.take(k)); }
        assert(p == o);
        assert(compat(Obs::End(m), Obs::End(w)));
    }
}
