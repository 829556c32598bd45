// ---------------------------------------------------------------------------
// What a matcher holds, independent of how it stores it
// ---------------------------------------------------------------------------
/// a fact about one place of a matcher
enum Obs {
    /// a pattern ends here
    End(Meta),
    /// the i-th parser tried here is this one
    Kid(nat, PId),
}

trait Node {
    /// fact x holds at the place reached by q, starting behind this node's own symbols
    spec fn obs(&self, q: Seq<Sym>, x: Obs) -> bool;
    /// the same, starting before them
    spec fn full(&self, q: Seq<Sym>, x: Obs) -> bool;
    /// shape that patterns made by the grammar lead to
    spec fn canon_(&self) -> bool;
}

/// a node a0 becomes a1 if its part b0, reached by pfx, becomes b1
spec fn lens<A: Node, B: Node>(a0: A, a1: A, b0: B, b1: B, pfx: Seq<Sym>) -> bool {
    &&& forall|q: Seq<Sym>, x: Obs| #[trigger] a0.obs(q, x) ==> a1.obs(q, x) || (pre(pfx, q) && b0.obs(q.skip(pfx.len() as int), x))
    &&& forall|r: Seq<Sym>, x: Obs| #[trigger] b1.obs(r, x) ==> a1.obs(pfx + r, x)
    &&& forall|q: Seq<Sym>, x: Obs| #[trigger] a1.obs(q, x) ==> a0.obs(q, x) || (pre(pfx, q) && b1.obs(q.skip(pfx.len() as int), x)) || newkid(q, x, pfx)
    &&& forall|r: Seq<Sym>, x: Obs| #[trigger] b0.obs(r, x) ==> a0.obs(pfx + r, x)
}

/// x is the fact that the parser which follows q on path p is tried there
spec fn newkid(q: Seq<Sym>, x: Obs, p: Seq<Sym>) -> bool {
    match x { Obs::Kid(i, a) => pre(q + seq![Sym::P(a)], p), Obs::End(m) => false }
}

/// pattern (p, m) was added to a0, and nothing else was changed
spec fn put<A: Node>(a0: A, a1: A, p: Seq<Sym>, m: Meta) -> bool {
    &&& a1.obs(p, Obs::End(m))
    &&& forall|q: Seq<Sym>, x: Obs| #[trigger] a0.obs(q, x) && !(q == p && x is End) ==> a1.obs(q, x)
    &&& forall|q: Seq<Sym>, x: Obs| #[trigger] a1.obs(q, x) ==> a0.obs(q, x) || (q == p && x == Obs::End(m)) || newkid(q, x, p)
}

proof fn lemma_pre_trans(a: Seq<Sym>, r: Seq<Sym>, p: Seq<Sym>)
    requires pre(a, p), pre(r, p.skip(a.len() as int)),
    ensures pre(a + r, p), p.skip((a + r).len() as int) == p.skip(a.len() as int).skip(r.len() as int),
{
    lemma_pre_concat(a, r, p);
}

proof fn lemma_newkid(p1: Seq<Sym>, q: Seq<Sym>, x: Obs, p2: Seq<Sym>)
    requires newkid(q, x, p2),
    ensures newkid(p1 + q, x, p1 + p2),
{
    match x {
        Obs::Kid(i, a) => {
            let s = q + seq![Sym::P(a)];
            lemma_pre_split(s, p2);
            assert(p1 + p2 =~= ((p1 + q) + seq![Sym::P(a)]) + p2.skip(s.len() as int));
            lemma_pre((p1 + q) + seq![Sym::P(a)], p2.skip(s.len() as int));
        }
        Obs::End(m) => {}
    }
}
proof fn lemma_newkid_mono(q: Seq<Sym>, x: Obs, p1: Seq<Sym>, p2: Seq<Sym>)
    requires newkid(q, x, p1),
    ensures newkid(q, x, p1 + p2),
{
    match x {
        Obs::Kid(i, a) => {
            let s = q + seq![Sym::P(a)];
            lemma_pre_split(s, p1);
            assert(p1 + p2 =~= s + (p1.skip(s.len() as int) + p2));
            lemma_pre(s, p1.skip(s.len() as int) + p2);
        }
        Obs::End(m) => {}
    }
}

proof fn lemma_lens_compose<A: Node, B: Node, C: Node>(a0: A, a1: A, b0: B, b1: B, c0: C, c1: C, p1: Seq<Sym>, p2: Seq<Sym>)
    requires lens(a0, a1, b0, b1, p1), lens(b0, b1, c0, c1, p2),
    ensures lens(a0, a1, c0, c1, p1 + p2),
{
    let n1 = p1.len() as int;
    let n = (p1 + p2).len() as int;
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] a0.obs(q, x) implies a1.obs(q, x) || (pre(p1 + p2, q) && c0.obs(q.skip(n), x)) by {
        if !a1.obs(q, x) {
            lemma_pre_split(p1, q);
            let q1 = q.skip(n1);
            assert(b0.obs(q1, x));
            if b1.obs(q1, x) { assert(a1.obs(p1 + q1, x)); }
            lemma_pre_trans(p1, p2, q);
        }
    }
    assert forall|r: Seq<Sym>, x: Obs| #[trigger] c1.obs(r, x) implies a1.obs((p1 + p2) + r, x) by {
        assert(b1.obs(p2 + r, x));
        assert(a1.obs(p1 + (p2 + r), x));
        assert(p1 + (p2 + r) =~= (p1 + p2) + r);
    }
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] a1.obs(q, x) implies a0.obs(q, x) || (pre(p1 + p2, q) && c1.obs(q.skip(n), x)) || newkid(q, x, p1 + p2) by {
        if newkid(q, x, p1) { lemma_newkid_mono(q, x, p1, p2); }
        else if !a0.obs(q, x) {
            lemma_pre_split(p1, q);
            let q1 = q.skip(n1);
            assert(b1.obs(q1, x));
            if b0.obs(q1, x) { assert(a0.obs(p1 + q1, x)); }
            else if newkid(q1, x, p2) { lemma_newkid(p1, q1, x, p2); }
            else { lemma_pre_trans(p1, p2, q); }
        }
    }
    assert forall|r: Seq<Sym>, x: Obs| #[trigger] c0.obs(r, x) implies a0.obs((p1 + p2) + r, x) by {
        assert(b0.obs(p2 + r, x));
        assert(a0.obs(p1 + (p2 + r), x));
        assert(p1 + (p2 + r) =~= (p1 + p2) + r);
    }
}

proof fn lemma_put<A: Node, B: Node>(a0: A, a1: A, b0: B, b1: B, pfx: Seq<Sym>, p: Seq<Sym>, m: Meta)
    requires lens(a0, a1, b0, b1, pfx), put(b0, b1, p, m),
    ensures put(a0, a1, pfx + p, m),
{
    let n = pfx.len() as int;
    assert(b1.obs(p, Obs::End(m)));
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] a0.obs(q, x) && !(q == pfx + p && x is End) implies a1.obs(q, x) by {
        if !a1.obs(q, x) {
            lemma_pre_split(pfx, q);
            assert(b0.obs(q.skip(n), x));
            assert(b1.obs(q.skip(n), x));
            assert(a1.obs(pfx + q.skip(n), x));
        }
    }
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] a1.obs(q, x) implies a0.obs(q, x) || (q == pfx + p && x == Obs::End(m)) || newkid(q, x, pfx + p) by {
        if newkid(q, x, pfx) { lemma_newkid_mono(q, x, pfx, p); }
        else if !a0.obs(q, x) {
            lemma_pre_split(pfx, q);
            let r = q.skip(n);
            assert(b1.obs(r, x));
            if b0.obs(r, x) { assert(a0.obs(pfx + r, x)); }
            else if newkid(r, x, p) { lemma_newkid(pfx, r, x, p); }
        }
    }
}

// ----- preference between two patterns that match the same message
spec fn pref<N: Node>(n: N, p: Seq<Sym>, o: Seq<Sym>) -> bool {
    exists|k: int| #[trigger] pref_at(n, p, o, k)
}
/// p and o agree up to k, and there p is complete, or goes on with literal text and o does not, or
/// goes on with a parser that is tried before that of o
spec fn pref_at<N: Node>(n: N, p: Seq<Sym>, o: Seq<Sym>, k: int) -> bool {
    &&& 0 <= k <= p.len() && k <= o.len() && p.take(k) == o.take(k)
    &&& k == p.len() || (k < o.len() && match (p[k], o[k]) {
        (Sym::C(c), Sym::P(b)) => true,
        (Sym::P(a), Sym::P(b)) => exists|i: nat, j: nat| i < j && #[trigger] n.full(p.take(k), Obs::Kid(i, a)) && #[trigger] n.full(p.take(k), Obs::Kid(j, b)),
        _ => false,
    })
}
spec fn best<N: Node>(n: N, p: Seq<Sym>, s: Seq<char>) -> bool {
    forall|o: Seq<Sym>, m: Meta| #[trigger] n.full(o, Obs::End(m)) && matches(o, s) ==> pref(n, p, o)
}

spec fn sound1<N: Node>(n: N, s: Seq<char>, r: Option<MatchResult>) -> bool {
    r is Some ==> exists|p: Seq<Sym>, m: Meta| #[trigger] n.full(p, Obs::End(m)) && matches(p, s) && r->0.rmeta() == m
}
spec fn sound2<N: Node>(n: N, s: Seq<char>, r: Option<MatchResult>) -> bool {
    r is Some ==> exists|p: Seq<Sym>, m: Meta| #[trigger] n.full(p, Obs::End(m)) && r->0.is_match(p, m, s)
}
spec fn complete<N: Node>(n: N, s: Seq<char>, r: Option<MatchResult>) -> bool {
    r is None ==> forall|p: Seq<Sym>, m: Meta| #[trigger] n.full(p, Obs::End(m)) ==> !matches(p, s)
}
spec fn chosen<N: Node>(n: N, s: Seq<char>, r: Option<MatchResult>) -> bool {
    r is Some && n.canon_() ==> exists|p: Seq<Sym>, m: Meta| #[trigger] n.full(p, Obs::End(m)) && r->0.is_match(p, m, s) && best(n, p, s)
}

proof fn lemma_pref_lift<C: Node, N: Node>(c: C, n: N, pfx: Seq<Sym>, p: Seq<Sym>, o: Seq<Sym>)
    requires pref(c, p, o), forall|r: Seq<Sym>, i: nat, a: PId| #[trigger] c.full(r, Obs::Kid(i, a)) ==> n.full(pfx + r, Obs::Kid(i, a)),
    ensures pref(n, pfx + p, pfx + o),
{
    let k = choose|k: int| #[trigger] pref_at(c, p, o, k);
    let (p2, o2) = (pfx + p, pfx + o);
    let k2 = pfx.len() + k;
    assert(p2.take(k2) =~= pfx + p.take(k));
    assert(o2.take(k2) =~= pfx + o.take(k));
    if k < p.len() {
        assert(p2[k2] == p[k] && o2[k2] == o[k]);
        if p[k] is P {
            let (a, b) = (p[k]->P_0, o[k]->P_0);
            let (i, j) = choose|i: nat, j: nat| i < j && #[trigger] c.full(p.take(k), Obs::Kid(i, a)) && #[trigger] c.full(p.take(k), Obs::Kid(j, b));
            assert(n.full(p2.take(k2), Obs::Kid(i, a)));
            assert(n.full(p2.take(k2), Obs::Kid(j, b)));
        }
    }
    assert(pref_at(n, p2, o2, k2));
}

/// a matcher behind a pointer (`Box<Matcher>`): dynamic dispatch reaches one of the implementations
#[verifier::external_body]
struct MDyn { p: u64 }
impl Node for MDyn {
    uninterp spec fn obs(&self, q: Seq<Sym>, x: Obs) -> bool;
    spec fn full(&self, q: Seq<Sym>, x: Obs) -> bool { self.obs(q, x) }
    uninterp spec fn canon_(&self) -> bool;
}
#[verifier::external_body]
fn vx_box_matcher<M: Node>(m: M) -> (r: Box<MDyn>)
    ensures forall|q: Seq<Sym>, x: Obs| r.obs(q, x) == m.obs(q, x),
{ unimplemented!() }

/// a result for the part behind pfx, carried over to the whole
proof fn lemma_up<C: Node, N: Node>(c: C, n: N, pfx: Seq<Sym>, s: Seq<char>, s2: Seq<char>, rc: Option<MatchResult>, rn: Option<MatchResult>)
    requires
        sound1(c, s2, rc), sound2(c, s2, rc), complete(c, s2, rc), chosen(c, s2, rc),
        rc is Some <==> rn is Some,
        rc is Some ==> rc->0.rmeta() == rn->0.rmeta(),
        forall|p: Seq<Sym>| rc is Some && #[trigger] matches(p, s2) && rc->0.rvals() == binds(p, s2) ==> rn->0.rvals() == binds(pfx + p, s),
        forall|p: Seq<Sym>| #[trigger] matches(p, s2) <==> matches(pfx + p, s),
        forall|q: Seq<Sym>, x: Obs| #[trigger] c.full(q, x) ==> n.full(pfx + q, x),
        forall|o: Seq<Sym>, m: Meta| #[trigger] n.full(o, Obs::End(m)) && matches(o, s) ==> pre(pfx, o) && c.full(o.skip(pfx.len() as int), Obs::End(m)),
        n.canon_() ==> c.canon_(),
    ensures
        sound1(n, s, rn), sound2(n, s, rn), complete(n, s, rn), chosen(n, s, rn),
{
    if rn is Some {
        let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] c.full(p, Obs::End(m)) && rc->0.is_match(p, m, s2);
        assert(matches(p, s2));
        assert(n.full(pfx + p, Obs::End(m)) && rn->0.is_match(pfx + p, m, s));
        assert(sound1(n, s, rn));
        assert(sound2(n, s, rn));
        if n.canon_() {
            let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] c.full(p, Obs::End(m)) && rc->0.is_match(p, m, s2) && best(c, p, s2);
            assert(matches(p, s2));
            assert(n.full(pfx + p, Obs::End(m)) && rn->0.is_match(pfx + p, m, s));
            assert forall|o: Seq<Sym>, mo: Meta| #[trigger] n.full(o, Obs::End(mo)) && matches(o, s) implies pref(n, pfx + p, o) by {
                lemma_pre_split(pfx, o);
                let o2 = o.skip(pfx.len() as int);
                assert(c.full(o2, Obs::End(mo)));
                assert(pref(c, p, o2)) by { assert(matches(o2, s2) <==> matches(pfx + o2, s)); };
                lemma_pref_lift(c, n, pfx, p, o2);
            }
            assert(best(n, pfx + p, s));
        }
    } else {
        assert forall|o: Seq<Sym>, m: Meta| #[trigger] n.full(o, Obs::End(m)) implies !matches(o, s) by {
            if matches(o, s) {
                lemma_pre_split(pfx, o);
                let o2 = o.skip(pfx.len() as int);
                assert(c.full(o2, Obs::End(m)));
                assert(matches(o2, s2) <==> matches(pfx + o2, s));
            }
        }
    }
}

// ----- the cases of matching one node, as facts the verifier may use where a result is returned
spec fn four<N: Node>(n: N, s: Seq<char>, r: Option<MatchResult>) -> bool {
    sound1(n, s, r) && sound2(n, s, r) && complete(n, s, r) && chosen(n, s, r)
}
spec fn pushed(q: Option<Seq<char>>, v: Seq<char>, rc: Option<MatchResult>, r: Option<MatchResult>) -> bool {
    &&& rc is Some <==> r is Some
    &&& rc is Some ==> rc->0.rmeta() == r->0.rmeta()
    &&& rc is Some ==> r->0.rvals() == bind1(rc->0.rvals(), q, v)
}
/// r is a result for the part below, with one more pair
spec fn below<N: Node>(n: N, s: Seq<char>, q: Option<Seq<char>>, v: Seq<char>, r: Option<MatchResult>) -> bool {
    exists|rc: Option<MatchResult>| #![trigger sound1(n, s, rc)] four(n, s, rc) && pushed(q, v, rc, r)
}
struct Full<N> { n: N }
impl<N: Node> Node for Full<N> {
    spec fn obs(&self, q: Seq<Sym>, x: Obs) -> bool { self.n.full(q, x) }
    spec fn full(&self, q: Seq<Sym>, x: Obs) -> bool { self.n.full(q, x) }
    spec fn canon_(&self) -> bool { self.n.canon_() }
}

proof fn lemma_lens_self<A: Node>(a0: A, a1: A)
    ensures lens(a0, a1, a0, a1, Seq::<Sym>::empty()),
{
    let e = Seq::<Sym>::empty();
    assert forall|q: Seq<Sym>| pre(e, q) && #[trigger] q.skip(0) == q && e + q == q by {
        assert(q.take(0) =~= e); assert(q.skip(0) =~= q); assert(e + q =~= q);
    }
    assert forall|r: Seq<Sym>, x: Obs| #[trigger] a1.obs(r, x) implies a1.obs(e + r, x) by { assert(e + r =~= r); }
    assert forall|r: Seq<Sym>, x: Obs| #[trigger] a0.obs(r, x) implies a0.obs(e + r, x) by { assert(e + r =~= r); }
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] a0.obs(q, x) implies a1.obs(q, x) || (pre(e, q) && a0.obs(q.skip(e.len() as int), x)) by { assert(q.skip(0) == q); }
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] a1.obs(q, x) implies a0.obs(q, x) || (pre(e, q) && a1.obs(q.skip(e.len() as int), x)) || newkid(q, x, e) by { assert(q.skip(0) == q); }
}
proof fn lemma_canonical(t: Seq<TokenType>)
    ensures canonical(t) && t.len() > 0 ==> canonical(t.skip(1)) && (t[0] is Literal && t.len() > 1 ==> t.skip(1)[0] is Parser),
        t.len() == 0 ==> path_of(t) == Seq::<Sym>::empty(),
{
    if canonical(t) && t.len() > 0 {
        let u = t.skip(1);
        assert forall|i: int| 0 <= i < u.len() implies match #[trigger] u[i] { TokenType::Literal(s) => s@.len() > 0, TokenType::Parser(p) => true } by { assert(u[i] == t[i + 1]); }
        assert forall|i: int| 0 <= i < u.len() - 1 implies (#[trigger] u[i]) is Parser || u[i + 1] is Parser by { assert(u[i] == t[i + 1] && u[i + 1] == t[i + 2]); }
    }
}
