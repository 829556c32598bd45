// ---------------------------------------------------------------------------
// What a matcher holds after a history of additions
// ---------------------------------------------------------------------------
spec fn compat(x: Obs, y: Obs) -> bool {
    match (x, y) {
        (Obs::End(m), Obs::End(n)) => m == n,
        (Obs::Kid(i, a), Obs::Kid(j, b)) => i == j <==> a == b,
        _ => true,
    }
}
spec fn kid_at<N: Node>(n: N, q: Seq<Sym>, i: nat) -> bool { exists|a: PId| #[trigger] n.full(q, Obs::Kid(i, a)) }
spec fn kid_of<N: Node>(n: N, q: Seq<Sym>, a: PId) -> bool { exists|i: nat| #[trigger] n.full(q, Obs::Kid(i, a)) }
/// one place per path: one pattern at most ends there, and its parsers are numbered from 0 without repetition
spec fn tidy<N: Node>(n: N) -> bool {
    &&& forall|q: Seq<Sym>, x: Obs, y: Obs| #[trigger] n.full(q, x) && #[trigger] n.full(q, y) ==> compat(x, y)
    &&& forall|q: Seq<Sym>, i: nat, a: PId, j: nat| #[trigger] n.full(q, Obs::Kid(i, a)) && j < i ==> #[trigger] kid_at(n, q, j)
    &&& forall|q: Seq<Sym>, x: Obs, k: int| #[trigger] n.full(q, x) && 0 <= k < q.len() && (#[trigger] q[k]) is P ==> kid_of(n, q.take(k), q[k]->P_0)
}

struct Added { p: Seq<Sym>, m: Meta }
/// a history with one more pattern; a pattern without tokens is not kept
spec fn hadd(h: Seq<Added>, p: Pattern) -> Seq<Added> {
    if p.pattern@.len() == 0 { h } else { h.push(Added { p: p.path(), m: p.meta() }) }
}
spec fn last_of(h: Seq<Added>, i: int) -> bool {
    0 <= i < h.len() && forall|j: int| i < j < h.len() ==> (#[trigger] h[j]).p != h[i].p
}
/// some pattern that starts with a was added before any that starts with b
spec fn earlier(h: Seq<Added>, a: Seq<Sym>, b: Seq<Sym>) -> bool {
    exists|x: int| #[trigger] earlier_at(h, a, b, x)
}
spec fn earlier_at(h: Seq<Added>, a: Seq<Sym>, b: Seq<Sym>, x: int) -> bool {
    0 <= x < h.len() && pre(a, h[x].p) && forall|y: int| 0 <= y <= x ==> !pre(b, (#[trigger] h[y]).p)
}
spec fn started(h: Seq<Added>, a: Seq<Sym>) -> bool { exists|x: int| 0 <= x < h.len() && pre(a, (#[trigger] h[x]).p) }

/// n holds exactly what was added
spec fn holds<N: Node>(n: N, h: Seq<Added>) -> bool {
    &&& forall|q: Seq<Sym>, m: Meta| #[trigger] n.full(q, Obs::End(m)) ==> exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]).p == q && h[i].m == m
    &&& forall|i: int| #[trigger] last_of(h, i) ==> n.full(h[i].p, Obs::End(h[i].m))
    &&& forall|q: Seq<Sym>, i: nat, a: PId| #[trigger] n.full(q, Obs::Kid(i, a)) ==> started(h, q + seq![Sym::P(a)])
}
/// the parsers of a place are tried in the order in which they were first added there
spec fn in_order<N: Node>(n: N, h: Seq<Added>) -> bool {
    forall|q: Seq<Sym>, i: nat, a: PId, j: nat, b: PId| #[trigger] n.full(q, Obs::Kid(i, a)) && #[trigger] n.full(q, Obs::Kid(j, b)) && i < j
        ==> earlier(h, q + seq![Sym::P(a)], q + seq![Sym::P(b)])
}
spec fn same_full<N: Node>(n: N) -> bool { forall|q: Seq<Sym>, x: Obs| #[trigger] n.full(q, x) == n.obs(q, x) }

/// there is a last addition of every path
proof fn lemma_last(h: Seq<Added>, i: int)
    requires 0 <= i < h.len(),
    ensures exists|j: int| i <= j && #[trigger] last_of(h, j) && h[j].p == h[i].p,
    decreases h.len() - i,
{
    if last_of(h, i) {} else {
        let j = choose|j: int| i < j < h.len() && (#[trigger] h[j]).p == h[i].p;
        lemma_last(h, j);
    }
}

/// C01, C03: adding one more pattern
proof fn lemma_holds<N: Node>(n0: N, n1: N, h: Seq<Added>, p: Seq<Sym>, m: Meta)
    requires holds(n0, h), put(n0, n1, p, m), same_full(n0), same_full(n1),
    ensures holds(n1, h.push(Added { p, m })),
{
    let g = h.push(Added { p, m });
    assert forall|q: Seq<Sym>, w: Meta| #[trigger] n1.full(q, Obs::End(w)) implies exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).p == q && g[i].m == w by {
        assert(n1.obs(q, Obs::End(w)));
        if q == p && w == m { assert(g[h.len() as int].p == q); }
        else {
            assert(n0.full(q, Obs::End(w)));
            let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).p == q && h[i].m == w;
            assert(g[i] == h[i]);
        }
    }
    assert forall|i: int| #[trigger] last_of(g, i) implies n1.full(g[i].p, Obs::End(g[i].m)) by {
        if i < h.len() {
            assert(g[h.len() as int].p != g[i].p);
            assert forall|j: int| i < j < h.len() implies (#[trigger] h[j]).p != h[i].p by { assert(g[j].p != g[i].p); }
            assert(last_of(h, i));
            assert(n0.full(h[i].p, Obs::End(h[i].m)));
            assert(n0.obs(h[i].p, Obs::End(h[i].m)));
        }
    }
    assert forall|q: Seq<Sym>, i: nat, a: PId| #[trigger] n1.full(q, Obs::Kid(i, a)) implies started(g, q + seq![Sym::P(a)]) by {
        assert(n1.obs(q, Obs::Kid(i, a)));
        if newkid(q, Obs::Kid(i, a), p) { assert(pre(q + seq![Sym::P(a)], g[h.len() as int].p)); }
        else {
            assert(n0.full(q, Obs::Kid(i, a)));
            let x = choose|x: int| 0 <= x < h.len() && pre(q + seq![Sym::P(a)], (#[trigger] h[x]).p);
            assert(g[x] == h[x]);
        }
    }
}
proof fn lemma_started<N: Node>(n: N, h: Seq<Added>, q: Seq<Sym>, a: PId, y: int)
    requires holds(n, h), tidy(n), 0 <= y < h.len(), pre(q + seq![Sym::P(a)], h[y].p),
    ensures kid_of(n, q, a),
{
    lemma_last(h, y);
    let z = choose|j: int| y <= j && #[trigger] last_of(h, j) && h[j].p == h[y].p;
    let s = q + seq![Sym::P(a)];
    let p = h[y].p;
    assert(p.take(s.len() as int)[q.len() as int] == s[q.len() as int]);
    assert(p[q.len() as int] == Sym::P(a));
    assert(p.take(q.len() as int) =~= q) by {
        assert forall|i: int| 0 <= i < q.len() implies p[i] == q[i] by { assert(p.take(s.len() as int)[i] == s[i]); }
    }
    assert(n.full(p, Obs::End(h[z].m)));
}
/// C04: adding one more pattern keeps the order of parsers
proof fn lemma_in_order<N: Node>(n0: N, n1: N, h: Seq<Added>, p: Seq<Sym>, m: Meta)
    requires holds(n0, h), in_order(n0, h), put(n0, n1, p, m), same_full(n0), same_full(n1), tidy(n0), tidy(n1),
    ensures in_order(n1, h.push(Added { p, m })),
{
    let g = h.push(Added { p, m });
    assert forall|q: Seq<Sym>, i: nat, a: PId, j: nat, b: PId| #[trigger] n1.full(q, Obs::Kid(i, a)) && #[trigger] n1.full(q, Obs::Kid(j, b)) && i < j
        implies earlier(g, q + seq![Sym::P(a)], q + seq![Sym::P(b)]) by {
        let (sa, sb) = (q + seq![Sym::P(a)], q + seq![Sym::P(b)]);
        assert(n1.obs(q, Obs::Kid(i, a)) && n1.obs(q, Obs::Kid(j, b)));
        assert(compat(Obs::Kid(i, a), Obs::Kid(j, b)));
        if n0.obs(q, Obs::Kid(j, b)) {
            assert(n0.full(q, Obs::Kid(j, b)));
            assert(kid_at(n0, q, i));
            let c = choose|c: PId| #[trigger] n0.full(q, Obs::Kid(i, c));
            assert(n0.obs(q, Obs::Kid(i, c)));
            assert(n1.full(q, Obs::Kid(i, c)));
            assert(compat(Obs::Kid(i, c), Obs::Kid(i, a)));
            let x = choose|x: int| #[trigger] earlier_at(h, sa, sb, x);
            assert forall|y: int| 0 <= y <= x implies !pre(sb, (#[trigger] g[y]).p) by { assert(g[y] == h[y]); }
            assert(earlier_at(g, sa, sb, x));
        } else {
            assert(newkid(q, Obs::Kid(j, b), p));
            assert(pre(sb, p));
            assert(p.take(sb.len() as int)[q.len() as int] == sb[q.len() as int]);
            if !n0.obs(q, Obs::Kid(i, a)) {
                assert(pre(sa, p));
                assert(p.take(sa.len() as int)[q.len() as int] == sa[q.len() as int]);
                assert(false);
            }
            assert(n0.full(q, Obs::Kid(i, a)));
            let x = choose|x: int| 0 <= x < h.len() && pre(sa, (#[trigger] h[x]).p);
            assert(g[x] == h[x]);
            assert forall|y: int| 0 <= y <= x implies !pre(sb, (#[trigger] g[y]).p) by {
                assert(g[y] == h[y]);
                if pre(sb, h[y].p) {
                    lemma_started(n0, h, q, b, y);
                    let k = choose|k: nat| #[trigger] n0.full(q, Obs::Kid(k, b));
                    assert(n0.obs(q, Obs::Kid(k, b)));
                    assert(n1.full(q, Obs::Kid(k, b)));
                    assert(compat(Obs::Kid(k, b), Obs::Kid(j, b)));
                }
            }
            assert(earlier_at(g, sa, sb, x));
        }
    }
}
proof fn lemma_holds_new<N: Node>(n: N)
    requires forall|q: Seq<Sym>, x: Obs| !#[trigger] n.full(q, x),
    ensures holds(n, Seq::<Added>::empty()), in_order(n, Seq::<Added>::empty()),
{
}

/// the properties, over the history alone
proof fn theorem_c01<N: Node>(n: N, h: Seq<Added>, s: Seq<char>, r: Option<MatchResult>)
    requires holds(n, h), sound1(n, s, r), r is Some,
    ensures exists|i: int| 0 <= i < h.len() && matches((#[trigger] h[i]).p, s) && r->0.rmeta() == h[i].m,
{
    let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] n.full(p, Obs::End(m)) && matches(p, s) && r->0.rmeta() == m;
    let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).p == p && h[i].m == m;
}
proof fn theorem_c02<N: Node>(n: N, h: Seq<Added>, s: Seq<char>, r: Option<MatchResult>)
    requires holds(n, h), sound2(n, s, r), r is Some,
    ensures exists|i: int| 0 <= i < h.len() && matches((#[trigger] h[i]).p, s) && r->0.rmeta() == h[i].m && r->0.rvals() == binds(h[i].p, s),
{
    let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] n.full(p, Obs::End(m)) && r->0.is_match(p, m, s);
    let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).p == p && h[i].m == m;
}
proof fn theorem_c03<N: Node>(n: N, h: Seq<Added>, s: Seq<char>, r: Option<MatchResult>, i: int)
    requires holds(n, h), complete(n, s, r), 0 <= i < h.len(), matches(h[i].p, s),
    ensures r is Some,
{
    lemma_last(h, i);
    let j = choose|j: int| i <= j && #[trigger] last_of(h, j) && h[j].p == h[i].p;
    assert(n.full(h[j].p, Obs::End(h[j].m)));
}
/// p is preferred to o: complete where o goes on, literal text where o has a parser, or a parser added earlier
spec fn hpref(h: Seq<Added>, p: Seq<Sym>, o: Seq<Sym>) -> bool { exists|k: int| #[trigger] hpref_at(h, p, o, k) }
spec fn hpref_at(h: Seq<Added>, p: Seq<Sym>, o: Seq<Sym>, k: int) -> bool {
    &&& 0 <= k <= p.len() && k <= o.len() && p.take(k) == o.take(k)
    &&& k == p.len() || (k < o.len() && match (p[k], o[k]) {
        (Sym::C(c), Sym::P(b)) => true,
        (Sym::P(a), Sym::P(b)) => earlier(h, p.take(k) + seq![Sym::P(a)], p.take(k) + seq![Sym::P(b)]),
        _ => false,
    })
}
proof fn theorem_c04<N: Node>(n: N, h: Seq<Added>, s: Seq<char>, r: Option<MatchResult>)
    requires holds(n, h), in_order(n, h), tidy(n), n.canon_(), chosen(n, s, r), r is Some,
    ensures exists|i: int| #[trigger] last_of(h, i) && matches(h[i].p, s) && r->0.rmeta() == h[i].m && r->0.rvals() == binds(h[i].p, s)
        && forall|j: int| 0 <= j < h.len() && matches((#[trigger] h[j]).p, s) ==> hpref(h, h[i].p, h[j].p),
{
    let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] n.full(p, Obs::End(m)) && r->0.is_match(p, m, s) && best(n, p, s);
    let i0 = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).p == p && h[i].m == m;
    lemma_last(h, i0);
    let i = choose|j: int| i0 <= j && #[trigger] last_of(h, j) && h[j].p == h[i0].p;
    assert(n.full(h[i].p, Obs::End(h[i].m)));
    assert(compat(Obs::End(m), Obs::End(h[i].m)));
    assert forall|j: int| 0 <= j < h.len() && matches((#[trigger] h[j]).p, s) implies hpref(h, h[i].p, h[j].p) by {
        lemma_last(h, j);
        let z = choose|z: int| j <= z && #[trigger] last_of(h, z) && h[z].p == h[j].p;
        let o = h[j].p;
        assert(n.full(o, Obs::End(h[z].m)));
        assert(pref(n, p, o));
        let k = choose|k: int| #[trigger] pref_at(n, p, o, k);
        assert(hpref_at(h, p, o, k));
    }
}
/// C03: the last addition of a token sequence replaces the earlier ones
proof fn theorem_replace<N: Node>(n: N, h: Seq<Added>, q: Seq<Sym>, m: Meta)
    requires holds(n, h), tidy(n), n.full(q, Obs::End(m)),
    ensures exists|i: int| #[trigger] last_of(h, i) && h[i].p == q && h[i].m == m,
{
    let i0 = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).p == q && h[i].m == m;
    lemma_last(h, i0);
    let i = choose|j: int| i0 <= j && #[trigger] last_of(h, j) && h[j].p == h[i0].p;
    assert(n.full(h[i].p, Obs::End(h[i].m)));
    assert(compat(Obs::End(m), Obs::End(h[i].m)));
}
