// ----- one place per path
proof fn lemma_lit_first(c: LiteralNode, q: Seq<Sym>, x: Obs)
    requires c.canon(), c.at(q, x),
    ensures c.literal@.len() > 0 ==> q.len() > 0 && q[0] == Sym::C(c.literal@[0]),
        c.literal@.len() == 0 ==> c.rest(q, x) && (q.len() == 0 || q[0] is P),
{
    let l = lit(c.literal@);
    if c.literal@.len() > 0 { assert(q.take(l.len() as int)[0] == l[0]); }
    else {
        assert(q.skip(0) =~= q);
        if q.len() > 0 {
            let n = c.node->0;
            assert(n.at(q, x));
            let j = choose|j: int| #![trigger n.parser_children@[j]] 0 <= j < n.parser_children@.len() && n.parser_children@[j].at(q, x);
            assert(q.take(1)[0] == n.parser_children@[j].sym()[0]);
        }
    }
}
/// nothing ends at the root of a tree without an empty literal
proof fn lemma_no_end(n: SuffixTree, q: Seq<Sym>, m: Meta)
    requires n.canon(), !n.has_empty(), q.len() == 0,
    ensures !n.at(q, Obs::End(m)),
{
    if n.at(q, Obs::End(m)) {
        if exists|j: int| #![trigger n.literal_children.array@[j]] 0 <= j < n.literal_children.array@.len() && n.literal_children.array@[j].at(q, Obs::End(m)) {
            let j = choose|j: int| #![trigger n.literal_children.array@[j]] 0 <= j < n.literal_children.array@.len() && n.literal_children.array@[j].at(q, Obs::End(m));
            assert(n.literal_children.array@[j].canon());
            lemma_lit_first(n.literal_children.array@[j], q, Obs::End(m));
        } else {
            let j = choose|j: int| #![trigger n.parser_children@[j]] 0 <= j < n.parser_children@.len() && n.parser_children@[j].at(q, Obs::End(m));
            assert(false);
        }
    }
}
/// the way a fact of a tree is reached: 0 directly, 1 literal child i, 2 parser child i
spec fn route(t: SuffixTree, q: Seq<Sym>, x: Obs, k: int, i: int) -> bool {
    if k == 0 { q.len() == 0 && (match x { Obs::Kid(j, a) => j < t.parser_children@.len() && t.parser_children@[j as int].parser.pid() == a, Obs::End(m) => false }) }
    else if k == 1 { 0 <= i < t.literal_children.array@.len() && t.literal_children.array@[i].at(q, x) }
    else { k == 2 && 0 <= i < t.parser_children@.len() && t.parser_children@[i].at(q, x) }
}
proof fn lemma_via(t: SuffixTree, q: Seq<Sym>, x: Obs) -> (r: (int, int))
    requires t.at(q, x),
    ensures route(t, q, x, r.0, r.1), 0 <= r.0 <= 2,
{
    if route(t, q, x, 0, 0) { (0, 0) }
    else if exists|j: int| #![trigger t.literal_children.array@[j]] 0 <= j < t.literal_children.array@.len() && t.literal_children.array@[j].at(q, x) {
        (1, choose|j: int| #![trigger t.literal_children.array@[j]] 0 <= j < t.literal_children.array@.len() && t.literal_children.array@[j].at(q, x))
    } else {
        (2, choose|j: int| #![trigger t.parser_children@[j]] 0 <= j < t.parser_children@.len() && t.parser_children@[j].at(q, x))
    }
}
/// what starts a path through a way
proof fn lemma_via_first(t: SuffixTree, q: Seq<Sym>, x: Obs, k: int, i: int)
    requires t.canon(), route(t, q, x, k, i),
    ensures k == 1 ==> t.lcs()[i].canon() && (t.lcs()[i].literal@.len() > 0 ==> q.len() > 0 && q[0] == Sym::C(t.lcs()[i].literal@[0]))
            && (t.lcs()[i].literal@.len() == 0 ==> t.pcs().len() == 0 && (q.len() == 0 || q[0] is P)),
        k == 2 ==> t.pcs()[i].canon() && q.len() > 0 && q[0] == Sym::P(t.pcs()[i].parser.pid()),
{
    if k == 1 { assert(t.literal_children.array@[i].canon()); lemma_lit_first(t.literal_children.array@[i], q, x); }
    if k == 2 { assert(q.take(1)[0] == t.parser_children@[i].sym()[0]); assert(t.parser_children@[i].canon()); }
}
proof fn lemma_compat(t: SuffixTree, q: Seq<Sym>, x: Obs, y: Obs)
    requires t.wf(), t.canon(), t.at(q, x), t.at(q, y),
    ensures compat(x, y),
    decreases t, 9int,
{
    let (k, i) = lemma_via(t, q, x);
    let (l, j) = lemma_via(t, q, y);
    lemma_via_first(t, q, x, k, i);
    lemma_via_first(t, q, y, l, j);
    if k == 0 && l == 0 {
        match (x, y) {
            (Obs::Kid(a, u), Obs::Kid(b, v)) => {
                if a < b { assert(t.parser_children@[a as int].parser.pid() != t.parser_children@[b as int].parser.pid()); }
                if b < a { assert(t.parser_children@[b as int].parser.pid() != t.parser_children@[a as int].parser.pid()); }
            }
            _ => {}
        }
    } else if k == 1 && l == 1 {
        if i < j { assert(kcode(t.literal_children.array@[i].literal@) < kcode(t.literal_children.array@[j].literal@)); }
        if j < i { assert(kcode(t.literal_children.array@[j].literal@) < kcode(t.literal_children.array@[i].literal@)); }
        assert(i == j);
        let c = t.literal_children.array@[i];
        assert(c.wf());
        let r = q.skip(c.literal@.len() as int);
        if c.node is Some {
            let n = c.node->0;
            if n.at(r, x) && n.at(r, y) { lemma_compat(n, r, x, y); }
            else if c.pattern is Some && r.len() == 0 {
                if x is End && n.at(r, x) { lemma_no_end(n, r, x->End_0); }
                if y is End && n.at(r, y) { lemma_no_end(n, r, y->End_0); }
            }
        }
    } else if k == 2 && l == 2 {
        if i < j { assert(t.parser_children@[i].parser.pid() != t.parser_children@[j].parser.pid()); }
        if j < i { assert(t.parser_children@[j].parser.pid() != t.parser_children@[i].parser.pid()); }
        assert(i == j);
        let c = t.parser_children@[i];
        assert(c.wf());
        let r = q.skip(1);
        if c.node is Some {
            let n = c.node->0;
            if n.at(r, x) && n.at(r, y) { lemma_compat(n, r, x, y); }
            else if c.pattern is Some && r.len() == 0 {
                if x is End && n.at(r, x) { lemma_no_end(n, r, x->End_0); }
                if y is End && n.at(r, y) { lemma_no_end(n, r, y->End_0); }
            }
        }
    }
}
/// a fact y that holds below wherever x does, holds above as well
proof fn lemma_under(t: SuffixTree, q: Seq<Sym>, x: Obs, k: int, i: int) -> (u: Seq<Sym>)
    requires route(t, q, x, k, i), k == 1 || k == 2,
    ensures pre(u, q), k == 1 ==> u == lit(t.lcs()[i].literal@), k == 2 ==> u == t.pcs()[i].sym(),
        forall|r: Seq<Sym>, y: Obs| #![trigger t.full(u + r, y)] (k == 1 && t.lcs()[i].rest(r, y)) || (k == 2 && t.pcs()[i].rest(r, y)) ==> t.full(u + r, y),
{
    let u = if k == 1 { lit(t.lcs()[i].literal@) } else { t.pcs()[i].sym() };
    assert forall|r: Seq<Sym>, y: Obs| #![trigger t.full(u + r, y)] (k == 1 && t.lcs()[i].rest(r, y)) || (k == 2 && t.pcs()[i].rest(r, y)) implies t.full(u + r, y) by {
        if k == 1 { t.literal_children.array@[i].lemma_at(r, y); assert(t.literal_children.array@[i].at(u + r, y)); }
        else { t.parser_children@[i].lemma_at(r, y); assert(t.parser_children@[i].at(u + r, y)); }
    }
    u
}
proof fn lemma_contig(t: SuffixTree, q: Seq<Sym>, i: nat, a: PId, j: nat)
    requires t.full(q, Obs::Kid(i, a)), j < i,
    ensures kid_at(t, q, j),
    decreases t,
{
    let x = Obs::Kid(i, a);
    let (k, c) = lemma_via(t, q, x);
    if k == 0 {
        assert(t.full(q, Obs::Kid(j, t.parser_children@[j as int].parser.pid())));
    } else {
        let u = lemma_under(t, q, x, k, c);
        lemma_pre_split(u, q);
        let r = q.skip(u.len() as int);
        let n = if k == 1 { t.literal_children.array@[c].node->0 } else { t.parser_children@[c].node->0 };
        assert(n.full(r, x));
        lemma_contig(n, r, i, a, j);
        let b = choose|b: PId| #[trigger] n.full(r, Obs::Kid(j, b));
        assert(n.at(r, Obs::Kid(j, b)));
        assert(t.full(u + r, Obs::Kid(j, b)));
    }
}
proof fn lemma_kids(t: SuffixTree, q: Seq<Sym>, x: Obs, d: int)
    requires t.full(q, x), 0 <= d < q.len(), q[d] is P,
    ensures kid_of(t, q.take(d), q[d]->P_0),
    decreases t,
{
    let (k, c) = lemma_via(t, q, x);
    let u = lemma_under(t, q, x, k, c);
    lemma_pre_split(u, q);
    let e = u.len() as int;
    let r = q.skip(e);
    if d < e {
        assert(q.take(e)[d] == u[d]);
        assert(k == 2 && d == 0);
        assert(q.take(0) =~= Seq::<Sym>::empty());
        assert(t.full(q.take(0), Obs::Kid(c as nat, t.parser_children@[c].parser.pid())));
    } else {
        let n = if k == 1 { t.literal_children.array@[c].node->0 } else { t.parser_children@[c].node->0 };
        assert(r.len() > 0);
        assert(n.full(r, x));
        assert(r[d - e] == q[d]);
        lemma_kids(n, r, x, d - e);
        let i = choose|i: nat| #[trigger] n.full(r.take(d - e), Obs::Kid(i, q[d]->P_0));
        let s = r.take(d - e);
        assert(n.at(s, Obs::Kid(i, q[d]->P_0)));
        assert(t.full(u + s, Obs::Kid(i, q[d]->P_0)));
        assert(u + s =~= q.take(d));
    }
}
proof fn lemma_tidy(t: SuffixTree)
    requires t.wf(), t.canon(),
    ensures tidy(t), same_full(t),
{
    assert forall|q: Seq<Sym>, x: Obs, y: Obs| #[trigger] t.full(q, x) && #[trigger] t.full(q, y) implies compat(x, y) by { lemma_compat(t, q, x, y); }
    assert forall|q: Seq<Sym>, i: nat, a: PId, j: nat| #[trigger] t.full(q, Obs::Kid(i, a)) && j < i implies #[trigger] kid_at(t, q, j) by { lemma_contig(t, q, i, a, j); }
    assert forall|q: Seq<Sym>, x: Obs, k: int| #[trigger] t.full(q, x) && 0 <= k < q.len() && (#[trigger] q[k]) is P implies kid_of(t, q.take(k), q[k]->P_0) by { lemma_kids(t, q, x, k); }
}

/// what `Matcher::mholds` (contract of the trait in the unit `source`) stands for here
spec fn m_holds(t: SuffixTree, h: Seq<Added>) -> bool { t.wf() && t.canon() && !t.has_empty() && holds(t, h) && in_order(t, h) }
/// the contract of add_pattern gives the contract of the trait
proof fn theorem_add(t0: SuffixTree, t1: SuffixTree, p: Pattern, h: Seq<Added>)
    requires m_holds(t0, h), canonical(p.pattern@), t1.wf(), t1.canon(), !t1.has_empty(),
        p.pattern@.len() == 0 ==> t1 == t0,
        p.pattern@.len() > 0 ==> put(t0, t1, p.path(), p.meta()),
    ensures m_holds(t1, hadd(h, p)),
{
    if p.pattern@.len() > 0 {
        lemma_tidy(t0);
        lemma_tidy(t1);
        lemma_holds(t0, t1, h, p.path(), p.meta());
        lemma_in_order(t0, t1, h, p.path(), p.meta());
    }
}
