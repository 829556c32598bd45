// ----- adding patterns
spec fn keep(r0: LiteralE, r1: LiteralE) -> bool { r1.literal@ == r0.literal@ }
/// o becomes f if its entry r0, which stands for l, becomes r1
spec fn tolit(o: SuffixTable, f: SuffixTable, r0: LiteralE, r1: LiteralE, l: Seq<char>) -> bool {
    &&& r0.wf() && r0.literal@ == l
    &&& (keep(r0, r1) && r1.wf() ==> f.wf())
    &&& (keep(r0, r1) ==> lens(o, f, r0, r1, lit(l)))
    &&& f.pcs() == o.pcs()
    &&& (o.canon() && l.len() > 0 ==> r0.canon())
    &&& (o.canon() && l.len() > 0 && keep(r0, r1) && r1.canon() ==> f.canon())
}
spec fn lit_old(o: SuffixTable, f: SuffixTable, r0: LiteralE, r1: LiteralE, l: Seq<char>) -> bool {
    exists|i: int| #![trigger o.literal_entries@[i]] 0 <= i < o.lcs().len() && o.literal_entries@[i] == r0 && r0.literal@ == l && f.lcs() =~= o.lcs().update(i, r1) && f.pcs() =~= o.pcs()
}
spec fn new_at(o: SuffixTable, f: SuffixTable, r1: LiteralE, l: Seq<char>, p: int) -> bool {
    &&& 0 <= p <= o.lcs().len() && f.lcs() =~= o.lcs().insert(p, r1)
    &&& forall|j: int| 0 <= j < p ==> scmp((#[trigger] o.lcs()[j]).literal@, l) < 0
    &&& forall|j: int| p <= j < o.lcs().len() ==> scmp((#[trigger] o.lcs()[j]).literal@, l) > 0
}
spec fn lit_new(o: SuffixTable, f: SuffixTable, r0: LiteralE, r1: LiteralE, l: Seq<char>) -> bool {
    &&& r0.literal@ == l && r0.pattern is None && r0.child is None && f.pcs() =~= o.pcs()
    &&& exists|p: int| #![trigger f.literal_entries@[p]] #![trigger o.literal_entries@.insert(p, r0)] #![trigger new_at(o, f, r1, l, p)] new_at(o, f, r1, l, p)
}
/// f's entries are o's with r1 at p, in place of o's entry there or new
spec fn placed(o: SuffixTable, f: SuffixTable, r1: LiteralE, p: int, new: bool) -> bool {
    &&& f.pcs() == o.pcs()
    &&& (if new { 0 <= p <= o.lcs().len() && f.lcs() == o.lcs().insert(p, r1) } else { 0 <= p < o.lcs().len() && f.lcs() == o.lcs().update(p, r1) })
}
spec fn up(i: int, p: int, new: bool) -> int { if new && i >= p { i + 1 } else { i } }
spec fn dn(i: int, p: int, new: bool) -> int { if new && i >= p { i - 1 } else { i } }
proof fn lemma_placed(o: SuffixTable, f: SuffixTable, r1: LiteralE, p: int, new: bool)
    requires placed(o, f, r1, p, new),
    ensures
        0 <= p < f.literal_entries@.len() && f.literal_entries@[p] == r1,
        forall|i: int| 0 <= i < f.literal_entries@.len() && i != p ==> 0 <= dn(i, p, new) < o.literal_entries@.len() && #[trigger] f.literal_entries@[i] == o.literal_entries@[dn(i, p, new)],
        forall|i: int| 0 <= i < o.literal_entries@.len() && (!new ==> i != p) ==> 0 <= up(i, p, new) < f.literal_entries@.len() && up(i, p, new) != p && f.literal_entries@[up(i, p, new)] == #[trigger] o.literal_entries@[i],
{
}
proof fn lemma_placed_lens(o: SuffixTable, f: SuffixTable, r0: LiteralE, r1: LiteralE, p: int, new: bool)
    requires placed(o, f, r1, p, new), keep(r0, r1), new ==> r0.pattern is None && r0.child is None, !new ==> o.lcs()[p] == r0,
    ensures lens(o, f, r0, r1, lit(r0.literal@)),
{
    lemma_placed(o, f, r1, p, new);
    let sy = lit(r0.literal@);
    assert(f.parser_entries@ == o.parser_entries@);
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] o.obs(q, x) implies f.obs(q, x) || (pre(sy, q) && r0.obs(q.skip(sy.len() as int), x)) by {
        assert(o.at(q, x));
        if exists|j: int| #![trigger o.literal_entries@[j]] 0 <= j < o.literal_entries@.len() && o.literal_entries@[j].at(q, x) {
            let j = choose|j: int| #![trigger o.literal_entries@[j]] 0 <= j < o.literal_entries@.len() && o.literal_entries@[j].at(q, x);
            if new || j != p { assert(f.literal_entries@[up(j, p, new)].at(q, x)); }
        } else if exists|j: int| #![trigger o.parser_entries@[j]] 0 <= j < o.parser_entries@.len() && o.parser_entries@[j].at(q, x) {
            let j = choose|j: int| #![trigger o.parser_entries@[j]] 0 <= j < o.parser_entries@.len() && o.parser_entries@[j].at(q, x);
            assert(f.parser_entries@[j].at(q, x));
        }
    }
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] f.obs(q, x) implies o.obs(q, x) || (pre(sy, q) && r1.obs(q.skip(sy.len() as int), x)) || newkid(q, x, sy) by {
        assert(f.at(q, x));
        if exists|j: int| #![trigger f.literal_entries@[j]] 0 <= j < f.literal_entries@.len() && f.literal_entries@[j].at(q, x) {
            let j = choose|j: int| #![trigger f.literal_entries@[j]] 0 <= j < f.literal_entries@.len() && f.literal_entries@[j].at(q, x);
            if j != p { assert(o.literal_entries@[dn(j, p, new)].at(q, x)); }
        } else if exists|j: int| #![trigger f.parser_entries@[j]] 0 <= j < f.parser_entries@.len() && f.parser_entries@[j].at(q, x) {
            let j = choose|j: int| #![trigger f.parser_entries@[j]] 0 <= j < f.parser_entries@.len() && f.parser_entries@[j].at(q, x);
            assert(o.parser_entries@[j].at(q, x));
        }
    }
    assert forall|r: Seq<Sym>, x: Obs| #[trigger] r1.obs(r, x) implies f.obs(sy + r, x) by {
        r1.lemma_at(r, x);
        assert(f.literal_entries@[p].at(sy + r, x));
    }
    assert forall|r: Seq<Sym>, x: Obs| #[trigger] r0.obs(r, x) implies o.obs(sy + r, x) by {
        r0.lemma_at(r, x);
        assert(o.literal_entries@[p].at(sy + r, x));
    }
}
proof fn lemma_placed_wf(o: SuffixTable, f: SuffixTable, r0: LiteralE, r1: LiteralE, p: int, new: bool)
    requires o.wf(), placed(o, f, r1, p, new), keep(r0, r1), r1.wf(), !new ==> o.lcs()[p] == r0,
        new ==> new_at(o, f, r1, r0.literal@, p),
    ensures f.wf(),
{
    lemma_placed(o, f, r1, p, new);
    let l = r0.literal@;
    let (x0, x1) = (o.literal_entries@, f.literal_entries@);
    assert forall|i: int, j: int| #![trigger x1[i], x1[j]] 0 <= i < j < x1.len() implies scmp(x1[i].literal@, x1[j].literal@) < 0 by {
        let (a, b) = (dn(i, p, new), dn(j, p, new));
        if i != p && j != p { assert(scmp(x0[a].literal@, x0[b].literal@) < 0); }
        else if !new { assert(scmp(x0[i].literal@, x0[j].literal@) < 0); }
        else if i == p { lemma_scmp(x0[b].literal@, l); assert(scmp(o.lcs()[b].literal@, l) > 0); }
        else { assert(scmp(o.lcs()[a].literal@, l) < 0); }
    }
    assert(ordered(x1));
    assert forall|i: int| 0 <= i < x1.len() implies (#[trigger] x1[i]).wf() by { if i != p { assert(x0[dn(i, p, new)].wf()); } }
    assert forall|i: int| 0 <= i < f.parser_entries@.len() implies (#[trigger] f.parser_entries@[i]).wf() by { assert(o.parser_entries@[i].wf()); }
}
proof fn lemma_placed_canon(o: SuffixTable, f: SuffixTable, r1: LiteralE, p: int, new: bool)
    requires o.canon(), placed(o, f, r1, p, new), r1.canon(),
    ensures f.canon(),
{
    lemma_placed(o, f, r1, p, new);
    assert forall|i: int| 0 <= i < f.literal_entries@.len() implies (#[trigger] f.literal_entries@[i]).canon() by { if i != p { assert(o.literal_entries@[dn(i, p, new)].canon()); } }
    assert forall|i: int| 0 <= i < f.parser_entries@.len() implies (#[trigger] f.parser_entries@[i]).canon() by { assert(o.parser_entries@[i].canon()); }
}
broadcast proof fn lemma_tolit(o: SuffixTable, f: SuffixTable, r0: LiteralE, r1: LiteralE, l: Seq<char>)
    requires o.wf(), lit_old(o, f, r0, r1, l) || lit_new(o, f, r0, r1, l),
    ensures #[trigger] tolit(o, f, r0, r1, l),
{
    let new = !lit_old(o, f, r0, r1, l);
    let p = if !new {
        choose|i: int| #![trigger o.literal_entries@[i]] 0 <= i < o.lcs().len() && o.literal_entries@[i] == r0 && r0.literal@ == l && f.lcs() =~= o.lcs().update(i, r1) && f.pcs() =~= o.pcs()
    } else { choose|p: int| #![trigger f.literal_entries@[p]] #![trigger o.literal_entries@.insert(p, r0)] #![trigger new_at(o, f, r1, l, p)] new_at(o, f, r1, l, p) };
    assert(placed(o, f, r1, p, new));
    assert(r0.wf()) by { if !new { assert(o.literal_entries@[p].wf()); } }
    if o.canon() && !new { assert(o.literal_entries@[p].canon()); }
    if keep(r0, r1) {
        lemma_placed_lens(o, f, r0, r1, p, new);
        if r1.wf() { lemma_placed_wf(o, f, r0, r1, p, new); }
        if o.canon() && r1.canon() { lemma_placed_canon(o, f, r1, p, new); }
    }
}
proof fn lemma_greater(t: SuffixTable, s: Seq<char>)
    requires t.wf(),
    ensures
        forall|p: int| #![trigger t.no_from(p, s)] 0 <= p <= t.lcs().len() && (forall|j: int| p <= j < t.lcs().len() ==> scmp((#[trigger] t.lcs()[j]).literal@, s) > 0) ==> t.no_from(p, s),
        forall|p: int| #![trigger t.no_from(p + 1, s)] 0 <= p < t.lcs().len() && scmp(t.lcs()[p].literal@, s) == 0 ==> t.no_from(p + 1, s),
        t.no_from(0, s) ==> t.no_lit(s),
        forall|i: int, r: Option<MatchResult>| 0 <= i < t.lcs().len() && #[trigger] complete(t.lcs()[i], s, r) && r is None ==> t.no_child(i, s),
{
    assert forall|p: int| #![trigger t.no_from(p, s)] 0 <= p <= t.lcs().len() && (forall|j: int| p <= j < t.lcs().len() ==> scmp((#[trigger] t.lcs()[j]).literal@, s) > 0) implies t.no_from(p, s) by {
        t.lemma_from(p, s);
    }
    assert forall|p: int| #![trigger t.no_from(p + 1, s)] 0 <= p < t.lcs().len() && scmp(t.lcs()[p].literal@, s) == 0 implies t.no_from(p + 1, s) by {
        assert forall|j: int| p + 1 <= j < t.lcs().len() implies scmp((#[trigger] t.lcs()[j]).literal@, s) > 0 by {
            assert(scmp(t.literal_entries@[p].literal@, t.literal_entries@[j].literal@) < 0);
            lemma_scmp(t.lcs()[p].literal@, s);
            lemma_scmp(t.lcs()[j].literal@, s);
        }
        t.lemma_from(p + 1, s);
    }
    if t.no_from(0, s) {
        assert forall|i: int, o: Seq<Sym>, m: Meta| 0 <= i < t.lcs().len() && #[trigger] t.lcs()[i].full(o, Obs::End(m)) implies !matches(o, s) by { assert(t.no_child(i, s)); }
    }
}

// ----- parsers
/// o becomes f if its node r0, which stands for parser a, becomes r1
spec fn topar(o: SuffixTable, f: SuffixTable, r0: ParserE, r1: ParserE, a: PId) -> bool {
    &&& r0.wf() && r0.parser.pid() == a
    &&& (r1.parser == r0.parser && r1.wf() ==> f.wf())
    &&& (r1.parser == r0.parser ==> lens(o, f, r0, r1, seq![Sym::P(a)]))
    &&& f.lcs() == o.lcs()
    &&& (o.canon() ==> r0.canon())
    &&& (o.canon() && r1.parser == r0.parser && r1.canon() ==> f.canon())
}
spec fn par_old(o: SuffixTable, f: SuffixTable, r0: ParserE, r1: ParserE, a: PId) -> bool {
    exists|i: int| #![trigger o.parser_entries@[i]] 0 <= i < o.pcs().len() && o.parser_entries@[i] == r0 && r0.parser.pid() == a && f.pcs() =~= o.pcs().update(i, r1) && f.lcs() =~= o.lcs()
}
spec fn par_new(o: SuffixTable, f: SuffixTable, r0: ParserE, r1: ParserE, a: PId) -> bool {
    &&& r0.parser.pid() == a && r0.pattern is None && r0.child is None
    &&& f.pcs().len() == o.pcs().len() + 1 && f.pcs() =~= o.pcs().push(r1) && f.lcs() =~= o.lcs()
    &&& forall|i: int| 0 <= i < o.pcs().len() ==> (#[trigger] o.pcs()[i]).parser.pid() != a
}
broadcast proof fn lemma_topar(o: SuffixTable, f: SuffixTable, r0: ParserE, r1: ParserE, a: PId)
    requires o.wf(), par_old(o, f, r0, r1, a) || par_new(o, f, r0, r1, a),
    ensures #[trigger] topar(o, f, r0, r1, a),
{
    let p = if par_old(o, f, r0, r1, a) {
        choose|i: int| #![trigger o.parser_entries@[i]] 0 <= i < o.pcs().len() && o.parser_entries@[i] == r0 && r0.parser.pid() == a && f.pcs() =~= o.pcs().update(i, r1) && f.lcs() =~= o.lcs()
    } else { o.pcs().len() as int };
    let sy = seq![Sym::P(a)];
    let (x0, x1) = (o.parser_entries@, f.parser_entries@);
    assert(r0.wf());
    assert forall|i: int| 0 <= i < x1.len() implies #[trigger] x1[i] == if i == p { r1 } else { x0[i] } by {}
    if r1.parser == r0.parser {
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] o.obs(q, x) implies f.obs(q, x) || (pre(sy, q) && r0.obs(q.skip(sy.len() as int), x)) by {
            if exists|j: int| #![trigger o.literal_entries@[j]] 0 <= j < o.lcs().len() && o.literal_entries@[j].at(q, x) {
                let j = choose|j: int| #![trigger o.literal_entries@[j]] 0 <= j < o.lcs().len() && o.literal_entries@[j].at(q, x);
                assert(f.literal_entries@[j].at(q, x));
            } else if exists|j: int| #![trigger o.parser_entries@[j]] 0 <= j < o.pcs().len() && o.parser_entries@[j].at(q, x) {
                let j = choose|j: int| #![trigger o.parser_entries@[j]] 0 <= j < o.pcs().len() && o.parser_entries@[j].at(q, x);
                if j != p { assert(f.parser_entries@[j].at(q, x)); }
            } else {
                match x { Obs::Kid(i, b) => { assert(x1[i as int].parser.pid() == b); }, Obs::End(m) => {} }
            }
        }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] f.obs(q, x) implies o.obs(q, x) || (pre(sy, q) && r1.obs(q.skip(sy.len() as int), x)) || newkid(q, x, sy) by {
            if exists|j: int| #![trigger f.literal_entries@[j]] 0 <= j < f.lcs().len() && f.literal_entries@[j].at(q, x) {
                let j = choose|j: int| #![trigger f.literal_entries@[j]] 0 <= j < f.lcs().len() && f.literal_entries@[j].at(q, x);
                assert(o.literal_entries@[j].at(q, x));
            } else if exists|j: int| #![trigger f.parser_entries@[j]] 0 <= j < f.pcs().len() && f.parser_entries@[j].at(q, x) {
                let j = choose|j: int| #![trigger f.parser_entries@[j]] 0 <= j < f.pcs().len() && f.parser_entries@[j].at(q, x);
                if j != p { assert(o.parser_entries@[j].at(q, x)); }
            } else {
                match x {
                    Obs::Kid(i, b) => {
                        assert(x1[i as int].parser.pid() == b);
                        if i == p { assert(q + seq![Sym::P(b)] =~= sy); assert(sy.take(1) =~= sy); assert(newkid(q, x, sy)); }
                    },
                    Obs::End(m) => {}
                }
            }
        }
        assert forall|r: Seq<Sym>, x: Obs| #[trigger] r1.obs(r, x) implies f.obs(sy + r, x) by {
            r1.lemma_at(r, x);
            assert(f.parser_entries@[p].at(sy + r, x));
        }
        assert forall|r: Seq<Sym>, x: Obs| #[trigger] r0.obs(r, x) implies o.obs(sy + r, x) by {
            r0.lemma_at(r, x);
            assert(o.parser_entries@[p].at(sy + r, x));
        }
        if r1.wf() {
            assert forall|i: int, j: int| #![trigger x1[i], x1[j]] 0 <= i < j < x1.len() implies x1[i].parser.pid() != x1[j].parser.pid() by {
                if j < x0.len() { assert(x0[i].parser.pid() != x0[j].parser.pid()); } else { assert(o.pcs()[i].parser.pid() != a); }
            }
            assert forall|i: int| 0 <= i < x1.len() implies (#[trigger] x1[i]).wf() by { if i != p { assert(x0[i].wf()); } }
            assert forall|i: int| 0 <= i < f.literal_entries@.len() implies (#[trigger] f.literal_entries@[i]).wf() by { assert(o.literal_entries@[i].wf()); }
            assert(f.wf());
        }
        if o.canon() && r1.canon() {
            assert forall|i: int| 0 <= i < x1.len() implies (#[trigger] x1[i]).canon() by { if i != p { assert(x0[i].canon()); } }
            assert forall|i: int| 0 <= i < f.literal_entries@.len() implies (#[trigger] f.literal_entries@[i]).canon() by { assert(o.literal_entries@[i].canon()); }
        }
    }
}

// ----- whole patterns
broadcast proof fn lemma_put_lit(o: SuffixTable, f: SuffixTable, r0: LiteralE, r1: LiteralE, l: Seq<char>, p: Seq<Sym>, m: Meta)
    requires #[trigger] tolit(o, f, r0, r1, l), #[trigger] put(r0, r1, p, m), keep(r0, r1),
    ensures put(o, f, lit(l) + p, m),
{
    lemma_put(o, f, r0, r1, lit(l), p, m);
}
broadcast proof fn lemma_put_par(o: SuffixTable, f: SuffixTable, r0: ParserE, r1: ParserE, a: PId, p: Seq<Sym>, m: Meta)
    requires #[trigger] topar(o, f, r0, r1, a), #[trigger] put(r0, r1, p, m), r1.parser == r0.parser,
    ensures put(o, f, seq![Sym::P(a)] + p, m),
{
    lemma_put(o, f, r0, r1, seq![Sym::P(a)], p, m);
}
spec fn bare(n: SuffixTable) -> bool { n.lcs().len() == 0 && n.pcs().len() == 0 }
/// adding below a node, or ending there
spec fn entry_l(r0: LiteralE, r1: LiteralE, p: Seq<Sym>, m: Meta) -> bool {
    ||| p.len() == 0 && r1.child == r0.child && r1.pattern is Some && r1.pattern->0.meta() == m
    ||| r1.pattern == r0.pattern && r1.child is Some && exists|n0: SuffixTable| #[trigger] put(n0, r1.child->0, p, m) && (r0.child == Some(n0) || (r0.child is None && bare(n0)))
}
broadcast proof fn lemma_put_entry_l(r0: LiteralE, r1: LiteralE, p: Seq<Sym>, m: Meta)
    requires entry_l(r0, r1, p, m),
    ensures #[trigger] put(r0, r1, p, m),
{
    if p.len() == 0 && r1.child == r0.child && r1.pattern is Some && r1.pattern->0.meta() == m {
        assert(r1.rest(p, Obs::End(m)));
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r0.obs(q, x) && !(q == p && x is End) implies r1.obs(q, x) by { if q.len() == 0 { assert(q =~= p); } }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r1.obs(q, x) implies r0.obs(q, x) || (q == p && x == Obs::End(m)) || newkid(q, x, p) by { if q.len() == 0 { assert(q =~= p); } }
    } else {
        let n0 = choose|n0: SuffixTable| #[trigger] put(n0, r1.child->0, p, m) && (r0.child == Some(n0) || (r0.child is None && bare(n0)));
        let n1 = r1.child->0;
        assert(n1.obs(p, Obs::End(m)));
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r0.obs(q, x) && !(q == p && x is End) implies r1.obs(q, x) by {
            if r0.child == Some(n0) && n0.at(q, x) { assert(n0.obs(q, x)); assert(n1.obs(q, x)); }
        }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r1.obs(q, x) implies r0.obs(q, x) || (q == p && x == Obs::End(m)) || newkid(q, x, p) by {
            if n1.at(q, x) { assert(n1.obs(q, x)); }
        }
    }
}
spec fn entry_p(r0: ParserE, r1: ParserE, p: Seq<Sym>, m: Meta) -> bool {
    ||| p.len() == 0 && r1.child == r0.child && r1.pattern is Some && r1.pattern->0.meta() == m
    ||| r1.pattern == r0.pattern && r1.child is Some && exists|n0: SuffixTable| #[trigger] put(n0, r1.child->0, p, m) && (r0.child == Some(n0) || (r0.child is None && bare(n0)))
}
broadcast proof fn lemma_put_entry_p(r0: ParserE, r1: ParserE, p: Seq<Sym>, m: Meta)
    requires entry_p(r0, r1, p, m),
    ensures #[trigger] put(r0, r1, p, m),
{
    if p.len() == 0 && r1.child == r0.child && r1.pattern is Some && r1.pattern->0.meta() == m {
        assert(r1.rest(p, Obs::End(m)));
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r0.obs(q, x) && !(q == p && x is End) implies r1.obs(q, x) by { if q.len() == 0 { assert(q =~= p); } }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r1.obs(q, x) implies r0.obs(q, x) || (q == p && x == Obs::End(m)) || newkid(q, x, p) by { if q.len() == 0 { assert(q =~= p); } }
    } else {
        let n0 = choose|n0: SuffixTable| #[trigger] put(n0, r1.child->0, p, m) && (r0.child == Some(n0) || (r0.child is None && bare(n0)));
        let n1 = r1.child->0;
        assert(n1.obs(p, Obs::End(m)));
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r0.obs(q, x) && !(q == p && x is End) implies r1.obs(q, x) by {
            if r0.child == Some(n0) && n0.at(q, x) { assert(n0.obs(q, x)); assert(n1.obs(q, x)); }
        }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r1.obs(q, x) implies r0.obs(q, x) || (q == p && x == Obs::End(m)) || newkid(q, x, p) by {
            if n1.at(q, x) { assert(n1.obs(q, x)); }
        }
    }
}
