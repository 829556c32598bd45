// ----- adding patterns
/// only the tree below a node changed
spec fn swapped(c0: LiteralNode, c1: LiteralNode, n0: SuffixTree, n1: SuffixTree) -> bool {
    c0.node == Some(n0) && c1.node == Some(n1) && c1.literal == c0.literal && c1.has_value == c0.has_value && c1.pattern == c0.pattern
}
spec fn keep(r0: LiteralNode, r1: LiteralNode) -> bool { r1.literal@ == r0.literal@ && r1.has_value == r0.has_value }

impl SuffixTree {
    /// looking up l ends here without having found it
    spec fn notfound(&self, l: Seq<char>) -> bool {
        forall|i: int| 0 <= i < self.lcs().len() && kcode((#[trigger] self.lcs()[i]).literal@) == kcode(l) ==>
            self.lcs()[i].literal@ != l && (self.lcs()[i].node is Some ==> !self.lcs()[i].literal@.is_prefix_of(l))
    }
    spec fn has_leaf(&self, l: Seq<char>) -> bool {
        exists|i: int| 0 <= i < self.lcs().len() && (#[trigger] self.lcs()[i]).literal@ == l && self.lcs()[i].node is None
    }
    spec fn found(&self, l: Seq<char>, r: LiteralLookupResult) -> bool {
        match r {
            LiteralLookupResult::Found(p) => p < self.lcs().len() && self.lcs()[p as int].literal@ == l && self.lcs()[p as int].has_value,
            LiteralLookupResult::NotFound => self.notfound(l),
            LiteralLookupResult::GoDown(p, s) => p < self.lcs().len() && self.lcs()[p as int].node is Some && self.lcs()[p as int].literal@ + s@ == l
                && self.lcs()[p as int].literal@.len() > 0 && (self.lcs()[p as int].has_value ==> s@.len() > 0),
        }
    }
}

/// o becomes f if its part t0, reached by the first k characters of l, becomes t1
spec fn reach(o: SuffixTree, f: SuffixTree, t0: SuffixTree, t1: SuffixTree, l: Seq<char>, k: int) -> bool {
    &&& 0 <= k <= l.len()
    &&& (k == 0 ==> t0 == o && t1 == f)
    &&& t0.wf()
    &&& (t1.wf() ==> f.wf())
    &&& lens(o, f, t0, t1, lit(l.take(k)))
    &&& (o.canon() ==> t0.canon() && (k == l.len() ==> t0.pcs().len() == 0 || k == 0))
    &&& (o.canon() && t1.canon() && t1.pcs() == t0.pcs() && (t1.has_empty() ==> t0.has_empty() || k == l.len())
            ==> f.canon() && f.pcs() == o.pcs() && (f.has_empty() ==> o.has_empty() || l.len() == 0))
}
spec fn looked_ok(o: SuffixTree, f: SuffixTree, t0: SuffixTree, t1: SuffixTree, l: Seq<char>, i: int) -> bool {
    0 <= i < t0.lcs().len() && t0.lcs()[i].has_value
        && exists|k: int| #[trigger] reach(o, f, t0, t1, l, k) && t0.lcs()[i].literal@ == l.skip(k)
}
spec fn looked_err(o: SuffixTree, f: SuffixTree, t0: SuffixTree, t1: SuffixTree, l: Seq<char>, n: int) -> bool {
    exists|k: int| #[trigger] reach(o, f, t0, t1, l, k) && n == blen(l.skip(k)) && t0.notfound(l.skip(k))
}
/// o becomes f if its node r0, which stands for l, becomes r1
spec fn tolit(o: SuffixTree, f: SuffixTree, r0: LiteralNode, r1: LiteralNode, l: Seq<char>) -> bool {
    &&& r0.wf() && r0.has_value
    &&& (keep(r0, r1) && r1.wf() ==> f.wf())
    &&& (keep(r0, r1) ==> lens(o, f, r0, r1, lit(l)))
    &&& (o.canon() && (l.len() == 0 ==> o.pcs().len() == 0) ==> r0.canon())
    &&& (o.canon() && (l.len() == 0 ==> o.pcs().len() == 0) && keep(r0, r1) && r1.canon() ==>
            f.canon() && f.pcs() == o.pcs() && (f.has_empty() ==> o.has_empty() || l.len() == 0))
}

/// child i of a tree
proof fn lemma_lens_child(o: SuffixTree, f: SuffixTree, i: int, c1: LiteralNode)
    requires 0 <= i < o.lcs().len(), f.lcs() == o.lcs().update(i, c1), f.pcs() == o.pcs(),
    ensures lens(o, f, Full { n: o.lcs()[i] }, Full { n: c1 }, Seq::<Sym>::empty()),
{
    let e = Seq::<Sym>::empty();
    let c0 = o.lcs()[i];
    let (b0, b1) = (Full { n: c0 }, Full { n: c1 });
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] o.obs(q, x) implies f.obs(q, x) || (pre(e, q) && b0.obs(q.skip(0), x)) by {
        assert(q.take(0) =~= e); assert(q.skip(0) =~= q);
        if exists|j: int| #![trigger o.literal_children.array@[j]] 0 <= j < o.lcs().len() && o.literal_children.array@[j].at(q, x) {
            let j = choose|j: int| #![trigger o.literal_children.array@[j]] 0 <= j < o.lcs().len() && o.literal_children.array@[j].at(q, x);
            if j != i { assert(f.literal_children.array@[j].at(q, x)); }
        } else if exists|j: int| #![trigger o.parser_children@[j]] 0 <= j < o.pcs().len() && o.parser_children@[j].at(q, x) {
            let j = choose|j: int| #![trigger o.parser_children@[j]] 0 <= j < o.pcs().len() && o.parser_children@[j].at(q, x);
            assert(f.parser_children@[j].at(q, x));
        }
    }
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] f.obs(q, x) implies o.obs(q, x) || (pre(e, q) && b1.obs(q.skip(0), x)) || newkid(q, x, e) by {
        assert(q.take(0) =~= e); assert(q.skip(0) =~= q);
        if exists|j: int| #![trigger f.literal_children.array@[j]] 0 <= j < f.lcs().len() && f.literal_children.array@[j].at(q, x) {
            let j = choose|j: int| #![trigger f.literal_children.array@[j]] 0 <= j < f.lcs().len() && f.literal_children.array@[j].at(q, x);
            if j != i { assert(o.literal_children.array@[j].at(q, x)); }
        } else if exists|j: int| #![trigger f.parser_children@[j]] 0 <= j < f.pcs().len() && f.parser_children@[j].at(q, x) {
            let j = choose|j: int| #![trigger f.parser_children@[j]] 0 <= j < f.pcs().len() && f.parser_children@[j].at(q, x);
            assert(o.parser_children@[j].at(q, x));
        }
    }
    assert forall|r: Seq<Sym>, x: Obs| #[trigger] b1.obs(r, x) implies f.obs(e + r, x) by {
        assert(e + r =~= r);
        assert(f.literal_children.array@[i].at(r, x));
    }
    assert forall|r: Seq<Sym>, x: Obs| #[trigger] b0.obs(r, x) implies o.obs(e + r, x) by {
        assert(e + r =~= r);
        assert(o.literal_children.array@[i].at(r, x));
    }
}
/// what is behind the literal of a node
proof fn lemma_lens_full(c0: LiteralNode, c1: LiteralNode)
    requires c1.literal@ == c0.literal@,
    ensures lens(Full { n: c0 }, Full { n: c1 }, c0, c1, lit(c0.literal@)),
{
    let l = lit(c0.literal@);
    let (b0, b1) = (Full { n: c0 }, Full { n: c1 });
    assert forall|r: Seq<Sym>, x: Obs| #[trigger] c1.obs(r, x) implies b1.obs(l + r, x) by { c1.lemma_at(r, x); }
    assert forall|r: Seq<Sym>, x: Obs| #[trigger] c0.obs(r, x) implies b0.obs(l + r, x) by { c0.lemma_at(r, x); }
}
/// the tree below a node
proof fn lemma_lens_node(c0: LiteralNode, c1: LiteralNode, n0: SuffixTree, n1: SuffixTree)
    requires swapped(c0, c1, n0, n1),
    ensures lens(c0, c1, n0, n1, Seq::<Sym>::empty()),
{
    let e = Seq::<Sym>::empty();
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] c0.obs(q, x) implies c1.obs(q, x) || (pre(e, q) && n0.obs(q.skip(0), x)) by { assert(q.take(0) =~= e); assert(q.skip(0) =~= q); }
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] c1.obs(q, x) implies c0.obs(q, x) || (pre(e, q) && n1.obs(q.skip(0), x)) || newkid(q, x, e) by { assert(q.take(0) =~= e); assert(q.skip(0) =~= q); }
    assert forall|r: Seq<Sym>, x: Obs| #[trigger] n1.obs(r, x) implies c1.obs(e + r, x) by { assert(e + r =~= r); }
    assert forall|r: Seq<Sym>, x: Obs| #[trigger] n0.obs(r, x) implies c0.obs(e + r, x) by { assert(e + r =~= r); }
}

/// one level down
proof fn lemma_reach_down(o: SuffixTree, f: SuffixTree, pos: int, c1: LiteralNode, n0: SuffixTree, n1: SuffixTree, t0: SuffixTree, t1: SuffixTree, s: Seq<char>, l: Seq<char>, k: int)
    requires o.wf(), 0 <= pos < o.lcs().len(), swapped(o.lcs()[pos], c1, n0, n1), f.lcs() == o.lcs().update(pos, c1), f.pcs() == o.pcs(),
        reach(n0, n1, t0, t1, s, k), o.lcs()[pos].literal@ + s == l, o.lcs()[pos].literal@.len() > 0, o.lcs()[pos].has_value ==> s.len() > 0,
    ensures reach(o, f, t0, t1, l, o.lcs()[pos].literal@.len() + k), l.skip(o.lcs()[pos].literal@.len() + k) == s.skip(k),
{
    let c0 = o.lcs()[pos];
    let c = c0.literal@;
    let e = Seq::<Sym>::empty();
    assert(n0.wf()) by { assert(o.literal_children.array@[pos].wf()); }
    lemma_lens_child(o, f, pos, c1);
    lemma_lens_full(c0, c1);
    lemma_lens_node(c0, c1, n0, n1);
    lemma_lens_compose(o, f, Full { n: c0 }, Full { n: c1 }, c0, c1, e, lit(c));
    lemma_lens_compose(o, f, c0, c1, n0, n1, e + lit(c), e);
    lemma_lens_compose(o, f, n0, n1, t0, t1, e + lit(c) + e, lit(s.take(k)));
    assert(e + lit(c) + e + lit(s.take(k)) =~= lit(l.take(c.len() + k)));
    assert(l.skip(c.len() + k) =~= s.skip(k));
    if t1.wf() {
        assert forall|i: int, j: int| #![trigger f.literal_children.array@[i], f.literal_children.array@[j]] 0 <= i < j < f.literal_children.array@.len() implies
            kcode(f.literal_children.array@[i].literal@) < kcode(f.literal_children.array@[j].literal@) by {
            assert(kcode(o.literal_children.array@[i].literal@) < kcode(o.literal_children.array@[j].literal@));
        }
        assert forall|i: int| 0 <= i < f.literal_children.array@.len() implies (#[trigger] f.literal_children.array@[i]).wf() by { assert(o.literal_children.array@[i].wf()); }
    }
    assert(o.has_empty() <==> f.has_empty()) by {
        if o.has_empty() { let i = choose|i: int| 0 <= i < o.literal_children.array@.len() && (#[trigger] o.literal_children.array@[i]).literal@.len() == 0; assert(f.literal_children.array@[i].literal@.len() == 0); }
        if f.has_empty() { let i = choose|i: int| 0 <= i < f.literal_children.array@.len() && (#[trigger] f.literal_children.array@[i]).literal@.len() == 0; assert(o.literal_children.array@[i].literal@.len() == 0); }
    }
    if o.canon() {
        assert(o.literal_children.array@[pos].canon());
        assert(n0.canon());
        if t1.canon() && t1.pcs() == t0.pcs() && (t1.has_empty() ==> t0.has_empty() || c.len() + k == l.len()) {
            assert(n1.canon());
            assert(c1.canon());
            assert forall|i: int| 0 <= i < f.literal_children.array@.len() implies (#[trigger] f.literal_children.array@[i]).canon() by { assert(o.literal_children.array@[i].canon()); }
            assert(f.canon());
        }
    }
}

spec fn down_ok(o: SuffixTree, f: SuffixTree, t0: SuffixTree, t1: SuffixTree, l: Seq<char>, i: int) -> bool {
    exists|pos: int, c0: LiteralNode, c1: LiteralNode, n0: SuffixTree, n1: SuffixTree, s: Seq<char>|
        #![trigger o.literal_children.array@[pos], swapped(c0, c1, n0, n1), looked_ok(n0, n1, t0, t1, s, i)]
        0 <= pos < o.lcs().len() && c0 == o.literal_children.array@[pos] && swapped(c0, c1, n0, n1) && f.lcs() == o.lcs().update(pos, c1) && f.pcs() == o.pcs()
        && looked_ok(n0, n1, t0, t1, s, i) && c0.literal@ + s == l && c0.literal@.len() > 0 && (c0.has_value ==> s.len() > 0)
}
spec fn down_err(o: SuffixTree, f: SuffixTree, t0: SuffixTree, t1: SuffixTree, l: Seq<char>, i: int) -> bool {
    exists|pos: int, c0: LiteralNode, c1: LiteralNode, n0: SuffixTree, n1: SuffixTree, s: Seq<char>|
        #![trigger o.literal_children.array@[pos], swapped(c0, c1, n0, n1), looked_err(n0, n1, t0, t1, s, i)]
        0 <= pos < o.lcs().len() && c0 == o.literal_children.array@[pos] && swapped(c0, c1, n0, n1) && f.lcs() == o.lcs().update(pos, c1) && f.pcs() == o.pcs()
        && looked_err(n0, n1, t0, t1, s, i) && c0.literal@ + s == l && c0.literal@.len() > 0 && (c0.has_value ==> s.len() > 0)
}
broadcast proof fn lemma_looked_ok(o: SuffixTree, f: SuffixTree, t0: SuffixTree, t1: SuffixTree, l: Seq<char>, i: int)
    requires o.wf(), down_ok(o, f, t0, t1, l, i) || (t0 == o && t1 == f && 0 <= i < o.lcs().len() && o.lcs()[i].has_value && o.lcs()[i].literal@ == l),
    ensures #[trigger] looked_ok(o, f, t0, t1, l, i),
{
    if t0 == o && t1 == f && 0 <= i < o.lcs().len() && o.lcs()[i].has_value && o.lcs()[i].literal@ == l {
        lemma_lens_self(o, f);
        assert(lit(l.take(0)) =~= Seq::<Sym>::empty());
        assert(l.skip(0) =~= l);
        assert(reach(o, f, o, f, l, 0));
    } else {
        let (pos, c0, c1, n0, n1, s) = choose|pos: int, c0: LiteralNode, c1: LiteralNode, n0: SuffixTree, n1: SuffixTree, s: Seq<char>|
            #![trigger o.literal_children.array@[pos], swapped(c0, c1, n0, n1), looked_ok(n0, n1, t0, t1, s, i)]
            0 <= pos < o.lcs().len() && c0 == o.literal_children.array@[pos] && swapped(c0, c1, n0, n1) && f.lcs() == o.lcs().update(pos, c1) && f.pcs() == o.pcs()
            && looked_ok(n0, n1, t0, t1, s, i) && c0.literal@ + s == l && c0.literal@.len() > 0 && (c0.has_value ==> s.len() > 0);
        let k = choose|k: int| #[trigger] reach(n0, n1, t0, t1, s, k) && t0.lcs()[i].literal@ == s.skip(k);
        lemma_reach_down(o, f, pos, c1, n0, n1, t0, t1, s, l, k);
    }
}
broadcast proof fn lemma_looked_err(o: SuffixTree, f: SuffixTree, t0: SuffixTree, t1: SuffixTree, l: Seq<char>, n: int)
    requires o.wf(), down_err(o, f, t0, t1, l, n) || (t0 == o && t1 == f && o.notfound(l) && n == blen(l)),
    ensures #[trigger] looked_err(o, f, t0, t1, l, n),
{
    if t0 == o && t1 == f && o.notfound(l) && n == blen(l) {
        lemma_lens_self(o, f);
        assert(lit(l.take(0)) =~= Seq::<Sym>::empty());
        assert(l.skip(0) =~= l);
        assert(reach(o, f, o, f, l, 0));
    } else {
        let (pos, c0, c1, n0, n1, s) = choose|pos: int, c0: LiteralNode, c1: LiteralNode, n0: SuffixTree, n1: SuffixTree, s: Seq<char>|
            #![trigger o.literal_children.array@[pos], swapped(c0, c1, n0, n1), looked_err(n0, n1, t0, t1, s, n)]
            0 <= pos < o.lcs().len() && c0 == o.literal_children.array@[pos] && swapped(c0, c1, n0, n1) && f.lcs() == o.lcs().update(pos, c1) && f.pcs() == o.pcs()
            && looked_err(n0, n1, t0, t1, s, n) && c0.literal@ + s == l && c0.literal@.len() > 0 && (c0.has_value ==> s.len() > 0);
        let k = choose|k: int| #[trigger] reach(n0, n1, t0, t1, s, k) && n == blen(s.skip(k)) && t0.notfound(s.skip(k));
        lemma_reach_down(o, f, pos, c1, n0, n1, t0, t1, s, l, k);
    }
}

spec fn search_hint(c: Seq<char>, l: Seq<char>) -> bool {
    &&& is_bdy(l, blen(lcp(c, l)) as int)
    &&& cidx(l, blen(lcp(c, l)) as int) == lcpn(c, l)
    &&& blen(lcp(c, l)) <= blen(c) && blen(lcp(c, l)) <= blen(l)
    &&& (blen(lcp(c, l)) == blen(c) <==> c.is_prefix_of(l))
    &&& (c.is_prefix_of(l) ==> lcpn(c, l) == c.len() && c + l.skip(c.len() as int) == l)
    &&& (c.is_prefix_of(l) && blen(lcp(c, l)) == blen(l) ==> c == l)
    &&& (l.len() == 0 ==> blen(l) == 0)
    &&& l.is_prefix_of(l)
}
proof fn lemma_search(c: Seq<char>, l: Seq<char>)
    ensures search_hint(c, l),
{
    lemma_lcpn(c, l);
    let k = lcpn(c, l) as int;
    lemma_cidx(l, k);
    lemma_bdy_range(l, blen(l.take(k)) as int);
    lemma_bdy_ends(c);
    lemma_blen_pos(l);
    if k < c.len() {
        lemma_blen_take_mono(c, k, c.len() as int);
        if c.is_prefix_of(l) { assert(l.take(c.len() as int)[k] == l[k]); assert(c[k] == l[k]); }
        assert(c.take(c.len() as int) =~= c);
    } else {
        assert(c.take(k) =~= c);
        assert(c.is_prefix_of(l));
    }
    if c.is_prefix_of(l) {
        assert(c + l.skip(c.len() as int) =~= l);
        if blen(c) == blen(l) {
            if c.len() < l.len() { lemma_blen_take_mono(l, c.len() as int, l.len() as int); assert(l.take(l.len() as int) =~= l); }
            assert(c =~= l);
        }
    }
    if blen(lcp(c, l)) > blen(c) || blen(lcp(c, l)) > blen(l) { }
    if k < l.len() { lemma_blen_take_mono(l, k, l.len() as int); }
    assert(l.take(l.len() as int) =~= l);
}

/// where an element with key k goes
spec fn ipos(s: Seq<LiteralNode>, k: int) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else if kcode(s.last().literal@) >= k { ipos(s.drop_last(), k) } else { s.len() as int }
}
spec fn strict(s: Seq<LiteralNode>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> kcode(s[i].literal@) < kcode(s[j].literal@)
}
proof fn lemma_ipos(s: Seq<LiteralNode>, k: int)
    requires strict(s),
    ensures 0 <= ipos(s, k) <= s.len(),
        forall|j: int| 0 <= j < ipos(s, k) ==> kcode((#[trigger] s[j]).literal@) < k,
        forall|j: int| ipos(s, k) <= j < s.len() ==> kcode((#[trigger] s[j]).literal@) >= k,
    decreases s.len(),
{
    if s.len() > 0 && kcode(s.last().literal@) >= k {
        let d = s.drop_last();
        assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies kcode(d[i].literal@) < kcode(d[j].literal@) by { assert(kcode(s[i].literal@) < kcode(s[j].literal@)); }
        lemma_ipos(d, k);
        assert forall|j: int| 0 <= j < ipos(s, k) implies kcode((#[trigger] s[j]).literal@) < k by { assert(d[j] == s[j]); }
        assert forall|j: int| ipos(s, k) <= j < s.len() implies kcode((#[trigger] s[j]).literal@) >= k by { if j < d.len() { assert(d[j] == s[j]); } }
    }
}
spec fn no_key(s: Seq<LiteralNode>, k: int) -> bool { forall|j: int| 0 <= j < s.len() ==> kcode((#[trigger] s[j]).literal@) != k }

spec fn le<T: Ord>(a: T, b: T) -> bool { ord_num(a.cmp_spec(&b)) <= 0 }
proof fn lemma_lnode_lawful()
    ensures lawful::<LiteralNode>(),
{
}
proof fn lemma_ms_cancel<T>(a: vstd::multiset::Multiset<T>, b: vstd::multiset::Multiset<T>, x: T)
    requires a.insert(x) == b.insert(x),
    ensures a == b,
{
    broadcast use vstd::multiset::group_multiset_axioms;
    assert forall|e: T| #[trigger] a.count(e) == b.count(e) by {
        assert(a.insert(x).count(e) == a.count(e) + if e == x { 1nat } else { 0 });
        assert(b.insert(x).count(e) == b.count(e) + if e == x { 1nat } else { 0 });
    }
    assert(a =~= b);
}
proof fn lemma_ms_comm<T>(a: vstd::multiset::Multiset<T>, x: T, y: T)
    ensures a.insert(x).insert(y) == a.insert(y).insert(x),
{
    assert(a.insert(x).insert(y) =~= a.insert(y).insert(x));
}
proof fn lemma_drop_last(s: Seq<LiteralNode>)
    requires s.len() > 0,
    ensures s.to_multiset() == s.drop_last().to_multiset().insert(s.last()),
        strict(s) ==> strict(s.drop_last()),
        ascending(s) ==> ascending(s.drop_last()),
        forall|k: int| #[trigger] no_key(s, k) ==> no_key(s.drop_last(), k),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let d = s.drop_last();
    assert(s =~= d.push(s.last()));
    if strict(s) { assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies kcode(d[i].literal@) < kcode(d[j].literal@) by { assert(kcode(s[i].literal@) < kcode(s[j].literal@)); } }
    if ascending(s) { assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies le(d[i], d[j]) by { assert(le(s[i], s[j])); } }
    assert forall|k: int| #[trigger] no_key(s, k) implies no_key(d, k) by {
        assert forall|j: int| 0 <= j < d.len() implies kcode((#[trigger] d[j]).literal@) != k by { assert(kcode(s[j].literal@) != k); }
    }
}
/// the last element of an ascending sequence is one of the elements with the greatest key
proof fn lemma_top(f: Seq<LiteralNode>, top: LiteralNode)
    requires ascending(f), f.to_multiset().count(top) > 0,
    ensures f.len() > 0, kcode(top.literal@) <= kcode(f.last().literal@), f.to_multiset().count(f.last()) > 0,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(f.contains(top));
    let i = choose|i: int| 0 <= i < f.len() && f[i] == top;
    if i < f.len() - 1 { assert(le(f[i], f[f.len() - 1])); }
    assert(f.contains(f.last()));
}
proof fn lemma_max(s: Seq<LiteralNode>, z: LiteralNode)
    requires strict(s), s.to_multiset().count(z) > 0,
    ensures s.len() > 0, z == s.last() || kcode(z.literal@) < kcode(s.last().literal@),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.contains(z));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == z;
    if j < s.len() - 1 { assert(kcode(s[j].literal@) < kcode(s[s.len() - 1].literal@)); }
}
proof fn lemma_last_in(s: Seq<LiteralNode>)
    requires s.len() > 0,
    ensures s.to_multiset().count(s.last()) > 0,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.contains(s.last()));
}
proof fn lemma_ms_len(s: Seq<LiteralNode>)
    ensures s.to_multiset().len() == s.len(), s.len() == 0 ==> s.to_multiset() == vstd::multiset::Multiset::<LiteralNode>::empty(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() == 0 { assert(s =~= Seq::empty()); assert(s.to_multiset() =~= vstd::multiset::Multiset::<LiteralNode>::empty()); }
}
proof fn lemma_sorted_same(s: Seq<LiteralNode>, f: Seq<LiteralNode>)
    requires strict(s), ascending(f), f.to_multiset() == s.to_multiset(),
    ensures f == s,
    decreases s.len(),
{
    lemma_ms_len(s);
    lemma_ms_len(f);
    if s.len() == 0 {
        assert(f =~= s);
    } else {
        lemma_last_in(s);
        lemma_top(f, s.last());
        lemma_max(s, f.last());
        lemma_drop_last(s);
        lemma_drop_last(f);
        lemma_ms_cancel(s.drop_last().to_multiset(), f.drop_last().to_multiset(), s.last());
        lemma_sorted_same(s.drop_last(), f.drop_last());
        assert(f =~= f.drop_last().push(f.last()));
        assert(s =~= s.drop_last().push(s.last()));
    }
}
/// a sorted sequence with the elements of s and v is s with v at its place
proof fn lemma_sorted_insert(s: Seq<LiteralNode>, f: Seq<LiteralNode>, v: LiteralNode)
    requires strict(s), no_key(s, kcode(v.literal@)), ascending(f), f.to_multiset() == s.to_multiset().insert(v),
    ensures f == s.insert(ipos(s, kcode(v.literal@)), v),
    decreases s.len(),
{
    let k = kcode(v.literal@);
    lemma_ipos(s, k);
    lemma_ms_len(s);
    lemma_ms_len(f);
    let g = s.insert(ipos(s, k), v);
    lemma_drop_last(f);
    assert(f =~= f.drop_last().push(f.last()));
    assert(f.to_multiset().count(v) > 0);
    lemma_top(f, v);
    let z = f.last();
    if s.len() == 0 || kcode(s.last().literal@) < k {
        if z != v { assert(s.to_multiset().count(z) > 0); lemma_max(s, z); }
        assert(z == v);
        lemma_ms_cancel(s.to_multiset(), f.drop_last().to_multiset(), v);
        lemma_sorted_same(s, f.drop_last());
        assert(f =~= g);
    } else {
        let w = s.last();
        assert(kcode(w.literal@) > k);
        lemma_last_in(s);
        assert(f.to_multiset().count(w) > 0);
        lemma_top(f, w);
        if z != v { assert(s.to_multiset().count(z) > 0); lemma_max(s, z); }
        assert(z == w);
        lemma_drop_last(s);
        lemma_ms_comm(s.drop_last().to_multiset(), w, v);
        lemma_ms_cancel(s.drop_last().to_multiset().insert(v), f.drop_last().to_multiset(), w);
        lemma_sorted_insert(s.drop_last(), f.drop_last(), v);
        assert(s =~= s.drop_last().push(w));
        lemma_ipos(s.drop_last(), k);
        assert(f =~= g);
    }
}
broadcast proof fn lemma_pushed(s: Seq<LiteralNode>, f: Seq<LiteralNode>, v: LiteralNode)
    requires strict(s), no_key(s, kcode(v.literal@)), ascending(f), f.to_multiset() == s.to_multiset().insert(v),
    ensures #![trigger s.to_multiset().insert(v), f.to_multiset()] f == s.insert(ipos(s, kcode(v.literal@)), v),
{
    lemma_sorted_insert(s, f, v);
}
proof fn lemma_ins_wf(o: SuffixTree, f: SuffixTree, p: int, v: LiteralNode)
    requires o.wf(), v.wf(), 0 <= p <= o.lcs().len(), f.lcs() == o.lcs().insert(p, v), f.pcs() == o.pcs(),
        forall|j: int| 0 <= j < p ==> kcode((#[trigger] o.lcs()[j]).literal@) < kcode(v.literal@),
        forall|j: int| p <= j < o.lcs().len() ==> kcode((#[trigger] o.lcs()[j]).literal@) > kcode(v.literal@),
    ensures f.wf(),
{
    let (a, b) = (o.literal_children.array@, f.literal_children.array@);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == if i < p { a[i] } else if i == p { v } else { a[i - 1] } by {}
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() implies kcode(b[i].literal@) < kcode(b[j].literal@) by {
        let i2 = if i < p { i } else { i - 1 };
        let j2 = if j < p { j } else { j - 1 };
        if i != p && j != p { assert(kcode(a[i2].literal@) < kcode(a[j2].literal@)); }
        else if i == p { assert(kcode(o.lcs()[j2].literal@) > kcode(v.literal@)); }
        else { assert(kcode(o.lcs()[i2].literal@) < kcode(v.literal@)); }
    }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).wf() by { if i != p { assert(a[if i < p { i } else { i - 1 }].wf()); } }
    assert forall|i: int, j: int| #![trigger f.parser_children@[i], f.parser_children@[j]] 0 <= i < j < f.parser_children@.len() implies
        f.parser_children@[i].parser.pid() != f.parser_children@[j].parser.pid() by { assert(o.parser_children@[i].parser.pid() != o.parser_children@[j].parser.pid()); }
}

// ----- splitting a node
/// c1 holds what c0 held, and has a place for l, which has more than the first character in common with c0
spec fn splitted(c0: LiteralNode, c1: LiteralNode, l: Seq<char>) -> bool {
    &&& forall|q: Seq<Sym>, x: Obs| #[trigger] c1.full(q, x) == c0.full(q, x)
    &&& c1.wf() && c1.node is Some
    &&& c1.literal@ == lcp(c0.literal@, l)
    &&& c1.node->0.has_leaf(l.skip(lcpn(c0.literal@, l) as int))
    &&& c1.node->0.pcs().len() == 0
    &&& !c1.has_value
    &&& (c0.canon() ==> c1.canon())
}
/// the two halves of a split
spec fn left_half(c: LiteralNode, l: Seq<char>) -> bool {
    c.literal@ == l && c.node is None && c.pattern is None && c.has_value
}
spec fn right_half(c: LiteralNode, c0: LiteralNode, l: Seq<char>) -> bool {
    c.literal@ == l && c.node == c0.node && c.pattern == c0.pattern && c.has_value == c0.has_value
}
proof fn lemma_split(c0: LiteralNode, c1: LiteralNode, l: Seq<char>, ri: int)
    requires c0.wf(),
        ({ let k = lcpn(c0.literal@, l) as int; let n = c1.node->0;
            &&& k > 0 && (k < c0.literal@.len() || (k < l.len() && c0.node is None))
            &&& c1.literal@ == lcp(c0.literal@, l) && c1.node is Some && !c1.has_value && c1.pattern is None
            &&& n.pcs().len() == 0 && n.lcs().len() == 2 && 0 <= ri <= 1 && n.wf()
            &&& left_half(n.lcs()[1 - ri], l.skip(k)) && right_half(n.lcs()[ri], c0, c0.literal@.skip(k))
        }),
    ensures splitted(c0, c1, l),
{
    let k = lcpn(c0.literal@, l) as int;
    let n = c1.node->0;
    let left = n.literal_children.array@[1 - ri];
    let right = n.literal_children.array@[ri];
    let (cp, rl) = (c0.literal@.take(k), c0.literal@.skip(k));
    lemma_lcpn(c0.literal@, l);
    assert(cp + rl =~= c0.literal@);
    lemma_lit_concat(cp, rl);
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] c1.full(q, x) == c0.full(q, x) by {
        lemma_pre_concat(lit(cp), lit(rl), q);
        let q2 = q.skip(k);
        assert(n.at(q2, x) == right.at(q2, x)) by {
            assert(!left.at(q2, x));
            if right.at(q2, x) { assert(n.literal_children.array@[ri].at(q2, x)); }
        }
        assert(right.at(q2, x) == (pre(lit(rl), q2) && right.rest(q2.skip(rl.len() as int), x)));
        assert(right.rest(q2.skip(rl.len() as int), x) == c0.rest(q2.skip(rl.len() as int), x));
        if q2.len() == 0 { assert(c1.rest(q2, x) == n.at(q2, x)); }
    }
    assert(n.lcs()[1 - ri].literal@ == l.skip(k) && n.lcs()[1 - ri].node is None);
    assert(n.has_leaf(l.skip(k)));
    if c0.canon() {
        assert(right.canon());
        assert(left.canon());
        assert(n.canon());
    }
}

/// lookup of l under a child that was split to make room for it
proof fn lemma_lens_split(c0: LiteralNode, c1: LiteralNode, c2: LiteralNode, n0: SuffixTree, n1: SuffixTree, r0: LiteralNode, r1: LiteralNode, l: Seq<char>, s: Seq<char>)
    requires splitted(c0, c1, l), swapped(c1, c2, n0, n1), tolit(n0, n1, r0, r1, s), keep(r0, r1), l == c1.literal@ + s,
    ensures lens(Full { n: c0 }, Full { n: c2 }, r0, r1, lit(l)),
{
    let c = c1.literal@;
    let e = Seq::<Sym>::empty();
    lemma_lens_full(c1, c2);
    lemma_lens_node(c1, c2, n0, n1);
    lemma_lens_compose(Full { n: c1 }, Full { n: c2 }, c1, c2, n0, n1, lit(c), e);
    lemma_lens_compose(Full { n: c1 }, Full { n: c2 }, n0, n1, r0, r1, lit(c) + e, lit(s));
    assert(lit(c) + e + lit(s) =~= lit(l));
    let (a0, a1, b) = (Full { n: c0 }, Full { n: c1 }, Full { n: c2 });
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] a0.obs(q, x) implies b.obs(q, x) || (pre(lit(l), q) && r0.obs(q.skip(lit(l).len() as int), x)) by { assert(c1.full(q, x)); assert(a1.obs(q, x)); }
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] b.obs(q, x) implies a0.obs(q, x) || (pre(lit(l), q) && r1.obs(q.skip(lit(l).len() as int), x)) || newkid(q, x, lit(l)) by { assert(c1.full(q, x) == c0.full(q, x)); }
    assert forall|r: Seq<Sym>, x: Obs| #[trigger] r0.obs(r, x) implies a0.obs(lit(l) + r, x) by { assert(a1.obs(lit(l) + r, x)); assert(c1.full(lit(l) + r, x) == c0.full(lit(l) + r, x)); }
}

spec fn tail_split(o: SuffixTree, f: SuffixTree, r0: LiteralNode, r1: LiteralNode, l: Seq<char>) -> bool {
    exists|pos: int, c0: LiteralNode, c1: LiteralNode, c2: LiteralNode, n0: SuffixTree, n1: SuffixTree, s: Seq<char>|
        #![trigger o.literal_children.array@[pos], splitted(c0, c1, l), swapped(c1, c2, n0, n1), tolit(n0, n1, r0, r1, s)]
        0 <= pos < o.lcs().len() && c0 == o.literal_children.array@[pos] && f.lcs() == o.lcs().update(pos, c2) && f.pcs() == o.pcs()
        && splitted(c0, c1, l) && swapped(c1, c2, n0, n1) && tolit(n0, n1, r0, r1, s) && l == c1.literal@ + s && c1.literal@.len() > 0 && kcode(c0.literal@) == kcode(l)
}
spec fn tail_new(o: SuffixTree, f: SuffixTree, r0: LiteralNode, r1: LiteralNode, l: Seq<char>) -> bool {
    let p = ipos(o.lcs(), kcode(l));
    &&& 0 <= p <= o.lcs().len()
    &&& f.lcs() =~= o.lcs().insert(p, r1)
    &&& f.pcs() =~= o.pcs()
    &&& left_half(r0, l)
    &&& no_key(o.lcs(), kcode(l))
}
proof fn lemma_update_wf(o: SuffixTree, f: SuffixTree, i: int, c: LiteralNode)
    requires o.wf(), 0 <= i < o.lcs().len(), f.lcs() == o.lcs().update(i, c), f.pcs() == o.pcs(), c.wf(), kcode(c.literal@) == kcode(o.lcs()[i].literal@),
    ensures f.wf(),
{
    assert forall|i: int, j: int| #![trigger f.literal_children.array@[i], f.literal_children.array@[j]] 0 <= i < j < f.literal_children.array@.len() implies
        kcode(f.literal_children.array@[i].literal@) < kcode(f.literal_children.array@[j].literal@) by {
        assert(kcode(o.literal_children.array@[i].literal@) < kcode(o.literal_children.array@[j].literal@));
    }
    assert forall|i: int| 0 <= i < f.literal_children.array@.len() implies (#[trigger] f.literal_children.array@[i]).wf() by { assert(o.literal_children.array@[i].wf()); }
}
proof fn lemma_update_canon(o: SuffixTree, f: SuffixTree, i: int, c: LiteralNode)
    requires o.canon(), 0 <= i < o.lcs().len(), f.lcs() == o.lcs().update(i, c), f.pcs() == o.pcs(), c.canon(), c.literal@.len() == 0 ==> o.lcs()[i].literal@.len() == 0,
    ensures f.canon(), f.has_empty() ==> o.has_empty(),
{
    if f.has_empty() { let j = choose|i: int| 0 <= i < f.literal_children.array@.len() && (#[trigger] f.literal_children.array@[i]).literal@.len() == 0; assert(o.literal_children.array@[j].literal@.len() == 0); }
    assert forall|i: int| 0 <= i < f.literal_children.array@.len() implies (#[trigger] f.literal_children.array@[i]).canon() by { assert(o.literal_children.array@[i].canon()); }
}
broadcast proof fn lemma_tail(o: SuffixTree, f: SuffixTree, r0: LiteralNode, r1: LiteralNode, l: Seq<char>)
    requires o.wf(), tail_split(o, f, r0, r1, l) || tail_new(o, f, r0, r1, l),
    ensures #[trigger] tolit(o, f, r0, r1, l),
{
    if tail_new(o, f, r0, r1, l) {
        lemma_tail_new(o, f, r0, r1, l);
    } else {
        let (pos, c0, c1, c2, n0, n1, s) = choose|pos: int, c0: LiteralNode, c1: LiteralNode, c2: LiteralNode, n0: SuffixTree, n1: SuffixTree, s: Seq<char>|
            #![trigger o.literal_children.array@[pos], splitted(c0, c1, l), swapped(c1, c2, n0, n1), tolit(n0, n1, r0, r1, s)]
            0 <= pos < o.lcs().len() && c0 == o.literal_children.array@[pos] && f.lcs() == o.lcs().update(pos, c2) && f.pcs() == o.pcs()
            && splitted(c0, c1, l) && swapped(c1, c2, n0, n1) && tolit(n0, n1, r0, r1, s) && l == c1.literal@ + s && c1.literal@.len() > 0 && kcode(c0.literal@) == kcode(l);
        assert(c2.literal@[0] == l[0]);
        if keep(r0, r1) {
            lemma_lens_split(c0, c1, c2, n0, n1, r0, r1, l, s);
            lemma_lens_child(o, f, pos, c2);
            lemma_lens_compose(o, f, Full { n: c0 }, Full { n: c2 }, r0, r1, Seq::<Sym>::empty(), lit(l));
            assert(Seq::<Sym>::empty() + lit(l) =~= lit(l));
            if r1.wf() { lemma_update_wf(o, f, pos, c2); }
            if o.canon() {
                assert(c0.canon());
                assert(n0.canon());
                if r1.canon() {
                    assert(n1.canon());
                    assert(c2.canon());
                    lemma_update_canon(o, f, pos, c2);
                }
            }
        } else if o.canon() { assert(c0.canon()); assert(n0.canon()); }
    }
}
proof fn lemma_tail_new(o: SuffixTree, f: SuffixTree, r0: LiteralNode, r1: LiteralNode, l: Seq<char>)
    requires o.wf(), tail_new(o, f, r0, r1, l),
    ensures tolit(o, f, r0, r1, l),
{
    let p = ipos(o.lcs(), kcode(l));
    lemma_ipos(o.lcs(), kcode(l));
    let (a, b) = (o.literal_children.array@, f.literal_children.array@);
    let pl = lit(l);
    assert(b =~= o.lcs().insert(p, r1));
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == if i < p { a[i] } else if i == p { r1 } else { a[i - 1] } by {}
    if keep(r0, r1) {
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] o.obs(q, x) implies f.obs(q, x) by {
            if exists|j: int| #![trigger o.literal_children.array@[j]] 0 <= j < o.lcs().len() && o.literal_children.array@[j].at(q, x) {
                let j = choose|j: int| #![trigger o.literal_children.array@[j]] 0 <= j < o.lcs().len() && o.literal_children.array@[j].at(q, x);
                let j2 = if j < p { j } else { j + 1 };
                assert(f.literal_children.array@[j2].at(q, x));
            } else if exists|j: int| #![trigger o.parser_children@[j]] 0 <= j < o.pcs().len() && o.parser_children@[j].at(q, x) {
                let j = choose|j: int| #![trigger o.parser_children@[j]] 0 <= j < o.pcs().len() && o.parser_children@[j].at(q, x);
                assert(f.parser_children@[j].at(q, x));
            }
        }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] f.obs(q, x) implies o.obs(q, x) || (pre(pl, q) && r1.obs(q.skip(pl.len() as int), x)) || newkid(q, x, pl) by {
            if exists|j: int| #![trigger f.literal_children.array@[j]] 0 <= j < f.lcs().len() && f.literal_children.array@[j].at(q, x) {
                let j = choose|j: int| #![trigger f.literal_children.array@[j]] 0 <= j < f.lcs().len() && f.literal_children.array@[j].at(q, x);
                if j != p {
                    let j2 = if j < p { j } else { j - 1 };
                    assert(o.literal_children.array@[j2].at(q, x));
                }
            } else if exists|j: int| #![trigger f.parser_children@[j]] 0 <= j < f.pcs().len() && f.parser_children@[j].at(q, x) {
                let j = choose|j: int| #![trigger f.parser_children@[j]] 0 <= j < f.pcs().len() && f.parser_children@[j].at(q, x);
                assert(o.parser_children@[j].at(q, x));
            }
        }
        assert forall|r: Seq<Sym>, x: Obs| #[trigger] r1.obs(r, x) implies f.obs(pl + r, x) by {
            r1.lemma_at(r, x);
            assert(f.literal_children.array@[p].at(pl + r, x));
        }
        assert(lens(o, f, r0, r1, pl));
        if r1.wf() { lemma_ins_wf(o, f, p, r1); }
        if o.canon() && (l.len() == 0 ==> o.pcs().len() == 0) && r1.canon() {
            assert forall|i: int| 0 <= i < f.literal_children.array@.len() implies (#[trigger] f.literal_children.array@[i]).canon() by { if i != p { assert(a[if i < p { i } else { i - 1 }].canon()); } }
            if f.has_empty() {
                let j = choose|i: int| 0 <= i < f.literal_children.array@.len() && (#[trigger] f.literal_children.array@[i]).literal@.len() == 0;
                if j != p { assert(o.literal_children.array@[if j < p { j } else { j - 1 }].literal@.len() == 0); }
            }
        }
    }
}
/// the node that was looked up
broadcast proof fn lemma_tolit_found(o: SuffixTree, f: SuffixTree, t0: SuffixTree, t1: SuffixTree, l: Seq<char>, i: int, c: LiteralNode)
    requires #[trigger] looked_ok(o, f, t0, t1, l, i), t1.lcs() == #[trigger] t0.literal_children.array@.update(i, c), t1.pcs() == t0.pcs(),
    ensures tolit(o, f, t0.lcs()[i], c, l),
{
    let k = choose|k: int| #[trigger] reach(o, f, t0, t1, l, k) && t0.lcs()[i].literal@ == l.skip(k);
    let c0 = t0.literal_children.array@[i];
    assert(c0.wf());
    if keep(c0, c) {
        if c.wf() { lemma_update_wf(t0, t1, i, c); }
        lemma_lens_child(t0, t1, i, c);
        lemma_lens_full(c0, c);
        lemma_lens_compose(t0, t1, Full { n: c0 }, Full { n: c }, c0, c, Seq::<Sym>::empty(), lit(c0.literal@));
        lemma_lens_compose(o, f, t0, t1, c0, c, lit(l.take(k)), Seq::<Sym>::empty() + lit(c0.literal@));
        assert(lit(l.take(k)) + (Seq::<Sym>::empty() + lit(c0.literal@)) =~= lit(l));
        if o.canon() && c.canon() { assert(c0.canon()); lemma_update_canon(t0, t1, i, c); }
    }
}
/// the node that was inserted where the lookup ended
broadcast proof fn lemma_tolit_down(o: SuffixTree, f: SuffixTree, t0: SuffixTree, t1: SuffixTree, l: Seq<char>, n: int, r0: LiteralNode, r1: LiteralNode, s: Seq<char>)
    requires #[trigger] looked_err(o, f, t0, t1, l, n), #[trigger] tolit(t0, t1, r0, r1, s), blen(s) == n, is_suffix(s, l),
    ensures tolit(o, f, r0, r1, l),
{
    let k = choose|k: int| #[trigger] reach(o, f, t0, t1, l, k) && n == blen(l.skip(k)) && t0.notfound(l.skip(k));
    lemma_suffix(s, l, k);
    if keep(r0, r1) {
        lemma_lens_compose(o, f, t0, t1, r0, r1, lit(l.take(k)), lit(s));
        assert(lit(l.take(k)) + lit(s) =~= lit(l));
    }
}
spec fn is_suffix(s: Seq<char>, l: Seq<char>) -> bool { s.len() <= l.len() && s == l.skip(l.len() - s.len()) }
proof fn lemma_suffix(s: Seq<char>, l: Seq<char>, k: int)
    requires is_suffix(s, l), 0 <= k <= l.len(), blen(s) == blen(l.skip(k)),
    ensures s == l.skip(k),
{
    let j = l.len() - s.len();
    assert(l =~= l.take(j) + l.skip(j));
    assert(l =~= l.take(k) + l.skip(k));
    lemma_blen_concat(l.take(j), l.skip(j));
    lemma_blen_concat(l.take(k), l.skip(k));
    if j < k { lemma_blen_take_mono(l, j, k); }
    if k < j { lemma_blen_take_mono(l, k, j); }
}
proof fn lemma_split_text(c: Seq<char>, l: Seq<char>)
    ensures ({ let k = lcpn(c, l) as int; let n = blen(lcp(c, l)) as int;
        &&& 0 <= k <= c.len() && k <= l.len()
        &&& is_bdy(c, n) && is_bdy(l, n) && cidx(c, n) == k && cidx(l, n) == k && n <= blen(c) && n <= blen(l)
        &&& c.take(k) == l.take(k)
        &&& (k < c.len() || k < l.len() ==> kcode(c.skip(k)) != kcode(l.skip(k)))
    }),
{
    lemma_lcpn(c, l);
    let k = lcpn(c, l) as int;
    lemma_cidx(c, k);
    lemma_cidx(l, k);
    lemma_bdy_range(c, blen(c.take(k)) as int);
    lemma_bdy_range(l, blen(l.take(k)) as int);
    if k < c.len() { assert(c.skip(k)[0] == c[k]); }
    if k < l.len() { assert(l.skip(k)[0] == l[k]); }
}
spec fn tail_hint(c: Seq<char>, l: Seq<char>) -> bool {
    let k = lcpn(c, l) as int; let n = blen(lcp(c, l)) as int;
    &&& 0 <= k <= c.len() && k <= l.len()
    &&& is_bdy(l, n) && cidx(l, n) == k
    &&& (k == 0 && kcode(c) == kcode(l) ==> c.len() == 0 && c == l)
    &&& (k == c.len() ==> c.is_prefix_of(l))
    &&& (k == c.len() && k == l.len() ==> c == l)
    &&& lcp(c, l) + l.skip(k) == l
    &&& lcp(c, l).len() == k
}
proof fn lemma_tail_hint(c: Seq<char>, l: Seq<char>)
    ensures tail_hint(c, l),
{
    lemma_lcpn(c, l);
    lemma_split_text(c, l);
    let k = lcpn(c, l) as int;
    if k == 0 && kcode(c) == kcode(l) { assert(c =~= l); }
    assert(lcp(c, l) + l.skip(k) =~= l);
    assert(c.take(c.len() as int) =~= c);
    assert(l.take(l.len() as int) =~= l);
}

// ----- parsers
/// o becomes f if its node r0, which stands for parser a, becomes r1
spec fn topar(o: SuffixTree, f: SuffixTree, r0: ParserNode, r1: ParserNode, a: PId) -> bool {
    &&& r0.wf() && r0.parser.pid() == a
    &&& (r1.parser == r0.parser && r1.wf() ==> f.wf())
    &&& (r1.parser == r0.parser ==> lens(o, f, r0, r1, seq![Sym::P(a)]))
    &&& f.lcs() == o.lcs()
    &&& (o.canon() && !o.has_empty() ==> r0.canon())
    &&& (o.canon() && !o.has_empty() && r1.parser == r0.parser && r1.canon() ==> f.canon() && !f.has_empty())
}
spec fn par_old(o: SuffixTree, f: SuffixTree, r0: ParserNode, r1: ParserNode, a: PId) -> bool {
    exists|i: int| #![trigger o.parser_children@[i]] 0 <= i < o.pcs().len() && o.parser_children@[i] == r0 && r0.parser.pid() == a && f.pcs() =~= o.pcs().update(i, r1) && f.lcs() =~= o.lcs()
}
spec fn par_new(o: SuffixTree, f: SuffixTree, r0: ParserNode, r1: ParserNode, a: PId) -> bool {
    &&& r0.parser.pid() == a && r0.pattern is None && r0.node is None
    &&& f.pcs().len() == o.pcs().len() + 1 && f.pcs() =~= o.pcs().push(r1) && f.lcs() =~= o.lcs()
    &&& forall|i: int| 0 <= i < o.pcs().len() ==> (#[trigger] o.pcs()[i]).parser.pid() != a
}
broadcast proof fn lemma_topar(o: SuffixTree, f: SuffixTree, r0: ParserNode, r1: ParserNode, a: PId)
    requires o.wf(), par_old(o, f, r0, r1, a) || par_new(o, f, r0, r1, a),
    ensures #[trigger] topar(o, f, r0, r1, a),
{
    let p = if par_old(o, f, r0, r1, a) {
        choose|i: int| #![trigger o.parser_children@[i]] 0 <= i < o.pcs().len() && o.parser_children@[i] == r0 && r0.parser.pid() == a && f.pcs() =~= o.pcs().update(i, r1) && f.lcs() =~= o.lcs()
    } else { o.pcs().len() as int };
    let sy = seq![Sym::P(a)];
    let (x0, x1) = (o.parser_children@, f.parser_children@);
    assert(r0.wf());
    assert forall|i: int| 0 <= i < x1.len() implies #[trigger] x1[i] == if i == p { r1 } else { x0[i] } by {}
    assert(f.has_empty() == o.has_empty());
    if r1.parser == r0.parser {
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] o.obs(q, x) implies f.obs(q, x) || (pre(sy, q) && r0.obs(q.skip(sy.len() as int), x)) by {
            if exists|j: int| #![trigger o.literal_children.array@[j]] 0 <= j < o.lcs().len() && o.literal_children.array@[j].at(q, x) {
                let j = choose|j: int| #![trigger o.literal_children.array@[j]] 0 <= j < o.lcs().len() && o.literal_children.array@[j].at(q, x);
                assert(f.literal_children.array@[j].at(q, x));
            } else if exists|j: int| #![trigger o.parser_children@[j]] 0 <= j < o.pcs().len() && o.parser_children@[j].at(q, x) {
                let j = choose|j: int| #![trigger o.parser_children@[j]] 0 <= j < o.pcs().len() && o.parser_children@[j].at(q, x);
                if j != p { assert(f.parser_children@[j].at(q, x)); }
            } else {
                match x { Obs::Kid(i, b) => { assert(x1[i as int].parser.pid() == b); }, Obs::End(m) => {} }
            }
        }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] f.obs(q, x) implies o.obs(q, x) || (pre(sy, q) && r1.obs(q.skip(sy.len() as int), x)) || newkid(q, x, sy) by {
            if exists|j: int| #![trigger f.literal_children.array@[j]] 0 <= j < f.lcs().len() && f.literal_children.array@[j].at(q, x) {
                let j = choose|j: int| #![trigger f.literal_children.array@[j]] 0 <= j < f.lcs().len() && f.literal_children.array@[j].at(q, x);
                assert(o.literal_children.array@[j].at(q, x));
            } else if exists|j: int| #![trigger f.parser_children@[j]] 0 <= j < f.pcs().len() && f.parser_children@[j].at(q, x) {
                let j = choose|j: int| #![trigger f.parser_children@[j]] 0 <= j < f.pcs().len() && f.parser_children@[j].at(q, x);
                if j != p { assert(o.parser_children@[j].at(q, x)); }
            } else {
                match x {
                    Obs::Kid(i, b) => {
                        assert(x1[i as int].parser.pid() == b);
                        if i == p { assert(q + seq![Sym::P(b)] =~= sy); assert(sy.take(1) =~= sy); assert(newkid(q, x, sy)); }
                    },
                    Obs::End(m) => {}
                }
            }
        }
        assert forall|r: Seq<Sym>, x: Obs| #[trigger] r1.obs(r, x) implies f.obs(sy + r, x) by {
            r1.lemma_at(r, x);
            assert(f.parser_children@[p].at(sy + r, x));
        }
        assert forall|r: Seq<Sym>, x: Obs| #[trigger] r0.obs(r, x) implies o.obs(sy + r, x) by {
            r0.lemma_at(r, x);
            assert(o.parser_children@[p].at(sy + r, x));
        }
        if r1.wf() {
            assert forall|i: int, j: int| #![trigger x1[i], x1[j]] 0 <= i < j < x1.len() implies x1[i].parser.pid() != x1[j].parser.pid() by {
                if j < x0.len() { assert(x0[i].parser.pid() != x0[j].parser.pid()); } else { assert(o.pcs()[i].parser.pid() != a); }
            }
            assert forall|i: int| 0 <= i < x1.len() implies (#[trigger] x1[i]).wf() by { if i != p { assert(x0[i].wf()); } }
            assert forall|i: int| 0 <= i < f.literal_children.array@.len() implies (#[trigger] f.literal_children.array@[i]).wf() by { assert(o.literal_children.array@[i].wf()); }
            assert(f.wf());
        }
        if o.canon() && !o.has_empty() && r1.canon() {
            assert forall|i: int| 0 <= i < x1.len() implies (#[trigger] x1[i]).canon() by { if i != p { assert(x0[i].canon()); } }
            assert forall|i: int| 0 <= i < f.literal_children.array@.len() implies (#[trigger] f.literal_children.array@[i]).canon() by { assert(o.literal_children.array@[i].canon()); }
        }
    }
}

// ----- whole patterns
broadcast proof fn lemma_put_lit(o: SuffixTree, f: SuffixTree, r0: LiteralNode, r1: LiteralNode, l: Seq<char>, p: Seq<Sym>, m: Meta)
    requires #[trigger] tolit(o, f, r0, r1, l), #[trigger] put(r0, r1, p, m), keep(r0, r1),
    ensures put(o, f, lit(l) + p, m),
{
    lemma_put(o, f, r0, r1, lit(l), p, m);
}
broadcast proof fn lemma_put_par(o: SuffixTree, f: SuffixTree, r0: ParserNode, r1: ParserNode, a: PId, p: Seq<Sym>, m: Meta)
    requires #[trigger] topar(o, f, r0, r1, a), #[trigger] put(r0, r1, p, m), r1.parser == r0.parser,
    ensures put(o, f, seq![Sym::P(a)] + p, m),
{
    lemma_put(o, f, r0, r1, seq![Sym::P(a)], p, m);
}
spec fn bare(n: SuffixTree) -> bool { n.lcs().len() == 0 && n.pcs().len() == 0 }
/// adding below a node, or ending there
spec fn entry_l(r0: LiteralNode, r1: LiteralNode, p: Seq<Sym>, m: Meta) -> bool {
    ||| p.len() == 0 && r1.node == r0.node && r1.pattern is Some && r1.pattern->0.meta() == m
    ||| r1.pattern == r0.pattern && r1.node is Some && exists|n0: SuffixTree| #[trigger] put(n0, r1.node->0, p, m) && (r0.node == Some(n0) || (r0.node is None && bare(n0)))
}
broadcast proof fn lemma_put_entry_l(r0: LiteralNode, r1: LiteralNode, p: Seq<Sym>, m: Meta)
    requires entry_l(r0, r1, p, m),
    ensures #[trigger] put(r0, r1, p, m),
{
    if p.len() == 0 && r1.node == r0.node && r1.pattern is Some && r1.pattern->0.meta() == m {
        assert(r1.rest(p, Obs::End(m)));
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r0.obs(q, x) && !(q == p && x is End) implies r1.obs(q, x) by { if q.len() == 0 { assert(q =~= p); } }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r1.obs(q, x) implies r0.obs(q, x) || (q == p && x == Obs::End(m)) || newkid(q, x, p) by { if q.len() == 0 { assert(q =~= p); } }
    } else {
        let n0 = choose|n0: SuffixTree| #[trigger] put(n0, r1.node->0, p, m) && (r0.node == Some(n0) || (r0.node is None && bare(n0)));
        let n1 = r1.node->0;
        assert(n1.obs(p, Obs::End(m)));
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r0.obs(q, x) && !(q == p && x is End) implies r1.obs(q, x) by {
            if r0.node == Some(n0) && n0.at(q, x) { assert(n0.obs(q, x)); assert(n1.obs(q, x)); }
        }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r1.obs(q, x) implies r0.obs(q, x) || (q == p && x == Obs::End(m)) || newkid(q, x, p) by {
            if n1.at(q, x) { assert(n1.obs(q, x)); }
        }
    }
}
spec fn entry_p(r0: ParserNode, r1: ParserNode, p: Seq<Sym>, m: Meta) -> bool {
    ||| p.len() == 0 && r1.node == r0.node && r1.pattern is Some && r1.pattern->0.meta() == m
    ||| r1.pattern == r0.pattern && r1.node is Some && exists|n0: SuffixTree| #[trigger] put(n0, r1.node->0, p, m) && (r0.node == Some(n0) || (r0.node is None && bare(n0)))
}
broadcast proof fn lemma_put_entry_p(r0: ParserNode, r1: ParserNode, p: Seq<Sym>, m: Meta)
    requires entry_p(r0, r1, p, m),
    ensures #[trigger] put(r0, r1, p, m),
{
    if p.len() == 0 && r1.node == r0.node && r1.pattern is Some && r1.pattern->0.meta() == m {
        assert(r1.rest(p, Obs::End(m)));
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r0.obs(q, x) && !(q == p && x is End) implies r1.obs(q, x) by { if q.len() == 0 { assert(q =~= p); } }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r1.obs(q, x) implies r0.obs(q, x) || (q == p && x == Obs::End(m)) || newkid(q, x, p) by { if q.len() == 0 { assert(q =~= p); } }
    } else {
        let n0 = choose|n0: SuffixTree| #[trigger] put(n0, r1.node->0, p, m) && (r0.node == Some(n0) || (r0.node is None && bare(n0)));
        let n1 = r1.node->0;
        assert(n1.obs(p, Obs::End(m)));
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r0.obs(q, x) && !(q == p && x is End) implies r1.obs(q, x) by {
            if r0.node == Some(n0) && n0.at(q, x) { assert(n0.obs(q, x)); assert(n1.obs(q, x)); }
        }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] r1.obs(q, x) implies r0.obs(q, x) || (q == p && x == Obs::End(m)) || newkid(q, x, p) by {
            if n1.at(q, x) { assert(n1.obs(q, x)); }
        }
    }
}
