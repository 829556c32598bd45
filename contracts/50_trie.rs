// ---------------------------------------------------------------------------
// The radix trie
// ---------------------------------------------------------------------------
spec fn kcode(s: Seq<char>) -> int { if s.len() == 0 { -1 } else { s[0] as int } }
spec fn kcmp(a: Seq<char>, b: Seq<char>) -> Ordering {
    if kcode(a) < kcode(b) { Ordering::Less } else if kcode(a) == kcode(b) { Ordering::Equal } else { Ordering::Greater }
}

impl SuffixTree {
    spec fn at(&self, q: Seq<Sym>, x: Obs) -> bool
        decreases self,
    {
        ||| q.len() == 0 && (match x {
            Obs::Kid(i, a) => i < self.parser_children@.len() && self.parser_children@[i as int].parser.pid() == a,
            Obs::End(m) => false,
        })
        ||| exists|i: int| #![trigger self.literal_children.array@[i]] 0 <= i < self.literal_children.array@.len() && self.literal_children.array@[i].at(q, x)
        ||| exists|i: int| #![trigger self.parser_children@[i]] 0 <= i < self.parser_children@.len() && self.parser_children@[i].at(q, x)
    }
    spec fn wf(&self) -> bool
        decreases self,
    {
        &&& forall|i: int, j: int| #![trigger self.literal_children.array@[i], self.literal_children.array@[j]] 0 <= i < j < self.literal_children.array@.len() ==>
            kcode(self.literal_children.array@[i].literal@) < kcode(self.literal_children.array@[j].literal@)
        &&& forall|i: int, j: int| #![trigger self.parser_children@[i], self.parser_children@[j]] 0 <= i < j < self.parser_children@.len() ==>
            self.parser_children@[i].parser.pid() != self.parser_children@[j].parser.pid()
        &&& forall|i: int| 0 <= i < self.literal_children.array@.len() ==> (#[trigger] self.literal_children.array@[i]).wf()
        &&& forall|i: int| 0 <= i < self.parser_children@.len() ==> (#[trigger] self.parser_children@[i]).wf()
    }
    spec fn has_empty(&self) -> bool {
        exists|i: int| 0 <= i < self.literal_children.array@.len() && (#[trigger] self.literal_children.array@[i]).literal@.len() == 0
    }
    spec fn canon(&self) -> bool
        decreases self,
    {
        &&& self.has_empty() ==> self.parser_children@.len() == 0
        &&& forall|i: int| 0 <= i < self.literal_children.array@.len() ==> (#[trigger] self.literal_children.array@[i]).canon()
        &&& forall|i: int| 0 <= i < self.parser_children@.len() ==> (#[trigger] self.parser_children@[i]).canon()
    }
}
impl LiteralNode {
    spec fn at(&self, q: Seq<Sym>, x: Obs) -> bool
        decreases self, 1int,
    {
        pre(lit(self.literal@), q) && self.rest(q.skip(self.literal@.len() as int), x)
    }
    spec fn rest(&self, r: Seq<Sym>, x: Obs) -> bool
        decreases self, 0int,
    {
        ||| r.len() == 0 && self.pattern is Some && x == Obs::End(self.pattern->0.meta())
        ||| match self.node { Some(n) => n.at(r, x), None => false }
    }
    spec fn wf(&self) -> bool
        decreases self,
    {
        &&& (self.node is None || self.literal@.len() == 0 || self.pattern is Some ==> self.has_value)
        &&& match self.node { Some(n) => n.wf(), None => true }
    }
    spec fn canon(&self) -> bool
        decreases self,
    {
        match self.node {
            Some(n) => n.canon() && (!self.has_value ==> n.parser_children@.len() == 0) && (self.has_value ==> !n.has_empty())
                && (self.literal@.len() == 0 ==> n.literal_children.array@.len() == 0),
            None => true,
        }
    }
}
impl ParserNode {
    spec fn at(&self, q: Seq<Sym>, x: Obs) -> bool
        decreases self, 1int,
    {
        pre(seq![Sym::P(self.parser.pid())], q) && self.rest(q.skip(1), x)
    }
    spec fn rest(&self, r: Seq<Sym>, x: Obs) -> bool
        decreases self, 0int,
    {
        ||| r.len() == 0 && self.pattern is Some && x == Obs::End(self.pattern->0.meta())
        ||| match self.node { Some(n) => n.at(r, x), None => false }
    }
    spec fn wf(&self) -> bool
        decreases self,
    {
        match self.node { Some(n) => n.wf(), None => true }
    }
    spec fn canon(&self) -> bool
        decreases self,
    {
        match self.node { Some(n) => n.canon() && !n.has_empty(), None => true }
    }
}
impl Node for SuffixTree {
    spec fn obs(&self, q: Seq<Sym>, x: Obs) -> bool { self.at(q, x) }
    spec fn full(&self, q: Seq<Sym>, x: Obs) -> bool { self.at(q, x) }
    spec fn canon_(&self) -> bool { self.canon() }
}
impl Node for LiteralNode {
    spec fn obs(&self, q: Seq<Sym>, x: Obs) -> bool { self.rest(q, x) }
    spec fn full(&self, q: Seq<Sym>, x: Obs) -> bool { self.at(q, x) }
    spec fn canon_(&self) -> bool { self.canon() }
}
impl Node for ParserNode {
    spec fn obs(&self, q: Seq<Sym>, x: Obs) -> bool { self.rest(q, x) }
    spec fn full(&self, q: Seq<Sym>, x: Obs) -> bool { self.at(q, x) }
    spec fn canon_(&self) -> bool { self.canon() }
}

impl OrdSpecImpl for LiteralNode {
    closed spec fn obeys_cmp_spec() -> bool { true }
    closed spec fn cmp_spec(&self, other: &Self) -> Ordering { kcmp(self.literal@, other.literal@) }
}
impl PartialOrdSpecImpl for LiteralNode {
    closed spec fn obeys_partial_cmp_spec() -> bool { true }
    closed spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(kcmp(self.literal@, other.literal@)) }
}
impl PartialEqSpecImpl for LiteralNode {
    closed spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, other: &Self) -> bool { kcode(self.literal@) == kcode(other.literal@) }
}

// ----- matching
proof fn lemma_prefix_code(l: Seq<char>, s: Seq<char>)
    requires l.is_prefix_of(s), l.len() > 0,
    ensures kcode(l) == kcode(s),
{
    assert(s.take(l.len() as int)[0] == l[0]);
}

impl LiteralNode {
    proof fn lemma_at(&self, r: Seq<Sym>, x: Obs)
        ensures self.at(lit(self.literal@) + r, x) == self.rest(r, x),
    {
        lemma_pre(lit(self.literal@), r);
    }
    /// the text does not start with the literal
    proof fn lemma_no(&self, s: Seq<char>, r: Option<MatchResult>)
        requires !self.literal@.is_prefix_of(s), r is None,
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        assert forall|o: Seq<Sym>, m: Meta| #[trigger] self.full(o, Obs::End(m)) implies !matches(o, s) by {
            lemma_pre_split(lit(self.literal@), o);
            lemma_matches_lit(self.literal@, o.skip(self.literal@.len() as int), s);
        }
    }
    /// a pattern ends here and so does the text
    proof fn lemma_end(&self, s: Seq<char>, r: Option<MatchResult>)
        requires self.literal@ == s, r is Some, self.pattern is Some, r->0.rmeta() == self.pattern->0.meta(),
            r->0.rvals() == Map::<Seq<char>, Seq<char>>::empty(),
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        let l = lit(self.literal@);
        let e = Seq::<Sym>::empty();
        let p = l + e;
        let m = self.pattern->0.meta();
        assert(s.skip(s.len() as int) =~= Seq::empty());
        assert(s.take(s.len() as int) =~= s);
        lemma_matches_lit(self.literal@, e, s);
        self.lemma_at(e, Obs::End(m));
        assert(self.full(p, Obs::End(m)) && r->0.is_match(p, m, s));
        assert forall|o: Seq<Sym>, mo: Meta| #[trigger] self.full(o, Obs::End(mo)) && matches(o, s) implies pref(*self, p, o) by {
            lemma_pre_split(l, o);
            assert(p =~= l);
            assert(p.take(l.len() as int) =~= o.take(l.len() as int));
            assert(pref_at(*self, p, o, l.len() as int));
        }
        assert(best(*self, p, s));
    }
    /// the result is that of the node below
    proof fn lemma_down(&self, s: Seq<char>, r: Option<MatchResult>)
        requires self.literal@.is_prefix_of(s), self.node is Some,
            self.pattern is None || s.len() != self.literal@.len(),
            ({ let n = self.node->0; let s2 = s.skip(self.literal@.len() as int);
               sound1(n, s2, r) && sound2(n, s2, r) && complete(n, s2, r) && chosen(n, s2, r) }),
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        let l = lit(self.literal@);
        let n = self.node->0;
        let s2 = s.skip(self.literal@.len() as int);
        assert forall|p: Seq<Sym>| r is Some && #[trigger] matches(p, s2) && r->0.rvals() == binds(p, s2) implies r->0.rvals() == binds(l + p, s) by {
            lemma_matches_lit(self.literal@, p, s);
        }
        assert forall|p: Seq<Sym>| #[trigger] matches(p, s2) <==> matches(l + p, s) by { lemma_matches_lit(self.literal@, p, s); }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] n.full(q, x) implies self.full(l + q, x) by { self.lemma_at(q, x); }
        assert forall|o: Seq<Sym>, m: Meta| #[trigger] self.full(o, Obs::End(m)) && matches(o, s) implies pre(l, o) && n.full(o.skip(l.len() as int), Obs::End(m)) by {
            lemma_pre_split(l, o);
            lemma_matches_lit(self.literal@, o.skip(l.len() as int), s);
        }
        lemma_up(n, *self, l, s, s2, r, r);
    }
    /// nothing below
    proof fn lemma_none(&self, s: Seq<char>, r: Option<MatchResult>)
        requires self.literal@.is_prefix_of(s), self.node is None, r is None, self.pattern is None || s.len() != self.literal@.len(),
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        assert forall|o: Seq<Sym>, m: Meta| #[trigger] self.full(o, Obs::End(m)) implies !matches(o, s) by {
            lemma_pre_split(lit(self.literal@), o);
            lemma_matches_lit(self.literal@, o.skip(self.literal@.len() as int), s);
        }
    }
}

impl ParserNode {
    spec fn sym(&self) -> Seq<Sym> { seq![Sym::P(self.parser.pid())] }
    proof fn lemma_at(&self, r: Seq<Sym>, x: Obs)
        ensures self.at(self.sym() + r, x) == self.rest(r, x),
    {
        lemma_pre(self.sym(), r);
    }
    proof fn lemma_no(&self, s: Seq<char>, r: Option<MatchResult>)
        requires pid_parse(self.parser.pid(), s) is None, r is None,
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        assert forall|o: Seq<Sym>, m: Meta| #[trigger] self.full(o, Obs::End(m)) implies !matches(o, s) by {
            lemma_pre_split(self.sym(), o);
            lemma_matches_parser(self.parser.pid(), o.skip(1), s);
        }
    }
    proof fn lemma_end(&self, s: Seq<char>, r: Option<MatchResult>)
        requires pid_parse(self.parser.pid(), s) == Some(s.len()), r is Some, self.pattern is Some, r->0.rmeta() == self.pattern->0.meta(),
            r->0.rvals() == bind1(Map::<Seq<char>, Seq<char>>::empty(), pname(self.parser.pid()), s),
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        let l = self.sym();
        let e = Seq::<Sym>::empty();
        let p = l + e;
        let m = self.pattern->0.meta();
        assert(s.skip(s.len() as int) =~= Seq::empty());
        assert(s.take(s.len() as int) =~= s);
        lemma_matches_parser(self.parser.pid(), e, s);
        self.lemma_at(e, Obs::End(m));
        assert(self.full(p, Obs::End(m)) && r->0.is_match(p, m, s));
        assert forall|o: Seq<Sym>, mo: Meta| #[trigger] self.full(o, Obs::End(mo)) && matches(o, s) implies pref(*self, p, o) by {
            lemma_pre_split(l, o);
            assert(p =~= l);
            assert(p.take(1) =~= o.take(1));
            assert(pref_at(*self, p, o, 1));
        }
        assert(best(*self, p, s));
    }
    proof fn lemma_down(&self, s: Seq<char>, k: nat, rc: Option<MatchResult>, r: Option<MatchResult>)
        requires pid_parse(self.parser.pid(), s) == Some(k), self.node is Some,
            self.pattern is None || s.len() != k, k <= s.len(),
            ({ let n = self.node->0; let s2 = s.skip(k as int);
               sound1(n, s2, rc) && sound2(n, s2, rc) && complete(n, s2, rc) && chosen(n, s2, rc) }),
            rc is Some <==> r is Some,
            rc is Some ==> rc->0.rmeta() == r->0.rmeta(),
            rc is Some ==> r->0.rvals() == bind1(rc->0.rvals(), pname(self.parser.pid()), s.take(k as int)),
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        let l = self.sym();
        let n = self.node->0;
        let s2 = s.skip(k as int);
        let q = self.parser.pid();
        assert forall|p: Seq<Sym>| rc is Some && #[trigger] matches(p, s2) && rc->0.rvals() == binds(p, s2) implies r->0.rvals() == binds(l + p, s) by {
            lemma_matches_parser(q, p, s);
        }
        assert forall|p: Seq<Sym>| #[trigger] matches(p, s2) <==> matches(l + p, s) by { lemma_matches_parser(q, p, s); }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] n.full(q, x) implies self.full(l + q, x) by { self.lemma_at(q, x); }
        assert forall|o: Seq<Sym>, m: Meta| #[trigger] self.full(o, Obs::End(m)) && matches(o, s) implies pre(l, o) && n.full(o.skip(l.len() as int), Obs::End(m)) by {
            lemma_pre_split(l, o);
            lemma_matches_parser(q, o.skip(1), s);
        }
        lemma_up(n, *self, l, s, s2, rc, r);
    }
    proof fn lemma_none(&self, s: Seq<char>, k: nat, r: Option<MatchResult>)
        requires pid_parse(self.parser.pid(), s) == Some(k), k <= s.len(), r is None,
            self.pattern is None || s.len() != k, self.node is None,
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        assert forall|o: Seq<Sym>, m: Meta| #[trigger] self.full(o, Obs::End(m)) implies !matches(o, s) by {
            lemma_pre_split(self.sym(), o);
            lemma_matches_parser(self.parser.pid(), o.skip(1), s);
        }
    }
}

impl SuffixTree {
    spec fn lcs(&self) -> Seq<LiteralNode> { self.literal_children.array@ }
    spec fn pcs(&self) -> Seq<ParserNode> { self.parser_children@ }
    /// no pattern that starts with literal text matches
    spec fn no_lit(&self, s: Seq<char>) -> bool {
        forall|i: int, o: Seq<Sym>, m: Meta| 0 <= i < self.lcs().len() && #[trigger] self.lcs()[i].full(o, Obs::End(m)) ==> !matches(o, s)
    }
    spec fn no_par(&self, s: Seq<char>) -> bool {
        forall|i: int, o: Seq<Sym>, m: Meta| 0 <= i < self.pcs().len() && #[trigger] self.pcs()[i].full(o, Obs::End(m)) ==> !matches(o, s)
    }
    spec fn no_child(&self, i: int, s: Seq<char>) -> bool {
        forall|o: Seq<Sym>, m: Meta| #[trigger] self.lcs()[i].full(o, Obs::End(m)) ==> !matches(o, s)
    }
    /// child i is the only one whose (non-empty) literal the text can start with, or the empty one
    proof fn lemma_code(&self, s: Seq<char>, i: int, o: Seq<Sym>, m: Meta)
        requires 0 <= i < self.lcs().len(), self.lcs()[i].full(o, Obs::End(m)), matches(o, s),
        ensures self.lcs()[i].literal@.is_prefix_of(s),
            self.lcs()[i].literal@.len() > 0 ==> kcode(self.lcs()[i].literal@) == kcode(s) && o.len() > 0 && o[0] is C,
            self.lcs()[i].literal@.len() == 0 ==> self.lcs()[i].rest(o, Obs::End(m)),
    {
        let c = self.lcs()[i];
        let l = lit(c.literal@);
        lemma_pre_split(l, o);
        lemma_matches_lit(c.literal@, o.skip(l.len() as int), s);
        if c.literal@.len() > 0 {
            lemma_prefix_code(c.literal@, s);
            assert(o.take(l.len() as int)[0] == l[0]);
        } else {
            assert(o.skip(0) =~= o);
        }
    }
    proof fn lemma_lit_found(&self, i: int, s: Seq<char>, r: Option<MatchResult>)
        requires self.wf(), 0 <= i < self.lcs().len(), r is Some,
            ({ let c = self.lcs()[i]; sound1(c, s, r) && sound2(c, s, r) && chosen(c, s, r) }),
            kcode(self.lcs()[i].literal@) == kcode(s)
                || (self.lcs()[i].literal@.len() == 0 && forall|j: int| 0 <= j < self.lcs().len() && kcode((#[trigger] self.lcs()[j]).literal@) == kcode(s) ==> self.no_child(j, s)),
        ensures sound1(*self, s, r), sound2(*self, s, r), chosen(*self, s, r),
    {
        let c = self.lcs()[i];
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] c.full(q, x) implies self.full(q, x) by { assert(self.literal_children.array@[i].at(q, x)); }
        let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] c.full(p, Obs::End(m)) && matches(p, s) && r->0.rmeta() == m;
        assert(self.full(p, Obs::End(m)));
        let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] c.full(p, Obs::End(m)) && r->0.is_match(p, m, s);
        assert(self.full(p, Obs::End(m)));
        if self.canon_() {
            let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] c.full(p, Obs::End(m)) && r->0.is_match(p, m, s) && best(c, p, s);
            assert(self.full(p, Obs::End(m)));
            self.lemma_code(s, i, p, m);
            assert forall|o: Seq<Sym>, mo: Meta| #[trigger] self.full(o, Obs::End(mo)) && matches(o, s) implies pref(*self, p, o) by {
                if exists|j: int| #![trigger self.lcs()[j]] 0 <= j < self.lcs().len() && self.lcs()[j].at(o, Obs::End(mo)) {
                    let j = choose|j: int| #![trigger self.lcs()[j]] 0 <= j < self.lcs().len() && self.lcs()[j].at(o, Obs::End(mo));
                    assert(self.lcs()[j].full(o, Obs::End(mo)));
                    if j == i {
                        let e = Seq::<Sym>::empty();
                        assert forall|r: Seq<Sym>, i: nat, a: PId| #[trigger] c.full(r, Obs::Kid(i, a)) implies self.full(e + r, Obs::Kid(i, a)) by { assert(e + r =~= r); }
                        lemma_pref_lift(c, *self, e, p, o);
                        assert(e + p =~= p);
                        assert(e + o =~= o);
                    } else {
                        self.lemma_code(s, j, o, mo);
                        let d = self.lcs()[j];
                        assert(self.no_child(j, s) ==> false);
                        assert(kcode(c.literal@) != kcode(d.literal@));
                        // one is empty, the other starts like s
                        if d.literal@.len() == 0 {
                            assert(d.canon());
                            if o.len() > 0 {
                                let n = d.node->0;
                                assert(n.at(o, Obs::End(mo)));
                                assert(n.literal_children.array@.len() == 0);
                                let k = choose|k: int| #![trigger n.parser_children@[k]] 0 <= k < n.parser_children@.len() && n.parser_children@[k].at(o, Obs::End(mo));
                                assert(o.take(1)[0] == n.parser_children@[k].sym()[0]);
                            }
                            assert(o.len() > 0 && o[0] is P);
                            assert(p.take(0) =~= o.take(0));
                            assert(pref_at(*self, p, o, 0));
                        }
                    }
                } else {
                    let j = choose|j: int| #![trigger self.pcs()[j]] 0 <= j < self.pcs().len() && self.pcs()[j].at(o, Obs::End(mo));
                    assert(o.take(1)[0] == self.pcs()[j].sym()[0]);
                    assert(o[0] is P);
                    if c.literal@.len() == 0 {
                        assert(self.has_empty());
                    }
                    assert(p.take(0) =~= o.take(0));
                    assert(pref_at(*self, p, o, 0));
                }
            }
            assert(best(*self, p, s));
        }
    }
    proof fn lemma_lit_none(&self, s: Seq<char>)
        requires self.wf(), forall|i: int| 0 <= i < self.lcs().len() && (kcode((#[trigger] self.lcs()[i]).literal@) == kcode(s) || self.lcs()[i].literal@.len() == 0) ==> self.no_child(i, s),
        ensures self.no_lit(s),
    {
        assert forall|i: int, o: Seq<Sym>, m: Meta| 0 <= i < self.lcs().len() && #[trigger] self.lcs()[i].full(o, Obs::End(m)) implies !matches(o, s) by {
            if matches(o, s) {
                self.lemma_code(s, i, o, m);
                assert(self.no_child(i, s));
            }
        }
    }
    proof fn lemma_par_found(&self, i: int, s: Seq<char>, r: Option<MatchResult>)
        requires self.wf(), 0 <= i < self.pcs().len(), r is Some, self.no_lit(s),
            ({ let c = self.pcs()[i]; sound1(c, s, r) && sound2(c, s, r) && chosen(c, s, r) }),
            forall|j: int, o: Seq<Sym>, m: Meta| 0 <= j < i && #[trigger] self.pcs()[j].full(o, Obs::End(m)) ==> !matches(o, s),
        ensures sound1(*self, s, r), sound2(*self, s, r), chosen(*self, s, r),
    {
        let c = self.pcs()[i];
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] c.full(q, x) implies self.full(q, x) by { assert(self.parser_children@[i].at(q, x)); }
        let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] c.full(p, Obs::End(m)) && matches(p, s) && r->0.rmeta() == m;
        assert(self.full(p, Obs::End(m)));
        let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] c.full(p, Obs::End(m)) && r->0.is_match(p, m, s);
        assert(self.full(p, Obs::End(m)));
        if self.canon_() {
            let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] c.full(p, Obs::End(m)) && r->0.is_match(p, m, s) && best(c, p, s);
            assert(self.full(p, Obs::End(m)));
            assert(p.take(1)[0] == c.sym()[0]);
            assert forall|o: Seq<Sym>, mo: Meta| #[trigger] self.full(o, Obs::End(mo)) && matches(o, s) implies pref(*self, p, o) by {
                if exists|j: int| #![trigger self.lcs()[j]] 0 <= j < self.lcs().len() && self.lcs()[j].at(o, Obs::End(mo)) {
                    let j = choose|j: int| #![trigger self.lcs()[j]] 0 <= j < self.lcs().len() && self.lcs()[j].at(o, Obs::End(mo));
                    assert(self.lcs()[j].full(o, Obs::End(mo)));
                } else {
                    let j = choose|j: int| #![trigger self.pcs()[j]] 0 <= j < self.pcs().len() && self.pcs()[j].at(o, Obs::End(mo));
                    assert(self.pcs()[j].full(o, Obs::End(mo)));
                    if j == i {
                        let e = Seq::<Sym>::empty();
                        assert forall|r: Seq<Sym>, i: nat, a: PId| #[trigger] c.full(r, Obs::Kid(i, a)) implies self.full(e + r, Obs::Kid(i, a)) by { assert(e + r =~= r); }
                        lemma_pref_lift(c, *self, e, p, o);
                        assert(e + p =~= p);
                        assert(e + o =~= o);
                    } else {
                        assert(j > i);
                        assert(o.take(1)[0] == self.pcs()[j].sym()[0]);
                        assert(p.take(0) =~= Seq::empty());
                        assert(p.take(0) =~= o.take(0));
                        assert(self.full(p.take(0), Obs::Kid(i as nat, c.parser.pid())));
                        assert(self.full(p.take(0), Obs::Kid(j as nat, self.pcs()[j].parser.pid())));
                        assert(pref_at(*self, p, o, 0));
                    }
                }
            }
            assert(best(*self, p, s));
        }
    }
}

spec fn lnode_case(n: LiteralNode, s: Seq<char>, r: Option<MatchResult>) -> bool {
    ||| !n.literal@.is_prefix_of(s) && r is None
    ||| n.literal@ == s && n.pattern is Some && r is Some && r->0.rmeta() == n.pattern->0.meta() && r->0.rvals() == Map::<Seq<char>, Seq<char>>::empty()
    ||| n.literal@.is_prefix_of(s) && (n.pattern is None || s.len() != n.literal@.len()) && n.node is None && r is None
    ||| n.literal@.is_prefix_of(s) && (n.pattern is None || s.len() != n.literal@.len()) && n.node is Some && four(n.node->0, s.skip(n.literal@.len() as int), r)
}
broadcast proof fn lemma_lnode(n: LiteralNode, s: Seq<char>, r: Option<MatchResult>)
    requires lnode_case(n, s, r),
    ensures #![trigger sound1(n, s, r)] #![trigger sound2(n, s, r)] #![trigger complete(n, s, r)] #![trigger chosen(n, s, r)] four(n, s, r),
{
    if !n.literal@.is_prefix_of(s) { n.lemma_no(s, r); }
    else if n.literal@ == s && n.pattern is Some && r is Some && r->0.rmeta() == n.pattern->0.meta() && r->0.rvals() == Map::<Seq<char>, Seq<char>>::empty() { n.lemma_end(s, r); }
    else if n.node is None { n.lemma_none(s, r); }
    else { n.lemma_down(s, r); }
}
spec fn pnode_case(n: ParserNode, s: Seq<char>, r: Option<MatchResult>) -> bool {
    match pid_parse(n.parser.pid(), s) {
        None => r is None,
        Some(k) => {
            ||| k == s.len() && r is Some && n.pattern is Some && r->0.rmeta() == n.pattern->0.meta()
                && r->0.rvals() == bind1(Map::<Seq<char>, Seq<char>>::empty(), pname(n.parser.pid()), s)
            ||| (n.pattern is None || s.len() != k) && n.node is None && r is None
            ||| (n.pattern is None || s.len() != k) && n.node is Some
                && below(n.node->0, s.skip(k as int), pname(n.parser.pid()), s.take(k as int), r)
        }
    }
}
broadcast proof fn lemma_pnode(n: ParserNode, s: Seq<char>, r: Option<MatchResult>)
    requires pnode_case(n, s, r),
    ensures #![trigger sound1(n, s, r)] #![trigger sound2(n, s, r)] #![trigger complete(n, s, r)] #![trigger chosen(n, s, r)] four(n, s, r),
{
    let q = n.parser.pid();
    lemma_pid_parse_len(q, s);
    match pid_parse(q, s) {
        None => n.lemma_no(s, r),
        Some(k) => {
            if k == s.len() && r is Some && n.pattern is Some && r->0.rmeta() == n.pattern->0.meta()
                && r->0.rvals() == bind1(Map::<Seq<char>, Seq<char>>::empty(), pname(q), s) { n.lemma_end(s, r); }
            else if n.node is None { n.lemma_none(s, k, r); }
            else {
                let rc = choose|rc: Option<MatchResult>| #![trigger sound1(n.node->0, s.skip(k as int), rc)]
                    four(n.node->0, s.skip(k as int), rc) && pushed(pname(n.parser.pid()), s.take(k as int), rc, r);
                n.lemma_down(s, k, rc, r);
            }
        }
    }
}
/// child i, the one that starts like s (or the empty one, when that one had no match), yields r
broadcast proof fn lemma_tree_lit(t: SuffixTree, i: int, s: Seq<char>, r: Option<MatchResult>)
    requires t.wf(), 0 <= i < t.lcs().len(), r is Some, four(t.lcs()[i], s, r),
            kcode(t.lcs()[i].literal@) == kcode(s)
                || (t.lcs()[i].literal@.len() == 0 && forall|j: int| 0 <= j < t.lcs().len() && kcode((#[trigger] t.lcs()[j]).literal@) == kcode(s) ==> t.no_child(j, s)),
    ensures #![trigger four(t.lcs()[i], s, r)] #![trigger sound1(t.lcs()[i], s, r)] sound1(t, s, r) && sound2(t, s, r) && chosen(t, s, r),
{
    t.lemma_lit_found(i, s, r);
}
broadcast proof fn lemma_tree_par(t: SuffixTree, i: int, s: Seq<char>, r: Option<MatchResult>)
    requires t.wf(), 0 <= i < t.pcs().len(), r is Some, t.no_lit(s), four(t.pcs()[i], s, r),
            forall|j: int, o: Seq<Sym>, m: Meta| 0 <= j < i && #[trigger] t.pcs()[j].full(o, Obs::End(m)) ==> !matches(o, s),
    ensures #![trigger sound1(t.pcs()[i], s, r)] sound1(t, s, r) && sound2(t, s, r) && chosen(t, s, r),
{
    t.lemma_par_found(i, s, r);
}
broadcast proof fn lemma_tree_par_sound(t: SuffixTree, i: int, s: Seq<char>, r: Option<MatchResult>)
    requires t.wf(), 0 <= i < t.pcs().len(), r is Some, four(t.pcs()[i], s, r),
    ensures #![trigger sound1(t.pcs()[i], s, r)] sound1(t, s, r) && sound2(t, s, r),
{
    let c = t.pcs()[i];
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] c.full(q, x) implies t.full(q, x) by { assert(t.parser_children@[i].at(q, x)); }
}
spec fn tree_none(t: SuffixTree, s: Seq<char>) -> bool { t.no_lit(s) && t.no_par(s) }
broadcast proof fn lemma_tree_none(t: SuffixTree, s: Seq<char>, r: Option<MatchResult>)
    requires t.no_lit(s), t.no_par(s), r is None,
    ensures #![trigger complete(t, s, r)] complete(t, s, r),
{
    assert forall|o: Seq<Sym>, m: Meta| #[trigger] t.full(o, Obs::End(m)) implies !matches(o, s) by {
        if exists|j: int| #![trigger t.lcs()[j]] 0 <= j < t.lcs().len() && t.lcs()[j].at(o, Obs::End(m)) {
            let j = choose|j: int| #![trigger t.lcs()[j]] 0 <= j < t.lcs().len() && t.lcs()[j].at(o, Obs::End(m));
            assert(t.lcs()[j].full(o, Obs::End(m)));
        } else {
            let j = choose|j: int| #![trigger t.pcs()[j]] 0 <= j < t.pcs().len() && t.pcs()[j].at(o, Obs::End(m));
            assert(t.pcs()[j].full(o, Obs::End(m)));
        }
    }
}
proof fn lemma_tree_no_lit(t: SuffixTree, s: Seq<char>)
    requires t.wf(),
    ensures (forall|i: int| 0 <= i < t.lcs().len() && (kcode((#[trigger] t.lcs()[i]).literal@) == kcode(s) || t.lcs()[i].literal@.len() == 0) ==> t.no_child(i, s)) ==> t.no_lit(s),
        forall|i: int, r: Option<MatchResult>| 0 <= i < t.lcs().len() && #[trigger] complete(t.lcs()[i], s, r) && r is None ==> t.no_child(i, s),
{
    if forall|i: int| 0 <= i < t.lcs().len() && (kcode((#[trigger] t.lcs()[i]).literal@) == kcode(s) || t.lcs()[i].literal@.len() == 0) ==> t.no_child(i, s) {
        t.lemma_lit_none(s);
    }
}
