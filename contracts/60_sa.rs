// ---------------------------------------------------------------------------
// The suffix array
// ---------------------------------------------------------------------------
// ----- the order of strings
proof fn lemma_bcmp_eq(a: Seq<u8>, b: Seq<u8>)
    ensures bcmp(a, b) == 0 <==> a == b, bcmp(a, b) == -bcmp(b, a), -1 <= bcmp(a, b) <= 1,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lemma_bcmp_eq(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
proof fn lemma_bcmp_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires bcmp(a, b) <= 0, bcmp(b, c) <= 0,
    ensures bcmp(a, c) <= 0, bcmp(a, b) < 0 || bcmp(b, c) < 0 ==> bcmp(a, c) < 0,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lemma_bcmp_trans(a.skip(1), b.skip(1), c.skip(1));
    }
}
proof fn lemma_bcmp_prefix(a: Seq<u8>, b: Seq<u8>)
    requires a.len() <= b.len(), b.take(a.len() as int) == a,
    ensures bcmp(a, b) <= 0,
    decreases a.len(),
{
    if a.len() > 0 {
        assert(b.take(a.len() as int)[0] == a[0]);
        assert(b.skip(1).take(a.len() - 1) =~= a.skip(1)) by {
            assert forall|i: int| 0 <= i < a.len() - 1 implies b.skip(1)[i] == a.skip(1)[i] by { assert(b.take(a.len() as int)[i + 1] == a[i + 1]); }
        }
        lemma_bcmp_prefix(a.skip(1), b.skip(1));
    }
}
proof fn lemma_scmp(a: Seq<char>, b: Seq<char>)
    ensures scmp(a, b) == 0 <==> a == b, scmp(a, b) == -scmp(b, a), -1 <= scmp(a, b) <= 1, a.is_prefix_of(b) ==> scmp(a, b) <= 0,
{
    lemma_bcmp_eq(encode_utf8(a), encode_utf8(b));
    if scmp(a, b) == 0 { lemma_encode_inj(a, b); }
    if a.is_prefix_of(b) {
        lemma_prefix_bytes(a, b);
        lemma_bcmp_prefix(encode_utf8(a), encode_utf8(b));
    }
}
proof fn lemma_scmp_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires scmp(a, b) <= 0, scmp(b, c) <= 0,
    ensures scmp(a, c) <= 0, scmp(a, b) < 0 || scmp(b, c) < 0 ==> scmp(a, c) < 0,
{
    lemma_bcmp_trans(encode_utf8(a), encode_utf8(b), encode_utf8(c));
}
/// of two prefixes of a text the smaller one is the shorter one
proof fn lemma_scmp_shorter(a: Seq<char>, b: Seq<char>, s: Seq<char>)
    requires a.is_prefix_of(s), b.is_prefix_of(s), scmp(a, b) < 0,
    ensures a.len() < b.len(), a.is_prefix_of(b),
{
    lemma_scmp(a, b);
    lemma_scmp(b, a);
    if b.len() <= a.len() {
        assert(a.take(b.len() as int) =~= b) by {
            assert forall|i: int| 0 <= i < b.len() implies a[i] == b[i] by { assert(s.take(a.len() as int)[i] == a[i]); assert(s.take(b.len() as int)[i] == b[i]); }
        }
        assert(b.is_prefix_of(a));
    } else {
        assert(b.take(a.len() as int) =~= a) by {
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(s.take(a.len() as int)[i] == a[i]); assert(s.take(b.len() as int)[i] == b[i]); }
        }
    }
}
/// comparing with l is monotone along the entries
proof fn lemma_monotone(es: Seq<LiteralE>, l: Seq<char>)
    requires ordered(es),
    ensures
        forall|i: int, j: int, a: Ordering, b: Ordering| 0 <= i < j < es.len() && ord_num(a) == #[trigger] scmp(es[i].literal@, l) && ord_num(b) == #[trigger] scmp(es[j].literal@, l)
            ==> #[trigger] ord_num(a) <= #[trigger] ord_num(b),
{
    assert forall|i: int, j: int, a: Ordering, b: Ordering| 0 <= i < j < es.len() && ord_num(a) == #[trigger] scmp(es[i].literal@, l) && ord_num(b) == #[trigger] scmp(es[j].literal@, l)
        implies #[trigger] ord_num(a) <= #[trigger] ord_num(b) by {
        let (x, y) = (es[i].literal@, es[j].literal@);
        assert(scmp(x, y) < 0);
        lemma_scmp(x, l);
        lemma_scmp(y, l);
        if scmp(y, l) < 0 { lemma_scmp_trans(x, y, l); }
        if scmp(x, l) > 0 && scmp(y, l) <= 0 { lemma_scmp_trans(x, y, l); }
    }
}
spec fn ordered(es: Seq<LiteralE>) -> bool {
    forall|i: int, j: int| #![trigger es[i], es[j]] 0 <= i < j < es.len() ==> scmp(es[i].literal@, es[j].literal@) < 0
}

impl SuffixTable {
    spec fn at(&self, q: Seq<Sym>, x: Obs) -> bool
        decreases self,
    {
        ||| q.len() == 0 && (match x {
            Obs::Kid(i, a) => i < self.parser_entries@.len() && self.parser_entries@[i as int].parser.pid() == a,
            Obs::End(m) => false,
        })
        ||| exists|i: int| #![trigger self.literal_entries@[i]] 0 <= i < self.literal_entries@.len() && self.literal_entries@[i].at(q, x)
        ||| exists|i: int| #![trigger self.parser_entries@[i]] 0 <= i < self.parser_entries@.len() && self.parser_entries@[i].at(q, x)
    }
    spec fn wf(&self) -> bool
        decreases self,
    {
        &&& ordered(self.literal_entries@)
        &&& forall|i: int, j: int| #![trigger self.parser_entries@[i], self.parser_entries@[j]] 0 <= i < j < self.parser_entries@.len() ==>
            self.parser_entries@[i].parser.pid() != self.parser_entries@[j].parser.pid()
        &&& forall|i: int| 0 <= i < self.literal_entries@.len() ==> (#[trigger] self.literal_entries@[i]).wf()
        &&& forall|i: int| 0 <= i < self.parser_entries@.len() ==> (#[trigger] self.parser_entries@[i]).wf()
    }
    spec fn canon(&self) -> bool
        decreases self,
    {
        &&& forall|i: int| 0 <= i < self.literal_entries@.len() ==> (#[trigger] self.literal_entries@[i]).canon()
        &&& forall|i: int| 0 <= i < self.parser_entries@.len() ==> (#[trigger] self.parser_entries@[i]).canon()
    }
}
impl LiteralE {
    spec fn at(&self, q: Seq<Sym>, x: Obs) -> bool
        decreases self, 1int,
    {
        pre(lit(self.literal@), q) && self.rest(q.skip(self.literal@.len() as int), x)
    }
    spec fn rest(&self, r: Seq<Sym>, x: Obs) -> bool
        decreases self, 0int,
    {
        ||| r.len() == 0 && self.pattern is Some && x == Obs::End(self.pattern->0.meta())
        ||| match self.child { Some(n) => n.at(r, x), None => false }
    }
    spec fn wf(&self) -> bool
        decreases self,
    {
        match self.child { Some(n) => n.wf(), None => true }
    }
    spec fn canon(&self) -> bool
        decreases self,
    {
        self.literal@.len() > 0 && match self.child { Some(n) => n.canon() && n.literal_entries@.len() == 0, None => true }
    }
}
impl ParserE {
    spec fn at(&self, q: Seq<Sym>, x: Obs) -> bool
        decreases self, 1int,
    {
        pre(seq![Sym::P(self.parser.pid())], q) && self.rest(q.skip(1), x)
    }
    spec fn rest(&self, r: Seq<Sym>, x: Obs) -> bool
        decreases self, 0int,
    {
        ||| r.len() == 0 && self.pattern is Some && x == Obs::End(self.pattern->0.meta())
        ||| match self.child { Some(n) => n.at(r, x), None => false }
    }
    spec fn wf(&self) -> bool
        decreases self,
    {
        match self.child { Some(n) => n.wf(), None => true }
    }
    spec fn canon(&self) -> bool
        decreases self,
    {
        match self.child { Some(n) => n.canon(), None => true }
    }
}
impl Node for SuffixTable {
    spec fn obs(&self, q: Seq<Sym>, x: Obs) -> bool { self.at(q, x) }
    spec fn full(&self, q: Seq<Sym>, x: Obs) -> bool { self.at(q, x) }
    spec fn canon_(&self) -> bool { self.canon() }
}
impl Node for LiteralE {
    spec fn obs(&self, q: Seq<Sym>, x: Obs) -> bool { self.rest(q, x) }
    spec fn full(&self, q: Seq<Sym>, x: Obs) -> bool { self.at(q, x) }
    spec fn canon_(&self) -> bool { self.canon() }
}
impl Node for ParserE {
    spec fn obs(&self, q: Seq<Sym>, x: Obs) -> bool { self.rest(q, x) }
    spec fn full(&self, q: Seq<Sym>, x: Obs) -> bool { self.at(q, x) }
    spec fn canon_(&self) -> bool { self.canon() }
}

// ----- matching
impl LiteralE {
    proof fn lemma_at(&self, r: Seq<Sym>, x: Obs)
        ensures self.at(lit(self.literal@) + r, x) == self.rest(r, x),
    {
        lemma_pre(lit(self.literal@), r);
    }
    /// the text does not start with the literal
    proof fn lemma_no(&self, s: Seq<char>, r: Option<MatchResult>)
        requires !self.literal@.is_prefix_of(s), r is None,
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        assert forall|o: Seq<Sym>, m: Meta| #[trigger] self.full(o, Obs::End(m)) implies !matches(o, s) by {
            lemma_pre_split(lit(self.literal@), o);
            lemma_matches_lit(self.literal@, o.skip(self.literal@.len() as int), s);
        }
    }
    /// a pattern ends here and so does the text
    proof fn lemma_end(&self, s: Seq<char>, r: Option<MatchResult>)
        requires self.literal@ == s, r is Some, self.pattern is Some, r->0.rmeta() == self.pattern->0.meta(),
            r->0.rvals() == Map::<Seq<char>, Seq<char>>::empty(),
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        let l = lit(self.literal@);
        let e = Seq::<Sym>::empty();
        let p = l + e;
        let m = self.pattern->0.meta();
        assert(s.skip(s.len() as int) =~= Seq::empty());
        assert(s.take(s.len() as int) =~= s);
        lemma_matches_lit(self.literal@, e, s);
        self.lemma_at(e, Obs::End(m));
        assert(self.full(p, Obs::End(m)) && r->0.is_match(p, m, s));
        assert forall|o: Seq<Sym>, mo: Meta| #[trigger] self.full(o, Obs::End(mo)) && matches(o, s) implies pref(*self, p, o) by {
            lemma_pre_split(l, o);
            assert(p =~= l);
            assert(p.take(l.len() as int) =~= o.take(l.len() as int));
            assert(pref_at(*self, p, o, l.len() as int));
        }
        assert(best(*self, p, s));
    }
    /// the result is that of the node below
    proof fn lemma_down(&self, s: Seq<char>, r: Option<MatchResult>)
        requires self.literal@.is_prefix_of(s), self.child is Some,
            self.pattern is None || s.len() != self.literal@.len(),
            ({ let n = self.child->0; let s2 = s.skip(self.literal@.len() as int);
               sound1(n, s2, r) && sound2(n, s2, r) && complete(n, s2, r) && chosen(n, s2, r) }),
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        let l = lit(self.literal@);
        let n = self.child->0;
        let s2 = s.skip(self.literal@.len() as int);
        assert forall|p: Seq<Sym>| r is Some && #[trigger] matches(p, s2) && r->0.rvals() == binds(p, s2) implies r->0.rvals() == binds(l + p, s) by {
            lemma_matches_lit(self.literal@, p, s);
        }
        assert forall|p: Seq<Sym>| #[trigger] matches(p, s2) <==> matches(l + p, s) by { lemma_matches_lit(self.literal@, p, s); }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] n.full(q, x) implies self.full(l + q, x) by { self.lemma_at(q, x); }
        assert forall|o: Seq<Sym>, m: Meta| #[trigger] self.full(o, Obs::End(m)) && matches(o, s) implies pre(l, o) && n.full(o.skip(l.len() as int), Obs::End(m)) by {
            lemma_pre_split(l, o);
            lemma_matches_lit(self.literal@, o.skip(l.len() as int), s);
        }
        lemma_up(n, *self, l, s, s2, r, r);
    }
    /// nothing below
    proof fn lemma_none(&self, s: Seq<char>, r: Option<MatchResult>)
        requires self.literal@.is_prefix_of(s), self.child is None, r is None, self.pattern is None || s.len() != self.literal@.len(),
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        assert forall|o: Seq<Sym>, m: Meta| #[trigger] self.full(o, Obs::End(m)) implies !matches(o, s) by {
            lemma_pre_split(lit(self.literal@), o);
            lemma_matches_lit(self.literal@, o.skip(self.literal@.len() as int), s);
        }
    }
}

impl ParserE {
    spec fn sym(&self) -> Seq<Sym> { seq![Sym::P(self.parser.pid())] }
    proof fn lemma_at(&self, r: Seq<Sym>, x: Obs)
        ensures self.at(self.sym() + r, x) == self.rest(r, x),
    {
        lemma_pre(self.sym(), r);
    }
    proof fn lemma_no(&self, s: Seq<char>, r: Option<MatchResult>)
        requires pid_parse(self.parser.pid(), s) is None, r is None,
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        assert forall|o: Seq<Sym>, m: Meta| #[trigger] self.full(o, Obs::End(m)) implies !matches(o, s) by {
            lemma_pre_split(self.sym(), o);
            lemma_matches_parser(self.parser.pid(), o.skip(1), s);
        }
    }
    proof fn lemma_end(&self, s: Seq<char>, r: Option<MatchResult>)
        requires pid_parse(self.parser.pid(), s) == Some(s.len()), r is Some, self.pattern is Some, r->0.rmeta() == self.pattern->0.meta(),
            r->0.rvals() == bind1(Map::<Seq<char>, Seq<char>>::empty(), pname(self.parser.pid()), s),
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        let l = self.sym();
        let e = Seq::<Sym>::empty();
        let p = l + e;
        let m = self.pattern->0.meta();
        assert(s.skip(s.len() as int) =~= Seq::empty());
        assert(s.take(s.len() as int) =~= s);
        lemma_matches_parser(self.parser.pid(), e, s);
        self.lemma_at(e, Obs::End(m));
        assert(self.full(p, Obs::End(m)) && r->0.is_match(p, m, s));
        assert forall|o: Seq<Sym>, mo: Meta| #[trigger] self.full(o, Obs::End(mo)) && matches(o, s) implies pref(*self, p, o) by {
            lemma_pre_split(l, o);
            assert(p =~= l);
            assert(p.take(1) =~= o.take(1));
            assert(pref_at(*self, p, o, 1));
        }
        assert(best(*self, p, s));
    }
    proof fn lemma_down(&self, s: Seq<char>, k: nat, rc: Option<MatchResult>, r: Option<MatchResult>)
        requires pid_parse(self.parser.pid(), s) == Some(k), self.child is Some,
            self.pattern is None || s.len() != k, k <= s.len(),
            ({ let n = self.child->0; let s2 = s.skip(k as int);
               sound1(n, s2, rc) && sound2(n, s2, rc) && complete(n, s2, rc) && chosen(n, s2, rc) }),
            rc is Some <==> r is Some,
            rc is Some ==> rc->0.rmeta() == r->0.rmeta(),
            rc is Some ==> r->0.rvals() == bind1(rc->0.rvals(), pname(self.parser.pid()), s.take(k as int)),
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        let l = self.sym();
        let n = self.child->0;
        let s2 = s.skip(k as int);
        let q = self.parser.pid();
        assert forall|p: Seq<Sym>| rc is Some && #[trigger] matches(p, s2) && rc->0.rvals() == binds(p, s2) implies r->0.rvals() == binds(l + p, s) by {
            lemma_matches_parser(q, p, s);
        }
        assert forall|p: Seq<Sym>| #[trigger] matches(p, s2) <==> matches(l + p, s) by { lemma_matches_parser(q, p, s); }
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] n.full(q, x) implies self.full(l + q, x) by { self.lemma_at(q, x); }
        assert forall|o: Seq<Sym>, m: Meta| #[trigger] self.full(o, Obs::End(m)) && matches(o, s) implies pre(l, o) && n.full(o.skip(l.len() as int), Obs::End(m)) by {
            lemma_pre_split(l, o);
            lemma_matches_parser(q, o.skip(1), s);
        }
        lemma_up(n, *self, l, s, s2, rc, r);
    }
    proof fn lemma_none(&self, s: Seq<char>, k: nat, r: Option<MatchResult>)
        requires pid_parse(self.parser.pid(), s) == Some(k), k <= s.len(), r is None,
            self.pattern is None || s.len() != k, self.child is None,
        ensures sound1(*self, s, r), sound2(*self, s, r), complete(*self, s, r), chosen(*self, s, r),
    {
        assert forall|o: Seq<Sym>, m: Meta| #[trigger] self.full(o, Obs::End(m)) implies !matches(o, s) by {
            lemma_pre_split(self.sym(), o);
            lemma_matches_parser(self.parser.pid(), o.skip(1), s);
        }
    }
}

impl SuffixTable {
    spec fn lcs(&self) -> Seq<LiteralE> { self.literal_entries@ }
    spec fn pcs(&self) -> Seq<ParserE> { self.parser_entries@ }
    /// no pattern that starts with literal text matches
    spec fn no_lit(&self, s: Seq<char>) -> bool {
        forall|i: int, o: Seq<Sym>, m: Meta| 0 <= i < self.lcs().len() && #[trigger] self.lcs()[i].full(o, Obs::End(m)) ==> !matches(o, s)
    }
    spec fn no_par(&self, s: Seq<char>) -> bool {
        forall|i: int, o: Seq<Sym>, m: Meta| 0 <= i < self.pcs().len() && #[trigger] self.pcs()[i].full(o, Obs::End(m)) ==> !matches(o, s)
    }
    spec fn no_child(&self, i: int, s: Seq<char>) -> bool {
        forall|o: Seq<Sym>, m: Meta| #[trigger] self.lcs()[i].full(o, Obs::End(m)) ==> !matches(o, s)
    }
    /// no entry from i on matches
    spec fn no_from(&self, i: int, s: Seq<char>) -> bool {
        forall|j: int| i <= j < self.lcs().len() && 0 <= j ==> self.no_child(j, s)
    }
    proof fn lemma_prefix(&self, s: Seq<char>, i: int, o: Seq<Sym>, m: Meta)
        requires 0 <= i < self.lcs().len(), self.lcs()[i].full(o, Obs::End(m)), matches(o, s),
        ensures self.lcs()[i].literal@.is_prefix_of(s), pre(lit(self.lcs()[i].literal@), o), self.lcs()[i].rest(o.skip(self.lcs()[i].literal@.len() as int), Obs::End(m)),
            matches(o.skip(self.lcs()[i].literal@.len() as int), s.skip(self.lcs()[i].literal@.len() as int)),
    {
        let c = self.lcs()[i];
        let l = lit(c.literal@);
        lemma_pre_split(l, o);
        lemma_matches_lit(c.literal@, o.skip(l.len() as int), s);
    }
    /// entries greater than the text are no prefixes of it
    proof fn lemma_from(&self, p: int, s: Seq<char>)
        requires forall|j: int| p <= j < self.lcs().len() && 0 <= j ==> scmp((#[trigger] self.lcs()[j]).literal@, s) > 0,
        ensures self.no_from(p, s),
    {
        assert forall|j: int| p <= j < self.lcs().len() && 0 <= j implies self.no_child(j, s) by {
            assert forall|o: Seq<Sym>, m: Meta| #[trigger] self.lcs()[j].full(o, Obs::End(m)) implies !matches(o, s) by {
                if matches(o, s) { self.lemma_prefix(s, j, o, m); lemma_scmp(self.lcs()[j].literal@, s); }
            }
        }
    }
    proof fn lemma_lit_found(&self, i: int, s: Seq<char>, r: Option<MatchResult>)
        requires self.wf(), 0 <= i < self.lcs().len(), r is Some,
            ({ let c = self.lcs()[i]; sound1(c, s, r) && sound2(c, s, r) && chosen(c, s, r) }),
            self.no_from(i + 1, s),
        ensures sound1(*self, s, r), sound2(*self, s, r), chosen(*self, s, r),
    {
        let c = self.lcs()[i];
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] c.full(q, x) implies self.full(q, x) by { assert(self.literal_entries@[i].at(q, x)); }
        let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] c.full(p, Obs::End(m)) && matches(p, s) && r->0.rmeta() == m;
        assert(self.full(p, Obs::End(m)));
        let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] c.full(p, Obs::End(m)) && r->0.is_match(p, m, s);
        assert(self.full(p, Obs::End(m)));
        if self.canon_() {
            let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] c.full(p, Obs::End(m)) && r->0.is_match(p, m, s) && best(c, p, s);
            assert(self.full(p, Obs::End(m)));
            self.lemma_prefix(s, i, p, m);
            assert(c.canon());
            let lc = lit(c.literal@);
            assert forall|k: int| 0 <= k < lc.len() implies p[k] == lc[k] by { assert(p.take(lc.len() as int)[k] == lc[k]); }
            assert forall|o: Seq<Sym>, mo: Meta| #[trigger] self.full(o, Obs::End(mo)) && matches(o, s) implies pref(*self, p, o) by {
                if exists|j: int| #![trigger self.lcs()[j]] 0 <= j < self.lcs().len() && self.lcs()[j].at(o, Obs::End(mo)) {
                    let j = choose|j: int| #![trigger self.lcs()[j]] 0 <= j < self.lcs().len() && self.lcs()[j].at(o, Obs::End(mo));
                    assert(self.lcs()[j].full(o, Obs::End(mo)));
                    assert(j > i ==> self.no_child(j, s));
                    if j == i {
                        let e = Seq::<Sym>::empty();
                        assert forall|r: Seq<Sym>, i: nat, a: PId| #[trigger] c.full(r, Obs::Kid(i, a)) implies self.full(e + r, Obs::Kid(i, a)) by { assert(e + r =~= r); }
                        lemma_pref_lift(c, *self, e, p, o);
                        assert(e + p =~= p);
                        assert(e + o =~= o);
                    } else {
                        let d = self.lcs()[j];
                        let ld = lit(d.literal@);
                        let k = d.literal@.len() as int;
                        assert(scmp(d.literal@, c.literal@) < 0);
                        self.lemma_prefix(s, j, o, mo);
                        lemma_scmp_shorter(d.literal@, c.literal@, s);
                        assert(d.canon());
                        let rest = o.skip(k);
                        assert(rest.len() > 0 && rest[0] is P) by {
                            if rest.len() == 0 { assert(s.skip(k).len() > 0); assert(false); }
                            let n = d.child->0;
                            assert(n.at(rest, Obs::End(mo)));
                            assert(n.literal_entries@.len() == 0);
                            let k = choose|k: int| #![trigger n.parser_entries@[k]] 0 <= k < n.parser_entries@.len() && n.parser_entries@[k].at(rest, Obs::End(mo));
                            assert(rest.take(1)[0] == n.parser_entries@[k].sym()[0]);
                        }
                        assert(o[k] == rest[0]);
                        assert(p[k] == lc[k]);
                        assert(p.take(k) =~= o.take(k)) by {
                            assert forall|x: int| 0 <= x < k implies p[x] == o[x] by {
                                assert(o.take(k)[x] == ld[x]);
                                assert(p[x] == lc[x]);
                                assert(c.literal@.take(k)[x] == d.literal@[x]);
                            }
                        }
                        assert(pref_at(*self, p, o, k));
                    }
                } else {
                    let j = choose|j: int| #![trigger self.pcs()[j]] 0 <= j < self.pcs().len() && self.pcs()[j].at(o, Obs::End(mo));
                    assert(o.take(1)[0] == self.pcs()[j].sym()[0]);
                    assert(o[0] is P);
                    assert(p[0] == lc[0]);
                    assert(p.take(0) =~= o.take(0));
                    assert(pref_at(*self, p, o, 0));
                }
            }
            assert(best(*self, p, s));
        }
    }
    proof fn lemma_par_found(&self, i: int, s: Seq<char>, r: Option<MatchResult>)
        requires self.wf(), 0 <= i < self.pcs().len(), r is Some, self.no_lit(s),
            ({ let c = self.pcs()[i]; sound1(c, s, r) && sound2(c, s, r) && chosen(c, s, r) }),
            forall|j: int, o: Seq<Sym>, m: Meta| 0 <= j < i && #[trigger] self.pcs()[j].full(o, Obs::End(m)) ==> !matches(o, s),
        ensures sound1(*self, s, r), sound2(*self, s, r), chosen(*self, s, r),
    {
        let c = self.pcs()[i];
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] c.full(q, x) implies self.full(q, x) by { assert(self.parser_entries@[i].at(q, x)); }
        let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] c.full(p, Obs::End(m)) && matches(p, s) && r->0.rmeta() == m;
        assert(self.full(p, Obs::End(m)));
        let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] c.full(p, Obs::End(m)) && r->0.is_match(p, m, s);
        assert(self.full(p, Obs::End(m)));
        if self.canon_() {
            let (p, m) = choose|p: Seq<Sym>, m: Meta| #[trigger] c.full(p, Obs::End(m)) && r->0.is_match(p, m, s) && best(c, p, s);
            assert(self.full(p, Obs::End(m)));
            assert(p.take(1)[0] == c.sym()[0]);
            assert forall|o: Seq<Sym>, mo: Meta| #[trigger] self.full(o, Obs::End(mo)) && matches(o, s) implies pref(*self, p, o) by {
                assert(self.at(o, Obs::End(mo)));
                if exists|j: int| #![trigger self.literal_entries@[j]] 0 <= j < self.literal_entries@.len() && self.literal_entries@[j].at(o, Obs::End(mo)) {
                    let j = choose|j: int| #![trigger self.literal_entries@[j]] 0 <= j < self.literal_entries@.len() && self.literal_entries@[j].at(o, Obs::End(mo));
                    assert(self.lcs()[j].full(o, Obs::End(mo)));
                } else {
                    let j = choose|j: int| #![trigger self.parser_entries@[j]] 0 <= j < self.pcs().len() && self.parser_entries@[j].at(o, Obs::End(mo));
                    assert(self.pcs()[j].full(o, Obs::End(mo)));
                    if j == i {
                        let e = Seq::<Sym>::empty();
                        assert forall|r: Seq<Sym>, i: nat, a: PId| #[trigger] c.full(r, Obs::Kid(i, a)) implies self.full(e + r, Obs::Kid(i, a)) by { assert(e + r =~= r); }
                        lemma_pref_lift(c, *self, e, p, o);
                        assert(e + p =~= p);
                        assert(e + o =~= o);
                    } else {
                        assert(j > i);
                        assert(o.take(1)[0] == self.pcs()[j].sym()[0]);
                        assert(p.take(0) =~= Seq::empty());
                        assert(p.take(0) =~= o.take(0));
                        assert(self.full(p.take(0), Obs::Kid(i as nat, c.parser.pid())));
                        assert(self.full(p.take(0), Obs::Kid(j as nat, self.pcs()[j].parser.pid())));
                        assert(pref_at(*self, p, o, 0));
                    }
                }
            }
            assert(best(*self, p, s));
        }
    }
}

spec fn lnode_case(n: LiteralE, s: Seq<char>, r: Option<MatchResult>) -> bool {
    ||| !n.literal@.is_prefix_of(s) && r is None
    ||| n.literal@ == s && n.pattern is Some && r is Some && r->0.rmeta() == n.pattern->0.meta() && r->0.rvals() == Map::<Seq<char>, Seq<char>>::empty()
    ||| n.literal@.is_prefix_of(s) && (n.pattern is None || s.len() != n.literal@.len()) && n.child is None && r is None
    ||| n.literal@.is_prefix_of(s) && (n.pattern is None || s.len() != n.literal@.len()) && n.child is Some && four(n.child->0, s.skip(n.literal@.len() as int), r)
}
broadcast proof fn lemma_lnode(n: LiteralE, s: Seq<char>, r: Option<MatchResult>)
    requires lnode_case(n, s, r),
    ensures #![trigger sound1(n, s, r)] #![trigger sound2(n, s, r)] #![trigger complete(n, s, r)] #![trigger chosen(n, s, r)] four(n, s, r),
{
    if !n.literal@.is_prefix_of(s) { n.lemma_no(s, r); }
    else if n.literal@ == s && n.pattern is Some && r is Some && r->0.rmeta() == n.pattern->0.meta() && r->0.rvals() == Map::<Seq<char>, Seq<char>>::empty() { n.lemma_end(s, r); }
    else if n.child is None { n.lemma_none(s, r); }
    else { n.lemma_down(s, r); }
}
spec fn pnode_case(n: ParserE, s: Seq<char>, r: Option<MatchResult>) -> bool {
    match pid_parse(n.parser.pid(), s) {
        None => r is None,
        Some(k) => {
            ||| k == s.len() && r is Some && n.pattern is Some && r->0.rmeta() == n.pattern->0.meta()
                && r->0.rvals() == bind1(Map::<Seq<char>, Seq<char>>::empty(), pname(n.parser.pid()), s)
            ||| (n.pattern is None || s.len() != k) && n.child is None && r is None
            ||| (n.pattern is None || s.len() != k) && n.child is Some
                && below(n.child->0, s.skip(k as int), pname(n.parser.pid()), s.take(k as int), r)
        }
    }
}
broadcast proof fn lemma_pnode(n: ParserE, s: Seq<char>, r: Option<MatchResult>)
    requires pnode_case(n, s, r),
    ensures #![trigger sound1(n, s, r)] #![trigger sound2(n, s, r)] #![trigger complete(n, s, r)] #![trigger chosen(n, s, r)] four(n, s, r),
{
    let q = n.parser.pid();
    lemma_pid_parse_len(q, s);
    match pid_parse(q, s) {
        None => n.lemma_no(s, r),
        Some(k) => {
            if k == s.len() && r is Some && n.pattern is Some && r->0.rmeta() == n.pattern->0.meta()
                && r->0.rvals() == bind1(Map::<Seq<char>, Seq<char>>::empty(), pname(q), s) { n.lemma_end(s, r); }
            else if n.child is None { n.lemma_none(s, k, r); }
            else {
                let rc = choose|rc: Option<MatchResult>| #![trigger sound1(n.child->0, s.skip(k as int), rc)]
                    four(n.child->0, s.skip(k as int), rc) && pushed(pname(n.parser.pid()), s.take(k as int), rc, r);
                n.lemma_down(s, k, rc, r);
            }
        }
    }
}
/// entry i yields r and no greater one has a match
broadcast proof fn lemma_tree_lit(t: SuffixTable, i: int, s: Seq<char>, r: Option<MatchResult>)
    requires t.wf(), 0 <= i < t.lcs().len(), r is Some, four(t.lcs()[i], s, r), t.no_from(i + 1, s),
    ensures #![trigger four(t.lcs()[i], s, r)] #![trigger sound1(t.lcs()[i], s, r)] sound1(t, s, r) && sound2(t, s, r) && chosen(t, s, r),
{
    t.lemma_lit_found(i, s, r);
}
broadcast proof fn lemma_no_from(t: SuffixTable, i: int, s: Seq<char>)
    requires 0 <= i < t.lcs().len() ==> t.no_from(i + 1, s) && t.no_child(i, s),
        i >= t.lcs().len() || i < 0 ==> (forall|j: int| i <= j < t.lcs().len() && 0 <= j ==> t.no_child(j, s)),
    ensures #[trigger] t.no_from(i, s),
{
    assert forall|j: int| i <= j < t.lcs().len() && 0 <= j implies t.no_child(j, s) by { if j != i { assert(t.no_child(j, s)); } }
}
broadcast proof fn lemma_tree_par(t: SuffixTable, i: int, s: Seq<char>, r: Option<MatchResult>)
    requires t.wf(), 0 <= i < t.pcs().len(), r is Some, t.no_lit(s), four(t.pcs()[i], s, r),
            forall|j: int, o: Seq<Sym>, m: Meta| 0 <= j < i && #[trigger] t.pcs()[j].full(o, Obs::End(m)) ==> !matches(o, s),
    ensures #![trigger sound1(t.pcs()[i], s, r)] sound1(t, s, r) && sound2(t, s, r) && chosen(t, s, r),
{
    t.lemma_par_found(i, s, r);
}
broadcast proof fn lemma_tree_par_sound(t: SuffixTable, i: int, s: Seq<char>, r: Option<MatchResult>)
    requires t.wf(), 0 <= i < t.pcs().len(), r is Some, four(t.pcs()[i], s, r),
    ensures #![trigger sound1(t.pcs()[i], s, r)] sound1(t, s, r) && sound2(t, s, r),
{
    let c = t.pcs()[i];
    assert forall|q: Seq<Sym>, x: Obs| #[trigger] c.full(q, x) implies t.full(q, x) by { assert(t.parser_entries@[i].at(q, x)); }
}
spec fn tree_none(t: SuffixTable, s: Seq<char>) -> bool { t.no_lit(s) && t.no_par(s) }
broadcast proof fn lemma_tree_none(t: SuffixTable, s: Seq<char>, r: Option<MatchResult>)
    requires t.no_lit(s), t.no_par(s), r is None,
    ensures #![trigger complete(t, s, r)] complete(t, s, r),
{
    assert forall|o: Seq<Sym>, m: Meta| #[trigger] t.full(o, Obs::End(m)) implies !matches(o, s) by {
        if exists|j: int| #![trigger t.lcs()[j]] 0 <= j < t.lcs().len() && t.lcs()[j].at(o, Obs::End(m)) {
            let j = choose|j: int| #![trigger t.lcs()[j]] 0 <= j < t.lcs().len() && t.lcs()[j].at(o, Obs::End(m));
            assert(t.lcs()[j].full(o, Obs::End(m)));
        } else {
            let j = choose|j: int| #![trigger t.pcs()[j]] 0 <= j < t.pcs().len() && t.pcs()[j].at(o, Obs::End(m));
            assert(t.pcs()[j].full(o, Obs::End(m)));
        }
    }
}
