impl SuffixTable {
    /// the same tree
    spec fn same(&self, o: &SuffixTable) -> bool
        decreases self,
    {
        &&& self.literal_entries@.len() == o.literal_entries@.len()
        &&& self.parser_entries@.len() == o.parser_entries@.len()
        &&& forall|i: int| 0 <= i < self.literal_entries@.len() ==> (#[trigger] self.literal_entries@[i]).same(&o.literal_entries@[i])
        &&& forall|i: int| 0 <= i < self.parser_entries@.len() ==> (#[trigger] self.parser_entries@[i]).same(&o.parser_entries@[i])
    }
}
impl LiteralE {
    spec fn same(&self, o: &LiteralE) -> bool
        decreases self,
    {
        &&& self.literal@ == o.literal@ && opat(self.pattern, o.pattern)
        &&& match (self.child, o.child) { (Some(a), Some(b)) => a.same(&b), (None, None) => true, _ => false }
    }
}
impl ParserE {
    spec fn same(&self, o: &ParserE) -> bool
        decreases self,
    {
        &&& self.parser.pid() == o.parser.pid() && opat(self.pattern, o.pattern)
        &&& match (self.child, o.child) { (Some(a), Some(b)) => a.same(&b), (None, None) => true, _ => false }
    }
}
proof fn lemma_same_at(a: SuffixTable, b: SuffixTable, q: Seq<Sym>, x: Obs)
    requires a.same(&b),
    ensures a.at(q, x) == b.at(q, x),
    decreases a,
{
    let (la, lb) = (a.literal_entries@, b.literal_entries@);
    let (pa, pb) = (a.parser_entries@, b.parser_entries@);
    assert forall|i: int| 0 <= i < la.len() implies la[i].at(q, x) == lb[i].at(q, x) by {
        assert(la[i].same(&lb[i]));
        if la[i].child is Some { lemma_same_at(la[i].child->0, lb[i].child->0, q.skip(la[i].literal@.len() as int), x); }
    }
    assert forall|i: int| 0 <= i < pa.len() implies pa[i].at(q, x) == pb[i].at(q, x) by {
        assert(pa[i].same(&pb[i]));
        if pa[i].child is Some { lemma_same_at(pa[i].child->0, pb[i].child->0, q.skip(1), x); }
    }
    if a.at(q, x) {
        if exists|i: int| 0 <= i < la.len() && (#[trigger] la[i]).at(q, x) {
            let i = choose|i: int| 0 <= i < la.len() && (#[trigger] la[i]).at(q, x);
            assert(lb[i].at(q, x));
        } else if exists|i: int| 0 <= i < pa.len() && (#[trigger] pa[i]).at(q, x) {
            let i = choose|i: int| 0 <= i < pa.len() && (#[trigger] pa[i]).at(q, x);
            assert(pb[i].at(q, x));
        } else { assert(pa[x->Kid_0 as int].same(&pb[x->Kid_0 as int])); }
    }
    if b.at(q, x) {
        if exists|i: int| 0 <= i < la.len() && (#[trigger] lb[i]).at(q, x) {
            let i = choose|i: int| 0 <= i < la.len() && (#[trigger] lb[i]).at(q, x);
            assert(la[i].at(q, x));
        } else if exists|i: int| 0 <= i < pa.len() && (#[trigger] pb[i]).at(q, x) {
            let i = choose|i: int| 0 <= i < pa.len() && (#[trigger] pb[i]).at(q, x);
            assert(pa[i].at(q, x));
        } else { assert(pa[x->Kid_0 as int].same(&pb[x->Kid_0 as int])); }
    }
}
proof fn lemma_same_shape(a: SuffixTable, b: SuffixTable)
    requires a.same(&b),
    ensures a.wf() ==> b.wf(), a.canon() ==> b.canon(),
    decreases a,
{
    let (la, lb) = (a.literal_entries@, b.literal_entries@);
    let (pa, pb) = (a.parser_entries@, b.parser_entries@);
    assert forall|i: int| 0 <= i < la.len() implies (la[i].wf() ==> lb[i].wf()) && (la[i].canon() ==> lb[i].canon()) && la[i].literal@ == #[trigger] lb[i].literal@ by {
        assert(la[i].same(&lb[i]));
        if la[i].child is Some { lemma_same_shape(la[i].child->0, lb[i].child->0); }
    }
    assert forall|i: int| 0 <= i < pa.len() implies (pa[i].wf() ==> pb[i].wf()) && (pa[i].canon() ==> pb[i].canon()) && pa[i].parser.pid() == #[trigger] pb[i].parser.pid() by {
        assert(pa[i].same(&pb[i]));
        if pa[i].child is Some { lemma_same_shape(pa[i].child->0, pb[i].child->0); }
    }
    if a.wf() {
        assert forall|i: int, j: int| #![trigger lb[i], lb[j]] 0 <= i < j < lb.len() implies scmp(lb[i].literal@, lb[j].literal@) < 0 by { assert(lb[i].literal@ == la[i].literal@ && lb[j].literal@ == la[j].literal@); }
        assert forall|i: int, j: int| #![trigger pb[i], pb[j]] 0 <= i < j < pb.len() implies pb[i].parser.pid() != pb[j].parser.pid() by { assert(pb[i].parser.pid() == pa[i].parser.pid() && pb[j].parser.pid() == pa[j].parser.pid()); }
        assert forall|i: int| 0 <= i < lb.len() implies (#[trigger] lb[i]).wf() by { assert(la[i].wf()); assert(la[i].literal@ == lb[i].literal@); }
        assert forall|i: int| 0 <= i < pb.len() implies (#[trigger] pb[i]).wf() by { assert(pa[i].wf()); assert(pa[i].parser.pid() == pb[i].parser.pid()); }
    }
    if a.canon() {
        assert forall|i: int| 0 <= i < lb.len() implies (#[trigger] lb[i]).canon() by { assert(la[i].canon()); assert(la[i].literal@ == lb[i].literal@); }
        assert forall|i: int| 0 <= i < pb.len() implies (#[trigger] pb[i]).canon() by { assert(pa[i].canon()); assert(pa[i].parser.pid() == pb[i].parser.pid()); }
    }
}
broadcast proof fn lemma_same_tree(a: SuffixTable, b: SuffixTable)
    ensures #![trigger a.same(&b)] a.same(&b) ==> same_obs(a, b) && (a.wf() ==> b.wf()) && (a.canon() ==> b.canon()),
{
    if a.same(&b) {
        lemma_same_shape(a, b);
        assert forall|q: Seq<Sym>, x: Obs| #[trigger] a.full(q, x) == b.full(q, x) by { lemma_same_at(a, b, q, x); }
    }
}
/// C12: a clone gives the same answer for every message
proof fn theorem_clone(a: SuffixTable, b: SuffixTable, s: Seq<char>, ra: Option<MatchResult>, rb: Option<MatchResult>)
    requires a.same(&b), a.wf(), a.canon(), complete(a, s, ra), complete(b, s, rb), chosen(a, s, ra), chosen(b, s, rb),
    ensures ra is Some <==> rb is Some, ra is Some ==> ra->0.rmeta() == rb->0.rmeta() && ra->0.rvals() == rb->0.rvals(),
{
    lemma_same_tree(a, b);
    lemma_tidy(a);
    theorem_c12(a, b, s, ra, rb);
}
