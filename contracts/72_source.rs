// ---------------------------------------------------------------------------
// Building a matcher from a source of patterns
// ---------------------------------------------------------------------------
#[verifier::external_body]
struct VxIoError { e: u8 }
#[verifier::external_body]
struct VxJsonError { e: u8 }
#[verifier::external_body]
struct VxYamlError { e: u8 }

/// `PatternSource`: an iterator that yields a finite sequence of items
#[verifier::external_body]
struct VxSource { s: u8 }
impl VxSource {
    uninterp spec fn left(&self) -> Seq<BuildResult>;
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<BuildResult>)
        ensures
            old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().skip(1),
    { unimplemented!() }
}

/// what a matcher answers
spec fn aview(r: Option<MatchResult>) -> Option<(Meta, Pairs)> {
    match r { Some(x) => Some((x.rmeta(), x.rvals())), None => None }
}
/// the test message t of pattern m passes on a matcher
spec fn passes<M: Matcher>(n: M, t: TMv, u: VxUuid) -> bool {
    match n.answer(t.message) {
        Some(a) => a.0.uuid == u && meets(t, a.0, a.1),
        None => false,
    }
}
spec fn all_pass<M: Matcher>(n: M, t: Seq<TMv>, u: VxUuid) -> bool {
    forall|i: int| 0 <= i < t.len() ==> passes(n, #[trigger] t[i], u)
}
/// n1 is n0 with p added (its test messages taken out)
spec fn step<M: Matcher>(n0: M, n1: M, p: Pattern) -> bool {
    &&& n0.mwf() ==> n1.mwf()
    &&& forall|h: Seq<Added>| #[trigger] n0.mholds(h) && canonical(p.pattern@) ==> exists|q: Pattern| but_msgs(q, p) && #[trigger] n1.mholds(hadd(h, q))
}

spec fn tm_all<M: Matcher>(n: M, ms: Seq<TestMessage>, u: VxUuid) -> bool {
    forall|i: int| 0 <= i < ms.len() ==> passes(n, (#[trigger] ms[i]).tm(), u)
}
/// ms are the test messages t, in some order
spec fn same_msgs(ms: Seq<TestMessage>, t: Seq<TMv>) -> bool {
    ms.len() == t.len() && popped(ms, t)
}
spec fn popped(ms: Seq<TestMessage>, t: Seq<TMv>) -> bool {
    forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).tm() == t[t.len() - 1 - i]
}

/// the states a matcher goes through while the first n items are added
spec fn item_ok<M: Matcher>(n: M, x: BuildResult) -> bool { x is Ok && all_pass(n, tms(x->Ok_0), x->Ok_0.uuid) }
spec fn run_step<M: Matcher>(n0: M, n1: M, x: BuildResult) -> bool {
    match x { Ok(p) => step(n0, n1, p), Err(e) => n1 == n0 }
}
/// t: the states from a new matcher on, one per item
spec fn run<M: Matcher>(t: Seq<M>, items: Seq<BuildResult>) -> bool {
    &&& t.len() == items.len() + 1
    &&& t[0].mwf() && t[0].mholds(Seq::<Added>::empty())
    &&& forall|i: int| 0 <= i < items.len() ==> run_step(t[i], t[i + 1], #[trigger] items[i])
}
/// one item, added to n0, gave n1 and r
spec fn checked<M: Matcher>(n0: M, n1: M, x: BuildResult, r: Result<(), BuildError>) -> bool {
    match x {
        Ok(p) => step(n0, n1, p) && (r is Ok <==> all_pass(n1, tms(p), p.uuid)) && (r is Err ==> r->Err_0 is TestMessage),
        Err(e) => n1 == n0 && r == Result::<(), BuildError>::Err(e),
    }
}
/// the states t belong to the first items, and left are the others
spec fn some_run<M: Matcher>(t: Seq<M>, items: Seq<BuildResult>, left: Seq<BuildResult>) -> bool {
    let n = t.len() - 1;
    0 <= n <= items.len() && left == items.skip(n) && run(t, items.take(n))
}
spec fn all_ok<M: Matcher>(t: Seq<M>, items: Seq<BuildResult>) -> bool {
    forall|i: int| 0 <= i < items.len() && i + 1 < t.len() ==> item_ok(t[i + 1], #[trigger] items[i])
}
spec fn good_run<M: Matcher>(t: Seq<M>, items: Seq<BuildResult>, left: Seq<BuildResult>) -> bool { some_run(t, items, left) && all_ok(t, items) }

/// C10: a build succeeds exactly if every item is a pattern whose test messages pass right after it was added
spec fn ok_build<M: Matcher>(items: Seq<BuildResult>, r: Result<M, BuildError>) -> bool {
    match r {
        Ok(m) => exists|t: Seq<M>| #[trigger] run(t, items) && t.last() == m && all_ok(t, items),
        Err(e) => exists|t: Seq<M>, left: Seq<BuildResult>, n1: M| #[trigger] good_run(t, items, left) && left.len() > 0
            && #[trigger] checked(t.last(), n1, left[0], Result::<(), BuildError>::Err(e)),
    }
}
/// C10: a lenient build adds all patterns and skips the errors
spec fn lenient<M: Matcher>(items: Seq<BuildResult>, m: M) -> bool {
    exists|t: Seq<M>| #[trigger] run(t, items) && t.last() == m
}
proof fn lemma_some<M: Matcher>(t: Seq<M>, items: Seq<BuildResult>, left: Seq<BuildResult>, n1: M)
    requires exists|l0: Seq<BuildResult>, r: Result<(), BuildError>| some_run(t, items, l0) && l0.len() > 0 && left == l0.skip(1) && #[trigger] checked(t.last(), n1, l0[0], r),
    ensures some_run(t.push(n1), items, left),
{
    let (l0, r) = choose|l0: Seq<BuildResult>, r: Result<(), BuildError>| some_run(t, items, l0) && l0.len() > 0 && left == l0.skip(1) && #[trigger] checked(t.last(), n1, l0[0], r);
    let n = t.len() - 1;
    let u = t.push(n1);
    assert(left =~= items.skip(n + 1));
    let (a, b) = (items.take(n), items.take(n + 1));
    assert forall|i: int| 0 <= i < b.len() implies run_step(u[i], u[i + 1], #[trigger] b[i]) by {
        if i < n { assert(a[i] == b[i]); assert(u[i] == t[i] && u[i + 1] == t[i + 1]); }
        else { assert(b[i] == l0[0]); assert(u[i] == t.last()); }
    }
}
proof fn lemma_some_end<M: Matcher>(t: Seq<M>, items: Seq<BuildResult>, left: Seq<BuildResult>)
    requires some_run(t, items, left), left.len() == 0,
    ensures run(t, items), t.len() == items.len() + 1,
{
    assert(items.take(t.len() - 1) =~= items);
}
proof fn lemma_good<M: Matcher>(t: Seq<M>, items: Seq<BuildResult>, left: Seq<BuildResult>, n1: M)
    requires exists|l0: Seq<BuildResult>, r: Result<(), BuildError>| good_run(t, items, l0) && l0.len() > 0 && left == l0.skip(1) && #[trigger] checked(t.last(), n1, l0[0], r) && r is Ok,
    ensures good_run(t.push(n1), items, left),
{
    let (l0, r) = choose|l0: Seq<BuildResult>, r: Result<(), BuildError>| good_run(t, items, l0) && l0.len() > 0 && left == l0.skip(1) && #[trigger] checked(t.last(), n1, l0[0], r) && r is Ok;
    lemma_some(t, items, left, n1);
    let u = t.push(n1);
    let n = t.len() - 1;
    assert forall|i: int| 0 <= i < items.len() && i + 1 < u.len() implies item_ok(u[i + 1], #[trigger] items[i]) by {
        if i < n { assert(u[i + 1] == t[i + 1]); } else { assert(items[i] == l0[0]); }
    }
}
proof fn lemma_good_end<M: Matcher>(t: Seq<M>, items: Seq<BuildResult>, left: Seq<BuildResult>)
    requires good_run(t, items, left), left.len() == 0,
    ensures run(t, items), all_ok(t, items),
{
    lemma_some_end(t, items, left);
}
/// C10: a failed build names an item that is an error or whose test messages do not pass
proof fn theorem_failed<M: Matcher>(items: Seq<BuildResult>, e: BuildError)
    requires ok_build(items, Result::<M, BuildError>::Err(e)),
    ensures exists|t: Seq<M>, k: int| 0 <= k < items.len() && #[trigger] run(t, items.take(k + 1)) && !item_ok(t[k + 1], items[k])
        && (forall|i: int| 0 <= i < k ==> item_ok(t[i + 1], #[trigger] items[i])),
{
    let (t, left, n1) = choose|t: Seq<M>, left: Seq<BuildResult>, n1: M| #[trigger] good_run(t, items, left) && left.len() > 0
            && #[trigger] checked(t.last(), n1, left[0], Result::<(), BuildError>::Err(e));
    lemma_some(t, items, left.skip(1), n1);
    let (u, k) = (t.push(n1), t.len() - 1);
    assert(items[k] == left[0]);
    assert(run(u, items.take(k + 1)));
    assert forall|i: int| 0 <= i < k implies item_ok(u[i + 1], #[trigger] items[i]) by { assert(u[i + 1] == t[i + 1]); }
}
broadcast proof fn lemma_same_msgs<M: Matcher>(n: M, ms: Seq<TestMessage>, t: Seq<TMv>, u: VxUuid)
    ensures #![trigger tm_all(n, ms, u), same_msgs(ms, t)] same_msgs(ms, t) ==> (tm_all(n, ms, u) <==> all_pass(n, t, u)),
{
    if same_msgs(ms, t) {
        if tm_all(n, ms, u) {
            assert forall|i: int| 0 <= i < t.len() implies passes(n, #[trigger] t[i], u) by { assert(passes(n, ms[t.len() - 1 - i].tm(), u)); }
        }
        if all_pass(n, t, u) {
            assert forall|i: int| 0 <= i < ms.len() implies passes(n, (#[trigger] ms[i]).tm(), u) by { assert(passes(n, t[t.len() - 1 - i], u)); }
        }
    }
}
/// the history of the patterns of a source
spec fn hist(items: Seq<BuildResult>, h: Seq<Added>) -> bool
    decreases items.len(),
{
    if items.len() == 0 { h.len() == 0 } else {
        match items.last() {
            Ok(p) => if p.pattern@.len() == 0 { hist(items.drop_last(), h) }
                else { h.len() > 0 && h.last().p == p.path() && h.last().m == (Meta { msgs: h.last().m.msgs, ..p.meta() }) && hist(items.drop_last(), h.drop_last()) },
            Err(e) => hist(items.drop_last(), h),
        }
    }
}
spec fn all_canonical(items: Seq<BuildResult>) -> bool { forall|i: int| 0 <= i < items.len() && (#[trigger] items[i]) is Ok ==> canonical(items[i]->Ok_0.pattern@) }
/// C10: the result holds exactly the patterns of the source, in source order
proof fn theorem_holds<M: Matcher>(t: Seq<M>, items: Seq<BuildResult>)
    requires run(t, items), all_canonical(items),
    ensures exists|h: Seq<Added>| #[trigger] hist(items, h) && t.last().mholds(h),
    decreases items.len(),
{
    if items.len() == 0 {
        assert(hist(items, Seq::<Added>::empty()));
    } else {
        let (u, d) = (t.drop_last(), items.drop_last());
        let n = items.len() - 1;
        assert forall|i: int| 0 <= i < d.len() implies run_step(u[i], u[i + 1], #[trigger] d[i]) by { assert(run_step(t[i], t[i + 1], items[i])); }
        assert forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is Ok implies canonical(d[i]->Ok_0.pattern@) by { assert(items[i] is Ok); }
        assert(run(u, d));
        theorem_holds(u, d);
        let h = choose|h: Seq<Added>| #[trigger] hist(d, h) && u.last().mholds(h);
        assert(run_step(t[n], t[n + 1], items[n]));
        match items[n] {
            Ok(p) => {
                let q = choose|q: Pattern| but_msgs(q, p) && #[trigger] t[n + 1].mholds(hadd(h, q));
                let g = hadd(h, q);
                if p.pattern@.len() > 0 { assert(g.drop_last() =~= h); }
                assert(hist(items, g));
            }
            Err(e) => { assert(hist(items, h)); }
        }
    }
}
