// ---------------------------------------------------------------------------
// Test messages
// ---------------------------------------------------------------------------
type Pairs = Map<Seq<char>, Seq<char>>;
type Entry2 = (Seq<char>, Seq<char>);

/// the text form of a uuid
uninterp spec fn hyph(u: VxUuid) -> Seq<char>;
#[verifier::external_body]
struct VxHyphenated { u: u128 }
impl VxHyphenated {
    uninterp spec fn of(&self) -> VxUuid;
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures r@ == hyph(self.of()) { unimplemented!() }
}
impl VxUuid {
    #[verifier::external_body]
    fn hyphenated(&self) -> (r: VxHyphenated) ensures r.of() == *self { unimplemented!() }
    #[verifier::external_body]
    fn to_owned(&self) -> (r: VxUuid) ensures r == *self { unimplemented!() }
}

// iterating over a map: its entries, in key order
trait VxEntries<'x> {
    type E;
    spec fn eview(&self) -> Pairs;
    spec fn evs(r: Seq<Self::E>) -> Seq<Entry2>;
    fn vx_entries(&'x self) -> (r: Vec<Self::E>)
        ensures is_entries(Self::evs(r@), self.eview()), Self::evs(r@).len() == r@.len();
}
impl<'x> VxEntries<'x> for BTreeMap<String, String> {
    type E = (&'x String, &'x String);
    spec fn eview(&self) -> Pairs { smap(self) }
    spec fn evs(r: Seq<(&'x String, &'x String)>) -> Seq<Entry2> { svs(r) }
    #[verifier::external_body]
    fn vx_entries(&'x self) -> (r: Vec<(&'x String, &'x String)>) { self.iter().collect() }
}
impl<'x, 'a: 'x, 'b: 'x> VxEntries<'x> for BTreeMap<&'a str, &'b str> {
    type E = (&'x &'a str, &'x &'b str);
    spec fn eview(&self) -> Pairs { rmap(self) }
    spec fn evs(r: Seq<(&'x &'a str, &'x &'b str)>) -> Seq<Entry2> { rvs(r) }
    #[verifier::external_body]
    fn vx_entries(&'x self) -> (r: Vec<(&'x &'a str, &'x &'b str)>) { self.iter().collect() }
}
/// es lists the entries of m
spec fn is_entries(es: Seq<Entry2>, m: Pairs) -> bool {
    &&& forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> m.dom().contains(es[i].0) && m[es[i].0] == es[i].1
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k
}
/// m with the first n entries of es inserted
spec fn over(m: Pairs, es: Seq<Entry2>, n: int) -> Pairs
    decreases n,
{
    if n <= 0 { m } else { over(m, es, n - 1).insert(es[n - 1].0, es[n - 1].1) }
}
spec fn named(es: Seq<Entry2>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] es[i]).0 == k }
proof fn lemma_over_some(m: Pairs, es: Seq<Entry2>, all: Pairs, n: int)
    requires is_entries(es, all), 0 <= n <= es.len(),
    ensures
        forall|k: Seq<char>| #[trigger] over(m, es, n).dom().contains(k) <==> m.dom().contains(k) || named(es, n, k),
        forall|k: Seq<char>| #[trigger] named(es, n, k) ==> over(m, es, n)[k] == all[k],
        forall|k: Seq<char>| m.dom().contains(k) && !named(es, n, k) ==> #[trigger] over(m, es, n)[k] == m[k],
    decreases n,
{
    if n > 0 {
        lemma_over_some(m, es, all, n - 1);
        assert forall|k: Seq<char>| #[trigger] named(es, n, k) <==> named(es, n - 1, k) || es[n - 1].0 == k by {
            if named(es, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] es[i]).0 == k; if i < n - 1 { assert(es[i].0 == k); } }
        }
        assert(all[es[n - 1].0] == es[n - 1].1);
        let o = over(m, es, n - 1);
        assert forall|k: Seq<char>| #[trigger] over(m, es, n).dom().contains(k) <==> m.dom().contains(k) || named(es, n, k) by {
            assert(o.dom().contains(k) <==> m.dom().contains(k) || named(es, n - 1, k));
        }
        assert forall|k: Seq<char>| m.dom().contains(k) && !named(es, n, k) implies #[trigger] over(m, es, n)[k] == m[k] by {
            assert(o[k] == m[k]);
        }
    }
}
broadcast proof fn lemma_over(m: Pairs, es: Seq<Entry2>, all: Pairs, n: int)
    ensures #![trigger over(m, es, n), is_entries(es, all)] is_entries(es, all) && n == es.len() ==> over(m, es, n) == m.union_prefer_right(all),
{
    if is_entries(es, all) && n == es.len() {
        lemma_over_some(m, es, all, n);
        let u = m.union_prefer_right(all);
        assert forall|k: Seq<char>| #[trigger] over(m, es, n).dom().contains(k) <==> u.dom().contains(k) by {
            if named(es, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] es[i]).0 == k; assert(all.dom().contains(es[i].0)); }
        }
        assert forall|k: Seq<char>| #[trigger] over(m, es, n).dom().contains(k) implies over(m, es, n)[k] == u[k] by {
            if named(es, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] es[i]).0 == k; assert(all.dom().contains(es[i].0)); }
            if all.dom().contains(k) { assert(named(es, n, k)); }
        }
        assert(over(m, es, n) =~= u);
    }
}
spec fn svs(v: Seq<(&String, &String)>) -> Seq<Entry2> { Seq::new(v.len(), |i: int| (v[i].0@, v[i].1@)) }

spec fn rvs(v: Seq<(&&str, &&str)>) -> Seq<Entry2> { Seq::new(v.len(), |i: int| (v[i].0@, v[i].1@)) }

/// the pattern's own values overridden by the extracted ones
spec fn merged(own: Option<Pairs>, got: Pairs) -> Pairs {
    match own { Some(m) => m.union_prefer_right(got), None => got }
}
spec fn entry_met(e: Entry2, got: Pairs) -> bool { got.dom().contains(e.0) && got[e.0] == e.1 }
spec fn entry_err(key: Seq<char>, value: Seq<char>, got: Pairs, e: Error) -> bool {
    match e {
        Error::ValueNotMatch { pattern_uuid, key: k, expected_value, got_value } => k@ == key && expected_value@ == value && got.dom().contains(key) && got[key] == got_value@ && got_value@ != value,
        Error::KeyNotFound { pattern_uuid, key: k } => k@ == key && !got.dom().contains(key),
        _ => false,
    }
}
spec fn values_met(want: Pairs, got: Pairs) -> bool {
    forall|k: Seq<char>| #[trigger] want.dom().contains(k) ==> entry_met((k, want[k]), got)
}
spec fn value_err(want: Pairs, got: Pairs, e: Error) -> bool {
    exists|k: Seq<char>| #[trigger] want.dom().contains(k) && entry_err(k, want[k], got, e)
}
spec fn has_all(want: Seq<Seq<char>>, got: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < want.len() ==> got.contains(#[trigger] want[i]) }
spec fn tags_met(want: Option<Seq<Seq<char>>>, got: Option<Seq<Seq<char>>>) -> bool {
    want is Some ==> got is Some && has_all(want->0, got->0)
}
/// C09: the expectations of a test message are met by a match of pattern `m` with the pairs `got`
spec fn meets(t: TMv, m: Meta, got: Pairs) -> bool {
    tags_met(t.tags, m.tags) && values_met(t.values, merged(m.values, got))
}
/// C09: the error names the kind of mismatch
spec fn mismatch(t: TMv, m: Meta, got: Pairs, e: Error) -> bool {
    match e {
        Error::UnexpectedTags { pattern_uuid, expected, got: g } => !tags_met(t.tags, m.tags),
        _ => value_err(t.values, merged(m.values, got), e),
    }
}

trait VxSlice<T> {
    fn vx_contains(&self, x: &T) -> (r: bool)
        ensures r == self.has(x);
    spec fn has(&self, x: &T) -> bool;
    fn vx_to_vec(&self) -> Vec<T>;
}
impl VxSlice<String> for [String] {
    spec fn has(&self, x: &String) -> bool { svec(self@).contains(x@) }
    #[verifier::external_body]
    fn vx_contains(&self, x: &String) -> (r: bool) { self.contains(x) }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> Vec<String> { self.to_vec() }
}
trait VxRefMapGet<'a, 'b> {
    fn vx_get(&self, k: &str) -> (r: Option<&&'b str>)
        ensures self.got(k@, r);
    spec fn got(&self, k: Seq<char>, r: Option<&&'b str>) -> bool;
}
impl<'a, 'b> VxRefMapGet<'a, 'b> for BTreeMap<&'a str, &'b str> {
    spec fn got(&self, k: Seq<char>, r: Option<&&'b str>) -> bool {
        match r { Some(v) => rmap(self).dom().contains(k) && rmap(self)[k] == v@, None => !rmap(self).dom().contains(k) }
    }
    #[verifier::external_body]
    fn vx_get(&self, k: &str) -> (r: Option<&&'b str>) { self.get(k) }
}
