// ---------------------------------------------------------------------------
// Trusted contracts of std functions (no proof: they describe code outside /repo).
// Every item below is `external_body`/`assume_specification`; the check lists them
// mechanically in the evidence.
// ---------------------------------------------------------------------------

mod vx_ax {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use vstd::string::*;
    verus! {
    /// two strings with the same characters are the same value to specifications
    pub axiom fn axiom_str_view_inj(a: &str, b: &str)
        requires a@ == b@,
        ensures a == b;

    pub axiom fn axiom_string_view_inj(a: String, b: String)
        requires a@ == b@,
        ensures a == b;

    /// no string is longer than isize::MAX bytes
    pub broadcast axiom fn axiom_str_len(a: &str)
        ensures #![trigger a.spec_bytes()] #![trigger a@] a.spec_bytes() == encode_utf8(a@), a.spec_bytes().len() <= isize::MAX;
    }
}
use vx_ax::*;
broadcast use vx_ax::axiom_str_len;

pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize)
    ensures r == encode_utf8(s@).len(), r <= isize::MAX;

/// std::cmp::min on usize
fn vx_min(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b },
{ if a <= b { a } else { b } }

trait VxStr {
    spec fn sview(&self) -> Seq<char>;

    fn vx_starts_with(&self, p: &str) -> (r: bool)
        ensures r == p@.is_prefix_of(self.sview());

    fn vx_find(&self, p: &str) -> (r: Option<usize>)
        ensures
            match r {
                Some(n) => first_at(self.sview(), p@, n as int),
                None => forall|k: int| !occurs_at(self.sview(), p@, k),
            };
}

/// needle occurs in s at character position k
spec fn occurs_at(s: Seq<char>, needle: Seq<char>, k: int) -> bool {
    0 <= k <= s.len() && needle.is_prefix_of(s.skip(k))
}

/// byte offset n is the first place where needle occurs in s
spec fn first_at(s: Seq<char>, needle: Seq<char>, n: int) -> bool {
    exists|k: int| #![trigger blen(s.take(k))] n == blen(s.take(k)) && is_first_occ(s, needle, k)
}

spec fn is_first_occ(s: Seq<char>, needle: Seq<char>, k: int) -> bool {
    occurs_at(s, needle, k) && forall|j: int| 0 <= j < k ==> !#[trigger] occurs_at(s, needle, j)
}

impl VxStr for str {
    spec fn sview(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body]
    fn vx_find(&self, p: &str) -> (r: Option<usize>) { self.find(p) }
}

impl VxStr for String {
    spec fn sview(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body]
    fn vx_find(&self, p: &str) -> (r: Option<usize>) { self.find(p) }
}

// `&s[..]`, `&s[a..]`, `&s[..b]`, `&s[a..b]`: the preconditions are the panic conditions of std
#[verifier::external_body]
fn vx_full(s: &str) -> (r: &str)
    ensures r@ == s@,
{ s }

/// is_bdy, with the two ends spelt out
spec fn cut_ok(s: Seq<char>, n: int) -> bool { n == 0 || n == blen(s) || is_bdy(s, n) }
/// cidx, with the two ends spelt out
spec fn cut_ends(s: Seq<char>, n: int) -> bool {
    is_bdy(s, n) && (n == 0 ==> cidx(s, n) == 0) && (n == blen(s) ==> cidx(s, n) == s.len()) && s.skip(0) == s && s.take(0) == Seq::<char>::empty() && s.take(s.len() as int) == s
        && s.skip(s.len() as int) == Seq::<char>::empty()
}
proof fn lemma_cut(s: Seq<char>, n: int)
    requires cut_ok(s, n),
    ensures cut_ends(s, n),
{
    lemma_bdy_ends(s);
    lemma_blen_pos(s);
    assert(s.skip(0) =~= s && s.take(0) =~= Seq::<char>::empty() && s.take(s.len() as int) =~= s && s.skip(s.len() as int) =~= Seq::<char>::empty());
}

#[verifier::external_body]
fn vx_raw_from(s: &str, a: usize) -> (r: &str)
    requires is_bdy(s@, a as int),
    ensures r@ == s@.skip(cidx(s@, a as int)), blen(r@) == blen(s@) - a, blen(s@) <= isize::MAX,
{ &s[a..] }
fn vx_slice_from(s: &str, a: usize) -> (r: &str)
    requires cut_ok(s@, a as int),
    ensures r@ == s@.skip(cidx(s@, a as int)), blen(r@) == blen(s@) - a, blen(s@) <= isize::MAX, cut_ends(s@, a as int),
{ proof { lemma_cut(s@, a as int); } vx_raw_from(s, a) }

#[verifier::external_body]
fn vx_raw_to(s: &str, b: usize) -> (r: &str)
    requires is_bdy(s@, b as int),
    ensures r@ == s@.take(cidx(s@, b as int)), blen(r@) == b, blen(s@) <= isize::MAX,
{ &s[..b] }
fn vx_slice_to(s: &str, b: usize) -> (r: &str)
    requires cut_ok(s@, b as int),
    ensures r@ == s@.take(cidx(s@, b as int)), blen(r@) == b, blen(s@) <= isize::MAX, cut_ends(s@, b as int),
{ proof { lemma_cut(s@, b as int); } vx_raw_to(s, b) }

#[verifier::external_body]
fn vx_raw(s: &str, a: usize, b: usize) -> (r: &str)
    requires is_bdy(s@, a as int), is_bdy(s@, b as int), a <= b,
    ensures r@ == s@.subrange(cidx(s@, a as int), cidx(s@, b as int)), blen(r@) == b - a, blen(s@) <= isize::MAX,
{ &s[a..b] }
fn vx_slice(s: &str, a: usize, b: usize) -> (r: &str)
    requires cut_ok(s@, a as int), cut_ok(s@, b as int), a <= b,
    ensures r@ == s@.subrange(cidx(s@, a as int), cidx(s@, b as int)), blen(r@) == b - a, blen(s@) <= isize::MAX, cut_ends(s@, a as int), cut_ends(s@, b as int),
{ proof { lemma_cut(s@, a as int); lemma_cut(s@, b as int); } vx_raw(s, a, b) }

#[verifier::external_body]
fn vx_raw_split<'a>(s: &'a str, n: usize) -> (r: (&'a str, &'a str))
    requires is_bdy(s@, n as int),
    ensures r.0@ == s@.take(cidx(s@, n as int)), blen(r.0@) == n, r.1@ == s@.skip(cidx(s@, n as int)), blen(r.1@) == blen(s@) - n, blen(s@) <= isize::MAX,
{ s.split_at(n) }
fn vx_split_at<'a>(s: &'a str, n: usize) -> (r: (&'a str, &'a str))
    requires cut_ok(s@, n as int),
    ensures r.0@ == s@.take(cidx(s@, n as int)), blen(r.0@) == n, r.1@ == s@.skip(cidx(s@, n as int)), blen(r.1@) == blen(s@) - n, blen(s@) <= isize::MAX, cut_ends(s@, n as int),
{ proof { lemma_cut(s@, n as int); } vx_raw_split(s, n) }

/// `unreachable!()`, `panic!()`: must be proved unreachable
#[verifier::external_body]
fn vx_unreachable() -> (r: !)
    requires false,
{ panic!() }

// ---------------------------------------------------------------------------
// Orders, sorting and binary search
// ---------------------------------------------------------------------------
spec fn ord_num(o: Ordering) -> int {
    match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 }
}

/// equality of `Ordering`
fn vx_ord_eq(a: Ordering, b: Ordering) -> (r: bool)
    ensures r == (a == b),
{
    match (a, b) {
        (Ordering::Less, Ordering::Less) => true,
        (Ordering::Equal, Ordering::Equal) => true,
        (Ordering::Greater, Ordering::Greater) => true,
        _ => false,
    }
}

/// `Ord` of T is implemented as specified and is a total (pre)order
spec fn lawful<T: Ord>() -> bool {
    &&& T::obeys_cmp_spec()
    &&& forall|a: T, b: T| #[trigger] ord_num(a.cmp_spec(&b)) == -ord_num(b.cmp_spec(&a))
    &&& forall|a: T, b: T, c: T| (#[trigger] ord_num(a.cmp_spec(&b)) <= 0 && #[trigger] ord_num(b.cmp_spec(&c)) <= 0 ==> ord_num(a.cmp_spec(&c)) <= 0)
    &&& forall|a: T, b: T, c: T| (#[trigger] ord_num(a.cmp_spec(&b)) < 0 && #[trigger] ord_num(b.cmp_spec(&c)) <= 0 ==> ord_num(a.cmp_spec(&c)) < 0)
    &&& forall|a: T, b: T, c: T| (#[trigger] ord_num(a.cmp_spec(&b)) <= 0 && #[trigger] ord_num(b.cmp_spec(&c)) < 0 ==> ord_num(a.cmp_spec(&c)) < 0)
}

spec fn ascending<T: Ord>(s: Seq<T>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> ord_num(s[i].cmp_spec(&s[j])) <= 0
}

trait VxVec<T> {
    spec fn vview(&self) -> Seq<T>;

    /// slice::binary_search_by; monotone comparison functions only
    fn vx_binary_search_by<F: Fn(&T) -> Ordering>(&self, f: F) -> (r: Result<usize, usize>)
        requires
            forall|x: &T| #[trigger] f.requires((x,)),
            forall|i: int, j: int, a: Ordering, b: Ordering| 0 <= i < j < self.vview().len() && f.ensures((&self.vview()[i],), a) && f.ensures((&self.vview()[j],), b) ==> ord_num(a) <= ord_num(b),
        ensures
            self.vview().len() <= usize::MAX,
            match r {
                Ok(p) => p < self.vview().len() && f.ensures((&self.vview()[p as int],), Ordering::Equal),
                Err(p) => p <= self.vview().len()
                    && (forall|j: int| 0 <= j < p ==> f.ensures((&#[trigger] self.vview()[j],), Ordering::Less))
                    && (forall|j: int| p <= j < self.vview().len() ==> f.ensures((&#[trigger] self.vview()[j],), Ordering::Greater)),
            };
}

impl<T> VxVec<T> for Vec<T> {
    spec fn vview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_binary_search_by<F: Fn(&T) -> Ordering>(&self, f: F) -> (r: Result<usize, usize>) { self.binary_search_by(f) }
}

trait VxSort<T> {
    spec fn tview(&self) -> Seq<T>;
    /// slice::sort
    fn vx_sort(&mut self) where T: Ord
        requires lawful::<T>(),
        ensures ascending(final(self).tview()), final(self).tview().to_multiset() == old(self).tview().to_multiset();
}

impl<T> VxSort<T> for Vec<T> {
    spec fn tview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_sort(&mut self) where T: Ord { self.sort() }
}

// ---------------------------------------------------------------------------
// Into<String>, collecting characters, maps and sets of strings
// ---------------------------------------------------------------------------
trait VxInto<T> {
    spec fn iview(&self) -> Seq<char>;
    fn vx_into(self) -> (r: String) where Self: Sized
        ensures r@ == self.iview();
}
impl<'a> VxInto<String> for &'a str {
    spec fn iview(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: String) { self.into() }
}
impl VxInto<String> for String {
    spec fn iview(&self) -> Seq<char> { self@ }
    fn vx_into(self) -> (r: String) { self }
}

/// `From`, as `try!` applies it to errors
trait VxFrom<T>: Sized {
    spec fn is_of(&self, e: T) -> bool;
    fn vx_from(e: T) -> (r: Self)
        ensures r.is_of(e);
}
impl<T> VxFrom<T> for T {
    spec fn is_of(&self, e: T) -> bool { *self == e }
    fn vx_from(e: T) -> (r: Self) { e }
}

trait VxFromChars: Sized {
    spec fn is_from(&self, s: Seq<char>) -> bool;
}
impl VxFromChars for Vec<char> {
    spec fn is_from(&self, s: Seq<char>) -> bool { self@ == s }
}
impl VxFromChars for String {
    spec fn is_from(&self, s: Seq<char>) -> bool { self@ == s }
}
impl VxFromChars for BTreeSet<char> {
    spec fn is_from(&self, s: Seq<char>) -> bool { cset(self) == s.to_set() }
}
trait VxChars {
    #[verifier::prophetic]
    spec fn chars_left(&self) -> Seq<char>;
    fn vx_collect<C: VxFromChars>(self) -> (r: C) where Self: Sized
        ensures r.is_from(self.chars_left());
}
impl<'a> VxChars for std::str::Chars<'a> {
    #[verifier::prophetic]
    spec fn chars_left(&self) -> Seq<char> { self.remaining() }
    #[verifier::external_body]
    fn vx_collect<C: VxFromChars>(self) -> (r: C) { unimplemented!() }
}

/// characters of a BTreeSet<char>
uninterp spec fn cset(s: &BTreeSet<char>) -> Set<char>;

trait VxCharSet {
    fn vx_contains(&self, c: &char) -> (r: bool)
        ensures r == self.cs().contains(*c);
    spec fn cs(&self) -> Set<char>;
}
impl VxCharSet for BTreeSet<char> {
    spec fn cs(&self) -> Set<char> { cset(self) }
    #[verifier::external_body]
    fn vx_contains(&self, c: &char) -> (r: bool) { self.contains(c) }
}
#[verifier::external_body]
fn vx_charset_from(v: Vec<char>) -> (r: BTreeSet<char>)
    ensures cset(&r) == v@.to_set(),
{ unimplemented!() }

/// BTreeMap with string keys and values, as a map of character sequences
trait VxStrMap<K, V> {
    spec fn smap(&self) -> Map<Seq<char>, Seq<char>>;
}
spec fn oview(o: Option<String>) -> Option<Seq<char>> {
    match o { Some(s) => Some(s@), None => None }
}
spec fn orview(o: Option<&str>) -> Option<Seq<char>> {
    match o { Some(s) => Some(s@), None => None }
}

// ---------------------------------------------------------------------------
// Hashing: a hasher is the sequence of values written to it.  One element per value of a
// std type: std writes prefix-free encodings.  SipHash is taken to be free of collisions.
// ---------------------------------------------------------------------------
enum HVal {
    Str(Seq<char>),
    OptStr(Option<Seq<char>>),
    Chars(Set<char>),
    OptUsize(Option<usize>),
    Usize(usize),
    Char(char),
    Bool(bool),
}
spec fn same_type(a: HVal, b: HVal) -> bool {
    match a {
        HVal::Str(_) => b is Str,
        HVal::OptStr(_) => b is OptStr,
        HVal::Chars(_) => b is Chars,
        HVal::OptUsize(_) => b is OptUsize,
        HVal::Usize(_) => b is Usize,
        HVal::Char(_) => b is Char,
        HVal::Bool(_) => b is Bool,
    }
}
#[verifier::external_body]
struct VxHasher { h: u64 }
impl VxHasher {
    uninterp spec fn stream(&self) -> Seq<HVal>;
    #[verifier::external_body]
    fn new() -> (r: VxHasher)
        ensures r.stream() == Seq::<HVal>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn finish(&self) -> (r: u64)
        ensures r == sip(self.stream()),
    { unimplemented!() }
}
uninterp spec fn sip(s: Seq<HVal>) -> u64;
/// equal hashes: where the streams agree up to k and go on with values of one type, they agree there, too
axiom fn axiom_sip_injective(a: Seq<HVal>, b: Seq<HVal>, k: int)
    requires sip(a) == sip(b), 0 <= k < a.len(), k < b.len(), a.subrange(0, k) == b.subrange(0, k), same_type(a[k], b[k]),
    ensures a[k] == b[k];

trait VxHash {
    spec fn hrep(&self) -> Seq<HVal>;
    fn vx_hash(&self, state: &mut VxHasher)
        ensures final(state).stream() == old(state).stream() + self.hrep();
}
impl VxHash for str {
    spec fn hrep(&self) -> Seq<HVal> { seq![HVal::Str(self@)] }
    #[verifier::external_body]
    fn vx_hash(&self, state: &mut VxHasher) { unimplemented!() }
}
impl VxHash for String {
    spec fn hrep(&self) -> Seq<HVal> { seq![HVal::Str(self@)] }
    #[verifier::external_body]
    fn vx_hash(&self, state: &mut VxHasher) { unimplemented!() }
}
impl VxHash for usize {
    spec fn hrep(&self) -> Seq<HVal> { seq![HVal::Usize(*self)] }
    #[verifier::external_body]
    fn vx_hash(&self, state: &mut VxHasher) { unimplemented!() }
}
impl VxHash for char {
    spec fn hrep(&self) -> Seq<HVal> { seq![HVal::Char(*self)] }
    #[verifier::external_body]
    fn vx_hash(&self, state: &mut VxHasher) { unimplemented!() }
}
impl VxHash for bool {
    spec fn hrep(&self) -> Seq<HVal> { seq![HVal::Bool(*self)] }
    #[verifier::external_body]
    fn vx_hash(&self, state: &mut VxHasher) { unimplemented!() }
}
impl<'a> VxHash for Option<&'a str> {
    spec fn hrep(&self) -> Seq<HVal> { seq![HVal::OptStr(orview(*self))] }
    #[verifier::external_body]
    fn vx_hash(&self, state: &mut VxHasher) { unimplemented!() }
}
impl VxHash for Option<String> {
    spec fn hrep(&self) -> Seq<HVal> { seq![HVal::OptStr(oview(*self))] }
    #[verifier::external_body]
    fn vx_hash(&self, state: &mut VxHasher) { unimplemented!() }
}
impl VxHash for Option<usize> {
    spec fn hrep(&self) -> Seq<HVal> { seq![HVal::OptUsize(*self)] }
    #[verifier::external_body]
    fn vx_hash(&self, state: &mut VxHasher) { unimplemented!() }
}
impl VxHash for BTreeSet<char> {
    spec fn hrep(&self) -> Seq<HVal> { seq![HVal::Chars(cset(self))] }
    #[verifier::external_body]
    fn vx_hash(&self, state: &mut VxHasher) { unimplemented!() }
}

// ---------------------------------------------------------------------------
// Clone of std types
// ---------------------------------------------------------------------------
trait VxClone: Sized {
    /// o cannot be told apart from self
    spec fn same(&self, o: &Self) -> bool;
    fn vx_clone(&self) -> (r: Self)
        ensures self.same(&r);
}
impl VxClone for String {
    spec fn same(&self, o: &Self) -> bool { self@ == o@ }
    fn vx_clone(&self) -> (r: Self) { self.clone() }
}
impl VxClone for bool {
    spec fn same(&self, o: &Self) -> bool { self == o }
    fn vx_clone(&self) -> (r: Self) { *self }
}
impl VxClone for usize {
    spec fn same(&self, o: &Self) -> bool { self == o }
    fn vx_clone(&self) -> (r: Self) { *self }
}
impl VxClone for BTreeSet<char> {
    spec fn same(&self, o: &Self) -> bool { cset(self) == cset(o) }
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
impl<T: VxClone> VxClone for Option<T> {
    spec fn same(&self, o: &Self) -> bool {
        match (self, o) { (Some(a), Some(b)) => a.same(b), (None, None) => true, _ => false }
    }
    fn vx_clone(&self) -> (r: Self) {
        match self { Some(x) => Some(x.vx_clone()), None => None }
    }
}
impl<T: VxClone> VxClone for Vec<T> {
    spec fn same(&self, o: &Self) -> bool {
        self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i].same(&o@[i])
    }
    fn vx_clone(&self) -> (r: Self) {
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), v@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] self@[k].same(&v@[k]),
            decreases self@.len() - i,
        {
            v.push(self[i].vx_clone());
            i += 1;
        }
        v
    }
}

// ----- comparing: Option<char>, and strings by their bytes
trait VxCmp {
    spec fn cmpn(&self, o: &Self) -> int;
    fn vx_cmp(&self, o: &Self) -> (r: Ordering)
        ensures ord_num(r) == self.cmpn(o);
}
/// std: None < Some, characters by code point
spec fn ockey(o: Option<char>) -> int { match o { Some(c) => c as int, None => -1 } }
impl VxCmp for Option<char> {
    spec fn cmpn(&self, o: &Self) -> int { if ockey(*self) < ockey(*o) { -1int } else if ockey(*self) == ockey(*o) { 0 } else { 1 } }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
}
/// lexicographic order of byte strings
spec fn bcmp(a: Seq<u8>, b: Seq<u8>) -> int
    decreases a.len(),
{
    if a.len() == 0 { if b.len() == 0 { 0 } else { -1 } }
    else if b.len() == 0 { 1 }
    else if a[0] < b[0] { -1 }
    else if a[0] > b[0] { 1 }
    else { bcmp(a.skip(1), b.skip(1)) }
}
spec fn scmp(a: Seq<char>, b: Seq<char>) -> int { bcmp(encode_utf8(a), encode_utf8(b)) }
impl VxCmp for str {
    spec fn cmpn(&self, o: &Self) -> int { scmp(self@, o@) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
}
impl VxCmp for String {
    spec fn cmpn(&self, o: &Self) -> int { scmp(self@, o@) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
}

