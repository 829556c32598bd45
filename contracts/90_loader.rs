// ---------------------------------------------------------------------------
// Documents: what serde hands to the visitors, and what they make of it
// ---------------------------------------------------------------------------
/// a node of a parsed JSON or YAML document
#[verifier::external_body]
struct Doc { d: u64 }
type Entries = Seq<(Doc, Doc)>;
/// the text of a node that is a string
uninterp spec fn dkey(d: Doc) -> Option<Seq<char>>;
/// the entries of a node that is a mapping, in textual order
uninterp spec fn dent(d: Doc) -> Option<Entries>;
/// what serde makes of a node for a type of std or uuid
uninterp spec fn dlist(d: Doc) -> Option<Seq<Doc>>;
uninterp spec fn dstr(d: Doc) -> Option<Seq<char>>;
uninterp spec fn dmap(d: Doc) -> Option<Map<Seq<char>, Seq<char>>>;
uninterp spec fn duuid(d: Doc) -> Option<VxUuid>;

/// a type that can be read from a node
trait VxDe: Sized {
    type V;
    spec fn v(&self) -> Self::V;
    spec fn de(d: Doc) -> Option<Self::V>;
}
impl VxDe for String {
    type V = Seq<char>;
    spec fn v(&self) -> Seq<char> { self@ }
    spec fn de(d: Doc) -> Option<Seq<char>> { dstr(d) }
}
impl VxDe for VxUuid {
    type V = VxUuid;
    spec fn v(&self) -> VxUuid { *self }
    spec fn de(d: Doc) -> Option<VxUuid> { duuid(d) }
}
impl VxDe for BTreeMap<String, String> {
    type V = Map<Seq<char>, Seq<char>>;
    spec fn v(&self) -> Map<Seq<char>, Seq<char>> { smap(self) }
    spec fn de(d: Doc) -> Option<Map<Seq<char>, Seq<char>>> { dmap(d) }
}
spec fn all_de<T: VxDe>(l: Seq<Doc>) -> Option<Seq<T::V>> {
    if forall|i: int| 0 <= i < l.len() ==> T::de(#[trigger] l[i]) is Some { Some(Seq::new(l.len(), |i: int| T::de(l[i])->0)) } else { None }
}
impl<T: VxDe> VxDe for Vec<T> {
    type V = Seq<T::V>;
    spec fn v(&self) -> Seq<T::V> { Seq::new(self@.len(), |i: int| self@[i].v()) }
    spec fn de(d: Doc) -> Option<Seq<T::V>> { match dlist(d) { Some(l) => all_de::<T>(l), None => None } }
}
/// a node that stands for nothing
uninterp spec fn dnull(d: Doc) -> bool;
impl<T: VxDe> VxDe for Option<T> {
    type V = Option<T::V>;
    spec fn v(&self) -> Option<T::V> { match self { Some(x) => Some(x.v()), None => None } }
    spec fn de(d: Doc) -> Option<Option<T::V>> { if dnull(d) { Some(None) } else { match T::de(d) { Some(x) => Some(Some(x)), None => None } } }
}

// ----- serde's traits
/// errors of a deserializer
trait VxDeError: Sized {
    /// the field that is reported as missing
    spec fn missing(&self) -> Option<Seq<char>>;
    fn custom<T>(msg: T) -> (r: Self)
        ensures r.missing() is None;
    fn missing_field(field: &'static str) -> (r: Self)
        ensures r.missing() == Some(field@);
}
/// the entries of a mapping, one after the other
trait MapVisitor: Sized {
    type Error: VxDeError;
    /// entries to come, as far as the document is readable
    spec fn left(&self) -> Entries;
    /// a key was read and its value was not
    spec fn at_value(&self) -> bool;
    /// the document is well-formed
    spec fn whole(&self) -> bool;
    fn visit_key<K: VxDe>(&mut self) -> (r: Result<Option<K>, Self::Error>)
        requires !old(self).at_value(),
        ensures
            final(self).whole() == old(self).whole(), final(self).left() == old(self).left(),
            match r {
                Ok(Some(k)) => old(self).left().len() > 0 && K::de(old(self).left()[0].0) == Some(k.v()) && final(self).at_value(),
                Ok(None) => old(self).left().len() == 0 && !final(self).at_value(),
                Err(_) => !old(self).whole() || (old(self).left().len() > 0 && K::de(old(self).left()[0].0) is None),
            };
    fn visit_value<T: VxDe>(&mut self) -> (r: Result<T, Self::Error>)
        requires old(self).at_value(), old(self).left().len() > 0,
        ensures
            final(self).whole() == old(self).whole(), !final(self).at_value(), final(self).left() == old(self).left().skip(1),
            match r {
                Ok(x) => T::de(old(self).left()[0].1) == Some(x.v()),
                Err(_) => !old(self).whole() || T::de(old(self).left()[0].1) is None,
            };
    /// nothing may follow
    fn end(&mut self) -> (r: Result<(), Self::Error>)
        requires !old(self).at_value(),
        ensures r is Ok <==> old(self).whole() && old(self).left().len() == 0;
    fn missing_field<T: VxDe>(&mut self, field: &'static str) -> (r: Result<T, Self::Error>)
        ensures r is Err, r->Err_0.missing() == Some(field@);
}
trait Visitor: Sized {
    type Value: VxDe;
    /// value made of a string, of the entries of a mapping
    spec fn vs(s: Seq<char>) -> Option<<Self::Value as VxDe>::V>;
    spec fn vm(e: Entries) -> Option<<Self::Value as VxDe>::V>;
    /// a field reported as missing is missing
    spec fn verr(e: Entries, missing: Option<Seq<char>>) -> bool;
    fn visit_str<E>(&mut self, value: &str) -> (r: Result<Self::Value, E>)
        where E: VxDeError
        ensures match r { Ok(x) => Self::vs(value@) == Some(x.v()), Err(_) => Self::vs(value@) is None };
    fn visit_map<V>(&mut self, visitor: V) -> (r: Result<Self::Value, V::Error>)
        where V: MapVisitor
        requires !visitor.at_value(),
        ensures match r {
            Ok(x) => visitor.whole() && Self::vm(visitor.left()) == Some(x.v()),
            Err(e) => visitor.whole() ==> Self::vm(visitor.left()) is None && Self::verr(visitor.left(), e.missing()),
        };
}
/// reads one node; `doc` is None if the document is malformed
trait Deserializer: Sized {
    type Error: VxDeError;
    spec fn doc(&self) -> Option<Doc>;
    fn deserialize_struct<V: Visitor>(&mut self, name: &'static str, fields: &'static [&'static str], visitor: V) -> (r: Result<V::Value, Self::Error>)
        ensures match r {
            Ok(x) => old(self).doc() is Some && dent(old(self).doc()->0) is Some && V::vm(dent(old(self).doc()->0)->0) == Some(x.v()),
            Err(_) => old(self).doc() is None || dent(old(self).doc()->0) is None || V::vm(dent(old(self).doc()->0)->0) is None,
        };
    fn deserialize<V: Visitor>(&mut self, visitor: V) -> (r: Result<V::Value, Self::Error>)
        ensures match r {
            Ok(x) => old(self).doc() is Some && dkey(old(self).doc()->0) is Some && V::vs(dkey(old(self).doc()->0)->0) == Some(x.v()),
            Err(_) => old(self).doc() is None || dkey(old(self).doc()->0) is None || V::vs(dkey(old(self).doc()->0)->0) is None,
        };
}
trait Deserialize: VxDe {
    fn deserialize<D>(deserializer: &mut D) -> (r: Result<Self, D::Error>)
        where D: Deserializer
        ensures match r {
            Ok(x) => old(deserializer).doc() is Some && Self::de(old(deserializer).doc()->0) == Some(x.v()),
            Err(_) => old(deserializer).doc() is None || Self::de(old(deserializer).doc()->0) is None,
        };
}
spec fn via_str<V: Visitor>(d: Doc) -> Option<<V::Value as VxDe>::V> { match dkey(d) { Some(s) => V::vs(s), None => None } }
spec fn via_map<V: Visitor>(d: Doc) -> Option<<V::Value as VxDe>::V> { match dent(d) { Some(e) => V::vm(e), None => None } }

// ----- test messages
impl VxDe for TField {
    type V = TField;
    spec fn v(&self) -> TField { *self }
    spec fn de(d: Doc) -> Option<TField> { via_str::<TFieldVisitor>(d) }
}
spec fn tfield(s: Seq<char>) -> Option<TField> {
    if s == "message"@ { Some(TField::MESSAGE) } else if s == "values"@ { Some(TField::VALUES) } else if s == "tags"@ { Some(TField::TAGS) } else { None }
}
struct TSt { message: Option<Seq<char>>, values: Option<Map<Seq<char>, Seq<char>>>, tags: Option<Seq<Seq<char>>> }
spec fn tst0() -> TSt { TSt { message: None, values: None, tags: None } }
spec fn tst1(a: TSt, e: (Doc, Doc)) -> Option<TSt> {
    match TField::de(e.0) {
        None => None,
        Some(TField::MESSAGE) => match String::de(e.1) { Some(x) => Some(TSt { message: Some(x), ..a }), None => None },
        Some(TField::VALUES) => match dmap(e.1) { Some(x) => Some(TSt { values: Some(x), ..a }), None => None },
        Some(TField::TAGS) => match <Vec<String> as VxDe>::de(e.1) { Some(x) => Some(TSt { tags: Some(x), ..a }), None => None },
    }
}
spec fn tst(a: TSt, e: Entries) -> Option<TSt>
    decreases e.len(),
{
    if e.len() == 0 { Some(a) } else { match tst1(a, e[0]) { Some(b) => tst(b, e.skip(1)), None => None } }
}
spec fn tm_of(e: Entries) -> Option<TMv> {
    match tst(tst0(), e) {
        Some(a) => match a.message {
            Some(m) => Some(TMv { message: m, values: match a.values { Some(x) => x, None => Map::empty() }, tags: a.tags }),
            None => None,
        },
        None => None,
    }
}
impl VxDe for TestMessage {
    type V = TMv;
    spec fn v(&self) -> TMv { self.tm() }
    spec fn de(d: Doc) -> Option<TMv> { via_map::<TestMessageVisitor>(d) }
}

// ----- patterns
impl VxDe for PField {
    type V = PField;
    spec fn v(&self) -> PField { *self }
    spec fn de(d: Doc) -> Option<PField> { via_str::<PFieldVisitor>(d) }
}
spec fn pfield(s: Seq<char>) -> Option<PField> {
    if s == "name"@ { Some(PField::NAME) } else if s == "uuid"@ { Some(PField::UUID) } else if s == "pattern"@ { Some(PField::PATTERN) }
    else if s == "values"@ { Some(PField::VALUES) } else if s == "tags"@ { Some(PField::TAGS) } else if s == "test_messages"@ { Some(PField::TESTMESSAGES) } else { None }
}
struct PSt { name: Option<Seq<char>>, uuid: Option<VxUuid>, text: Option<Seq<char>>, values: Option<Map<Seq<char>, Seq<char>>>, tags: Option<Seq<Seq<char>>>, msgs: Option<Seq<TMv>> }
spec fn pst0() -> PSt { PSt { name: None, uuid: None, text: None, values: None, tags: None, msgs: None } }
spec fn pst1(a: PSt, e: (Doc, Doc)) -> Option<PSt> {
    match PField::de(e.0) {
        None => None,
        Some(PField::NAME) => match dstr(e.1) { Some(x) => Some(PSt { name: Some(x), ..a }), None => None },
        Some(PField::UUID) => match duuid(e.1) { Some(x) => Some(PSt { uuid: Some(x), ..a }), None => None },
        Some(PField::PATTERN) => match dstr(e.1) { Some(x) => Some(PSt { text: Some(x), ..a }), None => None },
        Some(PField::VALUES) => match dmap(e.1) { Some(x) => Some(PSt { values: Some(x), ..a }), None => None },
        Some(PField::TAGS) => match <Vec<String> as VxDe>::de(e.1) { Some(x) => Some(PSt { tags: Some(x), ..a }), None => None },
        Some(PField::TESTMESSAGES) => match <Vec<TestMessage> as VxDe>::de(e.1) { Some(x) => Some(PSt { msgs: Some(x), ..a }), None => None },
    }
}
spec fn pst(a: PSt, e: Entries) -> Option<PSt>
    decreases e.len(),
{
    if e.len() == 0 { Some(a) } else { match pst1(a, e[0]) { Some(b) => pst(b, e.skip(1)), None => None } }
}
/// the pattern an object describes: its fields are known ones and well-formed, uuid and a valid pattern text are given
spec fn pat_of(e: Entries) -> Option<(Seq<Tok>, Meta)> {
    match pst(pst0(), e) {
        Some(a) => if a.text is Some && compiled(a.text->0) is Some && a.uuid is Some {
            Some((compiled(a.text->0)->0, Meta { name: a.name, uuid: a.uuid->0, values: a.values, tags: a.tags, msgs: a.msgs }))
        } else { None },
        None => None,
    }
}
spec fn pat_err(e: Entries, missing: Option<Seq<char>>) -> bool {
    match pst(pst0(), e) {
        Some(a) => {
            &&& missing is Some ==> (missing == Some("pattern"@) && a.text is None) || (missing == Some("uuid"@) && a.uuid is None)
            &&& a.text is None ==> missing is Some
            &&& a.text is Some && compiled(a.text->0) is Some && a.uuid is None ==> missing is Some
        }
        None => true,
    }
}
impl VxDe for Pattern {
    type V = (Seq<Tok>, Meta);
    spec fn v(&self) -> (Seq<Tok>, Meta) { (toks(self.pattern@), self.meta()) }
    spec fn de(d: Doc) -> Option<(Seq<Tok>, Meta)> { via_map::<PatternVisitor>(d) }
}
broadcast proof fn lemma_tags_v(t: Vec<String>)
    ensures #![trigger t.v()] t.v() == svec(t@),
{
    assert(t.v() =~= svec(t@));
}
broadcast proof fn lemma_msgs_v(t: Vec<TestMessage>)
    ensures #![trigger t.v()] omsgs(Some(t)) == Some(t.v()),
{
    assert(omsgs(Some(t))->0 =~= t.v());
}

// ----- files
impl VxDe for FField {
    type V = FField;
    spec fn v(&self) -> FField { *self }
    spec fn de(d: Doc) -> Option<FField> { via_str::<FFieldVisitor>(d) }
}
spec fn ffield(s: Seq<char>) -> Option<FField> { if s == "patterns"@ { Some(FField::PATTERNS) } else { None } }
type Pats = Seq<(Seq<Tok>, Meta)>;
spec fn fst1(a: Option<Pats>, e: (Doc, Doc)) -> Option<Option<Pats>> {
    match FField::de(e.0) {
        None => None,
        Some(FField::PATTERNS) => match <Vec<Pattern> as VxDe>::de(e.1) { Some(x) => Some(Some(x)), None => None },
    }
}
spec fn fst(a: Option<Pats>, e: Entries) -> Option<Option<Pats>>
    decreases e.len(),
{
    if e.len() == 0 { Some(a) } else { match fst1(a, e[0]) { Some(b) => fst(b, e.skip(1)), None => None } }
}
/// the patterns a document describes
spec fn file_of(e: Entries) -> Option<Pats> { match fst(None, e) { Some(a) => a, None => None } }
impl VxDe for PatternFile {
    type V = Pats;
    spec fn v(&self) -> Pats { self.patterns.v() }
    spec fn de(d: Doc) -> Option<Pats> { via_map::<FileVisitor>(d) }
}

// ----- texts and files
/// the document a JSON (YAML) text stands for, if it is one
uninterp spec fn json_doc(s: Seq<char>) -> Option<Doc>;
uninterp spec fn yaml_doc(s: Seq<char>) -> Option<Doc>;
spec fn read_as<T: VxDe>(d: Option<Doc>) -> Option<T::V> { match d { Some(d) => T::de(d), None => None } }
#[verifier::external_body]
fn vx_json_from_str<T: Deserialize>(s: &str) -> (r: Result<T, VxJsonError>)
    ensures match r { Ok(x) => read_as::<T>(json_doc(s@)) == Some(x.v()), Err(_) => read_as::<T>(json_doc(s@)) is None },
{ unimplemented!() }
#[verifier::external_body]
fn vx_yaml_from_str<T: Deserialize>(s: &str) -> (r: Result<T, VxYamlError>)
    ensures match r { Ok(x) => read_as::<T>(yaml_doc(s@)) == Some(x.v()), Err(_) => read_as::<T>(yaml_doc(s@)) is None },
{ unimplemented!() }
/// the text of the file with this name (None: not readable or not UTF-8)
uninterp spec fn fs_text(p: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
struct VxFile { f: u8 }
impl VxFile {
    uninterp spec fn path(&self) -> Seq<char>;
    #[verifier::external_body]
    fn open(p: &str) -> (r: Result<VxFile, VxIoError>)
        ensures match r { Ok(f) => f.path() == p@, Err(_) => fs_text(p@) is None },
    { unimplemented!() }
    #[verifier::external_body]
    fn read_to_string(&mut self, b: &mut String) -> (r: Result<usize, VxIoError>)
        ensures match r { Ok(_) => fs_text(old(self).path()) is Some && final(b)@ == old(b)@ + fs_text(old(self).path())->0, Err(_) => fs_text(old(self).path()) is None },
    { unimplemented!() }
}
/// Path::extension: what follows the last dot of the file name; None without one
uninterp spec fn path_ext(p: Seq<char>) -> Option<VxOs>;
#[verifier::external_body]
struct VxOs { o: u8 }
#[verifier::external_body]
struct VxPath { p: u8 }
impl VxPath {
    uninterp spec fn pv(&self) -> Seq<char>;
    #[verifier::external_body]
    fn new(p: &str) -> (r: &VxPath) ensures r.pv() == p@ { unimplemented!() }
    #[verifier::external_body]
    fn extension(&self) -> (r: Option<&VxOs>)
        ensures match r { Some(x) => path_ext(self.pv()) == Some(*x), None => path_ext(self.pv()) is None },
    { unimplemented!() }
}
uninterp spec fn os_text(o: VxOs) -> Option<Seq<char>>;
impl VxOs {
    #[verifier::external_body]
    fn to_str(&self) -> (r: Option<&str>) ensures orview(r) == os_text(*self) { unimplemented!() }
}
spec fn is_yaml(e: Seq<char>) -> bool { e == "yaml"@ || e == "yml"@ || e == "YAML"@ || e == "YML"@ }
/// what loading a file gives
spec fn loaded(p: Seq<char>, r: Result<PatternFile, BuildError>) -> bool {
    match path_ext(p) {
        None => r is Err && r->Err_0 is UnsupportedFileExtension,
        Some(o) => match os_text(o) {
            None => r is Err && r->Err_0 is NotUtf8FileName,
            Some(e) => if e == "json"@ {
                match fs_text(p) {
                    None => r is Err && r->Err_0 is Io,
                    Some(t) => match read_as::<PatternFile>(json_doc(t)) {
                        Some(v) => r is Ok && r->Ok_0.v() == v,
                        None => r is Err && r->Err_0 is DeserJson,
                    },
                }
            } else if is_yaml(e) {
                match fs_text(p) {
                    None => r is Err && r->Err_0 is Io,
                    Some(t) => match read_as::<PatternFile>(yaml_doc(t)) {
                        Some(v) => r is Ok && r->Ok_0.v() == v,
                        None => r is Err && r->Err_0 is DeserYaml,
                    },
                }
            } else {
                r is Err && r->Err_0 is UnsupportedFileExtension
            },
        },
    }
}
/// the file loads with these patterns
spec fn loads(p: Seq<char>, v: Pats) -> bool {
    match path_ext(p) {
        None => false,
        Some(o) => match os_text(o) {
            None => false,
            Some(e) => fs_text(p) is Some && ((e == "json"@ && read_as::<PatternFile>(json_doc(fs_text(p)->0)) == Some(v))
                || (is_yaml(e) && read_as::<PatternFile>(yaml_doc(fs_text(p)->0)) == Some(v))),
        },
    }
}

#[verifier::external_body]
fn vx_format() -> String { unimplemented!() }
trait VxOrDefault<T> {
    spec fn given(&self) -> Option<T>;
    spec fn dflt(t: T) -> bool;
    fn vx_or_default(self) -> (r: T)
        where Self: Sized
        ensures match self.given() { Some(x) => r == x, None => Self::dflt(r) };
}
impl VxOrDefault<BTreeMap<String, String>> for Option<BTreeMap<String, String>> {
    spec fn given(&self) -> Option<BTreeMap<String, String>> { *self }
    spec fn dflt(t: BTreeMap<String, String>) -> bool { smap(&t) == Map::<Seq<char>, Seq<char>>::empty() }
    #[verifier::external_body]
    fn vx_or_default(self) -> (r: BTreeMap<String, String>) { self.unwrap_or_default() }
}
broadcast proof fn lemma_empty_add(s: Seq<char>)
    ensures #![trigger Seq::<char>::empty() + s] Seq::<char>::empty() + s == s,
{
    assert(Seq::<char>::empty() + s =~= s);
}

// ----- a file as a source of patterns
use vstd::multiset::Multiset;
trait VxIterator: Sized {
    type Item;
    /// what is still to come, in whatever order
    spec fn items(&self) -> Multiset<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures match r {
            Some(x) => old(self).items() == final(self).items().insert(x),
            None => old(self).items() == Multiset::<Self::Item>::empty() && final(self).items() == old(self).items(),
        };
}
trait VxIntoIterator: Sized {
    type Item;
    type IntoIter: VxIterator<Item = Self::Item>;
    spec fn all(&self) -> Multiset<Self::Item>;
    fn into_iter(self) -> (r: Self::IntoIter)
        ensures r.items() == self.all();
}
spec fn oks(v: Seq<Pattern>) -> Seq<BuildResult> { Seq::new(v.len(), |i: int| Ok::<Pattern, BuildError>(v[i])) }
broadcast proof fn lemma_oks(v: Seq<Pattern>)
    ensures #![trigger oks(v)]
        v.len() == 0 ==> oks(v).to_multiset() == Multiset::<BuildResult>::empty(),
        v.len() > 0 ==> oks(v).to_multiset() == oks(v.drop_last()).to_multiset().insert(Ok(v.last())) && oks(v).to_multiset() == oks(v.remove(0)).to_multiset().insert(Ok(v[0])),
{
    if v.len() == 0 {
        assert(oks(v) =~= Seq::empty());
        assert(oks(v).to_multiset() =~= Multiset::empty()) by { oks(v).to_multiset_ensures(); }
    } else {
        oks(v.drop_last()).to_multiset_ensures();
        assert(oks(v) =~= oks(v.drop_last()).push(Ok(v.last())));
        let w = oks(v.remove(0));
        assert(oks(v) =~= seq![Ok::<Pattern, BuildError>(v[0])] + w);
        vstd::seq_lib::lemma_multiset_commutative(seq![Ok::<Pattern, BuildError>(v[0])], w);
        w.to_multiset_ensures();
        assert(w.push(Ok(v[0])) =~= w + seq![Ok::<Pattern, BuildError>(v[0])]);
        vstd::seq_lib::lemma_multiset_commutative(w, seq![Ok::<Pattern, BuildError>(v[0])]);
        assert(oks(v).to_multiset() =~= w.to_multiset().insert(Ok(v[0])));
    }
}
/// the unsizing coercion from an iterator over patterns to `&mut PatternSource`
#[verifier::external_body]
fn vx_as_source<I: VxIterator<Item = BuildResult>>(it: I) -> (r: VxSource)
    ensures r.left().to_multiset() == it.items(),
{ unimplemented!() }
impl PatternFile {
    fn vx_into_source(self) -> (r: VxSource)
        ensures lists(r.left(), self),
    { vx_as_source(self.into_iter()) }
}
/// l lists the patterns of f, each once
spec fn lists(l: Seq<BuildResult>, f: PatternFile) -> bool { l.to_multiset() == oks(f.patterns@).to_multiset() }
spec fn built<M: Matcher>(f: Result<PatternFile, BuildError>, r: Result<M, BuildError>) -> bool {
    match f { Err(e) => r == Err::<M, BuildError>(e), Ok(f) => exists|l: Seq<BuildResult>| #[trigger] lists(l, f) && ok_build(l, r) }
}
spec fn lbuilt<M: Matcher>(f: Result<PatternFile, BuildError>, r: Result<M, BuildError>) -> bool {
    match f { Err(e) => r == Err::<M, BuildError>(e), Ok(f) => r is Ok && exists|l: Seq<BuildResult>| #[trigger] lists(l, f) && lenient(l, r->Ok_0) }
}
