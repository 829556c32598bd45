// ---------------------------------------------------------------------------
// Strings: characters are primary.  blen = number of UTF-8 bytes.
// ---------------------------------------------------------------------------
spec fn blen(s: Seq<char>) -> nat { encode_utf8(s).len() }

/// byte offset n lies on a character boundary of s
spec fn is_bdy(s: Seq<char>, n: int) -> bool {
    exists|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == n
}

/// number of whole characters in the first n bytes (n on a boundary)
spec fn cidx(s: Seq<char>, n: int) -> int {
    choose|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == n
}

proof fn lemma_blen_concat(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
{
    encode_utf8_concat(a, b);
}

proof fn lemma_blen_empty()
    ensures blen(Seq::<char>::empty()) == 0,
{
}

proof fn lemma_blen_one(s: Seq<char>)
    requires s.len() > 0,
    ensures blen(s) == encode_scalar(s[0] as u32).len() + blen(s.skip(1)),
        1 <= encode_scalar(s[0] as u32).len() <= 4,
{
    assert(s.drop_first() =~= s.skip(1));
    lemma_scalar_len(s[0]);
}

proof fn lemma_scalar_len(c: char)
    ensures 1 <= encode_scalar(c as u32).len() <= 4,
        encode_scalar(c as u32) == encode_utf8(seq![c]),
{
    assert(is_scalar(c as u32));
    let s = seq![c];
    assert(s.drop_first() =~= Seq::<char>::empty());
    assert(encode_utf8(s.drop_first()) =~= Seq::<u8>::empty());
    assert(encode_utf8(s) == encode_scalar(c as u32) + encode_utf8(s.drop_first()));
    assert(encode_utf8(s) =~= encode_scalar(c as u32));
}

proof fn lemma_blen_pos(s: Seq<char>)
    ensures blen(s) >= s.len(), s.len() > 0 ==> blen(s) > 0, s.len() == 0 ==> blen(s) == 0,
    decreases s.len(),
{
    if s.len() > 0 { lemma_blen_one(s); lemma_blen_pos(s.skip(1)); }
    else { assert(s =~= Seq::<char>::empty()); lemma_blen_empty(); }
}

proof fn lemma_blen_take_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len(),
    ensures blen(s.take(i)) < blen(s.take(j)),
{
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
    lemma_blen_concat(s.take(i), s.subrange(i, j));
    lemma_blen_pos(s.subrange(i, j));
}

broadcast proof fn lemma_cidx(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures #![trigger cidx(s, blen(s.take(k)) as int)]
        cidx(s, blen(s.take(k)) as int) == k, is_bdy(s, blen(s.take(k)) as int),
{
    let n = blen(s.take(k)) as int;
    let k2 = cidx(s, n);
    assert(0 <= k <= s.len() && blen(s.take(k)) == n);
    assert(0 <= k2 <= s.len() && blen(s.take(k2)) == n);
    if k < k2 { lemma_blen_take_mono(s, k, k2); }
    if k2 < k { lemma_blen_take_mono(s, k2, k); }
}

/// a known split s = a + b fixes the boundary at blen(a)
proof fn lemma_split_at(s: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires s == a + b,
    ensures is_bdy(s, blen(a) as int), cidx(s, blen(a) as int) == a.len(),
        s.take(a.len() as int) == a, s.skip(a.len() as int) == b,
        blen(s) == blen(a) + blen(b),
{
    assert(s.take(a.len() as int) =~= a);
    assert(s.skip(a.len() as int) =~= b);
    lemma_cidx(s, a.len() as int);
    lemma_blen_concat(a, b);
}

proof fn lemma_bdy_ends(s: Seq<char>)
    ensures is_bdy(s, 0), cidx(s, 0) == 0, is_bdy(s, blen(s) as int), cidx(s, blen(s) as int) == s.len(),
{
    lemma_split_at(s, Seq::empty(), s);
    assert(s =~= Seq::empty() + s);
    lemma_split_at(s, s, Seq::empty());
    assert(s =~= s + Seq::empty());
    lemma_blen_empty();
}

proof fn lemma_bdy_range(s: Seq<char>, n: int)
    requires is_bdy(s, n),
    ensures 0 <= n <= blen(s), 0 <= cidx(s, n) <= s.len(), blen(s.take(cidx(s, n))) == n,
        blen(s.skip(cidx(s, n))) == blen(s) - n,
        s == s.take(cidx(s, n)) + s.skip(cidx(s, n)),
{
    let k = cidx(s, n);
    assert(s =~= s.take(k) + s.skip(k));
    lemma_blen_concat(s.take(k), s.skip(k));
}

proof fn lemma_encode_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b),
    ensures a == b,
{
    encode_utf8_decode_utf8(a);
    encode_utf8_decode_utf8(b);
}

proof fn lemma_boundary_iff(s: Seq<char>, n: int)
    ensures is_char_boundary(encode_utf8(s), n) <==> is_bdy(s, n),
    decreases s.len(),
{
    encode_utf8_valid_utf8(s);
    let bytes = encode_utf8(s);
    if n == 0 {
        lemma_bdy_ends(s);
    } else if n < 0 || n > bytes.len() {
        if is_bdy(s, n) { lemma_bdy_range(s, n); }
    } else {
        lemma_blen_pos(s);
        assert(s.len() > 0);
        assert(s.drop_first() =~= s.skip(1));
        let t = s.skip(1);
        lemma_blen_one(s);
        encode_utf8_first_scalar(s);
        let w = encode_scalar(s[0] as u32).len() as int;
        lemma_boundary_iff(t, n - w);
        assert(length_of_first_scalar(bytes) == w);
        assert(pop_first_scalar(bytes) =~= encode_utf8(t));
        if is_bdy(t, n - w) {
            let k = cidx(t, n - w);
            lemma_bdy_range(t, n - w);
            lemma_blen_one(s.take(k + 1));
            assert(s.take(k + 1).skip(1) =~= t.take(k));
            assert(blen(s.take(k + 1)) == n);
        }
        if is_bdy(s, n) {
            let k = cidx(s, n);
            lemma_bdy_range(s, n);
            if k == 0 { assert(s.take(0) =~= Seq::empty()); lemma_blen_empty(); }
            lemma_blen_one(s.take(k));
            assert(s.take(k).skip(1) =~= t.take(k - 1));
            assert(blen(t.take(k - 1)) == n - w);
        }
    }
}
