// ---------------------------------------------------------------------------
// Common prefixes
// ---------------------------------------------------------------------------
/// length in characters of the longest common prefix
spec fn lcpn(a: Seq<char>, b: Seq<char>) -> nat
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] { 1 + lcpn(a.skip(1), b.skip(1)) } else { 0 }
}

spec fn lcp(a: Seq<char>, b: Seq<char>) -> Seq<char> { a.take(lcpn(a, b) as int) }

proof fn lemma_lcpn(a: Seq<char>, b: Seq<char>)
    ensures lcpn(a, b) <= a.len(), lcpn(a, b) <= b.len(),
        a.take(lcpn(a, b) as int) == b.take(lcpn(a, b) as int),
        lcpn(a, b) == a.len() || lcpn(a, b) == b.len() || a[lcpn(a, b) as int] != b[lcpn(a, b) as int],
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lemma_lcpn(a.skip(1), b.skip(1));
        let k = lcpn(a.skip(1), b.skip(1)) as int;
        assert forall|i: int| 0 <= i < k + 1 implies a[i] == b[i] by {
            if i > 0 {
                assert(a.skip(1).take(k)[i - 1] == b.skip(1).take(k)[i - 1]);
            }
        }
        assert(a.take(k + 1) =~= b.take(k + 1));
    } else {
        assert(a.take(0) =~= b.take(0));
    }
}

/// the three facts above characterise lcpn
proof fn lemma_lcpn_unique(a: Seq<char>, b: Seq<char>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), a.take(k) == b.take(k),
        k == a.len() || k == b.len() || a[k] != b[k],
    ensures lcpn(a, b) == k,
{
    lemma_lcpn(a, b);
    let j = lcpn(a, b) as int;
    if j < k { assert(a.take(k)[j] == a[j]); assert(b.take(k)[j] == b[j]); }
    if k < j { assert(a.take(j)[k] == a[k]); assert(b.take(j)[k] == b[k]); }
}

/// a bytewise prefix of a UTF-8 text that is itself valid is a prefix in characters
proof fn lemma_byte_prefix(p: Seq<char>, t: Seq<char>)
    requires blen(p) <= blen(t), encode_utf8(t).take(blen(p) as int) == encode_utf8(p),
    ensures p.is_prefix_of(t),
    decreases p.len(),
{
    if p.len() == 0 {
        assert(t.take(0) =~= p);
    } else {
        lemma_blen_pos(p);
        lemma_blen_pos(t);
        if t.len() == 0 { assert(false); }
        lemma_blen_one(p);
        lemma_blen_one(t);
        encode_utf8_first_scalar(p);
        encode_utf8_first_scalar(t);
        let bp = encode_utf8(p);
        let bt = encode_utf8(t);
        let wp = encode_scalar(p[0] as u32).len() as int;
        let wt = encode_scalar(t[0] as u32).len() as int;
        assert(bt.take(bp.len() as int)[0] == bp[0]);
        assert(length_of_first_scalar(bp) == wp);
        assert(length_of_first_scalar(bt) == wt);
        assert(wp == wt);
        assert forall|i: int| 0 <= i < wp implies bp[i] == bt[i] by {
            assert(bt.take(bp.len() as int)[i] == bp[i]);
        }
        assert(encode_scalar(p[0] as u32) =~= bp.take(wp));
        assert(encode_scalar(t[0] as u32) =~= bt.take(wp));
        assert(bp.take(wp) =~= bt.take(wp));
        lemma_scalar_len(p[0]);
        lemma_scalar_len(t[0]);
        lemma_encode_inj(seq![p[0]], seq![t[0]]);
        assert(seq![p[0]][0] == seq![t[0]][0]);
        assert(p.drop_first() =~= p.skip(1));
        assert(t.drop_first() =~= t.skip(1));
        assert(bp.skip(wp) =~= encode_utf8(p.skip(1)));
        assert(bt.skip(wp) =~= encode_utf8(t.skip(1)));
        assert(encode_utf8(t.skip(1)).take(blen(p.skip(1)) as int) =~= encode_utf8(p.skip(1))) by {
            assert forall|i: int| 0 <= i < blen(p.skip(1)) implies encode_utf8(t.skip(1))[i] == encode_utf8(p.skip(1))[i] by {
                assert(bt.take(bp.len() as int)[i + wp] == bp[i + wp]);
                assert(bp.skip(wp)[i] == bp[i + wp]);
                assert(bt.skip(wp)[i] == bt[i + wp]);
            }
        }
        lemma_byte_prefix(p.skip(1), t.skip(1));
        assert(t.take(p.len() as int) =~= p) by {
            assert forall|i: int| 0 <= i < p.len() implies t[i] == p[i] by {
                if i > 0 {
                    assert(p.skip(1)[i - 1] == t.skip(1).take(p.skip(1).len() as int)[i - 1]);
                }
            }
        }
    }
}

proof fn lemma_prefix_bytes(p: Seq<char>, t: Seq<char>)
    requires p.is_prefix_of(t),
    ensures blen(p) <= blen(t), encode_utf8(t).take(blen(p) as int) == encode_utf8(p),
{
    let r = t.skip(p.len() as int);
    assert(t =~= p + r);
    encode_utf8_concat(p, r);
    assert(encode_utf8(t).take(blen(p) as int) =~= encode_utf8(p));
}

/// all bytes of the shorter text agree: it is the common prefix
proof fn lemma_cpl_full(a: Seq<char>, b: Seq<char>, n: int)
    requires n <= blen(a), n <= blen(b), n == blen(a) || n == blen(b),
        forall|j: int| 0 <= j < n ==> #[trigger] encode_utf8(a)[j] == encode_utf8(b)[j],
    ensures blen(lcp(a, b)) == n,
{
    if n == blen(a) {
        assert(encode_utf8(b).take(n) =~= encode_utf8(a));
        lemma_byte_prefix(a, b);
        assert(b.take(a.len() as int) =~= a.take(a.len() as int));
        lemma_lcpn_unique(a, b, a.len() as int);
        assert(lcp(a, b) =~= a);
    } else {
        assert(encode_utf8(a).take(n) =~= encode_utf8(b));
        lemma_byte_prefix(b, a);
        assert(a.take(b.len() as int) =~= b.take(b.len() as int));
        lemma_lcpn_unique(a, b, b.len() as int);
        assert(lcp(a, b) =~= b);
    }
}

/// byte i is the first difference and m is the last boundary of a at or before it
proof fn lemma_cpl_diff(a: Seq<char>, b: Seq<char>, i: int, m: int)
    requires 0 <= i < blen(a), i < blen(b), encode_utf8(a)[i] != encode_utf8(b)[i],
        forall|j: int| 0 <= j < i ==> #[trigger] encode_utf8(a)[j] == encode_utf8(b)[j],
        is_bdy(a, m), m <= i, forall|j: int| m < j <= i ==> !is_bdy(a, j),
    ensures blen(lcp(a, b)) == m,
{
    lemma_bdy_range(a, m);
    let k = cidx(a, m);
    let p = a.take(k);
    lemma_prefix_bytes(p, a);
    assert(encode_utf8(b).take(m) =~= encode_utf8(p)) by {
        assert forall|j: int| 0 <= j < m implies encode_utf8(b)[j] == encode_utf8(p)[j] by {
            assert(encode_utf8(a).take(m)[j] == encode_utf8(a)[j]);
        }
    }
    lemma_byte_prefix(p, b);
    assert(b.take(k) =~= a.take(k));
    if k < a.len() && k < b.len() && a[k] == b[k] {
        let q = a.take(k + 1);
        assert(b.take(k + 1) =~= q) by {
            assert forall|j: int| 0 <= j < k + 1 implies b[j] == a[j] by {
                if j < k { assert(a.take(k)[j] == b.take(k)[j]); }
            }
        }
        lemma_prefix_bytes(q, a);
        lemma_prefix_bytes(q, b);
        lemma_cidx(a, k + 1);
        lemma_blen_take_mono(a, k, k + 1);
        if i >= blen(q) {
            assert(is_bdy(a, blen(q) as int));
        } else {
            assert(encode_utf8(a).take(blen(q) as int)[i] == encode_utf8(b).take(blen(q) as int)[i]);
        }
        assert(false);
    }
    if k == a.len() { assert(a.take(k) =~= a); }
    if k == b.len() { assert(b.take(k) =~= b); }
    lemma_lcpn_unique(a, b, k);
    assert(lcp(a, b) =~= a.take(k));
}
