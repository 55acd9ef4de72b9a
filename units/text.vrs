// assume: UTF-8: a char takes 1/2/3/4 bytes by code point range (char::len_utf8), str/String views are their char sequences (vstd)
//@include std_option.rules
//@include std_misc.rules
pub open spec fn chl(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
/// bytes of the first k characters
pub open spec fn bidx(s: Seq<char>, k: int) -> nat decreases k {
    if k <= 0 { 0 } else { bidx(s, k - 1) + chl(s[k - 1]) }
}
pub open spec fn blen(s: Seq<char>) -> nat { bidx(s, s.len() as int) }
pub open spec fn is_bnd(s: Seq<char>, b: int) -> bool {
    exists|k: int| 0 <= k <= s.len() && #[trigger] bidx(s, k) == b
}
pub proof fn lemma_bidx_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j
    ensures bidx(s, i) + (j - i) <= bidx(s, j), bidx(s, j) <= bidx(s, i) + 4 * (j - i)
    decreases j - i
{ if i < j { lemma_bidx_mono(s, i, j - 1); } }
pub proof fn lemma_bidx_inj(s: Seq<char>, i: int, j: int)
    requires 0 <= i, 0 <= j, bidx(s, i) == bidx(s, j)
    ensures i == j
{ if i < j { lemma_bidx_mono(s, i, j); } else { lemma_bidx_mono(s, j, i); } }
pub proof fn lemma_bidx_prefix(s: Seq<char>, t: Seq<char>, k: int)
    requires 0 <= k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i]
    ensures bidx(s, k) == bidx(t, k)
    decreases k
{ if k > 0 { lemma_bidx_prefix(s, t, k - 1); } }
/// order of byte offsets is the order of characters
pub proof fn lemma_bidx_order(s: Seq<char>)
    ensures
        forall|i: int, j: int| 0 <= i && 0 <= j ==> ((i < j) <==> (#[trigger] bidx(s, i) < #[trigger] bidx(s, j))),
{
    assert forall|i: int, j: int| 0 <= i && 0 <= j implies ((i < j) <==> (#[trigger] bidx(s, i) < #[trigger] bidx(s, j))) by {
        if i <= j { lemma_bidx_mono(s, i, j); } else { lemma_bidx_mono(s, j, i); }
    }
}

// ---- standard library operations the dialect lacks (assumed contracts) ----
#[verifier::external_body]
pub fn v_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), blen(s@) <= usize::MAX,
        forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == bidx(s@, k) && r@[k].1 == s@[k],
{ s.char_indices().collect() }
#[verifier::external_body]
pub fn v_char_count(s: &str) -> (r: usize)
    ensures r == s@.len()
{ s.chars().count() }
#[verifier::external_body]
pub fn v_strlen(s: &str) -> (r: usize)
    ensures r == blen(s@)
{ s.len() }
#[verifier::external_body]
pub fn v_substr(s: &str, a: usize, b: usize) -> (r: String)
    requires a <= b, is_bnd(s@, a as int), is_bnd(s@, b as int)
    ensures forall|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] bidx(s@, i) == a && #[trigger] bidx(s@, j) == b ==> r@ == s@.subrange(i, j)
{ s[a..b].to_string() }
#[verifier::external_body]
pub fn v_str_has(s: &str, c: char) -> (r: bool)
    ensures r == s@.contains(c)
{ s.contains(c) }
pub uninterp spec fn is_alnum(c: char) -> bool;
#[verifier::external_body]
pub fn v_is_alnum(c: char) -> (r: bool)
    ensures r == is_alnum(c)
{ c.is_alphanumeric() }
#[verifier::external_body]
pub fn v_rev_prefix(v: &Vec<char>, n: usize) -> (r: Vec<char>)
    requires n <= v@.len()
    ensures r@ == v@.subrange(0, n as int).reverse()
{ v[..n].iter().copied().rev().collect() }
#[verifier::external_body]
pub fn v_suffix(v: &Vec<char>, n: usize) -> (r: Vec<char>)
    requires n <= v@.len()
    ensures r@ == v@.subrange(n as int, v@.len() as int)
{ v[n..].to_vec() }
#[verifier::external_body]
pub fn v_extend<T>(v: &mut Vec<T>, w: Vec<T>)
    ensures final(v)@ == old(v)@ + w@
{ v.extend(w) }
#[verifier::external_body]
pub fn v_drop_front<T>(v: &mut Vec<T>, n: usize)
    requires n <= old(v)@.len()
    ensures final(v)@ == old(v)@.subrange(n as int, old(v)@.len() as int)
{ v.drain(..n); }
#[verifier::external_body]
pub fn v_prepend(v: &mut Vec<char>, at: usize, s: &str)
    requires at <= old(v)@.len()
    ensures final(v)@ == old(v)@.subrange(0, at as int) + s@ + old(v)@.subrange(at as int, old(v)@.len() as int)
{ v.splice(at..at, s.chars()); }
#[verifier::external_body]
pub fn v_collect(v: &Vec<char>) -> (r: String)
    ensures r@ == v@
{ v.iter().collect() }
