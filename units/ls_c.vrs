//@include text.vrs
// assume: str::lines cuts after each line feed and leaves out a carriage return before it; the offset of such a line in the text is the difference of their addresses
// assume: char::len_utf16 is 1 below U+10000 and 2 from there; String::replace_range, VecDeque and Range as documented
//@rule chars_loop
for $i_c in $b_s.chars() { $s_body }
//@=>
{ let __cs: Vec<char> = $b_s.chars().collect(); let mut __i: usize = 0; while __i < __cs.len() { let $i_c = __cs[__i]; __i += 1; $s_body } }
//@endrule
//@rule len8
$b_c.len_utf8()
//@=>
v_len8($b_c)
//@endrule
//@rule len16
$b_c.len_utf16()
//@=>
v_len16($b_c)
//@endrule
//@rule nth_line
$b_s.lines().nth($e)
//@=>
v_nth_line($b_s, $e)
//@endrule
//@rule offset_in
($b_l.as_ptr() as usize).saturating_sub($b_s.as_ptr() as usize)
//@=>
v_offset(&$b_l, $b_s)
//@endrule
//@rule line_text
linech_to_idx(line, $e)
//@=>
linech_to_idx(v_line_text(&line), $e)
//@endrule
//@rule range_in
lsp_range_to_range(text, $e)
//@=>
lsp_range_to_range(v_str(text), $e)
//@endrule
//@rule s_len
s.len()
//@=>
v_strlen(s)
//@endrule
//@rule text_len
text.len()
//@=>
v_strlen(v_str(text))
//@endrule
//@rule replace_range
text.replace_range($r, $e)
//@=>
v_replace(text, $r, $e)
//@endrule
//@rule each_change
for $i_c in chgs { $s_body }
//@=>
{ let mut __k: usize = 0; while __k < chgs.len() { let $i_c = &chgs[__k]; $s_body __k += 1; } }
//@endrule
//@rule position
$b_v.iter().position(|$i_x| $e)
//@=>
{ let mut __k: usize = 0; let mut __f: Option<usize> = None; while __k < $b_v.len() { let $i_x = $b_v.at(__k); if $e { __f = Some(__k); break; } __k += 1; } __f }
//@endrule
//@rule all_lines
$b_s.lines().enumerate().collect::<Vec<_>>()
//@=>
v_lines(&$b_s)
//@endrule
//@rule paragraph_up
$b_l.iter().take($n).rev().take_while(|$p_x| $c).collect::<Vec<_>>().into_iter().rev().skip_while(|$p_y| $d)
//@=>
{ let __top = v_least($n, $b_l.len()); let mut __a = __top; while __a > 0 { let $p_x = &$b_l[__a - 1]; if !($c) { break; } __a -= 1; } let mut __b = __a; while __b < __top { let $p_y = &$b_l[__b]; if !($d) { break; } __b += 1; } v_slice(&$b_l, __b, __top) }
//@endrule
//@rule paragraph_down
$b_l.iter().skip($n).take_while(|$p_x| $c)
//@=>
{ let __a = v_least($n, $b_l.len()); let mut __b = __a; while __b < $b_l.len() { let $p_x = &$b_l[__b]; if !($c) { break; } __b += 1; } v_slice(&$b_l, __a, __b) }
//@endrule
//@rule fold_chain
$b_a.chain($b_b).fold($i, |$p_acc, $p_x| $body)
//@=>
{ let mut __acc: (Option<usize>, String) = $i; let __ls = v_concat($b_a, $b_b); let mut __k: usize = 0; while __k < __ls.len() { let $p_acc = __acc; let $p_x = &__ls[__k]; __acc = $body; __k += 1; } __acc }
//@endrule
//@rule blank
s.trim().is_empty()
//@=>
v_blank(s)
//@endrule
//@rule first_is
s.starts_with($e)
//@=>
v_starts(s, $e)
//@endrule
//@rule opt_or
i.or($e)
//@=>
v_or(i, $e)
//@endrule
//@rule push_line
s.push_str($e)
//@=>
v_push_str(&mut s, $e)
//@endrule
//@rule push_char
s.push($e)
//@=>
v_push_char(&mut s, $e)
//@endrule
//@rule while_pop
while let Some($i_c) = $b_v.pop_front() { $s_body }
//@=>
loop { let $i_c = match $b_v.pop_front() { Some(__c) => __c, None => break }; $s_body }
//@endrule
//@rule apply
apply_changes($a, $e)
//@=>
apply_changes($a, $e, Ghost(states))
//@endrule
//@rule pending
self.apply_pending()
//@=>
self.apply_pending(Ghost(n), Ghost(t))
//@endrule
#[verifier::external_body] pub fn v_len8(c: char) -> (r: usize) ensures r == chl(c) { c.len_utf8() }
#[verifier::external_body] pub fn v_len16(c: char) -> (r: usize) ensures r == cul(c) { c.len_utf16() }
#[verifier::external_body] pub fn v_str(s: &String) -> (r: &str) ensures r@ == s@ { s }
/// UTF-16 units of a character, and of the first k characters
pub open spec fn cul(c: char) -> nat { if (c as u32) < 0x10000 { 1 } else { 2 } }
pub open spec fn uidx(s: Seq<char>, k: int) -> nat decreases k { if k <= 0 { 0 } else { uidx(s, k - 1) + cul(s[k - 1]) } }
proof fn lemma_uidx_mono(s: Seq<char>, i: int, j: int) requires 0 <= i <= j ensures uidx(s, i) + (j - i) <= uidx(s, j), uidx(s, j) - uidx(s, i) <= bidx(s, j) - bidx(s, i) decreases j - i { if i < j { lemma_uidx_mono(s, i, j - 1); } }
/// the first line feed at or after i
pub open spec fn nl(s: Seq<char>, i: int) -> int decreases s.len() - i { if i >= s.len() { s.len() as int } else if s[i] == '\n' { i } else { nl(s, i + 1) } }
pub open spec fn lstart(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { nl(s, lstart(s, k - 1)) + 1 } }
pub open spec fn has_line(s: Seq<char>, k: int) -> bool { 0 <= lstart(s, k) < s.len() }
pub open spec fn lend(s: Seq<char>, k: int) -> int { let e = nl(s, lstart(s, k)); if lstart(s, k) < e < s.len() && s[e - 1] == '\r' { e - 1 } else { e } }
pub open spec fn line_of(s: Seq<char>, k: int) -> Seq<char> { s.subrange(lstart(s, k), lend(s, k)) }
proof fn lemma_nl(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures i <= nl(s, i) <= s.len() decreases s.len() - i { if i < s.len() && s[i] != '\n' { lemma_nl(s, i + 1); } }
pub struct LineIn { pub text: String, pub off: usize }
#[verifier::external_body]
pub fn v_nth_line(s: &str, n: usize) -> (r: Option<LineIn>)
    ensures blen(s@) <= isize::MAX, r is Some == has_line(s@, n as int), r is Some ==> r->Some_0.text@ == line_of(s@, n as int) && r->Some_0.off == bidx(s@, lstart(s@, n as int))
{ unimplemented!() }
#[verifier::external_body] pub fn v_offset(l: &LineIn, s: &str) -> (r: usize) ensures r == l.off { unimplemented!() }
#[verifier::external_body] pub fn v_line_text(l: &LineIn) -> (r: &str) ensures r@ == l.text@ { &l.text }
// assume: of lsp-types only the shape of a position, a range and a change
pub struct Position { pub line: u32, pub character: u32 }
pub struct Range { pub start: Position, pub end: Position }
impl Copy for Position {}
impl Clone for Position { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Range {}
impl Clone for Range { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub struct TextDocumentContentChangeEvent { pub range: Option<Range>, pub range_length: Option<u32>, pub text: String }
type Version = i32;
type ChgList = Vec<TextDocumentContentChangeEvent>;

//@src ogma-ls/lib.rs
//@fn linech_to_idx
//@sig fn linech_to_idx(line: &str, chpos: usize) -> (ret: usize)
    requires blen(line@) <= isize::MAX
    ensures
        is_bnd(line@, ret as int),
        forall|k: int| 0 <= k <= line@.len() && #[trigger] uidx(line@, k) == chpos ==> ret == bidx(line@, k),
        uidx(line@, line@.len() as int) <= chpos ==> ret == blen(line@),
//@loop 0
    invariant_except_break
        co_utf16 == uidx(line@, __i as int), co_utf8 == bidx(line@, __i as int),
        forall|k: int| 0 <= k < __i ==> #[trigger] uidx(line@, k) != chpos,
    invariant __i <= line@.len(), __cs@ == line@, blen(line@) <= isize::MAX
    ensures
        is_bnd(line@, co_utf8 as int),
        forall|k: int| 0 <= k <= line@.len() && #[trigger] uidx(line@, k) == chpos ==> co_utf8 == bidx(line@, k),
        uidx(line@, line@.len() as int) <= chpos ==> co_utf8 == blen(line@),
    decreases line@.len() - __i
//@loophead 0
    proof {
        let n = line@.len() as int;
        lemma_uidx_mono(line@, __i as int, n); lemma_bidx_mono(line@, __i as int, n); lemma_bidx_mono(line@, 0, n); lemma_uidx_mono(line@, 0, __i as int); lemma_uidx_mono(line@, 0, __i + 1); lemma_bidx_mono(line@, __i + 1, n);
        assert(is_bnd(line@, bidx(line@, __i as int) as int));
        assert forall|k: int| 0 <= k <= n && #[trigger] uidx(line@, k) == uidx(line@, __i as int) implies k == __i by { if k < __i { lemma_uidx_mono(line@, k, __i as int); } else { lemma_uidx_mono(line@, __i as int, k); } }
    }
//@after 0
    proof { assert(is_bnd(line@, co_utf8 as int)); }
//@endfn
/// character p of the text is where the position points: the character beginning at that UTF-16 column of the line, the line's end when the line is shorter, the text's end when there are fewer lines
pub open spec fn place(s: Seq<char>, at: Position, p: int) -> bool {
    let l = at.line as int;
    if has_line(s, l) { lstart(s, l) <= p <= lend(s, l) && (uidx(line_of(s, l), p - lstart(s, l)) == at.character || (p == lend(s, l) && uidx(line_of(s, l), line_of(s, l).len() as int) <= at.character)) } else { p == s.len() }
}
proof fn lemma_sub_bidx(s: Seq<char>, a: int, b: int, k: int) requires 0 <= a <= b <= s.len(), 0 <= k <= b - a ensures bidx(s, a + k) == bidx(s, a) + bidx(s.subrange(a, b), k) decreases k { if k > 0 { lemma_sub_bidx(s, a, b, k - 1); } }
//@fn pos_to_idx
//@sig fn pos_to_idx(s: &str, pos: Position) -> (ret: usize)
    ensures is_bnd(s@, ret as int), forall|p: int| #[trigger] place(s@, pos, p) ==> ret == bidx(s@, p)
//@head
    proof {
        let n = pos.line as int;
        assert(is_bnd(s@, blen(s@) as int)) by { assert(bidx(s@, s@.len() as int) == blen(s@)); }
        if has_line(s@, n) {
            let a = lstart(s@, n); let b = lend(s@, n);
            lemma_nl(s@, a);
            lemma_bidx_mono(s@, a, b); lemma_bidx_mono(s@, b, s@.len() as int);
            assert forall|k: int| 0 <= k <= b - a implies bidx(s@, a + k) == #[trigger] bidx(line_of(s@, n), k) + bidx(s@, a) by { lemma_sub_bidx(s@, a, b, k); }
            assert forall|k: int| 0 <= k <= b - a implies #[trigger] bidx(line_of(s@, n), k) <= bidx(line_of(s@, n), b - a) by { lemma_bidx_mono(line_of(s@, n), k, b - a); }
        }
    }
//@tail
    proof {
        let n = pos.line as int;
        if has_line(s@, n) {
            let a = lstart(s@, n); let b = lend(s@, n); lemma_nl(s@, a);
            let x = __vret - bidx(s@, a);
            assert(is_bnd(line_of(s@, n), x));
            let k = choose|k: int| 0 <= k <= line_of(s@, n).len() && #[trigger] bidx(line_of(s@, n), k) == x;
            lemma_sub_bidx(s@, a, b, k);
            assert(is_bnd(s@, bidx(s@, a + k) as int));
            assert forall|p: int| #[trigger] place(s@, pos, p) implies __vret == bidx(s@, p) by {
                lemma_sub_bidx(s@, a, b, p - a);
                assert(uidx(line_of(s@, n), p - a) == pos.character || uidx(line_of(s@, n), line_of(s@, n).len() as int) <= pos.character);
            }
        }
    }
//@endfn
//@fn lsp_range_to_range
//@sig fn lsp_range_to_range(s: &str, range: Range) -> (ret: std::ops::Range<usize>)
    ensures is_bnd(s@, ret.start as int), is_bnd(s@, ret.end as int), forall|p: int| #[trigger] place(s@, range.start, p) ==> ret.start == bidx(s@, p), forall|p: int| #[trigger] place(s@, range.end, p) ==> ret.end == bidx(s@, p)
//@endfn
//@src ogma-ls/workspace.rs
/// the change names two places of the text, the second not before the first
pub open spec fn fits(s: Seq<char>, r: Range, a: int, b: int) -> bool { place(s, r.start, a) && place(s, r.end, b) && 0 <= a <= b <= s.len() }
pub open spec fn cut(s: Seq<char>, a: int, b: int, t: Seq<char>) -> Seq<char> { s.subrange(0, a) + t + s.subrange(b, s.len() as int) }
pub open spec fn changed(s: Seq<char>, c: TextDocumentContentChangeEvent, n: Seq<char>) -> bool {
    match c.range { None => n == c.text@, Some(r) => exists|a: int, b: int| #[trigger] fits(s, r, a, b) && n == cut(s, a, b, c.text@) }
}
/// states[0] is the text; each change in turn gives the next one
pub open spec fn chain(s: Seq<Seq<char>>, c: Seq<TextDocumentContentChangeEvent>) -> bool { s.len() == c.len() + 1 && forall|k: int| 0 <= k < c.len() ==> #[trigger] changed(s[k], c[k], s[k + 1]) }
proof fn lemma_place(s: Seq<char>, at: Position, p: int, q: int) requires place(s, at, p), place(s, at, q) ensures p == q {
    let l = at.line as int;
    if has_line(s, l) {
        let a = lstart(s, l); let b = lend(s, l); lemma_nl(s, a);
        if p < q { lemma_uidx_mono(line_of(s, l), p - a, q - a); lemma_uidx_mono(line_of(s, l), q - a, b - a); }
        if q < p { lemma_uidx_mono(line_of(s, l), q - a, p - a); lemma_uidx_mono(line_of(s, l), p - a, b - a); }
    }
}
proof fn lemma_changed(s: Seq<char>, c: TextDocumentContentChangeEvent, n: Seq<char>, m: Seq<char>) requires changed(s, c, n), changed(s, c, m) ensures n == m {
    if c.range is Some {
        let r = c.range->Some_0;
        let (a, b) = choose|a: int, b: int| #[trigger] fits(s, r, a, b) && n == cut(s, a, b, c.text@);
        let (x, y) = choose|a: int, b: int| #[trigger] fits(s, r, a, b) && m == cut(s, a, b, c.text@);
        lemma_place(s, r.start, a, x); lemma_place(s, r.end, b, y);
    }
}
#[verifier::external_body]
pub fn v_replace(s: &mut String, r: std::ops::Range<usize>, t: &String)
    requires r.start <= r.end, is_bnd(old(s)@, r.start as int), is_bnd(old(s)@, r.end as int)
    ensures forall|a: int, b: int| 0 <= a <= b <= old(s)@.len() && #[trigger] bidx(old(s)@, a) == r.start && #[trigger] bidx(old(s)@, b) == r.end ==> final(s)@ == cut(old(s)@, a, b, t@)
{ s.replace_range(r, t) }
//@fn apply_changes
//@sig fn apply_changes(text: &mut String, chgs: &[TextDocumentContentChangeEvent], Ghost(st): Ghost<Seq<Seq<char>>>)
    requires chain(st, chgs@), st[0] == old(text)@
    ensures final(text)@ == st.last()
//@loop 0
    invariant __k <= chgs@.len(), chain(st, chgs@), text@ == st[__k as int]
    decreases chgs@.len() - __k
//@loophead 0
    proof {
        assert(changed(st[__k as int], chgs@[__k as int], st[__k + 1]));
        let s = text@;
        assert(is_bnd(s, blen(s) as int) && is_bnd(s, 0)) by { assert(bidx(s, 0) == 0); assert(bidx(s, s.len() as int) == blen(s)); }
        if chgs@[__k as int].range is Some {
            let r = chgs@[__k as int].range->Some_0;
            let (a, b) = choose|a: int, b: int| #[trigger] fits(s, r, a, b) && st[__k + 1] == cut(s, a, b, chgs@[__k as int].text@);
            lemma_bidx_mono(s, a, b);
        } else {
            assert(bidx(s, 0) == 0); assert(bidx(s, s.len() as int) == blen(s));
            assert(cut(s, 0, s.len() as int, chgs@[__k as int].text@) =~= chgs@[__k as int].text@);
        }
    }
//@endfn

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { p: std::marker::PhantomData<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, i: usize, x: T) requires i <= old(self)@.len() ensures final(self)@ == old(self)@.insert(i as int, x) { unimplemented!() }
    #[verifier::external_body] pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
}
//@item File
//@item Change
/// what is waiting is in order, every version once, none of them seen
pub open spec fn waiting(f: File) -> bool {
    ordered(f.pending@, f.version as int) && (f.pending@.len() > 0 ==> f.pending@[0].version > f.version + 1)
}
/// the first n of the waiting changes have the versions following v
pub open spec fn follow(p: Seq<Change>, v: int, n: int) -> bool { 0 <= n <= p.len() && forall|i: int| 0 <= i < n ==> (#[trigger] p[i]).version == v + 1 + i }
/// texts[0] is the text; the changes of each version in turn give the next one
pub open spec fn history(t: Seq<Seq<char>>, p: Seq<Change>, n: int) -> bool { t.len() == n + 1 && forall|i: int| 0 <= i < n ==> #[trigger] step(t[i], p[i], t[i + 1]) }
pub open spec fn step(a: Seq<char>, c: Change, b: Seq<char>) -> bool { exists|st: Seq<Seq<char>>| #[trigger] chain(st, c.changes@) && st[0] == a && st.last() == b }
/// the versions that follow without a gap are applied, the others wait
pub open spec fn settled(o: File, p: Seq<Change>, f: File, n: int, t: Seq<Seq<char>>) -> bool {
    follow(p, o.version as int, n) && (n < p.len() ==> p[n].version > o.version + n + 1) && history(t, p, n) && t[0] == o.text@
    && f.version == o.version + n && f.text@ == t.last() && f.pending@ == p.subrange(n, p.len() as int)
}

pub open spec fn fresh(f: File) -> Seq<Change> { if f.pending@.len() > 0 && f.pending@[0].version < f.version { f.pending@.subrange(1, f.pending@.len() as int) } else { f.pending@ } }
pub open spec fn ordered(p: Seq<Change>, v: int) -> bool {
    &&& forall|i: int| 0 <= i < p.len() ==> v < (#[trigger] p[i]).version
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).version < (#[trigger] p[j]).version
}
/// where a change of version v belongs among those waiting
pub open spec fn slot(p: Seq<Change>, v: int) -> int decreases p.len() { if p.len() == 0 || p[0].version >= v { 0 } else { 1 + slot(p.subrange(1, p.len() as int), v) } }
pub open spec fn merged(p: Seq<Change>, c: Change) -> Seq<Change> { p.insert(slot(p, c.version as int), c) }
pub open spec fn proper(o: File, p: Seq<Change>, n: int, t: Seq<Seq<char>>) -> bool {
    ordered(p, o.version as int) && o.version + p.len() < i32::MAX && follow(p, o.version as int, n) && (n < p.len() ==> p[n].version > o.version + n + 1) && history(t, p, n) && t[0] == o.text@
}
proof fn lemma_slot(p: Seq<Change>, v: int)
    ensures 0 <= slot(p, v) <= p.len(), slot(p, v) < p.len() ==> p[slot(p, v)].version >= v, forall|i: int| 0 <= i < slot(p, v) ==> (#[trigger] p[i]).version < v
    decreases p.len()
{
    if !(p.len() == 0 || p[0].version >= v) {
        let q = p.subrange(1, p.len() as int);
        lemma_slot(q, v);
        assert forall|i: int| 0 <= i < slot(p, v) implies (#[trigger] p[i]).version < v by { if i > 0 { assert(q[i - 1] == p[i]); } }
    }
}
impl File {
//@fn File::new
//@sig pub fn new(text: String, version: Version) -> (ret: Self)
    ensures ret.text == text, ret.version == version, ret.pending@.len() == 0
//@endfn
//@fn File::apply_pending
//@sig fn apply_pending(&mut self, Ghost(n): Ghost<int>, Ghost(t): Ghost<Seq<Seq<char>>>)
    requires
        proper(*old(self), fresh(*old(self)), n, t)
    ensures settled(*old(self), fresh(*old(self)), *final(self), n, t), waiting(*final(self))
//@head
    let ghost o = *self;
    let ghost p = fresh(o);
    let ghost mut i: int = 0;
    let ghost mut first = o.pending@.len() > 0 && o.pending@[0].version < o.version;
    let ghost mut states: Seq<Seq<char>> = Seq::empty();
//@loop 0
    invariant_except_break
        first ==> i == 0 && self.pending@ == o.pending@ && o.pending@.len() > 0 && o.pending@[0].version < o.version,
        !first ==> self.pending@ == p.subrange(i, p.len() as int),
    invariant
        0 <= i <= n, p == fresh(o), ordered(p, o.version as int), o.version + p.len() < i32::MAX, follow(p, o.version as int, n), n < p.len() ==> p[n].version > o.version + n + 1,
        history(t, p, n), self.version == o.version + i, text@ == t[i],
    ensures i == n, self.pending@ == p.subrange(n, p.len() as int)
    decreases self.pending@.len()
//@loophead 0
    proof {
        if first { first = false; assert(p.subrange(0, p.len() as int) =~= p); }
        else if i < n {
            assert(step(t[i], p[i], t[i + 1]));
            states = choose|st: Seq<Seq<char>>| #[trigger] chain(st, p[i].changes@) && st[0] == t[i] && st.last() == t[i + 1];
            i = i + 1;
        }
    }
//@endfn
//@fn File::add_changes
//@sig pub fn add_changes(&mut self, version: Version, changes: ChgList, Ghost(n): Ghost<int>, Ghost(t): Ghost<Seq<Seq<char>>>)
    requires
        waiting(*old(self)), version != old(self).version, old(self).pending@.len() < usize::MAX,
        version > old(self).version ==> proper(*old(self), merged(old(self).pending@, Change { version, changes }), n, t),
        version < old(self).version ==> proper(*old(self), old(self).pending@, n, t),
    ensures
        waiting(*final(self)),
        version < old(self).version ==> final(self).text@ == old(self).text@ && final(self).version == old(self).version && final(self).pending@ == old(self).pending@,
        version > old(self).version ==> settled(*old(self), merged(old(self).pending@, Change { version, changes }), *final(self), n, t),
//@head
    let ghost o = *self;
    let ghost c = Change { version, changes };
//@loop 0
    invariant_except_break __f is None, slot(o.pending@, version as int) >= __k
    invariant self.pending@ == o.pending@, __k <= self.pending@.len(), slot(o.pending@, version as int) <= o.pending@.len(),
    ensures __f is Some ==> __f->Some_0 == slot(o.pending@, version as int) < self.pending@.len(), __f is None ==> slot(o.pending@, version as int) == self.pending@.len()
    decreases self.pending@.len() - __k
//@loophead 0
    proof { lemma_slot(o.pending@, version as int); }
//@before 0
    proof { lemma_slot(o.pending@, version as int); }
//@endfn
}

pub fn v_least(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
#[verifier::external_body] pub fn v_slice(v: &Vec<(usize, String)>, a: usize, b: usize) -> (r: Vec<(usize, String)>) requires a <= b <= v@.len() ensures r@.len() == b - a, forall|k: int| 0 <= k < b - a ==> (#[trigger] r@[k]).0 == v@[a + k].0 && r@[k].1@ == v@[a + k].1@ { unimplemented!() }
#[verifier::external_body] pub fn v_concat(a: Vec<(usize, String)>, b: Vec<(usize, String)>) -> (r: Vec<(usize, String)>) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn v_push_str(d: &mut String, s: &String) ensures final(d)@ == old(d)@ + s@ { d.push_str(s) }
#[verifier::external_body] pub fn v_push_char(d: &mut String, c: char) ensures final(d)@ == old(d)@.push(c) { d.push(c) }
#[verifier::external_body] pub fn v_or(a: Option<usize>, b: Option<usize>) -> (r: Option<usize>) ensures r == if a is Some { a } else { b } { a.or(b) }
pub uninterp spec fn blank(s: Seq<char>) -> bool;
#[verifier::external_body] pub fn v_blank(s: &String) -> (r: bool) ensures r == blank(s@) { s.trim().is_empty() }
#[verifier::external_body] pub fn v_starts(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
pub open spec fn is_lines(l: Seq<(usize, String)>, s: Seq<char>) -> bool {
    &&& forall|k: int| 0 <= k ==> (k < l.len() <==> #[trigger] has_line(s, k))
    &&& forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]).0 == k && l[k].1@ == line_of(s, k)
}
#[verifier::external_body] pub fn v_lines(s: &String) -> (r: Vec<(usize, String)>) ensures is_lines(r@, s@) { unimplemented!() }
pub struct Url { pub id: int_id }
#[allow(non_camel_case_types)] type int_id = u64;
#[verifier::external_body] pub struct Definitions { p: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { p: std::marker::PhantomData<T> }
impl<T> RwLock<T> { pub uninterp spec fn held(&self) -> T; #[verifier::external_body] pub fn read(&self) -> (r: &T) ensures *r == self.held() { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { p: std::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> { pub uninterp spec fn view(&self) -> Map<K, V>; #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some == self@.contains_key(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() } }
//@item Workspace
/// the last line with text of the paragraph above line a, going up
pub open spec fn up(l: Seq<(usize, String)>, a: int) -> int decreases a { if a <= 0 || blank(l[a - 1].1@) { a } else { up(l, a - 1) } }
pub open spec fn noted(l: Seq<(usize, String)>, k: int) -> bool { l[k].1@.len() > 0 && l[k].1@[0] == '#' }
pub open spec fn code(l: Seq<(usize, String)>, b: int, top: int) -> int decreases top - b { if b < top && noted(l, b) { code(l, b + 1, top) } else { b } }
pub open spec fn down(l: Seq<(usize, String)>, k: int) -> int decreases l.len() - k { if k >= l.len() || blank(l[k].1@) { k } else { down(l, k + 1) } }
pub open spec fn lines_text(l: Seq<(usize, String)>, a: int, b: int) -> Seq<char> decreases b - a { if b <= a { Seq::empty() } else { lines_text(l, a, b - 1) + l[b - 1].1@.push('\n') } }
/// the definition around line n: from the top of its paragraph, comment lines left out, to its bottom
pub open spec fn def_from(l: Seq<(usize, String)>, n: int) -> int { let top = if n < l.len() { n } else { l.len() as int }; code(l, up(l, top), top) }
pub open spec fn def_to(l: Seq<(usize, String)>, n: int) -> int { if n < l.len() { down(l, n + 1) } else { l.len() as int } }
proof fn lemma_up(l: Seq<(usize, String)>, a: int) requires 0 <= a ensures 0 <= up(l, a) <= a decreases a { if !(a <= 0 || blank(l[a - 1].1@)) { lemma_up(l, a - 1); } }
proof fn lemma_code(l: Seq<(usize, String)>, b: int, top: int) requires b <= top ensures b <= code(l, b, top) <= top decreases top - b { if b < top && noted(l, b) { lemma_code(l, b + 1, top); } }
proof fn lemma_down(l: Seq<(usize, String)>, k: int) requires k <= l.len() ensures k <= down(l, k) <= l.len() decreases l.len() - k { if !(k >= l.len() || blank(l[k].1@)) { lemma_down(l, k + 1); } }
impl Workspace {
//@fn Workspace::get_def_text
//@sig pub fn get_def_text(&self, url: &Url, line: usize) -> (ret: Option<(usize, String)>)
    ensures
        ret is Some == self.files.held()@.contains_key(*url),
        ret is Some ==> exists|l: Seq<(usize, String)>| #[trigger] is_lines(l, self.files.held()@[*url].text@)
            && ret->Some_0.1@ == lines_text(l, def_from(l, line as int), def_to(l, line as int))
            && ret->Some_0.0 == if def_from(l, line as int) < def_to(l, line as int) { def_from(l, line as int) } else { 0 },
//@head
    let ghost n = line as int;
//@loop 0
    invariant_except_break up(lines@, __top as int) == up(lines@, __a as int)
    invariant __a <= __top <= lines@.len()
    ensures __a == up(lines@, __top as int)
    decreases __a
//@loop 1
    invariant_except_break code(lines@, __a as int, __top as int) == code(lines@, __b as int, __top as int)
    invariant __a <= __b <= __top <= lines@.len()
    ensures __b == code(lines@, __a as int, __top as int)
    decreases __top - __b
//@loop 2
    invariant_except_break f == (__b == __a), __b > __a ==> down(lines@, n + 1) == down(lines@, __b as int)
    invariant n == line, __a <= __b <= lines@.len(), __a == if n < lines@.len() { n } else { lines@.len() as int }
    ensures __b == def_to(lines@, n)
    decreases lines@.len() - __b
//@loop 3
    invariant
        __k <= __ls@.len(), __ls@.len() == to - from, 0 <= from <= to <= lines@.len(),
        forall|k: int| 0 <= k < __ls@.len() ==> (#[trigger] __ls@[k]).0 == from + k && __ls@[k].1@ == lines@[from + k].1@,
        __acc.1@ == lines_text(lines@, from, from + __k), __acc.0 == if __k > 0 { Some(from as usize) } else { None::<usize> },
    decreases __ls@.len() - __k
//@before 3
    let ghost from = def_from(lines@, n);
    let ghost to = def_to(lines@, n);
    proof {
        let top = if n < lines@.len() { n } else { lines@.len() as int };
        lemma_up(lines@, top); lemma_code(lines@, up(lines@, top), top);
        if n < lines@.len() { lemma_down(lines@, n + 1); }
        assert forall|k: int| 0 <= k < __ls@.len() implies (#[trigger] __ls@[k]).0 == from + k && __ls@[k].1@ == lines@[from + k].1@ by {
            if k < top - from { assert(__ls@[k] == pre@[k]); } else { assert(__ls@[k] == post@[k - (top - from)]); }
        }
    }
//@endfn
}
