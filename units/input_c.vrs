//@include text.vrs
// assume: an input buffer never holds usize::MAX/16 or more characters (a Vec<char> of that size cannot be allocated)
//@src ogma-shell/interface/input.rs
//@item Mvmt derive=Copy,Clone,PartialEq,Eq
//@item InputBuffer
//@rule iter_chars type
impl Iterator<Item = char>
//@=>
Vec<char>
//@endrule
//@rule chars_loop
for $i_c in $b_s.chars() { $s_body }
//@=>
{ let __cs: Vec<char> = $b_s.chars().collect(); let mut __i: usize = 0; while __i < __cs.len() { let $i_c = __cs[__i]; __i += 1; $s_body } }
//@endrule
//@rule collect_all
self.buf[range].iter().collect()
//@=>
v_collect(&self.buf)
//@endrule

pub open spec fn maxb() -> nat { (usize::MAX / 16) as nat }
pub open spec fn wf(b: InputBuffer) -> bool { b.pos <= b.buf@.len() && b.buf@.len() <= maxb() }
pub open spec fn before(b: InputBuffer) -> Seq<char> { b.buf@.subrange(0, b.pos as int) }
pub open spec fn behind(b: InputBuffer) -> Seq<char> { b.buf@.subrange(b.pos as int, b.buf@.len() as int) }

pub open spec fn wordch(c: char) -> bool { is_alnum(c) || c == '-' || c == '_' }
pub open spec fn run(s: Seq<char>, m: int, n: int) -> bool {
    &&& 0 <= m <= n <= s.len()
    &&& forall|i: int| 0 <= i < m ==> !wordch(#[trigger] s[i])
    &&& forall|i: int| m <= i < n ==> wordch(#[trigger] s[i])
}
/// n is the length of the longest prefix of the form (not a word character)* (word character)*
pub open spec fn word_span(s: Seq<char>, n: int) -> bool {
    exists|m: int| #[trigger] run(s, m, n) && (n < s.len() ==> (m < n && !wordch(s[n])))
}
/// there is only one such length
proof fn lemma_word_span_unique(s: Seq<char>, n: int, k: int)
    requires word_span(s, n), word_span(s, k)
    ensures n == k
{
    let a = choose|m: int| #[trigger] run(s, m, n) && (n < s.len() ==> (m < n && !wordch(s[n])));
    let b = choose|m: int| #[trigger] run(s, m, k) && (k < s.len() ==> (m < k && !wordch(s[k])));
    if n < k { assert(a < n); assert(wordch(s[a])); assert(b <= a); assert(wordch(s[n])); }
    if k < n { assert(b < k); assert(wordch(s[b])); assert(a <= b); assert(wordch(s[k])); }
}
pub open spec fn mag(by: Mvmt, s: Seq<char>, n: int) -> bool {
    match by { Mvmt::Ch(x) => n == x, Mvmt::Word => word_span(s, n) }
}

//@fn mv_magnitude
//@params by chars
    ensures mag(by, chars@, ret as int)
//@head
    let ghost mut m: int = 0;
    proof { assert(run(chars@, 0, 0)); }
    proof { reveal_strlit("-_"); assert(forall|c: char| "-_"@.contains(c) <==> (c == '-' || c == '_')) by {
        assert("-_"@.len() == 2); assert("-_"@[0] == '-'); assert("-_"@[1] == '_');
        assert forall|c: char| (c == '-' || c == '_') implies "-_"@.contains(c) by { if c == '-' { assert("-_"@[0] == c); } else { assert("-_"@[1] == c); } }
    } }
//@loop 0
    invariant
        by is Word,
        forall|c: char| "-_"@.contains(c) <==> (c == '-' || c == '_'),
        __n <= chars@.len(),
        !seen ==> run(chars@, __n as int, __n as int),
        seen ==> run(chars@, m, __n as int) && m < __n,
    ensures
        word_span(chars@, __n as int),
    decreases chars@.len() - __n
//@loophead 0
    proof { if !seen { m = __n as int; } }
//@endfn

impl InputBuffer {
//@fn InputBuffer::new
    ensures wf(ret), ret.buf@ =~= Seq::<char>::empty(), ret.pos == 0
//@endfn
//@fn InputBuffer::clear
//@params self
    ensures wf(*final(self)), final(self).buf@ =~= Seq::<char>::empty(), final(self).buf_changed
//@endfn
//@fn InputBuffer::buffer as=buffer_all
//@params self range
//@sig fn buffer_all(&self) -> (ret: String)
    ensures ret@ == self.buf@
//@endfn
//@fn InputBuffer::buf_pos
//@params self
    requires wf(*self)
    ensures ret == bidx(self.buf@, self.pos as int)
//@head
    proof { lemma_bidx_mono(self.buf@, 0, self.pos as int); }
//@loop 0
    invariant __k <= __end <= self.buf@.len(), __s == bidx(self.buf@, __k as int), __k <= maxb(), __s <= 4 * __k,
        self.buf@.len() <= maxb(),
    decreases __end - __k
//@endfn
//@fn InputBuffer::ch_pos
//@params self
    ensures ret == self.pos
//@endfn
//@fn InputBuffer::insert
//@params self ch
    requires wf(*old(self)), old(self).buf@.len() < maxb()
    ensures
        wf(*final(self)),
        before(*final(self)) =~= before(*old(self)).push(ch),
        behind(*final(self)) =~= behind(*old(self)),
        final(self).buf@ =~= before(*old(self)).push(ch) + behind(*old(self)),
        final(self).buf_changed,
//@endfn
//@fn InputBuffer::insert_str
//@params self s
    requires wf(*old(self)), old(self).buf@.len() + s@.len() <= maxb()
    ensures
        wf(*final(self)),
        before(*final(self)) =~= before(*old(self)) + s@,
        behind(*final(self)) =~= behind(*old(self)),
        final(self).buf@ =~= before(*old(self)) + s@ + behind(*old(self)),
        s@.len() > 0 ==> final(self).buf_changed,
        old(self).buf_changed ==> final(self).buf_changed,
//@loop 0
    invariant
        wf(*self), __i <= __cs@.len(), __cs@ == s@,
        old(self).buf@.len() + s@.len() <= maxb(),
        self.buf@.len() == old(self).buf@.len() + __i,
        before(*self) =~= before(*old(self)) + s@.subrange(0, __i as int),
        behind(*self) =~= behind(*old(self)),
        self.buf@ =~= before(*self) + behind(*self),
        old(self).buf_changed || __i > 0 ==> self.buf_changed,
    decreases __cs@.len() - __i
//@endfn
//@fn InputBuffer::backspace
//@params self
    requires wf(*old(self))
    ensures
        wf(*final(self)),
        old(self).pos == 0 ==> final(self).buf@ =~= old(self).buf@ && final(self).pos == old(self).pos && (old(self).buf_changed ==> final(self).buf_changed),
        old(self).pos > 0 ==> before(*final(self)) =~= before(*old(self)).drop_last() && behind(*final(self)) =~= behind(*old(self)) && final(self).buf_changed,
//@endfn
//@fn InputBuffer::delete
//@params self
    requires wf(*old(self))
    ensures
        wf(*final(self)),
        behind(*old(self)).len() == 0 ==> final(self).buf@ =~= old(self).buf@ && final(self).pos == old(self).pos && (old(self).buf_changed ==> final(self).buf_changed),
        behind(*old(self)).len() > 0 ==> before(*final(self)) =~= before(*old(self)) && behind(*final(self)) =~= behind(*old(self)).drop_first() && final(self).buf_changed,
//@endfn
//@fn InputBuffer::move_start
//@params self
    ensures final(self).pos == 0, final(self).buf@ == old(self).buf@, (old(self).buf_changed ==> final(self).buf_changed)
//@endfn
//@fn InputBuffer::move_left
//@params self by
    requires wf(*old(self))
    ensures
        wf(*final(self)),
        final(self).buf@ == old(self).buf@, (old(self).buf_changed ==> final(self).buf_changed),
        exists|n: int| #[trigger] mag(by, before(*old(self)).reverse(), n) && final(self).pos == (if n <= old(self).pos { old(self).pos - n } else { 0 }),
//@head
    let ghost __b = before(*self).reverse();
//@endfn
//@fn InputBuffer::move_right
//@params self by
    requires wf(*old(self))
    ensures
        wf(*final(self)),
        final(self).buf@ == old(self).buf@, (old(self).buf_changed ==> final(self).buf_changed),
        exists|n: int| #[trigger] mag(by, behind(*old(self)), n) && final(self).pos == (if n <= behind(*old(self)).len() { old(self).pos + n } else { old(self).buf@.len() as int }),
//@head
    let ghost __b = behind(*self);
//@endfn
//@fn InputBuffer::buffer_changed
//@params self
    ensures ret == self.buf_changed
//@endfn
//@fn InputBuffer::reset_buf_changed
//@params self
    ensures !final(self).buf_changed, final(self).buf@ == old(self).buf@, final(self).pos == old(self).pos
//@endfn
}
