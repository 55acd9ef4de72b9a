//@include std_option.rules
//@include std_misc.rules
//@rule iter_map
self.items.iter().map(|$p_x| $e)
//@=>
{ let mut __r: Vec<&Text> = Vec::new(); let mut __k: usize = 0; while __k < self.items.len() { let $p_x = &self.items[__k]; let __y = $e; __r.push(__y); __k += 1; } __r }
//@endrule
//@rule map_sum
self.iter().map(|$p_x| $e).sum()
//@=>
{ let __v = self.iter(); let mut __s: usize = 0; let mut __k: usize = 0; while __k < __v.len() { let $p_x = __v[__k]; let __y = $e; __s = __s + __y; __k += 1; } __s }
//@endrule
//@rule for_rev
for $p_x in self.iter().rev() { $s_body }
//@=>
{ let __v = self.iter(); let mut __k: usize = __v.len(); while __k > 0 { __k -= 1; let $p_x = __v[__k]; $s_body } }
//@endrule
//@rule for_mut_deque
for $i_x in &mut $b_v { $s_body }
//@=>
{ let __n = $b_v.len(); let mut __k: usize = 0; while __k < __n { let mut __y = $b_v.pop_front().unwrap(); { let $i_x = &mut __y; $s_body } $b_v.push_back(__y); __k += 1; } }
//@endrule
//@rule for_mut_deque2
for $i_x in $b_v.iter_mut() { $s_body }
//@=>
{ let __n = $b_v.len(); let mut __k: usize = 0; while __k < __n { let mut __y = $b_v.pop_front().unwrap(); { let $i_x = &mut __y; $s_body } $b_v.push_back(__y); __k += 1; } }
//@endrule
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32) ensures r as int == if x < 0 { -(x as int) } else { x as int };
// assume: i32::unsigned_abs, VecDeque and integer clamp/saturating operations as documented

// assume: tui's Text is a list of lines, extend appends, a Paragraph is a text and a scroll offset; wrapping (convert_coloured_str) is a function of text, width and theme (S09 decides what it does)
#[verifier::external_body]
pub struct Line { p: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct TextOf<T> { p: std::marker::PhantomData<T> }
pub type Text = TextOf<Line>;
pub uninterp spec fn lines(t: Text) -> Seq<Line>;
/// these are the rows of s in that many columns, under that theme
pub uninterp spec fn wrap_of(s: Seq<char>, width: int, theme: u8, rows: Seq<Line>) -> bool;
impl TextOf<Line> {
    #[verifier::external_body]
    pub fn default() -> (r: Text) ensures lines(r) == Seq::<Line>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, t: Text) ensures lines(*final(self)) == lines(*old(self)) + lines(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Text) ensures lines(r) == lines(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn height(&self) -> (r: usize) ensures r == lines(*self).len() { unimplemented!() }
}
#[verifier::external_body]
pub fn convert_coloured_str(s: &str, width: usize, theme: u8) -> (r: Text) ensures wrap_of(s@, width as int, theme, lines(r)) { unimplemented!() }
#[verifier::external_body]
pub fn convert_coloured_string(s: &String, width: usize, theme: u8) -> (r: Text) ensures wrap_of(s@, width as int, theme, lines(r)) { unimplemented!() }
pub struct Paragraph { pub text: Text, pub at: (u16, u16) }
impl Paragraph {
    pub fn new(t: Text) -> (r: Paragraph) ensures r.text == t, r.at == (0u16, 0u16) { Paragraph { text: t, at: (0, 0) } }
    pub fn scroll(self, at: (u16, u16)) -> (r: Paragraph) ensures r.text == self.text, r.at == at { Paragraph { text: self.text, at } }
}
//@rule convert_string
super::convert_coloured_str(&$a, $b, $c)
//@=>
convert_coloured_string(&$a, $b, $c)
//@endrule
//@rule super_convert
super::convert_coloured_str($a, $b, $c)
//@=>
convert_coloured_str($a, $b, $c)
//@endrule
//@rule text_type type
Text<'static>
//@=>
Text
//@endrule
//@src ogma-shell/interface/outputs.rs
//@known Outputs::iter Outputs::height
//@item Output
//@item Outputs

/// one column is kept for the scroll bar
pub open spec fn columns(w: u16) -> usize { (if w == 0 { 0 } else { w - 1 }) as usize }
pub open spec fn fit(o: Output, w: u16, theme: u8) -> bool {
    wrap_of(o.value@, columns(w) as int, theme, lines(o.cached))
}
/// every kept output is wrapped for the current width and theme
pub open spec fn fits(o: Outputs) -> bool {
    forall|k: int| 0 <= k < o.items@.len() ==> fit(#[trigger] o.items@[k], o.cached_width, o.cached_theme)
}
pub open spec fn total(s: Seq<Output>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { total(s.drop_last()) + lines(s.last().cached).len() }
}
/// newest_of output first
pub open spec fn page(s: Seq<Output>) -> Seq<Line> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { lines(s.last().cached) + page(s.drop_last()) }
}
proof fn lemma_page(s: Seq<Output>) ensures page(s).len() == total(s) decreases s.len() { if s.len() > 0 { lemma_page(s.drop_last()); } }
pub open spec fn values(s: Seq<Output>) -> Seq<String> { s.map_values(|o: Output| o.value) }
pub open spec fn newest_of<A>(s: Seq<A>, limit: nat) -> Seq<A> {
    if s.len() <= limit { s } else { s.subrange(s.len() - limit, s.len() as int) }
}
pub open spec fn small(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn big(a: int, b: int) -> int { if a >= b { a } else { b } }
/// what n lines of the page can be scrolled to
pub open spec fn bottom(n: nat) -> int { small(big(n - 1, 0), 65535) }
/// lines scrolled to: within the page
pub open spec fn to(at: int, by: int, n: nat) -> int {
    if by > 0 { small(at + by, bottom(n)) } else if by < 0 { big(at + by, 0) } else { at }
}
proof fn lemma_total_mono(s: Seq<Output>, k: int)
    requires 0 <= k <= s.len()
    ensures total(s.subrange(0, k)) <= total(s)
    decreases s.len() - k
{
    if k < s.len() {
        lemma_total_mono(s, k + 1);
        assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k));
    } else { assert(s.subrange(0, k) =~= s); }
}

impl Outputs {
//@fn Outputs::new
//@params width limit
    ensures ret.items@.len() == 0, ret.limit == limit, ret.cached_width == width, ret.scroll == 0, fits(ret),
//@endfn
//@fn Outputs::cached_width
//@params self
    ensures ret == self.cached_width
//@endfn
//@fn Outputs::cached_theme
//@params self
    ensures ret == self.cached_theme
//@endfn
//@fn Outputs::iter
//@params self
//@sig fn iter(&self) -> (ret: Vec<&Text>)
    ensures ret@.len() == self.items@.len(), forall|k: int| 0 <= k < ret@.len() ==> lines(*#[trigger] ret@[k]) == lines(self.items@[k].cached),
//@loop 0
    invariant __k <= self.items@.len(), __r@.len() == __k,
        forall|k: int| 0 <= k < __r@.len() ==> lines(*#[trigger] __r@[k]) == lines(self.items@[k].cached),
    decreases self.items@.len() - __k
//@endfn
//@fn Outputs::add
//@params self value theme
    requires old(self).items@.len() <= old(self).limit < usize::MAX, fits(*old(self))
    ensures
        values(final(self).items@) =~= newest_of(values(old(self).items@).push(value), old(self).limit as nat),
        final(self).items@.len() <= final(self).limit,
        final(self).scroll == 0,
        final(self).limit == old(self).limit, final(self).cached_width == old(self).cached_width, final(self).cached_theme == theme, fits(*final(self)),
//@endfn
//@fn Outputs::update_width
//@params self width theme
    requires old(self).items@.len() <= old(self).limit
    ensures
        values(final(self).items@) =~= values(old(self).items@),
        final(self).cached_width == width, final(self).cached_theme == theme, final(self).limit == old(self).limit, fits(*final(self)),
        final(self).scroll <= old(self).scroll, total(final(self).items@) <= usize::MAX ==> final(self).scroll <= bottom(total(final(self).items@)),
//@loop 0
    invariant
        __k <= __n, __n == old(self).items@.len(), self.items@.len() == __n,
        self.cached_width == width, self.cached_theme == theme, self.limit == old(self).limit, self.scroll == 0,
        w == columns(width),
        forall|k: int| 0 <= k < __n - __k ==> (#[trigger] self.items@[k]) == old(self).items@[k + __k],
        forall|k: int| __n - __k <= k < __n ==> (#[trigger] self.items@[k]).value == old(self).items@[k - (__n - __k)].value,
        forall|k: int| __n - __k <= k < __n ==> fit(#[trigger] self.items@[k], width, theme),
    decreases __n - __k
//@endfn
//@fn Outputs::height
//@params self
    requires total(self.items@) <= usize::MAX
    ensures ret == total(self.items@)
//@loop 0
    invariant
        __k <= __v@.len(), __v@.len() == self.items@.len(), total(self.items@) <= usize::MAX,
        forall|k: int| 0 <= k < __v@.len() ==> lines(*#[trigger] __v@[k]) == lines(self.items@[k].cached),
        __s == total(self.items@.subrange(0, __k as int)),
    decreases __v@.len() - __k
//@loophead 0
    proof { lemma_total_mono(self.items@, __k + 1); assert(self.items@.subrange(0, __k + 1).drop_last() =~= self.items@.subrange(0, __k as int)); }
//@tail
    proof { assert(self.items@.subrange(0, self.items@.len() as int) =~= self.items@); }
//@endfn
//@fn Outputs::as_paragraph
//@params self
    ensures lines(ret.text) == page(self.items@), ret.at == (self.scroll, 0u16),
//@loop 0
    invariant
        __k <= __v@.len(), __v@.len() == self.items@.len(),
        forall|k: int| 0 <= k < __v@.len() ==> lines(*#[trigger] __v@[k]) == lines(self.items@[k].cached),
        page(self.items@) =~= lines(txt) + page(self.items@.subrange(0, __k as int)),
    decreases __k
//@loophead 0
    proof { assert(self.items@.subrange(0, __k as int).drop_last() =~= self.items@.subrange(0, __k - 1)); }
//@head
    proof { assert(self.items@.subrange(0, self.items@.len() as int) =~= self.items@); }
//@endfn
//@fn Outputs::scroll
//@params self lines
    requires total(old(self).items@) <= usize::MAX, old(self).scroll <= bottom(total(old(self).items@))
    ensures
        final(self).scroll == to(old(self).scroll as int, lines as int, total(old(self).items@)),
        final(self).scroll <= bottom(total(final(self).items@)),
        final(self).items@ == old(self).items@, final(self).limit == old(self).limit, final(self).cached_width == old(self).cached_width, final(self).cached_theme == old(self).cached_theme,
//@endfn
}
