//@include screen_c.vrs
//@src ogma-shell/interface/mod.rs
//@known reduce_top_margin text_block columns_before char_width calculate_cursor_offset construct_completion_block construct_completion_tags completion_style light_on_magenta help_msg draw_frame clip TabState::input_text
// assume: styles and the help text (7 lines of at most 40 columns) are constant
#[verifier::external_body]
pub fn light_on_magenta() -> (r: Style) { unimplemented!() }
#[verifier::external_body]
pub fn completion_style() -> (r: Style) { unimplemented!() }
#[verifier::external_body]
pub fn help_msg() -> (r: Text) ensures lines(r).len() < 50, widest(r) < 100 { unimplemented!() }
/// the row showing a completion, and how it looks when selected
pub uninterp spec fn lit(l: Line) -> Line;
pub open spec fn tag_row(t: CompletionType) -> Line { row_of(tag_text(t)) }
pub uninterp spec fn tag_text(t: CompletionType) -> Seq<char>;
#[verifier::external_body]
pub fn v_row(s: &String) -> (r: Line) ensures r == row_of(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_row_str(s: &str) -> (r: Line) ensures r == row_of(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_light(l: &mut Line) ensures *final(l) == lit(*old(l)) { unimplemented!() }
impl CompletionType {
    #[verifier::external_body]
    pub fn tag(&self) -> (r: &'static str) ensures r@ == tag_text(*self) { unimplemented!() }
}
// assume: a text is its rows; a tag has fewer than ten columns
#[verifier::external_body]
pub fn v_text_rows(v: Vec<Line>) -> (r: Text) ensures lines(r) == v@, (forall|k: int| 0 <= k < v@.len() ==> exists|t: CompletionType| (#[trigger] v@[k]) == tag_row(t)) ==> widest(r) < 10 { unimplemented!() }
pub open spec fn offered(c: Seq<Completion>, h: Option<usize>) -> Seq<Line> {
    Seq::new(c.len(), |k: int| if h == Some(k as usize) { lit(row_of(c[k].value@)) } else { row_of(c[k].value@) })
}
//@fn construct_completion_block
//@params cmpls highlighted theme
//@sig fn construct_completion_block(cmpls: &[Completion], highlighted: Option<usize>, theme: u8) -> (ret: Text)
    requires cmpls@.len() < 30000
    ensures lines(ret) =~= offered(cmpls@, highlighted)
//@loop 0
    invariant __k <= cmpls@.len(), __r@.len() == __k, forall|i: int| 0 <= i < __k ==> (#[trigger] __r@[i]) == row_of(cmpls@[i].value@),
    decreases cmpls@.len() - __k
//@endfn
//@fn construct_completion_tags
//@params cmpls
//@sig fn construct_completion_tags(cmpls: &[Completion]) -> (ret: Text)
    ensures lines(ret) =~= Seq::new(cmpls@.len(), |k: int| tag_row(cmpls@[k].ty)), widest(ret) < 10,
//@loop 0
    invariant __k <= cmpls@.len(), __r@.len() == __k, forall|i: int| 0 <= i < __k ==> (#[trigger] __r@[i]) == tag_row(cmpls@[i].ty),
    decreases cmpls@.len() - __k
//@endfn
//@fn clip
//@params rect within
    requires rt(within) <= 65535, bt(within) <= 65535
    ensures
        inside(ret, within),
        ret.x == pin(rect.x as int, within.x as int, rt(within)), rt(ret) == pin(least(rt(rect), 65535), ret.x as int, rt(within)),
        ret.y == pin(rect.y as int, within.y as int, bt(within)), bt(ret) == pin(least(bt(rect), 65535), ret.y as int, bt(within)),
//@endfn
//@fn reduce_top_margin
//@params rect by
    requires bt(rect) <= 65535
    ensures ret.x == rect.x, ret.width == rect.width, ret.height == most(0, rect.height - by), bt(ret) == bt(rect),
//@endfn
//@fn text_block
//@params text rect
//@sig fn text_block(text: Text, rect: Rect) -> (ret: (Rect, Paragraph, Rect))
    requires bt(rect) <= 65535
    ensures
        ret.0 == (Rect { height: most(lines(text).len() as int, 1) as u16, ..rect }),
        ret.1.text == text, ret.1.at == (0u16, 0u16),
        lines(text).len() <= 65535 ==> ret.2.x == rect.x && ret.2.width == rect.width && ret.2.height == most(0, rect.height - most(lines(text).len() as int, 1)) && bt(ret.2) == bt(rect),
        inside(ret.2, rect), bt(ret.2) == bt(rect),
//@endfn
// assume: a character takes at most two columns (unicode-width)
pub uninterp spec fn uw(c: char) -> nat;
#[verifier::external_body]
pub fn v_uw(c: char) -> (r: usize) ensures r == uw(c), r <= 2 { unimplemented!() }
//@rule uwidth
unicode_width::UnicodeWidthChar::width($e).unwrap_or(0)
//@=>
v_uw($e)
//@endrule
/// columns a character is drawn in
pub open spec fn wd(c: char) -> nat { if c == '\t' { 4 } else { uw(c) } }
pub open spec fn wds(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { wds(s.drop_last()) + wd(s.last()) } }
//@fn char_width
//@params ch
    ensures ret == wd(ch), ret <= 4
//@endfn
//@fn columns_before
//@params input pos
    requires wf(*input), pos <= input.buf@.len()
    ensures ret == wds(input.buf@.subrange(0, pos as int))
//@loop 0
    invariant __k <= __end, __end <= input.buf@.len(), wf(*input), __s == wds(input.buf@.subrange(0, __k as int)), __s <= 4 * __k,
    decreases __end - __k
//@loophead 0
    proof { assert(input.buf@.subrange(0, __k + 1).drop_last() =~= input.buf@.subrange(0, __k as int)); }
//@endfn
/// columns of the first k rows
pub open spec fn upto(s: Seq<Line>, k: int) -> nat decreases k { if k <= 0 { 0 } else { upto(s, k - 1) + cols(s[k - 1]) } }
/// column x of row y is col columns into the rows (after the last row when they have fewer)
pub open spec fn placed(r: Seq<Line>, col: int, x: int, y: int) -> bool {
    &&& 0 <= y <= r.len()
    &&& y == r.len() ==> x == 0 && (r.len() == 0 || upto(r, r.len() as int) < col)
    &&& y < r.len() ==> upto(r, y) + x == col && col <= upto(r, y + 1)
    &&& y > 0 ==> upto(r, y) < col
}
//@fn calculate_cursor_offset
//@params text col
    requires narrow(*text)
    ensures ret.0 < 30000, ret.1 < 29000, placed(lines(*text), col as int, ret.0 as int, ret.1 as int),
//@loop 0
    invariant_except_break __k <= __ls@.len(), narrow(*text), __ls@ == lines(*text), y == __k, w == upto(lines(*text), __k as int), w <= __k * 30000, x == 0, __k > 0 ==> w < col,
    ensures
        x < 30000, y <= lines(*text).len(),
        y == lines(*text).len() ==> x == 0 && (lines(*text).len() == 0 || upto(lines(*text), lines(*text).len() as int) < col),
        y < lines(*text).len() ==> upto(lines(*text), y as int) + x == col && col <= upto(lines(*text), y + 1),
        y > 0 ==> upto(lines(*text), y as int) < col,
    decreases __ls@.len() - __k
//@endfn
//@rule input_range
self.input.buffer(..)
//@=>
self.input.buffer_all()
//@endrule
impl TabState {
//@fn TabState::input_text
//@params self width theme
//@sig fn input_text(&mut self, width: usize, theme: u8) -> (ret: Text)
    requires wft(*old(self)), narrow(old(self).input_cache), width < 30000
    ensures
        narrow(ret), lines(ret).len() < 29000, narrow(final(self).input_cache),
        rows_show(old(self).decorationfn, old(self).input.buf@, width as int, theme, lines(ret)),
        drawn(*old(self), *final(self)), wft(*final(self)), final(self).outputs == old(self).outputs,
        lines(ret) == lines(final(self).input_cache),
//@head
    broadcast use axiom_narrow;
//@endfn
}
// assume: the line typed fills fewer than 29000 rows, the page is scrolled by fewer than 30000 rows, fewer than 30000 completions are offered
pub open spec fn drawable(t: TabState) -> bool { narrow(t.input_cache) && t.outputs.scroll < 30000 && t.completions.items@.len() < 30000 }
pub open spec fn rows_seen(x: (Seen, Rect)) -> Seq<Line> { match x.0 { Seen::Rows(l, _) => l, _ => Seq::empty() } }
/// what a frame shows, in drawing order: edge, tabs, title, prompt, input, output title and output page, then what lies on top
pub open spec fn titled(s: Seen, title: Seq<char>, theme: u8) -> bool {
    s is Edge && s->Edge_0 is None && exists|r: Seq<Line>| #[trigger] wrap_of(title, usize::MAX as int, theme, r) && (r.len() > 0 ==> s->Edge_1 == Some(r[0]))
}
pub open spec fn stands(r: Rect, nl: bool, x: int, y: int, at: (u16, u16)) -> bool {
    at.0 == r.x + (if nl { 0 } else { x }) && at.1 == r.y + y + (if nl { 1int } else { 0 })
}
/// after a line break the cursor starts the next row
pub open spec fn cursor_at(t: TabState, r: Rect, at: Option<(u16, u16)>) -> bool {
    at is Some && finds(lines(t.input_cache), wds(before(t.input)) as int, t.input.pos > 0 && t.input.buf@[t.input.pos - 1] == '\n', r, at.unwrap())
}
pub open spec fn finds(rows: Seq<Line>, col: int, nl: bool, r: Rect, at: (u16, u16)) -> bool {
    exists|x: int, y: int| #[trigger] placed(rows, col, x, y) && stands(r, nl, x, y, at)
}
pub open spec fn layout(a: TermState, b: TermState, size: Rect, log: Seq<(Seen, Rect)>, at: Option<(u16, u16)>) -> bool {
    let t = cur_tab(b);
    &&& log.len() >= 7
    &&& log[0] == (Seen::Edge(None, None), size)
    &&& log[1].0 == Seen::Tabs(a.tabs@.len() as int, a.tab_selected as int)
    &&& titled(log[2].0, t.title@, a.theme)
    &&& log[3].0 == Seen::Rows(plain_rows(t.prompt@), 0)
    &&& log[4].0 == Seen::Rows(lines(t.input_cache), 0)
    &&& log[5].0 is Edge
    &&& log[6].0 == Seen::Page(t.outputs)
    // the line wrapped for the columns beside the prompt, in the theme; the cursor is where the line's cursor is
    &&& rows_show(t.decorationfn, t.input.buf@, log[4].1.width as int, a.theme, lines(t.input_cache))
    &&& cursor_at(t, log[4].1, at)
    // one above the other, none covering another
    &&& bt(log[1].1) <= log[2].1.y && log[3].1.y == log[4].1.y && log[2].1.y + least(1, log[2].1.height as int) <= log[3].1.y
    &&& rt(log[3].1) <= log[4].1.x
    &&& log[6].1.height == 0 || bt(log[4].1) <= log[5].1.y < log[6].1.y
    // the prompt stands left of the input, the input uses what it leaves of the row
    &&& log[3].1.x == log[5].1.x
    // the page uses the rest of the terminal
    &&& size.width >= 2 ==> log[6].1.x == size.x + 1 && rt(log[6].1) == rt(size) - 1
    &&& log[6].1.height > 0 ==> bt(log[6].1) == bt(size) - 1
    &&& size.height >= 8 && lines(t.input_cache).len() <= 1 ==> log[6].1.height == size.height - 5
    &&& fits_for(t.outputs, log[6].1, a.theme)
    // completions lie over the page, below the input
    &&& {
        let k = if a.draw_help { 9int } else { 7 };
        let its = t.completions.items@;
        &&& log.len() >= k
        &&& a.draw_help ==> log[7].0 == Seen::Wipe && log[7].1 == log[8].1
        &&& its.len() == 0 ==> log.len() == k
        &&& its.len() > 0 ==> {
            &&& k + 3 <= log.len() <= k + 4
            &&& log[k].0 == Seen::Wipe && log[k + 1].1 == log[k].1
            &&& log[k + 2].0 is Rows && rows_seen(log[k + 2]) =~= offered(its, t.completions.highlighted)
            &&& log[k + 2].1.y == bt(log[4].1) || log[k + 2].1.height == 0 || log[k + 2].1.width == 0
            &&& log.len() == k + 4 ==> rows_seen(log[k + 3]) =~= Seq::new(its.len(), |i: int| tag_row(its[i].ty)) && log[k + 3].1.x > rt(log[k + 2].1)
        }
    }
}
pub open spec fn fits_for(o: Outputs, r: Rect, theme: u8) -> bool { fits(o) && o.cached_width == r.width && o.cached_theme == theme }
//@fn draw_frame
//@params frame state
//@sig #[verifier::rlimit(300)] fn draw_frame(frame: &mut Frame, state: &mut TermState)
    requires wfs(*old(state)), screen(old(frame).screen), drawable(cur_tab(*old(state))), old(frame).seen@.len() == 0
    ensures
        wfs(*final(state)), only_cur(*old(state), *final(state)), drawn(cur_tab(*old(state)), cur_tab(*final(state))),
        final(frame).screen == old(frame).screen,
        layout(*old(state), *final(state), old(frame).screen, final(frame).seen@, final(frame).at),
//@head
    hide(asked); hide(wfh); hide(fits); hide(wfc); hide(total); hide(narrow); hide(answers_sent); hide(rows_show); hide(wds); hide(upto);
//@loop 0
    invariant __k <= __n, __r@.len() == __k, __n == state.tabs@.len(), __n < usize::MAX
    decreases __n - __k
//@endfn
// assume: the terminal gives an empty frame of its size (within 30000 rows and columns) and shows what was drawn
#[verifier::external_body]
pub fn v_frame(t: &Opaque) -> (r: Frame) ensures screen(r.screen), r.seen@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn v_flush(t: &mut Opaque, f: Frame) -> (r: Result<(), Opaque>) { unimplemented!() }
//@fn draw as=draw_it
//@params term state
//@sig fn draw_it(term: &mut Opaque, state: &mut TermState) -> (ret: Result<(), Opaque>)
    requires wfs(*old(state)), drawable(cur_tab(*old(state)))
    ensures wfs(*final(state)), only_cur(*old(state), *final(state)), drawn(cur_tab(*old(state)), cur_tab(*final(state)))
//@endfn

