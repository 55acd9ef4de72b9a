//@stub shell_c.vrs
//@rule term_draw
term.draw(|f| $e).map(|_| ())
//@=>
{ let mut __f = v_frame(term); let f = &mut __f; $e; v_flush(term, __f) }
//@endrule
//@rule cmpl_rows
cmpls.iter().map(|$p_x| $f)
//@=>
{ let mut __r: Vec<Line> = Vec::new(); let mut __k: usize = 0; while __k < cmpls.len() { let $p_x = &cmpls[__k]; let __s = $f; __r.push(__s); __k += 1; } __r }
//@endrule
//@rule cmpl_rows_all
$e.collect::<Vec<_>>().into()
//@=>
v_text_rows($e)
//@endrule
//@rule cmpl_rows_mut stmt
let mut lines: Vec<_> = $e.collect();
//@=>
let mut lines: Vec<Line> = $e;
//@endrule
//@rule lines_into
lines.into()
//@=>
v_text_rows(lines)
//@endrule
//@rule row_value
Spans::from(&*$e)
//@=>
v_row(&$e)
//@endrule
//@rule row_tag
Spans::from($e)
//@=>
v_row_str($e)
//@endrule
//@rule lit_row stmt
for $i_x in &mut s.0 { $i_x.style = $i_x.style.bg(Color::Cyan).theme(theme); }
//@=>
v_light(s);
//@endrule
//@rule last_in
$b_s.chars(range).last().map(|&$p_x| $e)
//@=>
match v_last_in(&$b_s, range) { Some(__c) => { let $p_x = *__c; Some($e) } None => None }
//@endrule
//@rule tab_names
(0..$e).map(|$p_x| $f)
//@=>
{ let mut __r: Vec<String> = Vec::new(); let __n: usize = $e; let mut __k: usize = 0; while __k < __n { let $p_x = __k; let __s = $f; __r.push(__s); __k += 1; } __r }
//@endrule
//@rule tab_lines
$e.map(Spans::from).collect()
//@=>
v_line_each($e)
//@endrule
//@include std_option.rules
//@include std_misc.rules
//@rule cmp_max_plain
cmp::max($a, $b)
//@=>
{ let __a = $a; let __b = $b; if __a <= __b { __b } else { __a } }
//@endrule
//@rule col_sum
input.chars(..$e).iter().map(|&$i_c| $f).sum()
//@=>
{ let __end = $e; let mut __s: usize = 0; let mut __k: usize = 0; while __k < __end { let $i_c = input.buf[__k]; let __y: usize = $f; __s = __s + __y; __k += 1; } __s }
//@endrule
// ---- assume: tui's rectangles, widgets and frames as in tui 0.18: a widget drawn outside the screen is a panic ----
#[derive(Copy, Clone)]
pub struct Rect { pub x: u16, pub y: u16, pub width: u16, pub height: u16 }
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn most(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn pin(a: int, lo: int, hi: int) -> int { if a < lo { lo } else if a > hi { hi } else { a } }
pub open spec fn rt(r: Rect) -> int { r.x + r.width }
pub open spec fn bt(r: Rect) -> int { r.y + r.height }
/// a lies in b
pub open spec fn inside(a: Rect, b: Rect) -> bool { b.x <= a.x && rt(a) <= rt(b) && b.y <= a.y && bt(a) <= bt(b) }
/// far from the ends of u16
pub open spec fn screen(r: Rect) -> bool { rt(r) < 30000 && bt(r) < 30000 }
impl Rect {
    pub fn new(x: u16, y: u16, width: u16, height: u16) -> (r: Rect)
        requires width <= 255, height <= 255
        ensures r == (Rect { x, y, width, height })
    { Rect { x, y, width, height } }
    pub fn right(self) -> (r: u16) ensures r == least(rt(self), 65535) { if self.x > 65535 - self.width { 65535 } else { self.x + self.width } }
    pub fn bottom(self) -> (r: u16) ensures r == least(bt(self), 65535) { if self.y > 65535 - self.height { 65535 } else { self.y + self.height } }
    #[verifier::external_body]
    pub fn intersection(self, o: Rect) -> (r: Rect)
        requires rt(self) <= 65535, bt(self) <= 65535, rt(o) <= 65535, bt(o) <= 65535,
            most(self.x as int, o.x as int) <= least(rt(self), rt(o)), most(self.y as int, o.y as int) <= least(bt(self), bt(o)),
        ensures r.x == most(self.x as int, o.x as int), r.y == most(self.y as int, o.y as int), rt(r) == least(rt(self), rt(o)), bt(r) == least(bt(self), bt(o)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn intersects(self, o: Rect) -> (r: bool)
        requires rt(self) <= 65535, bt(self) <= 65535, rt(o) <= 65535, bt(o) <= 65535,
        ensures r == (self.x < rt(o) && rt(self) > o.x && self.y < bt(o) && bt(self) > o.y),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn union(self, o: Rect) -> (r: Rect)
        requires rt(self) <= 65535, bt(self) <= 65535, rt(o) <= 65535, bt(o) <= 65535,
        ensures r.x == least(self.x as int, o.x as int), r.y == least(self.y as int, o.y as int), rt(r) == most(rt(self), rt(o)), bt(r) == most(bt(self), bt(o)),
    { unimplemented!() }
}
//@rule clamp
$a.clamp($b, $c)
//@=>
v_clamp($a, $b, $c)
//@endrule
pub fn v_clamp(a: u16, lo: u16, hi: u16) -> (r: u16) requires lo <= hi ensures r == pin(a as int, lo as int, hi as int) { if a < lo { lo } else if a > hi { hi } else { a } }
//@rule u16min
area.width.min($e)
//@=>
v_min16(area.width, $e)
//@endrule
pub fn v_min16(a: u16, b: u16) -> (r: u16) ensures r == least(a as int, b as int) { if a < b { a } else { b } }
#[derive(Copy, Clone)]
pub enum Color { DarkGray, White, Gray, Magenta, Cyan, Rgb(u8, u8, u8) }
#[derive(Copy, Clone)]
pub struct Style { pub bg: Option<Color> }
impl Style {
    #[verifier::external_body] pub fn default() -> (r: Style) ensures r.bg is None { unimplemented!() }
    #[verifier::external_body] pub fn fg(self, c: Color) -> (r: Style) ensures r.bg == self.bg { unimplemented!() }
    pub fn bg(self, c: Color) -> (r: Style) ensures r.bg == Some(c) { Style { bg: Some(c) } }
    #[verifier::external_body] pub fn add_modifier(self, m: Modifier) -> (r: Style) ensures r.bg == self.bg { unimplemented!() }
    #[verifier::external_body] pub fn theme(self, t: u8) -> (r: Style) { unimplemented!() }
}
pub enum Modifier { Any }
//@rule modifiers
Modifier::BOLD | Modifier::UNDERLINED
//@=>
Modifier::Any
//@endrule
pub struct Borders { pub left: bool, pub right: bool, pub top: bool, pub bottom: bool }
//@rule borders3
Borders::LEFT | Borders::RIGHT | Borders::BOTTOM
//@=>
Borders { left: true, right: true, top: false, bottom: true }
//@endrule
//@rule borders1
Borders::TOP
//@=>
Borders { left: false, right: false, top: true, bottom: false }
//@endrule
pub enum BorderType { Thick }
pub enum Alignment { Left, Right }
pub uninterp spec fn row_of(s: Seq<char>) -> Line;
pub trait Titled: Sized { spec fn row(self) -> Line; }
impl Titled for &str { open spec fn row(self) -> Line { row_of(self@) } }
impl Titled for Line { open spec fn row(self) -> Line { self } }
pub struct Block { pub b: Borders, pub titled: Ghost<Option<Line>>, pub fill: Option<Color> }
impl Block {
    pub fn default() -> (r: Block) ensures r == (Block { b: Borders { left: false, right: false, top: false, bottom: false }, titled: Ghost(None), fill: None }) { Block { b: Borders { left: false, right: false, top: false, bottom: false }, titled: Ghost(None), fill: None } }
    pub fn borders(self, b: Borders) -> (r: Block) ensures r == (Block { b, ..self }) { Block { b, titled: self.titled, fill: self.fill } }
    pub fn border_type(self, t: BorderType) -> (r: Block) ensures r == self { self }
    pub fn title<T: Titled>(self, t: T) -> (r: Block) ensures r == (Block { titled: Ghost(Some(t.row())), ..self }) { Block { b: self.b, titled: Ghost(Some(t.row())), fill: self.fill } }
    pub fn style(self, s: Style) -> (r: Block) ensures r == (Block { fill: s.bg, ..self }) { Block { b: self.b, titled: self.titled, fill: s.bg } }
    #[verifier::external_body]
    pub fn inner(&self, a: Rect) -> (r: Rect)
        requires rt(a) <= 65535, bt(a) <= 65535
        ensures
            r.x == least(a.x + if self.b.left { 1int } else { 0 }, rt(a)),
            r.width == most(0, a.width - (if self.b.left { 1int } else { 0 }) - if self.b.right { 1int } else { 0 }),
            r.y == least(a.y + if self.b.top || self.titled@ is Some { 1int } else { 0 }, bt(a)),
            r.height == most(0, a.height - (if self.b.top || self.titled@ is Some { 1int } else { 0 }) - if self.b.bottom { 1int } else { 0 }),
    { unimplemented!() }
}
pub struct Tabs { pub n: usize, pub selected: usize }
impl Tabs {
    pub fn new(v: Vec<Line>) -> (r: Tabs) ensures r.n == v@.len() { Tabs { n: v.len(), selected: 0 } }
    pub fn style(self, s: Style) -> (r: Tabs) ensures r == self { self }
    pub fn highlight_style(self, s: Style) -> (r: Tabs) ensures r == self { self }
    pub fn select(self, k: usize) -> (r: Tabs) ensures r.n == self.n, r.selected == k { Tabs { n: self.n, selected: k } }
}
impl Paragraph {
    pub fn alignment(self, a: Alignment) -> (r: Paragraph) ensures r == self { self }
    pub fn style(self, s: Style) -> (r: Paragraph) ensures r == self { self }
}
pub struct Clear;
pub enum Seen { Wipe, Edge(Option<Color>, Option<Line>), Tabs(int, int), Rows(Seq<Line>, int), Page(Outputs) }
pub trait Widget: Sized {
    spec fn seen(self) -> Seen;
    /// what the widget needs besides lying on the screen
    spec fn fine(self, a: Rect) -> bool;
}
impl Widget for Clear { open spec fn seen(self) -> Seen { Seen::Wipe } open spec fn fine(self, a: Rect) -> bool { true } }
impl Widget for Block { open spec fn seen(self) -> Seen { Seen::Edge(self.fill, self.titled@) } open spec fn fine(self, a: Rect) -> bool { true } }
impl Widget for Tabs { open spec fn seen(self) -> Seen { Seen::Tabs(self.n as int, self.selected as int) } open spec fn fine(self, a: Rect) -> bool { true } }
impl Widget for Paragraph { open spec fn seen(self) -> Seen { Seen::Rows(lines(self.text), self.at.0 as int) } open spec fn fine(self, a: Rect) -> bool { a.height + self.at.0 <= 65535 } }
// the page is drawn by Outputs::render, below
impl Widget for &Outputs { open spec fn seen(self) -> Seen { Seen::Page(*self) } open spec fn fine(self, a: Rect) -> bool { a.height + self.scroll <= 65535 } }
pub struct Frame { pub screen: Rect, pub seen: Ghost<Seq<(Seen, Rect)>>, pub at: Option<(u16, u16)> }
impl Frame {
    pub fn size(&self) -> (r: Rect) ensures r == self.screen { self.screen }
    #[verifier::external_body]
    pub fn render_widget<W: Widget>(&mut self, w: W, a: Rect)
        requires inside(a, old(self).screen), w.fine(a)
        ensures final(self).screen == old(self).screen, final(self).at == old(self).at, final(self).seen@ == old(self).seen@.push((w.seen(), a))
    { unimplemented!() }
    pub fn set_cursor(&mut self, x: u16, y: u16) ensures *final(self) == (Frame { at: Some((x, y)), ..*old(self) }) { self.at = Some((x, y)); }
}
pub struct Buffer { pub area: Rect, pub seen: Ghost<Seq<(Seen, Rect)>> }
// ---- texts ----
pub uninterp spec fn cols(l: Line) -> nat;
pub uninterp spec fn widest(t: Text) -> nat;
impl Line {
    // assume: a line is narrower than 2^40 columns
    #[verifier::external_body]
    pub fn width(&self) -> (r: usize) ensures r == cols(*self), r < 0x100_0000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Line) ensures cols(r) == 0 { unimplemented!() }
}
impl TextOf<Line> {
    #[verifier::external_body]
    pub fn width(&self) -> (r: usize) ensures r == widest(*self) { unimplemented!() }
}
//@rule text_of_prompt
Text::from(&*$e)
//@=>
v_text_string(&$e)
//@endrule
#[verifier::external_body]
pub fn v_text_string(s: &String) -> (r: Text) ensures lines(r) == plain_rows(s@) { unimplemented!() }
/// the rows of a text as it is
pub uninterp spec fn plain_rows(s: Seq<char>) -> Seq<Line>;
//@rule tab_name
format!("Tab {}", $e)
//@=>
v_tab_name($e)
//@endrule
#[verifier::external_body]
pub fn v_tab_name(k: usize) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn v_line_each(s: Vec<String>) -> (r: Vec<Line>) ensures r@.len() == s@.len() { unimplemented!() }
//@rule title_line
$e.lines.into_iter().next().unwrap_or_default()
//@=>
v_first_line($e)
//@endrule
#[verifier::external_body]
pub fn v_first_line(t: Text) -> (r: Line) ensures lines(t).len() > 0 ==> r == lines(t)[0] { unimplemented!() }
//@rule title_text
convert_coloured_str(&$a, $b, $c)
//@=>
convert_coloured_string(&$a, $b, $c)
//@endrule
//@rule usize_max
std::usize::MAX
//@=>
usize::MAX
//@endrule
#[verifier::external_body]
pub fn v_last_in(b: &InputBuffer, r: std::ops::RangeTo<usize>) -> (l: Option<&char>)
    requires r.end <= b.buf@.len()
    ensures match l { Some(c) => r.end > 0 && *c == b.buf@[r.end - 1], None => r.end == 0 }
{ unimplemented!() }
//@rule decorate
(self.decorationfn)($a, $b)
//@=>
v_decorate(&self.decorationfn, $a, $b)
//@endrule
// assume: decorating a line gives some text of fewer than 29000 rows
#[verifier::external_body]
pub fn v_decorate(f: &Opaque, s: String, at: usize) -> (r: String) ensures r@ == decorated(*f, s@, at as int) { unimplemented!() }
pub open spec fn narrow(t: Text) -> bool { lines(t).len() < 29000 && forall|k: int| 0 <= k < lines(t).len() ==> cols(#[trigger] lines(t)[k]) < 30000 }
// assume: (unit wrap) no wrapped row is wider than the columns, or two
pub broadcast proof fn axiom_narrow(s: Seq<char>, w: int, theme: u8, t: Text)
    requires #[trigger] wrap_of(s, w, theme, lines(t)), w < 30000
    ensures narrow(t)
{ admit(); }
//@rule lines_of
for $i_l in &text.lines { $s_body }
//@=>
{ let mut __k: usize = 0; let __ls = v_lines_of(text); while __k < __ls.len() { let $i_l = &__ls[__k]; __k += 1; $s_body } }
//@endrule
#[verifier::external_body]
pub fn v_lines_of(t: &Text) -> (r: &Vec<Line>) ensures r@ == lines(*t) { unimplemented!() }
