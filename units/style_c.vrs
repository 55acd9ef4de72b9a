// assume: tui's Style::add_modifier adds to the attributes switched on and takes from those switched off, remove_modifier the reverse; Option::unwrap_or_default is false for an absent flag; str::replace rewrites every occurrence
#[derive(Clone, Copy)]
pub enum Color { Reset, Black, Red, Green, Yellow, Blue, Magenta, Cyan, Gray, DarkGray, LightRed, LightGreen, LightYellow, LightBlue, LightMagenta, LightCyan, White, Rgb(u8, u8, u8), Indexed(u8) }
/// a set of attributes (tui's bit set, one field per bit)
#[derive(Clone, Copy)]
pub struct Modifier { pub bold: bool, pub dim: bool, pub italic: bool, pub underlined: bool, pub slow: bool, pub rapid: bool, pub reversed: bool, pub hidden: bool, pub crossed: bool }
pub const NOTHING: Modifier = Modifier { bold: false, dim: false, italic: false, underlined: false, slow: false, rapid: false, reversed: false, hidden: false, crossed: false };
pub const M_BOLD: Modifier = Modifier { bold: true, dim: false, italic: false, underlined: false, slow: false, rapid: false, reversed: false, hidden: false, crossed: false };
pub const M_DIM: Modifier = Modifier { bold: false, dim: true, italic: false, underlined: false, slow: false, rapid: false, reversed: false, hidden: false, crossed: false };
pub const M_ITALIC: Modifier = Modifier { bold: false, dim: false, italic: true, underlined: false, slow: false, rapid: false, reversed: false, hidden: false, crossed: false };
pub const M_UNDERLINED: Modifier = Modifier { bold: false, dim: false, italic: false, underlined: true, slow: false, rapid: false, reversed: false, hidden: false, crossed: false };
pub const M_SLOW: Modifier = Modifier { bold: false, dim: false, italic: false, underlined: false, slow: true, rapid: false, reversed: false, hidden: false, crossed: false };
pub const M_RAPID: Modifier = Modifier { bold: false, dim: false, italic: false, underlined: false, slow: false, rapid: true, reversed: false, hidden: false, crossed: false };
pub const M_REVERSED: Modifier = Modifier { bold: false, dim: false, italic: false, underlined: false, slow: false, rapid: false, reversed: true, hidden: false, crossed: false };
pub const M_HIDDEN: Modifier = Modifier { bold: false, dim: false, italic: false, underlined: false, slow: false, rapid: false, reversed: false, hidden: true, crossed: false };
pub const M_CROSSED: Modifier = Modifier { bold: false, dim: false, italic: false, underlined: false, slow: false, rapid: false, reversed: false, hidden: false, crossed: true };
pub open spec fn plus(a: Modifier, b: Modifier) -> Modifier {
    Modifier { bold: a.bold || b.bold, dim: a.dim || b.dim, italic: a.italic || b.italic, underlined: a.underlined || b.underlined, slow: a.slow || b.slow, rapid: a.rapid || b.rapid, reversed: a.reversed || b.reversed, hidden: a.hidden || b.hidden, crossed: a.crossed || b.crossed }
}
pub open spec fn less(a: Modifier, b: Modifier) -> Modifier {
    Modifier { bold: a.bold && !b.bold, dim: a.dim && !b.dim, italic: a.italic && !b.italic, underlined: a.underlined && !b.underlined, slow: a.slow && !b.slow, rapid: a.rapid && !b.rapid, reversed: a.reversed && !b.reversed, hidden: a.hidden && !b.hidden, crossed: a.crossed && !b.crossed }
}
impl Modifier {
    pub fn union(self, b: Modifier) -> (r: Modifier) ensures r == plus(self, b) {
        Modifier { bold: self.bold || b.bold, dim: self.dim || b.dim, italic: self.italic || b.italic, underlined: self.underlined || b.underlined, slow: self.slow || b.slow, rapid: self.rapid || b.rapid, reversed: self.reversed || b.reversed, hidden: self.hidden || b.hidden, crossed: self.crossed || b.crossed }
    }
    pub fn without(self, b: Modifier) -> (r: Modifier) ensures r == less(self, b) {
        Modifier { bold: self.bold && !b.bold, dim: self.dim && !b.dim, italic: self.italic && !b.italic, underlined: self.underlined && !b.underlined, slow: self.slow && !b.slow, rapid: self.rapid && !b.rapid, reversed: self.reversed && !b.reversed, hidden: self.hidden && !b.hidden, crossed: self.crossed && !b.crossed }
    }
    #[verifier::external_body]
    pub fn contains(&self, b: Modifier) -> (r: bool) ensures r == (less(b, *self) == NOTHING) { unimplemented!() }
    pub fn empty() -> (r: Modifier) ensures r == NOTHING { NOTHING }
}
#[derive(Clone, Copy)]
pub struct Style { pub fg: Option<Color>, pub bg: Option<Color>, pub add_modifier: Modifier, pub sub_modifier: Modifier }
pub open spec fn with_mod(s: Style, m: Modifier) -> Style { Style { add_modifier: plus(s.add_modifier, m), sub_modifier: less(s.sub_modifier, m), ..s } }
impl Style {
    pub fn default() -> (r: Style) ensures r == (Style { fg: None, bg: None, add_modifier: NOTHING, sub_modifier: NOTHING }) { Style { fg: None, bg: None, add_modifier: NOTHING, sub_modifier: NOTHING } }
    pub fn add_modifier(self, m: Modifier) -> (r: Style) ensures r == with_mod(self, m) { Style { fg: self.fg, bg: self.bg, add_modifier: self.add_modifier.union(m), sub_modifier: self.sub_modifier.without(m) } }
    pub fn remove_modifier(self, m: Modifier) -> (r: Style) ensures r == (Style { sub_modifier: plus(self.sub_modifier, m), add_modifier: less(self.add_modifier, m), ..self }) { Style { fg: self.fg, bg: self.bg, add_modifier: self.add_modifier.without(m), sub_modifier: self.sub_modifier.union(m) } }
    pub fn fg(self, c: Color) -> (r: Style) ensures r == (Style { fg: Some(c), ..self }) { Style { fg: Some(c), ..self } }
    pub fn bg(self, c: Color) -> (r: Style) ensures r == (Style { bg: Some(c), ..self }) { Style { bg: Some(c), ..self } }
}
pub mod cansi {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub enum Color { Black, Red, Green, Yellow, Blue, Magenta, Cyan, White, BrightBlack, BrightRed, BrightGreen, BrightYellow, BrightBlue, BrightMagenta, BrightCyan, BrightWhite }
    #[derive(Clone, Copy)]
    pub enum Intensity { Normal, Bold, Faint }
    /// a run of text under the same codes
    #[derive(Clone, Copy)]
    pub struct CategorisedSlice<'a> {
        pub text: &'a str, pub start: usize, pub end: usize,
        pub fg: Option<Color>, pub bg: Option<Color>, pub intensity: Option<Intensity>,
        pub italic: Option<bool>, pub underline: Option<bool>, pub blink: Option<bool>, pub reversed: Option<bool>, pub hidden: Option<bool>, pub strikethrough: Option<bool>,
    }
}
pub use cansi::CategorisedSlice as Slice;

// ---- the promise ----
pub open spec fn light(c: Color) -> Color {
    match c {
        Color::White => Color::Black,
        Color::Magenta => Color::LightMagenta,
        Color::LightCyan => Color::Cyan,
        Color::LightRed => Color::Red,
        Color::Yellow => Color::Rgb(210, 105, 30),
        Color::LightYellow => Color::Rgb(255, 140, 0),
        Color::Rgb(r, g, b) => if r == 192 && g == 192 && b == 192 { Color::Rgb(55, 55, 55) } else { c },
        _ => c,
    }
}
pub open spec fn light_opt(c: Option<Color>) -> Option<Color> { match c { Some(c) => Some(light(c)), None => None } }
/// the dark theme (even) leaves a style alone, the light one (odd) changes its colours and nothing else
pub open spec fn in_theme(s: Style, theme: u8) -> Style { if theme % 2 == 0 { s } else { Style { fg: light_opt(s.fg), bg: light_opt(s.bg), ..s } } }
pub open spec fn shown_colour(c: cansi::Color) -> Color {
    match c {
        cansi::Color::Black => Color::Black, cansi::Color::Red => Color::Red, cansi::Color::Green => Color::Green, cansi::Color::Yellow => Color::Yellow,
        cansi::Color::Blue => Color::Blue, cansi::Color::Magenta => Color::Magenta, cansi::Color::Cyan => Color::Cyan, cansi::Color::White => Color::White,
        cansi::Color::BrightBlack => Color::DarkGray, cansi::Color::BrightRed => Color::LightRed, cansi::Color::BrightGreen => Color::LightGreen, cansi::Color::BrightYellow => Color::LightYellow,
        cansi::Color::BrightBlue => Color::LightBlue, cansi::Color::BrightMagenta => Color::LightMagenta, cansi::Color::BrightCyan => Color::LightCyan, cansi::Color::BrightWhite => Color::White,
    }
}
pub open spec fn shown_opt(c: Option<cansi::Color>) -> Option<Color> { match c { Some(c) => Some(shown_colour(c)), None => None } }
/// the look the codes of a slice ask for, before the theme
pub open spec fn look(x: Slice) -> Style {
    Style {
        fg: shown_opt(x.fg), bg: shown_opt(x.bg), sub_modifier: NOTHING,
        add_modifier: Modifier {
            bold: x.intensity == Some(cansi::Intensity::Bold), dim: x.intensity == Some(cansi::Intensity::Faint),
            italic: x.italic == Some(true), underlined: x.underline == Some(true), slow: false, rapid: x.blink == Some(true),
            reversed: x.reversed == Some(true), hidden: x.hidden == Some(true), crossed: x.strikethrough == Some(true),
        },
    }
}
/// every tab replaced by four spaces
pub open spec fn expand(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { expand(s.drop_last()) + (if s.last() == '\t' { seq![' ', ' ', ' ', ' '] } else { seq![s.last()] }) }
}
pub uninterp spec fn replaced(s: Seq<char>, c: char, by: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn v_replace_char(s: &str, c: char, by: &str) -> (r: String)
    ensures c == '\t' && by@ =~= seq![' ', ' ', ' ', ' '] ==> r@ == expand(s@), r@ == replaced(s@, c, by@)
{ unimplemented!() }
/// a piece of a row: what is drawn, how, and the text it stands for
pub struct Span { pub content: String, pub style: Style, pub text: Ghost<Seq<char>> }
pub fn v_span(text: &str, content: String, style: Style) -> (r: Span)
    ensures r.content == content, r.style == style, r.text@ == text@
{ Span { content, style, text: Ghost(text@) } }
pub fn v_flag(x: Option<bool>) -> (r: bool) ensures r == (x == Some(true)) { match x { Some(b) => b, None => false } }
//@rule light_apply
apply::<Light>($e)
//@=>
apply_light($e)
//@endrule
//@rule map_light
$e.map(Th::colour)
//@=>
match $e { Some(__c) => Some(light_colour(__c)), None => None }
//@endrule
//@rule map_light2
$e.map(|$i_c| Th::colour($i_c2))
//@=>
match $e { Some($i_c) => Some(light_colour($i_c2)), None => None }
//@endrule
//@rule map_cnv
$e.map(cnv_colour)
//@=>
match $e { Some(__c) => Some(cnv_colour(__c)), None => None }
//@endrule
//@rule th_colour
Th::colour($e)
//@=>
light_colour($e)
//@endrule
//@rule th_ab
Th::add_bold()
//@=>
light_add_bold()
//@endrule
//@rule th_rb
Th::rm_bold()
//@=>
light_rm_bold()
//@endrule
//@rule th_au
Th::add_underline()
//@=>
light_add_underline()
//@endrule
//@rule th_ru
Th::rm_underline()
//@=>
light_rm_underline()
//@endrule
//@rule mods1
Modifier::BOLD
//@=>
M_BOLD
//@endrule
//@rule mods2
Modifier::DIM
//@=>
M_DIM
//@endrule
//@rule mods3
Modifier::ITALIC
//@=>
M_ITALIC
//@endrule
//@rule mods4
Modifier::UNDERLINED
//@=>
M_UNDERLINED
//@endrule
//@rule mods5
Modifier::SLOW_BLINK
//@=>
M_SLOW
//@endrule
//@rule mods6
Modifier::RAPID_BLINK
//@=>
M_RAPID
//@endrule
//@rule mods7
Modifier::REVERSED
//@=>
M_REVERSED
//@endrule
//@rule mods8
Modifier::HIDDEN
//@=>
M_HIDDEN
//@endrule
//@rule mods9
Modifier::CROSSED_OUT
//@=>
M_CROSSED
//@endrule
//@rule flag
$e.unwrap_or_default()
//@=>
v_flag($e)
//@endrule
//@rule flag2
$e.unwrap_or(false)
//@=>
v_flag($e)
//@endrule
//@rule tab_spaces
$b_s.replace($c, $d)
//@=>
v_replace_char($b_s, $c, $d)
//@endrule
//@rule span_styled
Span::styled($c, $s)
//@=>
v_span(s, $c, $s)
//@endrule
//@rule style_default
Default::default()
//@=>
Style::default()
//@endrule
//@src ogma-shell/interface/theme.rs
//@fn Light@Alter::colour as=light_colour
//@params c
    ensures ret == light(c)
//@endfn
//@fn Light@Alter::add_bold as=light_add_bold
    ensures ret == false
//@endfn
//@fn Light@Alter::rm_bold as=light_rm_bold
    ensures ret == false
//@endfn
//@fn Light@Alter::add_underline as=light_add_underline
    ensures ret == false
//@endfn
//@fn Light@Alter::rm_underline as=light_rm_underline
    ensures ret == false
//@endfn
//@fn apply/apply_mod
//@params style m add rm
    ensures !add && !rm ==> ret == style
//@endfn
//@known apply_mod
//@fn apply as=apply_light
//@params style
//@sig fn apply_light(mut style: Style) -> (ret: Style)
    ensures ret == (Style { fg: light_opt(style.fg), bg: light_opt(style.bg), ..style })
//@endfn
impl Style {
//@fn Style@Theme::theme as=theme
//@params self theme
    ensures ret == in_theme(self, theme)
//@endfn
}
//@src ogma-shell/interface/mod.rs
//@fn cnv_colour
//@params c
    ensures ret == shown_colour(c)
//@endfn
//@fn cnv_span
//@params s slice theme
//@sig fn cnv_span(s: &str, slice: Slice<'_>, theme: u8) -> (ret: Span)
    ensures ret.text@ == s@, ret.content@ == expand(s@), ret.style == in_theme(look(slice), theme)
//@head
    proof { reveal_strlit("    "); assert("    "@ =~= seq![' ', ' ', ' ', ' ']); }
//@endfn
