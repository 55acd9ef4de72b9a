// ---- the output page and its scroll bar ----
// assume: floating point numbers as exact fractions (off by at most one row)
pub struct Fl { pub n: Ghost<int>, pub d: Ghost<int> }
impl Copy for Fl { }
impl Clone for Fl { #[verifier::external_body] fn clone(&self) -> (r: Fl) ensures r == *self { *self } }
pub open spec fn flw(a: Fl) -> bool { a.d@ > 0 }
#[verifier::external_body]
pub fn v_fl(k: usize) -> (r: Fl) ensures r.n@ == k, r.d@ == 1 { unimplemented!() }
#[verifier::external_body]
pub fn v_fl16(k: u16) -> (r: Fl) ensures r.n@ == k, r.d@ == 1 { unimplemented!() }
#[verifier::external_body]
pub fn v_fl_le(a: Fl, b: Fl) -> (r: bool) requires flw(a), flw(b) ensures r == (a.n@ * b.d@ <= b.n@ * a.d@) { unimplemented!() }
#[verifier::external_body]
pub fn v_fl_mul(a: Fl, b: Fl) -> (r: Fl) requires flw(a), flw(b) ensures r.n@ == a.n@ * b.n@, r.d@ == a.d@ * b.d@ { unimplemented!() }
#[verifier::external_body]
pub fn v_fl_div(a: Fl, b: Fl) -> (r: Fl) requires flw(a), flw(b), b.n@ > 0 ensures r.n@ == a.n@ * b.d@, r.d@ == a.d@ * b.n@ { unimplemented!() }
#[verifier::external_body]
pub fn v_fl_less1(a: Fl) -> (r: Fl) requires flw(a) ensures r.n@ == a.n@ - a.d@, r.d@ == a.d@ { unimplemented!() }
#[verifier::external_body]
pub fn v_fl_trunc(a: Fl) -> (r: u16) requires flw(a), a.n@ >= 0 ensures r == least(a.n@ / a.d@, 65535) { unimplemented!() }
//@rule fl_out
outputs_height as f64
//@=>
v_fl(outputs_height)
//@endrule
//@rule fl_16
$e as f64
//@=>
v_fl16($e)
//@endrule
//@rule fl_trunc
$e.trunc() as u16
//@=>
v_fl_trunc($e)
//@endrule
//@rule fl_height
((scroll_area_height * scroll_area_height) / (out_height))
//@=>
v_fl_div(v_fl_mul(scroll_area_height, scroll_area_height), out_height)
//@endrule
//@rule fl_y
(scroll / (out_height - 1.0)) * $e
//@=>
v_fl_mul(v_fl_div(scroll, v_fl_less1(out_height)), $e)
//@endrule
//@rule fl_le
out_height <= scroll_area_height
//@=>
v_fl_le(out_height, scroll_area_height)
//@endrule
//@rule h_min
scroll_area.height.min($e)
//@=>
v_min16(scroll_area.height, $e)
//@endrule
//@rule h_max
height.max($e)
//@=>
v_max16(height, $e)
//@endrule
pub fn v_max16(a: u16, b: u16) -> (r: u16) ensures r == most(a as int, b as int) { if a < b { b } else { a } }
/// rows the bar takes: the share of the page that is seen, at least one, the whole column when all of it is
pub open spec fn bar_rows(h: int, page: int) -> int { if page <= h || page <= 1 { h } else { least(h, most(1, h * h / page)) } }
//@src ogma-shell/interface/outputs.rs
//@known scroll_location Outputs::height Outputs::as_paragraph
//@fn scroll_location
//@params scroll_area outputs_height scroll
    requires screen(scroll_area), outputs_height < 0x1000_0000_0000, scroll < outputs_height || scroll == 0
    ensures
        bar_at(ret, scroll_area, outputs_height as int, scroll as int),
//@head
    let ghost s0 = scroll as int;
    let ghost n0 = outputs_height - 1;
//@tail
    proof { lemma_share(s0, n0, bar_lim as int); }
//@endfn
proof fn lemma_share(s: int, n: int, b: int)
    requires 0 <= s <= n, 0 < n, 0 <= b
    ensures
        0 <= (s * b) / n <= b, s == 0 ==> (s * b) / n == 0, s == n ==> (s * b) / n == b,
        ((s * 1) * b) / ((1 * n) * 1) == (s * b) / n, (s * 1) * b == s * b, (1 * n) * 1 == n,
{
    assert(0 <= s * b <= n * b) by(nonlinear_arith) requires 0 <= s <= n, 0 <= b;
    assert((s * b) / n <= b) by(nonlinear_arith) requires s * b <= n * b, 0 < n;
    assert(0 <= (s * b) / n) by(nonlinear_arith) requires 0 <= s * b, 0 < n;
    if s == n { assert((n * b) / n == b) by(nonlinear_arith) requires 0 < n; }
}
//@rule put
$e.render($a, buf)
//@=>
v_put($e, $a, buf)
//@endrule
#[verifier::external_body]
pub fn v_put<W: Widget>(w: W, a: Rect, buf: &mut Buffer)
    requires inside(a, old(buf).area), w.fine(a)
    ensures final(buf).area == old(buf).area, final(buf).seen@ == old(buf).seen@.push((w.seen(), a))
{ unimplemented!() }
impl Outputs {
//@fn Outputs@Widget::render
//@params self area buf
//@sig fn render(&self, area: Rect, buf: &mut Buffer)
    requires screen(area), inside(area, old(buf).area), self.scroll < 30000, self.scroll <= bottom(total(self.items@)), old(buf).seen@.len() == 0
    ensures
        final(buf).area == old(buf).area,
        ({
            let log = final(buf).seen@;
            let (text, col, bar) = (log[1].1, log[2].1, log[3].1);
            &&& log.len() == 4
            // the newest rows from where the page is scrolled to, left of the scroll bar
            &&& log[0] == (Seen::Wipe, col)
            &&& log[1].0 == Seen::Rows(page(self.items@), self.scroll as int)
            &&& text == (Rect { width: most(area.width - 1, 0) as u16, ..area })
            &&& log[2].0 == Seen::Edge(Some(Color::DarkGray), None) && col.x == text.x + text.width && col.y == area.y && col.height == area.height && rt(col) == rt(area)
            // the bar shows which part of the page that is
            &&& log[3].0 == Seen::Edge(Some(Color::Gray), None) && bar_at(bar, col, total(self.items@) as int, self.scroll as int)
        }),
//@head
    // assume: fewer than 2^44 rows
    proof { assume(total(self.items@) < 0x1000_0000_0000 && total(self.items@) <= usize::MAX); }
//@endfn
}
/// the bar lies in its column, as long as the share seen, at the top when scrolled to the top, at the bottom when scrolled to the bottom
pub open spec fn bar_at(bar: Rect, col: Rect, n: int, s: int) -> bool {
    &&& inside(bar, col) && bar.x == col.x && bar.width == col.width
    &&& bar.height == bar_rows(col.height as int, n)
    &&& s == 0 ==> bar.y == col.y
    &&& n > 1 && s == n - 1 ==> bt(bar) == bt(col)
    &&& n > 1 ==> bar.y == col.y + (s * (col.height - bar.height)) / (n - 1)
}
