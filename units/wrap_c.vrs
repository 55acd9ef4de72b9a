//@include text.vrs
// assume: cansi splits a text into lines and a line into slices; slice text is valid UTF-8; display widths are unicode-width's; a line has fewer than 2^60 columns
pub mod unicode_width { pub struct Unused; }
//@stub style_c.vrs
/// a character as it is drawn
pub type Cell = (char, Style);
pub open spec fn paint(s: Seq<char>, x: Style) -> Seq<Cell> { s.map_values(|c: char| (c, x)) }
/// the lines of a text, each a list of equally styled pieces, in the look their codes ask for under a theme
pub uninterp spec fn pieces(s: Seq<char>, theme: u8) -> Seq<Seq<Seq<Cell>>>;
pub open spec fn piece(x: Slice, theme: u8) -> Seq<Cell> { paint(x.text@, in_theme(look(x), theme)) }
pub uninterp spec fn uw(c: char) -> nat;
/// columns a character is drawn in (a tab as four spaces)
pub open spec fn chw(c: char) -> nat { if c == '\t' { 4 } else { uw(c) } }
pub open spec fn wide(s: Seq<Cell>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { wide(s.drop_last()) + chw(s.last().0) } }
pub open spec fn cat(s: Seq<Seq<Cell>>) -> Seq<Cell> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last() } }
pub open spec fn flat<A>(s: Seq<Seq<A>>) -> Seq<A> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() } }
#[verifier::external_body]
pub fn v_lines<'a>(s: &'a str, theme: u8) -> (r: Vec<Vec<Slice<'a>>>)
    ensures r@.len() == pieces(s@, theme).len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.len() == pieces(s@, theme)[i].len(),
        forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@[i]@.len() ==> piece(#[trigger] r@[i]@[j], theme) =~= pieces(s@, theme)[i][j], forall|i: int| 0 <= i < r@.len() ==> wide(cat(#[trigger] pieces(s@, theme)[i])) < usize::MAX / 16,
{ unimplemented!() }
#[verifier::external_body]
pub fn v_width(c: char) -> (r: usize) ensures r == uw(c), r <= 2 { unimplemented!() }
#[verifier::external_body]
pub fn v_ends_nl(s: &str) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == '\n') { unimplemented!() }
/// what a piece of a row stands for, with its look (drawn with its tabs expanded: see S11)
pub open spec fn said(s: Span) -> Seq<Cell> { paint(s.text@, s.style) }
#[verifier::external_body]
pub fn v_empty_span() -> (r: Span) ensures r.text@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn v_sub<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b, is_bnd(s@, a as int), is_bnd(s@, b as int)
    ensures forall|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] bidx(s@, i) == a && #[trigger] bidx(s@, j) == b ==> r@ == s@.subrange(i, j)
{ unimplemented!() }
pub struct Row { pub spans: Vec<Span> }
pub open spec fn row(r: Row) -> Seq<Cell> { cat(r.spans@.map_values(|x: Span| said(x))) }
pub open spec fn rows(v: Seq<Row>) -> Seq<Seq<Cell>> { v.map_values(|x: Row| row(x)) }
pub struct Text<'a> { pub lines: Vec<Row>, pub m: std::marker::PhantomData<&'a u8> }
//@rule lines_loop
for $i_l in self::cansi::line_iter(&self::cansi::categorise_text(s)) { $s_body }
//@=>
{ let __ls = v_lines(s, theme); let mut __k: usize = 0; while __k < __ls.len() { let $i_l = &__ls[__k]; __k += 1; $s_body } }
//@endrule
//@rule slices_loop
for $i_s in line { $s_body }
//@=>
{ let mut __j: usize = 0; while __j < line.len() { let $i_s = line[__j]; __j += 1; $s_body } }
//@endrule
//@rule chars_loop2
for $i_c in slice.text.chars() { $s_body }
//@=>
{ let __cs = v_char_vec(slice.text); let mut __i: usize = 0; while __i < __cs.len() { let $i_c = __cs[__i]; $s_body __i += 1; } }
//@endrule
//@rule width_of
$b_c.width().unwrap_or(0)
//@=>
v_width($b_c)
//@endrule
//@rule width_of2
unicode_width::UnicodeWidthChar::width($e).unwrap_or(0)
//@=>
v_width($e)
//@endrule
//@rule sub_slice
&slice.text[$a..$b]
//@=>
v_sub(slice.text, $a, $b)
//@endrule
//@rule spans_from_one
Spans::from(vec![Span::from("")])
//@=>
v_row_empty()
//@endrule
//@rule spans_from
Spans::from($e)
//@=>
Row { spans: $e }
//@endrule
//@rule ends_nl
s.ends_with('\n')
//@=>
v_ends_nl(s)
//@endrule
//@rule vec_empty
vec![]
//@=>
Vec::<Span>::new()
//@endrule
//@rule lines_new
Vec::new()
//@=>
v_new_vec()
//@endrule
//@rule lines_into
lines.into()
//@=>
Text { lines: lines, m: std::marker::PhantomData }
//@endrule
pub fn v_new_vec<T>() -> (r: Vec<T>) ensures r@.len() == 0 { Vec::new() }
#[verifier::external_body]
pub fn v_char_vec(s: &str) -> (r: Vec<char>) ensures r@ == s@, blen(s@) <= usize::MAX { unimplemented!() }
pub fn v_row_empty() -> (r: Row) ensures row(r) == Seq::<Cell>::empty() {
    let mut v = Vec::new(); v.push(v_empty_span());
    let r = Row { spans: v };
    proof { let z = Seq::<Span>::empty(); lemma_spans_push(z, r.spans@.last()); assert(r.spans@ =~= z.push(r.spans@.last())); assert(z.map_values(|y: Span| said(y)) =~= Seq::<Seq<Cell>>::empty()); assert(row(r) =~= Seq::<Cell>::empty()); }
    r
}
/// one row does not exceed the columns unless it is a single character
pub open spec fn fits_row(r: Seq<Cell>, width: int) -> bool { wide(r) <= width || r.len() <= 1 }
/// the rows g show exactly line l
pub open spec fn shows(g: Seq<Seq<Cell>>, l: Seq<Cell>, width: int) -> bool {
    &&& g.len() > 0 && cat(g) =~= l
    &&& forall|i: int| 0 <= i < g.len() ==> fits_row(#[trigger] g[i], width)
}
/// the text of a list of spans
pub open spec fn told(v: Seq<Span>) -> Seq<Cell> { cat(v.map_values(|x: Span| said(x))) }
/// every line of text s, in order, shown in one or more rows that fit, nothing added or lost; a trailing newline shows one empty row
pub open spec fn split(g: Seq<Seq<Seq<Cell>>>, r: Seq<Seq<Cell>>, s: Seq<char>, width: int, theme: u8) -> bool {
    &&& r =~= flat(g)
    &&& g.len() == pieces(s, theme).len() + (if s.len() > 0 && s.last() == '\n' { 1int } else { 0 })
    &&& forall|k: int| 0 <= k < pieces(s, theme).len() ==> shows(#[trigger] g[k], cat(pieces(s, theme)[k]), width)
    &&& g.len() > pieces(s, theme).len() ==> g.last() =~= seq![Seq::<Cell>::empty()]
}
proof fn lemma_wide_add(a: Seq<Cell>, b: Seq<Cell>) ensures wide(a + b) == wide(a) + wide(b) decreases b.len()
{ if b.len() > 0 { lemma_wide_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); } else { assert(a + b =~= a); } }
proof fn lemma_wide_cat(s: Seq<Seq<Cell>>, k: int) requires 0 <= k <= s.len() ensures wide(cat(s.subrange(0, k))) <= wide(cat(s)) decreases s.len() - k
{ if k < s.len() { lemma_wide_cat(s, k + 1); assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k)); lemma_wide_add(cat(s.subrange(0, k)), s[k]); } else { assert(s.subrange(0, k) =~= s); } }
proof fn lemma_cat_push(s: Seq<Seq<Cell>>, x: Seq<Cell>) ensures cat(s.push(x)) == cat(s) + x { assert(s.push(x).drop_last() =~= s); }
proof fn lemma_flat_push<A>(s: Seq<Seq<A>>, x: Seq<A>) ensures flat(s.push(x)) == flat(s) + x { assert(s.push(x).drop_last() =~= s); }
proof fn lemma_wide_push(s: Seq<Cell>, c: Cell) ensures wide(s.push(c)) == wide(s) + chw(c.0) { assert(s.push(c).drop_last() =~= s); }
proof fn lemma_spans_push(v: Seq<Span>, x: Span) ensures cat(v.push(x).map_values(|y: Span| said(y))) == cat(v.map_values(|y: Span| said(y))) + said(x)
{ assert(v.push(x).map_values(|y: Span| said(y)) =~= v.map_values(|y: Span| said(y)).push(said(x))); lemma_cat_push(v.map_values(|y: Span| said(y)), said(x)); }
proof fn lemma_rows_push(v: Seq<Row>, x: Row) ensures rows(v.push(x)) =~= rows(v).push(row(x)) {}

//@src ogma-shell/interface/mod.rs
//@known char_width cnv_span
//@fn char_width
//@params ch
    ensures ret == chw(ch), ret <= 4
//@endfn
//@fn convert_coloured_str
//@params s width theme
    ensures exists|g: Seq<Seq<Seq<Cell>>>| split(g, rows(ret.lines@), s@, width as int, theme)
//@head
    let ghost mut g: Seq<Seq<Seq<Cell>>> = Seq::empty(); let ghost mut la = Seq::<Row>::empty();
//@before 0
    proof { assert(flat(g) =~= Seq::<Seq<Cell>>::empty()); assert(rows(lines@) =~= flat(g)); }
//@loop 0
        invariant 0 <= __k <= __ls.len(), __ls@.len() == pieces(s@, theme).len(), g.len() == __k,
            forall|i: int| 0 <= i < __ls@.len() ==> (#[trigger] __ls@[i])@.len() == pieces(s@, theme)[i].len(),
            forall|i: int, j: int| 0 <= i < __ls@.len() && 0 <= j < __ls@[i]@.len() ==> piece(#[trigger] __ls@[i]@[j], theme) =~= pieces(s@, theme)[i][j],
            forall|i: int| 0 <= i < __ls@.len() ==> wide(cat(#[trigger] pieces(s@, theme)[i])) < usize::MAX / 16,
            rows(lines@) =~= flat(g),
            forall|k: int| 0 <= k < __k ==> shows(#[trigger] g[k], cat(pieces(s@, theme)[k]), width as int),
        decreases __ls.len() - __k
//@before 1
        proof { assert(cat(h) =~= Seq::<Cell>::empty()); assert(told(spans@) =~= Seq::<Cell>::empty()); assert(ps.subrange(0, 0) =~= Seq::<Seq<Cell>>::empty()); }
//@loop 1
            invariant 0 <= __j <= line@.len(), ps.len() == line@.len(), wide(cat(ps)) < usize::MAX / 16,
                forall|j: int| 0 <= j < line@.len() ==> piece(#[trigger] line@[j], theme) =~= ps[j],
                rows(lines@) =~= flat(g) + h,
                forall|k: int| 0 <= k < h.len() ==> fits_row(#[trigger] h[k], width as int),
                cat(h) + told(spans@) =~= cat(ps.subrange(0, __j as int)),
                w == wide(told(spans@)), fits_row(told(spans@), width as int),
            decreases line.len() - __j
//@before 2
            let ghost mut a: int = 0;
            let ghost tx = slice.text@; let ghost px = piece(slice, theme);
            let ghost sofar = cat(ps.subrange(0, __j - 1));
            proof { assert(told(spans@) + px.subrange(0, 0) =~= told(spans@)); assert(sofar + px.subrange(0, 0) =~= sofar); assert(ps.subrange(0, __j as int) =~= ps.subrange(0, __j - 1).push(px)); lemma_cat_push(ps.subrange(0, __j - 1), px); lemma_wide_cat(ps, __j as int); }
//@loop 2
                invariant 0 <= __i <= __cs@.len(), __cs@ == tx, tx == slice.text@, px == piece(slice, theme), px.len() == tx.len(), wide(sofar + px) < usize::MAX / 16, 0 <= a <= __i, blen(tx) <= usize::MAX,
                    i == bidx(tx, __i as int), start == bidx(tx, a),
                    rows(lines@) =~= flat(g) + h,
                    forall|k: int| 0 <= k < h.len() ==> fits_row(#[trigger] h[k], width as int),
                    cat(h) + (told(spans@) + px.subrange(a, __i as int)) =~= sofar + px.subrange(0, __i as int),
                    w == wide(told(spans@) + px.subrange(a, __i as int)),
                    fits_row(told(spans@) + px.subrange(a, __i as int), width as int),
                decreases __cs@.len() - __i
//@loophead 2
                let ghost lines0 = lines@; let ghost row0 = told(spans@) + px.subrange(a, __i as int); let ghost a0 = a; let ghost k0 = __i as int;
                let ghost spans0 = spans@; let ghost c0 = px[k0];
                proof {
                    lemma_wide_push(row0, c0); lemma_wide_add(sofar + px.subrange(0, k0), px.subrange(k0, tx.len() as int)); assert(sofar + px.subrange(0, k0) + px.subrange(k0, tx.len() as int) =~= sofar + px); lemma_wide_add(cat(h), row0); assert(cat(h) + row0 =~= sofar + px.subrange(0, k0)); lemma_bidx_order(tx);
                    assert(is_bnd(tx, start as int)); assert(is_bnd(tx, i as int));
                    lemma_bidx_mono(tx, a, k0); lemma_bidx_mono(tx, k0 + 1, tx.len() as int);
                    assert(told(spans@) + px.subrange(a, k0 + 1) =~= row0.push(c0));
                    assert(sofar + px.subrange(0, k0 + 1) =~= (sofar + px.subrange(0, k0)).push(c0));
                }
//@looptail 2
                proof {
                    if lines@.len() > lines0.len() {
                        lemma_spans_push(spans0, lines@.last().spans@.last());
                        assert(lines@ =~= lines0.push(lines@.last()));
                        lemma_rows_push(lines0, lines@.last());
                        assert(lines@.last().spans@ =~= spans0.push(lines@.last().spans@.last()));
                        assert(row(lines@.last()) == row0);
                        lemma_cat_push(h, row0);
                        h = h.push(row0);
                        a = k0;
                        assert(told(spans@) =~= Seq::<Cell>::empty());
                        assert(px.subrange(k0, k0 + 1) =~= Seq::<Cell>::empty().push(c0));
                        lemma_wide_push(Seq::<Cell>::empty(), c0);
                        assert(told(spans@) + px.subrange(a, k0 + 1) =~= Seq::<Cell>::empty().push(c0));
                    } else {
                        assert(told(spans@) + px.subrange(a, k0 + 1) =~= row0.push(c0));
                    }
                }
//@loophead 0
        let ghost mut h: Seq<Seq<Cell>> = Seq::empty();
        let ghost ps = pieces(s@, theme)[__k as int];
        let ghost mut lb = lines@; let ghost mut fin = Seq::<Cell>::empty(); let ghost mut fs = Seq::<Span>::empty();
//@loophead 1
            let ghost mut bef = spans@; let ghost mut rest = Seq::<Cell>::empty();
//@after 2
            proof {
                bef = spans@; rest = px.subrange(a, tx.len() as int);
                assert(px.subrange(0, tx.len() as int) =~= px);
                assert(is_bnd(tx, i as int)); assert(is_bnd(tx, start as int));
                lemma_bidx_mono(tx, a, tx.len() as int);
                assert(cat(ps.subrange(0, __j as int)) == sofar + px);
            }
//@looptail 1
            proof {
                assert(said(spans@.last()) == rest);
                lemma_spans_push(bef, spans@.last());
                assert(spans@ =~= bef.push(spans@.last()));
                assert(told(spans@) == told(bef) + rest);
            }
//@after 1
        proof { lb = lines@; fs = spans@; fin = told(spans@); assert(ps.subrange(0, ps.len() as int) =~= ps); }
//@looptail 0
        proof {
            assert(lines@ =~= lb.push(lines@.last()));
            assert(row(lines@.last()) == fin);
            lemma_rows_push(lb, lines@.last());
            lemma_cat_push(h, fin);
            let g0 = g;
            let hh = h.push(fin);
            assert(shows(hh, cat(ps), width as int));
            lemma_flat_push(g, hh);
            g = g.push(hh);
        }
//@after 0
    proof { la = lines@; }
//@tail
    proof {
        if __vret.lines@.len() > la.len() {
            assert(__vret.lines@ =~= la.push(__vret.lines@.last()));
            lemma_rows_push(la, __vret.lines@.last());
            let e = seq![Seq::<Cell>::empty()];
            lemma_flat_push(g, e);
            g = g.push(e);
            assert(row(__vret.lines@.last()) == Seq::<Cell>::empty());
        }
        assert(split(g, rows(__vret.lines@), s@, width as int, theme));
    }
//@endfn
