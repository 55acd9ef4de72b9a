//@rule get_of_row
table_row_get($a, $b, $c, $d)
//@=>
table_row_get($a, $b, $c, $d, w)
//@endrule
//@rule row_given
input.resolve(|| $v, &cx)
//@=>
v_resolve_row(&input, $v, &cx, w)
//@endrule
//@rule put_cell
fmt_cell($a, $b, $c)
//@=>
csv_put($a, $b, $c)
//@endrule
//@rule col_add
$b_t.add_col(once($e))
//@=>
$b_t.v_add_head(v_into($e))
//@endrule
//@rule for_names
for $p_x in &names { $s_body }
//@=>
{ let mut __k: usize = 0; while __k < names.len() { let $p_x = &names[__k]; $s_body __k += 1; } }
//@endrule
//@rule one_col
vec![vec![$e]]
//@=>
v_grid($e)
//@endrule
//@rule one_cell
vec![$e]
//@=>
v_row($e)
//@endrule
//@rule each_par
($a..$b).into_par_iter().map(|$p_x| $e)
//@=>
{ let mut __o: Vec<Vec<Entry>> = Vec::new(); let __to = $b; let mut __at = $a; while __at < __to { let $p_x = __at; __o.push($e); __at += 1; } __o }
//@endrule
//@rule each_seq
($a..$b).map(|$p_x| $e)
//@=>
{ let mut __o: Vec<Vec<Entry>> = Vec::new(); let __to = $b; let mut __at = $a; while __at < __to { let $p_x = __at; __o.push($e); __at += 1; } __o }
//@endrule
//@rule extend_par
t.par_extend($e)
//@=>
v_append(&mut t, $e)
//@endrule
//@rule extend
t.extend($e)
//@=>
v_append(&mut t, $e)
//@endrule
//@rule num_cell
n($e)
//@=>
num_cell($e)
//@endrule
//@rule ty_differs
&$a != x.out_ty()
//@=>
!v_ty_eq(&$a, x.out_ty())
//@endrule
//@rule by_fmt
$b_o.clone().as_mut().map(|$i_f| $e)
//@=>
match v_fmt(&$b_o) { Some(mut $i_f) => Some($e), None => None }
//@endrule
//@rule or_text
$r.unwrap_or_else(|| $d)
//@=>
match $r { Some(__v) => __v, None => $d }
//@endrule
//@rule bool_string
<bool as Cast>::cast($e)?.to_string()
//@=>
v_bool_string(<bool as Cast>::cast($e)?)
//@endrule
//@rule text_of
$b_f.fmt($e).to_string()
//@=>
$b_f.v_fmt_string($e)
//@endrule
//@rule num_string
n.to_string()
//@=>
v_num_string(&n)
//@endrule
//@rule fmt_cell
print::fmt_cell($e, $f)
//@=>
fmt_cell($e, $f)
//@endrule
//@rule default_fmtr
numfmt::Formatter::default()
//@=>
Formatter::default()
//@endrule
//@rule use_numfmt stmt
use ::numfmt::*;
//@=>
//@endrule
//@rule mk_fmtr stmt
let fmtr = &mut $e;
//@=>
let mut __f = $e; let fmtr = &mut __f;
//@endrule
//@rule or_in stmt
$i_x |= $e;
//@=>
$i_x = $i_x || $e;
//@endrule
//@rule any_of
$b_s.contains(&$e as &[_])
//@=>
v_has_any(&$b_s, &$e)
//@endrule
//@rule put_quoted
write!($w, "\"{}\"", $s.escape_debug())
//@=>
$w.v_quoted(&$s)
//@endrule
//@rule put_text
write!($w, "{}", $s)
//@=>
$w.v_text(&$s)
//@endrule
//@rule put_comma
write!($w, ",")
//@=>
$w.v_char(',')
//@endrule
//@rule put_line
writeln!($w)
//@=>
$w.v_char('\n')
//@endrule
//@rule for_rows
for $p_r in table.rows() { $s_body }
//@=>
{ let mut __r: usize = 0; while __r < table.rows_len() { let $p_r = table.row(__r).unwrap(); $s_body __r += 1; } }
//@endrule
//@rule for_cells
for $p_e in row { $s_body }
//@=>
{ let __es = row.refs(); let mut __c: usize = 0; while __c < __es.len() { let $p_e = __es[__c]; $s_body __c += 1; } }
//@endrule
//@include cells.rules
//@include values.vrs
//@stub rows_c.vrs
//@stub cells_c.vrs
// --- making tables ---
impl To<Number> for u128 { open spec fn to(self) -> Number { num_of(self as nat) } #[verifier::external_body] fn v_to(self) -> Number { unimplemented!() } }
#[verifier::external_body] pub fn v_append(t: &mut Vec<Vec<Entry>>, o: Vec<Vec<Entry>>) ensures final(t)@ == old(t)@ + o@ { unimplemented!() }
pub fn v_row(e: Entry) -> (r: Vec<Entry>) ensures r@ == seq![e] { let mut v: Vec<Entry> = Vec::new(); v.push(e); assert(v@ =~= seq![e]); v }
pub fn v_grid(e: Entry) -> (r: Vec<Vec<Entry>>) ensures r@.len() == 1, r@[0]@ == seq![e] { let mut v: Vec<Vec<Entry>> = Vec::new(); v.push(v_row(e)); v }
impl Table {
    // assume: the table crate's add_col puts a column of one cell at the right of a table with at most one row
    #[verifier::external_body] pub fn v_add_head(&mut self, e: Entry)
        requires old(self)@.len() <= 1
        ensures final(self)@ == seq![(if old(self)@.len() == 0 { Seq::empty() } else { old(self)@[0] }).push(e)], final(self).width() == old(self).width() + 1
    { unimplemented!() }
}
//@src ogma/src/lang/impls/intrinsics/mod.rs
//@fn o
//@sig fn o<S: To<Str>>(s: S) -> (ret: Entry)
    ensures ret == Entry::Obj(Value::Str(s.to()))
//@endfn
//@fn n as=num_cell
//@sig fn num_cell<N: To<Number>>(n: N) -> (ret: Entry)
    ensures ret == Entry::Num(n.to())
//@endfn
//@src ogma/src/lang/impls/intrinsics/pipeline.rs
//@known cnv_num_to_uint
/// the table of one column `i` with the whole numbers from the first up to the last
pub open spec fn numbers(t: Seq<RowS>, from: nat, to: nat) -> bool {
    t.len() == 1 + (if to > from { to - from } else { 0 }) && t[0].len() == 1 && titled(t[0][0], "i"@)
    && forall|k: int| 1 <= k < t.len() ==> #[trigger] t[k] == seq![Entry::Num(num_of((from + k - 1) as nat))]
}
//@fn range_intrinsic/table_range
//@sig fn table_range(from: u128, to: u128) -> (ret: Table)
    ensures numbers(ret@, from as nat, to as nat)
//@loop 0
    invariant
        __at == from + __o@.len(), __to == to, __at <= to || __o@.len() == 0,
        forall|k: int| 0 <= k < __o@.len() ==> (#[trigger] __o@[k])@ == seq![Entry::Num(num_of((from + k) as nat))],
    decreases to - __at
//@head
    broadcast use str_of_chars;
    proof { assert forall|x: Seq<RowS>| rect(x, 1) implies x == #[trigger] filled(x, widest(x)) by { plain(x, 1); } }
//@tail
    proof { assert(rect(raw(t), 1)); assert(__vret@ == raw(t)); }
//@endfn
//@closure range_intrinsic eval_o:0 as=range_to_input
//@params input cx
//@sig fn range_to_input(input: Value, cx: Context, from: &Argument, blktag: &Tag, w: &mut World) -> (ret: Result<(Table, Environment)>)
    ensures
        one(*old(w), *final(w), *from, input, cx),
        ret is Ok ==> given(*final(w)) is Some && index(input) is Some && numbers(ret->Ok_0.0@, given(*final(w))->Some_0, index(input)->Some_0) && ret->Ok_0.1 == cx.env,
        ret is Err ==> huge(given(*final(w))) || huge(index(input)),
//@endfn
//@closure range_intrinsic eval_o:1 as=range_both
//@params input cx
//@sig fn range_both(input: Value, cx: Context, from: &Argument, to: &Argument, w: &mut World) -> (ret: Result<(Table, Environment)>)
    ensures
        grows(*old(w), *final(w)), final(w).log@.len() > old(w).log@.len(),
        ret is Ok ==> ret->Ok_0.1 == cx.env && final(w).log@.len() == old(w).log@.len() + 2
            && whole(final(w).log@[old(w).log@.len() as int], *from, cx.env, input) is Some && whole(final(w).log@.last(), *to, cx.env, input) is Some
            && numbers(ret->Ok_0.0@, whole(final(w).log@[old(w).log@.len() as int], *from, cx.env, input)->Some_0, whole(final(w).log@.last(), *to, cx.env, input)->Some_0),
        ret is Err ==> huge(given(*final(w))),
//@endfn
/// the whole number an argument gave for the input
pub open spec fn whole(c: Call, a: Argument, e: Environment, i: Value) -> Option<nat> { if on_call(c, a, e, i) && c.o is Some { index(c.o->Some_0) } else { None } }
/// no whole number, or one beyond the machine's
pub open spec fn huge(n: Option<nat>) -> bool { n is None || n->Some_0 > u128::MAX }
/// the names were evaluated on the input, one after the other, giving the header
pub open spec fn heading(o: World, n: World, names: Seq<Argument>, e: Environment, i: Value, h: RowS, k: int) -> bool {
    h.len() == k && n.log@.len() == o.log@.len() + k && forall|j: int| 0 <= j < k ==> head_cell(n.log@[o.log@.len() + j], names[j], e, i, #[trigger] h[j])
}
pub open spec fn head_cell(c: Call, a: Argument, e: Environment, i: Value, h: Entry) -> bool { c.a == a.id && c.e == e@ && c.i == i && c.o is Some && h == entry_of(c.o->Some_0) }
pub open spec fn only(t: Seq<RowS>, h: RowS) -> bool { if h.len() == 0 { t.len() == 0 } else { t == seq![h] } }
//@closure table_intrinsic eval_o:0 as=table_made
//@params i cx
//@sig fn table_made(i: Value, cx: Context, names: &Vec<Argument>, w: &mut World) -> (ret: Result<(Table, Environment)>)
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> ret->Ok_0.1 == cx.env && exists|h: RowS| only(ret->Ok_0.0@, h) && #[trigger] heading(*old(w), *final(w), names@, cx.env, i, h, names@.len() as int),
        ret is Err ==> failed(*old(w), *final(w)),
//@head
    let ghost mut h: RowS = Seq::empty();
//@loop 0
    invariant
        __k <= names@.len(), grows(*old(w), *w), heading(*old(w), *w, names@, cx.env, i, h, __k as int), only(t@, h),
    decreases names@.len() - __k
//@loophead 0
    let ghost h0 = h;
    let ghost w0 = *w;
//@looptail 0
    proof {
        h = h0.push(entry_of(w.log@.last().o->Some_0));
        assert(h0.len() == 0 ==> h0 =~= Seq::<Entry>::empty());
        assert(t@ =~= seq![h]);
    }
//@tail
    proof { if __vret is Ok { assert(heading(*old(w), *w, names@, cx.env, i, h, names@.len() as int)); } }
//@endfn
// --- texts ---
pub uninterp spec fn own_text(n: Number) -> Seq<char>;
#[verifier::external_body] pub fn v_num_string(n: &Number) -> (r: String) ensures r@ == own_text(*n) { unimplemented!() }
#[verifier::external_body] pub fn v_bool_string(b: bool) -> (r: String) ensures r@ == bool_text(b) { unimplemented!() }
#[verifier::external_body] pub fn v_fmt(f: &Option<Formatter>) -> (r: Option<Formatter>) ensures r is Some == *f is Some, r is Some ==> r->Some_0.style() == f->Some_0.style() { unimplemented!() }
impl Formatter { #[verifier::external_body] pub fn v_fmt_string(&mut self, x: NumF) -> (r: String) ensures r@ == num_text(old(self).style(), x), final(self).style() == old(self).style() { unimplemented!() } }
//@closure to_str_bool_intrinsic eval_o:0 as=bool_to_str
//@params v c
//@sig fn bool_to_str(v: Value, c: Context) -> (ret: Result<(Str, Environment)>)
    ensures ret is Ok == (v is Bool), ret is Ok ==> ret->Ok_0.0@ == bool_text(v->Bool_0) && ret->Ok_0.1 == c.env
//@endfn
//@closure to_str_num_intrinsic eval_o:0 as=num_to_str
//@params v cx
//@sig fn num_to_str(v: Value, cx: Context, fmt: &Option<Formatter>) -> (ret: Result<(Str, Environment)>)
    ensures
        ret is Ok == (v is Num), ret is Ok ==> ret->Ok_0.1 == cx.env,
        ret is Ok ==> ret->Ok_0.0@ == if *fmt is Some { num_text(fmt->Some_0.style(), num_f(v->Num_0)) } else { own_text(v->Num_0) },
//@endfn
//@closure to_str_str_intrinsic eval_o:0 as=str_to_str
//@params v c
//@sig fn str_to_str(v: Value, c: Context) -> (ret: Result<(Str, Environment)>)
    ensures ret is Ok == (v is Str), ret is Ok ==> ret->Ok_0.0 == v->Str_0 && ret->Ok_0.1 == c.env
//@endfn
//@closure to_str_intrinsic eval_o:0 as=any_to_str
//@params v cx
//@sig fn any_to_str(v: Value, cx: Context) -> (ret: Result<(Str, Environment)>)
    ensures ret is Ok, ret->Ok_0.0@ == cell_by(usual_style(), entry_of(v)), ret->Ok_0.1 == cx.env
//@endfn
// --- reading a cell of a row ---
//@item TableGetType
impl TableGetType {
//@fn TableGetType::ty
//@sig fn ty(&self) -> (ret: &Type)
    ensures *ret == match *self { TableGetType::Default(x) => x.out_ty, TableGetType::Flag(x) => x }
//@endfn
}
/// the row's cell in the first column so named
pub open spec fn cell_at(r: TableRow, h: Seq<char>, v: Value) -> bool {
    exists|c: nat| #[trigger] col_of(r.table@, h, c) && c < r.table@[r.idx as int].len() && v == val_of(r.table@[r.idx as int][c as int])
}
//@fn table_row_get
//@sig fn table_row_get(trow: &TableRow, colarg: &Argument, ty: &TableGetType, cx: Context, w: &mut World) -> (ret: Result<(Value, Environment)>)
    requires row_wf(*trow)
    ensures
        grows(*old(w), *final(w)), final(w).log@.len() > old(w).log@.len(),
        on_call(final(w).log@[old(w).log@.len() as int], *colarg, cx.env, Value::Nil),
        ret is Ok ==> ret->Ok_0.1 == cx.env && col_name(*old(w), *final(w)) is Some,
        ret is Ok && *ty is Flag ==> cell_at(*trow, col_name(*old(w), *final(w))->Some_0, ret->Ok_0.0) && ty_of(ret->Ok_0.0) == ty->Flag_0,
        ret is Ok && *ty is Default ==> exists|v: Value| #[trigger] cell_at(*trow, col_name(*old(w), *final(w))->Some_0, v) && if ty_of(v) == ty->Default_0.out_ty { ret->Ok_0.0 == v } else { on_val(final(w).log@.last(), ty->Default_0, cx.env, Value::Nil, ret->Ok_0.0) },
        ret is Err ==> final(w).log@.last().o is None || col_name(*old(w), *final(w)) is None || col_less(trow.table@, col_name(*old(w), *final(w))->Some_0)
            || (*ty is Flag && exists|v: Value| #[trigger] cell_at(*trow, col_name(*old(w), *final(w))->Some_0, v) && ty_of(v) != ty->Flag_0),
//@head
    proof {
        trow.table.rect();
        assert forall|h: Seq<char>, c: nat| #[trigger] col_of(trow.table@, h, c) && c < trow.table@[trow.idx as int].len() implies cell_at(*trow, h, val_of(trow.table@[trow.idx as int][c as int])) by {}
    }
//@tail
    proof {
        if __vret is Ok && *ty is Default {
            let h = col_name(*old(w), *w)->Some_0;
            let c = choose|c: nat| #[trigger] col_of(trow.table@, h, c);
            assert(cell_at(*trow, h, val_of(trow.table@[trow.idx as int][c as int])));
        }
    }
//@endfn
pub open spec fn on_call(c: Call, a: Argument, e: Environment, i: Value) -> bool { c.a == a.id && c.e == e@ && c.i == i }
/// the column name given
pub open spec fn col_name(o: World, n: World) -> Option<Seq<char>> { match n.log@[o.log@.len() as int].o { Some(Value::Str(s)) => Some(s@), _ => None } }
//@closure get_tabrow_intrinsic eval:0 as=get_cell
//@params x cx
//@sig fn get_cell(x: Value, cx: Context, colarg: &Argument, get_type: &TableGetType, w: &mut World) -> (ret: Result<(Value, Environment)>)
    requires x is TabRow ==> row_wf(x->TabRow_0)
    ensures
        ret is Ok ==> x is TabRow && ret->Ok_0.1 == cx.env && col_name(*old(w), *final(w)) is Some,
        ret is Ok && *get_type is Flag ==> cell_at(x->TabRow_0, col_name(*old(w), *final(w))->Some_0, ret->Ok_0.0) && ty_of(ret->Ok_0.0) == get_type->Flag_0,
        ret is Ok && *get_type is Default ==> exists|v: Value| #[trigger] cell_at(x->TabRow_0, col_name(*old(w), *final(w))->Some_0, v) && if ty_of(v) == get_type->Default_0.out_ty { ret->Ok_0.0 == v } else { on_val(final(w).log@.last(), get_type->Default_0, cx.env, Value::Nil, ret->Ok_0.0) },
//@endfn
// assume: a row an expression gives is one of its table (every maker of rows is checked for that)
#[verifier::external_body]
pub fn v_resolve_row(a: &Argument, v: Value, cx: &Context, w: &mut World) -> (r: Result<Value>)
    ensures
        final(w).log@ == old(w).log@.push(Call { a: a.id, i: v, e: cx.env@, o: if r is Ok { Some(r->Ok_0) } else { None } }),
        r is Ok ==> ty_of(r->Ok_0) == a.out_ty, r is Ok && r->Ok_0 is TabRow ==> row_wf(r->Ok_0->TabRow_0),
{ unimplemented!() }
//@closure DotOperatorBlock::intrinsic eval:0 as=dot_cell
//@params lhs_input cx
//@sig fn dot_cell(lhs_input: Value, cx: Context, input: &Argument, colarg: &Argument, ty: &TableGetType, w: &mut World) -> (ret: Result<(Value, Environment)>)
    ensures
        grows(*old(w), *final(w)), final(w).log@.len() > old(w).log@.len(),
        on_call(final(w).log@[old(w).log@.len() as int], *input, cx.env, lhs_input),
        ret is Ok ==> ret->Ok_0.1 == cx.env && final(w).log@.len() > old(w).log@.len() + 1 && on_call(final(w).log@[old(w).log@.len() as int + 1], *colarg, cx.env, Value::Nil),
        ret is Ok && *ty is Flag ==> ({ let r = final(w).log@[old(w).log@.len() as int].o; let h = final(w).log@[old(w).log@.len() as int + 1].o;
            r is Some && r->Some_0 is TabRow && h is Some && h->Some_0 is Str && cell_at(r->Some_0->TabRow_0, h->Some_0->Str_0@, ret->Ok_0.0) && ty_of(ret->Ok_0.0) == ty->Flag_0 }),
//@endfn
// --- saving ---
#[verifier::external_body] pub struct IoError { p: u8 }
#[verifier::external_body] pub struct Out { p: u8 }
/// a text in the escapes of str::escape_debug
pub uninterp spec fn escaped(s: Seq<char>) -> Seq<char>;
// assume: a write that succeeds writes all of the text, after what was written before
impl Out {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn v_text(&mut self, s: &Str) -> (r: core::result::Result<(), IoError>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn v_quoted(&mut self, s: &Str) -> (r: core::result::Result<(), IoError>) ensures r is Ok ==> final(self)@ == old(self)@ + quoted(s@) { unimplemented!() }
    #[verifier::external_body] pub fn v_char(&mut self, c: char) -> (r: core::result::Result<(), IoError>) ensures r is Ok ==> final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: core::result::Result<(), IoError>) ensures r is Ok ==> final(self)@ == old(self)@ { unimplemented!() }
}
pub open spec fn quoted(s: Seq<char>) -> Seq<char> { seq!['"'] + escaped(s) + seq!['"'] }
pub open spec fn has_any(s: Seq<char>, cs: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && cs.contains(#[trigger] s[i]) }
#[verifier::external_body] pub fn v_has_any(s: &Str, cs: &[char]) -> (r: bool) ensures r == has_any(s@, cs@) { unimplemented!() }
/// a cell in a saved table
pub open spec fn special(c: char) -> bool { c == ',' || c == '"' || c == '\r' || c == '\n' }
pub open spec fn csv_cell(e: Entry) -> Seq<char> {
    if val_of(e) is Nil { Seq::empty() } else { let s = cell_text(e); if exists|i: int| 0 <= i < s.len() && special(#[trigger] s[i]) { quoted(s) } else { s } }
}
pub open spec fn csv_row(r: RowS, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { (if n == 1 { csv_row(r, n - 1) } else { csv_row(r, n - 1).push(',') }) + csv_cell(r[n - 1]) } }
pub open spec fn csv(t: Seq<RowS>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { (if n == 1 { csv(t, n - 1) } else { csv(t, n - 1).push('\n') }) + csv_row(t[n - 1], t[n - 1].len() as int) } }
/// what a file holds after a value was saved to it
pub open spec fn saved(v: Value) -> Seq<char> { match v { Value::Tab(t) => csv(t@, t@.len() as int), v => cell_text(entry_of(v)) } }
//@src ogma/src/lang/impls/intrinsics/io.rs
//@fn write_file/fmt_cell as=csv_put
//@sig fn csv_put(wtr: &mut Out, entry: &Entry, fmtr: &mut Formatter) -> (ret: core::result::Result<(), IoError>)
    requires old(fmtr).style() == plain_style()
    ensures final(fmtr).style() == plain_style(), ret is Ok ==> final(wtr)@ == old(wtr)@ + csv_cell(*entry)
//@endfn
//@fn write_file
//@sig #[verifier::loop_isolation(false)] fn write_file(file: &mut Out, value: Value) -> (ret: core::result::Result<(), IoError>)
    ensures ret is Ok ==> final(file)@ == old(file)@ + saved(value)
//@head
    hide(cell_by);
    let ghost f0 = file@;
    let ghost v0 = value;
    proof { if let Value::Tab(ref t) = value { t.rect(); } }
//@loop 0
    invariant
        fmtr.style() == plain_style(), __r <= v0->Tab_0@.len(), add_newline == (__r > 0),
        file@ == f0 + csv(v0->Tab_0@, __r as int),
    decreases v0->Tab_0@.len() - __r
//@loophead 0
    let ghost f1 = f0 + (if __r == 0 { csv(v0->Tab_0@, 0) } else { csv(v0->Tab_0@, __r as int).push('\n') });
//@looptail 0
    proof { assert(file@ =~= f0 + csv(v0->Tab_0@, __r as int)); }
//@loop 1
    invariant
        fmtr.style() == plain_style(), __c <= __es@.len(), add_comma == (__c > 0), __es@.len() == v0->Tab_0@[__r as int].len(),
        file@ == f1 + csv_row(v0->Tab_0@[__r as int], __c as int),
    decreases __es@.len() - __c
//@looptail 1
    proof { assert(file@ =~= f1 + csv_row(v0->Tab_0@[__r as int], __c as int)); }
//@endfn
