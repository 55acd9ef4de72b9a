//@rule cmp_of
$b_a.cmp($r)
//@=>
$b_a.v_cmp($r)
//@endrule
//@rule sort_tail
values[$k..].sort_by(|$p_a, $p_b| $e)
//@=>
v_sort_tail(&mut values, $k, binop, cx, &mut err)
//@endrule
//@rule err_set
err = Some(e)
//@=>
*err = Some(e)
//@endrule
//@rule trans
(self.binop.transformation)($e)
//@=>
cnv_value_to_ord($e)
//@endrule
//@rule for_pairs
for ($i_x, _) in $i_v { $s_body }
//@=>
{ let mut __k: usize = 0; while __k < $i_v.len() { let $i_x = $i_v[__k].0; $s_body __k += 1; } }
//@endrule
//@rule for_refs
for $p_x in &$e { $s_body }
//@=>
{ let __vs = &$e; let mut __k: usize = 0; while __k < __vs.len() { let $p_x = &__vs[__k]; $s_body __k += 1; } }
//@endrule
//@rule take_tab
mem::take(table)
//@=>
v_take_table(table)
//@endrule
//@rule take_row
mem::take(&mut table[$i])
//@=>
v_take_row(&mut table, $i)
//@endrule
//@rule row_cells
$r.unwrap().cloned().collect()
//@=>
$r.unwrap().to_vec()
//@endrule
//@rule sort_col
$b_t.sort($c, cmp_table_entries)
//@=>
$b_t.v_sort($c)
//@endrule
//@rule numbered
$r.into_iter().enumerate().collect()
//@=>
v_number($r)
//@endrule
//@rule rxp
resolve_trow_expr_par($a, $b, $c)
//@=>
resolve_trow_expr_par($a, $b, $c, w)
//@endrule
//@rule rix
$b_c.resolve_indices($a, $b)
//@=>
$b_c.resolve_indices($a, $b, w)
//@endrule
//@rule head_pair
once($a).chain(once($b)).map(o)
//@=>
v_two(o($a), o($b))
//@endrule
//@rule group_rows
$b_m.into_iter().map(|($p_k, $p_v)| once($a).chain(once($b)))
//@=>
{ let mut __out: Vec<(Entry, Entry)> = Vec::new(); let mut __g = $b_m.into_iter(); let mut __go = true; while __go { match __g.next() { Some(($p_k, $p_v)) => { __out.push((entry_v($a), entry_v($b))); } None => { __go = false; } } } __out }
//@endrule
//@rule new_group
|| { let mut $i_t = $e; $s_body }
//@=>
__raw!(|| -> (__t: Table) requires table@.len() > 0 ensures __t@ == seq![table@[0]], __t.width() == table.width() { let mut $i_t = $e; $s_body })
//@endrule
//@rule group_by
$b_m.entry($k).or_insert_with($f)
//@=>
$b_m.v_entry($k, $f)
//@endrule
//@rule err_taken
err.take()
//@=>
map.v_failure()
//@endrule
//@rule key_cells
$b_c.iter().map(|($p_c, _)| $m)
//@=>
__fold_cells($b_c, |$p_c| $m)
//@endrule
//@rule key_text
__fold_cells($b_c, |$p_c| $m).fold($s, |mut $i_k, $p_e| $b)
//@=>
{ let mut $i_k: String = $s; let mut __k: usize = 0; while __k < $b_c.len() { let $p_c = &$b_c[__k].0; let $p_e = $m; $i_k = $b; __k += 1; } $i_k }
//@endrule
//@include cells.rules
//@rule fmt_cell
&print::fmt_cell($e, $f)
//@=>
fmt_cell($e, $f).as_str()
//@endrule
//@rule str_key
build_table_from_map(map, |$i_s| Value::Str(v_into($i_t)))
//@=>
build_table_from_map(map, __raw!(|$i_s: String| -> (__v: Value) ensures __v is Str && __v->Str_0@ == $i_s@ { Value::Str(Str::from($i_t)) }))
//@endrule
//@rule str_key1
build_table_from_map(map, |$i_s| Value::Str($i_t.into()))
//@=>
build_table_from_map(map, __raw!(|$i_s: String| -> (__v: Value) ensures __v is Str && __v->Str_0@ == $i_s@ { Value::Str(Str::from($i_t)) }))
//@endrule
//@rule val_key
build_table_from_map(map, |$i_k| $e)
//@=>
build_table_from_map(map, __raw!(|$i_k: GrpByKey| -> (__v: Value) ensures __v == $i_k.value { $e }))
//@endrule
//@rule for_skip
for ($i_i, $i_v) in values.into_iter().skip(1) { $s_body }
//@=>
{ let mut __k: usize = 1; while __k < values.len() { let $i_i = values[__k].0; let $i_v = values[__k].1.clone(); $s_body __k += 1; } }
//@endrule
//@rule shared_eval
$b_s.binop.borrow_mut().eval($a, $b, $c)
//@=>
v_shared_eval(&$b_s.binop, $a, $b, $c)
//@endrule
//@rule err_note
*$b_s.err.borrow_mut() = Some($i_f)
//@=>
v_note(&$b_s.err, $i_f, w)
//@endrule
//@rule pcmp
self.partial_cmp($r)
//@=>
self.partial_cmp($r, w)
//@endrule
//@rule kcmp
self.v_cmp($r).eq(&$e)
//@=>
v_ord_eq(self.v_cmp($r, w), $e)
//@endrule
//@rule kcmp2
self.cmp($r).eq(&$e)
//@=>
v_ord_eq(self.v_cmp($r, w), $e)
//@endrule
//@rule or_ord
$r.unwrap_or(cmp::Ordering::Equal)
//@=>
match $r { Some(__o) => __o, None => cmp::Ordering::Equal }
//@endrule
//@include values.vrs
use core::cmp::Ordering;
/// text order: by the first differing character, a prefix first
pub open spec fn lex(a: Seq<char>, b: Seq<char>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] == b[0] { lex(a.drop_first(), b.drop_first()) }
    else if a[0] < b[0] { Ordering::Less } else { Ordering::Greater }
}
pub open spec fn int_ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub trait Ranked {
    spec fn ord(&self, o: &Self) -> Ordering;
    fn v_cmp(&self, o: &Self) -> (r: Ordering) ensures r == self.ord(o);
}
impl Ranked for u8 {
    open spec fn ord(&self, o: &u8) -> Ordering { int_ord(*self as int, *o as int) }
    fn v_cmp(&self, o: &u8) -> Ordering { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
}
impl Ranked for bool {
    open spec fn ord(&self, o: &bool) -> Ordering { int_ord(if *self { 1 } else { 0 }, if *o { 1 } else { 0 }) }
    #[verifier::external_body] fn v_cmp(&self, o: &bool) -> Ordering { unimplemented!() }
}
impl Ranked for Number {
    open spec fn ord(&self, o: &Number) -> Ordering { int_ord(num_rank(*self), num_rank(*o)) }
    #[verifier::external_body] fn v_cmp(&self, o: &Number) -> Ordering { unimplemented!() }
}
// assume: text order is by characters (UTF-8's byte order)
impl Ranked for Str {
    open spec fn ord(&self, o: &Str) -> Ordering { lex(self@, o@) }
    #[verifier::external_body] fn v_cmp(&self, o: &Str) -> Ordering { unimplemented!() }
}
impl Ranked for str {
    open spec fn ord(&self, o: &str) -> Ordering { lex(self@, o@) }
    #[verifier::external_body] fn v_cmp(&self, o: &str) -> Ordering { unimplemented!() }
}
pub uninterp spec fn tag_text(t: Tag) -> Seq<char>;
pub uninterp spec fn type_name(t: TypeDef) -> Tag;
impl Tag { #[verifier::external_body] pub fn str(&self) -> (r: &str) ensures r@ == tag_text(*self) { unimplemented!() } }
impl TypeDef { #[verifier::external_body] pub fn name(&self) -> (r: &Tag) ensures *r == type_name(*self) { unimplemented!() } }
impl OgmaData { #[verifier::external_body] pub fn ty(&self) -> (r: &TypeDef) ensures *r == ogma_ty(*self) { unimplemented!() } }
/// a value of a user's type is ordered by the name of its type
pub open spec fn named_as(d: OgmaData) -> Seq<char> { tag_text(type_name(ogma_ty(d))) }
/// kinds of values come in the order Bool, Num, Str, user types, Nil, tables, rows
pub open spec fn kind(v: Value) -> int {
    match v { Value::Bool(_) => 0, Value::Num(_) => 1, Value::Str(_) => 2, Value::Ogma(_) => 3, Value::Nil => 4, Value::Tab(_) => 5, Value::TabRow(_) => 6 }
}
/// the order of a table's cells
pub open spec fn val_ord(a: Value, b: Value) -> Ordering {
    if kind(a) != kind(b) { int_ord(kind(a), kind(b)) } else {
        match (a, b) {
            (Value::Bool(x), Value::Bool(y)) => x.ord(&y),
            (Value::Num(x), Value::Num(y)) => x.ord(&y),
            (Value::Str(x), Value::Str(y)) => lex(x@, y@),
            (Value::Ogma(x), Value::Ogma(y)) => lex(named_as(x), named_as(y)),
            _ => Ordering::Equal,
        }
    }
}
//@src ogma/src/lang/impls/intrinsics/morphism.rs
//@known cnv_value_to_ord
//@fn entry_discriminant
//@sig fn entry_discriminant(e: &Entry) -> (ret: u8)
    ensures ret == kind(val_of(*e))
//@endfn
//@fn cmp_table_entries
//@sig fn cmp_table_entries(a: &Entry, b: &Entry) -> (ret: Ordering)
    ensures ret == val_ord(val_of(*a), val_of(*b))
//@endfn
/// the order is total: antisymmetric up to equality, transitive
pub proof fn lex_flip(a: Seq<char>, b: Seq<char>) ensures lex(a, b) == flip(lex(b, a)) decreases a.len()
{ if a.len() > 0 && b.len() > 0 && a[0] == b[0] { lex_flip(a.drop_first(), b.drop_first()); } }
pub proof fn lex_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires lex(a, b) != Ordering::Greater, lex(b, c) != Ordering::Greater
    ensures lex(a, c) != Ordering::Greater
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lex_trans(a.drop_first(), b.drop_first(), c.drop_first()); } }
pub open spec fn flip(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal } }
pub proof fn cells_ordered(a: Value, b: Value, c: Value)
    ensures
        val_ord(a, a) == Ordering::Equal, val_ord(a, b) == flip(val_ord(b, a)),
        val_ord(a, b) != Ordering::Greater && val_ord(b, c) != Ordering::Greater ==> val_ord(a, c) != Ordering::Greater,
{
    match (a, b) { (Value::Str(x), Value::Str(y)) => { lex_flip(x@, y@); } (Value::Ogma(x), Value::Ogma(y)) => { lex_flip(named_as(x), named_as(y)); } _ => {} }
    match a { Value::Str(x) => { lex_flip(x@, x@); } Value::Ogma(x) => { lex_flip(named_as(x), named_as(x)); } _ => {} }
    if val_ord(a, b) != Ordering::Greater && val_ord(b, c) != Ordering::Greater {
        match (a, b, c) {
            (Value::Str(x), Value::Str(y), Value::Str(z)) => { lex_trans(x@, y@, z@); }
            (Value::Ogma(x), Value::Ogma(y), Value::Ogma(z)) => { lex_trans(named_as(x), named_as(y), named_as(z)); }
            _ => {}
        }
    }
}
// --- sorting ---
/// put in before the greater ones at the end, after all others
pub open spec fn placed<A>(s: Seq<A>, x: A, gt: spec_fn(A, A) -> bool) -> Seq<A> decreases s.len() {
    if s.len() > 0 && gt(s.last(), x) { placed(s.drop_last(), x, gt).push(s.last()) } else { s.push(x) }
}
/// in order, equals staying in the order they had
pub open spec fn sorted<A>(s: Seq<A>, gt: spec_fn(A, A) -> bool) -> Seq<A> decreases s.len() {
    if s.len() == 0 { s } else { placed(sorted(s.drop_last(), gt), s.last(), gt) }
}
pub open spec fn cell_gt(c: int) -> spec_fn(RowS, RowS) -> bool { |a: RowS, b: RowS| val_ord(val_of(a[c]), val_of(b[c])) == Ordering::Greater }
/// the rows in order of a column, the header staying first
pub open spec fn sorted_on(t: Seq<RowS>, c: int) -> Seq<RowS> { upto(t, 1) + sorted(cut(t, 1), cell_gt(c)) }
/// in order of each of the columns in turn
pub open spec fn sorted_ons(t: Seq<RowS>, cs: Seq<(usize, Str)>, n: int) -> Seq<RowS> decreases n {
    if n <= 0 { t } else { sorted_on(sorted_ons(t, cs, n - 1), cs[n - 1].0 as int) }
}
impl Table {
    // assume: the table crate's sort is stable and leaves the header; with the total order of cmp_table_entries that determines the result
    #[verifier::external_body] pub fn v_sort(&mut self, c: usize)
        requires c < old(self).width()
        ensures final(self)@ == sorted_on(old(self)@, c as int), final(self).width() == old(self).width()
    { unimplemented!() }
}
pub struct ColNameArgs { pub names: Vec<Argument> }
/// the columns the arguments name, each evaluated once
pub open spec fn cols_named(o: World, n: World, names: Seq<Argument>, e: Environment, t: Seq<RowS>, cs: Seq<(usize, Str)>) -> bool {
    &&& n.log@.len() == o.log@.len() + cs.len() && cs.len() <= names.len()
    &&& forall|k: int| 0 <= k < cs.len() ==> col_of(t, (#[trigger] cs[k]).1@, cs[k].0 as nat) && on_val(n.log@[o.log@.len() + k], names[k], e, Value::Nil, Value::Str(cs[k].1))
}
pub open spec fn names_ok(names: Seq<Argument>) -> bool { forall|k: int| 0 <= k < names.len() ==> (#[trigger] names[k]).out_ty is Str }
/// an argument failed, or names no column
pub open spec fn no_such_col(o: World, n: World, t: Seq<RowS>) -> bool {
    n.log@.last().o is None || n.log@.last().o->Some_0 is Str && col_less(t, n.log@.last().o->Some_0->Str_0@)
}
//@src ogma/src/lang/impls/intrinsics/mod.rs
//@fn cnv_value_to_ord
//@sig fn cnv_value_to_ord(v: Value) -> (ret: Ordering)
    ensures ret == ord_of(v)
//@endfn
/// which of its variants a value of a sum type is
pub uninterp spec fn variant(v: Value) -> Option<usize>;
impl Value { #[verifier::external_body] pub fn variant_idx(&self) -> (r: Option<usize>) ensures r == variant(*self) { unimplemented!() } }
/// Ord's variants are Lt, Eq, Gt
pub open spec fn ord_of(v: Value) -> Ordering { if variant(v) == Some(0usize) { Ordering::Less } else if variant(v) == Some(1usize) { Ordering::Equal } else { Ordering::Greater } }
impl TableRow {
    // proved in unit rows
    #[verifier::external_body] pub fn col_idx_by(table: &Table, h: &Str, tag: &Tag) -> (ret: Result<usize>)
        ensures ret is Ok ==> col_of(table@, h@, ret->Ok_0 as nat), ret is Err ==> col_less(table@, h@)
    { unimplemented!() }
    #[verifier::external_body] pub fn new(table: Table, colmap: ColMap, idx: usize) -> (ret: TableRow)
        requires colmap.of() == table@
        ensures ret.table == table, ret.idx == idx, ret.cached_col_indices.of() == table@
    { unimplemented!() }
}
impl ColNameArgs {
//@fn ColNameArgs::resolve_indices
//@sig fn resolve_indices(&self, table: &Table, cx: &Context, w: &mut World) -> (ret: Result<Vec<(usize, Str)>>)
    requires names_ok(self.names@)
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> ret->Ok_0@.len() == self.names@.len() && cols_named(*old(w), *final(w), self.names@, cx.env, table@, ret->Ok_0@),
        ret is Err ==> final(w).log@.len() > old(w).log@.len() && no_such_col(*old(w), *final(w), table@),
//@loop 0
    invariant
        names_ok(self.names@), __vs@ == self.names@, __k <= __vs@.len(), x@.len() == __k, grows(*old(w), *w),
        cols_named(*old(w), *w, self.names@, cx.env, table@, x@),
    decreases __vs@.len() - __k
//@endfn
}
// --- binary operators ---
#[verifier::external_body]
pub struct CodeInjector { p: u8 }
/// what the injected code gives for an input and variables
// assume: evaluating a `cmp` again on the same values gives the same
pub uninterp spec fn injected(c: CodeInjector, i: Value, e: Map<Variable, Value>) -> Option<Value>;
impl CodeInjector {
    pub uninterp spec fn env0(&self) -> Environment;
    #[verifier::external_body] pub fn env(&self) -> (r: &Environment) ensures *r == self.env0() { unimplemented!() }
    #[verifier::external_body] pub fn eval_with_env(&self, i: Value, cx: &Context, env: Environment) -> (r: Result<Value>)
        ensures match r { Ok(v) => injected(*self, i, env@) == Some(v), Err(_) => injected(*self, i, env@) is None }
    { unimplemented!() }
}
pub struct BinaryOp { pub rhs: Variable, pub injector: CodeInjector }
pub struct BinaryOpRef<'a> { pub env: Environment, pub binop: &'a BinaryOp }
/// what `cmp` says of two values
pub open spec fn compared(b: BinaryOp, x: Value, y: Value) -> Option<Ordering> {
    match injected(b.injector, x, b.injector.env0()@.insert(b.rhs, y)) { Some(v) => Some(ord_of(v)), None => None }
}
/// but for the right operand the variables are the pinned ones
pub open spec fn pinned(r: BinaryOpRef) -> bool { r.env@.remove(r.binop.rhs) == r.binop.injector.env0()@.remove(r.binop.rhs) }
pub proof fn pinned_insert(r: BinaryOpRef, y: Value) requires pinned(r) ensures r.env@.insert(r.binop.rhs, y) == r.binop.injector.env0()@.insert(r.binop.rhs, y)
{
    let (a, b, k) = (r.env@, r.binop.injector.env0()@, r.binop.rhs);
    assert forall|v: Variable| #[trigger] a.insert(k, y).contains_key(v) == b.insert(k, y).contains_key(v) by { if v != k { assert(a.remove(k).contains_key(v) == b.remove(k).contains_key(v)); } }
    assert forall|v: Variable| a.insert(k, y).contains_key(v) implies #[trigger] a.insert(k, y)[v] == b.insert(k, y)[v] by { if v != k { assert(a.remove(k)[v] == b.remove(k)[v]); assert(b.remove(k).contains_key(v) == a.remove(k).contains_key(v)); } }
    assert(a.insert(k, y) =~= b.insert(k, y));
}
impl BinaryOp {
//@fn BinaryOp::pin_env
//@sig pub fn pin_env(&self) -> (ret: BinaryOpRef)
    ensures *ret.binop == *self, pinned(ret)
//@endfn
}
impl<'a> BinaryOpRef<'a> {
// assume: the transformation is cnv_value_to_ord, which cmp_cmd passes
//@fn BinaryOpRef::eval
//@sig fn eval(&mut self, lhs: Value, rhs: Value, cx: &Context) -> (ret: Result<Ordering>)
    requires pinned(*old(self))
    ensures
        final(self).binop == old(self).binop, pinned(*final(self)),
        match ret { Ok(o) => compared(*old(self).binop, lhs, rhs) == Some(o), Err(_) => compared(*old(self).binop, lhs, rhs) is None },
//@head
    proof { pinned_insert(*self, rhs); assert(self.env@.insert(self.binop.rhs, rhs).remove(self.binop.rhs) =~= self.env@.remove(self.binop.rhs)); }
//@endfn
}
/// `cmp` orders the values, as it should
pub open spec fn orders(b: BinaryOp, vs: Seq<Value>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < vs.len() && 0 <= j < vs.len() ==> (#[trigger] compared(b, vs[i], vs[j])) is Some
    &&& forall|i: int, j: int| 0 <= i < vs.len() && 0 <= j < vs.len() ==> #[trigger] compared(b, vs[i], vs[j]) == Some(flip(compared(b, vs[j], vs[i])->Some_0))
    &&& forall|i: int, j: int, k: int| 0 <= i < vs.len() && 0 <= j < vs.len() && 0 <= k < vs.len()
        && #[trigger] compared(b, vs[i], vs[j]) != Some(Ordering::Greater) && #[trigger] compared(b, vs[j], vs[k]) != Some(Ordering::Greater) ==> compared(b, vs[i], vs[k]) != Some(Ordering::Greater)
}
pub type SortIdx = Vec<(usize, Value)>;
pub open spec fn keys(s: Seq<(usize, Value)>) -> Seq<Value> { s.map_values(|p: (usize, Value)| p.1) }
pub open spec fn key_gt(b: BinaryOp) -> spec_fn((usize, Value), (usize, Value)) -> bool { |x: (usize, Value), y: (usize, Value)| compared(b, x.1, y.1) == Some(Ordering::Greater) }
/// comparing some of the values failed
pub open spec fn unordered(b: BinaryOp, vs: Seq<Value>) -> bool { exists|i: int, j: int| 0 <= i < vs.len() && 0 <= j < vs.len() && (#[trigger] compared(b, vs[i], vs[j])) is None }
pub open spec fn shuffle(p: Seq<int>, n: nat) -> bool { p.len() == n && p.no_duplicates() && forall|i: int| 0 <= i < p.len() ==> 0 <= (#[trigger] p[i]) < n }
/// the same ones, perhaps elsewhere
pub open spec fn same_rows(a: Seq<(usize, Value)>, b: Seq<(usize, Value)>) -> bool {
    exists|p: Seq<int>| #[trigger] shuffle(p, b.len()) && a == Seq::new(b.len(), |i: int| b[p[i]])
}
pub proof fn still_once(a: Seq<(usize, Value)>, b: Seq<(usize, Value)>, n: nat)
    requires same_rows(a, b), once_each(b, n)
    ensures once_each(a, n), a.len() == b.len()
{
    let p = choose|p: Seq<int>| #[trigger] shuffle(p, b.len()) && a == Seq::new(b.len(), |i: int| b[p[i]]);
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).0 < n by { assert(0 <= p[i] < b.len()); assert(b[p[i]].0 < n); }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).0 != (#[trigger] a[j]).0 by {
        assert(0 <= p[i] < b.len() && 0 <= p[j] < b.len() && p[i] != p[j]);
        if p[i] < p[j] { assert(b[p[i]].0 != b[p[j]].0); } else { assert(b[p[j]].0 != b[p[i]].0); }
    }
}
// assume: std's sort_by is stable: with a comparison (the function sort_step) that orders the values the result is the one in order; it always permutes
#[verifier::external_body]
pub fn v_sort_tail(v: &mut SortIdx, k: usize, b: &mut BinaryOpRef, cx: &Context, err: &mut Option<Error>)
    requires k <= old(v)@.len(), pinned(*old(b)), *old(err) is None
    ensures
        final(b).binop == old(b).binop, pinned(*final(b)),
        upto(final(v)@, k as nat) == upto(old(v)@, k as nat), same_rows(final(v)@, old(v)@), final(v)@.len() == old(v)@.len(),
        orders(*old(b).binop, keys(cut(old(v)@, k as nat))) ==> *final(err) is None && cut(final(v)@, k as nat) == sorted(cut(old(v)@, k as nat), key_gt(*old(b).binop)),
        *final(err) is Some ==> unordered(*old(b).binop, keys(cut(old(v)@, k as nat))),
{ unimplemented!() }
//@src ogma/src/lang/impls/intrinsics/morphism.rs
//@closure sort_values sort_by:0 as=sort_step
//@params a b
//@sig fn sort_step(a: &(usize, Value), b: &(usize, Value), binop: &mut BinaryOpRef, cx: &Context, err: &mut Option<Error>) -> (ret: Ordering)
    requires pinned(*old(binop))
    ensures
        final(binop).binop == old(binop).binop, pinned(*final(binop)),
        match compared(*old(binop).binop, a.1, b.1) { Some(o) => ret == o && *final(err) == *old(err), None => *final(err) is Some },
//@endfn
//@fn sort_values
//@sig fn sort_values(mut values: SortIdx, binop: &mut BinaryOpRef, cx: &Context) -> (ret: Result<SortIdx>)
    requires pinned(*old(binop))
    ensures
        orders(*old(binop).binop, keys(cut(values@, 1))) ==> ret is Ok && ret->Ok_0@ == upto(values@, 1) + sorted(cut(values@, 1), key_gt(*old(binop).binop)),
        ret is Ok ==> same_rows(ret->Ok_0@, values@) && upto(ret->Ok_0@, 1) == upto(values@, 1),
        ret is Err ==> unordered(*old(binop).binop, keys(cut(values@, 1))),
//@endfn
//@closure sort_table_intrinsic eval_o:0 as=sort_table
//@params table cx
//@sig fn sort_table(table: Value, cx: Context, colnames: &ColNameArgs, w: &mut World) -> (ret: Result<(Table, Environment)>)
    requires names_ok(colnames.names@)
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> table is Tab && ret->Ok_0.1 == cx.env && exists|cs: Seq<(usize, Str)>| cs.len() == colnames.names@.len() && cols_named(*old(w), *final(w), colnames.names@, cx.env, table->Tab_0@, cs) && ret->Ok_0.0@ == #[trigger] sorted_ons(table->Tab_0@, cs, cs.len() as int),
        ret is Err && table is Tab ==> no_such_col(*old(w), *final(w), table->Tab_0@),
//@head
    let ghost t0 = table->Tab_0;
    proof { if table is Tab { t0.rect(); } }
//@loop 0
    invariant
        __k <= cols@.len(), t@ == sorted_ons(t0@, cols@, __k as int), t.width() == t0.width(), rect(t0@, t0.width()),
        forall|k: int| 0 <= k < cols@.len() ==> (#[trigger] cols@[k]).0 < t0.width(),
    decreases cols@.len() - __k
//@endfn
/// reordering by a permutation of the rows
pub open spec fn reordered(t: Seq<RowS>, o: Seq<(usize, Value)>) -> Seq<RowS> { o.map_values(|p: (usize, Value)| t[p.0 as int]) }
pub open spec fn once_each(o: Seq<(usize, Value)>, n: nat) -> bool {
    &&& forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).0 < n
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).0 != (#[trigger] o[j]).0
}
#[verifier::external_body]
pub fn v_take_table(t: &mut Table) -> (r: Table) ensures r == *old(t), final(t)@ == Seq::<RowS>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn v_take_row(t: &mut Vec<Vec<Entry>>, i: usize) -> (r: Vec<Entry>)
    requires i < old(t)@.len()
    ensures r@ == old(t)@[i as int]@, final(t)@.len() == old(t)@.len(), forall|j: int| 0 <= j < old(t)@.len() && j != i ==> #[trigger] final(t)@[j] == old(t)@[j]
{ unimplemented!() }
pub open spec fn raw0(v: Seq<Vec<Entry>>) -> Seq<RowS> { v.map_values(|r: Vec<Entry>| r@) }
//@fn reorder_table
//@sig fn reorder_table(mut table: Table, order: SortIdx) -> (ret: Table)
    requires once_each(order@, table@.len())
    ensures ret@ == reordered(table@, order@)
//@head
    let ghost t0 = table;
    proof { table.rect(); }
//@loop 0
    invariant
        once_each(order@, t0@.len()), __k <= order@.len(), table@.len() == t0@.len(), raw(x).len() == __k,
        forall|i: int| 0 <= i < __k ==> (#[trigger] raw(x)[i]) == t0@[order@[i].0 as int],
        forall|i: int| __k <= i < order@.len() ==> table@[(#[trigger] order@[i]).0 as int]@ == t0@[order@[i].0 as int],
    decreases order@.len() - __k
//@loop 1
    invariant
        once_each(order@, t0@.len()), __k <= order@.len(), table@ == t0@, raw(x).len() == __k,
        forall|i: int| 0 <= i < __k ==> (#[trigger] raw(x)[i]) == t0@[order@[i].0 as int],
    decreases order@.len() - __k
//@loophead 0
    let ghost x0 = x@;
    let ghost at = __k as int;
//@looptail 0
    proof { assert(x@.drop_last() =~= x0); assert forall|i: int| 0 <= i < at + 1 implies (#[trigger] raw(x)[i]) == t0@[order@[i].0 as int] by { if i < at { assert(x@[i] == x0[i]); assert(raw0(x0)[i] == t0@[order@[i].0 as int]); } } }
//@loophead 1
    let ghost x0 = x@;
    let ghost at = __k as int;
//@looptail 1
    proof { assert(x@.drop_last() =~= x0); assert forall|i: int| 0 <= i < at + 1 implies (#[trigger] raw(x)[i]) == t0@[order@[i].0 as int] by { if i < at { assert(x@[i] == x0[i]); assert(raw0(x0)[i] == t0@[order@[i].0 as int]); } } }
//@tail
    proof {
        let r = reordered(t0@, order@);
        assert(raw(x) =~= r);
        assert(rect(r, t0.width()));
        plain(r, t0.width());
    }
//@endfn
//@src ogma/src/lang/impls/intrinsics/mod.rs
/// each row's value, the header's place holding nothing
pub open spec fn row_vals(o: World, n: World, a: Argument, e: Environment, t: Table, v: Seq<Value>) -> bool {
    v.len() == t@.len() && forall|i: int| 1 <= i < t@.len() ==> #[trigger] asked(o, n, a, e, t, i, v[i])
}
//@fn resolve_trow_expr_par
//@sig fn resolve_trow_expr_par(table: &Table, expr: &Argument, cx: &Context, w: &mut World) -> (ret: Result<Vec<Value>>)
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> row_vals(*old(w), *final(w), *expr, cx.env, *table, ret->Ok_0@),
        ret is Err ==> failed(*old(w), *final(w)),
//@loop 0
    invariant
        *__tab == *table, __cx.env == cx.env, __buf@.len() == table@.len(), __row >= 1, __buf@.len() > 0 ==> __row <= __buf@.len(), grows(*old(w), *w),
        __err is Some ==> failed(*old(w), *w),
        __err is None ==> forall|i: int| 1 <= i < __row ==> #[trigger] asked(*old(w), *w, *expr, cx.env, *table, i, __buf@[i]),
    decreases __buf@.len() - __row
//@loophead 0
    let ghost w0 = *w;
    let ghost b0 = __buf@;
    let ghost at = __row as int;
//@looptail 0
    proof {
        asked_more(*old(w), w0, *w);
        let ghost c = w.log@.last();
        let ghost j = w.log@.len() - 1;
        assert(w.log@[j] == c);
        if c.o is Some && __err is None { assert(__buf@ == b0.update(at, __buf@[at])); assert(on_row(w.log@[j], *expr, cx.env, *table, at, __buf@[at])); }
    }
//@endfn
//@src ogma/src/lang/impls/intrinsics/morphism.rs
pub open spec fn numbered(v: Seq<Value>) -> Seq<(usize, Value)> { Seq::new(v.len(), |i: int| (i as usize, v[i])) }
#[verifier::external_body]
pub fn v_number(v: Vec<Value>) -> (r: SortIdx) ensures r@ == numbered(v@) { unimplemented!() }
pub open spec fn numbered_ok(v: Seq<Value>) -> bool { keys(cut(numbered(v), 1)) == cut(v, 1) && keys(numbered(v)) == v }
pub proof fn numbered_keys(v: Seq<Value>) ensures numbered_ok(v) { assert(keys(cut(numbered(v), 1)) =~= cut(v, 1)); assert(keys(numbered(v)) =~= v); }
/// the rows in order of their values
pub open spec fn by_vals(t: Seq<RowS>, v: Seq<Value>, b: BinaryOp) -> Seq<RowS> { reordered(t, upto(numbered(v), 1) + sorted(cut(numbered(v), 1), key_gt(b))) }
pub open spec fn sorted_so(o: World, n: World, key: Argument, b: BinaryOp, e: Environment, t: Table, r: Seq<RowS>, v: Seq<Value>) -> bool {
    &&& row_vals(o, n, key, e, t, v)
    &&& orders(b, cut(v, 1)) ==> r == by_vals(t@, v, b)
    &&& exists|p: Seq<(usize, Value)>| #[trigger] same_rows(p, numbered(v)) && upto(p, 1) == upto(numbered(v), 1) && r == reordered(t@, p)
}
//@closure sortby_table_intrinsic eval_o:0 as=sort_by_table
//@params table cx
//@sig fn sort_by_table(table: Value, cx: Context, key: &Argument, cmpr: &BinaryOp, w: &mut World) -> (ret: Result<(Table, Environment)>)
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> table is Tab && ret->Ok_0.1 == cx.env && exists|v: Seq<Value>| #[trigger] sorted_so(*old(w), *final(w), *key, *cmpr, cx.env, table->Tab_0, ret->Ok_0.0@, v),
        ret is Err && table is Tab ==> failed(*old(w), *final(w)) || exists|v: Seq<Value>| #[trigger] row_vals(*old(w), *final(w), *key, cx.env, table->Tab_0, v) && unordered(*cmpr, cut(v, 1)),
//@head
    let ghost t0 = table->Tab_0;
    let ghost e0 = cx.env;
    proof {
        if table is Tab { t0.rect(); }
        assert forall|v: Seq<Value>| v.len() == t0@.len() && v.len() <= usize::MAX implies once_each(#[trigger] numbered(v), t0@.len()) && numbered_ok(v) by { numbered_keys(v); }
        assert forall|a: Seq<(usize, Value)>, b: Seq<(usize, Value)>| #[trigger] same_rows(a, b) && once_each(b, t0@.len()) implies once_each(a, t0@.len()) by { still_once(a, b, t0@.len()); }
    }
//@tail
    proof { let v = keys(sorting_values@); assert(sorted_so(*old(w), *w, *key, *cmpr, e0, t0, __vret->Ok_0.0@, v)); }
//@endfn
// --- grouping ---
pub trait MapKey: Sized {
    spec fn gt(self, o: Self) -> bool;
    spec fn same(self, o: Self) -> bool;
    /// these keys can be put in order
    spec fn sound(ks: Seq<Self>) -> bool;
}
impl MapKey for String {
    open spec fn gt(self, o: String) -> bool { lex(self@, o@) == Ordering::Greater }
    open spec fn same(self, o: String) -> bool { self@ == o@ }
    open spec fn sound(ks: Seq<String>) -> bool { true }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Rc<T> { p: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RefCell<T> { p: std::marker::PhantomData<T> }
impl<T> RefCell<T> {
    pub uninterp spec fn of(&self) -> T;
    #[verifier::external_body] pub fn new(t: T) -> (r: RefCell<T>) ensures r.of() == t { unimplemented!() }
}
impl<T> Rc<T> {
    pub uninterp spec fn of(&self) -> T;
    #[verifier::external_body] pub fn new(t: T) -> (r: Rc<T>) ensures r.of() == t { unimplemented!() }
    #[verifier::external_body] pub fn clone(t: &Rc<T>) -> (r: Rc<T>) ensures r.of() == t.of() { unimplemented!() }
}
pub struct GrpByKey<'a> { pub value: Value, pub binop: Rc<RefCell<BinaryOpRef<'a>>>, pub err: Rc<RefCell<Option<Error>>>, pub cx: &'a Context }
// assume: a shared operator is pinned and stays the operator it was made of
impl<'a> GrpByKey<'a> { pub open spec fn op(self) -> BinaryOp { *self.binop.of().of().binop } }
#[verifier::external_body]
pub fn v_shared_eval(b: &Rc<RefCell<BinaryOpRef>>, x: Value, y: Value, cx: &Context) -> (ret: Result<Ordering>)
    ensures match ret { Ok(o) => compared(*b.of().of().binop, x, y) == Some(o), Err(_) => compared(*b.of().of().binop, x, y) is None }
{ unimplemented!() }
#[verifier::external_body]
pub fn v_note(c: &Rc<RefCell<Option<Error>>>, e: Error, w: &mut Noted) ensures final(w).err@ { unimplemented!() }
/// whether an error was noted
pub struct Noted { pub err: Ghost<bool> }
pub fn v_ord_eq(a: Ordering, b: Ordering) -> (r: bool) ensures r == (a == b) { match (a, b) { (Ordering::Less, Ordering::Less) => true, (Ordering::Equal, Ordering::Equal) => true, (Ordering::Greater, Ordering::Greater) => true, _ => false } }
impl<'a> MapKey for GrpByKey<'a> {
    open spec fn gt(self, o: GrpByKey<'a>) -> bool { compared(self.op(), self.value, o.value) == Some(Ordering::Greater) }
    open spec fn same(self, o: GrpByKey<'a>) -> bool { compared(self.op(), self.value, o.value) == Some(Ordering::Equal) }
    open spec fn sound(ks: Seq<GrpByKey<'a>>) -> bool { (forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() ==> #[trigger] ks[i].op() == #[trigger] ks[j].op()) && (ks.len() > 0 ==> orders(ks[0].op(), key_vals(ks))) }
}
pub open spec fn key_vals<'a>(ks: Seq<GrpByKey<'a>>) -> Seq<Value> { ks.map_values(|k: GrpByKey<'a>| k.value) }
impl<'a> GrpByKey<'a> {
//@fn GrpByKey@PartialOrd::partial_cmp
//@sig fn partial_cmp(&self, rhs: &Self, w: &mut Noted) -> (ret: Option<Ordering>)
    ensures ret == compared(self.op(), self.value, rhs.value), ret is None ==> final(w).err@, old(w).err@ ==> final(w).err@
//@endfn
//@fn GrpByKey@Ord::cmp as=v_cmp
//@sig fn v_cmp(&self, rhs: &Self, w: &mut Noted) -> (ret: Ordering)
    ensures compared(self.op(), self.value, rhs.value) is Some ==> ret == compared(self.op(), self.value, rhs.value)->Some_0, compared(self.op(), self.value, rhs.value) is None ==> final(w).err@, old(w).err@ ==> final(w).err@
//@endfn
//@fn GrpByKey@PartialEq::eq as=v_eq
//@sig fn v_eq(&self, rhs: &Self, w: &mut Noted) -> (ret: bool)
    ensures compared(self.op(), self.value, rhs.value) is Some ==> ret == self.same(*rhs), compared(self.op(), self.value, rhs.value) is None ==> final(w).err@
//@endfn
}
pub type InnerTable = Table;
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(T)]
pub struct BTreeMap<K, T> { p: std::marker::PhantomData<(K, T)> }
pub type Grp<K> = (K, Seq<RowS>);
/// the place after the groups whose keys are not greater
pub open spec fn seek<K: MapKey>(g: Seq<Grp<K>>, k: K) -> int decreases g.len() {
    if g.len() == 0 { 0 } else if g.last().0.gt(k) { seek(g.drop_last(), k) } else { g.len() as int }
}
pub proof fn seek_in<K: MapKey>(g: Seq<Grp<K>>, k: K) ensures 0 <= seek(g, k) <= g.len() decreases g.len() { if g.len() > 0 { seek_in(g.drop_last(), k); } }
pub open spec fn hit<K: MapKey>(g: Seq<Grp<K>>, k: K) -> bool { seek(g, k) > 0 && g[seek(g, k) - 1].0.same(k) }
pub open spec fn grp_keys<K: MapKey>(g: Seq<Grp<K>>) -> Seq<K> { g.map_values(|x: Grp<K>| x.0) }
/// a row joins the group of its key, or starts one below the header
pub open spec fn joins<K: MapKey>(g: Seq<Grp<K>>, k: K, hdr: RowS, row: RowS) -> Seq<Grp<K>> {
    let p = seek(g, k);
    if hit(g, k) { g.update(p - 1, (g[p - 1].0, g[p - 1].1.push(row))) } else { g.insert(p, (k, seq![hdr, row])) }
}
/// the groups of the first n of the rows after the header, in the order of their keys, rows in their order
pub open spec fn grouped<K: MapKey>(ks: Seq<K>, t: Seq<RowS>, n: int) -> Seq<Grp<K>> decreases n {
    if n <= 0 { Seq::empty() } else { joins(grouped(ks, t, n - 1), ks[n - 1], t[0], t[n]) }
}
pub proof fn grouped_keys<K: MapKey>(ks: Seq<K>, t: Seq<RowS>, n: int, wd: nat)
    requires 0 <= n <= ks.len(), n < t.len(), rect(t, wd)
    ensures
        forall|i: int| 0 <= i < grouped(ks, t, n).len() ==> ks.take(n).contains((#[trigger] grouped(ks, t, n)[i]).0),
        forall|i: int| 0 <= i < grouped(ks, t, n).len() ==> rect((#[trigger] grouped(ks, t, n)[i]).1, wd),
    decreases n
{
    if n > 0 {
        let g = grouped(ks, t, n - 1); let r = grouped(ks, t, n); let p = seek(g, ks[n - 1]);
        grouped_keys(ks, t, n - 1, wd); seek_in(g, ks[n - 1]);
        assert(ks.take(n)[n - 1] == ks[n - 1]);
        assert forall|i: int| 0 <= i < r.len() implies ks.take(n).contains((#[trigger] r[i]).0) && rect(r[i].1, wd) by {
            let j = if hit(g, ks[n - 1]) || i < p { i } else { i - 1 };
            if hit(g, ks[n - 1]) || i != p { assert(ks.take(n - 1).contains(g[j].0)); let m = ks.take(n - 1).index_of(g[j].0); assert(ks.take(n)[m] == g[j].0); assert(rect(g[j].1, wd)); }
        }
    }
}
impl<K: MapKey> BTreeMap<K, Table> {
    pub uninterp spec fn view(&self) -> Seq<Grp<K>>;
    /// a comparison of keys failed
    pub uninterp spec fn spoilt(&self) -> bool;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<Grp<K>>::empty(), !r.spoilt() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Seq::<Grp<K>>::empty(), !r.spoilt() { unimplemented!() }
    // assume: the entry of a BTreeMap is that of the equal key, or a new one in its place in the order of the keys
    #[verifier::external_body] pub fn v_entry<F: FnOnce() -> Table>(&mut self, k: K, f: F) -> (r: &mut Table)
        requires f.requires(())
        ensures K::sound(grp_keys(old(self)@).push(k)) ==> final(self).spoilt() == old(self).spoilt() && 0 <= seek(old(self)@, k) <= old(self)@.len() && (
            if hit(old(self)@, k) { r@ == old(self)@[seek(old(self)@, k) - 1].1 && r.width() == width_of(r@) && final(self)@ == old(self)@.update(seek(old(self)@, k) - 1, (old(self)@[seek(old(self)@, k) - 1].0, final(r)@)) }
            else { f.ensures((), *r) && final(self)@ == old(self)@.insert(seek(old(self)@, k), (k, final(r)@)) })
    { unimplemented!() }
    // assume: GrpByKey's order notes the error of a comparison that fails (partial_cmp is proved to)
    #[verifier::external_body] pub fn v_failure(&self) -> (r: Option<Error>) ensures r is Some == self.spoilt() { unimplemented!() }
    #[verifier::external_body] pub fn into_iter(self) -> (r: GrpIt<K>) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn width_of(t: Seq<RowS>) -> nat { if t.len() == 0 { 0 } else { t[0].len() } }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
pub struct GrpIt<K> { p: std::marker::PhantomData<K> }
impl<K: MapKey> GrpIt<K> {
    pub uninterp spec fn view(&self) -> Seq<Grp<K>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(K, Table)>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x.0 == old(self)@[0].0 && x.1@ == old(self)@[0].1 && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
}
pub fn o(s: &str) -> (r: Entry) ensures r is Obj, r->Obj_0 is Str, r->Obj_0->Str_0@ == s@ { Entry::Obj(Value::Str(Str::from(s))) }
pub fn entry_v(v: Value) -> (r: Entry) ensures r == entry_of(v) { Entry::from(v) }
#[verifier::external_body]
pub fn v_two<'a>(a: Entry, b: Entry) -> (r: RowIt<'a>) ensures r@ == seq![a, b] { unimplemented!() }
/// a row of a grouped table
pub open spec fn grp_row<K, F: Fn(K) -> Value>(r: RowS, f: F, g: Grp<K>) -> bool {
    r.len() == 2 && (exists|v: Value| f.ensures((g.0,), v) && r[0] == #[trigger] entry_of(v)) && r[1] is Obj && r[1]->Obj_0 is Tab && r[1]->Obj_0->Tab_0@ == g.1
}
impl RowSrc for Vec<(Entry, Entry)> { open spec fn rows(self) -> Seq<RowS> { self@.map_values(|p: (Entry, Entry)| seq![p.0, p.1]) } }
pub open spec fn text_cell(e: Entry, s: Seq<char>) -> bool { e is Obj && e->Obj_0 is Str && e->Obj_0->Str_0@ == s }
//@fn build_table_from_map
//@sig fn build_table_from_map<K: MapKey, F: Fn(K) -> Value>(map: BTreeMap<K, InnerTable>, key_f: F) -> (ret: Table)
    requires forall|k: K| key_f.requires((k,))
    ensures
        ret@.len() == map@.len() + 1, ret@[0].len() == 2, text_cell(ret@[0][0], "key"@), text_cell(ret@[0][1], "value"@),
        forall|i: int| 0 <= i < map@.len() ==> grp_row(#[trigger] ret@[i + 1], key_f, map@[i]),
//@head
    proof {
        assert forall|v: Vec<(Entry, Entry)>| rect(#[trigger] v.rows(), 2) && widest(v.rows()) <= 2 by { assert(rect(v.rows(), 2)); widest_rect(v.rows(), 2); }
        assert forall|x: Seq<RowS>| rect(x, 2) implies #[trigger] filled(x, 2) == x by { filled_rect(x, 2); }
    }
//@loop 0
    invariant
        __g@.len() + __out@.len() == map@.len(), __g@ == map@.skip(__out@.len() as int), !__go ==> __g@.len() == 0,
        forall|k: K| key_f.requires((k,)),
        forall|i: int| 0 <= i < __out@.len() ==> grp_row(seq![(#[trigger] __out@[i]).0, __out@[i].1], key_f, map@[i]),
    decreases __g@.len(), (if __go { 1int } else { 0 })
//@endfn
/// an order of values is one of some of them
pub proof fn orders_some(b: BinaryOp, vs: Seq<Value>, us: Seq<Value>)
    requires orders(b, vs), forall|i: int| 0 <= i < us.len() ==> vs.contains(#[trigger] us[i])
    ensures orders(b, us)
{
    assert forall|i: int, j: int| 0 <= i < us.len() && 0 <= j < us.len() implies (#[trigger] compared(b, us[i], us[j])) is Some && compared(b, us[i], us[j]) == Some(flip(compared(b, us[j], us[i])->Some_0)) by {
        let (p, q) = (vs.index_of(us[i]), vs.index_of(us[j])); assert(vs.contains(us[i]) && vs.contains(us[j])); assert(compared(b, vs[p], vs[q]) is Some); assert(compared(b, vs[q], vs[p]) is Some);
    }
    assert forall|i: int, j: int, k: int| 0 <= i < us.len() && 0 <= j < us.len() && 0 <= k < us.len()
        && #[trigger] compared(b, us[i], us[j]) != Some(Ordering::Greater) && #[trigger] compared(b, us[j], us[k]) != Some(Ordering::Greater) implies compared(b, us[i], us[k]) != Some(Ordering::Greater) by {
        assert(vs.contains(us[i]) && vs.contains(us[j]) && vs.contains(us[k]));
        let (p, q, r) = (vs.index_of(us[i]), vs.index_of(us[j]), vs.index_of(us[k]));
        assert(compared(b, vs[p], vs[q]) != Some(Ordering::Greater) && compared(b, vs[q], vs[r]) != Some(Ordering::Greater));
    }
}
/// keys for the values
pub open spec fn keyed<'a>(ks: Seq<GrpByKey<'a>>, vs: Seq<Value>, b: BinaryOp) -> bool { ks.len() == vs.len() && forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]).value == vs[i] && ks[i].op() == b }
pub proof fn keyed_sound<'a>(ks: Seq<GrpByKey<'a>>, vs: Seq<Value>, b: BinaryOp, t: Seq<RowS>, wd: nat, all: Seq<Value>)
    requires keyed(ks, vs, b), orders(b, all), forall|i: int| 0 <= i < vs.len() ==> all.contains(#[trigger] vs[i]), ks.len() > 0, ks.len() < t.len(), rect(t, wd)
    ensures GrpByKey::sound(grp_keys(grouped(ks.drop_last(), t, ks.len() - 1)).push(ks.last())), grouped(ks, t, ks.len() - 1) == grouped(ks.drop_last(), t, ks.len() - 1)
{
    let n = ks.len() - 1; let g = grouped(ks.drop_last(), t, n); let gk = grp_keys(g).push(ks.last());
    grouped_keys(ks.drop_last(), t, n, wd);
    grouped_same(ks, ks.drop_last(), t, n);
    assert forall|i: int| 0 <= i < gk.len() implies (#[trigger] gk[i]).op() == b && all.contains(gk[i].value) by {
        if i < g.len() {
            assert(g[i].0 == gk[i]); assert(ks.drop_last().take(n).contains(g[i].0));
            let m = ks.drop_last().take(n).index_of(g[i].0); assert(ks[m] == gk[i]); assert(all.contains(vs[m]));
        } else { assert(ks[n] == gk[i]); assert(all.contains(vs[n])); }
    }
    let kv = key_vals(gk);
    assert forall|i: int| 0 <= i < kv.len() implies all.contains(#[trigger] kv[i]) by { assert(kv[i] == gk[i].value); }
    orders_some(b, all, kv);
}
pub proof fn grouped_same<K: MapKey>(a: Seq<K>, b: Seq<K>, t: Seq<RowS>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures grouped(a, t, n) == grouped(b, t, n)
    decreases n
{ if n > 0 { grouped_same(a, b, t, n - 1); } }
/// one row for each group: its key and its table
pub open spec fn grp_rows<'a>(ret: Seq<RowS>, g: Seq<Grp<GrpByKey<'a>>>) -> bool {
    ret.len() == g.len() + 1 && ret[0].len() == 2 && text_cell(ret[0][0], "key"@) && text_cell(ret[0][1], "value"@)
    && forall|i: int| 0 <= i < g.len() ==> grp_cell(#[trigger] ret[i + 1], entry_of(g[i].0.value), g[i].1)
}
pub open spec fn grp_cell(r: RowS, k: Entry, t: Seq<RowS>) -> bool { r.len() == 2 && r[0] == k && r[1] is Obj && r[1]->Obj_0 is Tab && r[1]->Obj_0->Tab_0@ == t }
pub open spec fn grouped_so<'a>(ks: Seq<GrpByKey<'a>>, vs: Seq<Value>, b: BinaryOp, t: Seq<RowS>, ret: Seq<RowS>) -> bool {
    keyed(ks, vs, b) && grp_rows(ret, grouped(ks, t, ks.len() as int)) && groups_right(grouped(ks, t, ks.len() as int), ks, t, ks.len() as int)
}
//@fn grp_table
//@sig #[verifier::loop_isolation(false)] fn grp_table(values: SortIdx, table: &Table, binop: BinaryOpRef, cx: &Context) -> (ret: Result<Table>)
    requires values@.len() == table@.len(), forall|i: int| 0 <= i < values@.len() ==> (#[trigger] values@[i]).0 == i
    ensures
        orders(*binop.binop, keys(cut(values@, 1))) ==> ret is Ok && exists|ks: Seq<GrpByKey>| #[trigger] grouped_so(ks, keys(cut(values@, 1)), *binop.binop, table@, ret->Ok_0@),
//@head
    let ghost op = *binop.binop;
    let ghost vs = keys(cut(values@, 1));
    let ghost mut ks: Seq<GrpByKey> = Seq::empty();
    let ghost wd = table.width();
    proof { table.rect(); assert(vs.take(0) =~= Seq::<Value>::empty());
        assert forall|x: Seq<RowS>, n: nat| rect(x, n) implies #[trigger] filled(x, n) == x by { filled_rect(x, n); }
    }
//@loop 0
    invariant
        rect(table@, wd), wd == table.width(), values@.len() == table@.len(), forall|i: int| 0 <= i < values@.len() ==> (#[trigger] values@[i]).0 == i, vs == keys(cut(values@, 1)),
        1 <= __k, __k <= values@.len() || __k == 1, keyed(ks, vs.take(__k - 1), op), binop.of().of().binop == op,
        orders(op, vs) ==> map@ == grouped(ks, table@, __k - 1) && !map.spoilt(),
    decreases values@.len() - __k
//@loophead 0
    let ghost ks0 = ks;
    let ghost at = __k as int;
    let ghost m0 = map@;
//@looptail 0
    proof {
        ks = ks.push(key);
        assert(ks.drop_last() =~= ks0);
        assert(vs.take(at) =~= vs.take(at - 1).push(vs[at - 1]));
        assert forall|i: int| 0 <= i < vs.take(at).len() implies vs.contains(#[trigger] vs.take(at)[i]) by { assert(vs[i] == vs.take(at)[i]); }
        if orders(op, vs) { keyed_sound(ks, vs.take(at), op, table@, wd, vs); }
        seek_in(m0, key);
        if orders(op, vs) {
            let p = seek(m0, key); let hdr = table@[0]; let row = table@[at];
            assert(m0 == grouped(ks0, table@, at - 1));
            grouped_keys(ks0, table@, at - 1, wd);
            if hit(m0, key) { let x = m0[p - 1].1; assert(rect(x, wd)); assert(rect(x.push(row), wd)); filled_rect(x.push(row), wd); }
            else { let x = seq![hdr]; assert(rect(x.push(row), wd)); filled_rect(x.push(row), wd); assert(x.push(row) =~= seq![hdr, row]); }
            assert(map@ == joins(m0, key, hdr, row));
        }
    }
//@tail
    proof { if orders(op, vs) { assert(vs.take(vs.len() as int) =~= vs); ordered_total(ks, vs, op); grouped_right(ks, table@, ks.len() as int); assert(grouped_so(ks, vs, op, table@, __vret->Ok_0@)); } }
//@endfn
// --- grp-by ---
pub open spec fn grouped_by<'a>(o: World, n: World, key: Argument, b: BinaryOp, e: Environment, t: Table, r: Seq<RowS>, v: Seq<Value>) -> bool {
    &&& row_vals(o, n, key, e, t, v)
    &&& orders(b, cut(v, 1)) ==> exists|ks: Seq<GrpByKey>| #[trigger] grouped_so(ks, cut(v, 1), b, t@, r)
}
//@closure grpby_table_intrinsic eval_o:0 as=grp_by_table
//@params table cx
//@sig fn grp_by_table(table: Value, cx: Context, key: &Argument, cmpr: &BinaryOp, w: &mut World) -> (ret: Result<(Table, Environment)>)
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> table is Tab && ret->Ok_0.1 == cx.env && exists|v: Seq<Value>| #[trigger] grouped_by(*old(w), *final(w), *key, *cmpr, cx.env, table->Tab_0, ret->Ok_0.0@, v),
        ret is Err && table is Tab ==> failed(*old(w), *final(w)) || exists|v: Seq<Value>| #[trigger] row_vals(*old(w), *final(w), *key, cx.env, table->Tab_0, v) && !orders(*cmpr, cut(v, 1)),
//@head
    let ghost t0 = table->Tab_0;
    let ghost e0 = cx.env;
    proof {
        if table is Tab { t0.rect(); }
        assert forall|v: Seq<Value>| true implies keys(#[trigger] numbered(v)) == v && numbered_ok(v) by { numbered_keys(v); }
    }
//@tail
    proof { let v = keys(grping_values@); assert(grping_values@ == numbered(v)); assert(keys(cut(grping_values@, 1)) == cut(v, 1)); assert(row_vals(*old(w), *w, *key, e0, t0, v)); assert(grouped_by(*old(w), *w, *key, *cmpr, e0, t0, __vret->Ok_0.0@, v)); }
//@endfn
// --- grp ---
//@include cells_c.vrs
//@src ogma/src/lang/impls/intrinsics/morphism.rs
/// the texts of the row's cells in these columns, with dashes between
pub open spec fn dashed(r: RowS, cs: Seq<(usize, Str)>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { let p = dashed(r, cs, n - 1); (if p.len() == 0 { p } else { p.push('-') }) + cell_text(r[cs[n - 1].0 as int]) }
}
pub open spec fn dash_keys(ks: Seq<String>, t: Seq<RowS>, cs: Seq<(usize, Str)>) -> bool { forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i])@ == dashed(t[i + 1], cs, cs.len() as int) }
/// one row for each group: its text and its table
pub open spec fn grp_rows_text(ret: Seq<RowS>, g: Seq<Grp<String>>) -> bool {
    ret.len() == g.len() + 1 && ret[0].len() == 2 && text_cell(ret[0][0], "key"@) && text_cell(ret[0][1], "value"@)
    && forall|i: int| 0 <= i < g.len() ==> #[trigger] ret[i + 1].len() == 2 && text_cell(ret[i + 1][0], g[i].0@) && grp_cell(ret[i + 1], ret[i + 1][0], g[i].1)
}
pub open spec fn grouped_text(ks: Seq<String>, t: Seq<RowS>, cs: Seq<(usize, Str)>, ret: Seq<RowS>) -> bool {
    ks.len() == t.len() - 1 && dash_keys(ks, t, cs) && grp_rows_text(ret, grouped(ks, t, ks.len() as int)) && groups_right(grouped(ks, t, ks.len() as int), ks, t, ks.len() as int)
}
//@closure grp_table_intrinsic eval_o:0 as=grp_cols
//@params table cx
//@sig #[verifier::loop_isolation(false)] fn grp_cols(table: Value, cx: Context, colnames: &ColNameArgs, blktag: &Tag, w: &mut World) -> (ret: Result<(Table, Environment)>)
    requires names_ok(colnames.names@)
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> table is Tab && ret->Ok_0.1 == cx.env && exists|cs: Seq<(usize, Str)>, ks: Seq<String>| cs.len() == colnames.names@.len() && #[trigger] cols_named(*old(w), *final(w), colnames.names@, cx.env, table->Tab_0@, cs) && #[trigger] grouped_text(ks, table->Tab_0@, cs, ret->Ok_0.0@),
        ret is Err && table is Tab ==> table->Tab_0@.len() == 0 || table->Tab_0.width() == 0 || no_such_col(*old(w), *final(w), table->Tab_0@),
//@head
    hide(groups_right); hide(cell_by); hide(total);
    let ghost t0 = table->Tab_0;
    let ghost e0 = cx.env;
    let ghost wd = t0.width();
    let ghost mut ks: Seq<String> = Seq::empty();
    proof {
        if table is Tab { t0.rect(); }
        assert forall|x: Seq<RowS>, n: nat| rect(x, n) implies #[trigger] filled(x, n) == x by { filled_rect(x, n); }
    }
//@loop 0
    invariant
        __it >= 1, __it <= __end, ks.len() == __it - 1, dash_keys(ks, t0@, cols@),
        map@ == grouped(ks, t0@, __it - 1), !map.spoilt(), fmtr.style() == plain_style(),
    decreases __end - __it
//@loophead 0
    let ghost ks0 = ks;
    let ghost at = __it as int;
    let ghost m0 = map@;
//@loop 1
    invariant __k <= cols@.len(), k@ == dashed(t0@[rowidx as int], cols@, __k as int), fmtr.style() == plain_style(),
    decreases cols@.len() - __k
//@looptail 0
    proof {
        ks = ks.push(key);
        assert(ks.drop_last() =~= ks0);
        grouped_same(ks, ks0, t0@, at - 1);
        grouped_keys(ks0, t0@, at - 1, wd);
        seek_in(m0, key);
        let p = seek(m0, key); let hdr = t0@[0]; let row = t0@[at];
        if hit(m0, key) { let x = m0[p - 1].1; assert(rect(x, wd)); assert(rect(x.push(row), wd)); filled_rect(x.push(row), wd); }
        else { let x = seq![hdr]; assert(rect(x.push(row), wd)); filled_rect(x.push(row), wd); assert(x.push(row) =~= seq![hdr, row]); }
        assert(map@ == joins(m0, key, hdr, row));
    }
//@tail
    proof { texts_total(ks); grouped_right(ks, t0@, ks.len() as int); assert(grouped_text(ks, t0@, cols@, __vret->Ok_0.0@)); }
//@endfn
// --- groups are right ---
/// the keys have a place each: one is greater, or they are the same
pub open spec fn total<K: MapKey>(ks: Seq<K>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() ==> #[trigger] one_way(ks[i], ks[j])
    &&& forall|i: int, j: int, k: int| 0 <= i < ks.len() && 0 <= j < ks.len() && 0 <= k < ks.len() ==> #[trigger] three_way(ks[i], ks[j], ks[k])
}
pub open spec fn one_way<K: MapKey>(a: K, b: K) -> bool { (a.gt(b) || b.gt(a) || a.same(b)) && !(a.gt(b) && b.gt(a)) && !(a.gt(b) && a.same(b)) && a.same(b) == b.same(a) }
pub open spec fn three_way<K: MapKey>(a: K, b: K, c: K) -> bool { (!b.gt(a) && !c.gt(b) ==> !c.gt(a)) && (a.same(b) && b.same(c) ==> a.same(c)) }
/// of the first n of the rows after the header, those of this key
pub open spec fn with_key<K: MapKey>(ks: Seq<K>, t: Seq<RowS>, n: int, k: K) -> Seq<RowS> decreases n {
    if n <= 0 { Seq::empty() } else if ks[n - 1].same(k) { with_key(ks, t, n - 1, k).push(t[n]) } else { with_key(ks, t, n - 1, k) }
}
pub open spec fn none_with<K: MapKey>(ks: Seq<K>, n: int, k: K) -> bool { forall|j: int| 0 <= j < n ==> !(#[trigger] ks[j]).same(k) }
pub proof fn with_none<K: MapKey>(ks: Seq<K>, t: Seq<RowS>, n: int, k: K)
    requires 0 <= n <= ks.len(), none_with(ks, n, k)
    ensures with_key(ks, t, n, k) == Seq::<RowS>::empty()
    decreases n
{ if n > 0 { with_none(ks, t, n - 1, k); } }
pub open spec fn rising<K: MapKey>(g: Seq<Grp<K>>) -> bool { forall|i: int, j: int| 0 <= i < j < g.len() ==> (#[trigger] g[j]).0.gt((#[trigger] g[i]).0) }
pub open spec fn of_keys<K: MapKey>(g: Seq<Grp<K>>, ks: Seq<K>, t: Seq<RowS>, n: int) -> bool { forall|i: int| 0 <= i < g.len() ==> ks.contains((#[trigger] g[i]).0) && g[i].1 == seq![t[0]] + with_key(ks, t, n, g[i].0) }
pub open spec fn has_group<K: MapKey>(g: Seq<Grp<K>>, k: K) -> bool { exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0.same(k) }
/// the groups are in the order of their keys; each holds the header and exactly the rows of its key, in their order; every row is in one
pub open spec fn groups_right<K: MapKey>(g: Seq<Grp<K>>, ks: Seq<K>, t: Seq<RowS>, n: int) -> bool {
    rising(g) && of_keys(g, ks, t, n) && forall|j: int| 0 <= j < n ==> has_group(g, #[trigger] ks[j])
}
pub proof fn seek_splits<K: MapKey>(g: Seq<Grp<K>>, k: K)
    ensures ({ let p = seek(g, k); 0 <= p <= g.len() && (forall|i: int| p <= i < g.len() ==> (#[trigger] g[i]).0.gt(k)) && (p > 0 ==> !g[p - 1].0.gt(k)) })
    decreases g.len()
{ if g.len() > 0 && g.last().0.gt(k) { seek_splits(g.drop_last(), k); let p = seek(g, k); assert forall|i: int| p <= i < g.len() implies (#[trigger] g[i]).0.gt(k) by { if i < g.len() - 1 { assert(g.drop_last()[i] == g[i]); } } } }
pub proof fn total_at<K: MapKey>(ks: Seq<K>, a: K, b: K, c: K)
    requires total(ks), ks.contains(a), ks.contains(b), ks.contains(c)
    ensures one_way(a, b), one_way(b, c), one_way(a, c), three_way(a, b, c), three_way(b, a, c), three_way(a, c, b), three_way(c, b, a), three_way(b, c, a), three_way(c, a, b), a.same(a)
{
    let (i, j, k) = (ks.index_of(a), ks.index_of(b), ks.index_of(c));
    assert(one_way(ks[i], ks[j]) && one_way(ks[j], ks[k]) && one_way(ks[i], ks[k]) && one_way(ks[i], ks[i]));
    assert(three_way(ks[i], ks[j], ks[k]) && three_way(ks[j], ks[i], ks[k]) && three_way(ks[i], ks[k], ks[j]) && three_way(ks[k], ks[j], ks[i]) && three_way(ks[j], ks[k], ks[i]) && three_way(ks[k], ks[i], ks[j]));
}
/// the groups before the place of the key are smaller, but for one that is the same; no other is the same
pub open spec fn put<K: MapKey>(g: Seq<Grp<K>>, ks: Seq<K>, t: Seq<RowS>, n: int) -> bool {
    let k = ks[n - 1]; let p = seek(g, k);
    &&& 0 <= p <= g.len() && ks.contains(k)
    &&& forall|i: int| p <= i < g.len() ==> (#[trigger] g[i]).0.gt(k)
    &&& forall|i: int| 0 <= i < p && !(hit(g, k) && i == p - 1) ==> k.gt((#[trigger] g[i]).0)
    &&& forall|i: int| 0 <= i < g.len() && !(hit(g, k) && i == p - 1) ==> !k.same((#[trigger] g[i]).0)
}
#[verifier::spinoff_prover]
pub proof fn put_right<K: MapKey>(g: Seq<Grp<K>>, ks: Seq<K>, t: Seq<RowS>, n: int)
    requires 0 < n <= ks.len(), n < t.len(), total(ks), groups_right(g, ks, t, n - 1)
    ensures put(g, ks, t, n)
{
    let k = ks[n - 1]; let p = seek(g, k);
    seek_splits(g, k);
    assert(ks.contains(k));
    assert forall|i: int| 0 <= i < p && !(hit(g, k) && i == p - 1) implies k.gt((#[trigger] g[i]).0) by {
        assert(ks.contains(g[i].0) && ks.contains(g[p - 1].0));
        total_at(ks, g[i].0, g[p - 1].0, k);
        if i < p - 1 { assert(g[p - 1].0.gt(g[i].0)); }
    }
    assert forall|i: int| 0 <= i < g.len() && !(hit(g, k) && i == p - 1) implies !k.same((#[trigger] g[i]).0) by {
        assert(ks.contains(g[i].0)); total_at(ks, k, g[i].0, k); if i >= p { assert(g[i].0.gt(k)); }
    }
}
#[verifier::spinoff_prover]
pub proof fn hit_right<K: MapKey>(g: Seq<Grp<K>>, ks: Seq<K>, t: Seq<RowS>, n: int)
    requires 0 < n <= ks.len(), n < t.len(), total(ks), groups_right(g, ks, t, n - 1), put(g, ks, t, n), hit(g, ks[n - 1])
    ensures groups_right(joins(g, ks[n - 1], t[0], t[n]), ks, t, n)
{
    let k = ks[n - 1]; let p = seek(g, k); let r = joins(g, k, t[0], t[n]);
    assert(ks.contains(g[p - 1].0)); total_at(ks, k, g[p - 1].0, k);
    assert(forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == g[i].0);
    assert forall|i: int| 0 <= i < r.len() implies ks.contains((#[trigger] r[i]).0) && r[i].1 == seq![t[0]] + with_key(ks, t, n, r[i].0) by {
        assert(ks.contains(g[i].0));
        if i == p - 1 { assert((seq![t[0]] + with_key(ks, t, n - 1, g[i].0)).push(t[n]) =~= seq![t[0]] + with_key(ks, t, n, g[i].0)); }
        else { assert(r[i] == g[i]); assert(!k.same(g[i].0)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[j]).0.gt((#[trigger] r[i]).0) by { assert(g[j].0.gt(g[i].0)); }
    assert forall|j: int| 0 <= j < n implies has_group(r, #[trigger] ks[j]) by {
        if j == n - 1 { assert(r[p - 1].0.same(k)); } else { assert(has_group(g, ks[j])); let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0.same(ks[j]); assert(r[i].0 == g[i].0); }
    }
}
#[verifier::spinoff_prover]
pub proof fn first_right<K: MapKey>(g: Seq<Grp<K>>, ks: Seq<K>, t: Seq<RowS>, n: int)
    requires 0 < n <= ks.len(), n < t.len(), total(ks), groups_right(g, ks, t, n - 1), put(g, ks, t, n), !hit(g, ks[n - 1])
    ensures with_key(ks, t, n, ks[n - 1]) == seq![t[n]]
{
    let k = ks[n - 1];
    assert forall|j: int| 0 <= j < n - 1 implies !(#[trigger] ks[j]).same(k) by {
        assert(has_group(g, ks[j])); let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0.same(ks[j]);
        assert(ks.contains(g[i].0) && ks.contains(ks[j])); total_at(ks, g[i].0, ks[j], k); assert(!k.same(g[i].0));
    }
    with_none(ks, t, n - 1, k); total_at(ks, k, k, k);
    assert(with_key(ks, t, n, k) =~= seq![t[n]]);
}
#[verifier::spinoff_prover]
pub proof fn miss_right<K: MapKey>(g: Seq<Grp<K>>, ks: Seq<K>, t: Seq<RowS>, n: int)
    requires 0 < n <= ks.len(), n < t.len(), total(ks), groups_right(g, ks, t, n - 1), put(g, ks, t, n), !hit(g, ks[n - 1])
    ensures groups_right(joins(g, ks[n - 1], t[0], t[n]), ks, t, n)
{
    let k = ks[n - 1]; let p = seek(g, k); let r = joins(g, k, t[0], t[n]);
    first_right(g, ks, t, n);
    assert(seq![t[0], t[n]] =~= seq![t[0]] + seq![t[n]]);
    assert(r[p] == (k, seq![t[0], t[n]]));
    assert(forall|i: int| 0 <= i < p ==> (#[trigger] r[i]) == g[i]);
    assert(forall|i: int| p < i < r.len() ==> (#[trigger] r[i]) == g[i - 1]);
    assert forall|i: int| 0 <= i < r.len() implies ks.contains((#[trigger] r[i]).0) && r[i].1 == seq![t[0]] + with_key(ks, t, n, r[i].0) by {
        if i != p { let m = if i < p { i } else { i - 1 }; assert(r[i] == g[m]); assert(ks.contains(g[m].0)); assert(!k.same(g[m].0)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[j]).0.gt((#[trigger] r[i]).0) by {
        let (a, b) = (if i < p { i } else { i - 1 }, if j < p { j } else { j - 1 });
        if i == p { assert(g[b].0.gt(k)); } else if j == p { assert(k.gt(g[a].0)); } else { assert(g[b].0.gt(g[a].0)); }
    }
    assert forall|j: int| 0 <= j < n implies has_group(r, #[trigger] ks[j]) by {
        if j == n - 1 { total_at(ks, k, k, k); assert(r[p].0.same(ks[j])); } else { assert(has_group(g, ks[j])); let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0.same(ks[j]); let m = if i < p { i } else { i + 1 }; assert(r[m] == g[i]); }
    }
}
pub proof fn grouped_right<K: MapKey>(ks: Seq<K>, t: Seq<RowS>, n: int)
    requires 0 <= n <= ks.len(), n > 0 ==> n < t.len(), total(ks)
    ensures groups_right(grouped(ks, t, n), ks, t, n)
    decreases n
{
    hide(groups_right); hide(put); hide(total);
    if n > 0 {
        let g = grouped(ks, t, n - 1);
        grouped_right(ks, t, n - 1); put_right(g, ks, t, n);
        if hit(g, ks[n - 1]) { hit_right(g, ks, t, n); } else { miss_right(g, ks, t, n); }
    } else { none_right(ks, t); }
}
pub proof fn none_right<K: MapKey>(ks: Seq<K>, t: Seq<RowS>) ensures groups_right(grouped(ks, t, 0), ks, t, 0) {}
pub proof fn lex_equal(a: Seq<char>, b: Seq<char>) ensures (lex(a, b) == Ordering::Equal) == (a == b) decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lex_equal(a.drop_first(), b.drop_first());
        if a[0] == b[0] && a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn texts_total(ks: Seq<String>) ensures total(ks)
{
    assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() implies #[trigger] one_way(ks[i], ks[j]) by { lex_flip(ks[i]@, ks[j]@); lex_equal(ks[i]@, ks[j]@); }
    assert forall|i: int, j: int, k: int| 0 <= i < ks.len() && 0 <= j < ks.len() && 0 <= k < ks.len() implies #[trigger] three_way(ks[i], ks[j], ks[k]) by {
        let (a, b, c) = (ks[i]@, ks[j]@, ks[k]@); lex_flip(a, b); lex_flip(b, c); lex_flip(a, c);
        if lex(c, b) != Ordering::Greater && lex(b, a) != Ordering::Greater { lex_trans(c, b, a); }
    }
}
pub proof fn ordered_total<'a>(ks: Seq<GrpByKey<'a>>, vs: Seq<Value>, b: BinaryOp)
    requires keyed(ks, vs, b), orders(b, vs)
    ensures total(ks)
{
    assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() implies #[trigger] one_way(ks[i], ks[j]) by {
        assert(compared(b, vs[i], vs[j]) is Some && compared(b, vs[j], vs[i]) is Some);
        assert(compared(b, vs[i], vs[j]) == Some(flip(compared(b, vs[j], vs[i])->Some_0)));
    }
    assert forall|i: int, j: int, k: int| 0 <= i < ks.len() && 0 <= j < ks.len() && 0 <= k < ks.len() implies #[trigger] three_way(ks[i], ks[j], ks[k]) by {
        let (x, y, z) = (vs[i], vs[j], vs[k]);
        assert(compared(b, x, y) == Some(flip(compared(b, y, x)->Some_0)) && compared(b, y, z) == Some(flip(compared(b, z, y)->Some_0)) && compared(b, x, z) == Some(flip(compared(b, z, x)->Some_0)));
        assert(compared(b, x, y) is Some && compared(b, y, z) is Some && compared(b, z, x) is Some && compared(b, y, x) is Some && compared(b, z, y) is Some && compared(b, x, z) is Some);
        if compared(b, z, y) != Some(Ordering::Greater) && compared(b, y, x) != Some(Ordering::Greater) { assert(compared(b, z, x) != Some(Ordering::Greater)); }
        if compared(b, x, y) != Some(Ordering::Greater) && compared(b, y, z) != Some(Ordering::Greater) { assert(compared(b, x, z) != Some(Ordering::Greater)); }
    }
}
