// --- rules shared by the units over the language's values ---
//@rule err_eval
Error::eval($s_a)
//@=>
v_err()
//@endrule
//@rule err_any
Error::insufficient_args($s_a)
//@=>
v_err()
//@endrule
//@rule err_hdr
Error::header_not_found($s_a)
//@=>
v_err()
//@endrule
//@rule err_empty
Error::empty_table($s_a)
//@=>
v_err()
//@endrule
//@rule err_row
Error::row_out_of_bounds($s_a)
//@=>
v_err()
//@endrule
//@rule err_entry
Error::unexp_entry_ty($s_a)
//@=>
v_err()
//@endrule
//@rule arg_t type
eng::Argument
//@=>
Argument
//@endrule
//@rule par_rows
par_over_tablerows($s_b, $s_t, $s_c, |$p_k, $p_c, $p_r| $e)
//@=>
{ let mut __err: Option<Error> = None; { let __buf = $s_b; let __tab = $s_t; let mut __cx = v_cx($s_c); let mut __row: usize = 1; while __row < __buf.len() { let __map = ColMap::fresh(__tab); let $p_r = TableRow::new(__tab.clone(), __map, __row); let __slot = v_at_mut(__buf, __row); let __res: Result<()> = { let $p_k = __slot; let $p_c = &mut __cx; __try!($e) }; if let Err(__e) = __res { __err = Some(__e); } __row += 1; } } match __err { None => Ok(()), Some(__e) => Err(__e) } }
//@endrule
//@rule row_new
TableRow::new($s_t, Default::default(), $s_i)
//@=>
{ let __t = $s_t; let __m = ColMap::fresh(&__t); TableRow::new(__t, __m, $s_i) }
//@endrule
//@rule map_put
$r.map(|$p_x| *$i_k = $e)
//@=>
match $r { Ok($p_x) => { *$i_k = $e; Ok(()) } Err(__e) => Err(__e) }
//@endrule
//@rule put_ok
(*$i_k = $e, Ok(())).1
//@=>
{ *$i_k = $e; Ok(()) }
//@endrule
//@rule all_kept
$b_k.par_iter().all(|$i_x| *$i_y)
//@=>
v_all(&$b_k)
//@endrule
//@rule how_many
$b_k.par_iter().filter(|&&$i_x| $i_y).count()
//@=>
v_any_number()
//@endrule
//@rule idx_fold
(0..$n).filter(|&$p_x| $c).fold($s_i, |mut $i_acc, $p_y| $e)
//@=>
{ let mut $i_acc = $s_i; let __n = $n; let mut __k: usize = 0; while __k < __n { let $p_x = __k; if $c { let $p_y = __k; $i_acc = $e; } __k += 1; } $i_acc }
//@endrule
//@rule row_vec
$r.unwrap().cloned().collect::<Vec<_>>()
//@=>
$r.unwrap().to_vec()
//@endrule
//@rule col_pos
$b_h.position(|$p_x| $e)
//@=>
{ let __v = $b_h.refs(); let mut __p: Option<usize> = None; let mut __i: usize = 0; while __i < __v.len() { let $p_x = __v[__i]; if $e { __p = Some(__i); break; } __i += 1; } __p }
//@endrule
//@rule txt_eq
$i_y == col_header
//@=>
v_txt_eq($i_y, col_header)
//@endrule
//@rule ty_ne
ty != exp
//@=>
!v_ty_eq(ty, exp)
//@endrule
//@rule entry_by
$b_t.entry($s_h, $s_g)
//@=>
$b_t.entry_by($s_h, $s_g)
//@endrule
//@rule col_by
TableRow::col_idx($s_t, $s_h, $s_g)
//@=>
TableRow::col_idx_by($s_t, $s_h, $s_g)
//@endrule
//@rule gen_row
$b_f.gen_keep_arr_with_table_row_input($a, $b)
//@=>
$b_f.gen_keep_arr_with_table_row_input($a, $b, w)
//@endrule
//@rule gen_col
$b_f.gen_keep_arr_with_known_col($a, $b)
//@=>
$b_f.gen_keep_arr_with_known_col($a, $b, w)
//@endrule
//@rule colmap stmt
let colmap = types::TableRowColMap::default();
//@=>
let colmap = ColMap::fresh(&table);
//@endrule
//@rule for_range
for $p_i in $a..$b { $s_body }
//@=>
{ let __end = $b; let mut __it = $a; while __it < __end { let $p_i = __it; __it += 1; $s_body } }
//@endrule
//@rule var_t type
eng::Variable
//@=>
Variable
//@endrule
//@rule nil_vec
repeat_with(|| Value::Nil).take($n).collect()
//@=>
v_nils($n)
//@endrule
//@rule nil_vec2
repeat(Value::Nil).take($n).collect()
//@=>
v_nils($n)
//@endrule
//@rule put_col
$b_t.make_mut().col_mut($c).expect($m).zip($v.into_iter()).skip($k).for_each(|($i_a, $i_b)| *$i_a = $i_b.into())
//@=>
$b_t.v_put_col($c, $v, $k)
//@endrule
//@rule put_col2
$b_t.make_mut().col_mut($c).expect($m).zip($v.into_iter()).skip($k).for_each(|($i_a, $i_b)| *$i_a = v_into($i_b))
//@=>
$b_t.v_put_col($c, $v, $k)
//@endrule
//@rule vec_fill
vec![true; $e]
//@=>
v_all_true($e)
//@endrule
//@rule resolve
$b_a.resolve(|| $v, &cx)
//@=>
v_resolve(&$b_a, $v, &cx, w)
//@endrule
//@rule resolve_ref
$b_a.resolve(|| $v, cx)
//@=>
v_resolve(&$b_a, $v, &*cx, w)
//@endrule
//@rule resolver stmt
let predicate = $b_a.resolver_sync($e);
//@=>
let predicate = (&$b_a, $e);
//@endrule
//@rule resolver_r stmt
let r = $b_a.resolver_sync($e);
//@=>
let predicate = (&$b_a, $e);
//@endrule
//@rule pred_call
predicate($e)
//@=>
v_resolve(predicate.0, $e, predicate.1, w)
//@endrule
//@rule ok_or_else
$r.ok_or_else(|| $e)
//@=>
match $r { Some(__v) => Ok(__v), None => Err($e) }
//@endrule
//@rule ok_or_else2
$r.ok_or_else($i_f)
//@=>
match $r { Some(__v) => Ok(__v), None => Err($i_f()) }
//@endrule
//@rule cloned_rows
$r.map(|x| x.cloned())
//@=>
$r
//@endrule
//@rule try_T
T::try_from($e)
//@=>
T::v_from($e)
//@endrule
//@rule try_any
$i_T::try_from($e)
//@=>
<$i_T as Cast>::cast($e)
//@endrule
//@rule res_map_err
$r.map_err(|$p_e| $x)
//@=>
match $r { Ok(__v) => Ok(__v), Err($p_e) => Err($x) }
//@endrule
//@rule res_and_then_f
$r.and_then(Str::try_from)
//@=>
match $r { Ok(__v) => <Str as Cast>::cast(__v), Err(__e) => Err(__e) }
//@endrule
//@rule res_and_then_b
$r.and_then(bool::try_from)
//@=>
match $r { Ok(__v) => <bool as Cast>::cast(__v), Err(__e) => Err(__e) }
//@endrule
//@rule res_and_then_t
$r.and_then(TryInto::try_into)
//@=>
match $r { Ok(__v) => __v.try_into(), Err(__e) => Err(__e) }
//@endrule
//@rule row_and_then
$b_t.row($i).and_then(|$p_e| $x)
//@=>
match $b_t.row($i) { Some($p_e) => $x, None => None }
//@endrule
//@rule copied
$b_m.get($k).copied()
//@=>
match $b_m.get($k) { Some(__v) => Some(*__v), None => None }
//@endrule
//@rule res_and_then
$r.and_then(|$p_e| $x)
//@=>
match $r { Ok($p_e) => $x, Err(__e) => Err(__e) }
//@endrule
//@rule res_map_str
$r.map(Str::from)
//@=>
match $r { Ok(__v) => Ok(Str::from(__v)), Err(__e) => Err(__e) }
//@endrule
//@rule res_map_num
$r.map(Number::from)
//@=>
match $r { Ok(__v) => Ok(Number::from(__v)), Err(__e) => Err(__e) }
//@endrule
//@rule res_map
$r.map(|$p_x| $x)
//@=>
match $r { Ok($p_x) => Ok($x), Err(__e) => Err(__e) }
//@endrule
//@rule entry_t type
Entry<Value>
//@=>
Entry
//@endrule
//@rule inner_new
::table::Table::new()
//@=>
Table::new()
//@endrule
//@rule inner_new2
table::Table::new()
//@=>
Table::new()
//@endrule
//@rule inner_def
::table::Table::default()
//@=>
Table::new()
//@endrule
//@rule inner_def2
InnerTable::default()
//@=>
Table::new()
//@endrule
//@rule inner_def3
InnerTable::new()
//@=>
Table::new()
//@endrule
//@rule inner_from
::table::Table::from($e)
//@=>
Table::from($e)
//@endrule
//@rule inner_from2
table::Table::from($e)
//@=>
Table::from($e)
//@endrule
//@rule inner_from3
InnerTable::from($e)
//@=>
Table::from($e)
//@endrule
//@rule retain_keep
$b_t.retain_rows(|$i_i, _| keep[$i_i])
//@=>
$b_t.v_retain(keep)
//@endrule
//@rule retain_rows
$b_t.retain_rows(|$i_i, _| $e)
//@=>
$b_t.v_retain_by(__raw!(|$i_i: usize| -> (__b: bool) ensures __b == ($e) { $e }))
//@endrule
//@rule into
$e.into()
//@=>
v_into($e)
//@endrule
#[verifier::external_body]
pub struct Error { p: u8 }
#[verifier::external_body]
pub fn v_all_true(n: usize) -> (r: Vec<bool>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] { unimplemented!() }
#[verifier::external_body]
pub fn v_nils(n: usize) -> (r: Vec<Value>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == Value::Nil { unimplemented!() }
#[verifier::external_body]
pub fn v_any_number() -> usize { unimplemented!() }
#[verifier::external_body]
pub fn v_all(k: &[bool]) -> (r: bool) ensures r == (forall|i: int| 0 <= i < k@.len() ==> #[trigger] k@[i]) { unimplemented!() }
#[verifier::external_body]
pub fn v_err() -> Error { unimplemented!() }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Number { p: u8 }
/// the unsigned integer a number stands for
pub uninterp spec fn num_uint(n: Number) -> Option<nat>;
/// where a number stands in the order of numbers
// assume: the order of kserd's Number is total and agrees with its equality
pub uninterp spec fn num_rank(n: Number) -> int;
/// the number for an unsigned integer
pub uninterp spec fn num_of(n: nat) -> Number;
pub trait Unsigned: Sized {
    spec fn un(self) -> nat;
    spec fn lim() -> nat;
    fn v_from(n: u128) -> (r: core::result::Result<Self, ()>) ensures r is Ok <==> n <= Self::lim(), r is Ok ==> r->Ok_0.un() == n;
    fn number(self) -> (r: Number) ensures r == num_of(self.un());
}
impl Unsigned for usize {
    open spec fn un(self) -> nat { self as nat }
    open spec fn lim() -> nat { usize::MAX as nat }
    #[verifier::external_body] fn v_from(n: u128) -> core::result::Result<usize, ()> { unimplemented!() }
    #[verifier::external_body] fn number(self) -> Number { unimplemented!() }
}
impl Unsigned for u128 {
    open spec fn un(self) -> nat { self as nat }
    open spec fn lim() -> nat { u128::MAX as nat }
    fn v_from(n: u128) -> core::result::Result<u128, ()> { Ok(n) }
    #[verifier::external_body] fn number(self) -> Number { unimplemented!() }
}
impl Number {
    pub fn from<T: Unsigned>(n: T) -> (r: Number) ensures r == num_of(n.un()) { n.number() }
    #[verifier::external_body] pub fn as_u128(&self) -> (r: core::result::Result<u128, ()>)
        ensures r is Ok ==> num_uint(*self) == Some(r->Ok_0 as nat), r is Err ==> num_uint(*self) is None || num_uint(*self)->Some_0 > u128::MAX
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_txt_eq(a: &Str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_ty_eq(a: &Type, b: &Type) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub fn v_at_mut<'a, T>(v: &'a mut Vec<T>, i: usize) -> (r: &'a mut T)
    requires i < old(v)@.len()
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r))
{ &mut v[i] }
// --- text ---
#[verifier::external_body]
pub struct Str { p: u8 }
pub trait ToStr { spec fn cs(&self) -> Seq<char>; }
impl ToStr for char { open spec fn cs(&self) -> Seq<char> { seq![*self] } }
impl ToStr for String { open spec fn cs(&self) -> Seq<char> { self@ } }
impl<'a> ToStr for &'a str { open spec fn cs(&self) -> Seq<char> { (*self)@ } }
impl Str {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn from<T: ToStr>(t: T) -> (r: Str) ensures r@ == t.cs() { unimplemented!() }
    #[verifier::external_body] pub fn chars(&self) -> (r: Chars) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Str) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Str) ensures r@ == Seq::<char>::empty() { unimplemented!() }
}
pub trait AsText { spec fn txt(&self) -> Seq<char>; fn v_text(&self) -> (r: &str) ensures r@ == self.txt(); }
impl<'b> AsText for &'b str { open spec fn txt(&self) -> Seq<char> { (**self)@ } fn v_text(&self) -> &str { *self } }
impl<'b> AsText for &'b Str { open spec fn txt(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn v_text(&self) -> &str { unimplemented!() } }
#[verifier::external_body]
pub struct Chars { p: u8 }
pub trait OfChars: Sized { spec fn is_of(self, s: Seq<char>) -> bool; }
impl OfChars for Str { open spec fn is_of(self, s: Seq<char>) -> bool { self@ == s } }
impl OfChars for String { open spec fn is_of(self, s: Seq<char>) -> bool { self@ == s } }
pub open spec fn cut<A>(s: Seq<A>, n: nat) -> Seq<A> { if n <= s.len() { s.skip(n as int) } else { Seq::empty() } }
pub open spec fn upto<A>(s: Seq<A>, n: nat) -> Seq<A> { if n <= s.len() { s.take(n as int) } else { s } }
// assume: a text has fewer than 2^64 characters
impl Chars {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: Chars) ensures r@ == cut(self@, n as nat) { unimplemented!() }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: Chars) ensures r@ == upto(self@, n as nat) { unimplemented!() }
    #[verifier::external_body] pub fn rev(self) -> (r: Chars) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn nth(&mut self, n: usize) -> (r: Option<char>)
        ensures r == if n < old(self)@.len() { Some(old(self)@[n as int]) } else { None }
    { unimplemented!() }
    #[verifier::external_body] pub fn collect<T: OfChars>(self) -> (r: T) ensures r.is_of(self@) { unimplemented!() }
}
// --- values ---
#[verifier::external_body]
pub struct Tag { p: u8 }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Arc<T> { p: std::marker::PhantomData<T> }
#[verifier::external_body]
pub struct TypeDef { p: u8 }
#[verifier::external_body]
pub struct OgmaData { p: u8 }
pub enum Type { Nil, Bool, Num, Str, Tab, TabRow, Def(TypeDef) }
pub struct TableRow { pub table: Table, pub idx: usize, pub cached_col_indices: ColMap }
/// a row of its table, with a memory of the table's columns
pub open spec fn row_wf(r: TableRow) -> bool { r.cached_col_indices.of() == r.table@ && r.idx < r.table@.len() }
pub enum Value { Nil, Bool(bool), Num(Number), Str(Str), Tab(Table), TabRow(TableRow), Ogma(OgmaData) }
pub enum Entry { Obj(Value), Num(Number), Nil }
pub uninterp spec fn ogma_ty(d: OgmaData) -> TypeDef;
/// the type of a value
pub open spec fn ty_of(v: Value) -> Type {
    match v {
        Value::Nil => Type::Nil, Value::Bool(_) => Type::Bool, Value::Num(_) => Type::Num, Value::Str(_) => Type::Str,
        Value::Tab(_) => Type::Tab, Value::TabRow(_) => Type::TabRow, Value::Ogma(d) => Type::Def(ogma_ty(d)),
    }
}
/// the value of an entry, and the entry for a value
pub open spec fn val_of(e: Entry) -> Value { match e { Entry::Obj(v) => v, Entry::Num(n) => Value::Num(n), Entry::Nil => Value::Nil } }
pub open spec fn entry_of(v: Value) -> Entry { match v { Value::Num(n) => Entry::Num(n), Value::Nil => Entry::Nil, v => Entry::Obj(v) } }
impl Type { #[verifier::external_body] pub fn clone(&self) -> (r: Type) ensures r == *self { unimplemented!() } }
impl Value {
    #[verifier::external_body] pub fn clone(&self) -> (r: Value) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn ty(&self) -> (r: Type) ensures r == ty_of(*self) { unimplemented!() }
    pub fn try_into<T: Cast>(self) -> (r: Result<T>) ensures T::cast_ok(self) == (r is Ok), r is Ok ==> r->Ok_0.val() == self { T::cast(self) }
}
impl Entry {
    #[verifier::external_body] pub fn clone(&self) -> (r: Entry) ensures r == *self { unimplemented!() }
    pub fn is_nil(&self) -> (r: bool) ensures r == (*self is Nil) { match self { Entry::Nil => true, _ => false } }
    pub fn from(v: Value) -> (r: Entry) ensures r == entry_of(v) { match v { Value::Num(n) => Entry::Num(n), Value::Nil => Entry::Nil, v => Entry::Obj(v) } }
    pub fn default() -> (r: Entry) ensures r == Entry::Nil { Entry::Nil }
}
// assume: a value converts to a type exactly when it has that type (the TryFrom impls in types.rs)
pub trait Cast: Sized {
    spec fn val(self) -> Value;
    spec fn cast_ok(v: Value) -> bool;
    fn cast(v: Value) -> (r: Result<Self>) ensures Self::cast_ok(v) == (r is Ok), r is Ok ==> r->Ok_0.val() == v;
}
impl Cast for Table {
    open spec fn val(self) -> Value { Value::Tab(self) }
    open spec fn cast_ok(v: Value) -> bool { v is Tab }
    fn cast(v: Value) -> Result<Table> { match v { Value::Tab(t) => Ok(t), _ => Err(v_err()) } }
}
impl Cast for Str {
    open spec fn val(self) -> Value { Value::Str(self) }
    open spec fn cast_ok(v: Value) -> bool { v is Str }
    fn cast(v: Value) -> Result<Str> { match v { Value::Str(t) => Ok(t), _ => Err(v_err()) } }
}
impl Cast for Number {
    open spec fn val(self) -> Value { Value::Num(self) }
    open spec fn cast_ok(v: Value) -> bool { v is Num }
    fn cast(v: Value) -> Result<Number> { match v { Value::Num(t) => Ok(t), _ => Err(v_err()) } }
}
impl Cast for bool {
    open spec fn val(self) -> Value { Value::Bool(self) }
    open spec fn cast_ok(v: Value) -> bool { v is Bool }
    fn cast(v: Value) -> Result<bool> { match v { Value::Bool(t) => Ok(t), _ => Err(v_err()) } }
}
impl Cast for TableRow {
    open spec fn val(self) -> Value { Value::TabRow(self) }
    open spec fn cast_ok(v: Value) -> bool { v is TabRow }
    fn cast(v: Value) -> Result<TableRow> { match v { Value::TabRow(t) => Ok(t), _ => Err(v_err()) } }
}
pub trait To<B>: Sized { spec fn to(self) -> B; fn v_to(self) -> (r: B) ensures r == self.to(); }
impl To<Value> for Value { open spec fn to(self) -> Value { self } fn v_to(self) -> Value { self } }
impl To<Value> for Table { open spec fn to(self) -> Value { Value::Tab(self) } fn v_to(self) -> Value { Value::Tab(self) } }
impl To<Value> for Str { open spec fn to(self) -> Value { Value::Str(self) } fn v_to(self) -> Value { Value::Str(self) } }
impl To<Value> for Number { open spec fn to(self) -> Value { Value::Num(self) } fn v_to(self) -> Value { Value::Num(self) } }
impl To<Value> for bool { open spec fn to(self) -> Value { Value::Bool(self) } fn v_to(self) -> Value { Value::Bool(self) } }
impl To<Value> for TableRow { open spec fn to(self) -> Value { Value::TabRow(self) } fn v_to(self) -> Value { Value::TabRow(self) } }
impl To<Entry> for Value { open spec fn to(self) -> Entry { entry_of(self) } fn v_to(self) -> Entry { Entry::from(self) } }
impl<'a> To<Value> for &'a Entry { open spec fn to(self) -> Value { val_of(*self) } #[verifier::external_body] fn v_to(self) -> Value { unimplemented!() } }
impl<'a> To<Str> for &'a str { open spec fn to(self) -> Str { str_of(self@) } #[verifier::external_body] fn v_to(self) -> Str { unimplemented!() } }
/// the text of some characters
pub uninterp spec fn str_of(s: Seq<char>) -> Str;
pub broadcast proof fn str_of_chars(s: Seq<char>) ensures #[trigger] str_of(s)@ == s { admit(); }
impl To<Table> for Table { open spec fn to(self) -> Table { self } fn v_to(self) -> Table { self } }
pub fn v_into<A: To<B>, B>(a: A) -> (r: B) ensures r == a.to() { a.v_to() }
// --- tables ---
pub type RowS = Seq<Entry>;
// assume: a table has at most usize::MAX rows
// assume: the table crate's tables are rectangular, padded with Nil; the first row is the header and keeps its place
#[verifier::external_body]
pub struct Table { p: u8 }
/// a row filled up to a width
pub open spec fn padded(r: RowS, n: nat) -> RowS { r + Seq::new((if n > r.len() { n - r.len() } else { 0 }) as nat, |i: int| Entry::Nil) }
pub open spec fn widest(rows: Seq<RowS>) -> nat decreases rows.len() {
    if rows.len() == 0 { 0 } else { let a = widest(rows.drop_last()); let b = rows.last().len(); if a >= b { a } else { b } }
}
pub open spec fn filled(rows: Seq<RowS>, n: nat) -> Seq<RowS> { rows.map_values(|r: RowS| padded(r, n)) }
/// all rows are of one width
pub open spec fn rect(rows: Seq<RowS>, n: nat) -> bool { forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).len() == n }
/// those of the rows that are to be kept
pub open spec fn kept(rows: Seq<RowS>, keep: Seq<bool>) -> Seq<RowS> decreases rows.len() {
    if rows.len() == 0 { Seq::empty() } else {
        let r = kept(rows.drop_last(), keep);
        if keep[rows.len() - 1] { r.push(rows.last()) } else { r }
    }
}
/// the rows with a column's entries replaced, from row k on
pub open spec fn put_col(rows: Seq<RowS>, c: int, v: Seq<Value>, k: int) -> Seq<RowS> {
    Seq::new(rows.len(), |i: int| if i >= k && i < v.len() { rows[i].update(c, entry_of(v[i])) } else { rows[i] })
}
#[verifier::external_body]
pub struct Rows<'a> { p: &'a u8 }
#[verifier::external_body]
pub struct RowIt<'a> { p: &'a u8 }
impl<'a> Rows<'a> {
    pub uninterp spec fn view(&self) -> Seq<RowS>;
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: Rows<'a>) ensures r@ == cut(self@, n as nat) { unimplemented!() }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: Rows<'a>) ensures r@ == upto(self@, n as nat) { unimplemented!() }
    #[verifier::external_body] pub fn chain(self, o: Rows<'a>) -> (r: Rows<'a>) ensures r@ == self@ + o@ { unimplemented!() }
}
impl<'a> RowIt<'a> {
    pub uninterp spec fn view(&self) -> RowS;
    pub open spec fn rest(&self) -> RowS { self@ }
    #[verifier::external_body] pub fn nth(&mut self, n: usize) -> (r: Option<&'a Entry>)
        ensures match r { Some(e) => n < old(self)@.len() && *e == old(self)@[n as int], None => n >= old(self)@.len() }
    { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a Entry>)
        ensures match r { Some(e) => 0 < old(self)@.len() && *e == old(self)@[0], None => 0 == old(self)@.len() }
    { unimplemented!() }
    #[verifier::external_body] pub fn cloned(self) -> (r: RowIt<'a>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: RowIt<'a>) ensures r@ == upto(self@, n as nat) { unimplemented!() }
    #[verifier::external_body] pub fn to_vec(self) -> (r: Vec<Entry>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn refs(self) -> (r: Vec<&'a Entry>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { unimplemented!() }
}
pub trait RowSrc: Sized { spec fn rows(self) -> Seq<RowS>; }
impl<'a> RowSrc for Rows<'a> { open spec fn rows(self) -> Seq<RowS> { self@ } }
pub trait ToTable: Sized { spec fn is_table(self, t: Table) -> bool; }
impl ToTable for Table { open spec fn is_table(self, t: Table) -> bool { t == self } }
pub open spec fn raw(v: Vec<Vec<Entry>>) -> Seq<RowS> { v@.map_values(|r: Vec<Entry>| r@) }
impl ToTable for Vec<Vec<Entry>> {
    open spec fn is_table(self, t: Table) -> bool { t@ == filled(raw(self), widest(raw(self))) && t.width() == widest(raw(self)) }
}
impl Table {
    pub uninterp spec fn view(&self) -> Seq<RowS>;
    pub uninterp spec fn width(&self) -> nat;
    #[verifier::external_body] pub proof fn rect(&self) ensures rect(self@, self.width()), self@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Table) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Table) ensures r@ == Seq::<RowS>::empty(), r.width() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn from<T: ToTable>(t: T) -> (r: Table) ensures t.is_table(r) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<'a>(&'a mut self) -> (r: Option<&'a mut Table>)
        ensures match r { Some(t) => *t == *old(self) && *final(self) == *final(t), None => *final(self) == *old(self) }
    { unimplemented!() }
    #[verifier::external_body] pub fn make_mut<'a>(&'a mut self) -> (r: &'a mut Table) ensures *r == *old(self) && *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn rows_len(&self) -> (r: usize) ensures r == self@.len(), rect(self@, self.width()) { unimplemented!() }
    #[verifier::external_body] pub fn cols_len(&self) -> (r: usize) ensures r == self.width(), rect(self@, self.width()) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0 || self.width() == 0), rect(self@, self.width()) { unimplemented!() }
    #[verifier::external_body] pub fn rows(&self) -> (r: Rows) ensures r@ == self@, rect(self@, self.width()) { unimplemented!() }
    #[verifier::external_body] pub fn row<'a>(&'a self, i: usize) -> (r: Option<RowIt<'a>>)
        ensures rect(self@, self.width()), match r { Some(x) => i < self@.len() && x@ == self@[i as int], None => i >= self@.len() }
    { unimplemented!() }
    #[verifier::external_body] pub fn add_rows<R: RowSrc>(&mut self, r: R)
        ensures ({ let n = if widest(r.rows()) > old(self).width() { widest(r.rows()) } else { old(self).width() };
            final(self)@ == filled(old(self)@ + r.rows(), n) && final(self).width() == n })
    { unimplemented!() }
    #[verifier::external_body] pub fn add_row(&mut self, r: RowIt)
        ensures ({ let n = if r@.len() > old(self).width() { r@.len() } else { old(self).width() };
            final(self)@ == filled(old(self)@.push(r@), n) && final(self).width() == n })
    { unimplemented!() }
    #[verifier::external_body] pub fn v_retain(&mut self, keep: &Vec<bool>)
        requires keep@.len() >= old(self)@.len()
        ensures final(self)@ == kept(old(self)@, keep@), final(self).width() == old(self).width()
    { unimplemented!() }
    #[verifier::external_body] pub fn v_retain_by<F: Fn(usize) -> bool>(&mut self, f: F)
        requires forall|i: usize| f.requires((i,))
        ensures final(self).width() == old(self).width(),
            exists|keep: Seq<bool>| keep.len() == old(self)@.len() && (forall|i: int| 0 <= i < keep.len() ==> f.ensures((i as usize,), #[trigger] keep[i])) && final(self)@ == #[trigger] kept(old(self)@, keep)
    { unimplemented!() }
    #[verifier::external_body] pub fn reverse_rows(&mut self)
        ensures final(self)@ == upto(old(self)@, 1) + cut(old(self)@, 1).reverse(), final(self).width() == old(self).width()
    { unimplemented!() }
    #[verifier::external_body] pub fn reverse_cols_par(&mut self)
        ensures final(self)@ == old(self)@.map_values(|r: RowS| r.reverse()), final(self).width() == old(self).width()
    { unimplemented!() }
    #[verifier::external_body] pub fn remove_row(&mut self, i: usize)
        requires i < old(self)@.len()
        ensures final(self)@ == old(self)@.remove(i as int), final(self).width() == old(self).width()
    { unimplemented!() }
    #[verifier::external_body] pub fn v_put_col(&mut self, c: usize, v: Vec<Value>, k: usize)
        requires c < old(self).width()
        ensures final(self)@ == put_col(old(self)@, c as int, v@, k as int), final(self).width() == old(self).width()
    { unimplemented!() }
    #[verifier::external_body] pub fn into_raw(self) -> (r: Vec<Vec<Entry>>) ensures raw(r) == self@ { unimplemented!() }
}
/// the column with a header, the first from the left
pub open spec fn titled(e: Entry, h: Seq<char>) -> bool { e is Obj && e->Obj_0 is Str && e->Obj_0->Str_0@ == h }
pub open spec fn first_col(r: RowS, h: Seq<char>, i: nat) -> bool { i < r.len() && titled(r[i as int], h) && forall|j: int| 0 <= j < i ==> !titled(#[trigger] r[j], h) }
pub open spec fn no_col(r: RowS, h: Seq<char>) -> bool { forall|j: int| 0 <= j < r.len() ==> !titled(#[trigger] r[j], h) }
pub open spec fn col_of(t: Seq<RowS>, h: Seq<char>, i: nat) -> bool { t.len() > 0 && first_col(t[0], h, i) }
pub open spec fn col_less(t: Seq<RowS>, h: Seq<char>) -> bool { t.len() == 0 || no_col(t[0], h) }
// assume: the memory of column positions is shared only between rows of one table (every maker of rows is checked for that), nothing else touches it
#[verifier::external_body]
pub struct ColMap { p: u8 }
#[verifier::external_body]
pub struct ColLock<'a> { p: &'a u8 }
impl ColMap {
    pub uninterp spec fn of(&self) -> Seq<RowS>;
    #[verifier::external_body] pub fn fresh(t: &Table) -> (r: ColMap) ensures r.of() == t@ { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: ColMap) ensures r.of() == self.of() { unimplemented!() }
    #[verifier::external_body] pub fn lock(&self) -> (r: ColLock) ensures r.of() == self.of() { unimplemented!() }
}
impl<'a> ColLock<'a> {
    pub uninterp spec fn of(&self) -> Seq<RowS>;
    #[verifier::external_body] pub fn get(&self, h: &str) -> (r: Option<&usize>) ensures match r { Some(i) => col_of(self.of(), h@, *i as nat), None => true } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, h: Str, i: usize) requires col_of(old(self).of(), h@, i as nat) ensures final(self).of() == old(self).of() { unimplemented!() }
}
/// rows of one width need no filling
pub proof fn filled_rect(rows: Seq<RowS>, n: nat)
    requires rect(rows, n)
    ensures filled(rows, n) == rows
{
    assert forall|i: int| 0 <= i < rows.len() implies #[trigger] filled(rows, n)[i] == rows[i] by { assert(padded(rows[i], n) =~= rows[i]); }
    assert(filled(rows, n) =~= rows);
}
pub proof fn widest_rect(rows: Seq<RowS>, n: nat)
    requires rect(rows, n)
    ensures widest(rows) == if rows.len() == 0 { 0 } else { n }
    decreases rows.len()
{ if rows.len() > 0 { widest_rect(rows.drop_last(), n); } }
/// building a table from rows of one width
pub proof fn plain(x: Seq<RowS>, wd: nat)
    requires rect(x, wd)
    ensures x == filled(Seq::<RowS>::empty() + x, widest(x)), x == filled(x, widest(x))
{
    widest_rect(x, wd);
    if x.len() > 0 { filled_rect(x, wd); } else { assert(filled(x, 0) =~= x); }
    assert(Seq::<RowS>::empty() + x =~= x);
}
/// keeping a row and the rows before it one by one
pub proof fn kept_push(rows: Seq<RowS>, keep: Seq<bool>)
    requires rows.len() > 0
    ensures kept(rows, keep) == if keep[rows.len() - 1] { kept(rows.drop_last(), keep).push(rows.last()) } else { kept(rows.drop_last(), keep) }
{ }
pub proof fn kept_rect(rows: Seq<RowS>, keep: Seq<bool>, wd: nat)
    requires rect(rows, wd)
    ensures rect(kept(rows, keep), wd)
    decreases rows.len()
{ if rows.len() > 0 { kept_rect(rows.drop_last(), keep, wd); } }
pub proof fn kept_all(rows: Seq<RowS>, keep: Seq<bool>)
    requires forall|i: int| 0 <= i < rows.len() ==> #[trigger] keep[i]
    ensures kept(rows, keep) == rows
    decreases rows.len()
{ if rows.len() > 0 { kept_all(rows.drop_last(), keep); assert(rows.drop_last().push(rows.last()) =~= rows); } else { assert(kept(rows, keep) =~= rows); } }
/// keeping none but the first n
pub proof fn kept_front(rows: Seq<RowS>, keep: Seq<bool>, n: nat)
    requires keep.len() >= rows.len(), forall|i: int| 0 <= i < rows.len() ==> #[trigger] keep[i] == (i < n)
    ensures kept(rows, keep) == upto(rows, n)
    decreases rows.len()
{
    if rows.len() > 0 {
        kept_front(rows.drop_last(), keep, n);
        if rows.len() <= n { assert(rows.drop_last().push(rows.last()) =~= rows); assert(upto(rows.drop_last(), n) =~= rows.drop_last()); assert(upto(rows, n) =~= rows); }
        else { assert(upto(rows.drop_last(), n) =~= upto(rows, n)); }
    } else { assert(upto(rows, n) =~= rows); }
}
/// keeping the header and what follows the n rows after it
pub proof fn kept_back(rows: Seq<RowS>, keep: Seq<bool>, n: nat)
    requires keep.len() >= rows.len(), forall|i: int| 0 <= i < rows.len() ==> #[trigger] keep[i] == (i == 0 || i > n)
    ensures kept(rows, keep) == upto(rows, 1) + cut(rows, n + 1)
    decreases rows.len()
{
    if rows.len() > 0 {
        let r = rows.drop_last();
        kept_back(r, keep, n);
        if rows.len() == 1 { assert(kept(r, keep) =~= Seq::empty()); assert(upto(rows, 1) + cut(rows, n + 1) =~= seq![rows.last()]); assert(kept(rows, keep) =~= seq![rows.last()]); }
        else if rows.len() - 1 > n { assert(upto(rows, 1) + cut(rows, n + 1) =~= (upto(r, 1) + cut(r, n + 1)).push(rows.last())); }
        else { assert(upto(rows, 1) + cut(rows, n + 1) =~= upto(r, 1) + cut(r, n + 1)); }
    } else { assert(upto(rows, 1) + cut(rows, n + 1) =~= Seq::<RowS>::empty()); }
}
// --- evaluation ---
#[verifier::external_body]
pub struct Environment { p: u8 }
#[verifier::external_body]
pub struct Variable { p: u8 }
impl Environment {
    pub uninterp spec fn view(&self) -> Map<Variable, Value>;
    #[verifier::external_body] pub fn clone(&self) -> (r: Environment) ensures r == *self { unimplemented!() }
}
impl Variable {
    #[verifier::external_body] pub fn set_data(&self, env: &mut Environment, v: Value) ensures final(env)@ == old(env)@.insert(*self, v) { unimplemented!() }
}
pub struct Context { pub env: Environment }
impl Context {
    pub fn done<V: To<Value>>(self, v: V) -> (r: Result<(Value, Environment)>) ensures r is Ok, r->Ok_0.0 == v.to(), r->Ok_0.1 == self.env { Ok((v.v_to(), self.env)) }
    pub fn done_o<T>(self, v: T) -> (r: Result<(T, Environment)>) ensures r is Ok, r->Ok_0.0 == v, r->Ok_0.1 == self.env { Ok((v, self.env)) }
}
pub fn v_cx(c: &Context) -> (r: Context) ensures r == *c { Context { env: c.env.clone() } }
pub struct Argument { pub tag: Tag, pub id: Def, pub in_ty: Type, pub out_ty: Type }
#[verifier::external_body]
pub struct Def { p: u8 }
impl Argument {
    pub fn in_ty(&self) -> (r: &Type) ensures *r == self.in_ty { &self.in_ty }
    pub fn out_ty(&self) -> (r: &Type) ensures *r == self.out_ty { &self.out_ty }
}
/// an evaluation of an argument: which, its input, the variables, what it gave (nothing on an error)
pub struct Call { pub a: Def, pub i: Value, pub e: Map<Variable, Value>, pub o: Option<Value> }
pub struct World { pub log: Ghost<Seq<Call>> }
/// the evaluations of before are still on record
pub open spec fn grows(o: World, n: World) -> bool { n.log@.len() >= o.log@.len() && forall|j: int| 0 <= j < o.log@.len() ==> #[trigger] n.log@[j] == o.log@[j] }
/// a row of a table as a value
pub open spec fn row_in(v: Value, t: Table, i: int) -> bool { v is TabRow && v->TabRow_0.table == t && v->TabRow_0.idx == i }
/// the argument was evaluated on the row, giving the value
pub open spec fn on_row(c: Call, a: Argument, e: Environment, t: Table, i: int, v: Value) -> bool { c.a == a.id && c.e == e@ && row_in(c.i, t, i) && c.o == Some(v) }
pub open spec fn asked(o: World, n: World, a: Argument, e: Environment, t: Table, i: int, v: Value) -> bool {
    exists|j: int| o.log@.len() <= j < n.log@.len() && on_row(#[trigger] n.log@[j], a, e, t, i, v)
}
/// the argument was evaluated on the value, giving the other
pub open spec fn on_val(c: Call, a: Argument, e: Environment, i: Value, v: Value) -> bool { c.a == a.id && c.e == e@ && c.i == i && c.o == Some(v) }
pub open spec fn asked_val(o: World, n: World, a: Argument, e: Environment, i: Value, v: Value) -> bool {
    exists|j: int| o.log@.len() <= j < n.log@.len() && on_val(#[trigger] n.log@[j], a, e, i, v)
}
/// an evaluation went wrong
pub open spec fn failed(o: World, n: World) -> bool { exists|j: int| o.log@.len() <= j < n.log@.len() && (#[trigger] n.log@[j]).o is None }
pub proof fn asked_more(o: World, m: World, n: World)
    requires grows(m, n)
    ensures
        forall|a: Argument, e: Environment, t: Table, i: int, v: Value| asked(o, m, a, e, t, i, v) ==> #[trigger] asked(o, n, a, e, t, i, v),
        forall|a: Argument, e: Environment, i: Value, v: Value| asked_val(o, m, a, e, i, v) ==> #[trigger] asked_val(o, n, a, e, i, v),
        failed(o, m) ==> failed(o, n),
{
    assert forall|a: Argument, e: Environment, t: Table, i: int, v: Value| asked(o, m, a, e, t, i, v) implies #[trigger] asked(o, n, a, e, t, i, v) by {
        let j = choose|j: int| o.log@.len() <= j < m.log@.len() && on_row(#[trigger] m.log@[j], a, e, t, i, v);
        assert(on_row(n.log@[j], a, e, t, i, v));
    }
    assert forall|a: Argument, e: Environment, i: Value, v: Value| asked_val(o, m, a, e, i, v) implies #[trigger] asked_val(o, n, a, e, i, v) by {
        let j = choose|j: int| o.log@.len() <= j < m.log@.len() && on_val(#[trigger] m.log@[j], a, e, i, v);
        assert(on_val(n.log@[j], a, e, i, v));
    }
    if failed(o, m) { let j = choose|j: int| o.log@.len() <= j < m.log@.len() && (#[trigger] m.log@[j]).o is None; assert(n.log@[j].o is None); }
}
// assume: an argument gives a value of its out type
#[verifier::external_body]
pub fn v_resolve(a: &Argument, v: Value, cx: &Context, w: &mut World) -> (r: Result<Value>)
    ensures
        final(w).log@ == old(w).log@.push(Call { a: a.id, i: v, e: cx.env@, o: if r is Ok { Some(r->Ok_0) } else { None } }),
        r is Ok ==> ty_of(r->Ok_0) == a.out_ty,
{ unimplemented!() }
