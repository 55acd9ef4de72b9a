//@rule no_error_s stmt
let err = crate::Mutex::new(None);
//@=>
let mut err: Option<Error> = None;
//@endrule
//@rule set_error
*err.lock() = $e
//@=>
err = $e
//@endrule
//@rule the_error
err.into_inner()
//@=>
err
//@endrule
//@rule err_or_unit
$r.map(Result::<()>::Err).transpose()
//@=>
match $r { None => Ok(()), Some(__e) => Err(__e) }
//@endrule
//@rule call_f
f($a, $b, $c)
//@=>
v_call(&f, $a, $b, $c, w)
//@endrule
//@rule each_init
buf.par_iter_mut().enumerate().skip($k).for_each_init(|| (Default::default(), $c), |($i_m, $i_c): &mut (types::TableRowColMap, _), ($i_r, $i_x)| $e)
//@=>
{ let mut __it: usize = $k; let mut __cm = ColMap::fresh(table); let mut __cx = v_cx(cx); while __it < buf.len() { { let $i_m = &mut __cm; let $i_c = &mut __cx; let $i_r = __it; let __s = v_at_mut(buf, __it); let $i_x = __s; $e } __it += 1; } }
//@endrule
//@include values.vrs
//@src ogma/src/lang/types.rs
impl TableRow {
//@fn TableRow::col_idx
//@sig pub fn col_idx(table: &Table, col_header: &str, tag: &Tag) -> (ret: Result<usize>)
    ensures
        ret is Ok ==> col_of(table@, col_header@, ret->Ok_0 as nat),
        ret is Err ==> col_less(table@, col_header@),
//@loop 0
    invariant_except_break __p is None,
    invariant
        __v@.len() == table@[0].len(), forall|i: int| 0 <= i < __v@.len() ==> *(#[trigger] __v@[i]) == table@[0][i],
        __i <= __v@.len(), forall|j: int| 0 <= j < __i ==> !titled(#[trigger] table@[0][j], col_header@),
    ensures
        __p is Some ==> first_col(table@[0], col_header@, __p->Some_0 as nat),
        __p is None ==> no_col(table@[0], col_header@),
    decreases __v@.len() - __i
//@endfn
//@fn TableRow::entry_at
//@sig pub fn entry_at(table: &Table, rowidx: usize, colidx: usize) -> (ret: &Entry)
    requires rowidx < table@.len(), colidx < table@[rowidx as int].len()
    ensures *ret == table@[rowidx as int][colidx as int]
//@endfn
//@fn TableRow::cnv_value
//@sig pub fn cnv_value<C>(entry: &Entry, exp: &Type, rowidx: usize, colname: C, coltag: &Tag) -> (ret: Result<Value>)
    ensures
        (ret is Ok) == (ty_of(val_of(*entry)) == *exp),
        ret is Ok ==> ret->Ok_0 == val_of(*entry),
//@endfn
//@fn TableRow::new
//@sig pub fn new(table: Table, colmap: ColMap, idx: usize) -> (ret: TableRow)
    requires colmap.of() == table@
    ensures ret.table == table, ret.idx == idx, ret.cached_col_indices.of() == table@
//@endfn
//@fn TableRow::entry
//@sig pub fn entry(&self, col_header: &str, tag: &Tag) -> (ret: Result<&Entry>)
    requires row_wf(*self)
    ensures
        ret is Ok ==> exists|c: nat| #[trigger] col_of(self.table@, col_header@, c) && c < self.table@[self.idx as int].len() && *ret->Ok_0 == self.table@[self.idx as int][c as int],
        ret is Err ==> col_less(self.table@, col_header@),
//@head
    proof { self.table.rect(); }
//@endfn
pub fn entry_by<H: AsText>(&self, h: H, tag: &Tag) -> (ret: Result<&Entry>)
    requires row_wf(*self)
    ensures
        ret is Ok ==> exists|c: nat| #[trigger] col_of(self.table@, h.txt(), c) && c < self.table@[self.idx as int].len() && *ret->Ok_0 == self.table@[self.idx as int][c as int],
        ret is Err ==> col_less(self.table@, h.txt()),
{ self.entry(h.v_text(), tag) }
pub fn col_idx_by<H: AsText>(table: &Table, h: H, tag: &Tag) -> (ret: Result<usize>)
    ensures
        ret is Ok ==> col_of(table@, h.txt(), ret->Ok_0 as nat),
        ret is Err ==> col_less(table@, h.txt()),
{ TableRow::col_idx(table, h.v_text(), tag) }
//@fn TableRow::get_col_idx
//@sig fn get_col_idx(&self, col_header: &str, tag: &Tag) -> (ret: Result<usize>)
    requires row_wf(*self)
    ensures
        ret is Ok ==> col_of(self.table@, col_header@, ret->Ok_0 as nat),
        ret is Err ==> col_less(self.table@, col_header@),
//@head
    broadcast use str_of_chars;
//@endfn
}
//@src ogma/src/lang/impls/intrinsics/mod.rs
/// what a row function was given and left behind
pub struct RowCall<T> { pub slot: T, pub row: int, pub table: Seq<RowS>, pub after: T, pub ok: bool }
pub struct RowCalls<T> { pub log: Ghost<Seq<RowCall<T>>> }
#[verifier::external_body]
pub struct RowFn { p: u8 }
#[verifier::external_body]
pub fn v_call<T>(f: &RowFn, x: &mut T, cx: &mut Context, r: TableRow, w: &mut RowCalls<T>) -> (ret: Result<()>)
    requires row_wf(r)
    ensures final(w).log@ == old(w).log@.push(RowCall { slot: *old(x), row: r.idx as int, table: r.table@, after: *final(x), ok: ret is Ok })
{ unimplemented!() }
pub open spec fn row_call<T>(c: RowCall<T>, b0: Seq<T>, b1: Seq<T>, t: Seq<RowS>, i: int) -> bool { c.row == i && c.table == t && c.slot == b0[i] && c.after == b1[i] }
// what rule par_rows puts in place of a call: every row but the header once, on its own slot
//@fn par_over_tablerows
//@sig fn par_over_tablerows<T>(buf: &mut Vec<T>, table: &Table, cx: &Context, f: RowFn, w: &mut RowCalls<T>) -> (ret: Result<()>)
    requires old(buf)@.len() == table@.len(), old(w).log@.len() == 0
    ensures
        final(buf)@.len() == old(buf)@.len(), old(buf)@.len() > 0 ==> final(buf)@[0] == old(buf)@[0],
        final(w).log@.len() == if table@.len() == 0 { 0 } else { (table@.len() - 1) as nat },
        forall|i: int| 1 <= i < table@.len() ==> row_call(final(w).log@[i - 1], old(buf)@, final(buf)@, table@, #[trigger] at_row(i)),
        (ret is Ok) == (forall|k: int| 0 <= k < final(w).log@.len() ==> (#[trigger] final(w).log@[k]).ok),
//@loop 0
    invariant
        buf@.len() == table@.len(), buf@.len() == old(buf)@.len(), 1 <= __it, __it == 1 || __it <= buf@.len(), __cm.of() == table@,
        w.log@.len() == __it - 1, forall|j: int| __it <= j < buf@.len() || j == 0 && buf@.len() > 0 ==> #[trigger] buf@[j] == old(buf)@[j],
        forall|i: int| 1 <= i < __it ==> row_call(w.log@[i - 1], old(buf)@, buf@, table@, #[trigger] at_row(i)),
        (err is None) == (forall|k: int| 0 <= k < w.log@.len() ==> (#[trigger] w.log@[k]).ok),
    decreases buf@.len() - __it
//@loophead 0
    let ghost l0 = w.log@;
    let ghost b0 = buf@;
//@looptail 0
    proof {
        let c = w.log@.last();
        assert(w.log@ == l0.push(c));
        assert(w.log@[l0.len() as int] == c);
        assert forall|k: int| 0 <= k < l0.len() implies w.log@[k] == l0[k] by {}
        if forall|k: int| 0 <= k < w.log@.len() ==> (#[trigger] w.log@[k]).ok { assert forall|k: int| 0 <= k < l0.len() implies (#[trigger] l0[k]).ok by { assert(w.log@[k].ok); } }
        else { let k = choose|k: int| 0 <= k < w.log@.len() && !(#[trigger] w.log@[k]).ok; if k < l0.len() { assert(!l0[k].ok); } }
        assert forall|i: int| 1 <= i < __it implies row_call(w.log@[i - 1], old(buf)@, buf@, table@, #[trigger] at_row(i)) by {
            if i < __it - 1 { assert(row_call(l0[i - 1], old(buf)@, b0, table@, at_row(i))); }
        }
    }
//@endfn
pub open spec fn at_row(i: int) -> int { i }
//@src ogma/src/lang/impls/intrinsics/mod.rs
//@known cnv_num_to_uint
/// the index a value stands for
pub open spec fn index(v: Value) -> Option<nat> { match v { Value::Num(n) => num_uint(n), _ => None } }
//@fn cnv_num_to_uint
//@sig fn cnv_num_to_uint<T: Unsigned>(val: Value, tag: &Tag) -> (ret: Result<T>)
    requires T::lim() <= u128::MAX
    ensures
        ret is Ok ==> index(val) == Some(ret->Ok_0.un()),
        ret is Err ==> index(val) is None || index(val)->Some_0 > T::lim(),
//@endfn
//@src ogma/src/lang/impls/intrinsics/morphism.rs
//@known cnv_num_to_uint
pub open spec fn one(o: World, n: World, a: Argument, i: Value, cx: Context) -> bool {
    n.log@ == o.log@.push(n.log@.last()) && n.log@.last().a == a.id && n.log@.last().i == i && n.log@.last().e == cx.env@
}
/// what the last evaluation gave, as an index
pub open spec fn given(n: World) -> Option<nat> { match n.log@.last().o { Some(v) => index(v), None => None } }
pub open spec fn skipped(r: Seq<RowS>, n: nat) -> Seq<RowS> { upto(r, 1) + cut(r, n + 1) }
pub open spec fn taken(r: Seq<RowS>, n: nat) -> Seq<RowS> { upto(r, n + 1) }
/// the rows skipping or taking leaves, however the table is held
pub proof fn skip_facts(rows: Seq<RowS>, wd: nat)
    requires rect(rows, wd), rows.len() <= usize::MAX
    ensures
        forall|keep: Seq<bool>, n: nat| keep.len() == rows.len() && (forall|i: int| 0 <= i < rows.len() ==> #[trigger] keep[i] == (i == 0 || i > n)) ==> #[trigger] kept(rows, keep) == #[trigger] skipped(rows, n),
        forall|keep: Seq<bool>, n: nat| keep.len() == rows.len() && (forall|i: int| 0 <= i < rows.len() ==> #[trigger] keep[i] == (i == 0 || i <= n)) ==> #[trigger] kept(rows, keep) == #[trigger] taken(rows, n),
        forall|n: nat| #[trigger] skipped(rows, n) == filled(Seq::<RowS>::empty() + skipped(rows, n), widest(skipped(rows, n))),
        forall|n: nat| n >= rows.len() ==> #[trigger] skipped(rows, n) == upto(rows, 1),
        skipped(rows, usize::MAX as nat) == upto(rows, 1) + cut(rows, usize::MAX as nat),
        forall|n: nat| #[trigger] taken(rows, n) == filled(Seq::<RowS>::empty() + taken(rows, n), widest(taken(rows, n))),
        forall|n: nat| #[trigger] taken(rows, n) == upto(rows, 1) + upto(cut(rows, 1), n),
{
    assert forall|keep: Seq<bool>, n: nat| keep.len() == rows.len() && (forall|i: int| 0 <= i < rows.len() ==> #[trigger] keep[i] == (i == 0 || i > n)) implies #[trigger] kept(rows, keep) == #[trigger] skipped(rows, n) by { kept_back(rows, keep, n); }
    assert forall|keep: Seq<bool>, n: nat| keep.len() == rows.len() && (forall|i: int| 0 <= i < rows.len() ==> #[trigger] keep[i] == (i == 0 || i <= n)) implies #[trigger] kept(rows, keep) == #[trigger] taken(rows, n) by {
        assert forall|i: int| 0 <= i < rows.len() implies #[trigger] keep[i] == (i < n + 1) by {}
        kept_front(rows, keep, n + 1);
    }
    assert forall|n: nat| #[trigger] skipped(rows, n) == filled(Seq::<RowS>::empty() + skipped(rows, n), widest(skipped(rows, n))) by { plain(skipped(rows, n), wd); }
    assert forall|n: nat| #[trigger] taken(rows, n) == filled(Seq::<RowS>::empty() + taken(rows, n), widest(taken(rows, n))) by { plain(taken(rows, n), wd); }
    assert forall|n: nat| n >= rows.len() implies #[trigger] skipped(rows, n) == upto(rows, 1) by { assert(cut(rows, n + 1) =~= Seq::<RowS>::empty()); assert(skipped(rows, n) =~= upto(rows, 1)); }
    assert(cut(rows, usize::MAX as nat) =~= Seq::<RowS>::empty());
    assert(cut(rows, usize::MAX as nat + 1) =~= Seq::<RowS>::empty());
    assert forall|n: nat| #[trigger] taken(rows, n) == upto(rows, 1) + upto(cut(rows, 1), n) by { assert(taken(rows, n) =~= upto(rows, 1) + upto(cut(rows, 1), n)); }
}
pub open spec fn no_index(n: World) -> bool { given(n) is None || given(n)->Some_0 > usize::MAX }
//@closure skip_table_intrinsic eval_o:0 as=skip_table
//@params table cx
//@sig fn skip_table(table: Value, cx: Context, count: &Argument, w: &mut World) -> (ret: Result<(Table, Environment)>)
    ensures
        one(*old(w), *final(w), *count, table, cx),
        ret is Ok ==> table is Tab && given(*final(w)) is Some && ret->Ok_0.0@ == skipped(table->Tab_0@, given(*final(w))->Some_0) && ret->Ok_0.1 == cx.env,
        ret is Err && table is Tab ==> no_index(*final(w)),
//@head
    proof { if let Value::Tab(ref t) = table { t.rect(); skip_facts(t@, t.width()); } }
//@endfn
//@closure take_table_intrinsic eval_o:0 as=take_table
//@params table cx
//@sig fn take_table(table: Value, cx: Context, count: &Argument, w: &mut World) -> (ret: Result<(Table, Environment)>)
    ensures
        one(*old(w), *final(w), *count, table, cx),
        ret is Ok ==> table is Tab && given(*final(w)) is Some && ret->Ok_0.0@ == taken(table->Tab_0@, given(*final(w))->Some_0) && ret->Ok_0.1 == cx.env,
        ret is Err && table is Tab ==> no_index(*final(w)),
//@head
    proof { if let Value::Tab(ref t) = table { t.rect(); skip_facts(t@, t.width()); } }
//@endfn
//@closure skip_str_intrinsic eval_o:0 as=skip_str
//@params string cx
//@sig fn skip_str(string: Value, cx: Context, count: &Argument, w: &mut World) -> (ret: Result<(Str, Environment)>)
    ensures
        one(*old(w), *final(w), *count, string, cx),
        ret is Ok ==> string is Str && given(*final(w)) is Some && ret->Ok_0.0@ == cut(string->Str_0@, given(*final(w))->Some_0) && ret->Ok_0.1 == cx.env,
        ret is Err && string is Str ==> no_index(*final(w)),
//@endfn
//@closure take_str_intrinsic eval_o:0 as=take_str
//@params string cx
//@sig fn take_str(string: Value, cx: Context, count: &Argument, w: &mut World) -> (ret: Result<(Str, Environment)>)
    ensures
        one(*old(w), *final(w), *count, string, cx),
        ret is Ok ==> string is Str && given(*final(w)) is Some && ret->Ok_0.0@ == upto(string->Str_0@, given(*final(w))->Some_0) && ret->Ok_0.1 == cx.env,
        ret is Err && string is Str ==> no_index(*final(w)),
//@endfn
//@closure rev_str_intrinsic eval_o:0 as=rev_str
//@params input cx
//@sig fn rev_str(input: Value, cx: Context) -> (ret: Result<(Str, Environment)>)
    ensures
        (ret is Ok) == (input is Str),
        ret is Ok ==> ret->Ok_0.0@ == input->Str_0@.reverse() && ret->Ok_0.1 == cx.env,
//@endfn
//@closure rev_table_intrinsic eval_o:0 as=rev_table
//@params input cx
//@sig fn rev_table(input: Value, cx: Context, cols: bool) -> (ret: Result<(Table, Environment)>)
    ensures
        (ret is Ok) == (input is Tab),
        ret is Ok && !cols ==> ret->Ok_0.0@ == upto(input->Tab_0@, 1) + cut(input->Tab_0@, 1).reverse(),
        ret is Ok && cols ==> ret->Ok_0.0@ == input->Tab_0@.map_values(|r: RowS| r.reverse()),
        ret is Ok ==> ret->Ok_0.1 == cx.env,
//@endfn
//@item FilterTable
/// a row stays exactly when the predicate holds of it, the header stays
pub open spec fn by_row(o: World, n: World, a: Argument, e: Environment, t: Table, keep: Seq<bool>) -> bool {
    &&& keep.len() == t@.len() && (t@.len() > 0 ==> keep[0])
    &&& forall|i: int| 1 <= i < t@.len() ==> #[trigger] asked(o, n, a, e, t, i, Value::Bool(keep[i]))
}
pub open spec fn by_cells(f: FilterTable, o: World, n: World, e: Environment, t: Table, keep: Seq<bool>) -> bool {
    &&& keep.len() == t@.len() && (t@.len() > 0 ==> keep[0])
    &&& t@.len() > 1 ==> exists|c: nat| #[trigger] by_col(f, o, n, e, t, c, keep, t@.len() as int)
}
/// what the first of the new evaluations gave, as text
pub open spec fn named(o: World, n: World) -> Option<Seq<char>> {
    match n.log@[o.log@.len() as int].o { Some(Value::Str(s)) => Some(s@), _ => None }
}
/// a row stays exactly when its cell in the column has the type and the predicate holds of it
pub open spec fn cell_ok(f: FilterTable, o: World, n: World, e: Environment, cell: Value, k: bool) -> bool {
    if ty_of(cell) == f.exp_ty { asked_val(o, n, f.expr_predicate, e, cell, Value::Bool(k)) } else { !k }
}
pub open spec fn by_col(f: FilterTable, o: World, n: World, e: Environment, t: Table, c: nat, keep: Seq<bool>, upto: int) -> bool {
    &&& named(o, n) is Some && col_of(t@, named(o, n)->Some_0, c)
    &&& forall|i: int| 1 <= i < upto ==> #[trigger] cell_ok(f, o, n, e, val_of(t@[i][c as int]), keep[i])
}
impl FilterTable {
//@fn FilterTable::gen_keep_arr_with_table_row_input
//@sig fn gen_keep_arr_with_table_row_input(&self, table: &Table, cx: &Context, w: &mut World) -> (ret: Result<Vec<bool>>)
    requires self.expr_predicate.out_ty is Bool
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> by_row(*old(w), *final(w), self.expr_predicate, cx.env, *table, ret->Ok_0@),
        ret is Err ==> failed(*old(w), *final(w)),
//@loop 0
    invariant
        self.expr_predicate.out_ty is Bool, __tab == table, predicate.0 == &self.expr_predicate, predicate.1.env == cx.env,
        __buf@.len() == table@.len(), __row >= 1, __buf@.len() > 0 ==> __buf@[0], __buf@.len() > 0 ==> __row <= __buf@.len(),
        grows(*old(w), *w),
        __err is Some ==> failed(*old(w), *w),
        __err is None ==> forall|i: int| 1 <= i < __row ==> #[trigger] asked(*old(w), *w, self.expr_predicate, cx.env, *table, i, Value::Bool(__buf@[i])),
    decreases __buf@.len() - __row
//@loophead 0
    let ghost w0 = *w;
    let ghost b0 = __buf@;
    let ghost at = __row as int;
//@looptail 0
    proof {
        asked_more(*old(w), w0, *w);
        let ghost c = w.log@.last();
        let ghost j = w.log@.len() - 1;
        assert(w.log@[j] == c);
        if c.o is Some && __err is None { assert(__buf@ == b0.update(at, __buf@[at])); assert(on_row(w.log@[j], self.expr_predicate, cx.env, *table, at, Value::Bool(__buf@[at]))); }
    }
//@endfn
//@fn FilterTable::gen_keep_arr_with_known_col
//@sig fn gen_keep_arr_with_known_col(&self, table: &Table, cx: &Context, w: &mut World) -> (ret: Result<Vec<bool>>)
    requires self.expr_predicate.out_ty is Bool, self.col is Some, self.col->Some_0.out_ty is Str
    ensures
        grows(*old(w), *final(w)), final(w).log@.len() > old(w).log@.len(),
        final(w).log@[old(w).log@.len() as int].a == self.col->Some_0.id,
        ret is Ok ==> by_cells(*self, *old(w), *final(w), cx.env, *table, ret->Ok_0@),
        ret is Err ==> failed(*old(w), *final(w)) || named(*old(w), *final(w)) is Some && col_less(table@, named(*old(w), *final(w))->Some_0),
//@loop 0
    invariant
        self.expr_predicate.out_ty is Bool, __tab == table, predicate.0 == &self.expr_predicate, predicate.1.env == cx.env, *ty == self.exp_ty,
        __buf@.len() == table@.len(), __row >= 1, __buf@.len() > 0 ==> __buf@[0], __buf@.len() > 0 ==> __row <= __buf@.len(),
        rect(table@, table.width()),
        grows(*old(w), *w), w.log@.len() > old(w).log@.len(), named(*old(w), *w) == Some(name@), w.log@[old(w).log@.len() as int].a == self.col->Some_0.id,
        __err is Some ==> failed(*old(w), *w) || col_less(table@, name@),
        __err is None && __row > 1 ==> exists|c: nat| #[trigger] by_col(*self, *old(w), *w, cx.env, *table, c, __buf@, __row as int),
    decreases __buf@.len() - __row
//@loophead 0
    let ghost w0 = *w;
    let ghost b0 = __buf@;
    let ghost at = __row as int;
//@looptail 0
    proof {
        asked_more(*old(w), w0, *w);
        let ghost c = w.log@.last();
        let ghost j = w.log@.len() - 1;
        assert(w.log@[j] == c);
        if __err is None {
            assert(__buf@ == b0.update(at, __buf@[at]));
            let ghost k = choose|k: nat| #[trigger] col_of(table@, name@, k) && k < table@[at].len() && (ty_of(val_of(table@[at][k as int])) == self.exp_ty ==> on_val(c, self.expr_predicate, cx.env, val_of(table@[at][k as int]), Value::Bool(__buf@[at])));
            assert(col_of(table@, name@, k));
            assert(cell_ok(*self, *old(w), *w, cx.env, val_of(table@[at][k as int]), __buf@[at]));
            if at > 1 {
                let ghost k0 = choose|k0: nat| #[trigger] by_col(*self, *old(w), w0, cx.env, *table, k0, b0, at);
                assert(k0 == k) by { assert(titled(table@[0][k as int], name@)); assert(titled(table@[0][k0 as int], name@)); }
                assert forall|i: int| 1 <= i < at + 1 implies #[trigger] cell_ok(*self, *old(w), *w, cx.env, val_of(table@[i][k as int]), __buf@[i]) by {
                    if i < at { assert(cell_ok(*self, *old(w), w0, cx.env, val_of(table@[i][k as int]), b0[i])); }
                }
            }
            assert(by_col(*self, *old(w), *w, cx.env, *table, k, __buf@, at + 1));
        }
    }
//@after 0
    proof { if __buf@.len() > 1 { assert(__row == __buf@.len()); if __err is None { let k = choose|c: nat| #[trigger] by_col(*self, *old(w), *w, cx.env, *table, c, __buf@, __row as int); assert(by_col(*self, *old(w), *w, cx.env, *table, k, __buf@, table@.len() as int)); } } }
//@tail
    proof { if table@.len() > 1 {
      assert(__vret is Ok);
      let k = choose|c: nat| #[trigger] by_col(*self, *old(w), *w, cx.env, *table, c, __vret->Ok_0@, table@.len() as int);
      assert(by_col(*self, *old(w), *w, cx.env, *table, k, __vret->Ok_0@, table@.len() as int)); } }
//@head
    proof { table.rect(); }
//@endfn
//@fn FilterTable::retain_keep_rows
//@sig fn retain_keep_rows(mut table: Table, keep: &Vec<bool>) -> (ret: Table)
    requires keep@.len() == table@.len()
    ensures ret@ == kept(table@, keep@)
//@loop 0
    invariant
        __n == table@.len(), __k <= __n, keep@.len() == table@.len(),
        raw(acc) =~= kept(table@.take(__k as int), keep@),
    decreases __n - __k
//@loophead 0
    assert(table@.take(__k as int + 1).drop_last() =~= table@.take(__k as int));
//@head
    proof {
        table.rect();
        kept_rect(table@, keep@, table.width());
        plain(kept(table@, keep@), table.width());
        if forall|i: int| 0 <= i < keep@.len() ==> #[trigger] keep@[i] { kept_all(table@, keep@); }
        assert(table@.take(table@.len() as int) =~= table@);
        assert(kept(table@.take(0), keep@) =~= Seq::<RowS>::empty());
    }
//@endfn
}
//@closure FilterTable::filter eval_o:0 as=filter_rows
//@params table cx
//@sig fn filter_rows(table: Value, cx: Context, ft: &FilterTable, w: &mut World) -> (ret: Result<(Table, Environment)>)
    requires ft.expr_predicate.out_ty is Bool
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> table is Tab && exists|keep: Seq<bool>| by_row(*old(w), *final(w), ft.expr_predicate, cx.env, table->Tab_0, keep) && ret->Ok_0.0@ == #[trigger] kept(table->Tab_0@, keep),
        ret is Ok ==> ret->Ok_0.1 == cx.env,
        ret is Err && table is Tab ==> failed(*old(w), *final(w)),
//@head
    let ghost t0 = table->Tab_0;
    let ghost e0 = cx.env;
//@tail
    proof { assert(by_row(*old(w), *w, ft.expr_predicate, e0, t0, keep@)); assert(__vret->Ok_0.0@ == kept(t0@, keep@)); }
//@endfn
//@closure FilterTable::filter eval_o:1 as=filter_cells
//@params table cx
//@sig fn filter_cells(table: Value, cx: Context, ft: &FilterTable, w: &mut World) -> (ret: Result<(Table, Environment)>)
    requires ft.expr_predicate.out_ty is Bool, ft.col is Some, ft.col->Some_0.out_ty is Str
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> table is Tab && exists|keep: Seq<bool>| by_cells(*ft, *old(w), *final(w), cx.env, table->Tab_0, keep) && ret->Ok_0.0@ == #[trigger] kept(table->Tab_0@, keep),
        ret is Ok ==> ret->Ok_0.1 == cx.env,
        ret is Err && table is Tab ==> failed(*old(w), *final(w)) || named(*old(w), *final(w)) is Some && col_less(table->Tab_0@, named(*old(w), *final(w))->Some_0),
//@head
    let ghost t0 = table->Tab_0;
    let ghost e0 = cx.env;
//@tail
    proof { assert(by_cells(*ft, *old(w), *w, e0, t0, keep@)); assert(__vret->Ok_0.0@ == kept(t0@, keep@)); }
//@endfn
/// the variables with the row bound
pub open spec fn env_row(e: Map<Variable, Value>, e0: Environment, v: Variable, t: Table, i: int) -> bool {
    e =~= e0@.insert(v, e[v]) && row_in(e[v], t, i)
}
/// the k-th step of folding: the accumulator given the result so far, the row bound
pub open spec fn fold_step(c: Call, p: Call, a: Argument, e0: Environment, v: Variable, t: Table, i: int) -> bool {
    c.a == a.id && Some(c.i) == p.o && env_row(c.e, e0, v, t, i)
}
//@closure fold_table_intrinsic eval:0 as=fold
//@params table cx
//@sig fn fold(table_in: Value, cx_in: Context, seed: &Argument, row_var: &Variable, acc_expr: &Argument, w: &mut World) -> (ret: Result<(Value, Environment)>)
    requires table_in is Tab
    ensures
        ret is Ok ==> final(w).log@.len() == old(w).log@.len() + (if table_in->Tab_0@.len() == 0 { 1 } else { table_in->Tab_0@.len() }),
        ret is Ok ==> final(w).log@.last().o == Some(ret->Ok_0.0),
        ret is Err ==> final(w).log@.last().o is None,
        grows(*old(w), *final(w)),
        final(w).log@.len() > old(w).log@.len(),
        final(w).log@[old(w).log@.len() as int] == (Call { a: seed.id, i: Value::Nil, e: cx_in.env@, o: final(w).log@[old(w).log@.len() as int].o }),
        forall|k: int| old(w).log@.len() < k < final(w).log@.len() ==> fold_step(#[trigger] final(w).log@[k], final(w).log@[k - 1], *acc_expr, cx_in.env, *row_var, table_in->Tab_0, k - old(w).log@.len()),
//@head
    let mut cx = cx_in;
    let table = table_in;
    let ghost t0 = table_in->Tab_0;
    let ghost e0 = cx_in.env;
    let ghost n0 = old(w).log@.len();
    let ghost v0 = *row_var;
//@loop 0
    invariant
        table == t0, t0 == table_in->Tab_0, e0 == cx_in.env, colmap.of() == table@, n0 == old(w).log@.len(), v0 == *row_var,
        grows(*old(w), *w), __it >= 1, __end == table@.len(), __it <= __end || __it == 1, w.log@.len() == n0 + __it, w.log@.last().o == Some(x),
        w.log@[n0 as int] == (Call { a: seed.id, i: Value::Nil, e: e0@, o: w.log@[n0 as int].o }),
        cx.env@ =~= e0@ || cx.env@ =~= e0@.insert(v0, cx.env@[v0]),
        forall|k: int| n0 < k < w.log@.len() ==> fold_step(#[trigger] w.log@[k], w.log@[k - 1], *acc_expr, e0, *row_var, table, k - n0),
    decreases __end - __it
//@loophead 0
    let ghost l0 = w.log@;
    assert(l0[n0 + __it - 1] == l0.last());
//@endfn
/// nothing but the two variables may differ
pub open spec fn but_for(e: Map<Variable, Value>, e0: Environment, v1: Variable, v2: Variable) -> bool {
    forall|x: Variable| x != v1 && x != v2 ==> (#[trigger] e.contains_key(x) == e0@.contains_key(x)) && (e0@.contains_key(x) ==> e[x] == e0@[x])
}
/// d steps after the seed: odd steps ask whether to go on with the result so far, even steps give the next result, each with its row bound
pub open spec fn while_step(c: Call, p: Call, pp: Call, d: int, pr: Argument, pv: Variable, ac: Argument, av: Variable, e0: Environment, t: Table) -> bool {
    &&& but_for(c.e, e0, pv, av)
    &&& d % 2 == 1 ==> c.a == pr.id && Some(c.i) == p.o && row_in(c.e[pv], t, (d + 1) / 2)
    &&& d % 2 == 0 ==> c.a == ac.id && Some(c.i) == pp.o && p.o == Some(Value::Bool(true)) && row_in(c.e[av], t, d / 2)
}
pub open spec fn while_at(l: Seq<Call>, n0: int, k: int, pr: Argument, pv: Variable, ac: Argument, av: Variable, e0: Environment, t: Table) -> bool {
    while_step(l[k], l[k - 1], l[k - 2], k - n0, pr, pv, ac, av, e0, t)
}
//@closure fold_while_table_intrinsic eval:0 as=fold_while
//@params table cx
//@sig fn fold_while(table_in: Value, cx_in: Context, seed: &Argument, row_var_predicate: &Variable, acc_predicate: &Argument, row_var_expr: &Variable, acc_expr: &Argument, w: &mut World) -> (ret: Result<(Value, Environment)>)
    requires table_in is Tab, acc_predicate.out_ty is Bool
    ensures
        grows(*old(w), *final(w)),
        final(w).log@.len() > old(w).log@.len(),
        final(w).log@[old(w).log@.len() as int] == (Call { a: seed.id, i: Value::Nil, e: cx_in.env@, o: final(w).log@[old(w).log@.len() as int].o }),
        forall|k: int| old(w).log@.len() < k < final(w).log@.len() ==> #[trigger] while_at(final(w).log@, old(w).log@.len() as int, k, *acc_predicate, *row_var_predicate, *acc_expr, *row_var_expr, cx_in.env, table_in->Tab_0),
        ret is Err ==> final(w).log@.last().o is None,
        // over when the rows are or the predicate fails
        ret is Ok ==> ({
            let n = final(w).log@.len() - old(w).log@.len();
            let rows = cut(table_in->Tab_0@, 1).len();
            ||| n == 2 * rows + 1 && final(w).log@.last().o == Some(ret->Ok_0.0)
            ||| n % 2 == 0 && n < 2 * rows + 1 && final(w).log@.last().o == Some(Value::Bool(false)) && final(w).log@[final(w).log@.len() - 2].o == Some(ret->Ok_0.0)
        }),
//@head
    let mut cx = cx_in;
    let table = table_in;
    let ghost t0 = table_in->Tab_0;
    let ghost e0 = cx_in.env;
    let ghost n0 = old(w).log@.len();
    let ghost pv = *row_var_predicate;
    let ghost av = *row_var_expr;
//@loop 0
    invariant_except_break
        w.log@.len() == n0 + 2 * __it - 1, w.log@.last().o == Some(x),
    invariant
        table == t0, t0 == table_in->Tab_0, e0 == cx_in.env, colmap.of() == table@, n0 == old(w).log@.len(), pv == *row_var_predicate, av == *row_var_expr,
        grows(*old(w), *w), __it >= 1, __end == table@.len(), __it <= __end || __it == 1, acc_predicate.out_ty is Bool, n0 < w.log@.len(),
        w.log@[n0 as int] == (Call { a: seed.id, i: Value::Nil, e: e0@, o: w.log@[n0 as int].o }),
        but_for(cx.env@, e0, pv, av),
        forall|k: int| n0 < k < w.log@.len() ==> #[trigger] while_at(w.log@, n0 as int, k, *acc_predicate, pv, *acc_expr, av, e0, table),
    ensures
        ({
            let n = w.log@.len() - n0;
            let rows = cut(t0@, 1).len();
            ||| n == 2 * rows + 1 && w.log@.last().o == Some(x)
            ||| n % 2 == 0 && n < 2 * rows + 1 && w.log@.last().o == Some(Value::Bool(false)) && w.log@[w.log@.len() - 2].o == Some(x)
        }),
    decreases __end - __it
//@loophead 0
    let ghost l0 = w.log@;
    assert(l0[l0.len() - 1] == l0.last());
    assert forall|l1: Seq<Call>, k: int| n0 < k < l0.len() && l0.len() <= l1.len() && (forall|j: int| n0 <= j < l0.len() ==> l0[j] == l1[j]) implies #[trigger] while_at(l1, n0 as int, k, *acc_predicate, pv, *acc_expr, av, e0, table) by {
        assert(while_at(l0, n0 as int, k, *acc_predicate, pv, *acc_expr, av, e0, table));
    }
//@endfn
//@item MapTable
/// the transformation was evaluated for a row: on nothing or on the row's cell, with the row bound
pub open spec fn map_call(m: MapTable, c: Call, e0: Environment, t: Table, i: int, col: nat, v: Value) -> bool {
    &&& c.a == m.transformation.id && env_row(c.e, e0, m.row_var, t, i) && c.o == Some(v)
    &&& if m.force { c.i == Value::Nil } else { c.i == val_of(t@[i][col as int]) && ty_of(c.i) == m.transformation.in_ty }
}
pub open spec fn mapped(m: MapTable, o: World, n: World, e0: Environment, t: Table, i: int, col: nat, v: Value) -> bool {
    exists|j: int| o.log@.len() <= j < n.log@.len() && map_call(m, #[trigger] n.log@[j], e0, t, i, col, v)
}
pub open spec fn all_mapped(m: MapTable, o: World, n: World, e0: Environment, t: Table, col: nat, v: Seq<Value>, upto: int) -> bool {
    forall|i: int| 1 <= i < upto ==> #[trigger] mapped(m, o, n, e0, t, i, col, v[i])
}
pub open spec fn map_done(m: MapTable, o: World, n: World, e0: Environment, t: Table, r: Table, c: nat, v: Seq<Value>) -> bool {
    &&& named(o, n) is Some && col_of(t@, named(o, n)->Some_0, c)
    &&& all_mapped(m, o, n, e0, t, c, v, t@.len() as int) && v.len() == t@.len()
    &&& r@ == put_col(t@, c as int, v, 1)
}
pub open spec fn wrong_cell(m: MapTable, t: Table, col: nat) -> bool {
    !m.force && exists|i: int| 1 <= i < t@.len() && ty_of(val_of(#[trigger] t@[i][col as int])) != m.transformation.in_ty
}
impl MapTable {
//@fn MapTable::doit
//@sig fn doit(&self, mut table: Table, cx: &Context, w: &mut World) -> (ret: Result<Table>)
    requires self.colarg.out_ty is Str
    ensures
        grows(*old(w), *final(w)), final(w).log@.len() > old(w).log@.len(),
        final(w).log@[old(w).log@.len() as int].a == self.colarg.id,
        ret is Ok ==> exists|c: nat, v: Seq<Value>| #[trigger] map_done(*self, *old(w), *final(w), cx.env, table, ret->Ok_0, c, v),
        ret is Err ==> failed(*old(w), *final(w)) || named(*old(w), *final(w)) is Some && (col_less(table@, named(*old(w), *final(w))->Some_0)
            || exists|c: nat| #[trigger] col_of(table@, named(*old(w), *final(w))->Some_0, c) && wrong_cell(*self, table, c)),
//@head
    let ghost t0 = table;
    proof { table.rect(); }
//@loop 0
    invariant
        *var == self.row_var, *tf == self.transformation, *in_ty == self.transformation.in_ty, force == self.force, *__tab == table, table == t0,
        __cx.env@ =~= cx.env@ || __cx.env@ =~= cx.env@.insert(self.row_var, __cx.env@[self.row_var]),
        __buf@.len() == table@.len(), __row >= 1, __buf@.len() > 0 ==> __row <= __buf@.len(),
        rect(table@, table.width()), colidx < table.width(), col_of(table@, colname@, colidx as nat),
        grows(*old(w), *w), w.log@.len() > old(w).log@.len(), named(*old(w), *w) == Some(colname@), w.log@[old(w).log@.len() as int].a == self.colarg.id,
        __err is Some ==> failed(*old(w), *w) || wrong_cell(*self, table, colidx as nat),
        __err is None ==> all_mapped(*self, *old(w), *w, cx.env, table, colidx as nat, __buf@, __row as int),
    decreases __buf@.len() - __row
//@loophead 0
    let ghost w0 = *w;
    let ghost b0 = __buf@;
    let ghost at = __row as int;
    assert(table@[at].len() == table.width());
//@looptail 0
    proof {
        asked_more(*old(w), w0, *w);
        let ghost c = w.log@.last();
        let ghost j = w.log@.len() - 1;
        assert(w.log@[j] == c);
        if __err is None {
            assert(__buf@ == b0.update(at, __buf@[at]));
            assert(map_call(*self, w.log@[j], cx.env, table, at, colidx as nat, __buf@[at]));
            assert forall|i: int| 1 <= i < at + 1 implies #[trigger] mapped(*self, *old(w), *w, cx.env, table, i, colidx as nat, __buf@[i]) by {
                if i < at {
                    assert(mapped(*self, *old(w), w0, cx.env, table, i, colidx as nat, b0[i]));
                    let k = choose|k: int| old(w).log@.len() <= k < w0.log@.len() && map_call(*self, #[trigger] w0.log@[k], cx.env, table, i, colidx as nat, b0[i]);
                    assert(map_call(*self, w.log@[k], cx.env, table, i, colidx as nat, __buf@[i]));
                }
            }
        }
    }
//@tail
    proof {
        assert(col_of(t0@, colname@, colidx as nat));
        assert(all_mapped(*self, *old(w), *w, cx.env, t0, colidx as nat, replace_with@, t0@.len() as int));
        assert(__vret->Ok_0@ == put_col(t0@, colidx as int, replace_with@, 1));
        assert(named(*old(w), *w) == Some(colname@));
        assert(map_done(*self, *old(w), *w, cx.env, t0, __vret->Ok_0, colidx as nat, replace_with@));
    }
//@endfn
}
//@src ogma/src/lang/impls/intrinsics/pipeline.rs
//@known cnv_num_to_uint
//@closure nth_str_intrinsic eval_o:0 as=nth_str
//@params string cx
//@sig fn nth_str(string: Value, cx: Context, n: &Argument, w: &mut World) -> (ret: Result<(Str, Environment)>)
    ensures
        one(*old(w), *final(w), *n, string, cx),
        ret is Ok ==> string is Str && given(*final(w)) is Some && given(*final(w))->Some_0 < string->Str_0@.len()
            && ret->Ok_0.0@ == seq![string->Str_0@[given(*final(w))->Some_0 as int]] && ret->Ok_0.1 == cx.env,
        ret is Err && string is Str ==> no_index(*final(w)) || given(*final(w))->Some_0 >= string->Str_0@.len(),
//@endfn
//@closure len_str_intrinsic eval_o:0 as=len_str
//@params i cx
//@sig fn len_str(i: Value, cx: Context) -> (ret: Result<(Number, Environment)>)
    ensures
        (ret is Ok) == (i is Str),
        ret is Ok ==> ret->Ok_0.0 == num_of(i->Str_0@.len()) && ret->Ok_0.1 == cx.env,
//@endfn
//@closure len_table_intrinsic eval_o:0 as=len_table
//@params t cx
//@sig fn len_table(t: Value, cx: Context, cols: bool) -> (ret: Result<(Number, Environment)>)
    ensures
        (ret is Ok) == (t is Tab),
        ret is Ok && !cols ==> ret->Ok_0.0 == num_of(cut(t->Tab_0@, 1).len()),
        ret is Ok && cols ==> ret->Ok_0.0 == num_of(t->Tab_0.width()),
        ret is Ok ==> ret->Ok_0.1 == cx.env,
//@endfn
/// a table's row, not counting the header
pub open spec fn row_val(v: Value, t: Table, n: nat) -> bool { v is TabRow && v->TabRow_0.table@ == t@ && v->TabRow_0.idx == n + 1 }
pub open spec fn nth_calls(o: World, n: World, a: Argument, b: Argument, t: Value, cx: Context) -> bool {
    let i = n.log@[o.log@.len() as int];
    &&& n.log@ == o.log@.push(i) || n.log@ == o.log@.push(i).push(n.log@.last())
    &&& i.a == a.id && i.i == t && i.e == cx.env@
    &&& n.log@.len() == o.log@.len() + 2 ==> i.o is Some && t is Tab && index(i.o->Some_0) is Some && row_val(n.log@.last().i, t->Tab_0, index(i.o->Some_0)->Some_0)
        && index(i.o->Some_0)->Some_0 < cut(t->Tab_0@, 1).len() && n.log@.last().a == b.id && n.log@.last().e == cx.env@
}
//@closure nth_table_intrinsic eval:0 as=nth_table
//@params table cx
//@sig fn nth_table(table: Value, cx: Context, n: &Argument, expr: &Argument, w: &mut World) -> (ret: Result<(Value, Environment)>)
    ensures
        nth_calls(*old(w), *final(w), *n, *expr, table, cx),
        ret is Ok ==> final(w).log@.len() == old(w).log@.len() + 2 && final(w).log@.last().o == Some(ret->Ok_0.0) && ret->Ok_0.1 == cx.env,
        final(w).log@.len() == old(w).log@.len() + 2 ==> (ret is Ok) == (final(w).log@.last().o is Some),
        final(w).log@.len() == old(w).log@.len() + 1 && table is Tab ==> no_index(*final(w)) || given(*final(w))->Some_0 >= cut(table->Tab_0@, 1).len(),
//@endfn
