//@rule seeds
with.iter().map(|(_, $i_n)| $e)
//@=>
Lst { v: { let mut __o: Vec<Vec<Entry>> = Vec::new(); let mut __k: usize = 0; while __k < with.len() { let $i_n = &with[__k].1; __o.push($e); __k += 1; } __o } }
//@endrule
//@rule resize
v.resize_with($n, Default::default)
//@=>
v_resize(&mut v, $n)
//@endrule
//@rule seed_head stmt
if let Some(x) = v.get_mut(0) { $s_b }
//@=>
if v.len() > 0 { let x = v_at_mut(&mut v, 0); $s_b }
//@endrule
//@rule no_error
crate::Mutex::new(None)
//@=>
None
//@endrule
//@rule no_error_s stmt
let err = crate::Mutex::new(None);
//@=>
let mut err: Option<Error> = None;
//@endrule
//@rule set_error
*err.lock() = $e
//@=>
err = $e
//@endrule
//@rule the_error
err.into_inner()
//@=>
err
//@endrule
//@rule cols_iter
to_append.into_iter().map(|x| x.into_iter())
//@=>
to_append
//@endrule
//@rule with_cap
$b_t.clone_with_col_capacity($e)
//@=>
$b_t.clone()
//@endrule
//@rule add_vals
t.add_row($i_x.into_iter())
//@=>
t.v_add_row($i_x)
//@endrule
//@rule head_cells stmt
if let Some(hdr) = t.row_mut(0) { for $i_e in hdr { $s_b } }
//@=>
if t.rows_len() > 0 { let mut __c: usize = 0; while __c < t.cols_len() { { let $i_e = t.v_head_mut(__c); $s_b } __c += 1; } }
//@endrule
//@rule auto_name
format!("_append{}", $e)
//@=>
v_auto($e)
//@endrule
//@rule for_entries
for ($i_c, $i_e) in $r.expect($m).enumerate() { $s_body }
//@=>
{ let __es = $r.unwrap().refs(); let mut __k: usize = 0; while __k < __es.len() { let $i_c = __k; let $i_e = __es[__k]; $s_body __k += 1; } }
//@endrule
//@rule put_head stmt
if let Some($i_r) = t.row_mut(0) { $i_r.zip(hdrs).for_each(|($i_e, $i_h)| *$i_e = $x); }
//@=>
{ let mut __es: Vec<Entry> = Vec::new(); let mut __k: usize = 0; while __k < hdrs.len() { let $i_h = hdrs[__k].clone(); __es.push($x); __k += 1; } t.v_put_head(__es); }
//@endrule
//@rule for_numbered
for ($i_idx, $i_i) in indices.into_iter().enumerate() { $s_body }
//@=>
{ let mut __k: usize = 0; while __k < indices.len() { let $i_idx = __k; let $i_i = indices[__k]; $s_body __k += 1; } }
//@endrule
//@rule col_mut
$b_t.col_mut($i)
//@=>
$b_t.v_col_first($i)
//@endrule
//@rule x_next stmt
if let Some($p_x) = x.next() { $s_b }
//@=>
if let Some($p_x) = x { $s_b }
//@endrule
//@rule each_row
$b_v.par_iter_mut().enumerate().for_each(|($i_row, $i_v)| $e)
//@=>
{ let mut __row: usize = 0; while __row < $b_v.len() { { let __m = v_at_mut(&mut $b_v, __row); let $i_row = __row; let $i_v = __m; $e } __row += 1; } }
//@endrule
//@rule cells_of stmt
let row = colidxs.iter().map(|$p_i| $e);
//@=>
let row: Vec<Entry> = { let mut __o: Vec<Entry> = Vec::new(); let mut __c: usize = 0; while __c < colidxs.len() { let $p_i = &colidxs[__c]; __o.push($e); __c += 1; } __o };
//@endrule
//@rule extend_row
v.extend(row)
//@=>
v_extend(v, row)
//@endrule
//@rule row_nth
$b_t.row($i).and_then(|mut x| x.nth($k)).unwrap().clone()
//@=>
$b_t.v_cell($i, $k)
//@endrule
//@rule row_nth0
$b_t.row($i).and_then(|mut x| x.nth($k))
//@=>
$b_t.v_cell_opt($i, $k)
//@endrule
//@rule for_rev
for $p_i in ($a..$b).rev() { $s_body }
//@=>
{ let mut __at: usize = $b; while __at > $a { __at -= 1; let $p_i = __at; $s_body } }
//@endrule
//@rule col_head
$b_t.col($i).and_then(|mut x| x.next())
//@=>
$b_t.v_col_head($i)
//@endrule
//@rule col_head_map
$b_t.v_col_head($i).map(|$i_v| $e)
//@=>
match $b_t.v_col_head($i) { Some($i_v) => Some($e), None => None }
//@endrule
//@rule or_default
$r.unwrap_or_default()
//@=>
match $r { Some(__v) => __v, None => Str::default() }
//@endrule
//@rule for_refs
for $p_x in &$e { $s_body }
//@=>
{ let __vs = &$e; let mut __k: usize = 0; while __k < __vs.len() { let $p_x = &__vs[__k]; $s_body __k += 1; } }
//@endrule
//@rule res_ok
$r.ok()
//@=>
match $r { Ok(__v) => Some(__v), Err(_) => None }
//@endrule
//@rule some_pairs
$r.into_iter().map(|(a, b)| (Some(a), b))
//@=>
Lst { v: v_some($r) }
//@endrule
//@rule named_set
$c.iter().filter_map(|x| x.0)
//@=>
v_named_set(&$c)
//@endrule
//@rule toadd stmt
let toadd = (0..$n).filter(|$i_x| $e);
//@=>
let toadd: Vec<usize> = { let mut __o: Vec<usize> = Vec::new(); let mut __k: usize = 0; while __k < $n { let $i_x = &__k; if $e { __o.push(__k); } __k += 1; } __o };
//@endrule
//@rule add_pairs
toadd.map(|$i_x| $e)
//@=>
{ let mut __o: Vec<Pick> = Vec::new(); let mut __k: usize = 0; while __k < toadd.len() { let $i_x = toadd[__k]; __o.push($e); __k += 1; } __o }
//@endrule
//@rule extend_picks
colidxs.extend($e)
//@=>
v_extend_picks(&mut colidxs, $e)
//@endrule
//@rule empties
repeat_with(|| Vec::with_capacity($c.len())).take($n).collect::<Vec<_>>()
//@=>
v_empties($n)
//@endrule
//@rule collect_vec
$r.collect::<Vec<_>>()
//@=>
$r.collect()
//@endrule
//@rule str_filter
string.chars().filter(|&$i_c| $e).collect::<String>()
//@=>
{ let __v = string.chars().to_vec(); let mut __o: Vec<char> = Vec::new(); let mut __i: usize = 0; while __i < __v.len() { let $i_c = __v[__i]; let __k: bool = $e; if __k { __o.push($i_c); } __i += 1; } v_string(__o) }
//@endrule
//@rule str_retain
s.retain(|$i_c| $e)
//@=>
{ let __v = v_chars(s); let mut __o: Vec<char> = Vec::new(); let mut __i: usize = 0; while __i < __v.len() { let $i_c = __v[__i]; let __k: bool = $e; if __k { __o.push($i_c); } __i += 1; } *s = v_string(__o); }
//@endrule
//@rule r_call
r($e)
//@=>
v_resolve(r.0, $e, r.1, w)
//@endrule
//@rule r_drop
drop(r)
//@=>
()
//@endrule
//@rule resolver_of stmt
let r = $b_a.resolver_sync($e);
//@=>
let r = (&$b_a, $e);
//@endrule
//@rule unwrap_err
$r.unwrap_or_else(|$i_e| $x)
//@=>
match $r { Ok(__v) => __v, Err($i_e) => $x }
//@endrule
//@rule dedup_by
t.dedup_by(|$i_a, $i_b| $e)
//@=>
{ let mut __out: Vec<Vec<Entry>> = Vec::new(); let mut __i: usize = 0; while __i < t.len() { let mut __same = false; if __i > 0 { let $i_a = &t[__i]; let $i_b = &__out[__out.len() - 1]; __same = $e; } if !__same { __out.push(v_row_at(&t, __i)); } __i += 1; } t = __out; }
//@endrule
//@rule take_flag
std::mem::take(&mut $i_h)
//@=>
v_take_flag(&mut $i_h)
//@endrule
//@rule all_cols
cols.iter().all(|&$i_c| $e)
//@=>
{ let mut __j: usize = 0; let mut __all = true; while __all && __j < cols.len() { let $i_c = cols[__j]; __all = $e; __j += 1; } __all }
//@endrule
//@rule same_cell
a[c] == b[c]
//@=>
v_same(&a[c], &b[c])
//@endrule
//@rule same_cell2
b[c] == a[c]
//@=>
v_same(&b[c], &a[c])
//@endrule
//@rule firsts
$r.into_iter().map(|$i_x| $i_y.0)
//@=>
Lst { v: v_firsts($r) }
//@endrule
//@rule all_idx
(0..$n).collect()
//@=>
v_upto($n)
//@endrule
//@rule owned
(*$i_t).clone()
//@=>
$i_t.clone()
//@endrule
//@rule rix
$b_c.resolve_indices($a, $b)
//@=>
$b_c.resolve_indices($a, $b, w)
//@endrule
//@rule rixf
$b_c.resolve_indices_forgiven($a, $b)
//@=>
$b_c.resolve_indices_forgiven($a, $b, w)
//@endrule
//@include values.vrs
impl Chars {
    #[verifier::external_body] pub fn to_vec(self) -> (r: Vec<char>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub fn v_string(v: Vec<char>) -> (r: String) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn v_chars(s: &String) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
impl Str {
    #[verifier::external_body] pub fn to_mut<'a>(&'a mut self) -> (r: &'a mut String) ensures r@ == old(self)@, final(self)@ == final(r)@ { unimplemented!() }
}
impl To<Str> for String { open spec fn to(self) -> Str { str_of(self@) } #[verifier::external_body] fn v_to(self) -> Str { unimplemented!() } }
impl To<Str> for char { open spec fn to(self) -> Str { str_of(seq![self]) } #[verifier::external_body] fn v_to(self) -> Str { unimplemented!() } }
pub fn v_take_flag(b: &mut bool) -> (r: bool) ensures r == *old(b), !*final(b) { let r = *b; *b = false; r }
#[verifier::external_body]
pub fn v_row_at(t: &Vec<Vec<Entry>>, i: usize) -> (r: Vec<Entry>) requires i < t@.len() ensures r == t@[i as int] { unimplemented!() }
/// the cells are equal
// assume: whether two cells are equal is what == of kserd's Entry says
pub uninterp spec fn same(a: Entry, b: Entry) -> bool;
pub broadcast proof fn same_both(a: Entry, b: Entry) ensures #[trigger] same(a, b) == same(b, a) { admit(); }
#[verifier::external_body]
pub fn v_same(a: &Entry, b: &Entry) -> (r: bool) ensures r == same(*a, *b) { unimplemented!() }
#[verifier::external_body]
pub fn v_firsts(v: Vec<(usize, Str)>) -> (r: Vec<usize>) ensures r@ == nums_of(v@) { unimplemented!() }
#[verifier::external_body]
pub fn v_upto(n: usize) -> (r: Vec<usize>) ensures r@ == Seq::new(n as nat, |i: int| i as usize) { unimplemented!() }
pub struct Lst<T> { pub v: Vec<T> }
impl<T> Lst<T> { pub fn collect(self) -> (r: Vec<T>) ensures r == self.v { self.v } }
pub open spec fn nums_of(cs: Seq<(usize, Str)>) -> Seq<usize> { cs.map_values(|x: (usize, Str)| x.0) }
pub struct ColNameArgs { pub names: Vec<Argument> }
/// the columns the arguments name, each evaluated once
pub open spec fn cols_named(o: World, n: World, names: Seq<Argument>, e: Environment, t: Seq<RowS>, cs: Seq<(usize, Str)>) -> bool {
    &&& n.log@.len() == o.log@.len() + cs.len() && cs.len() <= names.len()
    &&& forall|k: int| 0 <= k < cs.len() ==> col_of(t, (#[trigger] cs[k]).1@, cs[k].0 as nat) && on_val(n.log@[o.log@.len() + k], names[k], e, Value::Nil, Value::Str(cs[k].1))
}
pub open spec fn names_ok(names: Seq<Argument>) -> bool { forall|k: int| 0 <= k < names.len() ==> (#[trigger] names[k]).out_ty is Str }
/// an argument failed, or names no column
pub open spec fn no_such_col(o: World, n: World, t: Seq<RowS>) -> bool {
    n.log@.last().o is None || n.log@.last().o->Some_0 is Str && col_less(t, n.log@.last().o->Some_0->Str_0@)
}
impl ColNameArgs {
    // proved in unit order
    #[verifier::external_body] fn resolve_indices(&self, table: &Table, cx: &Context, w: &mut World) -> (ret: Result<Vec<(usize, Str)>>)
        requires names_ok(self.names@)
        ensures
            grows(*old(w), *final(w)),
            ret is Ok ==> ret->Ok_0@.len() == self.names@.len() && cols_named(*old(w), *final(w), self.names@, cx.env, table@, ret->Ok_0@),
            ret is Err ==> final(w).log@.len() > old(w).log@.len() && no_such_col(*old(w), *final(w), table@),
    { unimplemented!() }
}
//@src ogma/src/lang/impls/intrinsics/morphism.rs
/// each run of one character once
pub open spec fn runs(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else {
        let r = runs(s.drop_last());
        if s.len() > 1 && s[s.len() - 2] == s.last() { r } else { r.push(s.last()) }
    }
}
//@closure dedup_str_intrinsic eval_o:0 as=dedup_str
//@params string cx
//@sig fn dedup_str(string: Value, cx: Context) -> (ret: Result<(Str, Environment)>)
    ensures
        (ret is Ok) == (string is Str),
        ret is Ok ==> ret->Ok_0.0@ == runs(string->Str_0@) && ret->Ok_0.1 == cx.env,
//@head
    broadcast use str_of_chars;
//@loop 0
    invariant
        __i <= __v@.len(), __o@ == runs(upto(__v@, __i as nat)), x == if __i == 0 { None } else { Some(__v@[__i - 1]) },
    decreases __v@.len() - __i
//@looptail 0
    proof { assert(upto(__v@, __i as nat).drop_last() =~= upto(__v@, (__i - 1) as nat)); }
//@tail
    proof { assert(upto(string@, string@.len()) =~= string@); }
//@endfn
/// the rows but for those that equal the row before in the columns; the header is no row
pub open spec fn alike(a: RowS, b: RowS, cs: Seq<usize>) -> bool { forall|k: int| 0 <= k < cs.len() ==> same(a[#[trigger] cs[k] as int], b[cs[k] as int]) }
pub open spec fn unlike(rows: Seq<RowS>, cs: Seq<usize>) -> Seq<RowS> decreases rows.len() {
    if rows.len() == 0 { rows } else {
        let r = unlike(rows.drop_last(), cs);
        if rows.len() > 2 && alike(rows.last(), r.last(), cs) { r } else { r.push(rows.last()) }
    }
}
pub proof fn unlike_rect(rows: Seq<RowS>, cs: Seq<usize>, n: nat)
    requires rect(rows, n)
    ensures rect(unlike(rows, cs), n), unlike(rows, cs).len() <= rows.len(), rows.len() > 0 ==> unlike(rows, cs).len() > 0
    decreases rows.len()
{ if rows.len() > 0 { unlike_rect(rows.drop_last(), cs, n); } }
//@closure dedup_table_intrinsic eval_o:0 as=dedup_table
//@params table cx
//@sig fn dedup_table(table: Value, cx: Context, colnames: &Option<ColNameArgs>, w: &mut World) -> (ret: Result<(Table, Environment)>)
    requires colnames is Some ==> names_ok(colnames->Some_0.names@)
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> table is Tab && ret->Ok_0.1 == cx.env && match colnames {
            None => ret->Ok_0.0@ == unlike(table->Tab_0@, Seq::new(table->Tab_0.width(), |i: int| i as usize)),
            Some(n) => exists|cs: Seq<(usize, Str)>| cs.len() == n.names@.len() && cols_named(*old(w), *final(w), n.names@, cx.env, table->Tab_0@, cs) && ret->Ok_0.0@ == unlike(table->Tab_0@, #[trigger] nums_of(cs)),
        },
        ret is Err && table is Tab ==> colnames is Some && no_such_col(*old(w), *final(w), table->Tab_0@),
//@head
    let ghost t0 = table->Tab_0;
    proof { if table is Tab { t0.rect(); } }
//@loop 0
    invariant
        __i <= t@.len(), raw(t) == t0@, rect(t0@, t0.width()), raw(__out) == unlike(upto(t0@, __i as nat), cols@), header == (__i < 2), __i > 0 ==> __out@.len() > 0,
        forall|k: int| 0 <= k < cols@.len() ==> (#[trigger] cols@[k]) < t0.width(),
    decreases t@.len() - __i
//@loophead 0
    proof {
        unlike_rect(upto(t0@, __i as nat), cols@, t0.width());
        assert(raw(t)[__i as int] == t@[__i as int]@);
        if __i > 0 { assert(raw(__out)[__out@.len() - 1] == __out@[__out@.len() - 1]@); }
    }
    let ghost out0 = __out;
//@looptail 0
    proof {
        assert(upto(t0@, __i as nat).drop_last() =~= upto(t0@, (__i - 1) as nat));
        assert(upto(t0@, __i as nat).last() == t0@[__i - 1]);
        if __out@.len() > out0@.len() { assert(raw(__out) =~= raw(out0).push(t0@[__i - 1])); }
    }
//@tail
    proof { assert(upto(t0@, t0@.len()) =~= t0@); unlike_rect(t0@, cols@, t0.width()); plain(unlike(t0@, cols@), t0.width()); assert(raw(t) == unlike(t0@, cols@)); }
//@loop 1
    invariant
        __j <= cols@.len(), __all == (forall|k: int| 0 <= k < __j ==> same(a@[#[trigger] cols@[k] as int], b@[cols@[k] as int])),
        !header, __i < t@.len(), raw(t) == t0@, rect(t0@, t0.width()), __out@.len() > 0, raw(__out) == unlike(upto(t0@, __i as nat), cols@), a == t@[__i as int], b == __out@[__out@.len() - 1],
        forall|k: int| 0 <= k < cols@.len() ==> (#[trigger] cols@[k]) < t0.width(), a@.len() == t0.width(), b@.len() == t0.width(),
    decreases cols@.len() - __j
//@endfn
/// the characters the evaluations said yes to
pub open spec fn chosen(s: Seq<char>, l: Seq<Call>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else {
        let r = chosen(s.drop_last(), l);
        if l[s.len() - 1].o == Some(Value::Bool(true)) { r.push(s.last()) } else { r }
    }
}
pub open spec fn on_char(c: Call, a: Argument, e: Environment, ch: char) -> bool { c.a == a.id && c.e == e@ && c.i is Str && c.i->Str_0@ == seq![ch] }
//@closure filter_str_intrinsic eval_o:0 as=filter_str
//@params input cx
//@sig fn filter_str(input: Value, cx: Context, predicate: &Argument, w: &mut World) -> (ret: Result<(Str, Environment)>)
    requires predicate.out_ty is Bool
    ensures
        grows(*old(w), *final(w)),
        input is Str ==> final(w).log@.len() == old(w).log@.len() + input->Str_0@.len(),
        input is Str ==> forall|k: int| 0 <= k < input->Str_0@.len() ==> on_char(#[trigger] final(w).log@[old(w).log@.len() + k], *predicate, cx.env, input->Str_0@[k]),
        (ret is Ok) == (input is Str && !failed(*old(w), *final(w))),
        ret is Ok ==> ret->Ok_0.0@ == chosen(input->Str_0@, final(w).log@.skip(old(w).log@.len() as int)) && ret->Ok_0.1 == cx.env,
//@head
    broadcast use str_of_chars;
    let ghost s0 = input->Str_0@;
    let ghost n0 = old(w).log@.len() as int;
//@loop 0
    invariant
        __i <= __v@.len(), __v@ == s0, predicate.out_ty is Bool, r.0 == predicate, r.1.env == cx.env, n0 == old(w).log@.len(),
        grows(*old(w), *w), w.log@.len() == n0 + __i,
        forall|k: int| 0 <= k < __i ==> on_char(#[trigger] w.log@[n0 + k], *predicate, cx.env, s0[k]),
        (e is Some) == failed(*old(w), *w),
        e is None ==> __o@ == chosen(upto(s0, __i as nat), w.log@.skip(n0)),
    decreases __v@.len() - __i
//@loophead 0
    let ghost w0 = *w;
    broadcast use str_of_chars;
//@looptail 0
    proof {
        asked_more(*old(w), w0, *w);
        assert(w.log@[n0 + __i - 1] == w.log@.last());
        assert(upto(s0, __i as nat).drop_last() =~= upto(s0, (__i - 1) as nat));
        chosen_more(upto(s0, (__i - 1) as nat), w0.log@.skip(n0), w.log@.skip(n0));
    }
//@tail
    proof { assert(upto(s0, s0.len()) =~= s0); }
//@endfn
pub proof fn chosen_more(s: Seq<char>, a: Seq<Call>, b: Seq<Call>)
    requires forall|k: int| 0 <= k < s.len() ==> a[k] == b[k]
    ensures chosen(s, a) == chosen(s, b)
    decreases s.len()
{ if s.len() > 0 { chosen_more(s.drop_last(), a, b); } }
impl Table {
    #[verifier::external_body] pub fn v_col_head(&self, i: usize) -> (r: Option<&Entry>)
        ensures rect(self@, self.width()), match r { Some(e) => i < self.width() && self@.len() > 0 && *e == self@[0][i as int], None => i >= self.width() || self@.len() == 0 }
    { unimplemented!() }
    #[verifier::external_body] pub fn remove_col_par(&mut self, i: usize)
        requires i < old(self).width()
        ensures final(self)@ == old(self)@.map_values(|r: RowS| r.remove(i as int)), final(self).width() == old(self).width() - 1
    { unimplemented!() }
}
/// the cells of the columns to keep
pub open spec fn cells(r: RowS, keep: Seq<bool>) -> RowS decreases r.len() {
    if r.len() == 0 { r } else {
        let rest = cells(r.drop_first(), keep.drop_first());
        if keep[0] { seq![r[0]] + rest } else { rest }
    }
}
/// the row with the last columns sorted out
pub open spec fn sifted(r: RowS, keep: Seq<bool>) -> RowS { r.take(r.len() - keep.len()) + cells(r.skip(r.len() - keep.len()), keep) }
pub open spec fn cols_sifted(t: Seq<RowS>, keep: Seq<bool>) -> Seq<RowS> { t.map_values(|r: RowS| sifted(r, keep)) }
pub open spec fn cols_kept(t: Seq<RowS>, keep: Seq<bool>) -> Seq<RowS> { t.map_values(|r: RowS| cells(r, keep)) }
pub proof fn sift_step(t: Seq<RowS>, keep: Seq<bool>, b: bool, n: nat)
    requires rect(t, n), keep.len() < n
    ensures
        b ==> cols_sifted(t, seq![b] + keep) == cols_sifted(t, keep),
        !b ==> cols_sifted(t, seq![b] + keep) == cols_sifted(t, keep).map_values(|r: RowS| r.remove(n - keep.len() - 1)),
        forall|i: int| 0 <= i < t.len() ==> (#[trigger] cols_sifted(t, keep)[i]).take(n - keep.len()) == t[i].take(n - keep.len()),
{
    let at = n - keep.len() - 1;
    let k2 = seq![b] + keep;
    assert forall|i: int| 0 <= i < t.len() implies sifted(#[trigger] t[i], k2) == if b { sifted(t[i], keep) } else { sifted(t[i], keep).remove(at) } by {
        let r = t[i];
        assert(r.skip(at).drop_first() =~= r.skip(at + 1));
        assert(k2.drop_first() =~= keep);
        let x = cells(r.skip(at + 1), keep);
        if b { assert(r.take(at) + (seq![r[at]] + x) =~= r.take(at + 1) + x); }
        else { assert((r.take(at + 1) + x).remove(at) =~= r.take(at) + x); }
    }
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] cols_sifted(t, keep)[i]).take(n - keep.len()) == t[i].take(n - keep.len()) by {
        assert(t[i].len() == n);
        assert(cols_sifted(t, keep)[i].take(n - keep.len()) =~= t[i].take(n - keep.len()));
    }
    if b { assert(cols_sifted(t, k2) =~= cols_sifted(t, keep)); }
    else { assert(cols_sifted(t, k2) =~= cols_sifted(t, keep).map_values(|r: RowS| r.remove(n - keep.len() - 1))); }
}
pub proof fn sift_ends(t: Seq<RowS>, keep: Seq<bool>, n: nat)
    requires rect(t, n)
    ensures cols_sifted(t, Seq::empty()) == t, keep.len() == n ==> cols_sifted(t, keep) == cols_kept(t, keep)
{
    assert forall|i: int| 0 <= i < t.len() implies sifted(#[trigger] t[i], Seq::empty()) == t[i] by {
        let e: Seq<bool> = Seq::empty();
        assert(t[i].skip(n as int).len() == 0);
        assert(sifted(t[i], e) =~= t[i]);
    }
    assert(cols_sifted(t, Seq::empty()) =~= t);
    if keep.len() == n {
        assert forall|i: int| 0 <= i < t.len() implies sifted(#[trigger] t[i], keep) == cells(t[i], keep) by {
            assert(t[i].skip(0) =~= t[i]);
            assert(sifted(t[i], keep) =~= cells(t[i], keep));
        }
        assert(cols_sifted(t, keep) =~= cols_kept(t, keep));
    }
}
/// the header of a column as text: nothing where there is none
pub open spec fn header(t: Seq<RowS>, c: int) -> Seq<char> {
    if t.len() > 0 { match t[0][c] { Entry::Obj(Value::Str(h)) => h@, _ => Seq::empty() } } else { Seq::empty() }
}
/// what the evaluations said of the columns, asked from the last to the first
pub open spec fn said(l: Seq<Call>, n0: int, n: nat, a: Argument, e: Environment, t: Seq<RowS>, keep: Seq<bool>, c: int) -> bool {
    let k = l[n0 + n - 1 - c];
    k.a == a.id && k.e == e@ && k.i is Str && k.i->Str_0@ == header(t, c) && k.o == Some(Value::Bool(keep[c - (n - keep.len())]))
}
//@closure filter_table_columns eval_o:0 as=filter_cols
//@params input cx
//@sig fn filter_cols(input: Value, cx: Context, predicate: &Argument, w: &mut World) -> (ret: Result<(Table, Environment)>)
    requires predicate.out_ty is Bool
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> input is Tab && ret->Ok_0.1 == cx.env && final(w).log@.len() == old(w).log@.len() + input->Tab_0.width() && exists|keep: Seq<bool>| keep.len() == input->Tab_0.width()
            && (forall|c: int| 0 <= c < keep.len() ==> #[trigger] said(final(w).log@, old(w).log@.len() as int, keep.len(), *predicate, cx.env, input->Tab_0@, keep, c)) && ret->Ok_0.0@ == #[trigger] cols_kept(input->Tab_0@, keep),
        ret is Err && input is Tab ==> final(w).log@.len() > old(w).log@.len() && final(w).log@.last().o is None,
//@head
    let ghost t0 = input->Tab_0@;
    let ghost wd = input->Tab_0.width();
    let ghost n0 = old(w).log@.len() as int;
    let ghost mut keep: Seq<bool> = Seq::empty();
    proof { if input is Tab { input->Tab_0.rect(); sift_ends(t0, keep, wd); } }
//@loop 0
    invariant
        __at + keep.len() == wd, predicate.out_ty is Bool, n0 == old(w).log@.len(), rect(t0, wd), table.width() >= __at,
        table@ == cols_sifted(t0, keep), grows(*old(w), *w), w.log@.len() == n0 + keep.len(),
        forall|c: int| __at <= c < wd ==> #[trigger] said(w.log@, n0, wd, *predicate, cx.env, t0, keep, c),
    decreases __at
//@loophead 0
    let ghost w0 = *w;
    let ghost k0 = keep;
    proof {
        sift_step(t0, keep, true, wd); sift_step(t0, keep, false, wd);
        if t0.len() > 0 { let r = cols_sifted(t0, keep)[0]; assert(r == table@[0]); assert(r.take(__at as int)[__at - 1] == r[__at - 1]); assert(t0[0].take(__at as int)[__at - 1] == t0[0][__at - 1]); }
    }
//@looptail 0
    proof {
        keep = seq![rm] + k0;
        assert(w.log@[n0 + wd - 1 - __at] == w.log@.last());
        assert forall|c: int| __at <= c < wd implies #[trigger] said(w.log@, n0, wd, *predicate, cx.env, t0, keep, c) by {
            if c > __at { assert(said(w0.log@, n0, wd, *predicate, cx.env, t0, k0, c)); }
        }
    }
//@tail
    proof { sift_ends(t0, keep, wd); assert(__vret->Ok_0.0@ == cols_kept(t0, keep)); }
//@endfn
pub type Pick = (Option<usize>, Str);
#[verifier::external_body] pub fn v_some(v: Vec<(usize, Str)>) -> (r: Vec<Pick>) ensures r@ == somes(v@) { unimplemented!() }
pub open spec fn somes(v: Seq<(usize, Str)>) -> Seq<Pick> { v.map_values(|x: (usize, Str)| (Some(x.0), x.1)) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { p: std::marker::PhantomData<T> }
impl HashSet<usize> {
    pub uninterp spec fn has(&self, i: usize) -> bool;
    #[verifier::external_body] pub fn contains(&self, i: &usize) -> (r: bool) ensures r == self.has(*i) { unimplemented!() }
}
pub struct NamedSet { s: HashSet<usize> }
pub open spec fn among(i: usize, cs: Seq<Pick>) -> bool { exists|k: int| 0 <= k < cs.len() && (#[trigger] cs[k]).0 == Some(i) }
#[verifier::external_body] pub fn v_named_set(v: &Vec<Pick>) -> (r: Lst1<HashSet<usize>>) ensures forall|i: usize| #[trigger] r.v.has(i) == among(i, v@) { unimplemented!() }
pub struct Lst1<T> { pub v: T }
impl<T> Lst1<T> { pub fn collect(self) -> (r: T) ensures r == self.v { self.v } }
#[verifier::external_body] pub fn v_empties(n: usize) -> (r: Vec<Vec<Entry>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == 0 { unimplemented!() }
pub fn v_extend_picks(v: &mut Vec<Pick>, r: Vec<Pick>)
    ensures final(v)@.len() == old(v)@.len() + r@.len(), final(v)@.take(old(v)@.len() as int) == old(v)@, forall|k: int| 0 <= k < old(v)@.len() ==> #[trigger] final(v)@[k] == old(v)@[k], forall|k: int| old(v)@.len() <= k < final(v)@.len() ==> #[trigger] final(v)@[k] == r@[k - old(v)@.len()]
{ let mut r = r; let ghost o = v@; v.append(&mut r); assert(v@.take(o.len() as int) =~= o); }
pub fn v_extend<T>(v: &mut Vec<T>, r: Vec<T>) ensures final(v)@ == old(v)@ + r@ { let mut r = r; v.append(&mut r); }
impl Table {
    #[verifier::external_body] pub fn v_cell_opt(&self, i: usize, k: usize) -> (r: Option<&Entry>)
        ensures rect(self@, self.width()), match r { Some(e) => i < self@.len() && k < self.width() && *e == self@[i as int][k as int], None => i >= self@.len() || k >= self.width() }
    { unimplemented!() }
}
impl ColNameArgs {
//@src ogma/src/lang/impls/intrinsics/mod.rs
//@fn ColNameArgs::resolve_indices_forgiven
//@sig fn resolve_indices_forgiven(&self, table: &Table, cx: &Context, w: &mut World) -> (ret: Result<Vec<(Option<usize>, Str)>>)
    requires names_ok(self.names@)
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> ret->Ok_0@.len() == self.names@.len() && cols_asked(*old(w), *final(w), self.names@, cx.env, table@, ret->Ok_0@),
        ret is Err ==> final(w).log@.len() > old(w).log@.len() && final(w).log@.last().o is None,
//@loop 0
    invariant
        names_ok(self.names@), __vs@ == self.names@, __k <= __vs@.len(), x@.len() == __k, grows(*old(w), *w),
        cols_asked(*old(w), *w, self.names@, cx.env, table@, x@),
    decreases __vs@.len() - __k
//@endfn
}
/// the columns the arguments name, each evaluated once, nothing for those the table has not
pub open spec fn cols_asked(o: World, n: World, names: Seq<Argument>, e: Environment, t: Seq<RowS>, cs: Seq<Pick>) -> bool {
    &&& n.log@.len() == o.log@.len() + cs.len() && cs.len() <= names.len()
    &&& forall|k: int| 0 <= k < cs.len() ==> (match (#[trigger] cs[k]).0 { Some(i) => col_of(t, cs[k].1@, i as nat), None => col_less(t, cs[k].1@) })
            && on_val(n.log@[o.log@.len() + k], names[k], e, Value::Nil, Value::Str(cs[k].1))
}
impl TableRow {
    // proved in unit rows
    #[verifier::external_body] pub fn col_idx_by<H: AsText>(table: &Table, h: H, tag: &Tag) -> (ret: Result<usize>)
        ensures ret is Ok ==> col_of(table@, h.txt(), ret->Ok_0 as nat), ret is Err ==> col_less(table@, h.txt())
    { unimplemented!() }
}
//@src ogma/src/lang/impls/intrinsics/morphism.rs
/// a cell of a picked column: a new column has its name in the header and nothing below
pub open spec fn picked_cell(r: RowS, i: int, p: Pick) -> Entry {
    match p.0 { Some(c) => r[c as int], None => if i == 0 { entry_of(Value::Str(p.1)) } else { Entry::Nil } }
}
pub open spec fn picked_row(r: RowS, i: int, ps: Seq<Pick>) -> RowS { Seq::new(ps.len(), |k: int| picked_cell(r, i, ps[k])) }
pub open spec fn picked(t: Seq<RowS>, ps: Seq<Pick>) -> Seq<RowS> { Seq::new(t.len(), |i: int| picked_row(t[i], i, ps)) }
/// the columns from the first up to the n-th that none of the picks names, in order
pub open spec fn trailing(ps: Seq<Pick>, n: nat) -> Seq<usize> decreases n {
    if n == 0 { Seq::empty() } else { let r = trailing(ps, (n - 1) as nat); if among((n - 1) as usize, ps) { r } else { r.push((n - 1) as usize) } }
}
/// the picks, then, if asked for, the other columns
pub open spec fn then_cols(all: Seq<Pick>, ps: Seq<Pick>, trail: bool, n: nat) -> bool {
    &&& all.len() == ps.len() + (if trail { trailing(ps, n).len() } else { 0 })
    &&& forall|k: int| 0 <= k < ps.len() ==> #[trigger] all[k] == ps[k]
    &&& forall|k: int| ps.len() <= k < all.len() ==> (#[trigger] all[k]).0 == Some(trailing(ps, n)[k - ps.len()])
}
pub open spec fn pick_named(o: World, n: World, names: Seq<Argument>, e: Environment, t: Table, add: bool, trail: bool, all: Seq<Pick>) -> bool {
    exists|ps: Seq<Pick>| ps.len() == names.len() && #[trigger] then_cols(all, ps, trail, t.width())
        && if add { cols_asked(o, n, names, e, t@, ps) } else { exists|cs: Seq<(usize, Str)>| ps == #[trigger] somes(cs) && cols_named(o, n, names, e, t@, cs) }
}
//@closure pick_table_intrinsic eval_o:0 as=pick_table
//@params input cx
//@sig fn pick_table(input: Value, cx: Context, colnames: &ColNameArgs, addflag: bool, trailflag: bool, w: &mut World) -> (ret: Result<(Table, Environment)>)
    requires names_ok(colnames.names@)
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> input is Tab && ret->Ok_0.1 == cx.env && exists|all: Seq<Pick>| pick_named(*old(w), *final(w), colnames.names@, cx.env, input->Tab_0, addflag, trailflag, all) && ret->Ok_0.0@ == #[trigger] picked(input->Tab_0@, all),
        ret is Err && input is Tab ==> if addflag { final(w).log@.len() > old(w).log@.len() && final(w).log@.last().o is None } else { no_such_col(*old(w), *final(w), input->Tab_0@) },
//@loop 0
    invariant
        __k <= table.width(), __o@ == trailing(colidxs@, __k as nat), forall|k: int| 0 <= k < __o@.len() ==> #[trigger] __o@[k] < __k, forall|i: usize| #[trigger] indices.has(i) == among(i, colidxs@),
    decreases table.width() - __k
//@head
    let ghost t0 = input->Tab_0@;
    let ghost wd = input->Tab_0.width();
    proof { if input is Tab { input->Tab_0.rect(); } }
//@loop 1
    invariant
        __k <= toadd@.len(), __o@.len() == __k, forall|k: int| 0 <= k < __k ==> (#[trigger] __o@[k]).0 == Some(toadd@[k]),
    decreases toadd@.len() - __k
//@loop 2
    invariant
        __row <= v@.len(), v@.len() == table@.len(), table@ == t0, table.width() == wd, rect(t0, wd), forall|k: int| 0 <= k < colidxs@.len() && (#[trigger] colidxs@[k]).0 is Some ==> colidxs@[k].0->Some_0 < wd,
        forall|i: int| 0 <= i < __row ==> (#[trigger] v@[i])@ == picked_row(t0[i], i, colidxs@),
        forall|i: int| __row <= i < v@.len() ==> (#[trigger] v@[i])@.len() == 0,
    decreases v@.len() - __row
//@loop 3
    invariant
        __c <= colidxs@.len(), row < table@.len(), table@ == t0, table.width() == wd, rect(t0, wd), forall|k: int| 0 <= k < colidxs@.len() && (#[trigger] colidxs@[k]).0 is Some ==> colidxs@[k].0->Some_0 < wd,
        __o@.len() == __c, forall|k: int| 0 <= k < __c ==> #[trigger] __o@[k] == picked_cell(t0[row as int], row as int, colidxs@[k]),
    decreases colidxs@.len() - __c
//@tail
    proof {
        let ps = colidxs@.take(colnames.names@.len() as int);
        assert(!trailflag ==> ps =~= colidxs@);
        assert(then_cols(colidxs@, ps, trailflag, wd));
        assert(raw(v) =~= picked(t0, colidxs@));
        plain(picked(t0, colidxs@), colidxs@.len());
    }
//@endfn
impl Table {
    /// a column from its header on
    #[verifier::external_body] pub fn v_col_first<'a>(&'a mut self, i: usize) -> (r: Option<Option<&'a mut Entry>>)
        ensures
            i >= old(self).width() ==> r is None && *final(self) == *old(self),
            i < old(self).width() ==> r is Some && (r->Some_0 is Some) == (old(self)@.len() > 0) && final(self).width() == old(self).width(),
            i < old(self).width() && old(self)@.len() == 0 ==> *final(self) == *old(self),
            i < old(self).width() && old(self)@.len() > 0 ==> *r->Some_0->Some_0 == old(self)@[0][i as int] && final(self)@ == old(self)@.update(0, old(self)@[0].update(i as int, *final(r->Some_0->Some_0))),
    { unimplemented!() }
}
/// the index a value stands for
pub open spec fn index(v: Value) -> Option<nat> { match v { Value::Num(n) => num_uint(n), _ => None } }
// proved in unit rows
#[verifier::external_body] fn cnv_num_to_uint<T: Unsigned>(val: Value, tag: &Tag) -> (ret: Result<T>)
    requires T::lim() <= u128::MAX
    ensures ret is Ok ==> index(val) == Some(ret->Ok_0.un()), ret is Err ==> index(val) is None || index(val)->Some_0 > T::lim()
{ unimplemented!() }
pub enum Ref { Name(Argument), Idx(Argument) }
pub open spec fn refs_ok(hs: Seq<Ref>) -> bool { forall|k: int| 0 <= k < hs.len() ==> match #[trigger] hs[k] { Ref::Name(x) => x.out_ty is Str, Ref::Idx(x) => x.out_ty is Num } }
/// the column a reference stands for
pub open spec fn ref_is(c: Call, h: Ref, e: Environment, t: Seq<RowS>, i: nat) -> bool {
    c.e == e@ && c.i is Nil && match h {
        Ref::Name(x) => c.a == x.id && match c.o { Some(Value::Str(s)) => col_of(t, s@, i), _ => false },
        Ref::Idx(x) => c.a == x.id && match c.o { Some(v) => index(v) == Some(i), None => false },
    }
}
/// a reference to no column
pub open spec fn ref_bad(c: Call, h: Ref, t: Table) -> bool {
    match h {
        Ref::Name(x) => match c.o { Some(Value::Str(s)) => col_less(t@, s@), _ => false },
        Ref::Idx(x) => match c.o { Some(v) => index(v) is None || index(v)->Some_0 > usize::MAX || index(v)->Some_0 >= t.width(), None => false },
    }
}
pub open spec fn refs_are(l: Seq<Call>, n0: int, hs: Seq<Ref>, e: Environment, t: Seq<RowS>, is: Seq<usize>) -> bool {
    forall|k: int| 0 <= k < is.len() ==> ref_is(l[n0 + k], hs[k], e, t, #[trigger] is[k] as nat)
}
pub open spec fn names_are(l: Seq<Call>, n0: int, ns: Seq<Argument>, e: Environment, vs: Seq<Value>) -> bool {
    forall|k: int| 0 <= k < vs.len() ==> on_val(l[n0 + k], ns[k], e, Value::Nil, #[trigger] vs[k])
}
/// the header with the cells replaced one after the other
pub open spec fn put_names(r: RowS, is: Seq<usize>, vs: Seq<Value>) -> RowS decreases vs.len() {
    if vs.len() == 0 { r } else { put_names(r, is, vs.drop_last()).update(is[vs.len() - 1] as int, entry_of(vs.last())) }
}
pub open spec fn reheaded(t: Seq<RowS>, h: RowS) -> Seq<RowS> { if t.len() > 0 { t.update(0, h) } else { t } }
pub open spec fn renamed(o: World, n: World, hs: Seq<Ref>, ns: Seq<Argument>, e: Environment, t: Seq<RowS>, is: Seq<usize>, vs: Seq<Value>) -> bool {
    let n0 = o.log@.len() as int;
    &&& is.len() == hs.len() && vs.len() == hs.len() && n.log@.len() == n0 + hs.len() + hs.len()
    &&& refs_are(n.log@, n0, hs, e, t, is) && names_are(n.log@, n0 + hs.len(), ns, e, vs)
}
//@closure ren_table_intrinsic eval_o:0 as=ren_table
//@params table cx
//@sig fn ren_table(table_in: Value, cx: Context, hdrs: &Vec<Ref>, names: &Vec<Argument>, w: &mut World) -> (ret: Result<(Table, Environment)>)
    requires refs_ok(hdrs@), names_ok(names@), names@.len() == hdrs@.len()
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> table_in is Tab && ret->Ok_0.1 == cx.env && exists|is: Seq<usize>, vs: Seq<Value>| #[trigger] renamed(*old(w), *final(w), hdrs@, names@, cx.env, table_in->Tab_0@, is, vs)
            && ret->Ok_0.0@ == reheaded(table_in->Tab_0@, put_names(table_in->Tab_0@[0], is, vs)),
        ret is Err && table_in is Tab ==> ({
            let m = final(w).log@.len() - old(w).log@.len();
            let k = m - hdrs@.len();
            ||| m > 0 && final(w).log@.last().o is None
            ||| 0 < m <= hdrs@.len() && ref_bad(final(w).log@.last(), hdrs@[m - 1], table_in->Tab_0)
            ||| 0 <= k < hdrs@.len() && ref_bad(final(w).log@[old(w).log@.len() + k], hdrs@[k], table_in->Tab_0)
        }),
//@head
    let table = table_in;
    let ghost t0 = table_in->Tab_0;
    let ghost n0 = old(w).log@.len() as int;
    let ghost mut vs: Seq<Value> = Seq::empty();
    proof { if table_in is Tab { t0.rect(); } }
//@loop 0
    invariant
        __vs@ == hdrs@, t0 == table_in->Tab_0, __k <= __vs@.len(), indices@.len() == __k, table == t0, refs_ok(hdrs@), n0 == old(w).log@.len(),
        grows(*old(w), *w), w.log@.len() == n0 + __k, refs_are(w.log@, n0, hdrs@, cx.env, t0@, indices@),
    decreases __vs@.len() - __k
//@loop 1
    invariant
        t0 == table_in->Tab_0, __k <= indices@.len(), indices@.len() == hdrs@.len(), names@.len() == hdrs@.len(), names_ok(names@), n0 == old(w).log@.len(), vs.len() == __k, rect(t0@, t0.width()),
        t.width() == t0.width(), t@ == reheaded(t0@, put_names(t0@[0], indices@, vs)),
        grows(*old(w), *w), w.log@.len() == n0 + hdrs@.len() + __k, refs_are(w.log@, n0, hdrs@, cx.env, t0@, indices@), names_are(w.log@, n0 + hdrs@.len(), names@, cx.env, vs),
    decreases indices@.len() - __k
//@loophead 1
    let ghost w0 = *w;
    let ghost at = __k as int;
    assert(ref_is(w0.log@[n0 + at], hdrs@[at], cx.env, t0@, indices@[at] as nat));
    assert(t0@.len() > 0 ==> t@[0] == put_names(t0@[0], indices@, vs));
//@looptail 1
    proof {
        let v0 = vs;
        vs = vs.push(w.log@.last().o->Some_0);
        assert(vs.drop_last() =~= v0);
        assert(t@ =~= reheaded(t0@, put_names(t0@[0], indices@, vs)));
        assert forall|k: int| 0 <= k < indices@.len() implies ref_is(w.log@[n0 + k], hdrs@[k], cx.env, t0@, #[trigger] indices@[k] as nat) by { assert(w.log@[n0 + k] == w0.log@[n0 + k]); }
        assert forall|k: int| 0 <= k < vs.len() implies on_val(w.log@[n0 + hdrs@.len() + k], names@[k], cx.env, Value::Nil, #[trigger] vs[k]) by { if k < v0.len() { assert(v0[k] == vs[k]); } }
    }
//@tail
    proof { assert(renamed(*old(w), *w, hdrs@, names@, cx.env, t0@, indices@, vs)); }
//@endfn
impl Value { pub fn from<T: To<Value>>(t: T) -> (r: Value) ensures r == t.to() { t.v_to() } }
impl Table {
    #[verifier::external_body] pub fn v_put_head(&mut self, es: Vec<Entry>)
        ensures final(self).width() == old(self).width(), final(self)@ == reheaded(old(self)@, Seq::new(old(self)@[0].len(), |c: int| if c < es@.len() { es@[c] } else { old(self)@[0][c] }))
    { unimplemented!() }
}
impl TableRow {
    // proved in unit rows
    #[verifier::external_body] pub fn new(table: Table, colmap: ColMap, idx: usize) -> (ret: TableRow)
        requires colmap.of() == table@
        ensures ret.table == table, ret.idx == idx, ret.cached_col_indices.of() == table@
    { unimplemented!() }
    // proved in unit rows
    #[verifier::external_body] pub fn cnv_value<C>(entry: &Entry, exp: &Type, rowidx: usize, colname: C, coltag: &Tag) -> (ret: Result<Value>)
        ensures (ret is Ok) == (ty_of(val_of(*entry)) == *exp), ret is Ok ==> ret->Ok_0 == val_of(*entry)
    { unimplemented!() }
}
/// each cell of the row put to the expression, with what it gave
pub open spec fn heads_from(l: Seq<Call>, n0: int, a: Argument, e: Environment, r: RowS, hs: Seq<Str>) -> bool {
    forall|c: int| 0 <= c < hs.len() ==> on_val(l[n0 + c], a, e, val_of(r[c]), Value::Str(#[trigger] hs[c]))
}
//@closure ren_with_table_intrinsic eval_o:0 as=ren_with_table
//@params table cx
//@sig fn ren_with_table(table_in: Value, cx: Context, row_idx: &Argument, expr: &Argument, inty: &Type, blktag: &Tag, w: &mut World) -> (ret: Result<(Table, Environment)>)
    requires row_idx.out_ty is Num, expr.out_ty is Str
    ensures
        grows(*old(w), *final(w)), final(w).log@.len() > old(w).log@.len(),
        final(w).log@[old(w).log@.len() as int].a == row_idx.id && final(w).log@[old(w).log@.len() as int].i is Nil && final(w).log@[old(w).log@.len() as int].e == cx.env@,
        ret is Ok ==> table_in is Tab && ret->Ok_0.1 == cx.env && ({
            let t = table_in->Tab_0@;
            let n0 = old(w).log@.len() as int;
            let at = index(final(w).log@[n0].o->Some_0);
            &&& at is Some && at->Some_0 < t.len() && final(w).log@.len() == n0 + 1 + table_in->Tab_0.width()
            &&& exists|hs: Seq<Str>| hs.len() == table_in->Tab_0.width() && #[trigger] heads_from(final(w).log@, n0 + 1, *expr, cx.env, t[at->Some_0 as int], hs)
                    && ret->Ok_0.0@ == t.update(0, hs.map_values(|h: Str| entry_of(Value::Str(h))))
        }),
        ret is Err && table_in is Tab ==> final(w).log@.last().o is None || ({
            let t = table_in->Tab_0@;
            let v = final(w).log@[old(w).log@.len() as int].o;
            let c = final(w).log@.len() - old(w).log@.len() - 1;
            ||| v is Some && (index(v->Some_0) is None || index(v->Some_0)->Some_0 > usize::MAX || index(v->Some_0)->Some_0 >= t.len())
            ||| t.len() == 0 || table_in->Tab_0.width() == 0
            ||| v is Some && index(v->Some_0) is Some && index(v->Some_0)->Some_0 < t.len() && c < table_in->Tab_0.width() && ty_of(val_of(t[index(v->Some_0)->Some_0 as int][c])) != *inty
        }),
//@head
    let table = table_in;
    let ghost t0 = table_in->Tab_0;
    let ghost n0 = old(w).log@.len() as int;
    proof { if table_in is Tab { t0.rect(); } }
//@loop 0
    invariant
        __k <= __es@.len(), __es@.len() == t0.width(), hdrs@.len() == __k, t0 == table_in->Tab_0, table == t0, rect(t0@, t0.width()), n0 == old(w).log@.len(), expr.out_ty is Str, rowidx < t0@.len(), __es@.len() > 0,
        forall|c: int| 0 <= c < __es@.len() ==> *(#[trigger] __es@[c]) == t0@[rowidx as int][c],
        grows(*old(w), *w), w.log@.len() == n0 + 1 + __k, w.log@[n0].a == row_idx.id, w.log@[n0].i is Nil, w.log@[n0].e == cx.env@, w.log@[n0].o is Some, index(w.log@[n0].o->Some_0) == Some(rowidx as nat),
        heads_from(w.log@, n0 + 1, *expr, cx.env, t0@[rowidx as int], hdrs@),
    decreases __es@.len() - __k
//@loophead 0
    let ghost w0 = *w;
    let ghost h0 = hdrs@;
//@looptail 0
    proof { assert forall|c: int| 0 <= c < hdrs@.len() implies on_val(w.log@[n0 + 1 + c], *expr, cx.env, val_of(t0@[rowidx as int][c]), Value::Str(#[trigger] hdrs@[c])) by { if c < h0.len() { assert(h0[c] == hdrs@[c]); assert(w0.log@[n0 + 1 + c] == w.log@[n0 + 1 + c]); } } }
//@loop 1
    invariant
        __k <= hdrs@.len(), __es@.len() == __k, forall|c: int| 0 <= c < __k ==> #[trigger] __es@[c] == entry_of(Value::Str(hdrs@[c])),
    decreases hdrs@.len() - __k
//@tail
    proof { assert(t0@[0].len() == t0.width()); assert(__vret->Ok_0.0@[0] =~= hdrs@.map_values(|h: Str| entry_of(Value::Str(h)))); assert(__vret->Ok_0.0@ =~= t0@.update(0, hdrs@.map_values(|h: Str| entry_of(Value::Str(h))))); }
//@endfn
#[verifier::external_body] pub fn v_resize(v: &mut Vec<Entry>, n: usize)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == if i < old(v)@.len() { old(v)@[i] } else { Entry::Nil }
{ unimplemented!() }
/// the table with columns put behind its own
pub open spec fn widened(t: Seq<RowS>, cs: Seq<Seq<Entry>>) -> Seq<RowS> { Seq::new(t.len(), |i: int| t[i] + Seq::new(cs.len(), |j: int| cs[j][i])) }
pub open spec fn deep(v: Seq<Vec<Entry>>) -> Seq<Seq<Entry>> { v.map_values(|c: Vec<Entry>| c@) }
impl Table {
    #[verifier::external_body] pub fn add_cols(&mut self, cs: Vec<Vec<Entry>>)
        requires forall|j: int| 0 <= j < cs@.len() ==> (#[trigger] cs@[j])@.len() == old(self)@.len()
        ensures final(self)@ == widened(old(self)@, deep(cs@))
    { unimplemented!() }
}
pub open spec fn asked_cell(o: World, n: World, a: Argument, e: Environment, t: Table, i: int, c: Entry) -> bool { exists|v: Value| #[trigger] asked(o, n, a, e, t, i, v) && c == entry_of(v) }
/// the cells of an appended column up to a row: its name, then what the expression gave for each row
pub open spec fn col_done(o: World, n: World, w: (Argument, Str), e: Environment, t: Table, c: Seq<Entry>, upto: int) -> bool {
    &&& c.len() == t@.len() && (c.len() > 0 ==> c[0] == entry_of(Value::Str(w.1)))
    &&& forall|i: int| 1 <= i < upto ==> asked_cell(o, n, w.0, e, t, i, #[trigger] c[i])
}
pub open spec fn cols_done(o: World, n: World, ws: Seq<(Argument, Str)>, e: Environment, t: Table, cs: Seq<Seq<Entry>>, upto: int) -> bool {
    forall|j: int| 0 <= j < upto ==> col_done(o, n, ws[j], e, t, #[trigger] cs[j], t@.len() as int)
}
pub proof fn cells_more(o: World, m: World, n: World)
    requires grows(m, n)
    ensures forall|a: Argument, e: Environment, t: Table, i: int, c: Entry| asked_cell(o, m, a, e, t, i, c) ==> #[trigger] asked_cell(o, n, a, e, t, i, c), failed(o, m) ==> failed(o, n)
{
    asked_more(o, m, n);
    assert forall|a: Argument, e: Environment, t: Table, i: int, c: Entry| asked_cell(o, m, a, e, t, i, c) implies #[trigger] asked_cell(o, n, a, e, t, i, c) by {
        let v = choose|v: Value| #[trigger] asked(o, m, a, e, t, i, v) && c == entry_of(v);
        assert(asked(o, n, a, e, t, i, v));
    }
}
//@fn append_table
//@sig fn append_table(mut table: Table, cx: &Context, with: &[(Argument, Str)], w: &mut World) -> (ret: Result<Table>)
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> exists|cs: Seq<Seq<Entry>>| cs.len() == with@.len() && cols_done(*old(w), *final(w), with@, cx.env, table, cs, cs.len() as int) && ret->Ok_0@ == #[trigger] widened(table@, cs),
        ret is Err ==> failed(*old(w), *final(w)),
//@head
    let ghost t0 = table;
    proof { table.rect(); }
//@loop 0
    invariant
        __k <= with@.len(), __o@.len() == __k, rows == table@.len(),
        forall|j: int| 0 <= j < __k ==> (#[trigger] __o@[j])@.len() == rows && (rows > 0 ==> __o@[j]@[0] == entry_of(Value::Str(with@[j].1))),
    decreases with@.len() - __k
//@loop 1
    invariant
        __row <= to_append@.len(), to_append@.len() == with@.len(), table == t0, rows == table@.len(),
        forall|j: int| 0 <= j < to_append@.len() ==> (#[trigger] to_append@[j])@.len() == rows && (rows > 0 ==> to_append@[j]@[0] == entry_of(Value::Str(with@[j].1))),
        grows(*old(w), *w), err is Some ==> failed(*old(w), *w),
        err is None ==> forall|j: int| 0 <= j < __row ==> col_done(*old(w), *w, with@[j], cx.env, t0, (#[trigger] to_append@[j])@, t0@.len() as int),
    decreases to_append@.len() - __row
//@loophead 1
    let ghost w1 = *w;
    let ghost j1 = __row as int;
    let ghost a1 = to_append@;
//@looptail 1
    proof {
        cells_more(*old(w), w1, *w);
        assert forall|j: int| 0 <= j < __row && err is None implies col_done(*old(w), *w, with@[j], cx.env, t0, (#[trigger] to_append@[j])@, t0@.len() as int) by {
            if j < j1 { assert(to_append@[j] == a1[j]); assert(col_done(*old(w), w1, with@[j], cx.env, t0, a1[j]@, t0@.len() as int)); }
        }
    }
//@loop 2
    invariant
        __tab == &table, table == t0, rows == table@.len(), __buf@.len() == rows, __row >= 1, rows > 0 ==> __row <= rows, __cx.env == cx.env, predicate.0 == &with@[j1].0, predicate.1 == cx, j1 == withidx, 0 <= j1 < with@.len(),
        rows > 0 ==> __buf@[0] == entry_of(Value::Str(with@[j1].1)),
        grows(*old(w), *w), grows(w1, *w), __err is Some ==> failed(*old(w), *w), failed(*old(w), w1) ==> failed(*old(w), *w),
        __err is None ==> forall|i: int| 1 <= i < __row ==> asked_cell(*old(w), *w, with@[j1].0, cx.env, t0, i, #[trigger] __buf@[i]),
    decreases __buf@.len() - __row
//@loophead 2
    let ghost w2 = *w;
    let ghost b2 = __buf@;
    let ghost i2 = __row as int;
//@looptail 2
    proof {
        cells_more(*old(w), w2, *w);
        let c = w.log@.last();
        let k = w.log@.len() - 1;
        assert(w.log@[k] == c);
        if __err is None {
            assert(__buf@ == b2.update(i2, __buf@[i2]));
            assert(on_row(w.log@[k], with@[j1].0, cx.env, t0, i2, c.o->Some_0));
            assert(asked(*old(w), *w, with@[j1].0, cx.env, t0, i2, c.o->Some_0));
        } else if c.o is None { assert(failed(*old(w), *w)); }
    }
//@tail
    proof { assert(cols_done(*old(w), *w, with@, cx.env, t0, deep(to_append@), with@.len() as int)); }
//@endfn
/// the name given to the n-th column that has none
pub uninterp spec fn auto(n: int) -> Str;
// assume: a table has fewer than 2^31 - 1 columns
#[verifier::external_body] pub fn v_auto(n: i32) -> (r: String) ensures str_of(r@) == auto(n as int) { unimplemented!() }
pub open spec fn entries(v: Seq<Value>) -> RowS { v.map_values(|x: Value| entry_of(x)) }
pub open spec fn wider(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
impl Table {
    #[verifier::external_body] pub fn v_add_row(&mut self, r: Vec<Value>)
        ensures final(self).width() == wider(old(self).width(), r@.len()), final(self)@ == filled(old(self)@.push(entries(r@)), wider(old(self).width(), r@.len())), final(self).width() < i32::MAX
    { unimplemented!() }
    #[verifier::external_body] pub fn v_head_mut<'a>(&'a mut self, c: usize) -> (r: &'a mut Entry)
        requires old(self)@.len() > 0, c < old(self).width()
        ensures *r == old(self)@[0][c as int], final(self)@ == old(self)@.update(0, old(self)@[0].update(c as int, *final(r))), final(self).width() == old(self).width()
    { unimplemented!() }
}
/// how many of the first n cells are empty
pub open spec fn blanks(r: RowS, n: nat) -> nat decreases n { if n == 0 { 0 } else { blanks(r, (n - 1) as nat) + (if r[n - 1] is Nil { 1nat } else { 0nat }) } }
/// the header with its first n cells named
pub open spec fn named_head(r: RowS, n: int) -> RowS { Seq::new(r.len(), |c: int| if c < n && r[c] is Nil { entry_of(Value::Str(auto(blanks(r, c as nat) as int + 1))) } else { r[c] }) }
/// the table with a row of values below, as wide as need be
pub open spec fn with_row(t: Seq<RowS>, v: Seq<Value>, n: nat) -> Seq<RowS> { filled(t.push(entries(v)), n) }
//@closure append_row_intrinsic eval_o:0 as=append_row
//@params table cx
//@sig fn append_row(table_in: Value, cx: Context, cols: &Vec<Argument>, w: &mut World) -> (ret: Result<(Table, Environment)>)
    ensures
        grows(*old(w), *final(w)),
        ret is Ok ==> table_in is Tab && ret->Ok_0.1 == cx.env && final(w).log@.len() == old(w).log@.len() + cols@.len() && exists|vs: Seq<Value>| vs.len() == cols@.len()
            && (forall|k: int| 0 <= k < vs.len() ==> on_val(final(w).log@[old(w).log@.len() + k], cols@[k], cx.env, table_in, #[trigger] vs[k]))
            && ({ let t = #[trigger] with_row(table_in->Tab_0@, vs, wider(table_in->Tab_0.width(), vs.len())); ret->Ok_0.0@ == t.update(0, named_head(t[0], t[0].len() as int)) }),
        ret is Err && table_in is Tab ==> final(w).log@.len() > old(w).log@.len() && final(w).log@.last().o is None,
//@head
    let table = table_in;
    let ghost n0 = old(w).log@.len() as int;
    let ghost wd = wider(table_in->Tab_0.width(), cols@.len());
    let ghost t0 = table_in->Tab_0@;
    proof { assert forall|v: Seq<Value>, n: nat| with_row(t0, v, n).len() > 0 implies #[trigger] with_row(t0, v, n) == with_row(t0, v, n).update(0, named_head(with_row(t0, v, n)[0], 0)) by {
        let t1 = with_row(t0, v, n);
        assert(named_head(t1[0], 0) =~= t1[0]);
        assert(t1.update(0, t1[0]) =~= t1);
    } }
//@loop 0
    invariant
        __vs@ == cols@, __k <= __vs@.len(), x@.len() == __k, n0 == old(w).log@.len(), table == table_in,
        grows(*old(w), *w), w.log@.len() == n0 + __k, forall|k: int| 0 <= k < __k ==> on_val(w.log@[n0 + k], cols@[k], cx.env, table_in, #[trigger] x@[k]),
    decreases __vs@.len() - __k
//@loop 1
    invariant
        __c <= t.width(), t.width() == wd, t.width() < i32::MAX, i == blanks(with_row(t0, x@, wd)[0], __c as nat) + 1, i <= __c + 1, with_row(t0, x@, wd).len() > 0, with_row(t0, x@, wd)[0].len() == wd,
        t@ == with_row(t0, x@, wd).update(0, named_head(with_row(t0, x@, wd)[0], __c as int)),
    decreases t.width() - __c
//@loophead 1
    let ghost i0 = i as int;
//@looptail 1
    proof {
        let h = with_row(t0, x@, wd)[0];
        assert(named_head(h, __c as int) =~= named_head(h, __c - 1).update(__c - 1, t@[0][__c - 1]));
        assert(t@ =~= with_row(t0, x@, wd).update(0, named_head(h, __c as int)));
    }
//@endfn
