//@rule flag_fn stmt
let mut f = |$i_s| $e;
//@=>
let f = |$i_s| $e;
//@endrule
//@rule tab_step
variadic_intrinsic_in_constrained(blk, move |$i_a, $i_b| $e)
//@=>
v_join_step(blk, byrow, intersect)
//@endrule
//@rule flag_some
blk.get_flag($s).is_some()
//@=>
blk.v_flag($s)
//@endrule
//@rule rows_take
$b_r.map(|$i_x| $i_y.take($e).cloned())
//@=>
$b_r.v_each_take($e)
//@endrule
//@rule rows_all
$b_r.map(|$i_x| $i_y.cloned())
//@=>
$b_r
//@endrule
//@rule for_rev
for $p_i in ($a..$b).rev() { $s_body }
//@=>
{ let __lo = $a; let mut __it = $b; while __it > __lo { __it -= 1; let $p_i = __it; $s_body } }
//@endrule
//@rule hdr_def
$b_t.col($c).unwrap().next().cloned().unwrap_or_default()
//@=>
$b_t.v_header($c)
//@endrule
//@rule hdr_put
if let Some($i_h) = $b_t.col_mut($c).expect($m).next() { *$i_g = $e; }
//@=>
{ $b_t.v_set_header($c, $e); }
//@endrule
//@rule hdr_add
$b_t.add_col(std::iter::once($e))
//@=>
$b_t.v_add_header($e)
//@endrule
//@rule min
cmp::min($a, $b)
//@=>
v_min($a, $b)
//@endrule
//@include values.vrs
pub fn v_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub open spec fn narrowed(rows: Seq<RowS>, n: nat) -> Seq<RowS> { rows.map_values(|r: RowS| upto(r, n)) }
impl<'a> Rows<'a> {
    #[verifier::external_body] pub fn v_each_take(self, n: usize) -> (r: Rows<'a>) ensures r@ == narrowed(self@, n as nat) { unimplemented!() }
}
/// the columns of a table, each from the header down
#[verifier::external_body]
pub struct Cols<'a> { p: &'a u8 }
impl<'a> Cols<'a> {
    /// the table the columns are of
    pub uninterp spec fn of(&self) -> Seq<RowS>;
    pub uninterp spec fn width(&self) -> nat;
    #[verifier::external_body] pub fn v_each_take(self, n: usize) -> (r: Cols<'a>) ensures r.of() == upto(self.of(), n as nat), r.width() == self.width() { unimplemented!() }
}
/// row i of a table, blank past its end
pub open spec fn line(t: Seq<RowS>, wd: nat, i: int) -> RowS { if i < t.len() { t[i] } else { Seq::new(wd, |k: int| Entry::Nil) } }
pub open spec fn larger(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
/// two tables side by side, the shorter one filled up with blank rows
pub open spec fn beside(a: Seq<RowS>, wa: nat, b: Seq<RowS>, wb: nat) -> Seq<RowS> {
    Seq::new(if wb == 0 { a.len() } else { larger(a.len(), b.len()) }, |i: int| line(a, wa, i) + line(b, wb, i))
}
impl Table {
    #[verifier::external_body] pub fn cols(&self) -> (r: Cols) ensures r.of() == self@, r.width() == self.width() { unimplemented!() }
    #[verifier::external_body] pub fn add_cols(&mut self, c: Cols)
        ensures final(self)@ == beside(old(self)@, old(self).width(), c.of(), c.width()), final(self).width() == old(self).width() + c.width()
    { unimplemented!() }
    #[verifier::external_body] pub fn remove_col_par(&mut self, c: usize)
        requires c < old(self).width()
        ensures final(self)@ == old(self)@.map_values(|r: RowS| r.remove(c as int)), final(self).width() == old(self).width() - 1
    { unimplemented!() }
    /// the header of a column (which must exist), blank without one
    #[verifier::external_body] pub fn v_header(&self, c: usize) -> (r: Entry)
        requires c < self.width()
        ensures rect(self@, self.width()), r == if self@.len() == 0 { Entry::Nil } else { self@[0][c as int] }
    { unimplemented!() }
    #[verifier::external_body] pub fn v_set_header(&mut self, c: usize, e: Entry)
        requires c < old(self).width()
        ensures final(self).width() == old(self).width(), rect(old(self)@, old(self).width()), rect(final(self)@, final(self).width()), final(self)@ == with_header(old(self)@, c as int, e)
    { unimplemented!() }
    /// one more column, of only a header
    #[verifier::external_body] pub fn v_add_header(&mut self, e: Entry)
        requires old(self)@.len() > 0
        ensures final(self).width() == old(self).width() + 1, final(self)@ == with_header(filled(old(self)@, old(self).width() + 1), old(self).width() as int, e)
    { unimplemented!() }
}
pub open spec fn with_header(t: Seq<RowS>, c: int, e: Entry) -> Seq<RowS> { if t.len() > 0 { t.update(0, t[0].update(c, e)) } else { t } }
/// all rows, filled up to the wider table's width; the first's headers, and the other's for columns the first does not have
pub open spec fn joined(a: Seq<RowS>, wa: nat, b: Seq<RowS>, wb: nat) -> Seq<RowS> {
    let all = filled(a + cut(b, 1), larger(wa, wb));
    if wb > wa { all.update(0, heads(a[0], wa, b, wb, wb)) } else { all }
}
/// the first's headers followed by the other's, up to n named
pub open spec fn heads(h: RowS, wa: nat, b: Seq<RowS>, wb: nat, n: nat) -> RowS {
    Seq::new(larger(wa, wb), |c: int| if c < wa { h[c] } else if c < n && b.len() > 0 { b[0][c] } else { Entry::Nil })
}
//@src ogma/src/lang/impls/intrinsics/arithmetic.rs
//@fn add_table2
//@sig fn add_table2(prev: Table, next: Table, byrow: bool, intersect: bool) -> (ret: Table)
    ensures
        byrow && intersect ==> rows_met(prev, next, ret@),
        byrow && !intersect ==> rows_joined(prev, next, ret@),
        !byrow && intersect ==> cols_met(prev, next, ret@),
        !byrow && !intersect ==> cols_joined(prev, next, ret@),
//@endfn
/// the rows of both, with only the columns both have
pub open spec fn rows_met(prev: Table, next: Table, ret: Seq<RowS>) -> bool {
    ret == narrowed(prev@ + cut(next@, 1), if prev.width() <= next.width() { prev.width() } else { next.width() })
}
pub open spec fn rows_joined(prev: Table, next: Table, ret: Seq<RowS>) -> bool {
    if prev@.len() == 0 || prev.width() == 0 { ret == next@ } else { ret == joined(prev@, prev.width(), next@, next.width()) }
}
/// side by side, with only the rows both have
pub open spec fn cols_met(prev: Table, next: Table, ret: Seq<RowS>) -> bool {
    ret.len() == (if prev@.len() <= next@.len() { prev@.len() } else { next@.len() })
    && forall|i: int| 0 <= i < ret.len() ==> #[trigger] ret[i] == prev@[i] + next@[i]
}
pub open spec fn cols_joined(prev: Table, next: Table, ret: Seq<RowS>) -> bool { ret == beside(prev@, prev.width(), next@, next.width()) }
pub proof fn taller(rows: Seq<RowS>, n: nat)
    requires forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).len() <= n
    ensures widest(rows) <= n
    decreases rows.len()
{ if rows.len() > 0 { taller(rows.drop_last(), n); } }
//@fn add_table_by_row
//@sig fn add_table_by_row(mut prev: Table, next: Table, intersect: bool) -> (ret: Table)
    ensures intersect ==> rows_met(prev, next, ret@), !intersect ==> rows_joined(prev, next, ret@)
//@head
    proof { prev.rect(); next.rect(); }
    let ghost all = prev@ + cut(next@, 1);
    let ghost want = narrowed(prev@ + cut(next@, 1), if prev.width() <= next.width() { prev.width() } else { next.width() });
    let ghost (wa, wb) = (prev.width(), next.width());
    let ghost p0 = prev;
    proof {
        widest_rect(cut(next@, 1), wb);
        if wb >= wa {
            let c = narrowed(cut(next@, 1), wa);
            assert(rect(c, wa)); widest_rect(c, wa);
            filled_rect(p0@ + c, wa);
            assert forall|i: int| 0 <= i < want.len() implies #[trigger] (p0@ + c)[i] == want[i] by { if i < p0@.len() { assert(upto(p0@[i], wa) =~= p0@[i]); } }
            assert(p0@ + c =~= want);
        }
    }
//@tail
    proof {
        if intersect { if wb < wa {
            assert forall|i: int| 0 <= i < want.len() implies #[trigger] __vret@[i] == want[i] by { assert(upto(__vret@[i], wb) =~= __vret@[i]); }
            assert(__vret@ =~= want);
        } }
        else if p0@.len() > 0 && wa > 0 {
            let j = joined(p0@, wa, next@, wb);
            assert forall|i: int| 0 <= i < j.len() implies #[trigger] __vret@[i] == j[i] by { if i == 0 { assert(__vret@[0] =~= j[0]); } else { assert(__vret@[i] =~= j[i]); } }
            assert(__vret@ =~= j);
        }
    }
//@loop 0
    invariant
        __lo <= __it, p0.width() >= __lo, __it == table.width(), rect(table@, __it as nat), __lo == next.width() || __lo >= p0.width(),
        table@.len() == want.len(), forall|i: int| 0 <= i < want.len() ==> upto(#[trigger] table@[i], __lo as nat) == want[i],
    decreases __it
//@loophead 0
    let ghost t1 = table@;
//@looptail 0
    proof { assert forall|i: int| 0 <= i < want.len() implies upto(#[trigger] table@[i], __lo as nat) == want[i] by { assert(upto(t1[i], __lo as nat) == want[i]); assert(upto(table@[i], __lo as nat) =~= upto(t1[i], __lo as nat)); } }
//@before 0
    proof {
        let c = narrowed(cut(next@, 1), take as nat);
        assert(rect(c, take as nat));
        widest_rect(c, take as nat);
        assert forall|i: int| 0 <= i < want.len() implies upto(#[trigger] table@[i], take as nat) == want[i] by {
            if i < p0@.len() { assert(padded(p0@[i], pc as nat) =~= p0@[i]); } else { assert(upto(padded(c[i - p0@.len()], pc as nat), take as nat) =~= c[i - p0@.len()]); }
        }
    }
//@before 1
    proof {
        widest_rect(cut(next@, 1), nc as nat);
        if cut(next@, 1).len() == 0 { assert(all =~= p0@); }
        assert(table@[0] =~= upto(heads(p0@[0], pc as nat, next@, nc as nat, pc as nat), table.width()));
        assert(rect(table@, table.width()));
    }
//@loop 1
    invariant
        pc == p0.width(), nc == next.width(), pc <= __it <= nc, __end == nc, rect(p0@, pc as nat), rect(next@, nc as nat), p0@.len() > 0,
        table.width() == (if cut(next@, 1).len() > 0 { nc as int } else { __it as int }),
        table@.len() == all.len(), all == p0@ + cut(next@, 1), rect(table@, table.width()),
        forall|i: int| 1 <= i < all.len() ==> #[trigger] table@[i] == padded(all[i], table.width()),
        table@[0] == upto(heads(p0@[0], pc as nat, next@, nc as nat, __it as nat), table.width()),
    decreases __end - __it
//@loophead 1
    let ghost t1 = *table;
//@looptail 1
    proof {
        assert forall|i: int| 1 <= i < all.len() implies #[trigger] table@[i] == padded(all[i], table.width()) by { assert(t1@[i] == padded(all[i], t1.width())); assert(table@[i] =~= padded(all[i], table.width())); }
        assert(table@[0] =~= upto(heads(p0@[0], pc as nat, next@, nc as nat, __it as nat), table.width()));
    }
//@endfn
//@fn add_table_by_col
//@sig fn add_table_by_col(mut prev: Table, next: Table, intersect: bool) -> (ret: Table)
    ensures intersect ==> cols_met(prev, next, ret@), !intersect ==> cols_joined(prev, next, ret@)
//@head
    let ghost p0 = prev;
    proof { prev.rect(); next.rect(); }
    let ghost n = if prev@.len() <= next@.len() { prev@.len() } else { next@.len() };
    let ghost t0 = beside(prev@, prev.width(), upto(next@, n), next.width());
//@loop 0
    invariant __lo <= __it, __it == table@.len(), __it <= t0.len(), forall|i: int| 0 <= i < __it ==> #[trigger] table@[i] == t0[i]
    decreases __it
//@endfn
// --- the flags ---
/// a call being compiled: its flags
#[verifier::external_body]
pub struct Block { p: u8 }
impl Block {
    pub uninterp spec fn flags(&self) -> Set<Seq<char>>;
    // assume: a flag is given once at most (the parser keeps them as they come)
    #[verifier::external_body]
    pub fn v_flag(&mut self, s: &str) -> (r: bool) ensures r == old(self).flags().contains(s@), final(self).flags() == old(self).flags().remove(s@) { unimplemented!() }
}
#[verifier::external_body]
pub struct JoinStep { p: u8 }
/// how the step joins tables: by rows, and only what both have
pub uninterp spec fn join_by(s: JoinStep) -> (bool, bool);
// the step folds its arguments with the closure (join_step, below); variadic_intrinsic_in_constrained's own closure is proved in unit vars
#[verifier::external_body]
pub fn v_join_step(blk: Block, byrow: bool, intersect: bool) -> (ret: Result<JoinStep>) ensures ret is Ok ==> join_by(ret->Ok_0) == (byrow, intersect) { unimplemented!() }
//@fn add_table_intrinsic
//@sig fn add_table_intrinsic(mut blk: Block) -> (ret: Result<JoinStep>)
    ensures ret is Ok ==> join_by(ret->Ok_0) == (!blk.flags().contains("cols"@), blk.flags().contains("intersect"@) && !blk.flags().contains("union"@))
//@head
    proof { reveal_strlit("cols"); reveal_strlit("union"); reveal_strlit("intersect"); assert("cols"@.len() == 4 && "union"@.len() == 5 && "intersect"@.len() == 9); assert("cols"@ != "union"@ && "cols"@ != "intersect"@ && "union"@ != "intersect"@); }
//@endfn
//@closure add_table_intrinsic variadic_intrinsic_in_constrained:0 as=join_step
//@sig fn join_step(prev: Table, next: Table, byrow: bool, intersect: bool) -> (ret: (Table, bool))
    ensures
        !ret.1,
        byrow && intersect ==> rows_met(prev, next, ret.0@),
        byrow && !intersect ==> rows_joined(prev, next, ret.0@),
        !byrow && intersect ==> cols_met(prev, next, ret.0@),
        !byrow && !intersect ==> cols_joined(prev, next, ret.0@),
//@endfn
