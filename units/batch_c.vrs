//@rule repeat_take
repeat_with(|| $e).take($n).collect()
//@=>
{ let __n = $n; let mut __r: Vec<(Outcome, Duration)> = Vec::new(); let mut __k: usize = 0; while __k < __n { __r.push($e); __k += 1; } __r }
//@endrule
//@rule enum_fold
$b_v.iter().enumerate().fold($init, |$p_acc, $i_b| $body)
//@=>
{ let mut __acc: (Vec<(usize, &BatchItem)>, Vec<(usize, &BatchItem)>) = $init; let mut __k: usize = 0; while __k < $b_v.len() { let $i_b = (__k, &$b_v[__k]); let $p_acc = __acc; __acc = $body; __k += 1; } __acc }
//@endrule
//@rule iter_map_collect
$b_v.iter().map(|$i_b| $e).collect()
//@=>
{ let mut __r: Vec<BatchItemProgress> = Vec::new(); let mut __k: usize = 0; while __k < $b_v.len() { let $i_b = &$b_v[__k]; __r.push($e); __k += 1; } __r }
//@endrule
//@rule reporter_lock stmt
let reporter = Mutex::new($e);
//@=>
let mut __rep: Vec<BatchItemProgress> = $e;
let reporter = &mut __rep;
//@endrule
//@rule iter_filter_each
$b_v.iter_mut().filter(|$i_x| $c).for_each(|$i_y| $s_body)
//@=>
{ let mut __k: usize = 0; while __k < $b_v.len() { let __hit = { let $i_x = &$b_v[__k]; $c }; if __hit { if let Some($i_y) = $b_v.get_mut(__k) { $s_body; } } __k += 1; } }
//@endrule
//@rule display
$b_f.file.display().to_string()
//@=>
v_display(&$b_f.file)
//@endrule
//@rule cancelled
$i_p.cancelled()
//@=>
v_cancelled($i_p, w)
//@endrule
//@rule sw_get
failure.get()
//@=>
v_sw_get(&failure, w)
//@endrule
//@rule sw_off
Switch::off()
//@=>
v_sw_off(w)
//@endrule
//@rule for_vec
for $p_x in $i_v { $s_body }
//@=>
{ let mut __v = $i_v; let __n = __v.len(); let mut __k: usize = 0; while __k < __n { let $p_x = __v.remove(0); __k += 1; $s_body } }
//@endrule
//@rule sw_on
failure.flip_on()
//@=>
v_sw_on(&failure, w)
//@endrule
//@rule procdef
lang::defs::process_definition($s_a).into()
//@=>
Outcome_from(process_definition($s_a))
//@endrule
//@rule procexpr
rt::process_expression($s_a).into()
//@=>
Outcome_from(process_expression($s_a))
//@endrule
//@rule from_body
r.map(|_| Outcome::Success).unwrap_or_else(Outcome::Failed)
//@=>
match r { Ok(_) => Outcome::Success, Err(__e) => Outcome::Failed(__e) }
//@endrule
//@rule report
report_progress($p, &reporter, $i, $r)
//@=>
report_progress($p, &mut *reporter, $i, $r, w)
//@endrule
//@rule report_lock
&mut *$b_r.lock()
//@=>
$b_r
//@endrule
//@rule status_into
outcome.into()
//@=>
OutcomeProgress_from(outcome)
//@endrule
//@rule ser
serde_json::to_string($i_r).unwrap_or_default()
//@=>
v_ser($i_r)
//@endrule
//@rule send
progress.send(None, $e)
//@=>
v_send(progress, $e, w)
//@endrule
//@rule par_map
xprs.into_par_iter().map(f).collect()
//@=>
{ let mut __r: Vec<(usize, Outcome, Duration)> = Vec::new(); let mut __k: usize = 0; while __k < xprs.len() { v_others(w); __r.push(item_f(xprs[__k], ff, prog, &failure, &mut *reporter, &definitions, root, wd, w)); __k += 1; } __r }
//@endrule
//@rule seq_map
xprs.into_iter().map(f).collect()
//@=>
{ let mut __r: Vec<(usize, Outcome, Duration)> = Vec::new(); let mut __k: usize = 0; while __k < xprs.len() { __r.push(item_f(xprs[__k], ff, prog, &failure, &mut *reporter, &definitions, root, wd, w)); __k += 1; } __r }
//@endrule
//@rule drop_f stmt
let f = |$p_a : $t_t| $e;
//@=>
//@endrule
//@rule fileref type
Arc<Path>
//@=>
FileRef
//@endrule
//@rule pathref type
&Path
//@=>
&PathRef
//@endrule
//@rule asstr
$b_c.as_str()
//@=>
&$b_c
//@endrule
//@src ogma/src/rt/bat.rs
//@known Outcome@From::from report_progress process f
//@item Batch
//@item BatchItem
//@item Outcome
//@item ItemType derive=PartialEq,Eq,Clone,Copy,Structural
//@item BatchItemProgress
//@item OutcomeProgress
pub type BatchProgress = Vec<BatchItemProgress>;
// assume: paths, errors, times, definitions are opaque values; clone copies
#[verifier::external_body]
pub struct FileRef { p: u8 }
impl FileRef { #[verifier::external_body] pub fn clone(&self) -> (r: FileRef) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct PathRef { p: u8 }
#[verifier::external_body]
pub struct Error { p: u8 }
#[verifier::external_body]
pub struct Duration { p: u8 }
impl Duration { #[verifier::external_body] pub fn default() -> (r: Duration) { unimplemented!() } }
#[verifier::external_body]
pub struct Instant { p: u8 }
impl Instant {
    #[verifier::external_body] pub fn now() -> (r: Instant) { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> (r: Duration) { unimplemented!() }
}
pub enum Location { Shell, Ogma, File(FileRef, u16) }
#[verifier::external_body]
pub struct ProgressTx { p: u8 }
#[verifier::external_body]
pub struct Switch { p: u8 }
// assume: nobody else turns the failure switch; cancellation never goes off again; both are read and written atomically
/// what the world outside sees and does: cancellation, the failure switch, the reports sent
pub struct World { pub cancelled: Ghost<bool>, pub failed: Ghost<bool>, pub sent: Ghost<Seq<Seq<char>>> }
#[verifier::external_body]
pub fn v_cancelled(p: &ProgressTx, w: &mut World) -> (r: bool)
    ensures r == final(w).cancelled@, old(w).cancelled@ ==> r, final(w).failed@ == old(w).failed@, final(w).sent@ == old(w).sent@
{ unimplemented!() }
#[verifier::external_body]
pub fn v_sw_get(p: &Switch, w: &mut World) -> (r: bool)
    ensures r == old(w).failed@, *final(w) == *old(w)
{ unimplemented!() }
#[verifier::external_body]
pub fn v_sw_on(p: &Switch, w: &mut World)
    ensures final(w).failed@, final(w).cancelled@ == old(w).cancelled@, final(w).sent@ == old(w).sent@
{ unimplemented!() }
#[verifier::external_body]
pub fn v_sw_off(w: &mut World) -> (r: Switch)
    ensures !final(w).failed@, final(w).cancelled@ == old(w).cancelled@, final(w).sent@ == old(w).sent@
{ unimplemented!() }
#[verifier::external_body]
pub fn v_others(w: &mut World)
    ensures old(w).failed@ ==> final(w).failed@, old(w).cancelled@ ==> final(w).cancelled@
{ unimplemented!() }
#[verifier::external_body]
pub fn v_send(p: &ProgressTx, s: String, w: &mut World)
    ensures final(w).sent@ == old(w).sent@.push(s@), final(w).cancelled@ == old(w).cancelled@, final(w).failed@ == old(w).failed@
{ unimplemented!() }
#[verifier::external_body]
pub fn v_display(f: &FileRef) -> (r: String) { unimplemented!() }
pub uninterp spec fn ser(b: Seq<BatchItemProgress>) -> Seq<char>;
#[verifier::external_body]
pub fn v_ser(b: &Vec<BatchItemProgress>) -> (r: String) ensures r@ == ser(b@) { unimplemented!() }
/// a set of definitions, as the definitions that were processed into it
#[verifier::external_body]
pub struct Definitions { p: u8 }
pub uninterp spec fn made(d: Definitions) -> Seq<Seq<char>>;
/// `o` is an outcome of processing this code at this place under these definitions
pub uninterp spec fn def_gives(ds: Seq<Seq<char>>, code: Seq<char>, at: Location, o: Outcome) -> bool;
pub uninterp spec fn expr_gives(ds: Seq<Seq<char>>, code: Seq<char>, at: Location, o: Outcome) -> bool;
// assume: process_definition and process_expression give some outcome of this code under these definitions (what evaluation means is not decided here)
#[verifier::external_body]
pub fn process_definition(code: &String, loc: Location, help: Option<String>, d: &mut Definitions) -> (r: Result<(), Error>)
    ensures made(*final(d)) == made(*old(d)).push(code@), def_gives(made(*old(d)), code@, loc, outcome(r))
{ unimplemented!() }
#[verifier::external_body]
pub fn process_expression(seed: (), code: &String, loc: Location, d: &Definitions, root: &PathRef, wd: &PathRef) -> (r: Result<(), Error>)
    ensures expr_gives(made(*d), code@, loc, outcome(r))
{ unimplemented!() }
pub open spec fn outcome(r: Result<(), Error>) -> Outcome { match r { Ok(_) => Outcome::Success, Err(e) => Outcome::Failed(e) } }
pub open spec fn done(o: Outcome) -> bool { o is Success || o is Failed }
pub open spec fn at(b: BatchItem) -> Location { Location::File(b.file, b.line) }
pub open spec fn kind(o: Outcome) -> OutcomeProgress {
    match o { Outcome::Success => OutcomeProgress::Success, Outcome::Failed(_) => OutcomeProgress::Failed, Outcome::Outstanding => OutcomeProgress::Outstanding, Outcome::Cancelled => OutcomeProgress::Cancelled }
}
//@fn Outcome@From::from as=Outcome_from
//@sig fn Outcome_from(r: Result<(), Error>) -> (ret: Outcome)
    ensures ret == outcome(r)
//@endfn
//@fn OutcomeProgress@From::from as=OutcomeProgress_from
//@sig fn OutcomeProgress_from(o: &Outcome) -> (ret: OutcomeProgress)
//@params o
    ensures ret == kind(*o)
//@endfn
pub open spec fn with_status(b: BatchItemProgress, s: OutcomeProgress) -> BatchItemProgress { BatchItemProgress { status: s, ..b } }
//@fn report_progress
//@sig fn report_progress(progress: &ProgressTx, results: &mut BatchProgress, item_idx: usize, outcome: &Outcome, w: &mut World)
    ensures
        final(results)@ == (if item_idx < old(results)@.len() { old(results)@.update(item_idx as int, with_status(old(results)@[item_idx as int], kind(*outcome))) } else { old(results)@ }),
        final(w).sent@ == old(w).sent@.push(ser(final(results)@)),
        final(w).cancelled@ == old(w).cancelled@, final(w).failed@ == old(w).failed@,
//@endfn
//@closure process let:f as=item_f
//@params a
//@sig fn item_f(a: (usize, &BatchItem), ff: bool, prog: &ProgressTx, failure: &Switch, reporter: &mut BatchProgress, definitions: &Definitions, root: &PathRef, wd: &PathRef, w: &mut World) -> (ret: (usize, Outcome, Duration))
    ensures
        ret.0 == a.0,
        done(ret.1) ==> expr_gives(made(*definitions), a.1.code@, at(*a.1), ret.1),
        // stopped exactly when cancelled, or on an earlier failure when failing fast
        !done(ret.1) <==> (final(w).cancelled@ || (ff && old(w).failed@)),
        !done(ret.1) ==> (ret.1 is Cancelled || ret.1 is Outstanding) && (ret.1 is Cancelled ==> final(w).cancelled@),
        old(w).cancelled@ ==> final(w).cancelled@,
        final(w).failed@ == (old(w).failed@ || ret.1 is Failed),
        // one report per processed item, telling its status
        !done(ret.1) ==> final(reporter)@ == old(reporter)@ && final(w).sent@ == old(w).sent@,
        done(ret.1) ==> final(w).sent@ == old(w).sent@.push(ser(final(reporter)@)),
        done(ret.1) && a.0 < old(reporter)@.len() ==> final(reporter)@ == old(reporter)@.update(a.0 as int, with_status(old(reporter)@[a.0 as int], kind(ret.1))),
//@endfn
/// positions of the definitions (x = false) or expressions (x = true) among the first n items
pub open spec fn pos(items: Seq<BatchItem>, n: int, x: bool) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else if (items[n - 1].ty is Expr) == x { pos(items, n - 1, x).push(n - 1) } else { pos(items, n - 1, x) }
}
/// processing order: definitions, then expressions, each in the order listed
pub open spec fn order(items: Seq<BatchItem>) -> Seq<int> { pos(items, items.len() as int, false) + pos(items, items.len() as int, true) }
pub open spec fn ndefs(items: Seq<BatchItem>) -> int { pos(items, items.len() as int, false).len() as int }
/// the definitions made by the first k items of the order
pub open spec fn codes(items: Seq<BatchItem>, idx: Seq<int>, k: int) -> Seq<Seq<char>> { Seq::new(k as nat, |j: int| items[idx[j]].code@) }
/// outcome o is what processing item k of the order gives
pub open spec fn gives(d0: Seq<Seq<char>>, items: Seq<BatchItem>, k: int, o: Outcome) -> bool {
    let i = order(items)[k];
    if k < ndefs(items) { def_gives(d0 + codes(items, order(items), k), items[i].code@, at(items[i]), o) }
    else { expr_gives(d0 + codes(items, order(items), ndefs(items)), items[i].code@, at(items[i]), o) }
}
pub proof fn pos_facts(items: Seq<BatchItem>, n: int, x: bool)
    requires 0 <= n <= items.len()
    ensures
        forall|k: int| 0 <= k < pos(items, n, x).len() ==> 0 <= #[trigger] pos(items, n, x)[k] < n && (items[pos(items, n, x)[k]].ty is Expr) == x,
        forall|j: int, k: int| 0 <= j < k < pos(items, n, x).len() ==> pos(items, n, x)[j] < pos(items, n, x)[k],
        pos(items, n, x).len() <= n,
    decreases n
{ if n > 0 { pos_facts(items, n - 1, x); } }
pub proof fn pos_total(items: Seq<BatchItem>, n: int)
    requires 0 <= n <= items.len()
    ensures pos(items, n, false).len() + pos(items, n, true).len() == n
    decreases n
{ if n > 0 { pos_total(items, n - 1); } }
/// every item is in the order, once
pub proof fn pos_covers(items: Seq<BatchItem>, n: int, i: int)
    requires 0 <= i < n <= items.len()
    ensures pos(items, n, items[i].ty is Expr).contains(i)
    decreases n
{
    let x = items[i].ty is Expr;
    if i == n - 1 { assert(pos(items, n, x)[pos(items, n, x).len() - 1] == i); }
    else {
        pos_covers(items, n - 1, i);
        let k = choose|k: int| 0 <= k < pos(items, n - 1, x).len() && #[trigger] pos(items, n - 1, x)[k] == i;
        assert(pos(items, n, x)[k] == i);
    }
}
pub open spec fn refs(v: Seq<(usize, &BatchItem)>, items: Seq<BatchItem>, idx: Seq<int>) -> bool {
    &&& v.len() == idx.len()
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0 == idx[k] && *v[k].1 == items[idx[k]]
}
pub open spec fn listed(items: Seq<BatchItem>, i: int) -> bool { exists|k: int| 0 <= k < items.len() && #[trigger] order(items)[k] == i }
pub open spec fn n_done(n: int) -> bool { true }
pub proof fn in_order(items: Seq<BatchItem>, k: int)
    requires 0 <= k < items.len()
    ensures order(items).len() == items.len(), 0 <= order(items)[k] < items.len(),
        order(items)[k] == (if k < ndefs(items) { pos(items, items.len() as int, false)[k] } else { pos(items, items.len() as int, true)[k - ndefs(items)] })
{ let n = items.len() as int; pos_facts(items, n, false); pos_facts(items, n, true); pos_total(items, n); }
//@fn process
//@sig pub fn process(batch: &Batch, root: &PathRef, wd: &PathRef, progress: &ProgressTx, definitions0: Definitions, w: &mut World) -> (ret: Vec<(Outcome, Duration)>)
    ensures
        ret@.len() == batch.items@.len() == order(batch.items@).len(),
        // a processed item has the outcome of processing it, with the definitions before it (expressions: with all of them)
        forall|k: int| 0 <= k < ret@.len() && done(#[trigger] ret@[order(batch.items@)[k]].0) ==> gives(made(definitions0), batch.items@, k, ret@[order(batch.items@)[k]].0),
        // any other reads cancelled if cancelled, else outstanding
        forall|i: int| 0 <= i < ret@.len() && !done(#[trigger] ret@[i].0) ==> (if final(w).cancelled@ { ret@[i].0 is Cancelled } else { ret@[i].0 is Outstanding }),
        // definitions first and in order; expressions in order unless parallel; under fail-fast nothing after a failure
        forall|j: int, k: int| 0 <= j < k < ret@.len() && (!batch.parallelise || j < ndefs(batch.items@)) && done(#[trigger] ret@[order(batch.items@)[k]].0)
            ==> done(#[trigger] ret@[order(batch.items@)[j]].0) && (batch.fail_fast ==> ret@[order(batch.items@)[j]].0 is Success),
        // nothing is left out without a reason
        forall|k: int| 0 <= k < ret@.len() && !done(#[trigger] ret@[order(batch.items@)[k]].0) && !final(w).cancelled@
            ==> batch.fail_fast && (!batch.parallelise || k < ndefs(batch.items@) ==> exists|j: int| 0 <= j < k && (#[trigger] ret@[order(batch.items@)[j]].0) is Failed),
        // cancelled before: nothing is processed
        old(w).cancelled@ ==> forall|i: int| 0 <= i < ret@.len() ==> !done(#[trigger] ret@[i].0),
        // one report per processed item
        !batch.parallelise ==> exists|n: int| #[trigger] n_done(n) && final(w).sent@.len() == old(w).sent@.len() + n
            && forall|k: int| 0 <= k < ret@.len() ==> (done(#[trigger] ret@[order(batch.items@)[k]].0) <==> k < n),
//@head
    let mut definitions = definitions0;
    let ghost d0 = made(definitions0);
    let ghost its = batch.items@;
    let ghost len = its.len() as int;
    let ghost dd = pos(its, len, false);
    let ghost xx = pos(its, len, true);
    let ghost c0 = w.cancelled@;
    let ghost s0 = w.sent@.len();
    let ghost mut nd: int = 0;
    let ghost mut nx: int = 0;
    let ghost mut dv: Seq<(usize, &BatchItem)> = Seq::empty();
    let ghost mut xv: Seq<(usize, &BatchItem)> = Seq::empty();
    let ghost mut f0 = false;
    let ghost mut c3 = false;
    let ghost mut rd: Seq<Outcome> = Seq::empty();
    let ghost mut re: Seq<(Outcome, Duration)> = Seq::empty();
    let ghost mut rv: Seq<(usize, Outcome, Duration)> = Seq::empty();
    proof { pos_facts(its, len, false); pos_facts(its, len, true); pos_total(its, len); }
//@loop 0
    invariant __k <= __n, __n == items@.len(), __r@.len() == __k, forall|i: int| 0 <= i < __k ==> (#[trigger] __r@[i]).0 is Outstanding
    decreases __n - __k
//@loop 1
    invariant __k <= items@.len(), __r@.len() == __k
    decreases items@.len() - __k
//@loop 2
    invariant
        __k <= items@.len(), items@ == its,
        refs(__acc.0@, its, pos(its, __k as int, false)), refs(__acc.1@, its, pos(its, __k as int, true)),
    decreases items@.len() - __k
//@before 3
    proof { dv = __v@; xv = xprs@; }
//@loop 3
    invariant_except_break
        __v@ =~= dv.subrange(__k as int, __n as int), nd == __k,
    invariant
        dd == pos(its, len, false), xx == pos(its, len, true), len == its.len(),
        __n == dv.len(), __k <= __n, 0 <= nd <= __n, refs(dv, its, dd), items@ == its,
        results@.len() == len, made(definitions) =~= d0 + codes(its, dd, nd),
        forall|k: int| 0 <= k < nd ==> done((#[trigger] results@[dd[k]]).0) && def_gives(d0 + codes(its, dd, k), its[dd[k]].code@, at(its[dd[k]]), results@[dd[k]].0),
        forall|k: int| nd <= k < dd.len() ==> (#[trigger] results@[dd[k]]).0 is Outstanding,
        forall|k: int| 0 <= k < xx.len() ==> (#[trigger] results@[xx[k]]).0 is Outstanding,
        ff ==> forall|k: int| 0 <= k < nd - 1 ==> (#[trigger] results@[dd[k]]).0 is Success,
        w.failed@ <==> exists|k: int| 0 <= k < nd && (#[trigger] results@[dd[k]]).0 is Failed,
        c0 ==> w.cancelled@ && nd == 0 || __k == 0,
        c0 ==> w.cancelled@ && nd == 0,
        w.sent@.len() == s0 + nd,
    ensures
        nd < dd.len() ==> w.cancelled@ || (ff && w.failed@),
    decreases __n - __k
//@loophead 3
    proof { pos_facts(its, len, false); pos_facts(its, len, true); pos_total(its, len); }
    let ghost r0 = results@;
    assert(w.failed@ ==> exists|k: int| 0 <= k < nd && (#[trigger] r0[dd[k]]).0 is Failed);
//@looptail 3
    proof {
        assert(forall|k: int| 0 <= k < nd ==> results@[dd[k]] == #[trigger] r0[dd[k]]);
        assert(results@[dd[nd]].0 is Failed ==> w.failed@);
        nd = __k as int;
    }
//@loop 4
    invariant
        __k <= xprs@.len(), xprs@ == xv, refs(xv, its, xx), __r@.len() == __k, 0 <= nx <= __k, 0 <= nd <= dd.len(), c3 ==> w.cancelled@,
        forall|k: int| 0 <= k < __k ==> (#[trigger] __r@[k]).0 == xx[k]
,
        forall|k: int| 0 <= k < __k && done((#[trigger] __r@[k]).1) ==> nd == dd.len() && expr_gives(made(definitions), its[xx[k]].code@, at(its[xx[k]]), __r@[k].1),
        forall|k: int| 0 <= k < __k ==> #[trigger] __r@[k] == __r@[k] && (!done(__r@[k].1) ==> (__r@[k].1 is Cancelled || __r@[k].1 is Outstanding) && (__r@[k].1 is Cancelled ==> w.cancelled@) && (w.cancelled@ || (ff && w.failed@))),
        nd < dd.len() ==> w.cancelled@ || (ff && w.failed@),
        c0 ==> w.cancelled@, c0 ==> forall|k: int| 0 <= k < __k ==> !done((#[trigger] __r@[k]).1),
        ff && f0 ==> forall|k: int| 0 <= k < __k ==> !done((#[trigger] __r@[k]).1), f0 ==> w.failed@,
    decreases xprs@.len() - __k
//@loop 5
    invariant
        __k <= xprs@.len(), xprs@ == xv, refs(xv, its, xx), __r@.len() == __k, 0 <= nx <= __k, 0 <= nd <= dd.len(), c3 ==> w.cancelled@,
        forall|k: int| 0 <= k < __k ==> (#[trigger] __r@[k]).0 == xx[k]
,
        forall|k: int| 0 <= k < __k && done((#[trigger] __r@[k]).1) ==> nd == dd.len() && expr_gives(made(definitions), its[xx[k]].code@, at(its[xx[k]]), __r@[k].1),
        forall|k: int| 0 <= k < __k ==> #[trigger] __r@[k] == __r@[k] && (!done(__r@[k].1) ==> (__r@[k].1 is Cancelled || __r@[k].1 is Outstanding) && (__r@[k].1 is Cancelled ==> w.cancelled@) && (w.cancelled@ || (ff && w.failed@))),
        nd < dd.len() ==> w.cancelled@ || (ff && w.failed@),
        c0 ==> w.cancelled@, c0 ==> forall|k: int| 0 <= k < __k ==> !done((#[trigger] __r@[k]).1),
        forall|k: int| 0 <= k < __k ==> (done((#[trigger] __r@[k]).1) <==> k < nx),
        nx < __k ==> w.cancelled@ || (ff && w.failed@),
        ff ==> forall|k: int| 0 <= k < nx - 1 ==> (#[trigger] __r@[k]).1 is Success,
        ff && nx > 0 ==> !f0,
        w.failed@ <==> f0 || exists|k: int| 0 <= k < nx && (#[trigger] __r@[k]).1 is Failed,
        w.sent@.len() == s0 + nd + nx,
    decreases xprs@.len() - __k
//@loophead 5
    let ghost r0 = __r@;
    assert(w.failed@ ==> f0 || exists|k: int| 0 <= k < nx && (#[trigger] r0[k]).1 is Failed);
//@looptail 5
    assert(forall|k: int| 0 <= k < r0.len() ==> __r@[k] == #[trigger] r0[k]);
    proof { if done(__r@[__k - 1].1) { nx = __k as int; } }
//@after 3
    proof { c3 = w.cancelled@; f0 = w.failed@; rd = Seq::new(dd.len(), |k: int| results@[dd[k]].0); assert(forall|k: int| 0 <= k < dd.len() ==> rd[k] == (#[trigger] results@[dd[k]]).0); }
    assert(forall|k: int| 0 <= k < dd.len() ==> (done(#[trigger] rd[k]) <==> k < nd));
    assert(nd < dd.len() ==> c3 || (ff && f0));
    assert(f0 ==> exists|k: int| 0 <= k < nd && (#[trigger] rd[k]) is Failed);
//@before 6
    proof { rv = __v@; }
    assert(!parallelise && nd < dd.len() ==> nx == 0) by { if !parallelise && nx > 0 { assert(done(rv[0].1)); } }
    assert(!parallelise ==> forall|k: int| 0 <= k < rv.len() ==> (done((#[trigger] rv[k]).1) <==> k < nx));
    assert(!parallelise && nx < rv.len() ==> w.cancelled@ || (ff && w.failed@));
    assert(!parallelise && w.failed@ ==> f0 || exists|k: int| 0 <= k < nx && (#[trigger] rv[k]).1 is Failed);
//@loop 6
    invariant
        dd == pos(its, len, false), xx == pos(its, len, true), len == its.len(), rd.len() == dd.len(),
        __n == xx.len(), __k <= __n, __v@ =~= rv.subrange(__k as int, __n as int), rv.len() == xx.len(),
        results@.len() == len,
        forall|k: int| 0 <= k < rv.len() ==> (#[trigger] rv[k]).0 == xx[k],
        forall|k: int| 0 <= k < dd.len() ==> (#[trigger] results@[dd[k]]).0 == rd[k],
        forall|k: int| 0 <= k < __k ==> (#[trigger] results@[xx[k]]).0 == rv[k].1,
    decreases __n - __k
//@loophead 6
    proof { pos_facts(its, len, false); pos_facts(its, len, true); pos_total(its, len); }
//@after 6
    proof { re = results@; }
//@loop 7
    invariant
        __k <= results@.len() == re.len(),
        forall|i: int| 0 <= i < __k ==> (#[trigger] results@[i]).0 == (if re[i].0 is Outstanding { Outcome::Cancelled } else { re[i].0 }),
        forall|i: int| __k <= i < re.len() ==> #[trigger] results@[i] == re[i],
    decreases results@.len() - __k
//@tail
    proof {
        pos_facts(its, len, false); pos_facts(its, len, true); pos_total(its, len);
        assert forall|k: int| 0 <= k < len implies ({
            let i = #[trigger] order(its)[k];
            &&& 0 <= i < len && i == (if k < dd.len() { dd[k] } else { xx[k - dd.len()] })
            &&& re[i].0 == (if k < dd.len() { rd[k] } else { rv[k - dd.len()].1 })
            &&& codes(its, order(its), if k < dd.len() { k } else { dd.len() as int }) =~= codes(its, dd, if k < dd.len() { k } else { dd.len() as int })
        }) by { in_order(its, k); }
        assert forall|i: int| 0 <= i < len implies #[trigger] listed(its, i) by {
            pos_covers(its, len, i);
            let x = its[i].ty is Expr;
            let k = choose|k: int| 0 <= k < pos(its, len, x).len() && #[trigger] pos(its, len, x)[k] == i;
            assert(order(its)[if x { k + dd.len() } else { k }] == i);
        }
        assert forall|i: int| 0 <= i < len && done(#[trigger] __vret@[i].0) implies !c0 by { assert(listed(its, i)); }
        assert forall|i: int| 0 <= i < len && !done(#[trigger] __vret@[i].0) implies (if w.cancelled@ { __vret@[i].0 is Cancelled } else { __vret@[i].0 is Outstanding }) by { assert(listed(its, i)); }
        assert(n_done(nd + nx));
        assert forall|j: int| 0 <= j < dd.len() && (#[trigger] rd[j]) is Failed implies __vret@[order(its)[j]].0 is Failed by {}
        assert forall|j: int| 0 <= j < xx.len() && (#[trigger] rv[j]).1 is Failed implies __vret@[order(its)[j + dd.len()]].0 is Failed by { assert(re[order(its)[j + dd.len()]].0 == rv[j].1); }
        assert forall|k: int| 0 <= k < len && !done(#[trigger] __vret@[order(its)[k]].0) && !w.cancelled@ && (!parallelise || k < dd.len())
            implies ff && exists|j: int| 0 <= j < k && (#[trigger] __vret@[order(its)[j]].0) is Failed by {
            if k < dd.len() { assert(!done(rd[k])); } else { assert(!done(rv[k - dd.len()].1)); }
            if f0 {
                let j = choose|j: int| 0 <= j < nd && (#[trigger] rd[j]) is Failed;
                assert(__vret@[order(its)[j]].0 is Failed);
            } else {
                let j = choose|j: int| 0 <= j < nx && (#[trigger] rv[j]).1 is Failed;
                assert(__vret@[order(its)[j + dd.len()]].0 is Failed);
            }
        }
    }
//@endfn
