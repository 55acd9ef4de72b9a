// assume: the compute thread does nothing else than call the evaluation and report; it is taken as run where it is started (what it returns is any configuration update, or a panic); waiting for it ends (harness shell); crossbeam's scope runs its body and returns what it gives; an evaluation takes less than 2^31 seconds, and the progress text is short
//@stub shell_c.vrs
//@rule scope2
scope(|$i_s| $e).and_then(|$i_r| $i_r)
//@=>
{ let $i_s = v_scope(); $e }
//@endrule
//@rule spawn2
$i_s.builder().name($n).spawn(|$p_w| $e).expect($m)
//@=>
v_thread($e)
//@endrule
//@rule spawn3
$i_s.builder().name($n).spawn(move |$p_w| $e).expect($m)
//@=>
v_thread($e)
//@endrule
//@rule call_f
f($a, $b, $c)
//@=>
v_call(f, $a, $b, $c)
//@endrule
//@rule share
cancelsw.clone()
//@=>
v_share(&cancelsw)
//@endrule
//@rule done_msg
donetx.send(())
//@=>
v_done(&donetx)
//@endrule
//@rule two_ends
bounded($n)
//@=>
v_bounded($n)
//@endrule
//@rule off
Cancelled::off()
//@=>
v_off()
//@endrule
//@rule flip
cancelsw.flip_on()
//@=>
v_flip(&mut cancelsw)
//@endrule
//@rule progress
format!("computing... ({} s) - {}", $a, $b)
//@=>
v_progress($a)
//@endrule
//@rule any_ev
events.any(|$i_x| $e)
//@=>
{ let mut __any = false; while let Some($i_x) = v_next(&mut events) { let __h: bool = $e; if __h { __any = true; break; } } __any }
//@endrule
//@rule same_ev
x == break_ev
//@=>
v_same_ev(&x, &break_ev)
//@endrule
//@rule same_ev2
$i_x == break_ev
//@=>
v_same_ev(&$i_x, &break_ev)
//@endrule
//@rule buffer_all
$b_x.buffer(..)
//@=>
$b_x.buffer_all()
//@endrule
//@rule down
e.downcast::<String>()
//@=>
v_downcast(e)
//@endrule
//@rule eprint1
eprintln!("omga shell compute thread panicked: {}", e)
//@=>
v_eprint()
//@endrule
//@rule eprint2
eprintln!("ogma shell compute thread panicked")
//@=>
v_eprint()
//@endrule
//@rule mut_sw stmt
let cancelsw = $e;
//@=>
let mut cancelsw = $e;
//@endrule
pub struct ThreadScope { pub p: u8 }
pub fn v_scope() -> (r: ThreadScope) { ThreadScope { p: 0 } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Thread<T> { p: std::marker::PhantomData<T> }
pub uninterp spec fn outcome<T>(t: Thread<T>) -> T;
#[verifier::external_body]
pub fn v_thread<T>(x: T) -> (r: Thread<T>) ensures outcome(r) == x { unimplemented!() }
impl<T> Thread<T> {
    #[verifier::external_body]
    pub fn join(self) -> (r: Result<T, Opaque>) ensures match r { Ok(x) => x == outcome(self), Err(_) => true } { unimplemented!() }
}
#[verifier::external_body]
pub struct Switch { p: u8 }
pub type Cancelled = Switch;
pub uninterp spec fn which(s: Switch) -> int;
/// it was turned on from here
pub uninterp spec fn on(s: Switch) -> bool;
#[verifier::external_body]
pub fn v_off() -> (r: Switch) ensures !on(r) { unimplemented!() }
#[verifier::external_body]
pub fn v_share(s: &Switch) -> (r: Switch) ensures which(r) == which(*s) { unimplemented!() }
#[verifier::external_body]
pub fn v_flip(s: &mut Switch) ensures on(*final(s)), which(*final(s)) == which(*old(s)) { unimplemented!() }
#[verifier::external_body]
pub struct DoneTx { p: u8 }
#[verifier::external_body]
pub struct DoneRx { p: u8 }
pub uninterp spec fn tx_chan(s: DoneTx) -> int;
pub uninterp spec fn rx_chan(s: DoneRx) -> int;
/// the thread tells this channel when it is done
pub uninterp spec fn told(c: int) -> bool;
#[verifier::external_body]
pub fn v_bounded(n: usize) -> (r: (DoneTx, DoneRx)) requires n > 0 ensures tx_chan(r.0) == rx_chan(r.1) { unimplemented!() }
#[verifier::external_body]
pub fn v_done(s: &DoneTx) -> (r: Result<(), ()>) ensures told(tx_chan(*s)) { unimplemented!() }
/// wait for the message for a while; only what will be told is waited for
#[verifier::external_body]
pub fn v_select(s: &DoneRx) -> (r: bool) requires told(rx_chan(*s)) { unimplemented!() }
#[verifier::external_body]
pub fn v_call(f: &mut Opaque, line: String, id: u64, sw: Switch) -> (r: ConfigUpdate)
    ensures calls(*final(f)) == calls(*old(f)).push((line@, id, which(sw))),
        r.new_completions is Some ==> new_engine(r.new_completions.unwrap())
{ unimplemented!() }
// assume: an update's completions, if any, come from a new engine
pub open spec fn new_engine(c: Completions) -> bool { c.items@.len() == 0 && c.highlighted is None && c.changeset == 0 && c.replace@.len() == 0 && sent(c.tx).len() == 0 && pending(c.rx).len() == 0 }
#[verifier::external_body]
pub fn v_progress(s: i32) -> (r: String) ensures r@.len() < 200 { unimplemented!() }
#[verifier::external_body]
pub fn v_same_ev(a: &Event, b: &Event) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
pub fn v_downcast(e: Opaque) -> (r: Result<String, Opaque>) { unimplemented!() }
pub fn v_eprint() { }
/// the key that aborts
pub open spec fn aborts(e: Event) -> bool { e == (Event::Key { code: KeyCode::Char('x'), mods: KeyModifiers::CONTROL }) }
pub open spec fn aborted(s: Seq<Event>, from: int) -> bool { exists|i: int| from <= i < s.len() && aborts(#[trigger] s[i]) }
proof fn lemma_aborted()
    ensures forall|s: Seq<Event>, e: Event, from: int| from <= s.len() ==> (#[trigger] aborted(s.push(e), from) <==> aborted(s, from) || aborts(e))
{
    assert forall|s: Seq<Event>, e: Event, from: int| from <= s.len() implies (#[trigger] aborted(s.push(e), from) <==> aborted(s, from) || aborts(e)) by {
        let p = s.push(e);
        if aborted(s, from) { let i = choose|i: int| from <= i < s.len() && aborts(#[trigger] s[i]); assert(p[i] == s[i]); }
        if aborts(e) && from >= 0 { assert(p[s.len() as int] == e); }
        if aborted(p, from) { let i = choose|i: int| from <= i < p.len() && aborts(#[trigger] p[i]); if i < s.len() { assert(p[i] == s[i]); } }
    }
}
/// while it waits: everything is as when evaluation started but the line, which shows the progress
pub open spec fn waits(a: TermState, b: TermState) -> bool {
    &&& wfs(b) && only_cur(a, b)
    &&& cur_tab(b).id == cur_tab(a).id && cur_tab(b).history == cur_tab(a).history && cur_tab(b).completions == cur_tab(a).completions && cur_tab(b).decorationfn == cur_tab(a).decorationfn
    &&& values(cur_tab(b).outputs.items@) == values(cur_tab(a).outputs.items@) && cur_tab(b).outputs.limit == cur_tab(a).outputs.limit
    &&& wf(cur_tab(b).input)
}
//@src ogma-shell/interface/mod.rs
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@fn eval as=eval_line
//@params term events f state
//@sig fn eval_line(term: &mut Opaque, mut events: Events, f: &mut Opaque, state: &mut TermState) -> (ret: ())
    requires wfs(*old(state)), roomy(*old(state))
    ensures wfs(*final(state)), evaluated(*old(state), *final(state), *old(f), *final(f)),
//@head
    let ghost from = taken(events).len() as int;
    proof { lemma_aborted(); }
//@before 0
    let ghost s1 = *state;
//@loop 0
    invariant
        told(rx_chan(donerx)), waits(s1, *state),
        which(cancelsw) == calls(*f).last().2, on(cancelsw) <==> aborted(taken(events), from), from <= taken(events).len(),
//@loophead 0
    proof { assume(sec < 0x7fff_ffff); }
//@loop 1
    invariant_except_break !__any, on(cancelsw) <==> aborted(taken(events), from),
    invariant
        told(rx_chan(donerx)), waits(s1, *state), from <= taken(events).len(),
        which(cancelsw) == calls(*f).last().2,
    ensures on(cancelsw) || __any <==> aborted(taken(events), from),
//@endfn
