// assume: crossterm's read() gives the next terminal event or an error; a channel delivers what was sent, in order, and refuses sends only once its receiver is gone; std::thread runs the closure
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct KeyCode { p: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct KeyModifiers { p: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct MouseEvent { p: u8 }
#[derive(Clone, Copy)]
pub struct KeyEvent { pub code: KeyCode, pub modifiers: KeyModifiers }
/// crossterm's event
#[derive(Clone, Copy)]
pub enum XtEvent { Key(KeyEvent), Mouse(MouseEvent), Resize(u16, u16) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T> { p: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { p: std::marker::PhantomData<T> }
pub uninterp spec fn sent<T>(s: Sender<T>) -> Seq<T>;
/// the receiver is gone
pub uninterp spec fn closed<T>(s: Sender<T>) -> bool;
/// what a receiver will give, as far as it has arrived
pub uninterp spec fn queue<T>(s: Receiver<T>) -> Seq<T>;
#[verifier::external_body]
pub struct Terminal { p: u8 }
/// the events read so far
pub uninterp spec fn seen(t: Terminal) -> Seq<XtEvent>;
#[verifier::external_body]
pub fn v_read(t: &mut Terminal) -> (r: Result<XtEvent, ()>)
    ensures match r { Ok(e) => seen(*final(t)) == seen(*old(t)).push(e), Err(_) => seen(*final(t)) == seen(*old(t)) }
{ unimplemented!() }
#[verifier::external_body]
pub fn v_send<T>(s: &mut Sender<T>, x: T) -> (r: Result<(), ()>)
    ensures match r { Ok(_) => sent(*final(s)) == sent(*old(s)).push(x) && !closed(*old(s)), Err(_) => sent(*final(s)) == sent(*old(s)) && closed(*final(s)) },
        closed(*old(s)) ==> closed(*final(s)),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_try_recv<T>(s: &mut Receiver<T>) -> (r: Result<T, ()>)
    ensures match r {
        Ok(e) => queue(*old(s)).len() > 0 && e == queue(*old(s))[0] && queue(*final(s)) == queue(*old(s)).subrange(1, queue(*old(s)).len() as int),
        Err(_) => queue(*old(s)).len() == 0 && queue(*final(s)).len() == 0,
    }
{ unimplemented!() }
// ---- the promise ----
/// the shell's view of a terminal event: a key press with its modifiers, or a change of size; nothing else concerns it
pub open spec fn view_of(e: XtEvent) -> Option<Event> {
    match e {
        XtEvent::Key(k) => Some(Event::Key { code: k.code, mods: k.modifiers }),
        XtEvent::Resize(_, _) => Some(Event::Resize),
        XtEvent::Mouse(_) => None,
    }
}
/// the events of a list that concern the shell, in order
pub open spec fn concern(s: Seq<XtEvent>) -> Seq<Event> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match view_of(s.last()) { Some(e) => concern(s.drop_last()).push(e), None => concern(s.drop_last()) } }
}
proof fn lemma_concern(s: Seq<XtEvent>, e: XtEvent)
    ensures concern(s.push(e)) == (match view_of(e) { Some(x) => concern(s).push(x), None => concern(s) })
{ assert(s.push(e).drop_last() =~= s); }
proof fn lemma_concern_all()
    ensures forall|s: Seq<XtEvent>, e: XtEvent| #[trigger] concern(s.push(e)) == (match view_of(e) { Some(x) => concern(s).push(x), None => concern(s) })
{ assert forall|s: Seq<XtEvent>, e: XtEvent| #[trigger] concern(s.push(e)) == (match view_of(e) { Some(x) => concern(s).push(x), None => concern(s) }) by { lemma_concern(s, e); } }
//@rule read_event
read()
//@=>
v_read(term)
//@endrule
//@rule send_ev
tx.send($e)
//@=>
v_send(tx, $e)
//@endrule
//@rule take_ev
self.0.try_recv()
//@=>
v_try_recv(&mut self.0)
//@endrule
//@src ogma-shell/interface/events.rs
//@item Event derive=Clone,Copy
//@item Events
//@known Event::convert_xt
impl Event {
//@fn Event::convert_xt
//@params ev
    ensures ret == view_of(ev)
//@endfn
}
#[verifier::exec_allows_no_decreases_clause]
//@closure Events::new spawn:0 as=event_loop noprobe
//@sig fn event_loop(term: &mut Terminal, tx: &mut Sender<Event>) -> (ret: ())
    requires sent(*old(tx)).len() == 0, seen(*old(term)).len() == 0
    ensures closed(*final(tx))
//@head
    proof { lemma_concern_all(); }
//@loop 0
    invariant sent(*tx) =~= concern(seen(*term)) || closed(*tx),
        forall|s: Seq<XtEvent>, e: XtEvent| #[trigger] concern(s.push(e)) == (match view_of(e) { Some(x) => concern(s).push(x), None => concern(s) }),
//@loop 1
    invariant sent(*tx) =~= concern(seen(*term)) || closed(*tx),
        forall|s: Seq<XtEvent>, e: XtEvent| #[trigger] concern(s.push(e)) == (match view_of(e) { Some(x) => concern(s).push(x), None => concern(s) }),
//@endfn
impl Events {
//@fn Events@Iterator::next as=next
//@params self
    ensures match ret {
        Some(e) => queue(old(self).0).len() > 0 && e == queue(old(self).0)[0] && queue(final(self).0) == queue(old(self).0).subrange(1, queue(old(self).0).len() as int),
        None => queue(old(self).0).len() == 0 && queue(final(self).0).len() == 0,
    }
//@endfn
}
