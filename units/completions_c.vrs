//@include text.vrs
//@include cycle.vrs
// assume: channels deliver what was sent, in order (crossbeam); a closed channel drops the message
//@rule extend
$b_v.extend($e)
//@=>
v_extend(&mut $b_v, $e)
//@endrule
//@rule send_self
self.tx.send($e).ok()
//@=>
v_send(&mut self.tx, $e)
//@endrule
//@rule send_tx
$b_t.send($e).ok()
//@=>
v_send($b_t, $e)
//@endrule
//@rule recv
rx.recv()
//@=>
v_recv(rx)
//@endrule
//@rule is_empty_rx
rx.is_empty()
//@=>
v_none_waiting(rx)
//@endrule
//@rule each_completer
for $i_c in completers { $s_body }
//@=>
{ let mut __cs = completers; while __cs.len() > 0 { let $i_c = __cs.remove(0); $s_body } }
//@endrule
//@rule each_sender
for $i_t in &senders { $s_body }
//@=>
{ let mut __k: usize = 0; while __k < senders.len() { let $i_t = &mut senders[__k]; $s_body __k += 1; } }
//@endrule
//@rule spawn_looper
std::thread::Builder::new().name($n).spawn(|| loop_completer($a, $b, $c)).unwrap()
//@=>
v_looper($a, $b, $c)
//@endrule
//@rule spawn_looper2
std::thread::Builder::new().name($n).spawn(move || loop_completer($a, $b, $c)).unwrap()
//@=>
v_looper($a, $b, $c)
//@endrule
//@rule tx_clone
tx.clone()
//@=>
v_tx_clone(&tx)
//@endrule
//@rule buffer_all
$b_x.buffer(..)
//@=>
$b_x.buffer_all()
//@endrule
//@rule for_try_iter
for $p_p in self.rx.try_iter().filter(|$i_x| $c) { $s_body }
//@=>
{ let mut __ps = v_try_iter(&mut self.rx); while __ps.len() > 0 { let __p = __ps.remove(0); let __q: bool = { let $i_x = &__p; $c }; if __q { let $p_p = __p; $s_body } } }
//@endrule
//@stub input_c.vrs
//@src ogma-shell/interface/completions.rs
//@item Completions
//@item Package
//@item Request
//@item Completion
//@item CompletionType
//@const CMPL_ITEMS_LIM

// a change set is never used again (the counter is 128 bits wide: assume it does not come around)
pub open spec fn newer(a: Completions, b: Completions) -> bool { b.changeset > a.changeset || a.changeset > u128::MAX - 8 }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T> { p: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { p: std::marker::PhantomData<T> }
pub uninterp spec fn sent<T>(s: Sender<T>) -> Seq<T>;
pub uninterp spec fn pending<T>(s: Receiver<T>) -> Seq<T>;
pub uninterp spec fn received<T>(s: Receiver<T>) -> Seq<T>;
#[verifier::external_body]
pub fn v_send<T>(s: &mut Sender<T>, x: T)
    ensures sent(*final(s)) == sent(*old(s)).push(x), chan_s(*final(s)) == chan_s(*old(s))
{ }
/// the channel an end belongs to
pub uninterp spec fn chan_s<T>(s: Sender<T>) -> int;
pub uninterp spec fn chan_r<T>(s: Receiver<T>) -> int;
/// something waits to be received
pub uninterp spec fn more<T>(s: Receiver<T>) -> bool;
#[verifier::external_body]
pub fn v_none_waiting<T>(s: &mut Receiver<T>) -> (r: bool)
    ensures received(*final(s)) == received(*old(s)), !r ==> more(*final(s))
{ unimplemented!() }
#[verifier::external_body]
pub fn unbounded<T>() -> (r: (Sender<T>, Receiver<T>))
    ensures chan_s(r.0) == chan_r(r.1), sent(r.0).len() == 0, received(r.1).len() == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn v_tx_clone<T>(s: &Sender<T>) -> (r: Sender<T>) ensures chan_s(r) == chan_s(*s) { unimplemented!() }
/// a thread runs loop_completer on this channel with this completer, answering there
pub uninterp spec fn serves(asks: int, c: AnyCompleter, answers: int) -> bool;
#[verifier::external_body]
pub fn v_looper(rx: Receiver<Arc<Request>>, tx: Sender<Package>, c: AnyCompleter) ensures serves(chan_r(rx), c, chan_s(tx)) { unimplemented!() }
#[verifier::external_body]
pub fn v_try_iter<T>(s: &mut Receiver<T>) -> (r: Vec<T>)
    ensures r@ == pending(*old(s))
{ unimplemented!() }
#[verifier::external_body]
pub fn v_recv<T>(s: &mut Receiver<T>) -> (r: Result<T, ()>)
    ensures match r { Ok(x) => received(*final(s)) == received(*old(s)).push(x) && received(*final(s)).drop_last() == received(*old(s)), Err(_) => *final(s) == *old(s) && !more(*old(s)) }
{ unimplemented!() }
#[verifier::external_body]
pub struct AnyCompleter { p: u8 }
pub uninterp spec fn offers(c: AnyCompleter, input: Seq<char>, cursor: int, word: int) -> Seq<Completion>;
impl AnyCompleter {
    #[verifier::external_body]
    pub fn complete(&self, input: &str, cursor_pos: usize, word_pos: usize) -> (r: Vec<Completion>)
        ensures r@ == offers(*self, input@, cursor_pos as int, word_pos as int)
    { unimplemented!() }
}

pub open spec fn sep(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '.' || c == '/' || c == '\\' }
/// index just after the last separator among the first c characters
pub open spec fn after_sep(s: Seq<char>, c: int) -> int decreases c {
    if c <= 0 { 0 } else if sep(s[c - 1]) { c } else { after_sep(s, c - 1) }
}
/// where the word being completed starts, cursor at character c
pub open spec fn wstart(s: Seq<char>, c: int) -> int {
    if c < s.len() && sep(s[c]) { c } else { after_sep(s, c) }
}
/// what that means: no separator inside the word, and it starts the line or follows a separator (or is empty)
proof fn lemma_wstart(s: Seq<char>, c: int)
    requires 0 <= c <= s.len()
    ensures
        0 <= wstart(s, c) <= c,
        forall|i: int| wstart(s, c) <= i < c ==> !sep(#[trigger] s[i]),
        wstart(s, c) == 0 || wstart(s, c) == c || sep(s[wstart(s, c) - 1]),
{ lemma_after_sep(s, c); }
proof fn lemma_after_sep(s: Seq<char>, c: int)
    requires 0 <= c <= s.len()
    ensures
        0 <= after_sep(s, c) <= c,
        forall|i: int| after_sep(s, c) <= i < c ==> !sep(#[trigger] s[i]),
        after_sep(s, c) == 0 || sep(s[after_sep(s, c) - 1]),
    decreases c
{ if c > 0 { lemma_after_sep(s, c - 1); } }
proof fn lemma_sep_lit()
    ensures forall|c: char| #[trigger] " \t\r\n./\\"@.contains(c) <==> sep(c)
{
    reveal_strlit(" \t\r\n./\\");
    let l = " \t\r\n./\\"@;
    assert(l.len() == 7);
    assert forall|c: char| sep(c) implies #[trigger] l.contains(c) by {
        if c == ' ' { assert(l[0] == c); } else if c == '\t' { assert(l[1] == c); } else if c == '\r' { assert(l[2] == c); } else if c == '\n' { assert(l[3] == c); }
        else if c == '.' { assert(l[4] == c); } else if c == '/' { assert(l[5] == c); } else { assert(l[6] == c); }
    }
    assert forall|c: char| #[trigger] l.contains(c) implies sep(c) by {
        let i = choose|i: int| 0 <= i < l.len() && l[i] == c;
        assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6);
    }
}

/// items of the first k packages answering request cs
pub open spec fn gather(ps: Seq<Package>, k: int, cs: u128) -> Seq<Completion> decreases k {
    if k <= 0 { Seq::empty() } else if ps[k - 1].changeset == cs { gather(ps, k - 1, cs) + ps[k - 1].items@ } else { gather(ps, k - 1, cs) }
}
proof fn lemma_gather(ps: Seq<Package>, k: int, cs: u128)
    requires 0 <= k <= ps.len(), gather(ps, k, cs).len() > 0
    ensures exists|i: int| 0 <= i < k && (#[trigger] ps[i]).changeset == cs
    decreases k
{ if k > 0 && ps[k - 1].changeset != cs { lemma_gather(ps, k - 1, cs); } }
pub open spec fn answered(ps: Seq<Package>, k: int, cs: u128) -> bool decreases k {
    if k <= 0 { false } else { answered(ps, k - 1, cs) || ps[k - 1].changeset == cs }
}

pub open spec fn wfc(c: Completions) -> bool {
    match c.highlighted { Some(i) => (i as nat) < max1(c.items@.len()), None => true }
}
pub open spec fn sel(c: Completions) -> Option<int> {
    match c.highlighted { Some(i) => if (i as int) < c.items@.len() { Some(i as int) } else { None }, None => None }
}
/// the text that stands at the completed word for a selection
pub open spec fn shown(c: Completions, s: Option<int>) -> Seq<char> {
    match s { Some(i) => c.items@[i].value@, None => c.replace@ }
}
/// a package answers one of the requests with at most ten of the completer's items, in order
pub open spec fn good_pkg(p: Package, reqs: Seq<Arc<Request>>, c: AnyCompleter) -> bool {
    &&& 0 < p.items@.len() <= 10
    &&& exists|i: int| 0 <= i < reqs.len() && answers(p, *#[trigger] reqs[i], c)
}
pub open spec fn answers(p: Package, q: Request, c: AnyCompleter) -> bool {
    let o = offers(c, q.input@, q.cursor_pos as int, q.word_pos as int);
    p.changeset == q.changeset && p.items@ =~= (if o.len() <= 10 { o } else { o.subrange(0, 10) })
}

/// the first n characters are those that begin at or before byte b
pub open spec fn scanned(s: Seq<char>, n: int, b: int) -> bool {
    &&& 0 <= n <= s.len()
    &&& forall|k: int| 0 <= k < n ==> #[trigger] bidx(s, k) <= b
    &&& n < s.len() ==> bidx(s, n) > b
}
proof fn lemma_scanned(s: Seq<char>, n: int, b: int, c: int)
    requires scanned(s, n, b), 0 <= c <= s.len(), bidx(s, c) == b
    ensures n == c + 1 || (n == c && c == s.len())
{
    lemma_bidx_order(s);
    if n > c + 1 { assert(bidx(s, n - 1) <= b); }
    if n < c { assert(bidx(s, n) > b); }
    if n == c && c < s.len() { assert(bidx(s, n) > b); }
}
/// every request was answered unless nothing was offered, and once, in order
pub open spec fn gave_all(ps: Seq<Package>, reqs: Seq<Arc<Request>>, c: AnyCompleter) -> bool { due(ps, reqs, c) }
/// the answers to these requests
pub open spec fn due(ps: Seq<Package>, reqs: Seq<Arc<Request>>, c: AnyCompleter) -> bool decreases reqs.len() {
    if reqs.len() == 0 { ps.len() == 0 }
    else if offers(c, reqs.last().input@, reqs.last().cursor_pos as int, reqs.last().word_pos as int).len() == 0 { due(ps, reqs.drop_last(), c) }
    else { ps.len() > 0 && answers(ps.last(), *reqs.last(), c) && due(ps.drop_last(), reqs.drop_last(), c) }
}
proof fn lemma_gave(a: Seq<Package>, b: Seq<Package>, reqs: Seq<Arc<Request>>, q: Arc<Request>, c: AnyCompleter)
    requires gave_all(a, reqs, c),
        offers(c, q.input@, q.cursor_pos as int, q.word_pos as int).len() == 0 ==> b =~= a,
        offers(c, q.input@, q.cursor_pos as int, q.word_pos as int).len() > 0 ==> b.len() == a.len() + 1 && b.drop_last() =~= a && answers(b.last(), *q, c),
    ensures gave_all(b, reqs.push(q), c)
{ assert(reqs.push(q).drop_last() =~= reqs); }
proof fn lemma_good_mono()
    ensures forall|p: Package, reqs: Seq<Arc<Request>>, x: Arc<Request>, c: AnyCompleter| good_pkg(p, reqs, c) ==> #[trigger] good_pkg(p, reqs.push(x), c)
{
    assert forall|p: Package, reqs: Seq<Arc<Request>>, x: Arc<Request>, c: AnyCompleter| good_pkg(p, reqs, c) implies #[trigger] good_pkg(p, reqs.push(x), c) by {
        let i = choose|i: int| 0 <= i < reqs.len() && answers(p, *#[trigger] reqs[i], c);
        assert(reqs.push(x)[i] == reqs[i]);
    }
}
//@fn word_start
//@params s before
    ensures
        ret <= before,
        forall|c: int| 0 <= c <= s@.len() && #[trigger] bidx(s@, c) == before ==> ret == bidx(s@, wstart(s@, c)),
//@head
    proof { lemma_sep_lit(); lemma_bidx_order(s@); assert forall|c: int| 0 <= c <= s@.len() implies 0 <= #[trigger] after_sep(s@, c) <= c by { lemma_after_sep(s@, c); }
        assert forall|n: int, c: int| scanned(s@, n, before as int) && 0 <= c <= s@.len() && #[trigger] bidx(s@, c) == before && (#[trigger] after_sep(s@, n)) == after_sep(s@, n) implies (n == c + 1 || (n == c && c == s@.len())) by { lemma_scanned(s@, n, before as int, c); } }
//@loop 0
    invariant_except_break
        pos == bidx(s@, after_sep(s@, __k as int)),
        forall|k: int| 0 <= k < __k ==> #[trigger] bidx(s@, k) <= before,
    invariant
        forall|c: char| #[trigger] spliton@.contains(c) <==> sep(c),
        __k <= __cs@.len(), __cs@.len() == s@.len(),
        blen(s@) <= usize::MAX,
        forall|k: int| 0 <= k < __cs@.len() ==> (#[trigger] __cs@[k]).0 == bidx(s@, k) && __cs@[k].1 == s@[k],
        forall|i: int, j: int| 0 <= i && 0 <= j ==> ((i < j) <==> (#[trigger] bidx(s@, i) < #[trigger] bidx(s@, j))),
        forall|c: int| 0 <= c <= s@.len() ==> 0 <= #[trigger] after_sep(s@, c) <= c,
    ensures
        scanned(s@, __k as int, before as int) && pos == bidx(s@, after_sep(s@, __k as int))
        || scanned(s@, __k - 1, before as int) && pos == bidx(s@, after_sep(s@, __k - 1)),
    decreases __cs@.len() - __k
//@endfn

impl Completions {
//@fn Completions::request
//@params self input_buf
    requires wf(*input_buf)
    ensures
        newer(*old(self), *final(self)),
        final(self).items@.len() == 0, final(self).highlighted is None,
        final(self).start_pos == wstart(input_buf.buf@, input_buf.pos as int),
        final(self).ins_len == input_buf.pos - final(self).start_pos,
        final(self).replace@ == input_buf.buf@.subrange(final(self).start_pos as int, input_buf.pos as int),
        sent(final(self).tx).len() == sent(old(self).tx).len() + 1,
        sent(final(self).tx) =~= sent(old(self).tx).push(sent(final(self).tx).last()),
        sent(final(self).tx).last().changeset == final(self).changeset,
        sent(final(self).tx).last().input@ == input_buf.buf@,
        sent(final(self).tx).last().cursor_pos == bidx(input_buf.buf@, input_buf.pos as int),
        sent(final(self).tx).last().word_pos == bidx(input_buf.buf@, final(self).start_pos as int),
//@head
    proof { let s = input_buf.buf@; let c = input_buf.pos as int; lemma_wstart(s, c); lemma_bidx_mono(s, 0, c); lemma_bidx_mono(s, wstart(s, c), c);
        assert(bidx(s, c) == bidx(s, c)); assert(is_bnd(s, bidx(s, c) as int)); assert(is_bnd(s, bidx(s, wstart(s, c)) as int)); }
//@endfn
//@fn Completions::recv
//@params self
    ensures
        ret == answered(pending(old(self).rx), pending(old(self).rx).len() as int, old(self).changeset),
        final(self).items@ =~= old(self).items@ + gather(pending(old(self).rx), pending(old(self).rx).len() as int, old(self).changeset),
        final(self).changeset == old(self).changeset, final(self).highlighted == old(self).highlighted, final(self).tx == old(self).tx,
        final(self).replace@ == old(self).replace@, final(self).start_pos == old(self).start_pos, final(self).ins_len == old(self).ins_len,
        final(self).items@.len() > old(self).items@.len() ==> exists|k: int| 0 <= k < pending(old(self).rx).len() && (#[trigger] pending(old(self).rx)[k]).changeset == old(self).changeset,
//@tail
    proof { let n = pending(old(self).rx).len() as int; if gather(pending(old(self).rx), n, old(self).changeset).len() > 0 { lemma_gather(pending(old(self).rx), n, old(self).changeset); } }
//@loop 0
    invariant
        self.changeset == old(self).changeset, self.tx == old(self).tx, self.highlighted == old(self).highlighted, chgset == old(self).changeset,
        self.replace@ == old(self).replace@, self.start_pos == old(self).start_pos, self.ins_len == old(self).ins_len,
        __ps@.len() <= pending(old(self).rx).len(),
        __ps@ =~= pending(old(self).rx).subrange(pending(old(self).rx).len() - __ps@.len(), pending(old(self).rx).len() as int),
        self.items@ =~= old(self).items@ + gather(pending(old(self).rx), pending(old(self).rx).len() - __ps@.len(), old(self).changeset),
        has == answered(pending(old(self).rx), pending(old(self).rx).len() - __ps@.len(), old(self).changeset),
    decreases __ps@.len()
//@endfn
//@fn Completions::reset
//@params self
    ensures final(self).items@.len() == 0, final(self).highlighted is None,
        newer(*old(self), *final(self)), final(self).tx == old(self).tx, final(self).rx == old(self).rx,
        final(self).replace@ == old(self).replace@, final(self).start_pos == old(self).start_pos, final(self).ins_len == old(self).ins_len,
//@endfn
//@fn Completions::has
//@params self
    ensures ret == (self.items@.len() > 0)
//@endfn
//@fn Completions::word_pos
//@params self
    ensures ret == self.start_pos
//@endfn
//@fn Completions::items
//@params self
    ensures ret@ == self.items@
//@endfn
//@fn Completions::highlighted
//@params self
    ensures ret == self.highlighted
//@endfn
//@fn Completions::highlight_next
//@params self
    requires wfc(*old(self))
    ensures
        wfc(*final(self)),
        final(self).items@ == old(self).items@, final(self).replace@ == old(self).replace@, final(self).start_pos == old(self).start_pos,
        final(self).tx == old(self).tx, final(self).rx == old(self).rx, final(self).changeset == old(self).changeset,
        sel(*final(self)) == step_fwd(sel(*old(self)), old(self).items@.len() as int),
        ret.0 == old(self).ins_len,
        ret.1@ == shown(*old(self), sel(*final(self))),
        final(self).ins_len == ret.1@.len(),
//@endfn
//@fn Completions::highlight_prev
//@params self
    requires wfc(*old(self))
    ensures
        wfc(*final(self)),
        final(self).items@ == old(self).items@, final(self).replace@ == old(self).replace@, final(self).start_pos == old(self).start_pos,
        final(self).tx == old(self).tx, final(self).rx == old(self).rx, final(self).changeset == old(self).changeset,
        sel(*final(self)) == step_back(sel(*old(self)), old(self).items@.len() as int),
        ret.0 == old(self).ins_len,
        ret.1@ == shown(*old(self), sel(*final(self))),
        final(self).ins_len == ret.1@.len(),
//@endfn
//@fn Completions::replace_with
//@params self
    requires wfc(*old(self))
    ensures
        final(self).items@ == old(self).items@, final(self).replace@ == old(self).replace@, final(self).start_pos == old(self).start_pos,
        final(self).tx == old(self).tx, final(self).rx == old(self).rx, final(self).changeset == old(self).changeset,
        final(self).highlighted == old(self).highlighted,
        ret.0 == old(self).ins_len,
        ret.1@ == shown(*old(self), sel(*old(self))),
        final(self).ins_len == ret.1@.len(),
//@endfn
//@fn Completions::cmpl
//@params self
    ensures match sel(*self) { Some(i) => ret is Some && ret.unwrap()@ == self.items@[i].value@, None => ret is None }
//@endfn
}

#[verifier::exec_allows_no_decreases_clause]
//@fn loop_completer noprobe
//@params rx tx completer
//@sig fn loop_completer(rx: &mut Receiver<Arc<Request>>, tx: &mut Sender<Package>, completer: AnyCompleter)
    requires sent(*old(tx)).len() == 0, received(*old(rx)).len() == 0
    ensures forall|i: int| 0 <= i < sent(*final(tx)).len() ==> good_pkg(#[trigger] sent(*final(tx))[i], received(*final(rx)), completer), gave_all(sent(*final(tx)), received(*final(rx)), completer), !more(*final(rx))
//@loop 0
    invariant
        forall|i: int| 0 <= i < sent(*tx).len() ==> good_pkg(#[trigger] sent(*tx)[i], received(*rx), completer),
        gave_all(sent(*tx), received(*rx), completer),
    ensures !more(*rx)
//@loophead 0
    let ghost sent0 = sent(*tx); let ghost recv0 = received(*rx).drop_last();
    proof { lemma_good_mono(); assert(*received(*rx).last() == *req); assert(recv0.push(req) =~= received(*rx)); }
//@looptail 0
    proof { lemma_gave(sent0, sent(*tx), recv0, req, completer); }
//@endfn

/// request q reached every completer
pub open spec fn asked_all(senders: Seq<Sender<Arc<Request>>>, n: int, q: Request) -> bool { forall|i: int| 0 <= i < n ==> sent(#[trigger] senders[i]).len() > 0 && *sent(senders[i]).last() == q }
/// what was passed on was received
pub open spec fn relayed(senders: Seq<Sender<Arc<Request>>>, got: Seq<Request>) -> bool { forall|i: int, j: int| 0 <= i < senders.len() && 0 <= j < sent(#[trigger] senders[i]).len() ==> got.contains(*#[trigger] sent(senders[i])[j]) }
proof fn lemma_relayed()
    ensures forall|v: Seq<Sender<Arc<Request>>>, g: Seq<Request>, q: Request| relayed(v, g) ==> #[trigger] relayed(v, g.push(q))
{
    assert forall|v: Seq<Sender<Arc<Request>>>, g: Seq<Request>, q: Request| relayed(v, g) implies #[trigger] relayed(v, g.push(q)) by {
        assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < sent(#[trigger] v[i]).len() implies g.push(q).contains(*#[trigger] sent(v[i])[j]) by {
            let x = *sent(v[i])[j]; assert(g.contains(x)); let k = choose|k: int| 0 <= k < g.len() && g[k] == x; assert(g.push(q)[k] == x);
        }
    }
}
#[verifier::exec_allows_no_decreases_clause]
//@fn run_engine noprobe
//@params rx tx completers
//@sig fn run_engine(rx: &mut Receiver<Request>, tx: Sender<Package>, completers: Vec<AnyCompleter>)
    requires received(*old(rx)).len() == 0
    ensures !more(*final(rx))
//@loop 0
    invariant
        senders@.len() + __cs@.len() == comps.len(), __cs@ =~= comps.subrange(senders@.len() as int, comps.len() as int),
        forall|i: int| 0 <= i < senders@.len() ==> serves(chan_s(#[trigger] senders@[i]), comps[i], chan_s(tx)) && sent(senders@[i]).len() == 0,
    decreases __cs@.len()
//@loop 1
    invariant
        // every completer has its own thread, answering on the shell's channel
        senders@.len() == comps.len(), forall|i: int| 0 <= i < senders@.len() ==> serves(chan_s(#[trigger] senders@[i]), comps[i], chan_s(tx)),
        // before waiting, the latest request has been passed on to all of them (or another one is there already)
        received(*rx).len() == 0 || more(*rx) || asked_all(senders@, senders@.len() as int, received(*rx).last()),
        relayed(senders@, received(*rx)),
    ensures
        !more(*rx), received(*rx).len() == 0 || asked_all(senders@, senders@.len() as int, received(*rx).last()),
//@loophead 1
    proof { lemma_relayed(); assert(received(*rx)[received(*rx).len() - 1] == req); assert(relayed(senders@, received(*rx))); }
//@loop 2
    invariant
        __k <= senders@.len(), senders@.len() == comps.len(), *req == received(*rx).last(), received(*rx).len() > 0,
        forall|i: int| 0 <= i < senders@.len() ==> serves(chan_s(#[trigger] senders@[i]), comps[i], chan_s(tx)),
        asked_all(senders@, __k as int, *req), relayed(senders@, received(*rx)),
    decreases senders@.len() - __k
//@head
    let ghost comps = completers@;
//@endfn
