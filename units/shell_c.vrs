//@stub history_c.vrs
//@stub completions_c.vrs
//@stub outputs_c.vrs
//@include std_option.rules
//@include std_misc.rules
// crossterm's key codes and modifiers
pub enum KeyCode { Backspace, Enter, Left, Right, Up, Down, Home, End, PageUp, PageDown, Tab, BackTab, Delete, Insert, F(u8), Char(char), Null, Esc }
// assume: KeyModifiers constants are distinct values (bitflags); combinations are OTHER
pub enum KeyModifiers { NONE, SHIFT, CONTROL, ALT, OTHER(u8) }
use KeyModifiers::NONE as NOMOD;
pub mod input { pub use super::Mvmt; }
//@rule cmp_max_ev
cmp::max($a, $b)
//@=>
v_max($a, $b)
//@endrule
//@rule for_count
for _ in 0..$e { $s_body }
//@=>
{ let __n = $e; let mut __k: usize = 0; while __k < __n { $s_body __k += 1; } }
//@endrule
//@rule nl_sum
input.chars(..input.ch_pos()).iter().filter(|&&$i_c| $c).map(|$i_x| $e).sum()
//@=>
{ let __end = input.ch_pos(); let mut __s: usize = 0; let mut __k: usize = 0; while __k < __end { let $i_c = input.buf[__k]; if $c { let $i_x = $i_c; let __y: usize = $e; __s = __s + __y; } __k += 1; } __s }
//@endrule
//@rule decor type
DecorationFn
//@=>
Opaque
//@endrule
//@rule bldr type
ConfigBldr
//@=>
Opaque
//@endrule
//@rule enterfn type
EnterFn
//@=>
Opaque
//@endrule
//@rule completers type
Vec<Box<dyn Completer>>
//@=>
Opaque
//@endrule
//@rule cfg_bldr
(self.config_bldr)()
//@=>
v_config(&mut self.config_bldr)
//@endrule
//@rule rnd
fastrand::u64(..)
//@=>
v_random()
//@endrule
//@rule text_type2 type
Text<'static>
//@=>
Text
//@endrule
//@rule text_from
Text::from($e)
//@=>
v_text($e)
//@endrule
//@src ogma-shell/interface/events.rs
//@item Event
//@src ogma-shell/interface/mod.rs
//@known TermState::tab_state TermState::new_tab TermState::switch_tab TermState::quit_tab mv_cursor mv_history mv_completions process_event init TermState::tabs_len NOMOD events_cycle draw eval TabState::update convert_coloured_str
//@item EventResult derive=Structural,PartialEq,Eq
//@ordinal EventResult weight
//@item Config
//@item ConfigUpdate
//@item TabState
//@item TermState
//@const SCROLL_LINES
//@const OUTPUTS_LIM
#[verifier::external_body]
pub struct Opaque { p: u8 }
// assume: the configuration callback returns some configuration; random tab ids are some number
#[verifier::external_body]
pub fn v_config(b: &mut Opaque) -> (r: Config) { unimplemented!() }
#[verifier::external_body]
pub fn v_random() -> (r: u64) { unimplemented!() }
#[verifier::external_body]
pub fn v_text(s: &str) -> (r: Text) { unimplemented!() }
// assume: cmp::max by the derived order, which is declaration order
#[verifier::external_body]
pub fn v_max(a: EventResult, b: EventResult) -> (r: EventResult)
    ensures r == (if weight(a) <= weight(b) { b } else { a })
{ unimplemented!() }
impl Completions {
    // assume: a new completion engine (thread and channels) has been asked nothing
    #[verifier::external_body]
    pub fn new(c: Opaque) -> (r: Completions)
        ensures r.items@.len() == 0, r.highlighted is None, r.changeset == 0, r.replace@.len() == 0, sent(r.tx).len() == 0, pending(r.rx).len() == 0
    { unimplemented!() }
}

// ---- what a tab is ----
/// the completion engine was asked about the input as it stands
pub open spec fn asked(c: Completions) -> bool { exists|i: int| 0 <= i < sent(c.tx).len() && (#[trigger] sent(c.tx)[i]).changeset == c.changeset }
/// the text at the completed word is what the selection shows
pub open spec fn anchored(t: TabState) -> bool {
    let c = t.completions;
    &&& c.start_pos + c.ins_len <= t.input.buf@.len()
    &&& t.input.buf@.subrange(c.start_pos as int, c.start_pos + c.ins_len) =~= shown(c, sel(c))
}
pub open spec fn wfe(c: Completions) -> bool {
    &&& forall|i: int| 0 <= i < sent(c.tx).len() ==> (#[trigger] sent(c.tx)[i]).changeset <= c.changeset
    &&& c.items@.len() > 0 ==> asked(c)
    &&& wfc(c) && (c.items@.len() == 0 ==> c.highlighted is None)
}
/// the line as the decoration shows it with the cursor there
pub uninterp spec fn decorated(f: Opaque, s: Seq<char>, at: int) -> Seq<char>;
/// these rows show the line for that width and theme
pub open spec fn rows_show(f: Opaque, s: Seq<char>, w: int, theme: u8, rows: Seq<Line>) -> bool { exists|at: int| wrap_of(#[trigger] decorated(f, s, at), w, theme, rows) }
/// the rows kept of the line, unless the line changed since, show it for the width and theme noted with them
pub open spec fn kept(t: TabState) -> bool {
    !t.input.buf_changed && t.input_cached is Some ==> rows_show(t.decorationfn, t.input.buf@, t.input_cached.unwrap().0 as int, t.input_cached.unwrap().1, lines(t.input_cache))
}
pub open spec fn wft(t: TabState) -> bool {
    &&& kept(t)
    &&& wf(t.input) && wfh(t.history) && wfe(t.completions)
    &&& asked(t.completions) ==> anchored(t)
    &&& t.outputs.items@.len() <= t.outputs.limit < usize::MAX && fits(t.outputs)
    &&& total(t.outputs.items@) <= usize::MAX ==> t.outputs.scroll <= bottom(total(t.outputs.items@))
}
// assume: what waits in a tab's channel answers requests of that tab (unit completions: every package answers a received request)
pub open spec fn answers_sent(c: Completions) -> bool {
    forall|k: int| 0 <= k < pending(c.rx).len() ==> exists|i: int| 0 <= i < sent(c.tx).len() && (#[trigger] sent(c.tx)[i]).changeset == (#[trigger] pending(c.rx)[k]).changeset
}
// assume: lines, history entries, completions and outputs stay far below 2^58 characters/lines, request counters below 2^128
pub open spec fn room(t: TabState) -> bool {
    &&& t.input.buf@.len() < maxb() / 4
    &&& forall|k: int| 0 <= k < t.history.items@.len() ==> (#[trigger] t.history.items@[k])@.len() < maxb() / 4
    &&& forall|k: int| 0 <= k < t.completions.items@.len() ==> (#[trigger] t.completions.items@[k]).value@.len() < maxb() / 4
    &&& t.completions.replace@.len() < maxb() / 4
    &&& total(t.outputs.items@) <= usize::MAX
    &&& t.completions.changeset < u128::MAX - 16
    &&& answers_sent(t.completions)
}
pub open spec fn wfs(s: TermState) -> bool {
    &&& s.tab_selected < s.tabs@.len() < usize::MAX
    &&& forall|k: int| 0 <= k < s.tabs@.len() ==> wft(#[trigger] s.tabs@[k])
}
pub open spec fn roomy(s: TermState) -> bool { s.tabs@.len() < usize::MAX - 1 && forall|k: int| 0 <= k < s.tabs@.len() ==> room(#[trigger] s.tabs@[k]) }
pub open spec fn cur_tab(s: TermState) -> TabState { s.tabs@[s.tab_selected as int] }
pub open spec fn fresh(t: TabState) -> bool {
    &&& wft(t)
    &&& t.input.buf@.len() == 0 && t.history.items@.len() == 0 && cur(t.history) is None && t.outputs.items@.len() == 0 && t.completions.items@.len() == 0
    &&& t.outputs.limit == 100
}
/// everything but the tabs
pub open spec fn same_shell(a: TermState, b: TermState) -> bool {
    a.tab_selected == b.tab_selected && a.draw_help == b.draw_help && a.theme == b.theme && a.cmpls_drawn == b.cmpls_drawn
}
/// nothing changed except within the selected tab
pub open spec fn only_cur(a: TermState, b: TermState) -> bool {
    &&& same_shell(a, b) && a.tabs@.len() == b.tabs@.len() && a.tab_selected < a.tabs@.len()
    &&& forall|k: int| 0 <= k < a.tabs@.len() && k != a.tab_selected ==> (#[trigger] b.tabs@[k]) == a.tabs@[k]
}
pub open spec fn only_input(t: TabState, u: TabState) -> bool { u == (TabState { input: u.input, ..t }) }
pub open spec fn only_outputs(t: TabState, u: TabState) -> bool { u == (TabState { outputs: u.outputs, ..t }) }
/// line u is line t with the cursor's left/right neighbourhood replaced
pub open spec fn line_is(u: InputBuffer, b: Seq<char>, a: Seq<char>) -> bool { wf(u) && before(u) =~= b && behind(u) =~= a }
pub open spec fn dropped(t: TabState, u: TabState) -> bool { u.completions.items@.len() == 0 && !asked(u.completions) }
pub open spec fn scrolled(t: TabState, u: TabState, by: int) -> bool {
    &&& only_outputs(t, u) && u.outputs.items@ == t.outputs.items@ && u.outputs.limit == t.outputs.limit && u.outputs.cached_width == t.outputs.cached_width && u.outputs.cached_theme == t.outputs.cached_theme
    &&& u.outputs.scroll == to(t.outputs.scroll as int, by, total(t.outputs.items@))
}
pub open spec fn edited(t: TabState, u: TabState, b: Seq<char>, a: Seq<char>) -> bool { only_input(t, u) && line_is(u.input, b, a) }
pub open spec fn moved(t: TabState, u: TabState, by: Mvmt, left: bool) -> bool {
    &&& u == (TabState { input: u.input, completions: u.completions, ..t }) && dropped(t, u)
    &&& wf(u.input) && u.input.buf@ == t.input.buf@
    &&& left ==> exists|n: int| #[trigger] mag(by, before(t.input).reverse(), n) && u.input.pos == (if n <= t.input.pos { t.input.pos - n } else { 0 })
    &&& !left ==> exists|n: int| #[trigger] mag(by, behind(t.input), n) && u.input.pos == (if n <= behind(t.input).len() { t.input.pos + n } else { t.input.buf@.len() as int })
}
pub open spec fn recalled(t: TabState, u: TabState, back: bool) -> bool {
    let n = t.history.items@.len() as int;
    &&& u == (TabState { input: u.input, completions: u.completions, history: u.history, ..t }) && dropped(t, u)
    &&& wfh(u.history) && u.history.items@ =~= t.history.items@
    &&& cur(u.history) == (if back { step_back(cur(t.history), n) } else { step_fwd(cur(t.history), n) })
    &&& line_is(u.input, match cur(u.history) { Some(i) => u.history.items@[i]@, None => Seq::empty() }, Seq::empty())
}
pub open spec fn completed(t: TabState, u: TabState, next: bool) -> bool {
    let n = t.completions.items@.len() as int;
    let s = t.completions.start_pos as int;
    let l = t.completions.ins_len as int;
    &&& u == (TabState { input: u.input, completions: u.completions, ..t })
    &&& u.completions.items@ == t.completions.items@ && u.completions.replace@ == t.completions.replace@
    &&& sel(u.completions) == (if next { step_fwd(sel(t.completions), n) } else { step_back(sel(t.completions), n) })
    &&& line_is(u.input, t.input.buf@.subrange(0, s) + shown(t.completions, sel(u.completions)), t.input.buf@.subrange(s + l, t.input.buf@.len() as int))
}

/// the key table
pub open spec fn does(ev: Event, a: TermState, b: TermState, r: EventResult) -> bool {
    let t = cur_tab(a);
    let u = cur_tab(b);
    let has = t.completions.items@.len() > 0;
    let before_c = before(t.input);
    let behind_c = behind(t.input);
    match ev {
        Event::Key { code: KeyCode::Char('h'), mods: KeyModifiers::ALT } => same_shell(TermState { draw_help: !a.draw_help, ..a }, b) && b.tabs@ =~= a.tabs@ && r is Redraw,
        Event::Key { code: KeyCode::Char('q'), mods: KeyModifiers::ALT } => {
            &&& b.tabs@ =~= a.tabs@.remove(a.tab_selected as int)
            &&& a.tabs@.len() == 1 ==> r is Break
            &&& a.tabs@.len() > 1 ==> r is Redraw && b.tab_selected < b.tabs@.len()
        },
        Event::Key { code: KeyCode::Char('t'), mods: KeyModifiers::ALT } => {
            &&& b.tabs@.len() == a.tabs@.len() + 1 && b.tabs@.drop_last() =~= a.tabs@
            &&& b.tab_selected == a.tabs@.len() && fresh(b.tabs@.last()) && r is Redraw
        },
        Event::Key { code: KeyCode::Char('m'), mods: KeyModifiers::ALT } => same_shell(TermState { theme: b.theme, ..a }, b) && b.theme % 2 != a.theme % 2 && b.tabs@ =~= a.tabs@ && r is Redraw,
        Event::Key { code: KeyCode::Tab, mods: KeyModifiers::NONE } => {
            &&& b.tabs@ =~= a.tabs@ && r is Redraw
            &&& b.tab_selected == (if a.tab_selected + 1 == a.tabs@.len() { 0 } else { a.tab_selected + 1 })
        },
        Event::Key { code: KeyCode::Enter, mods: KeyModifiers::NONE } => same_shell(a, b) && b.tabs@ =~= a.tabs@ && r is Eval,
        Event::Key { code: KeyCode::Up, mods: KeyModifiers::SHIFT } => only_cur(a, b) && scrolled(t, u, -5) && r is Redraw,
        Event::Key { code: KeyCode::Down, mods: KeyModifiers::SHIFT } => only_cur(a, b) && scrolled(t, u, 5) && r is Redraw,
        Event::Key { code: KeyCode::PageUp, mods: KeyModifiers::NONE } => only_cur(a, b) && scrolled(t, u, -25) && r is Redraw,
        Event::Key { code: KeyCode::PageDown, mods: KeyModifiers::NONE } => only_cur(a, b) && scrolled(t, u, 25) && r is Redraw,
        Event::Key { code: KeyCode::Down, mods: KeyModifiers::NONE } => only_cur(a, b) && r is Redraw && (if has { completed(t, u, true) } else { recalled(t, u, false) }),
        Event::Key { code: KeyCode::Up, mods: KeyModifiers::NONE } => only_cur(a, b) && r is Redraw && (if has { completed(t, u, false) } else { recalled(t, u, true) }),
        Event::Key { code: KeyCode::Esc, mods: KeyModifiers::NONE } => only_cur(a, b) && (if has { dropped(t, u) && u == (TabState { completions: u.completions, ..t }) && r is Redraw } else { u == t && r is None }),
        Event::Key { code: KeyCode::Left, mods: KeyModifiers::NONE } => only_cur(a, b) && moved(t, u, Mvmt::Ch(1), true) && r is Redraw,
        Event::Key { code: KeyCode::Right, mods: KeyModifiers::NONE } => only_cur(a, b) && moved(t, u, Mvmt::Ch(1), false) && r is Redraw,
        Event::Key { code: KeyCode::Left, mods: KeyModifiers::CONTROL } => only_cur(a, b) && moved(t, u, Mvmt::Word, true) && r is Redraw,
        Event::Key { code: KeyCode::Right, mods: KeyModifiers::CONTROL } => only_cur(a, b) && moved(t, u, Mvmt::Word, false) && r is Redraw,
        Event::Key { code: KeyCode::Backspace, mods: KeyModifiers::NONE } => only_cur(a, b) && r is InputChanged && edited(t, u, if before_c.len() == 0 { before_c } else { before_c.drop_last() }, behind_c),
        Event::Key { code: KeyCode::Backspace, mods: KeyModifiers::SHIFT } => only_cur(a, b) && r is InputChanged && edited(t, u, if before_c.len() == 0 { before_c } else { before_c.drop_last() }, behind_c),
        Event::Key { code: KeyCode::Delete, mods: KeyModifiers::NONE } => only_cur(a, b) && r is InputChanged && edited(t, u, before_c, if behind_c.len() == 0 { behind_c } else { behind_c.drop_first() }),
        Event::Key { code: KeyCode::Enter, mods: KeyModifiers::SHIFT } => only_cur(a, b) && r is InputChanged && edited(t, u, before_c.push('\n'), behind_c),
        Event::Key { code: KeyCode::Enter, mods: KeyModifiers::ALT } => only_cur(a, b) && r is InputChanged && edited(t, u, before_c.push('\n'), behind_c),
        Event::Key { code: KeyCode::Char(c), mods: KeyModifiers::NONE } => only_cur(a, b) && r is InputChanged && edited(t, u, before_c.push(c), behind_c),
        Event::Key { code: KeyCode::Char(c), mods: KeyModifiers::SHIFT } => only_cur(a, b) && r is InputChanged && edited(t, u, before_c.push(c), behind_c),
        Event::Resize => same_shell(a, b) && b.tabs@ =~= a.tabs@ && r is Redraw,
        _ => same_shell(a, b) && b.tabs@ =~= a.tabs@ && r is None,
    }
}

//@fn init
//@params config initial_width
    ensures fresh(ret.0), room(ret.0)
//@endfn

impl TermState {
//@fn TermState::tabs_len
//@params self
    ensures ret == self.tabs@.len()
//@endfn
//@fn TermState::tab_selected
//@params self
    ensures ret == self.tab_selected
//@endfn
//@fn TermState::tab_state noprobe
//@params self
    requires old(self).tab_selected < old(self).tabs@.len()
    ensures
        *ret == cur_tab(*old(self)),
        final(self).tabs@ == old(self).tabs@.update(old(self).tab_selected as int, *final(ret)),
        same_shell(*old(self), *final(self)),
//@endfn
//@fn TermState::new_tab
//@params self
    requires wfs(*old(self)), old(self).tabs@.len() < usize::MAX - 1
    ensures
        wfs(*final(self)), final(self).tabs@.len() == old(self).tabs@.len() + 1, final(self).tabs@.drop_last() =~= old(self).tabs@,
        final(self).tab_selected == old(self).tabs@.len(), fresh(final(self).tabs@.last()),
//@endfn
//@fn TermState::switch_tab
//@params self
    requires old(self).tab_selected < usize::MAX
    ensures
        final(self).tabs@ == old(self).tabs@,
        final(self).tab_selected == (if old(self).tab_selected + 1 >= old(self).tabs@.len() { 0 } else { old(self).tab_selected + 1 }),
        same_shell(TermState { tab_selected: final(self).tab_selected, ..*old(self) }, *final(self)),
//@endfn
//@fn TermState::quit_tab
//@params self
    requires wfs(*old(self))
    ensures
        final(self).tabs@ =~= old(self).tabs@.remove(old(self).tab_selected as int),
        final(self).tabs@.len() > 0 ==> wfs(*final(self)),
//@endfn
}
impl TabState {
//@fn TabState::update
//@params self cu theme
    requires old(self).outputs.items@.len() <= old(self).outputs.limit < usize::MAX, fits(old(self).outputs)
    ensures
        final(self).id == old(self).id, final(self).input == old(self).input, final(self).history == old(self).history,
        final(self).title == (match cu.new_title { Some(x) => x, None => old(self).title }),
        final(self).prompt == (match cu.new_prompt { Some(x) => x, None => old(self).prompt }),
        final(self).completions == (match cu.new_completions { Some(x) => x, None => old(self).completions }),
        match cu.add_output {
            Some(x) => values(final(self).outputs.items@) =~= newest_of(values(old(self).outputs.items@).push(x), old(self).outputs.limit as nat) && final(self).outputs.scroll == 0,
            None => final(self).outputs == old(self).outputs,
        },
        final(self).decorationfn == old(self).decorationfn, fits(final(self).outputs),
        final(self).outputs.items@.len() <= final(self).outputs.limit, final(self).outputs.limit == old(self).outputs.limit,
//@endfn
}
//@fn mv_cursor
//@params state mv_word mv_left
    requires wft(*old(state)), room(*old(state))
    ensures wft(*final(state)), ret is Redraw, moved(*old(state), *final(state), if mv_word { Mvmt::Word } else { Mvmt::Ch(1) }, mv_left),
//@endfn
//@fn mv_history
//@params state back
    requires wft(*old(state)), room(*old(state))
    ensures wft(*final(state)), ret is Redraw, recalled(*old(state), *final(state), back),
//@head
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@endfn
//@fn mv_completions
//@params state next
    requires wft(*old(state)), room(*old(state)), old(state).completions.items@.len() > 0
    ensures wft(*final(state)), ret is Redraw, completed(*old(state), *final(state), next),
//@loop 0
    invariant
        __k <= __n, wf(*input),
        before(*input) =~= old(state).input.buf@.subrange(0, start as int),
        behind(*input) =~= old(state).input.buf@.subrange(start + __k, old(state).input.buf@.len() as int),
        start + __n <= old(state).input.buf@.len(),
        old(state).input.buf_changed || __k > 0 ==> input.buf_changed,
    decreases __n - __k
//@tail
    proof {
        // with nothing taken out or put in, the line is as it was
        let (t0, t1) = (old(state).input, state.input);
        if !t1.buf_changed {
            assert(t1.buf@ =~= before(t1) + behind(t1));
            assert(t1.buf@ =~= t0.buf@);
        }
    }
//@endfn
//@fn process_event
//@params ev state
    requires wfs(*old(state)), roomy(*old(state))
    ensures
        does(ev, *old(state), *final(state), ret),
        !(ret is InputChanged) && !(ret is Break) ==> wfs(*final(state)),
        ret is InputChanged ==> wf(cur_tab(*final(state)).input) && kept(cur_tab(*final(state))),
//@endfn

// ---- the event cycle ----
#[verifier::external_body]
pub struct Events { p: u8 }
pub uninterp spec fn queue(e: Events) -> Seq<Event>;
/// the events taken so far
pub uninterp spec fn taken(e: Events) -> Seq<Event>;
// assume: a cycle finds finitely many queued events, in the order they happened
#[verifier::external_body]
pub fn v_next(e: &mut Events) -> (r: Option<Event>)
    ensures match r {
        Some(x) => queue(*old(e)).len() > 0 && x == queue(*old(e))[0] && queue(*final(e)) == queue(*old(e)).drop_first() && taken(*final(e)) == taken(*old(e)).push(x),
        None => queue(*old(e)).len() == 0 && *final(e) == *old(e),
    }
{ unimplemented!() }
#[verifier::external_body]
pub fn v_sleep() { }
/// drawing shows a tab: it may rewrap its outputs, nothing else a user could tell
pub open spec fn drawn(t: TabState, u: TabState) -> bool {
    &&& u.id == t.id && u.title == t.title && u.prompt == t.prompt && u.input.buf@ == t.input.buf@ && u.input.pos == t.input.pos && u.completions == t.completions && u.history == t.history && u.decorationfn == t.decorationfn
    &&& values(u.outputs.items@) =~= values(t.outputs.items@) && u.outputs.limit == t.outputs.limit && wft(u)
}
// assume: drawing (tui) does not change what a tab holds
#[verifier::external_body]
pub fn draw(term: &mut Opaque, state: &mut TermState) -> (r: Result<(), Opaque>)
    requires wfs(*old(state))
    ensures wfs(*final(state)), only_cur(*old(state), *final(state)), drawn(cur_tab(*old(state)), cur_tab(*final(state)))
{ unimplemented!() }
/// what was evaluated: the line, the tab it was for, the switch that aborts it
pub uninterp spec fn calls(f: Opaque) -> Seq<(Seq<char>, u64, int)>;
/// a finished evaluation: the line was evaluated once, for its tab; it is the newest entry of the history, which stands at the neutral position; the line is empty; an output asked for is the newest
pub open spec fn evaluated(a: TermState, b: TermState, f: Opaque, g: Opaque) -> bool {
    let (t, u) = (cur_tab(a), cur_tab(b));
    &&& only_cur(a, b)
    &&& calls(g).len() == calls(f).len() + 1 && calls(g).drop_last() =~= calls(f) && calls(g).last().0 == t.input.buf@ && calls(g).last().1 == t.id
    &&& u.id == t.id && u.decorationfn == t.decorationfn && wf(u.input) && u.input.buf@.len() == 0
    &&& u.history.items@.map_values(|s: String| s@) =~= newest(t.history.items@.map_values(|s: String| s@).push(t.input.buf@)) && cur(u.history) is None
    &&& values(u.outputs.items@) == values(t.outputs.items@)
        || exists|x: String| values(u.outputs.items@) == newest_of(#[trigger] values(t.outputs.items@).push(x), t.outputs.limit as nat) && u.outputs.scroll == 0
}
// proved in unit eval
#[verifier::external_body]
pub fn eval(term: &mut Opaque, events: Events, on_enter_press: &mut Opaque, state: &mut TermState)
    requires wfs(*old(state)), roomy(*old(state))
    ensures wfs(*final(state)), evaluated(*old(state), *final(state), *old(on_enter_press), *final(on_enter_press)),
{ unimplemented!() }
//@rule for_by_ref
for $i_e in events.by_ref() { $s_body }
//@=>
while let Some($i_e) = v_next(&mut events) { $s_body }
//@endrule
//@rule sleep
std::thread::sleep($e)
//@=>
v_sleep()
//@endrule
//@fn events_cycle
//@params term events on_enter_press state
//@sig fn events_cycle(term: &mut Opaque, mut events: Events, on_enter_press: &mut Opaque, state: &mut TermState) -> (ret: Result<bool, Opaque>)
    requires wfs(*old(state))
    ensures match ret {
        Ok(true) => final(state).tabs@.len() == 0,
        Ok(false) => wfs(*final(state)),
        Err(_) => wfs(*final(state)),
    }
//@loop 0
    invariant wfs(*state), !(r is Break),
    decreases queue(events).len()
//@loophead 0
    proof { assume(roomy(*state)); }
//@after 0
    proof { assume(roomy(*state)); }
//@endfn
