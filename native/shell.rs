#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
// stand-ins for the dependencies that are not available: they only have to have the same interface
extern crate self as libs;
extern crate self as cansi;
pub use crossbeam;
pub mod colored {
    pub trait Colorize {
        fn yellow(&self) -> String;
    }
    impl Colorize for str {
        fn yellow(&self) -> String {
            self.to_string()
        }
    }
}
pub mod divvy {
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Arc;
    #[derive(Clone, Debug)]
    pub struct Switch(Arc<AtomicBool>);
    impl Switch {
        pub fn off() -> Self {
            Switch(Arc::new(AtomicBool::new(false)))
        }
        pub fn flip_on(&self) {
            self.0.store(true, Ordering::SeqCst)
        }
        pub fn is_on(&self) -> bool {
            self.0.load(Ordering::SeqCst)
        }
    }
}
pub mod fastrand {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(1);
    pub fn u64(_: std::ops::RangeFull) -> u64 {
        N.fetch_add(1, Ordering::SeqCst)
    }
}
pub mod v3 {
    #[derive(Copy, Clone, Debug, PartialEq)]
    pub enum Color { Black, Red, Green, Yellow, Blue, Magenta, Cyan, White, BrightBlack, BrightRed, BrightGreen, BrightYellow, BrightBlue, BrightMagenta, BrightCyan, BrightWhite }
    #[derive(Copy, Clone, Debug, PartialEq)]
    pub enum Intensity { Normal, Bold, Faint }
    #[derive(Copy, Clone, Debug)]
    pub struct CategorisedSlice<'t> {
        pub text: &'t str,
        pub start: usize,
        pub end: usize,
        pub fg: Option<Color>,
        pub bg: Option<Color>,
        pub intensity: Option<Intensity>,
        pub italic: Option<bool>,
        pub underline: Option<bool>,
        pub blink: Option<bool>,
        pub reversed: Option<bool>,
        pub hidden: Option<bool>,
        pub strikethrough: Option<bool>,
    }
    /// a slice ends at \u{1} (stand-in for an escape sequence), which is not part of the text
    pub fn categorise_text(s: &str) -> Vec<CategorisedSlice<'_>> {
        let mut o = vec![];
        let mut start = 0;
        for (k, part) in s.split('\u{1}').enumerate() {
            let end = start + part.len();
            if !part.is_empty() {
                o.push(CategorisedSlice { text: part, start, end, fg: if k % 2 == 1 { Some(Color::Red) } else { None }, bg: None, intensity: None, italic: None, underline: None, blink: None, reversed: None, hidden: None, strikethrough: None });
            }
            start = end + 1;
        }
        o
    }
    pub fn line_iter<'a, 't>(sl: &'a [CategorisedSlice<'t>]) -> impl Iterator<Item = Vec<CategorisedSlice<'t>>> {
        let mut lines: Vec<Vec<CategorisedSlice<'t>>> = vec![vec![]];
        for s in sl {
            let mut rest = s.text;
            let mut off = s.start;
            loop {
                match rest.find('\n') {
                    Some(i) => {
                        let l = rest[..i].strip_suffix('\r').unwrap_or(&rest[..i]);
                        lines.last_mut().unwrap().push(CategorisedSlice { text: l, start: off, end: off + l.len(), ..*s });
                        lines.push(vec![]);
                        off += i + 1;
                        rest = &rest[i + 1..];
                    }
                    None => {
                        if !rest.is_empty() {
                            lines.last_mut().unwrap().push(CategorisedSlice { text: rest, start: off, end: off + rest.len(), ..*s });
                        }
                        break;
                    }
                }
            }
        }
        if lines.last().unwrap().is_empty() {
            lines.pop();
        }
        lines.into_iter()
    }
}
//@include _support.rs
mod interface {
//@src ogma-shell/interface/mod.rs
//@text modpath
    pub mod vh {
        use super::*;
        use crate::support::*;
        use tui::backend::TestBackend;
        use KeyCode::*;
        use KeyModifiers as KM;

        pub fn key(code: KeyCode, mods: KeyModifiers) -> Event {
            Event::Key { code, mods }
        }
        struct Offer;
        impl Completer for Offer {
            fn complete(&self, input: &str, c: usize, w: usize) -> Vec<Completion> {
                if input.contains('~') {
                    return vec![];
                }
                ["aardvark", "", "é\u{1F600}"].iter().map(|v| Completion { value: v.to_string(), ty: CompletionType::Path }).collect()
            }
        }
        pub struct Rig {
            term: Term<TestBackend>,
            pub state: TermState,
            enter: EnterFn,
            pub evaluated: std::sync::Arc<std::sync::Mutex<Vec<(u64, String)>>>,
        }
        fn cfg(log: std::sync::Arc<std::sync::Mutex<Vec<(u64, String)>>>, offer: bool) -> Config {
            Config {
                title: " t ".into(),
                on_enter_press: Box::new(move |s, id, _| {
                    log.lock().unwrap().push((id, s.clone()));
                    ConfigUpdate { add_output: Some(format!("out:{s}")), ..Default::default() }
                }),
                completers: if offer { vec![Box::new(Offer)] } else { vec![] },
                ..Default::default()
            }
        }
        impl Rig {
            pub fn new(offer: bool) -> Self {
                let log = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
                let l2 = log.clone();
                let (state, enter) = init(cfg(log.clone(), offer), 60);
                let state = TermState { tabs: vec![state], tab_selected: 0, draw_help: false, cmpls_drawn: false, theme: 0, config_bldr: Box::new(move || cfg(l2.clone(), offer)) };
                Rig { term: Term::new(TestBackend::new(60, 16)).unwrap(), state, enter, evaluated: log }
            }
            pub fn push_iter(&mut self, it: &mut std::vec::IntoIter<Event>) -> bool {
                events_cycle(&mut self.term, it, &mut self.enter, &mut self.state).unwrap()
            }
            pub fn push(&mut self, ev: Vec<Event>) -> bool {
                events_cycle(&mut self.term, ev.into_iter(), &mut self.enter, &mut self.state).unwrap()
            }
        }

        #[derive(Clone, Debug)]
        pub struct TabM {
            id: u64,
            before: Vec<char>,
            after: Vec<char>,
            hist: Vec<String>,
            cur: Option<usize>,
            outs: usize,
            /// what completions were last asked for: line and cursor
            asked: Option<(Vec<char>, usize)>,
            /// completions: (word start, word, original word, selected)
            cmpl: Option<(usize, Vec<char>, Vec<char>, Option<usize>)>,
        }
        fn wordch(c: char) -> bool {
            c.is_alphanumeric() || c == '-' || c == '_'
        }
        fn span(v: &[char]) -> usize {
            let mut i = 0;
            while i < v.len() && !wordch(v[i]) { i += 1; }
            while i < v.len() && wordch(v[i]) { i += 1; }
            i
        }
        #[derive(Clone, Debug, PartialEq)]
        pub enum Act { Key(KeyCode, u8), NewTab, CloseTab, Next, Wait }
        fn mods(m: u8) -> KeyModifiers {
            match m { 0 => KM::NONE, 1 => KM::SHIFT, 2 => KM::CONTROL, _ => KM::ALT }
        }
        fn offers() -> Vec<Vec<char>> {
            ["aardvark", "", "é\u{1F600}"].iter().map(|s| s.chars().collect()).collect()
        }
        impl TabM {
            fn fresh(id: u64) -> Self {
                TabM { id, before: vec![], after: vec![], hist: vec![], cur: None, outs: 0, asked: None, cmpl: None }
            }
            fn line(&self) -> String {
                self.before.iter().chain(&self.after).collect()
            }
            fn set(&mut self, s: &str) {
                self.before = s.chars().collect();
                self.after.clear();
            }
            fn key(&mut self, code: KeyCode, m: u8, has: bool) {
                match (code, m) {
                    (Char(c), 0) | (Char(c), 1) => self.before.push(c),
                    (Enter, 1) | (Enter, 3) => self.before.push('\n'),
                    (Backspace, 0) | (Backspace, 1) => { self.before.pop(); }
                    (Delete, 0) => { if !self.after.is_empty() { self.after.remove(0); } }
                    (Left, 0) => { if let Some(c) = self.before.pop() { self.after.insert(0, c) } }
                    (Right, 0) => { if !self.after.is_empty() { let c = self.after.remove(0); self.before.push(c) } }
                    (Left, 2) => {
                        let rev: Vec<char> = self.before.iter().rev().copied().collect();
                        for _ in 0..span(&rev) { let c = self.before.pop().unwrap(); self.after.insert(0, c); }
                    }
                    (Right, 2) => { for _ in 0..span(&self.after) { let c = self.after.remove(0); self.before.push(c); } }
                    (Up, 0) | (Down, 0) if has => {
                        let vals = offers();
                        let (start, word, orig, sel) = self.cmpl.take().unwrap();
                        let n = vals.len();
                        let sel = match (sel, code == Down) {
                            (None, true) => Some(0),
                            (None, false) => Some(n - 1),
                            (Some(i), true) => if i + 1 == n { None } else { Some(i + 1) },
                            (Some(0), false) => None,
                            (Some(i), false) => Some(i - 1),
                        };
                        let new = sel.map(|i| vals[i].clone()).unwrap_or_else(|| orig.clone());
                        let all: Vec<char> = self.before.iter().chain(&self.after).copied().collect();
                        self.before = all[..start].iter().chain(&new).copied().collect();
                        self.after = all[start + word.len()..].to_vec();
                        self.cmpl = Some((start, new, orig, sel));
                        return;
                    }
                    (Up, 0) => {
                        let l = self.hist.len();
                        self.cur = match self.cur { None => l.checked_sub(1), Some(0) => None, Some(i) => Some(i - 1) };
                        let s = self.cur.map(|i| self.hist[i].clone()).unwrap_or_default();
                        self.set(&s);
                    }
                    (Down, 0) => {
                        let l = self.hist.len();
                        self.cur = match self.cur { None => if l == 0 { None } else { Some(0) }, Some(i) => if i + 1 == l { None } else { Some(i + 1) } };
                        let s = self.cur.map(|i| self.hist[i].clone()).unwrap_or_default();
                        self.set(&s);
                    }
                    (Enter, 0) => {
                        let s = self.line();
                        self.hist.push(s);
                        if self.hist.len() > 100 { self.hist.remove(0); }
                        self.cur = None;
                        self.set("");
                        self.outs += 1;
                    }
                    _ => (),
                }
            }
        }
        const SEP: &str = " \t\r\n./\\";

        /// Drive the shell with `acts`, comparing every tab with its model after each step.
        pub fn session(pid: &str, offer: bool, acts: &[Act], batch: usize) -> Result<(), String> {
            let mut g = Rig::new(offer);
            let mut m = vec![TabM::fresh(g.state.tabs[0].id)];
            let mut sel = 0usize;
            let mut want: Vec<(u64, String)> = vec![];
            let mut k = 0;
            while k < acts.len() {
                // a cycle takes several queued events; Enter and tab changes end the batch so that the model stays simple
                let mut evs = vec![];
                let mut did = vec![];
                let mut ended = false;
                let (mut changed, mut tail) = (false, false);
                while k < acts.len() && evs.len() < batch.max(1) && !ended {
                    let a = acts[k].clone();
                    if a == Act::Wait && !did.is_empty() { break; }
                    k += 1;
                    let has = m[sel].cmpl.is_some();
                    did.push(a.clone());
                    match &a {
                        Act::Wait => {
                            let t = std::time::Instant::now();
                            while t.elapsed() < std::time::Duration::from_millis(3) {
                                g.state.tabs[sel].completions.recv();
                                if g.state.tabs[sel].completions.has() { break; }
                                std::thread::yield_now();
                            }
                            ended = true;
                        }
                        Act::NewTab => { evs.push(key(Char('t'), KM::ALT)); ended = true; }
                        Act::CloseTab => { evs.push(key(Char('q'), KM::ALT)); ended = true; }
                        Act::Next => { evs.push(key(Tab, KM::NONE)); ended = true; }
                        Act::Key(c, mo) => {
                            evs.push(key(*c, mods(*mo)));
                            let (l0, enter) = (m[sel].line(), *c == Enter && *mo == 0);
                            let edit = matches!((*c, *mo), (Char(_), 0) | (Char(_), 1) | (Backspace, 0) | (Backspace, 1) | (Delete, 0) | (Enter, 1) | (Enter, 3));
                            let moved = matches!((*c, *mo), (Left, 0) | (Right, 0) | (Left, 2) | (Right, 2)) || (matches!(*c, Up | Down) && *mo == 0 && !has);
                            m[sel].key(*c, *mo, has);
                            changed |= edit;
                            if edit || moved || enter || (*c == Esc && *mo == 0 && has) { m[sel].cmpl = None; m[sel].asked = None; }
                            if enter { want.push((m[sel].id, l0)); changed = false; tail = true; }
                            ended = enter;
                        }
                    }
                }
                // keys queued behind Enter belong to the next line
                let mut extra = vec![];
                if tail && batch > 1 { extra.push(key(Char('z'), KM::NONE)); }
                let follow = !extra.is_empty();
                evs.extend(extra);
                let n0 = g.state.tabs.len();
                let quit = if evs.is_empty() { false } else {
                    let mut it = evs.into_iter();
                    let q = g.push_iter(&mut it);
                    // the keys the cycle did not take stay queued
                    if follow && !q && it.len() > 0 { let mut rest: Vec<Event> = it.collect(); g.push(rest) } else { q }
                };
                if follow { m[sel].before.push('z'); changed = true; }
                match did.last() {
                    Some(Act::NewTab) => {
                        if g.state.tabs.len() != n0 + 1 { return Err(format!("{did:?}: opening a tab: {} tabs, were {n0}", g.state.tabs.len())); }
                        m.push(TabM::fresh(g.state.tabs[n0].id));
                        sel = n0;
                    }
                    Some(Act::Next) => sel = (sel + 1) % m.len(),
                    Some(Act::CloseTab) => {
                        m.remove(sel);
                        if m.is_empty() {
                            if !quit { return Err("closing the last tab did not end the shell".into()); }
                            return Ok(());
                        }
                        // which of the remaining tabs gets selected is not pinned
                        sel = g.state.tab_selected;
                        if sel >= g.state.tabs.len() { return Err(format!("after closing a tab, tab {sel} of {} is selected", g.state.tabs.len())); }
                    }
                    _ => (),
                }
                if quit { return Err(format!("{did:?}: the shell ended with {} tabs open", m.len())); }
                if changed { let t = &mut m[sel]; t.asked = Some((t.line().chars().collect(), t.before.len())); t.cmpl = None; }
                // compare
                if g.state.tabs.len() != m.len() { return Err(format!("{did:?}: {} tabs, expected {}", g.state.tabs.len(), m.len())); }
                if g.state.tab_selected != sel { return Err(format!("{did:?}: tab {} selected, expected {sel}", g.state.tab_selected)); }
                for (i, t) in g.state.tabs.iter().enumerate() {
                    let e = m[i].clone();
                    if t.id != e.id { return Err(format!("{did:?}: tab {i} is a different tab")); }
                    if t.input.buffer(..) != e.line() { return Err(format!("{did:?}: tab {i} line {:?}, expected {:?}", t.input.buffer(..), e.line())); }
                    if t.input.ch_pos() != e.before.len() { return Err(format!("{did:?}: tab {i} cursor {}, expected {}", t.input.ch_pos(), e.before.len())); }
                    if t.completions.has() && m[i].cmpl.is_none() {
                        match &m[i].asked {
                            None => return Err(format!("{did:?}: tab {i} offers completions of an input that was since replaced or left")),
                            Some((l, c)) => {
                                let (l, c) = (l.clone(), *c);
                                let mut w = c;
                                if !(c < l.len() && SEP.contains(l[c])) {
                                    while w > 0 && !SEP.contains(l[w - 1]) { w -= 1; }
                                }
                                m[i].cmpl = Some((w, l[w..c].to_vec(), l[w..c].to_vec(), None));
                            }
                        }
                    } else if !t.completions.has() && m[i].cmpl.is_some() { return Err(format!("{did:?}: tab {i} dropped its completions")); }
                    let outs = t.outputs.iter().count();
                    if outs != e.outs.min(100) { return Err(format!("{did:?}: tab {i} has {outs} outputs, expected {}", e.outs)); }
                    let h = t.history.current().map(|s| s.to_string());
                    let w = e.cur.map(|i| e.hist[i].clone());
                    if h != w { return Err(format!("{did:?}: tab {i} history shows {h:?}, expected {w:?}")); }
                }
                let log = g.evaluated.lock().unwrap().clone();
                if log != want { return Err(format!("{did:?}: evaluated {:?}, expected {:?}", log.last(), want.last())); }
            }
            Ok(())
        }

        /// events after the last tab was closed, in the same cycle
        pub fn quit_case(tabs: usize, tail: Vec<Event>) -> Result<(), String> {
            let mut g = Rig::new(false);
            for _ in 1..tabs { g.push(vec![key(Char('t'), KM::ALT)]); }
            let mut ev: Vec<Event> = (0..tabs).map(|_| key(Char('q'), KM::ALT)).collect();
            ev.extend(tail);
            if !g.push(ev) { return Err("closing every tab did not end the shell".into()); }
            Ok(())
        }

        fn top_line(o: &Outputs) -> String {
            let a = Rect::new(0, 0, 24, 1);
            let mut b = tui::buffer::Buffer::empty(a);
            tui::widgets::Widget::render(o, a, &mut b);
            (0..23).map(|x| b.get(x, 0).symbol.clone()).collect::<String>().trim_end().to_string()
        }
        pub fn scroll_case(limit: usize, adds: &[usize], widths: &[u16], moves: &[i32]) -> Result<(), String> {
            let mut o = Outputs::new(40, limit);
            let mut kept: Vec<(usize, usize)> = vec![];
            for (k, a) in adds.iter().enumerate() {
                let lines: Vec<String> = (0..*a).map(|i| format!("{k}:{i}")).collect();
                o.add(lines.join("\n"), 0);
                kept.push((k, *a));
                if kept.len() > limit { kept.remove(0); }
                let got: Vec<String> = o.iter().map(|t| t.lines.first().map(|s| s.0.iter().map(|x| x.content.to_string()).collect::<String>()).unwrap_or_default()).collect();
                let want: Vec<String> = kept.iter().map(|(k, a)| if *a == 0 { String::new() } else { format!("{k}:0") }).collect();
                if got != want { return Err(format!("after adding output {k}: outputs {got:?}, expected {want:?}")); }
                let h: usize = kept.iter().map(|x| x.1).sum();
                if o.height() != h { return Err(format!("height {}, expected {h}", o.height())); }
                let newest: Vec<String> = kept.iter().rev().flat_map(|(k, a)| (0..*a).map(move |i| format!("{k}:{i}")).take(1)).collect();
                if top_line(&o) != newest.first().cloned().unwrap_or_default() { return Err(format!("adding an output does not show it: {:?}", top_line(&o))); }
            }
            let h: usize = kept.iter().map(|x| x.1).sum();
            let flat: Vec<String> = kept.iter().rev().flat_map(|(k, a)| (0..*a).map(move |i| format!("{k}:{i}"))).collect();
            let mut s: i64 = 0;
            for d in moves {
                o.scroll(*d);
                let top = (h.saturating_sub(1)).min(65535) as i64;
                s = if *d > 0 { (s + *d as i64).min(top) } else { (s + *d as i64).max(0) };
                let (got, want) = (if s < 65535 { top_line(&o) } else { String::new() }, flat.get(s as usize).cloned().unwrap_or_default());
                if s < 65535 && got != want { return Err(format!("scrolled by {d} of {h} lines: shows {got:?}, expected line {s} {want:?}")); }
            }
            for w in widths {
                o.update_width(*w, 0);
                if *w >= 24 && h > 0 && s < 60000 {
                    // still within the page: some line of it is on top
                    let t = top_line(&o);
                    if !flat.contains(&t) { return Err(format!("after a resize to {w} the top row {t:?} is beyond the page")); }
                    let at = flat.iter().position(|x| *x == t).unwrap() as i64;
                    if at > s { return Err("a resize scrolled down".into()); }
                }
                if o.cached_width() != *w { return Err("width not remembered".into()); }
                if o.iter().count() != kept.len() { return Err("outputs lost by a resize".into()); }
                for t in o.iter() {
                    for l in &t.lines {
                        if *w >= 3 && l.width() > *w as usize - 1 { return Err(format!("line of width {} for a column of {}", l.width(), w - 1)); }
                    }
                }
            }
            Ok(())
        }

        pub fn wrap_case(s: &str, width: usize) -> Result<(), String> {
            use unicode_width::*;
            let t = convert_coloured_str(s, width, 0);
            let got: Vec<String> = t.lines.iter().map(|l| l.0.iter().map(|x| x.content.to_string()).collect()).collect();
            let clean: String = s.replace('\u{1}', "").replace('\t', "    ");
            // nothing lost, nothing added, nothing reordered
            let joined: String = got.concat();
            let flat: String = clean.replace("\r\n", "").replace('\n', "");
            if joined != flat { return Err(format!("text {joined:?}, expected {flat:?}")); }
            // rows end at line breaks
            let mut rows = got.iter();
            for l in clean.split('\n') {
                let l = l.strip_suffix('\r').unwrap_or(l);
                let mut acc = String::new();
                let mut first = true;
                while first || acc.len() < l.len() {
                    match rows.next() {
                        None if l.is_empty() => break,
                        None => return Err(format!("line {l:?} is cut short: {acc:?}")),
                        Some(x) => acc.push_str(x),
                    }
                    first = false;
                }
                if acc != l { return Err(format!("rows {acc:?} for line {l:?}")); }
            }
            if rows.next().is_some() { return Err("rows left over".into()); }
            {
                for l in &t.lines {
                    let row: String = l.0.iter().map(|x| x.content.to_string()).collect();
                    let one = row.chars().count() <= 1 || (row == "    " && s.contains('\t'));
                    if l.width() > width && !one { return Err(format!("row of width {} for {width} columns", l.width())); }
                }
            }
            Ok(())
        }


        fn want_light(c: Color) -> Color {
            match c {
                Color::White => Color::Black,
                Color::Magenta => Color::LightMagenta,
                Color::LightCyan => Color::Cyan,
                Color::LightRed => Color::Red,
                Color::Yellow => Color::Rgb(210, 105, 30),
                Color::LightYellow => Color::Rgb(255, 140, 0),
                Color::Rgb(192, 192, 192) => Color::Rgb(55, 55, 55),
                c => c,
            }
        }
        fn want_theme(s: Style, t: u8) -> Style { if t % 2 == 0 { s } else { Style { fg: s.fg.map(want_light), bg: s.bg.map(want_light), ..s } } }
        pub fn theme_case(s: Style, t: u8) -> Result<(), String> {
            let (g, w) = (s.theme(t), want_theme(s, t));
            if g != w { return Err(format!("shown as {g:?}, expected {w:?}")); }
            Ok(())
        }
        const CODES: [(crate::v3::Color, Color); 16] = {
            use crate::v3::Color as C;
            [(C::Black, Color::Black), (C::Red, Color::Red), (C::Green, Color::Green), (C::Yellow, Color::Yellow), (C::Blue, Color::Blue), (C::Magenta, Color::Magenta), (C::Cyan, Color::Cyan), (C::White, Color::White),
             (C::BrightBlack, Color::DarkGray), (C::BrightRed, Color::LightRed), (C::BrightGreen, Color::LightGreen), (C::BrightYellow, Color::LightYellow), (C::BrightBlue, Color::LightBlue), (C::BrightMagenta, Color::LightMagenta), (C::BrightCyan, Color::LightCyan), (C::BrightWhite, Color::White)]
        };
        /// a span under codes: fg and bg are indices (16 = none), bits say how each flag is set (three values each)
        pub fn span_case(text: &str, fg: usize, bg: usize, bits: usize, theme: u8) -> Result<(), String> {
            let flag = |k: u32| match bits / 3usize.pow(k) % 3 { 0 => None, 1 => Some(true), _ => Some(false) };
            use crate::v3::Intensity as I;
            let inten = [None, Some(I::Normal), Some(I::Bold), Some(I::Faint)][bits / 729 % 4];
            let sl = crate::v3::CategorisedSlice { text, start: 0, end: text.len(), fg: CODES.get(fg).map(|x| x.0), bg: CODES.get(bg).map(|x| x.0), intensity: inten,
                italic: flag(0), underline: flag(1), blink: flag(2), reversed: flag(3), hidden: flag(4), strikethrough: flag(5) };
            let mut w = Style { fg: CODES.get(fg).map(|x| x.1), bg: CODES.get(bg).map(|x| x.1), add_modifier: Modifier::empty(), sub_modifier: Modifier::empty() };
            match inten { Some(I::Bold) => w.add_modifier |= Modifier::BOLD, Some(I::Faint) => w.add_modifier |= Modifier::DIM, _ => () }
            for (k, m) in [Modifier::ITALIC, Modifier::UNDERLINED, Modifier::RAPID_BLINK, Modifier::REVERSED, Modifier::HIDDEN, Modifier::CROSSED_OUT].into_iter().enumerate() { if flag(k as u32) == Some(true) { w.add_modifier |= m; } }
            let w = want_theme(w, theme);
            let g = cnv_span(text, sl, theme);
            if g.style != w { return Err(format!("shown as {:?}, expected {w:?}", g.style)); }
            if g.content != text.replace('\t', "    ") { return Err(format!("reads {:?}", g.content)); }
            Ok(())
        }
        /// every character of a wrapped text keeps the look of its piece
        pub fn look_case(s: &str, width: usize, theme: u8) -> Result<(), String> {
            let t = convert_coloured_str(s, width, theme);
            let got: Vec<(char, Style)> = t.lines.iter().flat_map(|l| l.0.iter()).flat_map(|x| x.content.chars().map(move |c| (c, x.style))).collect();
            let mut want = vec![];
            for (k, p) in s.split('\u{1}').enumerate() {
                let st = want_theme(if k % 2 == 1 { Style::default().fg(Color::Red) } else { Style::default() }, theme);
                for c in p.chars() { match c { '\n' => (), '\t' => for _ in 0..4 { want.push((' ', st)) }, c => want.push((c, st)) } }
            }
            if got != want { let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count(); return Err(format!("character {k}: {:?}, expected {:?}", got.get(k), want.get(k))); }
            Ok(())
        }

        /// what evaluating a line does. `end`: how the evaluation ends (0 output, 1 nothing, 2 it panics, 3 it waits until it is told to stop or for a while)
        pub fn eval_case(line: &str, end: u8, during: Vec<Event>, tabs: usize) -> Result<(), String> {
            use std::sync::{Arc, Mutex};
            let mut g = Rig::new(false);
            for _ in 1..tabs { g.state.new_tab(); }
            g.state.tab_selected = line.len() % tabs;
            g.state.tab_state().history.add("older".into());
            g.state.tab_state().history.back();
            g.state.tab_state().input.insert_str(line);
            let (id, at) = (g.state.tab_state().id, g.state.tab_selected);
            let calls: Arc<Mutex<Vec<(String, u64, Option<bool>)>>> = Default::default();
            let c2 = calls.clone();
            let f = move |s: Input, id: TabId, sw: Cancelled| -> ConfigUpdate {
                c2.lock().unwrap().push((s, id, None));
                match end {
                    0 => ConfigUpdate { add_output: Some("done".into()), new_title: Some("T".into()), new_prompt: Some("P".into()), ..Default::default() },
                    1 => ConfigUpdate::default(),
                    2 => panic!("evaluation panics"),
                    _ => {
                        let t = std::time::Instant::now();
                        while !sw.is_on() && t.elapsed() < std::time::Duration::from_millis(1600) { std::thread::sleep(std::time::Duration::from_millis(10)); }
                        c2.lock().unwrap()[0].2 = Some(sw.is_on());
                        ConfigUpdate { add_output: Some("done".into()), ..Default::default() }
                    }
                }
            };
            struct Watch(std::vec::IntoIter<Event>, usize);
            impl Iterator for Watch {
                type Item = Event;
                fn next(&mut self) -> Option<Event> {
                    let e = self.0.next();
                    if e.is_none() { self.1 += 1; if self.1 > 3 { panic!("the shell still waits for an evaluation that ended") } }
                    e
                }
            }
            let abort = during.iter().any(|e| *e == key(Char('x'), KM::CONTROL));
            eval(&mut g.term, Watch(during.into_iter(), 0), f, &mut g.state);
            let c = calls.lock().unwrap().clone();
            if c.len() != 1 || c[0].0 != line || c[0].1 != id { return Err(format!("evaluated {c:?}, expected one evaluation of {line:?} for tab {id}")); }
            if end == 3 && c[0].2 != Some(abort) { return Err(format!("cancellation read {:?}, expected {abort}", c[0].2)); }
            if g.state.tabs.len() != tabs || g.state.tab_selected != at { return Err("the tabs changed".into()); }
            let t = g.state.tab_state();
            if t.id != id { return Err("the tab's id changed".into()); }
            if t.input.buffer(..) != "" || t.input.ch_pos() != 0 { return Err(format!("the line reads {:?} afterwards", t.input.buffer(..))); }
            if t.history.current().is_some() { return Err("the history stands at an entry afterwards".into()); }
            t.history.back();
            if t.history.current().map(|s| s.to_string()) != Some(line.to_string()) { return Err(format!("the newest history entry is {:?}", t.history.current())); }
            t.history.back();
            if t.history.current().map(|s| s.to_string()) != Some("older".to_string()) { return Err(format!("the entry before is {:?}", t.history.current())); }
            let outs = t.outputs.iter().count();
            if outs != (end == 0 || end == 3) as usize { return Err(format!("{outs} outputs after an evaluation that ended like {end}")); }
            if end == 0 && (t.title != "T" || t.prompt != "P") { return Err(format!("title {:?} prompt {:?}", t.title, t.prompt)); }
            if end == 2 && (t.title != " t " || t.prompt != "> ") { return Err(format!("title {:?} prompt {:?}", t.title, t.prompt)); }
            for (k, t) in g.state.tabs.iter().enumerate() {
                if k != at && (t.input.buffer(..) != "" || t.title != " t " || t.prompt != "> " || t.outputs.iter().count() != 0 || t.history.current().is_some()) { return Err(format!("tab {k} changed")); }
            }
            Ok(())
        }

        /// draw a shell in some state on a terminal of w x h
        pub fn draw_case(w: u16, h: u16, prompt: usize, title: usize, input: &str, outs: &[usize], scroll: i32, help: bool, offer: bool, tabs: usize) -> Result<(), String> {
            let mut g = Rig::new(offer);
            g.term = Term::new(TestBackend::new(w, h)).map_err(|e| e.to_string())?;
            for _ in 1..tabs { g.state.new_tab(); }
            g.state.draw_help = help;
            {
                let t = g.state.tab_state();
                t.prompt = "p".repeat(prompt);
                t.title = "t".repeat(title);
                for (k, a) in outs.iter().enumerate() {
                    t.outputs.add((0..*a).map(|i| format!("{k}:{i}")).collect::<Vec<_>>().join("\n"), 0);
                }
                t.input.insert_str(input);
                if offer {
                    t.completions.request(&t.input);
                    let b = std::time::Instant::now();
                    while !t.completions.has() && b.elapsed() < std::time::Duration::from_millis(20) { t.completions.recv(); std::thread::yield_now(); }
                }
                t.outputs.update_width(w.saturating_sub(2), 0);
                t.outputs.scroll(scroll);
            }
            draw(&mut g.term, &mut g.state).map_err(|e| e.to_string())?;
            let b = g.term.backend().buffer().clone();
            let row = |y: u16, x0: u16, x1: u16| -> String { (x0..x1).map(|x| b.get(x, y).symbol.clone()).collect::<String>() };
            let t = g.state.tab_state();
            if t.input.buffer(..) != input { return Err("drawing changed the line".into()); }
            let n: usize = outs.len().min(100);
            if t.outputs.iter().count() != n { return Err("drawing changed the outputs".into()); }
            // what is on which row, where there is room for it
            if w >= 10 && h >= 3 && tabs == 1 && !help {
                let r = row(0, 1, w - 1);
                if !r.starts_with(" Tab 1") { return Err(format!("first row is {r:?}")); }
            }
            if w > 2 && h >= 4 && title > 0 && !help && !t.completions.has() {
                let r = row(1, 1, w - 1);
                let want = "t".repeat(title.min(w as usize - 2));
                if !r.starts_with(&want) { return Err(format!("title row is {r:?}")); }
            }
            // the cursor, as many columns in as the text before it takes
            if !input.contains('\n') {
                use unicode_width::*;
                let inner = (w as usize).saturating_sub(2);
                let (p, mut c) = (prompt.min(inner), input.chars().map(|c| if c == '\t' { 4 } else { c.width().unwrap_or(0) }).sum::<usize>());
                let mut y = 2;
                for l in &t.input_cache.lines { if c <= l.width() { break; } c -= l.width(); y += 1; }
                if w > 2 && h > 3 && y < h {
                    let got = g.term.backend_mut().get_cursor().map_err(|e| e.to_string())?;
                    if got != (1 + p as u16 + c as u16, y) { return Err(format!("cursor at {got:?}, expected {:?}", (1 + p + c, y))); }
                }
            }
            // another theme, another width: everything kept is for them
            for (w2, th) in [(w, 1u8), (w + 3, 1), (w + 3, 2), (w, 1), (w, 3), (w.saturating_sub(4), 0)] {
                g.state.theme = th;
                if w2 != g.term.backend().buffer().area.width { g.term = Term::new(TestBackend::new(w2, h)).map_err(|e| e.to_string())?; }
                draw(&mut g.term, &mut g.state).map_err(|e| e.to_string())?;
                let inner = w2.saturating_sub(2) as usize;
                let t = g.state.tab_state();
                if t.input_cache != convert_coloured_str(input, inner - prompt.min(inner), th) { return Err(format!("the line is not wrapped for {w2} columns and theme {th}")); }
                for (k, o) in t.outputs.iter().enumerate() {
                    let v = (0..outs[k]).map(|i| format!("{k}:{i}")).collect::<Vec<_>>().join("\n");
                    if *o != convert_coloured_str(&v, inner.saturating_sub(1), th) { return Err(format!("output {k} is not wrapped for {w2} columns and theme {th}")); }
                }
            }
            let t = g.state.tab_state();
            let plain = input.bytes().all(|c| c.is_ascii_graphic() || c == b' ');
            if w > 2 && h >= 4 && plain && !help && !t.completions.has() {
                let r = row(2, 1, w - 1);
                let want: String = "p".repeat(prompt).chars().chain(input.chars()).take(w as usize - 2).collect();
                if !r.starts_with(&want) { return Err(format!("input row is {r:?}, expected {want:?}")); }
            }
            let flat: Vec<String> = outs.iter().enumerate().rev().flat_map(|(k, a)| (0..*a).map(move |i| format!("{k}:{i}"))).collect();
            if w >= 12 && h > 6 && plain && input.len() + prompt < w as usize - 2 && !help && !t.completions.has() {
                let at = (scroll as usize).min(flat.len().saturating_sub(1));
                for y in 5..h - 1 {
                    let r = row(y - 1, 1, w - 2);
                    let want = flat.get(at + y as usize - 5).cloned().unwrap_or_default();
                    if r.trim_end() != want { return Err(format!("row {} is {r:?}, expected {want:?}", y - 1)); }
                }
            }
            if t.completions.has() && w >= 24 && h >= 12 && plain && input.len() + prompt < w as usize - 16 && !help {
                let r: Vec<String> = (3..6).map(|y| row(y, 1, w - 1)).collect();
                if !r[0].contains("aardvark") || !r[0].contains("[P]") || !r[2].contains('é') || !r[2].contains("[P]") { return Err(format!("completions are shown as {r:?}")); }
                let x = r[0].find("aardvark").unwrap_or(0);
                let start = prompt + t.completions.word_pos();
                if x != start && r[0].chars().position(|c| c == 'a') != Some(start) { return Err(format!("completions shown at {x}, the word starts at {start}")); }
            }
            Ok(())
        }

        /// where the scroll bar of a page is drawn
        pub fn bar_case(w: u16, h: u16, rows: usize, scroll: i32) -> Result<(), String> {
            let mut o = Outputs::new(w, 100);
            o.add((0..rows).map(|i| format!("r{i}")).collect::<Vec<_>>().join("\n"), 0);
            o.scroll(scroll);
            let s = (scroll.max(0) as usize).min(o.height().saturating_sub(1));
            let screen = Rect::new(0, 0, w + 4, h + 4);
            let mut b = tui::buffer::Buffer::empty(screen);
            tui::widgets::Widget::render(&o, Rect::new(2, 1, w, h), &mut b);
            let (mut top, mut len) = (None, 0u16);
            for y in 0..h + 4 { for x in 0..w + 4 {
                let bg = b.get(x, y).bg;
                let col = w > 0 && x == w + 1 && y >= 1 && y < h + 1;
                if !col && bg != Color::Reset { return Err(format!("cell {x},{y} coloured outside the scroll bar's column")); }
                if col && bg == Color::Gray { if top.is_none() { top = Some(y - 1); } len += 1; if y - 1 != top.unwrap() + len - 1 { return Err("the scroll bar has a gap".into()); } }
                if col && bg != Color::Gray && bg != Color::DarkGray { return Err(format!("scroll bar column is {bg:?}")); }
                if !(x >= 2 && x < w + 2 && y >= 1 && y < h + 1) && b.get(x, y).symbol != " " { return Err(format!("text outside the page at {x},{y}")); }
            } }
            if w == 0 || h == 0 { return if top.is_none() { Ok(()) } else { Err("a bar without room".into()) }; }
            let page = o.height();
            let (hh, n) = (h as usize, page);
            let want = if n <= hh || n <= 1 { hh } else { (hh * hh / n).max(1).min(hh) };
            if len as usize != want { return Err(format!("scroll bar of {len} rows for {n} rows on {hh}, expected {want}")); }
            if n > 1 {
                let exact = s * (hh - want) / (n - 1);
                let got = top.unwrap() as usize;
                if s == 0 && got != 0 || s == n - 1 && got != hh - want || got > exact || got + 1 < exact { return Err(format!("scroll bar at {got} for line {s} of {n} on {hh}, expected {exact}")); }
            }
            Ok(())
        }

        pub fn rect_case(y: u16, h: u16, by: u16) -> Result<(), String> {
            let a = Rect { x: 1, y, width: 7, height: h };
            let b = reduce_top_margin(a, by);
            let n = by.min(h);
            if (b.x, b.width, b.y, b.height) != (1, 7, y + n, h - n) { return Err(format!("{b:?}")); }
            Ok(())
        }

        pub fn main() {
            let mut r = Rep::new();
            let pid = r.pid.clone();
            let mut rng = r.rng(5);
            use Act::*;
            if pid == "S07" || pid == "S05" || pid == "S01" || pid == "S02" {
                r.bound("whole shell driven by key events on a test terminal: every tab operation sequence of 6 with marked lines; random sessions of 60 keys");
                let ops = [NewTab, CloseTab, Next, Key(Char('x'), 0)];
                for code in 0..(if pid == "S07" { 4usize.pow(r.n(6, 7) as u32) } else { 64 }) {
                    let n = if pid == "S07" { r.n(6, 7) } else { 3 };
                    let mut acts = vec![];
                    for i in 0..n {
                        let o = &ops[code / 4usize.pow(i as u32) % 4];
                        acts.push(o.clone());
                        if *o == NewTab { acts.push(Key(Char((b'a' + i as u8) as char), 0)); }
                        if i == 3 { acts.push(Key(Enter, 0)); }
                    }
                    r.case(true, || format!("keys {acts:?}"), || session(&pid, false, &acts, 1));
                }
                let pool: Vec<(Act, usize)> = vec![
                    (Key(Char('a'), 0), 8), (Key(Char('B'), 1), 3), (Key(Char(' '), 0), 4), (Key(Char('.'), 0), 2), (Key(Char('é'), 0), 2), (Key(Char('\u{1F600}'), 0), 1), (Key(Char('~'), 0), 1),
                    (Key(Backspace, 0), 3), (Key(Backspace, 1), 1), (Key(Delete, 0), 3), (Key(Left, 0), 4), (Key(Right, 0), 3), (Key(Left, 2), 2), (Key(Right, 2), 2),
                    (Key(Up, 0), 5), (Key(Down, 0), 5), (Key(Enter, 0), 4), (Key(Enter, 1), 1), (Key(Enter, 3), 1), (Key(Esc, 0), 1), (Key(PageUp, 0), 1), (Key(PageDown, 0), 1), (Key(Up, 1), 1), (Key(Down, 1), 1),
                    (Key(Char('h'), 3), 1), (Key(Char('m'), 3), 1), (Key(F(1), 0), 1), (Key(Char('c'), 2), 1), (Key(Home, 0), 1),
                    (NewTab, 1), (CloseTab, 1), (Next, 2), (Wait, 5),
                ];
                let bag: Vec<Act> = pool.iter().flat_map(|(a, n)| std::iter::repeat(a.clone()).take(*n)).collect();
                for k in 0..r.n(300, 5000) {
                    let offer = k % 2 == 0;
                    let n = 60;
                    let mut acts: Vec<Act> = (0..n).map(|_| rng.pick(&bag).clone()).collect();
                    if pid == "S05" {
                        // completions on screen most of the time
                        let mut v = vec![];
                        for a in acts { let ed = matches!(a, Key(Char(_), 0)); v.push(a); if ed { v.push(Wait); v.push(Key(if rng.below(2) == 0 { Down } else { Up }, 0)); } }
                        acts = v;
                    }
                    let batch = 1 + k % 3;
                    r.case(true, || format!("completers={offer} keys {acts:?}"), || session(&pid, offer, &acts, batch));
                }
                if pid == "S07" {
                    for tabs in 1..4 {
                        for tail in [vec![], vec![key(Char('x'), KM::NONE)], vec![key(Enter, KM::NONE)], vec![key(Tab, KM::NONE)], vec![Event::Resize, key(Char('q'), KM::ALT)], vec![key(Char('t'), KM::ALT), key(Char('x'), KM::NONE)]] {
                            r.case(true, || format!("close {tabs} of {tabs} tabs, then {tail:?} in the same cycle"), || quit_case(tabs, tail.clone()));
                        }
                    }
                }
            }
            if pid == "S08" {
                r.bound("limits 0..=4,100; up to 8 outputs of 0..70000 lines; scroll amounts incl. i32 extremes; resizes");
                let sizes = [0usize, 1, 2, 5, 40, 300];
                let steps = [5i32, -5, 25, -25, 1, -1, 0, i32::MAX, i32::MIN, 65535, 65536, -65536, 1000];
                for limit in [0usize, 1, 2, 3, 4, 100] {
                    for _ in 0..r.n(60, 600) {
                        let n = if limit == 100 && rng.below(4) == 0 { 98 + rng.below(8) } else { rng.below(9) };
                        let adds: Vec<usize> = (0..n).map(|_| if n > 20 { rng.below(3) } else { *rng.pick(&sizes) }).collect();
                        let moves: Vec<i32> = (0..12).map(|_| *rng.pick(&steps)).collect();
                        let widths: Vec<u16> = (0..3).map(|_| 3 + rng.below(50) as u16).collect();
                        r.case(n > 0, || format!("limit {limit} outputs of {adds:?} lines, widths {widths:?}, scrolls {moves:?}"), || scroll_case(limit, &adds, &widths, &moves));
                    }
                }
                for (adds, moves) in [(vec![40000usize, 30000], vec![60000, 10000, -70000, 5]), (vec![65536], vec![65536, -1]), (vec![65535, 1], vec![5, 65535]), (vec![70000], vec![i32::MAX, i32::MIN, 25])] {
                    r.case(true, || format!("outputs of {adds:?} lines, scrolls {moves:?}"), || scroll_case(100, &adds, &[], &moves));
                }
                for (w, h) in [(0u16, 3u16), (1, 4), (5, 0), (5, 1), (6, 2), (8, 7), (10, 40)] { for rows in [0usize, 1, 2, 3, 7, 8, 20, 41, 200, 5000] { for sc in [0i32, 1, 2, 5, 19, 100, 4999, i32::MAX] {
                    r.case(true, || format!("page of {rows} rows on {w}x{h} scrolled by {sc}"), || bar_case(w, h, rows, sc));
                } } }
            }
            if pid == "S10" {
                r.bound("terminals of every size up to 14x10, random states; larger terminals at random");
                for w in 0..14u16 { for h in 0..10u16 { for k in 0..r.n(4, 20) {
                    let (p, t) = (*rng.pick(&[0usize, 2, 5, 30]), *rng.pick(&[0usize, 3, 40]));
                    let input = *rng.pick(&["", "a", "ls | filter x", "a\nb\n", "漢字漢字漢字", "a\tb\t", "é漢\u{1F600}", "0123456789012345678901234567890123456789"]);
                    let outs: Vec<usize> = (0..rng.below(4)).map(|_| *rng.pick(&[0usize, 1, 2, 9, 200])).collect();
                    let sc = *rng.pick(&[0i32, 1, 5, 100, 1000]);
                    let (help, offer, tabs) = (rng.below(2) == 0, rng.below(2) == 0, 1 + rng.below(3));
                    r.case(true, || format!("terminal {w}x{h}, prompt of {p}, title of {t}, input {input:?}, outputs {outs:?} scrolled {sc}, help={help}, completions={offer}, {tabs} tabs"), || draw_case(w, h, p, t, input, &outs, sc, help, offer, tabs));
                } } }
                for _ in 0..r.n(300, 5000) {
                    let (w, h) = (14 + rng.below(70) as u16, 6 + rng.below(30) as u16);
                    let (p, t) = (rng.below(12), *rng.pick(&[0usize, 3, 40]));
                    let input = *rng.pick(&["", "a", "ls | fil", "abc.de", "a\nb\n", "漢字漢字漢字", "a\tb\t", "é漢\u{1F600}", "0123456789012345678901234567890123456789"]);
                    let outs: Vec<usize> = (0..rng.below(4)).map(|_| *rng.pick(&[1usize, 2, 9, 200])).collect();
                    let sc = *rng.pick(&[0i32, 1, 5, 100, 1000]);
                    let (help, offer, tabs) = (rng.below(4) == 0, rng.below(2) == 0, 1 + rng.below(3));
                    r.case(true, || format!("terminal {w}x{h}, prompt of {p}, title of {t}, input {input:?}, outputs {outs:?} scrolled {sc}, help={help}, completions={offer}, {tabs} tabs"), || draw_case(w, h, p, t, input, &outs, sc, help, offer, tabs));
                }
            }
            if pid == "S11" {
                r.bound("every named colour and the palette corners, every attribute set on and off, every theme number; every pair of colour codes, every combination of the other codes; random texts of styled pieces");
                let mut cs: Vec<Option<Color>> = vec![None];
                { use Color::*; cs.extend([Reset, Black, Red, Green, Yellow, Blue, Magenta, Cyan, Gray, DarkGray, LightRed, LightGreen, LightYellow, LightBlue, LightMagenta, LightCyan, White, Rgb(192, 192, 192), Rgb(0, 0, 0), Rgb(210, 105, 30), Rgb(255, 140, 0), Rgb(192, 192, 55), Rgb(191, 192, 192), Indexed(0), Indexed(7), Indexed(15), Indexed(192), Indexed(255)].map(Some)); }
                for fg in &cs { for bg in &cs { for t in [0u8, 1, 2, 3, 254, 255] {
                    let s = Style { fg: *fg, bg: *bg, add_modifier: Modifier::empty(), sub_modifier: Modifier::empty() };
                    r.case(true, || format!("{s:?} in theme {t}"), || theme_case(s, t));
                } } }
                for t in 0..=255u8 { for a in [0u16, 1, 8, 9, 0x1ff, 0x140] { for b in [0u16, 1, 8, 0x1ff, 0x20] {
                    let s = Style { fg: Some(Color::White), bg: Some(Color::Yellow), add_modifier: Modifier::from_bits_truncate(a), sub_modifier: Modifier::from_bits_truncate(b) };
                    r.case(true, || format!("{s:?} in theme {t}"), || theme_case(s, t));
                } } }
                for fg in 0..17 { for bg in 0..17 { for t in 0..2 { r.case(true, || format!("a piece with foreground code {fg} and background code {bg} in theme {t}"), || span_case("a\tb\t\té ", fg, bg, 0, t)); } } }
                for bits in 0..2916 { for t in 0..2 { r.case(true, || format!("a piece with attribute codes {bits} in theme {t}"), || span_case("x", 16, 3, bits, t)); } }
                let wide = ['a', 'b', '漢', '\u{301}', ' ', '\n', '\u{1}', '\t', '\u{1F600}', 'é'];
                for k in 0..r.n(3000, 50000) {
                    let n = rng.below(80);
                    let s: String = (0..n).map(|_| *rng.pick(&wide)).collect();
                    let w = 1 + rng.below(30);
                    r.case(true, || format!("text {s:?} width {w} theme {}", k % 2), || look_case(&s, w, (k % 2) as u8));
                }
            }
            if pid == "S13" {
                r.bound("evaluations ending with an output, with nothing, with a panic and slowly; lines up to 300 characters; up to 3 tabs; ctrl+x, other keys and nothing while a slow evaluation runs");
                for line in ["", "ls", "a\nb", "漢字 \u{1F600}", "  ", &"x".repeat(300)] { for end in [0u8, 1, 2] { for tabs in 1..4 {
                    r.case(true, || format!("line {line:?}, ending {end}, {tabs} tabs"), || eval_case(line, end, vec![], tabs));
                } } }
                let x = key(Char('x'), KM::CONTROL);
                let mut slow = vec![vec![], vec![x], vec![key(Char('x'), KM::NONE), key(Char('c'), KM::CONTROL), key(Char('X'), KM::CONTROL), Event::Resize], vec![key(Char('a'), KM::NONE), x, key(Enter, KM::NONE)]];
                if r.n(0, 1) == 1 { slow.extend([vec![x, x], vec![key(Char('x'), KM::ALT)], vec![key(Esc, KM::NONE), key(F(1), KM::NONE), key(Char('x'), KM::CONTROL)]]); }
                for during in slow {
                    r.case(true, || format!("keys while a slow evaluation runs: {during:?}"), || eval_case("slow", 3, during.clone(), 2));
                }
            }
            if pid == "S09" {
                r.bound("every text of up to 5 (6) characters over {a, wide, combining, space, newline, style change} for widths 1..=5, random texts up to 120; margins: all small rectangles");
                for s in strings(&['a', '漢', '\u{301}', ' ', '\n', '\u{1}'], r.n(5, 6)) {
                    for w in 1..=5usize {
                        r.case(!s.is_empty(), || format!("text {s:?} width {w}"), || wrap_case(&s, w));
                    }
                }
                let wide = ['a', 'b', '漢', '\u{301}', ' ', '\n', '\u{1}', '\t', '\u{1F600}', 'é'];
                for _ in 0..r.n(3000, 50000) {
                    let n = rng.below(120);
                    let s: String = (0..n).map(|_| *rng.pick(&wide)).collect();
                    let w = 1 + rng.below(30);
                    r.case(true, || format!("text {s:?} width {w}"), || wrap_case(&s, w));
                }
                for y in 0..6u16 { for h in 0..8u16 { for by in [0u16, 1, 2, 3, 7, 8, 9, 65535] {
                    r.case(true, || format!("rect y={y} height={h} reduced by {by}"), || rect_case(y, h, by));
                } } }
            }
            r.finish();
        }
    }
}
fn main() {
    interface::vh::main()
}
