#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
extern crate crossterm as xt;
extern crate self as crossterm;
extern crate self as libs;
pub use crossbeam;
/// crossterm's types with a scripted terminal
pub mod event {
    pub use xt::event::*;
    use std::sync::{Condvar, Mutex};
    static QUEUE: Mutex<Vec<Option<xt::event::Event>>> = Mutex::new(vec![]);
    static MORE: Condvar = Condvar::new();
    pub fn script(v: Vec<Option<xt::event::Event>>) {
        QUEUE.lock().unwrap().extend(v);
        MORE.notify_all();
    }
    /// the next event (`None` in the script: an error)
    pub fn read() -> std::io::Result<xt::event::Event> {
        let mut q = QUEUE.lock().unwrap();
        while q.is_empty() {
            q = MORE.wait(q).unwrap();
        }
        q.remove(0).ok_or_else(|| std::io::Error::new(std::io::ErrorKind::Other, "scripted"))
    }
}
//@include _support.rs
mod interface {
    pub mod events {
//@src ogma-shell/interface/events.rs
//@text
    }
}
use interface::events::{Event, Events};
use support::*;
use xt::event::{Event as Xt, KeyCode, KeyEvent, KeyModifiers, MouseButton, MouseEvent, MouseEventKind};

fn view(e: &Xt) -> Option<Event> {
    match e {
        Xt::Key(KeyEvent { code, modifiers }) => Some(Event::Key { code: *code, mods: *modifiers }),
        Xt::Resize(_, _) => Some(Event::Resize),
        _ => None,
    }
}
fn case(ev: &mut Events, s: &[Option<Xt>]) -> Result<(), String> {
    if let Some(x) = ev.next() {
        return Err(format!("{x:?} arrives though nothing happened"));
    }
    let mark = Xt::Key(KeyEvent { code: KeyCode::F(99), modifiers: KeyModifiers::NONE });
    let mut all = s.to_vec();
    all.push(Some(mark));
    event::script(all);
    let want: Vec<Event> = s.iter().flatten().filter_map(view).collect();
    let t = std::time::Instant::now();
    let mut got = vec![];
    loop {
        match ev.next() {
            Some(x) if Some(x) == view(&mark) => break,
            Some(x) => got.push(x),
            None if t.elapsed().as_secs() > 3 => return Err(format!("{got:?} arrived, then nothing; expected {want:?} and more")),
            None => std::thread::yield_now(),
        }
    }
    if got != want {
        let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!("event {k}: {:?}, expected {:?} ({} events for {})", got.get(k), want.get(k), got.len(), want.len()));
    }
    Ok(())
}
fn main() {
    let mut r = Rep::new();
    let mut rng = r.rng(3);
    r.bound("every key code with every modifier set, resizes to corner sizes, every mouse event kind, read errors; random mixes of up to 40 events");
    let mut ev = match Events::new() { Ok(e) => e, Err(e) => { r.fail(format!("the event queue does not start: {e} -- input: start")); r.finish(); return; } };
    let mut codes = vec![KeyCode::Backspace, KeyCode::Enter, KeyCode::Left, KeyCode::Right, KeyCode::Up, KeyCode::Down, KeyCode::Home, KeyCode::End, KeyCode::PageUp, KeyCode::PageDown, KeyCode::Tab, KeyCode::BackTab, KeyCode::Delete, KeyCode::Insert, KeyCode::Null, KeyCode::Esc];
    codes.extend((0..13).map(KeyCode::F));
    codes.extend("aAzZ09 ~é漢\u{1F600}\0\n\t\u{301}".chars().map(KeyCode::Char));
    let keys: Vec<Xt> = codes.iter().flat_map(|c| (0..8u8).map(move |m| Xt::Key(KeyEvent { code: *c, modifiers: KeyModifiers::from_bits_truncate(m) }))).collect();
    let sizes: Vec<Xt> = [(0, 0), (0, 1), (1, 0), (80, 50), (65535, 65535), (10, 10)].iter().map(|(a, b)| Xt::Resize(*a, *b)).collect();
    let mice: Vec<Xt> = [MouseEventKind::Moved, MouseEventKind::ScrollDown, MouseEventKind::ScrollUp, MouseEventKind::Down(MouseButton::Left), MouseEventKind::Up(MouseButton::Right), MouseEventKind::Drag(MouseButton::Middle)].iter().map(|k| Xt::Mouse(MouseEvent { kind: *k, column: 3, row: 4, modifiers: KeyModifiers::NONE })).collect();
    for e in keys.iter().chain(&sizes).chain(&mice) {
        for s in [vec![Some(*e)], vec![Some(*e), Some(*e)], vec![None, Some(*e)], vec![Some(mice[0]), Some(*e), None]] {
            r.case(true, || format!("terminal events {s:?}"), || case(&mut ev, &s));
        }
    }
    let all: Vec<Option<Xt>> = keys.iter().chain(&sizes).chain(&sizes).chain(&mice).chain(&mice).map(|e| Some(*e)).chain([None; 12]).collect();
    for _ in 0..r.n(2000, 60000) {
        let s: Vec<Option<Xt>> = (0..rng.below(40)).map(|_| *rng.pick(&all)).collect();
        r.case(!s.is_empty(), || format!("terminal events {s:?}"), || case(&mut ev, &s));
    }
    r.finish();
}
