#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
extern crate self as libs;
pub use crossbeam;
//@include _support.rs
mod interface {
    pub mod completions {
//@src ogma-shell/interface/completions.rs
//@text
    }
    pub mod input {
//@src ogma-shell/interface/input.rs
//@text
    }
    pub use input::InputBuffer;
}
use crossbeam::channel::{unbounded, Receiver, Sender};
use interface::completions::*;
use interface::input::{InputBuffer, Mvmt};
use std::time::{Duration, Instant};
use support::*;

type Seen = (String, usize, usize);
/// Answers with `count` items derived from the line; an input containing '!' waits for the gate.
struct Echo {
    tx: Sender<Seen>,
    gate: Receiver<()>,
    count: Box<dyn Fn(&str) -> usize + Send>,
    tag: &'static str,
}
impl Completer for Echo {
    fn complete(&self, input: &str, cursor_pos: usize, word_pos: usize) -> Vec<Completion> {
        self.tx.send((input.to_string(), cursor_pos, word_pos)).ok();
        if input.contains('!') {
            self.gate.recv().ok();
        }
        (0..(self.count)(input)).map(|i| Completion { value: item(self.tag, input, i), ty: CompletionType::Method }).collect()
    }
}
fn item(tag: &str, input: &str, i: usize) -> String {
    match i % 4 {
        0 => format!("{tag}{input}#{i}"),
        1 => String::new(),
        2 => format!("é{i}\u{1F600}"),
        _ => format!("{i}"),
    }
}
fn buf(s: &str, at: usize) -> InputBuffer {
    let mut b = InputBuffer::new();
    b.insert_str(s);
    for _ in at..s.chars().count() {
        b.move_left(Mvmt::Ch(1));
    }
    b
}
const SEP: &str = " \t\r\n./\\";
/// character index of the start of the word being completed
fn wstart(s: &[char], c: usize) -> usize {
    if c < s.len() && SEP.contains(s[c]) {
        return c;
    }
    let mut i = c;
    while i > 0 && !SEP.contains(s[i - 1]) {
        i -= 1;
    }
    i
}
const WAIT: Duration = Duration::from_secs(20);

struct Rig {
    c: Completions,
    seen: Receiver<Seen>,
    gate: Sender<()>,
}
fn rig(counts: Vec<usize>) -> Rig {
    let (tx, seen) = unbounded();
    let (gate, grx) = unbounded();
    let mut v: Vec<Box<dyn Completer>> = vec![];
    for (k, n) in counts.iter().enumerate() {
        let n = *n;
        v.push(Box::new(Echo { tx: tx.clone(), gate: grx.clone(), count: Box::new(move |_| n), tag: ["A", "B", "C"][k % 3] }));
    }
    Rig { c: Completions::new(v), seen, gate }
}
impl Rig {
    fn request(&mut self, s: &str, at: usize) -> Result<Seen, String> {
        self.c.request(&buf(s, at));
        self.seen.recv_timeout(WAIT).map_err(|_| "the completer was never asked".to_string())
    }
    fn collect(&mut self, want: usize) -> Result<(), String> {
        let t = Instant::now();
        while self.c.items().len() < want {
            let before = self.c.items().len();
            let r = self.c.recv();
            let after = self.c.items().len();
            if r != (after > before) {
                return Err(format!("recv answered {r} but the list went from {before} to {after}"));
            }
            if t.elapsed() > WAIT {
                return Err(format!("only {} of {want} items arrived", self.c.items().len()));
            }
            std::thread::yield_now();
        }
        Ok(())
    }
}

fn word_case(g: &mut Rig, s: &str, at: usize) -> Result<(), String> {
    let (input, cursor, word) = g.request(s, at)?;
    let cs: Vec<char> = s.chars().collect();
    let w = wstart(&cs, at);
    let bytes = |k: usize| cs[..k].iter().map(|c| c.len_utf8()).sum::<usize>();
    if input != s {
        return Err(format!("completer saw line {input:?}"));
    }
    if cursor != bytes(at) {
        return Err(format!("completer saw cursor {cursor}, expected byte {}", bytes(at)));
    }
    if word != bytes(w) {
        return Err(format!("completer saw word start {word}, expected byte {}", bytes(w)));
    }
    if g.c.word_pos() != w {
        return Err(format!("replacement starts at character {}, expected {w}", g.c.word_pos()));
    }
    // with no items, cycling shows the word itself and its length
    let (len, with) = g.c.highlight_next();
    if len != at - w || with != cs[w..at].iter().collect::<String>() {
        return Err(format!("replaces {len} characters by {with:?}, the word is {:?}", &cs[w..at]));
    }
    Ok(())
}

/// requests, then a walk over the items; the line is edited the way the shell does it
fn cycle_case(n: usize, second: usize, s: &str, at: usize, walk: &[bool]) -> Result<(), String> {
    let mut g = rig(if second > 0 { vec![n, second] } else { vec![n] });
    let cs: Vec<char> = s.chars().collect();
    let w = wstart(&cs, at);
    g.request(s, at)?;
    let total = n.min(10) + second.min(10);
    g.collect(total)?;
    std::thread::sleep(Duration::from_micros(300));
    g.c.recv();
    if g.c.items().len() != total {
        return Err(format!("{} items listed; completers offered {n} and {second} (at most ten each)", g.c.items().len()));
    }
    // order within one completer is kept
    for tag in ["A", "B"] {
        let k = if tag == "A" { n.min(10) } else { second.min(10) };
        let want: Vec<String> = (0..k).map(|i| item(tag, s, i)).collect();
        let lead = want.first().and_then(|f| g.c.items().iter().position(|x| x.value == *f));
        if let Some(p) = lead {
            let got: Vec<String> = g.c.items()[p..].iter().take(k).map(|x| x.value.clone()).collect();
            if got != want {
                return Err(format!("items of one completer {got:?}, expected {want:?}"));
            }
        } else if k > 0 {
            return Err(format!("first item of completer {tag} missing"));
        }
    }
    if g.c.has() != (total > 0) {
        return Err("has() disagrees with the list".into());
    }
    let vals: Vec<String> = g.c.items().iter().map(|x| x.value.clone()).collect();
    let mut line = cs.clone();
    let mut cur: Option<usize> = None;
    for (k, fwd) in walk.iter().enumerate() {
        cur = match (cur, fwd) {
            (None, true) => if total == 0 { None } else { Some(0) },
            (None, false) => total.checked_sub(1),
            (Some(i), true) => if i + 1 == total { None } else { Some(i + 1) },
            (Some(0), false) => None,
            (Some(i), false) => Some(i - 1),
        };
        let start = g.c.word_pos();
        let (len, with) = if *fwd { g.c.highlight_next() } else { g.c.highlight_prev() };
        let with: Vec<char> = with.chars().collect();
        if start + len > line.len() {
            return Err(format!("step {k}: replaces {len} characters at {start} in a line of {}", line.len()));
        }
        line.splice(start..start + len, with);
        let word: Vec<char> = match cur {
            Some(i) => vals[i].chars().collect(),
            None => cs[w..at].to_vec(),
        };
        let want: String = cs[..w].iter().chain(&word).chain(&cs[at..]).collect();
        let got: String = line.iter().collect();
        if got != want {
            return Err(format!("step {k}: line is {got:?}, expected {want:?}"));
        }
        let hl = g.c.highlighted().filter(|i| *i < total);
        if hl != cur {
            return Err(format!("step {k}: highlighted {hl:?}, expected {cur:?}"));
        }
    }
    g.c.reset();
    if g.c.has() || g.c.highlighted().is_some() {
        return Err("reset leaves something behind".into());
    }
    Ok(())
}

/// answers of an overtaken request never show up
fn stale_case(order: usize, reqs: &[&str], done_first: bool) -> Result<(), String> {
    let mut g = rig(vec![3]);
    let last = reqs[reqs.len() - 1];
    for (k, s) in reqs.iter().enumerate() {
        g.c.request(&buf(s, s.chars().count()));
        if k + 1 < reqs.len() {
            // let the completer take it up (or not, when it is still busy)
            g.seen.recv_timeout(Duration::from_millis(if done_first { 2000 } else { 5 })).ok();
            if done_first && s.contains('!') {
                // finish it before the next request is made, but do not look at the answer
                g.gate.send(()).ok();
                std::thread::sleep(Duration::from_millis(2));
            }
        }
        if !g.c.items().is_empty() {
            return Err("a new request starts with old items".into());
        }
    }
    for _ in 0..8 {
        g.gate.send(()).ok();
    }
    let t = Instant::now();
    let want: Vec<String> = (0..3).map(|i| item("A", last, i)).collect();
    while g.c.items().len() < 3 && t.elapsed() < WAIT {
        g.c.recv();
        for (i, x) in g.c.items().iter().enumerate() {
            if i >= 3 || x.value != want[i] {
                return Err(format!("item {:?} does not answer the last request {last:?}", x.value));
            }
        }
        std::thread::yield_now();
    }
    if g.c.items().len() != 3 {
        return Err(format!("the last request was answered with {} items", g.c.items().len()));
    }
    std::thread::sleep(Duration::from_millis(4));
    if g.c.recv() || g.c.items().len() != 3 {
        return Err("more items than the last request's answer".into());
    }
    Ok(())
}

/// one session: each request is answered by each completer that has something, whatever came before
fn session_case(reqs: &[(usize, usize, bool)]) -> Result<(), String> {
    let (tx, seen) = unbounded();
    let (_gate, grx) = unbounded();
    let n = |at: usize| move |s: &str| s.as_bytes()[at] as usize - 'a' as usize;
    let v: Vec<Box<dyn Completer>> = vec![
        Box::new(Echo { tx: tx.clone(), gate: grx.clone(), count: Box::new(n(0)), tag: "A" }),
        Box::new(Echo { tx, gate: grx, count: Box::new(n(1)), tag: "B" }),
    ];
    let mut g = Rig { c: Completions::new(v), seen, gate: _gate };
    for (k, (a, b, dismiss)) in reqs.iter().enumerate() {
        let s = format!("{}{}{k}", (b'a' + *a as u8) as char, (b'a' + *b as u8) as char);
        g.request(&s, s.len()).map_err(|e| format!("request {k}: {e}"))?;
        g.seen.recv_timeout(WAIT).map_err(|_| format!("request {k}: one completer was never asked"))?;
        g.collect(a + b).map_err(|e| format!("request {k}: {e}"))?;
        let mut got: Vec<String> = g.c.items().iter().map(|x| x.value.clone()).collect();
        let mut want: Vec<String> = (0..*a).map(|i| item("A", &s, i)).chain((0..*b).map(|i| item("B", &s, i))).collect();
        got.sort();
        want.sort();
        if got != want {
            return Err(format!("request {k} gave {got:?}, expected {want:?}"));
        }
        if *dismiss {
            g.c.reset();
            std::thread::sleep(Duration::from_millis(1));
            if g.c.recv() || g.c.has() {
                return Err(format!("items appear after request {k} was dismissed"));
            }
        }
    }
    Ok(())
}

fn main() {
    let mut r = Rep::new();
    let pid = r.pid.clone();
    let mut rng = r.rng(3);
    if pid == "S04" {
        r.bound("every line of up to 5 (6) characters over {a, space, ., é, /} plus lines of up to 3 over all separators, every cursor position; random lines up to 60");
        let mut g = rig(vec![0]);
        let mut all = strings(&['a', ' ', '.', 'é', '/'], r.n(5, 6));
        all.extend(strings(&[' ', '\t', '\r', '\n', '.', '/', '\\', 'x', '\u{1F600}', '-', '\u{a0}', '|', '#'], 3));
        for s in all {
            for at in 0..=s.chars().count() {
                r.case(!s.is_empty(), || format!("line {s:?} cursor {at}"), || word_case(&mut g, &s, at));
            }
        }
        let wide = ['a', 'b', ' ', '.', '/', '\\', '\t', '\n', '\r', 'é', '漢', '\u{1F600}', '-', '{', '\u{2028}', '\u{85}', ':'];
        for _ in 0..r.n(4000, 60000) {
            let n = rng.below(61);
            let s: String = (0..n).map(|_| *rng.pick(&wide)).collect();
            let at = rng.below(n + 1);
            r.case(true, || format!("line {s:?} cursor {at}"), || word_case(&mut g, &s, at));
        }
    }
    if pid == "S05" {
        r.bound("0..=13 offered items (one or two completers), walks of every direction pattern of length 5 and long walks both ways, several lines and cursor positions");
        let lines = [("", 0), ("ab", 2), ("a .é\u{1F600}b c", 6), ("x/yé z", 4), ("a.b", 1), ("日本 語 tail", 4)];
        for (s, at) in lines {
            for n in [0usize, 1, 2, 3, 5, 9, 10, 11, 13, 64] {
                for code in [0usize, 31, 5, 10, 21, 12, 3, 7, 24, 17] {
                    let walk: Vec<bool> = (0..5).map(|i| code >> i & 1 == 1).collect();
                    r.case(n > 0, || format!("line {s:?} cursor {at}, {n} items, walk {walk:?} (true=next)"), || cycle_case(n, 0, s, at, &walk));
                }
                for d in [true, false] {
                    let mut walk = vec![d; 30];
                    walk.extend(vec![!d; 26]);
                    r.case(n > 0, || format!("line {s:?} cursor {at}, {n} items, 30 steps {d} then 26 back"), || cycle_case(n, 0, s, at, &walk));
                    r.case(n > 0, || format!("line {s:?} cursor {at}, {n} and {} items, 30 steps {d} then 26 back", n + 1), || cycle_case(n, n + 1, s, at, &walk));
                }
            }
        }
        for _ in 0..r.n(150, 3000) {
            let wide = ['a', ' ', '.', 'é', '\u{1F600}', '/'];
            let n = rng.below(12);
            let s: String = (0..n).map(|_| *rng.pick(&wide)).collect();
            let at = rng.below(n + 1);
            let k = rng.below(14);
            let walk: Vec<bool> = (0..40).map(|_| rng.below(2) == 0).collect();
            r.case(true, || format!("line {s:?} cursor {at}, {k} items, walk {walk:?}"), || cycle_case(k, 0, &s, at, &walk));
        }
    }
    if pid == "S06" {
        r.bound("sequences of 2..=6 requests, each slow or quick, overtaken before, while and after its answer arrives");
        let pool = ["a", "b!", "c", "d!", "e", "f!"];
        for k in 0..r.n(60, 600) {
            let n = 2 + rng.below(5);
            let mut v: Vec<String> = (0..n).map(|i| format!("{}{}", rng.pick(&pool), i)).collect();
            let refs: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            let df = k % 2 == 0;
            let reqs: Vec<(usize, usize, bool)> = (0..n).map(|_| (rng.below(5).saturating_sub(1), rng.below(5).saturating_sub(1), rng.below(3) == 0)).collect();
            r.case(true, || format!("a session of requests answered with (items of one completer, of the other, dismissed afterwards) {reqs:?}"), || session_case(&reqs));
            r.case(true, || format!("requests {refs:?} answered_before_next={df}"), || stale_case(k, &refs, df));
        }
    }
    r.finish();
}
