#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
//@include _support.rs
mod history {
//@src ogma-shell/interface/history.rs
//@text
}
use history::History;
use support::*;

fn shown(h: &History) -> Option<String> {
    h.current().map(|s| s.to_string())
}

/// the history as a user sees it
struct Model {
    items: Vec<String>,
    cur: Option<usize>,
}
impl Model {
    fn op(&mut self, o: u8, n: &mut usize) -> Option<String> {
        let l = self.items.len();
        match o {
            0 => {
                let s = if *n % 7 == 3 { String::new() } else if *n % 11 == 5 { "dup".to_string() } else { format!("line {n}") };
                *n += 1;
                self.items.push(s.clone());
                if self.items.len() > 100 {
                    self.items.remove(0);
                }
                self.cur = None;
                return Some(s);
            }
            1 => self.cur = match self.cur { None => l.checked_sub(1), Some(0) => None, Some(i) => Some(i - 1) },
            _ => self.cur = match self.cur { None => if l == 0 { None } else { Some(0) }, Some(i) => if i + 1 == l { None } else { Some(i + 1) } },
        }
        None
    }
}

fn run(pre: usize, ops: &[u8]) -> Result<(), String> {
    let mut h = History::new();
    let mut m = Model { items: vec![], cur: None };
    let mut n = 0;
    let mut step = |h: &mut History, m: &mut Model, o: u8, k: usize| -> Result<(), String> {
        match m.op(o, &mut n) {
            Some(s) => h.add(s),
            None if o == 1 => h.back(),
            None => h.fwd(),
        }
        let want = m.cur.map(|i| m.items[i].clone());
        if shown(h) != want {
            return Err(format!("after step {k} (op {o}) shows {:?}, expected {want:?}", shown(h)));
        }
        Ok(())
    };
    for k in 0..pre {
        step(&mut h, &mut m, 0, k)?;
    }
    for (k, o) in ops.iter().enumerate() {
        step(&mut h, &mut m, *o, pre + k)?;
    }
    // a full walk in both directions
    for o in [1u8, 2] {
        for k in 0..m.items.len() + 2 {
            step(&mut h, &mut m, o, 100000 + k)?;
        }
    }
    Ok(())
}

fn main() {
    let mut r = Rep::new();
    r.bound("every add/back/forward sequence of up to 7 (thorough 9) steps after 0,1,2,3 adds; 98..=103, 199..=202 adds followed by every sequence of 4; random sequences of 400");
    let k = r.n(7, 9);
    for pre in 0..4usize {
        for len in 0..=k {
            for code in 0..3usize.pow(len as u32) {
                let ops: Vec<u8> = (0..len).map(|i| (code / 3usize.pow(i as u32) % 3) as u8).collect();
                r.case(len > 1, || format!("{pre} adds then ops {ops:?} (0 add, 1 back, 2 forward)"), || run(pre, &ops));
            }
        }
    }
    for pre in (98..=103usize).chain(199..=202) {
        for code in 0..81usize {
            let ops: Vec<u8> = (0..4).map(|i| (code / 3usize.pow(i) % 3) as u8).collect();
            r.case(true, || format!("{pre} adds then ops {ops:?}"), || run(pre, &ops));
        }
    }
    let mut rng = r.rng(1);
    for _ in 0..r.n(200, 4000) {
        let pre = rng.below(230);
        let ops: Vec<u8> = (0..400).map(|_| rng.below(3) as u8).collect();
        r.case(true, || format!("{pre} adds then ops {ops:?}"), || run(pre, &ops));
    }
    r.finish();
}
