#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
//@include _support.rs
mod input {
//@src ogma-shell/interface/input.rs
//@text
}
use input::{InputBuffer, Mvmt};
use support::*;

#[derive(Clone, Debug)]
enum Op {
    Ins(char),
    Str(String),
    Back,
    Del,
    Start,
    L(usize),
    R(usize),
    LW,
    RW,
    Clear,
    Reset,
}

#[derive(Clone, Default)]
struct Model {
    before: Vec<char>,
    after: Vec<char>,
    changed: bool,
}
fn wordch(c: char) -> bool {
    c.is_alphanumeric() || c == '-' || c == '_'
}
fn span(v: impl Iterator<Item = char>) -> usize {
    let v: Vec<char> = v.collect();
    let mut i = 0;
    while i < v.len() && !wordch(v[i]) {
        i += 1;
    }
    while i < v.len() && wordch(v[i]) {
        i += 1;
    }
    i
}
impl Model {
    fn left(&mut self, n: usize) {
        for _ in 0..n.min(self.before.len()) {
            let c = self.before.pop().unwrap();
            self.after.insert(0, c);
        }
    }
    fn right(&mut self, n: usize) {
        for _ in 0..n.min(self.after.len()) {
            let c = self.after.remove(0);
            self.before.push(c);
        }
    }
    fn op(&mut self, o: &Op) {
        match o {
            Op::Ins(c) => {
                self.before.push(*c);
                self.changed = true
            }
            Op::Str(s) => {
                self.changed |= !s.is_empty();
                self.before.extend(s.chars());
            }
            Op::Back => self.changed |= self.before.pop().is_some(),
            Op::Del => {
                if !self.after.is_empty() {
                    self.after.remove(0);
                    self.changed = true
                }
            }
            Op::Start => self.left(usize::MAX),
            Op::L(n) => self.left(*n),
            Op::R(n) => self.right(*n),
            Op::LW => self.left(span(self.before.iter().rev().copied())),
            Op::RW => self.right(span(self.after.iter().copied())),
            Op::Clear => *self = Model { changed: true, ..Default::default() },
            Op::Reset => self.changed = false,
        }
    }
}
fn real(b: &mut InputBuffer, o: &Op) {
    match o {
        Op::Ins(c) => b.insert(*c),
        Op::Str(s) => b.insert_str(s),
        Op::Back => b.backspace(),
        Op::Del => b.delete(),
        Op::Start => b.move_start(),
        Op::L(n) => b.move_left(Mvmt::Ch(*n)),
        Op::R(n) => b.move_right(Mvmt::Ch(*n)),
        Op::LW => b.move_left(Mvmt::Word),
        Op::RW => b.move_right(Mvmt::Word),
        Op::Clear => b.clear(),
        Op::Reset => b.reset_buf_changed(),
    }
}
fn is_motion(o: &Op) -> bool {
    matches!(o, Op::Start | Op::L(_) | Op::R(_) | Op::LW | Op::RW)
}
fn run(pid: &str, text: &str, at: usize, ops: &[Op]) -> Result<(), String> {
    let mut b = InputBuffer::new();
    let mut m = Model::default();
    // bring the buffer to `text` with the cursor at character `at`, using moves of one
    for c in text.chars() {
        b.insert(c);
    }
    let n = text.chars().count();
    for _ in at..n {
        b.move_left(Mvmt::Ch(1));
    }
    b.reset_buf_changed();
    m.before = text.chars().take(at).collect();
    m.after = text.chars().skip(at).collect();
    let check = |b: &InputBuffer, m: &Model, what: &str| -> Result<(), String> {
        let full: String = m.before.iter().chain(&m.after).collect();
        if pid == "S03" {
            if b.ch_pos() != m.before.len() {
                return Err(format!("{what}: cursor at {} not {}", b.ch_pos(), m.before.len()));
            }
            if b.buffer(..) != full {
                return Err(format!("{what}: text {:?} not {full:?}", b.buffer(..)));
            }
            return Ok(());
        }
        if b.buffer(..) != full {
            return Err(format!("{what}: text {:?} not {full:?}", b.buffer(..)));
        }
        if b.chars(..) != &full.chars().collect::<Vec<_>>()[..] {
            return Err(format!("{what}: chars {:?}", b.chars(..)));
        }
        if b.ch_pos() != m.before.len() {
            return Err(format!("{what}: cursor at {} not {}", b.ch_pos(), m.before.len()));
        }
        let bp: usize = m.before.iter().map(|c| c.len_utf8()).sum();
        if b.buf_pos() != bp {
            return Err(format!("{what}: byte position {} not {bp}", b.buf_pos()));
        }
        if b.buffer(..b.ch_pos()) != m.before.iter().collect::<String>() || b.buffer(b.ch_pos()..) != m.after.iter().collect::<String>() {
            return Err(format!("{what}: the text around the cursor is not {:?}|{:?}", m.before, m.after));
        }
        if m.changed && !b.buffer_changed() {
            return Err(format!("{what}: changed flag {} not {}", b.buffer_changed(), m.changed));
        }
        Ok(())
    };
    check(&b, &m, "initial")?;
    for (k, o) in ops.iter().enumerate() {
        real(&mut b, o);
        m.op(o);
        if pid == "S02" && is_motion(o) {
            // where motion ends is another property; follow the cursor
            let all: Vec<char> = m.before.iter().chain(&m.after).copied().collect();
            let p = b.ch_pos();
            if p > all.len() {
                return Err(format!("step {k} {o:?}: cursor {p} outside the line of {}", all.len()));
            }
            m.before = all[..p].to_vec();
            m.after = all[p..].to_vec();
        }
        check(&b, &m, &format!("step {k} {o:?}"))?;
    }
    Ok(())
}

fn main() {
    let mut r = Rep::new();
    let pid = r.pid.clone();
    let alpha = ['a', ' ', '-', '_', 'é', '\u{1F600}', '\n', '9'];
    r.bound("every line of up to 4 (5) characters over {a, space, -, _, é, emoji, newline, 9} with the cursor everywhere, every edit/motion, pairs of them on lines up to 3; random sessions of 60 steps on lines up to 40 characters incl. zero width, CJK, combining, non-ASCII digits");
    let one = vec![
        Op::Ins('x'), Op::Ins('é'), Op::Ins('\n'), Op::Ins('\u{1F600}'), Op::Str("".into()), Op::Str("pq".into()), Op::Str("\u{1F600}é\n".into()), Op::Back, Op::Del, Op::Start,
        Op::L(0), Op::L(1), Op::L(2), Op::L(usize::MAX), Op::R(0), Op::R(1), Op::R(3), Op::R(usize::MAX), Op::R(usize::MAX - 1), Op::LW, Op::RW, Op::Clear, Op::Reset,
    ];
    let k = r.n(4, 5);
    for s in strings(&alpha, k) {
        let n = s.chars().count();
        for at in 0..=n {
            for o in &one {
                let ops = [o.clone()];
                r.case(n > 0, || format!("line {s:?} cursor {at} ops {ops:?}"), || run(&pid, &s, at, &ops));
            }
        }
    }
    for s in strings(&['a', ' ', 'é', '-'], r.n(3, 4)) {
        let n = s.chars().count();
        for at in 0..=n {
            for o in &one {
                for p in &one {
                    let ops = [o.clone(), p.clone()];
                    r.case(n > 0, || format!("line {s:?} cursor {at} ops {ops:?}"), || run(&pid, &s, at, &ops));
                }
            }
        }
    }
    let mut rng = r.rng(2);
    let wide = ['a', 'Z', '0', ' ', '.', ',', '-', '_', '\t', '\n', '\r', '\\', '/', 'é', '漢', '\u{301}', '\u{200B}', '\u{1F600}', '٣', '\u{10FFFF}', '{', '$', '|', '"', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '²', 'Ⅷ'];
    for _ in 0..r.n(3000, 60000) {
        let n = rng.below(41);
        let s: String = (0..n).map(|_| *rng.pick(&wide)).collect();
        let at = rng.below(n + 1);
        let ops: Vec<Op> = (0..60)
            .map(|_| match rng.below(14) {
                0 | 1 => Op::Ins(*rng.pick(&wide)),
                2 => Op::Str((0..rng.below(5)).map(|_| *rng.pick(&wide)).collect()),
                3 => Op::Back,
                4 => Op::Del,
                5 => Op::Start,
                6 => Op::L(rng.below(6)),
                7 => Op::R(rng.below(6)),
                8 | 9 => Op::LW,
                10 | 11 => Op::RW,
                12 => if rng.below(8) == 0 { Op::Clear } else { Op::R(rng.next() as usize) },
                _ => Op::Reset,
            })
            .collect();
        r.case(true, || format!("line {s:?} cursor {at} ops {ops:?}"), || run(&pid, &s, at, &ops));
    }
    r.finish();
}
