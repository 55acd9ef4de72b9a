// crate: og
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
//@include _support.rs
use libs::divvy::ProgressTx;
use ogma::lang::ast::Location;
use ogma::rt::bat::*;
use ogma::lang::Definitions;
use std::path::{Path, PathBuf};
use support::*;

/// What an item is, for the oracle.
#[derive(Clone, Debug, PartialEq)]
enum K {
    /// definition of f<n> giving value v
    Def(usize, u32),
    BadDef,
    Ty(usize),
    /// writes its own file
    Ok(usize),
    /// calls f<n>
    Use(usize, usize),
    Bad,
}
impl K {
    fn code(&self, i: usize) -> String {
        match self {
            K::Def(n, v) => format!("def f{n} () {{ \\ 'v{v}' }}"),
            K::BadDef => format!("def bad{i} Num () {{ no-such-command{i} }} }}"),
            K::Ty(n) => format!("def-ty Ty{n} {{ x:Num }}"),
            K::Ok(n) => format!("\\ 'o{n}' | save file{i}"),
            K::Use(n, _) => format!("f{n} | save file{i}"),
            K::Bad => format!("\\ 'b' | save file{i} | no-such-command"),
        }
    }
    fn is_def(&self) -> bool {
        matches!(self, K::Def(..) | K::BadDef | K::Ty(_))
    }
}

fn mk(ks: &[K], ff: bool, par: bool) -> Batch {
    let mut text = String::new();
    match (ff, par) {
        (true, true) => text.push_str("[fail-fast]\n"),
        (false, false) => text.push_str("[no-parallelise]\n"),
        (true, false) => text.push_str("[no-parallelise fail-fast]\n"),
        _ => (),
    }
    // one item per file: the public way to make an item, and then any order
    let mut items = vec![];
    for (i, k) in ks.iter().enumerate() {
        let b = parse_str(&format!("# item {i}\n{}\n", k.code(i)), Location::Shell);
        match b {
            Ok(b) => items.extend(b.items),
            Err(e) => panic!("cannot parse {:?}: {}", k.code(i), e),
        }
    }
    let b = parse_str(&format!("{text}\n\n"), Location::Shell).unwrap_or_else(|_| panic!("directives"));
    assert_eq!((b.fail_fast, b.parallelise), (ff, par), "directives not taken from the text");
    Batch { items, parallelise: par, fail_fast: ff }
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum O {
    S,
    F,
    Out,
    Can,
}
fn o(x: &Outcome) -> O {
    match x {
        Outcome::Success => O::S,
        Outcome::Failed(_) => O::F,
        Outcome::Outstanding => O::Out,
        Outcome::Cancelled => O::Can,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cancel {
    No,
    Polls(usize),
    Reports(usize),
}

fn run(scratch: &Path, ks: &[K], ff: bool, par: bool, cancel: Cancel) -> Result<(), String> {
    let _ = std::fs::remove_dir_all(scratch);
    std::fs::create_dir_all(scratch).unwrap();
    let b = mk(ks, ff, par);
    if b.items.len() != ks.len() {
        return Err(format!("{} items parsed out of {}", b.items.len(), ks.len()));
    }
    let tx = match cancel {
        Cancel::No => ProgressTx::dummy(),
        Cancel::Polls(n) => ProgressTx::cancelling_after(n),
        Cancel::Reports(n) => ProgressTx::cancelling_after_reports(n),
    };
    let root = scratch.canonicalize().unwrap();
    let r = process(&b, &root, Path::new(""), &tx, Definitions::default());
    if r.len() != ks.len() {
        return Err(format!("{} outcomes for {} items", r.len(), ks.len()));
    }
    let got: Vec<O> = r.iter().map(|x| o(&x.0)).collect();
    let done = |i: usize| matches!(got[i], O::S | O::F);
    // the order of processing
    let order: Vec<usize> = (0..ks.len()).filter(|i| ks[*i].is_def()).chain((0..ks.len()).filter(|i| !ks[*i].is_def())).collect();
    // what processing each item gives, all definitions before it having been made
    let all_defs_done = order.iter().filter(|i| ks[**i].is_def()).all(|i| done(*i));
    let latest = |n: usize| order.iter().filter(|i| done(**i)).filter_map(|i| match &ks[*i] { K::Def(m, v) if *m == n => Some(*v), _ => None }).last();
    let mut tys = vec![];
    for &i in &order {
        if !done(i) {
            continue;
        }
        let want = match &ks[i] {
            K::Def(..) | K::Ok(_) => O::S,
            K::Ty(n) => {
                let _ = tys.push(*n);
                O::S
            }
            K::BadDef | K::Bad => O::F,
            K::Use(n, _) => if latest(*n).is_some() { O::S } else { O::F },
        };
        if got[i] != want {
            return Err(format!("item {i} ({}) gave {:?}, processing it gives {want:?}", ks[i].code(i), r[i].0));
        }
    }
    // effects: exactly the processed expressions ran, with the definitions of this batch
    for (i, k) in ks.iter().enumerate() {
        if k.is_def() {
            continue;
        }
        let f = std::fs::read_to_string(root.join(format!("file{i}"))).ok();
        let want = if !done(i) { None } else {
            match k {
                K::Ok(n) => Some(format!("o{n}")),
                K::Use(n, _) => latest(*n).map(|v| format!("v{v}")),
                _ => None,
            }
        };
        if f != want {
            return Err(format!("item {i} ({}) is {:?} but its file holds {f:?}", k.code(i), got[i]));
        }
    }
    // which items are processed
    let seq = !par;
    let first_fail = order.iter().position(|i| got[*i] == O::F);
    let nproc = order.iter().filter(|i| done(**i)).count();
    let prefix = order.iter().take_while(|i| done(**i)).count();
    let ndefs = order.iter().filter(|i| ks[**i].is_def()).count();
    let can = tx.is_cancelled();
    let rest = if can { O::Can } else { O::Out };
    if let Some(i) = order.iter().find(|i| !done(**i) && got[**i] != rest) {
        return Err(format!("item {i} was not processed and reads {:?}, not {rest:?}", got[*i]));
    }
    if seq || prefix < ndefs {
        if nproc != prefix {
            return Err(format!("items processed out of order: {got:?}"));
        }
    }
    let should_fail = |i: &usize| matches!(ks[*i], K::BadDef | K::Bad) || matches!(ks[*i], K::Use(n, _) if !ks.iter().any(|k| matches!(k, K::Def(m, _) if *m == n)));
    let stop_at = if ff { order.iter().position(should_fail).map(|x| x + 1).unwrap_or(ks.len()) } else { ks.len() };
    match cancel {
        Cancel::No if seq || stop_at <= ndefs => {
            if nproc != stop_at {
                return Err(format!("{nproc} items processed, expected {stop_at}: {got:?}"));
            }
        }
        Cancel::No => {
            if nproc < ks.len() && !(ff && first_fail.is_some()) {
                return Err(format!("items left out though nothing failed under fail-fast and nothing was cancelled: {got:?}"));
            }
        }
        Cancel::Polls(n) => {
            if nproc > n {
                return Err(format!("{nproc} items processed though the switch was on from poll {n} on: {got:?}"));
            }
        }
        Cancel::Reports(n) if seq || n <= ndefs.min(stop_at) => {
            let want = n.min(stop_at);
            // before the first report nothing is known to be cancelled
            if nproc != want {
                return Err(format!("{nproc} items processed, the switch was on after {n} reports (expected {want}): {got:?}"));
            }
        }
        Cancel::Reports(_) => (),
    }
    // progress reports: one per processed item, the last one tells all of them
    let sent = tx.sent.lock().unwrap();
    if sent.len() != nproc {
        return Err(format!("{} progress reports for {nproc} processed items", sent.len()));
    }
    for (k, s) in sent.iter().enumerate() {
        let v: BatchProgress = libs::serde_json::from_str(s).map_err(|e| format!("report does not parse: {e}"))?;
        if v.len() != ks.len() {
            return Err(format!("report of {} items", v.len()));
        }
        let mut c = 0;
        for (i, x) in v.iter().enumerate() {
            let st = match x.status { OutcomeProgress::Success => O::S, OutcomeProgress::Failed => O::F, OutcomeProgress::Outstanding => O::Out, OutcomeProgress::Cancelled => O::Can };
            if x.comment.as_deref() != Some(&format!("item {i}")[..]) || x.ty != b.items[i].ty() || x.line != b.items[i].line {
                return Err(format!("report entry {i} is about another item: {:?} line {}", x.comment, x.line));
            }
            if st != O::Out {
                c += 1;
                if st != got[i] {
                    return Err(format!("report {k} says {st:?} for item {i}, the outcome is {:?}", got[i]));
                }
            }
        }
        if c != k + 1 {
            return Err(format!("report {k} tells {c} finished items"));
        }
    }
    Ok(())
}

fn kinds(r: &mut Rng, n: usize) -> Vec<K> {
    (0..n)
        .map(|_| match r.below(11) {
            0 | 1 => K::Def(r.below(3), r.below(50) as u32),
            2 => K::BadDef,
            3 => K::Ty(r.below(4)),
            4 | 5 | 6 => K::Ok(r.below(90)),
            7 | 8 => K::Use(r.below(3), 0),
            9 => K::Bad,
            _ => K::Ok(1),
        })
        .collect()
}

fn main() {
    let mut rep = Rep::new();
    let dir = PathBuf::from(&rep.scratch).join(format!("b{}", std::process::id()));
    rep.bound("batches of up to 9 items of 6 kinds (definitions, failing definitions, types, expressions that write a file, use a definition, fail), random orders, all four modes, never cancelled / cancelled at poll k / cancelled after k reports");
    let mut r = rep.rng(11);
    let small: Vec<K> = vec![K::Def(0, 1), K::BadDef, K::Ok(0), K::Use(0, 0), K::Bad];
    // all batches of up to 2 items
    let mut all: Vec<Vec<K>> = vec![vec![]];
    for a in &small {
        all.push(vec![a.clone()]);
        for b in &small {
            all.push(vec![a.clone(), b.clone()]);
        }
    }
    for _ in 0..rep.n(220, 3000) {
        let n = 3 + r.below(7);
        all.push(kinds(&mut r, n));
    }
    for ks in all {
        // the same type twice is an error of its own: keep one
        let mut seen = vec![];
        let ks: Vec<K> = ks.into_iter().filter(|k| if let K::Ty(n) = k { if seen.contains(n) { false } else { seen.push(*n); true } } else { true }).collect();
        for (ff, par) in [(false, false), (true, false), (false, true), (true, true)] {
            let c = match r.below(4) {
                0 | 1 => Cancel::No,
                2 => Cancel::Polls(r.below(ks.len() * 2 + 1)),
                _ => Cancel::Reports(r.below(ks.len() + 1)),
            };
            let d = || format!("fail_fast={ff} parallelise={par} cancel={c:?} items={:?}", ks.iter().enumerate().map(|(i, k)| k.code(i)).collect::<Vec<_>>());
            rep.case(ks.len() > 2, d, || run(&dir, &ks, ff, par, c));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    rep.finish()
}
