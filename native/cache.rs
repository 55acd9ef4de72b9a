// crate: og
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
//@include _support.rs
use notify::DebouncedEvent as Ev;
use ogma::lang::{ast::Location, Definitions, Table, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::time::Duration;
use support::*;

// Histories of file changes, reported or not yet reported, and opens.  Everything happens below the
// scratch directory; the watcher is the stand-in which reports what this harness feeds it.

#[derive(Clone, Debug, PartialEq)]
enum Op {
    /// open as text / as a table, by the k-th spelling of the path
    Str(usize, usize),
    Tab(usize, usize),
    /// the file changes (written, removed, or renamed over another)
    Write(usize),
    Remove(usize),
    Rename(usize, usize),
    /// saved by an expression
    Save(usize),
    /// everything that happened so far is reported
    Deliver,
}

const FILES: [&str; 6] = ["f.txt", "F.txt", "d/f.txt", "D/f.txt", "g", "d/ß.csv"];

fn spell(dir: &str, f: usize, k: usize) -> String {
    let f = FILES[f];
    match k % 4 {
        0 => format!("{dir}/{f}"),
        1 => format!("{dir}/./{f}"),
        2 => format!("{dir}/d/../{f}"),
        _ => format!("{dir}/../{dir}/D/../{f}"),
    }
}

fn eval(root: &Path, defs: &Definitions, code: &str) -> Result<Value, String> {
    ogma::rt::process_expression((), code, Location::Shell, defs, root, Path::new("")).map_err(|e| e.to_string())
}

fn feed(evs: Vec<Ev>) {
    let l = notify::EVENTS.lock().unwrap();
    for e in evs {
        l.as_ref().expect("the watcher runs").send(e).unwrap();
    }
    drop(l);
}

/// wait until the watcher has consumed everything fed so far and acted on it
fn settle() {
    for _ in 0..3 {
        let a = std::sync::Arc::new(());
        feed(vec![Ev::Error(notify::Error(a.clone()), None)]);
        for _ in 0..4000 {
            if std::sync::Arc::strong_count(&a) == 1 {
                break;
            }
            std::thread::sleep(Duration::from_millis(3));
        }
        std::thread::sleep(Duration::from_millis(7));
    }
}

fn text(v: &Value) -> Option<String> {
    match v {
        Value::Str(s) => Some(s.to_string()),
        Value::Tab(t) => {
            let mut rs = Vec::new();
            for r in t.rows() {
                let c: Vec<String> = r.map(|e| match e { table::Entry::Obj(Value::Str(s)) => s.to_string(), table::Entry::Num(n) => format!("{}", n), _ => "?".into() }).collect();
                rs.push(c.join(","));
            }
            Some(rs.join("\n"))
        }
        _ => None,
    }
}

fn run(root: &Path, dir: &str, ops: &[Op]) -> Result<(), String> {
    let defs = Definitions::default();
    let base = root.join(dir);
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(base.join("d")).unwrap();
    std::fs::create_dir_all(base.join("D")).unwrap();
    // what each file may read as: its content now, and earlier ones not yet reported as changed
    let mut now: Vec<Option<String>> = vec![None; FILES.len()];
    let mut old: Vec<BTreeSet<String>> = vec![BTreeSet::new(); FILES.len()];
    let mut evs = Vec::new();
    let mut n = 0;
    for f in 0..FILES.len() {
        let s = format!("h{f}x{n},{dir}\na,b");
        std::fs::write(base.join(FILES[f]), &s).unwrap();
        evs.push(Ev::Create(base.join(FILES[f])));
        now[f] = Some(s);
    }
    feed(std::mem::take(&mut evs));
    settle();
    for (i, op) in ops.iter().enumerate() {
        n += 1;
        match op {
            Op::Str(f, k) | Op::Tab(f, k) => {
                let tab = matches!(op, Op::Tab(..));
                let p = spell(dir, *f, *k);
                let r = eval(root, &defs, &format!("open {}'{p}'", if tab { "" } else { "--Str " }));
                match (r, &now[*f]) {
                    (Ok(v), now) => {
                        let t = text(&v).ok_or("open gave another type")?;
                        if matches!(v, Value::Tab(_)) != tab {
                            return Err(format!("step {i}: open gave another type"));
                        }
                        if Some(&t) != now.as_ref() && !old[*f].contains(&t) {
                            return Err(format!("step {i}: open {p:?} gave {t:?}, the file holds {now:?}"));
                        }
                    }
                    (Err(e), Some(x)) => return Err(format!("step {i}: open {p:?} failed ({e}), the file holds {x:?}")),
                    (Err(_), None) => (),
                }
            }
            Op::Write(f) => {
                let s = format!("h{f}x{n},{dir}\na,b");
                std::fs::write(base.join(FILES[*f]), &s).unwrap();
                evs.push(if now[*f].is_none() { Ev::Create(base.join(FILES[*f])) } else { Ev::Write(base.join(FILES[*f])) });
                old[*f].extend(now[*f].replace(s));
            }
            Op::Save(f) => {
                let s = format!("s{f}x{n}");
                eval(root, &defs, &format!("\\ '{s}' | save '{dir}/{}'", FILES[*f])).map_err(|e| format!("step {i}: save failed: {e}"))?;
                evs.push(if now[*f].is_none() { Ev::Create(base.join(FILES[*f])) } else { Ev::Write(base.join(FILES[*f])) });
                old[*f].extend(now[*f].replace(s));
            }
            Op::Remove(f) => {
                if now[*f].is_some() {
                    std::fs::remove_file(base.join(FILES[*f])).unwrap();
                    evs.push(Ev::Remove(base.join(FILES[*f])));
                    old[*f].extend(now[*f].take());
                }
            }
            Op::Rename(a, b) => {
                if a != b && now[*a].is_some() {
                    std::fs::rename(base.join(FILES[*a]), base.join(FILES[*b])).unwrap();
                    evs.push(Ev::Rename(base.join(FILES[*a]), base.join(FILES[*b])));
                    let x = now[*a].take();
                    old[*a].extend(x.clone());
                    old[*b].extend(now[*b].take());
                    now[*b] = x;
                }
            }
            Op::Deliver => {
                // unrelated reports in between
                let mut v = vec![Ev::NoticeWrite(base.join("g")), Ev::Rescan];
                v.append(&mut evs);
                v.push(Ev::Chmod(base.join("g")));
                feed(v);
                settle();
                old.iter_mut().for_each(|x| x.clear());
            }
        }
    }
    Ok(())
}

/// An open that is still reading the file when the file is replaced (a pipe stands in for a file
/// that takes long to read): what it read must not be given out once the change was reported.
fn reading_while_replaced(root: &Path, dir: &str, tab: bool) -> Result<(), String> {
    let base = root.join(dir);
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();
    let p = base.join("slow.txt");
    if !std::process::Command::new("mkfifo").arg(&p).status().map(|x| x.success()).unwrap_or(false) {
        return Ok(());
    }
    let flag = if tab { "" } else { "--Str " };
    let code = format!("open {flag}'{dir}/slow.txt'");
    let (r2, c2) = (root.to_path_buf(), code.clone());
    let t = std::thread::spawn(move || eval(&r2, &Definitions::default(), &c2).map(|v| text(&v)));
    // opening the pipe for writing succeeds once the open has it for reading
    let mut w = None;
    for _ in 0..600 {
        use std::os::unix::fs::OpenOptionsExt;
        w = std::fs::OpenOptions::new().write(true).custom_flags(0o4000).open(&p).ok();
        if w.is_some() || t.is_finished() {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut w = match w {
        Some(w) => w,
        None => return Ok(()), // it does not read pipes
    };
    std::fs::rename(&p, base.join("moved")).unwrap();
    std::fs::write(&p, "new,x").unwrap();
    feed(vec![Ev::Rename(p.clone(), base.join("moved")), Ev::Create(p.clone())]);
    settle();
    use std::io::Write;
    w.write_all(b"old,x").unwrap();
    drop(w);
    let _ = t.join();
    let v = eval(root, &Definitions::default(), &code)?;
    if text(&v).as_deref() != Some("new,x") {
        return Err(format!("the file was replaced and that was reported, yet open gave {:?}", text(&v)));
    }
    Ok(())
}

fn main() {
    let mut rep = Rep::new();
    let scratch = PathBuf::from(&rep.scratch).canonicalize().unwrap();
    let root = scratch.join(format!("c{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    rep.bound("histories of up to 12 steps over 6 files (names differing by case, in directories differing by case) by 4 spellings: opens as text and as a table, writes, saves, removals, renames, reports; an open overtaken by a change");
    // starts the watcher
    let _ = eval(&root, &Definitions::default(), "\\ 1");
    while notify::EVENTS.lock().unwrap().is_none() {
        std::thread::sleep(Duration::from_millis(5));
    }
    for tab in [false, true] {
        rep.case(true, || format!("an open (as table: {tab}) overtaken by a change of its file"), || reading_while_replaced(&root, &format!("slow{tab}"), tab));
    }
    let mut hs: Vec<Vec<Op>> = Vec::new();
    for f in 0..FILES.len() {
        for ch in [Op::Write(f), Op::Save(f), Op::Remove(f), Op::Rename((f + 1) % 6, f), Op::Rename(f, (f + 1) % 6)] {
            for (a, b) in [(Op::Str(f, 0), Op::Str(f, 2)), (Op::Tab(f, 1), Op::Tab(f, 0)), (Op::Str(f, 0), Op::Tab(f, 0)), (Op::Tab(f, 3), Op::Str(f, 1))] {
                hs.push(vec![a.clone(), ch.clone(), Op::Deliver, b.clone(), a.clone()]);
            }
            // the reported change is followed by one that is not reported
            hs.push(vec![Op::Str(f, 0), Op::Tab(f, 0), ch.clone(), Op::Deliver, Op::Write(f), Op::Str(f, 0), Op::Tab(f, 0)]);
            hs.push(vec![Op::Str((f + 1) % 6, 0), Op::Str(f, 0), ch.clone(), Op::Deliver, Op::Str((f + 1) % 6, 0), Op::Str(f, 0)]);
        }
        for g in 0..FILES.len() {
            hs.push(vec![Op::Str(f, 0), Op::Str(g, 0), Op::Tab(f, 0), Op::Tab(g, 0)]);
        }
    }
    let mut r = rep.rng(7);
    for _ in 0..rep.n(250, 6000) {
        let n = 4 + r.below(9);
        hs.push((0..n).map(|_| {
            let (f, k) = (r.below(FILES.len()), r.below(4));
            match r.below(12) { 0..=2 => Op::Str(f, k), 3..=5 => Op::Tab(f, k), 6 => Op::Write(f), 7 => Op::Remove(f), 8 => Op::Rename(f, r.below(FILES.len())), 9 => Op::Save(f), _ => Op::Deliver }
        }).collect());
    }
    // the opens sleep: run many histories at a time, each in its own directory
    let hs = std::sync::Arc::new(hs);
    let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let ts: Vec<_> = (0..24).map(|t| {
        let (hs, next, root) = (hs.clone(), next.clone(), root.clone());
        std::thread::spawn(move || {
            let mut out = Vec::new();
            loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= hs.len() { break; }
                let r = std::panic::catch_unwind(|| run(&root, &format!("t{t}"), &hs[i])).unwrap_or_else(|e| Err(format!("panicked: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())));
                out.push((i, r));
            }
            out
        })
    }).collect();
    let mut all: Vec<_> = ts.into_iter().flat_map(|t| t.join().unwrap()).collect();
    all.sort_by_key(|x| x.0);
    for (i, r) in all {
        rep.case(hs[i].contains(&Op::Deliver), || format!("{:?}", hs[i]), || r);
    }
    let _ = std::fs::remove_dir_all(&root);
    rep.finish()
}
