// crate: og
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
//@include _support.rs
use ogma::lang::{ast::Location, Definitions, Table, Value};
use std::collections::BTreeMap;
use std::path::{Component, Path, PathBuf};
use support::*;

// All of this happens below the scratch directory: the root is four levels down in it, no tried
// path climbs more than three levels, absolute paths name places inside the scratch directory.

/// contents of everything below `d`
fn snap(d: &Path, at: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            out.insert(p.strip_prefix(at).unwrap().to_path_buf(), None);
            snap(&p, at, out);
        } else {
            out.insert(p.strip_prefix(at).unwrap().to_path_buf(), std::fs::read(&p).ok());
        }
    }
}

/// components of `p` below the base, `None` if one of them climbs above the base
fn lexical(base: &[String], p: &str) -> (Vec<String>, bool) {
    let mut v = base.to_vec();
    let mut below = true;
    for c in p.split('/') {
        match c {
            "" | "." => (),
            ".." => {
                if v.pop().is_none() {
                    below = false;
                }
            }
            c => v.push(c.into()),
        }
    }
    (v, below)
}

struct W {
    base: PathBuf,
    root: PathBuf,
    defs: Definitions,
}

fn setup(base: &Path) -> W {
    let _ = std::fs::remove_dir_all(base);
    let root = base.join("l1/l2/l3/root");
    for (d, fs) in [
        ("", vec!["o.txt", "a"]), ("l1", vec!["o.txt", "f.txt"]), ("l1/l2", vec!["o.txt", "f.txt"]), ("l1/l2/l3", vec!["o.txt", "f.txt"]),
        ("l1/l2/l3/root2", vec!["f.txt", "o.txt"]), ("l1/l2/l3/rootx", vec!["f.txt"]), ("l1/l2/l3/rootd", vec!["f.txt", "F.txt"]),
        ("l1/l2/l3/root", vec!["f.txt"]), ("l1/l2/l3/root/d", vec!["f.txt", "F.txt"]), ("l1/l2/l3/root/d/e", vec!["f.txt"]),
        ("l1/l2/l3/root/root", vec!["f.txt"]),
        // the process' own directory
        ("cwd", vec!["f.txt", "o.txt"]), ("cwd/d", vec!["f.txt"]),
    ] {
        std::fs::create_dir_all(base.join(d)).unwrap();
        for f in fs {
            let p = base.join(d).join(f);
            std::fs::write(&p, format!("h-{d}-{f},x\n1,2").replace('/', "_")).unwrap();
        }
    }
    std::env::set_current_dir(base.join("cwd")).unwrap();
    W { base: base.to_path_buf(), root: root.canonicalize().unwrap(), defs: Definitions::default() }
}

fn eval(w: &W, root: &Path, wd: &str, code: &str) -> Result<Value, String> {
    ogma::rt::process_expression((), code, Location::Shell, &w.defs, root, Path::new(wd)).map_err(|e| e.to_string())
}

fn q(p: &str) -> String {
    format!("'{p}'")
}

fn text(v: &Value) -> String {
    match v {
        Value::Str(s) => s.to_string(),
        _ => "?".into(),
    }
}

fn names(v: &Value) -> Vec<String> {
    match v {
        Value::Tab(t) => {
            let mut v: Vec<String> = t.rows().skip(1).filter_map(|mut r| r.next().map(|e| match e { table::Entry::Obj(v) => text(v), _ => "?".into() })).collect();
            v.sort();
            v
        }
        _ => vec!["?".into()],
    }
}

/// the place a path leads to, if it is inside the root (no symbolic links anywhere)
fn resolve(w: &W, wd: &[String], p: &str) -> (Option<PathBuf>, bool, bool) {
    if p.starts_with('/') {
        // an absolute path names its own place
        let c = PathBuf::from(p);
        let mut v = PathBuf::new();
        for x in c.components() {
            match x {
                Component::ParentDir => { v.pop(); }
                Component::CurDir => (),
                x => v.push(x),
            }
        }
        let inside = v.starts_with(&w.root);
        return (if inside { Some(v) } else { None }, inside, false);
    }
    // resolve from the scratch base so that paths may climb out and back in
    let rel: Vec<String> = w.root.strip_prefix(&w.base).unwrap().components().map(|c| c.as_os_str().to_str().unwrap().to_string()).chain(wd.iter().cloned()).collect();
    let (v, ok) = lexical(&rel, p);
    assert!(ok, "test paths stay inside the scratch directory");
    let full = v.iter().fold(w.base.clone(), |a, b| a.join(b));
    let inside = full.starts_with(&w.root);
    let (_, below) = lexical(wd, p);
    (if inside { Some(full) } else { None }, inside, below)
}

fn one(w: &W, root: &Path, wd: &str, p: &str, op: usize, uniq: usize) -> Result<(), String> {
    let wdv: Vec<String> = wd.split('/').filter(|x| !x.is_empty() && *x != ".").map(|x| x.to_string()).collect();
    let (place, inside, below) = resolve(w, &wdv, p);
    let outside_of = |m: &BTreeMap<PathBuf, Option<Vec<u8>>>| -> BTreeMap<PathBuf, Option<Vec<u8>>> {
        let r = w.root.strip_prefix(&w.base).unwrap();
        m.iter().filter(|(k, _)| !k.starts_with(r)).map(|(k, v)| (k.clone(), v.clone())).collect()
    };
    match op {
        0 => {
            let r = eval(w, root, wd, &format!("open --Str {}", q(p)));
            match (&place, &r) {
                (None, Ok(v)) => return Err(format!("open read {:?} though the path leaves the root", text(v))),
                (Some(f), Ok(v)) => {
                    let want = std::fs::read_to_string(f).map_err(|e| format!("open gave {:?} for a file that does not exist", text(v)))?;
                    if text(v) != want {
                        return Err(format!("open gave {:?}, the file {f:?} holds {want:?}", text(v)));
                    }
                }
                (Some(f), Err(e)) => {
                    if f.is_file() && !p.ends_with('/') && std::fs::canonicalize(w.root.join(wd).join(p)).is_ok() {
                        return Err(format!("open failed on a file inside the root: {e}"));
                    }
                }
                (None, Err(_)) => (),
            }
            // as a table: the header tells which file was read
            let r = eval(w, root, wd, &format!("open {} | ls", q(p)));
            match (&place, &r) {
                (None, Ok(v)) => return Err(format!("open read the table {:?} though the path leaves the root", names(v))),
                (Some(f), Ok(v)) => {
                    let want = std::fs::read_to_string(f).map_err(|e| format!("open gave a table for a file that does not exist"))?;
                    let h = want.split(',').next().unwrap_or("").to_string();
                    if !names(v).contains(&h) {
                        return Err(format!("open gave the table of {:?}, the file {f:?} has header {h:?}", names(v)));
                    }
                }
                _ => (),
            }
        }
        1 => {
            let r = eval(w, root, wd, &format!("ls {}", q(p)));
            match (&place, &r) {
                (None, Ok(v)) => return Err(format!("ls listed {:?} though the path leaves the root", names(v))),
                (Some(f), Ok(v)) => {
                    let mut want: Vec<String> = std::fs::read_dir(f).map_err(|e| format!("ls listed {:?} for something that is no directory", names(v)))?.flatten().map(|e| e.file_name().to_str().unwrap().to_string()).collect();
                    want.sort();
                    if names(v) != want {
                        return Err(format!("ls listed {:?}, the directory {f:?} holds {want:?}", names(v)));
                    }
                }
                (Some(f), Err(e)) => {
                    if f.is_dir() && std::fs::canonicalize(w.root.join(wd).join(p)).is_ok() {
                        return Err(format!("ls failed on a directory inside the root: {e}"));
                    }
                }
                _ => (),
            }
        }
        _ => {
            let mut before = BTreeMap::new();
            snap(&w.base, &w.base, &mut before);
            let s = format!("saved{uniq}");
            let r = eval(w, root, wd, &format!("\\ '{s}' | save {}", q(p)));
            let mut after = BTreeMap::new();
            snap(&w.base, &w.base, &mut after);
            if outside_of(&before) != outside_of(&after) {
                let d: Vec<_> = outside_of(&after).into_iter().filter(|(k, v)| before.get(k) != Some(v)).map(|x| x.0).collect();
                return Err(format!("save ({}) changed {d:?} outside the root", if r.is_ok() { "succeeded" } else { "failed" }));
            }
            match (&place, &r) {
                (None, Ok(_)) => return Err("save succeeded though the path leaves the root".into()),
                (Some(f), Ok(_)) => {
                    if std::fs::read_to_string(f).ok() != Some(s.clone()) {
                        return Err(format!("save succeeded, but {f:?} holds {:?}", std::fs::read_to_string(f)));
                    }
                    let fr = f.strip_prefix(&w.base).unwrap();
                    for (k, v) in &after {
                        if k != fr && v.is_some() && before.get(k) != Some(v) {
                            return Err(format!("save changed {k:?} too"));
                        }
                    }
                    for k in before.keys() {
                        if !after.contains_key(k) {
                            return Err(format!("save removed {k:?}"));
                        }
                    }
                }
                (Some(f), Err(e)) => {
                    // a plain path below the working directory to something that is not a directory
                    if below && !p.contains("..") && !p.starts_with('/') && !p.is_empty() && !p.ends_with('/') && p != "." && !p.ends_with("/.") && !f.is_dir() && f.ancestors().skip(1).all(|a| !a.is_file()) {
                        return Err(format!("save failed on a path inside the root: {e}"));
                    }
                    for (k, v) in &after {
                        if v.is_some() && before.get(k) != Some(v) {
                            return Err(format!("save failed but changed {k:?}"));
                        }
                    }
                }
                _ => (),
            }
        }
    }
    Ok(())
}

fn main() {
    let mut rep = Rep::new();
    let scratch = PathBuf::from(&rep.scratch).canonicalize().unwrap();
    let base = scratch.join(format!("p{}", std::process::id()));
    let w = setup(&base);
    rep.bound("paths of up to 4 components out of names of files and directories inside and outside the root, `..` (at most three), `.`, empty; relative and absolute; working directories at three depths; absolute and relative root; no symbolic links");
    let comps = ["..", "d", "e", "f.txt", ".", "", "root2", "rootd", "new", "o.txt", "root", "..d", "F.txt"];
    let mut paths: Vec<String> = vec!["".into()];
    for a in comps {
        paths.push(a.into());
        for b in comps {
            paths.push(format!("{a}/{b}"));
            for c in comps {
                paths.push(format!("{a}/{b}/{c}"));
            }
        }
    }
    let mut r = rep.rng(5);
    for _ in 0..rep.n(1500, 20000) {
        let n = 4 + r.below(3);
        let v: Vec<&str> = (0..n).map(|_| *r.pick(&comps)).collect();
        paths.push(v.join("/"));
    }
    // no climbing further than the scratch directory allows, nothing that starts at the real root
    paths.retain(|p| p.matches("..").count() <= 3 && !p.starts_with('/'));
    for t in ["l1/l2/l3/o.txt", "l1/l2/l3/root2/f.txt", "l1/l2/l3/root2/new", "l1/l2/l3/root/../o.txt", "l1/l2/l3/root/d/../../x.txt", "l1/l2/l3/rootx/f.txt", "l1/l2/l3/rootd/f.txt", "l1/l2/l3/rootd", "l1/l2/l3/rootx", "l1/l2/l3/root", "l1/l2/l3/root/d/f.txt", "l1/l2/l3", "cwd/f.txt"] {
        paths.push(base.join(t).display().to_string());
    }
    let rel_root = PathBuf::from("../l1/l2/l3/root");
    // a quarter of the longer ones suffices each time
    let quick = !rep.thorough;
    let mut n = 0;
    // opens sleep 25 ms each in the cache: fewer of them
    for op in [1usize, 2, 0] {
        // opens look at files that no save has touched
        let w = setup(&base);
        for p in &paths {
            for (k, wd) in ["", "d", "d/e", "."].iter().enumerate() {
                let deep = p.matches('/').count() >= 2;
                let skip = if op == 0 { if deep { 61 } else { 7 } } else if deep { 9 } else { 1 };
                if quick && r.below(skip) != 0 && !p.starts_with('/') {
                    continue;
                }
                if !quick && op == 0 && r.below(7) != 0 {
                    continue;
                }
                if rep.full() {
                    continue;
                }
                n += 1;
                let rel = n % 3 == 0;
                let root: &Path = if rel { &rel_root } else { &w.root };
                let uniq = n;
                let d = || format!("{} {:?} in root l1/l2/l3/root, working directory {wd:?}, {} root", ["open", "ls", "save"][op], p.replace(&base.display().to_string(), "<scratch>"), if rel { "relative" } else { "absolute" });
                rep.case(p.contains(".."), d, || one(&w, root, wd, p, op, uniq));
            }
        }
    }
    std::env::set_current_dir(&scratch).unwrap();
    let _ = std::fs::remove_dir_all(&base);
    rep.finish()
}
