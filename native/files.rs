// crate: og
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
//@include _support.rs
use ogma::lang::ast::Location;
use ogma::lang::parse::{self, Directive, File, Item, Prefix};
use ogma::rt::bat::*;
use std::path::{Path, PathBuf};
use support::*;

/// An item as it should be read.
#[derive(Clone, Debug, PartialEq)]
struct Want {
    kind: char,
    name: Option<String>,
    doc: Option<String>,
    code: String,
    line: usize,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct Outline {
    doc: Option<String>,
    dirs: Vec<String>,
    items: Vec<Want>,
}

/// Lines of directives and what they say (None: not accepted).
fn directive_lines() -> Vec<(&'static str, Option<Vec<&'static str>>)> {
    vec![
        ("[fail-fast]", Some(vec!["fail-fast"])),
        ("[no-parallelise]", Some(vec!["no-parallelise"])),
        ("[fail-fast no-parallelise]", Some(vec!["fail-fast", "no-parallelise"])),
        ("[no-parallelise fail-fast fail-fast]", Some(vec!["no-parallelise", "fail-fast", "fail-fast"])),
        ("[ fail-fast ]", Some(vec!["fail-fast"])),
        ("  [fail-fast  no-parallelise]", Some(vec!["fail-fast", "no-parallelise"])),
        ("[import(foo)]", Some(vec!["import(foo)"])),
        ("[import(/foo/bar/* //zog)]", Some(vec!["import(/foo/bar/*,//zog)"])),
        ("[fail-fast import(../x) export(a-* b)]", Some(vec!["fail-fast", "import(../x)", "export(a-*,b)"])),
        ("[export(*)]", Some(vec!["export(*)"])),
        ("[fail-fast no-such]", None),
        ("[fail-fast", None),
        ("[fail-fast] x", None),
    ]
}
fn tell(d: &Directive) -> String {
    match d {
        Directive::NoParallelise => "no-parallelise".into(),
        Directive::FailFast => "fail-fast".into(),
        Directive::Import(v) => format!(
            "import({})",
            v.iter()
                .map(|i| {
                    let p = match i.prefix { Prefix::None => "", Prefix::Root => "/", Prefix::Plugins => "//" };
                    let mut s = p.to_string();
                    for x in &i.path {
                        s += &format!("{x}/");
                    }
                    s + &i.glob.to_string()
                })
                .collect::<Vec<_>>()
                .join(",")
        ),
        Directive::Export(v) => format!("export({})", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
    }
}
/// The name of a definition, by the pool's lines.
fn name(code: &str) -> Option<String> {
    let w = code.split_whitespace().nth(1)?;
    let w = w.trim_end_matches("()");
    if w.is_empty() || w.starts_with(|c| "(){}<>\\".contains(c)) { None } else { Some(w.to_string()) }
}

/// What the text says, line by line.
fn oracle(text: &str) -> Option<Outline> {
    let mut lines: Vec<&str> = text.split('\n').collect();
    let ended = lines.last() == Some(&"");
    if ended {
        lines.pop();
    }
    let blank = |i: usize| lines[i].trim().is_empty();
    let hashed = |i: usize| lines[i].trim().starts_with('#');
    let said = |i: usize| lines[i].trim()[1..].trim().to_string();
    let docs = |v: Vec<String>| { let s = v.join("\n"); if s.is_empty() { None } else { Some(s) } };
    let n = lines.len();
    let mut i = 0;
    let mut o = Outline::default();
    while i < n && blank(i) {
        i += 1;
    }
    let mut head = vec![];
    while i < n && hashed(i) {
        head.push(said(i));
        i += 1;
    }
    let commented = !head.is_empty();
    let head = docs(head);
    loop {
        let mut j = i;
        while j < n && blank(j) {
            j += 1;
        }
        if j >= n || !lines[j].trim_start().starts_with('[') {
            break;
        }
        let l = lines[j].strip_suffix('\r').unwrap_or(lines[j]);
        if l.trim() == "[no-such]" || l.trim() == "[]" {
            break; // no directive: the expression it is will fail
        }
        let known = directive_lines().into_iter().find(|(x, _)| *x == l);
        match known {
            Some((_, Some(ds))) if j + 1 < n || ended => o.dirs.extend(ds.iter().map(|x| x.to_string())),
            _ => return None,
        }
        i = j + 1;
    }
    let mut own = if commented && o.dirs.is_empty() && i < n && !blank(i) { Some(head.clone()) } else { None };
    o.doc = if own.is_some() { None } else { head };
    while i < n {
        if blank(i) {
            i += 1;
            continue;
        }
        let mut doc = vec![];
        while i < n && hashed(i) {
            doc.push(said(i));
            i += 1;
        }
        let at = i;
        let mut code = vec![];
        while i < n && !blank(i) {
            code.push(lines[i]);
            i += 1;
        }
        let doc = match own.take() { Some(d) => d, None => docs(doc) };
        if code.is_empty() {
            continue;
        }
        let code = code.join("\n").trim().to_string();
        let kind = if code.starts_with("def-ty ") { 't' } else if code.starts_with("def ") { 'i' } else { 'e' };
        let nm = if kind == 'e' { None } else { Some(name(&code)?) };
        if at + 1 > 65535 {
            return None;
        }
        o.items.push(Want { kind, name: nm, doc, code, line: at + 1 });
    }
    Some(o)
}

fn told(f: &File) -> Outline {
    let w = |kind: char, name: Option<String>, i: &Item| Want { kind, name, doc: i.doc.clone(), code: i.code.clone(), line: i.line as usize };
    let mut items: Vec<Want> = f.types.iter().map(|(n, i)| w('t', Some(n.clone()), i)).collect();
    items.extend(f.impls.iter().map(|(n, i)| w('i', Some(n.clone()), i)));
    items.extend(f.exprs.iter().map(|i| w('e', None, i)));
    Outline { doc: f.doc.clone(), dirs: f.directives.iter().map(tell).collect(), items }
}
/// types, then implementations, then expressions, each in the order they stand in
fn sorted(mut o: Outline) -> Outline {
    o.items.sort_by_key(|w| "tie".find(w.kind));
    o
}
fn same_batch(b: &Batch, want: &Outline, file: &Path) -> Result<(), String> {
    if b.items.len() != want.items.len() {
        return Err(format!("batch of {} items, the text holds {}", b.items.len(), want.items.len()));
    }
    if b.fail_fast != want.dirs.iter().any(|x| x == "fail-fast") || b.parallelise == want.dirs.iter().any(|x| x == "no-parallelise") {
        return Err(format!("fail_fast={} parallelise={} under the directives {:?}", b.fail_fast, b.parallelise, want.dirs));
    }
    for (x, w) in b.items.iter().zip(&want.items) {
        let k = match x.ty() { ItemType::Type => 't', ItemType::Impl => 'i', ItemType::Expr => 'e' };
        if k != w.kind || x.code() != w.code || x.comment != w.doc || x.line as usize != w.line || &*x.file != file {
            return Err(format!("batch item {x:?}, the text has {w:?} in {}", file.display()));
        }
    }
    Ok(())
}
fn run(text: &str, disk: Option<&Path>) -> Result<(), String> {
    let want = oracle(text).map(sorted);
    let got = parse::file(text, Location::Shell);
    match (&got, &want) {
        (Ok(f), Some(w)) => {
            let g = told(f);
            if g != *w {
                return Err(format!("read as {g:?}, the text says {w:?}"));
            }
        }
        (Err(_), None) => (),
        (Ok(f), None) => return Err(format!("accepted as {:?}", told(f))),
        (Err(e), Some(w)) => return Err(format!("refused: {} -- the text says {w:?}", e.desc)),
    }
    match (parse_str(text, Location::Shell), &want) {
        (Ok(b), Some(w)) => same_batch(&b, w, Path::new("."))?,
        (Err(_), None) => (),
        (r, _) => return Err(format!("as a batch: accepted={}", r.is_ok())),
    }
    if let Some(p) = disk {
        std::fs::write(p, text).unwrap();
        match (parse_file(p), &want) {
            (Ok(Ok(b)), Some(w)) => same_batch(&b, w, p)?,
            (Ok(Err(_)), None) => (),
            (r, _) => return Err(format!("from a file: read={} accepted={:?}", r.is_ok(), r.map(|r| r.is_ok()))),
        }
        std::fs::remove_file(p).unwrap();
        if parse_file(p).is_ok() {
            return Err("a file that is not there was read".into());
        }
    }
    Ok(())
}

fn lines(r: &mut Rng, dirs: bool) -> Vec<String> {
    let n = r.below(14);
    let plain = [
        "", "", "", "", "   ", "\t", "\r", " \r", "\u{a0}", "# a comment", "#b", "  #  c  ", "#", "##", "# def x", "# é ü", "ls", "ls | len", "def foo () { ls }", "  def foo() { + 1 }", "def-ty Foo { x:Num }", "def-ty Bar :: A | B", "def-ty Zog ::", "default 3", "define", "def-typo", "def",
        "def-ty", "def\tbar () { }", "open x.csv \\", "  | len", "} # no comment", "ünï | x", "x # y", "range 1 5\r", "# c\r", "def boo () { ls }\r", "  ls   ", "def bar (x y) {", "'a string", "with # inside'", "[no-such]", "[]",
    ];
    let bad = ["def ( ) { }", "def-ty { }", "def-ty ( x"];
    let mut v = vec![];
    for _ in 0..n {
        v.push(if r.below(60) == 0 { r.pick(&bad).to_string() } else { r.pick(&plain).to_string() });
    }
    if dirs {
        let d = directive_lines();
        for _ in 0..1 + r.below(3) {
            let at = if r.below(8) == 0 { r.below(v.len() + 1) } else { r.below(v.len().min(3) + 1) };
            let k = if r.below(12) == 0 { r.below(d.len()) } else { r.below(10) };
            v.insert(at, d[k].0.to_string() + if r.below(8) == 0 { "\r" } else { "" });
        }
    }
    v
}

fn main() {
    let mut rep = Rep::new();
    let dir = PathBuf::from(&rep.scratch).join(format!("f{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let disk = dir.join("file.ogma");
    rep.bound("texts of up to 17 lines out of 45 kinds (blank, comment, expression, definition, directive, refused ones; tabs, carriage returns, non-ascii), all texts of up to 4 lines of 7 kinds, with and without a final line break, and texts with items around line 65535");
    let mut r = rep.rng(23);
    let small = ["", " ", "# a", "ls", "def foo () { }", "[fail-fast]", "#"];
    let mut all: Vec<String> = vec![];
    let mut cur: Vec<Vec<&str>> = vec![vec![]];
    for _ in 0..4 {
        let mut next = vec![];
        for c in &cur {
            for s in small {
                let mut x = c.clone();
                x.push(s);
                next.push(x);
            }
        }
        for x in &next {
            all.push(x.join("\n"));
        }
        cur = next;
    }
    for _ in 0..rep.n(3000, 60000) {
        let d = r.below(3) == 0;
        let mut t = lines(&mut r, d).join("\n");
        match r.below(4) {
            0 => (),
            1 => t += "\n\n",
            _ => t += "\n",
        }
        all.push(t);
    }
    for k in [65533usize, 65534, 65535, 65536] {
        all.push(format!("# c\nls{}# d\nfoo", "\n".repeat(k - 1)));
        all.push(format!("{}ls", "\n".repeat(k)));
        all.push(format!("ls\n{}# only comments", "\n".repeat(k)));
        all.push(format!("ls\n{}def foo () {{ }}", "\n".repeat(k - 1)));
    }
    for (k, t) in all.iter().enumerate() {
        let d = || if t.len() > 2000 { format!("{} lines, {:?}..{:?}", t.lines().count(), &t[..20], &t[t.len() - 20..]) } else { format!("{t:?}") };
        let on_disk = k % 8 == 0;
        rep.case(t.lines().count() > 2, d, || run(t, if on_disk { Some(&disk) } else { None }));
    }
    let _ = std::fs::remove_dir_all(&dir);
    rep.finish()
}
