// crate: og
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
//@include _support.rs
use ogma::lang::{ast::Location, process_definition, Definitions, Table, Value};
use std::path::{Path, PathBuf};
use support::*;
use table::Entry;

// Everything saved goes into a directory below the scratch directory, by names this file makes up.

#[derive(Clone, PartialEq, Debug)]
enum C { Nil, B(bool), N(f64), S(String), T(Vec<Vec<C>>), O(String) }
type Tb = Vec<Vec<C>>;
fn s(x: &str) -> C { C::S(x.into()) }
fn entry(c: &C) -> Entry<Value> {
    match c {
        C::Nil => Entry::Nil,
        C::N(n) => Entry::Num(kserd::Number::from(*n)),
        c => Entry::Obj(value(c)),
    }
}
fn value(c: &C) -> Value {
    match c {
        C::Nil | C::O(_) => Value::Nil,
        C::B(b) => Value::Bool(*b),
        C::N(n) => Value::Num(kserd::Number::from(*n)),
        C::S(s) => Value::Str(s.as_str().into()),
        C::T(t) => Value::Tab(tab(t)),
    }
}
fn tab(t: &Tb) -> Table { Table::from(table::Table::from(t.iter().map(|r| r.iter().map(entry).collect::<Vec<_>>()).collect::<Vec<_>>())) }
fn back(v: &Value) -> C {
    match v {
        Value::Nil => C::Nil,
        Value::Bool(b) => C::B(*b),
        Value::Num(n) => C::N(n.as_f64()),
        Value::Str(s) => C::S(s.to_string()),
        Value::Tab(t) => C::T(t.rows().map(|r| r.map(|e| match e { Entry::Nil => C::Nil, Entry::Num(n) => C::N(n.as_f64()), Entry::Obj(v) => back(v) }).collect()).collect()),
        Value::TabRow(_) => C::O("row".into()),
        Value::Ogma(d) => C::O(format!("{}{:?}", d.ty().name(), d.data().iter().map(back).collect::<Vec<_>>())),
    }
}
/// the text a cell is shown as
fn shown(c: &C) -> String {
    match c {
        C::Nil => "-".into(),
        C::B(b) => b.to_string(),
        C::N(n) => numfmt::Formatter::new().fmt(*n).to_string(),
        C::S(s) => s.clone(),
        C::T(t) => format!("<table [{},{}]>", t.len(), t.first().map(|r| r.len()).unwrap_or(0)),
        C::O(s) => s.clone(),
    }
}
/// the text a value is saved as
fn saved(c: &C) -> String {
    match c {
        C::T(t) => t.iter().map(|r| r.iter().map(|c| {
            if *c == C::Nil { return String::new(); }
            let x = shown(c);
            if x.chars().any(|c| [',', '"', '\r', '\n'].contains(&c)) { format!("\"{}\"", x.escape_debug()) } else { x }
        }).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join("\n"),
        c => shown(c),
    }
}
fn eval<I: ogma::lang::AsType + Into<Value> + 'static>(i: I, code: &str, defs: &Definitions, root: &Path) -> Result<Value, String> {
    ogma::rt::process_expression(i, code, Location::Shell, defs, root, Path::new("")).map_err(|e| e.to_string())
}
fn eval_c(i: &C, code: &str, defs: &Definitions, root: &Path) -> Result<Value, String> {
    match value(i) {
        Value::Nil => eval((), code, defs, root),
        Value::Bool(b) => eval(b, code, defs, root),
        Value::Num(n) => eval(n, code, defs, root),
        Value::Str(s) => eval(s, code, defs, root),
        Value::Tab(t) => eval(t, code, defs, root),
        _ => unreachable!(),
    }
}
fn text(r: &mut Rng) -> String {
    (0..r.below(6)).map(|_| *r.pick(&['a', 'b', 'é', '漢', ' ', ',', '\n', '"', '\r', '\\', '\t', '1', '-', '#', ';'])).collect()
}
fn num(r: &mut Rng) -> f64 { *r.pick(&[0.0, 1.0, 2.0, -3.0, 2.5, 1234.5, 1000000.0, 0.25]) }
fn cell(r: &mut Rng, d: usize) -> C {
    match r.below(if d > 0 { 9 } else { 8 }) { 0 => C::Nil, 1 => C::B(r.below(2) == 0), 2 | 3 => C::N(num(r)), 8 => C::T(gen(r, d - 1)), _ => C::S(text(r)) }
}
const HD: [&str; 4] = ["a", "b", "é", "x y"];
fn gen(r: &mut Rng, d: usize) -> Tb {
    let w = 1 + r.below(4);
    let mut t = vec![(0..w).map(|_| s(r.pick(&HD))).collect::<Vec<_>>()];
    for _ in 0..r.below(5) { t.push((0..w).map(|_| cell(r, d)).collect()); }
    t
}
/// an ogma number literal
fn lit(n: f64) -> String { format!("{n}") }

fn main() {
    let mut rep = Rep::new();
    let mut defs = Definitions::default();
    let root = PathBuf::from(&rep.scratch).canonicalize().unwrap().join(format!("m{}", std::process::id()));
    std::fs::create_dir_all(root.join("sub")).unwrap();
    let mut r = rep.rng(78);
    let n = rep.n(5000, 60000);
    rep.bound(&format!("{n} random uses of range, Table, Tuple, to-str, get on rows and save (texts over 15 characters with all that need quoting; tables of 0-4 rows and 1-4 columns, nested ones too)"));
    for i in 0..n {
        if rep.full() { break; }
        // the input, the code, what is to come out (none: an error), the file and what it is to hold
        let (input, code, want, file): (C, String, Option<C>, Option<(PathBuf, String)>) = match r.below(8) {
            0 => {
                let nums = |a: f64, b: f64| -> Option<C> {
                    let ok = |x: f64| x >= 0.0 && x.fract() == 0.0;
                    if !ok(a) || !ok(b) { return None; }
                    let mut t = vec![vec![s("i")]];
                    let mut k = a;
                    while k < b { t.push(vec![C::N(k)]); k += 1.0; }
                    Some(C::T(t))
                };
                let v = |r: &mut Rng| *r.pick(&[0.0, 1.0, 2.0, 3.0, 7.0, 40.0, 2.5, -1.0, 18446744073709551616.0]);
                let (a, mut b) = (v(&mut r), v(&mut r));
                if b > 1e9 && a < 1e9 { b = 50.0; }
                if r.below(2) == 0 { (C::N(b), format!("range {}", lit(a)), nums(a, b), None) } else {
                    let inp = C::N(num(&mut r));
                    (inp, format!("range {} {}", lit(a), lit(b)), nums(a, b), None)
                }
            }
            1 => {
                let k = r.below(5);
                let hs: Vec<&str> = (0..k).map(|_| *r.pick(&HD)).collect();
                let inp = text(&mut r);
                let own = r.below(3) == 0;
                let mut row: Vec<C> = hs.iter().map(|h| s(h)).collect();
                if own { row.push(s(&inp)); }
                let code = format!("Table{}{}", hs.iter().map(|h| format!(" '{h}'")).collect::<String>(), if own { " {in}" } else { "" }).replace("{in}", "#i");
                (C::S(inp), code, Some(C::T(if row.is_empty() { vec![] } else { vec![row] })), None)
            }
            2 | 3 => {
                let c = cell(&mut r, 1);
                let want = match &c { C::N(n) => s(&kserd::Number::from(*n).to_string()), c => s(&shown(c)) };
                (c, "to-str".into(), Some(want), None)
            }
            4 | 5 => {
                let t = gen(&mut r, 0);
                if t.len() < 2 { continue; }
                let k = r.below(t.len() - 1);
                let h = if r.below(12) == 0 { "nope" } else { *r.pick(&HD) };
                let c = t[0].iter().position(|c| *c == s(h)).map(|c| t[k + 1][c].clone());
                let (code, want) = match r.below(5) {
                    0 => ("get 'H' 7.5".to_string(), c.map(|c| if matches!(c, C::N(_)) { c } else { C::N(7.5) })),
                    1 => ("get 'H' 'none'".to_string(), c.map(|c| if matches!(c, C::S(_)) { c } else { s("none") })),
                    2 => ("get:Str 'H'".to_string(), c.filter(|c| matches!(c, C::S(_)))),
                    3 => ("get:Num 'H'".to_string(), c.filter(|c| matches!(c, C::N(_)))),
                    _ => ("get --Bool 'H'".to_string(), c.filter(|c| matches!(c, C::B(_)))),
                };
                (C::T(t), format!("nth {k} {{ {} }}", code.replace('H', h)), want, None)
            }
            _ => {
                let c = if r.below(3) > 0 { C::T(gen(&mut r, 1)) } else { cell(&mut r, 1) };
                let f = format!("{}f{}", if r.below(3) == 0 { "sub/" } else { "" }, r.below(3));
                let x = saved(&c);
                (c.clone(), format!("save '{f}'"), Some(c), Some((root.join(f), x)))
            }
        };
        let (i2, c2) = (input.clone(), code.clone());
        rep.case(true, move || format!("{i2:?} | {c2}"), || {
            let got = eval_c(&input, &code, &defs, &root);
            match (&want, got) {
                (None, Err(_)) => (),
                (None, Ok(v)) => return Err(format!("gave {:?} instead of an error", back(&v))),
                (Some(e), Err(m)) => return Err(format!("failed with {} instead of giving {e:?}", m.lines().next().unwrap_or(""))),
                (Some(e), Ok(v)) => { let g = back(&v); if g != *e { return Err(format!("gave {g:?} instead of {e:?}")); } }
            }
            if let Some((f, x)) = &file {
                let y = std::fs::read_to_string(f).map_err(|e| e.to_string())?;
                if y != *x { return Err(format!("the file holds {y:?} instead of {x:?}")); }
            }
            Ok(())
        });
    }
    std::fs::remove_dir_all(&root).ok();
    rep.finish()
}
