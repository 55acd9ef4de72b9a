// crate: og
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
//@include _support.rs
use ogma::lang::{ast::Location, process_definition, Definitions, Table, Value};
use std::cmp::Ordering;
use std::path::Path;
use support::*;
use table::Entry;

/// the model of a cell
#[derive(Clone, PartialEq, Debug)]
enum C { Nil, B(bool), N(f64), S(String), T(Vec<Vec<C>>), O(String), R }
type Tb = Vec<Vec<C>>;
type Exp = Result<C, ()>;

fn s(x: &str) -> C { C::S(x.into()) }

use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
static BOTH_WAYS: AtomicBool = AtomicBool::new(false);
static TURN: AtomicUsize = AtomicUsize::new(0);
fn entry(c: &C) -> Entry<Value> {
    match c {
        C::Nil => Entry::Nil,
        // a table made outside of ogma holds a number in either of two ways
        C::N(n) => {
            let n = kserd::Number::from(*n);
            if BOTH_WAYS.load(Relaxed) && TURN.fetch_add(1, Relaxed) % 3 == 1 { Entry::Obj(Value::Num(n)) } else { Entry::Num(n) }
        }
        C::B(b) => Entry::Obj(Value::Bool(*b)),
        C::S(s) => Entry::Obj(Value::Str(s.as_str().into())),
        C::T(t) => Entry::Obj(Value::Tab(tab(t))),
        C::O(s) => Entry::Obj(match s.as_str() { "Less" => Ordering::Less, "Equal" => Ordering::Equal, _ => Ordering::Greater }.into()),
        C::R => unreachable!(),
    }
}
fn tab(t: &Tb) -> Table {
    Table::from(table::Table::from(t.iter().map(|r| r.iter().map(entry).collect::<Vec<_>>()).collect::<Vec<_>>()))
}
fn back(v: &Value) -> C {
    match v {
        Value::Nil => C::Nil,
        Value::Bool(b) => C::B(*b),
        Value::Num(n) => C::N(n.as_f64()),
        Value::Str(s) => C::S(s.to_string()),
        Value::Tab(t) => C::T(t.rows().map(|r| r.map(|e| match e { Entry::Nil => C::Nil, Entry::Num(n) => C::N(n.as_f64()), Entry::Obj(v) => back(v) }).collect()).collect()),
        Value::TabRow(_) => C::R,
        Value::Ogma(d) => C::O(match v.variant_idx() { Some(0) => "Less".into(), Some(1) => "Equal".into(), Some(2) => "Greater".into(), _ => format!("{}({:?})", d.ty().name(), d.data().iter().map(back).collect::<Vec<_>>()) }),
    }
}
impl C {
    fn show(&self) -> String {
        match self {
            C::T(t) => format!("[{}]", t.iter().map(|r| format!("[{}]", r.iter().map(|c| c.show()).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(" ")),
            C::Nil => "-".into(),
            C::N(n) => format!("{n}"),
            C::B(b) => format!("{b}"),
            C::S(s) => format!("{s:?}"),
            C::O(s) => s.clone(),
            C::R => "<row>".into(),
        }
    }
}
fn rect(mut t: Tb) -> Tb {
    let w = t.iter().map(|r| r.len()).max().unwrap_or(0);
    for r in &mut t { r.resize(w, C::Nil) }
    t
}
fn width(t: &Tb) -> usize { t.first().map(|r| r.len()).unwrap_or(0) }
fn col(t: &Tb, h: &str) -> Option<usize> { t.first().and_then(|r| r.iter().position(|c| *c == s(h))) }

// ---------------------------------------------------------------- generation
const HD: [&str; 5] = ["a", "b", "c", "d", "é"];
fn num(r: &mut Rng) -> f64 { *r.pick(&[0.0, 1.0, 2.0, 3.0, -1.0, 2.5, 10.0]) }
fn text(r: &mut Rng) -> String { r.pick(&["", "x", "y", "ab", "aab", "é", "éa", "zz", "Ab", "b a"]).to_string() }
fn cell(r: &mut Rng, kind: usize) -> C {
    match kind {
        0 => C::N(num(r)),
        1 => C::S(text(r)),
        2 => C::B(r.below(2) == 0),
        3 => match r.below(3) { 0 => C::N(num(r)), 1 => C::Nil, _ => C::S(text(r)) },
        4 => C::O(r.pick(&["Less", "Equal", "Greater"]).to_string()),
        _ => match r.below(8) {
            0 | 1 => C::N(num(r)),
            2 | 3 => C::S(text(r)),
            4 => C::B(r.below(2) == 0),
            5 => C::T(vec![vec![s("q")]; 1 + r.below(2)]),
            6 => C::O(r.pick(&["Less", "Equal", "Greater"]).to_string()),
            _ => C::Nil,
        },
    }
}
/// a table and the kind of each column
fn gen(r: &mut Rng, big: bool) -> Tb {
    if r.below(40) == 0 { return vec![]; }
    let w = 1 + r.below(5);
    let kinds: Vec<usize> = (0..w).map(|i| *r.pick(&[0, 0, 1, 1, 2, 3, 5, 4])).collect();
    let mut t = vec![(0..w).map(|i| match r.below(30) { 0 => C::Nil, 1 => C::N(1.0), 2 => s("a"), _ => s(HD[i]) }).collect::<Vec<_>>()];
    let n = if big { 800 + r.below(2000) } else { r.below(9) };
    for i in 0..n {
        if i > 0 && r.below(4) == 0 { let x = t[t.len() - 1].clone(); if t.len() > 1 { t.push(x); continue; } }
        t.push(kinds.iter().map(|k| cell(r, *k)).collect());
        if r.below(12) == 0 { let h = t[0].clone(); let l = t.len() - 1; t[l] = h; }
    }
    t
}

// ---------------------------------------------------------------- expressions over a row
/// code and its value on a row of a table
fn row_expr(r: &mut Rng, ty: usize) -> (String, Box<dyn Fn(&Tb, usize) -> Exp>) {
    let h = r.pick(&HD[..4]).to_string();
    let want = move |c: &C| match ty { 0 => matches!(c, C::N(_)), 1 => matches!(c, C::S(_)), _ => matches!(c, C::B(_)) };
    let tn = ["Num", "Str", "Bool"][ty];
    let h2 = h.clone();
    let get = move |t: &Tb, i: usize| -> Exp { let c = col(t, &h2).ok_or(())?; if want(&t[i][c]) { Ok(t[i][c].clone()) } else { Err(()) } };
    let h3 = h.clone();
    let getd = move |t: &Tb, i: usize, d: C| -> Exp { let c = col(t, &h3).ok_or(())?; if want(&t[i][c]) { Ok(t[i][c].clone()) } else { Ok(d) } };
    match (r.below(6), ty) {
        (0, _) => (format!("get:{tn} {h}"), Box::new(get)),
        (1, _) => (format!("get --{tn} {h}"), Box::new(get)),
        (2, 0) => { let k = num(r).trunc().abs(); (format!("get {h} {k}"), Box::new(move |t, i| getd(t, i, C::N(k)))) }
        (2, 1) => { let k = text(r); (format!("get {h} '{k}'"), Box::new(move |t, i| getd(t, i, s(&k)))) }
        (2, _) => (format!("get {h} #f"), Box::new(move |t, i| getd(t, i, C::B(false)))),
        (3, 0) => (format!("get {h} 0 | + 1 | * 2"), Box::new(move |t, i| match getd(t, i, C::N(0.0))? { C::N(n) => Ok(C::N((n + 1.0) * 2.0)), _ => Err(()) })),
        (3, 1) => (format!("get {h} '' | + 'k'"), Box::new(move |t, i| match getd(t, i, s(""))? { C::S(n) => Ok(C::S(n + "k")), _ => Err(()) })),
        (3, _) => (format!("get {h} #t | not"), Box::new(move |t, i| match getd(t, i, C::B(true))? { C::B(n) => Ok(C::B(!n)), _ => Err(()) })),
        (4, 0) => (format!("get {h} 1 | if {{ > 1 }} 7 #i"), Box::new(move |t, i| match getd(t, i, C::N(1.0))? { C::N(n) => Ok(C::N(if n > 1.0 { 7.0 } else { n })), _ => Err(()) })),
        (4, 1) => (format!("get {h} 'zab' | skip 1 | rev"), Box::new(move |t, i| match getd(t, i, s("zab"))? { C::S(n) => Ok(C::S(n.chars().skip(1).collect::<Vec<_>>().into_iter().rev().collect())), _ => Err(()) })),
        (4, _) | (5, 2) => {
            let h4 = h.clone();
            let k = r.below(3);
            (format!("get {h} 0 | > {k}"), Box::new(move |t, i| { let c = col(t, &h4).ok_or(())?; Ok(C::B(match &t[i][c] { C::N(n) => *n > k as f64, _ => 0.0 > k as f64 })) }))
        }
        (_, 0) => {
            let h4 = h.clone();
            (format!("get {h} '' | len"), Box::new(move |t, i| { let c = col(t, &h4).ok_or(())?; Ok(C::N(match &t[i][c] { C::S(n) => n.chars().count() as f64, _ => 0.0 })) }))
        }
        _ => (format!("get:Str {h}"), Box::new(get)),
    }
}

// ---------------------------------------------------------------- ordering
fn rank(c: &C) -> u8 { match c { C::B(_) => 0, C::N(_) => 1, C::S(_) => 2, C::O(_) => 3, C::Nil => 4, C::T(_) => 5, C::R => 6 } }
fn order(a: &C, b: &C) -> Ordering {
    match (a, b) {
        (C::B(x), C::B(y)) => x.cmp(y),
        (C::N(x), C::N(y)) => x.partial_cmp(y).unwrap(),
        (C::S(x), C::S(y)) => x.as_bytes().cmp(y.as_bytes()),
        _ => rank(a).cmp(&rank(b)),
    }
}
/// stable, by insertion
fn stable<K>(rows: &[Vec<C>], keys: &[K], ord: impl Fn(&K, &K) -> Ordering) -> Vec<usize> {
    let mut o: Vec<usize> = vec![];
    for i in 0..rows.len() {
        let mut j = o.len();
        while j > 0 && ord(&keys[o[j - 1]], &keys[i]) == Ordering::Greater { j -= 1; }
        o.insert(j, i);
    }
    o
}
fn cols(r: &mut Rng) -> Vec<String> { (0..1 + r.below(3)).map(|_| if r.below(15) == 0 { "nope".to_string() } else { r.pick(&HD).to_string() }).collect() }

fn keyed(t: &Tb, f: &dyn Fn(&Tb, usize) -> Exp) -> Result<Vec<C>, ()> { (1..t.len()).map(|i| f(t, i)).collect() }

fn key_expr(r: &mut Rng) -> (String, Box<dyn Fn(&Tb, usize) -> Exp>) {
    match r.below(5) {
        0 => {
            let (a, f) = row_expr(r, 0);
            let (b, g) = row_expr(r, 1);
            (format!("Tuple {{ {a} }} {{ {b} }}"), Box::new(move |t, i| Ok(C::T(vec![vec![f(t, i)?, g(t, i)?]]))))
        }
        1 => {
            let (a, f) = row_expr(r, 0);
            // a type of its own, ordered the other way round; Q's cmp fails on what is no index
            (format!("{} {{ {a} }}", if r.below(3) == 0 { "Q" } else { "P" }), Box::new(move |t, i| match f(t, i)? { C::N(n) => Ok(C::N(-n)), _ => Err(()) }))
        }
        k => { let (a, f) = row_expr(r, k - 2); (a, f) }
    }
}
/// the values a key expression gives are ordered by `cmp`
fn key_order(a: &C, b: &C) -> Ordering {
    match (a, b) {
        (C::T(x), C::T(y)) => x[0].iter().zip(&y[0]).map(|(a, b)| order(a, b)).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal),
        _ => order(a, b),
    }
}

/// a cmp that fails makes the ordering fail
fn ordered(c: &str, keys: Vec<C>) -> Result<Vec<C>, ()> {
    let bad = |k: &C| match k { C::N(n) => -n < 0.0 || n.fract() != 0.0, _ => false };
    if c.starts_with("Q ") && keys.len() > 1 && keys.iter().any(bad) { Err(()) } else { Ok(keys) }
}
type Case = (String, Box<dyn Fn(&C) -> Result<(), String>>);
fn exactly(e: Exp) -> Box<dyn Fn(&C) -> Result<(), String>> {
    Box::new(move |got| match (&e, got) {
        (Ok(e), g) if e == g => Ok(()),
        (Ok(e), g) => Err(format!("gave {} instead of {}", g.show(), e.show())),
        (Err(()), g) => Err(format!("gave {} instead of an error", g.show())),
    })
}

fn t01(r: &mut Rng, t: &Tb) -> (String, Exp, bool) {
    match r.below(4) {
        0 => {
            let cs = cols(r);
            let idx: Option<Vec<usize>> = cs.iter().map(|c| col(t, c)).collect();
            let e = idx.map(|idx| {
                let mut t = t.clone();
                for c in idx {
                    let rows = t[1..].to_vec();
                    let keys: Vec<C> = rows.iter().map(|r| r[c].clone()).collect();
                    let o = stable(&rows, &keys, order);
                    for (k, i) in o.into_iter().enumerate() { t[k + 1] = rows[i].clone(); }
                }
                C::T(t)
            }).ok_or(());
            (format!("sort {}", cs.join(" ")), e, false)
        }
        1 => {
            let (c, f) = key_expr(r);
            let e = keyed(t, &*f).and_then(|k| ordered(&c, k)).map(|keys| {
                let mut o = t[..t.len().min(1)].to_vec();
                if t.len() > 1 { o.extend(stable(&t[1..], &keys, key_order).into_iter().map(|i| t[i + 1].clone())); }
                C::T(o)
            });
            (format!("sort-by {{ {c} }}"), e, false)
        }
        2 => {
            let (c, f) = key_expr(r);
            let e = keyed(t, &*f).and_then(|k| ordered(&c, k)).map(|keys| {
                let o = if t.len() > 1 { stable(&t[1..], &keys, key_order) } else { vec![] };
                let mut g: Vec<(C, Vec<Vec<C>>)> = vec![];
                for i in o {
                    match g.last_mut() { Some((k, v)) if key_order(k, &keys[i]) == Ordering::Equal => v.push(t[i + 1].clone()), _ => g.push((keys[i].clone(), vec![t[0].clone(), t[i + 1].clone()])) }
                }
                C::T([vec![C::Nil, s("value")]].into_iter().chain(g.into_iter().map(|(_, v)| vec![C::Nil, C::T(v)])).collect())
            });
            (format!("grp-by {{ {c} }}"), e, true)
        }
        _ => {
            let cs = cols(r);
            let idx: Option<Vec<usize>> = cs.iter().map(|c| col(t, c)).collect();
            let e = if t.is_empty() { Err(()) } else { idx.map(|idx| {
                let show = |c: &C| match c {
                    C::Nil => "-".to_string(), C::B(b) => b.to_string(), C::S(s) => s.clone(), C::T(t) => format!("<table [{},{}]>", t.len(), width(t)),
                    C::N(n) => if *n == 0.0 { "0".into() } else if n.fract() == 0.0 { format!("{n:.1}") } else { format!("{n}") },
                    C::O(o) => format!("{} ()", match o.as_str() { "Less" => "Lt", "Equal" => "Eq", _ => "Gt" }), C::R => "".into(),
                };
                let keys: Vec<String> = t[1..].iter().map(|r| { let mut k = String::new(); for c in &idx { if !k.is_empty() { k.push('-'); } k += &show(&r[*c]); } k }).collect();
                let o = stable(&t[1..], &keys, |a, b| a.as_bytes().cmp(b.as_bytes()));
                let mut g: Vec<(String, Vec<Vec<C>>)> = vec![];
                for i in o {
                    match g.last_mut() { Some((k, v)) if *k == keys[i] => v.push(t[i + 1].clone()), _ => g.push((keys[i].clone(), vec![t[0].clone(), t[i + 1].clone()])) }
                }
                C::T([vec![s("key"), s("value")]].into_iter().chain(g.into_iter().map(|(k, v)| vec![C::S(k), C::T(v)])).collect())
            }).ok_or(()) };
            (format!("grp {}", cs.join(" ")), e, false)
        }
    }
}

fn count(r: &mut Rng, n: usize) -> (String, Option<usize>) {
    match r.below(14) {
        0 => ("-1".into(), None),
        1 => ("1.5".into(), None),
        2 => ("18446744073709551615".into(), Some(usize::MAX)),
        3 => ("18446744073709551616".into(), None),
        4 => ("{ len }".into(), Some(n)),
        5 => ("{ len | + 1 }".into(), Some(n + 1)),
        6 => ("{ len | - 1 }".into(), n.checked_sub(1)),
        7 => ("18446744073709551614".into(), Some(usize::MAX - 1)),
        _ => { let k = r.below(n + 3); (k.to_string(), Some(k)) }
    }
}

fn t02(r: &mut Rng, t: &Tb) -> (String, Exp, bool) {
    let n = t.len().saturating_sub(1);
    let rows = || t.get(1..).unwrap_or(&[]).to_vec();
    let with = |v: Vec<Vec<C>>| -> Exp { let mut o: Tb = t[..t.len().min(1)].to_vec(); o.extend(v); Ok(C::T(o)) };
    match r.below(15) {
        0 => { let (c, k) = count(r, n); (format!("skip {c}"), k.ok_or(()).and_then(|k| with(rows().into_iter().skip(k).collect())), false) }
        1 => { let (c, k) = count(r, n); (format!("take {c}"), k.ok_or(()).and_then(|k| with(rows().into_iter().take(k).collect())), false) }
        2 => ("rev".into(), with(rows().into_iter().rev().collect()), false),
        3 => ("rev --cols".into(), Ok(C::T(t.iter().map(|r| r.iter().rev().cloned().collect()).collect())), false),
        4 => ("len".into(), Ok(C::N(n as f64)), false),
        5 => ("len --cols".into(), Ok(C::N(width(t) as f64)), false),
        6 => {
            let (c, k) = count(r, n);
            let ty = r.below(3);
            let (x, f) = row_expr(r, ty);
            (format!("nth {c} {{ {x} }}"), k.filter(|k| *k < n).ok_or(()).and_then(|k| f(t, k + 1)), false)
        }
        7 | 8 => {
            let (x, f) = row_expr(r, 2);
            let keep: Result<Vec<bool>, ()> = (1..t.len()).map(|i| f(t, i).map(|c| c == C::B(true))).collect();
            (format!("filter {{ {x} }}"), keep.and_then(|k| with(rows().into_iter().zip(k).filter(|x| x.1).map(|x| x.0).collect())), false)
        }
        9 => {
            let h = if r.below(15) == 0 { "nope" } else { *r.pick(&HD) };
            let (code, ok): (String, Box<dyn Fn(&C) -> bool>) = match r.below(4) {
                0 => { let k = r.below(3); (format!("{h} > {k}"), Box::new(move |c| matches!(c, C::N(n) if *n > k as f64))) }
                1 => { let k = text(r); (format!("{h} --Str = '{k}'"), Box::new(move |c| *c == s(&k))) }
                2 => (format!("{h} --Bool {{ not }}"), Box::new(|c| *c == C::B(false))),
                _ => (format!("{h} --Str {{ len | > 1 }}"), Box::new(|c| matches!(c, C::S(s) if s.chars().count() > 1))),
            };
            // without rows the column is never looked up
            let e = match col(t, h) { None if n > 0 => Err(()), c => with(rows().into_iter().filter(|r| ok(&r[c.unwrap()])).collect()) };
            (format!("filter {code}"), e, false)
        }
        10 => {
            // not all of the columns go
            let h = r.pick(&HD).to_string();
            let keep: Vec<bool> = (0..width(t)).map(|c| match &t[0][c] { C::S(x) => *x != h, _ => true }).collect();
            if !keep.iter().any(|k| *k) { return ("rev".into(), with(rows().into_iter().rev().collect()), false); }
            (format!("filter --cols != '{h}'"), Ok(C::T(t.iter().map(|r| r.iter().zip(&keep).filter(|x| *x.1).map(|x| x.0.clone()).collect()).collect())), false)
        }
        11 | 12 => {
            let cs = if r.below(3) == 0 { vec![] } else { cols(r) };
            let idx: Option<Vec<usize>> = if cs.is_empty() { Some((0..width(t)).collect()) } else { cs.iter().map(|c| col(t, c)).collect() };
            let e = idx.ok_or(()).and_then(|idx| {
                let mut o: Tb = vec![];
                for x in rows() { if o.last().map(|l| idx.iter().all(|c| l[*c] == x[*c])) != Some(true) { o.push(x); } }
                with(o)
            });
            (format!("dedup {}", cs.join(" ")), e, false)
        }
        _ => {
            let (add, trail) = (r.below(2) == 0, r.below(3) == 0);
            let cs = cols(r);
            let idx: Vec<Option<usize>> = cs.iter().map(|c| col(t, c)).collect();
            let e = if !add && idx.iter().any(|x| x.is_none()) { Err(()) } else {
                let mut pick: Vec<(Option<usize>, String)> = idx.iter().cloned().zip(cs.iter().cloned()).collect();
                if trail { for i in 0..width(t) { if !idx.contains(&Some(i)) { pick.push((Some(i), "".into())); } } }
                Ok(C::T(t.iter().enumerate().map(|(i, r)| pick.iter().map(|(p, n)| match p { Some(c) => r[*c].clone(), None if i == 0 => s(n), None => C::Nil }).collect()).collect()))
            };
            (format!("pick{}{} {}", if add { " --add" } else { "" }, if trail { " --trail" } else { "" }, cs.join(" ")), e, false)
        }
    }
}

/// on strings
fn t02s(r: &mut Rng, x: &str) -> (String, Exp) {
    let cs: Vec<char> = x.chars().collect();
    let n = cs.len();
    let st = |v: Vec<char>| -> Exp { Ok(C::S(v.into_iter().collect())) };
    match r.below(8) {
        0 => { let (c, k) = count(r, n); (format!("skip {c}"), k.ok_or(()).and_then(|k| st(cs.into_iter().skip(k).collect()))) }
        1 => { let (c, k) = count(r, n); (format!("take {c}"), k.ok_or(()).and_then(|k| st(cs.into_iter().take(k).collect()))) }
        2 => { let (c, k) = count(r, n); (format!("nth {c}"), k.ok_or(()).and_then(|k| cs.get(k).map(|c| s(&c.to_string())).ok_or(()))) }
        3 => ("rev".into(), st(cs.into_iter().rev().collect())),
        4 => ("len".into(), Ok(C::N(n as f64))),
        5 => ("dedup".into(), { let mut v = cs.clone(); v.dedup(); st(v) }),
        6 => { let c = *r.pick(&['a', 'b', 'é', 'z']); (format!("filter != '{c}'"), st(cs.into_iter().filter(|x| *x != c).collect())) }
        _ => { let (c, k) = count(r, n); (format!("skip {c} | take 2 | rev"), k.ok_or(()).and_then(|k| st(cs.into_iter().skip(k).take(2).collect::<Vec<_>>().into_iter().rev().collect()))) }
    }
}

fn t03(r: &mut Rng, t: &Tb) -> (String, Exp, bool) {
    let n = t.len().saturating_sub(1);
    let put = |c: usize, v: Vec<C>| -> Exp { let mut o = t.clone(); for (i, x) in v.into_iter().enumerate() { o[i + 1][c] = x; } Ok(C::T(o)) };
    match r.below(13) {
        0 => {
            let h = if r.below(15) == 0 { "nope" } else { *r.pick(&HD) };
            let k = r.below(4);
            let e = col(t, h).ok_or(()).and_then(|c| (1..t.len()).map(|i| match &t[i][c] { C::N(n) => Ok(C::N(n * k as f64)), _ => Err(()) }).collect::<Result<Vec<_>, ()>>().and_then(|v| put(c, v)));
            (format!("map {h} * {k}"), e, false)
        }
        1 => {
            let h = *r.pick(&HD);
            let e = col(t, h).ok_or(()).and_then(|c| (1..t.len()).map(|i| match &t[i][c] { C::S(n) => Ok(C::N(n.chars().count() as f64)), _ => Err(()) }).collect::<Result<Vec<_>, ()>>().and_then(|v| put(c, v)));
            (format!("map {h} --Str {{ len }}"), e, false)
        }
        2 | 3 => {
            let h = *r.pick(&HD);
            let ty = r.below(3);
            let (x, f) = row_expr(r, ty);
            let e = col(t, h).ok_or(()).and_then(|c| keyed(t, &*f).and_then(|v| put(c, v)));
            (format!("map {h} --force {{ \\ $row | {x} }}"), e, false)
        }
        4 | 5 => {
            let m = 1 + r.below(3);
            let mut code = String::from("append");
            let mut e = Ok(t.clone());
            // names are given to the new columns in order, whichever expression they are written after
            let named: Vec<bool> = (0..m).map(|_| r.below(2) == 0).collect();
            let mut names: Vec<String> = (0..m).filter(|i| named[*i]).map(|i| format!("n{i}")).collect();
            let k = names.len();
            names.extend((k..m).map(|i| format!("_append{}", i - k + 1)));
            for i in 0..m {
                let ty = r.below(3);
                let (x, f) = row_expr(r, ty);
                code += &format!(" {{ {x} }}");
                let name = names[i].clone();
                if named[i] { code += &format!(" --n{i}"); }
                let v = keyed(t, &*f);
                e = match (e, v) { (Ok(mut o), Ok(v)) => { if n + 1 > 0 && !t.is_empty() { o[0].push(s(&name)); for (i, x) in v.into_iter().enumerate() { o[i + 1].push(x); } } Ok(o) } _ => Err(()) };
            }
            (code, e.map(C::T), false)
        }
        6 => {
            let m = 1 + r.below(4);
            let mut code = String::from("append-row");
            let mut row = vec![];
            for _ in 0..m {
                match r.below(5) {
                    0 => { code += " { len }"; row.push(C::N(n as f64)); }
                    1 => { let k = text(r); code += &format!(" '{k}'"); row.push(s(&k)); }
                    2 => { code += " #t"; row.push(C::B(true)); }
                    3 => { code += " #n"; row.push(C::Nil); }
                    _ => { let k = r.below(9); code += &format!(" {k}"); row.push(C::N(k as f64)); }
                }
            }
            let mut o = t.clone();
            o.push(row);
            let mut o = rect(o);
            let mut i = 0;
            for c in &mut o[0] { if *c == C::Nil { i += 1; *c = s(&format!("_append{i}")); } }
            (code, Ok(C::T(o)), false)
        }
        7 => {
            let (x, f) = row_expr(r, 0);
            let e = keyed(t, &*f).map(|v| C::N(v.iter().fold(3.0, |a, c| match c { C::N(n) => a * 2.0 + n, _ => a })));
            (format!("fold 3 {{ * 2 | + {{ \\ $row | {x} }} }}"), e, false)
        }
        8 => {
            let (x, f) = row_expr(r, 1);
            let e = keyed(t, &*f).map(|v| C::S(v.iter().fold("<".to_string(), |a, c| match c { C::S(n) => a + n + ";", _ => a })));
            (format!("fold '<' {{ + {{ \\ $row | {x} }} ';' }}"), e, false)
        }
        9 => {
            let k = r.below(12);
            let (x, f) = row_expr(r, 0);
            let mut a = 1.0;
            let mut e = Ok(());
            for i in 1..t.len() {
                if !(a < k as f64) { break; }
                match f(t, i) { Ok(C::N(n)) => a = a + n, _ => { e = Err(()); break; } }
            }
            (format!("fold-while 1 {{ < {k} }} {{ + {{ \\ $row | {x} }} }}"), e.map(|_| C::N(a)), false)
        }
        10 => {
            // the row is bound in the predicate too
            let (x, f) = row_expr(r, 2);
            let mut a = 0.0;
            let mut e = Ok(());
            for i in 1..t.len() {
                match f(t, i) { Ok(C::B(true)) => a += 1.0, Ok(_) => break, Err(()) => { e = Err(()); break; } }
            }
            (format!("fold-while 0 {{ \\ $row | {x} }} {{ + 1 }}"), e.map(|_| C::N(a)), false)
        }
        11 => {
            let k = r.below(3);
            let e = t.get(k).filter(|_| width(t) > 0).ok_or(()).and_then(|row| row.iter().map(|c| match c { C::S(x) => Ok(C::S(x.clone() + "!")), _ => Err(()) }).collect::<Result<Vec<_>, ()>>()).map(|h| { let mut o = t.clone(); o[0] = h; C::T(o) });
            (format!("ren-with {k} + '!'"), e, false)
        }
        _ => {
            let m = 1 + r.below(3);
            let mut code = String::from("ren");
            let mut e: Result<Vec<(usize, String)>, ()> = Ok(vec![]);
            for i in 0..m {
                let name = r.pick(&["a", "b", "z", ""]).to_string();
                let at = if r.below(2) == 0 { let k = r.below(5); code += &format!(" {k} '{name}'"); if k < width(t) { Ok(k) } else { Err(()) } } else { let h = *r.pick(&HD); code += &format!(" '{h}' '{name}'"); col(t, h).ok_or(()) };
                e = match (e, at) { (Ok(mut v), Ok(k)) => { v.push((k, name)); Ok(v) } _ => Err(()) };
            }
            (code, e.map(|v| { let mut o = t.clone(); for (k, n) in v { o[0][k] = s(&n); } C::T(o) }), false)
        }
    }
}

fn t04cols(t: &Tb, u: &Tb) -> Exp {
    let (w, x, n) = (width(t), width(u), t.len().max(u.len()));
    Ok(C::T((0..n).map(|i| (0..w).map(|c| t.get(i).map(|r| r[c].clone()).unwrap_or(C::Nil)).chain((0..x).map(|c| u.get(i).map(|r| r[c].clone()).unwrap_or(C::Nil))).collect()).collect()))
}
fn t04(r: &mut Rng, t: &Tb, u: &Tb) -> (String, Exp) {
    let (w, x) = (width(t), width(u));
    match r.below(5) {
        0 | 1 => {
            // the first table's headers, and those of the other for columns the first does not have
            let e = if t.is_empty() || w == 0 { u.clone() } else {
                let mut o = t.clone();
                o.extend(u.iter().skip(1).cloned());
                let mut o = rect(o);
                // columns are those of the wider table even when it has no rows
                for r in &mut o { r.resize(w.max(x), C::Nil); }
                for c in w..x { o[0][c] = u[0][c].clone(); }
                o
            };
            (format!("+{} $u", if r.below(2) == 0 { " --union" } else { "" }), Ok(C::T(e)))
        }
        2 => {
            let m = w.min(x);
            if m == 0 { return ("+ --cols $u".into(), t04cols(t, u)); }
            let o: Tb = t.iter().cloned().chain(u.iter().skip(1).cloned()).map(|mut r| { r.truncate(m); r }).collect();
            ("+ --intersect $u".into(), Ok(C::T(o)))
        }
        3 => {
            (format!("+ --cols{} $u", if r.below(2) == 0 { " --union" } else { "" }), t04cols(t, u))
        }
        _ => {
            let n = t.len().min(u.len());
            let o: Tb = (0..n).map(|i| t[i].iter().chain(u[i].iter()).cloned().collect()).collect();
            ("+ --cols --intersect $u".into(), Ok(C::T(o)))
        }
    }
}

fn eval<I: ogma::lang::AsType + Into<Value> + 'static>(i: I, code: &str, defs: &Definitions) -> Result<Value, String> {
    ogma::rt::process_expression(i, code, Location::Shell, defs, Path::new("."), Path::new(".")).map_err(|e| e.to_string())
}

fn judge(code: &str, e: &Exp, got: Result<Value, String>, values_only: bool) -> Result<(), String> {
    match (e, got) {
        (Err(()), Err(_)) => Ok(()),
        (Err(()), Ok(v)) => Err(format!("gave {} instead of an error", back(&v).show())),
        (Ok(_), Err(m)) if m.contains("ambiguous inference") || m.contains("Unknown") => Err(format!("not evaluated: {m}")),
        (Ok(e), Err(m)) => Err(format!("failed with {} instead of giving {}", m.lines().next().unwrap_or(""), e.show())),
        (Ok(e), Ok(v)) => {
            let mut g = back(&v);
            if values_only { if let C::T(t) = &mut g { for r in t { r[0] = C::Nil; } } }
            if g == *e { Ok(()) } else { Err(format!("gave {} instead of {}", g.show(), e.show())) }
        }
    }
}

fn main() {
    let mut rep = Rep::new();
    let pid = rep.pid.clone();
    BOTH_WAYS.store(pid == "T01", Relaxed);
    let mut defs = Definitions::default();
    if pid == "T01" {
        process_definition("def-ty P { x:Num }", Location::Shell, None, &mut defs).unwrap_or_else(|e| panic!("{e}"));
        process_definition("def-ty Q { x:Num }", Location::Shell, None, &mut defs).unwrap_or_else(|e| panic!("{e}"));
        process_definition("def cmp Q (rhs) { let $l | \\ 'a' | skip { \\ $l.x } | skip { \\ $rhs.x } | \\ $rhs.x | cmp { \\ $l.x } }", Location::Shell, None, &mut defs).unwrap_or_else(|e| panic!("{e}"));
        process_definition("def cmp P (rhs) { let $l | \\ $rhs | get x | cmp { \\ $l.x } }", Location::Shell, None, &mut defs).unwrap_or_else(|e| panic!("{e}"));
    }
    let mut r = rep.rng(77);
    let n = rep.n(9000, 120000);
    rep.bound(&format!("{n} random tables (0-9 rows of 1-5 columns, every 300th with up to 2800 rows; all kinds of cells, repeated headers) with random commands of the property, owned and shared"));
    for i in 0..n {
        if rep.full() { break; }
        let big = i % 300 == 299;
        let t = gen(&mut r, big);
        if pid == "T02" && i % 4 == 0 {
            let x: String = (0..r.below(9)).map(|_| *r.pick(&['a', 'a', 'b', 'é', 'z', ' ', '漢'])).collect();
            let (code, e) = t02s(&mut r, &x);
            let c2 = code.clone();
            rep.case(!x.is_empty(), || format!("\\ '{x}' | {c2}"), || judge(&code, &e, eval(libs::divvy::Str::from(x.as_str()), &code, &defs), false));
            continue;
        }
        let shared = r.below(2) == 0;
        let (code, e, vo, u) = match pid.as_str() {
            "T01" => { let (c, e, v) = t01(&mut r, &t); (c, e, v, None) }
            "T02" => { let (c, e, v) = t02(&mut r, &t); (c, e, v, None) }
            "T03" => { let (c, e, v) = t03(&mut r, &t); if v { continue; } (c, e, v, None) }
            _ => { let b = big && r.below(2) == 0; let u = gen(&mut r, b); let (c, e) = t04(&mut r, &t, &u); (c, e, false, Some(u)) }
        };
        let (t2, u2, c2) = (t.clone(), u.clone(), code.clone());
        let short = move || if t2.len() > 20 { format!("a table of {} rows, seed-generated", t2.len()) } else { C::T(t2.clone()).show() };
        let desc = move || format!("{} | {}{}{}", short(), c2, u2.as_ref().map(|u| format!(" where $u = {}", if u.len() > 20 { "a big table".into() } else { C::T(u.clone()).show() })).unwrap_or_default(), if shared { " (shared table)" } else { "" });
        rep.case(t.len() > 2, desc, || {
            let v = tab(&t);
            let hold = v.clone();
            let mut hold = Some(hold);
            if !shared { hold = None; }
            let got = match &u {
                None => eval(v, &code, &defs),
                Some(u) => {
                    // both tables in one: as the cells of a row
                    let both = tab(&vec![vec![s("t"), s("u")], vec![C::T(t.clone()), C::T(u.clone())]]);
                    let c = code.replace("$u", "{ \\ $r.u:Table }");
                    eval(both, &format!("nth 0 {{ let $r | get:Table t | {c} }}"), &defs)
                }
            };
            judge(&code, &e, got, vo)?;
            if let Some(h) = hold {
                if back(&Value::Tab(h)) != C::T(t.clone()) { return Err("the table given was changed".into()); }
            }
            Ok(())
        });
    }
    rep.finish()
}
