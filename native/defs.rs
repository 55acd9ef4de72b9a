// crate: og
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
//@include _support.rs
use ogma::lang::{ast::Location, construct_def_table, process_definition, Definitions, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use support::*;

#[derive(Clone, PartialEq, Debug)]
enum Loc { Ogma, Shell, File(String, u16) }
/// an op's entry: category, where it is from, its code; what it evaluates to where that is known
#[derive(Clone, PartialEq, Debug)]
struct Entry { cat: String, loc: Loc, code: Option<String>, val: Option<f64> }
type Key = (String, Option<String>); // op, the input type as displayed
#[derive(Clone, PartialEq, Debug, Default)]
struct Model { ops: BTreeMap<Key, Entry>, tys: BTreeMap<String, (Loc, Vec<(String, Vec<String>)>)> } // type: where from, initialisers and their field types

fn shown(t: &str) -> String { match t { "Num" => "Number", "Str" => "String", t => t }.to_string() }
impl Model {
    fn op(&self, n: &str) -> bool { self.ops.keys().any(|k| k.0 == n) }
    fn used(&self, n: &str, t: &str) -> Option<&Entry> { self.ops.get(&(n.to_string(), Some(shown(t)))).or_else(|| self.ops.get(&(n.to_string(), None))) }
    fn clear(&mut self, only_files: bool) {
        let keep = |l: &Loc| match l { Loc::Ogma => true, Loc::Shell => only_files, Loc::File(..) => false };
        self.ops.retain(|_, e| keep(&e.loc));
        self.tys.retain(|_, e| keep(&e.0));
    }
}
/// a definition to be made
#[derive(Clone, Debug)]
enum Def {
    Op { name: String, ty: Option<String>, body: String, ops: Vec<String>, val: Option<f64> },
    Ty { name: String, vars: Vec<(String, Vec<String>)>, code: String },
    Bad(String),
}
impl Def {
    fn code(&self) -> String {
        match self {
            Def::Op { name, ty, body, .. } => format!("def {name} {}() {body}", ty.as_ref().map(|t| format!("{t} ")).unwrap_or_default()),
            Def::Ty { code, .. } => code.clone(),
            Def::Bad(s) => s.clone(),
        }
    }
    /// what it does to the model: false where it is refused
    fn apply(&self, m: &mut Model, loc: &Loc) -> bool {
        match self {
            Def::Op { name, ty, body, ops, val } => {
                if !ops.iter().all(|o| m.op(o)) { return false; }
                if let Some(t) = ty { if !m.tys.contains_key(t) { return false; } }
                let k = (name.clone(), ty.as_ref().map(|t| shown(t)));
                // initialisers count as built in
                if m.ops.get(&k).map_or(false, |e| e.loc == Loc::Ogma || e.cat == "init") { return false; }
                m.ops.insert(k, Entry { cat: "user-defined".into(), loc: loc.clone(), code: Some(self.code()[4..].to_string()), val: *val });
                true
            }
            Def::Ty { name, vars, .. } => {
                if !vars.iter().flat_map(|v| &v.1).all(|t| m.tys.contains_key(t)) || m.tys.contains_key(name) { return false; }
                let set: BTreeSet<&String> = vars.iter().map(|v| &v.0).collect();
                if set.len() < vars.len() || vars.iter().any(|v| m.ops.contains_key(&(v.0.clone(), None))) { return false; }
                for v in vars { m.ops.insert((v.0.clone(), None), Entry { cat: "init".into(), loc: loc.clone(), code: None, val: None }); }
                m.tys.insert(name.clone(), (loc.clone(), vars.clone()));
                true
            }
            Def::Bad(_) => false,
        }
    }
}
fn read(defs: &Definitions) -> Result<Model, String> {
    let t = construct_def_table(defs);
    let mut m = Model::default();
    let s = |e: &table::Entry<Value>| match e { table::Entry::Obj(Value::Str(s)) => Some(s.to_string()), _ => None };
    for i in 1..t.rows_len() {
        let r: Vec<_> = t.row(i).unwrap().cloned().collect();
        let loc = match (s(&r[3]).ok_or("no location")?.as_str(), &r[4]) {
            ("<ogma>", _) => Loc::Ogma,
            ("shell", _) => Loc::Shell,
            (f, table::Entry::Num(n)) => Loc::File(f.to_string(), n.as_f64() as u16),
            (f, _) => return Err(format!("location {f} without a line")),
        };
        let k = (s(&r[0]).ok_or("no name")?, s(&r[2]));
        if m.ops.insert(k.clone(), Entry { cat: s(&r[1]).unwrap_or_default(), loc, code: s(&r[5]), val: None }).is_some() { return Err(format!("{k:?} is listed twice")); }
    }
    for (n, _) in defs.types().iter() { m.tys.insert(n.to_string(), (Loc::Ogma, vec![])); }
    Ok(m)
}
fn same(defs: &Definitions, m: &Model) -> Result<(), String> {
    let got = read(defs)?;
    for (k, e) in &m.ops {
        match got.ops.get(k) {
            None => return Err(format!("{k:?} is not defined any more")),
            Some(g) if g.cat != e.cat || g.loc != e.loc || g.code != e.code => return Err(format!("{k:?} is {g:?} instead of {e:?}")),
            _ => (),
        }
    }
    for k in got.ops.keys() { if !m.ops.contains_key(k) { return Err(format!("{k:?} is defined")); } }
    let (a, b): (Vec<_>, Vec<_>) = (got.tys.keys().collect(), m.tys.keys().collect());
    if a != b { return Err(format!("the types are {a:?} instead of {b:?}")); }
    for k in m.ops.keys() { if !defs.impls().contains_op(&k.0) { return Err(format!("op {} is not found", k.0)); } }
    for n in ["zzz", "nope"] { if defs.impls().contains_op(n) != m.op(n) { return Err(format!("op {n} is found")); } }
    Ok(())
}
fn eval(t: &str, code: &str, defs: &Definitions) -> Result<Value, ogma::Error> {
    let (p, l) = (Path::new("."), Location::Shell);
    match t {
        "Num" => ogma::rt::process_expression(kserd::Number::from(3), code, l, defs, p, p),
        "Str" => ogma::rt::process_expression(libs::divvy::Str::from("abc"), code, l, defs, p, p),
        "Bool" => ogma::rt::process_expression(true, code, l, defs, p, p),
        _ => ogma::rt::process_expression((), code, l, defs, p, p),
    }
}

const OPS: [&str; 14] = ["zip", "zap", "zop", "x-y", "Foo", "Bar", "len", "+", "abs", "empty", "filter", "=", "last", "to-str"];
const TYS: [&str; 9] = ["Num", "Str", "Bool", "Nil", "Table", "Foo", "Bar", "Baz", "Nope"];
fn gen(r: &mut Rng, k: &mut usize) -> Def {
    *k += 1;
    let j = *k;
    match r.below(20) {
        0..=11 => {
            let (body, ops, val): (String, Vec<&str>, Option<f64>) = match r.below(12) {
                0 => ("{ \\ ' --list | --clear --help {' | \\ 1 }".into(), vec![], None),
                1 => { let o = *r.pick(&OPS); (format!("{{ \\ 7 | + {{ \\ 1 | {o} }} }}"), vec![o], None) }
                2 => { let o = *r.pick(&OPS); (format!("{{ if {{ \\ #t | and {{ {o} | and {{ zip }} }} }} 1 2 }}"), vec![o, "zip"], None) }
                3 => ("{ \\ 1 | + { - { zzz } } }".into(), vec!["zzz"], None),
                4 => ("{ zzz | \\ 1 }".into(), vec!["zzz"], None),
                5 => { let o = *r.pick(&OPS[..4]); (format!("{{ {o} | \\ {j} }}"), vec![o], None) }
                6 => (format!("{{ \\ {j} | + 0 }}"), vec![], None),
                _ => (format!("{{ \\ {j} }}"), vec![], Some(j as f64)),
            };
            Def::Op { name: r.pick(&OPS).to_string(), ty: if r.below(2) == 0 { None } else { Some(r.pick(&TYS).to_string()) }, body, ops: ops.into_iter().map(|x| x.to_string()).collect(), val }
        }
        12..=16 => {
            let name = *r.pick(&["Foo", "Bar", "Baz", "len", "Ord", "Num", "get", "zip"]);
            let mut fs = |r: &mut Rng, n: usize| -> (String, Vec<String>) {
                let v: Vec<String> = (0..n).map(|_| if r.below(8) == 0 { r.pick(&TYS).to_string() } else { r.pick(&TYS[..3]).to_string() }).collect();
                (format!("{{ {} }}", v.iter().enumerate().map(|(i, t)| format!("f{i}:{t}")).collect::<Vec<_>>().join(" ")), v)
            };
            if r.below(2) == 0 {
                let n = 1 + r.below(3);
                let (s, v) = fs(r, n);
                Def::Ty { name: name.into(), vars: vec![(name.into(), v)], code: format!("def-ty {name} {s}") }
            } else {
                let (mut code, mut vars) = (String::new(), vec![]);
                for q in 0..1 + r.below(3) {
                    let w = if r.below(5) == 0 { "A" } else { ["A", "B", "C"][q] };
                    let n = r.below(3);
                    let (s, v) = if n > 0 { fs(r, n) } else { (String::new(), vec![]) };
                    code += &format!("{}{w} {s}", if q > 0 { " | " } else { "" });
                    vars.push((format!("{name}::{w}"), v));
                }
                Def::Ty { name: name.into(), vars, code: format!("def-ty {name} :: {}", code.trim()) }
            }
        }
        _ => Def::Bad((*r.pick(&["def zip", "def zip () {", "def () { \\ 1 }", "def-ty Foo", "def-ty Foo {", "def zip Num Str () { \\ 1 }", "def-ty Foo { x }", "def zip (a:) { \\ 1 }", "def zip () { \\ 1 } --now"])).into()),
    }
}
fn lit(t: &str) -> Option<(&'static str, Value)> {
    Some(match t { "Num" => ("5", Value::Num(5.into())), "Str" => ("'s'", Value::Str("s".into())), "Bool" => ("#t", Value::Bool(true)), _ => return None })
}

fn main() {
    let mut rep = Rep::new();
    let mut r = rep.rng(777);
    let n = rep.n(60, 700);
    rep.bound(&format!("{n} random histories of 40 definitions, clears, listings and file loads over 14 op names (6 of them built in), 8 type names; after each the whole registry and one evaluation"));
    let base = Definitions::default();
    let base_m = {
        let mut m = read(&base).unwrap_or_default();
        m
    };
    let mut k = 0;
    for h in 0..n {
        if rep.full() { break; }
        let mut defs = base.clone();
        let mut m = base_m.clone();
        let mut log: Vec<String> = vec![];
        let failed = rep.fails.len();
        for step in 0..40 {
            if rep.full() || rep.fails.len() > failed { break; }
            let mut run: Box<dyn FnOnce(&mut Definitions) -> Result<(), String>>;
            let (ds, tag) = match r.below(16) {
                0 => (0, 0), 1 => (0, 1), 2 => (0, 2), 3 => (0, 3), 4 => (0, 4), 5 | 6 => (1, 0), _ => (2, 0),
            };
            match (ds, tag) {
                (0, t) => {
                    let code = match t {
                        0 => "def --clear", 1 => "clear-all", 2 => "clear-files",
                        3 => *r.pick(&["def --list", "def --list | len", "def --list --clear", "def --help", "def --clear --help", "def foo --help () { \\ 1 }"]),
                        _ => *r.pick(&["def-ty --help", "def-ty --list", "def-ty --clear", "define zip", "def", "default", "", "zip", "def-tyFoo { x:Num }", "def\tzip () { \\ 1 }", " def zip () { \\ 1 }"]),
                    };
                    log.push(code.to_string());
                    let mut m2 = m.clone();
                    if t < 3 { m2.clear(t == 2); }
                    m = m2;
                    run = Box::new(move |d| {
                        match t {
                            1 => { d.clear(false); return Ok(()); }
                            2 => { d.clear(true); return Ok(()); }
                            _ => (),
                        }
                        let tbl = construct_def_table(d);
                        match (process_definition(code, Location::Shell, None, d), code) {
                            (Ok((Value::Nil, None)), "def --clear") => Ok(()),
                            (Ok((Value::Tab(x), None)), "def --list" | "def --list --clear") => if x == tbl { Ok(()) } else { Err("the listing is another table".into()) },
                            (Ok((Value::Tab(x), Some("len"))), "def --list | len") => if x == tbl { Ok(()) } else { Err("the listing is another table".into()) },
                            (Err(_), c) if !["def --clear", "def --list", "def --list --clear", "def --list | len"].contains(&c) => Ok(()),
                            (Ok((v, p)), c) => Err(format!("gave {v:?} and {p:?}")),
                            (Err(e), c) => Err(format!("refused: {e}")),
                        }
                    });
                }
                (1, _) => {
                    // a file of definitions
                    let file = *r.pick(&["a.ogma", "dir/b.ogma"]);
                    let mut text = String::new();
                    for _ in 0..r.below(2) { text += "\n"; }
                    let (mut tys, mut ops, mut bad) = (vec![], vec![], false);
                    for _ in 0..r.below(5) {
                        let d = gen(&mut r, &mut k);
                        if let Def::Bad(_) = d { continue; }
                        if r.below(3) == 0 { text += "# what it is\n"; }
                        let line = text.matches('\n').count() as u16 + 1;
                        text += &d.code();
                        for _ in 0..2 + r.below(2) { text += "\n"; }
                        // the first paragraph's comment may be taken for the file's
                        if let Def::Ty { .. } = d { tys.push((d, line)); } else { ops.push((d, line)); }
                    }
                    log.push(format!("load {file}: {text}"));
                    let (mut want, mut n) = (true, 0);
                    for (d, line) in tys.iter().chain(&ops) { if d.apply(&mut m, &Loc::File(file.into(), *line)) { n += 1; } else { want = false; break; } }
                    run = Box::new(move |d| match (d.add_from_str(&text, Path::new(file)), want) {
                        (Ok(x), true) if x == n => Ok(()),
                        (Err(_), false) => Ok(()),
                        (Ok(x), w) => Err(format!("loaded {x}, {}", if w { format!("not {n}") } else { "with a definition that must be refused".into() })),
                        (Err(e), _) => Err(format!("refused: {e}")),
                    });
                }
                _ => {
                    let d = gen(&mut r, &mut k);
                    let code = d.code();
                    let (loc, l2) = if r.below(3) == 0 { (Loc::File("c.ogma".into(), 7), Location::file("c.ogma", 7)) } else { (Loc::Shell, Location::Shell) };
                    log.push(format!("{code}{}", if loc == Loc::Shell { "" } else { "   (from a file)" }));
                    let want = d.apply(&mut m, &loc);
                    run = Box::new(move |d| match (process_definition(&code, l2, None, d), want) {
                        (Ok((Value::Nil, None)), true) => Ok(()),
                        (Ok((v, p)), true) => Err(format!("gave {v:?} and {p:?}")),
                        (Ok(_), false) => Err("it was accepted".into()),
                        (Err(_), false) => Ok(()),
                        (Err(e), true) => Err(format!("refused: {e}")),
                    });
                }
            }
            let op = *r.pick(&OPS[..6]);
            let ty = *r.pick(&TYS[..4]);
            let vals: Vec<(String, String, usize, Vec<Value>)> = m.tys.iter().filter(|t| !t.1 .1.is_empty()).flat_map(|(t, (_, vs))| {
                vs.iter().enumerate().filter(|(_, v)| m.used(&v.0, "Nil").map_or(false, |e| e.cat == "init") && m.ops.keys().filter(|k| k.0 == v.0).count() == 1).filter_map(|(i, (n, fs))| {
                    let ls: Option<Vec<_>> = fs.iter().map(|f| lit(f)).collect();
                    ls.map(|ls| (t.clone(), format!("{n}{}", ls.iter().map(|l| format!(" {}", l.0)).collect::<String>()), i, ls.into_iter().map(|l| l.1).collect()))
                }).collect::<Vec<_>>()
            }).collect();
            let pick = if vals.is_empty() { None } else { Some(vals[r.below(vals.len())].clone()) };
            let (dm, mm) = (&mut defs, &m);
            rep.case(step > 0, || log.join(" ; "), move || {
                run(dm)?;
                same(dm, mm)?;
                // compilation of calls in bodies is another matter
                let plain = mm.ops.iter().all(|(k, e)| k.0 != op || e.val.is_some());
                match mm.used(op, ty) {
                    _ if !plain => (),
                    Some(Entry { val: Some(x), .. }) => match eval(ty, op, dm) {
                        Ok(Value::Num(n)) if n.as_f64() == *x => (),
                        Ok(v) => return Err(format!("then {op} on {ty} gave {v:?} instead of {x}")),
                        Err(e) => return Err(format!("then {op} on {ty} failed instead of giving {x}: {e}")),
                    },
                    None => if let Ok(v) = eval(ty, op, dm) { return Err(format!("then {op} on {ty} gave {v:?} though it is not defined")); },
                    _ => (),
                }
                if let Some((t, code, i, vs)) = pick {
                    match eval("Nil", &code, dm) {
                        Ok(Value::Ogma(d)) if d.ty().name().to_string() == t && d.variant_idx() == i && d.data() == &vs[..] => (),
                        Ok(v) => return Err(format!("then {code} gave {v:?}")),
                        Err(e) => return Err(format!("then {code} failed: {e}")),
                    }
                }
                Ok(())
            });
        }
    }
    rep.finish()
}
