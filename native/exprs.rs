// crate: og
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
//@include _support.rs
use ogma::lang::{ast::Location, process_definition, Definitions, Value};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::path::Path;
use support::*;

// ---------------------------------------------------------------- values and types
#[derive(Clone, PartialEq, Debug)]
enum V { Nil, N(f64), S(String), B(bool), O(Ordering), P(Box<V>, Box<V>), U(Vec<V>), Sum(usize, Vec<V>), Row(f64) }
#[derive(Clone, Copy, PartialEq, Debug)]
enum T { Nil, N, S, B, O, P, U, Row }
const TY: [T; 6] = [T::N, T::S, T::B, T::O, T::P, T::U];
type Env = BTreeMap<String, V>;
type Tys = BTreeMap<String, T>;
type R = Result<V, ()>;

fn back(v: &Value) -> V {
    match v {
        Value::Nil => V::Nil,
        Value::Bool(b) => V::B(*b),
        Value::Num(n) => V::N(n.as_f64()),
        Value::Str(s) => V::S(s.to_string()),
        Value::Ogma(d) => match (d.ty().name().to_string().as_str(), d.data()) {
            ("Ord", _) => V::O([Ordering::Less, Ordering::Equal, Ordering::Greater][d.variant_idx()]),
            ("Pt", [a, b]) => V::P(Box::new(back(a)), Box::new(back(b))),
            (n, x) if n.starts_with("U_") => V::U(x.iter().map(back).collect()),
            (_, x) => V::Sum(d.variant_idx(), x.iter().map(back).collect()),
        },
        _ => V::Row(-1.0),
    }
}

// ---------------------------------------------------------------- expressions
#[derive(Clone, Debug)]
enum A { Lit(V), Var(String), Dot(String, String), Inp, Ex(Vec<Blk>, Option<T>), ExDot(Vec<Blk>, String), Bare(Vec<Blk>) }
#[derive(Clone, Debug)]
enum Blk {
    In(A),
    Op(&'static str, Vec<A>),
    If(Vec<(A, A)>, A),
    Let(Vec<(A, String)>, Option<String>),
    Pt(A, A),
    Tup(Vec<A>),
    Get(String),
    Call(usize, Vec<A>),
    Fold(usize, usize, A, Vec<Blk>),
}
/// a definition: its input type, parameters (by value, or as expressions to evaluate where used) and body
#[derive(Clone)]
struct Def { name: String, inp: T, params: Vec<(String, T, bool)>, out: T, body: Vec<Blk>, safe: bool }

fn tname(t: T) -> &'static str { match t { T::Nil => "Nil", T::N => "Num", T::S => "Str", T::B => "Bool", T::O => "Ord", T::P => "Pt", T::U => "U_Num-Str_", T::Row => "TableRow" } }

fn lit(v: &V) -> String {
    match v {
        V::N(n) => format!("{n}"),
        V::S(s) => format!("'{s}'"),
        V::B(b) => if *b { "#t".into() } else { "#f".into() },
        V::O(o) => match o { Ordering::Less => "Ord::Lt", Ordering::Equal => "Ord::Eq", _ => "Ord::Gt" }.into(),
        V::Nil => "#n".into(),
        _ => unreachable!(),
    }
}
fn sa(a: &A, ds: &[Def]) -> String {
    match a {
        A::Lit(v) => lit(v),
        A::Var(x) => format!("${x}"),
        A::Dot(x, f) => format!("${x}.{f}"),
        A::Inp => "#i".into(),
        A::Ex(e, None) => format!("{{ {} }}", se(e, ds)),
        A::Ex(e, Some(t)) => format!("{{:{} {} }}", tname(*t), se(e, ds)),
        A::ExDot(e, f) => format!("{{ {} }}.{f}", se(e, ds)),
        A::Bare(e) => se(e, ds),
    }
}
fn sas(v: &[A], ds: &[Def]) -> String { v.iter().map(|a| format!(" {}", sa(a, ds))).collect() }
fn sb(b: &Blk, ds: &[Def]) -> String {
    match b {
        Blk::In(a) => format!("\\ {}", sa(a, ds)),
        Blk::Op(o, v) => format!("{o}{}", sas(v, ds)),
        Blk::If(cs, e) => format!("if{} {}", cs.iter().map(|(p, x)| format!(" {} {}", sa(p, ds), sa(x, ds))).collect::<String>(), sa(e, ds)),
        Blk::Let(bs, t) => format!("let{}{}", bs.iter().map(|(a, x)| format!(" {} ${x}", sa(a, ds))).collect::<String>(), t.iter().map(|x| format!(" ${x}")).collect::<String>()),
        Blk::Pt(a, b) => format!("Pt {} {}", sa(a, ds), sa(b, ds)),
        Blk::Tup(v) => format!("Tuple{}", sas(v, ds)),
        Blk::Get(f) => format!("get {f}"),
        Blk::Call(i, v) => format!("{}{}", ds[*i].name, sas(v, ds)),
        Blk::Fold(a, b, s, e) => format!("range {a} {b} | fold {} {{ {} }}", sa(s, ds), se(e, ds)),
    }
}
fn se(e: &[Blk], ds: &[Def]) -> String { e.iter().map(|b| sb(b, ds)).collect::<Vec<_>>().join(" | ") }
fn sd(d: &Def, ds: &[Def]) -> String {
    let ty = match d.inp { T::Nil | T::U => String::new(), t => format!("{} ", tname(t)) };
    format!("def {} {}({}) {{ {} }}", d.name, ty, d.params.iter().map(|(n, t, x)| if *x { format!("{n}:Expr") } else if *t == T::U { n.clone() } else { format!("{n}:{}", tname(*t)) }).collect::<Vec<_>>().join(" "), se(&d.body, ds))
}

// ---------------------------------------------------------------- what they mean
struct Ip<'a> { ds: &'a [Def] }
/// arguments given as expressions: the expression and the caller's variables
type Lazy = BTreeMap<String, (A, Scope)>;
#[derive(Clone, Default)]
struct Scope { vars: Env, lazy: Lazy }
impl Ip<'_> {
    fn field(v: V, f: &str) -> R {
        Ok(match (v, f) {
            (V::P(a, _), "x") => *a,
            (V::P(_, b), "y") => *b,
            (V::U(x), f) => x[f[1..].parse::<usize>().unwrap()].clone(),
            (V::Row(i), "i") => V::N(i),
            (v, f) => panic!("model: {f} of {v:?}"),
        })
    }
    fn var(&self, x: &str, i: &V, s: &Scope) -> R {
        match s.lazy.get(x) {
            Some((a, c)) => self.arg(a, i, c),
            None => Ok(s.vars[x].clone()),
        }
    }
    fn arg(&self, a: &A, i: &V, s: &Scope) -> R {
        match a {
            A::Lit(v) => Ok(v.clone()),
            A::Var(x) => self.var(x, i, s),
            A::Dot(x, f) => Self::field(self.var(x, i, s)?, f),
            A::Inp => Ok(i.clone()),
            A::Ex(e, _) | A::Bare(e) => self.expr(e, i.clone(), s.clone()),
            A::ExDot(e, f) => Self::field(self.expr(e, i.clone(), s.clone())?, f),
        }
    }
    fn expr(&self, e: &[Blk], mut i: V, mut s: Scope) -> R {
        for b in e { i = self.blk(b, i, &mut s)?; }
        Ok(i)
    }
    fn blk(&self, b: &Blk, i: V, s: &mut Scope) -> R {
        let sc = s.clone();
        let args = |v: &[A]| -> Result<Vec<V>, ()> { v.iter().map(|a| self.arg(a, &i, &sc)).collect() };
        match b {
            Blk::In(a) => self.arg(a, &i, s),
            Blk::If(cs, e) => {
                for (p, x) in cs { if self.arg(p, &i, s)? == V::B(true) { return self.arg(x, &i, s); } }
                self.arg(e, &i, s)
            }
            Blk::Let(bs, t) => {
                let vs: Vec<V> = args(&bs.iter().map(|x| x.0.clone()).collect::<Vec<_>>())?;
                for ((_, n), v) in bs.iter().zip(vs) { s.vars.insert(n.clone(), v); s.lazy.remove(n); }
                if let Some(t) = t { s.vars.insert(t.clone(), i.clone()); s.lazy.remove(t); }
                Ok(i)
            }
            Blk::Pt(a, b) => { let mut v = args(&[a.clone(), b.clone()])?; let b = v.pop().unwrap(); Ok(V::P(Box::new(v.pop().unwrap()), Box::new(b))) }
            Blk::Tup(v) => Ok(V::U(args(v)?)),
            Blk::Get(f) => Self::field(i, f),
            Blk::Call(k, v) => {
                let d = &self.ds[*k];
                let mut n = Scope::default();
                for ((p, _, lazy), a) in d.params.iter().zip(v) {
                    if *lazy { n.lazy.insert(p.clone(), (a.clone(), sc.clone())); } else { n.vars.insert(p.clone(), self.arg(a, &i, &sc)?); }
                }
                self.expr(&d.body, i.clone(), n)
            }
            Blk::Fold(a, b, seed, e) => {
                // the seed is evaluated on the table: it is generated not to look at its input
                let mut acc = self.arg(seed, &V::Nil, s)?;
                for k in *a..*b { let mut n = s.clone(); n.vars.insert("row".into(), V::Row(k as f64)); n.lazy.remove("row"); acc = self.expr(e, acc, n)?; }
                Ok(acc)
            }
            Blk::Op(o, v) => {
                let x = args(v)?;
                Ok(match (*o, &i) {
                    ("Ord::Lt", _) => V::O(Ordering::Less),
                    ("Ord::Eq", _) => V::O(Ordering::Equal),
                    ("Ord::Gt", _) => V::O(Ordering::Greater),
                    ("and", _) => V::B(x.iter().all(|y| *y == V::B(true))),
                    ("or", _) => V::B(x.iter().any(|y| *y == V::B(true))),
                    ("not", V::B(b)) => V::B(!b),
                    ("+", V::S(t)) => V::S(x.iter().fold(t.clone(), |t, y| match y { V::S(y) => t + y, _ => panic!() })),
                    ("len", V::S(t)) => V::N(t.chars().count() as f64),
                    ("rev", V::S(t)) => V::S(t.chars().rev().collect()),
                    ("skip", V::S(t)) => match x[0] { V::N(n) => V::S(t.chars().skip(n as usize).collect()), _ => panic!() },
                    ("take", V::S(t)) => match x[0] { V::N(n) => V::S(t.chars().take(n as usize).collect()), _ => panic!() },
                    ("nth", V::S(t)) => match x[0] { V::N(n) => V::S(t.chars().nth(n as usize).ok_or(())?.to_string()), _ => panic!() },
                    ("+" | "-" | "*" | "/" | "min" | "max", V::N(n)) => V::N(x.iter().fold(*n, |a, y| match y { V::N(b) => match *o { "+" => a + b, "-" => a - b, "*" => a * b, "/" => a / b, "min" => a.min(*b), _ => a.max(*b) }, _ => panic!() })),
                    ("ceil", V::N(n)) => V::N(n.ceil()),
                    ("floor", V::N(n)) => V::N(n.floor()),
                    ("root", V::N(n)) => match x[0] { V::N(k) if k == 3.0 => V::N(n.cbrt()), V::N(k) if k == 2.0 => V::N(n.sqrt()), V::N(k) => V::N(n.powf(k.recip())), _ => panic!() },
                    ("is-finite", V::N(n)) => V::B(n.is_finite()),
                    (c, i) => {
                        let w = ord(i, &x[0]);
                        match c {
                            "cmp" => V::O(w),
                            "=" | "eq" => V::B(w == Ordering::Equal),
                            "!=" => V::B(w != Ordering::Equal),
                            "<" => V::B(w == Ordering::Less),
                            ">" => V::B(w == Ordering::Greater),
                            "<=" => V::B(w != Ordering::Greater),
                            ">=" => V::B(w != Ordering::Less),
                            _ => panic!("model: {c} on {i:?}"),
                        }
                    }
                })
            }
        }
    }
}
fn ord(a: &V, b: &V) -> Ordering {
    match (a, b) {
        (V::N(a), V::N(b)) => a.partial_cmp(b).unwrap_or(Ordering::Equal),
        (V::S(a), V::S(b)) => a.as_bytes().cmp(b.as_bytes()),
        (V::B(a), V::B(b)) => a.cmp(b),
        (V::O(a), V::O(b)) => a.cmp(b),
        (V::U(a), V::U(b)) => a.iter().zip(b).map(|(a, b)| ord(a, b)).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal),
        (a, b) => panic!("model: order of {a:?} {b:?}"),
    }
}

// ---------------------------------------------------------------- generation
struct G<'a> { r: &'a mut Rng, ds: &'a [Def] }
const NAMES: [&str; 4] = ["a", "b", "cc", "d1"];
impl G<'_> {
    fn litv(&mut self, t: T) -> V {
        match t {
            T::N => V::N(*self.r.pick(&[0.0, 1.0, 2.0, 3.0, 2.5, 10.0, 0.25])),
            T::S => V::S(self.r.pick(&["", "x", "ab", "é漢", "zz", "abc", "Ab"]).to_string()),
            T::B => V::B(self.r.below(2) == 0),
            T::O => V::O(*self.r.pick(&[Ordering::Less, Ordering::Equal, Ordering::Greater])),
            _ => unreachable!(),
        }
    }
    /// an argument giving t, for an input of type i (None: the input may not be looked at)
    fn arg(&mut self, t: T, i: Option<T>, vs: &Tys, d: usize, safe: bool) -> A {
        for _ in 0..4 {
            match self.r.below(8) {
                0 | 1 => { let c: Vec<_> = vs.iter().filter(|(_, u)| **u == t).map(|x| x.0.clone()).collect(); if !c.is_empty() { return A::Var(self.r.pick(&c).clone()); } }
                2 => {
                    let f = match t { T::N => vec![(T::P, "x"), (T::U, "t0"), (T::Row, "i")], T::S => vec![(T::P, "y"), (T::U, "t1")], _ => vec![] };
                    let c: Vec<_> = vs.iter().flat_map(|(n, u)| f.iter().filter(move |(v, _)| v == u).map(move |(_, f)| (n.clone(), f.to_string()))).collect();
                    if !c.is_empty() { let (n, f) = self.r.pick(&c).clone(); return A::Dot(n, f); }
                }
                3 if i == Some(t) => return A::Inp,
                4 | 5 if d > 0 => { let an = self.note(i); return A::Ex(self.expr(i, t, vs, d - 1, safe), an); },
                6 if d > 0 && matches!(t, T::N | T::S) => {
                    let u = *self.r.pick(&[T::P, T::U]);
                    let f = match (u, t) { (T::P, T::N) => "x", (T::P, _) => "y", (_, T::N) => "t0", _ => "t1" };
                    return A::ExDot(self.expr(i, u, vs, d - 1, safe), f.into());
                }
                _ if matches!(t, T::N | T::S | T::B) => return A::Lit(self.litv(t)),
                _ => (),
            }
        }
        match t {
            T::P | T::U | T::O | T::Nil | T::Row => { let an = self.note(i); A::Ex(self.expr(i, t, vs, 0, safe), an) }
            t => A::Lit(self.litv(t)),
        }
    }
    /// an expression's input type may be spelled out
    fn note(&mut self, i: Option<T>) -> Option<T> { if self.r.below(3) > 0 { i.filter(|t| *t != T::U) } else { None } }
    fn args(&mut self, n: usize, t: T, i: T, vs: &Tys, d: usize, safe: bool) -> Vec<A> { (0..n).map(|_| self.arg(t, Some(i), vs, d, safe)).collect() }
    fn expr(&mut self, i: Option<T>, t: T, vs: &Tys, d: usize, safe: bool) -> Vec<Blk> {
        let mut vs = vs.clone();
        let mut e = vec![];
        let mut cur = i;
        let n = self.r.below(1 + d.min(3));
        for _ in 0..n {
            if self.r.below(3) == 0 && cur.is_some() {
                let c = cur.unwrap();
                let k = self.r.below(3);
                let mut bs = vec![];
                // a block may bind a name twice, but not with different types
                let mut tn: Tys = Tys::new();
                for _ in 0..k {
                    let u = *self.r.pick(&TY);
                    let n = self.r.pick(&NAMES).to_string();
                    if *tn.entry(n.clone()).or_insert(u) != u { continue; }
                    bs.push((self.arg(u, cur, &vs, d.saturating_sub(1), safe), n, u));
                }
                let tr = if bs.is_empty() || self.r.below(2) == 0 { Some(self.r.pick(&NAMES).to_string()) } else { None };
                let tr = tr.filter(|n| tn.get(n).map_or(true, |u| *u == c));
                if bs.is_empty() && tr.is_none() { continue; }
                for (_, n, u) in &bs { vs.insert(n.clone(), *u); }
                if let Some(x) = &tr { vs.insert(x.clone(), c); }
                e.push(Blk::Let(bs.into_iter().map(|(a, n, _)| (a, n)).collect(), tr));
            } else {
                let u = *self.r.pick(&TY);
                e.push(self.step(cur, u, &vs, d, safe));
                cur = Some(u);
            }
        }
        if e.is_empty() || cur != Some(t) || self.r.below(2) == 0 { e.push(self.step(cur, t, &vs, d, safe)); }
        e
    }
    /// one block from an input of type i to t
    fn step(&mut self, i: Option<T>, t: T, vs: &Tys, d: usize, safe: bool) -> Blk {
        let d = d.saturating_sub(1);
        let k = self.r.below(10);
        if let Some(i) = i {
            let n = 1 + self.r.below(3);
            if k < 2 {
                let c: Vec<usize> = (0..self.ds.len()).filter(|j| { let f = &self.ds[*j]; f.out == t && f.inp == i && (f.safe || !safe) }).collect();
                if !c.is_empty() {
                    let j = *self.r.pick(&c);
                    let f = self.ds[j].clone();
                    let v = f.params.iter().map(|(_, u, lazy)| if *lazy { A::Ex(self.expr(Some(f.inp), *u, vs, d, true), Some(f.inp)) } else { self.arg(*u, Some(i), vs, d, safe) }).collect();
                    return Blk::Call(j, v);
                }
            }
            if k == 2 {
                let m = 1 + self.r.below(2);
                let cs = (0..m).map(|_| (self.arg(T::B, Some(i), vs, d, safe), self.arg(t, Some(i), vs, d, safe))).collect();
                let e = self.arg(t, Some(i), vs, d, safe);
                return Blk::If(cs, e);
            }
            if k == 3 && t == T::N && d > 0 {
                let s = self.arg(T::N, None, vs, 0, safe);
                let mut w = vs.clone();
                w.insert("row".into(), T::Row);
                let a = self.r.below(2);
                let b = a + self.r.below(4);
                let e = self.expr(Some(T::N), T::N, &w, d - 1, safe);
                return Blk::Fold(a, b, s, e);
            }
            if k < 8 {
                match (i, t) {
                    (T::N, T::N) => match self.r.below(8) {
                        0 => return Blk::Op(self.r.pick(&["ceil", "floor"]), vec![]),
                        1 if self.r.below(2) == 0 => { let k = *self.r.pick(&[2.0, 3.0, 3.0, 2.03, 2.97, 2.0001, 4.0, 0.5]); return Blk::Op("root", vec![A::Lit(V::N(k))]) }
                        1 => return Blk::Op("/", vec![A::Lit(V::N(2.0))]),
                        _ => { let o = *self.r.pick(&["+", "-", "*", "min", "max"]); return Blk::Op(o, self.args(n, T::N, i, vs, d, safe)); }
                    },
                    (T::S, T::S) => match self.r.below(6) {
                        0 => return Blk::Op("rev", vec![]),
                        1 => return Blk::Op(self.r.pick(&["skip", "take"]), vec![A::Lit(V::N(self.r.below(4) as f64))]),
                        2 | 3 if !safe => return Blk::Op("nth", vec![A::Lit(V::N(self.r.below(3) as f64))]),
                        _ => return Blk::Op("+", self.args(n, T::S, i, vs, d, safe)),
                    },
                    (T::S, T::N) => return Blk::Op("len", vec![]),
                    (T::P, T::N) => return Blk::Get("x".into()),
                    (T::P, T::S) => return Blk::Get("y".into()),
                    (T::U, T::N) => return Blk::Get("t0".into()),
                    (T::U, T::S) => return Blk::Get("t1".into()),
                    (i, T::B) => {
                        if i == T::B && self.r.below(4) == 0 { return Blk::Op("not", vec![]); }
                        if i == T::N && self.r.below(8) == 0 { return Blk::Op("is-finite", vec![]); }
                        if i == T::P || self.r.below(3) == 0 {
                            // and, or may but need not look at the arguments after the one that settles it: none of those may fail
                            let mut v = vec![self.arg(T::B, Some(i), vs, d, safe)];
                            v.extend(self.args(n - 1, T::B, i, vs, d, true));
                            return Blk::Op(self.r.pick(&["and", "or"]), v);
                        }
                        if i == T::Nil || i == T::Row { return Blk::In(self.arg(t, Some(i), vs, d, safe)); }
                        let o = *self.r.pick(&["=", "!=", "<", ">", "<=", ">=", "eq"]);
                        return Blk::Op(o, self.args(1, i, i, vs, d, safe));
                    }
                    (T::N | T::S | T::B | T::O | T::U, T::O) => return Blk::Op("cmp", self.args(1, i, i, vs, d, safe)),
                    _ => (),
                }
            }
        }
        match t {
            T::P => Blk::Pt(self.arg(T::N, i, vs, d, safe), self.arg(T::S, i, vs, d, safe)),
            T::U => Blk::Tup(vec![self.arg(T::N, i, vs, d, safe), self.arg(T::S, i, vs, d, safe)]),
            T::O => Blk::Op(self.r.pick(&["Ord::Lt", "Ord::Eq", "Ord::Gt"]), vec![]),
            t => Blk::In(self.arg(t, i, vs, d, safe)),
        }
    }
}

fn fixed() -> Vec<Def> {
    let v = |x: &str| A::Var(x.into());
    vec![
        Def { name: "twice".into(), inp: T::N, params: vec![("f".into(), T::N, true)], out: T::N, body: vec![Blk::In(v("f")), Blk::In(v("f"))], safe: true },
        Def { name: "pick".into(), inp: T::S, params: vec![("b".into(), T::B, true), ("a".into(), T::S, false)], out: T::S, body: vec![Blk::If(vec![(v("b"), v("a"))], A::Inp)], safe: true },
        Def { name: "mk".into(), inp: T::Nil, params: vec![("a".into(), T::N, false), ("b".into(), T::S, false)], out: T::P, body: vec![Blk::Let(vec![(A::Ex(vec![Blk::In(v("a")), Blk::Op("+", vec![v("a")])], None), "b".into()), (v("b"), "a".into())], None), Blk::Pt(v("b"), v("a"))], safe: true },
    ]
}

fn run(i: &V, code: &str, defs: &Definitions) -> Result<Value, ogma::Error> {
    let p = Path::new(".");
    let l = Location::Shell;
    match i {
        V::N(n) => ogma::rt::process_expression(kserd::Number::from(*n), code, l, defs, p, p),
        V::S(n) => ogma::rt::process_expression(libs::divvy::Str::from(n.as_str()), code, l, defs, p, p),
        V::B(n) => ogma::rt::process_expression(*n, code, l, defs, p, p),
        _ => ogma::rt::process_expression((), code, l, defs, p, p),
    }
}

fn main() {
    let mut rep = Rep::new();
    let mut r = rep.rng(4242);
    let n = rep.n(6000, 60000);
    rep.bound(&format!("{n} random well-typed expressions (nesting to 4, with let, shadowing, if, Tuple and user types, dot access, definitions with value and expression parameters, folds over rows), every 20th with fresh definitions"));
    let mut defs = Definitions::default();
    let mut ds: Vec<Def> = vec![];
    let (mut refused, mut tried, mut late) = (0usize, 0usize, 0usize);
    for k in 0..n {
        if rep.full() { break; }
        if k % 20 == 0 {
            defs = Definitions::default();
            process_definition("def-ty Pt { x:Num y:Str }", Location::Shell, None, &mut defs).unwrap_or_else(|e| panic!("{e}"));
            ds = fixed();
            for j in 0..1 + r.below(3) {
                let safe = r.below(2) == 0;
                let inp = *r.pick(&[T::Nil, T::N, T::S, T::B]);
                let out = *r.pick(&TY);
                let m = r.below(3);
                let mut params: Vec<(String, T, bool)> = vec![];
                for q in 0..m { let t = *r.pick(&[T::N, T::S, T::B, T::P, T::O]); params.push((NAMES[(q + j) % 4].to_string(), t, false)); }
                let vs: Tys = params.iter().map(|(n, t, _)| (n.clone(), *t)).collect();
                let body = G { r: &mut r, ds: &ds }.expr(Some(inp), out, &vs, 2, safe);
                ds.push(Def { name: format!("def{j}"), inp, params, out, body, safe });
            }
            let all = ds.clone();
            for d in &all { process_definition(&sd(d, &all) as &str, Location::Shell, None, &mut defs).unwrap_or_else(|e| panic!("{e}")); }
        }
        let (it, iv) = match r.below(4) { 0 => (T::Nil, V::Nil), 1 => { let mut g = G { r: &mut r, ds: &ds }; (T::N, g.litv(T::N)) } 2 => { let mut g = G { r: &mut r, ds: &ds }; (T::S, g.litv(T::S)) } _ => { let mut g = G { r: &mut r, ds: &ds }; (T::B, g.litv(T::B)) } };
        let out = *r.pick(&TY);
        let d = 1 + r.below(4);
        let e = G { r: &mut r, ds: &ds }.expr(Some(it), out, &Tys::new(), d, false);
        let code = se(&e, &ds);
        if code.len() > 1500 { continue; }
        let want = Ip { ds: &ds }.expr(&e, iv.clone(), Scope::default());
        let used: String = ds.iter().filter(|d| code.contains(&d.name)).map(|d| sd(d, &ds)).collect::<Vec<_>>().join("; ");
        let (c2, i2) = (code.clone(), iv.clone());
        rep.case(e.len() > 1, || format!("input {i2:?}: {c2}{}", if used.is_empty() { String::new() } else { format!(" with {used}") }), || {
            if let Some(n) = std::env::var("ONLY").ok().and_then(|x| x.parse::<usize>().ok()) { if tried + 1 < n { return Ok(()); } println!("RUN {iv:?} {code}"); }
            // type inference can take very long: such a case is left undecided, at most three of them
            let got = {
                let (tx, rx) = std::sync::mpsc::channel();
                let (iv, code, defs) = (iv.clone(), code.clone(), defs.clone());
                std::thread::Builder::new().stack_size(64 << 20).spawn(move || { let _ = tx.send(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&iv, &code, &defs)))); }).unwrap();
                match rx.recv_timeout(std::time::Duration::from_secs(30)) {
                    Ok(Ok(v)) => v,
                    Ok(Err(p)) => std::panic::resume_unwind(p),
                    Err(_) => { late += 1; return if late > 3 { Err("gives no answer within 30 s".into()) } else { Ok(()) } }
                }
            };
            if let Err(e) = &got {
                // type inference may refuse an expression: nothing was evaluated then
                if ["Semantics", "Type", "Internal"].contains(&format!("{:?}", e.cat).as_str()) {
                    refused += 1;
                    if std::env::var("SHOW").is_ok() { println!("REF {code} :: {}", e.to_string().lines().take(4).collect::<Vec<_>>().join(" ")); }
                    return Ok(());
                }
            }
            match (want, got) {
                (Ok(w), Ok(v)) => { let g = back(&v); if g == w { Ok(()) } else { Err(format!("gave {g:?} instead of {w:?}")) } }
                (Err(()), Err(e)) => if format!("{:?}", e.cat) == "Evaluation" { Ok(()) } else { Err(format!("refused: {}", e.to_string())) },
                (Err(()), Ok(v)) => Err(format!("gave {:?} instead of an error", back(&v))),
                (Ok(w), Err(e)) => Err(format!("failed instead of giving {w:?}: {}", e.to_string())),
            }
        });
        tried += 1;
    }
    // tuples are compared by their first elements that differ
    rep.bound("tuples of 2 to 5 elements (numbers, texts, booleans, orders and a nested tuple), equal or first different at each position, with each later position smaller or greater, under cmp, eq and the comparisons");
    for len in 2..=5usize {
        for rot in 0..5usize {
            let el = |p: usize, w: usize| match (p + rot) % 5 {
                0 => V::N([1.0, 2.0, 3.0][w]),
                1 => V::S(["a", "ab", "b"][w].into()),
                2 => V::B(w == 2),
                3 => V::O([Ordering::Less, Ordering::Equal, Ordering::Greater][w]),
                _ => V::U(vec![V::N(0.0), V::N([1.0, 2.0, 3.0][w])]),
            };
            fn show(v: &V) -> A { match v { V::O(o) => A::Ex(vec![Blk::Op(["Ord::Lt", "Ord::Eq", "Ord::Gt"][(*o as i8 + 1) as usize], vec![])], None), V::U(x) => A::Ex(vec![Blk::Tup(x.iter().map(show).collect())], None), v => A::Lit(v.clone()) } }
            for first in 0..=len {
                for (l, r, rest) in [(0, 2, 0), (0, 2, 2), (2, 0, 0), (2, 0, 2)] {
                    let a: Vec<V> = (0..len).map(|p| el(p, if p < first { 0 } else if p == first { l } else { 2 - rest })).collect();
                    let b: Vec<V> = (0..len).map(|p| el(p, if p < first { 0 } else if p == first { r } else { rest })).collect();
                    for o in ["cmp", "eq", "=", "!=", "<", ">", "<=", ">="] {
                        let e = vec![Blk::Tup(a.iter().map(show).collect()), Blk::Op(o, vec![show(&V::U(b.clone()))])];
                        let code = se(&e, &[]);
                        rep.case(true, || format!("{code}"), || {
                            let want = Ip { ds: &[] }.expr(&e, V::Nil, Scope::default());
                            match (want, run(&V::Nil, &code, &defs)) {
                                (Ok(w), Ok(v)) => { let g = back(&v); if g == w { Ok(()) } else { Err(format!("gave {g:?} instead of {w:?}")) } }
                                (_, Err(e)) => Err(format!("failed: {}", e.to_string())),
                                (Err(()), _) => unreachable!(),
                            }
                        });
                    }
                }
            }
        }
    }
    // nothing is defined by the name of a path, or by a name no definition has
    rep.bound("blocks naming a path or a name no definition has, alone, after and before others, as an argument, in a branch, behind a partition: refused, not run");
    for op in ["a/b", "/a", "/a/b/c", "+/len", "no-such", "Num/eq"] {
        for code in [op.to_string(), format!("{op} 1"), format!("\\ 1 | {op}"), format!("{op} | + 1"), format!("\\ {{{op}}}"), format!("if #f {{{op}}} 1"), format!("let $x | {op} 'a' --b")] {
            for inp in [V::Nil, V::N(1.0), V::S("a".into())] {
                rep.case(true, || format!("{code} on {inp:?}"), || match run(&inp, &code, &defs) { Ok(v) => Err(format!("gave {:?}", back(&v))), Err(_) => Ok(()) });
            }
        }
    }
    rep.case(true, || format!("{refused} of {tried} expressions refused"), || if refused * 20 > tried { Err("more than one in twenty of the well-typed expressions are refused".into()) } else { Ok(()) });
    rep.finish()
}
