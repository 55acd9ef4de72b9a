//! Stand-in for `kserd`: `Number` and the little of `Kserd` that ogma uses.
use std::{borrow::Cow, cmp::Ordering, collections::BTreeMap, fmt, hash, ops, str::FromStr};

#[derive(Copy, Clone)]
pub enum Number { Uint(u128), Int(i128), Float(f64) }
use Number::*;
impl Number {
    pub fn as_f64(&self) -> f64 { match *self { Uint(x) => x as f64, Int(x) => x as f64, Float(x) => x } }
    pub fn as_u128(&self) -> Result<u128, ()> {
        match *self { Uint(x) => Ok(x), Int(x) => u128::try_from(x).map_err(|_| ()), Float(x) if x >= 0.0 && x.fract() == 0.0 && x < 3.4e38 => Ok(x as u128), _ => Err(()) }
    }
    pub fn as_i128(&self) -> Result<i128, ()> {
        match *self { Uint(x) => i128::try_from(x).map_err(|_| ()), Int(x) => Ok(x), Float(x) if x.fract() == 0.0 && x.abs() < 1.7e38 => Ok(x as i128), _ => Err(()) }
    }
}
impl FromStr for Number {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        if s.is_empty() || s.contains(|c: char| c.is_alphabetic() && c != 'e' && c != 'E') { return Err(()); }
        s.parse().map(Uint).or_else(|_| s.parse().map(Int)).or_else(|_| s.parse().map(Float)).map_err(|_| ())
    }
}
macro_rules! f { ($($t:ty => $v:ident),*) => { $(impl PartialEq<$t> for Number { fn eq(&self, o: &$t) -> bool { *self == Number::from(*o) } } impl From<$t> for Number { fn from(x: $t) -> Self { $v(x as _) } })* } }
f!(u8 => Uint, u16 => Uint, u32 => Uint, u64 => Uint, u128 => Uint, usize => Uint, i8 => Int, i16 => Int, i32 => Int, i64 => Int, i128 => Int, isize => Int, f32 => Float, f64 => Float);
macro_rules! o { ($($t:ident $f:ident $c:ident),*) => { $(impl ops::$t for Number { type Output = Number; fn $f(self, o: Number) -> Number {
    if let (Ok(a), Ok(b), false) = (self.as_i128(), o.as_i128(), matches!(self, Float(_)) || matches!(o, Float(_))) { if let Some(c) = a.$c(b) { return Int(c); } }
    Float(self.as_f64().$f(o.as_f64())) } })* } }
o!(Add add checked_add, Sub sub checked_sub, Mul mul checked_mul);
impl ops::AddAssign for Number { fn add_assign(&mut self, o: Number) { *self = *self + o } }
impl PartialEq for Number { fn eq(&self, o: &Self) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for Number {}
impl PartialOrd for Number { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Number {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self, o) {
            (Uint(a), Uint(b)) => a.cmp(b),
            (Int(a), Int(b)) => a.cmp(b),
            (Uint(a), Int(b)) => i128::try_from(*a).map_or(Ordering::Greater, |a| a.cmp(b)),
            (Int(_), Uint(_)) => o.cmp(self).reverse(),
            _ => { let (a, b) = (self.as_f64(), o.as_f64()); a.partial_cmp(&b).unwrap_or_else(|| a.is_nan().cmp(&b.is_nan())) }
        }
    }
}
impl hash::Hash for Number { fn hash<H: hash::Hasher>(&self, h: &mut H) { (self.as_f64() + 0.0).to_bits().hash(h) } }
impl fmt::Display for Number {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self { Uint(x) => write!(f, "{}", x), Int(x) => write!(f, "{}", x),
            Float(x) if x.is_nan() => write!(f, "nan"), Float(x) => write!(f, "{}", x) }
    }
}
impl fmt::Debug for Number { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(self, f) } }

#[derive(Clone, Debug, PartialEq)]
pub enum Value<'a> { Unit, Bool(bool), Num(Number), Str(Cow<'a, str>), Cntr(BTreeMap<Cow<'a, str>, Kserd<'a>>) }
#[derive(Clone, Debug, PartialEq)]
pub struct Kserd<'a> { id: Option<Cow<'a, str>>, val: Value<'a> }
#[derive(Debug)]
pub struct ToKserdErr;
pub trait ToKserd<'a> { fn into_kserd(self) -> Result<Kserd<'a>, ToKserdErr>; }
#[derive(Debug)]
pub struct InvalidId;
impl From<InvalidId> for ToKserdErr { fn from(_: InvalidId) -> Self { ToKserdErr } }
impl<'a> Kserd<'a> {
    pub fn new(val: Value<'a>) -> Self { Kserd { id: None, val } }
    pub fn with_id<S: Into<Cow<'a, str>>>(id: S, val: Value<'a>) -> Result<Self, InvalidId> {
        let id = id.into();
        if id.contains(|c: char| c.is_whitespace() || "()[]{}<>\"'=,:".contains(c)) { return Err(InvalidId); }
        Ok(Kserd { id: Some(id), val })
    }
    pub fn new_unit() -> Self { Self::new(Value::Unit) }
    pub fn new_bool(b: bool) -> Self { Self::new(Value::Bool(b)) }
    pub fn new_string(s: String) -> Self { Self::new(Value::Str(s.into())) }
    pub fn new_str(s: &'a str) -> Self { Self::new(Value::Str(s.into())) }
    pub fn as_str(&self) -> String { let mut s = String::new(); self.w(&mut s, 0); s }
    fn w(&self, s: &mut String, d: usize) {
        if let Some(i) = &self.id { s.push_str(i); if !matches!(self.val, Value::Unit | Value::Cntr(_)) { s.push(' ') } else if matches!(self.val, Value::Cntr(_)) { s.push(' ') } }
        match &self.val {
            Value::Unit => if self.id.is_none() { s.push_str("()") } else { s.push_str(" ()") },
            Value::Bool(b) => s.push_str(&b.to_string()),
            Value::Num(n) => s.push_str(&n.to_string()),
            Value::Str(x) => { s.push('"'); s.push_str(x); s.push('"') }
            Value::Cntr(m) => {
                s.push('(');
                for (i, (k, v)) in m.iter().enumerate() { if i > 0 { s.push_str(", ") } s.push_str(k); s.push_str(" = "); v.w(s, d + 1); }
                s.push(')')
            }
        }
    }
}
