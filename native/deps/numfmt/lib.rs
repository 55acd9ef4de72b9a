//! Stand-in for `numfmt`: default formatting, and a small part of the format string grammar.
use std::str::FromStr;
#[derive(Clone, Debug)]
pub struct Formatter { buf: String, prefix: String, suffix: String, decimals: Option<usize>, thousands: Option<char>, sigfigs: Option<usize>, scale: bool, percent: bool }
impl Formatter {
    pub fn new() -> Self { Formatter { buf: String::new(), prefix: String::new(), suffix: String::new(), decimals: None, thousands: None, sigfigs: None, scale: false, percent: false } }
    pub fn fmt(&mut self, n: f64) -> &str {
        self.buf.clear();
        if n.is_nan() { self.buf.push_str("NaN"); return &self.buf; }
        if n.is_infinite() { self.buf.push_str(if n > 0.0 { "∞" } else { "-∞" }); return &self.buf; }
        if n == 0.0 { self.buf.push('0'); return &self.buf; }
        let m = if self.percent { n * 100.0 } else { n };
        let (m, s) = if self.scale { let a = m.abs(); if a >= 1e12 { (m / 1e12, " T") } else if a >= 1e9 { (m / 1e9, " B") } else if a >= 1e6 { (m / 1e6, " M") } else if a >= 1e3 { (m / 1e3, " K") } else { (m, "") } } else { (m, "") };
        let mut t = match (self.decimals, self.sigfigs) {
            (Some(d), _) => format!("{:.*}", d, m),
            (_, Some(k)) => { let e = m.abs().log10().floor() as i32; let d = (k as i32 - 1 - e).max(0) as usize; let t = format!("{:.*}", d, m); if t.contains('.') { let t = t.trim_end_matches('0'); if t.ends_with('.') { format!("{}0", t) } else { t.to_string() } } else { t } }
            _ => format!("{}", m),
        };
        if self.decimals.is_none() && !t.contains('.') { t.push_str(".0"); }
        if let Some(c) = self.thousands {
            let (neg, r) = match t.strip_prefix('-') { Some(r) => ("-", r.to_string()), None => ("", t.clone()) };
            let (i, f) = match r.find('.') { Some(p) => (r[..p].to_string(), r[p..].to_string()), None => (r, String::new()) };
            let mut o = String::new();
            for (k, ch) in i.chars().enumerate() { if k > 0 && (i.len() - k) % 3 == 0 { o.push(c) } o.push(ch) }
            t = format!("{}{}{}", neg, o, f);
        }
        self.buf = format!("{}{}{}{}{}", self.prefix, t, s, if self.percent { "%" } else { "" }, self.suffix);
        &self.buf
    }
}
impl Default for Formatter { fn default() -> Self { Formatter { decimals: None, thousands: Some(','), sigfigs: Some(4), scale: true, ..Formatter::new() } } }
#[derive(Debug, Clone)]
pub struct ParseError;
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("invalid formatting") } }
impl std::error::Error for ParseError {}
impl FromStr for Formatter {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        if s.is_empty() { return Ok(Formatter { thousands: None, ..Formatter::default() }); }
        let mut f = Formatter::new();
        let b = s.find('[').map(|i| (i, s.find(']')));
        let (p, m, x) = match b { Some((i, Some(j))) if j > i => (&s[..i], &s[i + 1..j], &s[j + 1..]), Some(_) => return Err(ParseError), None => return Err(ParseError) };
        f.prefix = p.into(); f.suffix = x.into();
        let mut it = m.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '.' | '~' => {
                    let mut n = String::new();
                    while let Some(d) = it.peek().copied() { if d.is_ascii_digit() || d == '*' { n.push(d); it.next(); } else { break } }
                    let v = if n == "*" { None } else { Some(n.parse().map_err(|_| ParseError)?) };
                    if c == '.' { f.decimals = v } else { f.sigfigs = v }
                }
                '%' => f.percent = true, 's' => f.scale = true, 'n' => (),
                '/' | ',' | '_' | ' ' => f.thousands = Some(if c == '/' { it.next().ok_or(ParseError)? } else { c }),
                _ => return Err(ParseError),
            }
        }
        Ok(f)
    }
}
