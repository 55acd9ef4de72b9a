//! Stand-in for `table`: a rectangular table of entries, padded with `Nil`.
use divvy::Str;
use kserd::Number;
use std::{cmp::Ordering, slice};

#[derive(Debug, Clone, PartialEq, PartialOrd)]
pub enum Entry<T> { Obj(T), Num(Number), Nil }
impl<T> Default for Entry<T> { fn default() -> Self { Entry::Nil } }
impl<T> Entry<T> {
    pub fn is_nil(&self) -> bool { matches!(self, Entry::Nil) }
    pub fn map_obj<U, F: FnOnce(T) -> U>(self, f: F) -> Entry<U> { match self { Entry::Obj(x) => Entry::Obj(f(x)), Entry::Num(n) => Entry::Num(n), Entry::Nil => Entry::Nil } }
}
pub type Row<'a, T> = slice::Iter<'a, Entry<T>>;
pub type DataTable = Table<Str>;

#[derive(Debug, Clone)]
pub struct Table<T> { rows: Vec<Vec<Entry<T>>>, cols: usize, pub header: bool }
impl<T> Default for Table<T> { fn default() -> Self { Table { rows: vec![], cols: 0, header: true } } }
impl<T: PartialEq> PartialEq for Table<T> { fn eq(&self, o: &Self) -> bool { self.rows == o.rows } }
impl<T> From<Vec<Vec<Entry<T>>>> for Table<T> {
    fn from(rows: Vec<Vec<Entry<T>>>) -> Self { let mut t = Table { cols: rows.iter().map(Vec::len).max().unwrap_or(0), rows, header: true }; t.pad(); t }
}
impl<T> Table<T> {
    pub fn new() -> Self { Self::default() }
    fn pad(&mut self) { let c = self.cols; for r in &mut self.rows { r.resize_with(c, || Entry::Nil) } }
    pub fn is_empty(&self) -> bool { self.rows.is_empty() || self.cols == 0 }
    pub fn rows_len(&self) -> usize { self.rows.len() }
    pub fn cols_len(&self) -> usize { self.cols }
    pub fn rows(&self) -> impl ExactSizeIterator<Item = Row<'_, T>> + DoubleEndedIterator { self.rows.iter().map(|r| r.iter()) }
    pub fn row(&self, i: usize) -> Option<Row<'_, T>> { self.rows.get(i).map(|r| r.iter()) }
    pub fn row_mut(&mut self, i: usize) -> Option<slice::IterMut<'_, Entry<T>>> { self.rows.get_mut(i).map(|r| r.iter_mut()) }
    pub fn col(&self, i: usize) -> Option<impl ExactSizeIterator<Item = &Entry<T>> + DoubleEndedIterator> { (i < self.cols).then(|| self.rows.iter().map(move |r| &r[i])) }
    pub fn col_mut(&mut self, i: usize) -> Option<impl ExactSizeIterator<Item = &mut Entry<T>> + DoubleEndedIterator> { (i < self.cols).then(|| self.rows.iter_mut().map(move |r| &mut r[i])) }
    pub fn cols(&self) -> impl ExactSizeIterator<Item = impl ExactSizeIterator<Item = &Entry<T>>> { (0..self.cols).map(move |i| self.col(i).unwrap()) }
    pub fn add_row<I: Iterator>(&mut self, r: I) where I::Item: Into<Entry<T>> { let r: Vec<Entry<T>> = r.map(Into::into).collect(); self.cols = self.cols.max(r.len()); self.rows.push(r); self.pad() }
    pub fn insert_row<I: Iterator>(&mut self, i: usize, r: I) where I::Item: Into<Entry<T>> { self.add_row(r); let r = self.rows.pop().unwrap(); self.rows.insert(i, r) }
    pub fn add_rows<I, J>(&mut self, i: I) where I: Iterator<Item = J>, J: Iterator, J::Item: Into<Entry<T>> { for r in i { let r: Vec<Entry<T>> = r.map(Into::into).collect(); self.cols = self.cols.max(r.len()); self.rows.push(r); } self.pad() }
    pub fn add_col<I: Iterator>(&mut self, c: I) where I::Item: Into<Entry<T>> {
        for (i, x) in c.enumerate() { if i == self.rows.len() { let mut r = Vec::new(); r.resize_with(self.cols, || Entry::Nil); self.rows.push(r) } self.rows[i].push(x.into()); }
        self.cols += 1; self.pad()
    }
    pub fn add_cols<I, J>(&mut self, i: I) where I: Iterator<Item = J>, J: Iterator, J::Item: Into<Entry<T>> { for c in i { self.add_col(c) } }
    pub fn remove_row(&mut self, i: usize) { self.rows.remove(i); }
    pub fn remove_col(&mut self, i: usize) { for r in &mut self.rows { r.remove(i); } self.cols -= 1; if self.cols == 0 { self.rows.clear() } }
    pub fn remove_col_par(&mut self, i: usize) { self.remove_col(i) }
    pub fn retain_rows<F: FnMut(usize, &[Entry<T>]) -> bool>(&mut self, mut f: F) { let mut i = 0; self.rows.retain(|r| { i += 1; f(i - 1, r) }) }
    pub fn reverse_rows(&mut self) { let h = self.header as usize; if self.rows.len() > h { self.rows[h..].reverse() } }
    pub fn reverse_cols_par(&mut self) { for r in &mut self.rows { r.reverse() } }
    pub fn sort<F: Fn(&Entry<T>, &Entry<T>) -> Ordering>(&mut self, c: usize, f: F) { let h = self.header as usize; if self.rows.len() > h { self.rows[h..].sort_by(|a, b| f(&a[c], &b[c])) } }
    pub fn map_obj<U, F: Fn(T) -> U>(self, f: F) -> Table<U> { Table { rows: self.rows.into_iter().map(|r| r.into_iter().map(|e| e.map_obj(&f)).collect()).collect(), cols: self.cols, header: self.header } }
    pub fn into_raw(self) -> Vec<Vec<Entry<T>>> { self.rows }
    pub fn clone_with_col_capacity(&self, _: usize) -> Self where T: Clone { self.clone() }
}

/// Parses delimiter separated values.
pub fn parse_dsv(d: char, s: &str) -> DataTable {
    let mut rows = Vec::new();
    let mut row: Vec<Entry<Str>> = Vec::new();
    let cell = |c: &mut String, quoted: bool| {
        let c = std::mem::take(c);
        if c.is_empty() && !quoted { Entry::Nil } else if let (false, Ok(n)) = (quoted, c.parse::<Number>()) { Entry::Num(n) } else { Entry::Obj(Str::from(c)) }
    };
    let (mut c, mut q, mut wasq, mut any) = (String::new(), false, false, false);
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        any = true;
        if q {
            if ch == '"' { if it.peek() == Some(&'"') { it.next(); c.push('"') } else { q = false } } else { c.push(ch) }
        } else if ch == '"' && c.is_empty() { q = true; wasq = true }
        else if ch == d { row.push(cell(&mut c, wasq)); wasq = false }
        else if ch == '\n' || (ch == '\r' && it.peek() == Some(&'\n')) {
            if ch == '\r' { it.next(); }
            row.push(cell(&mut c, wasq)); wasq = false; rows.push(std::mem::take(&mut row)); any = false;
        } else { c.push(ch) }
    }
    if any { row.push(cell(&mut c, wasq)); rows.push(row); }
    DataTable::from(rows)
}
