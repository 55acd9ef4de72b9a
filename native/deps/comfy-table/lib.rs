//! Stand-in for `comfy-table`: the UTF8_FULL preset without horizontal lines.
use std::fmt;
use unicode_width::UnicodeWidthStr;
pub enum TableComponent { HorizontalLines, MiddleIntersections, LeftBorderIntersections, RightBorderIntersections }
pub mod presets { pub const UTF8_FULL: &str = ""; }
pub struct Cell(String);
impl<T: ToString> From<T> for Cell { fn from(t: T) -> Self { Cell(t.to_string()) } }
pub struct Row(Vec<String>);
impl<I: IntoIterator> From<I> for Row where I::Item: Into<Cell> { fn from(i: I) -> Self { Row(i.into_iter().map(|x| x.into().0).collect()) } }
#[derive(Default)]
pub struct Table { header: Option<Vec<String>>, rows: Vec<Vec<String>> }
impl Table {
    pub fn new() -> Self { Self::default() }
    pub fn set_header<T: Into<Row>>(&mut self, r: T) -> &mut Self { self.header = Some(r.into().0); self }
    pub fn add_row<T: Into<Row>>(&mut self, r: T) -> &mut Self { self.rows.push(r.into().0); self }
    pub fn load_preset(&mut self, _: &str) -> &mut Self { self }
    pub fn remove_style(&mut self, _: TableComponent) -> &mut Self { self }
}
impl fmt::Display for Table {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let all = || self.header.iter().chain(self.rows.iter());
        let n = all().map(|r| r.len()).max().unwrap_or(0);
        let w: Vec<usize> = (0..n).map(|c| all().map(|r| r.get(c).map_or(0, |x| x.lines().map(|l| l.width()).max().unwrap_or(0))).max().unwrap_or(0)).collect();
        let line = |f: &mut fmt::Formatter, l: &str, m: &str, s: &str, r: &str| -> fmt::Result {
            write!(f, "{}", l)?;
            for (i, x) in w.iter().enumerate() { if i > 0 { write!(f, "{}", s)? } write!(f, "{}", m.repeat(x + 2))?; }
            write!(f, "{}", r)
        };
        let row = |f: &mut fmt::Formatter, r: &Vec<String>| -> fmt::Result {
            let h = r.iter().map(|c| c.lines().count()).max().unwrap_or(1).max(1);
            for k in 0..h {
                write!(f, "│")?;
                for (i, x) in w.iter().enumerate() {
                    if i > 0 { write!(f, "┆")? }
                    let c = r.get(i).and_then(|c| c.lines().nth(k)).unwrap_or("");
                    write!(f, " {}{} ", c, " ".repeat(x - c.width()))?;
                }
                writeln!(f, "│")?;
            }
            Ok(())
        };
        line(f, "┌", "─", "┬", "┐")?; writeln!(f)?;
        if let Some(h) = &self.header { row(f, h)?; line(f, "╞", "═", "╪", "╡")?; writeln!(f)?; }
        for r in &self.rows { row(f, r)?; }
        line(f, "└", "─", "┴", "┘")
    }
}
