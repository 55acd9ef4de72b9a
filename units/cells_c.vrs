/// what a cell is shown as
pub uninterp spec fn num_text(style: int, x: NumF) -> Seq<char>;
pub uninterp spec fn size_text(rows: nat, cols: nat) -> Seq<char>;
pub uninterp spec fn data_text(d: OgmaData) -> Seq<char>;
pub open spec fn bool_text(b: bool) -> Seq<char> { if b { "true"@ } else { "false"@ } }
pub open spec fn cell_text(e: Entry) -> Seq<char> { cell_by(plain_style(), e) }
/// the styles of a new and of a default number formatter
pub uninterp spec fn plain_style() -> int;
pub uninterp spec fn usual_style() -> int;
pub open spec fn cell_by(style: int, e: Entry) -> Seq<char> {
    match val_of(e) {
        Value::Nil => "-"@, Value::Num(n) => num_text(style, num_f(n)), Value::Bool(b) => bool_text(b), Value::Str(s) => s@,
        Value::Tab(t) => size_text(t@.len(), t.width()), Value::TabRow(_) => "<table row>"@, Value::Ogma(d) => data_text(d),
    }
}
pub uninterp spec fn num_f(n: Number) -> NumF;
#[verifier::external_body] pub struct NumF { p: u8 }
impl Number { #[verifier::external_body] pub fn as_f64(&self) -> (r: NumF) ensures r == num_f(*self) { unimplemented!() } }
#[verifier::external_body] pub struct Formatter { p: u8 }
// assume: a formatter writes a number the same way each time
impl Formatter {
    pub uninterp spec fn style(&self) -> int;
    #[verifier::external_body] pub fn new() -> (r: Formatter) ensures r.style() == plain_style() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Formatter) ensures r.style() == usual_style() { unimplemented!() }
    #[verifier::external_body] pub fn fmt(&mut self, x: NumF) -> (r: &str) ensures r@ == num_text(old(self).style(), x), final(self).style() == old(self).style() { unimplemented!() }
}
#[verifier::external_body] pub fn print_ogma_data(d: OgmaData) -> (r: String) ensures r@ == data_text(d) { unimplemented!() }
#[verifier::external_body] pub fn v_size_text(rows: usize, cols: usize) -> (r: Str) ensures r@ == size_text(rows as nat, cols as nat) { unimplemented!() }
#[verifier::external_body] pub fn v_bool_text(b: bool) -> (r: Str) ensures r@ == bool_text(b) { unimplemented!() }
impl Clone for OgmaData { #[verifier::external_body] fn clone(&self) -> (r: OgmaData) ensures r == *self { unimplemented!() } }
impl To<Str> for String { open spec fn to(self) -> Str { str_of(self@) } #[verifier::external_body] fn v_to(self) -> Str { unimplemented!() } }
//@src ogma/src/output/print.rs
//@known print_ogma_data
//@fn fmt_cell
//@sig pub fn fmt_cell(entry: &Entry, numfmtr: &mut Formatter) -> (ret: Str)
    ensures ret@ == cell_by(old(numfmtr).style(), *entry), final(numfmtr).style() == old(numfmtr).style()
//@head
    broadcast use str_of_chars;
//@endfn
