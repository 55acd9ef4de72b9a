use vstd::prelude::*;
verus! {
//@include rows_c.vrs
}
fn main() {}
