use vstd::prelude::*;
verus! {
//@include cols_c.vrs
}
fn main() {}
