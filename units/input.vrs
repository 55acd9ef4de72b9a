use vstd::prelude::*;
verus! {
//@include input_c.vrs
}
fn main() {}
