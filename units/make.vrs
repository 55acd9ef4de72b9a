use vstd::prelude::*;
verus! {
//@include make_c.vrs
}
fn main() {}
