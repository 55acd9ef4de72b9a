use vstd::prelude::*;
verus! {
//@include vars_c.vrs
}
fn main() {}
