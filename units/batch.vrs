use vstd::prelude::*;
verus! {
//@include batch_c.vrs
}
fn main() {}
