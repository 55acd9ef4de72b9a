use vstd::prelude::*;
verus! {
//@include style_c.vrs
}
fn main() {}
