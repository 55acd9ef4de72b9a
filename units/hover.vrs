use vstd::prelude::*;
verus! {
//@include hover_c.vrs
}
fn main() {}
