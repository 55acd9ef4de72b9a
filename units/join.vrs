use vstd::prelude::*;
verus! {
//@include join_c.vrs
}
fn main() {}
