use vstd::prelude::*;
verus! {
//@include history_c.vrs
}
fn main() {}
