use vstd::prelude::*;
verus! {
//@include wrap_c.vrs
}
fn main() {}
