use vstd::prelude::*;
verus! {
//@include defs_c.vrs
}
fn main() {}
