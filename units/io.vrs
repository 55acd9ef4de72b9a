use vstd::prelude::*;
verus! {
//@include io_c.vrs
}
fn main() {}
