use vstd::prelude::*;
verus! {
//@include file_c.vrs
}
fn main() {}
