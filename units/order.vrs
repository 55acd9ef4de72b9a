use vstd::prelude::*;
use core::cmp;
verus! {
//@include order_c.vrs
}
fn main() {}
