use vstd::prelude::*;
verus! {
//@include events_c.vrs
}
fn main() {}
