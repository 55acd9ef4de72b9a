use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include cursor_c.vrs
}
fn main() {}
