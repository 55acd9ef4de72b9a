use vstd::prelude::*;
use std::sync::Arc;
macro_rules! debug { ($($t:tt)*) => { () } }
verus! {
//@include ls_c.vrs
}
fn main() {}
