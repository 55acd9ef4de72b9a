use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include completions_c.vrs
}
fn main() {}
