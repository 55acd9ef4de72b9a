use vstd::prelude::*;
use std::collections::VecDeque;
use std::cmp::Ordering;
verus! {
//@include outputs_c.vrs
}
fn main() {}
