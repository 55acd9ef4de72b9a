use vstd::prelude::*;
use std::collections::VecDeque;
use std::cmp::Ordering;
use std::sync::Arc;
verus! {
//@include screen_c.vrs
//@include bar_c.vrs
}
fn main() {}
