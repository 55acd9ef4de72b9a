use vstd::prelude::*;
use std::collections::VecDeque;
use std::cmp::Ordering;
use std::sync::Arc;
verus! {
//@include shell_c.vrs
}
fn main() {}
