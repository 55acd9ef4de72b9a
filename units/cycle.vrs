/// a selection cursor over n entries plus the neutral position
pub open spec fn max1(n: nat) -> nat { if n == 0 { 1 } else { n } }

pub open spec fn step_back(c: Option<int>, n: int) -> Option<int> {
    match c {
        None => if n == 0 { None } else { Some(n - 1) },
        Some(i) => if i == 0 { None } else { Some(i - 1) },
    }
}
pub open spec fn step_fwd(c: Option<int>, n: int) -> Option<int> {
    match c {
        None => if n == 0 { None } else { Some(0int) },
        Some(i) => if i == n - 1 { None } else { Some(i + 1) },
    }
}
pub open spec fn valid(c: Option<int>, n: int) -> bool { n >= 0 && match c { None => true, Some(i) => 0 <= i < n } }

proof fn lemma_inverse(c: Option<int>, n: int)
    requires valid(c, n)
    ensures
        step_fwd(step_back(c, n), n) == c,
        step_back(step_fwd(c, n), n) == c,
        valid(step_back(c, n), n), valid(step_fwd(c, n), n),
{}

pub open spec fn back_k(c: Option<int>, n: int, k: nat) -> Option<int> decreases k {
    if k == 0 { c } else { step_back(back_k(c, n, (k - 1) as nat), n) }
}
/// k steps back from neutral show the k-th newest entry; one more than all of them is neutral again
proof fn lemma_recall_order(n: int, k: nat)
    requires 0 <= n, k <= n + 1
    ensures back_k(None, n, k) == (if k == 0 || (k == n + 1) { None::<int> } else { Some(n - k) })
    decreases k
{
    if k > 0 { lemma_recall_order(n, (k - 1) as nat); }
}

