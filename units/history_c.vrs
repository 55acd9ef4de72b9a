//@include std_option.rules
//@src ogma-shell/interface/history.rs
//@item History
//@const LIM

//@include cycle.vrs
/// What a user can tell about the cursor: `None` is the neutral position.
pub open spec fn cur(h: History) -> Option<int> {
    match h.idx {
        Some(i) => if (i as int) < h.items@.len() { Some(i as int) } else { None },
        None => None,
    }
}

pub open spec fn wfh(h: History) -> bool {
    &&& h.items@.len() <= 100
    &&& match h.idx { Some(i) => (i as nat) < max1(h.items@.len()), None => true }
}

/// newest hundred of a sequence
pub open spec fn newest<A>(s: Seq<A>) -> Seq<A> {
    if s.len() <= 100 { s } else { s.subrange(s.len() - 100, s.len() as int) }
}

impl History {
//@fn History::new
    ensures
        wfh(ret), ret.items@ =~= Seq::<String>::empty(), cur(ret) is None,
//@endfn
//@fn History::current
//@params self
    requires wfh(*self)
    ensures
        ret is None <==> cur(*self) is None,
        ret is Some ==> ret.unwrap()@ == self.items@[cur(*self).unwrap()]@,
//@endfn
//@fn History::back
//@params self
    requires wfh(*old(self))
    ensures
        wfh(*final(self)),
        final(self).items@ =~= old(self).items@,
        cur(*final(self)) == step_back(cur(*old(self)), old(self).items@.len() as int),
//@endfn
//@fn History::fwd
//@params self
    requires wfh(*old(self))
    ensures
        wfh(*final(self)),
        final(self).items@ =~= old(self).items@,
        cur(*final(self)) == step_fwd(cur(*old(self)), old(self).items@.len() as int),
//@endfn
//@fn History::add
//@params self line
    requires wfh(*old(self))
    ensures
        wfh(*final(self)),
        final(self).items@ =~= newest(old(self).items@.push(line)),
        cur(*final(self)) is None,
//@loop 0
    invariant
        self.items@.len() <= old(self).items@.len() <= 100,
        self.items@.len() == old(self).items@.len() || self.items@.len() >= 99,
        forall|k: int| 0 <= k < self.items@.len() ==> self.items@[k] == old(self).items@[k + old(self).items@.len() - self.items@.len()],
    decreases self.items@.len()
//@endfn
}
