//@ quorum sets with names instead of numbers
@type PrettyQuorumSet

@fn QuorumSet::into_pretty_quorum_set
@attr #[verifier::exec_allows_no_decreases_clause]
@replace Some(ref orgs) => Some(orgs)
@spec
    requires fits_g(*fbas, groupings), inr(*fbas, qn(self))
    ensures pretty(*fbas, groupings, self, r)
@entry
    let ghost q0 = self;
@before let QuorumSet
    let ghost mq = quorum_set;
    proof { assert(premerged(groupings, q0, mq)); lem_inner_inr(*fbas, groupings, q0, mq); }
@closure 1 : PrettyQuorumSet
    requires inr(*fbas, qn($1)), fits_g(*fbas, groupings), ensures pretty(*fbas, groupings, $1, vr),
@tail
    proof { lem_pretty_q(*fbas, groupings, q0, mq, vp_tail); }
