@fn QuorumSet::to_splitting_sets
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires canu(*self)
    ensures split_ok(*self, r@)
@entry
    broadcast use lem_spl_groups, lem_spl_slices, lem_splitsat, lem_views, lem_live_canu;
    proof { ax_vec_limit(self); lem_can_thr(*self); lem_supp_disjoint(*self); }
@closure 1 : Vec<BitSet>
    requires true, ensures vr@.len() == 1, vr@[0]@ == Set::<usize>::empty().insert(*$1),
@closure 2
    requires true, ensures vr == can(**$1),
@closure 3 : Vec<BitSet>
    requires canu(*$1), ensures split_ok(*$1, vr@),
@closure 4 : bool
    requires true, ensures vr == !(has($1@, Set::<usize>::empty())),
@closure 5 : Vec<BitSet>
    requires true, ensures row($1@, vr@),
@closure 6 : It<BitSet>
    requires true, ensures vr@ == $1@,
@closure 7 : BitSet
    requires true, ensures vr@ == union_all($1@),
@loop 1
    slice@ == union_all(it1_all.take(it1.pos())),
@loopbegin 1
    proof { assert(it1_all.take(it1_i + 1).drop_last() =~= it1_all.take(it1_i)); assert(it1_all.take(it1_i + 1).last() == it1_all[it1_i]); }
@loopdone 1
    proof { assert(it1_all.take(it1_all.len() as int) =~= it1_all); }

@fn QuorumSet::to_minimal_splitting_sets
@spec
    requires canu(*self), !splitsat(*self)
    ensures min_twos(*self, r@)
@entry
    broadcast use lem_spl_result;

@fn QuorumSet::splitting_threshold
@spec
    ensures r == sthr(*self)
@entry
    proof { ax_vec_limit(self); }

@fn QuorumSet::is_slice_intersection
@with
    pub open spec fn s_is_slice_intersection(&self, s: &BitSet) -> bool { si(*self, s@) }
@attr #[verifier::when_used_as_spec(s_is_slice_intersection)]
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures r == si(*self, node_set@)
@entry
    broadcast use si_lemmas;

@fn Node::is_slice_intersection
@with
    pub open spec fn s_is_slice_intersection(&self, s: &BitSet) -> bool { si(self.quorum_set, s@) }
@attr #[verifier::when_used_as_spec(s_is_slice_intersection)]
@spec
    ensures r == si(self.quorum_set, node_set@)

@fn has_potential
@spec
    requires inr(*fbas, selection@)
    ensures r == pot(*fbas, selection@, available@)

@fn is_quorum_intersection
@spec
    requires inr(*fbas, selection@)
    ensures r == is_qint(*fbas, selection@, relevant_quorum_parts@)

@fn splitting_sets_finder_step
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires ss_state(*fbas, old(unprocessed)@, old(selection)@, old(available)@, relevant_quorum_parts@, selection_changed)
    ensures final(unprocessed)@ == old(unprocessed)@, final(selection)@ == old(selection)@, final(available)@ == old(available)@,
        ss_done(*fbas, old(selection)@, old(available)@, old(found_splitting_sets)@, final(found_splitting_sets)@)
@entry
    broadcast use ss_lemmas;
@closure 2 : BitSet
    requires true, ensures vr@ == $1@.remove(current_candidate),

@fn minimal_splitting_sets_finder
@spec
    requires wf(*fbas), clusters_ok(*fbas, consensus_clusters@), qi(*fbas), mq_list(*fbas, minimal_quorums@)
    ensures split_list(*fbas, r@)
@entry
    broadcast use split_finder_lemmas;
    proof { lem_one_cluster(*fbas, consensus_clusters@); }
@loop 1
    it1_all.len() == consensus_clusters@.len(), forall|i: int| 0 <= i < it1_all.len() ==> #[trigger] it1_all[i] == (i as usize, consensus_clusters@[i]),
    wf(*fbas), clusters_ok(*fbas, consensus_clusters@), qi(*fbas), mq_list(*fbas, minimal_quorums@), consensus_clusters@.len() <= 1,
    split_upto(*fbas, consensus_clusters@, it1.pos(), found_splitting_sets@),
@loopbegin 1
    proof {
        let c = consensus_clusters@[it1_i];
        assert(one_comp(*fbas, greatest(*fbas), c@));
    }
@loopdone 1
    proof { if consensus_clusters@.len() == 0 { lem_no_cluster(*fbas, consensus_clusters@, found_splitting_sets@); } }

@fn find_minimal_splitting_sets
@spec
    requires wf(*fbas), qi(*fbas), mq_list(*fbas, minimal_quorums@)
    ensures canonical(r@), split_list(*fbas, r@)
@entry
    broadcast use lem_split_same, mq_finder_lemmas;
@closure 1 : Vec<BitSet>
    requires clusters_ok(*$2, $1@), wf(*$2), qi(*$2), mq_list(*$2, minimal_quorums@), ensures split_list(*$2, vr@),
