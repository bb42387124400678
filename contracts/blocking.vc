@fn is_blocked_set
@spec
    requires inr(*fbas, nodes@)
    ensures r == !has_q(*fbas, nodes@)

@fn is_minimal_for_blocking_set_with_precomputed_blocked_set
@spec
    requires inr(*fbas, blocking_set@), inr(*fbas, blocked_set@), blocking_set@.disjoint(blocked_set@), !has_q(*fbas, blocked_set@)
    ensures r == min_bl(*fbas, blocking_set@.union(blocked_set@), blocking_set@)
@entry
    broadcast use lem_bl_by_one;
@loop 1
    it1_all == elems(blocking_set@), tester@ == blocked_set@, inr(*fbas, blocking_set@), inr(*fbas, blocked_set@),
    blocking_set@.disjoint(blocked_set@), !has_q(*fbas, blocked_set@),
    forall|i: int| 0 <= i < it1.pos() ==> has_q(*fbas, blocked_set@.insert(#[trigger] elems(blocking_set@)[i])),
@loopbegin 1
    proof { assert(blocking_set@.contains(elems(blocking_set@)[it1_i])); }
@loopend 1
    proof { assert(tester@ =~= blocked_set@); }

@fn minimal_blocking_sets_finder_step
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires bl_state(*fbas, old(selection)@.union(old(remaining)@), old(unprocessed)@, old(selection)@, old(remaining)@, old(max_remaining)@),
        !selection_changed ==> has_q(*fbas, old(remaining)@)
    ensures final(unprocessed)@ == old(unprocessed)@, final(selection)@ == old(selection)@, final(remaining)@ == old(remaining)@, final(max_remaining)@ == old(max_remaining)@,
        extended(old(found_blocking_sets)@, final(found_blocking_sets)@, mbs(*fbas, old(selection)@.union(old(remaining)@), old(selection)@, old(unprocessed)@))
@entry
    broadcast use bl_lemmas;

@fn QuorumSet::to_blocking_sets
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires can(*self)
    ensures slices_ok(dual(*self), r@)
@entry
    broadcast use lem_dual_slices, lem_views, lem_live_can;
    proof { ax_vec_limit(self); }
@closure 1 : Vec<BitSet>
    requires true, ensures vr@.len() == 1, vr@[0]@ == Set::<usize>::empty().insert(*$1),
@closure 2
    requires true, ensures vr == can(**$1),
@closure 3 : Vec<BitSet>
    requires can(*$1), ensures slices_ok(dual(*$1), vr@),
@closure 4 : Vec<BitSet>
    requires true, ensures row($1@, vr@),
@closure 5 : It<BitSet>
    requires true, ensures vr@ == $1@,
@closure 6 : BitSet
    requires true, ensures vr@ == union_all($1@),
@loop 1
    slice@ == union_all(it1_all.take(it1.pos())),
@loopbegin 1
    proof { assert(it1_all.take(it1_i + 1).drop_last() =~= it1_all.take(it1_i)); assert(it1_all.take(it1_i + 1).last() == it1_all[it1_i]); }
@loopdone 1
    proof { assert(it1_all.take(it1_all.len() as int) =~= it1_all); }

@fn QuorumSet::to_minimal_blocking_sets
@spec
    requires can(*self)
    ensures antichain(r@), forall|s: Set<usize>| #[trigger] has(r@, s) <==> min_sat(dual(*self), s)
@entry
    broadcast use lem_min_slices;
    proof { lem_dual_flat(*self); }

@fn minimal_blocking_sets_finder
@spec
    requires wf(*fbas), clusters_ok(*fbas, consensus_clusters@)
    ensures mbl_list(*fbas, r@)
@entry
    broadcast use bl_find_lemmas;
@loop 1
    it1_all.len() == consensus_clusters@.len(), forall|i: int| 0 <= i < it1_all.len() ==> #[trigger] it1_all[i] == (i as usize, consensus_clusters@[i]),
    wf(*fbas), clusters_ok(*fbas, consensus_clusters@),
    bl_per(*fbas, consensus_clusters@.take(it1.pos()), found_blocking_sets_per_cluster@),
@loopbegin 1
    let ghost a0 = found_blocking_sets_per_cluster@;
    proof {
        let c = consensus_clusters@[it1_i];
        assert(one_comp(*fbas, greatest(*fbas), c@));
        assert(has_q(*fbas, c@));
    }
@loopend 1
    proof {
        let cc = consensus_clusters@;
        let fb = found_blocking_sets_per_cluster@;
        assert(cc.take(it1_i + 1) =~= cc.take(it1_i).push(cc[it1_i]));
        assert(fb =~= a0.push(fb[fb.len() - 1]));
        assert(bl_of(*fbas, cc[it1_i]@, fb[fb.len() - 1]@));
        lem_bl_per_push(*fbas, cc.take(it1_i), cc[it1_i], a0, fb[fb.len() - 1]);
    }
@loopdone 1
    proof { assert(consensus_clusters@.take(consensus_clusters@.len() as int) =~= consensus_clusters@); }
@closure 1 : It<BitSet>
    requires true, ensures vr@ == $1@,
@closure 2 : BitSet
    requires true, ensures vr@ == union_all($1@),
@loop 2
    combined_blocking_set@ == union_all(it2_all.take(it2.pos())),
@loopbegin 2
    proof { assert(it2_all.take(it2_i + 1).drop_last() =~= it2_all.take(it2_i)); assert(it2_all.take(it2_i + 1).last() == it2_all[it2_i]); }
@loopdone 2
    proof { assert(it2_all.take(it2_all.len() as int) =~= it2_all); }

@fn find_minimal_blocking_sets
@spec
    requires wf(*fbas)
    ensures canonical(r@), mbl_list(*fbas, r@)
@entry
    broadcast use bl_find_lemmas;
