//@ expanding quorum sets into slices
@fn QuorumSet::to_quorum_slices
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures slices_ok(*self, r@)
@entry
    broadcast use lem_groups, lem_slices_of, lem_slices_none, lem_views;
    proof { ax_vec_limit(self); }
@closure 1 : Vec<BitSet>
    requires true, ensures vr@.len() == 1, vr@[0]@ == Set::<usize>::empty().insert(*$1),
@closure 2 : Vec<BitSet>
    requires true, ensures slices_ok(*$1, vr@),
@closure 3 : Vec<BitSet>
    requires true, ensures row($1@, vr@),
@closure 4 : It<BitSet>
    requires true, ensures vr@ == $1@,
@closure 5 : BitSet
    requires true, ensures vr@ == union_all($1@),
@loop 1
    slice@ == union_all(it1_all.take(it1.pos())),
@loopbegin 1
    proof { assert(it1_all.take(it1_i + 1).drop_last() =~= it1_all.take(it1_i)); assert(it1_all.take(it1_i + 1).last() == it1_all[it1_i]); }
@loopdone 1
    proof { assert(it1_all.take(it1_all.len() as int) =~= it1_all); }

@fn QuorumSet::to_minimal_quorums
@spec
    ensures antichain(r@), forall|s: Set<usize>| #[trigger] has(r@, s) <==> min_sat(*self, s)
@entry
    broadcast use lem_min_slices;
