@fn find_sets
@spec
    requires wf(*fbas), forall|cc: Vec<BitSet>| clusters_ok(*fbas, cc@) ==> #[trigger] finder.requires((cc, fbas))
    ensures exists|cc: Vec<BitSet>| clusters_ok(*fbas, cc@) && #[trigger] finder.ensures((cc, fbas), r)
@entry
    broadcast use lem_greatest_is, lem_comp_inr, lem_clusters;
    proof { lem_all_ids(*fbas); assert(range_seq(0, fbas.nodes@.len() as usize).to_set() == all_ids(*fbas)); }
@closure+ 1
    requires inr(*fbas, $1@)

@fn find_minimal_sets
@spec
    requires wf(*fbas), forall|cc: Vec<BitSet>| clusters_ok(*fbas, cc@) ==> #[trigger] finder.requires((cc, fbas)),
        forall|cc: Vec<BitSet>, s: Vec<BitSet>| clusters_ok(*fbas, cc@) && #[trigger] finder.ensures((cc, fbas), s) ==> antichain(s@)
    ensures canonical(r@), antichain(r@),
        exists|cc: Vec<BitSet>, s: Vec<BitSet>| clusters_ok(*fbas, cc@) && #[trigger] finder.ensures((cc, fbas), s) && rearranged(s@, r@) && (forall|x: Set<usize>| #[trigger] has(r@, x) <==> has(s@, x))
@entry
    broadcast use lem_canonical_by;
