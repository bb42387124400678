//@ preprocessing
@fn partition_into_strongly_connected_components
@spec
    requires wf(*fbas), inr(*fbas, nodes@)
    ensures comps_of(*fbas, nodes@, r@)
@entry
    broadcast use lem_filter_set, lem_sccs_edge, lem_comps;
    proof { assert(bnd(fbas.nodes@.len() as int)); }
@closure 1
    requires *$1 < fbas.nodes@.len(), ensures forall|y: usize| #[trigger] vr@.contains(y) <==> mentions(fbas.nodes@[*$1 as int].quorum_set, y),
@closure 2 : BitSet
    requires true, ensures forall|y: usize| #[trigger] vr@.contains(y) <==> $1@.contains(y) && nodes@.contains(y),
@closure 3
    requires true, ensures vr == nodes@.contains(*$1),

@fn Fbas::strongly_connected_components
@spec
    requires wf(*self)
    ensures comps_of(*self, all_ids(*self), r@)
@entry
    proof { lem_all_ids(*self); }

@fn Fbas::relevant_nodes
@spec
    requires wf(*self)
    ensures forall|x: usize| #[trigger] r@.contains(x) <==> relevant(*self, x)
@entry
    broadcast use lem_greatest_is, lem_comp_inr;
    proof { lem_all_ids(*self); }
@loop 1
    comps_of(*self, greatest(*self), it1_all), inr(*self, greatest(*self)), wf(*self),
    forall|x: usize| #[trigger] relevant_nodes@.contains(x) <==> in_good(*self, it1_all.take(it1.pos()), x),
@loopbegin 1
    proof { assert(it1_all.take(it1_i + 1).drop_last() =~= it1_all.take(it1_i)); assert(it1_all.take(it1_i + 1).last() == it1_all[it1_i]); }
@loopdone 1
    proof { assert(it1_all.take(it1_all.len() as int) =~= it1_all); lem_in_good(*self, it1_all); }

@type preprocessing::RankScore

@fn preprocessing::rank_nodes
@spec
    requires nodes@.no_duplicates(), forall|x: usize| #[trigger] nodes@.contains(x) ==> x < fbas.nodes@.len(), wf(*fbas)
    ensures r@.len() == fbas.nodes@.len(), nums(r@)
@entry
    broadcast use float_nums, lem_filter_set;
    proof { nodes@.unique_seq_to_set(); assert(derefs(refs(nodes@)) =~= nodes@); }
@loop 1
    it1_all == range_seq(0, runs), scores@.len() == fbas.nodes@.len(), nums(scores@), nodes_set@ == nodes@.to_set(), forall|x: usize| #[trigger] nodes@.contains(x) ==> x < fbas.nodes@.len(),
@loop 2
    it2_all == nodes@, scores@.len() == fbas.nodes@.len(), nums(scores@), last_scores@.len() == fbas.nodes@.len(), nums(last_scores@), nodes_set@ == nodes@.to_set(), forall|x: usize| #[trigger] nodes@.contains(x) ==> x < fbas.nodes@.len(),
@loopbegin 2
    proof { assert(nodes@.contains(it2_all[it2_i])); }
@before for trusted_node_id
    let ghost tn = trusted_nodes@;
    let ghost tl = trusted_nodes.s_len() as usize;
    proof { ax_bitset_len(trusted_nodes); assert(tl == tn.len()); assert forall|x: usize| #[trigger] tn.contains(x) implies tl >= 1 by { } }
@loop 3
    forall|x: usize| #[trigger] it3_all.contains(x) ==> nodes@.contains(x) && tl >= 1, l == fof(tl),
    scores@.len() == fbas.nodes@.len(), nums(scores@), last_scores@.len() == fbas.nodes@.len(), nums(last_scores@), node_id < last_scores@.len(), forall|x: usize| #[trigger] nodes@.contains(x) ==> x < fbas.nodes@.len(),
@loopbegin 3
    proof { assert(it3_all.contains(it3_all[it3_i])); assert(num(last_scores@[node_id as int])); assert(num(scores@[trusted_node_id as int])); assert(num(fdiv(last_scores@[node_id as int], fof(tl)))); }

@fn sort_by_rank
@spec
    requires nodes@.no_duplicates(), forall|x: usize| #[trigger] nodes@.contains(x) ==> x < fbas.nodes@.len(), wf(*fbas)
    ensures rearranged(nodes@, r@)
@entry
    broadcast use lem_rearranged;
@closure 1
    requires *$1 < fbas.nodes@.len(), *$2 < fbas.nodes@.len(), nums(scores@),
