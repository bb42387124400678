@fn sets::involved_nodes
@spec
    ensures r@ == union_all(node_sets@)
@loop 1
    it1_all == refs(node_sets@), all_nodes@ == union_all(node_sets@.take(it1.pos())),
@loopend 1
    proof { assert(node_sets@.take(it1_i + 1).drop_last() =~= node_sets@.take(it1_i)); }
@tail
    proof { assert(node_sets@.take(node_sets@.len() as int) =~= node_sets@); }

@fn all_intersect
@spec
    ensures r == pairwise_intersect(node_sets@)
@closure 2
    requires $1.0 < node_sets@.len() <= usize::MAX, ensures vr == (forall|j: int| $1.0 < j < node_sets@.len() ==> !$1.1@.disjoint((#[trigger] node_sets@[j])@)),
@entry
    proof { if forall|i: int| 0 <= i < node_sets@.len() ==> (#[trigger] node_sets@[i])@.len() > union_all(node_sets@).len() / 2 { lem_pigeonhole(node_sets@); } }

@fn is_set_of_minimal_node_sets
@spec
    ensures r == antichain(node_sets@)
@closure 1 : bool
    requires true, ensures vr == (forall|j: int| 0 <= j < node_sets@.len() ==> ($1.0 == j || !$1.1@.subset_of((#[trigger] node_sets@[j])@))),

@fn remove_non_minimal_node_sets_from_buckets
@replace impl IntoIterator<Item = NodeIdSet> => Vec<NodeIdSet>
@spec
    requires buckets_ok(buckets_by_len@),
    ensures forall|s: Set<usize>| #[trigger] has(r@, s) <==> min_b(buckets_by_len@, s), canonical(r@), antichain(r@)
@entry
    let ghost bk = buckets_by_len@;
@loop 1
    it1_all.len() == bk.len(), forall|k: int| 0 <= k < bk.len() ==> (#[trigger] it1_all[k]).0 == k && it1_all[k].1 == bk[k],
    buckets_ok(bk), min_upto(bk, it1.pos(), minimal_node_sets@), minimal_node_sets_current_len@.len() == 0,
@loop 2
    it2_all == bk[it1_i]@, 0 <= it1_i < bk.len(), buckets_ok(bk), min_upto(bk, it1_i, minimal_node_sets@),
    cur_upto(bk[it1_i]@, it2.pos(), minimal_node_sets@, minimal_node_sets_current_len@),
@loopbegin 2
    proof { lem_cur_push(bk[it1_i]@, it2_i, minimal_node_sets@, minimal_node_sets_current_len@); }
@before minimal_node_sets.append
    proof { lem_bucket_done(bk, it1_i, minimal_node_sets@, minimal_node_sets_current_len@); }
@before debug_assert!
    proof { lem_min_upto_all(bk, minimal_node_sets@); }

@fn remove_non_minimal_node_sets
@spec
    ensures forall|s: Set<usize>| #[trigger] has(r@, s) <==> min_of(node_sets@, s), canonical(r@), antichain(r@)
@entry
    broadcast use order_lemmas;
    let ghost orig = node_sets@;
@before let max_len_upper_bound
    let ghost nd = node_sets@;
@loopbegin 1
    let ghost b0 = buckets_by_len@;
@loopend 1
    proof { lem_filled(nd, it1_i, b0, buckets_by_len@); }
@before remove_non_minimal_node_sets_from_buckets
    proof { lem_min_of_b(orig, nd, buckets_by_len@); }
@loop 1
    it1_all == nd, ascending(nd), filled(nd, it1.pos(), buckets_by_len@), buckets_by_len@.len() == max_len_upper_bound,
    forall|i: int| 0 <= i < nd.len() ==> (#[trigger] nd[i])@.len() < max_len_upper_bound,
