@type Analysis

@fn Analysis::new
@spec
    requires keyed(*fbas), wf(*fbas)
    ensures an_ok(r), r.fbas_original == *fbas, fresh(r)
@entry
    broadcast use front_lemmas;

@fn Analysis::all_nodes
@spec
    requires an_ok(*self)
    ensures r.node_set@ == all_ids(self.fbas_original)

@fn Analysis::satisfiable_nodes
@spec
    requires an_ok(*self)
    ensures is_greatest(self.fbas_original, all_ids(self.fbas_original), r.node_set@)

@fn Analysis::unsatisfiable_nodes
@spec
    requires an_ok(*self)
    ensures exists|g: Set<usize>| is_greatest(self.fbas_original, all_ids(self.fbas_original), g) && r.node_set@ == all_ids(self.fbas_original).difference(g)

@fn Analysis::symmetric_top_tier
@spec
    requires an_ok(*self)
    ensures sym_tt(self.fbas_original, r)

@fn Analysis::symmetric_clusters
@spec
    requires an_ok(*self)
    ensures r@.no_duplicates(), forall|q: QuorumSet| #![trigger r@.contains(q)] #![trigger sym_cluster(self.fbas_original, q)] r@.contains(q) <==> sym_cluster(self.fbas_original, q)

@fn Analysis::make_unshrunken_set_result
@spec
    ensures r.node_set@ == payload@

@fn Analysis::make_shrunken_set_result
@spec
    requires within(self.shrink_manager.unshrink_table@, payload@)
    ensures r.node_set@ == to_old(self.shrink_manager.unshrink_table@, payload@)

@fn Analysis::make_shrunken_set_vec_result
@spec
    requires inc(self.shrink_manager.unshrink_table@), all_within(self.shrink_manager.unshrink_table@, payload@)
    ensures vr_ok(r), orig(r) == olds(self.shrink_manager.unshrink_table@, payload@), r.node_sets@.len() == payload@.len()

@fn Analysis::has_quorum_intersection
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires an_ok(*old(self))
    ensures an_ok(*final(self)), final(self).fbas_original == old(self).fbas_original, r == hqi(old(self).fbas_original),
        old(self).mq_shrunken_cache is Some ==> same_ids(*old(self), *final(self))

@fn Analysis::has_quorum_intersection_from_shrunken
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires an_ok(*old(self))
    ensures an_ok(*final(self)), final(self).fbas_original == old(self).fbas_original, r == hqi(old(self).fbas_original),
        old(self).mq_shrunken_cache is Some ==> same_ids(*old(self), *final(self))
@entry
    broadcast use front_lemmas;

@fn Analysis::has_quorum_intersection_via_alternative_check
@spec
    requires an_ok(*self)
    ensures r.0 == hqi(self.fbas_original), match r.1 { Some(v) => vr_ok(v) && disjoint_qs(self.fbas_original, orig(v)), None => !two_disjoint(self.fbas_original) }
@entry
    broadcast use front_lemmas;

@fn Analysis::minimal_quorums
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires an_ok(*old(self))
    ensures an_ok(*final(self)), final(self).fbas_original == old(self).fbas_original, vr_ok(r), mq_s(old(self).fbas_original, orig(r))
@entry
    broadcast use front_lemmas;

@fn Analysis::minimal_blocking_sets
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires an_ok(*old(self))
    ensures an_ok(*final(self)), final(self).fbas_original == old(self).fbas_original, vr_ok(r), mbl_s(old(self).fbas_original, orig(r))
@entry
    broadcast use front_lemmas;

@fn Analysis::minimal_splitting_sets
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires an_ok(*old(self))
    ensures an_ok(*final(self)), final(self).fbas_original == old(self).fbas_original, vr_ok(r), mss_s(old(self).fbas_original, orig(r))
@entry
    broadcast use front_lemmas;

@fn Analysis::top_tier
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires an_ok(*old(self))
    ensures an_ok(*final(self)), final(self).fbas_original == old(self).fbas_original, is_tt(old(self).fbas_original, r.node_set@)

@fn Analysis::minimal_quorums_shrunken
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires an_ok(*old(self))
    ensures an_ok(*final(self)), final(self).fbas_original == old(self).fbas_original, final(self).mq_shrunken_cache == Some(r),
        old(self).mq_shrunken_cache is Some ==> *final(self) == *old(self)
@entry
    broadcast use front_lemmas;

@fn Analysis::minimal_blocking_sets_shrunken
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires an_ok(*old(self))
    ensures an_ok(*final(self)), final(self).fbas_original == old(self).fbas_original, final(self).mbs_shrunken_cache == Some(r),
        old(self).mbs_shrunken_cache is Some ==> *final(self) == *old(self)
@entry
    broadcast use front_lemmas;

@fn Analysis::minimal_splitting_sets_shrunken
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires an_ok(*old(self))
    ensures an_ok(*final(self)), final(self).fbas_original == old(self).fbas_original, final(self).mss_shrunken_cache == Some(r)
@entry
    broadcast use front_lemmas;

@fn Analysis::top_tier_shrunken
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires an_ok(*old(self))
    ensures an_ok(*final(self)), final(self).fbas_original == old(self).fbas_original,
        within(final(self).shrink_manager.unshrink_table@, r@), is_tt(old(self).fbas_original, to_old(final(self).shrink_manager.unshrink_table@, r@)),
        old(self).mq_shrunken_cache is Some || old(self).mbs_shrunken_cache is Some ==> *final(self) == *old(self)
@entry
    broadcast use front_lemmas;

@fn Analysis::shrink_id_space_to_top_tier
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires an_ok(*old(self)), (old(self).mq_shrunken_cache is Some) != (old(self).mbs_shrunken_cache is Some), old(self).mss_shrunken_cache is None
    ensures an_ok(*final(self)), final(self).fbas_original == old(self).fbas_original,
        (old(self).mq_shrunken_cache is Some) == (final(self).mq_shrunken_cache is Some), (old(self).mbs_shrunken_cache is Some) == (final(self).mbs_shrunken_cache is Some)
@entry
    broadcast use front_lemmas;
@closure 1 : Vec<BitSet>
    requires in_tt(new_shrink_manager, self.shrink_manager.unshrink_table@, $1@), ensures re_sets(new_shrink_manager.shrink_map@, self.shrink_manager.unshrink_table@, $1@, vr@),
@closure 2 : Vec<BitSet>
    requires in_tt(new_shrink_manager, self.shrink_manager.unshrink_table@, $1@), ensures re_sets(new_shrink_manager.shrink_map@, self.shrink_manager.unshrink_table@, $1@, vr@),
