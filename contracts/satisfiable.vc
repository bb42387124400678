@fn quorums::contains_quorum
@attr #[verifier::when_used_as_spec(s_contains_quorum)]
@spec
    requires inr(*fbas, node_set@)
    ensures r == has_q(*fbas, node_set@)
@entry
    broadcast use b_mono, enc_lemmas;
@loop 1
    invariant
        satisfiable@.subset_of(node_set@), inr(*fbas, node_set@),
        enc(*fbas, node_set@, satisfiable@),
    ensures closed(*fbas, satisfiable@)
    decreases satisfiable@.len()

@fn quorums::complement_contains_quorum
@spec
    ensures r == has_q(*fbas, all_ids(*fbas).difference(node_set@))

@fn find_satisfiable_nodes
@spec
    requires inr(*fbas, node_set@)
    ensures is_greatest(*fbas, node_set@, r.0@), r.1@ == node_set@.difference(r.0@)
@entry
    broadcast use b_mono, enc_lemmas, lem_filter_set;
@loop 1
    invariant
        satisfiable@.subset_of(node_set@), inr(*fbas, node_set@),
        unsatisfiable@ == node_set@.difference(satisfiable@),
        enc(*fbas, node_set@, satisfiable@),
    ensures closed(*fbas, satisfiable@)
    decreases satisfiable@.len()

@fn Fbas::satisfiable_nodes
@spec
    ensures is_greatest(*self, all_ids(*self), r@)

@fn Fbas::unsatisfiable_nodes
@spec
    ensures exists|g: Set<usize>| is_greatest(*self, all_ids(*self), g) && r@ == all_ids(*self).difference(g)
