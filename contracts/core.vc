//@ quorum slices, quorums
@type NodeId
@type PublicKey
@type NodeIdSet
@type QuorumSet
@type Node
@type Fbas

@fn QuorumSet::is_quorum_slice
@with
    pub open spec fn s_is_quorum_slice(&self, s: &BitSet) -> bool { sat(*self, s@) }
@attr #[verifier::when_used_as_spec(s_is_quorum_slice)]
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures r == sat(*self, node_set@)
@entry
    broadcast use quorum_lemmas;

@fn Node::is_quorum_slice
@with
    pub open spec fn s_is_quorum_slice(&self, s: &BitSet) -> bool { sat(self.quorum_set, s@) }
@attr #[verifier::when_used_as_spec(s_is_quorum_slice)]
@spec
    ensures r == sat(self.quorum_set, node_set@)

@fn Fbas::is_quorum
@with
    pub open spec fn s_is_quorum(&self, s: &BitSet) -> bool { is_q(*self, s@) }
@attr #[verifier::when_used_as_spec(s_is_quorum)]
@spec
    requires inr(*self, node_set@)
    ensures r == is_q(*self, node_set@)

@fn Fbas::all_nodes
@spec
    ensures r@ == all_ids(*self)

@fn Fbas::number_of_nodes
@spec
    ensures r == self.nodes@.len()

@fn QuorumSet::contained_nodes_with_duplicates
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures r@ == flat(*self)
@entry
    broadcast use lem_flat;
@loop 1
    it1_all == refs(self.inner_quorum_sets@), nodes@ == self.validators@ + flat_i(self.inner_quorum_sets, it1.pos()),
@loopend 1
    proof { assert(nodes@ =~= self.validators@ + flat_i(self.inner_quorum_sets, it1_i + 1)); }
@tail
    proof { assert(vp_tail@ =~= flat(*self)); }

@fn QuorumSet::contained_nodes
@spec
    ensures r@ == qn(*self)

@fn QuorumSet::contains_duplicates
@with
    pub open spec fn s_contains_duplicates(&self) -> bool { !flat(*self).no_duplicates() }
@attr #[verifier::when_used_as_spec(s_contains_duplicates)]
@spec
    ensures r == !flat(*self).no_duplicates()
@entry
    broadcast use lem_no_dup;

@fn QuorumSet::is_satisfiable
@spec
    ensures r == exists|s: Set<usize>| sat(*self, s)
@entry
    broadcast use lem_satisfiable;
