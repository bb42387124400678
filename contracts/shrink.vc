//@ compact node numbers
@type ShrinkManager

@fn ShrinkManager::new
@spec
    ensures keeps(r, ids_to_keep@)
@entry
    broadcast use lem_pairs_map;
@closure 1 : (usize, usize)
    requires true, ensures vr.0 == $1.1, vr.1 == $1.0,
@tail
    proof { assert(ids_to_keep@ =~= ids_to_keep@); }

@fn shrinking::shrink_set
@spec
    requires known(shrink_map@, node_set@)
    ensures r@ == to_new(shrink_map@, node_set@)
@closure 1 : &usize
    requires shrink_map@.dom().contains($1), ensures *vr == shrink_map@[$1],

@fn shrinking::shrink_sets
@spec
    requires forall|i: int| 0 <= i < node_sets@.len() ==> known(shrink_map@, (#[trigger] node_sets@[i])@)
    ensures new_sets(shrink_map@, node_sets@, r@)
@closure 1 : BitSet
    requires known(shrink_map@, $1@), ensures vr@ == to_new(shrink_map@, $1@),

@fn shrinking::unshrink_set
@spec
    requires within(unshrink_table@, node_set@)
    ensures r@ == to_old(unshrink_table@, node_set@)

@fn shrinking::unshrink_sets
@spec
    requires forall|i: int| 0 <= i < node_sets@.len() ==> within(unshrink_table@, (#[trigger] node_sets@[i])@)
    ensures old_sets(unshrink_table@, node_sets@, r@)
@closure 1 : BitSet
    requires within(unshrink_table@, $1@), ensures vr@ == to_old(unshrink_table@, $1@),

@fn ShrinkManager::shrink_set
@spec
    requires known(self.shrink_map@, node_set@)
    ensures r@ == to_new(self.shrink_map@, node_set@)

@fn ShrinkManager::shrink_sets
@spec
    requires forall|i: int| 0 <= i < node_sets@.len() ==> known(self.shrink_map@, (#[trigger] node_sets@[i])@)
    ensures new_sets(self.shrink_map@, node_sets@, r@)

@fn ShrinkManager::unshrink_set
@spec
    requires within(self.unshrink_table@, node_set@)
    ensures r@ == to_old(self.unshrink_table@, node_set@)

@fn ShrinkManager::unshrink_sets
@spec
    requires forall|i: int| 0 <= i < node_sets@.len() ==> within(self.unshrink_table@, (#[trigger] node_sets@[i])@)
    ensures old_sets(self.unshrink_table@, node_sets@, r@)

@fn ShrinkManager::reshrink_sets
@spec
    requires forall|i: int| 0 <= i < node_sets@.len() ==> within(old_shrink_manager.unshrink_table@, (#[trigger] node_sets@[i])@) && known(self.shrink_map@, to_old(old_shrink_manager.unshrink_table@, node_sets@[i]@))
    ensures re_sets(self.shrink_map@, old_shrink_manager.unshrink_table@, node_sets@, r@)
@entry
    broadcast use b_re_map;
@closure 1 : Option<(usize, usize)>
    requires true, ensures vr == (if self.shrink_map@.dom().contains(*$1.1) { Some(($1.0, self.shrink_map@[*$1.1])) } else { None }),
@closure 2 : (usize, usize)
    requires true, ensures vr == (current_id, *$1),
@before shrink_sets
    proof {
        assert(re_map(reshrink_map@, old_shrink_manager.unshrink_table@, self.shrink_map@));
        assert forall|i: int| 0 <= i < node_sets@.len() implies known(reshrink_map@, (#[trigger] node_sets@[i])@) && to_new(reshrink_map@, node_sets@[i]@) == to_new(self.shrink_map@, to_old(old_shrink_manager.unshrink_table@, node_sets@[i]@)) by {
            lem_re_sets(reshrink_map@, self.shrink_map@, old_shrink_manager.unshrink_table@, node_sets@[i]@);
        }
    }

@fn ShrinkManager::unshrink_table
@spec
    ensures *r == self.unshrink_table

@fn QuorumSet::shrunken
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires inj(shrink_map@)
    ensures shr_q(*quorum_set, r, shrink_map@)
@loop 1
    it1_all == refs(quorum_set.validators@), validators@ == kept(quorum_set.validators@.take(it1.pos()), shrink_map@),
@loopbegin 1
    proof { assert(quorum_set.validators@.take(it1_i + 1).drop_last() =~= quorum_set.validators@.take(it1_i)); }
@before validators.sort_unstable
    let ghost ws = validators@;
    proof { assert(quorum_set.validators@.take(quorum_set.validators@.len() as int) =~= quorum_set.validators@); }
@loop 2
    it2_all == refs(quorum_set.inner_quorum_sets@), inj(shrink_map@), shr_i(quorum_set.inner_quorum_sets@.take(it2.pos()), inner_quorum_sets@, shrink_map@),
@loopbegin 2
    let ghost w0 = inner_quorum_sets@;
@loopend 2
    proof {
        assert(quorum_set.inner_quorum_sets@.take(it2_i + 1) =~= quorum_set.inner_quorum_sets@.take(it2_i).push(quorum_set.inner_quorum_sets@[it2_i]));
        lem_shr_step(quorum_set.inner_quorum_sets@.take(it2_i), w0, quorum_set.inner_quorum_sets@[it2_i], shrunken_inner_quorum_set, inner_quorum_sets@, shrink_map@);
    }
@before inner_quorum_sets.sort_unstable
    let ghost wi = inner_quorum_sets@;
    proof { assert(quorum_set.inner_quorum_sets@.take(quorum_set.inner_quorum_sets@.len() as int) =~= quorum_set.inner_quorum_sets@); }
@tail
    proof { lem_shr_q(*quorum_set, vp_tail, shrink_map@, ws, wi); }

@fn Node::shrunken
@spec
    requires inj(shrink_map@)
    ensures shr_n(*node, r, shrink_map@)

@fn Fbas::shrunken
@spec
    requires keyed(*self), inr(*self, ids_to_keep@)
    ensures keeps(r.1, ids_to_keep@), shr_f(*self, r.0, r.1), keyed(r.0)
@entry
    broadcast use lem_keyed;
@loop 1
    it1_all == range_seq(0, self.nodes@.len() as usize), keeps(shrink_manager, ids_to_keep@), *unshrink_table == shrink_manager.unshrink_table, *shrink_map == shrink_manager.shrink_map,
    shr_upto(*self, fbas_shrunken.nodes@, shrink_manager, it1.pos() as int),
@closure 1 : (String, usize)
    requires true, ensures vr.0 == $1.1.public_key, vr.1 == $1.0,
@before fbas_shrunken.pk_to_id
    proof { lem_shr_done(*self, fbas_shrunken.nodes@, shrink_manager, ids_to_keep@); }
