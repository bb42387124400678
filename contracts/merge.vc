//@ groupings: merging nodes of one group into its first member
@type Grouping
@type Groupings

@fn Groupings::new
@spec
    requires no_overlap(groupings@), groups_in(groupings@, fbas.nodes@.len() as int)
    ensures grp_ok(r), r.groupings == groupings, r.merged_ids@.len() == fbas.nodes@.len(), r.fbas == fbas
@entry
    broadcast use lem_skip1;
    let ghost gs = groupings@;
    let ghost n = fbas.nodes@.len() as int;
    proof { assert(gs.len() == groupings.len()); }
@before Groupings {
    proof { assert(gs.take(gs.len() as int) =~= gs); }
@loop 1
    gs.len() <= usize::MAX,
    it1_all.len() == gs.len(), forall|i: int| 0 <= i < gs.len() ==> (#[trigger] it1_all[i]).0 == i && *it1_all[i].1 == gs[i], gs == groupings@,
    no_overlap(gs), groups_in(gs, n), merges(gs.take(it1.pos()), n, merged_ids@), indexes(gs.take(it1.pos()), node_id_to_org_idx@),
    forall|i: int| 0 <= i < n ==> #[trigger] merged_ids@[i] < n,
@loopbegin 1
    let ghost m0 = merged_ids@;
    let ghost x0 = node_id_to_org_idx@;
    proof { if gs[it1_i].validators@.len() > 0 { assert(listed(gs[it1_i], gs[it1_i].validators@[0])); } }
@loopend 1
    proof { lem_group_done(gs, it1_i, n, m0, merged_ids@, x0, node_id_to_org_idx@); }
@loop 2
    org.validators@.len() > 0, merged_id == org.validators@[0], it2_all == org.validators@.skip(1), 0 <= it1_i < gs.len(), org_idx == it1_i, *org == gs[it1_i],
    groups_in(gs, n), n >= 0, merged_id < n,
    merging(org.validators@, 1 + it2.pos(), org_idx, m0, merged_ids@, x0, node_id_to_org_idx@), m0.len() == n,
    forall|i: int| 0 <= i < n ==> #[trigger] merged_ids@[i] < n,
@loopbegin 2
    proof { assert(listed(gs[it1_i], org.validators@[1 + it2_i])); }

@fn Groupings::get_by_member
@spec
    requires grp_ok(*self)
    ensures match r { None => !grouped(self.groupings@, node_id), Some(g) => listed(*g, node_id) && self.groupings@.contains(*g) }

@fn Groupings::get_by_name
@spec
    ensures match r { None => forall|a: int| 0 <= a < self.groupings@.len() ==> (#[trigger] self.groupings@[a]).name@ != name@,
        Some(g) => first_named(*self, name@, *g) }
@closure 1
    requires true, ensures vr == ($1.name@ == name@),

@fn Groupings::number_of_groupings
@spec
    ensures r == self.groupings@.len()

@fn Groupings::merge_node
@spec
    requires node_id < self.merged_ids@.len()
    ensures r == self.merged_ids@[node_id as int]

@fn Groupings::merge_node_set
@spec
    requires in_ids(*self, node_set@)
    ensures r@ == merged_set(*self, node_set@)
@closure 1 : usize
    requires $1 < self.merged_ids@.len(), ensures vr == self.merged_ids@[$1 as int],
@entry
    broadcast use {lem_merged_set, lem_merged_seq};
    proof { assert(merged_seq(*self, elems(node_set@)).len() == elems(node_set@).len()); }

@fn Groupings::merge_node_sets
@spec
    requires forall|i: int| 0 <= i < node_sets@.len() ==> in_ids(*self, (#[trigger] node_sets@[i])@)
    ensures merged_sets(*self, node_sets@, r@)
@closure 1 : BitSet
    requires in_ids(*self, $1@), ensures vr@ == merged_set(*self, $1@),

@fn Groupings::merge_minimal_node_sets
@spec
    requires forall|i: int| 0 <= i < node_sets@.len() ==> in_ids(*self, (#[trigger] node_sets@[i])@)
    ensures merged_min(*self, node_sets@, r@), canonical(r@), antichain(r@)
@entry
    broadcast use lem_merged_min;

@fn Groupings::merge_quorum_set
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires in_ids(*self, qn(quorum_set))
    ensures qn(r) == merged_set(*self, qn(quorum_set))
@entry
    broadcast use {lem_split, lem_merged_seq};
    proof { lem_in_ids(*self, quorum_set); assert(merging_q(*self, quorum_set.inner_quorum_sets@)); assert(merged_seq(*self, quorum_set.validators@).len() == quorum_set.validators@.len()); }
    let ghost qq = quorum_set;
@closure 1 : usize
    requires *$1 < self.merged_ids@.len(), ensures vr == self.merged_ids@[*$1 as int],
@closure 2 : QuorumSet
    requires in_ids(*self, qn($1)), ensures qn(vr) == merged_set(*self, qn($1)),
@closure 3
    requires true, ensures vr == single(*$1),
@before validators.extend
    let ghost v0 = validators@;
    let ghost cs = new_validator_candidates@;
    proof { assert(v0 == merged_seq(*self, qq.validators@)); assert(parted(*self, qq.inner_quorum_sets@, cs, inner_quorum_sets@)); }
@after validators.extend
    let ghost v1 = validators@;
    proof { assert(firsts(cs, v1.skip(v0.len() as int))); assert(v1 =~= v0 + v1.skip(v0.len() as int)); }
@tail
    proof { lem_merge_q(*self, qq, vp_tail, v0, v1, cs); }

@fn Groupings::merge_quorum_sets
@spec
    requires forall|i: int| 0 <= i < quorum_set@.len() ==> in_ids(*self, qn(#[trigger] quorum_set@[i]))
    ensures r@.len() == quorum_set@.len(), forall|i: int| #![trigger r@[i]] #![trigger quorum_set@[i]] 0 <= i < r@.len() ==> qn(r@[i]) == merged_set(*self, qn(quorum_set@[i]))
@closure 1 : QuorumSet
    requires in_ids(*self, qn($1)), ensures qn(vr) == merged_set(*self, qn($1)),
