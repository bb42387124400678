//@ result objects
@type NodeIdSetResult
@type NodeIdSetVecResult

@fn NodeIdSetResult::new
@spec
    requires shrink_manager is Some ==> within(shrink_manager->0.unshrink_table@, node_set@)
    ensures r.node_set@ == match shrink_manager { None => node_set@, Some(m) => to_old(m.unshrink_table@, node_set@) }

@fn NodeIdSetResult::unwrap
@spec
    ensures r@ == self.node_set@

@fn NodeIdSetResult::into_vec
@spec
    ensures r@ == elems(self.node_set@)

@fn NodeIdSetResult::involved_nodes
@spec
    ensures r@ == self.node_set@

@fn NodeIdSetResult::len
@spec
    ensures r == self.node_set@.len()

@fn NodeIdSetResult::is_empty
@spec
    ensures r == (self.node_set@ == Set::<usize>::empty())

@fn NodeIdSetResult::without_nodes
@spec
    ensures r.node_set@ == self.node_set@.difference(nodes@.to_set())
@loop 1
    it1_all == nodes@, new.node_set@ == self.node_set@.difference(nodes@.take(it1.pos()).to_set()),
@loopend 1
    proof { lem_minus_step(self.node_set@, nodes@, it1_i, new.node_set@); }
@entry
    proof { lem_minus_start(self.node_set@, nodes@); }

@fn NodeIdSetResult::merged_by_group
@spec
    requires in_ids(*groupings, self.node_set@)
    ensures r.node_set@ == merged_set(*groupings, self.node_set@)

@fn NodeIdSetVecResult::new
@spec
    requires shrink_manager is Some ==> inc(shrink_manager->0.unshrink_table@) && all_within(shrink_manager->0.unshrink_table@, node_sets@)
    ensures vr_ok(r), orig(r) == match shrink_manager { None => sets_of(node_sets@), Some(m) => olds(m.unshrink_table@, node_sets@) },
        r.node_sets@.len() == node_sets@.len()
@closure 1 : Vec<usize>
    requires true, ensures vr == $1.unshrink_table,

@fn NodeIdSetVecResult::unshrink
@spec
    requires vr_ok(*old(self))
    ensures final(self).unshrink_table is None, vr_ok(*final(self)), orig(*final(self)) == orig(*old(self)), sets_of(final(self).node_sets@) == orig(*old(self))
@entry
    broadcast use b_old_sets;

@fn NodeIdSetVecResult::unwrap
@spec
    requires vr_ok(self)
    ensures sets_of(r@) == orig(self)

@fn NodeIdSetVecResult::into_vec_vec
@spec
    requires vr_ok(self)
    ensures r@.len() == orig(self).len(), forall|i: int| #![trigger r@[i]] #![trigger orig(self)[i]] 0 <= i < r@.len() ==> r@[i]@ == elems(orig(self)[i])
@closure 1 : Vec<usize>
    requires true, ensures vr@ == elems($1@),

@fn NodeIdSetVecResult::involved_nodes
@spec
    requires vr_ok(*self)
    ensures r@ == union_s(orig(*self))
@entry
    proof {
        lem_union_sets(self.node_sets@);
        if self.unshrink_table is Some { lem_union_olds(self.unshrink_table->0@, self.node_sets@); }
    }

@fn NodeIdSetVecResult::len
@spec
    ensures r == self.node_sets@.len()

@fn NodeIdSetVecResult::is_empty
@spec
    ensures r == (self.node_sets@.len() == 0)

@fn NodeIdSetVecResult::contains_empty_set
@spec
    requires vr_ok(*self)
    ensures r == has_s(orig(*self), Set::<usize>::empty())
@entry
    proof { lem_has_empty(*self); }

@fn NodeIdSetVecResult::describe
@spec
    requires vr_ok(*self), self.node_sets@.len() < usize::MAX
    ensures r.0 == orig(*self).len(), r.1 == union_s(orig(*self)).len(), is_min_len(orig(*self), r.2.0 as int), is_max_len(orig(*self), r.2.1 as int), is_mean(orig(*self), r.2.2), is_hist(orig(*self), r.3@)
@entry
    proof { lem_orig(*self); }

@fn NodeIdSetVecResult::minmaxmean
@spec
    requires vr_ok(*self)
    ensures is_min_len(orig(*self), r.0 as int), is_max_len(orig(*self), r.1 as int), is_mean(orig(*self), r.2)

@fn NodeIdSetVecResult::min
@spec
    requires vr_ok(*self)
    ensures is_min_len(orig(*self), r as int)
@entry
    proof { lem_orig(*self); }
@closure 1 : usize
    requires true, ensures vr == $1@.len(),

@fn NodeIdSetVecResult::max
@spec
    requires vr_ok(*self)
    ensures is_max_len(orig(*self), r as int)
@entry
    proof { lem_orig(*self); }
@closure 1 : usize
    requires true, ensures vr == $1@.len(),

@fn NodeIdSetVecResult::mean
@spec
    requires vr_ok(*self)
    ensures is_mean(orig(*self), r)
@entry
    broadcast use lem_lens_bs;
    proof { lem_orig(*self); lem_same_sum(sets_of(self.node_sets@), orig(*self)); }
@closure 1 : usize
    requires true, ensures vr == $1@.len(),

@fn NodeIdSetVecResult::histogram
@spec
    requires vr_ok(*self), self.node_sets@.len() < usize::MAX
    ensures is_hist(orig(*self), r@)
@closure 1 : usize
    requires true, ensures vr == $1@.len(),
@entry
    proof { lem_orig(*self); }
@before let mut histogram
    proof { lem_max_bound(self.node_sets@, max); }
@loop 1
    it1_all == refs(self.node_sets@), self.node_sets@.len() < usize::MAX, histogram@.len() == max + 1, forall|i: int| 0 <= i < self.node_sets@.len() ==> (#[trigger] self.node_sets@[i])@.len() <= max,
    orig(*self).len() == self.node_sets@.len(), forall|i: int| #![trigger self.node_sets@[i]] #![trigger orig(*self)[i]] 0 <= i < self.node_sets@.len() ==> orig(*self)[i].len() == self.node_sets@[i]@.len(),
    forall|k: int| 0 <= k <= max ==> #[trigger] histogram@[k] == count_len(orig(*self).take(it1.pos()), k), forall|k: int| 0 <= k <= max ==> #[trigger] histogram@[k] <= it1.pos(),
@loopbegin 1
    proof { assert(orig(*self).take(it1_i + 1).drop_last() =~= orig(*self).take(it1_i)); assert(orig(*self).take(it1_i + 1).last() == orig(*self)[it1_i]); assert(self.node_sets@[it1_i]@.len() <= max); assert(histogram@[node_set@.len() as int] <= it1_i); }
@tail
    proof { assert(orig(*self).take(orig(*self).len() as int) =~= orig(*self)); }

@fn NodeIdSetVecResult::merged_by_group
@spec
    requires vr_ok(*self), all_in_ids(*groupings, orig(*self))
    ensures vr_ok(r), orig(r) == merged_s(*groupings, orig(*self))
@before new.node_sets
    let ghost w = new.node_sets@;
    proof { assert forall|i: int| 0 <= i < w.len() implies in_ids(*groupings, (#[trigger] w[i])@) by { assert(sets_of(w)[i] == orig(*self)[i]); assert(in_ids(*groupings, orig(*self)[i])); } }
@tail
    proof { assert(orig(vp_tail) =~= merged_s(*groupings, orig(*self))); }

@fn NodeIdSetVecResult::minimal_sets
@spec
    requires vr_ok(*self)
    ensures vr_ok(r), forall|s: Set<usize>| #[trigger] has_s(orig(r), s) <==> min_of_s(orig(*self), s), canon_s(orig(r)), antichain_s(orig(r))
@tail
    proof { lem_min_orig(*self, vp_tail); lem_orig(vp_tail); }

@fn NodeIdSetVecResult::without_nodes
@spec
    requires vr_ok(*self)
    ensures vr_ok(r), orig(r) == minus_s(orig(*self), nodes@.to_set())
@before for
    let ghost w = new.node_sets@;
    let ghost o = orig(*self);
@loop 1
    it1_all == range_seq(0, w.len() as usize), w.len() <= usize::MAX, new.node_sets@.len() == w.len(), sets_of(w) == o, new.unshrink_table is None, w.len() == o.len(),
    forall|i: int| 0 <= i < w.len() ==> (#[trigger] new.node_sets@[i])@ == if i < it1.pos() { o[i].difference(nodes@) } else { o[i] },
@tail
    proof { assert(orig(vp_tail) =~= minus_s(o, nodes@)); }

@fn results::from_public_keys
@spec
    requires keyed(*fbas)
    ensures picks_ids(*fbas, None, nodes@, r@)
@closure 1 : Option<usize>
    requires keyed(*fbas), ensures pk_is(*fbas, (*$1)@, vr),
@entry
    broadcast use lem_picks_pk;

@fn results::from_grouping_names
@spec
    requires keyed(*fbas)
    ensures picks_ids(*fbas, Some(groupings), nodes@, r@)
@closure 1 : Vec<usize>
    requires keyed(*fbas), ensures stand_vec(*fbas, *groupings, (*$1)@, vr@),
@entry
    broadcast use {lem_sv_group, lem_sv_node, lem_sv_none, lem_picks_gn};

@fn NodeIdSetResult::without_nodes_pretty
@replace Some(ref orgs) => Some(orgs)
@spec
    requires keyed(*fbas)
    ensures exists|ids: Set<usize>| (forall|x: usize| #[trigger] ids.contains(x) <==> picked(*fbas, groupings, nodes@, x)) && r.node_set@ == #[trigger] self.node_set@.difference(ids)
@tail
    proof { lem_picks_set(*fbas, groupings, nodes@, nodes_by_id@); assert(vp_tail.node_set@ == self.node_set@.difference(nodes_by_id@.to_set())); }

@fn NodeIdSetVecResult::without_nodes_pretty
@replace Some(ref orgs) => Some(orgs)
@spec
    requires keyed(*fbas), vr_ok(*self)
    ensures vr_ok(r), exists|ids: Set<usize>| (forall|x: usize| #[trigger] ids.contains(x) <==> picked(*fbas, groupings, nodes@, x)) && orig(r) == #[trigger] minus_s(orig(*self), ids)
@tail
    proof { lem_picks_set(*fbas, groupings, nodes@, nodes_by_id@); assert(orig(vp_tail) == minus_s(orig(*self), nodes_by_id@.to_set())); }

@fn to_public_keys
@replace impl IntoIterator<Item = NodeId> => impl VIntoIter<Item = NodeId>
@spec
    requires forall|i: int| 0 <= i < nodes.into_seq().len() ==> #[trigger] nodes.into_seq()[i] < fbas.nodes@.len()
    ensures shown_all(*fbas, None, nodes.into_seq(), r@)
@closure 1 : &PublicKey
    requires $1 < fbas.nodes@.len(), ensures *vr == fbas.nodes@[$1 as int].public_key,

@fn to_grouping_names
@replace impl IntoIterator<Item = NodeId> => impl VIntoIter<Item = NodeId>
@spec
    requires grp_ok(*groupings), forall|i: int| 0 <= i < nodes.into_seq().len() ==> #[trigger] nodes.into_seq()[i] < fbas.nodes@.len()
    ensures shown_all(*fbas, Some(groupings), nodes.into_seq(), r@)
@closure 1 : &PublicKey
    requires $1 < fbas.nodes@.len(), grp_ok(*groupings), ensures shown(*fbas, Some(groupings), $1, *vr),

@fn NodeIdSetResult::into_pretty_vec
@replace Some(ref orgs) => Some(orgs)
@spec
    requires inr(*fbas, self.node_set@), groupings is Some ==> grp_ok(*groupings->0)
    ensures shown_all(*fbas, groupings, elems(self.node_set@), r@)

@fn NodeIdSetVecResult::into_pretty_vec_vec
@spec
    requires vr_ok(self), forall|i: int| 0 <= i < orig(self).len() ==> inr(*fbas, #[trigger] orig(self)[i]), groupings is Some ==> grp_ok(*groupings->0)
    ensures r@.len() == orig(self).len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> shown_all(*fbas, groupings, elems(orig(self)[i]), r@[i]@)
@entry
    let ghost me = self;
    proof { lem_pretty(self, *fbas); }
@closure 1 : Vec<PublicKey>
    requires pretty_req(me, *fbas, $1@), groupings is Some ==> grp_ok(*groupings->0), ensures shown_all(*fbas, groupings, elems(pretty_orig(me, $1@)), vr@),
