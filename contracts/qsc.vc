@type DummyQsc
@type IdealQsc
@type SuperSafeQsc

@fn <QuorumSetConfigurator for DummyQsc>::configure
@with
    open spec fn fits(&self, n: int) -> bool { true }
    open spec fn prescribed(&self, i: usize, f: Fbas, g: Fbas, c: ChangeEffect) -> bool { c == NoChange }

@fn IdealQsc::build_new_configuration
@spec
    requires 1 <= fbas.nodes@.len() <= max_n()
    ensures plain(r, range_seq(0, fbas.nodes@.len() as usize)), is_67p(r.threshold as int, fbas.nodes@.len() as int)

@fn <QuorumSetConfigurator for IdealQsc>::configure
@with
    open spec fn fits(&self, n: int) -> bool { true }
    open spec fn prescribed(&self, i: usize, f: Fbas, g: Fbas, c: ChangeEffect) -> bool {
        let n = f.nodes@.len();
        plain(q_at(g, i), range_seq(0, n as usize)) && is_67p(q_at(g, i).threshold as int, n as int) && (c == NoChange <==> q_at(f, i) == q_at(g, i))
    }
@tail
    proof { if vp_tail == NoChange { assert(fbas.nodes@ =~= old(fbas).nodes@); } lem_set_plain(*old(fbas), *fbas, node_id); }

@fn SuperSafeQsc::build_new_configuration
@spec
    ensures plain(r, range_seq(0, fbas.nodes@.len() as usize)), r.threshold == fbas.nodes@.len()

@fn <QuorumSetConfigurator for SuperSafeQsc>::configure
@with
    open spec fn fits(&self, n: int) -> bool { true }
    open spec fn prescribed(&self, i: usize, f: Fbas, g: Fbas, c: ChangeEffect) -> bool {
        let n = f.nodes@.len();
        plain(q_at(g, i), range_seq(0, n as usize)) && q_at(g, i).threshold == n && (c == NoChange <==> q_at(f, i) == q_at(g, i))
    }
@tail
    proof { if vp_tail == NoChange { assert(fbas.nodes@ =~= old(fbas).nodes@); } lem_set_plain(*old(fbas), *fbas, node_id); }

@type RandomQsc
@fn RandomQsc::new
@spec
    ensures r.desired_quorum_set_size == desired_quorum_set_size, r.desired_threshold == desired_threshold, match weights { None => r.weights@.len() == 0, Some(w) => r.weights@ == w@ }

@fn RandomQsc::new_simple
@spec
    ensures r.desired_quorum_set_size == desired_quorum_set_size, r.desired_threshold is None, r.weights@.len() == 0

@fn <QuorumSetConfigurator for RandomQsc>::configure
@with
    open spec fn fits(&self, n: int) -> bool { self.desired_quorum_set_size >= 1 && forall|k: int| 0 <= k < self.weights@.len() ==> #[trigger] self.weights@[k] > 0 }
    open spec fn prescribed(&self, i: usize, f: Fbas, g: Fbas, c: ChangeEffect) -> bool {
        let (o, q) = (q_at(f, i), q_at(g, i));
        let own = if o.validators@.len() == 0 { seq![i] } else { o.validators@ };
        let d = self.desired_quorum_set_size;
        let goal = if d <= f.nodes@.len() { d as int } else { f.nodes@.len() as int };
        if o.validators@.len() == 0 || o.validators@.len() < d {
            c == Change && q.inner_quorum_sets == o.inner_quorum_sets && picked(own, q.validators@, f.nodes@.len() as int, goal)
                && match self.desired_threshold { Some(t) => q.threshold == t, None => is_67p(q.threshold as int, goal) }
        } else { c == NoChange }
    }
@entry
    broadcast use lem_filter_asc, lem_range_strict;
    let ghost mut own = Seq::<usize>::empty();
@closure 1 : usize
    requires 1 <= target_quorum_set_size <= max_n(), ensures is_67p(vr as int, target_quorum_set_size as int),
@closure 3 : usize
    requires true, ensures vr > 0,
@before for _ in
    let ghost v0 = existing_quorum_set.validators@;
    let ghost fin = *final(existing_quorum_set);
    proof { assert(v0.take(v0.len() as int) =~= v0); 
        own = v0;
        assert(derefs(refs(v0)) =~= v0);
        assert(v0 == q_at(*old(fbas), node_id).validators@ || v0 =~= seq![node_id]);
        assert(used_nodes@ =~= v0.to_set());
        assert forall|x: usize| #[trigger] available_nodes@.contains(x) <==> x < n && !v0.contains(x) by { if x < n { assert(range_seq(0, n)[x as int] == x); } }
        assert(avail(available_nodes@, v0, n as int));
    }
@loop 1
    it1_all == range_seq(current_quorum_set_size, target_quorum_set_size), forall|k: int| 0 <= k < self.weights@.len() ==> #[trigger] self.weights@[k] > 0,
    *final(existing_quorum_set) == fin, existing_quorum_set.inner_quorum_sets == q_at(*old(fbas), node_id).inner_quorum_sets, target_quorum_set_size <= n, existing_quorum_set.validators@.len() == current_quorum_set_size + it1.pos(),
    extended(v0, existing_quorum_set.validators@, n as int), avail(available_nodes@, existing_quorum_set.validators@, n as int), current_quorum_set_size == v0.len(),
@loopbegin 1
    let ghost (v, a) = (existing_quorum_set.validators@, available_nodes@);
    proof { lem_enough(a, v, n); assert(a.contains(a[0])); }
@loopend 1
    proof { lem_pick(v0, v, existing_quorum_set.validators@, a, available_nodes@, chosen_idx as int, n as int); }
@tail
    proof { if vp_tail == NoChange { assert(fbas.nodes@ =~= old(fbas).nodes@); } else { lem_grown_bounds(*old(fbas), *fbas, node_id, own); } }

@type AllNeighborsQsc
@fn AllNeighborsQsc::new
@spec
    ensures r.graph == graph, r.relative_threshold == relative_threshold, forall|x: usize| #[trigger] r.connected_nodes@.contains(x) <==> touched(graph.outlinks@, nodes_of(graph), x)

@fn AllNeighborsQsc::new_67p
@spec
    ensures r.graph == graph, r.relative_threshold is None, forall|x: usize| #[trigger] r.connected_nodes@.contains(x) <==> touched(graph.outlinks@, nodes_of(graph), x)

@fn AllNeighborsQsc::new_relative
@spec
    ensures r.graph == graph, r.relative_threshold == Some(relative_threshold), forall|x: usize| #[trigger] r.connected_nodes@.contains(x) <==> touched(graph.outlinks@, nodes_of(graph), x)

@fn <QuorumSetConfigurator for AllNeighborsQsc>::configure
@with
    open spec fn fits(&self, n: int) -> bool { graph_ok(self.graph, n) && share_ok(self.relative_threshold) }
    open spec fn prescribed(&self, i: usize, f: Fbas, g: Fbas, c: ChangeEffect) -> bool {
        let q = q_at(g, i);
        if self.connected_nodes@.contains(i) && blank(q_at(f, i)) {
            c == Change && with_self(self.graph.outlinks@[i as int]@, i, q.validators@) && th(q.threshold as int, q.validators@.len() as int, self.relative_threshold) && q.inner_quorum_sets@.len() == 0
        } else { c == NoChange }
    }
@entry
    broadcast use lem_rearranged, ax_blank;
    let ghost row = self.graph.outlinks@[node_id as int]@;
    let ghost base = if row.contains(node_id) { row } else { row.push(node_id) };
@after existing_quorum_set.validators.extend
    proof { assert(existing_quorum_set.validators@ =~= validators@); }
@tail
    proof { if vp_tail == NoChange { assert(fbas.nodes@ =~= old(fbas).nodes@); } else { assert forall|k: int| 0 <= k < base.len() implies #[trigger] base[k] < max_n() by { if k < row.len() { assert(self.graph.outlinks@[node_id as int]@[k] < self.graph.outlinks@.len()); } } lem_members(base, q_at(*fbas, node_id).validators@, max_n()); lem_set_plain(*old(fbas), *fbas, node_id); } }

@type GlobalRankQsc
@fn <QuorumSetConfigurator for GlobalRankQsc>::configure
@with
    open spec fn fits(&self, n: int) -> bool { graph_ok(self.graph, n) && share_ok(self.relative_threshold) && top_ok(self.top_tier_nodes@, nodes_of(self.graph)) && (self.relative_threshold is Some || self.top_tier_nodes@.len() > 0) }
    open spec fn prescribed(&self, i: usize, f: Fbas, g: Fbas, c: ChangeEffect) -> bool {
        let q = q_at(g, i);
        if self.graph.outlinks@[i as int]@.len() > 0 && blank(q_at(f, i)) {
            c == Change && plain(q, self.top_tier_nodes@) && th(q.threshold as int, q.validators@.len() as int, self.relative_threshold)
        } else { c == NoChange }
    }
@entry
    broadcast use ax_blank;
    proof { lem_top(self.top_tier_nodes@, nodes_of(self.graph)); }
@tail
    proof { if vp_tail == NoChange { assert(fbas.nodes@ =~= old(fbas).nodes@); } else { lem_top(self.top_tier_nodes@, nodes_of(self.graph)); lem_set_plain(*old(fbas), *fbas, node_id); } }

@type graph::RankScore
@type HigherTierNeighborsQsc
@fn HigherTierNeighborsQsc::get_neighbors_by_tierness
@fvecs .rank_scores
@spec
    requires node_id < nodes_of(self.graph), graph_ok(self.graph, nodes_of(self.graph)), self.rank_scores@.len() == nodes_of(self.graph)
    ensures ({ let row = self.graph.outlinks@[node_id as int]@; &&& r.0@ == upper_of(self.rank_scores@, row, node_id) &&& r.1@ == same_of(self.rank_scores@, row, node_id) &&& r.2@ == lower_of(self.rank_scores@, row, node_id) })
@entry
    broadcast use lem_filter_same, lem_filter_asc;
    proof { assert forall|k: int| 0 <= k < self.graph.outlinks@[node_id as int]@.len() implies #[trigger] self.graph.outlinks@[node_id as int]@[k] < self.rank_scores@.len() by { } }
@before let is_lower_tier
    proof { assert forall|k: int| 0 <= k < other_tier@.len() implies #[trigger] other_tier@[k] < self.rank_scores@.len() by { assert(other_tier@.contains(other_tier@[k])); } }
@closure 1 : bool
    requires *$1 < self.rank_scores@.len(), ensures vr == is_upper(self.rank_scores@, node_id, *$1),
@closure 2 : bool
    requires *$1 < self.rank_scores@.len(), ensures vr == is_lower(self.rank_scores@, node_id, *$1),

@fn <QuorumSetConfigurator for HigherTierNeighborsQsc>::configure
@with
    open spec fn fits(&self, n: int) -> bool { graph_ok(self.graph, n) && share_ok(self.relative_threshold) && self.rank_scores@.len() == nodes_of(self.graph) }
    open spec fn prescribed(&self, i: usize, f: Fbas, g: Fbas, c: ChangeEffect) -> bool {
        let q = q_at(g, i);
        if self.connected_nodes@.contains(i) {
            let v = tier_of(self.rank_scores@, self.graph.outlinks@[i as int]@, i);
            with_self(if self.symmetry_enforcing { elems(corr_set(f, v, i)) } else { v }, i, q.validators@) && q.inner_quorum_sets@.len() == 0 && th(q.threshold as int, q.validators@.len() as int, self.relative_threshold)
                && (c == NoChange <==> q_at(f, i) == q_at(g, i))
        } else { c == NoChange }
    }
@entry
    broadcast use lem_rearranged, ax_elems;
    let ghost row = self.graph.outlinks@[node_id as int]@;
    let ghost v = tier_of(self.rank_scores@, row, node_id);
    let ghost base = if self.symmetry_enforcing { elems(corr_set(*old(fbas), v, node_id)) } else { v };
    let ghost full = if base.contains(node_id) { base } else { base.push(node_id) };
    proof {
        lem_tier_of(self.rank_scores@, row, node_id, max_n());
        lem_corr_bound(*old(fbas), v, node_id);
        lem_count(corr_set(*old(fbas), v, node_id), max_n());
    }
@loop 1
    it1_all == v, corrected_validators@ == corr_set(*old(fbas), v.take(it1.pos()), node_id), *fbas == *old(fbas),
@loopbegin 1
    proof { assert(v.take(it1_i + 1).drop_last() =~= v.take(it1_i)); assert(v.take(it1_i + 1).last() == i); }
@loopend 1
    proof { assert(corrected_validators@ =~= corr_set(*old(fbas), v.take(it1_i + 1), node_id)); }
@before validators.extend
    proof { assert(v.take(v.len() as int) =~= v); }
@before if !validators.contains
    proof { assert(validators@ =~= base); }
@tail
    proof { if vp_tail == NoChange { assert(fbas.nodes@ =~= old(fbas).nodes@); } lem_members(full, q_at(*fbas, node_id).validators@, max_n()); lem_set_plain(*old(fbas), *fbas, node_id); }

@fn HigherTierNeighborsQsc::new
@spec
    requires in_range(graph.outlinks@), 2 * nodes_of(graph) <= max_len()
    ensures r.graph == graph, r.relative_threshold == relative_threshold, r.symmetry_enforcing == symmetry_enforcing, r.rank_scores@.len() == nodes_of(graph), is_ranks(graph.outlinks@, r.rank_scores@), forall|x: usize| #[trigger] r.connected_nodes@.contains(x) <==> touched(graph.outlinks@, nodes_of(graph), x)

@fn HigherTierNeighborsQsc::new_67p
@spec
    requires in_range(graph.outlinks@), 2 * nodes_of(graph) <= max_len()
    ensures r.graph == graph, r.relative_threshold is None, r.symmetry_enforcing == symmetry_enforcing, r.rank_scores@.len() == nodes_of(graph), is_ranks(graph.outlinks@, r.rank_scores@), forall|x: usize| #[trigger] r.connected_nodes@.contains(x) <==> touched(graph.outlinks@, nodes_of(graph), x)

@fn HigherTierNeighborsQsc::new_relative
@spec
    requires in_range(graph.outlinks@), 2 * nodes_of(graph) <= max_len()
    ensures r.graph == graph, r.relative_threshold == Some(relative_threshold), r.symmetry_enforcing == symmetry_enforcing, r.rank_scores@.len() == nodes_of(graph), is_ranks(graph.outlinks@, r.rank_scores@), forall|x: usize| #[trigger] r.connected_nodes@.contains(x) <==> touched(graph.outlinks@, nodes_of(graph), x)

@fn GlobalRankQsc::get_top_tier_nodes
@floats average_rank_score
@fvecs rank_scores
@spec
    requires in_range(graph.outlinks@), 2 * nodes_of(*graph) <= max_len()
    ensures top_ranked(*graph, r@)
@entry
    broadcast use lem_filter_asc, lem_range_strict;
@closure 1 : bool
    requires *$1 < rank_scores@.len(), ensures vr == above(rank_scores@, *$1),
@after let rank_scores
    proof { assert(derefs(refs(rank_scores@)) =~= rank_scores@); }
@tail
    proof { assert forall|k: int| 0 <= k < vp_tail@.len() implies #[trigger] vp_tail@[k] < n by { assert(vp_tail@.contains(vp_tail@[k])); }
        assert(strictly(vp_tail@));
        assert forall|i: usize| #[trigger] vp_tail@.contains(i) <==> i < rank_scores@.len() && above(rank_scores@, i) by { assert(range_seq(0, n).contains(i) <==> i < n); }
        assert(top_ok(vp_tail@, rank_scores@.len() as int));
        assert(tops(rank_scores@, vp_tail@)); }

@fn GlobalRankQsc::new
@spec
    requires in_range(graph.outlinks@), 2 * nodes_of(graph) <= max_len()
    ensures r.graph == graph, r.relative_threshold == relative_threshold, top_ranked(graph, r.top_tier_nodes@)

@fn GlobalRankQsc::new_67p
@spec
    requires in_range(graph.outlinks@), 2 * nodes_of(graph) <= max_len()
    ensures r.graph == graph, r.relative_threshold is None, top_ranked(graph, r.top_tier_nodes@)

@fn GlobalRankQsc::new_relative
@spec
    requires in_range(graph.outlinks@), 2 * nodes_of(graph) <= max_len()
    ensures r.graph == graph, r.relative_threshold == Some(relative_threshold), top_ranked(graph, r.top_tier_nodes@)

@fn Graph::get_rank_scores
@floats starting_score epsilon x y
@spec
    requires in_range(self.outlinks@), 2 * nodes_of(*self) <= max_len()
    ensures r@.len() == nodes_of(*self), is_ranks(self.outlinks@, r@)
@loop 1
    except_break forall|j: int| 1 <= j <= it1.pos() ==> !#[trigger] settled(self.outlinks@, j),
    n == self.outlinks@.len(), in_range(self.outlinks@), it1_all == range_seq(0, max_runs), max_runs == last_round(n as int), scores@ =~= ranks(self.outlinks@, it1.pos()), scores@.len() == n,
    epsilon == fmax(fdiv(fdiv(fof(1), fof(n)), fof(n)), flit(1, 100000)),
    ensures 1 <= it1.pos(), rank_round(self.outlinks@, it1.pos()),
@loop 2
    n == self.outlinks@.len(), in_range(self.outlinks@), it2_all == range_seq(0, n), scores@.len() == n, last_scores@.len() == n, scores@ =~= spread(self.outlinks@, last_scores@, it2.pos()),
@loopbegin 2
    let ghost before = scores@;
    let ghost row = self.outlinks@[i as int]@;
    proof { assert(derefs(refs(row)) =~= row); }
@loop 3
    n == self.outlinks@.len(), in_range(self.outlinks@), i < n, row == self.outlinks@[i as int]@, it3_all == row, scores@.len() == n, last_scores@.len() == n, before.len() == n, l == fof(row.len() as usize), scores@ =~= spread_row(before, row, fdiv(last_scores@[i as int], l), it3.pos()),
@closure 1 : bool
    requires true, ensures vr == fgt(epsilon, fabs(fsub(*$1.0, *$1.1))),
@before break
    proof {
        let k = it1.pos();
        assert forall|i: int| 0 <= i < n implies fgt(epsilon, fabs(fsub(#[trigger] ranks(self.outlinks@, k)[i], ranks(self.outlinks@, k - 1)[i]))) by { assert(refs(scores@)[i] == &scores@[i]); assert(refs(last_scores@)[i] == &last_scores@[i]); }
        assert(settled(self.outlinks@, k));
    }
@loopend 1
    proof { assert(!settled(self.outlinks@, it1.pos())); }
@loopdone 1
    proof { assert(rank_round(self.outlinks@, it1.pos())); }
