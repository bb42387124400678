@type Graph

@fn Graph::new
@spec
    ensures r.outlinks@ == outlinks@

@fn Graph::new_full_mesh
@spec
    ensures full_mesh(r, n as int)
@entry
    proof { assert forall|i: usize| i < n implies #[trigger] row_is(range_seq(0, i) + range_seq((i + 1) as usize, n), 0, n as int, i as int) by { lem_mesh_row(i, n); } }
@closure 1 : Vec<usize>
    requires $1 < n, ensures vr@ == range_seq(0, $1) + range_seq(($1 + 1) as usize, n),

@fn Graph::new_tiered_full_mesh
@spec
    requires sum_to(tier_sizes@, tier_sizes@.len() as int) <= usize::MAX
    ensures tiered_mesh(r, tier_sizes@)
@entry
    let ghost s = tier_sizes@;
    proof { ax_derefs(s); }
@loop 1
    s == tier_sizes@, it1_all == refs(s), sum_to(s, s.len() as int) <= usize::MAX,
    outlinks@.len() == sum_to(s, s.len() as int),
    i0 == tier_start(s, it1.pos()),
    higher_tier_node_ids@ == range_seq((if it1.pos() > 0 { tier_start(s, it1.pos() - 1) } else { 0 }) as usize, tier_start(s, it1.pos()) as usize),
    forall|t: int| 0 <= t < it1.pos() ==> #[trigger] tier_rows(s, t, outlinks@, tier_start(s, t + 1)),
    forall|i: int| tier_start(s, it1.pos()) <= i < outlinks@.len() ==> (#[trigger] outlinks@[i])@ == Seq::<usize>::empty(),
@loopbegin 1
    let ghost t = it1_i;
    proof { lem_sum_mono(s, t, t + 1); lem_sum_mono(s, t + 1, s.len() as int); if t > 0 { lem_sum_mono(s, t - 1, t); } }
@loop 2
    s == tier_sizes@, 0 <= t < s.len(), it2_all == range_seq(i0, n), i0 == tier_start(s, t), n == tier_start(s, t + 1), i0 <= n <= outlinks@.len(),
    (if t > 0 { tier_start(s, t - 1) } else { 0 }) <= i0, (if t > 0 { tier_start(s, t - 1) } else { 0 }) >= 0,
    outlinks@.len() == sum_to(s, s.len() as int),
    higher_tier_node_ids@ == range_seq((if t > 0 { tier_start(s, t - 1) } else { 0 }) as usize, i0),
    forall|u: int| 0 <= u < t ==> #[trigger] tier_rows(s, u, outlinks@, tier_start(s, u + 1)),
    tier_rows(s, t, outlinks@, i0 + it2.pos()),
    forall|i: int| i0 + it2.pos() <= i < outlinks@.len() ==> (#[trigger] outlinks@[i])@ == Seq::<usize>::empty(),
@loopbegin 2
    let ghost o = outlinks@;
    proof { lem_row((if t > 0 { tier_start(s, t - 1) } else { 0 }) as usize, i0, i, n); }
@loopend 2
    proof {
        assert(Seq::<usize>::empty() + higher_tier_node_ids@ =~= higher_tier_node_ids@);
        assert(tier_row(s, t, i as int, outlinks@[i as int]@));
        assert forall|u: int| 0 <= u < t implies #[trigger] tier_rows(s, u, outlinks@, tier_start(s, u + 1)) by {
            lem_sum_mono(s, u + 1, t);
            assert(tier_rows(s, u, o, tier_start(s, u + 1)));
            assert forall|x: int| tier_start(s, u) <= x < tier_start(s, u + 1) implies tier_row(s, u, x, #[trigger] outlinks@[x]@) by { assert(outlinks@[x] == o[x]); }
        }
        assert forall|x: int| tier_start(s, t) <= x < i0 + it2_i + 1 implies tier_row(s, t, x, #[trigger] outlinks@[x]@) by { if x < i { assert(outlinks@[x] == o[x]); } }
    }

@fn Graph::new_random_scale_free
@spec
    requires 0 < m <= m0, m0 <= n
    ensures scale_free(r, n as int, m0 as int, m as int)
@entry
    broadcast use lem_dropped, lem_simple_range;
@before for i in 0..m0
    proof { lem_sum_zero(outlinks@, n as int); }
@loop 1
    outlinks@.len() == n, it1_all == range_seq(0, m0), 0 < m <= m0 <= n, simple(outlinks@),
    clique_part(outlinks@, m0 as int, it1.pos(), it1.pos() + 1), sum_len_to(outlinks@, n as int) == tri(m0 as int, it1.pos()),
    below(outlinks@, m0 as int),
@loop 2
    outlinks@.len() == n, it2_all == range_seq((i + 1) as usize, m0), 0 < m <= m0 <= n, i < m0, simple(outlinks@),
    clique_part(outlinks@, m0 as int, i as int, i + 1 + it2.pos()), sum_len_to(outlinks@, n as int) == tri(m0 as int, i as int) + 2 * it2.pos(),
    below(outlinks@, m0 as int),
@loopbegin 2
    let ghost o = outlinks@;
    proof { assert(!linked(o, i as int, j)); }
@loopend 2
    proof { assert(with_link(o, outlinks@, i, j)); lem_with_link(o, outlinks@, i, j); }
@before for i in m0..n
    proof {
        lem_tri(m0 as int, m0 as int);
        assert(2 * (m * 0) == 0);
        assert(clique(outlinks@, m0 as int));
        assert(m0 * (2 * m0 - m0 - 1) == m0 * (m0 - 1)) by (nonlinear_arith);
    }
@loop 3
    outlinks@.len() == n, it3_all == range_seq(m0, n), 0 < m <= m0 <= n, simple(outlinks@), clique(outlinks@, m0 as int),
    below(outlinks@, m0 + it3.pos()),
    sum_len_to(outlinks@, n as int) == m0 * (m0 - 1) + 2 * (m * it3.pos()),
@loopbegin 3
    proof { assert(outlinks@[i as int]@.len() == 0); }
@before for _ in 0..m
    proof { lem_targets_start(outlinks@, i, possible_targets@); }
@loop 4
    outlinks@.len() == n, 0 < m <= m0 <= i < n, simple(outlinks@), clique(outlinks@, m0 as int),
    below(outlinks@, i + 1), it4_all.len() == m,
    sum_len_to(outlinks@, n as int) == m0 * (m0 - 1) + 2 * (m * (i - m0)) + 2 * it4.pos(),
    targets(outlinks@, i as int, possible_targets@), possible_targets@.len() == i - it4.pos(),
@loopbegin 4
    let ghost o = outlinks@;
    let ghost pt = possible_targets@;
    proof { assert forall|q: int| 0 <= q < pt.len() implies #[trigger] pt[q] < i by { assert(pt.contains(pt[q])); } assert(pt.len() > 0); assert(pt[0] < i); }
@closure 1 : usize
    requires *$1 < outlinks@.len(), ensures vr > 0,
@before #2 debug_assert_ne
    proof { assert(pt.contains(j)); assert(!linked(o, i as int, j)); }
@loopend 4
    proof {
        assert(with_link(o, outlinks@, i, j)); lem_with_link(o, outlinks@, i, j);
    }
@loopend 3
    proof { assert(m * (i - m0) + m == m * (i + 1 - m0)) by (nonlinear_arith); }

@fn Graph::is_undirected
@spec
    requires in_range(self.outlinks@)
    ensures r == undirected(self.outlinks@)
@entry
    let ghost o = self.outlinks@;
    broadcast use lem_undirected;
    proof { ax_refs(o); }
@closure 1 : bool
    requires $1.0 < o.len(), *$1.1 == o[$1.0 as int],
    ensures vr == back_from(o, $1.0),
@closure 2 : &Vec<NodeId>
    requires *$1 < o.len(), ensures *vr == o[*$1 as int],
@closure 3 : bool
    requires true, ensures vr == $1@.contains(i),

@fn Graph::number_of_nodes
@spec
    ensures r == nodes_of(*self)

@fn Graph::get_out_degrees
@spec
    ensures r@.len() == nodes_of(*self), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.outlinks@[i]@.len()
@closure 1 : usize
    requires true, ensures vr == $1@.len(),

@fn Graph::get_in_degrees
@spec
    requires in_range(self.outlinks@), forall|x: usize| #[trigger] links_to(self.outlinks@, nodes_of(*self), x) <= usize::MAX
    ensures r@.len() == nodes_of(*self), forall|x: usize| x < r@.len() ==> #[trigger] r@[x as int] == links_to(self.outlinks@, nodes_of(*self), x)
@loop 1
    result@.len() == nodes_of(*self), it1_all == refs(self.outlinks@), in_range(self.outlinks@),
    forall|x: usize| #[trigger] links_to(self.outlinks@, nodes_of(*self), x) <= usize::MAX,
    forall|x: usize| x < result@.len() ==> #[trigger] result@[x as int] == links_to(self.outlinks@, it1.pos(), x),
@loop 2
    0 <= it1_i < nodes_of(*self), *outlinks == self.outlinks@[it1_i], it2_all == refs(outlinks@), in_range(self.outlinks@),
    result@.len() == nodes_of(*self),
    forall|x: usize| #[trigger] links_to(self.outlinks@, nodes_of(*self), x) <= usize::MAX,
    forall|x: usize| x < result@.len() ==> #[trigger] result@[x as int] == links_to(self.outlinks@, it1_i, x) + occ(outlinks@, it2.pos(), x),
@loopbegin 2
    proof {
        assert(outlinks@[it2_i] == in_node);
        assert(self.outlinks@[it1_i]@[it2_i] < nodes_of(*self));
        lem_occ_mono(outlinks@, it2_i + 1, outlinks@.len() as int, in_node);
        lem_links_mono(self.outlinks@, it1_i + 1, nodes_of(*self), in_node);
    }

@fn Graph::get_connected_nodes
@spec
    ensures forall|x: usize| #[trigger] r@.contains(x) <==> touched(self.outlinks@, nodes_of(*self), x)
@loop 1
    it1_all.len() == nodes_of(*self), forall|k: int| 0 <= k < it1_all.len() ==> (#[trigger] it1_all[k]).0 == k && *it1_all[k].1 == self.outlinks@[k],
    forall|x: usize| #[trigger] result@.contains(x) <==> touched(self.outlinks@, it1.pos(), x),
@loopbegin 1
    let ghost old_r = result@;
    proof { ax_derefs(outlinks@); assert forall|x: usize| linked(self.outlinks@, it1_i, x) == #[trigger] outlinks@.to_set().contains(x) by { } }
@loopend 1
    proof { assert forall|x: usize| #[trigger] result@.contains(x) <==> touched(self.outlinks@, it1_i + 1, x) by { lem_touched(self.outlinks@, it1_i, x); } }

@fn Graph::shuffled
@spec
    requires in_range(self.outlinks@)
    ensures exists|p: Seq<usize>| renamed(self, r, p)
@before let mut new_to_old
    let ghost p = old_to_new@;
    proof { lem_shuffled(n, p); }
@loop 1
    it1_all.len() == n, forall|k: int| 0 <= k < it1_all.len() ==> (#[trigger] it1_all[k]).0 == k && *it1_all[k].1 == p[k],
    p.len() == n, p.no_duplicates(), forall|k: int| 0 <= k < n ==> #[trigger] p[k] < n,
    new_to_old@.len() == n, forall|k: int| 0 <= k < it1.pos() ==> new_to_old@[#[trigger] p[k] as int] == k,
@closure 1 : Vec<NodeId>
    requires *$1 < n, ensures row_renamed(self.outlinks@[*$1 as int]@, vr@, p),
@closure 2 : usize
    requires *$1 < n, ensures vr == p[*$1 as int],
@before let new_outlinks
    proof { lem_onto(p); assert forall|k: int| 0 <= k < n implies (#[trigger] new_to_old@[k]) < n by { assert(hit(p, k)); let j = choose|j: int| 0 <= j < n && p[j] == k; assert(new_to_old@[p[j] as int] == j); } }
@tail
    proof { assert(renamed(self, vp_tail, p)); }

@fn Graph::new_random_small_world
@spec
    requires k % 2 == 0, k < n || (n == 0 && k == 0), n <= max_len(), is_prob(beta)
    ensures small_world(r, n as int, k as int)
@entry
    broadcast use lem_dropped, lem_simple_range;
    let ghost h = (k / 2) as int;
@before for i in 0..n
    proof { lem_no_entries(matrix@, n as int); }
@loop 1
    it1_all == range_seq(0, n), k % 2 == 0, k < n || n == 0, n <= max_len(), h == k / 2,
    adjacency(matrix@, n as int), ring(matrix@, n as int, h, it1.pos(), 0), entries(matrix@, n as int) == it1.pos() * k,
@loop 2
    it2_all == range_incl_seq((i + 1) as usize, (i + h) as usize), k % 2 == 0, k < n, n <= max_len(), h == k / 2, i < n,
    adjacency(matrix@, n as int), ring(matrix@, n as int, h, i as int, it2.pos()), entries(matrix@, n as int) == i * k + 2 * it2.pos(),
@loopbegin 2
    let ghost m = matrix@;
    proof { assert(j == i + 1 + it2_i); lem_wrap(i, j, n); }
@after let j = j % n
    proof { assert(dist(i as int, j as int, n as int) == it2_i + 1); assert(!cell(m, i as int, j as int)); }
@loopend 2
    proof { assert(cells_set(m, matrix@, i, j, true)); lem_cells_set(m, matrix@, i, j, true, n as int); }
@loopend 1
    proof { assert(i * k + k == (i + 1) * k) by (nonlinear_arith); }
@loop 3
    it3_all == range_seq(0, n), adjacency(matrix@, n as int), possible_targets@.len() == n,
    forall|a: int| 0 <= a < it3.pos() ==> free_ends(matrix@, n as int, a, #[trigger] possible_targets@[a]@, n as int),
    forall|a: int| it3.pos() <= a < n ==> (#[trigger] possible_targets@[a])@ == Seq::<usize>::empty(),
@loop 4
    it4_all == range_seq(0, n), adjacency(matrix@, n as int), possible_targets@.len() == n, i < n,
    forall|a: int| 0 <= a < i ==> free_ends(matrix@, n as int, a, #[trigger] possible_targets@[a]@, n as int),
    free_ends(matrix@, n as int, i as int, possible_targets@[i as int]@, it4.pos()),
    forall|a: int| i < a < n ==> (#[trigger] possible_targets@[a])@ == Seq::<usize>::empty(),
@loopbegin 4
    let ghost t = possible_targets@;
    proof { lem_push_contains(t[i as int]@, j); assert(cell(matrix@, i as int, j as int) == cell(matrix@, j as int, i as int)) by { if cell(matrix@, i as int, j as int) { } if cell(matrix@, j as int, i as int) { } } }
@loop 5
    it5_all == range_seq(0, n), k < n || n == 0, n <= max_len(), h == k / 2, is_prob(beta), to_be_rewired@.len() == 0,
    adjacency(matrix@, n as int), entries(matrix@, n as int) == n * k, all_free(matrix@, n as int, possible_targets@),
@loop 6
    it6_all == range_incl_seq((i + 1) as usize, (i + h) as usize), k < n, n <= max_len(), h == k / 2, i < n, is_prob(beta), adjacency(matrix@, n as int),
    to_rewire(matrix@, n as int, i as int, to_be_rewired@), forall|q: int| 0 <= q < to_be_rewired@.len() ==> dist(i as int, #[trigger] to_be_rewired@[q] as int, n as int) <= it6.pos(),
@loopbegin 6
    proof { assert(j == i + 1 + it6_i); lem_wrap(i, j, n); }
@loop 7
    k < n, i < n, adjacency(matrix@, n as int), entries(matrix@, n as int) == n * k, all_free(matrix@, n as int, possible_targets@),
    to_be_rewired@.len() == 0, to_rewire(matrix@, n as int, i as int, it7_all.skip(it7.pos())),
@loopbegin 7
    let ghost m = matrix@;
    let ghost t = possible_targets@;
    proof { let s = it7_all.skip(it7_i); assert(s[0] == j); assert forall|q: int| 0 <= q < it7_all.skip(it7_i + 1).len() implies #[trigger] it7_all.skip(it7_i + 1)[q] == s[q + 1] by {} assert(free_ends(m, n as int, i as int, t[i as int]@, n as int)); }
@after matrix[j][i] = false
    let ghost m1 = matrix@;
    proof { assert(cells_set(m, m1, i, j, false)); lem_cells_set(m, m1, i, j, false, n as int); assert(t[i as int]@.contains(newj)); assert(!cell(m, i as int, newj as int)); assert(cell(m, i as int, j as int)); }
    proof { lem_push_contains(t[i as int]@, j); assert(!t[i as int]@.contains(j)); assert(t[i as int]@.push(j).no_duplicates()); assert(t[i as int]@.push(j).contains(newj));
        assert(free_ends(m, n as int, newj as int, t[newj as int]@, n as int)); assert(!cell(m, newj as int, i as int)) by { if cell(m, newj as int, i as int) { assert(cell(m, i as int, newj as int)); } } assert(t[newj as int]@.contains(i)); }
@after matrix[newj][i] = true
    proof { assert(cells_set(m1, matrix@, i, newj, true)); lem_cells_set(m1, matrix@, i, newj, true, n as int); }
@after possible_targets[newj].retain
    proof { lem_rewired(m, matrix@, n as int, t, possible_targets@, i, j, newj); }
@loop 8
    it8_all == range_seq(0, n), adjacency(matrix@, n as int), outlinks@.len() == n,
    forall|a: int| 0 <= a < it8.pos() ==> row_of(matrix@, a, #[trigger] outlinks@[a]@, n as int),
    forall|a: int| it8.pos() <= a < n ==> (#[trigger] outlinks@[a])@ == Seq::<usize>::empty(),
@loop 9
    it9_all == range_seq(0, n), adjacency(matrix@, n as int), outlinks@.len() == n, i < n,
    forall|a: int| 0 <= a < i ==> row_of(matrix@, a, #[trigger] outlinks@[a]@, n as int),
    row_of(matrix@, i as int, outlinks@[i as int]@, it9.pos()),
    forall|a: int| i < a < n ==> (#[trigger] outlinks@[a])@ == Seq::<usize>::empty(),
@loopbegin 9
    let ghost o = outlinks@;
    proof { lem_push_contains(o[i as int]@, j); assert(matrix@[i as int]@.len() == n); }
@before let result
    proof { lem_from_matrix(matrix@, outlinks@, n as int); }
