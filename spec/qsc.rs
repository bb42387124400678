// ------------------------------------------------------------------ quorum set configurators
/// the threshold for `n` validators: two thirds, or the given share
pub open spec fn th(t: int, n: int, x: Option<f64>) -> bool { match x { None => is_67p(t, n), Some(s) => reaches(t, n, fval(s)) } }
pub open spec fn share_ok(x: Option<f64>) -> bool { match x { None => true, Some(s) => ffin(s) && 0real <= fval(s) <= 1real } }
pub open spec fn plain(q: QuorumSet, v: Seq<usize>) -> bool { q.validators@ == v && q.inner_quorum_sets@.len() == 0 }
/// node `i` before and after
pub open spec fn q_at(f: Fbas, i: usize) -> QuorumSet { f.nodes@[i as int].quorum_set }
pub proof fn lem_set_q(f: Fbas, g: Fbas, i: usize)
    requires i < f.nodes@.len() <= max_n(), in_bounds(f), kept(f, g, i as int), forall|x: usize| #[trigger] qn(q_at(g, i)).contains(x) ==> x < max_n()
    ensures in_bounds(g)
{
    assert forall|j: int, x: usize| #![trigger qn(g.nodes@[j].quorum_set).contains(x)] 0 <= j < g.nodes@.len() && qn(g.nodes@[j].quorum_set).contains(x) implies x < max_n() by {
        if j == i { assert(q_at(g, i) == g.nodes@[j].quorum_set); assert(qn(q_at(g, i)).contains(x)); }
        else { assert(g.nodes@[j] == f.nodes@[j]); assert(qn(f.nodes@[j].quorum_set).contains(x)); }
    }
}
pub proof fn lem_set_plain(f: Fbas, g: Fbas, i: usize)
    requires i < f.nodes@.len() <= max_n(), in_bounds(f), kept(f, g, i as int), q_at(g, i).inner_quorum_sets@.len() == 0, forall|k: int| 0 <= k < q_at(g, i).validators@.len() ==> #[trigger] q_at(g, i).validators@[k] < max_n()
    ensures in_bounds(g)
{
    let q = q_at(g, i);
    lem_flat_plain(q);
    assert forall|x: usize| #[trigger] qn(q).contains(x) implies x < max_n() by { let k = choose|k: int| 0 <= k < q.validators@.len() && q.validators@[k] == x; assert(q.validators@[k] < max_n()); }
    lem_set_q(f, g, i);
}
// ------------------------------------------------------------------ random choices
pub trait VSearch { fn v_binary_search(&self, x: &usize) -> (r: Result<usize, usize>) ; }
impl VSearch for Vec<usize> {
    #[verifier::external_body]
    fn v_binary_search(&self, x: &usize) -> (r: Result<usize, usize>)
        ensures match r { Ok(i) => i < self@.len() && self@[i as int] == *x, Err(_) => strictly(self@) ==> !self@.contains(*x) }
    { unimplemented!() }
}
pub open spec fn strictly(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
/// `v` is `own` with distinct new nodes below `n` appended
pub open spec fn extended(own: Seq<usize>, v: Seq<usize>, n: int) -> bool {
    &&& own.len() <= v.len() && v.take(own.len() as int) == own
    &&& forall|k: int| own.len() <= k < v.len() ==> #[trigger] v[k] < n && !own.contains(v[k])
    &&& forall|k: int, l: int| own.len() <= k < l < v.len() ==> #[trigger] v[k] != #[trigger] v[l]
}
pub open spec fn picked(own: Seq<usize>, v: Seq<usize>, n: int, goal: int) -> bool { extended(own, v, n) && v.len() == if own.len() < goal { goal } else { own.len() as int } }
/// the nodes not taken yet, in order
pub open spec fn avail(a: Seq<usize>, v: Seq<usize>, n: int) -> bool { strictly(a) && forall|x: usize| #[trigger] a.contains(x) <==> x < n && !v.contains(x) }
pub broadcast proof fn lem_filter_asc(s: Seq<usize>, p: spec_fn(usize) -> bool)
    ensures #![trigger s.filter(p)] strictly(s) ==> strictly(s.filter(p)), forall|x: usize| #[trigger] s.filter(p).contains(x) <==> s.contains(x) && p(x)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        lem_filter_asc(d, p);
        let (f, e) = (s.filter(p), d.filter(p));
        assert forall|x: usize| #[trigger] s.contains(x) <==> d.contains(x) || x == s.last() by { if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < d.len() { assert(d[i] == x); } } if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); } assert(s[s.len() - 1] == s.last()); }
        if p(s.last()) {
            assert(f == e.push(s.last()));
            assert forall|x: usize| #[trigger] f.contains(x) <==> e.contains(x) || x == s.last() by { if f.contains(x) { let i = choose|i: int| 0 <= i < f.len() && f[i] == x; if i < e.len() { assert(e[i] == x); } } if e.contains(x) { let i = choose|i: int| 0 <= i < e.len() && e[i] == x; assert(f[i] == x); } assert(f[f.len() - 1] == s.last()); }
            if strictly(s) {
                assert(strictly(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] d[i] < #[trigger] d[j] by { assert(s[i] < s[j]); } }
                assert forall|i: int, j: int| 0 <= i < j < f.len() implies #[trigger] f[i] < #[trigger] f[j] by {
                    if j == e.len() { assert(e.contains(e[i])); assert(d.contains(e[i])); let k = choose|k: int| 0 <= k < d.len() && d[k] == e[i]; assert(s[k] < s[s.len() - 1]); } else { assert(e[i] < e[j]); }
                }
            }
        } else {
            assert(f == e);
            if strictly(s) { assert(strictly(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] d[i] < #[trigger] d[j] by { assert(s[i] < s[j]); } } }
        }
    }
}
pub broadcast proof fn lem_range_strict(a: usize, b: usize)
    ensures #![trigger range_seq(a, b)] strictly(range_seq(a, b)), forall|x: usize| #[trigger] range_seq(a, b).contains(x) <==> a <= x < b
{
    let s = range_seq(a, b);
    assert forall|x: usize| #[trigger] s.contains(x) <==> a <= x < b by { if a <= x < b { assert(s[x - a] == x); } }
}
pub proof fn lem_enough(a: Seq<usize>, v: Seq<usize>, n: usize)
    requires avail(a, v, n as int)
    ensures a.len() + v.len() >= n
{
    lem_range_strict(0, n);
    let s = range_seq(0, n);
    s.unique_seq_to_set();
    assert(s.to_set().subset_of(a.to_set().union(v.to_set()))) by { assert forall|x: usize| s.to_set().contains(x) implies a.to_set().union(v.to_set()).contains(x) by { assert(s.contains(x)); assert(a.contains(x) || v.contains(x)); } }
    vstd::set_lib::lemma_len_subset(s.to_set(), a.to_set().union(v.to_set()));
    vstd::set_lib::lemma_len_union(a.to_set(), v.to_set());
    a.lemma_cardinality_of_set();
    v.lemma_cardinality_of_set();
}
pub proof fn lem_pick(own: Seq<usize>, v: Seq<usize>, w: Seq<usize>, a: Seq<usize>, b: Seq<usize>, k: int, n: int)
    requires extended(own, v, n), avail(a, v, n), 0 <= k < a.len(), b == a.remove(k), w == v.push(a[k])
    ensures extended(own, w, n), avail(b, w, n)
{
    let x = a[k];
    assert(a.contains(x));
    assert(w.take(own.len() as int) =~= own) by { assert(w.take(own.len() as int) =~= v.take(own.len() as int)); }
    assert forall|i: int| own.len() <= i < w.len() implies #[trigger] w[i] < n && !own.contains(w[i]) by {
        if i == v.len() { if own.contains(x) { let j = choose|j: int| 0 <= j < own.len() && own[j] == x; assert(v.take(own.len() as int)[j] == v[j]); assert(v.contains(x)); } } else { assert(w[i] == v[i]); }
    }
    assert forall|i: int, j: int| own.len() <= i < j < w.len() implies #[trigger] w[i] != #[trigger] w[j] by { if j == v.len() { assert(v[i] == w[i]); assert(v.contains(v[i])); } else { assert(v[i] != v[j]); } }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] < #[trigger] b[j] by { let i2 = if i < k { i } else { i + 1 }; let j2 = if j < k { j } else { j + 1 }; assert(a[i2] < a[j2]); }
    assert forall|y: usize| #[trigger] b.contains(y) <==> y < n && !w.contains(y) by {
        assert(w.contains(y) <==> v.contains(y) || y == x) by { if w.contains(y) { let i = choose|i: int| 0 <= i < w.len() && w[i] == y; if i < v.len() { assert(v[i] == y); } } if v.contains(y) { let i = choose|i: int| 0 <= i < v.len() && v[i] == y; assert(w[i] == y); } assert(w[v.len() as int] == x); }
        assert(b.contains(y) <==> a.contains(y) && y != x) by {
            if b.contains(y) { let i = choose|i: int| 0 <= i < b.len() && b[i] == y; let i2 = if i < k { i } else { i + 1 }; assert(a[i2] == y); if i2 < k { assert(a[i2] < a[k]); } else { assert(a[k] < a[i2]); } }
            if a.contains(y) && y != x { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; if i < k { assert(b[i] == y); } else { assert(b[i - 1] == y); } }
        }
    }
}
/// bounds for a node whose validators are old ones and new ones below `n`
pub proof fn lem_grown_bounds(f: Fbas, g: Fbas, i: usize, own: Seq<usize>)
    requires i < f.nodes@.len() <= max_n(), in_bounds(f), kept(f, g, i as int), q_at(g, i).inner_quorum_sets == q_at(f, i).inner_quorum_sets,
        own == q_at(f, i).validators@ || own == seq![i], extended(own, q_at(g, i).validators@, f.nodes@.len() as int)
    ensures in_bounds(g)
{
    let (o, q) = (q_at(f, i), q_at(g, i));
    let r = flat_i(o.inner_quorum_sets, o.inner_quorum_sets@.len() as int);
    assert forall|x: usize| #[trigger] qn(q).contains(x) implies x < max_n() by {
        let t = q.validators@ + r;
        assert(flat(q) == t);
        let k = choose|k: int| 0 <= k < t.len() && t[k] == x;
        if k >= q.validators@.len() { let z = k - q.validators@.len(); assert(r[z] == x); assert(flat(o)[o.validators@.len() + z] == x); assert(flat(o).contains(x)); assert(qn(o).contains(x)); assert(qn(f.nodes@[i as int].quorum_set).contains(x)); }
        else if k < own.len() { assert(q.validators@.take(own.len() as int)[k] == own[k]); if own == o.validators@ { assert(flat(o)[k] == x); assert(flat(o).contains(x)); assert(qn(o).contains(x)); assert(qn(f.nodes@[i as int].quorum_set).contains(x)); } }
        else { assert(q.validators@[k] == x); }
    }
    lem_set_q(f, g, i);
}
// ------------------------------------------------------------------ graphs
/// large enough for `n` nodes, and its links lead to its own nodes
pub open spec fn graph_ok(g: Graph, n: int) -> bool { n <= nodes_of(g) <= max_n() && in_range(g.outlinks@) && forall|i: int| 0 <= i < nodes_of(g) ==> (#[trigger] g.outlinks@[i])@.len() < max_n() }
/// `v` lists `row` and the node itself, in order
pub open spec fn with_self(row: Seq<usize>, i: usize, v: Seq<usize>) -> bool { sort_of(if row.contains(i) { row } else { row.push(i) }, v) }
pub proof fn lem_members(s: Seq<usize>, r: Seq<usize>, n: int)
    requires rearranged(s, r), forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < n
    ensures forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] < n
{ assert forall|k: int| 0 <= k < r.len() implies #[trigger] r[k] < n by { assert(r.contains(r[k])); assert(s.contains(r[k])); } }
pub open spec fn top_ok(t: Seq<usize>, n: int) -> bool { strictly(t) && forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] < n }
pub proof fn lem_top(t: Seq<usize>, n: int)
    requires top_ok(t, n), n >= 0
    ensures t.len() <= n
    decreases t.len()
{
    if t.len() > 0 {
        let d = t.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] d[i] < #[trigger] d[j] by { assert(t[i] < t[j]); }
        assert forall|k: int| 0 <= k < d.len() implies #[trigger] d[k] < t.last() by { assert(t[k] < t[t.len() - 1]); }
        assert(t[t.len() - 1] < n);
        lem_top(d, t.last() as int);
    }
}
// ------------------------------------------------------------------ tiers
pub broadcast proof fn lem_filter_same(s: Seq<usize>, p: spec_fn(usize) -> bool, q: spec_fn(usize) -> bool)
    ensures #![trigger s.filter(p), s.filter(q)] (forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i])) ==> s.filter(p) == s.filter(q)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i]) {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies p(#[trigger] d[i]) == q(d[i]) by { assert(d[i] == s[i]); }
        lem_filter_same(d, p, q);
        assert(p(s[s.len() - 1]) == q(s[s.len() - 1]));
    }
}
/// ranked at least twice as high as `i`, as the hardware compares
pub open spec fn is_upper(r: Seq<f64>, i: usize, j: usize) -> bool { fge(r[j as int], fmul(fof(2), r[i as int])) }
pub open spec fn is_lower(r: Seq<f64>, i: usize, j: usize) -> bool { fge(r[i as int], fmul(fof(2), r[j as int])) }
pub open spec fn upper_of(r: Seq<f64>, row: Seq<usize>, i: usize) -> Seq<usize> { row.filter(|j: usize| is_upper(r, i, j)) }
pub open spec fn rest_of(r: Seq<f64>, row: Seq<usize>, i: usize) -> Seq<usize> { row.filter(|j: usize| !is_upper(r, i, j)) }
pub open spec fn lower_of(r: Seq<f64>, row: Seq<usize>, i: usize) -> Seq<usize> { rest_of(r, row, i).filter(|j: usize| is_lower(r, i, j)) }
pub open spec fn same_of(r: Seq<f64>, row: Seq<usize>, i: usize) -> Seq<usize> { rest_of(r, row, i).filter(|j: usize| !is_lower(r, i, j)) }
/// the higher-tier neighbours, or the same-tier ones where there are none
pub open spec fn tier_of(r: Seq<f64>, row: Seq<usize>, i: usize) -> Seq<usize> { if upper_of(r, row, i).len() > 0 { upper_of(r, row, i) } else { same_of(r, row, i) } }
pub proof fn lem_filter_len(s: Seq<usize>, p: spec_fn(usize) -> bool, n: int)
    requires forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < n
    ensures s.filter(p).len() <= s.len(), forall|k: int| 0 <= k < s.filter(p).len() ==> #[trigger] s.filter(p)[k] < n
{
    s.lemma_filter_len(p);
    lem_filter_asc(s, p);
    assert forall|k: int| 0 <= k < s.filter(p).len() implies #[trigger] s.filter(p)[k] < n by { assert(s.filter(p).contains(s.filter(p)[k])); }
}
pub proof fn lem_tier_of(r: Seq<f64>, row: Seq<usize>, i: usize, n: int)
    requires forall|k: int| 0 <= k < row.len() ==> #[trigger] row[k] < n
    ensures tier_of(r, row, i).len() <= row.len(), forall|k: int| 0 <= k < tier_of(r, row, i).len() ==> #[trigger] tier_of(r, row, i)[k] < n
{
    lem_filter_len(row, |j: usize| is_upper(r, i, j), n);
    lem_filter_len(row, |j: usize| !is_upper(r, i, j), n);
    lem_filter_len(rest_of(r, row, i), |j: usize| !is_lower(r, i, j), n);
}
/// the chosen neighbours, and the quorum sets of those that list `i`
pub open spec fn corr_set(f: Fbas, v: Seq<usize>, i: usize) -> Set<usize>
    decreases v.len(),
{
    if v.len() == 0 { Set::empty() } else {
        let (s, x) = (corr_set(f, v.drop_last(), i).insert(v.last()), v.last());
        if x < f.nodes@.len() && qn(q_at(f, x)).contains(i) { s.union(qn(q_at(f, x))) } else { s }
    }
}
pub proof fn lem_corr_bound(f: Fbas, v: Seq<usize>, i: usize)
    requires in_bounds(f), forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] < max_n()
    ensures forall|x: usize| #[trigger] corr_set(f, v, i).contains(x) ==> x < max_n()
    decreases v.len()
{
    if v.len() > 0 {
        let d = v.drop_last();
        let x = v.last();
        assert forall|k: int| 0 <= k < d.len() implies #[trigger] d[k] < max_n() by { assert(v[k] < max_n()); }
        lem_corr_bound(f, d, i);
        assert(v[v.len() - 1] < max_n());
        assert forall|y: usize| #[trigger] corr_set(f, v, i).contains(y) implies y < max_n() by {
            if !corr_set(f, d, i).contains(y) && y != x { assert(qn(f.nodes@[x as int].quorum_set).contains(y)); }
        }
    }
}
pub proof fn lem_count(s: Set<usize>, n: int)
    requires forall|x: usize| #[trigger] s.contains(x) ==> x < n, n >= 0
    ensures s.len() <= n
{
    ax_elems(s);
    ax_elems_sorted(s);
    assert forall|k: int| 0 <= k < elems(s).len() implies #[trigger] elems(s)[k] < n by { assert(s.contains(elems(s)[k])); }
    lem_top(elems(s), n);
}

// ------------------------------------------------------------------ page ranks
/// every target of the row gets `x`, one after the other
pub open spec fn spread_row(a: Seq<f64>, row: Seq<usize>, x: f64, k: int) -> Seq<f64>
    decreases k,
{ if k <= 0 { a } else { let p = spread_row(a, row, x, k - 1); p.update(row[k - 1] as int, fadd(p[row[k - 1] as int], x)) } }
/// the first `i` nodes divide their last score among their targets
pub open spec fn spread(o: Seq<Vec<NodeId>>, last: Seq<f64>, i: int) -> Seq<f64>
    decreases i,
{ if i <= 0 { Seq::new(o.len(), |k: int| fof(0)) } else { spread_row(spread(o, last, i - 1), o[i - 1]@, fdiv(last[i - 1], fof(o[i - 1]@.len() as usize)), o[i - 1]@.len() as int) } }
/// the scores after `k` rounds
pub open spec fn ranks(o: Seq<Vec<NodeId>>, k: int) -> Seq<f64>
    decreases k,
{ if k <= 0 { Seq::new(o.len(), |i: int| fdiv(fof(1), fof(o.len() as usize))) } else { spread(o, ranks(o, k - 1), o.len() as int) } }
/// no score moved by as much as the tolerance in round `k`
pub open spec fn settled(o: Seq<Vec<NodeId>>, k: int) -> bool {
    let n = fof(o.len() as usize);
    forall|i: int| 0 <= i < o.len() ==> fgt(fmax(fdiv(fdiv(fof(1), n), n), flit(1, 100000)), fabs(fsub(#[trigger] ranks(o, k)[i], ranks(o, k - 1)[i])))
}
pub open spec fn last_round(n: int) -> int { if 2 * n >= 1000 { 2 * n } else { 1000 } }
pub open spec fn rank_round(o: Seq<Vec<NodeId>>, k: int) -> bool {
    1 <= k <= last_round(o.len() as int) && (k < last_round(o.len() as int) ==> settled(o, k)) && forall|j: int| 1 <= j < k ==> !#[trigger] settled(o, j)
}
/// the scores of the first round in which they settled, or of the last round
pub open spec fn is_ranks(o: Seq<Vec<NodeId>>, r: Seq<f64>) -> bool { exists|k: int| #[trigger] rank_round(o, k) && r == ranks(o, k) }
pub proof fn lem_spread_len(o: Seq<Vec<NodeId>>, last: Seq<f64>, i: int)
    requires 0 <= i <= o.len()
    ensures spread(o, last, i).len() == o.len()
    decreases i
{ if i > 0 { lem_spread_len(o, last, i - 1); lem_spread_row_len(spread(o, last, i - 1), o[i - 1]@, fdiv(last[i - 1], fof(o[i - 1]@.len() as usize)), o[i - 1]@.len() as int); } }
pub proof fn lem_spread_row_len(a: Seq<f64>, row: Seq<usize>, x: f64, k: int)
    ensures spread_row(a, row, x, k).len() == a.len()
    decreases k
{ if k > 0 { lem_spread_row_len(a, row, x, k - 1); } }

/// the sum of floats, left to right
pub uninterp spec fn fsum(s: Seq<f64>) -> f64;
impl<'a> It<&'a f64> {
    #[verifier::external_body]
    pub fn sum(self) -> (r: f64) ensures r == fsum(derefs(self@)) { unimplemented!() }
}
/// ranked above the average
pub open spec fn above(s: Seq<f64>, i: usize) -> bool { fgt(s[i as int], fdiv(fsum(s), fof(s.len() as usize))) }
/// the nodes ranked above the average, in order
pub open spec fn tops(s: Seq<f64>, t: Seq<usize>) -> bool { top_ok(t, s.len() as int) && forall|i: usize| #[trigger] t.contains(i) <==> i < s.len() && above(s, i) }
pub open spec fn top_ranked(g: Graph, t: Seq<usize>) -> bool { exists|s: Seq<f64>| is_ranks(g.outlinks@, s) && s.len() == nodes_of(g) && #[trigger] tops(s, t) }
