// ------------------------------------------------------------------ graphs and their generators
pub open spec fn nodes_of(g: Graph) -> int { g.outlinks@.len() as int }
/// there is a link from `i` to `j`
pub open spec fn linked(o: Seq<Vec<NodeId>>, i: int, j: usize) -> bool { o[i]@.contains(j) }
pub open spec fn in_range(o: Seq<Vec<NodeId>>) -> bool { forall|i: int, k: int| 0 <= i < o.len() && 0 <= k < o[i]@.len() ==> #[trigger] o[i]@[k] < o.len() }
/// exactly the nodes from `a` to `b` without `i`, each once
pub open spec fn row_is(r: Seq<usize>, a: int, b: int, i: int) -> bool { r.no_duplicates() && forall|j: usize| #[trigger] r.contains(j) <==> a <= j < b && j != i }
pub open spec fn full_mesh(g: Graph, n: int) -> bool { nodes_of(g) == n && forall|i: int| 0 <= i < n ==> row_is(#[trigger] g.outlinks@[i]@, 0, n, i) }
/// first node of tier `t`
pub open spec fn tier_start(s: Seq<usize>, t: int) -> int { sum_to(s, t) }
pub open spec fn tier_row(s: Seq<usize>, t: int, i: int, r: Seq<usize>) -> bool { row_is(r, if t > 0 { tier_start(s, t - 1) } else { 0 }, tier_start(s, t + 1), i) }
pub open spec fn tier_rows(s: Seq<usize>, t: int, o: Seq<Vec<NodeId>>, m: int) -> bool { forall|i: int| tier_start(s, t) <= i < m ==> tier_row(s, t, i, #[trigger] o[i]@) }
pub open spec fn tiered_mesh(g: Graph, s: Seq<usize>) -> bool {
    &&& nodes_of(g) == sum_to(s, s.len() as int)
    &&& forall|t: int| 0 <= t < s.len() ==> #[trigger] tier_rows(s, t, g.outlinks@, tier_start(s, t + 1))
}
pub proof fn lem_row(a: usize, b: usize, i: usize, c: usize)
    requires a <= b <= i < c
    ensures row_is(range_seq(a, b) + (range_seq(b, i) + range_seq((i + 1) as usize, c)), a as int, c as int, i as int)
{
    let s = range_seq(a, b) + (range_seq(b, i) + range_seq((i + 1) as usize, c));
    assert(s.len() == c - a - 1);
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] == (if k < i - a { a + k } else { a + k + 1 }) by {}
    assert forall|j: usize| #[trigger] s.contains(j) <==> a <= j < c && j != i by {
        if a <= j < c && j != i { let k = if j < i { j - a } else { j - a - 1 }; assert(s[k] == j); }
        if s.contains(j) { let k = choose|k: int| 0 <= k < s.len() && s[k] == j; }
    }
}
pub proof fn lem_mesh_row(i: usize, n: usize)
    requires i < n
    ensures row_is(range_seq(0, i) + range_seq((i + 1) as usize, n), 0, n as int, i as int)
{
    lem_row(0, 0, i, n);
    assert(range_seq(0, 0) + (range_seq(0, i) + range_seq((i + 1) as usize, n)) =~= range_seq(0, i) + range_seq((i + 1) as usize, n));
}
pub proof fn lem_sum_mono(s: Seq<usize>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures 0 <= sum_to(s, a) <= sum_to(s, b)
    decreases b
{ if a < b { lem_sum_mono(s, a, b - 1); } else if a > 0 { lem_sum_mono(s, a - 1, b - 1); } }
// ------------------------------------------------------------------ counting
pub open spec fn sum_len_to(o: Seq<Vec<NodeId>>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { sum_len_to(o, n - 1) + o[n - 1]@.len() } }
/// two entries per undirected link
pub open spec fn links(g: Graph) -> int { sum_len_to(g.outlinks@, nodes_of(g)) }
/// undirected, without loops and without double links, all ends in range
pub open spec fn simple(o: Seq<Vec<NodeId>>) -> bool {
    &&& forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i])@.no_duplicates()
    &&& forall|i: int, j: usize| 0 <= i < o.len() && #[trigger] linked(o, i, j) ==> j < o.len() && i != j && linked(o, j as int, i as usize)
}
pub proof fn lem_sum_len_same(o: Seq<Vec<NodeId>>, p: Seq<Vec<NodeId>>, n: int)
    requires n <= o.len(), n <= p.len(), forall|i: int| 0 <= i < n ==> #[trigger] o[i]@.len() == p[i]@.len()
    ensures sum_len_to(o, n) == sum_len_to(p, n)
    decreases n
{ if n > 0 { lem_sum_len_same(o, p, n - 1); } }
pub proof fn lem_sum_len_one(o: Seq<Vec<NodeId>>, p: Seq<Vec<NodeId>>, a: int, n: int)
    requires n <= o.len() == p.len(), 0 <= a < o.len(), p[a]@.len() == o[a]@.len() + 1, forall|i: int| 0 <= i < n && i != a ==> #[trigger] o[i]@.len() == p[i]@.len()
    ensures sum_len_to(p, n) == sum_len_to(o, n) + if a < n { 1int } else { 0int }
    decreases n
{ if n > 0 { lem_sum_len_one(o, p, a, n - 1); assert(n - 1 != a ==> o[n - 1]@.len() == p[n - 1]@.len()); } }
/// `p` is `o` with the undirected link `a`-`b` added
pub open spec fn with_link(o: Seq<Vec<NodeId>>, p: Seq<Vec<NodeId>>, a: usize, b: usize) -> bool {
    &&& p.len() == o.len() && a < o.len() && b < o.len() && a != b
    &&& p[a as int]@ == o[a as int]@.push(b) && p[b as int]@ == o[b as int]@.push(a)
    &&& forall|i: int| 0 <= i < o.len() && i != a && i != b ==> #[trigger] p[i] == o[i]
}
pub proof fn lem_push_contains(s: Seq<usize>, x: usize)
    ensures forall|j: usize| #[trigger] s.push(x).contains(j) <==> s.contains(j) || j == x, s.no_duplicates() && !s.contains(x) ==> s.push(x).no_duplicates()
{
    let p = s.push(x);
    assert forall|j: usize| #[trigger] p.contains(j) <==> s.contains(j) || j == x by {
        if s.contains(j) { let k = choose|k: int| 0 <= k < s.len() && s[k] == j; assert(p[k] == j); }
        if j == x { assert(p[s.len() as int] == x); }
        if p.contains(j) { let k = choose|k: int| 0 <= k < p.len() && p[k] == j; if k < s.len() { assert(s[k] == j); } }
    }
    if s.no_duplicates() && !s.contains(x) {
        assert forall|k: int, l: int| 0 <= k < p.len() && 0 <= l < p.len() && k != l implies p[k] != p[l] by {
            if k == s.len() { assert(s.contains(s[l])); } else if l == s.len() { assert(s.contains(s[k])); }
        }
    }
}
pub proof fn lem_with_link(o: Seq<Vec<NodeId>>, p: Seq<Vec<NodeId>>, a: usize, b: usize)
    requires with_link(o, p, a, b), simple(o), !linked(o, a as int, b)
    ensures simple(p), sum_len_to(p, p.len() as int) == sum_len_to(o, o.len() as int) + 2,
        forall|i: int, j: usize| 0 <= i < p.len() ==> (#[trigger] linked(p, i, j) <==> linked(o, i, j) || (i == a && j == b) || (i == b && j == a))
{
    lem_push_contains(o[a as int]@, b);
    lem_push_contains(o[b as int]@, a);
    assert(!linked(o, b as int, a)) by { if linked(o, b as int, a) { assert(linked(o, a as int, b)); } }
    assert forall|i: int, j: usize| 0 <= i < p.len() implies (#[trigger] linked(p, i, j) <==> linked(o, i, j) || (i == a && j == b) || (i == b && j == a)) by { if i != a && i != b { assert(p[i] == o[i]); } }
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i])@.no_duplicates() by { assert(o[i]@.no_duplicates()); if i != a && i != b { assert(p[i] == o[i]); } }
    let q = o.update(a as int, p[a as int]);
    lem_sum_len_one(o, q, a as int, o.len() as int);
    lem_sum_len_one(q, p, b as int, o.len() as int);
}
// ------------------------------------------------------------------ scale-free graphs
/// entries after the first `i` of `m` nodes were linked with all later ones
pub open spec fn tri(m: int, i: int) -> int
    decreases i,
{ if i <= 0 { 0 } else { tri(m, i - 1) + 2 * (m - i) } }
pub proof fn lem_tri(m: int, i: int)
    requires 0 <= i
    ensures tri(m, i) == i * (2 * m - i - 1)
    decreases i
{
    if i > 0 {
        lem_tri(m, i - 1);
        assert((i - 1) * (2 * m - (i - 1) - 1) + 2 * (m - i) == i * (2 * m - i - 1)) by (nonlinear_arith);
    } else { assert(0 * (2 * m - 0 - 1) == 0) by (nonlinear_arith); }
}
/// the links among the first `m0` nodes while they are being made: all pairs before (`i`, `j`)
pub open spec fn clique_part(o: Seq<Vec<NodeId>>, m0: int, i: int, j: int) -> bool {
    forall|a: int, b: usize| 0 <= a < o.len() ==> (#[trigger] linked(o, a, b) <==> a < m0 && b < m0 && a != b && (if a < b { a < i || (a == i && b < j) } else { b < i || (b == i && a < j) }))
}
pub open spec fn clique(o: Seq<Vec<NodeId>>, m: int) -> bool { forall|a: int, b: usize| #![trigger linked(o, a, b)] 0 <= a < m && b < m && a != b ==> linked(o, a, b) }
pub open spec fn below(o: Seq<Vec<NodeId>>, i: int) -> bool { forall|a: int| i <= a < o.len() ==> (#[trigger] o[a])@.len() == 0 }
pub open spec fn targets(o: Seq<Vec<NodeId>>, i: int, t: Seq<usize>) -> bool { t.no_duplicates() && forall|x: usize| #[trigger] t.contains(x) <==> x < i && !linked(o, i, x) }
pub open spec fn scale_free(g: Graph, n: int, m0: int, m: int) -> bool {
    &&& nodes_of(g) == n
    &&& simple(g.outlinks@)
    &&& links(g) == m0 * (m0 - 1) + 2 * (m * (n - m0))
    &&& clique(g.outlinks@, m0)
}
pub proof fn lem_drop(t: Seq<usize>, p: spec_fn(usize) -> bool, j: usize)
    requires t.no_duplicates(), t.contains(j), forall|i: int| 0 <= i < t.len() ==> p(#[trigger] t[i]) == (t[i] != j)
    ensures t.filter(p).no_duplicates(), t.filter(p).len() == t.len() - 1, forall|x: usize| #[trigger] t.filter(p).contains(x) <==> t.contains(x) && x != j
    decreases t.len()
{
    reveal(Seq::filter);
    let d = t.drop_last();
    let l = t.last();
    let f = d.filter(p);
    assert(t =~= d.push(l));
    lem_push_contains(d, l);
    assert(d.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < d.len() && 0 <= b < d.len() && a != b implies d[a] != d[b] by { assert(t[a] != t[b]); } }
    assert(!d.contains(l)) by { if d.contains(l) { let k = choose|k: int| 0 <= k < d.len() && d[k] == l; assert(t[k] == l && t[t.len() - 1] == l); } }
    assert forall|i: int| 0 <= i < d.len() implies p(#[trigger] d[i]) == (d[i] != j) by { assert(d[i] == t[i]); }
    if l == j { lem_keep(d, p); assert(t.filter(p) == d); } else { lem_drop(d, p, j); lem_push_contains(f, l); }
}
pub proof fn lem_keep(t: Seq<usize>, p: spec_fn(usize) -> bool)
    requires forall|i: int| 0 <= i < t.len() ==> p(#[trigger] t[i])
    ensures t.filter(p) == t
    decreases t.len()
{
    reveal(Seq::filter);
    if t.len() > 0 {
        let d = t.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies p(#[trigger] d[i]) by { assert(d[i] == t[i]); }
        lem_keep(d, p);
        assert(p(t[t.len() - 1]));
        assert(t.filter(p) =~= t);
    }
}
// ------------------------------------------------------------------ accessors
pub open spec fn occ(s: Seq<usize>, n: int, x: usize) -> int
    decreases n,
{ if n <= 0 { 0 } else { occ(s, n - 1, x) + if s[n - 1] == x { 1int } else { 0int } } }
/// number of links to `x` from the first `n` nodes
pub open spec fn links_to(o: Seq<Vec<NodeId>>, n: int, x: usize) -> int
    decreases n,
{ if n <= 0 { 0 } else { links_to(o, n - 1, x) + occ(o[n - 1]@, o[n - 1]@.len() as int, x) } }
pub proof fn lem_occ_mono(s: Seq<usize>, a: int, b: int, x: usize)
    requires 0 <= a <= b
    ensures 0 <= occ(s, a, x) <= occ(s, b, x)
    decreases b
{ if a < b { lem_occ_mono(s, a, b - 1, x); } else if a > 0 { lem_occ_mono(s, a - 1, b - 1, x); } }
pub proof fn lem_links_mono(o: Seq<Vec<NodeId>>, a: int, b: int, x: usize)
    requires 0 <= a <= b
    ensures 0 <= links_to(o, a, x) <= links_to(o, b, x)
    decreases b
{
    if b > 0 { lem_occ_mono(o[b - 1]@, 0, o[b - 1]@.len() as int, x); }
    if a < b { lem_links_mono(o, a, b - 1, x); } else if a > 0 { lem_links_mono(o, a - 1, b - 1, x); }
}
pub open spec fn touched(o: Seq<Vec<NodeId>>, n: int, x: usize) -> bool { (x < n && o[x as int]@.len() > 0) || exists|i: int| 0 <= i < n && #[trigger] linked(o, i, x) }
pub open spec fn undirected(o: Seq<Vec<NodeId>>) -> bool { forall|i: int, j: usize| 0 <= i < o.len() && #[trigger] linked(o, i, j) ==> linked(o, j as int, i as usize) }
pub open spec fn row_renamed(a: Seq<usize>, b: Seq<usize>, p: Seq<usize>) -> bool { a.len() == b.len() && forall|q: int| 0 <= q < a.len() ==> #[trigger] b[q] == p[a[q] as int] }
/// `h` is `g` with node `i` called `p[i]`
pub open spec fn renamed(g: Graph, h: Graph, p: Seq<usize>) -> bool {
    &&& p.len() == nodes_of(g) && p.no_duplicates() && nodes_of(h) == nodes_of(g)
    &&& forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < p.len()
    &&& forall|i: int| 0 <= i < p.len() ==> row_renamed(g.outlinks@[i]@, h.outlinks@[#[trigger] p[i] as int]@, p)
}
pub proof fn lem_targets_start(o: Seq<Vec<NodeId>>, i: usize, t: Seq<usize>)
    requires i < o.len(), o[i as int]@.len() == 0, t == range_seq(0, i)
    ensures targets(o, i as int, t)
{
    assert forall|x: usize| #[trigger] t.contains(x) <==> x < i && !linked(o, i as int, x) by { if x < i { assert(t[x as int] == x); } }
}
pub open spec fn back_from(o: Seq<Vec<NodeId>>, i: usize) -> bool { forall|q: int| 0 <= q < o[i as int]@.len() ==> linked(o, #[trigger] o[i as int]@[q] as int, i) }
pub broadcast proof fn lem_undirected(o: Seq<Vec<NodeId>>)
    requires o.len() <= usize::MAX
    ensures #[trigger] undirected(o) == (forall|i: usize| 0 <= i < o.len() ==> #[trigger] back_from(o, i))
{
    if undirected(o) { assert forall|i: usize| 0 <= i < o.len() implies #[trigger] back_from(o, i) by { assert forall|q: int| 0 <= q < o[i as int]@.len() implies linked(o, #[trigger] o[i as int]@[q] as int, i) by { assert(linked(o, i as int, o[i as int]@[q])); } } }
    if forall|i: usize| 0 <= i < o.len() ==> #[trigger] back_from(o, i) {
        assert forall|i: int, j: usize| 0 <= i < o.len() && #[trigger] linked(o, i, j) implies linked(o, j as int, i as usize) by {
            assert(back_from(o, i as usize)); let q = choose|q: int| 0 <= q < o[i]@.len() && o[i]@[q] == j; assert(linked(o, o[i]@[q] as int, i as usize)); }
    }
}
pub proof fn lem_touched(o: Seq<Vec<NodeId>>, i: int, x: usize)
    requires 0 <= i < o.len()
    ensures touched(o, i + 1, x) <==> touched(o, i, x) || (x == i && o[i]@.len() > 0) || linked(o, i, x)
{
    if touched(o, i + 1, x) && !touched(o, i, x) { if !(x < i + 1 && o[x as int]@.len() > 0) { let k = choose|k: int| 0 <= k < i + 1 && #[trigger] linked(o, k, x); assert(k == i); } }
    if linked(o, i, x) { assert(touched(o, i + 1, x)); }
    if touched(o, i, x) { if !(x < i && o[x as int]@.len() > 0) { let k = choose|k: int| 0 <= k < i && #[trigger] linked(o, k, x); assert(linked(o, k, x)); } }
}
pub proof fn lem_shuffled(n: usize, p: Seq<usize>)
    requires is_perm(range_seq(0, n), p)
    ensures p.len() == n, p.no_duplicates(), forall|k: int| 0 <= k < n ==> #[trigger] p[k] < n
{
    let s = range_seq(0, n);
    s.to_multiset_ensures();
    p.to_multiset_ensures();
    assert(s.no_duplicates());
    s.lemma_multiset_has_no_duplicates();
    p.lemma_multiset_has_no_duplicates_conv();
    assert forall|k: int| 0 <= k < n implies #[trigger] p[k] < n by { assert(p.contains(p[k])); assert(s.to_multiset().count(p[k]) > 0); assert(s.contains(p[k])); }
}
pub open spec fn hit(p: Seq<usize>, x: int) -> bool { exists|j: int| 0 <= j < p.len() && #[trigger] p[j] == x }
/// an injection of 0..n into itself hits everything
pub proof fn lem_onto(p: Seq<usize>)
    requires p.no_duplicates(), forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] < p.len()
    ensures forall|x: int| 0 <= x < p.len() ==> #[trigger] hit(p, x)
{
    let s = p.map_values(|u: usize| u as int).to_set();
    let q = p.map_values(|u: usize| u as int);
    assert(q.no_duplicates());
    q.unique_seq_to_set();
    let t = vstd::set_lib::set_int_range(0, p.len() as int);
    vstd::set_lib::lemma_int_range(0, p.len() as int);
    assert(s.subset_of(t)) by { assert forall|x: int| s.contains(x) implies t.contains(x) by { let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(q[j] == p[j]); } }
    vstd::set_lib::lemma_subset_equality(s, t);
    assert forall|x: int| 0 <= x < p.len() implies #[trigger] hit(p, x) by { assert(t.contains(x)); assert(s.contains(x)); let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(p[j] == x); }
}
pub proof fn lem_sum_zero(o: Seq<Vec<NodeId>>, n: int)
    requires n <= o.len(), forall|i: int| 0 <= i < n ==> (#[trigger] o[i])@.len() == 0
    ensures sum_len_to(o, n) == 0
    decreases n
{ if n > 0 { lem_sum_zero(o, n - 1); } }
pub open spec fn dropped(t: Seq<usize>, f: Seq<usize>, j: usize) -> bool { f.no_duplicates() && f.len() == t.len() - 1 && forall|x: usize| #[trigger] f.contains(x) <==> t.contains(x) && x != j }
pub broadcast proof fn lem_dropped(t: Seq<usize>, p: spec_fn(usize) -> bool)
    requires t.no_duplicates()
    ensures #![trigger t.filter(p)] forall|j: usize| #[trigger] t.contains(j) && (forall|i: int| 0 <= i < t.len() ==> p(#[trigger] t[i]) == (t[i] != j)) ==> dropped(t, t.filter(p), j)
{
    assert forall|j: usize| #[trigger] t.contains(j) && (forall|i: int| 0 <= i < t.len() ==> p(#[trigger] t[i]) == (t[i] != j)) implies dropped(t, t.filter(p), j) by { lem_drop(t, p, j); }
}
pub broadcast proof fn lem_simple_range(o: Seq<Vec<NodeId>>)
    requires #[trigger] simple(o)
    ensures in_range(o), o.len() <= usize::MAX ==> undirected(o)
{ assert forall|i: int, k: int| 0 <= i < o.len() && 0 <= k < o[i]@.len() implies #[trigger] o[i]@[k] < o.len() by { assert(linked(o, i, o[i]@[k])); } }
// ------------------------------------------------------------------ small-world graphs
pub open spec fn cell(m: Seq<Vec<bool>>, a: int, b: int) -> bool { m[a]@[b] }
pub open spec fn square(m: Seq<Vec<bool>>, n: int) -> bool { m.len() == n && forall|a: int| 0 <= a < n ==> (#[trigger] m[a])@.len() == n }
/// an undirected adjacency matrix without loops
pub open spec fn adjacency(m: Seq<Vec<bool>>, n: int) -> bool {
    square(m, n) && forall|a: int, b: int| 0 <= a < n && 0 <= b < n && #[trigger] cell(m, a, b) ==> a != b && cell(m, b, a)
}
pub open spec fn trues(r: Seq<bool>, k: int) -> int
    decreases k,
{ if k <= 0 { 0 } else { trues(r, k - 1) + if r[k - 1] { 1int } else { 0int } } }
pub open spec fn entries(m: Seq<Vec<bool>>, k: int) -> int
    decreases k,
{ if k <= 0 { 0 } else { entries(m, k - 1) + trues(m[k - 1]@, m[k - 1]@.len() as int) } }
pub proof fn lem_trues_set(r: Seq<bool>, a: int, v: bool, k: int)
    requires 0 <= a < r.len(), 0 <= k <= r.len(), r[a] != v
    ensures trues(r.update(a, v), k) == trues(r, k) + if a < k { if v { 1int } else { -1int } } else { 0int }
    decreases k
{ if k > 0 { lem_trues_set(r, a, v, k - 1); } }
/// `p` is `m` with the cells (`a`, `b`) and (`b`, `a`) set to `v`
pub open spec fn cells_set(m: Seq<Vec<bool>>, p: Seq<Vec<bool>>, a: usize, b: usize, v: bool) -> bool {
    &&& p.len() == m.len()
    &&& p[a as int]@ == m[a as int]@.update(b as int, v) && p[b as int]@ == m[b as int]@.update(a as int, v)
    &&& forall|i: int| 0 <= i < m.len() && i != a && i != b ==> #[trigger] p[i] == m[i]
}
pub proof fn lem_entries_same(m: Seq<Vec<bool>>, p: Seq<Vec<bool>>, a: int, d: int, k: int)
    requires 0 <= k <= m.len() == p.len(), 0 <= a < m.len(), forall|i: int| 0 <= i < k && i != a ==> #[trigger] p[i] == m[i],
        trues(p[a]@, p[a]@.len() as int) == trues(m[a]@, m[a]@.len() as int) + d
    ensures entries(p, k) == entries(m, k) + if a < k { d } else { 0int }
    decreases k
{ if k > 0 { lem_entries_same(m, p, a, d, k - 1); assert(k - 1 != a ==> p[k - 1] == m[k - 1]); } }
pub proof fn lem_cells_set(m: Seq<Vec<bool>>, p: Seq<Vec<bool>>, a: usize, b: usize, v: bool, n: int)
    requires adjacency(m, n), cells_set(m, p, a, b, v), a < n, b < n, a != b, cell(m, a as int, b as int) != v
    ensures adjacency(p, n), entries(p, n) == entries(m, n) + if v { 2int } else { -2int },
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] cell(p, i, j) == if (i == a && j == b) || (i == b && j == a) { v } else { cell(m, i, j) }
{
    let (x, y) = (a as int, b as int);
    assert(cell(m, y, x) != v) by { if !v { assert(cell(m, x, y)); } else if cell(m, y, x) { assert(cell(m, x, y)); } }
    assert(m[x]@.len() == n && m[y]@.len() == n);
    assert forall|i: int| 0 <= i < n implies (#[trigger] p[i])@.len() == n by { assert(m[i]@.len() == n); if i != a && i != b { assert(p[i] == m[i]); } }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] cell(p, i, j) == if (i == a && j == b) || (i == b && j == a) { v } else { cell(m, i, j) } by { if i != a && i != b { assert(p[i] == m[i]); } }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] cell(p, i, j) implies i != j && cell(p, j, i) by { assert(cell(m, i, j) || v); if (i == a && j == b) || (i == b && j == a) { } else { assert(cell(m, i, j)); assert(cell(m, j, i)); } }
    lem_trues_set(m[x]@, y, v, n);
    lem_trues_set(m[y]@, x, v, n);
    let q = m.update(x, p[x]);
    let d = if v { 1int } else { -1int };
    lem_entries_same(m, q, x, d, n);
    lem_entries_same(q, p, y, d, n);
}
/// steps from `a` forward to `b` on the ring
pub open spec fn dist(a: int, b: int, n: int) -> int { if b >= a { b - a } else { b + n - a } }
/// how many steps forward node `a` is linked when `i` nodes and `d` steps of node `i` are done
pub open spec fn reach(a: int, h: int, i: int, d: int) -> int { if a < i { h } else if a == i { d } else { 0 } }
pub open spec fn ring(m: Seq<Vec<bool>>, n: int, h: int, i: int, d: int) -> bool {
    forall|a: int, b: int| 0 <= a < n && 0 <= b < n ==> (#[trigger] cell(m, a, b) <==> a != b && (dist(a, b, n) <= reach(a, h, i, d) || dist(b, a, n) <= reach(b, h, i, d)))
}
pub open spec fn free_ends(m: Seq<Vec<bool>>, n: int, i: int, t: Seq<usize>, k: int) -> bool {
    t.no_duplicates() && forall|x: usize| #[trigger] t.contains(x) <==> x < k && x != i && !cell(m, i, x as int)
}
pub open spec fn all_free(m: Seq<Vec<bool>>, n: int, t: Seq<Vec<NodeId>>) -> bool { t.len() == n && forall|i: int| 0 <= i < n ==> free_ends(m, n, i, #[trigger] t[i]@, n) }
pub open spec fn row_of(m: Seq<Vec<bool>>, i: int, r: Seq<usize>, k: int) -> bool {
    r.no_duplicates() && r.len() == trues(m[i]@, k) && forall|x: usize| #[trigger] r.contains(x) <==> x < k && cell(m, i, x as int)
}
pub open spec fn small_world(g: Graph, n: int, k: int) -> bool { nodes_of(g) == n && simple(g.outlinks@) && links(g) == n * k }
pub proof fn lem_entries_links(m: Seq<Vec<bool>>, o: Seq<Vec<NodeId>>, n: int, k: int)
    requires 0 <= k <= n, m.len() == n, o.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] o[i])@.len() == trues(m[i]@, m[i]@.len() as int)
    ensures sum_len_to(o, k) == entries(m, k)
    decreases k
{ if k > 0 { lem_entries_links(m, o, n, k - 1); } }
pub proof fn lem_no_entries(m: Seq<Vec<bool>>, k: int)
    requires 0 <= k <= m.len(), forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i]@.len() ==> !#[trigger] cell(m, i, j)
    ensures entries(m, k) == 0
    decreases k
{ if k > 0 { lem_no_entries(m, k - 1); lem_no_trues(m, k - 1, m[k - 1]@.len() as int); } }
pub proof fn lem_no_trues(m: Seq<Vec<bool>>, i: int, k: int)
    requires 0 <= i < m.len(), 0 <= k <= m[i]@.len(), forall|j: int| 0 <= j < m[i]@.len() ==> !#[trigger] cell(m, i, j)
    ensures trues(m[i]@, k) == 0
    decreases k
{ if k > 0 { lem_no_trues(m, i, k - 1); assert(!cell(m, i, k - 1)); } }
/// taking one link away and adding another keeps the lists of free ends right
pub proof fn lem_rewired(m: Seq<Vec<bool>>, p: Seq<Vec<bool>>, n: int, t: Seq<Vec<NodeId>>, u: Seq<Vec<NodeId>>, i: usize, j: usize, w: usize)
    requires adjacency(m, n), all_free(m, n, t), i < n, j < n, w < n, i != j, w != i, w != j, cell(m, i as int, j as int), !cell(m, i as int, w as int),
        square(p, n), u.len() == n,
        forall|a: int, b: int| 0 <= a < n && 0 <= b < n ==> #[trigger] cell(p, a, b) == if (a == i && b == j) || (a == j && b == i) { false } else if (a == i && b == w) || (a == w && b == i) { true } else { cell(m, a, b) },
        dropped(t[i as int]@.push(j), u[i as int]@, w), u[j as int]@ == t[j as int]@.push(i), dropped(t[w as int]@, u[w as int]@, i),
        forall|a: int| 0 <= a < n && a != i && a != j && a != w ==> #[trigger] u[a] == t[a]
    ensures all_free(p, n, u)
{
    lem_push_contains(t[i as int]@, j);
    lem_push_contains(t[j as int]@, i);
    assert(cell(m, j as int, i as int));
    assert forall|a: int| 0 <= a < n implies free_ends(p, n, a, #[trigger] u[a]@, n) by {
        assert(free_ends(m, n, a, t[a]@, n));
        if a != i && a != j && a != w { assert(u[a] == t[a]); }
        assert forall|x: usize| #[trigger] u[a]@.contains(x) <==> x < n && x != a && !cell(p, a, x as int) by { if x < n { assert(cell(p, a, x as int) == cell(p, a, x as int)); } assert(t[a]@.contains(x) <==> x < n && x != a && !cell(m, a, x as int)); }
    }
}
pub open spec fn to_rewire(m: Seq<Vec<bool>>, n: int, i: int, t: Seq<usize>) -> bool { t.no_duplicates() && forall|q: int| 0 <= q < t.len() ==> #[trigger] t[q] < n && t[q] != i && cell(m, i, t[q] as int) }
pub proof fn lem_wrap(i: usize, j: usize, n: usize)
    requires i < n, i < j < i + n
    ensures j % n < n, j % n != i, dist(i as int, (j % n) as int, n as int) == j - i, dist((j % n) as int, i as int, n as int) == n - (j - i)
{
    if j < n { vstd::arithmetic::div_mod::lemma_small_mod(j as nat, n as nat); }
    else { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish((j - n) as int, n as int); vstd::arithmetic::div_mod::lemma_small_mod((j - n) as nat, n as nat); }
}
pub proof fn lem_from_matrix(m: Seq<Vec<bool>>, o: Seq<Vec<NodeId>>, n: int)
    requires adjacency(m, n), o.len() == n, n <= usize::MAX, forall|a: int| 0 <= a < n ==> row_of(m, a, #[trigger] o[a]@, n)
    ensures simple(o), sum_len_to(o, n) == entries(m, n)
{
    assert forall|i: int, j: usize| 0 <= i < o.len() && #[trigger] linked(o, i, j) implies j < o.len() && i != j && linked(o, j as int, i as usize) by {
        assert(row_of(m, i, o[i]@, n)); assert(o[i]@.contains(j)); assert(cell(m, i, j as int)); assert(row_of(m, j as int, o[j as int]@, n)); assert(o[j as int]@.contains(i as usize)); }
    assert forall|i: int| 0 <= i < n implies (#[trigger] o[i])@.len() == trues(m[i]@, m[i]@.len() as int) by { assert(row_of(m, i, o[i]@, n)); assert(m[i]@.len() == n); }
    lem_entries_links(m, o, n, n);
}
