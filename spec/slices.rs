// ------------------------------------------------------------------------------------
// expanding quorum sets into slices
// ------------------------------------------------------------------------------------
pub mod combinatorics {
use vstd::prelude::*;
use super::prelude::*;
/// strictly ascending positions below `n`
pub open spec fn ascends(c: Seq<int>, n: int) -> bool {
    (forall|i: int| 0 <= i < c.len() ==> 0 <= #[trigger] c[i] < n) && forall|i: int, j: int| 0 <= i < j < c.len() ==> #[trigger] c[i] < #[trigger] c[j]
}
/// the position lists that itertools' `combinations(k)` goes through on `n` items
pub uninterp spec fn combs(n: int, k: int) -> Seq<Seq<int>>;
pub broadcast axiom fn ax_combs(n: int, k: int)
    requires 0 <= k
    ensures
        #![trigger combs(n, k)]
        combs(n, k).no_duplicates(),
        forall|c: Seq<int>| #[trigger] combs(n, k).contains(c) <==> c.len() == k && ascends(c, n);
/// one position per list
pub open spec fn picks<T>(g: Seq<Seq<T>>, t: Seq<int>) -> bool { t.len() == g.len() && forall|i: int| 0 <= i < t.len() ==> 0 <= #[trigger] t[i] < g[i].len() }
/// the position tuples that itertools' `multi_cartesian_product` goes through (none at all for no lists)
pub uninterp spec fn prods<T>(g: Seq<Seq<T>>) -> Seq<Seq<int>>;
pub broadcast axiom fn ax_prods<T>(g: Seq<Seq<T>>)
    ensures
        #![trigger prods(g)]
        prods(g).no_duplicates(),
        forall|t: Seq<int>| #[trigger] prods(g).contains(t) <==> g.len() > 0 && picks(g, t);
pub open spec fn at<T>(s: Seq<T>, c: Seq<int>) -> Seq<T> { Seq::new(c.len(), |j: int| s[c[j]]) }
pub open spec fn at2<T>(g: Seq<Seq<T>>, t: Seq<int>) -> Seq<T> { Seq::new(t.len(), |j: int| g[j][t[j]]) }
pub open spec fn concat_seq<T>(s: Seq<Vec<T>>) -> Seq<T>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { concat_seq(s.drop_last()) + s.last()@ } }
pub open spec fn is_combs<T>(s: Seq<T>, k: int, r: Seq<Vec<T>>) -> bool {
    r.len() == combs(s.len() as int, k).len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == at(s, combs(s.len() as int, k)[i])
}
impl<T> It<T> {
    #[verifier::external_body]
    pub fn combinations(self, k: usize) -> (r: It<Vec<T>>)
        ensures is_combs(self@, k as int, r@),
    { unimplemented!() }
}
impl<T> It<It<T>> {
    #[verifier::external_body]
    pub fn multi_cartesian_product(self) -> (r: It<Vec<T>>)
        ensures r@.len() == prods(views(self@)).len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == at2(views(self@), prods(views(self@))[i]),
    { unimplemented!() }
}
pub open spec fn views<T>(s: Seq<It<T>>) -> Seq<Seq<T>> { Seq::new(s.len(), |i: int| s[i]@) }
impl<T> It<Vec<T>> {
    #[verifier::external_body]
    pub fn concat(self) -> (r: Vec<T>)
        ensures r@ == concat_seq(self@),
    { unimplemented!() }
}
} // mod combinatorics
pub use combinatorics::*;

/// a satisfying set no proper subset of which satisfies
pub open spec fn min_sat(q: QuorumSet, s: Set<usize>) -> bool { sat(q, s) && forall|t: Set<usize>| #[trigger] t.subset_of(s) && sat(q, t) ==> t == s }
/// every listed set satisfies `q`, every satisfying set contains a listed one; without repeated nodes the listed ones are incomparable
pub open spec fn slices_ok(q: QuorumSet, r: Seq<BitSet>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> sat(q, (#[trigger] r[i])@) && r[i]@.subset_of(qn(q))
    &&& forall|s: Set<usize>| #[trigger] sat(q, s) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i])@.subset_of(s)
    &&& flat(q).no_duplicates() ==> antichain(r)
}
pub open spec fn nmem(q: QuorumSet) -> int { (q.validators@.len() + q.inner_quorum_sets@.len()) as int }
/// member `j` (validators first, then inner quorum sets) agrees with `s`
pub open spec fn msat(q: QuorumSet, j: int, s: Set<usize>) -> bool {
    if j < q.validators@.len() { s.contains(q.validators@[j]) } else { sat(q.inner_quorum_sets@[j - q.validators@.len()], s) }
}
pub open spec fn supp(q: QuorumSet, j: int) -> Set<usize> {
    if j < q.validators@.len() { Set::empty().insert(q.validators@[j]) } else { qn(q.inner_quorum_sets@[j - q.validators@.len()]) }
}
/// slices of member `j`
pub open spec fn group_ok(q: QuorumSet, j: int, g: Seq<BitSet>) -> bool {
    &&& forall|i: int| 0 <= i < g.len() ==> msat(q, j, (#[trigger] g[i])@) && g[i]@.subset_of(supp(q, j)) && g[i]@ != Set::<usize>::empty()
    &&& forall|s: Set<usize>| #[trigger] msat(q, j, s) ==> exists|i: int| 0 <= i < g.len() && (#[trigger] g[i])@.subset_of(s)
    &&& flat(q).no_duplicates() ==> antichain(g)
}
pub open spec fn groups_ok(q: QuorumSet, g: Seq<Vec<BitSet>>) -> bool { g.len() == nmem(q) && forall|j: int| 0 <= j < g.len() ==> group_ok(q, j, (#[trigger] g[j])@) }
pub open spec fn cnt(q: QuorumSet, s: Set<usize>, m: int) -> int
    decreases m,
{ if m <= 0 { 0 } else { cnt(q, s, m - 1) + if msat(q, m - 1, s) { 1int } else { 0int } } }
pub proof fn lem_cnt(q: QuorumSet, s: Set<usize>)
    ensures sat(q, s) <==> q.threshold > 0 && cnt(q, s, nmem(q)) >= q.threshold
{
    lem_cnt_v(q, s, q.validators@.len() as int);
    assert(q.validators@.take(q.validators@.len() as int) =~= q.validators@);
    lem_cnt_i(q, s, q.inner_quorum_sets@.len() as int);
    lem_sat(q, s);
}
pub proof fn lem_cnt_v(q: QuorumSet, s: Set<usize>, m: int)
    requires 0 <= m <= q.validators@.len()
    ensures cnt(q, s, m) == nval(q.validators@.take(m), s)
    decreases m
{
    if m > 0 { lem_cnt_v(q, s, m - 1); assert(q.validators@.take(m).drop_last() =~= q.validators@.take(m - 1)); }
}
pub proof fn lem_cnt_i(q: QuorumSet, s: Set<usize>, m: int)
    requires 0 <= m <= q.inner_quorum_sets@.len(), cnt(q, s, q.validators@.len() as int) == nval(q.validators@, s)
    ensures cnt(q, s, q.validators@.len() + m) == nval(q.validators@, s) + ninner(q.inner_quorum_sets, m, s)
    decreases m
{ if m > 0 { lem_cnt_i(q, s, m - 1); } }
/// at most `m` of the first `m` members agree; `c` many listed ones that agree are counted
pub proof fn lem_cnt_ge(q: QuorumSet, s: Set<usize>, c: Seq<int>, m: int)
    requires ascends(c, m), 0 <= m, forall|i: int| 0 <= i < c.len() ==> msat(q, #[trigger] c[i], s)
    ensures c.len() <= cnt(q, s, m) <= m
    decreases m
{
    if m > 0 {
        if c.len() > 0 && c.last() == m - 1 {
            let d = c.drop_last();
            assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] d[i] < m - 1 && msat(q, d[i], s) by { assert(c[i] < c[c.len() - 1]); assert(d[i] == c[i]); }
            lem_cnt_ge(q, s, d, m - 1);
            assert(msat(q, c[c.len() - 1], s));
        } else {
            assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] c[i] < m - 1 by { if i < c.len() - 1 { assert(c[i] < c[c.len() - 1]); } }
            lem_cnt_ge(q, s, c, m - 1);
        }
    } else if c.len() > 0 { assert(0 <= c[0] < m); }
}
pub proof fn lem_cnt_pick(q: QuorumSet, s: Set<usize>, k: int, m: int) -> (c: Seq<int>)
    requires 0 <= k <= cnt(q, s, m), 0 <= m
    ensures c.len() == k, ascends(c, m), forall|i: int| 0 <= i < c.len() ==> msat(q, #[trigger] c[i], s)
    decreases m
{
    if k == 0 { Seq::empty() } else if msat(q, m - 1, s) {
        let d = lem_cnt_pick(q, s, k - 1, m - 1);
        let c = d.push(m - 1);
        assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] c[i] < m && msat(q, c[i], s) by { if i < d.len() { assert(c[i] == d[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies #[trigger] c[i] < #[trigger] c[j] by { assert(c[i] == d[i]); if j < d.len() { assert(c[j] == d[j]); } }
        c
    } else { lem_cnt_pick(q, s, k, m - 1) }
}
pub proof fn lem_supp_sub(q: QuorumSet, j: int)
    requires 0 <= j < nmem(q)
    ensures supp(q, j).subset_of(qn(q))
{
    assert forall|x: usize| supp(q, j).contains(x) implies qn(q).contains(x) by {
        lem_mentions(q, x);
        if j < q.validators@.len() { assert(q.validators@[j] == x); assert(q.validators@.contains(x)); }
        else { assert(mentions(q.inner_quorum_sets@[j - q.validators@.len()], x)); }
        assert(mentions(q, x));
    }
}
pub proof fn lem_nodup_concat(a: Seq<usize>, b: Seq<usize>)
    requires (a + b).no_duplicates()
    ensures a.no_duplicates(), b.no_duplicates(), forall|x: usize| !(#[trigger] a.contains(x) && #[trigger] b.contains(x))
{
    let c = a + b;
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { assert(c[i] != c[j]); }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { assert(c[a.len() + i] != c[a.len() + j]); }
    assert forall|x: usize| !(#[trigger] a.contains(x) && #[trigger] b.contains(x)) by {
        if a.contains(x) && b.contains(x) {
            let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
            let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
            assert(c[i] != c[a.len() + j]);
        }
    }
}
pub proof fn lem_nodup_inner(v: Vec<QuorumSet>, n: int)
    requires 0 <= n <= v@.len(), flat_i(v, n).no_duplicates()
    ensures forall|i: int| 0 <= i < n ==> flat(#[trigger] v@[i]).no_duplicates(),
        forall|i: int, j: int, x: usize| 0 <= i < j < n ==> !(#[trigger] mentions(v@[i], x) && #[trigger] mentions(v@[j], x)),
    decreases n
{
    if n > 0 {
        lem_nodup_concat(flat_i(v, n - 1), flat(v@[n - 1]));
        lem_nodup_inner(v, n - 1);
        assert forall|i: int, j: int, x: usize| 0 <= i < j < n implies !(#[trigger] mentions(v@[i], x) && #[trigger] mentions(v@[j], x)) by {
            if j == n - 1 && mentions(v@[i], x) { lem_mentions_i(v, n - 1, x); assert(flat_i(v, n - 1).contains(x)); assert(mentions(v@[j], x) <==> flat(v@[j]).contains(x)); }
        }
    }
}
pub proof fn lem_supp_disjoint(q: QuorumSet)
    requires flat(q).no_duplicates()
    ensures forall|i: int, j: int, x: usize| 0 <= i < nmem(q) && 0 <= j < nmem(q) && #[trigger] supp(q, i).contains(x) && #[trigger] supp(q, j).contains(x) ==> i == j,
        forall|i: int| 0 <= i < q.inner_quorum_sets@.len() ==> flat(#[trigger] q.inner_quorum_sets@[i]).no_duplicates()
{
    let n = q.inner_quorum_sets@.len() as int;
    let nv = q.validators@.len() as int;
    lem_flat(q);
    lem_nodup_concat(q.validators@, flat_i(q.inner_quorum_sets, n));
    lem_nodup_inner(q.inner_quorum_sets, n);
    assert forall|i: int, j: int, x: usize| 0 <= i < nmem(q) && 0 <= j < nmem(q) && #[trigger] supp(q, i).contains(x) && #[trigger] supp(q, j).contains(x) implies i == j by {
        if i >= nv { assert(mentions(q.inner_quorum_sets@[i - nv], x)); }
        if j >= nv { assert(mentions(q.inner_quorum_sets@[j - nv], x)); }
        if i < nv { assert(q.validators@[i] == x); assert(q.validators@.contains(x)); }
        if j < nv { assert(q.validators@[j] == x); assert(q.validators@.contains(x)); }
        if (i < nv) != (j < nv) { lem_mentions_i(q.inner_quorum_sets, n, x); }
    }
}
/// nothing is satisfied by the empty set
pub proof fn lem_sat_empty(q: QuorumSet)
    ensures !sat(q, Set::empty())
    decreases q
{
    lem_nval_empty(q.validators@);
    lem_ninner_empty(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int);
}
pub proof fn lem_nval_empty(v: Seq<usize>)
    ensures nval(v, Set::empty()) == 0
    decreases v.len()
{ if v.len() > 0 { lem_nval_empty(v.drop_last()); } }
pub proof fn lem_ninner_empty(v: Vec<QuorumSet>, n: int)
    requires 0 <= n <= v@.len()
    ensures ninner(v, n, Set::empty()) == 0
    decreases v, n
{ if n > 0 { lem_ninner_empty(v, n - 1); lem_sat_empty(v@[n - 1]); } }
pub proof fn lem_group_val(q: QuorumSet, j: int, g: Seq<BitSet>)
    requires 0 <= j < q.validators@.len(), g.len() == 1, g[0]@ == Set::<usize>::empty().insert(q.validators@[j])
    ensures group_ok(q, j, g)
{
    assert(g[0]@.contains(q.validators@[j]));
    assert forall|s: Set<usize>| #[trigger] msat(q, j, s) implies exists|i: int| 0 <= i < g.len() && (#[trigger] g[i])@.subset_of(s) by { assert(g[0]@.subset_of(s)); }
}
pub proof fn lem_group_inner(q: QuorumSet, j: int, g: Seq<BitSet>)
    requires q.validators@.len() <= j < nmem(q), slices_ok(q.inner_quorum_sets@[j - q.validators@.len()], g)
    ensures group_ok(q, j, g)
{
    let p = q.inner_quorum_sets@[j - q.validators@.len()];
    lem_sat_empty(p);
    if flat(q).no_duplicates() { lem_supp_disjoint(q); }
    assert forall|s: Set<usize>| #[trigger] msat(q, j, s) implies exists|i: int| 0 <= i < g.len() && (#[trigger] g[i])@.subset_of(s) by { assert(sat(p, s)); }
}
pub broadcast proof fn lem_groups(q: QuorumSet, g: Seq<Vec<BitSet>>)
    requires g.len() == nmem(q),
        forall|j: int| 0 <= j < q.validators@.len() ==> (#[trigger] g[j])@.len() == 1 && g[j]@[0]@ == Set::<usize>::empty().insert(q.validators@[j]),
        forall|j: int| q.validators@.len() <= j < nmem(q) ==> slices_ok(q.inner_quorum_sets@[j - q.validators@.len()], (#[trigger] g[j])@)
    ensures #[trigger] groups_ok(q, g)
{
    assert forall|j: int| 0 <= j < g.len() implies group_ok(q, j, (#[trigger] g[j])@) by {
        if j < q.validators@.len() { lem_group_val(q, j, g[j]@); } else { lem_group_inner(q, j, g[j]@); }
    }
}
/// the union of slices picked (by `t`) from the chosen (by `c`) members
pub open spec fn vviews(g: Seq<Vec<BitSet>>) -> Seq<Seq<BitSet>> { Seq::new(g.len(), |i: int| g[i]@) }
pub open spec fn pick(g: Seq<Vec<BitSet>>, c: Seq<int>, t: Seq<int>) -> Set<usize> { union_all(at2(vviews(at(g, c)), t)) }
/// `v` = for every choice of `threshold` members, all unions of one slice of each
pub open spec fn expanded(q: QuorumSet, g: Seq<Vec<BitSet>>, v: Seq<Vec<BitSet>>) -> bool {
    let cs = combs(nmem(q), q.threshold as int);
    v.len() == cs.len() && forall|c: int| 0 <= c < v.len() ==> row(at(g, cs[c]), (#[trigger] v[c])@)
}
pub open spec fn row(h: Seq<Vec<BitSet>>, r: Seq<BitSet>) -> bool {
    r.len() == prods(vviews(h)).len() && forall|p: int| 0 <= p < r.len() ==> (#[trigger] r[p])@ == union_all(at2(vviews(h), prods(vviews(h))[p]))
}
pub proof fn lem_pick(g: Seq<Vec<BitSet>>, c: Seq<int>, t: Seq<int>, x: usize)
    requires t.len() == c.len()
    ensures pick(g, c, t).contains(x) <==> exists|j: int| 0 <= j < c.len() && g[#[trigger] c[j]]@[t[j]]@.contains(x)
{
    let v = at2(vviews(at(g, c)), t);
    lem_union_all(v, x);
    assert forall|j: int| 0 <= j < c.len() implies #[trigger] v[j] == g[c[j]]@[t[j]] by {}
    if pick(g, c, t).contains(x) { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j])@.contains(x); assert(g[c[j]]@[t[j]]@.contains(x)); }
    if exists|j: int| 0 <= j < c.len() && g[#[trigger] c[j]]@[t[j]]@.contains(x) { let j = choose|j: int| 0 <= j < c.len() && g[#[trigger] c[j]]@[t[j]]@.contains(x); assert(v[j]@.contains(x)); }
}
pub open spec fn good_pick(g: Seq<Vec<BitSet>>, c: Seq<int>, t: Seq<int>, k: int) -> bool { ascends(c, g.len() as int) && c.len() == k && t.len() == k && forall|j: int| 0 <= j < k ==> 0 <= #[trigger] t[j] < g[c[j]]@.len() }
pub proof fn lem_msat_mono(q: QuorumSet, j: int, s: Set<usize>, t: Set<usize>)
    requires s.subset_of(t), msat(q, j, s)
    ensures msat(q, j, t)
{ if j >= q.validators@.len() { lem_mono(q.inner_quorum_sets@[j - q.validators@.len()], s, t); } }
pub proof fn lem_group_elem(q: QuorumSet, j: int, g: Seq<BitSet>, i: int)
    requires group_ok(q, j, g), 0 <= i < g.len()
    ensures msat(q, j, g[i]@), g[i]@.subset_of(supp(q, j)), g[i]@ != Set::<usize>::empty()
{}
pub proof fn lem_pick_sound(q: QuorumSet, g: Seq<Vec<BitSet>>, c: Seq<int>, t: Seq<int>)
    requires groups_ok(q, g), good_pick(g, c, t, q.threshold as int), q.threshold > 0
    ensures sat(q, pick(g, c, t)), pick(g, c, t).subset_of(qn(q))
{
    let s = pick(g, c, t);
    assert forall|j: int| 0 <= j < c.len() implies msat(q, #[trigger] c[j], s) by {
        assert(0 <= t[j] < g[c[j]]@.len());
        assert(group_ok(q, c[j], g[c[j]]@));
        let e = g[c[j]]@[t[j]]@;
        assert(e.subset_of(s)) by { assert forall|x: usize| e.contains(x) implies s.contains(x) by { lem_pick(g, c, t, x); } }
        lem_group_elem(q, c[j], g[c[j]]@, t[j]);
        lem_msat_mono(q, c[j], e, s);
    }
    lem_cnt_ge(q, s, c, nmem(q));
    lem_cnt(q, s);
    assert forall|x: usize| s.contains(x) implies qn(q).contains(x) by {
        lem_pick(g, c, t, x);
        let j = choose|j: int| 0 <= j < c.len() && g[#[trigger] c[j]]@[t[j]]@.contains(x);
        assert(0 <= t[j] < g[c[j]]@.len());
        assert(group_ok(q, c[j], g[c[j]]@));
        assert(g[c[j]]@[t[j]]@.subset_of(supp(q, c[j])));
        lem_supp_sub(q, c[j]);
    }
}
pub proof fn lem_pick_complete(q: QuorumSet, g: Seq<Vec<BitSet>>, s: Set<usize>) -> (r: (Seq<int>, Seq<int>))
    requires groups_ok(q, g), sat(q, s)
    ensures good_pick(g, r.0, r.1, q.threshold as int), pick(g, r.0, r.1).subset_of(s), q.threshold > 0
{
    lem_cnt(q, s);
    let c = lem_cnt_pick(q, s, q.threshold as int, nmem(q));
    let t = Seq::new(c.len(), |j: int| choose|i: int| 0 <= i < g[c[j]]@.len() && (#[trigger] g[c[j]]@[i])@.subset_of(s));
    assert forall|j: int| 0 <= j < c.len() implies 0 <= #[trigger] t[j] < g[c[j]]@.len() && g[c[j]]@[t[j]]@.subset_of(s) by {
        assert(msat(q, c[j], s));
        assert(group_ok(q, c[j], g[c[j]]@));
    }
    assert forall|x: usize| pick(g, c, t).contains(x) implies s.contains(x) by {
        lem_pick(g, c, t, x);
        let j = choose|j: int| 0 <= j < c.len() && g[#[trigger] c[j]]@[t[j]]@.contains(x);
        assert(0 <= t[j] < g[c[j]]@.len());
        assert(g[c[j]]@[t[j]]@.subset_of(s));
    }
    (c, t)
}
/// equally long ascending lists, one contained in the other, are the same
pub proof fn lem_ascends_eq(c: Seq<int>, d: Seq<int>, n: int)
    requires ascends(c, n), ascends(d, n), c.len() == d.len(), forall|i: int| 0 <= i < c.len() ==> d.contains(#[trigger] c[i])
    ensures c == d
{
    assert(c.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by { if i < j { assert(c[i] < c[j]); } else { assert(c[j] < c[i]); } } }
    assert(d.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by { if i < j { assert(d[i] < d[j]); } else { assert(d[j] < d[i]); } } }
    c.unique_seq_to_set();
    d.unique_seq_to_set();
    assert(c.to_set().subset_of(d.to_set())) by { assert forall|x: int| c.to_set().contains(x) implies d.to_set().contains(x) by { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; assert(d.contains(c[i])); } }
    vstd::set_lib::lemma_subset_equality(c.to_set(), d.to_set());
    assert forall|x: int| #[trigger] d.contains(x) implies c.contains(x) by { assert(d.to_set().contains(x)); }
    lem_ascends_eq2(c, d, n);
}
pub proof fn lem_ascends_eq2(c: Seq<int>, d: Seq<int>, n: int)
    requires ascends(c, n), ascends(d, n), forall|x: int| #[trigger] c.contains(x) ==> d.contains(x), forall|x: int| #[trigger] d.contains(x) ==> c.contains(x)
    ensures c == d
    decreases c.len()
{
    if c.len() == 0 {
        if d.len() > 0 { assert(d.contains(d[0])); assert(c.contains(d[0])); }
        assert(c =~= d);
    } else {
        let (m, k) = (c.len() - 1, d.len() - 1);
        assert(c.contains(c[m]));
        assert(d.contains(d[k])) by { assert(d.contains(c[m])); }
        let y = choose|y: int| 0 <= y < d.len() && d[y] == c[m];
        let z = choose|z: int| 0 <= z < c.len() && c[z] == d[k];
        if y < k { assert(d[y] < d[k]); }
        if z < m { assert(c[z] < c[m]); }
        assert(c[m] == d[k]);
        let (c2, d2) = (c.drop_last(), d.drop_last());
        assert forall|i: int| 0 <= i < c2.len() implies 0 <= #[trigger] c2[i] < n by { assert(c2[i] == c[i]); }
        assert forall|i: int| 0 <= i < d2.len() implies 0 <= #[trigger] d2[i] < n by { assert(d2[i] == d[i]); }
        assert forall|i: int, j: int| 0 <= i < j < c2.len() implies #[trigger] c2[i] < #[trigger] c2[j] by { assert(c[i] < c[j]); }
        assert forall|i: int, j: int| 0 <= i < j < d2.len() implies #[trigger] d2[i] < #[trigger] d2[j] by { assert(d[i] < d[j]); }
        assert forall|x: int| #[trigger] c2.contains(x) implies d2.contains(x) by {
            let i = choose|i: int| 0 <= i < c2.len() && c2[i] == x; assert(c[i] == x); assert(c[i] < c[m]); assert(c.contains(x));
            let j = choose|j: int| 0 <= j < d.len() && d[j] == x; assert(d2[j] == x);
        }
        assert forall|x: int| #[trigger] d2.contains(x) implies c2.contains(x) by {
            let i = choose|i: int| 0 <= i < d2.len() && d2[i] == x; assert(d[i] == x); assert(d[i] < d[k]); assert(d.contains(x));
            let j = choose|j: int| 0 <= j < c.len() && c[j] == x; assert(c2[j] == x);
        }
        lem_ascends_eq2(c2, d2, n);
        assert(c =~= c2.push(c[m]));
        assert(d =~= d2.push(d[k]));
    }
}
pub proof fn lem_pick_incomparable(q: QuorumSet, g: Seq<Vec<BitSet>>, c: Seq<int>, t: Seq<int>, d: Seq<int>, u: Seq<int>, k: int)
    requires groups_ok(q, g), good_pick(g, c, t, k), good_pick(g, d, u, k), flat(q).no_duplicates(), pick(g, c, t).subset_of(pick(g, d, u))
    ensures c == d, t == u
{
    lem_supp_disjoint(q);
    let (s, w) = (pick(g, c, t), pick(g, d, u));
    assert forall|j: int, x: usize| 0 <= j < c.len() && #[trigger] g[c[j]]@[t[j]]@.contains(x) implies exists|z: int| 0 <= z < d.len() && #[trigger] d[z] == c[j] && g[c[j]]@[u[z]]@.contains(x) by {
        lem_pick(g, c, t, x);
        assert(s.contains(x));
        lem_pick(g, d, u, x);
        let z = choose|z: int| 0 <= z < d.len() && g[#[trigger] d[z]]@[u[z]]@.contains(x);
        assert(0 <= t[j] < g[c[j]]@.len()); assert(0 <= u[z] < g[d[z]]@.len());
        assert(group_ok(q, c[j], g[c[j]]@)); assert(group_ok(q, d[z], g[d[z]]@));
        assert(g[c[j]]@[t[j]]@.subset_of(supp(q, c[j]))); assert(g[d[z]]@[u[z]]@.subset_of(supp(q, d[z])));
        assert(supp(q, c[j]).contains(x)); assert(supp(q, d[z]).contains(x));
    }
    assert forall|j: int| 0 <= j < c.len() implies d.contains(#[trigger] c[j]) by {
        assert(0 <= t[j] < g[c[j]]@.len());
        assert(group_ok(q, c[j], g[c[j]]@));
        let x = lem_nonempty(g[c[j]]@[t[j]]@);
    }
    lem_ascends_eq(c, d, g.len() as int);
    assert forall|j: int| 0 <= j < c.len() implies t[j] == u[j] by {
        assert(0 <= t[j] < g[c[j]]@.len()); assert(0 <= u[j] < g[d[j]]@.len());
        assert(group_ok(q, c[j], g[c[j]]@));
        let (a, b) = (g[c[j]]@[t[j]]@, g[c[j]]@[u[j]]@);
        assert forall|x: usize| a.contains(x) implies b.contains(x) by {
            let z = choose|z: int| 0 <= z < d.len() && #[trigger] d[z] == c[j] && g[c[j]]@[u[z]]@.contains(x);
            if z < j { assert(d[z] < d[j]); } else if z > j { assert(d[j] < d[z]); }
        }
        assert(a.subset_of(b));
    }
    assert(t =~= u);
}
pub proof fn lem_concat_has(s: Seq<Vec<BitSet>>, i: int) -> (r: (int, int))
    requires 0 <= i < concat_seq(s).len()
    ensures 0 <= r.0 < s.len(), 0 <= r.1 < s[r.0]@.len(), concat_seq(s)[i] == s[r.0]@[r.1]
    decreases s.len()
{
    let n = concat_seq(s.drop_last()).len();
    if i < n { let r = lem_concat_has(s.drop_last(), i); (r.0, r.1) } else { (s.len() - 1, i - n as int) }
}
pub proof fn lem_concat_at(s: Seq<Vec<BitSet>>, c: int, p: int) -> (i: int)
    requires 0 <= c < s.len(), 0 <= p < s[c]@.len()
    ensures 0 <= i < concat_seq(s).len(), concat_seq(s)[i] == s[c]@[p]
    decreases s.len()
{
    let n = concat_seq(s.drop_last()).len();
    if c < s.len() - 1 { lem_concat_at(s.drop_last(), c, p) } else { n + p }
}
pub proof fn lem_concat_antichain(s: Seq<Vec<BitSet>>)
    requires forall|c: int, p: int, d: int, r: int| 0 <= c < s.len() && 0 <= p < s[c]@.len() && 0 <= d < s.len() && 0 <= r < s[d]@.len() && (c != d || p != r) ==> !(#[trigger] s[c]@[p])@.subset_of((#[trigger] s[d]@[r])@)
    ensures antichain(concat_seq(s))
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        let a = concat_seq(t);
        let b = s.last()@;
        let m = s.len() - 1;
        assert forall|c: int, p: int, d: int, r: int| 0 <= c < t.len() && 0 <= p < t[c]@.len() && 0 <= d < t.len() && 0 <= r < t[d]@.len() && (c != d || p != r) implies !(#[trigger] t[c]@[p])@.subset_of((#[trigger] t[d]@[r])@) by {
            assert(!s[c]@[p]@.subset_of(s[d]@[r]@));
        }
        lem_concat_antichain(t);
        let v = concat_seq(s);
        assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies !(#[trigger] v[i])@.subset_of((#[trigger] v[j])@) by {
            if i < a.len() && j < a.len() { assert(!a[i]@.subset_of(a[j]@)); }
            else if i < a.len() { let r = lem_concat_has(t, i); assert(!s[r.0]@[r.1]@.subset_of(s[m]@[j - a.len()]@)); }
            else if j < a.len() { let r = lem_concat_has(t, j); assert(!s[m]@[i - a.len()]@.subset_of(s[r.0]@[r.1]@)); }
            else { assert(!s[m]@[i - a.len()]@.subset_of(s[m]@[j - a.len()]@)); }
        }
    }
}
pub proof fn lem_entry(q: QuorumSet, g: Seq<Vec<BitSet>>, v: Seq<Vec<BitSet>>, c: int, p: int) -> (t: (Seq<int>, Seq<int>))
    requires groups_ok(q, g), expanded(q, g, v), 0 <= c < v.len(), 0 <= p < v[c]@.len()
    ensures good_pick(g, t.0, t.1, q.threshold as int), v[c]@[p]@ == pick(g, t.0, t.1), q.threshold > 0,
        t.0 == combs(nmem(q), q.threshold as int)[c], t.1 == prods(vviews(at(g, t.0)))[p]
{
    broadcast use {ax_combs, ax_prods};
    let cs = combs(nmem(q), q.threshold as int);
    let h = at(g, cs[c]);
    assert(row(h, v[c]@));
    let ts = prods(vviews(h));
    assert(cs.contains(cs[c]));
    assert(ts.contains(ts[p]));
    assert(v[c]@[p]@ == union_all(at2(vviews(h), ts[p])));
    let (cc, tt) = (cs[c], ts[p]);
    assert forall|j: int| 0 <= j < q.threshold implies 0 <= #[trigger] tt[j] < g[cc[j]]@.len() by { assert(vviews(h)[j] == g[cc[j]]@); }
    (cc, tt)
}
pub proof fn lem_slices(q: QuorumSet, g: Seq<Vec<BitSet>>, v: Seq<Vec<BitSet>>)
    requires groups_ok(q, g), expanded(q, g, v)
    ensures slices_ok(q, concat_seq(v))
{
    broadcast use {ax_combs, ax_prods};
    let r = concat_seq(v);
    let cs = combs(nmem(q), q.threshold as int);
    assert forall|i: int| 0 <= i < r.len() implies sat(q, (#[trigger] r[i])@) && r[i]@.subset_of(qn(q)) by {
        let e = lem_concat_has(v, i);
        let t = lem_entry(q, g, v, e.0, e.1);
        lem_pick_sound(q, g, t.0, t.1);
    }
    assert forall|s: Set<usize>| #[trigger] sat(q, s) implies exists|i: int| 0 <= i < r.len() && (#[trigger] r[i])@.subset_of(s) by {
        let t = lem_pick_complete(q, g, s);
        assert(cs.contains(t.0));
        let c = choose|c: int| 0 <= c < cs.len() && cs[c] == t.0;
        let h = at(g, t.0);
        let ts = prods(vviews(h));
        assert(picks(vviews(h), t.1)) by { assert forall|j: int| 0 <= j < t.1.len() implies 0 <= #[trigger] t.1[j] < vviews(h)[j].len() by { assert(vviews(h)[j] == g[t.0[j]]@); } }
        assert(ts.contains(t.1));
        let p = choose|p: int| 0 <= p < ts.len() && ts[p] == t.1;
        assert(row(h, v[c]@));
        assert(v[c]@[p]@ == pick(g, t.0, t.1));
        let i = lem_concat_at(v, c, p);
        assert(r[i]@.subset_of(s));
    }
    if flat(q).no_duplicates() {
        assert forall|c: int, p: int, d: int, z: int| 0 <= c < v.len() && 0 <= p < v[c]@.len() && 0 <= d < v.len() && 0 <= z < v[d]@.len() && (c != d || p != z) implies !(#[trigger] v[c]@[p])@.subset_of((#[trigger] v[d]@[z])@) by {
            if v[c]@[p]@.subset_of(v[d]@[z]@) {
                let t = lem_entry(q, g, v, c, p);
                let u = lem_entry(q, g, v, d, z);
                lem_pick_incomparable(q, g, t.0, t.1, u.0, u.1, q.threshold as int);
                assert(cs[c] == cs[d]);
                assert(c == d);
                let ts = prods(vviews(at(g, t.0)));
                assert(row(at(g, cs[c]), v[c]@));
                assert(ts[p] == ts[z]);
            }
        }
        lem_concat_antichain(v);
    }
}
pub broadcast proof fn lem_slices_none(q: QuorumSet)
    requires q.threshold > nmem(q)
    ensures #[trigger] slices_ok(q, Seq::empty())
{
    assert forall|s: Set<usize>| !#[trigger] sat(q, s) by { lem_cnt(q, s); lem_cnt_max(q, s, nmem(q)); }
}
pub proof fn lem_cnt_max(q: QuorumSet, s: Set<usize>, m: int)
    requires 0 <= m
    ensures cnt(q, s, m) <= m
    decreases m
{ if m > 0 { lem_cnt_max(q, s, m - 1); } }
/// the minimal members of a complete list of slices are exactly the minimal satisfying sets
pub proof fn lem_min_slice(q: QuorumSet, r: Seq<BitSet>, s: Set<usize>)
    requires slices_ok(q, r)
    ensures min_of(r, s) <==> min_sat(q, s)
{
    if min_of(r, s) {
        let i = choose|i: int| 0 <= i < r.len() && r[i]@ == s;
        assert(sat(q, r[i]@));
        assert forall|t: Set<usize>| #[trigger] t.subset_of(s) && sat(q, t) implies t == s by {
            let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j])@.subset_of(t);
            assert(r[j]@.subset_of(s)) by { assert(r[j]@.subset_of(t) && t.subset_of(s)); }
            assert(has(r, r[j]@));
            assert(r[j]@ == s);
            assert(t =~= s);
        }
    }
    if min_sat(q, s) {
        let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j])@.subset_of(s);
        assert(sat(q, r[j]@));
        assert(has(r, s));
        assert forall|t: Set<usize>| #[trigger] has(r, t) && t.subset_of(s) implies t == s by { let k = choose|k: int| 0 <= k < r.len() && r[k]@ == t; assert(sat(q, r[k]@)); }
    }
}
pub proof fn lem_anti_min(r: Seq<BitSet>, s: Set<usize>)
    requires antichain(r)
    ensures has(r, s) <==> min_of(r, s)
{
    if has(r, s) {
        let i = choose|i: int| 0 <= i < r.len() && r[i]@ == s;
        assert forall|t: Set<usize>| #[trigger] has(r, t) && t.subset_of(s) implies t == s by { let k = choose|k: int| 0 <= k < r.len() && r[k]@ == t; if k != i { assert(!r[k]@.subset_of(r[i]@)); } }
    }
}
pub broadcast proof fn lem_min_slices(q: QuorumSet, r: Seq<BitSet>)
    requires #[trigger] slices_ok(q, r)
    ensures forall|s: Set<usize>| #[trigger] min_of(r, s) <==> min_sat(q, s), antichain(r) ==> forall|s: Set<usize>| #[trigger] has(r, s) <==> min_sat(q, s)
{
    hide(slices_ok); hide(min_of); hide(min_sat); hide(has); hide(antichain);
    assert forall|s: Set<usize>| #[trigger] min_of(r, s) <==> min_sat(q, s) by { lem_min_slice(q, r, s); }
    if antichain(r) {
        assert forall|s: Set<usize>| #[trigger] has(r, s) <==> min_sat(q, s) by { lem_min_slice(q, r, s); lem_anti_min(r, s); }
    }
}
pub broadcast proof fn lem_slices_of(q: QuorumSet, g: Seq<Vec<BitSet>>, cv: Seq<Vec<Vec<BitSet>>>, v: Seq<Vec<BitSet>>)
    requires #[trigger] is_combs(g, q.threshold as int, cv), groups_ok(q, g), v.len() == cv.len(),
        forall|c: int| 0 <= c < v.len() ==> row(#[trigger] cv[c]@, #[trigger] v[c]@)
    ensures #[trigger] slices_ok(q, concat_seq(v))
{
    assert forall|c: int| 0 <= c < v.len() implies row(at(g, combs(nmem(q), q.threshold as int)[c]), (#[trigger] v[c])@) by { assert(row(cv[c]@, v[c]@)); }
    lem_slices(q, g, v);
}
pub broadcast proof fn lem_views(s: Seq<It<BitSet>>, h: Seq<Vec<BitSet>>)
    requires s.len() == h.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == h[i]@
    ensures #[trigger] views(s) == #[trigger] vviews(h)
{ assert(views(s) =~= vviews(h)); }
/// a Vec takes at most isize::MAX bytes (Rust's allocation limit); ids have 8 bytes and quorum sets more
pub axiom fn ax_vec_limit(q: &QuorumSet)
    ensures q.validators@.len() <= isize::MAX / 8, q.inner_quorum_sets@.len() <= isize::MAX / 8;
