// ---- the quorum-containing components handed to the finders
/// `v` = exactly the strongly connected components (within the satisfiable nodes) that contain a quorum
pub open spec fn clusters_ok(f: Fbas, v: Seq<BitSet>) -> bool {
    &&& forall|i: int, x: usize| 0 <= i < v.len() && #[trigger] v[i]@.contains(x) ==> is_comp(f, greatest(f), v[i]@, x)
    &&& forall|i: int| 0 <= i < v.len() ==> has_q(f, (#[trigger] v[i])@)
    &&& forall|x: usize| #[trigger] relevant(f, x) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@.contains(x)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@.disjoint((#[trigger] v[j])@)
}
pub proof fn lem_filter_pairs<T>(v: Seq<T>, p: spec_fn(T) -> bool, r: spec_fn(T, T) -> bool)
    requires forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] r(v[i], v[j])
    ensures forall|i: int, j: int| 0 <= i < j < v.filter(p).len() ==> #[trigger] r(v.filter(p)[i], v.filter(p)[j])
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        let w = v.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies #[trigger] r(w[i], w[j]) by { assert(r(v[i], v[j])); }
        lem_filter_pairs(w, p, r);
        let f = v.filter(p);
        let g = w.filter(p);
        assert forall|i: int, j: int| 0 <= i < j < f.len() implies #[trigger] r(f[i], f[j]) by {
            if j < g.len() { assert(r(g[i], g[j])); } else {
                lem_filter_set(w, p);
                assert(g.contains(g[i]));
                let k = choose|k: int| 0 <= k < w.len() && w[k] == g[i];
                assert(r(v[k], v[v.len() - 1]));
            }
        }
    }
}
pub broadcast proof fn lem_clusters(f: Fbas, v: Seq<BitSet>, p: spec_fn(BitSet) -> bool)
    requires #[trigger] comps_of(f, greatest(f), v), forall|i: int| 0 <= i < v.len() ==> p(#[trigger] v[i]) == has_q(f, v[i]@)
    ensures clusters_ok(f, #[trigger] v.filter(p))
{
    let w = v.filter(p);
    lem_filter_set(v, p);
    assert forall|i: int| 0 <= i < w.len() implies has_q(f, (#[trigger] w[i])@) && v.contains(w[i]) by { assert(w.contains(w[i])); }
    assert forall|i: int, x: usize| 0 <= i < w.len() && #[trigger] w[i]@.contains(x) implies is_comp(f, greatest(f), w[i]@, x) by {
        let k = choose|k: int| 0 <= k < v.len() && v[k] == w[i];
        assert(v[k]@.contains(x));
    }
    assert forall|x: usize| #[trigger] relevant(f, x) implies exists|i: int| 0 <= i < w.len() && (#[trigger] w[i])@.contains(x) by {
        let c = choose|c: Set<usize>| #[trigger] is_comp(f, greatest(f), c, x) && has_q(f, c);
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@.contains(x);
        lem_comp_unique(f, greatest(f), v[i]@, c, x);
        assert(w.contains(v[i]));
        let k = choose|k: int| 0 <= k < w.len() && w[k] == v[i];
        assert(w[k]@.contains(x));
    }
    let r = |a: BitSet, b: BitSet| a@.disjoint(b@);
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies #[trigger] r(v[i], v[j]) by {
        assert forall|x: usize| !(v[i]@.contains(x) && v[j]@.contains(x)) by {}
        assert(v[i]@.disjoint(v[j]@));
    }
    lem_filter_pairs(v, p, r);
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i])@.disjoint((#[trigger] w[j])@) by { assert(r(w[i], w[j])); }
}
pub broadcast proof fn lem_clusters_inr(f: Fbas, v: Seq<BitSet>)
    requires #[trigger] clusters_ok(f, v), wf(f)
    ensures forall|i: int| 0 <= i < v.len() ==> inr(f, (#[trigger] v[i])@), inr(f, greatest(f))
{
    lem_all_ids(f);
    assert forall|i: int| 0 <= i < v.len() implies inr(f, (#[trigger] v[i])@) by {
        assert forall|x: usize| #[trigger] v[i]@.contains(x) implies x < f.nodes@.len() by { assert(is_comp(f, greatest(f), v[i]@, x)); lem_greatest_exists(f, all_ids(f)); assert(all_ids(f).contains(x)); }
    }
    lem_greatest_exists(f, all_ids(f));
}
/// there is a greatest closed subset of every set
pub proof fn lem_greatest_exists(f: Fbas, s: Set<usize>)
    ensures exists|g: Set<usize>| is_greatest(f, s, g), is_greatest(f, all_ids(f), greatest(f))
{
    lem_greatest_build(f, s, s);
    lem_greatest_build(f, all_ids(f), all_ids(f));
}
pub proof fn lem_greatest_build(f: Fbas, s: Set<usize>, t: Set<usize>)
    requires enc(f, s, t), t.subset_of(s)
    ensures exists|g: Set<usize>| is_greatest(f, s, g)
    decreases t.len()
{
    if closed(f, t) { assert(is_greatest(f, s, t)); } else {
        let x = choose|x: usize| #[trigger] t.contains(x) && !fsat(f, x, t);
        lem_enc_step(f, s, t, x);
        assert(t.remove(x).len() < t.len());
        lem_greatest_build(f, s, t.remove(x));
    }
}
/// sorting by content and then, stably, by size puts an antichain into canonical order
pub proof fn lem_canonical(s: Seq<BitSet>, t: Seq<BitSet>, r: Seq<BitSet>, p: spec_fn(int) -> int, q: spec_fn(int) -> int)
    requires perm_by(s, t, p), sorted(t), perm_by(t, r, q), antichain(s),
        forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i])@.len() <= (#[trigger] r[j])@.len() && (r[i]@.len() == r[j]@.len() ==> q(i) < q(j))
    ensures canonical(r), antichain(r), forall|x: Set<usize>| #[trigger] has(r, x) <==> has(s, x), rearranged(s, r)
{
    lem_perm_has(s, t, p); lem_perm_has(t, r, q);
    lem_rearranged(s, t, p); lem_rearranged(t, r, q);
    assert(antichain(t)) by {
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies !(#[trigger] t[i])@.subset_of((#[trigger] t[j])@) by {
            if i < j { assert(p(i) != p(j)); } else { assert(p(j) != p(i)); }
            assert(!s[p(i)]@.subset_of(s[p(j)]@));
        }
    }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies !(#[trigger] r[i])@.subset_of((#[trigger] r[j])@) by {
        if i < j { assert(q(i) != q(j)); } else { assert(q(j) != q(i)); }
        assert(!t[q(i)]@.subset_of(t[q(j)]@));
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i])@.len() < (#[trigger] r[j])@.len() || (r[i]@.len() == r[j]@.len() && bs_lt(r[i], r[j])) by {
        if r[i]@.len() == r[j]@.len() {
            assert(q(i) < q(j));
            assert(t[q(i)].vle(&t[q(j)]));
            lem_bs_order(r[i], r[j]);
            assert(!r[i]@.subset_of(r[j]@));
        }
    }
}
pub broadcast proof fn lem_canonical_by(s: Seq<BitSet>, t: Seq<BitSet>, r: Seq<BitSet>)
    requires #[trigger] sort_of(s, t), #[trigger] stably(t, r), antichain(s),
        forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i])@.len() <= (#[trigger] r[j])@.len() && (r[i]@.len() == r[j]@.len() ==> stable_perm(t, r)(i) < stable_perm(t, r)(j))
    ensures canonical(r), antichain(r), forall|x: Set<usize>| #[trigger] has(r, x) <==> has(s, x), rearranged(s, r)
{
    lem_canonical(s, t, r, sort_perm::<BitSet>(s), stable_perm(t, r));
}
