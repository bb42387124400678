// ---- two disjoint quorums
pub open spec fn two_disjoint(f: Fbas) -> bool { exists|a: Set<usize>, b: Set<usize>| #[trigger] is_q(f, a) && #[trigger] is_q(f, b) && inr(f, a) && inr(f, b) && a.disjoint(b) }
/// what the search returns: nothing without clusters, a quorum for each of several clusters, for a
/// single cluster either two disjoint quorums or the cluster itself
pub open spec fn nonint(f: Fbas, cc: Seq<BitSet>, r: Seq<BitSet>) -> bool {
    if cc.len() == 1 {
        (r.len() == 2 && found_pair(f, cc[0]@, r[0]@, r[1]@)) || (r.len() == 1 && r[0]@ == cc[0]@ && no_pair(f, cc[0]@))
    } else {
        r.len() == cc.len() && forall|i: int| 0 <= i < r.len() ==> is_q(f, (#[trigger] r[i])@) && r[i]@.subset_of(cc[i]@)
    }
}
pub open spec fn no_pair(f: Fbas, w: Set<usize>) -> bool { forall|a: Set<usize>, b: Set<usize>| !found_pair(f, w, a, b) }
pub broadcast proof fn lem_no_pair(f: Fbas, w: Set<usize>, e: Set<usize>, k: int)
    requires #[trigger] none_splits(f, w, e, w, k), e == Set::<usize>::empty(), k >= w.len() as int / 2
    ensures no_pair(f, w)
{
    assert forall|a: Set<usize>, b: Set<usize>| !found_pair(f, w, a, b) by {
        if found_pair(f, w, a, b) {
            assert(b.subset_of(w.difference(a)));
            assert(a.subset_of(w.difference(b)));
            assert(splits(f, w, a)); assert(splits(f, w, b));
            assert(a.difference(Set::empty()) =~= a);
            assert(b.difference(Set::empty()) =~= b);
            vstd::set_lib::lemma_set_disjoint_lens(a, b);
            vstd::set_lib::lemma_len_subset(a.union(b), w);
        }
    }
}
/// the only quorum-containing component is itself a quorum
pub broadcast proof fn lem_single_closed(f: Fbas, cc: Seq<BitSet>)
    requires #[trigger] clusters_ok(f, cc), wf(f), cc.len() == 1
    ensures is_q(f, cc[0]@)
{
    let w = cc[0]@;
    let g = greatest(f);
    lem_all_ids(f);
    lem_greatest_exists(f, all_ids(f));
    lem_clusters_inr(f, cc);
    assert forall|y: usize| #[trigger] w.contains(y) implies fsat(f, y, w) by {
        assert(is_comp(f, g, w, y));
        assert(g.contains(y));
        lem_rset_closed(f, g, y);
        let r = rset(f, g, y);
        assert(r.subset_of(w)) by {
            assert forall|z: usize| r.contains(z) implies w.contains(z) by {
                lem_rset_closed(f, g, z);
                let q = lem_quorum_in_comp(f, rset(f, g, z));
                let m = lem_has_min_q(f, q);
                assert(m.subset_of(g));
                assert(inr(f, m));
                lem_mq_all(f, cc, m);
                assert(mq_some(f, cc, m));
                let x = lem_nonempty(m);
                assert(w.contains(x));
                assert(connected(f, y, x));
                lem_reach_trans(edge(f), z, x, y);
                assert(connected(f, y, z));
            }
        }
        assert(fsat(f, y, r));
        lem_mono(qs_of(f, y), r, w);
    }
    assert(has_q(f, w));
    let q = choose|q: Set<usize>| #[trigger] q.subset_of(w) && is_q(f, q);
    let x = lem_nonempty(q);
    assert(w.contains(x));
}
pub broadcast proof fn lem_cluster_greatest(f: Fbas, w: Set<usize>, g: Set<usize>)
    requires #[trigger] is_greatest(f, w, g), has_q(f, w)
    ensures is_q(f, g)
{
    let q = choose|q: Set<usize>| #[trigger] q.subset_of(w) && is_q(f, q);
    assert(q.subset_of(g));
    let x = lem_nonempty(q);
    assert(g.contains(x));
}
/// fewer than two results: no two disjoint quorums in the whole FBAS
pub broadcast proof fn lem_nonint_none(f: Fbas, cc: Seq<BitSet>, r: Seq<BitSet>)
    requires clusters_ok(f, cc), wf(f), #[trigger] nonint(f, cc, r)
    ensures r.len() < 2 ==> !two_disjoint(f), r.len() >= 2 ==> disjoint_quorums(f, r)
{
    lem_clusters_inr(f, cc);
    if r.len() < 2 && two_disjoint(f) {
        let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] is_q(f, a) && #[trigger] is_q(f, b) && inr(f, a) && inr(f, b) && a.disjoint(b);
        let c = lem_has_min_q(f, a);
        let d = lem_has_min_q(f, b);
        lem_mq_all(f, cc, c); lem_mq_all(f, cc, d);
        assert(min_qf(f, c) && min_qf(f, d));
        assert(cc.len() == 1);
        assert(c.disjoint(d));
        assert(found_pair(f, cc[0]@, c, d));
    }
    if r.len() >= 2 {
        if cc.len() == 1 {} else {
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i])@.disjoint((#[trigger] r[j])@) by {
                assert(cc[i]@.disjoint(cc[j]@));
            }
            assert forall|i: int| 0 <= i < r.len() implies inr(f, (#[trigger] r[i])@) by { assert(inr(f, cc[i]@)); }
        }
    }
}
pub open spec fn disjoint_quorums(f: Fbas, r: Seq<BitSet>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> is_q(f, (#[trigger] r[i])@) && inr(f, r[i]@)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i])@.disjoint((#[trigger] r[j])@)
}
pub broadcast proof fn lem_union_none(e: Set<usize>, w: Set<usize>)
    requires e == Set::<usize>::empty()
    ensures #[trigger] e.union(w) == w
{ assert(e.union(w) =~= w); }
pub broadcast group nonint_lemmas { lem_union_none, lem_no_pair, lem_single_closed, lem_cluster_greatest, lem_nonint_none, lem_start, lem_clusters_inr }
