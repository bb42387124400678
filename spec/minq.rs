// ---- all minimal quorums of all clusters
/// minimal quorums inside one of the sets of `cc`
pub open spec fn mq_some(f: Fbas, cc: Seq<BitSet>, s: Set<usize>) -> bool { min_q(f, s) && exists|i: int| 0 <= i < cc.len() && s.subset_of((#[trigger] cc[i])@) }
pub open spec fn mq_upto(f: Fbas, cc: Seq<BitSet>, r: Seq<BitSet>) -> bool { distinct(r) && forall|s: Set<usize>| #[trigger] has(r, s) <==> mq_some(f, cc, s) }
pub broadcast proof fn lem_mq_none(f: Fbas, cc: Seq<BitSet>, r: Seq<BitSet>)
    requires cc.len() == 0, r.len() == 0
    ensures #[trigger] mq_upto(f, cc, r)
{}
/// an extension that starts with nothing: exactly the sets with `p`
pub proof fn lem_mq_push(f: Fbas, cc: Seq<BitSet>, c: BitSet, o: Seq<BitSet>, r: Seq<BitSet>)
    requires mq_upto(f, cc, o), extended(o, r, mqs(f, Set::<usize>::empty(), c@)), forall|i: int| 0 <= i < cc.len() ==> (#[trigger] cc[i])@.disjoint(c@)
    ensures mq_upto(f, cc.push(c), r)
{
    let n = o.len() as int;
    let y = r.skip(n);
    let cc2 = cc.push(c);
    let p = mqs(f, Set::<usize>::empty(), c@);
    assert(r =~= o + y) by { assert forall|i: int| 0 <= i < n implies r[i] == o[i] by { assert(r.take(n)[i] == r[i]); } }
    assert forall|s: Set<usize>| #[trigger] has(r, s) <==> mq_some(f, cc2, s) by {
        if has(r, s) {
            let i = choose|i: int| 0 <= i < r.len() && r[i]@ == s;
            if i < n {
                assert(o[i]@ == s); assert(has(o, s));
                let k = choose|k: int| 0 <= k < cc.len() && s.subset_of((#[trigger] cc[k])@);
                assert(cc2[k] == cc[k]);
            } else { assert(y[i - n]@ == s); assert(has(y, s)); assert(p(s)); assert(cc2[cc.len() as int] == c); }
        }
        if mq_some(f, cc2, s) {
            let k = choose|k: int| 0 <= k < cc2.len() && s.subset_of((#[trigger] cc2[k])@);
            if k < cc.len() { assert(cc[k] == cc2[k]); assert(has(o, s)); let i = choose|i: int| 0 <= i < o.len() && o[i]@ == s; assert(r[i]@ == s); }
            else { assert(p(s)); assert(has(y, s)); let i = choose|i: int| 0 <= i < y.len() && y[i]@ == s; assert(r[n + i]@ == s); }
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i]@ != #[trigger] r[j]@ by {
        if j < n { assert(o[i]@ != o[j]@); }
        else if i >= n { assert(y[i - n]@ != y[j - n]@); }
        else if r[i]@ == r[j]@ {
            let s = r[i]@;
            assert(o[i]@ == s); assert(has(o, s)); assert(y[j - n]@ == s); assert(has(y, s)); assert(p(s));
            let k = choose|k: int| 0 <= k < cc.len() && s.subset_of((#[trigger] cc[k])@);
            let x = lem_nonempty(s);
            assert(cc[k]@.disjoint(c@));
            assert(cc[k]@.contains(x) && c@.contains(x));
        }
    }
}
/// in a symmetric cluster the minimal quorums are the minimal slices
pub broadcast proof fn lem_sym_mq(f: Fbas, c: Set<usize>, q: QuorumSet, o: Seq<BitSet>, b: Seq<BitSet>)
    requires #[trigger] sym(f, c, q), qn(q) == c, antichain(b), forall|s: Set<usize>| #[trigger] has(b, s) <==> min_sat(q, s)
    ensures extended(o, #[trigger] (o + b), mqs(f, Set::<usize>::empty(), c))
{
    let p = mqs(f, Set::<usize>::empty(), c);
    let r = o + b;
    assert(r.take(o.len() as int) =~= o);
    assert(r.skip(o.len() as int) =~= b);
    assert forall|s: Set<usize>| s.subset_of(c) implies (is_q(f, s) <==> sat(q, s)) by {
        if sat(q, s) { lem_sat_nonempty(q, s); }
        assert forall|x: usize| #[trigger] s.contains(x) implies fsat(f, x, s) == sat(q, s) by { assert(qn(q).contains(x)); assert(qs_of(f, x) == q); }
        if is_q(f, s) { let x = lem_nonempty(s); assert(fsat(f, x, s)); }
    }
    assert forall|s: Set<usize>| #[trigger] has(b, s) <==> p(s) by {
        if min_sat(q, s) {
            let t = s.intersect(qn(q));
            lem_local(q, s, t);
            assert(t.subset_of(s) && sat(q, t));
            assert(s.subset_of(c));
            assert forall|u: Set<usize>| #[trigger] u.subset_of(s) && is_q(f, u) implies u == s by { assert(u.subset_of(c)); assert(sat(q, u)); }
            assert(min_q(f, s));
            assert(p(s));
        }
        if p(s) {
            assert forall|u: Set<usize>| #[trigger] u.subset_of(s) && sat(q, u) implies u == s by { assert(u.subset_of(c)); assert(is_q(f, u)); }
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i]@ != #[trigger] b[j]@ by { assert(!b[i]@.subset_of(b[j]@)); }
}
pub proof fn lem_sat_nonempty(q: QuorumSet, s: Set<usize>)
    requires sat(q, s)
    ensures s != Set::<usize>::empty()
{ lem_sat_empty(q); }
/// the start of the search: nothing selected, all of the cluster available
pub broadcast proof fn lem_start(f: Fbas, c: Set<usize>, u: Seq<usize>, s: Seq<usize>)
    requires #[trigger] rearranged(s, u), s == elems(c), #[trigger] inr(f, c)
    ensures search_state(f, u, Set::<usize>::empty(), c), u.to_set() == c
{
    assert forall|x: usize| #[trigger] u.contains(x) <==> c.contains(x) by {
        assert(u.contains(x) <==> s.contains(x));
        if c.contains(x) { assert(s[epos(c, x)] == x); }
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(c.contains(s[i])); }
    }
    assert(u.to_set() =~= c);
}
/// every minimal quorum lies inside one of the clusters
pub broadcast proof fn lem_mq_all(f: Fbas, cc: Seq<BitSet>, s: Set<usize>)
    requires #[trigger] clusters_ok(f, cc), wf(f)
    ensures #[trigger] mq_some(f, cc, s) <==> min_qf(f, s)
{
    if min_qf(f, s) {
        lem_all_ids(f);
        lem_greatest_exists(f, all_ids(f));
        let g = greatest(f);
        assert(s.subset_of(all_ids(f)));
        assert(s.subset_of(g));
        lem_min_q_comp(f, s);
        let x = lem_nonempty(s);
        let c = g.filter(|y: usize| connected(f, x, y));
        assert(connected(f, x, x));
        assert(is_comp(f, g, c, x));
        assert(s.subset_of(c));
        assert(relevant(f, x));
        let i = choose|i: int| 0 <= i < cc.len() && (#[trigger] cc[i])@.contains(x);
        lem_comp_unique(f, g, c, cc[i]@, x);
    }
    if mq_some(f, cc, s) {
        lem_clusters_inr(f, cc);
    }
}
/// a minimal quorum of nodes of `f`
pub open spec fn min_qf(f: Fbas, s: Set<usize>) -> bool { min_q(f, s) && inr(f, s) }
pub proof fn lem_min_qf(f: Fbas, s: Set<usize>, c: Set<usize>)
    requires min_q(f, s), s.subset_of(c), inr(f, c)
    ensures min_qf(f, s)
{}
pub broadcast proof fn lem_mq_anti(f: Fbas, cc: Seq<BitSet>, r: Seq<BitSet>)
    requires #[trigger] mq_upto(f, cc, r)
    ensures antichain(r)
{
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies !(#[trigger] r[i])@.subset_of((#[trigger] r[j])@) by {
        assert(has(r, r[i]@)); assert(has(r, r[j]@));
        assert(min_q(f, r[i]@) && min_q(f, r[j]@));
        if i < j { assert(r[i]@ != r[j]@); } else { assert(r[j]@ != r[i]@); }
    }
}
pub broadcast group mq_finder_lemmas { lem_mq_none, lem_sym_mq, lem_start, lem_mq_anti, lem_mq_all, lem_clusters_inr }
