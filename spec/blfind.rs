// ---- minimal blocking sets of all clusters, combined
/// `g` = exactly the minimal sets that block every quorum inside `c`
pub open spec fn bl_of(f: Fbas, c: Set<usize>, g: Seq<BitSet>) -> bool { antichain(g) && forall|s: Set<usize>| #[trigger] has(g, s) <==> min_bl(f, c, s) }
pub open spec fn bl_per(f: Fbas, cc: Seq<BitSet>, h: Seq<Vec<BitSet>>) -> bool { h.len() == cc.len() && forall|i: int| 0 <= i < cc.len() ==> bl_of(f, (#[trigger] cc[i])@, h[i]@) }
pub broadcast proof fn lem_bl_per_none(f: Fbas, cc: Seq<BitSet>, h: Seq<Vec<BitSet>>)
    requires cc.len() == 0, h.len() == 0
    ensures #[trigger] bl_per(f, cc, h)
{}
pub proof fn lem_bl_per_push(f: Fbas, cc: Seq<BitSet>, c: BitSet, h: Seq<Vec<BitSet>>, g: Vec<BitSet>)
    requires bl_per(f, cc, h), bl_of(f, c@, g@)
    ensures bl_per(f, cc.push(c), h.push(g))
{
    let (c2, h2) = (cc.push(c), h.push(g));
    assert forall|i: int| 0 <= i < c2.len() implies bl_of(f, (#[trigger] c2[i])@, h2[i]@) by { if i < cc.len() { assert(bl_of(f, cc[i]@, h[i]@)); } }
}
pub proof fn lem_min_bl_anti(f: Fbas, c: Set<usize>, g: Seq<BitSet>)
    requires distinct(g), forall|s: Set<usize>| #[trigger] has(g, s) ==> min_bl(f, c, s)
    ensures antichain(g)
{
    assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j implies !(#[trigger] g[i])@.subset_of((#[trigger] g[j])@) by {
        assert(has(g, g[i]@)); assert(has(g, g[j]@));
        assert(min_bl(f, c, g[i]@) && min_bl(f, c, g[j]@));
        if i < j { assert(g[i]@ != g[j]@); } else { assert(g[j]@ != g[i]@); }
    }
}
/// what the search started on all of `c` with nothing selected finds
pub broadcast proof fn lem_bl_found(f: Fbas, w: Set<usize>, e: Set<usize>, u: Seq<usize>, o: Seq<BitSet>, r: Seq<BitSet>, c: Set<usize>)
    requires #[trigger] extended(o, r, mbs(f, w, e, u)), o.len() == 0, e == Set::<usize>::empty(), w == c, forall|x: usize| c.contains(x) ==> u.contains(x)
    ensures #[trigger] bl_of(f, c, r)
{
    let p = mbs(f, w, e, u);
    assert(r.skip(0) =~= r);
    assert forall|s: Set<usize>| #[trigger] has(r, s) <==> min_bl(f, c, s) by { assert(has(r, s) <==> p(s)); if min_bl(f, c, s) { assert(p(s)); } }
    lem_min_bl_anti(f, c, r);
}
/// the start of the search: nothing selected, all of the cluster remaining and undecided
pub broadcast proof fn lem_bl_start(f: Fbas, c: Set<usize>, u: Seq<usize>, s: Seq<usize>)
    requires #[trigger] rearranged(s, u), s == elems(c), #[trigger] inr(f, c)
    ensures bl_state(f, c, u, Set::<usize>::empty(), c, Set::<usize>::empty()), u.to_set() == c, Set::<usize>::empty().union(c) == c, forall|x: usize| c.contains(x) ==> u.contains(x)
{
    assert forall|x: usize| #[trigger] u.contains(x) <==> c.contains(x) by {
        assert(u.contains(x) <==> s.contains(x));
        if c.contains(x) { assert(s[epos(c, x)] == x); }
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(c.contains(s[i])); }
    }
    assert(u.to_set() =~= c);
    assert(Set::<usize>::empty().union(c) =~= c);
}
/// in a symmetric cluster the minimal blocking sets are the minimal slices of the dual quorum set
pub broadcast proof fn lem_sym_bl(f: Fbas, c: Set<usize>, q: QuorumSet, b: Seq<BitSet>)
    requires #[trigger] sym(f, c, q), qn(q) == c, can(q), antichain(b), forall|s: Set<usize>| #[trigger] has(b, s) <==> min_sat(dual(q), s)
    ensures #[trigger] bl_of(f, c, b)
{
    assert forall|s: Set<usize>| #![trigger blocks(f, c, s)] blocks(f, c, s) <==> sat(dual(q), s) by { lem_sym_blocks(f, c, q, s); }
    assert forall|s: Set<usize>| #[trigger] has(b, s) <==> min_bl(f, c, s) by {
        if min_sat(dual(q), s) {
            lem_dual_flat(q);
            let t = s.intersect(qn(dual(q)));
            lem_local(dual(q), s, t);
            assert(t.subset_of(s) && sat(dual(q), t));
            assert(s.subset_of(c));
            assert(blocks(f, c, s));
            assert forall|u: Set<usize>| #[trigger] u.subset_of(s) && blocks(f, c, u) implies u == s by {}
        }
        if min_bl(f, c, s) {
            assert forall|u: Set<usize>| #[trigger] u.subset_of(s) && sat(dual(q), u) implies u == s by { assert(blocks(f, c, u)); }
        }
    }
}
pub proof fn lem_sym_blocks(f: Fbas, c: Set<usize>, q: QuorumSet, s: Set<usize>)
    requires sym(f, c, q), qn(q) == c, can(q)
    ensures blocks(f, c, s) <==> sat(dual(q), s)
{
    lem_dual(q, c, s);
    let w = c.difference(s);
    if sat(q, w) {
        lem_sat_nonempty(q, w);
        assert forall|x: usize| #[trigger] w.contains(x) implies fsat(f, x, w) by { assert(qn(q).contains(x)); assert(qs_of(f, x) == q); }
        assert(is_q(f, w) && w.subset_of(w));
    }
    if has_q(f, w) {
        let t = choose|t: Set<usize>| #[trigger] t.subset_of(w) && is_q(f, t);
        let x = lem_nonempty(t);
        assert(fsat(f, x, t));
        assert(qn(q).contains(x)); assert(qs_of(f, x) == q);
        lem_mono(q, t, w);
    }
}
/// a cluster with a quorum in which all nodes have `q`: `q` can be satisfied
pub broadcast proof fn lem_sym_can(f: Fbas, c: Set<usize>, q: QuorumSet)
    requires #[trigger] sym(f, c, q), qn(q) == c, has_q(f, c)
    ensures can(q)
{
    let t = choose|t: Set<usize>| #[trigger] t.subset_of(c) && is_q(f, t);
    let x = lem_nonempty(t);
    assert(fsat(f, x, t));
    assert(qn(q).contains(x)); assert(qs_of(f, x) == q);
}
/// to block the whole network is to block every cluster
pub proof fn lem_blocks_split(f: Fbas, cc: Seq<BitSet>, s: Set<usize>)
    requires clusters_ok(f, cc), wf(f)
    ensures blocks(f, all_ids(f), s) <==> forall|i: int| 0 <= i < cc.len() ==> blocks(f, (#[trigger] cc[i])@, s)
{
    let a = all_ids(f);
    lem_all_ids(f);
    lem_clusters_inr(f, cc);
    if blocks(f, a, s) {
        assert forall|i: int| 0 <= i < cc.len() implies blocks(f, (#[trigger] cc[i])@, s) by {
            let w = cc[i]@.difference(s);
            if has_q(f, w) {
                let t = choose|t: Set<usize>| #[trigger] t.subset_of(w) && is_q(f, t);
                assert(inr(f, cc[i]@));
                assert(t.subset_of(a.difference(s)));
            }
        }
    }
    if has_q(f, a.difference(s)) {
        let t = choose|t: Set<usize>| #[trigger] t.subset_of(a.difference(s)) && is_q(f, t);
        let m = lem_has_min_q(f, t);
        assert(min_qf(f, m));
        lem_mq_all(f, cc, m);
        let i = choose|i: int| 0 <= i < cc.len() && m.subset_of((#[trigger] cc[i])@);
        assert(m.subset_of(cc[i]@.difference(s)));
        assert(!blocks(f, cc[i]@, s));
    }
}
/// blocking `c` depends only on the members of `c`
pub proof fn lem_blocks_part(f: Fbas, c: Set<usize>, s: Set<usize>, t: Set<usize>)
    requires s.intersect(c) == t.intersect(c)
    ensures blocks(f, c, s) == blocks(f, c, t)
{
    assert(c.difference(s) =~= c.difference(t)) by {
        assert forall|x: usize| c.difference(s).contains(x) <==> c.difference(t).contains(x) by { assert(s.intersect(c).contains(x) == (s.contains(x) && c.contains(x))); assert(t.intersect(c).contains(x) == (t.contains(x) && c.contains(x))); }
    }
}
pub open spec fn parts(f: Fbas, cc: Seq<BitSet>, s: Set<usize>) -> bool {
    (forall|i: int| 0 <= i < cc.len() ==> min_bl(f, (#[trigger] cc[i])@, s.intersect(cc[i]@))) && forall|x: usize| #[trigger] s.contains(x) ==> exists|i: int| 0 <= i < cc.len() && (#[trigger] cc[i])@.contains(x)
}
/// minimal for the whole network = minimal for every cluster, and nothing besides
pub proof fn lem_bl_split(f: Fbas, cc: Seq<BitSet>, s: Set<usize>)
    requires clusters_ok(f, cc), wf(f)
    ensures min_bl(f, all_ids(f), s) <==> parts(f, cc, s)
{
    let a = all_ids(f);
    lem_all_ids(f);
    lem_clusters_inr(f, cc);
    lem_blocks_split(f, cc, s);
    if min_bl(f, a, s) {
        assert forall|x: usize| #[trigger] s.contains(x) implies exists|i: int| 0 <= i < cc.len() && (#[trigger] cc[i])@.contains(x) by {
            if forall|i: int| 0 <= i < cc.len() ==> !(#[trigger] cc[i])@.contains(x) {
                let t = s.remove(x);
                lem_blocks_split(f, cc, t);
                assert forall|i: int| 0 <= i < cc.len() implies blocks(f, (#[trigger] cc[i])@, t) by { assert(s.intersect(cc[i]@) =~= t.intersect(cc[i]@)); lem_blocks_part(f, cc[i]@, s, t); }
                assert(t.subset_of(s) && blocks(f, a, t));
                assert(!t.contains(x));
            }
        }
        assert forall|i: int| 0 <= i < cc.len() implies min_bl(f, (#[trigger] cc[i])@, s.intersect(cc[i]@)) by {
            let c = cc[i]@;
            let p = s.intersect(c);
            assert(s.intersect(c) =~= p.intersect(c));
            lem_blocks_part(f, c, s, p);
            assert forall|u: Set<usize>| #[trigger] u.subset_of(p) && blocks(f, c, u) implies u == p by {
                let t = s.difference(c).union(u);
                lem_blocks_split(f, cc, t);
                assert forall|j: int| 0 <= j < cc.len() implies blocks(f, (#[trigger] cc[j])@, t) by {
                    let d = cc[j]@;
                    if j == i { assert(u.intersect(c) =~= t.intersect(c)); lem_blocks_part(f, c, u, t); }
                    else {
                        if i < j { assert(cc[i]@.disjoint(cc[j]@)); } else { assert(cc[j]@.disjoint(cc[i]@)); }
                        assert forall|x: usize| s.intersect(d).contains(x) <==> t.intersect(d).contains(x) by { if c.contains(x) && d.contains(x) { assert(c.disjoint(d)); } if u.contains(x) { assert(p.contains(x)); } }
                        assert(s.intersect(d) =~= t.intersect(d)); lem_blocks_part(f, d, s, t);
                    }
                }
                assert(t.subset_of(s)) by { assert forall|x: usize| t.contains(x) implies s.contains(x) by { if u.contains(x) { assert(p.contains(x)); } } }
                assert(blocks(f, a, t));
                assert(t == s);
                assert forall|x: usize| p.contains(x) implies u.contains(x) by { assert(t.contains(x)); }
                assert(u =~= p);
            }
        }
    }
    if parts(f, cc, s) {
        assert forall|i: int| 0 <= i < cc.len() implies blocks(f, (#[trigger] cc[i])@, s) by { let c = cc[i]@; assert(s.intersect(c) =~= s.intersect(c).intersect(c)); lem_blocks_part(f, c, s, s.intersect(c)); }
        assert forall|x: usize| s.contains(x) implies a.contains(x) by { let i = choose|i: int| 0 <= i < cc.len() && (#[trigger] cc[i])@.contains(x); assert(inr(f, cc[i]@)); }
        assert forall|t: Set<usize>| #[trigger] t.subset_of(s) && blocks(f, a, t) implies t == s by {
            lem_blocks_split(f, cc, t);
            assert forall|x: usize| s.contains(x) implies t.contains(x) by {
                let i = choose|i: int| 0 <= i < cc.len() && (#[trigger] cc[i])@.contains(x);
                let c = cc[i]@;
                let u = t.intersect(c);
                assert(u.intersect(c) =~= t.intersect(c));
                lem_blocks_part(f, c, t, u);
                assert(u.subset_of(s.intersect(c)));
                assert(min_bl(f, c, s.intersect(c)));
                assert(u == s.intersect(c));
                assert(u.contains(x));
            }
            assert(t =~= s);
        }
    }
}
/// the part of a combination that lies in one cluster is what was picked there
pub proof fn lem_comb_part(f: Fbas, cc: Seq<BitSet>, h: Seq<Vec<BitSet>>, t: Seq<int>, i: int)
    requires clusters_ok(f, cc), bl_per(f, cc, h), picks(vviews(h), t), 0 <= i < cc.len()
    ensures union_all(at2(vviews(h), t)).intersect(cc[i]@) == h[i]@[t[i]]@, min_bl(f, cc[i]@, h[i]@[t[i]]@)
{
    let v = at2(vviews(h), t);
    let s = union_all(v);
    assert forall|j: int| 0 <= j < cc.len() implies v[j] == h[j]@[t[j]] && 0 <= #[trigger] t[j] < h[j]@.len() && h[j]@[t[j]]@.subset_of(cc[j]@) && min_bl(f, cc[j]@, h[j]@[t[j]]@) by {
        assert(0 <= t[j] < vviews(h)[j].len());
        assert(bl_of(f, cc[j]@, h[j]@));
        assert(has(h[j]@, h[j]@[t[j]]@));
    }
    assert(0 <= t[i]);
    assert forall|x: usize| s.intersect(cc[i]@).contains(x) <==> h[i]@[t[i]]@.contains(x) by {
        lem_union_all(v, x);
        if h[i]@[t[i]]@.contains(x) { assert(v[i]@.contains(x)); }
        if s.intersect(cc[i]@).contains(x) {
            let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j])@.contains(x);
            assert(0 <= t[j]);
            assert(cc[j]@.contains(x));
            if i < j { assert(cc[i]@.disjoint(cc[j]@)); } else if j < i { assert(cc[j]@.disjoint(cc[i]@)); }
        }
    }
    assert(s.intersect(cc[i]@) =~= h[i]@[t[i]]@);
}
pub proof fn lem_comb_min(f: Fbas, cc: Seq<BitSet>, h: Seq<Vec<BitSet>>, t: Seq<int>)
    requires clusters_ok(f, cc), wf(f), bl_per(f, cc, h), picks(vviews(h), t)
    ensures min_bl(f, all_ids(f), union_all(at2(vviews(h), t)))
{
    let v = at2(vviews(h), t);
    let s = union_all(v);
    assert forall|i: int| 0 <= i < cc.len() implies min_bl(f, (#[trigger] cc[i])@, s.intersect(cc[i]@)) by { lem_comb_part(f, cc, h, t, i); }
    assert forall|x: usize| #[trigger] s.contains(x) implies exists|i: int| 0 <= i < cc.len() && (#[trigger] cc[i])@.contains(x) by {
        lem_union_all(v, x);
        let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j])@.contains(x);
        lem_comb_part(f, cc, h, t, j);
        assert(v[j] == h[j]@[t[j]]);
        assert(cc[j]@.contains(x));
    }
    lem_bl_split(f, cc, s);
}
pub proof fn lem_comb_find(f: Fbas, cc: Seq<BitSet>, h: Seq<Vec<BitSet>>, s: Set<usize>) -> (t: Seq<int>)
    requires clusters_ok(f, cc), wf(f), bl_per(f, cc, h), min_bl(f, all_ids(f), s)
    ensures picks(vviews(h), t), union_all(at2(vviews(h), t)) == s
{
    lem_bl_split(f, cc, s);
    let t = Seq::new(cc.len(), |i: int| choose|k: int| 0 <= k < h[i]@.len() && #[trigger] h[i]@[k]@ == s.intersect(cc[i]@));
    assert forall|i: int| 0 <= i < cc.len() implies 0 <= #[trigger] t[i] < h[i]@.len() && h[i]@[t[i]]@ == s.intersect(cc[i]@) by {
        assert(min_bl(f, cc[i]@, s.intersect(cc[i]@)));
        assert(bl_of(f, cc[i]@, h[i]@));
        assert(has(h[i]@, s.intersect(cc[i]@)));
    }
    let v = at2(vviews(h), t);
    let w = union_all(v);
    assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < vviews(h)[i].len() by {}
    assert forall|x: usize| w.contains(x) <==> s.contains(x) by {
        lem_union_all(v, x);
        if w.contains(x) { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j])@.contains(x); assert(0 <= t[j]); assert(s.intersect(cc[j]@).contains(x)); }
        if s.contains(x) { let i = choose|i: int| 0 <= i < cc.len() && (#[trigger] cc[i])@.contains(x); assert(0 <= t[i]); assert(v[i] == h[i]@[t[i]]); assert(v[i]@.contains(x)); }
    }
    assert(w =~= s);
    t
}
/// all combinations of one minimal blocking set per cluster = all minimal blocking sets of the network
pub broadcast proof fn lem_bl_all(f: Fbas, cc: Seq<BitSet>, h: Seq<Vec<BitSet>>, r: Seq<BitSet>)
    requires clusters_ok(f, cc), wf(f), #[trigger] bl_per(f, cc, h), row(h, r)
    ensures #[trigger] mbl_list(f, r)
{
    let a = all_ids(f);
    let ps = prods(vviews(h));
    ax_prods(vviews(h));
    if cc.len() == 0 {
        if r.len() > 0 { assert(ps.contains(ps[0])); }
        lem_blocks_split(f, cc, Set::empty());
        assert(a.difference(Set::empty()) =~= a);
    } else {
        let c = cc[0]@;
        lem_clusters_inr(f, cc);
        lem_all_ids(f);
        let t = choose|t: Set<usize>| #[trigger] t.subset_of(c) && is_q(f, t);
        assert(inr(f, cc[0]@));
        assert(t.subset_of(a));
        assert(has_q(f, a));
        assert forall|p: int| 0 <= p < r.len() implies picks(vviews(h), #[trigger] ps[p]) && r[p]@ == union_all(at2(vviews(h), ps[p])) && min_bl(f, a, r[p]@) by {
            assert(ps.contains(ps[p]));
            lem_comb_min(f, cc, h, ps[p]);
        }
        assert forall|s: Set<usize>| #[trigger] has(r, s) <==> min_bl(f, a, s) by {
            if has(r, s) { let p = choose|p: int| 0 <= p < r.len() && r[p]@ == s; assert(picks(vviews(h), ps[p])); }
            if min_bl(f, a, s) {
                let t = lem_comb_find(f, cc, h, s);
                assert(ps.contains(t));
                let p = choose|p: int| 0 <= p < ps.len() && ps[p] == t;
                assert(picks(vviews(h), ps[p]));
                assert(r[p]@ == s);
            }
        }
        assert(distinct(r)) by {
            assert forall|p: int, q: int| 0 <= p < q < r.len() implies #[trigger] r[p]@ != #[trigger] r[q]@ by {
                if r[p]@ == r[q]@ {
                    let (t, u) = (ps[p], ps[q]);
                    assert(picks(vviews(h), t) && picks(vviews(h), u));
                    assert forall|i: int| 0 <= i < t.len() implies t[i] == u[i] by {
                        lem_comb_part(f, cc, h, t, i); lem_comb_part(f, cc, h, u, i);
                        assert(0 <= t[i] < vviews(h)[i].len()); assert(0 <= u[i] < vviews(h)[i].len());
                        assert(bl_of(f, cc[i]@, h[i]@));
                        assert(h[i]@[t[i]]@.subset_of(h[i]@[u[i]]@));
                    }
                    assert(t =~= u);
                }
            }
        }
        lem_min_bl_anti(f, a, r);
    }
}
/// all minimal blocking sets, each once -- none at all if there is no quorum to block
pub open spec fn mbl_list(f: Fbas, r: Seq<BitSet>) -> bool {
    antichain(r) && if has_q(f, all_ids(f)) { forall|s: Set<usize>| #[trigger] has(r, s) <==> min_bl(f, all_ids(f), s) } else { r.len() == 0 }
}
/// reordering does not matter
pub broadcast proof fn lem_mbl_same(f: Fbas, s: Seq<BitSet>, r: Seq<BitSet>)
    requires #[trigger] mbl_list(f, s), #[trigger] rearranged(s, r), antichain(r), forall|x: Set<usize>| #[trigger] has(r, x) <==> has(s, x)
    ensures mbl_list(f, r)
{ if r.len() > 0 { assert(has(r, r[0]@)); assert(has(s, r[0]@)); } }
/// every blocking set contains a minimal one
pub proof fn lem_has_min_bl(f: Fbas, w: Set<usize>, s: Set<usize>) -> (m: Set<usize>)
    requires s.subset_of(w), blocks(f, w, s)
    ensures m.subset_of(s), min_bl(f, w, m)
    decreases s.len()
{
    if min_bl(f, w, s) { s } else {
        let t = choose|t: Set<usize>| #[trigger] t.subset_of(s) && blocks(f, w, t) && t != s;
        lem_subset_smaller(t, s);
        lem_has_min_bl(f, w, t)
    }
}
/// C06: a node is in a minimal blocking set exactly when it is in a minimal quorum
pub proof fn lem_unions(f: Fbas, x: usize)
    requires wf(f)
    ensures (exists|b: Set<usize>| #[trigger] min_bl(f, all_ids(f), b) && b.contains(x)) <==> (exists|m: Set<usize>| #[trigger] min_qf(f, m) && m.contains(x))
{
    let a = all_ids(f);
    lem_all_ids(f);
    if exists|b: Set<usize>| #[trigger] min_bl(f, a, b) && b.contains(x) {
        let b = choose|b: Set<usize>| #[trigger] min_bl(f, a, b) && b.contains(x);
        let c = b.remove(x);
        assert(c.subset_of(b) && !c.contains(x));
        assert(!blocks(f, a, c));
        let t = choose|t: Set<usize>| #[trigger] t.subset_of(a.difference(c)) && is_q(f, t);
        let m = lem_has_min_q(f, t);
        assert(m.subset_of(a));
        if !m.contains(x) { assert(m.subset_of(a.difference(b))); }
        assert(min_qf(f, m));
    }
    if exists|m: Set<usize>| #[trigger] min_qf(f, m) && m.contains(x) {
        let m = choose|m: Set<usize>| #[trigger] min_qf(f, m) && m.contains(x);
        let n = m.remove(x);
        let b0 = a.difference(n);
        assert(m.subset_of(a));
        assert(a.difference(b0) =~= n);
        assert(!has_q(f, n)) by {
            if has_q(f, n) { let t = choose|t: Set<usize>| #[trigger] t.subset_of(n) && is_q(f, t); assert(t.subset_of(m)); assert(!t.contains(x)); }
        }
        let b = lem_has_min_bl(f, a, b0);
        if !b.contains(x) {
            assert(m.subset_of(a.difference(b))) by { assert forall|y: usize| m.contains(y) implies a.difference(b).contains(y) by { if b.contains(y) { assert(b0.contains(y)); assert(n.contains(y)); } } }
            assert(is_q(f, m));
        }
    }
}
pub broadcast group bl_find_lemmas { lem_bl_per_none, lem_bl_found, lem_bl_start, lem_sym_bl, lem_sym_can, lem_bl_all, lem_mbl_same, lem_clusters_inr, lem_views }
