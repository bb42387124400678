// ---- well-formed FBASs: quorum sets mention existing nodes only
pub open spec fn wf(f: Fbas) -> bool {
    f.nodes@.len() <= max_len() && forall|i: int, x: usize| 0 <= i < f.nodes@.len() && #[trigger] mentions(f.nodes@[i].quorum_set, x) ==> x < f.nodes@.len()
}
pub open spec fn edge(f: Fbas) -> Rel { |x: usize, y: usize| x < f.nodes@.len() && mentions(f.nodes@[x as int].quorum_set, y) }
pub open spec fn connected(f: Fbas, x: usize, y: usize) -> bool { mutual(edge(f), x, y) }
/// `c` = the strongly connected component of `x`, restricted to `ns`
pub open spec fn is_comp(f: Fbas, ns: Set<usize>, c: Set<usize>, x: usize) -> bool {
    c.contains(x) && forall|y: usize| #[trigger] c.contains(y) <==> ns.contains(y) && connected(f, x, y)
}
/// `v` partitions `ns` into strongly connected components (empty entries are allowed)
pub open spec fn comps_of(f: Fbas, ns: Set<usize>, v: Seq<BitSet>) -> bool {
    &&& forall|i: int, x: usize| 0 <= i < v.len() && #[trigger] v[i]@.contains(x) ==> is_comp(f, ns, v[i]@, x)
    &&& forall|x: usize| #[trigger] ns.contains(x) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@.contains(x)
    &&& forall|i: int, j: int, x: usize| 0 <= i < v.len() && 0 <= j < v.len() && #[trigger] v[i]@.contains(x) && #[trigger] v[j]@.contains(x) ==> i == j
}
pub proof fn lem_seq_filter(v: Seq<usize>, p: spec_fn(usize) -> bool, x: usize)
    ensures v.filter(p).contains(x) <==> v.contains(x) && p(x)
{ lem_filter_set::<usize>(v, p); assert(v.filter(p).contains(x) <==> v.contains(x) && p(x)); }

/// every quorum contains a quorum inside one strongly connected component
pub open spec fn rset(f: Fbas, q: Set<usize>, x: usize) -> Set<usize> { q.filter(|y: usize| reach(edge(f), x, y)) }
pub proof fn lem_rset_closed(f: Fbas, q: Set<usize>, x: usize)
    requires closed(f, q), inr(f, q), q.contains(x)
    ensures is_q(f, rset(f, q, x)), rset(f, q, x).contains(x)
{
    let r = rset(f, q, x);
    lem_reach_refl(edge(f), x);
    assert(r.contains(x));
    assert forall|y: usize| #[trigger] r.contains(y) implies fsat(f, y, r) by {
        let qs = f.nodes@[y as int].quorum_set;
        assert(fsat(f, y, q));
        assert forall|z: usize| #[trigger] qn(qs).contains(z) implies q.contains(z) == r.contains(z) by {
            assert(mentions(qs, z));
            assert(edge(f)(y, z));
            lem_reach_step(edge(f), x, y, z);
        }
        lem_local(qs, q, r);
    }
}
/// a member of a quorum from which the fewest members can be reached
pub proof fn lem_least(f: Fbas, q: Set<usize>, x: usize) -> (m: usize)
    requires q.contains(x)
    ensures q.contains(m), forall|y: usize| #[trigger] q.contains(y) ==> rset(f, q, m).len() <= rset(f, q, y).len(), rset(f, q, m).len() <= rset(f, q, x).len()
    decreases rset(f, q, x).len()
{
    if forall|y: usize| #[trigger] q.contains(y) ==> rset(f, q, x).len() <= rset(f, q, y).len() { x } else {
        let y = choose|y: usize| #[trigger] q.contains(y) && rset(f, q, x).len() > rset(f, q, y).len();
        lem_least(f, q, y)
    }
}
pub proof fn lem_nonempty(q: Set<usize>) -> (x: usize)
    requires q != Set::<usize>::empty()
    ensures q.contains(x)
{
    if forall|x: usize| !q.contains(x) { assert(q =~= Set::<usize>::empty()); }
    choose|x: usize| q.contains(x)
}
pub proof fn lem_quorum_in_comp(f: Fbas, q: Set<usize>) -> (r: Set<usize>)
    requires is_q(f, q), inr(f, q)
    ensures r.subset_of(q), is_q(f, r), forall|x: usize, y: usize| #[trigger] r.contains(x) && #[trigger] r.contains(y) ==> connected(f, x, y)
{
    let x0 = lem_nonempty(q);
    let m = lem_least(f, q, x0);
    lem_rset_closed(f, q, m);
    let r = rset(f, q, m);
    assert forall|x: usize| #[trigger] r.contains(x) implies reach(edge(f), x, m) by {
        let rx = rset(f, q, x);
        assert(rx.subset_of(r)) by {
            assert forall|z: usize| rx.contains(z) implies r.contains(z) by { lem_reach_trans(edge(f), m, x, z); }
        }
        assert(q.contains(x));
        vstd::set_lib::lemma_len_subset(rx, r);
        vstd::set_lib::lemma_subset_equality(rx, r);
        assert(rx.contains(m));
    }
    assert forall|x: usize, y: usize| #[trigger] r.contains(x) && #[trigger] r.contains(y) implies connected(f, x, y) by {
        lem_reach_trans(edge(f), x, m, y);
        lem_reach_trans(edge(f), y, m, x);
    }
    r
}
/// a quorum no proper subset of which is a quorum
pub open spec fn min_q(f: Fbas, q: Set<usize>) -> bool { is_q(f, q) && forall|p: Set<usize>| #[trigger] p.subset_of(q) && is_q(f, p) ==> p == q }
pub proof fn lem_min_q_comp(f: Fbas, q: Set<usize>)
    requires min_q(f, q), inr(f, q)
    ensures forall|x: usize, y: usize| #[trigger] q.contains(x) && #[trigger] q.contains(y) ==> connected(f, x, y)
{
    let r = lem_quorum_in_comp(f, q);
}
/// every quorum contains a minimal one
pub proof fn lem_has_min_q(f: Fbas, q: Set<usize>) -> (m: Set<usize>)
    requires is_q(f, q)
    ensures m.subset_of(q), min_q(f, m)
    decreases q.len()
{
    if min_q(f, q) { q } else {
        let p = choose|p: Set<usize>| #[trigger] p.subset_of(q) && is_q(f, p) && p != q;
        vstd::set_lib::lemma_len_subset(p, q);
        if p.len() == q.len() { vstd::set_lib::lemma_subset_equality(p, q); }
        lem_has_min_q(f, p)
    }
}
/// the satisfiable nodes (greatest closed set) of the whole FBAS
pub open spec fn greatest(f: Fbas) -> Set<usize> { choose|g: Set<usize>| is_greatest(f, all_ids(f), g) }
pub proof fn lem_greatest_unique(f: Fbas, s: Set<usize>, g: Set<usize>, h: Set<usize>)
    requires is_greatest(f, s, g), is_greatest(f, s, h)
    ensures g == h
{ assert(g.subset_of(h)); assert(h.subset_of(g)); assert(g =~= h); }
pub proof fn lem_all_ids(f: Fbas)
    requires f.nodes@.len() <= max_len()
    ensures forall|x: usize| #[trigger] all_ids(f).contains(x) <==> x < f.nodes@.len(), inr(f, all_ids(f))
{
    let s = range_seq(0, f.nodes@.len() as usize);
    assert forall|x: usize| #[trigger] all_ids(f).contains(x) <==> x < f.nodes@.len() by {
        if x < f.nodes@.len() { assert(s[x as int] == x); assert(s.contains(x)); }
    }
}
/// node of a quorum-containing component
pub open spec fn relevant(f: Fbas, x: usize) -> bool {
    greatest(f).contains(x) && exists|c: Set<usize>| #[trigger] is_comp(f, greatest(f), c, x) && has_q(f, c)
}
/// `x` is in one of the sets of `v` that contain a quorum
pub open spec fn in_good(f: Fbas, v: Seq<BitSet>, x: usize) -> bool
    decreases v.len(),
{ v.len() > 0 && (in_good(f, v.drop_last(), x) || (has_q(f, v.last()@) && v.last()@.contains(x))) }
pub proof fn lem_in_good_ex(f: Fbas, v: Seq<BitSet>, x: usize)
    ensures in_good(f, v, x) <==> exists|i: int| 0 <= i < v.len() && has_q(f, v[i]@) && (#[trigger] v[i])@.contains(x)
    decreases v.len()
{
    if v.len() > 0 {
        lem_in_good_ex(f, v.drop_last(), x);
        if in_good(f, v.drop_last(), x) { let i = choose|i: int| 0 <= i < v.len() - 1 && has_q(f, v.drop_last()[i]@) && (#[trigger] v.drop_last()[i])@.contains(x); assert(v[i]@.contains(x)); }
        if exists|i: int| 0 <= i < v.len() && has_q(f, v[i]@) && (#[trigger] v[i])@.contains(x) {
            let i = choose|i: int| 0 <= i < v.len() && has_q(f, v[i]@) && (#[trigger] v[i])@.contains(x);
            if i < v.len() - 1 { assert(v.drop_last()[i]@.contains(x)); }
        }
    }
}
pub proof fn lem_comp_unique(f: Fbas, ns: Set<usize>, c: Set<usize>, d: Set<usize>, x: usize)
    requires is_comp(f, ns, c, x), is_comp(f, ns, d, x)
    ensures c == d
{ assert forall|y: usize| c.contains(y) <==> d.contains(y) by {} assert(c =~= d); }
pub proof fn lem_in_good(f: Fbas, v: Seq<BitSet>)
    requires comps_of(f, greatest(f), v)
    ensures forall|x: usize| in_good(f, v, x) <==> #[trigger] relevant(f, x)
{
    assert forall|x: usize| in_good(f, v, x) <==> #[trigger] relevant(f, x) by {
        lem_in_good_ex(f, v, x);
        if in_good(f, v, x) {
            let i = choose|i: int| 0 <= i < v.len() && has_q(f, v[i]@) && (#[trigger] v[i])@.contains(x);
            assert(is_comp(f, greatest(f), v[i]@, x));
        }
        if relevant(f, x) {
            let c = choose|c: Set<usize>| #[trigger] is_comp(f, greatest(f), c, x) && has_q(f, c);
            let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@.contains(x);
            lem_comp_unique(f, greatest(f), v[i]@, c, x);
        }
    }
}
pub broadcast proof fn lem_greatest_is(f: Fbas, g: Set<usize>)
    requires #[trigger] is_greatest(f, all_ids(f), g)
    ensures greatest(f) == g
{ lem_greatest_unique(f, all_ids(f), greatest(f), g); }
pub broadcast proof fn lem_comp_inr(f: Fbas, ns: Set<usize>, v: Seq<BitSet>, i: int)
    requires #[trigger] comps_of(f, ns, v), inr(f, ns), 0 <= i < v.len()
    ensures inr(f, (#[trigger] v[i])@)
{
    assert forall|x: usize| #[trigger] v[i]@.contains(x) implies x < f.nodes@.len() by { assert(is_comp(f, ns, v[i]@, x)); assert(ns.contains(x)); }
}
pub broadcast proof fn lem_sccs_edge<F>(f: Fbas, succ: F, starts: Seq<usize>, ls: Seq<Vec<usize>>)
    requires #[trigger] is_sccs(succ_rel(succ), starts, ls), #[trigger] wf(f), forall|x: usize| #[trigger] starts.contains(x) ==> x < f.nodes@.len(),
        forall|x: usize, y: usize| x < f.nodes@.len() ==> (#[trigger] fout::<F, &usize, Vec<usize>>(succ, &x)@.contains(y) <==> mentions(f.nodes@[x as int].quorum_set, y))
    ensures is_sccs(edge(f), starts, ls)
{
    reveal(is_sccs); reveal(reached);
    let e = succ_rel(succ);
    let g = edge(f);
    let d = |x: usize| x < f.nodes@.len();
    assert forall|x: usize, y: usize| d(x) && #[trigger] e(x, y) implies d(y) by { assert(mentions(f.nodes@[x as int].quorum_set, y)); }
    assert forall|x: usize, y: usize| d(x) implies e(x, y) == #[trigger] g(x, y) by {}
    assert forall|x: usize, y: usize| d(x) implies mutual(e, x, y) == #[trigger] mutual(g, x, y) by {
        lem_reach_agree(e, g, d, x, y);
        if d(y) { lem_reach_agree(e, g, d, y, x); }
    }
    assert forall|x: usize| reached(e, starts, x) implies d(x) && #[trigger] reached(g, starts, x) by {
        let k = choose|k: int| 0 <= k < starts.len() && reach(e, #[trigger] starts[k], x);
        assert(starts.contains(starts[k]));
        lem_reach_agree(e, g, d, starts[k], x);
        assert(reach(g, starts[k], x));
    }
    assert forall|i: int, x: usize| 0 <= i < ls.len() && #[trigger] ls[i]@.contains(x) implies reached(g, starts, x) by { assert(reached(e, starts, x)); }
    assert forall|i: int, x: usize, y: usize| 0 <= i < ls.len() && ls[i]@.contains(x) implies (#[trigger] ls[i]@.contains(y) <==> #[trigger] mutual(g, x, y)) by {
        assert(reached(e, starts, x)); assert(mutual(e, x, y) == mutual(g, x, y));
    }
}
pub broadcast proof fn lem_comps(f: Fbas, ns: Set<usize>, ls: Seq<Vec<usize>>, v: Seq<BitSet>)
    requires #[trigger] is_sccs(edge(f), elems(ns), ls), v.len() == ls.len(),
        forall|i: int, y: usize| 0 <= i < v.len() ==> (#[trigger] v[i]@.contains(y) <==> ls[i]@.contains(y) && elems(ns).contains(y))
    ensures #[trigger] comps_of(f, ns, v)
{
    reveal(is_sccs); reveal(reached);
    assert forall|y: usize| #[trigger] elems(ns).contains(y) <==> ns.contains(y) by { if ns.contains(y) { assert(elems(ns)[epos(ns, y)] == y); } }
    assert forall|i: int, x: usize| 0 <= i < v.len() && #[trigger] v[i]@.contains(x) implies is_comp(f, ns, v[i]@, x) by {
        assert(ls[i]@.contains(x));
        assert forall|y: usize| #[trigger] v[i]@.contains(y) <==> ns.contains(y) && connected(f, x, y) by {
            assert(ls[i]@.contains(y) <==> mutual(edge(f), x, y));
        }
    }
    assert forall|x: usize| #[trigger] ns.contains(x) implies exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@.contains(x) by {
        assert(elems(ns)[epos(ns, x)] == x);
        assert(elems(ns).contains(x));
        let i = choose|i: int| 0 <= i < ls.len() && #[trigger] ls[i]@.contains(x);
        assert(v[i]@.contains(x));
    }
    assert forall|i: int, j: int, x: usize| 0 <= i < v.len() && 0 <= j < v.len() && #[trigger] v[i]@.contains(x) && #[trigger] v[j]@.contains(x) implies i == j by {
        assert(ls[i]@.contains(x) && ls[j]@.contains(x));
    }
}
pub open spec fn nums(s: Seq<f64>) -> bool { forall|i: int| 0 <= i < s.len() ==> num(#[trigger] s[i]) }
