// ---- symmetric clusters
pub open spec fn qs_of(f: Fbas, x: usize) -> QuorumSet { f.nodes@[x as int].quorum_set }
/// the nodes of `q` are all in `ns` and all have `q` as their quorum set
pub open spec fn sym(f: Fbas, ns: Set<usize>, q: QuorumSet) -> bool {
    qn(q) != Set::<usize>::empty() && forall|x: usize| #[trigger] qn(q).contains(x) ==> ns.contains(x) && x < f.nodes@.len() && qs_of(f, x) == q
}
/// those of the nodes `p` that are nodes of `q` and have `q` as their quorum set
pub open spec fn memb(f: Fbas, p: Seq<usize>, q: QuorumSet) -> Set<usize> { p.to_set().filter(|x: usize| qn(q).contains(x) && qs_of(f, x) == q) }
pub open spec fn counted(f: Fbas, p: Seq<usize>, m: Map<QuorumSet, (usize, usize)>, found: Seq<QuorumSet>) -> bool {
    &&& forall|q: QuorumSet| #[trigger] m.dom().contains(q) <==> memb(f, p, q) != Set::<usize>::empty()
    &&& forall|q: QuorumSet| #[trigger] m.dom().contains(q) ==> m[q].0 == memb(f, p, q).len() && m[q].1 == qn(q).len()
    &&& found.no_duplicates()
    &&& forall|q: QuorumSet| #[trigger] found.contains(q) <==> m.dom().contains(q) && m[q].0 == m[q].1
}
pub proof fn lem_memb(f: Fbas, p: Seq<usize>, q: QuorumSet)
    ensures memb(f, p, q).subset_of(qn(q)), memb(f, p, q).len() <= qn(q).len() <= flat(q).len()
{
    vstd::set_lib::lemma_len_subset(memb(f, p, q), qn(q));
    flat(q).lemma_cardinality_of_set();
}
pub proof fn lem_memb_push(f: Fbas, p: Seq<usize>, x: usize, q: QuorumSet)
    requires !p.contains(x)
    ensures memb(f, p.push(x), q) == if qn(q).contains(x) && qs_of(f, x) == q { memb(f, p, q).insert(x) } else { memb(f, p, q) },
        !memb(f, p, q).contains(x)
{
    assert forall|y: usize| p.push(x).contains(y) <==> p.contains(y) || y == x by {
        if p.contains(y) { let i = choose|i: int| 0 <= i < p.len() && p[i] == y; assert(p.push(x)[i] == y); }
        assert(p.push(x)[p.len() as int] == x);
    }
    assert(memb(f, p.push(x), q) =~= if qn(q).contains(x) && qs_of(f, x) == q { memb(f, p, q).insert(x) } else { memb(f, p, q) });
}
/// one more node: `found` gets the node's quorum set when the last of its nodes is counted
pub proof fn lem_counted(f: Fbas, p: Seq<usize>, x: usize, m: Map<QuorumSet, (usize, usize)>, found: Seq<QuorumSet>, m2: Map<QuorumSet, (usize, usize)>, found2: Seq<QuorumSet>)
    requires counted(f, p, m, found), !p.contains(x),
        ({
            let q = qs_of(f, x);
            let n = if m.dom().contains(q) { m[q].0 + 1 } else { 1 };
            if qn(q).contains(x) {
                &&& m2 == m.insert(q, m2[q]) && m2[q].0 == n && m2[q].1 == qn(q).len()
                &&& found2 == if n == qn(q).len() { found.push(q) } else { found }
            } else { m2 == m && found2 == found }
        })
    ensures counted(f, p.push(x), m2, found2)
{
    let q0 = qs_of(f, x);
    let p2 = p.push(x);
    assert forall|q: QuorumSet| memb(f, p2, q) == if qn(q).contains(x) && q0 == q { memb(f, p, q).insert(x) } else { memb(f, p, q) } by { lem_memb_push(f, p, x, q); }
    lem_memb_push(f, p, x, q0);
    assert forall|q: QuorumSet| #[trigger] m2.dom().contains(q) <==> memb(f, p2, q) != Set::<usize>::empty() by {
        if qn(q).contains(x) && q0 == q { assert(memb(f, p2, q).contains(x)); }
    }
    if qn(q0).contains(x) {
        lem_memb(f, p2, q0);
        assert(m2.dom().contains(q0));
        if !m.dom().contains(q0) { assert(memb(f, p, q0) == Set::<usize>::empty()); }
        assert(!found.contains(q0)) by { if found.contains(q0) { assert(memb(f, p2, q0).len() == memb(f, p, q0).len() + 1); } }
        assert forall|q: QuorumSet| #[trigger] found2.contains(q) <==> m2.dom().contains(q) && m2[q].0 == m2[q].1 by {
            if q == q0 {
                if m2[q].0 == m2[q].1 { assert(found2[found.len() as int] == q0); }
                if found2.contains(q0) && found2 == found { assert(false); }
            } else {
                assert(found.contains(q) <==> m.dom().contains(q) && m[q].0 == m[q].1);
                if found.contains(q) { let i = choose|i: int| 0 <= i < found.len() && found[i] == q; assert(found2[i] == q); }
                if found2.contains(q) { let i = choose|i: int| 0 <= i < found2.len() && found2[i] == q; assert(found[i] == q); }
            }
        }
    }
}
pub proof fn lem_counted_done(f: Fbas, ns: Set<usize>, p: Seq<usize>, m: Map<QuorumSet, (usize, usize)>, found: Seq<QuorumSet>)
    requires counted(f, p, m, found), forall|x: usize| #[trigger] p.contains(x) <==> ns.contains(x), inr(f, ns)
    ensures forall|q: QuorumSet| #[trigger] found.contains(q) <==> sym(f, ns, q)
{
    assert forall|q: QuorumSet| #[trigger] found.contains(q) <==> sym(f, ns, q) by {
        lem_memb(f, p, q);
        assert(found.contains(q) <==> m.dom().contains(q) && m[q].0 == m[q].1);
        if found.contains(q) {
            vstd::set_lib::lemma_subset_equality(memb(f, p, q), qn(q));
            assert forall|x: usize| #[trigger] qn(q).contains(x) implies ns.contains(x) && x < f.nodes@.len() && qs_of(f, x) == q by { assert(memb(f, p, q).contains(x)); assert(p.contains(x)); }
        }
        if sym(f, ns, q) {
            assert forall|x: usize| qn(q).contains(x) implies memb(f, p, q).contains(x) by { assert(ns.contains(x)); assert(p.contains(x)); }
            assert(memb(f, p, q) =~= qn(q));
            assert(m.dom().contains(q));
        }
    }
}
pub broadcast proof fn lem_counted_init(f: Fbas, p: Seq<usize>, m: Map<QuorumSet, (usize, usize)>, found: Seq<QuorumSet>)
    requires p.len() == 0, m == Map::<QuorumSet, (usize, usize)>::empty(), found.len() == 0
    ensures #[trigger] counted(f, p, m, found)
{
    assert forall|q: QuorumSet| memb(f, p, q) == Set::<usize>::empty() by { assert(memb(f, p, q) =~= Set::<usize>::empty()); }
}
/// nodes that all have `q` as their quorum set form a connected set; a whole component around it is `qn(q)` itself
pub broadcast proof fn lem_sym_comp(f: Fbas, ns: Set<usize>, q: QuorumSet, c: Set<usize>)
    requires #[trigger] sym(f, c, q), #[trigger] one_comp(f, ns, c), wf(f), inr(f, c)
    ensures qn(q) == c
{
    let x = lem_nonempty(qn(q));
    assert(c.contains(x));
    assert(is_comp(f, ns, c, x));
    assert forall|y: usize| c.contains(y) implies qn(q).contains(y) by {
        assert(connected(f, x, y));
        lem_sym_reach(f, q, x, y, c);
    }
    assert(qn(q) =~= c);
}
/// `c` is a strongly connected component of the nodes `ns`
pub open spec fn one_comp(f: Fbas, ns: Set<usize>, c: Set<usize>) -> bool { forall|x: usize| #[trigger] c.contains(x) ==> is_comp(f, ns, c, x) }
pub proof fn lem_sym_reach(f: Fbas, q: QuorumSet, x: usize, y: usize, c: Set<usize>)
    requires sym(f, c, q), qn(q).contains(x), reach(edge(f), x, y)
    ensures qn(q).contains(y)
{
    let e = edge(f);
    let d = |z: usize| qn(q).contains(z);
    assert forall|a: usize, b: usize| d(a) && #[trigger] e(a, b) implies d(b) by { assert(qs_of(f, a) == q); }
    lem_reach_agree(e, e, d, x, y);
}
pub broadcast proof fn lem_sym_one(f: Fbas, ns: Set<usize>, q: QuorumSet, p: QuorumSet, c: Set<usize>)
    requires #[trigger] sym(f, c, q), #[trigger] sym(f, c, p), #[trigger] one_comp(f, ns, c), wf(f), inr(f, c)
    ensures p == q
{
    lem_sym_comp(f, ns, q, c); lem_sym_comp(f, ns, p, c);
    let x = lem_nonempty(c);
    assert(qs_of(f, x) == q);
    assert(qs_of(f, x) == p);
}
pub open spec fn syms_upto(f: Fbas, cc: Seq<BitSet>, r: Seq<QuorumSet>) -> bool {
    r.no_duplicates() && forall|q: QuorumSet| #[trigger] r.contains(q) <==> syms_some(f, cc, q)
}
pub open spec fn syms_some(f: Fbas, cc: Seq<BitSet>, q: QuorumSet) -> bool { exists|c: int| 0 <= c < cc.len() && sym(f, (#[trigger] cc[c])@, q) }
pub proof fn lem_syms_push(f: Fbas, cc: Seq<BitSet>, c: BitSet, a: Seq<QuorumSet>, b: Seq<QuorumSet>)
    requires syms_upto(f, cc, a), b.no_duplicates(), forall|q: QuorumSet| #[trigger] b.contains(q) <==> sym(f, c@, q),
        forall|i: int| 0 <= i < cc.len() ==> (#[trigger] cc[i])@.disjoint(c@)
    ensures syms_upto(f, cc.push(c), a + b)
{
    let cc2 = cc.push(c);
    let r = a + b;
    assert forall|q: QuorumSet| #[trigger] r.contains(q) <==> syms_some(f, cc2, q) by {
        assert(r.contains(q) <==> a.contains(q) || b.contains(q)) by { lem_concat_entry(a, b, q); }
        if syms_some(f, cc, q) { let i = choose|i: int| 0 <= i < cc.len() && sym(f, (#[trigger] cc[i])@, q); assert(cc2[i] == cc[i]); }
        if b.contains(q) { assert(cc2[cc.len() as int] == c); }
        if syms_some(f, cc2, q) { let i = choose|i: int| 0 <= i < cc2.len() && sym(f, (#[trigger] cc2[i])@, q); if i < cc.len() { assert(cc2[i] == cc[i]); } }
    }
    assert(r.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by {
            if r[i] == r[j] && i < a.len() && j >= a.len() {
                let q = r[i];
                assert(a[i] == q); assert(a.contains(q)); assert(b[j - a.len()] == q); assert(b.contains(q));
                let k = choose|k: int| 0 <= k < cc.len() && sym(f, (#[trigger] cc[k])@, q);
                let x = lem_nonempty(qn(q));
                assert(cc[k]@.contains(x) && c@.contains(x));
                assert(cc[k]@.disjoint(c@));
            }
        }
    }
}
pub proof fn lem_concat_entry<T>(a: Seq<T>, b: Seq<T>, q: T)
    ensures (a + b).contains(q) <==> a.contains(q) || b.contains(q)
{
    let r = a + b;
    if a.contains(q) { let i = choose|i: int| 0 <= i < a.len() && a[i] == q; assert(r[i] == q); }
    if b.contains(q) { let i = choose|i: int| 0 <= i < b.len() && b[i] == q; assert(r[a.len() + i] == q); }
    if r.contains(q) { let i = choose|i: int| 0 <= i < r.len() && r[i] == q; if i < a.len() { assert(a[i] == q); } else { assert(b[i - a.len()] == q); } }
}
/// a symmetric cluster of the whole network: the nodes of `q` exist, all have `q`, and satisfy it
pub open spec fn sym_cluster(f: Fbas, q: QuorumSet) -> bool { sym(f, all_ids(f), q) && sat(q, qn(q)) }
pub broadcast proof fn lem_syms_all(f: Fbas, cc: Seq<BitSet>, q: QuorumSet)
    requires #[trigger] clusters_ok(f, cc), wf(f)
    ensures #[trigger] syms_some(f, cc, q) <==> sym_cluster(f, q)
{
    lem_all_ids(f);
    lem_greatest_exists(f, all_ids(f));
    let g = greatest(f);
    if syms_some(f, cc, q) {
        let i = choose|i: int| 0 <= i < cc.len() && sym(f, (#[trigger] cc[i])@, q);
        let x = lem_nonempty(qn(q));
        assert(cc[i]@.contains(x));
        assert(is_comp(f, g, cc[i]@, x));
        assert(g.contains(x));
        assert(fsat(f, x, g));
        lem_satisfiable(q, g);
        assert forall|y: usize| #[trigger] qn(q).contains(y) implies all_ids(f).contains(y) && y < f.nodes@.len() && qs_of(f, y) == q by {}
    }
    if sym_cluster(f, q) {
        let n = qn(q);
        assert(closed(f, n)) by { assert forall|x: usize| #[trigger] n.contains(x) implies fsat(f, x, n) by { assert(qs_of(f, x) == q); } }
        assert(n.subset_of(all_ids(f)));
        assert(n.subset_of(g));
        let x = lem_nonempty(n);
        let c = g.filter(|y: usize| connected(f, x, y));
        assert forall|y: usize| n.contains(y) implies c.contains(y) by {
            assert(mentions(qs_of(f, x), y)); assert(edge(f)(x, y));
            assert(mentions(qs_of(f, y), x)); assert(edge(f)(y, x));
            lem_reach_refl(edge(f), x); lem_reach_refl(edge(f), y);
            lem_reach_step(edge(f), x, x, y); lem_reach_step(edge(f), y, y, x);
        }
        assert(is_comp(f, g, c, x));
        assert(n.subset_of(c) && is_q(f, n));
        assert(relevant(f, x));
        let i = choose|i: int| 0 <= i < cc.len() && (#[trigger] cc[i])@.contains(x);
        lem_comp_unique(f, g, c, cc[i]@, x);
        assert(sym(f, cc[i]@, q));
    }
}
pub broadcast proof fn lem_entries<T>(s: Seq<T>)
    ensures #![trigger s.no_duplicates()]
        s.len() >= 1 ==> s.contains(s[0]),
        s.no_duplicates() && s.len() >= 2 ==> s.contains(s[1]) && s[0] != s[1]
{ if s.len() >= 1 { let x = s[0]; } if s.len() >= 2 { let x = s[1]; } }
pub broadcast proof fn lem_skip_concat<T>(a: Seq<T>, b: Seq<T>)
    ensures #[trigger] (a + b).skip(a.len() as int) == b
{ assert((a + b).skip(a.len() as int) =~= b); }
pub broadcast group sym_lemmas { lem_counted_init, lem_entries, lem_sym_comp, lem_sym_one, lem_syms_all, lem_skip_concat }
