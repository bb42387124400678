pub open spec fn s_contains_quorum(node_set: &NodeIdSet, fbas: &Fbas) -> bool { has_q(*fbas, node_set@) }
/// `s` contains every closed (in particular every quorum) subset of `ns`
pub open spec fn enc(f: Fbas, ns: Set<usize>, s: Set<usize>) -> bool {
    forall|q: Set<usize>| #[trigger] q.subset_of(ns) && closed(f, q) ==> q.subset_of(s)
}
pub broadcast proof fn lem_enc_init(f: Fbas, ns: Set<usize>)
    ensures #[trigger] enc(f, ns, ns)
{}
pub broadcast proof fn lem_enc_step(f: Fbas, ns: Set<usize>, s: Set<usize>, x: usize)
    requires #[trigger] enc(f, ns, s), !fsat(f, x, s)
    ensures enc(f, ns, #[trigger] s.remove(x))
{
    assert forall|q: Set<usize>| #[trigger] q.subset_of(ns) && closed(f, q) implies q.subset_of(s.remove(x)) by {
        if q.contains(x) { lem_mono(f.nodes@[x as int].quorum_set, q, s); }
    }
}
pub broadcast proof fn lem_enc_has(f: Fbas, ns: Set<usize>, s: Set<usize>)
    requires #[trigger] enc(f, ns, s), closed(f, s), s.subset_of(ns)
    ensures #[trigger] has_q(f, ns) == (s != Set::<usize>::empty())
{
    if has_q(f, ns) {
        let q = choose|q: Set<usize>| #[trigger] q.subset_of(ns) && is_q(f, q);
        assert(q.subset_of(s));
        if s == Set::<usize>::empty() { assert(q =~= s); }
    }
    if s != Set::<usize>::empty() { assert(is_q(f, s)); }
}
/// keeping exactly the members that a set satisfies keeps every closed subset
pub broadcast proof fn lem_enc_filter(f: Fbas, ns: Set<usize>, s: Set<usize>)
    requires forall|x: usize| #[trigger] s.contains(x) <==> ns.contains(x) && fsat(f, x, ns)
    ensures #[trigger] enc(f, ns, s)
{
    assert forall|q: Set<usize>| #[trigger] q.subset_of(ns) && closed(f, q) implies q.subset_of(s) by {
        assert forall|x: usize| q.contains(x) implies s.contains(x) by { lem_mono(f.nodes@[x as int].quorum_set, q, ns); }
    }
}
pub broadcast group enc_lemmas { lem_enc_init, lem_enc_step, lem_enc_has, lem_enc_filter }
