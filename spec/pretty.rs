// ---- quorum sets with names instead of numbers
/// the name `k` occurs somewhere in `p`
pub open spec fn says(p: PrettyQuorumSet, k: Seq<char>) -> bool
    decreases p,
{
    (exists|i: int| 0 <= i < p.validators@.len() && (#[trigger] p.validators@[i])@ == k)
        || exists|i: int| 0 <= i < p.inner_quorum_sets@.len() && says(#[trigger] p.inner_quorum_sets@[i], k)
}
/// `k` is the name of node `x`: of its group, if it has one, or else its public key
pub open spec fn named(f: Fbas, g: Option<&Groupings>, x: usize, k: Seq<char>) -> bool {
    match g {
        None => k == f.nodes@[x as int].public_key@,
        Some(g) => if grouped(g.groupings@, x) { exists|a: int| 0 <= a < g.groupings@.len() && listed(#[trigger] g.groupings@[a], x) && g.groupings@[a].name@ == k } else { k == f.nodes@[x as int].public_key@ },
    }
}
pub open spec fn calls(f: Fbas, g: Option<&Groupings>, q: QuorumSet, k: Seq<char>) -> bool { exists|x: usize| #[trigger] mentions(q, x) && named(f, g, x, k) }
/// `p` names exactly the nodes that `q` mentions; without groupings it has the shape of `q`, too
pub open spec fn pretty(f: Fbas, g: Option<&Groupings>, q: QuorumSet, p: PrettyQuorumSet) -> bool {
    &&& forall|k: Seq<char>| #[trigger] says(p, k) <==> calls(f, g, q, k)
    &&& g is None ==> plain_q(f, q, p)
}
pub open spec fn plain_q(f: Fbas, q: QuorumSet, p: PrettyQuorumSet) -> bool
    decreases q,
{
    &&& p.threshold == q.threshold
    &&& shown_all(f, None, q.validators@, p.validators@)
    &&& p.inner_quorum_sets@.len() == q.inner_quorum_sets@.len() && forall|i: int| #![trigger q.inner_quorum_sets@[i]] #![trigger p.inner_quorum_sets@[i]] 0 <= i < q.inner_quorum_sets@.len() ==> plain_q(f, q.inner_quorum_sets@[i], p.inner_quorum_sets@[i])
}
pub open spec fn fits_g(f: Fbas, g: Option<&Groupings>) -> bool { g is Some ==> grp_ok(*g->0) && g->0.merged_ids@.len() == f.nodes@.len() }
pub open spec fn premerged(g: Option<&Groupings>, q: QuorumSet, m: QuorumSet) -> bool { match g { None => m == q, Some(h) => qn(m) == merged_set(*h, qn(q)) } }
pub proof fn lem_named_merged(f: Fbas, g: &Groupings, x: usize, k: Seq<char>)
    requires grp_ok(*g), x < g.merged_ids@.len()
    ensures named(f, Some(g), g.merged_ids@[x as int], k) == named(f, Some(g), x, k)
{
    let gs = g.groupings@;
    let y = g.merged_ids@[x as int];
    if grouped(gs, x) {
        let a = choose|a: int| 0 <= a < gs.len() && #[trigger] listed(gs[a], x);
        assert(y == gs[a].validators@[0]);
        assert(listed(gs[a], y));
        assert(grouped(gs, y));
    } else {
        assert(y == x);
    }
}
pub proof fn lem_pretty_q(f: Fbas, g: Option<&Groupings>, q: QuorumSet, m: QuorumSet, p: PrettyQuorumSet)
    requires
        fits_g(f, g), inr(f, qn(q)), premerged(g, q, m), shown_all(f, g, m.validators@, p.validators@), p.threshold == m.threshold,
        p.inner_quorum_sets@.len() == m.inner_quorum_sets@.len(), forall|i: int| #![trigger m.inner_quorum_sets@[i]] #![trigger p.inner_quorum_sets@[i]] 0 <= i < m.inner_quorum_sets@.len() ==> pretty(f, g, m.inner_quorum_sets@[i], p.inner_quorum_sets@[i]),
    ensures pretty(f, g, q, p)
{
    let (mi, pi) = (m.inner_quorum_sets@, p.inner_quorum_sets@);
    assert forall|k: Seq<char>| #[trigger] says(p, k) <==> calls(f, g, q, k) by {
        if says(p, k) {
            if exists|i: int| 0 <= i < p.validators@.len() && (#[trigger] p.validators@[i])@ == k {
                let i = choose|i: int| 0 <= i < p.validators@.len() && (#[trigger] p.validators@[i])@ == k;
                let x = m.validators@[i];
                assert(shown(f, g, x, p.validators@[i]));
                assert(m.validators@.contains(x));
                lem_mentions(m, x);
                assert(named(f, g, x, k));
            } else {
                let i = choose|i: int| 0 <= i < pi.len() && says(#[trigger] pi[i], k);
                assert(pretty(f, g, mi[i], pi[i]));
                assert(calls(f, g, mi[i], k));
                let x = choose|x: usize| #[trigger] mentions(mi[i], x) && named(f, g, x, k);
                lem_mentions(m, x);
            }
            assert(calls(f, g, m, k));
            let y = choose|y: usize| #[trigger] mentions(m, y) && named(f, g, y, k);
            if g is Some {
                let h = g->0;
                assert(merged_set(*h, qn(q)).contains(y));
                let x = choose|x: usize| qn(q).contains(x) && h.merged_ids@[x as int] == y;
                lem_named_merged(f, h, x, k);
                assert(mentions(q, x));
            }
        }
        if calls(f, g, q, k) {
            let x = choose|x: usize| #[trigger] mentions(q, x) && named(f, g, x, k);
            let y = if g is Some { g->0.merged_ids@[x as int] } else { x };
            if g is Some { lem_named_merged(f, g->0, x, k); assert(merged_set(*g->0, qn(q)).contains(y)); }
            assert(mentions(m, y));
            lem_mentions(m, y);
            if m.validators@.contains(y) {
                let i = choose|i: int| 0 <= i < m.validators@.len() && m.validators@[i] == y;
                assert(shown(f, g, m.validators@[i], p.validators@[i]));
                lem_named_one(f, g, y, k, p.validators@[i]@);
                assert(p.validators@[i]@ == k);
            } else {
                let i = choose|i: int| 0 <= i < mi.len() && mentions(#[trigger] mi[i], y);
                assert(calls(f, g, mi[i], k));
                assert(pretty(f, g, mi[i], pi[i]));
                assert(says(pi[i], k));
            }
        }
    }
}
/// a node has one name
pub proof fn lem_named_one(f: Fbas, g: Option<&Groupings>, x: usize, k: Seq<char>, l: Seq<char>)
    requires fits_g(f, g), named(f, g, x, k), named(f, g, x, l)
    ensures k == l
{
    if g is Some && grouped(g->0.groupings@, x) {
        let gs = g->0.groupings@;
        let a = choose|a: int| 0 <= a < gs.len() && listed(#[trigger] gs[a], x) && gs[a].name@ == k;
        let b = choose|b: int| 0 <= b < gs.len() && listed(#[trigger] gs[b], x) && gs[b].name@ == l;
        assert(a == b);
    }
}
pub proof fn lem_inner_inr(f: Fbas, g: Option<&Groupings>, q: QuorumSet, m: QuorumSet)
    requires fits_g(f, g), inr(f, qn(q)), premerged(g, q, m)
    ensures
        forall|i: int| 0 <= i < m.validators@.len() ==> #[trigger] m.validators@[i] < f.nodes@.len(),
        forall|i: int| 0 <= i < m.inner_quorum_sets@.len() ==> inr(f, qn(#[trigger] m.inner_quorum_sets@[i])),
{
    assert forall|y: usize| #[trigger] mentions(m, y) implies y < f.nodes@.len() by {
        if g is Some { assert(merged_set(*g->0, qn(q)).contains(y)); let x = choose|x: usize| qn(q).contains(x) && g->0.merged_ids@[x as int] == y; assert(x < g->0.merged_ids@.len()); } else { assert(qn(q).contains(y)); }
    }
    assert forall|i: int| 0 <= i < m.validators@.len() implies #[trigger] m.validators@[i] < f.nodes@.len() by { assert(m.validators@.contains(m.validators@[i])); lem_mentions(m, m.validators@[i]); }
    assert forall|i: int| 0 <= i < m.inner_quorum_sets@.len() implies inr(f, qn(#[trigger] m.inner_quorum_sets@[i])) by {
        assert forall|y: usize| #[trigger] qn(m.inner_quorum_sets@[i]).contains(y) implies y < f.nodes@.len() by { assert(mentions(m.inner_quorum_sets@[i], y)); lem_mentions(m, y); assert(mentions(m, y)); }
    }
}
