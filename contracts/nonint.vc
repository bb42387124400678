@fn nonintersecting_quorums_finder
@spec
    requires wf(*fbas), clusters_ok(*fbas, consensus_clusters@)
    ensures nonint(*fbas, consensus_clusters@, r@)
@entry
    broadcast use nonint_lemmas;
@closure 1 : BitSet
    requires inr(*fbas, $1@), ensures is_greatest(*fbas, $1@, vr@),
@closure 2
    requires inr(*fbas, $1@), ensures vr == is_q(*fbas, $1@),

@fn find_nonintersecting_quorums
@spec
    requires wf(*fbas)
    ensures match r {
        Some(v) => v@.len() >= 2 && disjoint_quorums(*fbas, v@),
        None => !two_disjoint(*fbas),
    }
@entry
    broadcast use nonint_lemmas;
