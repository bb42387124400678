@fn minimal_quorums_finder
@spec
    requires wf(*fbas), clusters_ok(*fbas, consensus_clusters@)
    ensures mq_upto(*fbas, consensus_clusters@, r@), antichain(r@)
@entry
    broadcast use mq_finder_lemmas;
@loop 1
    it1_all.len() == consensus_clusters@.len(), forall|i: int| 0 <= i < it1_all.len() ==> #[trigger] it1_all[i] == (i as usize, consensus_clusters@[i]),
    wf(*fbas), clusters_ok(*fbas, consensus_clusters@),
    mq_upto(*fbas, consensus_clusters@.take(it1.pos()), found_quorums@),
@loopbegin 1
    let ghost a0 = found_quorums@;
    proof {
        let c = consensus_clusters@[it1_i];
        assert(one_comp(*fbas, greatest(*fbas), c@));
    }
@loopend 1
    proof {
        let cc = consensus_clusters@;
        assert(cc.take(it1_i + 1) =~= cc.take(it1_i).push(cc[it1_i]));
        lem_mq_push(*fbas, cc.take(it1_i), cc[it1_i], a0, found_quorums@);
    }
@loopdone 1
    proof { assert(consensus_clusters@.take(consensus_clusters@.len() as int) =~= consensus_clusters@); }

@fn find_minimal_quorums
@spec
    requires wf(*fbas)
    ensures canonical(r@), antichain(r@), forall|s: Set<usize>| #[trigger] has(r@, s) <==> min_qf(*fbas, s)
@entry
    broadcast use mq_finder_lemmas;
