@fn find_symmetric_clusters_in_node_set
@spec
    requires inr(*fbas, nodes@)
    ensures r@.no_duplicates(), forall|q: QuorumSet| #![trigger r@.contains(q)] #![trigger sym(*fbas, nodes@, q)] r@.contains(q) <==> sym(*fbas, nodes@, q)
@entry
    broadcast use sym_lemmas;
@loop 1
    it1_all == elems(nodes@), inr(*fbas, nodes@), counted(*fbas, it1_all.take(it1.pos()), qset_occurances@, found_clusters@),
@loopbegin 1
    let ghost m0 = qset_occurances@;
    let ghost f0 = found_clusters@;
    proof {
        let q0 = qs_of(*fbas, it1_all[it1_i]);
        assert(nodes@.contains(it1_all[it1_i]));
        assert(!it1_all.take(it1_i).contains(it1_all[it1_i]));
        assert(it1_all.take(it1_i + 1) =~= it1_all.take(it1_i).push(it1_all[it1_i]));
        lem_memb(*fbas, it1_all.take(it1_i), q0);
        lem_memb_push(*fbas, it1_all.take(it1_i), it1_all[it1_i], q0);
        lem_memb(*fbas, it1_all.take(it1_i + 1), q0);
    }
@loopend 1
    proof { lem_counted(*fbas, it1_all.take(it1_i), it1_all[it1_i], m0, f0, qset_occurances@, found_clusters@); }
@loopdone 1
    proof { assert(it1_all.take(it1_all.len() as int) =~= it1_all); lem_counted_done(*fbas, nodes@, it1_all, qset_occurances@, found_clusters@); }

@fn find_symmetric_cluster_in_consensus_cluster
@spec
    requires wf(*fbas), inr(*fbas, cluster@), exists|ns: Set<usize>| #[trigger] one_comp(*fbas, ns, cluster@)
    ensures match r {
        None => forall|q: QuorumSet| !#[trigger] sym(*fbas, cluster@, q),
        Some(q) => sym(*fbas, cluster@, q) && qn(q) == cluster@,
    }
@entry
    broadcast use sym_lemmas;

@fn symmetric_clusters_finder
@spec
    requires wf(*fbas), clusters_ok(*fbas, consensus_clusters@)
    ensures syms_upto(*fbas, consensus_clusters@, r@)
@entry
    broadcast use lem_clusters_inr, sym_lemmas;
@loop 1
    it1_all.len() == consensus_clusters@.len(), forall|i: int| 0 <= i < it1_all.len() ==> #[trigger] it1_all[i] == (i as usize, consensus_clusters@[i]),
    wf(*fbas), clusters_ok(*fbas, consensus_clusters@),
    syms_upto(*fbas, consensus_clusters@.take(it1.pos()), found_clusters_in_all_clusters@),
@loopbegin 1
    let ghost a0 = found_clusters_in_all_clusters@;
@loopend 1
    proof {
        let cc = consensus_clusters@;
        let b = found_clusters_in_all_clusters@.skip(a0.len() as int);
        assert(found_clusters_in_all_clusters@ =~= a0 + b);
        assert(cc.take(it1_i + 1) =~= cc.take(it1_i).push(cc[it1_i]));
        lem_syms_push(*fbas, cc.take(it1_i), cc[it1_i], a0, b);
    }
@loopdone 1
    proof { assert(consensus_clusters@.take(consensus_clusters@.len() as int) =~= consensus_clusters@); }

@fn find_symmetric_clusters
@spec
    requires wf(*fbas)
    ensures r@.no_duplicates(), forall|q: QuorumSet| #![trigger r@.contains(q)] #![trigger sym_cluster(*fbas, q)] r@.contains(q) <==> sym_cluster(*fbas, q)
@entry
    broadcast use sym_lemmas;

@fn find_symmetric_top_tier
@spec
    requires wf(*fbas)
    ensures match r {
        Some(q) => sym_cluster(*fbas, q) && !has_q(*fbas, all_ids(*fbas).difference(qn(q))) && (forall|p: QuorumSet| sym_cluster(*fbas, p) ==> p == q),
        None => (forall|q: QuorumSet| !#[trigger] sym_cluster(*fbas, q))
            || (exists|p: QuorumSet, q: QuorumSet| p != q && #[trigger] sym_cluster(*fbas, p) && #[trigger] sym_cluster(*fbas, q))
            || (exists|q: QuorumSet| #[trigger] sym_cluster(*fbas, q) && has_q(*fbas, all_ids(*fbas).difference(qn(q)))),
    }
@entry
    broadcast use sym_lemmas;
