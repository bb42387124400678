@type NodeIdDeque

@fn selection_satisfiable
@spec
    requires inr(*fbas, selection@)
    ensures r == sel_sat(*fbas, selection@, available@)

@fn is_minimal_for_quorum
@spec
    requires is_q(*fbas, quorum@), inr(*fbas, quorum@)
    ensures r == min_q(*fbas, quorum@)
@entry
    broadcast use lem_minimal_by_one;
@loop 1
    it1_all == elems(quorum@), tester@ == quorum@, inr(*fbas, quorum@), is_q(*fbas, quorum@),
    forall|i: int| 0 <= i < it1.pos() ==> !has_q(*fbas, quorum@.remove(#[trigger] elems(quorum@)[i])),
@loopbegin 1
    proof { assert(quorum@.contains(elems(quorum@)[it1_i])); }
@loopend 1
    proof { assert(tester@ =~= quorum@); }

@fn minimal_quorums_finder_step
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires search_state(*fbas, old(unprocessed)@, old(selection)@, old(available)@),
        !selection_changed ==> !is_q(*fbas, old(selection)@)
    ensures final(unprocessed)@ == old(unprocessed)@, final(selection)@ == old(selection)@, final(available)@ == old(available)@,
        extended(old(found_quorums)@, final(found_quorums)@, mqs(*fbas, old(selection)@, old(available)@))
@entry
    broadcast use mq_lemmas;

@fn nonintersecting_quorums_finder_step
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires search_state(*fbas, old(unprocessed)@, old(selection)@, old(available)@),
        !selection_changed ==> !is_q(*fbas, old(selection)@),
        inr(*fbas, old(antiselection)@),
        anti_state(old(selection)@.union(old(antiselection)@), old(selection)@, old(available)@, old(antiselection)@),
    ensures match r {
        None => {
            &&& final(unprocessed)@ == old(unprocessed)@ && final(selection)@ == old(selection)@ && final(available)@ == old(available)@ && final(antiselection)@ == old(antiselection)@
            &&& none_splits(*fbas, old(selection)@.union(old(antiselection)@), old(selection)@, old(available)@, picks_left as int)
        },
        Some(p) => found_pair(*fbas, old(selection)@.union(old(antiselection)@), p@[0]@, p@[1]@),
    }
@entry
    broadcast use ns_lemmas;
