//@ groupings carried over to a shrunken FBAS
@fn Grouping::shrunken
@spec
    ensures carried(*grouping, r, shrink_map@)
@loop 1
    it1_all == refs(grouping.validators@), validators@ == kept(grouping.validators@.take(it1.pos()), shrink_map@),
@loopbegin 1
    proof { assert(grouping.validators@.take(it1_i + 1).drop_last() =~= grouping.validators@.take(it1_i)); }
@before validators.sort_unstable
    proof { assert(grouping.validators@.take(grouping.validators@.len() as int) =~= grouping.validators@); }

@fn Groupings::shrunken
@spec
    requires no_overlap(orgs.groupings@), sm_ok(*shrink_manager), shrunken_fbas.nodes@.len() == shrink_manager.unshrink_table@.len(),
    ensures grp_ok(r), r.fbas == shrunken_fbas, r.merged_ids@.len() == shrunken_fbas.nodes@.len(), all_carried(orgs.groupings@, r.groupings@, shrink_manager.shrink_map@)
@closure 1 : Grouping
    requires true, ensures carried(*$1, vr, shrink_manager.shrink_map@),
@before Self::new
    proof { lem_all_carried_v(orgs.groupings, groupings, *shrink_manager); }
