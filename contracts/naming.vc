//@ groupings read by the names that nodes carry
@type RawGrouping
@type RawGroupings

@fn remove_special_chars_from_grouping_name
@spec
    ensures r@ == norm(name@)
@entry
    broadcast use lem_no_commas;

@fn RawGroupings::isps_from_raw_nodes
@spec
    ensures grouped_by(raw_nodes@, true, r.0@)
@entry
    broadcast use lem_rearranged;
@loop 1
    it1_all == refs(raw_nodes@), bucketed(raw_nodes@, true, it1.pos(), isp_to_validators@),
@loopbegin 1
    broadcast use ax_string_ext, ax_str_of;
    let ghost m = isp_to_validators@;
@loopend 1
    proof { lem_bucketed_node(raw_nodes@, true, it1_i, m, isp_to_validators@); }
@loop 2
    keys_of(isp_to_validators@, it2_all), grouping_names@ =~= it2_all.take(it2.pos()),
@loopdone 2
    proof { assert(it2_all.take(it2_all.len() as int) =~= it2_all); }
@before for name in grouping_names
    let ghost ks = grouping_names@;
@loop 3
    it3_all == ks, keys_of(isp_to_validators@, ks), raw_groupings@.len() == it3.pos(), forall|i: int| 0 <= i < raw_groupings@.len() ==> (#[trigger] raw_groupings@[i]).name == *ks[i] && raw_groupings@[i].validators@ == isp_to_validators@[*ks[i]]@,
@loopbegin 3
    proof { assert(ks.contains(&*ks[it3_i])); }
@loopdone 3
    proof { lem_grouped_by(raw_nodes@, true, isp_to_validators@, ks, raw_groupings@); }

@fn RawGroupings::countries_from_raw_nodes
@spec
    ensures grouped_by(raw_nodes@, false, r.0@)
@entry
    broadcast use lem_rearranged;
@loop 1
    it1_all == refs(raw_nodes@), bucketed(raw_nodes@, false, it1.pos(), country_to_validators@),
@loopbegin 1
    broadcast use ax_string_ext, ax_str_of;
    let ghost m = country_to_validators@;
@loopend 1
    proof { lem_bucketed_node(raw_nodes@, false, it1_i, m, country_to_validators@); }
@loop 2
    keys_of(country_to_validators@, it2_all), grouping_names@ =~= it2_all.take(it2.pos()),
@loopdone 2
    proof { assert(it2_all.take(it2_all.len() as int) =~= it2_all); }
@before for name in grouping_names
    let ghost ks = grouping_names@;
@loop 3
    it3_all == ks, keys_of(country_to_validators@, ks), raw_groupings@.len() == it3.pos(), forall|i: int| 0 <= i < raw_groupings@.len() ==> (#[trigger] raw_groupings@[i]).name == *ks[i] && raw_groupings@[i].validators@ == country_to_validators@[*ks[i]]@,
@loopbegin 3
    proof { assert(ks.contains(&*ks[it3_i])); }
@loopdone 3
    proof { lem_grouped_by(raw_nodes@, false, country_to_validators@, ks, raw_groupings@); }

@fn Grouping::from_raw
@spec
    ensures read_g(raw_grouping, pk_to_id@, r)
@entry
    broadcast use lem_looked_up;
@closure 1 : Option<&usize>
    requires true, ensures match vr { Some(y) => pk_to_id@.dom().contains($1) && *y == pk_to_id@[$1], None => !pk_to_id@.dom().contains($1) },

@fn Grouping::to_raw
@spec
    requires forall|i: int| 0 <= i < self.validators@.len() ==> #[trigger] self.validators@[i] < fbas.nodes@.len()
    ensures raw_g(*self, *fbas, r)
@closure 1 : String
    requires *$1 < fbas.nodes@.len(), ensures vr == fbas.nodes@[*$1 as int].public_key,

@fn Groupings::from_raw
@spec
    requires keyed(*fbas), apart(raw_groupings.0@, fbas.pk_to_id@)
    ensures grp_ok(r), r.fbas == fbas, r.merged_ids@.len() == fbas.nodes@.len(), read_gs(raw_groupings.0@, fbas.pk_to_id@, r.groupings@)
@entry
    broadcast use lem_groups_in;
@closure 1 : Grouping
    requires true, ensures read_g($1, fbas.pk_to_id@, vr),
@before Groupings::new
    proof { assert(read_gs(raw_groupings.0@, fbas.pk_to_id@, groupings@)); }

@fn Groupings::to_raw
@spec
    requires groups_in(self.groupings@, self.fbas.nodes@.len() as int)
    ensures raw_gs(*self, r)
@closure 1 : RawGrouping
    requires forall|i: int| 0 <= i < $1.validators@.len() ==> #[trigger] $1.validators@[i] < self.fbas.nodes@.len(), ensures raw_g(*$1, *self.fbas, vr),
@entry
    proof { assert forall|a: int, i: int| 0 <= a < self.groupings@.len() && 0 <= i < self.groupings@[a].validators@.len() implies #[trigger] self.groupings@[a].validators@[i] < self.fbas.nodes@.len() by { assert(listed(self.groupings@[a], self.groupings@[a].validators@[i])); } }

@fn Groupings::from_json_str
@spec
    requires keyed(*fbas), groups_in_json(json@) is Some, apart(groups_in_json(json@).unwrap().0@, fbas.pk_to_id@)
    ensures grp_ok(r), r.fbas == fbas, r.merged_ids@.len() == fbas.nodes@.len(), read_gs(groups_in_json(json@).unwrap().0@, fbas.pk_to_id@, r.groupings@)

@fn Groupings::organizations_from_json_str
@spec
    requires keyed(*fbas), groups_in_json(orgs_json@) is Some, apart(groups_in_json(orgs_json@).unwrap().0@, fbas.pk_to_id@)
    ensures grp_ok(r), r.fbas == fbas, r.merged_ids@.len() == fbas.nodes@.len(), read_gs(groups_in_json(orgs_json@).unwrap().0@, fbas.pk_to_id@, r.groupings@)

@fn Groupings::isps_from_json_str
@spec
    requires keyed(*fbas), nodes_in(nodes_json@) is Some, raw_keys(nodes_in(nodes_json@).unwrap()@)
    ensures grp_ok(r), r.fbas == fbas, r.merged_ids@.len() == fbas.nodes@.len(), named_groups(nodes_in(nodes_json@).unwrap()@, true, fbas.pk_to_id@, r.groupings@)
@entry
    broadcast use lem_apart;

@fn Groupings::countries_from_json_str
@spec
    requires keyed(*fbas), nodes_in(nodes_json@) is Some, raw_keys(nodes_in(nodes_json@).unwrap()@)
    ensures grp_ok(r), r.fbas == fbas, r.merged_ids@.len() == fbas.nodes@.len(), named_groups(nodes_in(nodes_json@).unwrap()@, false, fbas.pk_to_id@, r.groupings@)
@entry
    broadcast use lem_apart;

@fn <Serialize for Groupings<'fbas>>::serialize
@spec
    requires groups_in(self.groupings@, self.fbas.nodes@.len() as int)
    ensures exists|w: RawGroupings| raw_gs(*self, w) && r == #[trigger] serialized(w, serializer)
