//@ reading and writing
@type RawFbas
@type RawNode
@type RawQuorumSet
@type RawGeoData

@fn QuorumSet::from_raw
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures read_q(raw_quorum_set, pk_to_id@, r)
@entry
    broadcast use rawio_lemmas;
@closure 1 : Option<&usize>
    requires true, ensures match vr { Some(y) => pk_to_id@.dom().contains($1) && *y == pk_to_id@[$1], None => !pk_to_id@.dom().contains($1) },
@closure 2 : QuorumSet
    requires true, ensures read_q($1, pk_to_id@, vr),

@fn QuorumSet::to_raw
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures raw_q(*self, *fbas, r)
@closure 1 : String
    requires true, ensures *$1 < fbas.nodes@.len() ==> vr == fbas.nodes@[*$1 as int].public_key,
@closure 2 : RawQuorumSet
    requires true, ensures raw_q(*$1, *fbas, vr),

@fn Node::from_raw
@spec
    ensures read_n(raw_node, pk_to_id@, r)

@fn Node::to_raw
@spec
    ensures raw_n(*self, *fbas, r)

@fn Fbas::from_raw
@spec
    requires raw_keys(raw_fbas.0@)
    ensures read_f(raw_fbas, r)
@entry
    broadcast use rawio_lemmas;
@closure 1 : (String, usize)
    requires true, ensures vr.0 == $1.1.public_key, vr.1 == $1.0,
@closure 2 : Node
    requires true, ensures read_n($1, pk_to_id@, vr),

@fn Fbas::to_raw
@spec
    ensures raw_f(*self, r)
@closure 1 : RawNode
    requires true, ensures raw_n(*$1, *self, vr),

@fn Fbas::from_json_str
@spec
    requires serde_json::json_of::<Fbas>(json@) is Some
    ensures r == serde_json::json_of::<Fbas>(json@).unwrap()

@fn Fbas::to_json_string
@spec
    ensures r@ == serde_json::text(self)

@fn Fbas::to_json_string_pretty
@spec
    ensures r@ == serde_json::text_lines(self)

@fn <Serialize for Fbas>::serialize
@spec
    ensures exists|w: RawFbas| raw_f(*self, w) && r == #[trigger] serialized(w, serializer)

@fn <Deserialize<'de> for Fbas>::deserialize
@spec
    requires match deserialized::<RawFbas, D>(deserializer) { Ok(w) => raw_keys(w.0@), Err(_) => true }
    ensures match deserialized::<RawFbas, D>(deserializer) { Ok(w) => r is Ok && read_f(w, r->Ok_0), Err(e) => r == Err::<Fbas, D::Error>(e) }
