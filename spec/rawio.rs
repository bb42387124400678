// ---- reading and writing FBASs (the serde step between text and the raw structures is trusted)
pub trait VTryInto<R>: Sized {
    spec fn try_ens(self, r: Option<R>) -> bool;
    fn v_try_into(self) -> (r: VRes<R>) ensures self.try_ens(r.v());
}
/// outcome of a conversion between integer types
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct VRes<R> { x: R }
impl<R> VRes<R> {
    pub uninterp spec fn v(&self) -> Option<R>;
    #[verifier::external_body]
    pub fn unwrap_or(self, d: R) -> (r: R) ensures r == match self.v() { Some(x) => x, None => d } { unimplemented!() }
    #[verifier::external_body]
    pub fn expect(self, m: &str) -> (r: R) requires self.v() is Some ensures Some(r) == self.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn unwrap(self) -> (r: R) requires self.v() is Some ensures Some(r) == self.v() { unimplemented!() }
}
impl VTryInto<usize> for u64 {
    open spec fn try_ens(self, r: Option<usize>) -> bool { r == Some(self as usize) }
    #[verifier::external_body]
    fn v_try_into(self) -> VRes<usize> { unimplemented!() }
}
impl VTryInto<u64> for usize {
    open spec fn try_ens(self, r: Option<u64>) -> bool { r == Some(self as u64) }
    #[verifier::external_body]
    fn v_try_into(self) -> VRes<u64> { unimplemented!() }
}
/// the same entries, possibly in another order
pub open spec fn rearr<T>(s: Seq<T>, r: Seq<T>) -> bool { exists|p: spec_fn(int) -> int| perm_by(s, r, p) }
pub broadcast proof fn b_rearr<T>(s: Seq<T>, r: Seq<T>, p: spec_fn(int) -> int)
    requires #[trigger] perm_by(s, r, p)
    ensures rearr(s, r)
{}
/// the ids of those of the keys `v` that are nodes
pub open spec fn known_keys(v: Seq<String>, pk: Map<String, usize>) -> Seq<usize>
    decreases v.len(),
{ if v.len() == 0 { Seq::empty() } else { let d = known_keys(v.drop_last(), pk); if pk.dom().contains(v.last()) { d.push(pk[v.last()]) } else { d } } }
/// C15: `q` is `w` with node ids instead of keys; unknown keys dropped, order of members free, everything else kept
pub open spec fn read_q(w: RawQuorumSet, pk: Map<String, usize>, q: QuorumSet) -> bool
    decreases w,
{
    &&& q.threshold == w.threshold
    &&& rearr(known_keys(w.validators@, pk), q.validators@) && sorted(q.validators@)
    &&& exists|m: Seq<QuorumSet>| #[trigger] rearr(m, q.inner_quorum_sets@) && m.len() == w.inner_quorum_sets@.len() && forall|i: int| #![trigger m[i]] #![trigger w.inner_quorum_sets@[i]] 0 <= i < w.inner_quorum_sets@.len() ==> read_q(w.inner_quorum_sets@[i], pk, m[i])
}
pub open spec fn read_i(v: Seq<RawQuorumSet>, pk: Map<String, usize>, m: Seq<QuorumSet>) -> bool { m.len() == v.len() && forall|i: int| #![trigger m[i]] #![trigger v[i]] 0 <= i < v.len() ==> read_q(v[i], pk, m[i]) }
pub broadcast proof fn lem_read_q(w: RawQuorumSet, pk: Map<String, usize>, q: QuorumSet, m: Seq<QuorumSet>, v: Seq<QuorumSet>)
    requires q.threshold == w.threshold, rearr(known_keys(w.validators@, pk), q.validators@), sorted(q.validators@), #[trigger] sort_of(m, v), v == q.inner_quorum_sets@, read_i(w.inner_quorum_sets@, pk, m)
    ensures #[trigger] read_q(w, pk, q)
{
    assert(rearr(m, q.inner_quorum_sets@));
    assert forall|i: int| #![trigger m[i]] #![trigger w.inner_quorum_sets@[i]] 0 <= i < w.inner_quorum_sets@.len() implies read_q(w.inner_quorum_sets@[i], pk, m[i]) by {}
}
pub open spec fn looked_up(v: Seq<String>, pk: Map<String, usize>, o: Seq<Option<&usize>>) -> bool {
    o.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> match #[trigger] o[i] { Some(x) => pk.dom().contains(v[i]) && *x == pk[v[i]], None => !pk.dom().contains(v[i]) }
}
pub broadcast proof fn lem_looked_up(v: Seq<String>, pk: Map<String, usize>, o: Seq<Option<&usize>>)
    requires looked_up(v, pk, o)
    ensures #![trigger derefs(somes(o)), known_keys(v, pk)] derefs(somes(o)) == known_keys(v, pk)
    decreases v.len()
{
    if v.len() > 0 {
        let (d, e) = (v.drop_last(), o.drop_last());
        assert forall|i: int| 0 <= i < d.len() implies match #[trigger] e[i] { Some(x) => pk.dom().contains(d[i]) && *x == pk[d[i]], None => !pk.dom().contains(d[i]) } by { assert(o[i] == e[i] && v[i] == d[i]); }
        lem_looked_up(d, pk, e);
        assert(o[o.len() - 1] == o.last());
        match o.last() { Some(x) => { assert(derefs(somes(o)) =~= derefs(somes(e)).push(*x)); } None => {} }
    } else { assert(derefs(somes(o)) =~= known_keys(v, pk)); }
}
/// C15: `w` is `q` with keys instead of ids, member by member
pub open spec fn raw_q(q: QuorumSet, f: Fbas, w: RawQuorumSet) -> bool
    decreases q,
{
    &&& w.threshold == q.threshold
    &&& w.validators@.len() == q.validators@.len() && forall|i: int| 0 <= i < q.validators@.len() && q.validators@[i] < f.nodes@.len() ==> #[trigger] w.validators@[i] == f.nodes@[q.validators@[i] as int].public_key
    &&& w.inner_quorum_sets@.len() == q.inner_quorum_sets@.len() && forall|i: int| #![trigger q.inner_quorum_sets@[i]] #![trigger w.inner_quorum_sets@[i]] 0 <= i < q.inner_quorum_sets@.len() ==> raw_q(q.inner_quorum_sets@[i], f, w.inner_quorum_sets@[i])
}
pub open spec fn read_n(w: RawNode, pk: Map<String, usize>, n: Node) -> bool { n.public_key == w.public_key && read_q(w.quorum_set, pk, n.quorum_set) }
pub open spec fn raw_n(n: Node, f: Fbas, w: RawNode) -> bool { w.public_key == n.public_key && raw_q(n.quorum_set, f, w.quorum_set) }
pub open spec fn raw_keys(v: Seq<RawNode>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).public_key != (#[trigger] v[j]).public_key }
/// one node per entry, in the same order
pub open spec fn read_f(w: RawFbas, f: Fbas) -> bool {
    &&& keyed(f) && f.nodes@.len() == w.0@.len()
    &&& forall|i: int| 0 <= i < w.0@.len() ==> read_n(#[trigger] w.0@[i], f.pk_to_id@, f.nodes@[i])
}
pub open spec fn raw_f(f: Fbas, w: RawFbas) -> bool {
    w.0@.len() == f.nodes@.len() && forall|i: int| 0 <= i < f.nodes@.len() ==> raw_n(#[trigger] f.nodes@[i], f, w.0@[i])
}
pub open spec fn raw_pairs(v: Seq<RawNode>, s: Seq<(String, usize)>) -> bool { s.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i]).0 == v[i].public_key && s[i].1 == i }
pub open spec fn raw_key_map(v: Seq<RawNode>, m: Map<String, usize>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> m.dom().contains(#[trigger] v[i].public_key) && m[v[i].public_key] == i
    &&& forall|k: String| #[trigger] m.dom().contains(k) ==> m[k] < v.len() && v[m[k] as int].public_key == k
}
pub broadcast proof fn lem_raw_pairs(v: Seq<RawNode>, s: Seq<(String, usize)>)
    requires raw_pairs(v, s), raw_keys(v)
    ensures #![trigger map_of_pairs(s), raw_keys(v)] raw_key_map(v, map_of_pairs(s))
    decreases v.len()
{
    if v.len() > 0 {
        let (d, e) = (v.drop_last(), s.drop_last());
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] e[i]).0 == d[i].public_key && e[i].1 == i by { assert(s[i].0 == v[i].public_key); }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).public_key != (#[trigger] d[j]).public_key by { assert(v[i].public_key != v[j].public_key); }
        lem_raw_pairs(d, e);
        let m = map_of_pairs(s);
        let n = v.len() - 1;
        assert(s[n].0 == v[n].public_key && s[n].1 == n);
        assert forall|i: int| 0 <= i < v.len() implies m.dom().contains(#[trigger] v[i].public_key) && m[v[i].public_key] == i by { if i < n { assert(d[i] == v[i]); assert(v[i].public_key != v[n].public_key); } }
        assert forall|k: String| #[trigger] m.dom().contains(k) implies m[k] < v.len() && v[m[k] as int].public_key == k by { if k != s[n].0 { assert(d[map_of_pairs(e)[k] as int].public_key == k); } }
    }
}
// ---- there and back again
/// the same quorum set up to the order of members
pub open spec fn like(q: QuorumSet, g: QuorumSet) -> bool
    decreases q,
{
    &&& g.threshold == q.threshold && rearr(q.validators@, g.validators@)
    &&& exists|m: Seq<QuorumSet>| #[trigger] rearr(m, g.inner_quorum_sets@) && m.len() == q.inner_quorum_sets@.len() && forall|i: int| #![trigger m[i]] #![trigger q.inner_quorum_sets@[i]] 0 <= i < q.inner_quorum_sets@.len() ==> like(q.inner_quorum_sets@[i], m[i])
}
pub open spec fn members_in(q: QuorumSet, n: int) -> bool { forall|x: usize| #[trigger] mentions(q, x) ==> x < n }
pub proof fn lem_known_all(v: Seq<usize>, f: Fbas, w: Seq<String>, pk: Map<String, usize>)
    requires w.len() == v.len(), forall|i: int| #![trigger v[i]] #![trigger w[i]] 0 <= i < v.len() ==> v[i] < f.nodes@.len() && w[i] == f.nodes@[v[i] as int].public_key, keys_to(f, pk)
    ensures known_keys(w, pk) == v
    decreases v.len()
{
    if v.len() > 0 {
        let (d, e) = (v.drop_last(), w.drop_last());
        assert forall|i: int| #![trigger d[i]] #![trigger e[i]] 0 <= i < d.len() implies d[i] < f.nodes@.len() && e[i] == f.nodes@[d[i] as int].public_key by { assert(w[i] == e[i] && v[i] == d[i]); }
        assert(keys_to(f, pk));
        lem_known_all(d, f, e, pk);
        assert(w[v.len() - 1] == w.last());
        assert(known_keys(w, pk) =~= v);
    } else { assert(known_keys(w, pk) =~= v); }
}
pub open spec fn keys_to(f: Fbas, pk: Map<String, usize>) -> bool { forall|i: int| 0 <= i < f.nodes@.len() ==> pk.dom().contains(#[trigger] f.nodes@[i].public_key) && pk[f.nodes@[i].public_key] == i }
/// C15: writing and reading back
pub proof fn lem_write_read(q: QuorumSet, f: Fbas, w: RawQuorumSet, pk: Map<String, usize>, g: QuorumSet)
    requires keys_to(f, pk), raw_q(q, f, w), read_q(w, pk, g), members_in(q, f.nodes@.len() as int)
    ensures like(q, g)
    decreases q
{
    let n = f.nodes@.len() as int;
    assert forall|i: int| 0 <= i < q.validators@.len() implies #[trigger] q.validators@[i] < n by { lem_mentions(q, q.validators@[i]); assert(q.validators@.contains(q.validators@[i])); }
    assert forall|i: int| 0 <= i < q.validators@.len() implies q.validators@[i] < n && #[trigger] w.validators@[i] == f.nodes@[q.validators@[i] as int].public_key by {}
    lem_known_all(q.validators@, f, w.validators@, pk);
    let m = choose|m: Seq<QuorumSet>| #[trigger] rearr(m, g.inner_quorum_sets@) && m.len() == w.inner_quorum_sets@.len() && forall|i: int| #![trigger m[i]] #![trigger w.inner_quorum_sets@[i]] 0 <= i < w.inner_quorum_sets@.len() ==> read_q(w.inner_quorum_sets@[i], pk, m[i]);
    assert forall|i: int| #![trigger m[i]] #![trigger q.inner_quorum_sets@[i]] 0 <= i < q.inner_quorum_sets@.len() implies like(q.inner_quorum_sets@[i], m[i]) by {
        let c = q.inner_quorum_sets@[i];
        assert(raw_q(c, f, w.inner_quorum_sets@[i]));
        assert(read_q(w.inner_quorum_sets@[i], pk, m[i]));
        assert(members_in(c, n)) by { assert forall|x: usize| #[trigger] mentions(c, x) implies x < n by { lem_mentions(q, x); assert(mentions(q, x)); } }
        lem_write_read(c, f, w.inner_quorum_sets@[i], pk, m[i]);
    }
}
pub proof fn lem_write_read_f(f: Fbas, w: RawFbas, g: Fbas)
    requires keyed(f), raw_f(f, w), read_f(w, g), forall|i: int| 0 <= i < f.nodes@.len() ==> members_in((#[trigger] f.nodes@[i]).quorum_set, f.nodes@.len() as int)
    ensures g.nodes@.len() == f.nodes@.len(), forall|i: int| 0 <= i < f.nodes@.len() ==> #[trigger] g.nodes@[i].public_key == f.nodes@[i].public_key && like(f.nodes@[i].quorum_set, g.nodes@[i].quorum_set)
{
    assert forall|i: int| 0 <= i < f.nodes@.len() implies g.pk_to_id@.dom().contains(#[trigger] f.nodes@[i].public_key) && g.pk_to_id@[f.nodes@[i].public_key] == i by { assert(raw_n(f.nodes@[i], f, w.0@[i])); assert(read_n(w.0@[i], g.pk_to_id@, g.nodes@[i])); }
    assert forall|i: int| 0 <= i < f.nodes@.len() implies #[trigger] g.nodes@[i].public_key == f.nodes@[i].public_key && like(f.nodes@[i].quorum_set, g.nodes@[i].quorum_set) by {
        assert(raw_n(f.nodes@[i], f, w.0@[i])); assert(read_n(w.0@[i], g.pk_to_id@, g.nodes@[i]));
        assert(members_in(f.nodes@[i].quorum_set, f.nodes@.len() as int));
        lem_write_read(f.nodes@[i].quorum_set, f, w.0@[i].quorum_set, g.pk_to_id@, g.nodes@[i].quorum_set);
    }
}
pub broadcast group rawio_lemmas { b_rearr, lem_read_q, lem_looked_up, lem_raw_pairs }
