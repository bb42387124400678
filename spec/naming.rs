// ---- groupings by the names that nodes carry (ISPs, countries)
pub open spec fn no_commas(s: Seq<char>) -> Seq<char> { s.filter(|c: char| c != ',') }
/// without commas and without one final dot
pub open spec fn norm(s: Seq<char>) -> Seq<char> { let t = no_commas(s); if t.len() > 0 && t.last() == '.' { t.drop_last() } else { t } }
/// the name (isp or country) of a node, normalised
pub open spec fn name_of(x: RawNode, isp: bool) -> Option<Seq<char>> {
    if isp { match x.isp { Some(s) => Some(norm(s@)), None => None } }
    else { match x.geo_data { Some(g) => match g.country_name { Some(s) => Some(norm(s@)), None => None }, None => None } }
}
pub open spec fn is_called(x: RawNode, isp: bool, n: String) -> bool { name_of(x, isp) == Some(n@) }
/// the keys of those of the first `k` nodes that are called `n`, in order
pub open spec fn bucket(v: Seq<RawNode>, isp: bool, n: String, k: int) -> Seq<String>
    decreases k,
{ if k <= 0 { Seq::empty() } else { let p = bucket(v, isp, n, k - 1); if is_called(v[k - 1], isp, n) { p.push(v[k - 1].public_key) } else { p } } }
pub open spec fn bucketed(v: Seq<RawNode>, isp: bool, k: int, m: Map<String, Vec<String>>) -> bool {
    forall|n: String| #![trigger m.dom().contains(n)] (m.dom().contains(n) <==> bucket(v, isp, n, k).len() > 0) && (m.dom().contains(n) ==> m[n]@ == bucket(v, isp, n, k))
}
/// C18: one group per name, ordered by name, holding exactly the keys of the nodes called that
pub open spec fn grouped_by(v: Seq<RawNode>, isp: bool, r: Seq<RawGrouping>) -> bool {
    &&& forall|g: int| 0 <= g < r.len() ==> (#[trigger] r[g]).validators@ == bucket(v, isp, r[g].name, v.len() as int) && r[g].validators@.len() > 0
    &&& forall|g: int, h: int| 0 <= g < h < r.len() ==> str_le((#[trigger] r[g]).name, (#[trigger] r[h]).name) && r[g].name != r[h].name
    &&& forall|k: int| 0 <= k < v.len() && name_of(#[trigger] v[k], isp) is Some ==> has_group(r, name_of(v[k], isp).unwrap())
}
pub open spec fn has_group(r: Seq<RawGrouping>, n: Seq<char>) -> bool { exists|g: int| 0 <= g < r.len() && (#[trigger] r[g]).name@ == n }
/// the node after the first `k` has been put in its group
pub proof fn lem_bucketed_step(v: Seq<RawNode>, isp: bool, k: int, m: Map<String, Vec<String>>, n: Map<String, Vec<String>>, s: String)
    requires 0 <= k < v.len(), bucketed(v, isp, k, m), is_called(v[k], isp, s), n.dom().contains(s), n[s]@ == (if m.dom().contains(s) { m[s]@ } else { Seq::empty() }).push(v[k].public_key),
        forall|x: String| #![trigger n.dom().contains(x)] x != s ==> n.dom().contains(x) == m.dom().contains(x) && n[x] == m[x]
    ensures bucketed(v, isp, k + 1, n)
{
    broadcast use ax_string_ext;
    assert forall|x: String| #![trigger n.dom().contains(x)] (n.dom().contains(x) <==> bucket(v, isp, x, k + 1).len() > 0) && (n.dom().contains(x) ==> n[x]@ == bucket(v, isp, x, k + 1)) by {
        assert(m.dom().contains(x) <==> bucket(v, isp, x, k).len() > 0);
        if m.dom().contains(x) { assert(m[x]@ == bucket(v, isp, x, k)); }
        if x == s { if !m.dom().contains(s) { assert(bucket(v, isp, s, k) =~= Seq::empty()); } } else {
            if is_called(v[k], isp, x) { assert(x@ == s@); assert(str_of(x@) == str_of(s@)); }
        }
    }
}
pub proof fn lem_bucketed_skip(v: Seq<RawNode>, isp: bool, k: int, m: Map<String, Vec<String>>)
    requires 0 <= k < v.len(), bucketed(v, isp, k, m), name_of(v[k], isp) is None
    ensures bucketed(v, isp, k + 1, m)
{
    assert forall|x: String| #![trigger m.dom().contains(x)] (m.dom().contains(x) <==> bucket(v, isp, x, k + 1).len() > 0) && (m.dom().contains(x) ==> m[x]@ == bucket(v, isp, x, k + 1)) by {
        assert(m.dom().contains(x) <==> bucket(v, isp, x, k).len() > 0);
    }
}
pub proof fn lem_bucket_mono(v: Seq<RawNode>, isp: bool, n: String, k: int, l: int)
    requires 0 <= k < l <= v.len(), is_called(v[k], isp, n)
    ensures bucket(v, isp, n, l).len() > 0
    decreases l
{ if l > k + 1 { lem_bucket_mono(v, isp, n, k, l - 1); } }
/// the sorted keys of the map
pub open spec fn keys_of(m: Map<String, Vec<String>>, ks: Seq<&String>) -> bool {
    ks.no_duplicates() && forall|x: String| #![trigger m.dom().contains(x)] m.dom().contains(x) <==> ks.contains(&x)
}
pub proof fn lem_grouped_by(v: Seq<RawNode>, isp: bool, m: Map<String, Vec<String>>, ks: Seq<&String>, r: Seq<RawGrouping>)
    requires bucketed(v, isp, v.len() as int, m), keys_of(m, ks), sorted(ks), r.len() == ks.len(),
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).name == *ks[i] && r[i].validators@ == m[*ks[i]]@
    ensures grouped_by(v, isp, r)
{
    broadcast use ax_string_ext;
    assert forall|g: int| 0 <= g < r.len() implies (#[trigger] r[g]).validators@ == bucket(v, isp, r[g].name, v.len() as int) && r[g].validators@.len() > 0 by {
        assert(ks.contains(&*ks[g]));
        assert(m.dom().contains(*ks[g]));
    }
    assert forall|g: int, h: int| 0 <= g < h < r.len() implies str_le((#[trigger] r[g]).name, (#[trigger] r[h]).name) && r[g].name != r[h].name by {
        assert(ks[g].vle(&ks[h])); assert(ks[g] != ks[h]);
    }
    assert forall|k: int| 0 <= k < v.len() && name_of(#[trigger] v[k], isp) is Some implies has_group(r, name_of(v[k], isp).unwrap()) by {
        // some string has these characters: the name that was normalised
        let n = name_of(v[k], isp).unwrap();
        let s = str_of(n);
        ax_str_of(n);
        lem_bucket_mono(v, isp, s, k, v.len() as int);
        assert(m.dom().contains(s));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == &s;
        assert(r[i].name@ == n);
    }
}
impl<'a> VOrd for &'a String { open spec fn vle(&self, o: &Self) -> bool { str_le(**self, **o) } }
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn keys(&self) -> (r: It<&String>)
        ensures r@.no_duplicates(), forall|x: String| #![trigger self@.dom().contains(x)] self@.dom().contains(x) <==> r@.contains(&x),
            r@ == r.seq(), r.pos() == 0,
    { unimplemented!() }
}
pub trait VChars: View<V = Seq<char>> {
    fn v_retain<F: Fn(char) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
        ensures final(self)@ == old(self)@.filter(|x: char| foutb(f, x)),
            forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((old(self)@[i],), foutb(f, #[trigger] old(self)@[i]));
    fn v_ends_with(&self, c: char) -> (r: bool) ensures r == (self@.len() > 0 && self@.last() == c);
}
impl VChars for String {
    #[verifier::external_body]
    fn v_retain<F: Fn(char) -> bool>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn v_ends_with(&self, c: char) -> (r: bool) { unimplemented!() }
}
pub broadcast proof fn lem_no_commas(s: Seq<char>, p: spec_fn(char) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == (s[i] != ',')
    ensures #[trigger] s.filter(p) == no_commas(s)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies p(#[trigger] d[i]) == (d[i] != ',') by { assert(d[i] == s[i]); }
        lem_no_commas(d, p);
        assert(p(s[s.len() - 1]) == (s[s.len() - 1] != ','));
    }
}
pub proof fn lem_bucketed_node(v: Seq<RawNode>, isp: bool, k: int, m: Map<String, Vec<String>>, n: Map<String, Vec<String>>)
    requires 0 <= k < v.len(), bucketed(v, isp, k, m),
        match name_of(v[k], isp) {
            None => n == m,
            Some(t) => { let s = str_of(t);
                n.dom().contains(s) && n[s]@ == (if m.dom().contains(s) { m[s]@ } else { Seq::empty() }).push(v[k].public_key)
                && forall|x: String| #![trigger n.dom().contains(x)] x != s ==> n.dom().contains(x) == m.dom().contains(x) && n[x] == m[x] }
        }
    ensures bucketed(v, isp, k + 1, n)
{
    match name_of(v[k], isp) {
        None => { lem_bucketed_skip(v, isp, k, m); }
        Some(t) => { ax_str_of(t); lem_bucketed_step(v, isp, k, m, n, str_of(t)); }
    }
}
// ---- from keys to node numbers
pub open spec fn read_g(w: RawGrouping, pk: Map<String, usize>, g: Grouping) -> bool { g.name == w.name && g.validators@ == known_keys(w.validators@, pk) }
pub open spec fn read_gs(w: Seq<RawGrouping>, pk: Map<String, usize>, gs: Seq<Grouping>) -> bool { gs.len() == w.len() && forall|i: int| #![trigger gs[i]] #![trigger w[i]] 0 <= i < w.len() ==> read_g(w[i], pk, gs[i]) }
/// no node is listed in two of the groups
pub open spec fn apart(w: Seq<RawGrouping>, pk: Map<String, usize>) -> bool { forall|gs: Seq<Grouping>| #[trigger] read_gs(w, pk, gs) ==> no_overlap(gs) }
/// C18 for the nodes of an FBAS
pub open spec fn named_groups(v: Seq<RawNode>, isp: bool, pk: Map<String, usize>, gs: Seq<Grouping>) -> bool { exists|w: Seq<RawGrouping>| grouped_by(v, isp, w) && #[trigger] read_gs(w, pk, gs) }
pub proof fn lem_known_in(v: Seq<String>, pk: Map<String, usize>, x: usize) -> (k: String)
    requires known_keys(v, pk).contains(x)
    ensures v.contains(k), pk.dom().contains(k), pk[k] == x
    decreases v.len()
{
    let d = known_keys(v.drop_last(), pk);
    let n = known_keys(v, pk);
    let i = choose|i: int| 0 <= i < n.len() && n[i] == x;
    if v.len() == 0 { arbitrary() }
    else if i < d.len() { assert(d[i] == x); assert(d.contains(x)); let k = lem_known_in(v.drop_last(), pk, x); let j = choose|j: int| 0 <= j < v.len() - 1 && v.drop_last()[j] == k; assert(v[j] == k); k }
    else { assert(v[v.len() - 1] == v.last()); v.last() }
}
pub broadcast proof fn lem_groups_in(f: Fbas, w: Seq<RawGrouping>, gs: Seq<Grouping>)
    requires #[trigger] keyed(f), #[trigger] read_gs(w, f.pk_to_id@, gs)
    ensures groups_in(gs, f.nodes@.len() as int)
{
    assert forall|a: int, x: usize| 0 <= a < gs.len() && #[trigger] listed(gs[a], x) implies x < f.nodes@.len() by { let k = lem_known_in(w[a].validators@, f.pk_to_id@, x); }
}
pub proof fn lem_in_bucket(v: Seq<RawNode>, isp: bool, n: String, k: int, s: String) -> (i: int)
    requires bucket(v, isp, n, k).contains(s), k <= v.len()
    ensures 0 <= i < k, v[i].public_key == s, is_called(v[i], isp, n)
    decreases k
{
    let b = bucket(v, isp, n, k);
    let p = bucket(v, isp, n, k - 1);
    let j = choose|j: int| 0 <= j < b.len() && b[j] == s;
    if k <= 0 { 0 } else if j < p.len() { assert(p[j] == s); assert(p.contains(s)); lem_in_bucket(v, isp, n, k - 1, s) } else { k - 1 }
}
pub broadcast proof fn lem_apart(f: Fbas, v: Seq<RawNode>, isp: bool, w: Seq<RawGrouping>)
    requires #[trigger] grouped_by(v, isp, w), raw_keys(v), #[trigger] keyed(f)
    ensures apart(w, f.pk_to_id@)
{
    broadcast use ax_string_ext;
    let pk = f.pk_to_id@;
    assert forall|gs: Seq<Grouping>| #[trigger] read_gs(w, pk, gs) implies no_overlap(gs) by {
        assert forall|a: int, b: int, x: usize| 0 <= a < gs.len() && 0 <= b < gs.len() && #[trigger] listed(gs[a], x) && #[trigger] listed(gs[b], x) implies a == b by {
            let k = lem_known_in(w[a].validators@, pk, x);
            let l = lem_known_in(w[b].validators@, pk, x);
            assert(k == l);
            let i = lem_in_bucket(v, isp, w[a].name, v.len() as int, k);
            let j = lem_in_bucket(v, isp, w[b].name, v.len() as int, k);
            assert(i == j) by { if i < j { assert(v[i].public_key != v[j].public_key); } else if j < i { assert(v[j].public_key != v[i].public_key); } }
            assert(str_of(w[a].name@) == str_of(w[b].name@));
            assert(w[a].name == w[b].name);
            if a < b { assert(w[a].name != w[b].name); } else if b < a { assert(w[b].name != w[a].name); }
        }
    }
}
/// writing: keys instead of numbers
pub open spec fn raw_g(g: Grouping, f: Fbas, w: RawGrouping) -> bool {
    w.name == g.name && w.validators@.len() == g.validators@.len() && forall|i: int| 0 <= i < g.validators@.len() ==> #[trigger] w.validators@[i] == f.nodes@[g.validators@[i] as int].public_key
}
pub open spec fn raw_gs(g: Groupings, w: RawGroupings) -> bool { w.0@.len() == g.groupings@.len() && forall|i: int| 0 <= i < g.groupings@.len() ==> raw_g(g.groupings@[i], *g.fbas, #[trigger] w.0@[i]) }
pub open spec fn nodes_in(s: Seq<char>) -> Option<Vec<RawNode>> { serde_json::json_of::<Vec<RawNode>>(s) }
pub open spec fn groups_in_json(s: Seq<char>) -> Option<RawGroupings> { serde_json::json_of::<RawGroupings>(s) }
