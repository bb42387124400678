// ---- compact node numbers
impl VOrd for QuorumSet { uninterp spec fn vle(&self, o: &Self) -> bool; }
/// `m` gives the kept ids `t` their positions in `t`
pub open spec fn idmap(m: Map<usize, usize>, t: Seq<usize>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> m.dom().contains(#[trigger] t[i]) && m[t[i]] == i
    &&& forall|x: usize| #[trigger] m.dom().contains(x) ==> m[x] < t.len() && t[m[x] as int] == x
}
pub open spec fn sm_ok(m: ShrinkManager) -> bool { idmap(m.shrink_map@, m.unshrink_table@) }
/// exactly `ids` are kept, in ascending order
pub open spec fn keeps(m: ShrinkManager, ids: Set<usize>) -> bool { sm_ok(m) && m.unshrink_table@ == elems(ids) }
pub open spec fn inj(m: Map<usize, usize>) -> bool { forall|x: usize, y: usize| #[trigger] m.dom().contains(x) && #[trigger] m.dom().contains(y) && m[x] == m[y] ==> x == y }
/// every id of `s` has a compact number
pub open spec fn known(m: Map<usize, usize>, s: Set<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) ==> m.dom().contains(x) }
/// every compact number in `s` stands for a node
pub open spec fn within(t: Seq<usize>, s: Set<usize>) -> bool { forall|i: usize| #[trigger] s.contains(i) ==> i < t.len() }
pub open spec fn to_new(m: Map<usize, usize>, s: Set<usize>) -> Set<usize> { s.map(|x: usize| m[x]) }
pub open spec fn to_old(t: Seq<usize>, s: Set<usize>) -> Set<usize> { s.map(|i: usize| t[i as int]) }
pub proof fn lem_to_new(m: Map<usize, usize>, s: Set<usize>, y: usize)
    ensures to_new(m, s).contains(y) <==> exists|x: usize| #[trigger] s.contains(x) && m[x] == y
{}
pub proof fn lem_to_old(t: Seq<usize>, s: Set<usize>, y: usize)
    ensures to_old(t, s).contains(y) <==> exists|x: usize| #[trigger] s.contains(x) && t[x as int] == y
{}
/// C10: there and back again
pub proof fn lem_round_trip(m: ShrinkManager, s: Set<usize>)
    requires sm_ok(m), known(m.shrink_map@, s)
    ensures within(m.unshrink_table@, to_new(m.shrink_map@, s)), to_old(m.unshrink_table@, to_new(m.shrink_map@, s)) == s
{
    let (f, t) = (m.shrink_map@, m.unshrink_table@);
    let n = to_new(f, s);
    assert forall|y: usize| to_old(t, n).contains(y) <==> s.contains(y) by {
        lem_to_old(t, n, y);
        if s.contains(y) { lem_to_new(f, s, f[y]); assert(n.contains(f[y])); }
        if exists|i: usize| #[trigger] n.contains(i) && t[i as int] == y { let i = choose|i: usize| #[trigger] n.contains(i) && t[i as int] == y; lem_to_new(f, s, i); }
    }
    assert(to_old(t, n) =~= s);
}
pub proof fn lem_round_trip2(m: ShrinkManager, s: Set<usize>)
    requires sm_ok(m), within(m.unshrink_table@, s)
    ensures known(m.shrink_map@, to_old(m.unshrink_table@, s)), to_new(m.shrink_map@, to_old(m.unshrink_table@, s)) == s
{
    let (f, t) = (m.shrink_map@, m.unshrink_table@);
    let n = to_old(t, s);
    assert forall|y: usize| to_new(f, n).contains(y) <==> s.contains(y) by {
        lem_to_new(f, n, y);
        if s.contains(y) { lem_to_old(t, s, t[y as int]); assert(n.contains(t[y as int])); }
        if exists|i: usize| #[trigger] n.contains(i) && f[i] == y { let i = choose|i: usize| #[trigger] n.contains(i) && f[i] == y; lem_to_old(t, s, i); }
    }
    assert(to_new(f, n) =~= s);
}
pub broadcast proof fn lem_pairs_map(s: Seq<(usize, usize)>)
    ensures #![trigger map_of_pairs(s)]
        (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0) ==> pairs_in(s, map_of_pairs(s))
    decreases s.len()
{
    if s.len() > 0 && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0) {
        let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by { assert(s[i].0 != s[j].0); }
        lem_pairs_map(d);
        let m = map_of_pairs(s);
        assert forall|i: int| 0 <= i < s.len() implies m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1 by { if i < d.len() { assert(d[i] == s[i]); assert(s[i].0 != s[s.len() - 1].0); } }
        assert forall|x: usize| #[trigger] m.dom().contains(x) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x by {
            if x != s.last().0 { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == x; assert(s[i].0 == x); } else { assert(s[s.len() - 1].0 == x); }
        }
    }
}
/// the map holds exactly these pairs
pub open spec fn pairs_in(s: Seq<(usize, usize)>, m: Map<usize, usize>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|x: usize| #[trigger] m.dom().contains(x) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x
}
// ---- counting does not depend on order
pub open spec fn count_if<T>(v: Seq<T>, p: spec_fn(T) -> bool) -> nat
    decreases v.len(),
{ if v.len() == 0 { 0 } else { count_if(v.drop_last(), p) + (if p(v.last()) { 1nat } else { 0nat }) } }
pub proof fn lem_cnt_remove<T>(v: Seq<T>, p: spec_fn(T) -> bool, j: int)
    requires 0 <= j < v.len()
    ensures count_if(v, p) == count_if(v.remove(j), p) + (if p(v[j]) { 1nat } else { 0nat })
    decreases v.len()
{
    if j == v.len() - 1 { assert(v.remove(j) =~= v.drop_last()); } else {
        lem_cnt_remove(v.drop_last(), p, j);
        let w = v.remove(j);
        assert(w.drop_last() =~= v.drop_last().remove(j));
        assert(w.last() == v.last());
    }
}
pub proof fn lem_cnt_perm<T>(s: Seq<T>, r: Seq<T>, q: spec_fn(int) -> int, p: spec_fn(T) -> bool)
    requires perm_by(s, r, q)
    ensures count_if(s, p) == count_if(r, p)
    decreases s.len()
{
    if s.len() > 0 {
        let n = r.len() - 1;
        let j = q(n);
        lem_cnt_remove(s, p, j);
        let s2 = s.remove(j);
        let r2 = r.drop_last();
        let q2 = |i: int| if q(i) < j { q(i) } else { q(i) - 1 };
        assert forall|i: int| 0 <= i < r2.len() implies 0 <= #[trigger] q2(i) < s2.len() && r2[i] == s2[q2(i)] by { assert(q(i) != q(n)); assert(r[i] == s[q(i)]); }
        assert forall|a: int, b: int| 0 <= a < b < r2.len() implies #[trigger] q2(a) != #[trigger] q2(b) by { assert(q(a) != q(b)); assert(q(a) != q(n)); assert(q(b) != q(n)); }
        assert forall|k: int| #![trigger hit(q2, r2.len() as int, k)] 0 <= k < s2.len() implies hit(q2, r2.len() as int, k) by {
            let k0 = if k < j { k } else { k + 1 };
            assert(s[k0] == s[k0]); assert(hit(q, r.len() as int, k0));
            let i = choose|i: int| 0 <= i < r.len() && #[trigger] q(i) == k0;
            assert(i != n);
            assert(q2(i) == k);
        }
        lem_cnt_perm(s2, r2, q2, p);
    }
}
pub proof fn lem_nval_cnt(v: Seq<usize>, s: Set<usize>)
    ensures nval(v, s) == count_if(v, |x: usize| s.contains(x))
    decreases v.len()
{ if v.len() > 0 { lem_nval_cnt(v.drop_last(), s); } }
pub proof fn lem_nsat_cnt(v: Seq<QuorumSet>, s: Set<usize>)
    ensures nsat(v, s) == count_if(v, |x: QuorumSet| sat(x, s))
    decreases v.len()
{ if v.len() > 0 { lem_nsat_cnt(v.drop_last(), s); } }
// ---- what shrinking does to quorum sets
/// the kept members, renumbered
pub open spec fn kept(v: Seq<usize>, m: Map<usize, usize>) -> Seq<usize>
    decreases v.len(),
{ if v.len() == 0 { Seq::empty() } else if m.dom().contains(v.last()) { kept(v.drop_last(), m).push(m[v.last()]) } else { kept(v.drop_last(), m) } }
pub proof fn lem_kept(v: Seq<usize>, m: Map<usize, usize>, s: Set<usize>)
    requires inj(m), known(m, s)
    ensures nval(kept(v, m), to_new(m, s)) == nval(v, s)
    decreases v.len()
{
    if v.len() > 0 {
        lem_kept(v.drop_last(), m, s);
        let x = v.last();
        if m.dom().contains(x) {
            assert(kept(v, m).drop_last() =~= kept(v.drop_last(), m));
            lem_to_new(m, s, m[x]);
            if s.contains(x) {} else if exists|y: usize| #[trigger] s.contains(y) && m[y] == m[x] {
                let y = choose|y: usize| #[trigger] s.contains(y) && m[y] == m[x];
                assert(m.dom().contains(y));
            }
        }
    }
}
pub proof fn lem_kept_vals(v: Seq<usize>, m: Map<usize, usize>)
    ensures forall|y: usize| #[trigger] kept(v, m).contains(y) ==> is_val(m, y)
    decreases v.len()
{
    if v.len() > 0 {
        lem_kept_vals(v.drop_last(), m);
        let d = kept(v.drop_last(), m);
        assert forall|y: usize| #[trigger] kept(v, m).contains(y) implies is_val(m, y) by {
            let k = kept(v, m);
            let i = choose|i: int| 0 <= i < k.len() && k[i] == y;
            if i < d.len() { assert(d[i] == y); assert(d.contains(y)); } else { assert(m.dom().contains(v.last())); }
        }
    }
}
pub open spec fn is_val(m: Map<usize, usize>, y: usize) -> bool { exists|x: usize| #[trigger] m.dom().contains(x) && m[x] == y }
/// `g` = `q` in compact numbers: the same sets of kept nodes satisfy it, and it mentions kept nodes only
pub open spec fn same_sat(q: QuorumSet, g: QuorumSet, m: Map<usize, usize>) -> bool {
    forall|s: Set<usize>| #[trigger] known(m, s) ==> sat(g, to_new(m, s)) == sat(q, s)
}
pub open spec fn new_ids(g: QuorumSet, m: Map<usize, usize>) -> bool { forall|y: usize| #[trigger] mentions(g, y) ==> is_val(m, y) }
pub open spec fn shr_q(q: QuorumSet, g: QuorumSet, m: Map<usize, usize>) -> bool { same_sat(q, g, m) && new_ids(g, m) }
pub open spec fn shr_i(v: Seq<QuorumSet>, w: Seq<QuorumSet>, m: Map<usize, usize>) -> bool {
    &&& forall|s: Set<usize>| #[trigger] known(m, s) ==> nsat(w, to_new(m, s)) == nsat(v, s)
    &&& forall|i: int| 0 <= i < w.len() ==> new_ids(#[trigger] w[i], m)
}
pub proof fn lem_shr_step(v: Seq<QuorumSet>, w: Seq<QuorumSet>, q: QuorumSet, g: QuorumSet, w2: Seq<QuorumSet>, m: Map<usize, usize>)
    requires shr_i(v, w, m), shr_q(q, g, m), w2 == w.push(g) || (g.threshold == 0 && w2 == w)
    ensures shr_i(v.push(q), w2, m)
{
    assert(v.push(q).drop_last() =~= v);
    assert(w.push(g).drop_last() =~= w);
    assert forall|s: Set<usize>| #[trigger] known(m, s) implies nsat(w2, to_new(m, s)) == nsat(v.push(q), s) by { lem_sat(g, to_new(m, s)); }
}
pub proof fn lem_shr_q(q: QuorumSet, g: QuorumSet, m: Map<usize, usize>, ws: Seq<usize>, wi: Seq<QuorumSet>)
    requires inj(m), g.threshold == q.threshold, ws == kept(q.validators@, m), shr_i(q.inner_quorum_sets@, wi, m),
        sort_of(ws, g.validators@), sort_of(wi, g.inner_quorum_sets@)
    ensures shr_q(q, g, m)
{
    let (pv, pi) = (sort_perm::<usize>(ws), sort_perm::<QuorumSet>(wi));
    let (a, b) = (g.validators@, g.inner_quorum_sets@);
    assert forall|s: Set<usize>| #[trigger] known(m, s) implies sat(g, to_new(m, s)) == sat(q, s) by {
        let n = to_new(m, s);
        lem_kept(q.validators@, m, s);
        lem_nval_cnt(ws, n); lem_nval_cnt(a, n);
        lem_cnt_perm(ws, a, pv, |x: usize| n.contains(x));
        lem_nsat_cnt(wi, n); lem_nsat_cnt(b, n);
        lem_cnt_perm(wi, b, pi, |x: QuorumSet| sat(x, n));
        lem_ninner_nsat(g.inner_quorum_sets, b.len() as int, n);
        lem_ninner_nsat(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int, s);
        assert(b.take(b.len() as int) =~= b);
        assert(q.inner_quorum_sets@.take(q.inner_quorum_sets@.len() as int) =~= q.inner_quorum_sets@);
        lem_sat(g, n); lem_sat(q, s);
    }
    lem_kept_vals(q.validators@, m);
    lem_rearranged(ws, a, pv);
    lem_rearranged(wi, b, pi);
    assert forall|y: usize| #[trigger] mentions(g, y) implies is_val(m, y) by {
        lem_mentions(g, y);
        if a.contains(y) { assert(ws.contains(y)); } else {
            let i = choose|i: int| 0 <= i < b.len() && mentions(#[trigger] b[i], y);
            assert(b.contains(b[i]));
            let j = choose|j: int| 0 <= j < wi.len() && wi[j] == b[i];
            assert(new_ids(wi[j], m));
        }
    }
}
/// `g` = `f` restricted to the kept nodes, in compact numbers
pub open spec fn shr_n(n: Node, k: Node, m: Map<usize, usize>) -> bool { k.public_key == n.public_key && shr_q(n.quorum_set, k.quorum_set, m) }
pub open spec fn shr_f(f: Fbas, g: Fbas, m: ShrinkManager) -> bool {
    &&& g.nodes@.len() == m.unshrink_table@.len()
    &&& forall|i: int| 0 <= i < g.nodes@.len() ==> shr_n(f.nodes@[m.unshrink_table@[i] as int], #[trigger] g.nodes@[i], m.shrink_map@)
}
pub proof fn lem_inj(m: ShrinkManager)
    requires sm_ok(m)
    ensures inj(m.shrink_map@)
{}
pub open spec fn key_map(v: Seq<Node>, m: Map<String, usize>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> m.dom().contains(#[trigger] v[i].public_key) && m[v[i].public_key] == i
    &&& forall|k: String| #[trigger] m.dom().contains(k) ==> m[k] < v.len() && v[m[k] as int].public_key == k
}
pub open spec fn keyed_pairs(v: Seq<Node>, s: Seq<(String, usize)>) -> bool {
    s.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i]).0 == v[i].public_key && s[i].1 == i
}
pub open spec fn distinct_keys(v: Seq<Node>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).public_key != (#[trigger] v[j]).public_key }
pub broadcast proof fn lem_keyed(v: Seq<Node>, s: Seq<(String, usize)>)
    requires keyed_pairs(v, s), distinct_keys(v)
    ensures #![trigger refs(v), map_of_pairs(s)] key_map(v, map_of_pairs(s))
{ lem_key_pairs(v, s); }
pub proof fn lem_key_pairs(v: Seq<Node>, s: Seq<(String, usize)>)
    requires keyed_pairs(v, s), distinct_keys(v)
    ensures key_map(v, map_of_pairs(s))
    decreases v.len()
{
    if v.len() > 0 {
        let (d, e) = (v.drop_last(), s.drop_last());
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] e[i]).0 == d[i].public_key && e[i].1 == i by { assert(s[i].0 == v[i].public_key); }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).public_key != (#[trigger] d[j]).public_key by { assert(v[i].public_key != v[j].public_key); }
        lem_key_pairs(d, e);
        let m = map_of_pairs(s);
        let n = v.len() - 1;
        assert(s[n].0 == v[n].public_key && s[n].1 == n);
        assert forall|i: int| 0 <= i < v.len() implies m.dom().contains(#[trigger] v[i].public_key) && m[v[i].public_key] == i by { if i < n { assert(d[i] == v[i]); assert(v[i].public_key != v[n].public_key); } }
        assert forall|k: String| #[trigger] m.dom().contains(k) implies m[k] < v.len() && v[m[k] as int].public_key == k by { if k != s[n].0 { assert(d[map_of_pairs(e)[k] as int].public_key == k); } }
    }
}
pub open spec fn new_sets(m: Map<usize, usize>, v: Seq<BitSet>, r: Seq<BitSet>) -> bool { r.len() == v.len() && forall|i: int| #![trigger r[i]] #![trigger v[i]] 0 <= i < v.len() ==> r[i]@ == to_new(m, v[i]@) }
pub open spec fn old_sets(t: Seq<usize>, v: Seq<BitSet>, r: Seq<BitSet>) -> bool { r.len() == v.len() && forall|i: int| #![trigger r[i]] #![trigger v[i]] 0 <= i < v.len() ==> r[i]@ == to_old(t, v[i]@) }

pub open spec fn shr_upto(f: Fbas, v: Seq<Node>, m: ShrinkManager, k: int) -> bool {
    &&& v.len() == m.unshrink_table@.len()
    &&& forall|i: int| 0 <= i < v.len() && m.unshrink_table@[i] < k ==> shr_n(f.nodes@[m.unshrink_table@[i] as int], #[trigger] v[i], m.shrink_map@)
}
pub proof fn lem_shr_done(f: Fbas, v: Seq<Node>, m: ShrinkManager, ids: Set<usize>)
    requires shr_upto(f, v, m, f.nodes@.len() as int), keeps(m, ids), inr(f, ids), keyed(f)
    ensures distinct_keys(v), forall|i: int| 0 <= i < v.len() ==> shr_n(f.nodes@[m.unshrink_table@[i] as int], #[trigger] v[i], m.shrink_map@)
{
    let t = m.unshrink_table@;
    ax_elems(ids);
    assert forall|i: int| 0 <= i < v.len() implies shr_n(f.nodes@[t[i] as int], #[trigger] v[i], m.shrink_map@) && t[i] < f.nodes@.len() by { assert(ids.contains(elems(ids)[i])); assert(t[i] < f.nodes@.len()); }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).public_key != (#[trigger] v[j]).public_key by {
        assert(shr_n(f.nodes@[t[i] as int], v[i], m.shrink_map@)); assert(shr_n(f.nodes@[t[j] as int], v[j], m.shrink_map@));
        assert(f.pk_to_id@[f.nodes@[t[i] as int].public_key] == t[i]);
        assert(f.pk_to_id@[f.nodes@[t[j] as int].public_key] == t[j]);
        assert(t[i] != t[j]);
    }
}
// ---- from one compact numbering to another
pub open spec fn re_pairs(v: Seq<Option<(usize, usize)>>, t: Seq<usize>, m: Map<usize, usize>) -> bool {
    v.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] v[i] == (if m.dom().contains(t[i]) { Some((i as usize, m[t[i]])) } else { None })
}
pub open spec fn re_map(r: Map<usize, usize>, t: Seq<usize>, m: Map<usize, usize>) -> bool {
    (forall|i: usize| #![trigger r.dom().contains(i)] r.dom().contains(i) <==> (i < t.len() && m.dom().contains(t[i as int])))
    && forall|i: usize| #![trigger r[i]] i < t.len() && m.dom().contains(t[i as int]) ==> r[i] == m[t[i as int]]
}
pub proof fn lem_re_map(v: Seq<Option<(usize, usize)>>, t: Seq<usize>, m: Map<usize, usize>)
    requires re_pairs(v, t, m), t.len() <= usize::MAX
    ensures re_map(map_of_pairs(somes(v)), t, m)
    decreases v.len()
{
    if v.len() > 0 {
        let (w, u) = (v.drop_last(), t.drop_last());
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] w[i] == (if m.dom().contains(u[i]) { Some((i as usize, m[u[i]])) } else { None }) by { assert(v[i] == w[i]); }
        lem_re_map(w, u, m);
        assert(v.last() == v[v.len() - 1]);
        if m.dom().contains(t.last()) { assert(somes(v).drop_last() =~= somes(w)); }
        let (r, q) = (map_of_pairs(somes(v)), map_of_pairs(somes(w)));
        let n = (t.len() - 1) as usize;
        assert forall|i: usize| #![trigger r.dom().contains(i)] r.dom().contains(i) <==> (i < t.len() && m.dom().contains(t[i as int])) by {
            assert(q.dom().contains(i) <==> (i < u.len() && m.dom().contains(u[i as int])));
        }
    }
}
pub broadcast proof fn b_re_map(v: Seq<Option<(usize, usize)>>, t: Seq<usize>, m: Map<usize, usize>)
    requires re_pairs(v, t, m), t.len() <= usize::MAX
    ensures #![trigger map_of_pairs(somes(v)), re_map(map_of_pairs(somes(v)), t, m)] re_map(map_of_pairs(somes(v)), t, m)
{ lem_re_map(v, t, m); }
/// each set names the same nodes in both numberings
pub open spec fn re_sets(m: Map<usize, usize>, t: Seq<usize>, v: Seq<BitSet>, r: Seq<BitSet>) -> bool {
    r.len() == v.len() && forall|i: int| #![trigger r[i]] #![trigger v[i]] 0 <= i < v.len() ==> r[i]@ == to_new(m, to_old(t, v[i]@))
}
pub proof fn lem_re_sets(r: Map<usize, usize>, m: Map<usize, usize>, t: Seq<usize>, s: Set<usize>)
    requires re_map(r, t, m), within(t, s), known(m, to_old(t, s))
    ensures known(r, s), to_new(r, s) == to_new(m, to_old(t, s))
{
    let o = to_old(t, s);
    assert forall|x: usize| #[trigger] s.contains(x) implies r.dom().contains(x) && m.dom().contains(t[x as int]) && o.contains(t[x as int]) by { lem_to_old(t, s, t[x as int]); assert(o.contains(t[x as int])); }
    assert forall|y: usize| to_new(r, s).contains(y) <==> to_new(m, o).contains(y) by {
        lem_to_new(r, s, y); lem_to_new(m, o, y);
        if to_new(r, s).contains(y) { let x = choose|x: usize| #[trigger] s.contains(x) && r[x] == y; assert(o.contains(t[x as int])); }
        if to_new(m, o).contains(y) { let z = choose|z: usize| #[trigger] o.contains(z) && m[z] == y; lem_to_old(t, s, z); }
    }
    assert(to_new(r, s) =~= to_new(m, o));
}
