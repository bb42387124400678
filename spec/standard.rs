// ---- standard form
/// ids of `f` with the keys of the ids `s` of `r`
pub open spec fn origin(f: Fbas, r: Fbas, s: Set<usize>) -> Set<usize> { s.map(|i: usize| f.pk_to_id@[r.nodes@[i as int].public_key]) }
pub open spec fn keys_ascend(r: Fbas) -> bool { forall|i: int, j: int| 0 <= i < j < r.nodes@.len() ==> str_le((#[trigger] r.nodes@[i]).public_key, (#[trigger] r.nodes@[j]).public_key) }
/// exactly the relevant nodes
pub open spec fn same_keys(f: Fbas, r: Fbas) -> bool {
    &&& forall|x: usize| x < f.nodes@.len() ==> (#[trigger] relevant(f, x) <==> r.pk_to_id@.dom().contains(f.nodes@[x as int].public_key))
    &&& forall|i: int| 0 <= i < r.nodes@.len() ==> f.pk_to_id@.dom().contains(#[trigger] r.nodes@[i].public_key)
}
/// the same sets of relevant nodes satisfy a node
pub open spec fn same_slices(f: Fbas, r: Fbas) -> bool {
    forall|i: int, s: Set<usize>| #![trigger sat(r.nodes@[i].quorum_set, s)] 0 <= i < r.nodes@.len() && inr(r, s) ==> sat(r.nodes@[i].quorum_set, s) == sat(f.nodes@[f.pk_to_id@[r.nodes@[i].public_key] as int].quorum_set, origin(f, r, s))
}
/// C16
pub open spec fn std_form(f: Fbas, r: Fbas) -> bool { keyed(r) && keys_ascend(r) && same_keys(f, r) && same_slices(f, r) && wf(r) }
/// the number that a node of `g` gets in an FBAS with the key map `pk`
pub open spec fn renum(g: Fbas, pk: Map<String, usize>, s: Set<usize>) -> Set<usize> { s.map(|x: usize| pk[g.nodes@[x as int].public_key]) }
pub open spec fn key_inj(g: Fbas, pk: Map<String, usize>) -> bool {
    &&& forall|x: int| 0 <= x < g.nodes@.len() ==> pk.dom().contains((#[trigger] g.nodes@[x]).public_key)
    &&& forall|x: int, y: int| 0 <= x < y < g.nodes@.len() ==> pk[(#[trigger] g.nodes@[x]).public_key] != pk[(#[trigger] g.nodes@[y]).public_key]
}
pub proof fn lem_renum_has(g: Fbas, pk: Map<String, usize>, s: Set<usize>, x: usize)
    requires key_inj(g, pk), inr(g, s), x < g.nodes@.len()
    ensures renum(g, pk, s).contains(pk[g.nodes@[x as int].public_key]) == s.contains(x)
{
    let k = pk[g.nodes@[x as int].public_key];
    if renum(g, pk, s).contains(k) { let y = choose|y: usize| s.contains(y) && #[trigger] pk[g.nodes@[y as int].public_key] == k; assert(y < g.nodes@.len()); if y < x { assert(pk[g.nodes@[y as int].public_key] != pk[g.nodes@[x as int].public_key]); } if x < y { assert(pk[g.nodes@[x as int].public_key] != pk[g.nodes@[y as int].public_key]); } }
    if s.contains(x) { assert(renum(g, pk, s).contains(k)); }
}
pub proof fn lem_known_count(v: Seq<usize>, g: Fbas, w: Seq<String>, pk: Map<String, usize>, s: Set<usize>)
    requires w.len() == v.len(), forall|i: int| #![trigger v[i]] #![trigger w[i]] 0 <= i < v.len() ==> v[i] < g.nodes@.len() && w[i] == g.nodes@[v[i] as int].public_key, key_inj(g, pk), inr(g, s)
    ensures nval(known_keys(w, pk), renum(g, pk, s)) == nval(v, s), forall|k: usize| #[trigger] known_keys(w, pk).contains(k) ==> exists|x: usize| x < g.nodes@.len() && #[trigger] pk[g.nodes@[x as int].public_key] == k
    decreases v.len()
{
    if v.len() > 0 {
        let (d, e) = (v.drop_last(), w.drop_last());
        assert forall|i: int| #![trigger d[i]] #![trigger e[i]] 0 <= i < d.len() implies d[i] < g.nodes@.len() && e[i] == g.nodes@[d[i] as int].public_key by { assert(w[i] == e[i] && v[i] == d[i]); }
        lem_known_count(d, g, e, pk, s);
        let x = v.last();
        assert(w[v.len() - 1] == w.last());
        assert(w.last() == g.nodes@[x as int].public_key);
        let kk = known_keys(w, pk);
        assert(kk.drop_last() =~= known_keys(e, pk));
        assert(kk.last() == pk[g.nodes@[x as int].public_key]);
        lem_renum_has(g, pk, s, x);
        assert forall|k: usize| #[trigger] kk.contains(k) implies exists|x: usize| x < g.nodes@.len() && #[trigger] pk[g.nodes@[x as int].public_key] == k by {
            let i = choose|i: int| 0 <= i < kk.len() && kk[i] == k;
            if i < kk.len() - 1 { assert(known_keys(e, pk)[i] == k); assert(known_keys(e, pk).contains(k)); }
        }
    }
}
pub proof fn lem_renum_sat(q: QuorumSet, g: Fbas, w: RawQuorumSet, pk: Map<String, usize>, h: QuorumSet, s: Set<usize>)
    requires key_inj(g, pk), raw_q(q, g, w), read_q(w, pk, h), members_in(q, g.nodes@.len() as int), inr(g, s)
    ensures sat(h, renum(g, pk, s)) == sat(q, s)
    decreases q
{
    let n = g.nodes@.len() as int;
    let t = renum(g, pk, s);
    assert forall|i: int| 0 <= i < q.validators@.len() implies #[trigger] q.validators@[i] < n by { lem_mentions(q, q.validators@[i]); assert(q.validators@.contains(q.validators@[i])); }
    assert forall|i: int| 0 <= i < q.validators@.len() implies q.validators@[i] < n && #[trigger] w.validators@[i] == g.nodes@[q.validators@[i] as int].public_key by {}
    lem_known_count(q.validators@, g, w.validators@, pk, s);
    lem_rearr_nval(known_keys(w.validators@, pk), h.validators@, t);
    let m = choose|m: Seq<QuorumSet>| #[trigger] rearr(m, h.inner_quorum_sets@) && m.len() == w.inner_quorum_sets@.len() && forall|i: int| #![trigger m[i]] #![trigger w.inner_quorum_sets@[i]] 0 <= i < w.inner_quorum_sets@.len() ==> read_q(w.inner_quorum_sets@[i], pk, m[i]);
    let v = q.inner_quorum_sets@;
    assert forall|i: int| 0 <= i < v.len() implies sat(#[trigger] m[i], t) == sat(v[i], s) by {
        let c = v[i];
        assert(raw_q(c, g, w.inner_quorum_sets@[i]));
        assert(members_in(c, n)) by { assert forall|x: usize| #[trigger] mentions(c, x) implies x < n by { lem_mentions(q, x); assert(mentions(q, x)); } }
        lem_renum_sat(c, g, w.inner_quorum_sets@[i], pk, m[i], s);
    }
    lem_nsat_eq(v, m, s, t);
    lem_rearr_nsat(m, h.inner_quorum_sets@, t);
    let b = h.inner_quorum_sets@;
    lem_ninner_nsat(h.inner_quorum_sets, b.len() as int, t);
    lem_ninner_nsat(q.inner_quorum_sets, v.len() as int, s);
    assert(b.take(b.len() as int) =~= b);
    assert(v.take(v.len() as int) =~= v);
    lem_sat(h, t); lem_sat(q, s);
}
pub proof fn lem_rearr_nval(a: Seq<usize>, b: Seq<usize>, t: Set<usize>)
    requires rearr(a, b)
    ensures nval(a, t) == nval(b, t)
{
    let p = choose|p: spec_fn(int) -> int| perm_by(a, b, p);
    lem_nval_cnt(a, t); lem_nval_cnt(b, t);
    lem_cnt_perm(a, b, p, |x: usize| t.contains(x));
}
pub proof fn lem_rearr_nsat(a: Seq<QuorumSet>, b: Seq<QuorumSet>, t: Set<usize>)
    requires rearr(a, b)
    ensures nsat(a, t) == nsat(b, t)
{
    let p = choose|p: spec_fn(int) -> int| perm_by(a, b, p);
    lem_nsat_cnt(a, t); lem_nsat_cnt(b, t);
    lem_cnt_perm(a, b, p, |x: QuorumSet| sat(x, t));
}
pub proof fn lem_nsat_eq(v: Seq<QuorumSet>, m: Seq<QuorumSet>, s: Set<usize>, t: Set<usize>)
    requires v.len() == m.len(), forall|i: int| 0 <= i < v.len() ==> sat(#[trigger] m[i], t) == sat(v[i], s)
    ensures nsat(m, t) == nsat(v, s)
    decreases v.len()
{
    if v.len() > 0 {
        let (d, e) = (v.drop_last(), m.drop_last());
        assert forall|i: int| 0 <= i < d.len() implies sat(#[trigger] e[i], t) == sat(d[i], s) by { assert(sat(m[i], t) == sat(v[i], s)); }
        lem_nsat_eq(d, e, s, t);
        assert(sat(m[m.len() - 1], t) == sat(v[v.len() - 1], s));
    }
}
pub proof fn lem_renum_mentions(q: QuorumSet, g: Fbas, w: RawQuorumSet, pk: Map<String, usize>, h: QuorumSet, y: usize)
    requires key_inj(g, pk), raw_q(q, g, w), read_q(w, pk, h), members_in(q, g.nodes@.len() as int), mentions(h, y)
    ensures exists|x: usize| x < g.nodes@.len() && #[trigger] pk[g.nodes@[x as int].public_key] == y
    decreases q
{
    let n = g.nodes@.len() as int;
    assert forall|i: int| 0 <= i < q.validators@.len() implies #[trigger] q.validators@[i] < n by { lem_mentions(q, q.validators@[i]); assert(q.validators@.contains(q.validators@[i])); }
    assert forall|i: int| 0 <= i < q.validators@.len() implies q.validators@[i] < n && #[trigger] w.validators@[i] == g.nodes@[q.validators@[i] as int].public_key by {}
    let kk = known_keys(w.validators@, pk);
    lem_known_count(q.validators@, g, w.validators@, pk, Set::<usize>::empty());
    lem_mentions(h, y);
    let pv = choose|p: spec_fn(int) -> int| perm_by(kk, h.validators@, p);
    lem_rearranged(kk, h.validators@, pv);
    let m = choose|m: Seq<QuorumSet>| #[trigger] rearr(m, h.inner_quorum_sets@) && m.len() == w.inner_quorum_sets@.len() && forall|i: int| #![trigger m[i]] #![trigger w.inner_quorum_sets@[i]] 0 <= i < w.inner_quorum_sets@.len() ==> read_q(w.inner_quorum_sets@[i], pk, m[i]);
    let pm = choose|p: spec_fn(int) -> int| perm_by(m, h.inner_quorum_sets@, p);
    if h.validators@.contains(y) { assert(kk.contains(y)); } else {
        let j = choose|j: int| 0 <= j < h.inner_quorum_sets@.len() && mentions(#[trigger] h.inner_quorum_sets@[j], y);
        let i = pm(j);
        assert(0 <= i < m.len() && m[i] == h.inner_quorum_sets@[j]);
        let c = q.inner_quorum_sets@[i];
        assert(raw_q(c, g, w.inner_quorum_sets@[i]));
        assert(read_q(w.inner_quorum_sets@[i], pk, m[i]));
        assert(members_in(c, n)) by { assert forall|x: usize| #[trigger] mentions(c, x) implies x < n by { lem_mentions(q, x); assert(mentions(q, x)); } }
        lem_renum_mentions(c, g, w.inner_quorum_sets@[i], pk, m[i], y);
    }
}
pub proof fn lem_sorted_keys(g: Fbas, w: RawFbas, v: Seq<RawNode>, p: spec_fn(int) -> int)
    requires raw_f(g, w), keyed(g), perm_by(w.0@, v, p)
    ensures raw_keys(v), forall|i: int| 0 <= i < v.len() ==> 0 <= p(i) < g.nodes@.len() && #[trigger] v[i] == w.0@[p(i)] && raw_n(g.nodes@[p(i)], g, w.0@[p(i)])
{
    assert forall|i: int| 0 <= i < v.len() implies 0 <= p(i) < g.nodes@.len() && #[trigger] v[i] == w.0@[p(i)] && raw_n(g.nodes@[p(i)], g, w.0@[p(i)]) by {}
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).public_key != (#[trigger] v[j]).public_key by { assert(p(i) != p(j)); assert(g.nodes@[p(i)].public_key == v[i].public_key); assert(g.nodes@[p(j)].public_key == v[j].public_key); }
}
pub broadcast proof fn b_sorted_keys(g: Fbas, w: RawFbas, v: Seq<RawNode>)
    requires #[trigger] raw_f(g, w), keyed(g), #[trigger] stably(w.0@, v)
    ensures raw_keys(v)
{ lem_sorted_keys(g, w, v, stable_perm(w.0@, v)); }
pub open spec fn keeps_relevant(f: Fbas, m: ShrinkManager, ids: Set<usize>) -> bool { keeps(m, ids) && inr(f, ids) && forall|x: usize| #[trigger] ids.contains(x) <==> relevant(f, x) }
/// how the nodes of `r` (entry `i`) come from those of `g` (entry `p(i)`) and of `f` (entry `t[p(i)]`)
pub open spec fn chain(f: Fbas, ids: Set<usize>, g: Fbas, m: ShrinkManager, w: RawFbas, v: Seq<RawNode>, p: spec_fn(int) -> int, r: Fbas) -> bool {
    let (n, t, pk) = (g.nodes@.len() as int, m.unshrink_table@, r.pk_to_id@);
    &&& wf(f) && keyed(f) && keyed(g) && keyed(r) && key_inj(g, pk) && perm_by(w.0@, v, p) && sm_ok(m) && inj(m.shrink_map@) && t == elems(ids) && t.len() == n && v.len() == n && r.nodes@.len() == n && w.0@.len() == n && inr(f, ids)
    &&& forall|x: usize| #[trigger] ids.contains(x) <==> relevant(f, x)
    &&& forall|x: int| 0 <= x < n ==> t[x] < f.nodes@.len() && ids.contains(t[x]) && (#[trigger] g.nodes@[x]).public_key == f.nodes@[t[x] as int].public_key && shr_n(f.nodes@[t[x] as int], g.nodes@[x], m.shrink_map@) && raw_n(g.nodes@[x], g, w.0@[x]) && members_in(g.nodes@[x].quorum_set, n)
    &&& forall|i: int| 0 <= i < n ==> 0 <= p(i) < n && read_n(w.0@[p(i)], pk, #[trigger] r.nodes@[i]) && r.nodes@[i].public_key == g.nodes@[p(i)].public_key && pk[g.nodes@[p(i)].public_key] == i && f.pk_to_id@.dom().contains(r.nodes@[i].public_key) && f.pk_to_id@[r.nodes@[i].public_key] == t[p(i)]
}
pub proof fn lem_chain(f: Fbas, ids: Set<usize>, g: Fbas, m: ShrinkManager, w: RawFbas, w2: RawFbas, p: spec_fn(int) -> int, r: Fbas)
    requires wf(f), keyed(f), keeps_relevant(f, m, ids), shr_f(f, g, m), keyed(g), raw_f(g, w), perm_by(w.0@, w2.0@, p), read_f(w2, r)
    ensures chain(f, ids, g, m, w, w2.0@, p, r)
{
    let (n, t, pk) = (g.nodes@.len() as int, m.unshrink_table@, r.pk_to_id@);
    let v = w2.0@;
    lem_sorted_keys(g, w, v, p);
    lem_inj(m);
    broadcast use ax_elems;
    assert forall|i: int| 0 <= i < n implies read_n(v[i], pk, #[trigger] r.nodes@[i]) && v[i] == w.0@[p(i)] && r.nodes@[i].public_key == g.nodes@[p(i)].public_key && 0 <= p(i) < n by { assert(read_n(v[i], pk, r.nodes@[i])); assert(v[i] == w.0@[p(i)]); }
    // the nodes of g are those of r
    assert forall|x: int| 0 <= x < n implies pk.dom().contains((#[trigger] g.nodes@[x]).public_key) by {
        assert(raw_n(g.nodes@[x], g, w.0@[x])); assert(hit(p, n, x)); let i = choose|i: int| 0 <= i < n && #[trigger] p(i) == x; assert(r.nodes@[i].public_key == g.nodes@[x].public_key);
    }
    assert(key_inj(g, pk)) by {
        assert forall|x: int, y: int| 0 <= x < y < n implies pk[(#[trigger] g.nodes@[x]).public_key] != pk[(#[trigger] g.nodes@[y]).public_key] by {
            let (a, b) = (g.nodes@[x].public_key, g.nodes@[y].public_key);
            if pk[a] == pk[b] { assert(r.nodes@[pk[a] as int].public_key == a); assert(r.nodes@[pk[b] as int].public_key == b); assert(g.pk_to_id@[a] == x); assert(g.pk_to_id@[b] == y); }
        }
    }
    assert forall|x: int| 0 <= x < n implies t[x] < f.nodes@.len() && relevant(f, t[x]) && (#[trigger] g.nodes@[x]).public_key == f.nodes@[t[x] as int].public_key && ids.contains(t[x]) by { assert(shr_n(f.nodes@[t[x] as int], g.nodes@[x], m.shrink_map@)); assert(t.contains(t[x])); }
    assert forall|x: int| 0 <= x < n implies shr_n(f.nodes@[t[x] as int], #[trigger] g.nodes@[x], m.shrink_map@) && raw_n(g.nodes@[x], g, w.0@[x]) && members_in(g.nodes@[x].quorum_set, n) by {
        assert(shr_n(f.nodes@[t[x] as int], g.nodes@[x], m.shrink_map@));
        assert forall|y: usize| #[trigger] mentions(g.nodes@[x].quorum_set, y) implies y < n by { assert(is_val(m.shrink_map@, y)); }
    }
    assert forall|i: int| 0 <= i < n implies 0 <= p(i) < n && read_n(w.0@[p(i)], pk, #[trigger] r.nodes@[i]) && pk[g.nodes@[p(i)].public_key] == i && f.pk_to_id@.dom().contains(r.nodes@[i].public_key) && f.pk_to_id@[r.nodes@[i].public_key] == t[p(i)] by {
        assert(f.nodes@[t[p(i)] as int].public_key == g.nodes@[p(i)].public_key);
    }
}
pub proof fn lem_std_keys(f: Fbas, ids: Set<usize>, g: Fbas, m: ShrinkManager, w: RawFbas, v: Seq<RawNode>, p: spec_fn(int) -> int, r: Fbas)
    requires chain(f, ids, g, m, w, v, p, r)
    ensures same_keys(f, r)
{
    let (n, t, pk) = (g.nodes@.len() as int, m.unshrink_table@, r.pk_to_id@);
    broadcast use ax_elems;
    assert(same_keys(f, r)) by {
        assert forall|x: usize| x < f.nodes@.len() implies (#[trigger] relevant(f, x) <==> pk.dom().contains(f.nodes@[x as int].public_key)) by {
            if relevant(f, x) {
                assert(ids.contains(x)); assert(t.contains(x)); let k = choose|k: int| 0 <= k < t.len() && t[k] == x;
                assert(pk.dom().contains(g.nodes@[k].public_key));
            }
            let key = f.nodes@[x as int].public_key;
            if pk.dom().contains(key) { let i = pk[key] as int; assert(r.nodes@[i].public_key == key); assert(g.nodes@[p(i)].public_key == key); assert(f.nodes@[t[p(i)] as int].public_key == key); assert(f.pk_to_id@[key] == x); assert(f.pk_to_id@[key] == t[p(i)]); }
        }
        assert forall|i: int| 0 <= i < r.nodes@.len() implies f.pk_to_id@.dom().contains(#[trigger] r.nodes@[i].public_key) by { assert(f.nodes@[t[p(i)] as int].public_key == g.nodes@[p(i)].public_key); }
    }
}
/// the ids in `g` of the ids `s` of `r`
pub open spec fn back(p: spec_fn(int) -> int, s: Set<usize>) -> Set<usize> { s.map(|k: usize| p(k as int) as usize) }
pub proof fn lem_back(p: spec_fn(int) -> int, s: Set<usize>, y: usize)
    ensures back(p, s).contains(y) <==> exists|k: usize| #[trigger] s.contains(k) && p(k as int) as usize == y
{}
pub proof fn lem_back_renum(g: Fbas, pk: Map<String, usize>, p: spec_fn(int) -> int, s: Set<usize>, n: int)
    requires n == g.nodes@.len(), n <= usize::MAX, forall|k: usize| #[trigger] s.contains(k) ==> k < n, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p(i) < n && pk[g.nodes@[p(i)].public_key] == i
    ensures inr(g, back(p, s)), renum(g, pk, back(p, s)) == s
{
    let gs = back(p, s);
    assert forall|y: usize| #[trigger] gs.contains(y) implies y < n by { lem_back(p, s, y); let k = choose|k: usize| #[trigger] s.contains(k) && p(k as int) as usize == y; assert(0 <= p(k as int) < n); }
    assert forall|k: usize| renum(g, pk, gs).contains(k) <==> s.contains(k) by {
        if s.contains(k) { let y = p(k as int) as usize; assert(0 <= p(k as int) < n); lem_back(p, s, y); assert(gs.contains(y)); assert(renum(g, pk, gs).contains(pk[g.nodes@[y as int].public_key])); }
        if renum(g, pk, gs).contains(k) { let y = choose|y: usize| gs.contains(y) && #[trigger] pk[g.nodes@[y as int].public_key] == k; lem_back(p, s, y); let j = choose|j: usize| #[trigger] s.contains(j) && p(j as int) as usize == y; assert(0 <= p(j as int) < n); }
    }
    assert(renum(g, pk, gs) =~= s);
}
pub proof fn lem_back_origin(f: Fbas, r: Fbas, t: Seq<usize>, p: spec_fn(int) -> int, s: Set<usize>, n: int)
    requires n == t.len(), n <= usize::MAX, forall|k: usize| #[trigger] s.contains(k) ==> k < n, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p(i) < n && f.pk_to_id@[r.nodes@[i].public_key] == t[p(i)]
    ensures to_old(t, back(p, s)) == origin(f, r, s)
{
    let gs = back(p, s);
    let o = to_old(t, gs);
    assert forall|k: usize| o.contains(k) <==> origin(f, r, s).contains(k) by {
        lem_to_old(t, gs, k);
        if o.contains(k) { let y = choose|y: usize| #[trigger] gs.contains(y) && t[y as int] == k; lem_back(p, s, y); let j = choose|j: usize| #[trigger] s.contains(j) && p(j as int) as usize == y; assert(0 <= p(j as int) < n); assert(f.pk_to_id@[r.nodes@[j as int].public_key] == k); assert(origin(f, r, s).contains(k)); }
        if origin(f, r, s).contains(k) { let j = choose|j: usize| s.contains(j) && #[trigger] f.pk_to_id@[r.nodes@[j as int].public_key] == k; assert(0 <= p(j as int) < n); lem_back(p, s, p(j as int) as usize); assert(gs.contains(p(j as int) as usize)); }
    }
    assert(o =~= origin(f, r, s));
}
pub proof fn lem_std_slices(f: Fbas, ids: Set<usize>, g: Fbas, m: ShrinkManager, w: RawFbas, v: Seq<RawNode>, p: spec_fn(int) -> int, r: Fbas, i: int, s: Set<usize>)
    requires chain(f, ids, g, m, w, v, p, r), 0 <= i < r.nodes@.len(), inr(r, s)
    ensures sat(r.nodes@[i].quorum_set, s) == sat(f.nodes@[f.pk_to_id@[r.nodes@[i].public_key] as int].quorum_set, origin(f, r, s))
{
    let (n, t, pk) = (g.nodes@.len() as int, m.unshrink_table@, r.pk_to_id@);
    let x = p(i);
    let gs = back(p, s);
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] p(i) < n && pk[g.nodes@[p(i)].public_key] == i && f.pk_to_id@[r.nodes@[i].public_key] == t[p(i)] by { assert(r.nodes@[i] == r.nodes@[i]); }
    lem_std_wf(f, ids, g, m, w, v, p, r);
    lem_back_renum(g, pk, p, s, n);
    lem_back_origin(f, r, t, p, s, n);
    assert(read_n(w.0@[x], pk, r.nodes@[i]));
    assert(shr_n(f.nodes@[t[x] as int], g.nodes@[x], m.shrink_map@));
    lem_renum_sat(g.nodes@[x].quorum_set, g, w.0@[x].quorum_set, pk, r.nodes@[i].quorum_set, gs);
    let o = origin(f, r, s);
    assert(within(t, gs)) by { assert forall|y: usize| #[trigger] gs.contains(y) implies y < t.len() by {} }
    lem_round_trip2(m, gs);
    assert(known(m.shrink_map@, o));
    assert(sat(g.nodes@[x].quorum_set, to_new(m.shrink_map@, o)) == sat(f.nodes@[t[x] as int].quorum_set, o));
}
pub proof fn lem_std_wf(f: Fbas, ids: Set<usize>, g: Fbas, m: ShrinkManager, w: RawFbas, v: Seq<RawNode>, p: spec_fn(int) -> int, r: Fbas)
    requires chain(f, ids, g, m, w, v, p, r)
    ensures wf(r)
{
    let (n, t, pk) = (g.nodes@.len() as int, m.unshrink_table@, r.pk_to_id@);
    assert(wf(r)) by {
        lem_all_ids(f); broadcast use ax_elems;
        assert(ids.subset_of(all_ids(f)));
        vstd::set_lib::lemma_len_subset(ids, all_ids(f));
        lem_all_len(f);
        assert forall|i: int, y: usize| 0 <= i < n && #[trigger] mentions(r.nodes@[i].quorum_set, y) implies y < n by {
            let x = p(i);
            assert(read_n(w.0@[x], pk, r.nodes@[i])); assert(g.nodes@[x] == g.nodes@[p(i)]);
            lem_renum_mentions(g.nodes@[x].quorum_set, g, w.0@[x].quorum_set, pk, r.nodes@[i].quorum_set, y);
            let z = choose|z: usize| z < n && #[trigger] pk[g.nodes@[z as int].public_key] == y;
            assert(pk.dom().contains(g.nodes@[z as int].public_key));
        }
    }
}
pub proof fn lem_std(f: Fbas, ids: Set<usize>, g: Fbas, m: ShrinkManager, w: RawFbas, w2: RawFbas, p: spec_fn(int) -> int, r: Fbas)
    requires wf(f), keyed(f), keeps_relevant(f, m, ids), shr_f(f, g, m), keyed(g), raw_f(g, w), perm_by(w.0@, w2.0@, p), read_f(w2, r),
        forall|i: int, j: int| 0 <= i < j < w2.0@.len() ==> str_le((#[trigger] w2.0@[i]).public_key, (#[trigger] w2.0@[j]).public_key)
    ensures std_form(f, r)
{
    lem_chain(f, ids, g, m, w, w2, p, r);
    let v = w2.0@;
    lem_std_keys(f, ids, g, m, w, v, p, r);
    lem_std_wf(f, ids, g, m, w, v, p, r);
    assert forall|i: int, s: Set<usize>| #![trigger sat(r.nodes@[i].quorum_set, s)] 0 <= i < r.nodes@.len() && inr(r, s) implies sat(r.nodes@[i].quorum_set, s) == sat(f.nodes@[f.pk_to_id@[r.nodes@[i].public_key] as int].quorum_set, origin(f, r, s)) by { lem_std_slices(f, ids, g, m, w, v, p, r, i, s); }
    assert forall|i: int, j: int| 0 <= i < j < r.nodes@.len() implies str_le((#[trigger] r.nodes@[i]).public_key, (#[trigger] r.nodes@[j]).public_key) by { assert(read_n(v[i], r.pk_to_id@, r.nodes@[i])); assert(read_n(v[j], r.pk_to_id@, r.nodes@[j])); assert(str_le(v[i].public_key, v[j].public_key)); }
}
pub proof fn lem_all_len(f: Fbas)
    requires f.nodes@.len() <= max_len()
    ensures all_ids(f).len() <= f.nodes@.len()
{ let s = range_seq(0, f.nodes@.len() as usize); s.lemma_cardinality_of_set(); }
pub proof fn lem_greatest_ex(f: Fbas, s: Set<usize>) -> (g: Set<usize>)
    ensures is_greatest(f, s, g)
    decreases s.len()
{
    if closed(f, s) { s } else {
        let x = choose|x: usize| #[trigger] s.contains(x) && !fsat(f, x, s);
        let g = lem_greatest_ex(f, s.remove(x));
        assert forall|q: Set<usize>| #[trigger] q.subset_of(s) && closed(f, q) implies q.subset_of(g) by {
            if q.contains(x) { lem_mono(f.nodes@[x as int].quorum_set, q, s); }
            assert(q.subset_of(s.remove(x)));
        }
        g
    }
}
pub proof fn lem_greatest_holds(f: Fbas)
    ensures is_greatest(f, all_ids(f), greatest(f))
{ let g = lem_greatest_ex(f, all_ids(f)); }
pub broadcast proof fn b_relevant_inr(f: Fbas, ids: Set<usize>)
    requires wf(f), forall|x: usize| #[trigger] ids.contains(x) <==> relevant(f, x)
    ensures #[trigger] inr(f, ids)
{ lem_greatest_holds(f); lem_all_ids(f); }
pub broadcast proof fn b_std(f: Fbas, ids: Set<usize>, g: Fbas, m: ShrinkManager, w: RawFbas, w2: RawFbas, r: Fbas)
    requires wf(f), keyed(f), inr(f, ids), forall|x: usize| #[trigger] ids.contains(x) <==> relevant(f, x), #[trigger] keeps(m, ids), #[trigger] shr_f(f, g, m), keyed(g), #[trigger] raw_f(g, w), #[trigger] stably(w.0@, w2.0@), #[trigger] read_f(w2, r),
        forall|i: int, j: int| 0 <= i < j < w2.0@.len() ==> str_le((#[trigger] w2.0@[i]).public_key, (#[trigger] w2.0@[j]).public_key)
    ensures std_form(f, r)
{ lem_std(f, ids, g, m, w, w2, stable_perm(w.0@, w2.0@), r); }
pub broadcast group standard_lemmas { b_sorted_keys, b_std, b_relevant_inr }
