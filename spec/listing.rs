// ---- the order in which nodes are listed does not matter
/// the node of `h` with the key of node `x` of `f`
pub open spec fn same_node(f: Fbas, h: Fbas, x: usize) -> usize { h.pk_to_id@[f.nodes@[x as int].public_key] }
pub open spec fn keys_in(f: Fbas, h: Fbas) -> bool { forall|x: int| 0 <= x < f.nodes@.len() ==> h.pk_to_id@.dom().contains(#[trigger] f.nodes@[x].public_key) }
pub open spec fn sats_as(f: Fbas, h: Fbas) -> bool { forall|x: usize, s: Set<usize>| #[trigger] fsat(f, x, s) == fsat(h, same_node(f, h, x), origin(h, f, s)) || !(x < f.nodes@.len()) || !inr(f, s) }
pub open spec fn mentions_as(f: Fbas, h: Fbas) -> bool { forall|x: usize, y: usize| x < f.nodes@.len() && y < f.nodes@.len() ==> #[trigger] edge(f)(x, y) == edge(h)(same_node(f, h, x), same_node(f, h, y)) }
/// `h` lists the nodes of `f`, in any order
pub open spec fn relisted(f: Fbas, h: Fbas) -> bool { wf(f) && wf(h) && keyed(f) && keyed(h) && keys_in(f, h) && keys_in(h, f) && sats_as(f, h) && mentions_as(f, h) }
pub proof fn lem_same_node(f: Fbas, h: Fbas, x: usize)
    requires keyed(f), keyed(h), keys_in(f, h), x < f.nodes@.len()
    ensures same_node(f, h, x) < h.nodes@.len(), same_node(h, f, same_node(f, h, x)) == x, h.nodes@[same_node(f, h, x) as int].public_key == f.nodes@[x as int].public_key
{ assert(h.pk_to_id@.dom().contains(f.nodes@[x as int].public_key)); }
pub proof fn lem_origin(f: Fbas, h: Fbas, s: Set<usize>, y: usize)
    ensures origin(h, f, s).contains(y) <==> exists|x: usize| #[trigger] s.contains(x) && same_node(f, h, x) == y
{}
pub proof fn lem_origin_inr(f: Fbas, h: Fbas, s: Set<usize>)
    requires keyed(f), keyed(h), keys_in(f, h), inr(f, s)
    ensures inr(h, origin(h, f, s)), forall|x: usize| x < f.nodes@.len() ==> (origin(h, f, s).contains(#[trigger] same_node(f, h, x)) <==> s.contains(x))
{
    assert forall|y: usize| #[trigger] origin(h, f, s).contains(y) implies y < h.nodes@.len() by { lem_origin(f, h, s, y); let x = choose|x: usize| #[trigger] s.contains(x) && same_node(f, h, x) == y; lem_same_node(f, h, x); }
    assert forall|x: usize| x < f.nodes@.len() implies (origin(h, f, s).contains(#[trigger] same_node(f, h, x)) <==> s.contains(x)) by {
        let y = same_node(f, h, x);
        lem_origin(f, h, s, y);
        lem_same_node(f, h, x);
        if origin(h, f, s).contains(y) { let z = choose|z: usize| #[trigger] s.contains(z) && same_node(f, h, z) == y; lem_same_node(f, h, z); }
    }
}
pub proof fn lem_origin_back(f: Fbas, h: Fbas, s: Set<usize>)
    requires keyed(f), keyed(h), keys_in(f, h), keys_in(h, f), inr(f, s)
    ensures origin(f, h, origin(h, f, s)) == s
{
    let t = origin(h, f, s);
    lem_origin_inr(f, h, s);
    lem_origin_inr(h, f, t);
    assert forall|x: usize| origin(f, h, t).contains(x) <==> s.contains(x) by {
        if x < f.nodes@.len() { lem_same_node(f, h, x); assert(t.contains(same_node(f, h, x)) <==> s.contains(x)); let y = same_node(f, h, x); assert(origin(f, h, t).contains(same_node(h, f, y)) <==> t.contains(y)); }
    }
    assert(origin(f, h, t) =~= s);
}
pub proof fn lem_relisted_sym(f: Fbas, h: Fbas)
    requires relisted(f, h)
    ensures relisted(h, f)
{
    assert forall|y: usize, t: Set<usize>| y < h.nodes@.len() && inr(h, t) implies #[trigger] fsat(h, y, t) == fsat(f, same_node(h, f, y), origin(f, h, t)) by {
        lem_same_node(h, f, y);
        lem_origin_inr(h, f, t);
        lem_origin_back(h, f, t);
        let (x, s) = (same_node(h, f, y), origin(f, h, t));
        assert(fsat(f, x, s) == fsat(h, same_node(f, h, x), origin(h, f, s)));
    }
    assert forall|x: usize, y: usize| x < h.nodes@.len() && y < h.nodes@.len() implies #[trigger] edge(h)(x, y) == edge(f)(same_node(h, f, x), same_node(h, f, y)) by {
        lem_same_node(h, f, x); lem_same_node(h, f, y);
        assert(edge(f)(same_node(h, f, x), same_node(h, f, y)) == edge(h)(same_node(f, h, same_node(h, f, x)), same_node(f, h, same_node(h, f, y))));
    }
}
pub proof fn lem_relisted_closed(f: Fbas, h: Fbas, q: Set<usize>)
    requires relisted(f, h), closed(f, q), inr(f, q)
    ensures closed(h, origin(h, f, q)), inr(h, origin(h, f, q)), q != Set::<usize>::empty() ==> is_q(h, origin(h, f, q))
{
    let t = origin(h, f, q);
    lem_origin_inr(f, h, q);
    assert forall|y: usize| #[trigger] t.contains(y) implies fsat(h, y, t) by {
        lem_origin(f, h, q, y);
        let x = choose|x: usize| #[trigger] q.contains(x) && same_node(f, h, x) == y;
        assert(fsat(f, x, q));
    }
    if q != Set::<usize>::empty() { let x = lem_nonempty(q); assert(t.contains(same_node(f, h, x))); }
}
pub proof fn lem_relisted_greatest(f: Fbas, h: Fbas, x: usize)
    requires relisted(f, h), greatest(f).contains(x)
    ensures x < f.nodes@.len(), greatest(h).contains(same_node(f, h, x))
{
    let (g, k) = (greatest(f), greatest(h));
    lem_greatest_holds(f); lem_greatest_holds(h);
    lem_all_ids(f); lem_all_ids(h);
    assert(inr(f, g));
    lem_relisted_closed(f, h, g);
    lem_origin_inr(f, h, g);
    let t = origin(h, f, g);
    assert(t.subset_of(all_ids(h)));
    assert(t.subset_of(k));
    assert(t.contains(same_node(f, h, x)));
}
pub proof fn lem_relisted_path(f: Fbas, h: Fbas, p: Seq<usize>, x: usize)
    requires relisted(f, h), is_path(edge(f), p), x == p[0], x < f.nodes@.len()
    ensures p.last() < f.nodes@.len(), reach(edge(h), same_node(f, h, x), same_node(f, h, p.last()))
    decreases p.len()
{
    if p.len() == 1 { lem_reach_refl(edge(h), same_node(f, h, x)); } else {
        let d = p.drop_last();
        assert forall|i: int| 0 <= i < d.len() - 1 implies edge(f)(#[trigger] d[i], d[i + 1]) by { assert(edge(f)(p[i], p[i + 1])); }
        lem_relisted_path(f, h, d, x);
        let i = p.len() - 2;
        assert(edge(f)(p[i], p[i + 1]));
        assert(d.last() == p[i] && p.last() == p[i + 1]);
        lem_reach_step(edge(h), same_node(f, h, x), same_node(f, h, p[i]), same_node(f, h, p[i + 1]));
    }
}
pub proof fn lem_relisted_reach(f: Fbas, h: Fbas, x: usize, y: usize)
    requires relisted(f, h), reach(edge(f), x, y), x < f.nodes@.len()
    ensures y < f.nodes@.len(), reach(edge(h), same_node(f, h, x), same_node(f, h, y))
{
    reveal(reach);
    let p = choose|p: Seq<usize>| #[trigger] is_path(edge(f), p) && p[0] == x && p.last() == y;
    lem_relisted_path(f, h, p, x);
}
pub proof fn lem_relisted_relevant(f: Fbas, h: Fbas, x: usize)
    requires relisted(f, h), relevant(f, x)
    ensures x < f.nodes@.len(), relevant(h, same_node(f, h, x))
{
    let (g, k) = (greatest(f), greatest(h));
    lem_relisted_sym(f, h);
    lem_relisted_greatest(f, h, x);
    lem_same_node(f, h, x);
    let c = choose|c: Set<usize>| #[trigger] is_comp(f, g, c, x) && has_q(f, c);
    lem_greatest_holds(f); lem_all_ids(f); lem_greatest_holds(h); lem_all_ids(h);
    assert(inr(f, c)) by { assert forall|y: usize| #[trigger] c.contains(y) implies y < f.nodes@.len() by { assert(g.contains(y)); } }
    let d = origin(h, f, c);
    lem_origin_inr(f, h, c);
    let xx = same_node(f, h, x);
    assert forall|y: usize| #[trigger] d.contains(y) <==> k.contains(y) && connected(h, xx, y) by {
        if d.contains(y) {
            lem_origin(f, h, c, y);
            let z = choose|z: usize| #[trigger] c.contains(z) && same_node(f, h, z) == y;
            lem_relisted_greatest(f, h, z);
            lem_relisted_reach(f, h, x, z);
            lem_relisted_reach(f, h, z, x);
        }
        if k.contains(y) && connected(h, xx, y) {
            assert(y < h.nodes@.len());
            let z = same_node(h, f, y);
            lem_same_node(h, f, y);
            lem_relisted_greatest(h, f, y);
            lem_relisted_reach(h, f, xx, y);
            lem_relisted_reach(h, f, y, xx);
            assert(c.contains(z));
            assert(d.contains(same_node(f, h, z)));
        }
    }
    assert(d.contains(xx));
    assert(is_comp(h, k, d, xx));
    let q = choose|q: Set<usize>| #[trigger] q.subset_of(c) && is_q(f, q);
    assert(inr(f, q));
    lem_relisted_closed(f, h, q);
    let t = origin(h, f, q);
    assert(t.subset_of(d)) by { assert forall|y: usize| t.contains(y) implies d.contains(y) by { lem_origin(f, h, q, y); let z = choose|z: usize| #[trigger] q.contains(z) && same_node(f, h, z) == y; assert(d.contains(same_node(f, h, z))); } }
}
/// a strictly ascending list of keys is determined by its entries
pub open spec fn up(v: Seq<String>) -> bool { v.no_duplicates() && forall|i: int, j: int| 0 <= i < j < v.len() ==> str_le(#[trigger] v[i], #[trigger] v[j]) }
pub proof fn lem_up_unique(v: Seq<String>, w: Seq<String>)
    requires up(v), up(w), forall|k: String| #[trigger] v.contains(k) <==> w.contains(k)
    ensures v == w
    decreases v.len()
{
    if v.len() == 0 {
        if w.len() > 0 { assert(w.contains(w[0])); assert(v.contains(w[0])); }
        assert(v =~= w);
    } else {
        assert(v.contains(v.last()));
        assert(w.contains(v.last()));
        assert(w.contains(w.last()));
        assert(v.contains(w.last()));
        let i = choose|i: int| 0 <= i < w.len() && w[i] == v.last();
        let j = choose|j: int| 0 <= j < v.len() && v[j] == w.last();
        assert(v.last() == w.last()) by {
            if i < w.len() - 1 && j < v.len() - 1 { assert(str_le(w[i], w[w.len() - 1])); assert(str_le(v[j], v[v.len() - 1])); ax_str_le(v.last(), w.last(), w.last()); }
        }
        let (d, e) = (v.drop_last(), w.drop_last());
        assert forall|k: String| #[trigger] d.contains(k) <==> e.contains(k) by {
            if d.contains(k) { let i = choose|i: int| 0 <= i < d.len() && d[i] == k; assert(v[i] == k); assert(v.contains(k)); assert(w.contains(k)); let j = choose|j: int| 0 <= j < w.len() && w[j] == k; assert(v[i] != v[v.len() - 1]); assert(e[j] == k); }
            if e.contains(k) { let i = choose|i: int| 0 <= i < e.len() && e[i] == k; assert(w[i] == k); assert(w.contains(k)); assert(v.contains(k)); let j = choose|j: int| 0 <= j < v.len() && v[j] == k; assert(w[i] != w[w.len() - 1]); assert(d[j] == k); }
        }
        assert(up(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies str_le(#[trigger] d[i], #[trigger] d[j]) by { assert(str_le(v[i], v[j])); } }
        assert(up(e)) by { assert forall|i: int, j: int| 0 <= i < j < e.len() implies str_le(#[trigger] e[i], #[trigger] e[j]) by { assert(str_le(w[i], w[j])); } }
        lem_up_unique(d, e);
        assert(v =~= d.push(v.last()));
        assert(w =~= e.push(w.last()));
    }
}
pub open spec fn key_list(r: Fbas) -> Seq<String> { Seq::new(r.nodes@.len(), |i: int| r.nodes@[i].public_key) }
pub proof fn lem_key_list(r: Fbas, k: String)
    requires keyed(r), keys_ascend(r)
    ensures up(key_list(r)), key_list(r).contains(k) <==> r.pk_to_id@.dom().contains(k)
{
    let v = key_list(r);
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies str_le(#[trigger] v[i], #[trigger] v[j]) by { assert(str_le(r.nodes@[i].public_key, r.nodes@[j].public_key)); }
    assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies v[i] != v[j] by { assert(r.pk_to_id@[r.nodes@[i].public_key] == i); assert(r.pk_to_id@[r.nodes@[j].public_key] == j); }
    if v.contains(k) { let i = choose|i: int| 0 <= i < v.len() && v[i] == k; assert(r.nodes@[i].public_key == k); }
    if r.pk_to_id@.dom().contains(k) { assert(v[r.pk_to_id@[k] as int] == k); }
}
pub proof fn lem_std_sub(f: Fbas, h: Fbas, rf: Fbas, rh: Fbas, k: String)
    requires relisted(f, h), std_form(f, rf), std_form(h, rh), rf.pk_to_id@.dom().contains(k)
    ensures rh.pk_to_id@.dom().contains(k)
{
    let i = rf.pk_to_id@[k] as int;
    assert(rf.nodes@[i].public_key == k);
    let x = f.pk_to_id@[k];
    assert(f.nodes@[x as int].public_key == k);
    lem_relisted_relevant(f, h, x);
    lem_same_node(f, h, x);
    let y = same_node(f, h, x);
    assert(relevant(h, y));
}
/// C16: the standard form is the same, whatever the order of the input
pub proof fn lem_std_order(f: Fbas, h: Fbas, rf: Fbas, rh: Fbas)
    requires relisted(f, h), std_form(f, rf), std_form(h, rh)
    ensures rf.nodes@.len() == rh.nodes@.len(),
        forall|i: int| 0 <= i < rf.nodes@.len() ==> (#[trigger] rf.nodes@[i]).public_key == rh.nodes@[i].public_key,
        forall|i: usize, s: Set<usize>| i < rf.nodes@.len() && inr(rf, s) ==> #[trigger] fsat(rf, i, s) == fsat(rh, i, s)
{
    lem_relisted_sym(f, h);
    let (v, w) = (key_list(rf), key_list(rh));
    assert forall|k: String| #[trigger] v.contains(k) <==> w.contains(k) by {
        lem_key_list(rf, k); lem_key_list(rh, k);
        if v.contains(k) { lem_std_sub(f, h, rf, rh, k); }
        if w.contains(k) { lem_std_sub(h, f, rh, rf, k); }
    }
    lem_key_list(rf, generic_name(0)); lem_key_list(rh, generic_name(0));
    lem_up_unique(v, w);
    assert forall|i: int| 0 <= i < rf.nodes@.len() implies (#[trigger] rf.nodes@[i]).public_key == rh.nodes@[i].public_key by { assert(v[i] == w[i]); }
    assert forall|i: usize, s: Set<usize>| i < rf.nodes@.len() && inr(rf, s) implies #[trigger] fsat(rf, i, s) == fsat(rh, i, s) by {
        let (a, b) = (origin(f, rf, s), origin(h, rh, s));
        assert(sat(rf.nodes@[i as int].quorum_set, s) == sat(f.nodes@[f.pk_to_id@[rf.nodes@[i as int].public_key] as int].quorum_set, a));
        assert(sat(rh.nodes@[i as int].quorum_set, s) == sat(h.nodes@[h.pk_to_id@[rh.nodes@[i as int].public_key] as int].quorum_set, b));
        let x = same_node(rf, f, i);
        lem_origin_inr(rf, f, s);
        lem_same_node(rf, f, i);
        assert(fsat(f, x, a) == fsat(h, same_node(f, h, x), origin(h, f, a)));
        assert forall|j: usize| j < rf.nodes@.len() implies #[trigger] same_node(f, h, same_node(rf, f, j)) == same_node(rh, h, j) by { lem_same_node(rf, f, j); assert(rf.nodes@[j as int].public_key == rh.nodes@[j as int].public_key); }
        assert forall|y: usize| origin(h, f, a).contains(y) <==> b.contains(y) by {
            lem_origin(f, h, a, y); lem_origin(rh, h, s, y);
            if origin(h, f, a).contains(y) { let z = choose|z: usize| #[trigger] a.contains(z) && same_node(f, h, z) == y; lem_origin(rf, f, s, z); let j = choose|j: usize| #[trigger] s.contains(j) && same_node(rf, f, j) == z; assert(same_node(rh, h, j) == y); }
            if b.contains(y) { let j = choose|j: usize| #[trigger] s.contains(j) && same_node(rh, h, j) == y; let z = same_node(rf, f, j); lem_origin(rf, f, s, z); assert(a.contains(z)); assert(same_node(f, h, z) == y); }
        }
        assert(origin(h, f, a) =~= b);
        assert(same_node(f, h, x) == same_node(rh, h, i));
    }
}
/// C16: the same quorums among the relevant nodes
pub proof fn lem_std_quorums(f: Fbas, r: Fbas, s: Set<usize>)
    requires keyed(f), std_form(f, r), inr(r, s)
    ensures is_q(r, s) <==> is_q(f, origin(f, r, s))
{
    let o = origin(f, r, s);
    lem_origin_inr(r, f, s);
    assert forall|x: usize| #[trigger] s.contains(x) implies fsat(r, x, s) == fsat(f, same_node(r, f, x), o) && o.contains(same_node(r, f, x)) by {
        assert(sat(r.nodes@[x as int].quorum_set, s) == sat(f.nodes@[f.pk_to_id@[r.nodes@[x as int].public_key] as int].quorum_set, o));
    }
    if is_q(f, o) {
        let y = lem_nonempty(o);
        lem_origin(r, f, s, y);
    }
    if is_q(r, s) {
        let x = lem_nonempty(s);
        assert forall|y: usize| #[trigger] o.contains(y) implies fsat(f, y, o) by { lem_origin(r, f, s, y); let x = choose|x: usize| #[trigger] s.contains(x) && same_node(r, f, x) == y; assert(fsat(r, x, s)); }
    }
}
