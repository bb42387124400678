// ---- groupings in compact numbers
/// the same name; the members are the kept ones, renumbered, in ascending order
pub open spec fn carried(g: Grouping, h: Grouping, m: Map<usize, usize>) -> bool {
    h.name == g.name && sort_of(kept(g.validators@, m), h.validators@)
}
pub open spec fn all_carried(gs: Seq<Grouping>, hs: Seq<Grouping>, m: Map<usize, usize>) -> bool {
    hs.len() == gs.len() && forall|a: int| #![trigger hs[a]] #![trigger gs[a]] 0 <= a < gs.len() ==> carried(gs[a], hs[a], m)
}
pub proof fn lem_kept_from(v: Seq<usize>, m: Map<usize, usize>, y: usize)
    requires kept(v, m).contains(y)
    ensures exists|x: usize| #[trigger] v.contains(x) && m.dom().contains(x) && m[x] == y
    decreases v.len()
{
    if v.len() > 0 {
        let d = v.drop_last();
        let i = choose|i: int| 0 <= i < kept(v, m).len() && kept(v, m)[i] == y;
        if m.dom().contains(v.last()) && i == kept(v, m).len() - 1 { assert(v[v.len() - 1] == v.last()); assert(v.contains(v.last())); } else {
            assert(kept(d, m)[i] == y); assert(kept(d, m).contains(y));
            lem_kept_from(d, m, y);
            let x = choose|x: usize| #[trigger] d.contains(x) && m.dom().contains(x) && m[x] == y;
            let k = choose|k: int| 0 <= k < d.len() && d[k] == x;
            assert(v[k] == x); assert(v.contains(x));
        }
    }
}
pub proof fn lem_kept_to(v: Seq<usize>, m: Map<usize, usize>, x: usize)
    requires v.contains(x), m.dom().contains(x)
    ensures kept(v, m).contains(m[x])
    decreases v.len()
{
    let d = v.drop_last();
    if v.last() == x { assert(kept(v, m)[kept(v, m).len() - 1] == m[x]); } else {
        let k = choose|k: int| 0 <= k < v.len() && v[k] == x;
        assert(d[k] == x);
        lem_kept_to(d, m, x);
        let j = choose|j: int| 0 <= j < kept(d, m).len() && kept(d, m)[j] == m[x];
        assert(kept(v, m)[j] == m[x]);
    }
}
/// exactly the kept members are listed
pub proof fn lem_carried(g: Grouping, h: Grouping, m: Map<usize, usize>)
    requires carried(g, h, m)
    ensures
        forall|x: usize| listed(g, x) && #[trigger] m.dom().contains(x) ==> listed(h, m[x]),
        forall|y: usize| #[trigger] listed(h, y) ==> exists|x: usize| #[trigger] listed(g, x) && m.dom().contains(x) && m[x] == y,
{
    let k = kept(g.validators@, m);
    assert forall|x: usize| listed(g, x) && #[trigger] m.dom().contains(x) implies listed(h, m[x]) by { lem_kept_to(g.validators@, m, x); lem_sort_has(k, h.validators@, m[x]); }
    assert forall|y: usize| #[trigger] listed(h, y) implies exists|x: usize| #[trigger] listed(g, x) && m.dom().contains(x) && m[x] == y by {
        lem_sort_has(k, h.validators@, y);
        lem_kept_from(g.validators@, m, y);
        let x = choose|x: usize| #[trigger] g.validators@.contains(x) && m.dom().contains(x) && m[x] == y;
        assert(listed(g, x));
    }
}
pub proof fn lem_sort_has(s: Seq<usize>, r: Seq<usize>, y: usize)
    requires sort_of(s, r)
    ensures s.contains(y) <==> r.contains(y)
{ lem_rearranged(s, r, sort_perm::<usize>(s)); }
pub proof fn lem_all_carried(gs: Seq<Grouping>, hs: Seq<Grouping>, m: ShrinkManager)
    requires all_carried(gs, hs, m.shrink_map@), no_overlap(gs), sm_ok(m)
    ensures no_overlap(hs), groups_in(hs, m.unshrink_table@.len() as int)
{
    let f = m.shrink_map@;
    lem_inj(m);
    
    assert forall|a: int, b: int, y: usize| 0 <= a < hs.len() && 0 <= b < hs.len() && #[trigger] listed(hs[a], y) && #[trigger] listed(hs[b], y) implies a == b by {
        lem_carried(gs[a], hs[a], f); lem_carried(gs[b], hs[b], f);
        let x = choose|x: usize| #[trigger] listed(gs[a], x) && f.dom().contains(x) && f[x] == y;
        let z = choose|z: usize| #[trigger] listed(gs[b], z) && f.dom().contains(z) && f[z] == y;
        assert(x == z);
    }
    assert forall|a: int, y: usize| 0 <= a < hs.len() && #[trigger] listed(hs[a], y) implies y < m.unshrink_table@.len() by {
        lem_carried(gs[a], hs[a], f);
        let x = choose|x: usize| #[trigger] listed(gs[a], x) && f.dom().contains(x) && f[x] == y;
        assert(f[x] < m.unshrink_table@.len());
    }
}
pub proof fn lem_all_carried_v(gs: Vec<Grouping>, hs: Vec<Grouping>, m: ShrinkManager)
    requires all_carried(gs@, hs@, m.shrink_map@), no_overlap(gs@), sm_ok(m)
    ensures no_overlap(hs@), groups_in(hs@, m.unshrink_table@.len() as int)
{ lem_all_carried(gs@, hs@, m); }
