// ---- the front end: caches and compact ids
pub open spec fn kset(m: ShrinkManager) -> Set<usize> { m.unshrink_table@.to_set() }
/// `g` is `f` in the compact ids of `m`, and has all of its minimal quorums
pub open spec fn view_ok(f: Fbas, g: Fbas, m: ShrinkManager) -> bool {
    &&& keyed(f) && wf(f) && wf(g)
    &&& keeps(m, kset(m)) && inr(f, kset(m)) && shr_f(f, g, m)
    &&& forall|s: Set<usize>| #[trigger] min_qf(f, s) ==> s.subset_of(kset(m))
}
pub open spec fn hqi(f: Fbas) -> bool { (exists|s: Set<usize>| #[trigger] min_qf(f, s)) && qi(f) }
pub open spec fn list_s(v: Seq<Set<usize>>) -> bool { canon_s(v) && antichain_s(v) }
pub open spec fn mq_s(f: Fbas, v: Seq<Set<usize>>) -> bool { list_s(v) && forall|s: Set<usize>| #[trigger] has_s(v, s) <==> min_qf(f, s) }
pub open spec fn mbl_s(f: Fbas, v: Seq<Set<usize>>) -> bool { list_s(v) && if has_q(f, all_ids(f)) { forall|s: Set<usize>| #[trigger] has_s(v, s) <==> min_bl(f, all_ids(f), s) } else { v.len() == 0 } }
pub open spec fn mss_s(f: Fbas, v: Seq<Set<usize>>) -> bool { if hqi(f) { list_s(v) && forall|s: Set<usize>| #[trigger] has_s(v, s) <==> min_split(f, s) } else { v == seq![Set::<usize>::empty()] } }
/// union of all minimal quorums
pub open spec fn is_tt(f: Fbas, s: Set<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) <==> exists|m: Set<usize>| #[trigger] min_qf(f, m) && m.contains(x) }
pub open spec fn c_mq(f: Fbas, m: ShrinkManager, c: Option<Vec<BitSet>>) -> bool { c matches Some(v) ==> all_within(m.unshrink_table@, v@) && mq_s(f, olds(m.unshrink_table@, v@)) }
pub open spec fn c_mbl(f: Fbas, m: ShrinkManager, c: Option<Vec<BitSet>>) -> bool { c matches Some(v) ==> all_within(m.unshrink_table@, v@) && mbl_s(f, olds(m.unshrink_table@, v@)) }
pub open spec fn c_mss(f: Fbas, m: ShrinkManager, c: Option<Vec<BitSet>>) -> bool { c matches Some(v) ==> all_within(m.unshrink_table@, v@) && mss_s(f, olds(m.unshrink_table@, v@)) }
pub open spec fn an_ok(a: Analysis) -> bool {
    &&& view_ok(a.fbas_original, a.fbas_shrunken, a.shrink_manager)
    &&& a.hqi_cache matches Some(b) ==> b == hqi(a.fbas_original)
    &&& c_mq(a.fbas_original, a.shrink_manager, a.mq_shrunken_cache)
    &&& c_mbl(a.fbas_original, a.shrink_manager, a.mbs_shrunken_cache)
    &&& c_mss(a.fbas_original, a.shrink_manager, a.mss_shrunken_cache)
    &&& a.mss_shrunken_cache is Some ==> a.mq_shrunken_cache is Some
}
/// only the answer about quorum intersection may have been noted
pub open spec fn same_ids(a: Analysis, b: Analysis) -> bool {
    a.fbas_shrunken == b.fbas_shrunken && a.shrink_manager == b.shrink_manager && a.mq_shrunken_cache == b.mq_shrunken_cache && a.mbs_shrunken_cache == b.mbs_shrunken_cache && a.mss_shrunken_cache == b.mss_shrunken_cache
}
// ---- compact ids keep everything
pub proof fn lem_kset(m: ShrinkManager)
    requires keeps(m, kset(m))
    ensures inc(m.unshrink_table@), sm_ok(m), forall|x: usize| #[trigger] kset(m).contains(x) <==> m.shrink_map@.dom().contains(x)
{
    let t = m.unshrink_table@;
    lem_inc_elems(kset(m));
    assert forall|x: usize| #[trigger] kset(m).contains(x) <==> m.shrink_map@.dom().contains(x) by {
        if kset(m).contains(x) { assert(t.contains(x)); let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(m.shrink_map@.dom().contains(t[i])); }
        if m.shrink_map@.dom().contains(x) { let i = m.shrink_map@[x] as int; assert(t[i] == x); assert(t.contains(x)); }
    }
}
pub proof fn lem_v_old(f: Fbas, g: Fbas, m: ShrinkManager, s: Set<usize>)
    requires view_ok(f, g, m), within(m.unshrink_table@, s)
    ensures to_old(m.unshrink_table@, s).subset_of(kset(m)), known(m.shrink_map@, to_old(m.unshrink_table@, s)), to_new(m.shrink_map@, to_old(m.unshrink_table@, s)) == s, inr(f, to_old(m.unshrink_table@, s))
{
    lem_kset(m);
    let o = to_old(m.unshrink_table@, s);
    lem_round_trip2(m, s);
    assert forall|y: usize| o.contains(y) implies kset(m).contains(y) by {}
    assert forall|y: usize| #[trigger] o.contains(y) implies y < f.nodes@.len() by { assert(kset(m).contains(y)); }
}
pub proof fn lem_v_new(f: Fbas, g: Fbas, m: ShrinkManager, s: Set<usize>) -> (n: Set<usize>)
    requires view_ok(f, g, m), s.subset_of(kset(m))
    ensures within(m.unshrink_table@, n), to_old(m.unshrink_table@, n) == s, n == to_new(m.shrink_map@, s)
{
    lem_kset(m);
    assert forall|x: usize| #[trigger] s.contains(x) implies m.shrink_map@.dom().contains(x) by { assert(kset(m).contains(x)); }
    lem_round_trip(m, s);
    to_new(m.shrink_map@, s)
}
pub proof fn lem_v_sat(f: Fbas, g: Fbas, m: ShrinkManager, s: Set<usize>, i: usize)
    requires view_ok(f, g, m), within(m.unshrink_table@, s), i < m.unshrink_table@.len()
    ensures fsat(g, i, s) == fsat(f, m.unshrink_table@[i as int], to_old(m.unshrink_table@, s))
{
    lem_v_old(f, g, m, s);
    assert(shr_n(f.nodes@[m.unshrink_table@[i as int] as int], g.nodes@[i as int], m.shrink_map@));
}
pub proof fn lem_v_q(f: Fbas, g: Fbas, m: ShrinkManager, s: Set<usize>)
    requires view_ok(f, g, m), within(m.unshrink_table@, s)
    ensures is_q(g, s) <==> is_q(f, to_old(m.unshrink_table@, s))
{
    let t = m.unshrink_table@;
    let o = to_old(t, s);
    lem_kset(m);
    lem_v_old(f, g, m, s);
    if s != Set::<usize>::empty() { let x = lem_nonempty(s); lem_renum_mem(t, s, x); assert(o.contains(t[x as int])); }
    if o != Set::<usize>::empty() { let y = lem_nonempty(o); lem_to_old(t, s, y); let x = choose|x: usize| #[trigger] s.contains(x) && t[x as int] == y; assert(s.contains(x)); }
    if closed(g, s) {
        assert forall|y: usize| #[trigger] o.contains(y) implies fsat(f, y, o) by { lem_to_old(t, s, y); let x = choose|x: usize| #[trigger] s.contains(x) && t[x as int] == y; lem_v_sat(f, g, m, s, x); assert(fsat(g, x, s)); }
    }
    if closed(f, o) {
        assert forall|x: usize| #[trigger] s.contains(x) implies fsat(g, x, s) by { lem_renum_mem(t, s, x); lem_v_sat(f, g, m, s, x); assert(o.contains(t[x as int])); assert(fsat(f, t[x as int], o)); }
    }
}
pub proof fn lem_v_mq(f: Fbas, g: Fbas, m: ShrinkManager, s: Set<usize>)
    requires view_ok(f, g, m)
    ensures min_qf(g, s) <==> within(m.unshrink_table@, s) && min_qf(f, to_old(m.unshrink_table@, s))
{
    let t = m.unshrink_table@;
    let o = to_old(t, s);
    lem_kset(m);
    if within(t, s) {
        lem_v_old(f, g, m, s);
        lem_v_q(f, g, m, s);
        if min_qf(g, s) {
            assert forall|p: Set<usize>| #[trigger] p.subset_of(o) && is_q(f, p) implies p == o by {
                assert forall|x: usize| p.contains(x) implies kset(m).contains(x) by { assert(o.contains(x)); }
                let n = lem_v_new(f, g, m, p);
                lem_v_q(f, g, m, n);
                lem_renum_sub(t, n, s);
                assert(n.subset_of(s));
            }
        }
        if min_qf(f, o) {
            assert forall|p: Set<usize>| #[trigger] p.subset_of(s) && is_q(g, p) implies p == s by {
                assert forall|x: usize| #[trigger] p.contains(x) implies x < t.len() by { assert(s.contains(x)); }
                lem_v_q(f, g, m, p);
                lem_renum_sub(t, p, s);
                assert(to_old(t, p).subset_of(o));
            }
            assert forall|x: usize| #[trigger] s.contains(x) implies x < g.nodes@.len() by {}
        }
    } else if min_qf(g, s) {
        assert forall|x: usize| #[trigger] s.contains(x) implies x < t.len() by { assert(x < g.nodes@.len()); }
    }
}
/// `P` on compact sets is `Q` on original ones
pub open spec fn tr(t: Seq<usize>, p: spec_fn(Set<usize>) -> bool, q: spec_fn(Set<usize>) -> bool) -> bool {
    &&& forall|x: Set<usize>| #[trigger] p(x) ==> within(t, x) && q(to_old(t, x))
    &&& forall|s: Set<usize>| #[trigger] q(s) ==> tr_back(t, p, s)
}
pub open spec fn tr_back(t: Seq<usize>, p: spec_fn(Set<usize>) -> bool, s: Set<usize>) -> bool { exists|x: Set<usize>| #[trigger] p(x) && within(t, x) && to_old(t, x) == s }
pub proof fn lem_tr_list(t: Seq<usize>, v: Seq<BitSet>, p: spec_fn(Set<usize>) -> bool, q: spec_fn(Set<usize>) -> bool)
    requires inc(t), tr(t, p, q), forall|s: Set<usize>| #[trigger] has(v, s) <==> p(s)
    ensures all_within(t, v), forall|s: Set<usize>| #[trigger] has_s(olds(t, v), s) <==> q(s),
        canonical(v) <==> canon_s(olds(t, v)), antichain(v) <==> antichain_s(olds(t, v))
{
    assert forall|i: int| 0 <= i < v.len() implies within(t, (#[trigger] v[i])@) by { assert(has(v, v[i]@)); }
    lem_renum_canon(t, v);
    let o = olds(t, v);
    assert forall|s: Set<usize>| #[trigger] has_s(o, s) <==> q(s) by {
        if has_s(o, s) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == s; assert(has(v, v[i]@)); assert(p(v[i]@)); }
        if q(s) { assert(tr_back(t, p, s)); let x = choose|x: Set<usize>| #[trigger] p(x) && within(t, x) && to_old(t, x) == s; assert(has(v, x)); let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i]@ == x; assert(o[i] == s); }
    }
}
pub proof fn lem_tr_list_back(t: Seq<usize>, v: Seq<BitSet>, p: spec_fn(Set<usize>) -> bool, q: spec_fn(Set<usize>) -> bool)
    requires inc(t), tr(t, p, q), all_within(t, v), forall|s: Set<usize>| #[trigger] has_s(olds(t, v), s) <==> q(s)
    ensures forall|s: Set<usize>| #[trigger] has(v, s) <==> p(s), canonical(v) <==> canon_s(olds(t, v)), antichain(v) <==> antichain_s(olds(t, v))
{
    let o = olds(t, v);
    lem_renum_canon(t, v);
    assert forall|s: Set<usize>| #[trigger] has(v, s) <==> p(s) by {
        if has(v, s) {
            let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i]@ == s;
            assert(o[i] == to_old(t, s)); assert(has_s(o, o[i])); assert(q(o[i])); assert(tr_back(t, p, o[i]));
            let x = choose|x: Set<usize>| #[trigger] p(x) && within(t, x) && to_old(t, x) == o[i];
            lem_renum_sub(t, x, s);
        }
        if p(s) {
            assert(q(to_old(t, s))); assert(has_s(o, to_old(t, s)));
            let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == to_old(t, s);
            assert(within(t, v[i]@));
            lem_renum_sub(t, v[i]@, s);
        }
    }
}
pub open spec fn least(p: spec_fn(Set<usize>) -> bool) -> spec_fn(Set<usize>) -> bool { |s: Set<usize>| p(s) && forall|t: Set<usize>| #[trigger] p(t) && t.subset_of(s) ==> t == s }
pub proof fn lem_tr_least(t: Seq<usize>, p: spec_fn(Set<usize>) -> bool, q: spec_fn(Set<usize>) -> bool)
    requires inc(t), tr(t, p, q)
    ensures tr(t, least(p), least(q))
{
    let (lp, lq) = (least(p), least(q));
    assert forall|x: Set<usize>| #[trigger] lp(x) implies within(t, x) && lq(to_old(t, x)) by {
        assert(p(x));
        assert forall|s: Set<usize>| #[trigger] q(s) && s.subset_of(to_old(t, x)) implies s == to_old(t, x) by {
            assert(tr_back(t, p, s));
            let y = choose|y: Set<usize>| #[trigger] p(y) && within(t, y) && to_old(t, y) == s;
            lem_renum_sub(t, y, x);
        }
    }
    assert forall|s: Set<usize>| #[trigger] lq(s) implies tr_back(t, lp, s) by {
        assert(q(s)); assert(tr_back(t, p, s));
        let x = choose|x: Set<usize>| #[trigger] p(x) && within(t, x) && to_old(t, x) == s;
        assert forall|y: Set<usize>| #[trigger] p(y) && y.subset_of(x) implies y == x by { assert(q(to_old(t, y))); lem_renum_sub(t, y, x); }
        assert(lp(x));
    }
}
pub open spec fn p_mq(f: Fbas) -> spec_fn(Set<usize>) -> bool { |s: Set<usize>| min_qf(f, s) }
pub open spec fn p_bl(f: Fbas) -> spec_fn(Set<usize>) -> bool { |s: Set<usize>| min_bl(f, all_ids(f), s) }
pub open spec fn p_sx(f: Fbas) -> spec_fn(Set<usize>) -> bool { |s: Set<usize>| splitx(f, s) }
pub open spec fn p_ss(f: Fbas) -> spec_fn(Set<usize>) -> bool { |s: Set<usize>| min_split(f, s) }
pub proof fn lem_tr_mq(f: Fbas, g: Fbas, m: ShrinkManager)
    requires view_ok(f, g, m)
    ensures tr(m.unshrink_table@, p_mq(g), p_mq(f)), inc(m.unshrink_table@)
{
    let t = m.unshrink_table@;
    lem_kset(m);
    let (p, q) = (p_mq(g), p_mq(f));
    assert forall|x: Set<usize>| #[trigger] p(x) implies within(t, x) && q(to_old(t, x)) by { lem_v_mq(f, g, m, x); }
    assert forall|s: Set<usize>| #[trigger] q(s) implies tr_back(t, p, s) by { let n = lem_v_new(f, g, m, s); lem_v_mq(f, g, m, n); assert(p(n)); }
}
pub proof fn lem_renum_inter(t: Seq<usize>, a: Set<usize>, b: Set<usize>)
    requires inc(t), within(t, a), within(t, b)
    ensures within(t, a.intersect(b)), to_old(t, a.intersect(b)) == to_old(t, a).intersect(to_old(t, b)), a.disjoint(b) <==> to_old(t, a).disjoint(to_old(t, b))
{
    let c = a.intersect(b);
    assert forall|y: usize| to_old(t, c).contains(y) <==> to_old(t, a).contains(y) && to_old(t, b).contains(y) by {
        lem_to_old(t, a, y); lem_to_old(t, b, y); lem_to_old(t, c, y);
        if to_old(t, a).contains(y) && to_old(t, b).contains(y) {
            let x = choose|x: usize| #[trigger] a.contains(x) && t[x as int] == y;
            lem_renum_mem(t, b, x);
            assert(c.contains(x));
        }
        if to_old(t, c).contains(y) { let x = choose|x: usize| #[trigger] c.contains(x) && t[x as int] == y; assert(a.contains(x) && b.contains(x)); }
    }
    assert(to_old(t, c) =~= to_old(t, a).intersect(to_old(t, b)));
    if !a.disjoint(b) { let x = choose|x: usize| a.contains(x) && b.contains(x); lem_renum_mem(t, a, x); lem_renum_mem(t, b, x); assert(to_old(t, a).contains(t[x as int]) && to_old(t, b).contains(t[x as int])); }
    if !to_old(t, a).disjoint(to_old(t, b)) {
        let y = choose|y: usize| to_old(t, a).contains(y) && to_old(t, b).contains(y);
        lem_to_old(t, c, y); assert(to_old(t, c).contains(y));
        let x = choose|x: usize| #[trigger] c.contains(x) && t[x as int] == y; assert(a.contains(x) && b.contains(x));
    }
}
pub proof fn lem_tr_ss(f: Fbas, g: Fbas, m: ShrinkManager)
    requires view_ok(f, g, m)
    ensures tr(m.unshrink_table@, p_ss(g), p_ss(f)), inc(m.unshrink_table@)
{
    let t = m.unshrink_table@;
    lem_kset(m);
    let (p, q) = (p_sx(g), p_sx(f));
    assert forall|x: Set<usize>| #[trigger] p(x) implies within(t, x) && q(to_old(t, x)) by {
        let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] split2(g, a, b, x);
        lem_v_mq(f, g, m, a); lem_v_mq(f, g, m, b);
        lem_renum_inter(t, a, b); lem_renum_sub(t, a, b);
        assert(split2(f, to_old(t, a), to_old(t, b), to_old(t, x)));
    }
    assert forall|s: Set<usize>| #[trigger] q(s) implies tr_back(t, p, s) by {
        let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] split2(f, a, b, s);
        let (c, d) = (lem_v_new(f, g, m, a), lem_v_new(f, g, m, b));
        lem_v_mq(f, g, m, c); lem_v_mq(f, g, m, d);
        lem_renum_inter(t, c, d);
        assert(split2(g, c, d, c.intersect(d)));
        assert(p(c.intersect(d)));
    }
    lem_tr_least(t, p, q);
    lem_least_ss(f); lem_least_ss(g);
}
pub proof fn lem_least_ss(f: Fbas)
    ensures least(p_sx(f)) == p_ss(f)
{
    let (a, b) = (least(p_sx(f)), p_ss(f));
    let p = p_sx(f);
    assert forall|s: Set<usize>| #[trigger] a(s) == b(s) by {
        if a(s) { assert(p(s)); assert forall|t: Set<usize>| #[trigger] splitx(f, t) && t.subset_of(s) implies t == s by { assert(p(t)); } }
        if b(s) { assert forall|t: Set<usize>| #[trigger] p(t) && t.subset_of(s) implies t == s by { assert(splitx(f, t)); } }
    }
    assert(a =~= b);
}
pub open spec fn hits(f: Fbas, s: Set<usize>) -> bool { forall|m: Set<usize>| #[trigger] min_qf(f, m) ==> !m.disjoint(s) }
pub proof fn lem_hits(f: Fbas, s: Set<usize>)
    requires wf(f)
    ensures blocks(f, all_ids(f), s) <==> hits(f, s)
{
    lem_all_ids(f);
    let r = all_ids(f).difference(s);
    if blocks(f, all_ids(f), s) {
        assert forall|m: Set<usize>| #[trigger] min_qf(f, m) implies !m.disjoint(s) by {
            if m.disjoint(s) { assert forall|x: usize| m.contains(x) implies r.contains(x) by { assert(x < f.nodes@.len()); if s.contains(x) { assert(!m.disjoint(s)); } } assert(m.subset_of(r)); }
        }
    }
    if hits(f, s) && has_q(f, r) {
        let q = choose|q: Set<usize>| #[trigger] q.subset_of(r) && is_q(f, q);
        let m = lem_has_min_q(f, q);
        assert forall|x: usize| #[trigger] m.contains(x) implies x < f.nodes@.len() && r.contains(x) by { assert(q.contains(x)); assert(r.contains(x)); assert(all_ids(f).contains(x)); }
        assert(min_qf(f, m));
        assert(m.disjoint(s));
    }
}
pub proof fn lem_v_hits(f: Fbas, g: Fbas, m: ShrinkManager, x: Set<usize>)
    requires view_ok(f, g, m), within(m.unshrink_table@, x)
    ensures hits(g, x) <==> hits(f, to_old(m.unshrink_table@, x))
{
    let t = m.unshrink_table@;
    let o = to_old(t, x);
    lem_kset(m);
    if hits(g, x) { assert forall|q: Set<usize>| #[trigger] min_qf(f, q) implies !q.disjoint(o) by { let n = lem_v_new(f, g, m, q); lem_v_mq(f, g, m, n); lem_renum_inter(t, n, x); } }
    if hits(f, o) { assert forall|q: Set<usize>| #[trigger] min_qf(g, q) implies !q.disjoint(x) by { lem_v_mq(f, g, m, q); lem_renum_inter(t, q, x); } }
}
pub proof fn lem_tr_bl(f: Fbas, g: Fbas, m: ShrinkManager)
    requires view_ok(f, g, m)
    ensures tr(m.unshrink_table@, p_bl(g), p_bl(f)), inc(m.unshrink_table@)
{
    let t = m.unshrink_table@;
    lem_kset(m); lem_all_ids(f); lem_all_ids(g);
    let (p, q) = (p_bl(g), p_bl(f));
    assert forall|x: Set<usize>| #[trigger] p(x) implies within(t, x) && q(to_old(t, x)) by { lem_tr_bl_to(f, g, m, x); }
    assert forall|s: Set<usize>| #[trigger] q(s) implies tr_back(t, p, s) by {
        let n = lem_tr_bl_from(f, g, m, s);
        assert(p(n));
    }
}
pub proof fn lem_tr_bl_to(f: Fbas, g: Fbas, m: ShrinkManager, x: Set<usize>)
    requires view_ok(f, g, m), min_bl(g, all_ids(g), x)
    ensures within(m.unshrink_table@, x), min_bl(f, all_ids(f), to_old(m.unshrink_table@, x))
{
    let t = m.unshrink_table@;
    lem_kset(m); lem_all_ids(f); lem_all_ids(g);
    assert forall|i: usize| #[trigger] x.contains(i) implies i < t.len() by { assert(all_ids(g).contains(i)); }
    let o = to_old(t, x);
    lem_v_old(f, g, m, x);
    lem_hits(g, x); lem_v_hits(f, g, m, x); lem_hits(f, o);
    assert forall|y: usize| o.contains(y) implies all_ids(f).contains(y) by { assert(y < f.nodes@.len()); }
    assert forall|u: Set<usize>| #[trigger] u.subset_of(o) && blocks(f, all_ids(f), u) implies u == o by {
        assert forall|y: usize| u.contains(y) implies kset(m).contains(y) by { assert(o.contains(y)); }
        let n = lem_v_new(f, g, m, u);
        lem_hits(f, u); lem_v_hits(f, g, m, n); lem_hits(g, n);
        lem_renum_sub(t, n, x);
        assert(n.subset_of(x));
    }
}
pub proof fn lem_tr_bl_from(f: Fbas, g: Fbas, m: ShrinkManager, s: Set<usize>) -> (n: Set<usize>)
    requires view_ok(f, g, m), min_bl(f, all_ids(f), s)
    ensures within(m.unshrink_table@, n), to_old(m.unshrink_table@, n) == s, min_bl(g, all_ids(g), n)
{
    let t = m.unshrink_table@;
    lem_kset(m); lem_all_ids(f); lem_all_ids(g);
    let c = s.intersect(kset(m));
    lem_hits(f, s); lem_hits(f, c);
    assert forall|q: Set<usize>| #[trigger] min_qf(f, q) implies !q.disjoint(c) by { assert(q.subset_of(kset(m))); let y = choose|y: usize| q.contains(y) && s.contains(y); assert(c.contains(y)); }
    assert(c.subset_of(s));
    assert(c == s);
    assert(s.subset_of(kset(m))) by { assert forall|y: usize| s.contains(y) implies kset(m).contains(y) by { assert(c.contains(y)); } }
    let n = lem_v_new(f, g, m, s);
    lem_v_hits(f, g, m, n); lem_hits(g, n);
    assert forall|i: usize| n.contains(i) implies all_ids(g).contains(i) by { assert(i < t.len()); }
    assert forall|u: Set<usize>| #[trigger] u.subset_of(n) && blocks(g, all_ids(g), u) implies u == n by {
        assert forall|i: usize| #[trigger] u.contains(i) implies i < t.len() by { assert(n.contains(i)); }
        let w = to_old(t, u);
        lem_renum_sub(t, u, n);
        lem_hits(g, u); lem_v_hits(f, g, m, u); lem_hits(f, w);
        assert(w.subset_of(s));
    }
    n
}
pub proof fn lem_some_q(f: Fbas)
    requires wf(f)
    ensures has_q(f, all_ids(f)) <==> exists|s: Set<usize>| #[trigger] min_qf(f, s)
{
    lem_all_ids(f);
    if has_q(f, all_ids(f)) {
        let q = choose|q: Set<usize>| #[trigger] q.subset_of(all_ids(f)) && is_q(f, q);
        let m = lem_has_min_q(f, q);
        assert forall|x: usize| #[trigger] m.contains(x) implies x < f.nodes@.len() by { assert(q.contains(x)); assert(all_ids(f).contains(x)); }
        assert(min_qf(f, m));
    }
    if exists|s: Set<usize>| #[trigger] min_qf(f, s) {
        let s = choose|s: Set<usize>| #[trigger] min_qf(f, s);
        assert forall|x: usize| s.contains(x) implies all_ids(f).contains(x) by { assert(x < f.nodes@.len()); }
        assert(s.subset_of(all_ids(f)));
    }
}
pub proof fn lem_v_hqi(f: Fbas, g: Fbas, m: ShrinkManager)
    requires view_ok(f, g, m)
    ensures has_q(g, all_ids(g)) == has_q(f, all_ids(f)), qi(g) == qi(f), hqi(g) == hqi(f), two_disjoint(g) == !qi(g), two_disjoint(f) == !qi(f)
{
    let t = m.unshrink_table@;
    lem_kset(m);
    lem_some_q(f); lem_some_q(g);
    lem_two(f); lem_two(g);
    if exists|s: Set<usize>| #[trigger] min_qf(g, s) { let s = choose|s: Set<usize>| #[trigger] min_qf(g, s); lem_v_mq(f, g, m, s); assert(min_qf(f, to_old(t, s))); }
    if exists|s: Set<usize>| #[trigger] min_qf(f, s) { let s = choose|s: Set<usize>| #[trigger] min_qf(f, s); let n = lem_v_new(f, g, m, s); lem_v_mq(f, g, m, n); assert(min_qf(g, n)); }
    if qi(g) { assert forall|a: Set<usize>, b: Set<usize>| #[trigger] min_qf(f, a) && #[trigger] min_qf(f, b) implies !a.disjoint(b) by { let (c, d) = (lem_v_new(f, g, m, a), lem_v_new(f, g, m, b)); lem_v_mq(f, g, m, c); lem_v_mq(f, g, m, d); lem_renum_inter(t, c, d); } }
    if qi(f) { assert forall|a: Set<usize>, b: Set<usize>| #[trigger] min_qf(g, a) && #[trigger] min_qf(g, b) implies !a.disjoint(b) by { lem_v_mq(f, g, m, a); lem_v_mq(f, g, m, b); lem_renum_inter(t, a, b); } }
}
/// two disjoint quorums exist exactly when two minimal ones do
pub proof fn lem_two(f: Fbas)
    ensures two_disjoint(f) == !qi(f)
{
    if two_disjoint(f) {
        let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] is_q(f, a) && #[trigger] is_q(f, b) && inr(f, a) && inr(f, b) && a.disjoint(b);
        let (c, d) = (lem_has_min_q(f, a), lem_has_min_q(f, b));
        assert forall|x: usize| #[trigger] c.contains(x) implies x < f.nodes@.len() by { assert(a.contains(x)); }
        assert forall|x: usize| #[trigger] d.contains(x) implies x < f.nodes@.len() by { assert(b.contains(x)); }
        assert(min_qf(f, c) && min_qf(f, d));
        assert(c.disjoint(d)) by { assert forall|x: usize| !(c.contains(x) && d.contains(x)) by { if c.contains(x) && d.contains(x) { assert(a.contains(x) && b.contains(x)); } } }
    }
    if !qi(f) {
        let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] min_qf(f, a) && #[trigger] min_qf(f, b) && a.disjoint(b);
        assert(is_q(f, a) && is_q(f, b));
    }
}
// ---- from one compact numbering to the next
pub proof fn lem_view(f: Fbas, g: Fbas, m: ShrinkManager, k: Set<usize>)
    requires keyed(f), wf(f), keeps(m, k), inr(f, k), shr_f(f, g, m), forall|s: Set<usize>| #[trigger] min_qf(f, s) ==> s.subset_of(k)
    ensures view_ok(f, g, m), kset(m) == k
{
    let t = m.unshrink_table@;
    ax_elems(k);
    lem_all_ids(f);
    assert(k.subset_of(all_ids(f)));
    let s = range_seq(0, f.nodes@.len() as usize);
    s.lemma_cardinality_of_set();
    vstd::set_lib::lemma_len_subset(k, all_ids(f));
    assert(k.len() <= f.nodes@.len());
    assert forall|i: int, x: usize| 0 <= i < g.nodes@.len() && #[trigger] mentions(g.nodes@[i].quorum_set, x) implies x < g.nodes@.len() by {
        assert(shr_n(f.nodes@[t[i] as int], g.nodes@[i], m.shrink_map@));
        assert(is_val(m.shrink_map@, x));
        let y = choose|y: usize| #[trigger] m.shrink_map@.dom().contains(y) && m.shrink_map@[y] == x;
        assert(m.shrink_map@[y] < t.len());
    }
}
pub proof fn lem_mq_relevant(f: Fbas, s: Set<usize>)
    requires wf(f), min_qf(f, s)
    ensures forall|x: usize| #[trigger] s.contains(x) ==> relevant(f, x)
{
    lem_all_ids(f);
    lem_greatest_exists(f, all_ids(f));
    let g = greatest(f);
    assert(s.subset_of(all_ids(f)));
    assert(s.subset_of(g));
    lem_min_q_comp(f, s);
    assert forall|x: usize| #[trigger] s.contains(x) implies relevant(f, x) by {
        let c = g.filter(|y: usize| connected(f, x, y));
        assert(connected(f, x, x));
        assert(is_comp(f, g, c, x));
        assert(s.subset_of(c)) by { assert forall|y: usize| s.contains(y) implies c.contains(y) by { assert(connected(f, x, y)); } }
        assert(has_q(f, c));
    }
}
pub broadcast proof fn lem_view_relevant(f: Fbas, k: Set<usize>, r: (Fbas, ShrinkManager))
    requires keyed(f), wf(f), keeps(r.1, k), shr_f(f, r.0, r.1), forall|x: usize| #[trigger] k.contains(x) <==> relevant(f, x)
    ensures #![trigger keeps(r.1, k), shr_f(f, r.0, r.1)] view_ok(f, r.0, r.1)
{
    lem_rel_inr(f, k);
    assert forall|s: Set<usize>| #[trigger] min_qf(f, s) implies s.subset_of(k) by { lem_mq_relevant(f, s); assert forall|x: usize| s.contains(x) implies k.contains(x) by {} }
    lem_view(f, r.0, r.1, k);
}
pub broadcast proof fn lem_rel_inr(f: Fbas, k: Set<usize>)
    requires wf(f), forall|x: usize| #[trigger] k.contains(x) <==> relevant(f, x)
    ensures #[trigger] inr(f, k)
{
    lem_all_ids(f);
    lem_greatest_exists(f, all_ids(f));
    assert forall|x: usize| #[trigger] k.contains(x) implies x < f.nodes@.len() by { assert(relevant(f, x)); assert(all_ids(f).contains(x)); }
}
/// the union of the minimal quorums, or of the minimal blocking sets, is the top tier
pub proof fn lem_tt_mq(f: Fbas, t: Seq<usize>, v: Seq<BitSet>)
    requires all_within(t, v), mq_s(f, olds(t, v))
    ensures within(t, union_all(v)), is_tt(f, to_old(t, union_all(v)))
{
    lem_union_olds(t, v);
    let (u, o) = (to_old(t, union_all(v)), olds(t, v));
    assert forall|x: usize| #[trigger] u.contains(x) <==> exists|m: Set<usize>| #[trigger] min_qf(f, m) && m.contains(x) by {
        lem_union_s(o, x);
        if u.contains(x) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).contains(x); assert(has_s(o, o[i])); assert(min_qf(f, o[i])); }
        if exists|m: Set<usize>| #[trigger] min_qf(f, m) && m.contains(x) {
            let m = choose|m: Set<usize>| #[trigger] min_qf(f, m) && m.contains(x);
            assert(has_s(o, m));
            let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == m;
            assert(o[i].contains(x));
        }
    }
}
pub proof fn lem_tt_mbl(f: Fbas, t: Seq<usize>, v: Seq<BitSet>)
    requires all_within(t, v), mbl_s(f, olds(t, v)), wf(f)
    ensures within(t, union_all(v)), is_tt(f, to_old(t, union_all(v)))
{
    lem_union_olds(t, v);
    lem_some_q(f);
    let (u, o) = (to_old(t, union_all(v)), olds(t, v));
    assert forall|x: usize| #[trigger] u.contains(x) <==> exists|m: Set<usize>| #[trigger] min_qf(f, m) && m.contains(x) by {
        lem_union_s(o, x);
        lem_unions(f, x);
        if u.contains(x) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).contains(x); assert(has_s(o, o[i])); assert(min_bl(f, all_ids(f), o[i])); }
        if exists|m: Set<usize>| #[trigger] min_qf(f, m) && m.contains(x) {
            assert(has_q(f, all_ids(f)));
            let m = choose|m: Set<usize>| #[trigger] min_bl(f, all_ids(f), m) && m.contains(x);
            assert(has_s(o, m));
            let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == m;
            assert(o[i].contains(x));
        }
    }
}
pub proof fn lem_union_s(v: Seq<Set<usize>>, x: usize)
    ensures union_s(v).contains(x) <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).contains(x)
    decreases v.len()
{
    if v.len() > 0 {
        let d = v.drop_last();
        lem_union_s(d, x);
        if union_s(d).contains(x) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).contains(x); assert(v[i].contains(x)); }
        if v.last().contains(x) { assert(v[v.len() - 1].contains(x)); }
        if exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).contains(x) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).contains(x); if i < d.len() { assert(d[i].contains(x)); } }
    }
}
pub proof fn lem_view_tt(f: Fbas, g: Fbas, m: ShrinkManager, k: Set<usize>)
    requires keyed(f), wf(f), keeps(m, k), shr_f(f, g, m), is_tt(f, k)
    ensures view_ok(f, g, m), kset(m) == k
{
    lem_tt_inr(f, k);
    assert forall|s: Set<usize>| #[trigger] min_qf(f, s) implies s.subset_of(k) by { assert forall|x: usize| s.contains(x) implies k.contains(x) by {} }
    lem_view(f, g, m, k);
}
pub broadcast proof fn lem_tt_inr(f: Fbas, k: Set<usize>)
    requires is_tt(f, k)
    ensures #[trigger] inr(f, k)
{
    assert forall|x: usize| #[trigger] k.contains(x) implies x < f.nodes@.len() by { let m = choose|m: Set<usize>| #[trigger] min_qf(f, m) && m.contains(x); assert(inr(f, m)); }
}
/// moving sets from one numbering to the other keeps what they stand for
pub proof fn lem_re_olds(m: ShrinkManager, t: Seq<usize>, v: Seq<BitSet>, r: Seq<BitSet>)
    requires sm_ok(m), re_sets(m.shrink_map@, t, v, r), forall|i: int| 0 <= i < v.len() ==> known(m.shrink_map@, to_old(t, (#[trigger] v[i])@))
    ensures all_within(m.unshrink_table@, r), olds(m.unshrink_table@, r) == olds(t, v)
{
    let u = m.unshrink_table@;
    assert forall|i: int| 0 <= i < r.len() implies within(u, (#[trigger] r[i])@) && to_old(u, r[i]@) == to_old(t, v[i]@) by { lem_round_trip(m, to_old(t, v[i]@)); }
    assert(olds(u, r) =~= olds(t, v));
}
/// all listed sets are within the top tier
pub open spec fn in_tt(m: ShrinkManager, t: Seq<usize>, v: Seq<BitSet>) -> bool { all_within(t, v) && forall|i: int| 0 <= i < v.len() ==> known(m.shrink_map@, to_old(t, (#[trigger] v[i])@)) }
pub proof fn lem_in_tt(m: ShrinkManager, t: Seq<usize>, v: Seq<BitSet>, k: Set<usize>)
    requires keeps(m, k), kset(m) == k, all_within(t, v), to_old(t, union_all(v)) == k
    ensures in_tt(m, t, v)
{
    lem_kset(m);
    assert forall|i: int| 0 <= i < v.len() implies known(m.shrink_map@, to_old(t, (#[trigger] v[i])@)) by {
        lem_union_sub(v, i);
        assert forall|x: usize| #[trigger] to_old(t, v[i]@).contains(x) implies m.shrink_map@.dom().contains(x) by {
            lem_to_old(t, v[i]@, x);
            let y = choose|y: usize| #[trigger] v[i]@.contains(y) && t[y as int] == x;
            lem_to_old(t, union_all(v), x);
            assert(union_all(v).contains(y));
            assert(kset(m).contains(x));
        }
    }
}
/// C11: lists of the same sets in canonical order are equal
pub proof fn lem_canon_same(a: Seq<Set<usize>>, b: Seq<Set<usize>>)
    requires canon_s(a), canon_s(b), forall|s: Set<usize>| #[trigger] has_s(a, s) <==> has_s(b, s)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(has_s(b, b[0])); assert(has_s(a, b[0])); }
        assert(a =~= b);
    } else {
        assert(has_s(a, a.last()));
        assert(has_s(b, a.last()));
        let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == a.last();
        assert(has_s(b, b.last()));
        assert(has_s(a, b.last()));
        let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == b.last();
        if i < b.len() - 1 {
            lem_s_lt(b, i, b.len() - 1);
            if j < a.len() - 1 { lem_s_lt(a, j, a.len() - 1); lem_s_anti(a.last(), b.last()); }
            else { lem_s_anti(a.last(), b.last()); }
        }
        assert(a.last() == b.last());
        let (c, d) = (a.drop_last(), b.drop_last());
        assert forall|s: Set<usize>| #[trigger] has_s(c, s) <==> has_s(d, s) by {
            if has_s(c, s) { lem_drop_has(a, b, s); }
            if has_s(d, s) { lem_drop_has(b, a, s); }
        }
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies #[trigger] s_lt(c[i], c[j]) by { lem_s_lt(a, i, j); }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] s_lt(d[i], d[j]) by { lem_s_lt(b, i, j); }
        lem_canon_lt(c); lem_canon_lt(d);
        lem_canon_same(c, d);
        assert(a =~= c.push(a.last()));
        assert(b =~= d.push(b.last()));
    }
}
pub open spec fn s_lt(a: Set<usize>, b: Set<usize>) -> bool { a.len() < b.len() || (a.len() == b.len() && lex_lt(elems(a), elems(b))) }
pub proof fn lem_s_lt(v: Seq<Set<usize>>, i: int, j: int)
    requires canon_s(v), 0 <= i < j < v.len()
    ensures s_lt(v[i], v[j])
{}
pub proof fn lem_canon_lt(v: Seq<Set<usize>>)
    requires forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] s_lt(v[i], v[j])
    ensures canon_s(v)
{ assert forall|i: int, j: int| 0 <= i < j < v.len() implies #[trigger] s_lt(v[i], v[j]) by {} 
  assert(canon_s(v)) by { reveal(canon_s); assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).len() < (#[trigger] v[j]).len() || (v[i].len() == v[j].len() && lex_lt(elems(v[i]), elems(v[j]))) by { assert(s_lt(v[i], v[j])); } } }
pub proof fn lem_s_anti(a: Set<usize>, b: Set<usize>)
    ensures !(s_lt(a, b) && s_lt(b, a)), !s_lt(a, a)
{
    lem_lex_irrefl(elems(a));
    if s_lt(a, b) && s_lt(b, a) { lem_lex_trans(elems(a), elems(b), elems(a)); }
}
pub proof fn lem_drop_has(a: Seq<Set<usize>>, b: Seq<Set<usize>>, s: Set<usize>)
    requires a.len() > 0, b.len() > 0, a.last() == b.last(), canon_s(a), forall|s: Set<usize>| #[trigger] has_s(a, s) <==> has_s(b, s), has_s(a.drop_last(), s)
    ensures has_s(b.drop_last(), s)
{
    let c = a.drop_last();
    let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i] == s;
    assert(a[i] == s);
    lem_s_lt(a, i, a.len() - 1);
    lem_s_anti(s, a.last());
    assert(has_s(a, s));
    assert(has_s(b, s));
    let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == s;
    assert(b.drop_last()[j] == s);
}
/// C11: the answers are a function of the FBAS alone, whatever was asked before
pub proof fn lem_same_answer(f: Fbas, a: Seq<Set<usize>>, b: Seq<Set<usize>>)
    ensures mq_s(f, a) && mq_s(f, b) ==> a == b, mbl_s(f, a) && mbl_s(f, b) ==> a == b, mss_s(f, a) && mss_s(f, b) ==> a == b
{
    if mq_s(f, a) && mq_s(f, b) { assert forall|s: Set<usize>| #[trigger] has_s(a, s) <==> has_s(b, s) by { assert(has_s(a, s) <==> min_qf(f, s)); } lem_canon_same(a, b); }
    if mbl_s(f, a) && mbl_s(f, b) {
        if has_q(f, all_ids(f)) { assert forall|s: Set<usize>| #[trigger] has_s(a, s) <==> has_s(b, s) by { assert(has_s(a, s) <==> min_bl(f, all_ids(f), s)); } lem_canon_same(a, b); }
        else { assert(a =~= b); }
    }
    if mss_s(f, a) && mss_s(f, b) && hqi(f) { assert forall|s: Set<usize>| #[trigger] has_s(a, s) <==> has_s(b, s) by { assert(has_s(a, s) <==> min_split(f, s)); } lem_canon_same(a, b); }
}
pub proof fn lem_same_tt(f: Fbas, a: Set<usize>, b: Set<usize>)
    requires is_tt(f, a), is_tt(f, b)
    ensures a == b
{ assert(a =~= b); }
// ---- the steps of the front end
pub broadcast proof fn b_mq_new(f: Fbas, g: Fbas, m: ShrinkManager, v: Seq<BitSet>)
    requires #[trigger] view_ok(f, g, m), canonical(v), #[trigger] antichain(v), forall|s: Set<usize>| #[trigger] has(v, s) <==> min_qf(g, s)
    ensures all_within(m.unshrink_table@, v), mq_s(f, olds(m.unshrink_table@, v))
{
    lem_tr_mq(f, g, m);
    lem_tr_list(m.unshrink_table@, v, p_mq(g), p_mq(f));
}
pub broadcast proof fn b_mbl_new(f: Fbas, g: Fbas, m: ShrinkManager, v: Seq<BitSet>)
    requires #[trigger] view_ok(f, g, m), canonical(v), #[trigger] mbl_list(g, v)
    ensures all_within(m.unshrink_table@, v), mbl_s(f, olds(m.unshrink_table@, v))
{
    lem_v_hqi(f, g, m);
    if has_q(g, all_ids(g)) { lem_tr_bl(f, g, m); lem_tr_list(m.unshrink_table@, v, p_bl(g), p_bl(f)); }
    else { lem_kset(m); lem_renum_canon(m.unshrink_table@, v); }
}
pub broadcast proof fn b_mss_new(f: Fbas, g: Fbas, m: ShrinkManager, v: Seq<BitSet>)
    requires #[trigger] view_ok(f, g, m), canonical(v), #[trigger] split_list(g, v), hqi(f)
    ensures all_within(m.unshrink_table@, v), mss_s(f, olds(m.unshrink_table@, v))
{
    lem_tr_ss(f, g, m);
    lem_tr_list(m.unshrink_table@, v, p_ss(g), p_ss(f));
}
pub broadcast proof fn b_mss_none(f: Fbas, m: ShrinkManager, v: Seq<BitSet>)
    requires !hqi(f), v.len() == 1, v[0]@ == Set::<usize>::empty()
    ensures #![trigger mss_s(f, olds(m.unshrink_table@, v))] mss_s(f, olds(m.unshrink_table@, v))
{
    let t = m.unshrink_table@;
    let o = olds(t, v);
    assert(to_old(t, v[0]@) =~= Set::<usize>::empty());
    assert(o =~= seq![Set::<usize>::empty()]);
}
/// the cached minimal quorums are those of the compact copy
pub broadcast proof fn b_mq_back(f: Fbas, g: Fbas, m: ShrinkManager, v: Seq<BitSet>)
    requires #[trigger] view_ok(f, g, m), all_within(m.unshrink_table@, v), #[trigger] mq_s(f, olds(m.unshrink_table@, v))
    ensures mq_list(g, v), canonical(v), antichain(v)
{
    lem_tr_mq(f, g, m);
    lem_tr_list_back(m.unshrink_table@, v, p_mq(g), p_mq(f));
}
pub broadcast proof fn b_hqi(f: Fbas, g: Fbas, m: ShrinkManager)
    requires #[trigger] view_ok(f, g, m)
    ensures wf(g), has_q(g, all_ids(g)) == has_q(f, all_ids(f)), qi(g) == qi(f), hqi(g) == hqi(f), two_disjoint(g) == !qi(g), two_disjoint(f) == !qi(f), hqi(f) == (has_q(f, all_ids(f)) && qi(f))
{ lem_v_hqi(f, g, m); lem_some_q(f); lem_some_q(g); }
pub broadcast proof fn b_all_cross(g: Fbas, v: Seq<BitSet>)
    requires mq_list(g, v)
    ensures #![trigger mq_list(g, v), pairwise_intersect(v)] (v.len() > 0 && pairwise_intersect(v)) == hqi(g)
{
    if v.len() > 0 { assert(has(v, v[0]@)); assert(min_qf(g, v[0]@)); }
    if exists|s: Set<usize>| #[trigger] min_qf(g, s) { let s = choose|s: Set<usize>| #[trigger] min_qf(g, s); assert(has(v, s)); }
    if pairwise_intersect(v) {
        assert forall|a: Set<usize>, b: Set<usize>| #[trigger] min_qf(g, a) && #[trigger] min_qf(g, b) implies !a.disjoint(b) by {
            assert(has(v, a) && has(v, b));
            let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i]@ == a;
            let j = choose|j: int| 0 <= j < v.len() && #[trigger] v[j]@ == b;
            if i == j { let x = lem_nonempty(a); assert(a.contains(x) && b.contains(x)); }
            else if i < j { assert(!v[i]@.disjoint(v[j]@)); }
            else { assert(!v[j]@.disjoint(v[i]@)); let x = choose|x: usize| v[j]@.contains(x) && v[i]@.contains(x); assert(a.contains(x) && b.contains(x)); }
        }
    }
    if qi(g) {
        assert forall|i: int, j: int| 0 <= i < j < v.len() implies !(#[trigger] v[i])@.disjoint((#[trigger] v[j])@) by { assert(has(v, v[i]@) && has(v, v[j]@)); assert(min_qf(g, v[i]@) && min_qf(g, v[j]@)); }
    }
}
pub broadcast proof fn b_none_listed(g: Fbas, v: Seq<BitSet>)
    requires #[trigger] mq_list(g, v), v.len() == 0
    ensures !hqi(g)
{ if exists|s: Set<usize>| #[trigger] min_qf(g, s) { let s = choose|s: Set<usize>| #[trigger] min_qf(g, s); assert(has(v, s)); } }
pub broadcast proof fn b_tt_mq(f: Fbas, t: Seq<usize>, v: Seq<BitSet>)
    requires all_within(t, v), #[trigger] mq_s(f, olds(t, v))
    ensures within(t, union_all(v)), is_tt(f, to_old(t, union_all(v)))
{ lem_tt_mq(f, t, v); }
pub broadcast proof fn b_tt_mbl(f: Fbas, t: Seq<usize>, v: Seq<BitSet>)
    requires all_within(t, v), #[trigger] mbl_s(f, olds(t, v)), wf(f)
    ensures within(t, union_all(v)), is_tt(f, to_old(t, union_all(v)))
{ lem_tt_mbl(f, t, v); }
pub broadcast proof fn b_view_tt(f: Fbas, g: Fbas, m: ShrinkManager, k: Set<usize>)
    requires keyed(f), wf(f), #[trigger] keeps(m, k), #[trigger] shr_f(f, g, m), is_tt(f, k)
    ensures view_ok(f, g, m), kset(m) == k
{ lem_view_tt(f, g, m, k); }
pub broadcast proof fn b_in_tt(m: ShrinkManager, t: Seq<usize>, v: Seq<BitSet>, k: Set<usize>)
    requires #[trigger] keeps(m, k), all_within(t, v), to_old(t, union_all(v)) == k
    ensures #[trigger] in_tt(m, t, v)
{
    ax_elems(k);
    lem_in_tt(m, t, v, k);
}
pub broadcast proof fn b_tt_same(f: Fbas, a: Set<usize>, b: Set<usize>)
    requires #[trigger] is_tt(f, a), #[trigger] is_tt(f, b)
    ensures a == b
{ lem_same_tt(f, a, b); }
pub broadcast proof fn b_re_olds(m: ShrinkManager, t: Seq<usize>, v: Seq<BitSet>, r: Seq<BitSet>)
    requires sm_ok(m), #[trigger] re_sets(m.shrink_map@, t, v, r), in_tt(m, t, v)
    ensures all_within(m.unshrink_table@, r), olds(m.unshrink_table@, r) == olds(t, v)
{ lem_re_olds(m, t, v, r); }
pub broadcast proof fn b_view_inc(f: Fbas, g: Fbas, m: ShrinkManager)
    requires #[trigger] view_ok(f, g, m)
    ensures inc(m.unshrink_table@), sm_ok(m), keeps(m, kset(m))
{ lem_kset(m); }
/// disjoint quorums of the compact copy are disjoint quorums of the FBAS
pub open spec fn disjoint_qs(f: Fbas, v: Seq<Set<usize>>) -> bool {
    v.len() >= 2 && (forall|i: int| 0 <= i < v.len() ==> is_q(f, #[trigger] v[i]) && inr(f, v[i])) && forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).disjoint(#[trigger] v[j])
}
pub broadcast proof fn b_disjoint(f: Fbas, g: Fbas, m: ShrinkManager, v: Seq<BitSet>)
    requires #[trigger] view_ok(f, g, m), v.len() >= 2, #[trigger] disjoint_quorums(g, v)
    ensures all_within(m.unshrink_table@, v), disjoint_qs(f, olds(m.unshrink_table@, v)), two_disjoint(g)
{
    let t = m.unshrink_table@;
    let o = olds(t, v);
    lem_kset(m);
    assert forall|i: int| 0 <= i < v.len() implies within(t, (#[trigger] v[i])@) && is_q(f, o[i]) && inr(f, o[i]) by {
        assert(is_q(g, v[i]@) && inr(g, v[i]@));
        assert forall|x: usize| #[trigger] v[i]@.contains(x) implies x < t.len() by { assert(x < g.nodes@.len()); }
        lem_v_q(f, g, m, v[i]@);
        lem_v_old(f, g, m, v[i]@);
    }
    assert forall|i: int| 0 <= i < o.len() implies is_q(f, #[trigger] o[i]) && inr(f, o[i]) by { assert(within(t, v[i]@)); }
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies (#[trigger] o[i]).disjoint(#[trigger] o[j]) by { assert(v[i]@.disjoint(v[j]@)); lem_renum_inter(t, v[i]@, v[j]@); }
    assert(is_q(g, v[0]@) && is_q(g, v[1]@) && v[0]@.disjoint(v[1]@));
}
pub broadcast group front_lemmas { b_mq_new, b_mbl_new, b_mss_new, b_mss_none, b_mq_back, b_hqi, b_all_cross, b_none_listed, b_tt_mq, b_tt_mbl, b_view_tt, b_in_tt, b_tt_same, b_re_olds, b_view_inc, b_disjoint, lem_view_relevant, lem_rel_inr, lem_tt_inr }
pub open spec fn fresh(a: Analysis) -> bool { a.hqi_cache is None && a.mq_shrunken_cache is None && a.mbs_shrunken_cache is None && a.mss_shrunken_cache is None }
pub open spec fn sym_tt(f: Fbas, r: Option<QuorumSet>) -> bool {
    match r {
        Some(q) => sym_cluster(f, q) && !has_q(f, all_ids(f).difference(qn(q))) && (forall|p: QuorumSet| #[trigger] sym_cluster(f, p) ==> p == q),
        None => (forall|q: QuorumSet| !#[trigger] sym_cluster(f, q))
            || (exists|p: QuorumSet, q: QuorumSet| p != q && #[trigger] sym_cluster(f, p) && #[trigger] sym_cluster(f, q))
            || (exists|q: QuorumSet| #[trigger] sym_cluster(f, q) && has_q(f, all_ids(f).difference(qn(q)))),
    }
}
