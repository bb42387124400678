// ------------------------------------------------------------------------------------
// merging node numbers by groupings
// ------------------------------------------------------------------------------------
pub open spec fn listed(g: Grouping, x: usize) -> bool { g.validators@.contains(x) }
/// no node is a member of two groups
pub open spec fn no_overlap(gs: Seq<Grouping>) -> bool {
    forall|a: int, b: int, x: usize| 0 <= a < gs.len() && 0 <= b < gs.len() && #[trigger] listed(gs[a], x) && #[trigger] listed(gs[b], x) ==> a == b
}
pub open spec fn groups_in(gs: Seq<Grouping>, n: int) -> bool { forall|a: int, x: usize| 0 <= a < gs.len() && #[trigger] listed(gs[a], x) ==> x < n }
pub open spec fn grouped(gs: Seq<Grouping>, x: usize) -> bool { exists|a: int| 0 <= a < gs.len() && #[trigger] listed(gs[a], x) }
/// `m` sends every member of a group to the group's first member and everything else to itself
pub open spec fn merges(gs: Seq<Grouping>, n: int, m: Seq<usize>) -> bool {
    m.len() == n && (forall|a: int, x: usize| 0 <= a < gs.len() && #[trigger] listed(gs[a], x) ==> m[x as int] == gs[a].validators@[0])
        && forall|x: usize| x < n && !#[trigger] grouped(gs, x) ==> m[x as int] == x
}
/// the index from nodes to groups
pub open spec fn indexes(gs: Seq<Grouping>, m: Map<usize, usize>) -> bool {
    (forall|a: int, x: usize| 0 <= a < gs.len() && #[trigger] listed(gs[a], x) ==> m.dom().contains(x) && m[x] == a)
        && forall|x: usize| #[trigger] m.dom().contains(x) ==> grouped(gs, x)
}
/// invariant of `Groupings`
pub open spec fn grp_ok(g: Groupings) -> bool {
    no_overlap(g.groupings@) && merges(g.groupings@, g.merged_ids@.len() as int, g.merged_ids@) && indexes(g.groupings@, g.node_id_to_org_idx@)
        && forall|i: int| 0 <= i < g.merged_ids@.len() ==> #[trigger] g.merged_ids@[i] < g.merged_ids@.len()
}
pub open spec fn in_ids(g: Groupings, s: Set<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) ==> x < g.merged_ids@.len() }
pub open spec fn merged_set(g: Groupings, s: Set<usize>) -> Set<usize> { s.map(|x: usize| g.merged_ids@[x as int]) }
pub open spec fn merged_seq(g: Groupings, s: Seq<usize>) -> Seq<usize> { Seq::new(s.len(), |i: int| g.merged_ids@[s[i] as int]) }
pub broadcast proof fn lem_merged_set(g: Groupings, s: Set<usize>)
    ensures #[trigger] merged_seq(g, elems(s)).to_set() == merged_set(g, s)
{
    broadcast use ax_elems;
    let l = merged_seq(g, elems(s)).to_set();
    let r = merged_set(g, s);
    assert forall|y: usize| l.contains(y) implies r.contains(y) by { let i = choose|i: int| 0 <= i < elems(s).len() && merged_seq(g, elems(s))[i] == y; assert(s.contains(elems(s)[i])); }
    assert forall|y: usize| r.contains(y) implies l.contains(y) by { let x = choose|x: usize| s.contains(x) && g.merged_ids@[x as int] == y; assert(elems(s)[epos(s, x)] == x); assert(merged_seq(g, elems(s))[epos(s, x)] == y); }
    assert(l =~= r);
}
pub broadcast proof fn lem_merged_seq(g: Groupings, s: Seq<usize>, r: Seq<usize>)
    requires r.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] r[i] == g.merged_ids@[s[i] as int]
    ensures #![trigger merged_seq(g, s), r.to_set()] r == merged_seq(g, s)
{ assert(r =~= merged_seq(g, s)); }

pub broadcast proof fn lem_skip1<T>(s: Seq<T>)
    requires s.len() > 0
    ensures (#[trigger] s.skip(1)).len() == s.len() - 1, forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s.skip(1)[i] == s[i + 1]
{}
/// the first `k` of one group's members are done
pub open spec fn merging(v: Seq<usize>, k: int, org: usize, m0: Seq<usize>, m: Seq<usize>, x0: Map<usize, usize>, x: Map<usize, usize>) -> bool {
    m.len() == m0.len() && (forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == if exists|j: int| 1 <= j < k && #[trigger] v[j] == i { v[0] } else { m0[i] })
        && (forall|y: usize| #[trigger] x.dom().contains(y) <==> x0.dom().contains(y) || exists|j: int| 0 <= j < k && #[trigger] v[j] == y)
        && (forall|y: usize| #[trigger] x.dom().contains(y) ==> x[y] == if exists|j: int| 0 <= j < k && #[trigger] v[j] == y { org } else { x0[y] })
}
pub proof fn lem_group_done(gs: Seq<Grouping>, a: int, n: int, m0: Seq<usize>, m: Seq<usize>, x0: Map<usize, usize>, x: Map<usize, usize>)
    requires
        0 <= a < gs.len(), gs.len() <= usize::MAX, no_overlap(gs), groups_in(gs, n), merges(gs.take(a), n, m0), indexes(gs.take(a), x0),
        gs[a].validators@.len() == 0 ==> m == m0 && x == x0,
        gs[a].validators@.len() > 0 ==> merging(gs[a].validators@, gs[a].validators@.len() as int, a as usize, m0, m, x0, x),
    ensures merges(gs.take(a + 1), n, m), indexes(gs.take(a + 1), x)
{
    let v = gs[a].validators@;
    let g0 = gs.take(a);
    let g1 = gs.take(a + 1);
    assert forall|y: usize| #[trigger] grouped(g1, y) <==> grouped(g0, y) || listed(gs[a], y) by {
        if grouped(g1, y) { let b = choose|b: int| 0 <= b < g1.len() && #[trigger] listed(g1[b], y); if b < a { assert(listed(g0[b], y)); } }
        if grouped(g0, y) { let b = choose|b: int| 0 <= b < g0.len() && #[trigger] listed(g0[b], y); assert(listed(g1[b], y)); }
        if listed(gs[a], y) { assert(listed(g1[a], y)); }
    }
    assert forall|b: int, y: usize| 0 <= b < g1.len() && #[trigger] listed(g1[b], y) implies m[y as int] == g1[b].validators@[0] && x.dom().contains(y) && x[y] == b by {
        assert(listed(gs[b], y));
        if b < a {
            assert(listed(g0[b], y));
            assert(!listed(gs[a], y));
            assert(y < n);
            assert(m0[y as int] == g0[b].validators@[0] && x0.dom().contains(y) && x0[y] == b);
            assert(g0[b] == gs[b] && g1[b] == gs[b]);
            if v.len() > 0 {
                assert forall|j: int| 0 <= j < v.len() implies #[trigger] v[j] != y by { if v[j] == y { assert(v.contains(y)); } }
                assert(m[y as int] == m0[y as int]);
                assert(x0.dom().contains(y));
                assert(x.dom().contains(y));
                assert(!(exists|j: int| 0 <= j < v.len() && #[trigger] v[j] == y));
                assert(x[y] == x0[y]);
            }
        } else {
            assert(!grouped(g0, y)) by { if grouped(g0, y) { let c = choose|c: int| 0 <= c < g0.len() && #[trigger] listed(g0[c], y); assert(listed(gs[c], y)); } }
            let j = choose|j: int| 0 <= j < v.len() && v[j] == y;
            assert(v[j] == y);
            assert(y < n);
            assert(g1[b] == gs[a] && b == a);
            if j == 0 { assert(m0[y as int] == y); } else { assert(exists|i: int| 1 <= i < v.len() && #[trigger] v[i] == y); }
            assert(m[y as int] == v[0]);
            assert(x.dom().contains(y));
            assert(x[y] == a);
        }
    }
    assert forall|y: usize| y < n && !#[trigger] grouped(g1, y) implies m[y as int] == y by {
        assert(!grouped(g0, y) && !listed(gs[a], y));
        if v.len() > 0 { assert forall|j: int| 0 <= j < v.len() implies #[trigger] v[j] != y by { if v[j] == y { assert(v.contains(y)); } } }
    }
    assert forall|y: usize| #[trigger] x.dom().contains(y) implies grouped(g1, y) by {
        if v.len() > 0 && !x0.dom().contains(y) { let j = choose|j: int| 0 <= j < v.len() && #[trigger] v[j] == y; assert(v.contains(y)); assert(listed(gs[a], y)); } else { assert(grouped(g0, y)); }
    }
}
pub open spec fn merged_sets(g: Groupings, v: Seq<BitSet>, r: Seq<BitSet>) -> bool {
    r.len() == v.len() && forall|i: int| #![trigger r[i]] #![trigger v[i]] 0 <= i < v.len() ==> r[i]@ == merged_set(g, v[i]@)
}
pub open spec fn is_img(g: Groupings, v: Seq<BitSet>, s: Set<usize>) -> bool { exists|i: int| 0 <= i < v.len() && merged_set(g, (#[trigger] v[i])@) == s }
/// `r` holds exactly the minimal merged sets
pub open spec fn merged_min(g: Groupings, v: Seq<BitSet>, r: Seq<BitSet>) -> bool {
    forall|s: Set<usize>| #[trigger] has(r, s) <==> is_img(g, v, s) && forall|t: Set<usize>| #[trigger] is_img(g, v, t) && t.subset_of(s) ==> t == s
}
pub broadcast proof fn lem_merged_min(g: Groupings, v: Seq<BitSet>, m: Seq<BitSet>, r: Seq<BitSet>)
    requires merged_sets(g, v, m), forall|s: Set<usize>| #[trigger] has(r, s) <==> min_of(m, s)
    ensures #![trigger merged_sets(g, v, m), canonical(r)] merged_min(g, v, r)
{
    assert forall|s: Set<usize>| #[trigger] has(m, s) <==> is_img(g, v, s) by {
        if has(m, s) { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i])@ == s; assert(merged_set(g, v[i]@) == s); }
        if is_img(g, v, s) { let i = choose|i: int| 0 <= i < v.len() && merged_set(g, (#[trigger] v[i])@) == s; assert(m[i]@ == s); }
    }
    assert forall|s: Set<usize>| #[trigger] has(r, s) <==> is_img(g, v, s) && forall|t: Set<usize>| #[trigger] is_img(g, v, t) && t.subset_of(s) ==> t == s by {
        assert(has(r, s) <==> min_of(m, s));
        assert(has(m, s) <==> is_img(g, v, s));
        if min_of(m, s) { assert forall|t: Set<usize>| #[trigger] is_img(g, v, t) && t.subset_of(s) implies t == s by { assert(has(m, t)); } }
        if is_img(g, v, s) && forall|t: Set<usize>| #[trigger] is_img(g, v, t) && t.subset_of(s) ==> t == s {
            assert forall|t: Set<usize>| #[trigger] has(m, t) && t.subset_of(s) implies t == s by { assert(is_img(g, v, t)); }
        }
    }
}
// ---- quorum sets
pub open spec fn merging_q(g: Groupings, v: Seq<QuorumSet>) -> bool { true }
pub open spec fn single(q: QuorumSet) -> bool { q.validators@.len() == 1 && q.inner_quorum_sets@.len() == 0 }
pub open spec fn some_mentions(v: Seq<QuorumSet>, y: usize) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] mentions(v[i], y) }
pub open spec fn some_img(g: Groupings, v: Seq<QuorumSet>, y: usize) -> bool { exists|i: int| 0 <= i < v.len() && merged_set(g, qn(#[trigger] v[i])).contains(y) }
pub open spec fn parted(g: Groupings, v: Seq<QuorumSet>, a: Seq<QuorumSet>, b: Seq<QuorumSet>) -> bool {
    (forall|i: int| 0 <= i < a.len() ==> single(#[trigger] a[i])) && forall|y: usize| #[trigger] some_img(g, v, y) <==> some_mentions(a, y) || some_mentions(b, y)
}
pub broadcast proof fn lem_split(g: Groupings, v: Seq<QuorumSet>, s: Seq<QuorumSet>, p: spec_fn(QuorumSet) -> bool, np: spec_fn(QuorumSet) -> bool)
    requires
        s.len() == v.len(), forall|i: int| #![trigger s[i]] #![trigger v[i]] 0 <= i < s.len() ==> qn(s[i]) == merged_set(g, qn(v[i])),
        forall|x: QuorumSet| #[trigger] np(x) == !p(x), forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == single(s[i]),
    ensures #![trigger merging_q(g, v), s.filter(p), s.filter(np)] parted(g, v, s.filter(p), s.filter(np))
{
    let (a, b) = (s.filter(p), s.filter(np));
    lem_filter_set(s, p);
    lem_filter_set(s, np);
    assert forall|i: int| 0 <= i < a.len() implies single(#[trigger] a[i]) by { assert(a.contains(a[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == a[i]; assert(p(s[j])); }
    assert forall|y: usize| #[trigger] some_img(g, v, y) <==> some_mentions(a, y) || some_mentions(b, y) by {
        if some_img(g, v, y) {
            let i = choose|i: int| 0 <= i < v.len() && merged_set(g, qn(#[trigger] v[i])).contains(y);
            assert(s.contains(s[i]));
            if p(s[i]) { assert(a.contains(s[i])); let k = choose|k: int| 0 <= k < a.len() && a[k] == s[i]; assert(mentions(a[k], y)); }
            else { assert(np(s[i])); assert(b.contains(s[i])); let k = choose|k: int| 0 <= k < b.len() && b[k] == s[i]; assert(mentions(b[k], y)); }
        }
        if some_mentions(a, y) { let k = choose|k: int| 0 <= k < a.len() && #[trigger] mentions(a[k], y); assert(a.contains(a[k])); let j = choose|j: int| 0 <= j < s.len() && s[j] == a[k]; assert(merged_set(g, qn(v[j])).contains(y)); }
        if some_mentions(b, y) { let k = choose|k: int| 0 <= k < b.len() && #[trigger] mentions(b[k], y); assert(b.contains(b[k])); let j = choose|j: int| 0 <= j < s.len() && s[j] == b[k]; assert(merged_set(g, qn(v[j])).contains(y)); }
    }
}
pub proof fn lem_in_ids(g: Groupings, q: QuorumSet)
    requires in_ids(g, qn(q))
    ensures forall|i: int| 0 <= i < q.validators@.len() ==> #[trigger] q.validators@[i] < g.merged_ids@.len(),
        forall|i: int| 0 <= i < q.inner_quorum_sets@.len() ==> in_ids(g, qn(#[trigger] q.inner_quorum_sets@[i]))
{
    assert forall|i: int| 0 <= i < q.validators@.len() implies #[trigger] q.validators@[i] < g.merged_ids@.len() by { lem_mentions(q, q.validators@[i]); assert(qn(q).contains(q.validators@[i])); }
    assert forall|i: int| 0 <= i < q.inner_quorum_sets@.len() implies in_ids(g, qn(#[trigger] q.inner_quorum_sets@[i])) by {
        assert forall|x: usize| #[trigger] qn(q.inner_quorum_sets@[i]).contains(x) implies x < g.merged_ids@.len() by { assert(mentions(q.inner_quorum_sets@[i], x)); lem_mentions(q, x); assert(qn(q).contains(x)); }
    }
}
pub open spec fn firsts(cs: Seq<QuorumSet>, f: Seq<usize>) -> bool { f.len() == cs.len() && forall|i: int| #![trigger f[i]] #![trigger cs[i]] 0 <= i < f.len() ==> f[i] == cs[i].validators@[0] }
pub proof fn lem_merge_q(g: Groupings, q: QuorumSet, r: QuorumSet, v0: Seq<usize>, v1: Seq<usize>, cs: Seq<QuorumSet>)
    requires
        v0 == merged_seq(g, q.validators@), parted(g, q.inner_quorum_sets@, cs, r.inner_quorum_sets@), v1.len() >= v0.len(), v1 == v0 + v1.skip(v0.len() as int), firsts(cs, v1.skip(v0.len() as int)),
        r.validators@ == v1 || (v1.len() > 0 && (forall|i: int| 0 <= i < v1.len() ==> #[trigger] v1[i] == v1[0]) && r.validators@ == seq![v1[0]]),
    ensures qn(r) == merged_set(g, qn(q))
{
    let f = v1.skip(v0.len() as int);
    let iq = q.inner_quorum_sets@;
    assert forall|y: usize| qn(r).contains(y) <==> merged_set(g, qn(q)).contains(y) by {
        lem_mentions(r, y);
        assert(r.validators@.contains(y) <==> v1.contains(y)) by { if r.validators@ != v1 { assert(r.validators@[0] == y || !r.validators@.contains(y)); if v1.contains(y) { let k = choose|k: int| 0 <= k < v1.len() && v1[k] == y; assert(r.validators@[0] == y); } if r.validators@.contains(y) { assert(v1[0] == y); } } }
        lem_concat_contains(v0, f, y);
        assert(f.contains(y) <==> some_mentions(cs, y)) by {
            if f.contains(y) { let k = choose|k: int| 0 <= k < f.len() && f[k] == y; lem_mentions(cs[k], y); assert(cs[k].validators@[0] == y); assert(cs[k].validators@.contains(y)); assert(mentions(cs[k], y)); }
            if some_mentions(cs, y) { let k = choose|k: int| 0 <= k < cs.len() && #[trigger] mentions(cs[k], y); lem_mentions(cs[k], y); assert(single(cs[k])); assert(f[k] == y); }
        }
        assert(some_mentions(r.inner_quorum_sets@, y) <==> exists|i: int| 0 <= i < r.inner_quorum_sets@.len() && mentions(#[trigger] r.inner_quorum_sets@[i], y));
        assert(qn(r).contains(y) <==> v0.contains(y) || some_img(g, iq, y));
        if v0.contains(y) {
            let k = choose|k: int| 0 <= k < v0.len() && v0[k] == y;
            let x = q.validators@[k];
            lem_mentions(q, x); assert(q.validators@.contains(x)); assert(qn(q).contains(x)); assert(g.merged_ids@[x as int] == y);
        }
        if some_img(g, iq, y) {
            let i = choose|i: int| 0 <= i < iq.len() && merged_set(g, qn(#[trigger] iq[i])).contains(y);
            let x = choose|x: usize| qn(iq[i]).contains(x) && g.merged_ids@[x as int] == y;
            lem_mentions(q, x); assert(mentions(iq[i], x)); assert(qn(q).contains(x));
        }
        if merged_set(g, qn(q)).contains(y) {
            let x = choose|x: usize| qn(q).contains(x) && g.merged_ids@[x as int] == y;
            lem_mentions(q, x);
            assert(mentions(q, x));
            if q.validators@.contains(x) { let k = choose|k: int| 0 <= k < q.validators@.len() && q.validators@[k] == x; assert(v0[k] == y); assert(v0.contains(y)); }
            else { let i = choose|i: int| 0 <= i < iq.len() && mentions(#[trigger] iq[i], x); assert(qn(iq[i]).contains(x)); assert(merged_set(g, qn(iq[i])).contains(y)); assert(some_img(g, iq, y)); }
        }
    }
    assert(qn(r) =~= merged_set(g, qn(q)));
}

pub assume_specification<'a>[ <String as PartialEq<&'a str>>::eq ](x: &String, y: &&str) -> (r: bool)
    ensures r == (x@ == y@);
/// `a` is the first group named `n`
pub open spec fn first_named(g: Groupings, n: Seq<char>, a: Grouping) -> bool {
    exists|k: int| 0 <= k < g.groupings@.len() && #[trigger] g.groupings@[k] == a && a.name@ == n && forall|b: int| 0 <= b < k ==> (#[trigger] g.groupings@[b]).name@ != n
}
