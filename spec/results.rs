// ------------------------------------------------------------------------------------
// result objects
// ------------------------------------------------------------------------------------
/// the table, if any, is ascending and has an entry for every node that occurs
pub open spec fn vr_ok(r: NodeIdSetVecResult) -> bool { match r.unshrink_table { None => true, Some(t) => inc(t@) && all_within(t@, r.node_sets@) } }
/// the sets that a result stands for, in the ids of the original FBAS
pub open spec fn orig(r: NodeIdSetVecResult) -> Seq<Set<usize>> { match r.unshrink_table { None => sets_of(r.node_sets@), Some(t) => olds(t@, r.node_sets@) } }
pub open spec fn union_s(v: Seq<Set<usize>>) -> Set<usize>
    decreases v.len(),
{ if v.len() == 0 { Set::empty() } else { union_s(v.drop_last()).union(v.last()) } }
pub open spec fn sum_len(v: Seq<Set<usize>>) -> nat
    decreases v.len(),
{ if v.len() == 0 { 0 } else { sum_len(v.drop_last()) + v.last().len() } }
pub open spec fn count_len(v: Seq<Set<usize>>, k: int) -> nat
    decreases v.len(),
{ if v.len() == 0 { 0 } else { count_len(v.drop_last(), k) + (if v.last().len() == k { 1nat } else { 0 }) } }
pub open spec fn merged_s(g: Groupings, v: Seq<Set<usize>>) -> Seq<Set<usize>> { Seq::new(v.len(), |i: int| merged_set(g, v[i])) }
pub open spec fn all_in_ids(g: Groupings, v: Seq<Set<usize>>) -> bool { forall|i: int| 0 <= i < v.len() ==> in_ids(g, #[trigger] v[i]) }
pub open spec fn minus_s(v: Seq<Set<usize>>, s: Set<usize>) -> Seq<Set<usize>> { Seq::new(v.len(), |i: int| v[i].difference(s)) }
pub open spec fn is_min_len(v: Seq<Set<usize>>, m: int) -> bool { if v.len() == 0 { m == 0 } else { (exists|i: int| 0 <= i < v.len() && #[trigger] v[i].len() == m) && forall|i: int| 0 <= i < v.len() ==> m <= #[trigger] v[i].len() } }
pub open spec fn is_max_len(v: Seq<Set<usize>>, m: int) -> bool { if v.len() == 0 { m == 0 } else { (exists|i: int| 0 <= i < v.len() && #[trigger] v[i].len() == m) && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].len() <= m } }
/// entry k counts the sets of size k; the last entry is for the largest size
pub open spec fn is_hist(v: Seq<Set<usize>>, h: Seq<usize>) -> bool { h.len() >= 1 && is_max_len(v, h.len() - 1) && forall|k: int| 0 <= k < h.len() ==> #[trigger] h[k] == count_len(v, k) }

pub proof fn lem_orig(r: NodeIdSetVecResult)
    requires vr_ok(r)
    ensures orig(r).len() == r.node_sets@.len(),
        forall|i: int| #![trigger r.node_sets@[i]] #![trigger orig(r)[i]] 0 <= i < r.node_sets@.len() ==> orig(r)[i].len() == r.node_sets@[i]@.len(),
        r.unshrink_table is None ==> orig(r) == sets_of(r.node_sets@),
        canonical(r.node_sets@) <==> canon_s(orig(r)), antichain(r.node_sets@) <==> antichain_s(orig(r)),
{
    let v = r.node_sets@;
    match r.unshrink_table {
        None => { lem_sets_canon(v); }
        Some(t) => {
            lem_renum_canon(t@, v);
            assert forall|i: int| 0 <= i < v.len() implies orig(r)[i].len() == (#[trigger] v[i])@.len() by { lem_renum_elems(t@, v[i]@); }
        }
    }
}
pub broadcast proof fn b_old_sets(t: Seq<usize>, v: Seq<BitSet>, r: Seq<BitSet>)
    requires #[trigger] old_sets(t, v, r)
    ensures sets_of(r) == olds(t, v)
{ assert(sets_of(r) =~= olds(t, v)); }
pub proof fn lem_union_olds(t: Seq<usize>, v: Seq<BitSet>)
    requires all_within(t, v)
    ensures within(t, union_all(v)), to_old(t, union_all(v)) == union_s(olds(t, v))
    decreases v.len()
{
    assert forall|x: usize| #[trigger] union_all(v).contains(x) implies x < t.len() by { lem_union_all(v, x); }
    if v.len() > 0 {
        let d = v.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies within(t, (#[trigger] d[i])@) by { assert(d[i] == v[i]); }
        lem_union_olds(t, d);
        assert(olds(t, v).drop_last() =~= olds(t, d));
        assert forall|y: usize| to_old(t, union_all(v)).contains(y) <==> union_s(olds(t, v)).contains(y) by {
            lem_to_old(t, union_all(v), y); lem_to_old(t, union_all(d), y); lem_to_old(t, v.last()@, y);
            if exists|x: usize| #[trigger] union_all(d).contains(x) && t[x as int] == y { let x = choose|x: usize| #[trigger] union_all(d).contains(x) && t[x as int] == y; assert(union_all(v).contains(x)); }
            if exists|x: usize| #[trigger] v.last()@.contains(x) && t[x as int] == y { let x = choose|x: usize| #[trigger] v.last()@.contains(x) && t[x as int] == y; assert(union_all(v).contains(x)); }
        }
    } else { assert(to_old(t, Set::empty()) =~= Set::empty()); }
    assert(to_old(t, union_all(v)) =~= union_s(olds(t, v)));
}
pub proof fn lem_union_sets(v: Seq<BitSet>)
    ensures union_all(v) == union_s(sets_of(v))
    decreases v.len()
{ if v.len() > 0 { lem_union_sets(v.drop_last()); assert(sets_of(v).drop_last() =~= sets_of(v.drop_last())); } }
pub proof fn lem_min_orig(a: NodeIdSetVecResult, b: NodeIdSetVecResult)
    requires vr_ok(a), b.unshrink_table == a.unshrink_table, forall|s: Set<usize>| #[trigger] has(b.node_sets@, s) <==> min_of(a.node_sets@, s)
    ensures vr_ok(b), forall|s: Set<usize>| #[trigger] has_s(orig(b), s) <==> min_of_s(orig(a), s)
{
    let (v, w) = (a.node_sets@, b.node_sets@);
    match a.unshrink_table {
        None => {
            lem_sets_canon(v); lem_sets_canon(w);
            assert forall|s: Set<usize>| #[trigger] has_s(orig(b), s) <==> min_of_s(orig(a), s) by {
                assert(has(w, s) <==> min_of(v, s));
                if min_of(v, s) { assert forall|u: Set<usize>| #[trigger] has_s(orig(a), u) && u.subset_of(s) implies u == s by { assert(has(v, u)); } }
                if min_of_s(orig(a), s) { assert forall|u: Set<usize>| #[trigger] has(v, u) && u.subset_of(s) implies u == s by { assert(has_s(orig(a), u)); } }
            }
        }
        Some(t) => {
            assert forall|i: int| 0 <= i < w.len() implies within(t@, (#[trigger] w[i])@) by { assert(has(w, w[i]@)); let j = choose|j: int| 0 <= j < v.len() && #[trigger] v[j]@ == w[i]@; assert(within(t@, v[j]@)); }
            assert forall|s: Set<usize>| #[trigger] has_s(orig(b), s) <==> min_of_s(orig(a), s) by {
                if has_s(orig(b), s) {
                    let i = choose|i: int| 0 <= i < w.len() && #[trigger] orig(b)[i] == s;
                    assert(has(w, w[i]@)); assert(min_of(v, w[i]@));
                    let j = choose|j: int| 0 <= j < v.len() && #[trigger] v[j]@ == w[i]@;
                    assert(orig(a)[j] == s);
                    assert forall|u: Set<usize>| #[trigger] has_s(orig(a), u) && u.subset_of(s) implies u == s by {
                        let k = choose|k: int| 0 <= k < v.len() && #[trigger] orig(a)[k] == u;
                        lem_renum_sub(t@, v[k]@, w[i]@);
                        assert(has(v, v[k]@));
                    }
                }
                if min_of_s(orig(a), s) {
                    let j = choose|j: int| 0 <= j < v.len() && #[trigger] orig(a)[j] == s;
                    assert(has(v, v[j]@));
                    assert forall|u: Set<usize>| #[trigger] has(v, u) && u.subset_of(v[j]@) implies u == v[j]@ by {
                        let k = choose|k: int| 0 <= k < v.len() && #[trigger] v[k]@ == u;
                        lem_renum_sub(t@, v[k]@, v[j]@);
                        assert(orig(a)[k] == to_old(t@, u)); assert(has_s(orig(a), orig(a)[k]));
                    }
                    assert(min_of(v, v[j]@)); assert(has(w, v[j]@));
                    let i = choose|i: int| 0 <= i < w.len() && #[trigger] w[i]@ == v[j]@;
                    assert(orig(b)[i] == s);
                }
            }
        }
    }
}
pub proof fn lem_old_empty(t: Seq<usize>, s: Set<usize>)
    requires within(t, s)
    ensures to_old(t, s) == Set::<usize>::empty() <==> s == Set::<usize>::empty()
{
    if s == Set::<usize>::empty() { assert(to_old(t, s) =~= Set::<usize>::empty()); }
    if to_old(t, s) == Set::<usize>::empty() { assert forall|x: usize| !s.contains(x) by { if s.contains(x) { lem_to_old(t, s, t[x as int]); assert(to_old(t, s).contains(t[x as int])); } } assert(s =~= Set::<usize>::empty()); }
}
pub open spec fn nat_sum(s: Seq<usize>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { nat_sum(s.drop_last()) + s.last() as nat } }
pub open spec fn flat_ids(s: Seq<Vec<usize>>) -> Seq<usize>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { flat_ids(s.drop_last()) + s.last()@ } }
impl It<usize> {
    /// trusted: the sum of the sizes of sets in memory does not overflow
    #[verifier::external_body]
    pub fn sum(self) -> (r: usize) ensures r == nat_sum(self@) { unimplemented!() }
}
impl It<Vec<usize>> {
    #[verifier::external_body]
    pub fn flatten(self) -> (r: It<usize>) ensures r@ == flat_ids(self@) { unimplemented!() }
}
pub broadcast proof fn lem_flat_ids(s: Seq<Vec<usize>>, x: usize)
    ensures #[trigger] flat_ids(s).contains(x) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@.contains(x)
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lem_flat_ids(d, x);
        lem_concat_contains(flat_ids(d), s.last()@, x);
        if exists|i: int| 0 <= i < d.len() && (#[trigger] d[i])@.contains(x) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i])@.contains(x); assert(s[i]@.contains(x)); }
        if s.last()@.contains(x) { assert(s[s.len() - 1]@.contains(x)); }
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@.contains(x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@.contains(x); if i < d.len() { assert(d[i]@.contains(x)); } }
    }
}
/// the sizes of the sets of `v`
pub open spec fn lens(v: Seq<Set<usize>>, s: Seq<usize>) -> bool { s.len() == v.len() && forall|i: int| #![trigger s[i]] #![trigger v[i]] 0 <= i < v.len() ==> s[i] == v[i].len() }
pub broadcast proof fn lem_lens(v: Seq<Set<usize>>, s: Seq<usize>)
    requires #[trigger] lens(v, s)
    ensures nat_sum(s) == sum_len(v)
    decreases v.len()
{ if v.len() > 0 { assert(s.last() == s[s.len() - 1]); lem_lens(v.drop_last(), s.drop_last()); } }
/// the name under which node `i` is shown
pub open spec fn shown(f: Fbas, g: Option<&Groupings>, i: usize, k: String) -> bool {
    match g {
        None => k@ == f.nodes@[i as int].public_key@,
        Some(g) => if grouped(g.groupings@, i) { exists|a: int| 0 <= a < g.groupings@.len() && listed(#[trigger] g.groupings@[a], i) && g.groupings@[a].name@ == k@ } else { k@ == f.nodes@[i as int].public_key@ },
    }
}
pub open spec fn shown_all(f: Fbas, g: Option<&Groupings>, s: Seq<usize>, k: Seq<String>) -> bool { k.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] shown(f, g, s[i], k[i]) }
pub open spec fn key_is(f: Fbas, n: Seq<char>, x: usize) -> bool { x < f.nodes@.len() && f.nodes@[x as int].public_key@ == n }
pub open spec fn no_named(g: Groupings, n: Seq<char>) -> bool { forall|b: int| 0 <= b < g.groupings@.len() ==> (#[trigger] g.groupings@[b]).name@ != n }
/// the nodes that the name `n` stands for: the members of the first group of that name, or the node with that key
pub open spec fn stands_for(f: Fbas, g: Option<&Groupings>, n: Seq<char>, x: usize) -> bool {
    match g {
        None => key_is(f, n, x),
        Some(g) => if no_named(*g, n) { key_is(f, n, x) } else { exists|a: int| 0 <= a < g.groupings@.len() && (#[trigger] g.groupings@[a]).name@ == n && (forall|b: int| 0 <= b < a ==> (#[trigger] g.groupings@[b]).name@ != n) && listed(g.groupings@[a], x) },
    }
}
pub open spec fn picked(f: Fbas, g: Option<&Groupings>, ns: Seq<&str>, x: usize) -> bool { exists|k: int| 0 <= k < ns.len() && stands_for(f, g, (#[trigger] ns[k])@, x) }
pub open spec fn picks_ids(f: Fbas, g: Option<&Groupings>, ns: Seq<&str>, r: Seq<usize>) -> bool { forall|x: usize| #[trigger] r.contains(x) <==> picked(f, g, ns, x) }
pub open spec fn is_mean(v: Seq<Set<usize>>, m: f64) -> bool {
    ffin(m) && fval(m) == if v.len() == 0 { 0real } else { rnd(rnd(sum_len(v) as real) / rnd(v.len() as real)) }
}
pub proof fn lem_minus_start(s: Set<usize>, v: Seq<usize>)
    ensures s.difference(v.take(0).to_set()) == s, v.take(v.len() as int) == v
{ assert(s.difference(v.take(0).to_set()) =~= s); assert(v.take(v.len() as int) =~= v); }
pub proof fn lem_minus_step(s: Set<usize>, v: Seq<usize>, i: int, r: Set<usize>)
    requires 0 <= i < v.len(), r == s.difference(v.take(i).to_set()).remove(v[i])
    ensures r == s.difference(v.take(i + 1).to_set())
{
    let (a, b) = (v.take(i), v.take(i + 1));
    assert(b =~= a.push(v[i]));
    assert forall|x: usize| b.contains(x) <==> a.contains(x) || x == v[i] by { if a.contains(x) { let k = choose|k: int| 0 <= k < a.len() && a[k] == x; assert(b[k] == x); } assert(b[i] == v[i]); }
    assert(r =~= s.difference(b.to_set()));
}
pub proof fn lem_has_empty(r: NodeIdSetVecResult)
    requires vr_ok(r)
    ensures forall|e: BitSet| e@ == Set::<usize>::empty() ==> #[trigger] r.node_sets@.contains(e) == has_s(orig(r), Set::<usize>::empty())
{
    let v = r.node_sets@;
    assert forall|i: int| 0 <= i < v.len() implies (orig(r)[i] == Set::<usize>::empty() <==> (#[trigger] v[i])@ == Set::<usize>::empty()) by {
        match r.unshrink_table { Some(t) => { lem_old_empty(t@, v[i]@); } None => {} }
    }
    assert forall|e: BitSet| e@ == Set::<usize>::empty() implies #[trigger] v.contains(e) == has_s(orig(r), Set::<usize>::empty()) by {
        if v.contains(e) { let i = choose|i: int| 0 <= i < v.len() && v[i] == e; assert(orig(r)[i] == Set::<usize>::empty()); }
        if has_s(orig(r), Set::<usize>::empty()) { let i = choose|i: int| 0 <= i < orig(r).len() && #[trigger] orig(r)[i] == Set::<usize>::empty(); assert(v[i]@ == e@); assert(bs_of(v[i]@) == v[i]); assert(bs_of(e@) == e); assert(v[i] == e); }
    }
}
pub broadcast proof fn lem_lens_bs(v: Seq<BitSet>, s: Seq<usize>)
    requires s.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] s[i] == v[i]@.len()
    ensures #![trigger refs(v), nat_sum(s)] nat_sum(s) == sum_len(sets_of(v))
    decreases v.len()
{
    if v.len() > 0 { lem_lens_bs(v.drop_last(), s.drop_last()); assert(sets_of(v).drop_last() =~= sets_of(v.drop_last())); assert(s.last() == s[s.len() - 1]); }
}
pub proof fn lem_max_bound(v: Seq<BitSet>, m: usize)
    requires m == 0 || exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@.len() == m
    ensures m < usize::MAX
{ if m != 0 { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@.len() == m; ax_bitset_len(v[i]); } }
pub proof fn lem_same_sum(a: Seq<Set<usize>>, b: Seq<Set<usize>>)
    requires a.len() == b.len(), forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i].len() == b[i].len()
    ensures sum_len(a) == sum_len(b)
    decreases a.len()
{ if a.len() > 0 { assert(a[a.len() - 1].len() == b[b.len() - 1].len()); lem_same_sum(a.drop_last(), b.drop_last()); } }
pub broadcast proof fn lem_one_key(f: Fbas, n: Seq<char>, x: usize, y: usize)
    requires keyed(f), #[trigger] key_is(f, n, x), #[trigger] key_is(f, n, y)
    ensures x == y
{ broadcast use ax_string_ext; assert(f.nodes@[x as int].public_key == f.nodes@[y as int].public_key); }
pub proof fn lem_picks_set(f: Fbas, g: Option<&Groupings>, ns: Seq<&str>, r: Seq<usize>)
    requires picks_ids(f, g, ns, r)
    ensures forall|x: usize| #[trigger] r.to_set().contains(x) <==> picked(f, g, ns, x)
{ assert forall|x: usize| #[trigger] r.to_set().contains(x) <==> picked(f, g, ns, x) by { assert(r.contains(x) <==> r.to_set().contains(x)); } }
pub open spec fn pretty_orig(r: NodeIdSetVecResult, s: Set<usize>) -> Set<usize> { match r.unshrink_table { None => s, Some(t) => to_old(t@, s) } }
pub open spec fn pretty_req(r: NodeIdSetVecResult, f: Fbas, s: Set<usize>) -> bool { inr(f, pretty_orig(r, s)) && match r.unshrink_table { None => true, Some(t) => within(t@, s) } }
pub proof fn lem_pretty(r: NodeIdSetVecResult, f: Fbas)
    requires vr_ok(r), forall|i: int| 0 <= i < orig(r).len() ==> inr(f, #[trigger] orig(r)[i])
    ensures forall|i: int| #![trigger r.node_sets@[i]] 0 <= i < r.node_sets@.len() ==> pretty_req(r, f, r.node_sets@[i]@) && orig(r)[i] == pretty_orig(r, r.node_sets@[i]@), orig(r).len() == r.node_sets@.len()
{ assert forall|i: int| #![trigger r.node_sets@[i]] 0 <= i < r.node_sets@.len() implies pretty_req(r, f, r.node_sets@[i]@) && orig(r)[i] == pretty_orig(r, r.node_sets@[i]@) by { assert(inr(f, orig(r)[i])); } }
/// the answer for one key: the node with that key, if there is one
pub open spec fn pk_is(f: Fbas, n: Seq<char>, o: Option<usize>) -> bool { match o { None => forall|x: usize| !#[trigger] key_is(f, n, x), Some(i) => key_is(f, n, i) } }
pub broadcast proof fn lem_picks_pk(f: Fbas, ns: Seq<&str>, v: Seq<Option<usize>>)
    requires v.len() == ns.len(), forall|k: int| 0 <= k < ns.len() ==> pk_is(f, ns[k]@, #[trigger] v[k]), keyed(f)
    ensures #![trigger picks_ids(f, None, ns, somes(v))] picks_ids(f, None, ns, somes(v))
{
    assert forall|x: usize| #[trigger] somes(v).contains(x) <==> picked(f, None, ns, x) by {
        lem_somes_has(v, x);
        if somes(v).contains(x) { let k = choose|k: int| 0 <= k < v.len() && #[trigger] v[k] == Some(x); assert(pk_is(f, ns[k]@, v[k])); assert(stands_for(f, None, ns[k]@, x)); }
        if picked(f, None, ns, x) { let k = choose|k: int| 0 <= k < ns.len() && stands_for(f, None, (#[trigger] ns[k])@, x); assert(key_is(f, ns[k]@, x)); assert(pk_is(f, ns[k]@, v[k])); match v[k] { None => {} Some(i) => { lem_one_key(f, ns[k]@, x, i); } } assert(v[k] == Some(x)); }
    }
}
pub proof fn lem_somes_has(v: Seq<Option<usize>>, x: usize)
    ensures somes(v).contains(x) <==> exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == Some(x)
    decreases v.len()
{
    if v.len() > 0 {
        let d = v.drop_last();
        lem_somes_has(d, x);
        let (a, b) = (somes(d), somes(v));
        assert(v.last() == v[v.len() - 1]);
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < a.len() { assert(a[i] == x); assert(a.contains(x)); let k = choose|k: int| 0 <= k < d.len() && #[trigger] d[k] == Some(x); assert(v[k] == Some(x)); } else { assert(v[v.len() - 1] == Some(x)); } }
        if exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == Some(x) {
            let k = choose|k: int| 0 <= k < v.len() && #[trigger] v[k] == Some(x);
            if k < d.len() { assert(d[k] == Some(x)); let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); } else { assert(b[b.len() - 1] == x); }
        }
    }
}
/// `v` lists the nodes that name `n` stands for
pub open spec fn stand_vec(f: Fbas, g: Groupings, n: Seq<char>, v: Seq<usize>) -> bool { forall|x: usize| #[trigger] v.contains(x) <==> stands_for(f, Some(&g), n, x) }
pub broadcast proof fn lem_sv_group(f: Fbas, g: Groupings, n: Seq<char>, a: Grouping)
    requires #[trigger] first_named(g, n, a)
    ensures #[trigger] stand_vec(f, g, n, a.validators@)
{
    let k = choose|k: int| 0 <= k < g.groupings@.len() && #[trigger] g.groupings@[k] == a && a.name@ == n && forall|b: int| 0 <= b < k ==> (#[trigger] g.groupings@[b]).name@ != n;
    assert forall|x: usize| #[trigger] a.validators@.contains(x) <==> stands_for(f, Some(&g), n, x) by {
        if a.validators@.contains(x) { assert(listed(g.groupings@[k], x)); }
        if stands_for(f, Some(&g), n, x) {
            let c = choose|c: int| 0 <= c < g.groupings@.len() && (#[trigger] g.groupings@[c]).name@ == n && (forall|b: int| 0 <= b < c ==> (#[trigger] g.groupings@[b]).name@ != n) && listed(g.groupings@[c], x);
            assert(c == k) by { if c < k { assert(g.groupings@[c].name@ != n); } else if k < c { assert(g.groupings@[k].name@ != n); } }
        }
    }
}
pub broadcast proof fn lem_sv_node(f: Fbas, g: Groupings, n: Seq<char>, v: Seq<usize>)
    requires keyed(f), no_named(g, n), v.len() == 1, key_is(f, n, v[0])
    ensures #[trigger] stand_vec(f, g, n, v)
{
    assert forall|x: usize| #[trigger] v.contains(x) <==> stands_for(f, Some(&g), n, x) by {
        if v.contains(x) { assert(x == v[0]); }
        if stands_for(f, Some(&g), n, x) { lem_one_key(f, n, x, v[0]); assert(v[0] == x); }
    }
}
pub broadcast proof fn lem_sv_none(f: Fbas, g: Groupings, n: Seq<char>, v: Seq<usize>)
    requires no_named(g, n), v.len() == 0, pk_is(f, n, None)
    ensures #[trigger] stand_vec(f, g, n, v)
{ assert forall|x: usize| #[trigger] v.contains(x) <==> stands_for(f, Some(&g), n, x) by { assert(!key_is(f, n, x)); } }
pub broadcast proof fn lem_picks_gn(f: Fbas, g: &Groupings, ns: Seq<&str>, v: Seq<Vec<usize>>)
    requires v.len() == ns.len(), forall|k: int| 0 <= k < ns.len() ==> stand_vec(f, *g, ns[k]@, (#[trigger] v[k])@)
    ensures #![trigger picks_ids(f, Some(g), ns, flat_ids(v))] picks_ids(f, Some(g), ns, flat_ids(v))
{
    assert forall|x: usize| #[trigger] flat_ids(v).contains(x) <==> picked(f, Some(g), ns, x) by {
        lem_flat_ids(v, x);
        if flat_ids(v).contains(x) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k])@.contains(x); assert(stand_vec(f, *g, ns[k]@, v[k]@)); assert(stands_for(f, Some(g), ns[k]@, x)); }
        if picked(f, Some(g), ns, x) { let k = choose|k: int| 0 <= k < ns.len() && stands_for(f, Some(g), (#[trigger] ns[k])@, x); assert(stand_vec(f, *g, ns[k]@, v[k]@)); assert(v[k]@.contains(x)); }
    }
}
