// ---- blocking sets of one quorum set: the slices of its dual
/// how many of the members can agree at all
pub open spec fn nlive(q: QuorumSet) -> int { (q.validators@.len() + duals(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int).len()) as int }
/// satisfied by exactly the sets that block `q`
pub open spec fn dual(q: QuorumSet) -> QuorumSet
    decreases q,
{
    let d = duals(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int);
    let n = q.validators@.len() + d.len();
    QuorumSet {
        threshold: (if q.threshold > n { 0 } else { n + 1 - q.threshold }) as usize,
        validators: q.validators,
        inner_quorum_sets: vec_of(d),
    }
}
pub open spec fn duals(v: Vec<QuorumSet>, n: int) -> Seq<QuorumSet>
    decreases v, n when 0 <= n <= v@.len()
{
    if n <= 0 { Seq::empty() } else if can(v@[n - 1]) { duals(v, n - 1).push(dual(v@[n - 1])) } else { duals(v, n - 1) }
}
pub proof fn lem_duals_len(v: Vec<QuorumSet>, n: int)
    requires 0 <= n <= v@.len()
    ensures duals(v, n).len() <= n
    decreases v, n
{ if n > 0 { lem_duals_len(v, n - 1); } }
pub proof fn lem_dual_inner(q: QuorumSet)
    ensures dual(q).inner_quorum_sets@ == duals(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int),
        dual(q).validators == q.validators,
        nlive(q) <= usize::MAX - 1,
        dual(q).threshold == if q.threshold > nlive(q) { 0int } else { nlive(q) + 1 - q.threshold }
{
    ax_vec_limit(&q);
    lem_duals_len(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int);
    ax_vec_of(q.inner_quorum_sets, duals(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int));
}
pub proof fn lem_nval_compl(v: Seq<usize>, w: Set<usize>, s: Set<usize>)
    requires forall|x: usize| #[trigger] v.contains(x) ==> w.contains(x)
    ensures nval(v, s) + nval(v, w.difference(s)) == v.len()
    decreases v.len()
{
    if v.len() > 0 {
        assert(v[v.len() - 1] == v.last()); assert(v.contains(v.last()));
        assert forall|x: usize| #[trigger] v.drop_last().contains(x) implies w.contains(x) by { let d = v.drop_last(); let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(v[i] == x); assert(v.contains(x)); }
        lem_nval_compl(v.drop_last(), w, s);
    }
}
/// blocking = keeping the rest from agreeing
pub proof fn lem_dual(q: QuorumSet, w: Set<usize>, s: Set<usize>)
    requires can(q), qn(q).subset_of(w)
    ensures sat(dual(q), s) <==> !sat(q, w.difference(s))
    decreases q
{
    let d = dual(q);
    let m = q.inner_quorum_sets@.len() as int;
    lem_dual_inner(q);
    assert forall|x: usize| #[trigger] q.validators@.contains(x) implies w.contains(x) by { lem_mentions(q, x); assert(qn(q).contains(x)); }
    lem_nval_compl(q.validators@, w, s);
    assert forall|i: int, x: usize| 0 <= i < m && #[trigger] qn(q.inner_quorum_sets@[i]).contains(x) implies w.contains(x) by {
        lem_mentions(q, x); assert(mentions(q.inner_quorum_sets@[i], x)); assert(qn(q).contains(x));
    }
    lem_duals(q.inner_quorum_sets, m, w, s);
    let n2 = d.inner_quorum_sets@.len() as int;
    lem_ninner_nsat(d.inner_quorum_sets, n2, s);
    assert(d.inner_quorum_sets@.take(n2) =~= d.inner_quorum_sets@);
    lem_sat(d, s); lem_sat(q, w.difference(s));
    // nobody can be satisfied by more members than can agree
    let s0 = choose|s0: Set<usize>| sat(q, s0);
    lem_sat(q, s0);
    lem_nval_max(q.validators@, s0);
    lem_ninner_live(q.inner_quorum_sets, m, s0);
}
pub proof fn lem_ninner_live(v: Vec<QuorumSet>, n: int, s: Set<usize>)
    requires 0 <= n <= v@.len()
    ensures ninner(v, n, s) <= duals(v, n).len()
    decreases n
{ if n > 0 { lem_ninner_live(v, n - 1, s); if sat(v@[n - 1], s) { assert(can(v@[n - 1])); } } }
pub proof fn lem_duals(v: Vec<QuorumSet>, n: int, w: Set<usize>, s: Set<usize>)
    requires 0 <= n <= v@.len(), forall|i: int, x: usize| 0 <= i < n && #[trigger] qn(v@[i]).contains(x) ==> w.contains(x)
    ensures nsat(duals(v, n), s) + ninner(v, n, w.difference(s)) == duals(v, n).len()
    decreases v, n
{
    if n > 0 {
        lem_duals(v, n - 1, w, s);
        let p = v@[n - 1];
        if can(p) {
            assert forall|x: usize| qn(p).contains(x) implies w.contains(x) by {}
            lem_dual(p, w, s);
            assert(duals(v, n).drop_last() =~= duals(v, n - 1));
            assert(duals(v, n).last() == dual(p));
        } else {
            assert(!sat(p, w.difference(s)));
        }
    }
}
/// the dual mentions only nodes that `q` mentions, and none twice unless `q` does
pub proof fn lem_dual_flat(q: QuorumSet)
    ensures qn(dual(q)).subset_of(qn(q)), flat(q).no_duplicates() ==> flat(dual(q)).no_duplicates()
    decreases q
{
    let m = q.inner_quorum_sets@.len() as int;
    let d = dual(q);
    lem_dual_inner(q);
    lem_duals_flat(q.inner_quorum_sets, m);
    let n2 = d.inner_quorum_sets@.len() as int;
    lem_flat_seq(d.inner_quorum_sets, n2);
    assert(d.inner_quorum_sets@.take(n2) =~= d.inner_quorum_sets@);
    lem_flat(q); lem_flat(d);
    let (a, b, c) = (q.validators@, flat_i(q.inner_quorum_sets, m), flat_s(duals(q.inner_quorum_sets, m)));
    assert(flat(d) == a + c);
    assert forall|x: usize| qn(d).contains(x) implies qn(q).contains(x) by { lem_concat_contains(a, c, x); lem_concat_contains(a, b, x); }
    if flat(q).no_duplicates() {
        lem_nodup_concat(a, b);
        lem_nodup_join(a, c);
    }
}
pub proof fn lem_duals_flat(v: Vec<QuorumSet>, n: int)
    requires 0 <= n <= v@.len()
    ensures forall|x: usize| #[trigger] flat_s(duals(v, n)).contains(x) ==> flat_i(v, n).contains(x),
        flat_i(v, n).no_duplicates() ==> flat_s(duals(v, n)).no_duplicates()
    decreases v, n
{
    if n > 0 {
        lem_duals_flat(v, n - 1);
        let p = v@[n - 1];
        let (a, b) = (flat_i(v, n - 1), flat(p));
        let c = flat_s(duals(v, n - 1));
        if flat_i(v, n).no_duplicates() { lem_nodup_concat(a, b); }
        if can(p) {
            lem_dual_flat(p);
            assert(duals(v, n).drop_last() =~= duals(v, n - 1));
            assert(duals(v, n).last() == dual(p));
            let e = flat(dual(p));
            assert forall|x: usize| #[trigger] e.contains(x) implies b.contains(x) by { assert(qn(dual(p)).contains(x)); assert(qn(p).contains(x)); }
            assert forall|x: usize| #[trigger] flat_s(duals(v, n)).contains(x) implies flat_i(v, n).contains(x) by { lem_concat_contains(c, e, x); lem_concat_contains(a, b, x); }
            if flat_i(v, n).no_duplicates() {
                assert forall|x: usize| !(#[trigger] c.contains(x) && #[trigger] e.contains(x)) by { assert(!(a.contains(x) && b.contains(x))); }
                lem_nodup_join(c, e);
            }
        } else {
            assert forall|x: usize| #[trigger] flat_s(duals(v, n)).contains(x) implies flat_i(v, n).contains(x) by { lem_concat_contains(a, b, x); }
        }
    }
}
/// the inner quorum sets that can agree, in order
pub proof fn lem_live(v: Vec<QuorumSet>, n: int, s: Seq<&QuorumSet>, p: spec_fn(&QuorumSet) -> bool)
    requires 0 <= n <= v@.len(), s.len() == n, forall|i: int| 0 <= i < n ==> *#[trigger] s[i] == v@[i] && p(s[i]) == can(v@[i])
    ensures s.filter(p).len() == duals(v, n).len(), forall|i: int| 0 <= i < duals(v, n).len() ==> #[trigger] duals(v, n)[i] == dual(*s.filter(p)[i]) && can(*s.filter(p)[i])
    decreases n
{
    reveal(Seq::filter);
    if n > 0 { lem_live(v, n - 1, s.drop_last(), p); }
}
/// what the code puts together = the slices of the dual quorum set
pub broadcast proof fn lem_dual_slices(q: QuorumSet, g: Seq<Vec<BitSet>>, s: Seq<&QuorumSet>, p: spec_fn(&QuorumSet) -> bool, k: int, cv: Seq<Vec<Vec<BitSet>>>, v: Seq<Vec<BitSet>>)
    requires
        can(q), #[trigger] is_combs(g, k, cv), k == (if q.threshold > g.len() + 1 { 0int } else { g.len() + 1 - q.threshold }),
        v.len() == cv.len(), forall|c: int| 0 <= c < v.len() ==> row(#[trigger] cv[c]@, #[trigger] v[c]@),
        g.len() == q.validators@.len() + #[trigger] s.filter(p).len(), s.len() == q.inner_quorum_sets@.len(),
        forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == q.inner_quorum_sets@[i] && p(s[i]) == can(q.inner_quorum_sets@[i]),
        forall|j: int| 0 <= j < q.validators@.len() ==> (#[trigger] g[j])@.len() == 1 && g[j]@[0]@ == Set::<usize>::empty().insert(q.validators@[j]),
        forall|j: int| q.validators@.len() <= j < g.len() ==> slices_ok(dual(*s.filter(p)[j - q.validators@.len()]), (#[trigger] g[j])@)
    ensures #[trigger] slices_ok(dual(q), concat_seq(v))
{
    lem_dual_inner(q);
    lem_live(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int, s, p);
    let d = dual(q);
    assert forall|j: int| d.validators@.len() <= j < nmem(d) implies slices_ok(d.inner_quorum_sets@[j - d.validators@.len()], (#[trigger] g[j])@) by {
        let i = j - q.validators@.len();
        assert(duals(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int)[i] == dual(*s.filter(p)[i]));
    }
    lem_groups(d, g);
    let s0 = choose|s0: Set<usize>| sat(q, s0);
    lem_sat(q, s0);
    lem_nval_max(q.validators@, s0);
    lem_ninner_live(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int, s0);
    lem_slices_of(d, g, cv, v);
}
/// every entry of a filtered list passed the filter
pub broadcast proof fn lem_live_can(v: Seq<&QuorumSet>, p: spec_fn(&QuorumSet) -> bool)
    requires forall|i: int| 0 <= i < v.len() && p(#[trigger] v[i]) ==> can(*v[i])
    ensures #![trigger v.filter(p)] forall|i: int| 0 <= i < v.filter(p).len() ==> can(*#[trigger] v.filter(p)[i])
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        let d = v.drop_last();
        assert forall|i: int| 0 <= i < d.len() && p(#[trigger] d[i]) implies can(*d[i]) by { assert(v[i] == d[i]); }
        lem_live_can(d, p);
        assert(p(v[v.len() - 1]) ==> can(*v[v.len() - 1]));
        let f = v.filter(p);
        assert forall|i: int| 0 <= i < f.len() implies can(*#[trigger] f[i]) by { if i < d.filter(p).len() { assert(f[i] == d.filter(p)[i]); } }
    }
}
