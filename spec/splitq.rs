// ---- intersections of two slices of one quorum set
/// two sets satisfying `q` can have nothing in common outside `s`
pub open spec fn sx2(q: QuorumSet, a: Set<usize>, b: Set<usize>, s: Set<usize>) -> bool { sat(q, a) && sat(q, b) && a.intersect(b).subset_of(s) }
pub open spec fn sx(q: QuorumSet, s: Set<usize>) -> bool { exists|a: Set<usize>, b: Set<usize>| #[trigger] sx2(q, a, b, s) }
pub open spec fn splitsat(q: QuorumSet) -> bool { sx(q, Set::empty()) }
/// how many of the first `n` can agree at all / can agree in two places without a common node
pub open spec fn nliv(v: Seq<QuorumSet>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { nliv(v, n - 1) + if can(v[n - 1]) { 1int } else { 0int } } }
pub open spec fn nspl(v: Seq<QuorumSet>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { nspl(v, n - 1) + if splitsat(v[n - 1]) { 1int } else { 0int } } }
/// satisfied by exactly the sets that can be all that two slices of `q` share
pub open spec fn spq(q: QuorumSet) -> QuorumSet
    decreases q,
{
    let m = q.inner_quorum_sets@.len() as int;
    let t = 2 * q.threshold - (q.validators@.len() + nliv(q.inner_quorum_sets@, m)) - nspl(q.inner_quorum_sets@, m);
    QuorumSet {
        threshold: (if t < 0 { 0 } else { t }) as usize,
        validators: q.validators,
        inner_quorum_sets: vec_of(spqs(q.inner_quorum_sets, m)),
    }
}
pub open spec fn spqs(v: Vec<QuorumSet>, n: int) -> Seq<QuorumSet>
    decreases v, n when 0 <= n <= v@.len()
{
    if n <= 0 { Seq::empty() } else if can(v@[n - 1]) && !splitsat(v@[n - 1]) { spqs(v, n - 1).push(spq(v@[n - 1])) } else { spqs(v, n - 1) }
}
pub proof fn lem_sx_can(q: QuorumSet, s: Set<usize>)
    requires sx(q, s)
    ensures can(q)
{ let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] sx2(q, a, b, s); }
pub proof fn lem_sx_mono(q: QuorumSet, s: Set<usize>, t: Set<usize>)
    requires sx(q, s), s.subset_of(t)
    ensures sx(q, t)
{ let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] sx2(q, a, b, s); assert(sx2(q, a, b, t)); }
pub proof fn lem_nliv(v: Vec<QuorumSet>, n: int)
    requires 0 <= n <= v@.len()
    ensures 0 <= nspl(v@, n) <= nliv(v@, n) <= n, spqs(v, n).len() == nliv(v@, n) - nspl(v@, n)
    decreases n
{ if n > 0 { lem_nliv(v, n - 1); if splitsat(v@[n - 1]) { lem_sx_can(v@[n - 1], Set::empty()); } } }
pub open spec fn sthr0(q: QuorumSet) -> int { 2 * q.threshold - (q.validators@.len() + nliv(q.inner_quorum_sets@, q.inner_quorum_sets@.len() as int)) }
/// at least as many members can agree as have to
pub proof fn lem_can_thr(q: QuorumSet)
    requires can(q)
    ensures 0 < q.threshold <= q.validators@.len() + nliv(q.inner_quorum_sets@, q.inner_quorum_sets@.len() as int), 2 * q.threshold <= usize::MAX,
        nmem(q) <= isize::MAX
{
    let s = choose|s: Set<usize>| sat(q, s);
    let m = q.inner_quorum_sets@.len() as int;
    lem_sat(q, s);
    lem_nval_max(q.validators@, s);
    lem_ninner_nliv(q.inner_quorum_sets, m, s);
    lem_nliv(q.inner_quorum_sets, m);
    ax_vec_limit(&q);
}
pub proof fn lem_ninner_nliv(v: Vec<QuorumSet>, n: int, s: Set<usize>)
    requires 0 <= n <= v@.len()
    ensures ninner(v, n, s) <= nliv(v@, n)
    decreases n
{ if n > 0 { lem_ninner_nliv(v, n - 1, s); if sat(v@[n - 1], s) { assert(can(v@[n - 1])); } } }
pub proof fn lem_spq_inner(q: QuorumSet)
    requires can(q)
    ensures spq(q).inner_quorum_sets@ == spqs(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int), spq(q).validators == q.validators,
        ({ let t = sthr0(q) - nspl(q.inner_quorum_sets@, q.inner_quorum_sets@.len() as int); spq(q).threshold == if t < 0 { 0 } else { t } })
{
    let m = q.inner_quorum_sets@.len() as int;
    lem_nliv(q.inner_quorum_sets, m);
    lem_can_thr(q);
    ax_vec_of(q.inner_quorum_sets, spqs(q.inner_quorum_sets, m));
}
// ---- member by member
pub open spec fn mcan(q: QuorumSet, j: int) -> bool { j < q.validators@.len() || can(q.inner_quorum_sets@[j - q.validators@.len()]) }
pub open spec fn msx(q: QuorumSet, j: int, s: Set<usize>) -> bool {
    if j < q.validators@.len() { s.contains(q.validators@[j]) } else { sx(q.inner_quorum_sets@[j - q.validators@.len()], s) }
}
pub open spec fn mliv(q: QuorumSet, m: int) -> int
    decreases m,
{ if m <= 0 { 0 } else { mliv(q, m - 1) + if mcan(q, m - 1) { 1int } else { 0int } } }
pub open spec fn mx(q: QuorumSet, s: Set<usize>, m: int) -> int
    decreases m,
{ if m <= 0 { 0 } else { mx(q, s, m - 1) + if msx(q, m - 1, s) { 1int } else { 0int } } }
pub proof fn lem_msx_can(q: QuorumSet, j: int, s: Set<usize>)
    requires msx(q, j, s)
    ensures mcan(q, j)
{ if j >= q.validators@.len() { lem_sx_can(q.inner_quorum_sets@[j - q.validators@.len()], s); } }
pub proof fn lem_mx_max(q: QuorumSet, s: Set<usize>, m: int)
    ensures 0 <= mx(q, s, m) <= mliv(q, m)
    decreases m
{ if m > 0 { lem_mx_max(q, s, m - 1); if msx(q, m - 1, s) { lem_msx_can(q, m - 1, s); } } }
pub proof fn lem_cnt_two(q: QuorumSet, a: Set<usize>, b: Set<usize>, s: Set<usize>, m: int)
    requires a.intersect(b).subset_of(s), 0 <= m <= nmem(q)
    ensures cnt(q, a, m) + cnt(q, b, m) <= mliv(q, m) + mx(q, s, m)
    decreases m
{
    if m > 0 {
        lem_cnt_two(q, a, b, s, m - 1);
        let (j, nv) = (m - 1, q.validators@.len());
        if msat(q, j, a) || msat(q, j, b) { if j >= nv { let p = q.inner_quorum_sets@[j - nv]; assert(can(p)); } }
        if msat(q, j, a) && msat(q, j, b) {
            if j < nv { assert(a.intersect(b).contains(q.validators@[j])); } else { assert(sx2(q.inner_quorum_sets@[j - nv], a, b, s)); }
        }
    }
}
pub open spec fn below_m(q: QuorumSet, a: Set<usize>, m: int) -> bool { forall|x: usize| #[trigger] a.contains(x) ==> exists|j: int| 0 <= j < m && #[trigger] supp(q, j).contains(x) }
pub open spec fn built(q: QuorumSet, s: Set<usize>, m: int, a: int, b: int, r: (Set<usize>, Set<usize>)) -> bool {
    cnt(q, r.0, m) >= a && cnt(q, r.1, m) >= b && r.0.intersect(r.1).subset_of(s) && below_m(q, r.0, m) && below_m(q, r.1, m)
}
pub proof fn lem_cnt_mono(q: QuorumSet, s: Set<usize>, t: Set<usize>, m: int)
    requires s.subset_of(t)
    ensures cnt(q, s, m) <= cnt(q, t, m)
    decreases m
{ if m > 0 { lem_cnt_mono(q, s, t, m - 1); if msat(q, m - 1, s) { lem_msat_mono(q, m - 1, s, t); } } }
/// a set of its own nodes that member `j` agrees with
pub proof fn lem_msat_own(q: QuorumSet, j: int, a: Set<usize>)
    requires msat(q, j, a)
    ensures msat(q, j, a.intersect(supp(q, j)))
{
    if j >= q.validators@.len() { lem_local(q.inner_quorum_sets@[j - q.validators@.len()], a, a.intersect(supp(q, j))); }
}
pub proof fn lem_mcan_own(q: QuorumSet, j: int) -> (a: Set<usize>)
    requires mcan(q, j)
    ensures msat(q, j, a), a.subset_of(supp(q, j))
{
    if j < q.validators@.len() { Set::empty().insert(q.validators@[j]) } else {
        let p = q.inner_quorum_sets@[j - q.validators@.len()];
        let s = choose|s: Set<usize>| sat(p, s);
        lem_msat_own(q, j, s);
        s.intersect(supp(q, j))
    }
}
pub proof fn lem_msx_own(q: QuorumSet, j: int, s: Set<usize>) -> (r: (Set<usize>, Set<usize>))
    requires msx(q, j, s)
    ensures msat(q, j, r.0), msat(q, j, r.1), r.0.subset_of(supp(q, j)), r.1.subset_of(supp(q, j)), r.0.intersect(r.1).subset_of(s)
{
    if j < q.validators@.len() { let a = Set::empty().insert(q.validators@[j]); (a, a) } else {
        let p = q.inner_quorum_sets@[j - q.validators@.len()];
        let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] sx2(p, a, b, s);
        lem_msat_own(q, j, a); lem_msat_own(q, j, b);
        (a.intersect(supp(q, j)), b.intersect(supp(q, j)))
    }
}
/// adding own nodes of member `m` to sets of nodes of the members before
pub proof fn lem_extend(q: QuorumSet, a: Set<usize>, e: Set<usize>, m: int, n: int)
    requires 0 <= m < nmem(q), below_m(q, a, m), e.subset_of(supp(q, m)), cnt(q, a, m) >= n - 1, msat(q, m, e)
    ensures cnt(q, a.union(e), m + 1) >= n, below_m(q, a.union(e), m + 1)
{
    lem_cnt_mono(q, a, a.union(e), m);
    lem_msat_mono(q, m, e, a.union(e));
    assert forall|x: usize| #[trigger] a.union(e).contains(x) implies exists|j: int| 0 <= j < m + 1 && #[trigger] supp(q, j).contains(x) by {
        if e.contains(x) { assert(supp(q, m).contains(x)); } else { let j = choose|j: int| 0 <= j < m && #[trigger] supp(q, j).contains(x); assert(supp(q, j).contains(x)); }
    }
}
pub proof fn lem_below_step(q: QuorumSet, a: Set<usize>, m: int)
    requires below_m(q, a, m)
    ensures below_m(q, a, m + 1)
{
    assert forall|x: usize| #[trigger] a.contains(x) implies exists|j: int| 0 <= j < m + 1 && #[trigger] supp(q, j).contains(x) by {
        let j = choose|j: int| 0 <= j < m && #[trigger] supp(q, j).contains(x); assert(supp(q, j).contains(x));
    }
}
pub proof fn lem_apart(q: QuorumSet, a: Set<usize>, e: Set<usize>, m: int)
    requires flat(q).no_duplicates(), 0 <= m < nmem(q), below_m(q, a, m), e.subset_of(supp(q, m))
    ensures a.disjoint(e)
{
    lem_supp_disjoint(q);
    assert forall|x: usize| !(a.contains(x) && e.contains(x)) by {
        if a.contains(x) && e.contains(x) { let j = choose|j: int| 0 <= j < m && #[trigger] supp(q, j).contains(x); assert(supp(q, m).contains(x)); }
    }
}
pub proof fn lem_sx_build(q: QuorumSet, s: Set<usize>, m: int, a: int, b: int) -> (r: (Set<usize>, Set<usize>))
    requires flat(q).no_duplicates(), 0 <= m <= nmem(q), a <= mliv(q, m), b <= mliv(q, m), a + b <= mliv(q, m) + mx(q, s, m)
    ensures built(q, s, m, a, b, r)
    decreases m
{
    if m <= 0 { (Set::empty(), Set::empty()) } else {
        let j = m - 1;
        lem_mx_max(q, s, j);
        if !mcan(q, j) {
            if msx(q, j, s) { lem_msx_can(q, j, s); }
            let r = lem_sx_build(q, s, j, a, b);
            lem_below_step(q, r.0, j); lem_below_step(q, r.1, j);
            r
        } else if msx(q, j, s) {
            let r = lem_sx_build(q, s, j, a - 1, b - 1);
            let e = lem_msx_own(q, j, s);
            lem_extend(q, r.0, e.0, j, a); lem_extend(q, r.1, e.1, j, b);
            lem_apart(q, r.0, e.1, j); lem_apart(q, r.1, e.0, j);
            let (x, y) = (r.0.union(e.0), r.1.union(e.1));
            assert forall|z: usize| x.intersect(y).contains(z) implies s.contains(z) by {
                if r.0.contains(z) && r.1.contains(z) { assert(r.0.intersect(r.1).contains(z)); }
                if e.0.contains(z) && e.1.contains(z) { assert(e.0.intersect(e.1).contains(z)); }
            }
            (x, y)
        } else {
            let e = lem_mcan_own(q, j);
            if a >= b {
                let r = lem_sx_build(q, s, j, a - 1, b);
                lem_extend(q, r.0, e, j, a);
                lem_apart(q, r.1, e, j);
                lem_below_step(q, r.1, j);
                let x = r.0.union(e);
                assert forall|z: usize| x.intersect(r.1).contains(z) implies s.contains(z) by { if r.0.contains(z) { assert(r.0.intersect(r.1).contains(z)); } }
                (x, r.1)
            } else {
                let r = lem_sx_build(q, s, j, a, b - 1);
                lem_extend(q, r.1, e, j, b);
                lem_apart(q, r.0, e, j);
                lem_below_step(q, r.0, j);
                let y = r.1.union(e);
                assert forall|z: usize| r.0.intersect(y).contains(z) implies s.contains(z) by { if r.1.contains(z) { assert(r.0.intersect(r.1).contains(z)); } }
                (r.0, y)
            }
        }
    }
}
pub proof fn lem_mliv(q: QuorumSet, n: int)
    requires 0 <= n <= q.inner_quorum_sets@.len()
    ensures mliv(q, q.validators@.len() + n) == q.validators@.len() + nliv(q.inner_quorum_sets@, n)
    decreases n
{ if n > 0 { lem_mliv(q, n - 1); } else { lem_mliv_v(q, q.validators@.len() as int); } }
pub proof fn lem_mliv_v(q: QuorumSet, m: int)
    requires 0 <= m <= q.validators@.len()
    ensures mliv(q, m) == m
    decreases m
{ if m > 0 { lem_mliv_v(q, m - 1); } }
pub proof fn lem_mx_v(q: QuorumSet, s: Set<usize>, m: int)
    requires 0 <= m <= q.validators@.len()
    ensures mx(q, s, m) == nval(q.validators@.take(m), s)
    decreases m
{ if m > 0 { lem_mx_v(q, s, m - 1); assert(q.validators@.take(m).drop_last() =~= q.validators@.take(m - 1)); } }
/// `s` can be all that two slices share exactly when enough members can have all they share inside `s`
pub proof fn lem_sx_count(q: QuorumSet, s: Set<usize>)
    requires can(q), flat(q).no_duplicates()
    ensures sx(q, s) <==> mx(q, s, nmem(q)) >= sthr0(q)
{
    let t = q.threshold as int;
    lem_can_thr(q);
    lem_mliv(q, q.inner_quorum_sets@.len() as int);
    if sx(q, s) {
        let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] sx2(q, a, b, s);
        lem_cnt(q, a); lem_cnt(q, b);
        lem_cnt_two(q, a, b, s, nmem(q));
    }
    if mx(q, s, nmem(q)) >= sthr0(q) {
        let r = lem_sx_build(q, s, nmem(q), t, t);
        lem_cnt(q, r.0); lem_cnt(q, r.1);
        assert(sx2(q, r.0, r.1, s));
    }
}
pub proof fn lem_mx_inner(q: QuorumSet, s: Set<usize>, n: int)
    requires 0 <= n <= q.inner_quorum_sets@.len(),
        forall|i: int| 0 <= i < n && can(q.inner_quorum_sets@[i]) && !splitsat(q.inner_quorum_sets@[i]) ==> (sx(#[trigger] q.inner_quorum_sets@[i], s) <==> sat(spq(q.inner_quorum_sets@[i]), s))
    ensures mx(q, s, q.validators@.len() + n) == nval(q.validators@, s) + nspl(q.inner_quorum_sets@, n) + nsat(spqs(q.inner_quorum_sets, n), s)
    decreases n
{
    if n > 0 {
        lem_mx_inner(q, s, n - 1);
        let v = q.inner_quorum_sets;
        let p = v@[n - 1];
        if splitsat(p) { lem_sx_mono(p, Set::empty(), s); lem_sx_can(p, Set::empty()); }
        if sx(p, s) { lem_sx_can(p, s); }
        if can(p) && !splitsat(p) {
            assert(spqs(v, n).drop_last() =~= spqs(v, n - 1));
            assert(spqs(v, n).last() == spq(p));
        }
    } else {
        lem_mx_v(q, s, q.validators@.len() as int);
        assert(q.validators@.take(q.validators@.len() as int) =~= q.validators@);
    }
}
pub proof fn lem_mx_empty(q: QuorumSet, m: int)
    requires 0 <= m <= q.inner_quorum_sets@.len()
    ensures mx(q, Set::empty(), q.validators@.len() + m) == nspl(q.inner_quorum_sets@, m)
    decreases m
{
    if m > 0 { lem_mx_empty(q, m - 1); } else { lem_mx_v(q, Set::empty(), q.validators@.len() as int); lem_nval_empty(q.validators@.take(q.validators@.len() as int)); }
}
/// when even nothing can be all they share
pub broadcast proof fn lem_splitsat(q: QuorumSet)
    requires can(q), flat(q).no_duplicates()
    ensures #[trigger] splitsat(q) <==> nspl(q.inner_quorum_sets@, q.inner_quorum_sets@.len() as int) >= sthr0(q)
{ lem_sx_count(q, Set::empty()); lem_mx_empty(q, q.inner_quorum_sets@.len() as int); }
pub proof fn lem_spq(q: QuorumSet, s: Set<usize>)
    requires can(q), flat(q).no_duplicates(), !splitsat(q)
    ensures sx(q, s) <==> sat(spq(q), s)
    decreases q
{
    let m = q.inner_quorum_sets@.len() as int;
    let d = spq(q);
    lem_spq_inner(q);
    lem_splitsat(q);
    lem_sx_count(q, s);
    lem_supp_disjoint(q);
    lem_spq_all(q.inner_quorum_sets, m, s);
    lem_mx_inner(q, s, m);
    let n2 = d.inner_quorum_sets@.len() as int;
    lem_ninner_nsat(d.inner_quorum_sets, n2, s);
    assert(d.inner_quorum_sets@.take(n2) =~= d.inner_quorum_sets@);
    lem_sat(d, s);
}
pub proof fn lem_spq_all(v: Vec<QuorumSet>, n: int, s: Set<usize>)
    requires 0 <= n <= v@.len(), forall|i: int| 0 <= i < n ==> flat(#[trigger] v@[i]).no_duplicates()
    ensures forall|i: int| 0 <= i < n && can(v@[i]) && !splitsat(v@[i]) ==> (sx(#[trigger] v@[i], s) <==> sat(spq(v@[i]), s))
    decreases v, n
{
    if n > 0 {
        lem_spq_all(v, n - 1, s);
        let p = v@[n - 1];
        assert(flat(p).no_duplicates());
        if can(p) && !splitsat(p) { lem_spq(p, s); }
    }
}
/// `spq(q)` mentions only nodes that `q` mentions, and none twice unless `q` does
pub proof fn lem_spq_flat(q: QuorumSet)
    requires can(q)
    ensures qn(spq(q)).subset_of(qn(q)), flat(q).no_duplicates() ==> flat(spq(q)).no_duplicates()
    decreases q
{
    let m = q.inner_quorum_sets@.len() as int;
    let d = spq(q);
    lem_spq_inner(q);
    lem_spqs_flat(q.inner_quorum_sets, m);
    let n2 = d.inner_quorum_sets@.len() as int;
    lem_flat_seq(d.inner_quorum_sets, n2);
    assert(d.inner_quorum_sets@.take(n2) =~= d.inner_quorum_sets@);
    lem_flat(q); lem_flat(d);
    let (a, b, c) = (q.validators@, flat_i(q.inner_quorum_sets, m), flat_s(spqs(q.inner_quorum_sets, m)));
    assert(flat(d) == a + c);
    assert forall|x: usize| qn(d).contains(x) implies qn(q).contains(x) by { lem_concat_contains(a, c, x); lem_concat_contains(a, b, x); }
    if flat(q).no_duplicates() { lem_nodup_concat(a, b); lem_nodup_join(a, c); }
}
pub proof fn lem_spqs_flat(v: Vec<QuorumSet>, n: int)
    requires 0 <= n <= v@.len()
    ensures forall|x: usize| #[trigger] flat_s(spqs(v, n)).contains(x) ==> flat_i(v, n).contains(x),
        flat_i(v, n).no_duplicates() ==> flat_s(spqs(v, n)).no_duplicates()
    decreases v, n
{
    if n > 0 {
        lem_spqs_flat(v, n - 1);
        let p = v@[n - 1];
        let (a, b) = (flat_i(v, n - 1), flat(p));
        let c = flat_s(spqs(v, n - 1));
        if flat_i(v, n).no_duplicates() { lem_nodup_concat(a, b); }
        if can(p) && !splitsat(p) {
            lem_spq_flat(p);
            assert(spqs(v, n).drop_last() =~= spqs(v, n - 1));
            assert(spqs(v, n).last() == spq(p));
            let e = flat(spq(p));
            assert forall|x: usize| #[trigger] e.contains(x) implies b.contains(x) by { assert(qn(spq(p)).contains(x)); assert(qn(p).contains(x)); }
            assert forall|x: usize| #[trigger] flat_s(spqs(v, n)).contains(x) implies flat_i(v, n).contains(x) by { lem_concat_contains(c, e, x); lem_concat_contains(a, b, x); }
            if flat_i(v, n).no_duplicates() {
                assert forall|x: usize| !(#[trigger] c.contains(x) && #[trigger] e.contains(x)) by { assert(!(a.contains(x) && b.contains(x))); }
                lem_nodup_join(c, e);
            }
        } else {
            assert forall|x: usize| #[trigger] flat_s(spqs(v, n)).contains(x) implies flat_i(v, n).contains(x) by { lem_concat_contains(a, b, x); }
        }
    }
}
// ---- what the code puts together
pub open spec fn split_ok(q: QuorumSet, r: Seq<BitSet>) -> bool { if splitsat(q) { r.len() == 1 && r[0]@ == Set::<usize>::empty() } else { slices_ok(spq(q), r) } }
pub open spec fn canu(q: QuorumSet) -> bool { can(q) && flat(q).no_duplicates() }
pub proof fn lem_filter_cat<T>(a: Seq<T>, b: Seq<T>, p: spec_fn(T) -> bool)
    ensures (a + b).filter(p) == a.filter(p) + b.filter(p)
    decreases b.len()
{
    reveal(Seq::filter);
    if b.len() > 0 { lem_filter_cat(a, b.drop_last(), p); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).filter(p) =~= a.filter(p) + b.filter(p)); }
    else { assert(a + b =~= a); assert(a.filter(p) + b.filter(p) =~= a.filter(p)); }
}
pub proof fn lem_filter_all<T>(a: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < a.len() ==> p(#[trigger] a[i])
    ensures a.filter(p) == a
    decreases a.len()
{
    reveal(Seq::filter);
    if a.len() > 0 {
        let d = a.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies p(#[trigger] d[i]) by { assert(d[i] == a[i]); }
        lem_filter_all(d, p);
        assert(p(a[a.len() - 1]));
        assert(a.filter(p) =~= a);
    }
}
pub proof fn lem_spl_inner(v: Vec<QuorumSet>, n: int, s: Seq<&QuorumSet>, pc: spec_fn(&QuorumSet) -> bool, g: Seq<Vec<BitSet>>, pr: spec_fn(Vec<BitSet>) -> bool)
    requires 0 <= n <= v@.len(), s.len() == n, forall|i: int| 0 <= i < n ==> *#[trigger] s[i] == v@[i] && pc(s[i]) == can(v@[i]),
        g.len() == s.filter(pc).len(), forall|i: int| 0 <= i < g.len() ==> split_ok(*s.filter(pc)[i], (#[trigger] g[i])@) && pr(g[i]) == !(has(g[i]@, Set::<usize>::empty()))
    ensures s.filter(pc).len() == nliv(v@, n), g.filter(pr).len() == spqs(v, n).len(),
        forall|i: int| 0 <= i < spqs(v, n).len() ==> slices_ok(#[trigger] spqs(v, n)[i], g.filter(pr)[i]@)
    decreases n
{
    reveal(Seq::filter);
    if n > 0 {
        let p = v@[n - 1];
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies *#[trigger] d[i] == v@[i] && pc(d[i]) == can(v@[i]) by { assert(d[i] == s[i]); }
        assert(*s[n - 1] == p && pc(s[n - 1]) == can(p));
        if can(p) {
            let e = g.drop_last();
            assert forall|i: int| 0 <= i < e.len() implies split_ok(*d.filter(pc)[i], (#[trigger] e[i])@) && pr(e[i]) == !(has(e[i]@, Set::<usize>::empty())) by { assert(e[i] == g[i]); assert(s.filter(pc)[i] == d.filter(pc)[i]); }
            lem_spl_inner(v, n - 1, d, pc, e, pr);
            let l = g[g.len() - 1];
            assert(split_ok(p, l@));
            if splitsat(p) { assert(has(l@, Set::<usize>::empty())) by { assert(l@[0]@ == Set::<usize>::empty()); } assert(!pr(l)); }
            else {
                if has(l@, Set::<usize>::empty()) { let i = choose|i: int| 0 <= i < l@.len() && l@[i]@ == Set::<usize>::empty(); lem_sat_empty(spq(p)); assert(sat(spq(p), l@[i]@)); }
                assert forall|i: int| 0 <= i < spqs(v, n).len() implies slices_ok(#[trigger] spqs(v, n)[i], g.filter(pr)[i]@) by { if i < n - 1 && i < spqs(v, n - 1).len() { assert(slices_ok(spqs(v, n - 1)[i], e.filter(pr)[i]@)); } }
            }
        } else {
            lem_spl_inner(v, n - 1, d, pc, g, pr);
            if splitsat(p) { lem_sx_can(p, Set::empty()); }
        }
    }
}
/// the groups that are left are those of the members of `spq(q)`
pub open spec fn sgroups(q: QuorumSet, g: Seq<Vec<BitSet>>, h: Seq<Vec<BitSet>>) -> bool {
    &&& g.len() == q.validators@.len() + nliv(q.inner_quorum_sets@, q.inner_quorum_sets@.len() as int)
    &&& h.len() == g.len() - nspl(q.inner_quorum_sets@, q.inner_quorum_sets@.len() as int)
    &&& groups_ok(spq(q), h)
}
pub proof fn lem_single(e: Seq<BitSet>, x: usize)
    requires e.len() == 1, e[0]@ == Set::<usize>::empty().insert(x)
    ensures !(has(e, Set::<usize>::empty()))
{ if has(e, Set::<usize>::empty()) { let k = choose|k: int| 0 <= k < e.len() && e[k]@ == Set::<usize>::empty(); assert(e[0]@.contains(x)); } }
pub proof fn lem_spl_groups2(q: QuorumSet, g: Seq<Vec<BitSet>>, b: Seq<Vec<BitSet>>, h: Seq<Vec<BitSet>>)
    requires can(q), q.validators@.len() <= g.len(), h == g.take(q.validators@.len() as int) + b, b.len() == spqs(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int).len(),
        forall|j: int| 0 <= j < q.validators@.len() ==> (#[trigger] g[j])@.len() == 1 && g[j]@[0]@ == Set::<usize>::empty().insert(q.validators@[j]),
        forall|i: int| 0 <= i < b.len() ==> slices_ok(#[trigger] spqs(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int)[i], b[i]@)
    ensures groups_ok(spq(q), h)
{
    hide(slices_ok); hide(has); hide(nspl); hide(nliv); hide(splitsat); hide(can); hide(spqs);
    let nv = q.validators@.len() as int;
    let m = q.inner_quorum_sets@.len() as int;
    lem_spq_inner(q);
    let d = spq(q);
    assert forall|j: int| 0 <= j < nv implies (#[trigger] h[j])@.len() == 1 && h[j]@[0]@ == Set::<usize>::empty().insert(d.validators@[j]) by { assert(h[j] == g[j]); }
    assert forall|j: int| nv <= j < nmem(d) implies slices_ok(d.inner_quorum_sets@[j - nv], (#[trigger] h[j])@) by { assert(h[j] == b[j - nv]); assert(slices_ok(spqs(q.inner_quorum_sets, m)[j - nv], b[j - nv]@)); }
    lem_groups(d, h);
}
pub broadcast proof fn lem_spl_groups(q: QuorumSet, g: Seq<Vec<BitSet>>, pr: spec_fn(Vec<BitSet>) -> bool, s: Seq<&QuorumSet>, pc: spec_fn(&QuorumSet) -> bool)
    requires
        #[trigger] canu(q), g.len() == q.validators@.len() + #[trigger] s.filter(pc).len(), s.len() == q.inner_quorum_sets@.len(),
        forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == q.inner_quorum_sets@[i] && pc(s[i]) == can(q.inner_quorum_sets@[i]),
        forall|j: int| 0 <= j < g.len() ==> pr(#[trigger] g[j]) == !(has(g[j]@, Set::<usize>::empty())),
        forall|j: int| 0 <= j < q.validators@.len() ==> (#[trigger] g[j])@.len() == 1 && g[j]@[0]@ == Set::<usize>::empty().insert(q.validators@[j]),
        forall|j: int| q.validators@.len() <= j < g.len() ==> split_ok(*s.filter(pc)[j - q.validators@.len()], (#[trigger] g[j])@)
    ensures sgroups(q, g, #[trigger] g.filter(pr))
{
    hide(split_ok); hide(slices_ok); hide(groups_ok); hide(has); hide(nspl); hide(nliv); hide(splitsat); hide(can); hide(flat); hide(spqs); hide(spq);
    let nv = q.validators@.len() as int;
    let m = q.inner_quorum_sets@.len() as int;
    let (a, b) = (g.take(nv), g.skip(nv));
    assert(g =~= a + b);
    lem_filter_cat(a, b, pr);
    assert forall|i: int| 0 <= i < a.len() implies pr(#[trigger] a[i]) by { assert(a[i] == g[i]); lem_single(g[i]@, q.validators@[i]); }
    lem_filter_all(a, pr);
    assert forall|i: int| 0 <= i < b.len() implies split_ok(*s.filter(pc)[i], (#[trigger] b[i])@) && pr(b[i]) == !(has(b[i]@, Set::<usize>::empty())) by { assert(b[i] == g[nv + i]); }
    lem_spl_inner(q.inner_quorum_sets, m, s, pc, b, pr);
    lem_nliv(q.inner_quorum_sets, m);
    lem_spq_inner(q);
    let h = g.filter(pr);
    assert(h == a + b.filter(pr));
    lem_spl_groups2(q, g, b.filter(pr), h);
}
pub broadcast proof fn lem_spl_slices(q: QuorumSet, g: Seq<Vec<BitSet>>, h: Seq<Vec<BitSet>>, k: int, cv: Seq<Vec<Vec<BitSet>>>, v: Seq<Vec<BitSet>>)
    requires can(q), #[trigger] sgroups(q, g, h), #[trigger] is_combs(h, k, cv), k == sthr0(q) - nspl(q.inner_quorum_sets@, q.inner_quorum_sets@.len() as int), k >= 0,
        v.len() == cv.len(), forall|c: int| 0 <= c < v.len() ==> row(#[trigger] cv[c]@, #[trigger] v[c]@),
    ensures #[trigger] slices_ok(spq(q), concat_seq(v))
{
    lem_spq_inner(q);
    lem_slices_of(spq(q), h, cv, v);
}
/// every entry of a filtered list passed the filter
pub broadcast proof fn lem_live_canu(v: Seq<&QuorumSet>, p: spec_fn(&QuorumSet) -> bool)
    requires forall|i: int| 0 <= i < v.len() && p(#[trigger] v[i]) ==> canu(*v[i])
    ensures #![trigger v.filter(p)] forall|i: int| 0 <= i < v.filter(p).len() ==> canu(*#[trigger] v.filter(p)[i])
    decreases v.len()
{
    lem_filter_set(v, p);
    let f = v.filter(p);
    assert forall|i: int| 0 <= i < f.len() implies canu(*#[trigger] f[i]) by { assert(f.contains(f[i])); let j = choose|j: int| 0 <= j < v.len() && v[j] == f[i]; assert(p(v[j])); }
}
// ---- minimal intersections of two different minimal slices
pub open spec fn two_min(q: QuorumSet, s: Set<usize>) -> bool { exists|a: Set<usize>, b: Set<usize>| #[trigger] min_sat(q, a) && #[trigger] min_sat(q, b) && a != b && s == a.intersect(b) }
pub open spec fn min_two(q: QuorumSet, s: Set<usize>) -> bool { two_min(q, s) && forall|t: Set<usize>| #[trigger] two_min(q, t) && t.subset_of(s) ==> t == s }
pub open spec fn min_twos(q: QuorumSet, r: Seq<BitSet>) -> bool { antichain(r) && forall|s: Set<usize>| #[trigger] has(r, s) <==> min_two(q, s) }
pub proof fn lem_has_min_sat(q: QuorumSet, s: Set<usize>) -> (m: Set<usize>)
    requires sat(q, s)
    ensures m.subset_of(s), min_sat(q, m)
    decreases s.len()
{
    if min_sat(q, s) { s } else {
        let t = choose|t: Set<usize>| #[trigger] t.subset_of(s) && sat(q, t) && t != s;
        lem_subset_smaller(t, s);
        lem_has_min_sat(q, t)
    }
}
pub proof fn lem_two_sx(q: QuorumSet, s: Set<usize>)
    requires two_min(q, s)
    ensures sx(q, s)
{ let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] min_sat(q, a) && #[trigger] min_sat(q, b) && a != b && s == a.intersect(b); assert(sx2(q, a, b, s)); }
pub open spec fn some_slice(q: QuorumSet, r: Seq<BitSet>) -> bool { exists|i: int| 0 <= i < r.len() && sat(q, (#[trigger] r[i])@) }
pub open spec fn spl_result(q: QuorumSet, r: Seq<BitSet>) -> bool {
    &&& !some_slice(q, r) ==> min_twos(q, r)
    &&& some_slice(q, r) ==> min_twos(q, Seq::empty())
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ != Set::<usize>::empty()
}
pub broadcast proof fn lem_spl_result(q: QuorumSet, r: Seq<BitSet>)
    requires canu(q), !splitsat(q), #[trigger] split_ok(q, r)
    ensures spl_result(q, r)
{
    let d = spq(q);
    lem_min_slices(d, r);
    lem_spq_flat(q);
    assert(antichain(r));
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i])@ != Set::<usize>::empty() by { lem_sat_empty(d); assert(sat(d, r[i]@)); }
    assert forall|s: Set<usize>| true implies #[trigger] sx(q, s) == sat(d, s) by { lem_spq(q, s); }
    // a listed set and the intersections below it
    assert forall|s: Set<usize>, t: Set<usize>| has(r, s) && #[trigger] t.subset_of(s) && #[trigger] sx(q, t) implies t == s by { assert(min_sat(d, s)); assert(sat(d, t)); }
    if some_slice(q, r) {
        let i = choose|i: int| 0 <= i < r.len() && sat(q, (#[trigger] r[i])@);
        let s = r[i]@;
        assert(has(r, s));
        let a = lem_has_min_sat(q, s);
        assert(sx2(q, a, a, a));
        assert(sx(q, a));
        assert(a == s);
        assert forall|b: Set<usize>| #[trigger] min_sat(q, b) implies b == a by {
            let t = a.intersect(b);
            assert(sx2(q, a, b, t));
            assert(t.subset_of(s) && sx(q, t));
            assert(a.subset_of(b)) by { assert(t == a); assert forall|x: usize| a.contains(x) implies b.contains(x) by { assert(t.contains(x)); } }
        }
        assert forall|t: Set<usize>| !#[trigger] two_min(q, t) by {}
        assert forall|t: Set<usize>| !#[trigger] has(Seq::<BitSet>::empty(), t) by {}
    } else {
        assert forall|s: Set<usize>| has(r, s) implies two_min(q, s) by {
            assert(min_sat(d, s));
            assert(sx(q, s));
            let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] sx2(q, a, b, s);
            let (x, y) = (lem_has_min_sat(q, a), lem_has_min_sat(q, b));
            let t = x.intersect(y);
            assert forall|z: usize| t.contains(z) implies s.contains(z) by { assert(a.intersect(b).contains(z)); }
            assert(sx2(q, x, y, t));
            assert(t.subset_of(s) && sx(q, t));
            assert(t == s);
            if x == y {
                assert(t =~= x);
                let i = choose|i: int| 0 <= i < r.len() && r[i]@ == s;
                assert(sat(q, r[i]@));
            }
        }
        assert forall|s: Set<usize>| #[trigger] has(r, s) <==> min_two(q, s) by {
            if has(r, s) {
                assert forall|t: Set<usize>| #[trigger] two_min(q, t) && t.subset_of(s) implies t == s by { lem_two_sx(q, t); }
            }
            if min_two(q, s) {
                lem_two_sx(q, s);
                assert(sat(d, s));
                let t = lem_has_min_sat(d, s);
                assert(has(r, t));
                assert(two_min(q, t));
            }
        }
    }
}
