// ---- splitting sets: minimal intersections of two different minimal quorums
pub open spec fn sthr(q: QuorumSet) -> int {
    let t2 = if 2 * q.threshold <= usize::MAX { 2 * q.threshold } else { usize::MAX as int };
    if t2 >= nmem(q) { t2 - nmem(q) } else { 0 }
}
/// enough members could agree with two sets that share only nodes of `s`
pub open spec fn si(q: QuorumSet, s: Set<usize>) -> bool
    decreases q,
{ sthr(q) == 0 || nval(q.validators@, s) + nsi(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int, s) >= sthr(q) }
pub open spec fn nsi(v: Vec<QuorumSet>, n: int, s: Set<usize>) -> nat
    decreases v, n when 0 <= n <= v@.len()
{ if n <= 0 { 0 } else { nsi(v, n - 1, s) + (if si(v@[n - 1], s) { 1nat } else { 0nat }) } }
pub broadcast proof fn lem_si_def(q: QuorumSet, s: Set<usize>)
    ensures #[trigger] si(q, s) <==> sthr(q) == 0 || nval(q.validators@, s) + nsi(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int, s) >= sthr(q)
{}
pub broadcast proof fn lem_nsi(v: Seq<&QuorumSet>, p: spec_fn(&QuorumSet) -> bool, w: Vec<QuorumSet>, n: int, s: Set<usize>)
    requires v.len() == n, 0 <= n <= w@.len(), forall|i: int| 0 <= i < n ==> *#[trigger] v[i] == w@[i] && p(v[i]) == si(w@[i], s)
    ensures #[trigger] v.filter(p).len() == #[trigger] nsi(w, n, s)
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 { lem_nsi(v.drop_last(), p, w, n - 1, s); }
}
pub broadcast group si_lemmas { lem_si_def, lem_nsi, lem_nval }
/// what two satisfying sets share suffices
pub proof fn lem_si(q: QuorumSet, a: Set<usize>, b: Set<usize>, s: Set<usize>)
    requires sat(q, a), sat(q, b), a.intersect(b).subset_of(s)
    ensures si(q, s)
    decreases q
{
    let m = q.inner_quorum_sets@.len() as int;
    lem_si_v(q.validators@, a, b, s);
    lem_si_i(q.inner_quorum_sets, m, a, b, s);
    lem_sat(q, a); lem_sat(q, b);
}
pub proof fn lem_si_v(v: Seq<usize>, a: Set<usize>, b: Set<usize>, s: Set<usize>)
    requires a.intersect(b).subset_of(s)
    ensures nval(v, a) + nval(v, b) <= v.len() + nval(v, s)
    decreases v.len()
{ if v.len() > 0 { lem_si_v(v.drop_last(), a, b, s); if a.contains(v.last()) && b.contains(v.last()) { assert(a.intersect(b).contains(v.last())); } } }
pub proof fn lem_si_i(v: Vec<QuorumSet>, n: int, a: Set<usize>, b: Set<usize>, s: Set<usize>)
    requires a.intersect(b).subset_of(s), 0 <= n <= v@.len()
    ensures ninner(v, n, a) + ninner(v, n, b) <= n + nsi(v, n, s)
    decreases v, n
{ if n > 0 { lem_si_i(v, n - 1, a, b, s); if sat(v@[n - 1], a) && sat(v@[n - 1], b) { lem_si(v@[n - 1], a, b, s); } } }

/// any two minimal quorums have a node in common
pub open spec fn qi(f: Fbas) -> bool { forall|a: Set<usize>, b: Set<usize>| #[trigger] min_qf(f, a) && #[trigger] min_qf(f, b) ==> !a.disjoint(b) }
/// two different minimal quorums share exactly `s`
pub open spec fn split2(f: Fbas, a: Set<usize>, b: Set<usize>, s: Set<usize>) -> bool { min_qf(f, a) && min_qf(f, b) && a != b && s == a.intersect(b) }
pub open spec fn splitx(f: Fbas, s: Set<usize>) -> bool { exists|a: Set<usize>, b: Set<usize>| #[trigger] split2(f, a, b, s) }
pub open spec fn min_split(f: Fbas, s: Set<usize>) -> bool { splitx(f, s) && forall|t: Set<usize>| #[trigger] splitx(f, t) && t.subset_of(s) ==> t == s }
pub open spec fn pot(f: Fbas, sel: Set<usize>, av: Set<usize>) -> bool { forall|x: usize| #[trigger] sel.contains(x) ==> si(qs_of(f, x), av) }
/// `p` lists the minimal quorums around `sel`, without `sel`, that still matter; `ch`: none has been dropped for `sel` yet
pub open spec fn ss_state(f: Fbas, u: Seq<usize>, sel: Set<usize>, av: Set<usize>, p: Seq<BitSet>, ch: bool) -> bool {
    &&& search_state(f, u, sel, av) && qi(f) && distinct(p)
    &&& forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i])@.disjoint(sel) && min_qf(f, p[i]@.union(sel))
    &&& forall|q: Set<usize>| #[trigger] min_qf(f, q) && #[trigger] sel.subset_of(q) ==> has(p, q.difference(sel)) || (!ch && apart(q, u))
    &&& !ch ==> !min_split(f, sel)
}
pub open spec fn apart(q: Set<usize>, u: Seq<usize>) -> bool { forall|x: usize| #[trigger] u.contains(x) ==> !q.contains(x) }
/// the search below `sel`/`av` added only shared sets, among them all minimal ones in that range
pub open spec fn ss_done(f: Fbas, sel: Set<usize>, av: Set<usize>, o: Seq<BitSet>, r: Seq<BitSet>) -> bool {
    &&& forall|s: Set<usize>| #[trigger] has(r, s) ==> has(o, s) || splitx(f, s)
    &&& forall|s: Set<usize>| #[trigger] has(o, s) ==> has(r, s)
    &&& forall|s: Set<usize>| #[trigger] min_split(f, s) && sel.subset_of(s) && s.subset_of(av) ==> has(r, s)
}
pub broadcast proof fn lem_ss_pick(f: Fbas, u: Seq<usize>, sel: Set<usize>, av: Set<usize>, p: Seq<BitSet>, ch: bool)
    requires #[trigger] ss_state(f, u, sel, av, p, ch), u.len() > 0
    ensures
        !sel.contains(u[0]), av.contains(u[0]), u[0] < f.nodes@.len(),
        sel.insert(u[0]).remove(u[0]) == sel, av.remove(u[0]).insert(u[0]) == av, seq![u[0]] + u.skip(1) == u, u.skip(1) == u.subrange(1, u.len() as int),
{ lem_state_pick(f, u, sel, av); assert(u.skip(1) =~= u.subrange(1, u.len() as int)); }
pub broadcast proof fn lem_ss_with(f: Fbas, u: Seq<usize>, sel: Set<usize>, av: Set<usize>, p: Seq<BitSet>, ch: bool, z: spec_fn(&BitSet) -> bool, r: Seq<BitSet>)
    requires #[trigger] ss_state(f, u, sel, av, p, ch), u.len() > 0,
        forall|i: int| 0 <= i < p.len() ==> z(#[trigger] refs(p)[i]) == p[i]@.contains(u[0]),
        r.len() == #[trigger] refs(p).filter(z).len(),
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == refs(p).filter(z)[i]@.remove(u[0]),
    ensures #[trigger] ss_state(f, u.skip(1), sel.insert(u[0]), av, r, true)
{
    let (c, v) = (u[0], u.skip(1));
    let n = sel.insert(c);
    let w = refs(p);
    let y = w.filter(z);
    lem_state_pick(f, u, sel, av);
    lem_filter_set(w, z);
    let rel = |a: &BitSet, b: &BitSet| a@ != b@;
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies #[trigger] rel(w[i], w[j]) by { assert(p[i]@ != p[j]@); }
    lem_filter_pairs(w, z, rel);
    assert forall|i: int| 0 <= i < y.len() implies y[i]@.contains(c) && y[i]@.disjoint(sel) && min_qf(f, (#[trigger] y[i])@.union(sel)) by {
        assert(y.contains(y[i]));
        let k = choose|k: int| 0 <= k < w.len() && w[k] == y[i];
        assert(z(w[k]));
        assert(*w[k] == p[k]);
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i]@ != #[trigger] r[j]@ by {
        assert(rel(y[i], y[j]));
        assert(y[i]@.contains(c) && y[j]@.contains(c));
        if r[i]@ == r[j]@ { assert(y[i]@ =~= r[i]@.insert(c)); assert(y[j]@ =~= r[j]@.insert(c)); }
    }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i])@.disjoint(n) && min_qf(f, r[i]@.union(n)) by {
        assert(r[i]@ == y[i]@.remove(c));
        assert(r[i]@.union(n) =~= y[i]@.union(sel));
    }
    assert forall|q: Set<usize>| #[trigger] min_qf(f, q) && n.subset_of(q) implies has(r, q.difference(n)) by {
        assert(q.contains(c)); assert(u.contains(c));
        assert(sel.subset_of(q));
        assert(has(p, q.difference(sel)));
        let i = choose|i: int| 0 <= i < p.len() && p[i]@ == q.difference(sel);
        assert(z(w[i]) && w.contains(w[i]));
        assert(y.contains(w[i]));
        let k = choose|k: int| 0 <= k < y.len() && y[k] == w[i];
        assert(r[k]@ == y[k]@.remove(c));
        assert(r[k]@ =~= q.difference(n));
    }
}
pub broadcast proof fn lem_ss_without(f: Fbas, u: Seq<usize>, sel: Set<usize>, av: Set<usize>, p: Seq<BitSet>, ch: bool, z: spec_fn(BitSet) -> bool)
    requires #[trigger] ss_state(f, u, sel, av, p, ch), u.len() > 0, !min_split(f, sel),
        forall|i: int| 0 <= i < p.len() ==> z(#[trigger] p[i]) == !p[i]@.disjoint(av.remove(u[0])),
    ensures ss_state(f, u.skip(1), sel, av.remove(u[0]), #[trigger] p.filter(z), false)
{
    let (c, v) = (u[0], u.skip(1));
    let y = p.filter(z);
    lem_state_pick(f, u, sel, av);
    lem_filter_set(p, z);
    let rel = |a: BitSet, b: BitSet| a@ != b@;
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] rel(p[i], p[j]) by { assert(p[i]@ != p[j]@); }
    lem_filter_pairs(p, z, rel);
    assert forall|i: int, j: int| 0 <= i < j < y.len() implies #[trigger] y[i]@ != #[trigger] y[j]@ by { assert(rel(y[i], y[j])); }
    assert forall|i: int| 0 <= i < y.len() implies (#[trigger] y[i])@.disjoint(sel) && min_qf(f, y[i]@.union(sel)) by {
        assert(y.contains(y[i]));
        let k = choose|k: int| 0 <= k < p.len() && p[k] == y[i];
    }
    assert forall|x: usize| #[trigger] v.contains(x) implies u.contains(x) && av.remove(c).contains(x) && !sel.contains(x) by {}
    assert forall|q: Set<usize>| #[trigger] min_qf(f, q) && sel.subset_of(q) implies has(y, q.difference(sel)) || apart(q, v) by {
        if has(p, q.difference(sel)) {
            let i = choose|i: int| 0 <= i < p.len() && p[i]@ == q.difference(sel);
            if z(p[i]) {
                assert(p.contains(p[i]));
                assert(y.contains(p[i]));
                let k = choose|k: int| 0 <= k < y.len() && y[k] == p[i];
                assert(y[k]@ == q.difference(sel));
            } else {
                assert forall|x: usize| #[trigger] v.contains(x) implies !q.contains(x) by { if q.contains(x) { assert(p[i]@.contains(x) && av.remove(c).contains(x)); } }
            }
        } else {
            assert(apart(q, u));
        }
    }
}
pub proof fn lem_ss_listed(f: Fbas, u: Seq<usize>, sel: Set<usize>, av: Set<usize>, p: Seq<BitSet>, ch: bool, s: Set<usize>, q: Set<usize>)
    requires ss_state(f, u, sel, av, p, ch), min_split(f, s), sel.subset_of(s), s.subset_of(av), min_qf(f, q), s.subset_of(q)
    ensures has(p, q.difference(sel))
{
    assert(sel.subset_of(q));
    if !(has(p, q.difference(sel))) {
        assert(!ch && apart(q, u));
        assert(s =~= sel) by { assert forall|x: usize| s.contains(x) implies sel.contains(x) by { if !sel.contains(x) { assert(av.contains(x)); assert(u.contains(x)); assert(q.contains(x)); } } }
    }
}
/// the two quorums behind a shared set in the searched range are both still listed
pub proof fn lem_ss_pair(f: Fbas, u: Seq<usize>, sel: Set<usize>, av: Set<usize>, p: Seq<BitSet>, ch: bool, s: Set<usize>) -> (r: (int, int))
    requires ss_state(f, u, sel, av, p, ch), min_split(f, s), sel.subset_of(s), s.subset_of(av)
    ensures 0 <= r.0 < p.len(), 0 <= r.1 < p.len(), r.0 != r.1, split2(f, p[r.0]@.union(sel), p[r.1]@.union(sel), s)
{
    let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] split2(f, a, b, s);
    assert forall|x: usize| s.contains(x) implies a.contains(x) && b.contains(x) by { assert(a.intersect(b).contains(x)); }
    lem_ss_listed(f, u, sel, av, p, ch, s, a);
    lem_ss_listed(f, u, sel, av, p, ch, s, b);
    let i = choose|i: int| 0 <= i < p.len() && p[i]@ == a.difference(sel);
    let j = choose|j: int| 0 <= j < p.len() && p[j]@ == b.difference(sel);
    assert(p[i]@.union(sel) =~= a); assert(p[j]@.union(sel) =~= b);
    (i, j)
}
pub broadcast proof fn lem_ss_few(f: Fbas, u: Seq<usize>, sel: Set<usize>, av: Set<usize>, p: Seq<BitSet>, ch: bool, o: Seq<BitSet>)
    requires #[trigger] ss_state(f, u, sel, av, p, ch), p.len() < 2
    ensures #[trigger] ss_done(f, sel, av, o, o)
{
    assert forall|s: Set<usize>| #[trigger] min_split(f, s) && sel.subset_of(s) && s.subset_of(av) implies has(o, s) by { let r = lem_ss_pair(f, u, sel, av, p, ch, s); }
}
pub open spec fn is_qint(f: Fbas, sel: Set<usize>, p: Seq<BitSet>) -> bool { sel != Set::<usize>::empty() && pot(f, sel, sel) && !pairwise_intersect(p) }
pub broadcast proof fn lem_ss_found(f: Fbas, u: Seq<usize>, sel: Set<usize>, av: Set<usize>, p: Seq<BitSet>, ch: bool, o: Seq<BitSet>, x: BitSet)
    requires #[trigger] ss_state(f, u, sel, av, p, ch), is_qint(f, sel, p), x@ == sel
    ensures #[trigger] ss_done(f, sel, av, o, o.push(x))
{
    let r = o.push(x);
    let (i, j) = choose|i: int, j: int| 0 <= i < j < p.len() && (#[trigger] p[i])@.disjoint((#[trigger] p[j])@);
    let (a, b) = (p[i]@.union(sel), p[j]@.union(sel));
    assert(p[i]@ != p[j]@);
    if a == b { assert(p[i]@ =~= a.difference(sel)); assert(p[j]@ =~= b.difference(sel)); }
    assert(a.intersect(b) =~= sel);
    assert(split2(f, a, b, sel));
    assert(splitx(f, sel));
    assert(r[o.len() as int]@ == sel);
    assert(has(r, sel));
    assert forall|s: Set<usize>| #[trigger] has(o, s) implies has(r, s) by { let k = choose|k: int| 0 <= k < o.len() && o[k]@ == s; assert(r[k]@ == s); }
    assert forall|s: Set<usize>| #[trigger] has(r, s) implies has(o, s) || splitx(f, s) by { let k = choose|k: int| 0 <= k < r.len() && r[k]@ == s; if k < o.len() { assert(o[k]@ == s); } }
    assert forall|s: Set<usize>| #[trigger] min_split(f, s) && sel.subset_of(s) && s.subset_of(av) implies has(r, s) by { assert(splitx(f, sel)); }
}
/// a minimal shared set passes the test (as long as nothing has been dropped for it)
pub broadcast proof fn lem_ss_missed(f: Fbas, u: Seq<usize>, sel: Set<usize>, av: Set<usize>, p: Seq<BitSet>, ch: bool)
    requires #[trigger] ss_state(f, u, sel, av, p, ch), !ch || !is_qint(f, sel, p)
    ensures !min_split(f, sel)
{
    if min_split(f, sel) {
        let r = lem_ss_pair(f, u, sel, av, p, ch, sel);
        let (a, b) = (p[r.0]@.union(sel), p[r.1]@.union(sel));
        assert(!a.disjoint(b));
        if sel == Set::<usize>::empty() { assert forall|x: usize| !(a.contains(x) && b.contains(x)) by { if a.contains(x) && b.contains(x) { assert(a.intersect(b).contains(x)); } } assert(a.disjoint(b)); }
        assert forall|x: usize| #[trigger] sel.contains(x) implies si(qs_of(f, x), sel) by {
            assert(a.contains(x) && b.contains(x));
            assert(fsat(f, x, a) && fsat(f, x, b));
            lem_si(qs_of(f, x), a, b, sel);
        }
        assert(p[r.0]@.disjoint(p[r.1]@)) by {
            assert forall|x: usize| !(p[r.0]@.contains(x) && p[r.1]@.contains(x)) by { if p[r.0]@.contains(x) && p[r.1]@.contains(x) { assert(a.intersect(b).contains(x)); assert(sel.contains(x)); } }
        }
        if r.0 < r.1 { assert(!pairwise_intersect(p)); } else { assert(p[r.1]@.disjoint(p[r.0]@)); assert(!pairwise_intersect(p)); }
    }
}
pub broadcast proof fn lem_ss_end(f: Fbas, u: Seq<usize>, sel: Set<usize>, av: Set<usize>, p: Seq<BitSet>, ch: bool, o: Seq<BitSet>)
    requires #[trigger] ss_state(f, u, sel, av, p, ch), u.len() == 0, !ch || !is_qint(f, sel, p)
    ensures #[trigger] ss_done(f, sel, av, o, o)
{
    lem_ss_missed(f, u, sel, av, p, ch);
    assert forall|s: Set<usize>| #[trigger] min_split(f, s) && sel.subset_of(s) && s.subset_of(av) implies has(o, s) by {
        assert forall|x: usize| s.contains(x) implies sel.contains(x) by { assert(av.contains(x)); assert(!u.contains(x)); }
        assert(s =~= sel);
    }
}
pub broadcast proof fn lem_ss_both(f: Fbas, sel: Set<usize>, av: Set<usize>, c: usize, o: Seq<BitSet>, a: Seq<BitSet>, r: Seq<BitSet>)
    requires #[trigger] ss_done(f, sel.insert(c), av, o, a), #[trigger] ss_done(f, sel, av.remove(c), a, r)
    ensures ss_done(f, sel, av, o, r)
{
    assert forall|s: Set<usize>| #[trigger] min_split(f, s) && sel.subset_of(s) && s.subset_of(av) implies has(r, s) by {
        if s.contains(c) { assert(sel.insert(c).subset_of(s)); assert(has(a, s)); } else { assert(s.subset_of(av.remove(c))); }
    }
}
pub broadcast proof fn lem_ss_prune(f: Fbas, sel: Set<usize>, av: Set<usize>, c: usize, o: Seq<BitSet>, a: Seq<BitSet>)
    requires #[trigger] ss_done(f, sel.insert(c), av, o, a), !#[trigger] pot(f, sel, av.remove(c))
    ensures ss_done(f, sel, av, o, a)
{
    assert forall|s: Set<usize>| #[trigger] min_split(f, s) && sel.subset_of(s) && s.subset_of(av) implies has(a, s) by {
        if s.contains(c) { assert(sel.insert(c).subset_of(s)); } else {
            let (x, y) = choose|x: Set<usize>, y: Set<usize>| #[trigger] split2(f, x, y, s);
            assert forall|n: usize| #[trigger] sel.contains(n) implies si(qs_of(f, n), av.remove(c)) by {
                assert(s.contains(n)); assert(x.intersect(y).contains(n));
                assert(fsat(f, n, x) && fsat(f, n, y));
                assert(x.intersect(y).subset_of(av.remove(c)));
                lem_si(qs_of(f, n), x, y, av.remove(c));
            }
        }
    }
}
pub broadcast group ss_lemmas { lem_ss_pick, lem_ss_with, lem_ss_without, lem_ss_few, lem_ss_found, lem_ss_missed, lem_ss_end, lem_ss_both, lem_ss_prune }
// ---- putting the clusters together
pub open spec fn split_list(f: Fbas, r: Seq<BitSet>) -> bool { antichain(r) && forall|s: Set<usize>| #[trigger] has(r, s) <==> min_split(f, s) }
pub open spec fn mq_list(f: Fbas, r: Seq<BitSet>) -> bool { antichain(r) && forall|s: Set<usize>| #[trigger] has(r, s) <==> min_qf(f, s) }
/// after `n` of the clusters `cc`
pub open spec fn split_upto(f: Fbas, cc: Seq<BitSet>, n: int, r: Seq<BitSet>) -> bool { if n <= 0 { r.len() == 0 } else { n == 1 && split_list(f, r) } }
/// quorums that all intersect are all in one cluster
pub proof fn lem_one_cluster(f: Fbas, cc: Seq<BitSet>)
    requires clusters_ok(f, cc), wf(f), qi(f)
    ensures cc.len() <= 1
{
    if cc.len() >= 2 {
        lem_clusters_inr(f, cc);
        let (c, d) = (cc[0]@, cc[1]@);
        assert(has_q(f, c) && has_q(f, d));
        let x = choose|x: Set<usize>| #[trigger] x.subset_of(c) && is_q(f, x);
        let y = choose|y: Set<usize>| #[trigger] y.subset_of(d) && is_q(f, y);
        let (a, b) = (lem_has_min_q(f, x), lem_has_min_q(f, y));
        assert(c.disjoint(d));
        assert(min_qf(f, a) && min_qf(f, b));
        assert(a.disjoint(b));
    }
}
pub proof fn lem_no_cluster(f: Fbas, cc: Seq<BitSet>, r: Seq<BitSet>)
    requires clusters_ok(f, cc), wf(f), cc.len() == 0, r.len() == 0
    ensures split_list(f, r)
{
    assert forall|s: Set<usize>| !#[trigger] min_qf(f, s) by { lem_mq_all(f, cc, s); }
    assert forall|s: Set<usize>| !#[trigger] min_split(f, s) by {}
}
pub broadcast proof fn lem_ss_start(f: Fbas, c: Set<usize>, u: Seq<usize>, p: Seq<BitSet>)
    requires #[trigger] search_state(f, u, Set::<usize>::empty(), c), qi(f), #[trigger] mq_list(f, p)
    ensures ss_state(f, u, Set::<usize>::empty(), c, p, true)
{
    let e = Set::<usize>::empty();
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i]@ != #[trigger] p[j]@ by { assert(!p[i]@.subset_of(p[j]@)); }
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i])@.disjoint(e) && min_qf(f, p[i]@.union(e)) by { assert(has(p, p[i]@)); assert(p[i]@.union(e) =~= p[i]@); }
    assert forall|q: Set<usize>| #[trigger] min_qf(f, q) && e.subset_of(q) implies has(p, q.difference(e)) by { assert(q.difference(e) =~= q); }
}
pub proof fn lem_in_cluster(f: Fbas, cc: Seq<BitSet>, s: Set<usize>)
    requires clusters_ok(f, cc), wf(f), cc.len() == 1, min_qf(f, s)
    ensures s.subset_of(cc[0]@)
{
    lem_mq_all(f, cc, s);
    let i = choose|i: int| 0 <= i < cc.len() && s.subset_of((#[trigger] cc[i])@);
}
/// keeping the minimal ones of the sets found by the search
pub proof fn lem_ss_reduce(f: Fbas, cc: Seq<BitSet>, e: Set<usize>, g: Seq<BitSet>, r: Seq<BitSet>)
    requires clusters_ok(f, cc), wf(f), cc.len() == 1, e == Set::<usize>::empty(), ss_done(f, e, cc[0]@, Seq::empty(), g), antichain(r), forall|s: Set<usize>| #[trigger] has(r, s) <==> min_of(g, s)
    ensures split_list(f, r)
{
    assert forall|s: Set<usize>| #[trigger] has(g, s) implies splitx(f, s) by { assert(!(has(Seq::<BitSet>::empty(), s))); }
    assert forall|s: Set<usize>| #[trigger] min_split(f, s) implies has(g, s) by {
        let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] split2(f, a, b, s);
        lem_in_cluster(f, cc, a);
        assert(s.subset_of(cc[0]@));
        assert(e.subset_of(s));
    }
    assert forall|s: Set<usize>| #[trigger] has(r, s) <==> min_split(f, s) by {
        if min_of(g, s) {
            let t = lem_has_min_split(f, s);
            assert(has(g, t));
        }
        if min_split(f, s) {
            assert forall|t: Set<usize>| #[trigger] has(g, t) && t.subset_of(s) implies t == s by { assert(splitx(f, t)); }
        }
    }
}
pub proof fn lem_has_min_split(f: Fbas, s: Set<usize>) -> (m: Set<usize>)
    requires splitx(f, s)
    ensures m.subset_of(s), min_split(f, m)
    decreases s.len()
{
    if min_split(f, s) { s } else {
        let t = choose|t: Set<usize>| #[trigger] splitx(f, t) && t.subset_of(s) && t != s;
        lem_subset_smaller(t, s);
        lem_has_min_split(f, t)
    }
}
/// in a symmetric cluster: the minimal quorums are the minimal slices
pub proof fn lem_sym_min(f: Fbas, cc: Seq<BitSet>, q: QuorumSet, s: Set<usize>)
    requires clusters_ok(f, cc), wf(f), cc.len() == 1, sym(f, cc[0]@, q), qn(q) == cc[0]@
    ensures min_qf(f, s) <==> min_sat(q, s)
{
    let c = cc[0]@;
    lem_clusters_inr(f, cc);
    assert forall|t: Set<usize>| #[trigger] t.subset_of(c) implies (is_q(f, t) <==> sat(q, t)) by {
        if sat(q, t) { lem_sat_nonempty(q, t); }
        assert forall|x: usize| #[trigger] t.contains(x) implies fsat(f, x, t) == sat(q, t) by { assert(qn(q).contains(x)); assert(qs_of(f, x) == q); }
        if is_q(f, t) { let x = lem_nonempty(t); assert(fsat(f, x, t)); }
    }
    if min_sat(q, s) {
        let t = s.intersect(qn(q));
        lem_local(q, s, t);
        assert(t.subset_of(s) && sat(q, t));
        assert(s.subset_of(c));
        assert forall|u: Set<usize>| #[trigger] u.subset_of(s) && is_q(f, u) implies u == s by { assert(u.subset_of(c)); assert(sat(q, u)); }
        assert(min_q(f, s));
        assert forall|x: usize| #[trigger] s.contains(x) implies x < f.nodes@.len() by { assert(c.contains(x)); }
    }
    if min_qf(f, s) {
        lem_in_cluster(f, cc, s);
        assert forall|u: Set<usize>| #[trigger] u.subset_of(s) && sat(q, u) implies u == s by { assert(u.subset_of(c)); assert(is_q(f, u)); }
    }
}
pub proof fn lem_sym_split(f: Fbas, cc: Seq<BitSet>, q: QuorumSet)
    requires clusters_ok(f, cc), wf(f), cc.len() == 1, sym(f, cc[0]@, q), qn(q) == cc[0]@, qi(f)
    ensures can(q), !splitsat(q), forall|s: Set<usize>| #[trigger] min_two(q, s) <==> min_split(f, s)
{
    assert(has_q(f, cc[0]@));
    lem_clusters_inr(f, cc);
    let w = choose|w: Set<usize>| #[trigger] w.subset_of(cc[0]@) && is_q(f, w);
    let x = lem_nonempty(w);
    assert(qs_of(f, x) == q); assert(fsat(f, x, w));
    if splitsat(q) {
        let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] sx2(q, a, b, Set::empty());
        let (m, n) = (lem_has_min_sat(q, a), lem_has_min_sat(q, b));
        lem_sym_min(f, cc, q, m); lem_sym_min(f, cc, q, n);
        assert(!m.disjoint(n));
        assert forall|y: usize| !(m.contains(y) && n.contains(y)) by { if m.contains(y) && n.contains(y) { assert(a.intersect(b).contains(y)); } }
        assert(m.disjoint(n));
    }
    assert forall|s: Set<usize>| #[trigger] two_min(q, s) <==> splitx(f, s) by {
        if two_min(q, s) {
            let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] min_sat(q, a) && #[trigger] min_sat(q, b) && a != b && s == a.intersect(b);
            lem_sym_min(f, cc, q, a); lem_sym_min(f, cc, q, b);
            assert(split2(f, a, b, s));
        }
        if splitx(f, s) {
            let (a, b) = choose|a: Set<usize>, b: Set<usize>| #[trigger] split2(f, a, b, s);
            lem_sym_min(f, cc, q, a); lem_sym_min(f, cc, q, b);
        }
    }
    assert forall|s: Set<usize>| #[trigger] min_two(q, s) <==> min_split(f, s) by {
        if min_two(q, s) { assert forall|t: Set<usize>| #[trigger] splitx(f, t) && t.subset_of(s) implies t == s by { assert(two_min(q, t)); } }
        if min_split(f, s) { assert forall|t: Set<usize>| #[trigger] two_min(q, t) && t.subset_of(s) implies t == s by { assert(splitx(f, t)); } }
    }
}
pub broadcast proof fn lem_split_same(f: Fbas, s: Seq<BitSet>, r: Seq<BitSet>)
    requires #[trigger] split_list(f, s), #[trigger] rearranged(s, r), antichain(r), forall|x: Set<usize>| #[trigger] has(r, x) <==> has(s, x)
    ensures split_list(f, r)
{}
pub broadcast proof fn lem_sym_split_pre(f: Fbas, cc: Seq<BitSet>, c: Set<usize>, q: QuorumSet)
    requires #[trigger] clusters_ok(f, cc), wf(f), cc.len() == 1, #[trigger] sym(f, c, q), c == cc[0]@, qn(q) == c, qi(f)
    ensures can(q), !splitsat(q)
{ lem_sym_split(f, cc, q); }
pub broadcast proof fn lem_sym_split_post(f: Fbas, cc: Seq<BitSet>, c: Set<usize>, q: QuorumSet, r: Seq<BitSet>)
    requires #[trigger] clusters_ok(f, cc), wf(f), cc.len() == 1, #[trigger] sym(f, c, q), c == cc[0]@, qn(q) == c, qi(f), #[trigger] min_twos(q, r)
    ensures split_list(f, r)
{ lem_sym_split(f, cc, q); }
pub broadcast proof fn lem_ss_reduced(f: Fbas, cc: Seq<BitSet>, c: Set<usize>, g: Seq<BitSet>, r: Seq<BitSet>)
    requires #[trigger] clusters_ok(f, cc), wf(f), cc.len() == 1, c == cc[0]@, #[trigger] ss_done(f, Set::empty(), c, Seq::empty(), g), #[trigger] antichain(r), forall|s: Set<usize>| #[trigger] has(r, s) <==> min_of(g, s)
    ensures split_list(f, r)
{ lem_ss_reduce(f, cc, Set::empty(), g, r); }
pub broadcast proof fn lem_after_none<T>(a: Seq<T>, b: Seq<T>)
    requires a.len() == 0
    ensures #[trigger] (a + b) == b
{ assert(a + b =~= b); }
pub broadcast group split_finder_lemmas { lem_sym_split_pre, lem_sym_split_post, lem_ss_reduced, lem_after_none, lem_ss_start, lem_start, lem_clusters_inr }
