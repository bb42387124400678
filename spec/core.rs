// ------------------------------------------------------------------------------------
// Mathematical definitions: quorum slices, quorums, satisfiability (from the paper / README)
// ------------------------------------------------------------------------------------
/// how many entries of `v` are in `s` (with multiplicity)
pub open spec fn nval(v: Seq<usize>, s: Set<usize>) -> nat
    decreases v.len(),
{
    if v.len() == 0 { 0 } else { nval(v.drop_last(), s) + (if s.contains(v.last()) { 1nat } else { 0nat }) }
}
/// `s` satisfies `q`: at least `threshold` (> 0) members are in `s` / satisfied by `s`
pub open spec fn sat(q: QuorumSet, s: Set<usize>) -> bool
    decreases q,
{
    q.threshold > 0 && nval(q.validators@, s) + ninner(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int, s) >= q.threshold
}
pub open spec fn ninner(v: Vec<QuorumSet>, n: int, s: Set<usize>) -> nat
    decreases v, n when 0 <= n <= v@.len()
{
    if n <= 0 { 0 } else { ninner(v, n - 1, s) + (if sat(v@[n - 1], s) { 1nat } else { 0nat }) }
}
pub open spec fn fsat(f: Fbas, x: usize, s: Set<usize>) -> bool { sat(f.nodes@[x as int].quorum_set, s) }
/// every id of `s` is a node of `f`
pub open spec fn inr(f: Fbas, s: Set<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) ==> x < f.nodes@.len() }
/// every member of `s` has a slice inside `s`
pub open spec fn closed(f: Fbas, s: Set<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) ==> fsat(f, x, s) }
pub open spec fn is_q(f: Fbas, s: Set<usize>) -> bool { s != Set::<usize>::empty() && closed(f, s) }
pub open spec fn has_q(f: Fbas, s: Set<usize>) -> bool { exists|q: Set<usize>| #[trigger] q.subset_of(s) && is_q(f, q) }
/// the greatest closed subset of `s` (= union of all quorums inside `s`), characterised
pub open spec fn is_greatest(f: Fbas, s: Set<usize>, g: Set<usize>) -> bool {
    g.subset_of(s) && closed(f, g) && forall|q: Set<usize>| #[trigger] q.subset_of(s) && closed(f, q) ==> q.subset_of(g)
}
pub open spec fn all_ids(f: Fbas) -> Set<usize> { range_seq(0, f.nodes@.len() as usize).to_set() }

pub broadcast proof fn lem_sat(q: QuorumSet, s: Set<usize>)
    ensures #[trigger] sat(q, s) <==>
        q.threshold > 0 && nval(q.validators@, s) + ninner(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int, s) >= q.threshold
{
}
pub broadcast proof fn lem_nval(v: Seq<&usize>, p: spec_fn(&usize) -> bool, w: Seq<usize>, s: Set<usize>)
    requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> *#[trigger] v[i] == w[i] && p(v[i]) == s.contains(w[i])
    ensures #[trigger] v.filter(p).len() == #[trigger] nval(w, s)
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 { lem_nval(v.drop_last(), p, w.drop_last(), s); }
}
pub broadcast proof fn lem_ninner(v: Seq<&QuorumSet>, p: spec_fn(&QuorumSet) -> bool, w: Vec<QuorumSet>, n: int, s: Set<usize>)
    requires v.len() == n, 0 <= n <= w@.len(), forall|i: int| 0 <= i < n ==> *#[trigger] v[i] == w@[i] && p(v[i]) == sat(w@[i], s)
    ensures #[trigger] v.filter(p).len() == #[trigger] ninner(w, n, s)
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 { lem_ninner(v.drop_last(), p, w, n - 1, s); }
}
pub broadcast group quorum_lemmas { lem_sat, lem_nval, lem_ninner }

// monotonicity: a superset satisfies whatever a set satisfies
pub proof fn lem_mono(q: QuorumSet, s: Set<usize>, t: Set<usize>)
    requires s.subset_of(t), sat(q, s)
    ensures sat(q, t)
    decreases q
{
    lem_mono_v(q.validators@, s, t);
    lem_mono_i(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int, s, t);
}
pub proof fn lem_mono_v(v: Seq<usize>, s: Set<usize>, t: Set<usize>)
    requires s.subset_of(t)
    ensures nval(v, s) <= nval(v, t)
    decreases v.len()
{
    if v.len() > 0 { lem_mono_v(v.drop_last(), s, t); }
}
pub proof fn lem_mono_i(v: Vec<QuorumSet>, n: int, s: Set<usize>, t: Set<usize>)
    requires s.subset_of(t), 0 <= n <= v@.len()
    ensures ninner(v, n, s) <= ninner(v, n, t)
    decreases v, n
{
    if n > 0 {
        lem_mono_i(v, n - 1, s, t);
        if sat(v@[n - 1], s) { lem_mono(v@[n - 1], s, t); }
    }
}
pub broadcast proof fn b_mono(f: Fbas, x: usize, s: Set<usize>, t: Set<usize>)
    requires #[trigger] s.subset_of(t), #[trigger] fsat(f, x, s)
    ensures fsat(f, x, t)
{
    lem_mono(f.nodes@[x as int].quorum_set, s, t)
}
// ---- the nodes a quorum set mentions
/// all mentioned nodes in reading order, with repetitions
pub open spec fn flat(q: QuorumSet) -> Seq<usize>
    decreases q,
{
    q.validators@ + flat_i(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int)
}
pub open spec fn flat_i(v: Vec<QuorumSet>, n: int) -> Seq<usize>
    decreases v, n when 0 <= n <= v@.len()
{
    if n <= 0 { Seq::empty() } else { flat_i(v, n - 1) + flat(v@[n - 1]) }
}
/// `x` is mentioned at some depth
pub open spec fn mentions(q: QuorumSet, x: usize) -> bool { qn(q).contains(x) }
pub open spec fn qn(q: QuorumSet) -> Set<usize> { flat(q).to_set() }
pub broadcast proof fn lem_flat(q: QuorumSet)
    ensures #[trigger] flat(q) == q.validators@ + flat_i(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int)
{}
pub proof fn lem_mentions_i(v: Vec<QuorumSet>, n: int, x: usize)
    requires 0 <= n <= v@.len()
    ensures flat_i(v, n).contains(x) <==> exists|i: int| 0 <= i < n && mentions(#[trigger] v@[i], x)
    decreases v, n
{
    if n > 0 {
        lem_mentions_i(v, n - 1, x);
        let (a, b) = (flat_i(v, n - 1), flat(v@[n - 1]));
        lem_concat_contains(a, b, x);
        assert(mentions(v@[n - 1], x) <==> b.contains(x));
    }
}
pub proof fn lem_concat_contains(a: Seq<usize>, b: Seq<usize>, x: usize)
    ensures (a + b).contains(x) <==> a.contains(x) || b.contains(x)
{
    let c = a + b;
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(c[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(c[a.len() + i] == x); }
    if c.contains(x) {
        let i = choose|i: int| 0 <= i < c.len() && c[i] == x;
        if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); }
    }
}
pub proof fn lem_mentions(q: QuorumSet, x: usize)
    ensures mentions(q, x) <==> q.validators@.contains(x) || exists|i: int| 0 <= i < q.inner_quorum_sets@.len() && mentions(#[trigger] q.inner_quorum_sets@[i], x)
{
    lem_mentions_i(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int, x);
    lem_concat_contains(q.validators@, flat_i(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int), x);
}
pub open spec fn agree(w: Set<usize>, s: Set<usize>, t: Set<usize>) -> bool { forall|x: usize| #[trigger] w.contains(x) ==> s.contains(x) == t.contains(x) }
/// only mentioned nodes matter
pub proof fn lem_local(q: QuorumSet, s: Set<usize>, t: Set<usize>)
    requires agree(qn(q), s, t)
    ensures sat(q, s) == sat(q, t)
    decreases q
{
    assert forall|i: int| 0 <= i < q.validators@.len() implies s.contains(#[trigger] q.validators@[i]) == t.contains(q.validators@[i]) by {
        lem_mentions(q, q.validators@[i]);
        assert(qn(q).contains(q.validators@[i]));
    }
    lem_local_v(q.validators@, s, t);
    assert forall|i: int| 0 <= i < q.inner_quorum_sets@.len() implies agree(qn(#[trigger] q.inner_quorum_sets@[i]), s, t) by {
        assert forall|x: usize| #[trigger] qn(q.inner_quorum_sets@[i]).contains(x) implies s.contains(x) == t.contains(x) by {
            lem_mentions(q, x);
            assert(mentions(q.inner_quorum_sets@[i], x));
            assert(qn(q).contains(x));
        }
    }
    lem_local_i(q.inner_quorum_sets, q.inner_quorum_sets@.len() as int, s, t);
}
pub proof fn lem_local_v(v: Seq<usize>, s: Set<usize>, t: Set<usize>)
    requires forall|i: int| 0 <= i < v.len() ==> s.contains(#[trigger] v[i]) == t.contains(v[i])
    ensures nval(v, s) == nval(v, t)
    decreases v.len()
{
    if v.len() > 0 {
        assert(v.last() == v[v.len() - 1]);
        assert forall|i: int| 0 <= i < v.drop_last().len() implies s.contains(#[trigger] v.drop_last()[i]) == t.contains(v.drop_last()[i]) by { assert(v[i] == v.drop_last()[i]); }
        lem_local_v(v.drop_last(), s, t);
    }
}
pub proof fn lem_local_i(v: Vec<QuorumSet>, n: int, s: Set<usize>, t: Set<usize>)
    requires 0 <= n <= v@.len(), forall|i: int| 0 <= i < n ==> agree(qn(#[trigger] v@[i]), s, t)
    ensures ninner(v, n, s) == ninner(v, n, t)
    decreases v, n
{
    if n > 0 { lem_local_i(v, n - 1, s, t); lem_local(v@[n - 1], s, t); }
}
/// a quorum set can be satisfied at all exactly when its own nodes satisfy it
pub broadcast proof fn lem_satisfiable(q: QuorumSet, s: Set<usize>)
    requires #[trigger] sat(q, s)
    ensures sat(q, qn(q))
{
    let t = s.intersect(qn(q));
    lem_local(q, s, t);
    lem_mono(q, t, qn(q));
}
pub broadcast proof fn lem_no_dup(s: Seq<usize>)
    ensures #![trigger s.to_set()] s.no_duplicates() <==> s.to_set().len() == s.len()
{
    if s.no_duplicates() { s.unique_seq_to_set(); }
    if s.to_set().len() == s.len() { s.lemma_no_dup_set_cardinality(); }
}
/// satisfied members among a list of quorum sets given as a sequence
pub open spec fn nsat(v: Seq<QuorumSet>, s: Set<usize>) -> nat
    decreases v.len(),
{ if v.len() == 0 { 0 } else { nsat(v.drop_last(), s) + (if sat(v.last(), s) { 1nat } else { 0nat }) } }
pub proof fn lem_ninner_nsat(v: Vec<QuorumSet>, n: int, s: Set<usize>)
    requires 0 <= n <= v@.len()
    ensures ninner(v, n, s) == nsat(v@.take(n), s)
    decreases n
{
    if n > 0 { lem_ninner_nsat(v, n - 1, s); assert(v@.take(n).drop_last() =~= v@.take(n - 1)); }
}
pub broadcast proof fn lem_filter_set<T>(v: Seq<T>, p: spec_fn(T) -> bool)
    ensures
        #![trigger v.filter(p)]
        forall|x: T| #[trigger] v.filter(p).contains(x) <==> (v.contains(x) && p(x))
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        lem_filter_set(v.drop_last(), p);
        let f = v.filter(p);
        let f0 = v.drop_last().filter(p);
        assert forall|x: T| #[trigger] f.contains(x) <==> (v.contains(x) && p(x)) by {
            if f.contains(x) {
                let i = choose|i: int| 0 <= i < f.len() && f[i] == x;
                if i < f0.len() { assert(f0[i] == x); assert(f0.contains(x)); let j = choose|j: int| 0 <= j < v.drop_last().len() && v.drop_last()[j] == x; assert(v[j] == x); }
                else { assert(v.last() == x); assert(v[v.len() - 1] == x); }
            }
            if v.contains(x) && p(x) {
                let i = choose|i: int| 0 <= i < v.len() && v[i] == x;
                if i < v.len() - 1 {
                    assert(v.drop_last()[i] == x); assert(v.drop_last().contains(x)); assert(f0.contains(x));
                    let j = choose|j: int| 0 <= j < f0.len() && f0[j] == x;
                    assert(f[j] == x);
                } else { assert(f.last() == x); assert(f[f.len() - 1] == x); }
            }
        }
    }
}
