// ---- vectors and node lists needed to talk about derived quorum sets
/// a shorter list than an existing one fits into memory
pub axiom fn ax_vec_of<T>(v: Vec<T>, s: Seq<T>)
    requires s.len() <= v@.len()
    ensures exists|w: Vec<T>| #[trigger] w@ == s;
pub open spec fn vec_of<T>(s: Seq<T>) -> Vec<T> { choose|w: Vec<T>| #[trigger] w@ == s }
pub open spec fn can(q: QuorumSet) -> bool { exists|s: Set<usize>| sat(q, s) }
pub proof fn lem_nval_max(v: Seq<usize>, s: Set<usize>)
    ensures nval(v, s) <= v.len()
    decreases v.len()
{ if v.len() > 0 { lem_nval_max(v.drop_last(), s); } }
pub open spec fn flat_s(v: Seq<QuorumSet>) -> Seq<usize>
    decreases v.len(),
{ if v.len() == 0 { Seq::empty() } else { flat_s(v.drop_last()) + flat(v.last()) } }
pub proof fn lem_flat_seq(v: Vec<QuorumSet>, n: int)
    requires 0 <= n <= v@.len()
    ensures flat_i(v, n) == flat_s(v@.take(n))
    decreases n
{ if n > 0 { lem_flat_seq(v, n - 1); assert(v@.take(n).drop_last() =~= v@.take(n - 1)); } }
pub proof fn lem_nodup_join(a: Seq<usize>, b: Seq<usize>)
    requires a.no_duplicates(), b.no_duplicates(), forall|x: usize| !(#[trigger] a.contains(x) && #[trigger] b.contains(x))
    ensures (a + b).no_duplicates()
{
    let c = a + b;
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies c[i] != c[j] by {
        if i < a.len() && j >= a.len() { assert(a.contains(a[i])); assert(b.contains(b[j - a.len()])); assert(!(a.contains(c[i]) && b.contains(c[i]))); }
    }
}
pub proof fn lem_subset_smaller(t: Set<usize>, s: Set<usize>)
    requires t.subset_of(s), t != s
    ensures t.len() < s.len()
{
    vstd::set_lib::lemma_len_subset(t, s);
    if t.len() == s.len() { vstd::set_lib::lemma_subset_equality(t, s); }
}
