// ------------------------------------------------------------------------------------
// renumbering by an ascending table keeps sizes, inclusion and the canonical order
// ------------------------------------------------------------------------------------
pub open spec fn inc(t: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] t[i] < #[trigger] t[j] }
pub open spec fn img(t: Seq<usize>, a: Seq<usize>) -> Seq<usize> { Seq::new(a.len(), |i: int| t[a[i] as int]) }
pub open spec fn all_below(t: Seq<usize>, a: Seq<usize>) -> bool { forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] < t.len() }
pub proof fn lem_inc_elems(s: Set<usize>)
    ensures inc(elems(s))
{ ax_elems_sorted(s); }
pub proof fn lem_inc_same(a: Seq<usize>, b: Seq<usize>)
    requires inc(a), inc(b), a.to_set() == b.to_set()
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.to_set().contains(b[0])); assert(a.contains(b[0])); }
        assert(a =~= b);
    } else {
        let x = a.last();
        assert(a.to_set().contains(a[a.len() - 1])); assert(b.contains(x));
        let y = b.last();
        assert(b.to_set().contains(b[b.len() - 1])); assert(a.contains(y));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == y;
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        assert(x == y) by { if i < a.len() - 1 && j < b.len() - 1 { assert(a[i] < a[a.len() - 1]); assert(b[j] < b[b.len() - 1]); } }
        let (c, d) = (a.drop_last(), b.drop_last());
        assert forall|z: usize| c.to_set().contains(z) <==> d.to_set().contains(z) by {
            if c.contains(z) { let k = choose|k: int| 0 <= k < c.len() && c[k] == z; assert(a[k] < a[a.len() - 1]); assert(a.to_set().contains(a[k])); assert(b.contains(z)); let l = choose|l: int| 0 <= l < b.len() && b[l] == z; assert(d[l] == z); }
            if d.contains(z) { let k = choose|k: int| 0 <= k < d.len() && d[k] == z; assert(b[k] < b[b.len() - 1]); assert(b.to_set().contains(b[k])); assert(a.contains(z)); let l = choose|l: int| 0 <= l < a.len() && a[l] == z; assert(c[l] == z); }
        }
        assert(c.to_set() =~= d.to_set());
        lem_inc_same(c, d);
        assert(a =~= c.push(x)); assert(b =~= d.push(x));
    }
}
/// the ascending list of the renumbered set is the renumbered ascending list
pub proof fn lem_renum_elems(t: Seq<usize>, s: Set<usize>)
    requires inc(t), within(t, s)
    ensures elems(to_old(t, s)) == img(t, elems(s)), to_old(t, s).len() == s.len(), all_below(t, elems(s))
{
    let (o, e) = (to_old(t, s), img(t, elems(s)));
    lem_inc_elems(s); lem_inc_elems(o);
    assert forall|i: int, j: int| 0 <= i < j < e.len() implies #[trigger] e[i] < #[trigger] e[j] by { assert(s.contains(elems(s)[i])); assert(s.contains(elems(s)[j])); assert(elems(s)[i] < elems(s)[j]); }
    assert forall|y: usize| e.to_set().contains(y) <==> o.contains(y) by {
        lem_to_old(t, s, y);
        if e.contains(y) { let i = choose|i: int| 0 <= i < e.len() && e[i] == y; assert(s.contains(elems(s)[i])); }
        if o.contains(y) { let x = choose|x: usize| #[trigger] s.contains(x) && t[x as int] == y; assert(elems(s)[epos(s, x)] == x); assert(e[epos(s, x)] == y); }
    }
    assert(e.to_set() =~= o);
    lem_inc_same(elems(o), e);
    assert(elems(o).len() == o.len());
}
pub proof fn lem_renum_lex(t: Seq<usize>, a: Seq<usize>, b: Seq<usize>)
    requires inc(t), all_below(t, a), all_below(t, b)
    ensures lex_lt(img(t, a), img(t, b)) == lex_lt(a, b)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        assert(img(t, a)[0] == t[a[0] as int] && img(t, b)[0] == t[b[0] as int]);
        assert(t[a[0] as int] < t[b[0] as int] <==> a[0] < b[0]) by { if a[0] > b[0] { assert(t[b[0] as int] < t[a[0] as int]); } }
        assert(t[a[0] as int] == t[b[0] as int] <==> a[0] == b[0]) by { if a[0] > b[0] { assert(t[b[0] as int] < t[a[0] as int]); } }
        let (c, d) = (a.skip(1), b.skip(1));
        assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] < t.len() by { assert(c[i] == a[i + 1]); }
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] < t.len() by { assert(d[i] == b[i + 1]); }
        lem_renum_lex(t, c, d);
        assert(img(t, a).skip(1) =~= img(t, c));
        assert(img(t, b).skip(1) =~= img(t, d));
    }
}
pub proof fn lem_renum_sub(t: Seq<usize>, a: Set<usize>, b: Set<usize>)
    requires inc(t), within(t, a), within(t, b)
    ensures to_old(t, a).subset_of(to_old(t, b)) <==> a.subset_of(b), to_old(t, a) == to_old(t, b) <==> a == b
{
    lem_renum_sub1(t, a, b); lem_renum_sub1(t, b, a);
    if to_old(t, a) == to_old(t, b) { assert(a =~= b); }
}
pub proof fn lem_renum_sub1(t: Seq<usize>, a: Set<usize>, b: Set<usize>)
    requires inc(t), within(t, a), within(t, b)
    ensures to_old(t, a).subset_of(to_old(t, b)) <==> a.subset_of(b)
{
    if to_old(t, a).subset_of(to_old(t, b)) {
        assert forall|x: usize| a.contains(x) implies b.contains(x) by { lem_renum_mem(t, a, x); lem_renum_mem(t, b, x); assert(to_old(t, a).contains(t[x as int])); }
    }
    if a.subset_of(b) {
        assert forall|y: usize| to_old(t, a).contains(y) implies to_old(t, b).contains(y) by { lem_to_old(t, a, y); lem_to_old(t, b, y); let x = choose|x: usize| #[trigger] a.contains(x) && t[x as int] == y; assert(b.contains(x)); }
    }
}
pub proof fn lem_renum_mem(t: Seq<usize>, a: Set<usize>, x: usize)
    requires inc(t), within(t, a), x < t.len()
    ensures to_old(t, a).contains(t[x as int]) <==> a.contains(x)
{
    lem_to_old(t, a, t[x as int]);
    if to_old(t, a).contains(t[x as int]) {
        let z = choose|z: usize| #[trigger] a.contains(z) && t[z as int] == t[x as int];
        if z < x { assert(t[z as int] < t[x as int]); }
        if x < z { assert(t[x as int] < t[z as int]); }
    }
}
/// lists of sets as such
pub open spec fn canon_s(v: Seq<Set<usize>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).len() < (#[trigger] v[j]).len() || (v[i].len() == v[j].len() && lex_lt(elems(v[i]), elems(v[j])))
}
pub open spec fn has_s(v: Seq<Set<usize>>, s: Set<usize>) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == s }
pub open spec fn min_of_s(v: Seq<Set<usize>>, s: Set<usize>) -> bool { has_s(v, s) && forall|t: Set<usize>| #[trigger] has_s(v, t) && t.subset_of(s) ==> t == s }
pub open spec fn antichain_s(v: Seq<Set<usize>>) -> bool { forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j ==> !(#[trigger] v[i]).subset_of(#[trigger] v[j]) }
pub open spec fn sets_of(v: Seq<BitSet>) -> Seq<Set<usize>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn olds(t: Seq<usize>, v: Seq<BitSet>) -> Seq<Set<usize>> { Seq::new(v.len(), |i: int| to_old(t, v[i]@)) }
pub open spec fn all_within(t: Seq<usize>, v: Seq<BitSet>) -> bool { forall|i: int| 0 <= i < v.len() ==> within(t, (#[trigger] v[i])@) }
pub proof fn lem_renum_canon(t: Seq<usize>, v: Seq<BitSet>)
    requires inc(t), all_within(t, v)
    ensures canonical(v) <==> canon_s(olds(t, v)), antichain(v) <==> antichain_s(olds(t, v))
{
    let o = olds(t, v);
    assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() implies
        ((#[trigger] v[i])@.len() == o[i].len() && (#[trigger] v[j])@.len() == o[j].len() && bs_lt(v[i], v[j]) == lex_lt(elems(o[i]), elems(o[j])) && o[i].subset_of(o[j]) == v[i]@.subset_of(v[j]@)) by {
        lem_renum_elems(t, v[i]@); lem_renum_elems(t, v[j]@);
        lem_renum_lex(t, elems(v[i]@), elems(v[j]@));
        lem_renum_sub(t, v[i]@, v[j]@);
    }
    if canonical(v) { assert forall|i: int, j: int| 0 <= i < j < o.len() implies (#[trigger] o[i]).len() < (#[trigger] o[j]).len() || (o[i].len() == o[j].len() && lex_lt(elems(o[i]), elems(o[j]))) by { assert(v[i]@.len() == o[i].len() && v[j]@.len() == o[j].len()); } }
    if canon_s(o) { assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i])@.len() < (#[trigger] v[j])@.len() || (v[i]@.len() == v[j]@.len() && bs_lt(v[i], v[j])) by { assert(v[i]@.len() == o[i].len() && v[j]@.len() == o[j].len()); } }
    if antichain(v) { assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && i != j implies !(#[trigger] o[i]).subset_of(#[trigger] o[j]) by { assert(!v[i]@.subset_of(v[j]@)); } }
    if antichain_s(o) { assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies !(#[trigger] v[i])@.subset_of((#[trigger] v[j])@) by { assert(!o[i].subset_of(o[j])); } }
}
pub proof fn lem_sets_canon(v: Seq<BitSet>)
    ensures canonical(v) <==> canon_s(sets_of(v)), antichain(v) <==> antichain_s(sets_of(v)), forall|s: Set<usize>| #[trigger] has_s(sets_of(v), s) <==> has(v, s)
{
    let o = sets_of(v);
    if canonical(v) { assert forall|i: int, j: int| 0 <= i < j < o.len() implies (#[trigger] o[i]).len() < (#[trigger] o[j]).len() || (o[i].len() == o[j].len() && lex_lt(elems(o[i]), elems(o[j]))) by { assert(v[i]@ == o[i] && v[j]@ == o[j]); } }
    if canon_s(o) { assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i])@.len() < (#[trigger] v[j])@.len() || (v[i]@.len() == v[j]@.len() && bs_lt(v[i], v[j])) by { assert(v[i]@ == o[i] && v[j]@ == o[j]); } }
    if antichain(v) { assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && i != j implies !(#[trigger] o[i]).subset_of(#[trigger] o[j]) by { assert(!v[i]@.subset_of(v[j]@)); } }
    if antichain_s(o) { assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies !(#[trigger] v[i])@.subset_of((#[trigger] v[j])@) by { assert(!o[i].subset_of(o[j])); } }
    assert forall|s: Set<usize>| #[trigger] has_s(o, s) <==> has(v, s) by {
        if has_s(o, s) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == s; assert(v[i]@ == s); }
        if has(v, s) { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i]@ == s; assert(o[i] == s); }
    }
}
