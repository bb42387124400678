// ------------------------------------------------------------------------------------
// sorting, deduplication and minimal sets
// ------------------------------------------------------------------------------------
pub mod order {
use vstd::prelude::*;
use super::prelude::*;
use super::lists::*;
/// strict lexicographic order on ascending id lists (the order of bit_set::BitSet: Iterator::cmp)
pub open spec fn lex_lt(a: Seq<usize>, b: Seq<usize>) -> bool
    decreases a.len(),
{
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if a[0] != b[0] { a[0] < b[0] }
    else { lex_lt(a.skip(1), b.skip(1)) }
}
pub open spec fn bs_le(a: BitSet, b: BitSet) -> bool { !lex_lt(elems(b@), elems(a@)) }
pub open spec fn bs_lt(a: BitSet, b: BitSet) -> bool { lex_lt(elems(a@), elems(b@)) }

/// the total order that `Ord` implements on `Self`
pub trait VOrd: Sized {
    spec fn vle(&self, o: &Self) -> bool;
}
impl VOrd for usize { open spec fn vle(&self, o: &Self) -> bool { *self <= *o } }
/// the lexicographic order of strings (any total order will do)
pub uninterp spec fn str_le(a: String, b: String) -> bool;
pub axiom fn ax_str_le(a: String, b: String, c: String)
    ensures str_le(a, b) || str_le(b, a), str_le(a, b) && str_le(b, a) ==> a == b, str_le(a, b) && str_le(b, c) ==> str_le(a, c);
impl VOrd for String { open spec fn vle(&self, o: &Self) -> bool { str_le(*self, *o) } }
impl VOrd for BitSet { open spec fn vle(&self, o: &Self) -> bool { bs_le(*self, *o) } }
pub open spec fn sorted<T: VOrd>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).vle(#[trigger] &s[j]) }

/// `r` is `s` with its entries put in another order, `p[i]` being where entry `i` came from
pub open spec fn perm_by<T>(s: Seq<T>, r: Seq<T>, p: spec_fn(int) -> int) -> bool {
    r.len() == s.len()
    && (forall|i: int| 0 <= i < r.len() ==> 0 <= #[trigger] p(i) < s.len() && r[i] == s[p(i)])
    && (forall|i: int, j: int| 0 <= i < j < r.len() ==> #[trigger] p(i) != #[trigger] p(j))
    && (forall|j: int| #![trigger s[j]] #![trigger hit(p, r.len() as int, j)] 0 <= j < s.len() ==> hit(p, r.len() as int, j))
}
pub open spec fn hit(p: spec_fn(int) -> int, n: int, j: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] p(i) == j }
/// same entries, equally often
pub open spec fn rearranged<T>(s: Seq<T>, r: Seq<T>) -> bool {
    s.len() == r.len() && (forall|x: T| #[trigger] r.contains(x) <==> s.contains(x)) && (s.no_duplicates() ==> r.no_duplicates())
}
pub broadcast proof fn lem_rearranged<T>(s: Seq<T>, r: Seq<T>, p: spec_fn(int) -> int)
    requires #[trigger] perm_by(s, r, p)
    ensures rearranged(s, r)
{
    assert forall|x: T| #[trigger] r.contains(x) <==> s.contains(x) by {
        if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(s[p(i)] == x); }
        if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; let i = choose|i: int| 0 <= i < r.len() && #[trigger] p(i) == j; assert(r[i] == x); }
    }
    if s.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
            if i < j { assert(p(i) != p(j)); } else { assert(p(j) != p(i)); }
        }
    }
}
pub uninterp spec fn sort_perm<T>(s: Seq<T>) -> spec_fn(int) -> int;
/// positions in `s` of the entries of `r`, when `r` is `s` rearranged without changing the order of equal entries
pub uninterp spec fn stable_perm<T>(s: Seq<T>, r: Seq<T>) -> spec_fn(int) -> int;
pub open spec fn stably<T>(s: Seq<T>, r: Seq<T>) -> bool { perm_by(s, r, stable_perm(s, r)) }
/// `t` is `s` sorted
pub open spec fn sort_of<T: VOrd>(s: Seq<T>, t: Seq<T>) -> bool {
    perm_by(s, t, sort_perm::<T>(s)) && sorted(t)
}
/// the key that `f` gives `x`
pub trait VKey: VOrd { spec fn vkey<F, T>(f: F, x: T) -> Self; }
pub uninterp spec fn fkey0<F, T>(f: F, x: T) -> int;
impl VKey for usize { open spec fn vkey<F, T>(f: F, x: T) -> usize { fkey0(f, x) as usize } }
impl VKey for String { uninterp spec fn vkey<F, T>(f: F, x: T) -> String; }
/// `r` is `s` stably sorted by the keys that `f` gives
pub open spec fn key_sorted<T, K: VKey, F: Fn(&T) -> K>(s: Seq<T>, r: Seq<T>, f: F) -> bool {
    &&& stably(s, r)
    &&& forall|i: int| 0 <= i < r.len() ==> f.ensures((&#[trigger] r[i],), K::vkey::<F, T>(f, r[i]))
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==>
            K::vkey::<F, T>(f, #[trigger] r[i]).vle(&K::vkey::<F, T>(f, #[trigger] r[j]))
            && (K::vkey::<F, T>(f, r[j]).vle(&K::vkey::<F, T>(f, r[i])) ==> stable_perm(s, r)(i) < stable_perm(s, r)(j))
}
pub trait VSort<T> {
    spec fn vs(&self) -> Seq<T>;
    fn v_sort_unstable(&mut self) where T: VOrd
        ensures sort_of(old(self).vs(), final(self).vs());
    fn v_sort(&mut self) where T: VOrd
        ensures sort_of(old(self).vs(), final(self).vs());
    /// sorting by a comparator: whatever it answers, entries are only rearranged
    fn v_sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        requires forall|x: T, y: T| old(self).vs().contains(x) && old(self).vs().contains(y) ==> #[trigger] f.requires((&x, &y))
        ensures stably(old(self).vs(), final(self).vs());
    /// drops entries equal to their predecessor
    fn v_dedup(&mut self)
        ensures final(self).vs() == dedup_seq(old(self).vs());
    /// stable
    fn v_sort_by_key<K: VKey, F: Fn(&T) -> K>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).vs().len() ==> f.requires((&#[trigger] old(self).vs()[i],))
        ensures key_sorted::<T, K, F>(old(self).vs(), final(self).vs(), f);
    fn v_sort_by_cached_key<K: VKey, F: Fn(&T) -> K>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).vs().len() ==> f.requires((&#[trigger] old(self).vs()[i],))
        ensures key_sorted::<T, K, F>(old(self).vs(), final(self).vs(), f);
}
impl<T> VSort<T> for Vec<T> {
    open spec fn vs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_sort_unstable(&mut self) where T: VOrd { unimplemented!() }
    #[verifier::external_body]
    fn v_sort(&mut self) where T: VOrd { unimplemented!() }
    #[verifier::external_body]
    fn v_dedup(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn v_sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn v_sort_by_key<K: VKey, F: Fn(&T) -> K>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn v_sort_by_cached_key<K: VKey, F: Fn(&T) -> K>(&mut self, f: F) { unimplemented!() }
}
pub open spec fn dedup_seq<T>(s: Seq<T>) -> Seq<T>
    decreases s.len(),
{
    if s.len() <= 1 { s } else {
        let d = dedup_seq(s.drop_last());
        if s.last() == s[s.len() - 2] { d } else { d.push(s.last()) }
    }
}
pub broadcast proof fn lem_dedup<T>(s: Seq<T>)
    ensures
        #![trigger dedup_seq(s)]
        dedup_seq(s).len() <= s.len(),
        s.len() > 0 ==> dedup_seq(s).len() > 0 && dedup_seq(s).last() == s.last(),
        forall|x: T| #[trigger] dedup_seq(s).contains(x) <==> s.contains(x),
        forall|i: int| 0 <= i < dedup_seq(s).len() ==> s.contains(#[trigger] dedup_seq(s)[i]),
    decreases s.len()
{
    if s.len() > 1 {
        let d = dedup_seq(s.drop_last());
        lem_dedup(s.drop_last());
        assert(s.drop_last().last() == s[s.len() - 2]);
        assert forall|x: T| #[trigger] dedup_seq(s).contains(x) <==> s.contains(x) by {
            let r = dedup_seq(s);
            if r.contains(x) {
                let i = choose|i: int| 0 <= i < r.len() && r[i] == x;
                if i < d.len() { assert(d[i] == x); assert(d.contains(x)); assert(s.drop_last().contains(x));
                    let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == x; assert(s[j] == x); }
                else { assert(s[s.len() - 1] == x); }
            }
            if s.contains(x) {
                let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
                if j < s.len() - 1 { assert(s.drop_last()[j] == x); assert(s.drop_last().contains(x)); assert(d.contains(x));
                    let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(r[i] == x); }
                else if s.last() == s[s.len() - 2] { assert(d.last() == x); assert(r[r.len() - 1] == x); }
                else { assert(r[r.len() - 1] == x); }
            }
        }
        assert forall|i: int| 0 <= i < dedup_seq(s).len() implies s.contains(#[trigger] dedup_seq(s)[i]) by {
            assert(dedup_seq(s).contains(dedup_seq(s)[i]));
        }
    }
}
pub proof fn lem_lex_irrefl(a: Seq<usize>)
    ensures !lex_lt(a, a)
    decreases a.len()
{ if a.len() > 0 { lem_lex_irrefl(a.skip(1)); } }
pub proof fn lem_lex_trans(a: Seq<usize>, b: Seq<usize>, c: Seq<usize>)
    requires lex_lt(a, b), lex_lt(b, c)
    ensures lex_lt(a, c)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lem_lex_trans(a.skip(1), b.skip(1), c.skip(1)); }
}
pub proof fn lem_lex_total(a: Seq<usize>, b: Seq<usize>)
    ensures lex_lt(a, b) || lex_lt(b, a) || a == b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lem_lex_total(a.skip(1), b.skip(1));
        if a.skip(1) == b.skip(1) {
            assert(a =~= b) by {
                assert(a.len() == b.len());
                assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.skip(1)[i - 1] == b.skip(1)[i - 1]); } }
            }
        }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lem_bs_order(a: BitSet, b: BitSet)
    ensures bs_lt(a, b) || bs_lt(b, a) || a == b, !bs_lt(a, a), !(bs_lt(a, b) && bs_lt(b, a))
{
    broadcast use prelude_axioms;
    lem_lex_total(elems(a@), elems(b@));
    lem_lex_irrefl(elems(a@));
    if elems(a@) == elems(b@) { assert(a@ == b@); assert(bs_of(a@) == a); }
    if bs_lt(a, b) && bs_lt(b, a) { lem_lex_trans(elems(a@), elems(b@), elems(a@)); }
}
pub proof fn lem_bs_trans(a: BitSet, b: BitSet, c: BitSet)
    requires bs_lt(a, b), bs_lt(b, c)
    ensures bs_lt(a, c)
{ lem_lex_trans(elems(a@), elems(b@), elems(c@)); }
/// sorting and dropping equal neighbours leaves a strictly ascending list of the same sets
pub broadcast proof fn lem_sorted_dedup(s: Seq<BitSet>)
    requires sorted(s)
    ensures
        #![trigger dedup_seq(s)]
        forall|i: int, j: int| 0 <= i < j < dedup_seq(s).len() ==> bs_lt(#[trigger] dedup_seq(s)[i], #[trigger] dedup_seq(s)[j]),
    decreases s.len()
{
    if s.len() > 1 {
        let d = dedup_seq(s.drop_last());
        let t = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).vle(#[trigger] &t[j]) by { assert(s[i].vle(&s[j])); }
        lem_sorted_dedup(t);
        lem_dedup(t);
        let x = s.last();
        assert(t.last() == s[s.len() - 2]);
        if x != s[s.len() - 2] {
            assert(s[s.len() - 2].vle(&s[s.len() - 1]));
            lem_bs_order(s[s.len() - 2], x);
            assert(bs_lt(d.last(), x));
            assert forall|i: int, j: int| 0 <= i < j < dedup_seq(s).len() implies bs_lt(#[trigger] dedup_seq(s)[i], #[trigger] dedup_seq(s)[j]) by {
                if j == d.len() && i < d.len() - 1 { lem_bs_trans(d[i], d.last(), x); }
            }
        }
    }
}
pub broadcast group order_lemmas { lem_dedup, lem_sorted_dedup, lem_perm_has, lem_dedup_has }
} // mod order
pub use order::*;
pub mod lists {
use vstd::prelude::*;
use super::prelude::*;
use super::order::*;
// ---- lists of node sets
pub open spec fn has(v: Seq<BitSet>, s: Set<usize>) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] v[i]@ == s }
/// no two entries are equal
pub open spec fn distinct(v: Seq<BitSet>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i]@ != #[trigger] v[j]@ }
/// smaller sets first, equally large ones by ascending ids; no repetitions
pub open spec fn canonical(v: Seq<BitSet>) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@.len() < (#[trigger] v[j])@.len() || (v[i]@.len() == v[j]@.len() && bs_lt(v[i], v[j]))
}
/// `s` is in `v` and no other member of `v` is contained in it
pub open spec fn min_of(v: Seq<BitSet>, s: Set<usize>) -> bool { has(v, s) && forall|t: Set<usize>| #[trigger] has(v, t) && t.subset_of(s) ==> t == s }
pub open spec fn antichain(v: Seq<BitSet>) -> bool {
    forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j ==> !(#[trigger] v[i])@.subset_of((#[trigger] v[j])@)
}
pub open spec fn pairwise_intersect(v: Seq<BitSet>) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==> !(#[trigger] v[i])@.disjoint((#[trigger] v[j])@)
}
pub open spec fn union_all(v: Seq<BitSet>) -> Set<usize>
    decreases v.len(),
{ if v.len() == 0 { Set::empty() } else { union_all(v.drop_last()).union(v.last()@) } }
pub broadcast proof fn lem_perm_has(s: Seq<BitSet>, r: Seq<BitSet>, p: spec_fn(int) -> int)
    requires #[trigger] perm_by(s, r, p)
    ensures forall|x: Set<usize>| #[trigger] has(r, x) <==> has(s, x), distinct(s) ==> distinct(r)
{
    assert forall|x: Set<usize>| #[trigger] has(r, x) <==> has(s, x) by {
        if has(r, x) { let i = choose|i: int| 0 <= i < r.len() && r[i]@ == x; assert(s[p(i)]@ == x); }
        if has(s, x) { let j = choose|j: int| 0 <= j < s.len() && s[j]@ == x; let i = choose|i: int| 0 <= i < r.len() && #[trigger] p(i) == j; assert(r[i]@ == x); }
    }
    if distinct(s) {
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i]@ != #[trigger] r[j]@ by {
            assert(p(i) != p(j));
            if p(i) < p(j) { assert(s[p(i)]@ != s[p(j)]@); } else { assert(s[p(j)]@ != s[p(i)]@); }
        }
    }
}
pub broadcast proof fn lem_dedup_has(s: Seq<BitSet>)
    ensures #![trigger dedup_seq(s)] forall|x: Set<usize>| #[trigger] has(dedup_seq(s), x) <==> has(s, x)
{
    lem_dedup(s);
    let d = dedup_seq(s);
    assert forall|x: Set<usize>| #[trigger] has(d, x) <==> has(s, x) by {
        if has(d, x) { let i = choose|i: int| 0 <= i < d.len() && d[i]@ == x; assert(s.contains(d[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == d[i]; assert(s[j]@ == x); }
        if has(s, x) { let i = choose|i: int| 0 <= i < s.len() && s[i]@ == x; assert(d.contains(s[i])); let j = choose|j: int| 0 <= j < d.len() && d[j] == s[i]; assert(d[j]@ == x); }
    }
}
pub broadcast proof fn lem_union_all(v: Seq<BitSet>, x: usize)
    ensures #[trigger] union_all(v).contains(x) <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@.contains(x)
    decreases v.len()
{
    if v.len() > 0 {
        lem_union_all(v.drop_last(), x);
        if union_all(v.drop_last()).contains(x) { let i = choose|i: int| 0 <= i < v.drop_last().len() && (#[trigger] v.drop_last()[i])@.contains(x); assert(v[i]@.contains(x)); }
        if exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@.contains(x) {
            let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@.contains(x);
            if i < v.len() - 1 { assert(v.drop_last()[i]@.contains(x)); }
        }
    }
}
pub proof fn lem_union_sub(v: Seq<BitSet>, i: int)
    requires 0 <= i < v.len()
    ensures v[i]@.subset_of(union_all(v))
{
    assert forall|x: usize| v[i]@.contains(x) implies union_all(v).contains(x) by { lem_union_all(v, x); }
}
// ---- buckets: bucket k holds sets of size k
pub open spec fn inb(b: Seq<Vec<BitSet>>, s: Set<usize>) -> bool { exists|k: int| 0 <= k < b.len() && #[trigger] has(b[k]@, s) }
pub open spec fn min_b(b: Seq<Vec<BitSet>>, s: Set<usize>) -> bool { inb(b, s) && forall|t: Set<usize>| #[trigger] inb(b, t) && t.subset_of(s) ==> t == s }
pub open spec fn ascending(v: Seq<BitSet>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> bs_lt(#[trigger] v[i], #[trigger] v[j]) }
pub open spec fn all_len(v: Seq<BitSet>, k: int) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@.len() == k }
pub open spec fn buckets_ok(b: Seq<Vec<BitSet>>) -> bool {
    forall|k: int| 0 <= k < b.len() ==> all_len((#[trigger] b[k])@, k) && ascending(b[k]@)
}
/// `m` = the minimal sets of the first `k` buckets
pub open spec fn min_upto(b: Seq<Vec<BitSet>>, k: int, m: Seq<BitSet>) -> bool {
    &&& canonical(m) && antichain(m)
    &&& forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i])@.len() < k
    &&& forall|s: Set<usize>| #[trigger] has(m, s) ==> inb(b.take(k), s)
    &&& forall|t: Set<usize>| #[trigger] inb(b.take(k), t) ==> below(m, t)
}
/// some member of `m` is contained in `t`
pub open spec fn below(m: Seq<BitSet>, t: Set<usize>) -> bool { exists|i: int| 0 <= i < m.len() && (#[trigger] m[i])@.subset_of(t) }
/// `c` = the sets among the first `p` of bucket `v` that contain no member of `m`
pub open spec fn cur_upto(v: Seq<BitSet>, p: int, m: Seq<BitSet>, c: Seq<BitSet>) -> bool {
    &&& ascending(c)
    &&& c.len() > 0 ==> exists|q: int| 0 <= q < p && #[trigger] v[q] == c.last()
    &&& forall|i: int| 0 <= i < c.len() ==> has(v, (#[trigger] c[i])@) && !below(m, c[i]@)
    &&& forall|i: int| 0 <= i < p ==> has(c, (#[trigger] v[i])@) || below(m, v[i]@)
}
pub proof fn lem_cur_push(v: Seq<BitSet>, p: int, m: Seq<BitSet>, c: Seq<BitSet>)
    requires cur_upto(v, p, m, c), 0 <= p < v.len(), ascending(v)
    ensures below(m, v[p]@) ==> cur_upto(v, p + 1, m, c),
        !below(m, v[p]@) ==> cur_upto(v, p + 1, m, c.push(v[p]))
{
    if !below(m, v[p]@) {
        let d = c.push(v[p]);
        assert(v[p] == d.last());
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies bs_lt(#[trigger] d[i], #[trigger] d[j]) by {
            if j == c.len() {
                let q = choose|q: int| 0 <= q < p && #[trigger] v[q] == c.last();
                assert(bs_lt(v[q], v[p]));
                if i < c.len() - 1 { assert(bs_lt(c[i], c[c.len() - 1])); lem_bs_trans(c[i], c.last(), v[p]); }
            }
        }
        assert forall|i: int| 0 <= i < d.len() implies has(v, (#[trigger] d[i])@) && !below(m, d[i]@) by {}
        assert forall|i: int| 0 <= i < p + 1 implies has(d, (#[trigger] v[i])@) || below(m, v[i]@) by {
            if i < p { if has(c, v[i]@) { let j = choose|j: int| 0 <= j < c.len() && c[j]@ == v[i]@; assert(d[j]@ == v[i]@); } }
            else { assert(d[c.len() as int]@ == v[i]@); }
        }
    } else if c.len() > 0 {
        let q = choose|q: int| 0 <= q < p && #[trigger] v[q] == c.last();
        assert(v[q] == c.last());
    }
}
pub proof fn lem_bucket_done(b: Seq<Vec<BitSet>>, k: int, m: Seq<BitSet>, c: Seq<BitSet>)
    requires 0 <= k < b.len(), min_upto(b, k, m), cur_upto(b[k]@, b[k]@.len() as int, m, c), buckets_ok(b)
    ensures min_upto(b, k + 1, m + c)
{
    let r = m + c;
    let v = b[k]@;
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i])@.len() == k by {
        let j = choose|j: int| 0 <= j < v.len() && v[j]@ == c[i]@; assert(v[j]@.len() == k);
    }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i])@.len() < k + 1 by {}
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i])@.len() < (#[trigger] r[j])@.len() || (r[i]@.len() == r[j]@.len() && bs_lt(r[i], r[j])) by {
        if i < m.len() && j >= m.len() { assert(r[j] == c[j - m.len()]); }
        if i >= m.len() { assert(r[j] == c[j - m.len()]); assert(r[i] == c[i - m.len()]); }
    }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies !(#[trigger] r[i])@.subset_of((#[trigger] r[j])@) by {
        if r[i]@.subset_of(r[j]@) {
            vstd::set_lib::lemma_len_subset(r[i]@, r[j]@);
            if i < m.len() && j < m.len() { }
            else if i < m.len() { assert(r[j] == c[j - m.len()]); assert(below(m, r[j]@)); }
            else {
                assert(r[i] == c[i - m.len()]);
                if j >= m.len() {
                    assert(r[j] == c[j - m.len()]);
                    vstd::set_lib::lemma_subset_equality(r[i]@, r[j]@);
                    let (x, y) = (c[i - m.len()], c[j - m.len()]);
                    if i < j { assert(bs_lt(x, y)); } else { assert(bs_lt(y, x)); }
                    lem_bs_order(x, y);
                    assert(bs_of(x@) == x && bs_of(y@) == y) by { broadcast use prelude_axioms; }
                }
            }
        }
    }
    assert forall|s: Set<usize>| #[trigger] has(r, s) implies inb(b.take(k + 1), s) by {
        let i = choose|i: int| 0 <= i < r.len() && r[i]@ == s;
        if i < m.len() {
            assert(m[i]@ == s); assert(has(m, s)); assert(inb(b.take(k), s));
            let q = choose|q: int| 0 <= q < b.take(k).len() && #[trigger] has(b.take(k)[q]@, s);
            assert(has(b.take(k + 1)[q]@, s));
        } else { assert(r[i] == c[i - m.len()]); assert(has(v, s)); assert(has(b.take(k + 1)[k]@, s)); }
    }
    assert forall|t: Set<usize>| #[trigger] inb(b.take(k + 1), t) implies below(r, t) by {
        let q = choose|q: int| 0 <= q < b.take(k + 1).len() && #[trigger] has(b.take(k + 1)[q]@, t);
        if q < k {
            assert(has(b.take(k)[q]@, t)); assert(inb(b.take(k), t)); 
            let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i])@.subset_of(t);
            assert(r[i]@.subset_of(t));
        } else {
            let j = choose|j: int| 0 <= j < v.len() && v[j]@ == t;
            if has(c, v[j]@) {
                let i = choose|i: int| 0 <= i < c.len() && c[i]@ == t;
                assert(r[m.len() + i]@.subset_of(t));
            } else {
                let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i])@.subset_of(t);
                assert(r[i]@.subset_of(t));
            }
        }
    }
}
pub proof fn lem_min_upto_all(b: Seq<Vec<BitSet>>, m: Seq<BitSet>)
    requires min_upto(b, b.len() as int, m)
    ensures forall|s: Set<usize>| #[trigger] has(m, s) <==> min_b(b, s)
{
    assert(b.take(b.len() as int) =~= b);
    assert forall|s: Set<usize>| #[trigger] has(m, s) <==> min_b(b, s) by {
        if has(m, s) {
            let j = choose|j: int| 0 <= j < m.len() && m[j]@ == s;
            assert forall|t: Set<usize>| #[trigger] inb(b, t) && t.subset_of(s) implies t == s by {
                let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i])@.subset_of(t);
                assert(m[i]@.subset_of(m[j]@));
                assert(i == j);
                assert(t =~= s);
            }
        }
        if min_b(b, s) {
            let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i])@.subset_of(s);
            assert(has(m, m[i]@));
            assert(m[i]@ == s);
        }
    }
}
/// buckets `b` hold exactly the first `p` entries of the ascending list `v`
pub open spec fn filled(v: Seq<BitSet>, p: int, b: Seq<Vec<BitSet>>) -> bool {
    &&& buckets_ok(b)
    &&& forall|k: int| 0 <= k < b.len() && b[k]@.len() > 0 ==> exists|q: int| 0 <= q < p && #[trigger] v[q] == (#[trigger] b[k])@.last()
    &&& forall|s: Set<usize>| #[trigger] inb(b, s) <==> has(v.take(p), s)
}
pub proof fn lem_filled(v: Seq<BitSet>, p: int, b: Seq<Vec<BitSet>>, c: Seq<Vec<BitSet>>)
    requires filled(v, p, b), 0 <= p < v.len(), ascending(v), b.len() == c.len(), v[p]@.len() < b.len(),
        forall|k: int| 0 <= k < b.len() && k != v[p]@.len() ==> c[k] == #[trigger] b[k],
        c[v[p]@.len() as int]@ == b[v[p]@.len() as int]@.push(v[p])
    ensures filled(v, p + 1, c)
{
    let l = v[p]@.len() as int;
    let x = v[p];
    assert forall|k: int| 0 <= k < c.len() implies all_len((#[trigger] c[k])@, k) && ascending(c[k]@) by {
        assert(all_len(b[k]@, k) && ascending(b[k]@));
        if k == l && b[k]@.len() > 0 {
            let o = b[k]@;
            let q = choose|q: int| 0 <= q < p && #[trigger] v[q] == b[k]@.last();
            assert(bs_lt(v[q], v[p]));
            assert forall|i: int, j: int| 0 <= i < j < c[k]@.len() implies bs_lt(#[trigger] c[k]@[i], #[trigger] c[k]@[j]) by {
                if j == o.len() { if i < o.len() - 1 { assert(bs_lt(o[i], o[o.len() - 1])); lem_bs_trans(o[i], o.last(), x); } }
                else { assert(bs_lt(o[i], o[j])); }
            }
        }
    }
    assert forall|k: int| 0 <= k < c.len() && c[k]@.len() > 0 implies exists|q: int| 0 <= q < p + 1 && #[trigger] v[q] == (#[trigger] c[k])@.last() by {
        if k == l { assert(v[p] == c[k]@.last()); }
        else { let q = choose|q: int| 0 <= q < p && #[trigger] v[q] == b[k]@.last(); assert(v[q] == c[k]@.last()); }
    }
    assert forall|s: Set<usize>| #[trigger] inb(c, s) <==> has(v.take(p + 1), s) by {
        if inb(c, s) {
            let k = choose|k: int| 0 <= k < c.len() && #[trigger] has(c[k]@, s);
            let i = choose|i: int| 0 <= i < c[k]@.len() && c[k]@[i]@ == s;
            if k == l && i == b[k]@.len() { assert(v.take(p + 1)[p]@ == s); }
            else { assert(b[k]@[i]@ == s); assert(has(b[k]@, s)); assert(inb(b, s));
                let q = choose|q: int| 0 <= q < v.take(p).len() && v.take(p)[q]@ == s; assert(v.take(p + 1)[q]@ == s); }
        }
        if has(v.take(p + 1), s) {
            let q = choose|q: int| 0 <= q < v.take(p + 1).len() && (#[trigger] v.take(p + 1)[q])@ == s;
            if q == p { assert(c[l]@[b[l]@.len() as int]@ == s); assert(has(c[l]@, s)); }
            else {
                assert(v.take(p)[q]@ == s); assert(has(v.take(p), s)); assert(inb(b, s));
                let k = choose|k: int| 0 <= k < b.len() && #[trigger] has(b[k]@, s);
                let i = choose|i: int| 0 <= i < b[k]@.len() && b[k]@[i]@ == s;
                assert(c[k]@[i]@ == s); assert(has(c[k]@, s));
            }
        }
    }
}
pub proof fn lem_min_of_b(orig: Seq<BitSet>, nd: Seq<BitSet>, b: Seq<Vec<BitSet>>)
    requires forall|s: Set<usize>| #[trigger] has(nd, s) <==> has(orig, s), filled(nd, nd.len() as int, b)
    ensures forall|s: Set<usize>| #[trigger] min_b(b, s) <==> min_of(orig, s)
{
    assert(nd.take(nd.len() as int) =~= nd);
    assert forall|s: Set<usize>| #[trigger] inb(b, s) <==> has(orig, s) by { assert(has(nd, s) <==> has(orig, s)); }
    assert forall|s: Set<usize>| #[trigger] min_b(b, s) <==> min_of(orig, s) by {
        if min_b(b, s) { assert forall|t: Set<usize>| #[trigger] has(orig, t) && t.subset_of(s) implies t == s by { assert(inb(b, t)); } }
        if min_of(orig, s) { assert forall|t: Set<usize>| #[trigger] inb(b, t) && t.subset_of(s) implies t == s by { assert(has(orig, t)); } }
    }
}
/// sets that each contain more than half of all nodes intersect pairwise
pub proof fn lem_pigeonhole(v: Seq<BitSet>)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@.len() > union_all(v).len() / 2
    ensures pairwise_intersect(v)
{
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies !(#[trigger] v[i])@.disjoint((#[trigger] v[j])@) by {
        if v[i]@.disjoint(v[j]@) {
            lem_union_sub(v, i); lem_union_sub(v, j);
            vstd::set_lib::lemma_set_disjoint_lens(v[i]@, v[j]@);
            vstd::set_lib::lemma_len_subset(v[i]@.union(v[j]@), union_all(v));
        }
    }
}
} // mod lists
pub use lists::*;
