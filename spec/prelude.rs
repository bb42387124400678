// =====================================================================================
// TRUSTED PRELUDE: contracts assumed for the standard library and third-party crates
// (Vec/VecDeque/HashMap/BTreeMap helpers, iterator adaptors, bit_set::BitSet, itertools,
// pathfinding).  Everything marked external_body/axiom here is an assumption and is listed in
// the evidence of every check; bin/trusted tests exercise the same contracts on the real crates.
// =====================================================================================

pub mod prelude {
use vstd::prelude::*;
pub open spec fn veq<A>(a: A, b: A) -> bool { a == b }
/// value returned by the (pure) closure `f` on `a`
pub uninterp spec fn fout<F, A, R>(f: F, a: A) -> R;
pub open spec fn foutb<F, A>(f: F, a: A) -> bool { fout::<F, A, bool>(f, a) }

#[verifier::external_body]
pub fn v_assert(b: bool)
    requires b,
{ unimplemented!() }
#[verifier::external_body]
pub fn v_panic() -> !
    requires false,
{ unimplemented!() }

/// a refusal: reached only when `w` holds, and never returns
#[verifier::external_body]
pub fn v_panic_when(w: Ghost<bool>) -> !
    requires w@,
{ unimplemented!() }
#[verifier::external_body]
pub fn v_assert_when(b: bool, w: Ghost<bool>)
    requires b || w@,
    ensures b,
{ unimplemented!() }

// ------------------------------------------------------------------ iterators
/// Stands for a std iterator; its view is the sequence of items it will yield.
pub struct It<T> { v: Vec<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> It<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn v_has_next(&self) -> (r: bool)
        ensures r == (self.pos() < self.seq().len()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_next(&mut self) -> (r: T)
        requires 0 <= old(self).pos() < old(self).seq().len(),
        ensures final(self).seq() == old(self).seq(), final(self).pos() == old(self).pos() + 1,
            r == old(self).seq()[old(self).pos()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_next_opt(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures r@ == self@.filter(|x: T| foutb(f, x)),
            forall|i: int| 0 <= i < self@.len() ==> f.ensures((&self@[i],), foutb(f, #[trigger] self@[i])),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<R, F: Fn(T) -> R>(self, f: F) -> (r: It<R>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(),
            forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<R, F: Fn(T) -> Option<R>>(self, f: F) -> (r: It<R>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@ == somes(self@.map_values(|x: T| fout::<F, T, Option<R>>(f, x))),
            forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] fout::<F, T, Option<R>>(f, self@[i])),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>)
        ensures r@ == self@.take(if self@.len() <= n { self@.len() as int } else { n as int }),
            r@.len() == if self@.len() <= n { self@.len() as int } else { n as int },
            forall|i: int| #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i] == self@[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>)
        ensures r@ == self@.skip(if self@.len() <= n { self@.len() as int } else { n as int }),
            r@.len() == if self@.len() <= n { 0 } else { self@.len() - n },
            forall|i: int| #![trigger self@[i]] n <= i < self@.len() ==> r@[i - n] == self@[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        ensures r@.len() == self@.len(), self@.len() <= usize::MAX,
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> r@[i].0 == i && r@[i].1 == self@[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r == (exists|i: int| 0 <= i < self@.len() && foutb(f, #[trigger] self@[i])),
            forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), foutb(f, #[trigger] self@[i])),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures forall|i: int| 0 <= i < self@.len() ==> f.ensures((&self@[i],), foutb(f, #[trigger] self@[i])),
            match r {
                None => forall|i: int| 0 <= i < self@.len() ==> !foutb(f, #[trigger] self@[i]),
                Some(x) => exists|j: int| 0 <= j < self@.len() && x == self@[j] && foutb(f, #[trigger] self@[j])
                    && forall|i: int| 0 <= i < j ==> !foutb(f, #[trigger] self@[i]),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), foutb(f, #[trigger] self@[i])),
            match r {
                None => forall|i: int| 0 <= i < self@.len() ==> !foutb(f, #[trigger] self@[i]),
                Some(x) => 0 <= x < self@.len() && foutb(f, self@[x as int])
                    && forall|i: int| 0 <= i < x ==> !foutb(f, #[trigger] self@[i]),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn partition<C: FromIt<T>, F: Fn(&T) -> bool>(self, f: F) -> (r: (C, C))
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures C::from_it_ens(self@.filter(|x: T| foutb(f, x)), r.0),
            C::from_it_ens(self@.filter(|x: T| !foutb(f, x)), r.1),
            forall|i: int| 0 <= i < self@.len() ==> f.ensures((&self@[i],), foutb(f, #[trigger] self@[i])),
    { unimplemented!() }
    pub fn collect<C: FromIt<T>>(self) -> (r: C)
        ensures C::from_it_ens(self@, r),
    { C::from_it(self) }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r == (forall|i: int| 0 <= i < self@.len() ==> foutb(f, #[trigger] self@[i])),
            forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), foutb(f, #[trigger] self@[i])),
    { unimplemented!() }
}
/// the values inside the `Some`s, in order
pub open spec fn somes<R>(s: Seq<Option<R>>) -> Seq<R>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) }
    }
}
impl<'a, T> It<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<T>)
        ensures r@ == derefs(self@), r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> r@[i] == *self@[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copied(self) -> (r: It<T>)
        ensures r@ == derefs(self@), r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> r@[i] == *self@[i],
    { unimplemented!() }
}
impl It<usize> {
    #[verifier::external_body]
    pub fn max(self) -> (r: Option<usize>)
        ensures match r {
            None => self@.len() == 0,
            Some(m) => (exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == m) && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] <= m,
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self) -> (r: Option<usize>)
        ensures match r {
            None => self@.len() == 0,
            Some(m) => (exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == m) && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] >= m,
        },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_range(a: usize, b: usize) -> (r: It<usize>)
    ensures r@ == range_seq(a, b), r.seq() == r@, r.pos() == 0,
{ unimplemented!() }
pub open spec fn range_seq(a: usize, b: usize) -> Seq<usize> {
    Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize)
}

pub trait FromIt<T>: Sized {
    spec fn from_it_ens(s: Seq<T>, r: Self) -> bool;
    fn from_it(it: It<T>) -> (r: Self)
        ensures Self::from_it_ens(it@, r);
}
impl<T> FromIt<T> for Vec<T> {
    open spec fn from_it_ens(s: Seq<T>, r: Self) -> bool { r@ == s }
    #[verifier::external_body]
    fn from_it(it: It<T>) -> (r: Self) { unimplemented!() }
}
impl FromIt<usize> for BitSet {
    open spec fn from_it_ens(s: Seq<usize>, r: Self) -> bool { r@ == s.to_set() }
    #[verifier::external_body]
    fn from_it(it: It<usize>) -> (r: Self) { unimplemented!() }
}

pub trait VIter {
    type Item;
    spec fn iter_seq(&self) -> Seq<Self::Item>;
    fn v_iter(self) -> (r: It<Self::Item>) where Self: Sized
        ensures r@ == self.iter_seq(), r.seq() == r@, r.pos() == 0;
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub open spec fn derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn ax_derefs<T>(s: Seq<T>)
    ensures #[trigger] derefs(refs(s)) == s
{ assert(derefs(refs(s)) =~= s); }
pub broadcast proof fn ax_refs<T>(s: Seq<T>)
    ensures #![trigger refs(s)] refs(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> *refs(s)[i] == #[trigger] s[i]
{}
impl<'a, T> VIter for &'a Vec<T> {
    type Item = &'a T;
    open spec fn iter_seq(&self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn v_iter(self) -> It<&'a T> { unimplemented!() }
}
impl<'a, T> VIter for &'a [T] {
    type Item = &'a T;
    open spec fn iter_seq(&self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn v_iter(self) -> It<&'a T> { unimplemented!() }
}
impl<'a> VIter for &'a BitSet {
    type Item = usize;
    open spec fn iter_seq(&self) -> Seq<usize> { elems(self@) }
    #[verifier::external_body]
    fn v_iter(self) -> It<usize> { unimplemented!() }
}
pub trait VIntoIter {
    type Item;
    spec fn into_seq(&self) -> Seq<Self::Item>;
    fn v_into_iter(self) -> (r: It<Self::Item>) where Self: Sized
        ensures r@ == self.into_seq(), r.seq() == r@, r.pos() == 0;
}
impl<T> VIntoIter for It<T> {
    type Item = T;
    open spec fn into_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> It<T> { unimplemented!() }
}
impl<T> VIntoIter for Vec<T> {
    type Item = T;
    open spec fn into_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> It<T> { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a Vec<T> {
    type Item = &'a T;
    open spec fn into_seq(&self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> It<&'a T> { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a [T] {
    type Item = &'a T;
    open spec fn into_seq(&self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> It<&'a T> { unimplemented!() }
}
impl<'a> VIntoIter for &'a BitSet {
    type Item = usize;
    open spec fn into_seq(&self) -> Seq<usize> { elems(self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> It<usize> { unimplemented!() }
}
impl VIntoIter for BitSet {
    type Item = usize;
    open spec fn into_seq(&self) -> Seq<usize> { elems(self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> It<usize> { unimplemented!() }
}

/// Extend::extend
pub trait VExtend<T>: Sized {
    spec fn extend_ens(old_self: Self, s: Seq<T>, r: Self) -> bool;
    fn v_extend<I: VIntoIter<Item = T>>(&mut self, it: I)
        ensures Self::extend_ens(*old(self), it.into_seq(), *final(self));
}
impl<T> VExtend<T> for Vec<T> {
    open spec fn extend_ens(old_self: Self, s: Seq<T>, r: Self) -> bool { r@ == old_self@ + s }
    #[verifier::external_body]
    fn v_extend<I: VIntoIter<Item = T>>(&mut self, it: I) { unimplemented!() }
}
impl VExtend<usize> for BitSet {
    open spec fn extend_ens(old_self: Self, s: Seq<usize>, r: Self) -> bool { r@ == old_self@.union(s.to_set()) }
    #[verifier::external_body]
    fn v_extend<I: VIntoIter<Item = usize>>(&mut self, it: I) { unimplemented!() }
}
// ------------------------------------------------------------------ clone
pub trait VClone: Sized {
    fn v_clone(&self) -> (r: Self)
        ensures r == *self;
}
/// types with a `Clone` that copies the value (std types here, types of the crate that derive it)
pub trait VCl {}
/// types whose `PartialEq` is equality of values
pub trait VPEq {}
impl VCl for usize {} impl VCl for u64 {} impl VCl for u32 {} impl VCl for bool {} impl VCl for f64 {} impl VCl for BitSet {} impl VCl for String {}
impl VPEq for usize {} impl VPEq for BitSet {} impl VPEq for String {}
impl<'a, T: ?Sized> VCl for &'a T {}
impl<T: VCl> VCl for Vec<T> {} impl<T: VPEq> VPEq for Vec<T> {}
impl<T: VCl> VCl for Option<T> {} impl<T: VPEq> VPEq for Option<T> {}
impl<A: VCl, B: VCl> VCl for (A, B) {} impl<A: VPEq, B: VPEq> VPEq for (A, B) {}
impl<T: VCl> VClone for T {
    #[verifier::external_body]
    fn v_clone(&self) -> (r: Self) { unimplemented!() }
}

// ------------------------------------------------------------------ Vec
pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures r == s@.contains(*x);
#[verifier::external_body]
pub fn v_vec_with<T>(v: Vec<T>, x: T) -> (r: Vec<T>)
    ensures r@ == v@.push(x),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_vec_repeat<T>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x,
{ unimplemented!() }
pub trait VVec<T> {
    spec fn vv(&self) -> Seq<T>;
    fn v_to_vec(&self) -> (r: Vec<T>)
        ensures r@ == self.vv();
}
impl<T> VVec<T> for [T] {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
}
/// format!: some string
#[verifier::external_body]
pub fn v_format() -> (r: String) { unimplemented!() }
pub trait VRetain<T>: View<V = Seq<T>> {
    fn v_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((&#[trigger] old(self)@[i],)),
        ensures final(self)@ == old(self)@.filter(|x: T| foutb(f, x)),
            forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((&old(self)@[i],), foutb(f, #[trigger] old(self)@[i]));
}
impl<T> VRetain<T> for Vec<T> {
    #[verifier::external_body]
    fn v_retain<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() }
}

// ------------------------------------------------------------------ bit_set::BitSet
#[verifier::external_body]
pub struct BitSet { v: Vec<u64> }
impl View for BitSet { type V = Set<usize>; uninterp spec fn view(&self) -> Set<usize>; }
impl PartialEq for BitSet {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for BitSet {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
/// elements in increasing order: what BitSet::iter yields
pub uninterp spec fn elems(s: Set<usize>) -> Seq<usize>;
pub uninterp spec fn epos(s: Set<usize>, x: usize) -> int;
pub uninterp spec fn bs_of(s: Set<usize>) -> BitSet;
pub broadcast axiom fn ax_elems(s: Set<usize>)
    ensures
        #![trigger elems(s)]
        elems(s).no_duplicates(),
        elems(s).to_set() == s,
        elems(s).len() == s.len(),
        forall|i: int| 0 <= i < elems(s).len() ==> s.contains(#[trigger] elems(s)[i]),
        forall|x: usize| #[trigger] s.contains(x) ==> 0 <= epos(s, x) < elems(s).len() && elems(s)[epos(s, x)] == x;
pub axiom fn ax_elems_sorted(s: Set<usize>)
    ensures forall|i: int, j: int| 0 <= i < j < elems(s).len() ==> elems(s)[i] < elems(s)[j];
/// a BitSet is determined by the set of its elements (its API does not expose its capacity)
pub broadcast axiom fn ax_bitset_ext(b: BitSet)
    ensures bs_of(#[trigger] b@) == b;
/// no set that fits into memory has more elements than this
pub open spec fn max_len() -> int { 0x3fff_ffff_ffff_ffff }
pub broadcast axiom fn ax_bitset_of(s: Set<usize>)
    requires s.len() <= max_len()
    ensures (#[trigger] bs_of(s))@ == s;
impl BitSet {
    #[verifier::external_body]
    pub fn new() -> (r: BitSet) ensures r@ == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: BitSet) ensures r@ == Set::<usize>::empty() { unimplemented!() }
    pub open spec fn s_contains(&self, x: usize) -> bool { self@.contains(x) }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(s_contains)]
    pub fn contains(&self, x: usize) -> (b: bool) ensures b == self@.contains(x) { unimplemented!() }
    pub open spec fn s_is_empty(&self) -> bool { self@ == Set::<usize>::empty() }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(s_is_empty)]
    pub fn is_empty(&self) -> (b: bool) ensures b == self.s_is_empty() { unimplemented!() }
    pub uninterp spec fn s_len(&self) -> usize;
    #[verifier::external_body]
    #[verifier::when_used_as_spec(s_len)]
    pub fn len(&self) -> (n: usize) ensures n == self@.len(), n == self.s_len() { unimplemented!() }
    pub open spec fn s_is_subset(&self, o: &BitSet) -> bool { self@.subset_of(o@) }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(s_is_subset)]
    pub fn is_subset(&self, o: &BitSet) -> (b: bool) ensures b == self@.subset_of(o@) { unimplemented!() }
    pub open spec fn s_is_superset(&self, o: &BitSet) -> bool { o@.subset_of(self@) }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(s_is_superset)]
    pub fn is_superset(&self, o: &BitSet) -> (b: bool) ensures b == o@.subset_of(self@) { unimplemented!() }
    pub open spec fn s_is_disjoint(&self, o: &BitSet) -> bool { self@.disjoint(o@) }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(s_is_disjoint)]
    pub fn is_disjoint(&self, o: &BitSet) -> (b: bool) ensures b == self@.disjoint(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, x: usize) -> (b: bool)
        ensures b == old(self)@.contains(x), final(self)@ == old(self)@.remove(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: usize) -> (b: bool)
        ensures b == !old(self)@.contains(x), final(self)@ == old(self)@.insert(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn union_with(&mut self, o: &BitSet) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn intersect_with(&mut self, o: &BitSet) ensures final(self)@ == old(self)@.intersect(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn difference_with(&mut self, o: &BitSet) ensures final(self)@ == old(self)@.difference(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<usize>::empty() { unimplemented!() }
}
pub broadcast axiom fn ax_bitset_len(b: BitSet)
    ensures #[trigger] b.s_len() == b@.len(), b@.len() <= max_len();
#[verifier::external_body]
pub fn v_bs_with(b: BitSet, x: usize) -> (r: BitSet)
    ensures r@ == b@.insert(x),
{ unimplemented!() }
pub trait VDefault: Sized {
    spec fn is_default(r: Self) -> bool;
    fn v_default() -> (r: Self) ensures Self::is_default(r);
}
impl VDefault for BitSet {
    open spec fn is_default(r: Self) -> bool { r@ == Set::<usize>::empty() }
    #[verifier::external_body]
    fn v_default() -> (r: Self) { unimplemented!() }
}
pub assume_specification<'a, T>[ Option::<&T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    where T: Copy
    ensures r == match o { Some(x) => Some(*x), None => None };
pub assume_specification<T, P: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, p: P) -> (r: Option<T>)
    requires o matches Some(x) ==> p.requires((&x,))
    ensures match o { Some(x) => (r == Some(x) && p.ensures((&x,), true)) || (r is None && p.ensures((&x,), false)), None => r is None };
pub trait VOption<T> {
    spec fn vo(&self) -> Option<T>;
    fn v_unwrap_or_default(self) -> (r: T) where T: VDefault, Self: Sized
        ensures match self.vo() { Some(x) => r == x, None => T::is_default(r) };
}
impl<T> VOption<T> for Option<T> {
    open spec fn vo(&self) -> Option<T> { *self }
    fn v_unwrap_or_default(self) -> (r: T) where T: VDefault { match self { Some(x) => x, None => T::v_default() } }
}
pub broadcast group prelude_axioms { ax_refs, ax_derefs, ax_elems, ax_bitset_ext, ax_bitset_of, ax_bitset_len }
} // mod prelude
pub use prelude::*;
global size_of usize == 8;
broadcast use prelude::prelude_axioms;

// ---- cells, flattened into plain fields
pub trait VCell: Sized {
    fn v_snap(&self) -> (r: Self) ensures r == *self;
    fn v_replace(&mut self, x: Self) -> (r: Self) ensures *final(self) == x, r == *old(self);
}
impl<T> VCell for T {
    #[verifier::external_body]
    fn v_snap(&self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn v_replace(&mut self, x: Self) -> (r: Self) { unimplemented!() }
}
