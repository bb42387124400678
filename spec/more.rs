// TRUSTED: contracts assumed for further std adaptors and for the rand crate
pub mod more {
use vstd::prelude::*;
use super::prelude::*;
use super::collections::*;
impl<T> It<T> {
    #[verifier::external_body]
    pub fn chain<I: VIntoIter<Item = T>>(self, o: I) -> (r: It<T>)
        ensures r@ == self@ + o.into_seq(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<I: VIntoIter>(self, o: I) -> (r: It<(T, I::Item)>)
        ensures r@.len() == if self@.len() <= o.into_seq().len() { self@.len() } else { o.into_seq().len() },
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i].0 == self@[i] && r@[i].1 == o.into_seq()[i],
    { unimplemented!() }
}
pub open spec fn sum_to(s: Seq<usize>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { sum_to(s, n - 1) + s[n - 1] } }
impl<'a> It<&'a usize> {
    /// overflow panics in debug builds and wraps in release builds: excluded by the caller
    #[verifier::external_body]
    pub fn sum(self) -> (r: usize)
        requires sum_to(derefs(self@), self@.len() as int) <= usize::MAX,
        ensures r == sum_to(derefs(self@), self@.len() as int),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_range_incl(a: usize, b: usize) -> (r: It<usize>)
    ensures r@ == range_incl_seq(a, b), r.seq() == r@, r.pos() == 0,
{ unimplemented!() }
pub open spec fn range_incl_seq(a: usize, b: usize) -> Seq<usize> {
    Seq::new(if a <= b { (b - a + 1) as nat } else { 0 }, |i: int| (a + i) as usize)
}
pub struct VFull {}
pub fn v_full() -> VFull { VFull {} }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_drain(&mut self, w: VFull) -> (r: It<T>) ensures r@ == old(self)@, final(self)@ == Seq::<T>::empty() { unimplemented!() }
}
pub trait VVecMore<T>: View<V = Seq<T>> {
    fn v_extend_from_slice(&mut self, o: &Vec<T>) where T: VCl
        ensures final(self)@ == old(self)@ + o@;
    fn v_drain(&mut self, w: VFull) -> (r: It<T>)
        ensures r@ == old(self)@, final(self)@ == Seq::<T>::empty();
}
impl<T> VVecMore<T> for Vec<T> {
    #[verifier::external_body]
    fn v_extend_from_slice(&mut self, o: &Vec<T>) where T: VCl { unimplemented!() }
    #[verifier::external_body]
    fn v_drain(&mut self, w: VFull) -> (r: It<T>) { unimplemented!() }
}
pub trait VToOwned<T> { spec fn owned(&self) -> T; fn v_to_owned(&self) -> (r: T) ensures r == self.owned(); }
impl VToOwned<usize> for usize {
    open spec fn owned(&self) -> usize { *self }
    fn v_to_owned(&self) -> (r: usize) { *self }
}

// ------------------------------------------------------------------ rand: every outcome the documentation allows
pub struct ThreadRng {}
pub struct WeightedError {}
#[verifier::external_body]
pub fn thread_rng() -> (r: ThreadRng) { unimplemented!() }
/// between 0 and 1
pub uninterp spec fn is_prob(p: f64) -> bool;
impl ThreadRng {
    #[verifier::external_body]
    pub fn gen_bool(&mut self, p: f64) -> (r: bool)
        requires is_prob(p),
    { unimplemented!() }
}
pub open spec fn is_perm<T>(a: Seq<T>, b: Seq<T>) -> bool { a.to_multiset() == b.to_multiset() }
pub trait VRand<T>: View<V = Seq<T>> {
    fn v_shuffle(&mut self, rng: &mut ThreadRng)
        ensures is_perm(old(self)@, final(self)@);
    fn v_choose(&self, rng: &mut ThreadRng) -> (r: Option<&T>)
        ensures match r { None => self@.len() == 0, Some(x) => self@.contains(*x) };
    /// refuses when no weight is positive; otherwise an element of positive weight
    fn v_choose_weighted<F: Fn(&T) -> usize>(&self, rng: &mut ThreadRng, f: F) -> (r: Result<&T, WeightedError>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures
            forall|i: int| 0 <= i < self@.len() ==> f.ensures((&self@[i],), fout::<F, T, usize>(f, #[trigger] self@[i])),
            match r {
                Ok(x) => self@.contains(*x) && fout::<F, T, usize>(f, *x) > 0,
                Err(_) => forall|i: int| 0 <= i < self@.len() ==> fout::<F, T, usize>(f, #[trigger] self@[i]) == 0,
            };
}
impl<T> VRand<T> for Vec<T> {
    #[verifier::external_body]
    fn v_shuffle(&mut self, rng: &mut ThreadRng) { unimplemented!() }
    #[verifier::external_body]
    fn v_choose(&self, rng: &mut ThreadRng) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_choose_weighted<F: Fn(&T) -> usize>(&self, rng: &mut ThreadRng, f: F) -> (r: Result<&T, WeightedError>) { unimplemented!() }
}
impl core::fmt::Debug for WeightedError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
}
pub use more::*;
