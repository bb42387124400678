// stand-ins for std collections whose contents are described by a mathematical map / sequence
pub mod collections {
use vstd::prelude::*;
use super::prelude::*;
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct HashMap<K, V> { k: Vec<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K: VCl, V: VCl> VCl for HashMap<K, V> {}
impl<T: VCl> VCl for VecDeque<T> {}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures match r { None => !self@.dom().contains(*k), Some(v) => self@.dom().contains(*k) && *v == self@[*k] },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
            Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.dom().contains(*k),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct BTreeMap<K, V> { k: Vec<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K: VCl, V: VCl> VCl for BTreeMap<K, V> {}
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures match r { None => !self@.dom().contains(*k), Some(v) => self@.dom().contains(*k) && *v == self@[*k] },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
            Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.dom().contains(*k),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { v: Vec<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, x: T)
        ensures final(self)@ == seq![x] + old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T)
        ensures final(self)@ == old(self)@.push(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { unimplemented!() }
}
/// inserting pairs one after the other
pub open spec fn map_of_pairs<K, V>(s: Seq<(K, V)>) -> Map<K, V>
    decreases s.len(),
{
    if s.len() == 0 { Map::empty() } else { map_of_pairs(s.drop_last()).insert(s.last().0, s.last().1) }
}
impl<K, V> FromIt<(K, V)> for HashMap<K, V> {
    open spec fn from_it_ens(s: Seq<(K, V)>, r: Self) -> bool { r@ == map_of_pairs(s) }
    #[verifier::external_body]
    fn from_it(it: It<(K, V)>) -> (r: Self) { unimplemented!() }
}
impl<K, V> FromIt<(K, V)> for BTreeMap<K, V> {
    open spec fn from_it_ens(s: Seq<(K, V)>, r: Self) -> bool { r@ == map_of_pairs(s) }
    #[verifier::external_body]
    fn from_it(it: It<(K, V)>) -> (r: Self) { unimplemented!() }
}
/// Into::into
pub trait VInto<R>: Sized {
    spec fn into_ens(self, r: R) -> bool;
    fn v_into(self) -> (r: R)
        ensures self.into_ens(r);
}
impl<T> VInto<VecDeque<T>> for Vec<T> {
    open spec fn into_ens(self, r: VecDeque<T>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn v_into(self) -> VecDeque<T> { unimplemented!() }
}
impl<T> VInto<Vec<T>> for VecDeque<T> {
    open spec fn into_ens(self, r: Vec<T>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn v_into(self) -> Vec<T> { unimplemented!() }
}
}
pub use collections::*;
