// TRUSTED: contracts assumed for std's text functions; text is its sequence of characters
pub mod text {
use vstd::prelude::*;
use super::prelude::*;
use super::collections::*;
use super::more::*;
use super::show::*;
pub uninterp spec fn i32_of(s: Seq<char>) -> Option<i32>;
pub axiom fn ax_i32()
    ensures i32_of(seq!['0']) == Some(0i32), i32_of(seq!['-', '1']) == Some(-1i32);
pub trait VPush: View<V = Seq<char>> {
    fn v_push_str<T: VShow + ?Sized>(&mut self, t: &T)
        ensures final(self)@ == old(self)@ + t.shown();
}
impl VPush for String {
    #[verifier::external_body]
    fn v_push_str<T: VShow + ?Sized>(&mut self, t: &T) { unimplemented!() }
}
// ---- reading
pub open spec fn strip_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
/// the finished lines of a text and what follows the last line end
pub open spec fn scan(s: Seq<char>) -> (Seq<Seq<char>>, Seq<char>)
    decreases s.len(),
{
    if s.len() == 0 { (Seq::empty(), Seq::empty()) } else {
        let (d, c) = scan(s.drop_last());
        if s.last() == '\n' { (d.push(strip_cr(c)), Seq::empty()) } else { (d, c.push(s.last())) }
    }
}
/// `str::lines`: without line ends ("\n" or "\r\n"), no empty last line
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> { let (d, c) = scan(s); if c.len() == 0 { d } else { d.push(c) } }
/// `str::split` at a character
pub open spec fn fields_of(s: Seq<char>, x: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { seq![Seq::empty()] } else {
        let f = fields_of(s.drop_last(), x);
        if s.last() == x { f.push(Seq::empty()) } else { f.drop_last().push(f.last().push(s.last())) }
    }
}
pub open spec fn views(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
pub struct VParseError {}
impl core::fmt::Debug for VParseError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub trait VParse: Sized { spec fn parsed(s: Seq<char>) -> Option<Self>; }
impl VParse for usize { open spec fn parsed(s: Seq<char>) -> Option<usize> { usize_of(s) } }
impl VParse for i32 { open spec fn parsed(s: Seq<char>) -> Option<i32> { i32_of(s) } }
pub trait VText: View<V = Seq<char>> {
    fn v_lines(&self) -> (r: It<&str>)
        ensures views(r@) == lines_of(self@), r@ == r.seq(), r.pos() == 0;
    fn v_split(&self, x: char) -> (r: It<&str>)
        ensures views(r@) == fields_of(self@, x), r@ == r.seq(), r.pos() == 0;
    fn v_starts_with(&self, x: char) -> (r: bool)
        ensures r == (self@.len() > 0 && self@[0] == x);
    fn v_parse<T: VParse>(&self) -> (r: Result<T, VParseError>)
        ensures match T::parsed(self@) { Some(v) => r == Ok::<T, VParseError>(v), None => r is Err };
}
impl VText for str {
    #[verifier::external_body]
    fn v_lines(&self) -> (r: It<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn v_split(&self, x: char) -> (r: It<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn v_starts_with(&self, x: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_parse<T: VParse>(&self) -> (r: Result<T, VParseError>) { unimplemented!() }
}
impl<T> It<Option<T>> {
    #[verifier::external_body]
    pub fn flatten(self) -> (r: It<T>)
        ensures r@ == somes(self@), r@ == r.seq(), r.pos() == 0,
    { unimplemented!() }
}
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
// ---- ordered sets
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { k: Vec<T> }
impl<T> View for BTreeSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
pub open spec fn ascends(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
pub uninterp spec fn in_order(s: Set<usize>) -> Seq<usize>;
pub broadcast axiom fn ax_in_order(s: Set<usize>)
    ensures ascends(#[trigger] in_order(s)), forall|x: usize| #[trigger] in_order(s).contains(x) <==> s.contains(x);
impl<T> BTreeSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
}
impl VIntoIter for BTreeSet<usize> {
    type Item = usize;
    open spec fn into_seq(&self) -> Seq<usize> { in_order(self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: It<usize>) { unimplemented!() }
}
pub trait VResize<T>: View<V = Seq<T>> {
    fn v_resize_with<F: Fn() -> T>(&mut self, n: usize, f: F)
        requires f.requires(()),
        ensures final(self)@.len() == n, forall|i: int| 0 <= i < n ==> if i < old(self)@.len() { #[trigger] final(self)@[i] == old(self)@[i] } else { f.ensures((), final(self)@[i]) };
}
impl<T> VResize<T> for Vec<T> {
    #[verifier::external_body]
    fn v_resize_with<F: Fn() -> T>(&mut self, n: usize, f: F) { unimplemented!() }
}
}
pub use text::*;
pub mod io {
    pub struct Error {}
    pub type Result<T> = core::result::Result<T, Error>;
}
