// TRUSTED: how numbers are written (`Display`), and `format!` as the sequence of its pieces
pub mod show {
use vstd::prelude::*;
/// decimal notation, as `Display` writes it
pub uninterp spec fn dec(n: usize) -> Seq<char>;
/// what `str::parse` reads
pub uninterp spec fn usize_of(s: Seq<char>) -> Option<usize>;
pub open spec fn plain(c: char) -> bool { c != '|' && c != '#' && c != '\n' && c != '\r' && c != ' ' && c != '-' }
pub broadcast axiom fn ax_dec(n: usize)
    ensures #[trigger] dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> plain(#[trigger] dec(n)[i]), usize_of(dec(n)) == Some(n);
// ---- formatting: `format!` is split into its pieces by the extractor
pub trait VShow { spec fn shown(&self) -> Seq<char>; }
impl VShow for usize { open spec fn shown(&self) -> Seq<char> { dec(*self) } }
impl VShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<'a, T: VShow + ?Sized> VShow for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
/// `ToString` is what `Display` writes
pub trait VToString { fn v_to_string(&self) -> (r: String); }
impl<T: VShow> VToString for T {
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) ensures r@ == self.shown() { unimplemented!() }
}
#[verifier::external_body]
pub fn v_f0() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn v_fc(s: String, c: char) -> (r: String) ensures r@ == s@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn v_fs<T: VShow + ?Sized>(s: String, t: &T) -> (r: String) ensures r@ == s@ + t.shown() { unimplemented!() }
}
pub use show::*;
// TRUSTED: serde -- how a value is written depends on the value only, and what a text is read as on the text only
pub mod serde_json {
    use vstd::prelude::*;
    pub uninterp spec fn json_of<T>(s: Seq<char>) -> Option<T>;
    pub uninterp spec fn text<T>(x: T) -> Seq<char>;
    pub uninterp spec fn text_lines<T>(x: T) -> Seq<char>;
    pub struct Error {}
    impl core::fmt::Debug for Error { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
    #[verifier::external_body]
    pub fn from_str<T>(s: &str) -> (r: Result<T, Error>) ensures match json_of::<T>(s@) { Some(v) => r == Ok::<T, Error>(v), None => r is Err } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string<T>(x: &T) -> (r: Result<String, Error>) ensures r is Ok, r->Ok_0@ == text(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_pretty<T>(x: &T) -> (r: Result<String, Error>) ensures r is Ok, r->Ok_0@ == text_lines(*x) { unimplemented!() }
}
pub trait Serializer: Sized { type Ok; type Error; }
/// what a serializer makes of a value
pub uninterp spec fn serialized<T, S: Serializer>(x: T, s: S) -> Result<S::Ok, S::Error>;
pub trait VSerialize: Sized {
    fn v_serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) ensures r == serialized(*self, s);
}
impl<T> VSerialize for T {
    #[verifier::external_body]
    fn v_serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
}
pub trait Deserializer<'de>: Sized { type Error; }
/// what a deserializer makes of its input
pub uninterp spec fn deserialized<'de, T, D: Deserializer<'de>>(d: D) -> Result<T, D::Error>;
pub trait VDeserialize: Sized {
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> (r: Result<Self, D::Error>) ensures r == deserialized::<Self, D>(d);
}
impl<T> VDeserialize for T {
    #[verifier::external_body]
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> (r: Result<Self, D::Error>) { unimplemented!() }
}
