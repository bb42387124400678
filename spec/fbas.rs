use std::mem;
// ---- nodes and their public keys
/// a String is determined by its characters
pub uninterp spec fn str_of(s: Seq<char>) -> String;
pub broadcast axiom fn ax_string_ext(s: String)
    ensures str_of(#[trigger] s@) == s;
pub broadcast axiom fn ax_str_of(s: Seq<char>) ensures (#[trigger] str_of(s))@ == s;
#[verifier::external_body]
pub fn v_string_from(s: &str) -> (r: String)
    ensures r@ == s@,
{ unimplemented!() }
/// the node numbers behind the keys
pub open spec fn keyed(f: Fbas) -> bool {
    &&& forall|i: int| 0 <= i < f.nodes@.len() ==> f.pk_to_id@.dom().contains(#[trigger] f.nodes@[i].public_key) && f.pk_to_id@[f.nodes@[i].public_key] == i
    &&& forall|k: String| #[trigger] f.pk_to_id@.dom().contains(k) ==> f.pk_to_id@[k] < f.nodes@.len() && f.nodes@[f.pk_to_id@[k] as int].public_key == k
}
pub open spec fn has_key(f: Fbas, k: String) -> bool { exists|i: int| 0 <= i < f.nodes@.len() && #[trigger] f.nodes@[i].public_key == k }
/// `g` is `f` with `n` appended
pub open spec fn appended(f: Fbas, g: Fbas, n: Node) -> bool { g.nodes@ == f.nodes@.push(n) }
pub proof fn lem_no_key(f: Fbas, k: String)
    requires keyed(f)
    ensures has_key(f, k) <==> f.pk_to_id@.dom().contains(k)
{
    if f.pk_to_id@.dom().contains(k) { assert(f.nodes@[f.pk_to_id@[k] as int].public_key == k); }
}
/// the name `n<id>`
pub open spec fn generic_name(i: usize) -> String { str_of(seq!['n'] + dec(i)) }
/// different numbers have different decimal notations
pub proof fn lem_generic_name(i: usize, j: usize)
    ensures generic_name(i) == generic_name(j) ==> i == j
{
    ax_dec(i); ax_dec(j);
    let (a, b) = (seq!['n'] + dec(i), seq!['n'] + dec(j));
    ax_str_of(a); ax_str_of(b);
    if generic_name(i) == generic_name(j) { assert(a == b); assert(a.skip(1) =~= dec(i)); assert(b.skip(1) =~= dec(j)); }
}
pub open spec fn generic(f: Fbas) -> bool { forall|i: int| 0 <= i < f.nodes@.len() ==> #[trigger] f.nodes@[i].public_key == generic_name(i as usize) }
pub open spec fn blank(q: QuorumSet) -> bool { q.threshold == 0 && q.validators@.len() == 0 && q.inner_quorum_sets@.len() == 0 }
/// two quorum sets that hold nothing are equal
pub broadcast axiom fn ax_blank(a: QuorumSet, b: QuorumSet)
    ensures #[trigger] blank(a) && #[trigger] blank(b) ==> a == b;
/// two FBASs are equal when they have the same nodes in the same order
impl vstd::std_specs::cmp::PartialEqSpecImpl for Fbas { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.nodes@ == o.nodes@ } }
// ------------------------------------------------------------------ order and hash follow equality
pub use core::cmp::Ordering;
pub trait Hasher {}
/// derived `Ord` on lists of nodes: equal exactly for equal lists
pub trait VCmp { fn v_cmp(&self, o: &Self) -> (r: Ordering); }
impl<T> VCmp for Vec<T> {
    #[verifier::external_body]
    fn v_cmp(&self, o: &Self) -> (r: Ordering)
        ensures (r == Ordering::Equal) == (self@ == o@)
    { unimplemented!() }
}
/// derived `Hash`: what a hasher knows afterwards depends on what it knew before and on the list
pub uninterp spec fn hashed<H, T>(h: H, s: Seq<T>) -> H;
pub trait VHash<H> { fn v_hash(&self, state: &mut H); }
impl<T, H: Hasher> VHash<H> for Vec<T> {
    #[verifier::external_body]
    fn v_hash(&self, state: &mut H)
        ensures *final(state) == hashed(*old(state), self@)
    { unimplemented!() }
}
