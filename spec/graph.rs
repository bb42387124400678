// ------------------------------------------------------------------------------------
// who-mentions-whom graph, reachability, strongly connected components
// ------------------------------------------------------------------------------------
pub mod reachability {
use vstd::prelude::*;
use super::prelude::*;
pub type Rel = spec_fn(usize, usize) -> bool;
pub open spec fn is_path(e: Rel, p: Seq<usize>) -> bool {
    p.len() > 0 && forall|i: int| 0 <= i < p.len() - 1 ==> e(#[trigger] p[i], p[i + 1])
}
/// there is a path (of any length, also 0) from `a` to `b`
#[verifier::opaque]
pub open spec fn reach(e: Rel, a: usize, b: usize) -> bool { exists|p: Seq<usize>| #[trigger] is_path(e, p) && p[0] == a && p.last() == b }
pub open spec fn mutual(e: Rel, a: usize, b: usize) -> bool { reach(e, a, b) && reach(e, b, a) }
pub proof fn lem_reach_refl(e: Rel, a: usize)
    ensures reach(e, a, a)
{ reveal(reach); let p = seq![a]; assert(is_path(e, p)); assert(p[0] == a && p.last() == a); }
pub proof fn lem_reach_trans(e: Rel, a: usize, b: usize, c: usize)
    requires reach(e, a, b), reach(e, b, c)
    ensures reach(e, a, c)
{
    reveal(reach);
    let p = choose|p: Seq<usize>| #[trigger] is_path(e, p) && p[0] == a && p.last() == b;
    let q = choose|q: Seq<usize>| #[trigger] is_path(e, q) && q[0] == b && q.last() == c;
    let r = p + q.skip(1);
    assert forall|i: int| 0 <= i < r.len() - 1 implies e(#[trigger] r[i], r[i + 1]) by {
        if i < p.len() - 1 { assert(e(p[i], p[i + 1])); }
        else { let j = i - (p.len() - 1); assert(r[i] == q[j]); assert(r[i + 1] == q[j + 1]); assert(e(q[j], q[j + 1])); }
    }
    assert(is_path(e, r));
    assert(r[0] == a);
    if q.len() > 1 { assert(r.last() == q.last()); } else { assert(r =~= p); }
}
pub proof fn lem_reach_step(e: Rel, a: usize, b: usize, c: usize)
    requires reach(e, a, b), e(b, c)
    ensures reach(e, a, c)
{
    reveal(reach);
    let q = seq![b, c];
    assert(is_path(e, q));
    assert(q[0] == b && q.last() == c);
    assert(reach(e, b, c));
    lem_reach_trans(e, a, b, c);
}
pub proof fn lem_mutual_sym_trans(e: Rel, a: usize, b: usize, c: usize)
    requires mutual(e, a, b), mutual(e, b, c)
    ensures mutual(e, a, c), mutual(e, c, a), mutual(e, a, a)
{
    lem_reach_trans(e, a, b, c); lem_reach_trans(e, c, b, a); lem_reach_refl(e, a);
}
/// two relations that agree on a set closed under the first reach the same nodes from it
pub proof fn lem_reach_agree(e: Rel, g: Rel, d: spec_fn(usize) -> bool, a: usize, b: usize)
    requires d(a), forall|x: usize, y: usize| d(x) && #[trigger] e(x, y) ==> d(y), forall|x: usize, y: usize| d(x) ==> e(x, y) == #[trigger] g(x, y)
    ensures reach(e, a, b) == reach(g, a, b), reach(e, a, b) ==> d(b)
{
    reveal(reach);
    if reach(e, a, b) {
        let p = choose|p: Seq<usize>| #[trigger] is_path(e, p) && p[0] == a && p.last() == b;
        lem_path_agree(e, g, d, p);
    }
    if reach(g, a, b) {
        let p = choose|p: Seq<usize>| #[trigger] is_path(g, p) && p[0] == a && p.last() == b;
        assert forall|x: usize, y: usize| d(x) && #[trigger] g(x, y) implies d(y) by { assert(e(x, y)); }
        lem_path_agree(g, e, d, p);
    }
}
pub proof fn lem_path_agree(e: Rel, g: Rel, d: spec_fn(usize) -> bool, p: Seq<usize>)
    requires is_path(e, p), d(p[0]), forall|x: usize, y: usize| d(x) && #[trigger] e(x, y) ==> d(y), forall|x: usize, y: usize| d(x) ==> e(x, y) == #[trigger] g(x, y)
    ensures is_path(g, p), d(p.last()), forall|i: int| 0 <= i < p.len() ==> d(#[trigger] p[i])
    decreases p.len()
{
    if p.len() > 1 {
        let q = p.drop_last();
        assert forall|i: int| 0 <= i < q.len() - 1 implies e(#[trigger] q[i], q[i + 1]) by { assert(e(p[i], p[i + 1])); }
        lem_path_agree(e, g, d, q);
        let l = p.len() - 2;
        assert(d(q[l])); assert(e(p[l], p[l + 1]));
        assert forall|i: int| 0 <= i < p.len() - 1 implies g(#[trigger] p[i], p[i + 1]) by { if i < l { assert(g(q[i], q[i + 1])); } else { assert(e(p[i], p[i+1])); } }
        assert forall|i: int| 0 <= i < p.len() implies d(#[trigger] p[i]) by { if i <= l { assert(d(q[i])); } }
    }
}
/// `ls` = the strongly connected components (of everything reachable from `starts`), each node once
#[verifier::opaque]
pub open spec fn is_sccs(e: Rel, starts: Seq<usize>, ls: Seq<Vec<usize>>) -> bool {
    &&& forall|x: usize| #[trigger] starts.contains(x) ==> exists|i: int| 0 <= i < ls.len() && #[trigger] ls[i]@.contains(x)
    &&& forall|i: int, j: int, x: usize| 0 <= i < ls.len() && 0 <= j < ls.len() && #[trigger] ls[i]@.contains(x) && #[trigger] ls[j]@.contains(x) ==> i == j
    &&& forall|i: int, x: usize| 0 <= i < ls.len() && #[trigger] ls[i]@.contains(x) ==> reached(e, starts, x)
    &&& forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i])@.len() > 0 && ls[i]@.no_duplicates()
    &&& forall|i: int, x: usize, y: usize| 0 <= i < ls.len() && ls[i]@.contains(x) ==> (#[trigger] ls[i]@.contains(y) <==> #[trigger] mutual(e, x, y))
}
#[verifier::opaque]
pub open spec fn reached(e: Rel, starts: Seq<usize>, x: usize) -> bool { exists|k: int| 0 <= k < starts.len() && reach(e, #[trigger] starts[k], x) }
pub open spec fn succ_rel<F>(f: F) -> Rel { |x: usize, y: usize| fout::<F, &usize, Vec<usize>>(f, &x)@.contains(y) }
/// trigger only: names a bound below which all nodes lie
pub open spec fn bnd(n: int) -> bool { true }
/// pathfinding::directed::strongly_connected_components::strongly_connected_components
#[verifier::external_body]
pub fn strongly_connected_components<F: Fn(&usize) -> Vec<usize>>(starts: &Vec<usize>, successors: F) -> (r: Vec<Vec<usize>>)
    requires exists|n: int| #[trigger] bnd(n)
        && (forall|x: usize| #[trigger] starts@.contains(x) ==> x < n)
        && (forall|x: usize| x < n ==> #[trigger] successors.requires((&x,)))
        && (forall|x: usize, v: Vec<usize>, y: usize| x < n && #[trigger] successors.ensures((&x,), v) && #[trigger] v@.contains(y) ==> y < n)
    ensures is_sccs(succ_rel(successors), starts@, r@),
        forall|x: usize| successors.requires((&x,)) ==> successors.ensures((&x,), #[trigger] fout::<F, &usize, Vec<usize>>(successors, &x))
{ unimplemented!() }
} // mod reachability
pub use reachability::*;
