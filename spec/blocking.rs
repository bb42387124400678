// ---- blocking sets
pub open spec fn blocks(f: Fbas, w: Set<usize>, s: Set<usize>) -> bool { !has_q(f, w.difference(s)) }
/// `s` blocks every quorum inside `w`, and no proper subset does
pub open spec fn min_bl(f: Fbas, w: Set<usize>, s: Set<usize>) -> bool {
    s.subset_of(w) && blocks(f, w, s) && forall|t: Set<usize>| #[trigger] t.subset_of(s) && blocks(f, w, t) ==> t == s
}
pub open spec fn mbs(f: Fbas, w: Set<usize>, sel: Set<usize>, u: Seq<usize>) -> spec_fn(Set<usize>) -> bool {
    |s: Set<usize>| min_bl(f, w, s) && sel.subset_of(s) && forall|x: usize| #[trigger] s.contains(x) ==> sel.contains(x) || u.contains(x)
}
/// `u` lists what is left to decide of `w`; `rem` = `w` without `sel`; `maxrem` = `rem` without `u`
pub open spec fn bl_state(f: Fbas, w: Set<usize>, u: Seq<usize>, sel: Set<usize>, rem: Set<usize>, maxrem: Set<usize>) -> bool {
    &&& u.no_duplicates() && inr(f, w)
    &&& w == sel.union(rem) && sel.disjoint(rem)
    &&& forall|x: usize| #[trigger] u.contains(x) ==> rem.contains(x)
    &&& forall|x: usize| #[trigger] maxrem.contains(x) <==> rem.contains(x) && !u.contains(x)
}
pub proof fn lem_blocks_mono(f: Fbas, w: Set<usize>, s: Set<usize>, t: Set<usize>)
    requires s.subset_of(t), blocks(f, w, s)
    ensures blocks(f, w, t)
{
    if has_q(f, w.difference(t)) {
        let q = choose|q: Set<usize>| #[trigger] q.subset_of(w.difference(t)) && is_q(f, q);
        assert(q.subset_of(w.difference(s)));
    }
}
pub broadcast proof fn lem_bl_pick(f: Fbas, w: Set<usize>, u: Seq<usize>, sel: Set<usize>, rem: Set<usize>, maxrem: Set<usize>)
    requires #[trigger] bl_state(f, w, u, sel, rem, maxrem), u.len() > 0
    ensures
        bl_state(f, w, u.skip(1), sel.insert(u[0]), rem.remove(u[0]), maxrem),
        bl_state(f, w, u.skip(1), sel, rem, maxrem.insert(u[0])),
        !sel.contains(u[0]), rem.contains(u[0]), !maxrem.contains(u[0]),
        sel.insert(u[0]).remove(u[0]) == sel, rem.remove(u[0]).insert(u[0]) == rem, maxrem.insert(u[0]).remove(u[0]) == maxrem,
        seq![u[0]] + u.skip(1) == u, u.skip(1) == u.subrange(1, u.len() as int),
        sel.insert(u[0]).union(rem.remove(u[0])) == sel.union(rem),
{
    let (c, v) = (u[0], u.skip(1));
    assert(u.contains(c));
    assert(sel.insert(c).remove(c) =~= sel);
    assert(rem.remove(c).insert(c) =~= rem);
    assert(maxrem.insert(c).remove(c) =~= maxrem);
    assert(seq![c] + v =~= u);
    assert(sel.insert(c).union(rem.remove(c)) =~= sel.union(rem));
    assert forall|x: usize| #[trigger] v.contains(x) <==> u.contains(x) && x != c by {
        if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(u[i + 1] == x); }
        if u.contains(x) && x != c { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; assert(v[i - 1] == x); }
    }
}
pub broadcast proof fn lem_bl_rem(f: Fbas, w: Set<usize>, u: Seq<usize>, sel: Set<usize>, rem: Set<usize>, maxrem: Set<usize>)
    requires #[trigger] bl_state(f, w, u, sel, rem, maxrem)
    ensures w.difference(sel) == rem, inr(f, rem), inr(f, maxrem), inr(f, sel)
{
    assert(w.difference(sel) =~= rem);
    assert forall|x: usize| rem.contains(x) || sel.contains(x) implies w.contains(x) by {}
}
/// a blocking set is minimal exactly when putting any one member back lets a quorum live
pub broadcast proof fn lem_bl_by_one(f: Fbas, sel: Set<usize>, rem: Set<usize>)
    requires sel.disjoint(rem), !has_q(f, rem)
    ensures #[trigger] min_bl(f, sel.union(rem), sel) <==> forall|x: usize| #[trigger] sel.contains(x) ==> has_q(f, rem.insert(x))
{
    let w = sel.union(rem);
    assert(w.difference(sel) =~= rem);
    if min_bl(f, w, sel) {
        assert forall|x: usize| #[trigger] sel.contains(x) implies has_q(f, rem.insert(x)) by {
            let t = sel.remove(x);
            assert(w.difference(t) =~= rem.insert(x));
            assert(t.subset_of(sel));
            assert(!t.contains(x));
        }
    }
    if forall|x: usize| #[trigger] sel.contains(x) ==> has_q(f, rem.insert(x)) {
        assert forall|t: Set<usize>| #[trigger] t.subset_of(sel) && blocks(f, w, t) implies t == sel by {
            if t != sel {
                assert(exists|x: usize| sel.contains(x) && !t.contains(x)) by { if forall|x: usize| sel.contains(x) ==> t.contains(x) { assert(t =~= sel); } }
                let x = choose|x: usize| sel.contains(x) && !t.contains(x);
                assert(t.subset_of(sel.remove(x)));
                lem_blocks_mono(f, w, t, sel.remove(x));
                assert(w.difference(sel.remove(x)) =~= rem.insert(x));
            }
        }
    }
}
pub broadcast proof fn lem_bl_leaf(f: Fbas, o: Seq<BitSet>, r: Seq<BitSet>, w: Set<usize>, sel: Set<usize>, u: Seq<usize>)
    requires blocks(f, w, sel),
        min_bl(f, w, sel) ==> r == o.push(r.last()) && r.last()@ == sel,
        !min_bl(f, w, sel) ==> r == o
    ensures #[trigger] extended(o, r, mbs(f, w, sel, u))
{
    let p = mbs(f, w, sel, u);
    assert forall|s: Set<usize>| #[trigger] p(s) implies s == sel && min_bl(f, w, sel) by { assert(sel.subset_of(s)); }
    if min_bl(f, w, sel) { lem_extended_push(o, r.last(), p); } else { lem_extended_none(o, p); }
}
pub broadcast proof fn lem_bl_end(f: Fbas, o: Seq<BitSet>, w: Set<usize>, sel: Set<usize>, u: Seq<usize>)
    requires !blocks(f, w, sel), u.len() == 0
    ensures #[trigger] extended(o, o, mbs(f, w, sel, u))
{
    let p = mbs(f, w, sel, u);
    assert forall|s: Set<usize>| !#[trigger] p(s) by { if p(s) { assert(s =~= sel); } }
    lem_extended_none(o, p);
}
pub broadcast proof fn lem_bl_step(f: Fbas, o: Seq<BitSet>, a: Seq<BitSet>, r: Seq<BitSet>, w: Set<usize>, sel: Set<usize>, u: Seq<usize>)
    requires u.len() > 0, u.no_duplicates(), !sel.contains(u[0]),
        #[trigger] extended(o, a, mbs(f, w, sel.insert(u[0]), u.skip(1))), #[trigger] extended(a, r, mbs(f, w, sel, u.skip(1)))
    ensures extended(o, r, mbs(f, w, sel, u))
{
    let (c, v) = (u[0], u.skip(1));
    let (p, q, t) = (mbs(f, w, sel.insert(c), v), mbs(f, w, sel, v), mbs(f, w, sel, u));
    assert forall|x: usize| #[trigger] v.contains(x) <==> u.contains(x) && x != c by {
        if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(u[i + 1] == x); }
        if u.contains(x) && x != c { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; assert(v[i - 1] == x); }
    }
    assert(u.contains(c));
    assert forall|s: Set<usize>| !(#[trigger] p(s) && #[trigger] q(s)) by { if p(s) && q(s) { assert(s.contains(c)); } }
    assert forall|s: Set<usize>| #[trigger] t(s) <==> p(s) || q(s) by {
        if t(s) { if s.contains(c) { assert(sel.insert(c).subset_of(s)); assert(p(s)); } else { assert(q(s)); } }
        if p(s) { assert(sel.subset_of(s)); }
    }
    lem_extended_trans(o, a, r, p, q, t);
}
pub broadcast proof fn lem_bl_skip(f: Fbas, o: Seq<BitSet>, a: Seq<BitSet>, w: Set<usize>, sel: Set<usize>, u: Seq<usize>, rem: Set<usize>, maxrem: Set<usize>)
    requires #[trigger] bl_state(f, w, u.skip(1), sel, rem, maxrem), has_q(f, maxrem),
        u.len() > 0, u.no_duplicates(), !sel.contains(u[0]),
        #[trigger] extended(o, a, mbs(f, w, sel.insert(u[0]), u.skip(1)))
    ensures extended(o, a, mbs(f, w, sel, u))
{
    let q = mbs(f, w, sel, u.skip(1));
    assert forall|s: Set<usize>| !#[trigger] q(s) by {
        if q(s) {
            let y = choose|y: Set<usize>| #[trigger] y.subset_of(maxrem) && is_q(f, y);
            assert(y.subset_of(w.difference(s))) by {
                assert forall|x: usize| y.contains(x) implies w.difference(s).contains(x) by { assert(maxrem.contains(x)); assert(rem.contains(x)); assert(w.contains(x)); }
            }
        }
    }
    lem_extended_none(a, q);
    lem_bl_step(f, o, a, a, w, sel, u);
}
pub broadcast group bl_lemmas { lem_bl_pick, lem_bl_rem, lem_bl_leaf, lem_bl_end, lem_bl_step, lem_bl_skip }
