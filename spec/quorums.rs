// ---- enumeration of minimal quorums
/// `u` lists, without repetition, exactly the nodes of `avail` that are not in `sel`
pub open spec fn search_state(f: Fbas, u: Seq<usize>, sel: Set<usize>, avail: Set<usize>) -> bool {
    &&& u.no_duplicates()
    &&& sel.subset_of(avail)
    &&& inr(f, avail)
    &&& forall|x: usize| #[trigger] u.contains(x) <==> avail.contains(x) && !sel.contains(x)
}
/// minimal quorums between `sel` and `avail`
pub open spec fn minq_in(f: Fbas, sel: Set<usize>, avail: Set<usize>, s: Set<usize>) -> bool { min_q(f, s) && sel.subset_of(s) && s.subset_of(avail) }
/// `r` = `o` extended by exactly the sets with `p`, each once
pub open spec fn extended(o: Seq<BitSet>, r: Seq<BitSet>, p: spec_fn(Set<usize>) -> bool) -> bool {
    &&& o.len() <= r.len() && r.take(o.len() as int) == o
    &&& distinct(r.skip(o.len() as int))
    &&& forall|s: Set<usize>| #[trigger] has(r.skip(o.len() as int), s) <==> p(s)
}
pub open spec fn mqs(f: Fbas, sel: Set<usize>, avail: Set<usize>) -> spec_fn(Set<usize>) -> bool { |s: Set<usize>| minq_in(f, sel, avail, s) }
pub proof fn lem_extended_push(o: Seq<BitSet>, x: BitSet, p: spec_fn(Set<usize>) -> bool)
    requires forall|s: Set<usize>| #[trigger] p(s) <==> s == x@
    ensures extended(o, o.push(x), p)
{
    let r = o.push(x);
    assert(r.take(o.len() as int) =~= o);
    assert(r.skip(o.len() as int) =~= seq![x]);
    assert(seq![x][0]@ == x@);
    assert(has(seq![x], x@));
}
pub proof fn lem_extended_none(o: Seq<BitSet>, p: spec_fn(Set<usize>) -> bool)
    requires forall|s: Set<usize>| !#[trigger] p(s)
    ensures extended(o, o, p)
{
    assert(o.take(o.len() as int) =~= o);
    assert(o.skip(o.len() as int) =~= Seq::empty());
}
/// two extensions in a row whose predicates exclude each other
pub proof fn lem_extended_trans(o: Seq<BitSet>, a: Seq<BitSet>, r: Seq<BitSet>, p: spec_fn(Set<usize>) -> bool, q: spec_fn(Set<usize>) -> bool, t: spec_fn(Set<usize>) -> bool)
    requires extended(o, a, p), extended(a, r, q), forall|s: Set<usize>| !(#[trigger] p(s) && #[trigger] q(s)), forall|s: Set<usize>| #[trigger] t(s) <==> p(s) || q(s)
    ensures extended(o, r, t)
{
    let n = o.len() as int;
    let (x, y, z) = (a.skip(n), r.skip(a.len() as int), r.skip(n));
    assert(r.take(n) =~= r.take(a.len() as int).take(n));
    assert(z =~= x + y) by {
        assert forall|i: int| 0 <= i < z.len() implies z[i] == (x + y)[i] by { if i < x.len() { assert(r.take(a.len() as int)[i + n] == a[i + n]); } }
    }
    assert forall|s: Set<usize>| #[trigger] has(z, s) <==> t(s) by {
        if has(z, s) {
            let i = choose|i: int| 0 <= i < z.len() && z[i]@ == s;
            if i < x.len() { assert(x[i]@ == s); assert(has(x, s)); } else { assert(y[i - x.len()]@ == s); assert(has(y, s)); }
        }
        if t(s) {
            if p(s) { assert(has(x, s)); let i = choose|i: int| 0 <= i < x.len() && x[i]@ == s; assert(z[i]@ == s); }
            else { assert(has(y, s)); let i = choose|i: int| 0 <= i < y.len() && y[i]@ == s; assert(z[x.len() + i]@ == s); }
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < z.len() implies #[trigger] z[i]@ != #[trigger] z[j]@ by {
        if j < x.len() { assert(x[i]@ != x[j]@); }
        else if i >= x.len() { assert(y[i - x.len()]@ != y[j - x.len()]@); }
        else { assert(has(x, x[i]@)); assert(has(y, y[j - x.len()]@)); assert(p(x[i]@)); assert(q(y[j - x.len()]@)); }
    }
}
/// a quorum is minimal exactly when removing any one member leaves no quorum
pub broadcast proof fn lem_minimal_by_one(f: Fbas, q: Set<usize>)
    requires is_q(f, q)
    ensures #[trigger] min_q(f, q) <==> forall|x: usize| #[trigger] q.contains(x) ==> !has_q(f, q.remove(x))
{
    if min_q(f, q) {
        assert forall|x: usize| #[trigger] q.contains(x) implies !has_q(f, q.remove(x)) by {
            if has_q(f, q.remove(x)) {
                let p = choose|p: Set<usize>| #[trigger] p.subset_of(q.remove(x)) && is_q(f, p);
                assert(p.subset_of(q));
                assert(!p.contains(x));
            }
        }
    }
    if forall|x: usize| #[trigger] q.contains(x) ==> !has_q(f, q.remove(x)) {
        assert forall|p: Set<usize>| #[trigger] p.subset_of(q) && is_q(f, p) implies p == q by {
            if p != q {
                assert(exists|x: usize| q.contains(x) && !p.contains(x)) by { if forall|x: usize| q.contains(x) ==> p.contains(x) { assert(p =~= q); } }
                let x = choose|x: usize| q.contains(x) && !p.contains(x);
                assert(p.subset_of(q.remove(x)));
            }
        }
    }
}
pub open spec fn sel_sat(f: Fbas, sel: Set<usize>, avail: Set<usize>) -> bool { forall|x: usize| #[trigger] sel.contains(x) ==> fsat(f, x, avail) }
pub broadcast proof fn lem_state_pick(f: Fbas, u: Seq<usize>, sel: Set<usize>, avail: Set<usize>)
    requires search_state(f, u, sel, avail), u.len() > 0
    ensures
        #![trigger search_state(f, u, sel, avail), u.skip(1)]
        search_state(f, u.skip(1), sel.insert(u[0]), avail), search_state(f, u.skip(1), sel, avail.remove(u[0])),
        !sel.contains(u[0]), avail.contains(u[0]),
        sel.insert(u[0]).remove(u[0]) == sel, avail.remove(u[0]).insert(u[0]) == avail, seq![u[0]] + u.skip(1) == u,
{
    let (c, v) = (u[0], u.skip(1));
    assert(u.contains(c));
    assert(sel.insert(c).remove(c) =~= sel);
    assert(avail.remove(c).insert(c) =~= avail);
    assert(seq![c] + v =~= u);
    assert forall|x: usize| #[trigger] v.contains(x) <==> u.contains(x) && x != c by {
        if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(u[i + 1] == x); }
        if u.contains(x) && x != c { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; assert(v[i - 1] == x); }
    }
}
pub broadcast proof fn lem_mq_leaf(f: Fbas, o: Seq<BitSet>, r: Seq<BitSet>, sel: Set<usize>, avail: Set<usize>)
    requires is_q(f, sel), sel.subset_of(avail),
        min_q(f, sel) ==> r == o.push(r.last()) && r.last()@ == sel,
        !min_q(f, sel) ==> r == o
    ensures #[trigger] extended(o, r, mqs(f, sel, avail))
{
    let p = mqs(f, sel, avail);
    assert forall|s: Set<usize>| #[trigger] p(s) implies s == sel && min_q(f, sel) by { assert(sel.subset_of(s)); }
    if min_q(f, sel) { lem_extended_push(o, r.last(), p); } else { lem_extended_none(o, p); }
}
pub broadcast proof fn lem_mq_end(f: Fbas, u: Seq<usize>, o: Seq<BitSet>, sel: Set<usize>, avail: Set<usize>)
    requires #[trigger] search_state(f, u, sel, avail), u.len() == 0, !is_q(f, sel)
    ensures #[trigger] extended(o, o, mqs(f, sel, avail))
{
    let p = mqs(f, sel, avail);
    assert forall|x: usize| avail.contains(x) implies sel.contains(x) by { assert(!u.contains(x)); }
    assert forall|s: Set<usize>| !#[trigger] p(s) by { if p(s) { assert(s =~= sel); } }
    lem_extended_none(o, p);
}
pub broadcast proof fn lem_mq_step(f: Fbas, o: Seq<BitSet>, a: Seq<BitSet>, r: Seq<BitSet>, sel: Set<usize>, avail: Set<usize>, c: usize)
    requires #[trigger] extended(o, a, mqs(f, sel.insert(c), avail)), #[trigger] extended(a, r, mqs(f, sel, avail.remove(c))), !sel.contains(c), avail.contains(c)
    ensures extended(o, r, mqs(f, sel, avail))
{
    let (p, q, t) = (mqs(f, sel.insert(c), avail), mqs(f, sel, avail.remove(c)), mqs(f, sel, avail));
    assert forall|s: Set<usize>| !(#[trigger] p(s) && #[trigger] q(s)) by { if p(s) && q(s) { assert(s.contains(c)); } }
    assert forall|s: Set<usize>| #[trigger] t(s) <==> p(s) || q(s) by {
        if t(s) { if s.contains(c) { assert(sel.insert(c).subset_of(s)); } else { assert(s.subset_of(avail.remove(c))); } }
        if p(s) { assert(sel.subset_of(s)); }
    }
    lem_extended_trans(o, a, r, p, q, t);
}
pub broadcast proof fn lem_mq_skip(f: Fbas, o: Seq<BitSet>, a: Seq<BitSet>, sel: Set<usize>, avail: Set<usize>, c: usize)
    requires #[trigger] extended(o, a, mqs(f, sel.insert(c), avail)), !#[trigger] sel_sat(f, sel, avail.remove(c)), !sel.contains(c), avail.contains(c)
    ensures extended(o, a, mqs(f, sel, avail))
{
    let q = mqs(f, sel, avail.remove(c));
    assert forall|s: Set<usize>| !#[trigger] q(s) by {
        if q(s) {
            let x = choose|x: usize| #[trigger] sel.contains(x) && !fsat(f, x, avail.remove(c));
            assert(s.contains(x));
            lem_mono(f.nodes@[x as int].quorum_set, s, avail.remove(c));
        }
    }
    lem_extended_none(a, q);
    lem_mq_step(f, o, a, a, sel, avail, c);
}
pub broadcast group mq_lemmas { lem_state_pick, lem_mq_leaf, lem_mq_end, lem_mq_step, lem_mq_skip }
// ---- search for two disjoint quorums
/// `a` is a quorum and there is a quorum in the rest of `w`
pub open spec fn splits(f: Fbas, w: Set<usize>, a: Set<usize>) -> bool { is_q(f, a) && a.subset_of(w) && has_q(f, w.difference(a)) }
/// no quorum between `sel` and `avail` with at most `k` members outside `sel` leaves another one in the rest of `w`
pub open spec fn none_splits(f: Fbas, w: Set<usize>, sel: Set<usize>, avail: Set<usize>, k: int) -> bool {
    forall|a: Set<usize>| #[trigger] splits(f, w, a) && sel.subset_of(a) && a.subset_of(avail) ==> a.difference(sel).len() > k
}
/// `anti` = `w` without `sel`
pub open spec fn anti_state(w: Set<usize>, sel: Set<usize>, avail: Set<usize>, anti: Set<usize>) -> bool { w == sel.union(anti) && sel.disjoint(anti) && avail.subset_of(w) }
pub open spec fn found_pair(f: Fbas, w: Set<usize>, a: Set<usize>, b: Set<usize>) -> bool { is_q(f, a) && is_q(f, b) && a.disjoint(b) && a.subset_of(w) && b.subset_of(w) }
pub broadcast proof fn lem_anti_pick(w: Set<usize>, sel: Set<usize>, avail: Set<usize>, anti: Set<usize>, c: usize)
    requires #[trigger] anti_state(w, sel, avail, anti), avail.contains(c), !sel.contains(c)
    ensures
        anti_state(w, #[trigger] sel.insert(c), avail, anti.remove(c)), anti_state(w, sel, avail.remove(c), anti), anti.contains(c), anti.remove(c).insert(c) == anti, sel.insert(c).disjoint(anti.remove(c)),
        sel.insert(c).union(anti.remove(c)) == w
{
    assert(sel.insert(c).union(anti.remove(c)) =~= w);
    assert(anti.remove(c).insert(c) =~= anti);
}
pub broadcast proof fn lem_ns_leaf(f: Fbas, w: Set<usize>, sel: Set<usize>, avail: Set<usize>, anti: Set<usize>, k: int, g: Set<usize>)
    requires #[trigger] anti_state(w, sel, avail, anti), is_q(f, sel), #[trigger] is_greatest(f, anti, g), g == Set::<usize>::empty()
    ensures #[trigger] none_splits(f, w, sel, avail, k)
{
    assert forall|a: Set<usize>| #[trigger] splits(f, w, a) && sel.subset_of(a) && a.subset_of(avail) implies a.difference(sel).len() > k by {
        let b = choose|b: Set<usize>| #[trigger] b.subset_of(w.difference(a)) && is_q(f, b);
        assert(b.subset_of(anti));
        assert(b.subset_of(g));
        assert(b =~= g);
    }
}
pub broadcast proof fn lem_ns_pair(f: Fbas, w: Set<usize>, sel: Set<usize>, avail: Set<usize>, anti: Set<usize>, g: Set<usize>)
    requires #[trigger] anti_state(w, sel, avail, anti), is_q(f, sel), #[trigger] is_greatest(f, anti, g), g != Set::<usize>::empty()
    ensures found_pair(f, w, sel, g)
{}
pub broadcast proof fn lem_ns_zero(f: Fbas, w: Set<usize>, sel: Set<usize>, avail: Set<usize>)
    requires !is_q(f, sel)
    ensures #[trigger] none_splits(f, w, sel, avail, 0)
{
    assert forall|a: Set<usize>| #[trigger] splits(f, w, a) && sel.subset_of(a) && a.subset_of(avail) implies a.difference(sel).len() > 0 by {
        if a.difference(sel).len() == 0 { assert(a.difference(sel) =~= Set::empty()); assert forall|x: usize| a.contains(x) implies sel.contains(x) by { assert(!a.difference(sel).contains(x)); } assert(a =~= sel); }
    }
}
pub broadcast proof fn lem_ns_end(f: Fbas, w: Set<usize>, u: Seq<usize>, sel: Set<usize>, avail: Set<usize>, k: int)
    requires !is_q(f, sel), #[trigger] search_state(f, u, sel, avail), u.len() == 0
    ensures #[trigger] none_splits(f, w, sel, avail, k)
{
    assert forall|x: usize| avail.contains(x) implies sel.contains(x) by { assert(!u.contains(x)); }
    assert forall|a: Set<usize>| #[trigger] splits(f, w, a) && sel.subset_of(a) && a.subset_of(avail) implies a.difference(sel).len() > k by { assert(a =~= sel); }
}
pub broadcast proof fn lem_ns_step(f: Fbas, w: Set<usize>, sel: Set<usize>, avail: Set<usize>, k: int, c: usize)
    requires #[trigger] none_splits(f, w, sel.insert(c), avail, k - 1), !sel.contains(c), avail.contains(c),
        none_splits(f, w, sel, avail.remove(c), k) || !sel_sat(f, sel, avail.remove(c))
    ensures #[trigger] none_splits(f, w, sel, avail, k)
{
    assert forall|a: Set<usize>| #[trigger] splits(f, w, a) && sel.subset_of(a) && a.subset_of(avail) implies a.difference(sel).len() > k by {
        if a.contains(c) {
            assert(sel.insert(c).subset_of(a));
            assert(a.difference(sel) =~= a.difference(sel.insert(c)).insert(c));
            assert(a.difference(sel.insert(c)).len() > k - 1);
        } else {
            assert(a.subset_of(avail.remove(c)));
            if !sel_sat(f, sel, avail.remove(c)) {
                let x = choose|x: usize| #[trigger] sel.contains(x) && !fsat(f, x, avail.remove(c));
                assert(a.contains(x));
                lem_mono(f.nodes@[x as int].quorum_set, a, avail.remove(c));
            }
        }
    }
}
pub broadcast group ns_lemmas { lem_state_pick, lem_anti_pick, lem_ns_leaf, lem_ns_pair, lem_ns_zero, lem_ns_end, lem_ns_step }
