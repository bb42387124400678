// ------------------------------------------------------------------ graphs as AS-relationship text
pub type Edge = (usize, usize, bool);
/// nothing to read in this line
pub open spec fn no_edge(l: Seq<char>) -> bool { l.len() == 0 || l[0] == '#' }
pub open spec fn edge_line(l: Seq<char>, e: Edge) -> bool {
    let f = fields_of(l, '|');
    &&& f.len() >= 3
    &&& usize_of(f[0]) == Some(e.0) && usize_of(f[1]) == Some(e.1)
    &&& i32_of(f[2]) == Some(if e.2 { 0i32 } else { -1i32 })
}
pub open spec fn good_line(l: Seq<char>) -> bool { no_edge(l) || exists|e: Edge| #[trigger] edge_line(l, e) && e.0 < max_len() && e.1 < max_len() }
pub open spec fn read_as(l: Seq<char>, o: Option<Edge>) -> bool { match o { None => no_edge(l), Some(e) => !no_edge(l) && edge_line(l, e) } }
/// a line of the text states a link between `a` and `b` (`p`: between peers, otherwise from `b` to `a`)
pub open spec fn states_in(d: Seq<Seq<char>>, a: usize, b: usize, p: bool) -> bool { exists|k: int| 0 <= k < d.len() && read_as(#[trigger] d[k], Some((a, b, p))) }
pub open spec fn states(t: Seq<char>, a: usize, b: usize, p: bool) -> bool { states_in(lines_of(t), a, b, p) }
pub open spec fn good_lines(d: Seq<Seq<char>>) -> bool { forall|k: int| 0 <= k < d.len() ==> good_line(#[trigger] d[k]) }
pub open spec fn good_text(t: Seq<char>) -> bool { good_lines(lines_of(t)) }
/// the links stated by the edges
pub open spec fn told(e: Seq<Edge>, i: usize, j: usize) -> bool { exists|k: int| 0 <= k < e.len() && ((#[trigger] e[k].0 == j && e[k].1 == i) || (e[k].2 && e[k].0 == i && e[k].1 == j)) }
pub open spec fn says(t: Seq<char>, i: usize, j: usize) -> bool { states(t, j, i, true) || states(t, j, i, false) || states(t, i, j, true) }
/// how many nodes the edges speak of
pub open spec fn top(e: Seq<Edge>) -> int
    decreases e.len(),
{ if e.len() == 0 { 0 } else { let l = e.last(); let m = if l.0 >= l.1 { l.0 + 1 } else { l.1 + 1 }; if top(e.drop_last()) >= m { top(e.drop_last()) } else { m } } }
pub open spec fn read_all(d: Seq<Seq<char>>, o: Seq<Option<Edge>>) -> bool { o.len() == d.len() && forall|k: int| 0 <= k < d.len() ==> read_as(#[trigger] d[k], o[k]) }
pub open spec fn small(e: Seq<Edge>) -> bool { forall|k: int| 0 <= k < e.len() ==> #[trigger] e[k].0 < max_len() && e[k].1 < max_len() }
pub open spec fn stated(e: Seq<Edge>, a: usize, b: usize, p: bool) -> bool { e.contains((a, b, p)) }
pub broadcast proof fn lem_read_all(d: Seq<Seq<char>>, o: Seq<Option<Edge>>)
    requires #[trigger] read_all(d, o)
    ensures forall|a: usize, b: usize, p: bool| #[trigger] states_in(d, a, b, p) <==> stated(somes(o), a, b, p)
    decreases d.len()
{
    if d.len() > 0 {
        let (x, y) = (d.drop_last(), o.drop_last());
        assert(read_all(x, y)) by { assert forall|k: int| 0 <= k < x.len() implies read_as(#[trigger] x[k], y[k]) by { assert(read_as(d[k], o[k])); } }
        lem_read_all(x, y);
        let n = d.len() - 1;
        assert(read_as(d[n], o[n]));
        assert forall|a: usize, b: usize, p: bool| #[trigger] states_in(d, a, b, p) <==> stated(somes(o), a, b, p) by {
            assert(states_in(x, a, b, p) <==> stated(somes(y), a, b, p));
            if states_in(x, a, b, p) { let k = choose|k: int| 0 <= k < x.len() && read_as(#[trigger] x[k], Some((a, b, p))); assert(read_as(d[k], Some((a, b, p)))); }
            if states_in(d, a, b, p) { let k = choose|k: int| 0 <= k < d.len() && read_as(#[trigger] d[k], Some((a, b, p))); if k < n { assert(x[k] == d[k]); } }
            match o[n] { Some(e) => {
                let s = somes(y);
                assert(somes(o) == s.push(e));
                assert(s.push(e)[s.len() as int] == e);
                if s.contains((a, b, p)) { let k = choose|k: int| 0 <= k < s.len() && s[k] == (a, b, p); assert(s.push(e)[k] == (a, b, p)); }
                if s.push(e).contains((a, b, p)) && !s.contains((a, b, p)) { let k = choose|k: int| 0 <= k < s.push(e).len() && s.push(e)[k] == (a, b, p); if k < s.len() { assert(s[k] == (a, b, p)); } }
                if read_as(d[n], Some((a, b, p))) { assert(e == (a, b, p)) by { lem_one_edge(d[n], e, (a, b, p)); } }
            } None => {} }
        }
    }
}
pub proof fn lem_one_edge(l: Seq<char>, e: Edge, g: Edge)
    requires edge_line(l, e), edge_line(l, g)
    ensures e == g
{}
pub broadcast proof fn lem_small(d: Seq<Seq<char>>, o: Seq<Option<Edge>>)
    requires #[trigger] read_all(d, o), good_lines(d)
    ensures small(somes(o))
    decreases d.len()
{
    if d.len() > 0 {
        let (x, y) = (d.drop_last(), o.drop_last());
        let n = d.len() - 1;
        assert(read_all(x, y)) by { assert forall|k: int| 0 <= k < x.len() implies read_as(#[trigger] x[k], y[k]) by { assert(read_as(d[k], o[k])); } }
        assert(good_lines(x)) by { assert forall|k: int| 0 <= k < x.len() implies good_line(#[trigger] x[k]) by { assert(good_line(d[k])); } }
        lem_small(x, y);
        assert(read_as(d[n], o[n]) && good_line(d[n]));
        match o[n] { Some(e) => { let g = choose|g: Edge| #[trigger] edge_line(d[n], g) && g.0 < max_len() && g.1 < max_len(); lem_one_edge(d[n], e, g); } None => {} }
    }
}
pub proof fn lem_top(e: Seq<Edge>)
    ensures top(e) >= 0, forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k]).0 < top(e) && e[k].1 < top(e),
        top(e) > 0 ==> exists|k: int| 0 <= k < e.len() && ((#[trigger] e[k]).0 == top(e) - 1 || e[k].1 == top(e) - 1)
    decreases e.len()
{
    if e.len() > 0 {
        let d = e.drop_last();
        lem_top(d);
        assert forall|k: int| 0 <= k < e.len() implies (#[trigger] e[k]).0 < top(e) && e[k].1 < top(e) by { if k < d.len() { assert(d[k] == e[k]); } }
        if top(e) > 0 {
            if top(e) == top(d) { let k = choose|k: int| 0 <= k < d.len() && ((#[trigger] d[k]).0 == top(d) - 1 || d[k].1 == top(d) - 1); assert(e[k] == d[k]); }
            else { assert(e[e.len() - 1] == e.last()); }
        }
    }
}
pub proof fn lem_told(e: Seq<Edge>, n: int, i: usize, j: usize)
    requires 0 <= n < e.len()
    ensures told(e.take(n + 1), i, j) <==> told(e.take(n), i, j) || (e[n].0 == j && e[n].1 == i) || (e[n].2 && e[n].0 == i && e[n].1 == j)
{
    let (a, b) = (e.take(n), e.take(n + 1));
    assert(b[n] == e[n]);
    if told(a, i, j) { let k = choose|k: int| 0 <= k < a.len() && ((#[trigger] a[k].0 == j && a[k].1 == i) || (a[k].2 && a[k].0 == i && a[k].1 == j)); assert(b[k] == a[k]); }
    if told(b, i, j) { let k = choose|k: int| 0 <= k < b.len() && ((#[trigger] b[k].0 == j && b[k].1 == i) || (b[k].2 && b[k].0 == i && b[k].1 == j)); if k < n { assert(a[k] == b[k]); } }
}
pub proof fn lem_top_step(e: Seq<Edge>, n: int)
    requires 0 <= n < e.len()
    ensures top(e.take(n + 1)) == ({ let m = if e[n].0 >= e[n].1 { e[n].0 + 1 } else { e[n].1 + 1 }; if top(e.take(n)) >= m { top(e.take(n)) } else { m as int } })
{ assert(e.take(n + 1).drop_last() =~= e.take(n)); assert(e.take(n + 1).last() == e[n]); }
/// what has been read: exactly the stated links, nodes up to the last one mentioned
pub open spec fn reads(t: Seq<char>, o: Seq<Vec<NodeId>>) -> bool {
    &&& forall|i: int| 0 <= i < o.len() ==> ascends((#[trigger] o[i])@)
    &&& forall|i: usize, j: usize| i < o.len() ==> (#[trigger] linked(o, i as int, j) <==> says(t, i, j))
    &&& forall|a: usize, b: usize, p: bool| #[trigger] states(t, a, b, p) ==> a < o.len() && b < o.len()
    &&& o.len() > 0 ==> exists|a: usize, b: usize, p: bool| #[trigger] states(t, a, b, p) && (a == o.len() - 1 || b == o.len() - 1)
}
pub open spec fn collected(e: Seq<Edge>, o: Seq<BTreeSet<NodeId>>, n: int) -> bool {
    o.len() == top(e.take(n)) && forall|i: usize, j: usize| i < o.len() ==> ((#[trigger] o[i as int]@.contains(j)) <==> told(e.take(n), i, j))
}
pub open spec fn same_links(t: Seq<char>, e: Seq<Edge>) -> bool { forall|x: usize, y: usize, p: bool| #[trigger] states(t, x, y, p) <==> stated(e, x, y, p) }
pub open spec fn gathered(t: Seq<char>, b: Seq<BTreeSet<NodeId>>) -> bool { exists|e: Seq<Edge>| #[trigger] same_links(t, e) && collected(e, b, e.len() as int) }
pub broadcast proof fn lem_same_links(t: Seq<char>, o: Seq<Option<Edge>>)
    requires good_text(t)
    ensures #![trigger somes(o), lines_of(t)] read_all(lines_of(t), o) ==> same_links(t, somes(o)) && small(somes(o))
{
    if read_all(lines_of(t), o) { lem_read_all(lines_of(t), o); lem_small(lines_of(t), o); }
}
pub proof fn lem_collected(t: Seq<char>, b: Seq<BTreeSet<NodeId>>, o: Seq<Vec<NodeId>>)
    requires gathered(t, b), o.len() == b.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i]@ == in_order(b[i]@)
    ensures reads(t, o)
{
    let e = choose|e: Seq<Edge>| #[trigger] same_links(t, e) && collected(e, b, e.len() as int);
    broadcast use ax_in_order;
    assert(e.take(e.len() as int) =~= e);
    lem_top(e);
    assert forall|i: usize, j: usize| i < o.len() implies (#[trigger] linked(o, i as int, j) <==> says(t, i, j)) by {
        assert(linked(o, i as int, j) <==> b[i as int]@.contains(j));
        assert(states(t, j, i, true) <==> stated(e, j, i, true)); assert(states(t, j, i, false) <==> stated(e, j, i, false)); assert(states(t, i, j, true) <==> stated(e, i, j, true));
        if told(e, i, j) { let k = choose|k: int| 0 <= k < e.len() && ((#[trigger] e[k].0 == j && e[k].1 == i) || (e[k].2 && e[k].0 == i && e[k].1 == j)); assert(e.contains(e[k])); assert(e[k] == (e[k].0, e[k].1, e[k].2)); }
        if e.contains((j, i, true)) { let k = choose|k: int| 0 <= k < e.len() && e[k] == (j, i, true); assert(e[k].0 == j); }
        if e.contains((j, i, false)) { let k = choose|k: int| 0 <= k < e.len() && e[k] == (j, i, false); assert(e[k].0 == j); }
        if e.contains((i, j, true)) { let k = choose|k: int| 0 <= k < e.len() && e[k] == (i, j, true); assert(e[k].0 == i); }
    }
    assert forall|x: usize, y: usize, p: bool| #[trigger] states(t, x, y, p) implies x < o.len() && y < o.len() by { assert(stated(e, x, y, p)); let k = choose|k: int| 0 <= k < e.len() && e[k] == (x, y, p); assert(e[k].0 == x); }
    if o.len() > 0 { let k = choose|k: int| 0 <= k < e.len() && ((#[trigger] e[k]).0 == top(e) - 1 || e[k].1 == top(e) - 1); assert(e.contains(e[k])); assert(stated(e, e[k].0, e[k].1, e[k].2)); assert(states(t, e[k].0, e[k].1, e[k].2)); }
}
// ------------------------------------------------------------------ writing
pub open spec fn no_char(w: Seq<char>, x: char) -> bool { forall|k: int| 0 <= k < w.len() ==> #[trigger] w[k] != x }
pub proof fn lem_scan_more(a: Seq<char>, w: Seq<char>)
    requires no_char(w, '\n')
    ensures scan(a + w) == (scan(a).0, scan(a).1 + w)
    decreases w.len()
{
    if w.len() == 0 { assert(a + w =~= a); assert(scan(a).1 + w =~= scan(a).1); }
    else {
        let v = w.drop_last();
        assert((a + w).drop_last() =~= a + v);
        assert((a + w).last() == w.last() && w.last() == w[w.len() - 1]);
        assert(no_char(v, '\n')) by { assert forall|k: int| 0 <= k < v.len() implies #[trigger] v[k] != '\n' by { assert(w[k] != '\n'); } }
        lem_scan_more(a, v);
        assert((scan(a).1 + v).push(w.last()) =~= scan(a).1 + w);
    }
}
pub proof fn lem_fields_some(a: Seq<char>, x: char)
    ensures fields_of(a, x).len() > 0
    decreases a.len()
{ if a.len() > 0 { lem_fields_some(a.drop_last(), x); } }
pub proof fn lem_fields_more(a: Seq<char>, w: Seq<char>, x: char)
    requires no_char(w, x)
    ensures fields_of(a + w, x) == fields_of(a, x).drop_last().push(fields_of(a, x).last() + w)
    decreases w.len()
{
    lem_fields_some(a, x);
    let f = fields_of(a, x);
    if w.len() == 0 { assert(a + w =~= a); assert(f.last() + w =~= f.last()); assert(f.drop_last().push(f.last()) =~= f); }
    else {
        let v = w.drop_last();
        assert((a + w).drop_last() =~= a + v);
        assert((a + w).last() == w.last() && w.last() == w[w.len() - 1]);
        assert(no_char(v, x)) by { assert forall|k: int| 0 <= k < v.len() implies #[trigger] v[k] != x by { assert(w[k] != x); } }
        lem_fields_more(a, v, x);
        let g = fields_of(a + v, x);
        assert(g.drop_last() =~= f.drop_last());
        assert(g.last() == f.last() + v);
        assert((f.last() + v).push(w.last()) =~= f.last() + w);
    }
}
pub proof fn lem_fields_sep(a: Seq<char>, x: char)
    ensures fields_of(a.push(x), x) == fields_of(a, x).push(Seq::empty())
{ assert(a.push(x).drop_last() =~= a); }
pub open spec fn kind(p: bool) -> Seq<char> { if p { seq!['0'] } else { seq!['-', '1'] } }
pub open spec fn line_text(i: usize, j: usize, p: bool) -> Seq<char> { (dec(i).push('|') + dec(j)).push('|') + kind(p) }
pub proof fn lem_line_text(i: usize, j: usize, p: bool)
    ensures no_char(line_text(i, j, p), '\n'), strip_cr(line_text(i, j, p)) == line_text(i, j, p), read_as(line_text(i, j, p), Some((i, j, p)))
{
    broadcast use ax_dec;
    ax_i32();
    let (a, b) = (dec(i), dec(j));
    let l = line_text(i, j, p);
    let e = Seq::<char>::empty();
    assert forall|k: int| 0 <= k < l.len() implies #[trigger] l[k] != '\n' by { if k < a.len() { assert(l[k] == a[k]); } else if a.len() < k < a.len() + 1 + b.len() { assert(l[k] == b[k - a.len() - 1]); } }
    assert(l.last() == if p { '0' } else { '1' });
    assert(l[0] == a[0]);
    assert(plain(a[0]));
    assert(no_char(a, '|')) by { assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] != '|' by { assert(plain(a[k])); } }
    assert(no_char(b, '|')) by { assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] != '|' by { assert(plain(b[k])); } }
    assert(no_char(kind(p), '|'));
    lem_fields_more(e, a, '|');
    assert(e + a =~= a);
    assert(fields_of(e, '|') =~= seq![e]);
    assert(fields_of(a, '|') =~= seq![a]);
    lem_fields_sep(a, '|');
    lem_fields_more(a.push('|'), b, '|');
    assert(e + b =~= b);
    assert(fields_of(a.push('|') + b, '|') =~= seq![a, b]);
    lem_fields_sep(a.push('|') + b, '|');
    lem_fields_more((a.push('|') + b).push('|'), kind(p), '|');
    assert(e + kind(p) =~= kind(p));
    assert(fields_of(l, '|') =~= seq![a, b, kind(p)]);
    assert(edge_line(l, (i, j, p)));
}
pub proof fn lem_add_line(t: Seq<char>, l: Seq<char>)
    requires scan(t).1.len() == 0, no_char(l, '\n')
    ensures scan((t + l).push('\n')) == (scan(t).0.push(strip_cr(l)), Seq::<char>::empty())
{
    lem_scan_more(t, l);
    assert((t + l).push('\n').drop_last() =~= t + l);
    assert(scan(t).1 + l =~= l);
}
/// a link of the graph as the text states it
pub open spec fn tells(o: Seq<Vec<NodeId>>, a: usize, b: usize, p: bool) -> bool { a < o.len() && linked(o, a as int, b) && p == linked(o, b as int, a) && (p ==> a < b) }
pub open spec fn before(o: Seq<Vec<NodeId>>, i: int, k: int, a: usize, b: usize) -> bool { a < i || (a == i && exists|q: int| 0 <= q < k && #[trigger] o[i]@[q] == b) }
pub open spec fn written(o: Seq<Vec<NodeId>>, t: Seq<char>, i: int, k: int) -> bool {
    &&& scan(t).1.len() == 0
    &&& good_lines(scan(t).0)
    &&& forall|a: usize, b: usize, p: bool| #[trigger] states_in(scan(t).0, a, b, p) <==> tells(o, a, b, p) && before(o, i, k, a, b)
}
pub open spec fn writes(o: Seq<Vec<NodeId>>, t: Seq<char>) -> bool { good_text(t) && forall|a: usize, b: usize, p: bool| #[trigger] states(t, a, b, p) <==> tells(o, a, b, p) }
pub proof fn lem_states_push(d: Seq<Seq<char>>, l: Seq<char>, a: usize, b: usize, p: bool)
    ensures states_in(d.push(l), a, b, p) <==> states_in(d, a, b, p) || read_as(l, Some((a, b, p)))
{
    let e = d.push(l);
    assert(e[d.len() as int] == l);
    if states_in(d, a, b, p) { let k = choose|k: int| 0 <= k < d.len() && read_as(#[trigger] d[k], Some((a, b, p))); assert(e[k] == d[k]); }
    if states_in(e, a, b, p) { let k = choose|k: int| 0 <= k < e.len() && read_as(#[trigger] e[k], Some((a, b, p))); if k < d.len() { assert(e[k] == d[k]); } }
}
pub proof fn lem_head(t: Seq<char>, h: Seq<char>)
    requires t == (seq!['#', ' '] + h).push('\n'), no_char(h, '\n')
    ensures scan(t).1.len() == 0, good_lines(scan(t).0), forall|a: usize, b: usize, p: bool| !#[trigger] states_in(scan(t).0, a, b, p)
{
    let l = seq!['#', ' '] + h;
    let e = Seq::<char>::empty();
    assert forall|k: int| 0 <= k < l.len() implies #[trigger] l[k] != '\n' by { if k >= 2 { assert(l[k] == h[k - 2]); } }
    lem_add_line(e, l);
    assert((e + l).push('\n') =~= t);
    assert(strip_cr(l)[0] == '#');
}
/// nothing new is told by an entry that was there already or by the upper end of a link between peers
pub proof fn lem_entry(o: Seq<Vec<NodeId>>, t: Seq<char>, u: Seq<char>, i: usize, k: int)
    requires i < o.len(), o.len() <= max_len(), in_range(o), 0 <= k < o[i as int]@.len(), written(o, t, i as int, k), ({
        let j = o[i as int]@[k]; let p = linked(o, j as int, i);
        u == if p && i >= j { t } else { (t + line_text(i, j, p)).push('\n') } })
    ensures written(o, u, i as int, k + 1)
{
    let j = o[i as int]@[k];
    let p = linked(o, j as int, i);
    assert(o[i as int]@[k] < o.len());
    assert(linked(o, i as int, j));
    let (d, l) = (scan(t).0, line_text(i, j, p));
    if !(p && i >= j) {
        lem_line_text(i, j, p);
        lem_add_line(t, l);
        assert(good_line(l)) by { assert(edge_line(l, (i, j, p))); }
    }
    assert forall|a: usize, b: usize, q: bool| #[trigger] states_in(scan(u).0, a, b, q) <==> tells(o, a, b, q) && before(o, i as int, k + 1, a, b) by {
        assert(states_in(d, a, b, q) <==> tells(o, a, b, q) && before(o, i as int, k, a, b));
        assert(before(o, i as int, k + 1, a, b) <==> before(o, i as int, k, a, b) || (a == i && b == j)) by {
            if a == i && b == j { assert(o[i as int]@[k] == b); }
            if before(o, i as int, k, a, b) && a == i { let z = choose|z: int| 0 <= z < k && #[trigger] o[i as int]@[z] == b; assert(o[i as int]@[z] == b); }
            if before(o, i as int, k + 1, a, b) && a == i { let z = choose|z: int| 0 <= z < k + 1 && #[trigger] o[i as int]@[z] == b; if z < k { assert(o[i as int]@[z] == b); } }
        }
        if !(p && i >= j) {
            lem_states_push(d, l, a, b, q);
            if read_as(l, Some((a, b, q))) { lem_one_edge(l, (a, b, q), (i, j, p)); }
        }
    }
}
pub proof fn lem_row_done(o: Seq<Vec<NodeId>>, t: Seq<char>, i: int)
    requires 0 <= i < o.len(), o.len() <= usize::MAX, written(o, t, i, o[i]@.len() as int)
    ensures written(o, t, i + 1, 0)
{
    assert forall|a: usize, b: usize, p: bool| #[trigger] states_in(scan(t).0, a, b, p) <==> tells(o, a, b, p) && before(o, i + 1, 0, a, b) by {
        assert(states_in(scan(t).0, a, b, p) <==> tells(o, a, b, p) && before(o, i, o[i]@.len() as int, a, b));
        if a == i && linked(o, i, b) { let z = choose|z: int| 0 <= z < o[i]@.len() && o[i]@[z] == b; assert(o[i]@[z] == b); }
    }
}
/// C19: reading what was written for an undirected simple graph whose last node has a link gives the same links
pub proof fn lem_round_trip(o: Seq<Vec<NodeId>>, t: Seq<char>, r: Seq<Vec<NodeId>>)
    requires writes(o, t), reads(t, r), simple(o), o.len() <= usize::MAX, o.len() > 0 ==> o[o.len() - 1]@.len() > 0
    ensures r.len() == o.len(), forall|i: int, j: usize| 0 <= i < o.len() ==> (#[trigger] linked(r, i, j) <==> linked(o, i, j))
{
    assert forall|a: usize, b: usize| a < o.len() && #[trigger] linked(o, a as int, b) implies b < o.len() && (states(t, a, b, true) || states(t, b, a, true)) by {
        assert(linked(o, b as int, a));
        if a < b { assert(tells(o, a, b, true)); } else { assert(tells(o, b, a, true)); }
    }
    assert forall|a: usize, b: usize, p: bool| #[trigger] states(t, a, b, p) implies p && a < o.len() && b < o.len() && linked(o, a as int, b) && linked(o, b as int, a) by { assert(tells(o, a, b, p)); assert(linked(o, a as int, b)); }
    if o.len() > 0 {
        let n = (o.len() - 1) as usize;
        let b = o[n as int]@[0];
        assert(linked(o, n as int, b));
        assert(r.len() >= o.len());
    }
    if r.len() > 0 { let (a, b, p) = choose|a: usize, b: usize, p: bool| #[trigger] states(t, a, b, p) && (a == r.len() - 1 || b == r.len() - 1); assert(r.len() <= o.len()); }
    assert forall|i: int, j: usize| 0 <= i < o.len() implies (#[trigger] linked(r, i, j) <==> linked(o, i, j)) by { let a = i as usize; assert(linked(r, a as int, j) <==> says(t, a, j)); }
}
pub broadcast proof fn lem_views(s: Seq<&str>)
    ensures #![trigger views(s)] forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == views(s)[i]
{}
