// ---- results as text: which value is written
pub open spec fn lists(me: NodeIdSetVecResult, v: Vec<Vec<usize>>) -> bool { v@.len() == orig(me).len() && forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> v@[i]@ == elems(orig(me)[i]) }
pub open spec fn names_lists(f: Fbas, g: Option<&Groupings>, me: NodeIdSetVecResult, v: Vec<Vec<String>>) -> bool { v@.len() == orig(me).len() && forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> shown_all(f, g, elems(orig(me)[i]), v@[i]@) }
pub open spec fn described(me: NodeIdSetVecResult, d: (usize, usize, (usize, usize, f64), Vec<usize>)) -> bool { d.0 == orig(me).len() && d.1 == union_s(orig(me)).len() && is_min_len(orig(me), d.2.0 as int) && is_max_len(orig(me), d.2.1 as int) && is_mean(orig(me), d.2.2) && is_hist(orig(me), d.3@) }
