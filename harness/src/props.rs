use crate::gen::{self, Rng};
use crate::model::*;
use crate::{Case, Info, Prop};
use bit_set::BitSet;
use fbas_analyzer::*;

/// where files go that are written and read back
pub static SCRATCH: std::sync::OnceLock<String> = std::sync::OnceLock::new();
/// runs `f` on the path of a file with the given contents
fn with_file<R>(txt: &str, f: impl FnOnce(&std::path::Path) -> R) -> R {
    static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let k = COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let p = std::path::PathBuf::from(format!("{}/vh.{}.{}.txt", SCRATCH.get().map_or("/tmp", |s| s.as_str()), std::process::id(), k));
    std::fs::write(&p, txt).unwrap();
    let r = f(&p);
    std::fs::remove_file(&p).ok();
    r
}
pub fn all() -> Vec<Prop> {
    fn none() -> Vec<Case> {
        vec![]
    }
    macro_rules! p {
        ($id:expr, $n:expr, $f:expr) => {
            Prop { id: $id, max_nodes: $n, run: $f, fixed: none }
        };
        ($id:expr, $n:expr, $f:expr, $fx:expr) => {
            Prop { id: $id, max_nodes: $n, run: $f, fixed: $fx }
        };
    }
    vec![
        p!("C01", 6, c01, small_fbas),
        p!("C02", 7, c02, small_fbas),
        p!("C03", 7, c03, small_fbas),
        p!("C04", 7, c04, small_fbas),
        p!("C05", 7, c05, small_fbas),
        p!("C06", 7, c06, small_fbas),
        p!("C07", 7, c07, small_fbas),
        p!("C08", 8, c08),
        p!("C09", 6, c09, small_fbas),
        p!("C10", 6, c10),
        p!("C11", 6, c11),
        p!("C12", 6, c12),
        p!("C13", 7, c13),
        p!("C14", 6, c14),
        p!("C15", 6, c15),
        p!("C16", 6, c16),
        p!("C17", 6, c17),
        p!("C18", 8, c18),
        p!("C19", 6, c19),
        p!("C20", 3, c20),
        p!("C21", 2, c21),
        p!("C22", 6, c22),
    ]
}

// ---------------------------------------------------------------- corpus

/// every FBAS of at most 2 nodes over a small family of quorum sets (flat, nested, odd thresholds)
fn small_fbas() -> Vec<Case> {
    let mut out = vec![];
    for n in 0..=2usize {
        let mut fam: Vec<Q> = vec![];
        for s in 0..(1u32 << n) {
            for t in 0..=3u64 {
                fam.push(Q { t, v: ids(s), i: vec![] });
            }
        }
        for t in 1..=2 {
            for a in 0..n {
                for (it, iv) in [(1u64, vec![0usize]), (0, vec![0]), (2, vec![0]), (1, vec![0, n - 1])] {
                    fam.push(Q { t, v: vec![a], i: vec![Q { t: it, v: iv, i: vec![] }] });
                }
            }
        }
        if n == 0 {
            out.push(Case { fbas: F(vec![]), seed: 1 });
        } else if n == 1 {
            for q in &fam {
                out.push(Case { fbas: F(vec![q.clone()]), seed: out.len() as u64 });
            }
        } else {
            for q in &fam {
                for p in &fam {
                    out.push(Case { fbas: F(vec![q.clone(), p.clone()]), seed: out.len() as u64 });
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- conversions

pub fn real_q(q: &Q) -> QuorumSet {
    QuorumSet { threshold: q.t as usize, validators: q.v.clone(), inner_quorum_sets: q.i.iter().map(real_q).collect() }
}
pub fn model_q(q: &QuorumSet) -> Q {
    Q { t: q.threshold as u64, v: q.validators.clone(), i: q.inner_quorum_sets.iter().map(model_q).collect() }
}
pub fn bs(m: M) -> NodeIdSet {
    ids(m).into_iter().collect()
}
pub fn mk(b: &NodeIdSet) -> M {
    for x in b.iter() {
        if x >= 32 {
            panic!("node id {} out of range in a result", x);
        }
    }
    mask(b.iter())
}
pub fn mks(v: &[NodeIdSet]) -> Vec<M> {
    v.iter().map(mk).collect()
}
pub fn show(v: &[M]) -> String {
    format!("{:?}", v.iter().map(|&m| ids(m)).collect::<Vec<_>>())
}
pub fn keys(n: usize, seed: u64) -> Vec<String> {
    // distinct, not in id order, some with shared prefixes, some that differ in case or white space only
    let mut r = Rng(seed ^ 77);
    let mut odd = ["a", "A", " a", "a ", "", "\u{e4}", "\u{c4}", "B", "b", "\t", "a\nb", "\"q\"", "0", "00", "Ab", "aB", "n1 ", "N1", "zz", "z", "\u{65e5}", "\\"];
    r.shuffle(&mut odd);
    let mut v: Vec<String> = (0..n)
        .map(|i| match seed % 5 {
            0 => format!("n{}", i),
            1 => format!("G{}{}", (b'A' + (i as u8 * 7 % 26)) as char, i),
            2 | 3 => odd.get(i).map_or(format!("odd{}", i), |x| x.to_string()),
            _ => format!("key-{}", i * 7919 % 101),
        })
        .collect();
    if seed % 5 != 0 {
        r.shuffle(&mut v);
    }
    v
}
/// keys that resemble the given one
fn near(k: &str) -> Vec<String> {
    vec![format!("{} ", k), format!(" {}", k), k.to_lowercase(), k.to_uppercase(), k.trim().to_string(), format!("{}0", k), k.chars().skip(1).collect(), format!("{}\0", k)]
}
fn q_json(q: &Q, k: &[String]) -> serde_json::Value {
    let mut o = serde_json::json!({"threshold": q.t, "validators": q.v.iter().map(|&x| k.get(x).cloned().unwrap_or(format!("missing{}", x))).collect::<Vec<_>>()});
    if !q.i.is_empty() {
        o["innerQuorumSets"] = q.i.iter().map(|x| q_json(x, k)).collect::<Vec<_>>().into();
    }
    o
}
pub fn to_json(f: &F, k: &[String]) -> String {
    let v: Vec<serde_json::Value> = f.0.iter().enumerate().map(|(i, q)| serde_json::json!({"publicKey": k[i], "quorumSet": q_json(q, k)})).collect();
    serde_json::to_string(&v).unwrap()
}
/// the real FBAS: through JSON or through the constructor
pub fn build(c: &Case) -> Fbas {
    if c.seed & 16 == 0 {
        let mut f = Fbas::new();
        for q in &c.fbas.0 {
            f.add_generic_node(real_q(q));
        }
        f
    } else {
        Fbas::from_json_str(&to_json(&c.fbas, &keys(c.fbas.n(), c.seed)))
    }
}
macro_rules! want {
    ($cond:expr, $($a:tt)*) => { if !($cond) { return Err(format!($($a)*)); } };
}
fn eq_sets(what: &str, got: &[M], exp: &[M]) -> Result<(), String> {
    want!(got == exp, "{}: got {} expected {}", what, show(got), show(exp));
    Ok(())
}
fn skip(c: &Case) -> bool {
    !c.fbas.valid()
}

// ---------------------------------------------------------------- properties

/// The FBAS of `c` among many other nodes that are in no minimal quorum: quorum sets that can never be satisfied, and
/// chains and cliques of dependants, whose end is such a node or a node of `c`. Node i of `c` is node pos[i].
struct Big {
    f: Fbas,
    q: Vec<QuorumSet>,
    pos: Vec<usize>,
}
fn large(c: &Case, r: &mut Rng) -> Big {
    let (m, n) = (&c.fbas, c.fbas.n());
    // (now and then a giant one, against limits that ordinary inputs never reach)
    let extra = if c.seed % 8192 == 3 { *r.pick(&[1100, 2100]) } else { *r.pick(&[30, 64, 70, 110, 140]) };
    let all = n + extra;
    let mut order: Vec<usize> = (0..all).collect();
    r.shuffle(&mut order);
    let mut pos: Vec<usize> = order[..n].to_vec();
    pos.sort();
    let mut fill: Vec<usize> = (0..all).filter(|x| !pos.contains(x)).collect();
    match r.below(3) {
        0 => r.shuffle(&mut fill),
        1 => fill.reverse(),
        _ => {}
    }
    let mut q = vec![QuorumSet::new(); all];
    for i in 0..n {
        q[pos[i]] = real_q(&m.0[i].map(&|x| pos[x]));
    }
    let style = r.below(4);
    let one = |v: Vec<usize>, i: Vec<QuorumSet>, t: usize| QuorumSet { threshold: t, validators: v, inner_quorum_sets: i };
    for k in 0..fill.len() {
        let (me, prev) = (fill[k], if k > 0 { Some(fill[k - 1]) } else { None });
        let base = |r: &mut Rng| if n > 0 && r.chance(1, 2) { one(vec![pos[r.below(n)]], vec![], 1) } else { one(vec![], vec![], 0) };
        q[me] = match (style, prev) {
            (_, None) => base(r),
            // one long chain
            (0, Some(p)) => one(vec![p], vec![], 1),
            (1, Some(p)) => one(vec![me], vec![one(vec![p], vec![], 1)], 2),
            // many short ones
            (2, Some(p)) => match r.below(5) {
                0 => base(r),
                1 => one(vec![me, p], vec![], 3),
                2 => one(vec![me, p], vec![], 2),
                3 if n > 0 => one(vec![p, pos[r.below(n)]], vec![], 2),
                _ => one(vec![p], vec![one(vec![me], vec![], 1)], 2),
            },
            // strongly connected, but unsatisfiable or tied to the core
            (_, Some(p)) => {
                let next = fill[(k + 1) % fill.len()];
                if n > 0 { one(vec![p, next, pos[k % n]], vec![], 3) } else { one(vec![p, next], vec![], 3) }
            }
        };
    }
    let mut f = Fbas::new();
    for x in &q {
        f.add_generic_node(x.clone());
    }
    Big { f, q, pos }
}
impl Big {
    /// a node set in the numbers of the small FBAS
    fn back(&self, s: &NodeIdSet) -> Result<M, String> {
        let mut m = 0;
        for x in s.iter() {
            match self.pos.iter().position(|&y| y == x) {
                Some(i) => m |= 1 << i,
                None => return Err(format!("large FBAS: node {} does not belong in {:?}; core is {:?} of {:?}", x, s, self.pos, self.q)),
            }
        }
        Ok(m)
    }
    fn same(&self, what: &str, got: &[NodeIdSet], exp: &[M]) -> Result<(), String> {
        let mut b = vec![];
        for s in got {
            b.push(self.back(s)?);
        }
        want!(b == exp, "large FBAS: {}: got {} expected {}; core is {:?} of {:?}", what, show(&b), show(exp), self.pos, self.q);
        Ok(())
    }
    fn to(&self, m: M) -> NodeIdSet {
        ids(m).into_iter().map(|i| self.pos[i]).collect()
    }
    fn sat(q: &QuorumSet, s: &[bool]) -> bool {
        q.threshold > 0 && q.validators.iter().filter(|&&x| s[x]).count() + q.inner_quorum_sets.iter().filter(|x| Big::sat(x, s)).count() >= q.threshold
    }
    fn greatest(&self, mut s: Vec<bool>) -> Vec<bool> {
        loop {
            let t: Vec<bool> = (0..s.len()).map(|x| s[x] && Big::sat(&self.q[x], &s)).collect();
            if t == s {
                return s;
            }
            s = t;
        }
    }
    fn reach(&self, x: usize) -> Vec<bool> {
        fn go(q: &QuorumSet, v: &mut Vec<usize>) {
            v.extend(&q.validators);
            q.inner_quorum_sets.iter().for_each(|i| go(i, v));
        }
        let mut seen = vec![false; self.q.len()];
        let mut todo = vec![x];
        while let Some(y) = todo.pop() {
            if !std::mem::replace(&mut seen[y], true) {
                go(&self.q[y], &mut todo);
            }
        }
        seen
    }
}
fn as_bits(s: &NodeIdSet, n: usize) -> Vec<bool> {
    (0..n).map(|x| s.contains(x)).collect()
}

/// C01 quorum membership
fn c01(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let (m, f) = (&c.fbas, build(c));
    want!(f.number_of_nodes() == m.n(), "number of nodes {} != {}", f.number_of_nodes(), m.n());
    want!(mk(&f.all_nodes()) == m.all(), "all_nodes {:?}", f.all_nodes());
    let mut quorums = 0;
    for s in 0..=m.all() {
        info.evals += 1;
        let e = m.is_quorum(s);
        quorums += e as usize;
        let g = f.is_quorum(&bs(s));
        want!(g == e, "is_quorum({:?}) = {} but by definition {}", ids(s), g, e);
        for q in &m.0 {
            let g = real_q(q).is_quorum_slice(&bs(s));
            want!(g == q.sat(s), "is_quorum_slice({:?}) of {:?} = {} but by definition {}", ids(s), q, g, q.sat(s));
        }
    }
    // sets with capacity beyond the ids in use and ids outside the FBAS as slice members
    let mut big = bs(m.all());
    big.insert(200);
    for q in &m.0 {
        want!(real_q(q).is_quorum_slice(&big) == q.sat(m.all()), "foreign members change is_quorum_slice of {:?}", q);
        want!(mk(&real_q(q).contained_nodes()) == q.nodes(), "contained_nodes of {:?}", q);
        let d = real_q(q).contains_duplicates();
        want!(d == (q.entries() != q.nodes().count_ones() as usize), "contains_duplicates({:?}) = {}", q, d);
    }
    if c.seed % 16 == 3 {
        let mut r = Rng(c.seed ^ 101);
        let b = large(c, &mut r);
        for _ in 0..8 {
            let t: NodeIdSet = if r.chance(1, 2) { b.to((r.next() as M) & m.all()) } else { let d = r.range(1, 8); (0..b.q.len()).filter(|_| r.chance(d, 8)).collect() };
            let v = as_bits(&t, b.q.len());
            let e = !t.is_empty() && t.iter().all(|x| Big::sat(&b.q[x], &v));
            want!(b.f.is_quorum(&t) == e, "large FBAS: is_quorum({:?}) = {} in {:?}", t, !e, b.q);
            let g: NodeIdSet = b.greatest(v).iter().enumerate().filter(|(_, &y)| y).map(|(x, _)| x).collect();
            want!(b.f.is_quorum(&g) == !g.is_empty(), "large FBAS: is_quorum({:?}) = {} in {:?}", g, g.is_empty(), b.q);
        }
        // wide quorum sets: many members, many inner sets, deep nesting
        let (w, k) = (*r.pick(&[33, 65, 130, 260]), r.range(1, 4));
        let mut q = QuorumSet::new();
        for x in 0..w {
            match r.below(3) {
                0 => q.validators.push(x),
                1 => q.inner_quorum_sets.push(QuorumSet { threshold: k, validators: (x..x + 4).collect(), inner_quorum_sets: vec![] }),
                _ => q.inner_quorum_sets.push(QuorumSet { threshold: 1, validators: vec![], inner_quorum_sets: vec![QuorumSet { threshold: 2, validators: vec![x, (x + 7) % w, x + 9], inner_quorum_sets: vec![] }] }),
            }
        }
        for _ in 0..6 {
            let d = r.range(1, 8);
            let t: NodeIdSet = (0..w + 10).filter(|_| r.chance(d, 8)).collect();
            let v = as_bits(&t, w + 10);
            let met = q.validators.iter().filter(|&&x| v[x]).count() + q.inner_quorum_sets.iter().filter(|x| Big::sat(x, &v)).count();
            for t0 in [met.saturating_sub(1), met, met + 1] {
                q.threshold = t0;
                let e = Big::sat(&q, &v);
                want!(q.is_quorum_slice(&t) == e, "is_quorum_slice({:?}) = {} for {:?}", t, !e, q);
            }
        }
    }
    info.nontrivial = quorums > 0 && quorums < m.all() as usize;
    Ok(())
}

/// C02 satisfiable nodes
fn c02(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let (m, f) = (&c.fbas, build(c));
    let g = m.greatest(m.all());
    want!(mk(&f.satisfiable_nodes()) == g, "satisfiable_nodes {:?} expected {:?}", f.satisfiable_nodes(), ids(g));
    want!(mk(&f.unsatisfiable_nodes()) == m.all() & !g, "unsatisfiable_nodes {:?}", f.unsatisfiable_nodes());
    let a = Analysis::new(&f);
    want!(mk(&a.satisfiable_nodes().unwrap()) == g, "analysis satisfiable_nodes");
    want!(mk(&a.unsatisfiable_nodes().unwrap()) == m.all() & !g, "analysis unsatisfiable_nodes");
    want!(mk(&a.all_nodes().unwrap()) == m.all(), "analysis all_nodes");
    let mut r = Rng(c.seed);
    for s in 0..=m.all() {
        if m.n() > 4 && !r.chance(1, 4) { continue; }
        info.evals += 1;
        let (sat, unsat) = preprocessing::find_satisfiable_nodes(&bs(s), &f);
        let e = m.greatest(s);
        want!(mk(&sat) == e && mk(&unsat) == s & !e, "find_satisfiable_nodes({:?}) = ({:?}, {:?}), expected satisfiable {:?}", ids(s), sat, unsat, ids(e));
    }
    if c.seed % 16 == 3 {
        let b = large(c, &mut r);
        let n = b.q.len();
        for k in 0..3 {
            let s: NodeIdSet = if k == 0 { (0..n).collect() } else { (0..n).filter(|_| r.chance(9, 10)).collect() };
            let e = b.greatest(as_bits(&s, n));
            let (sat, unsat) = preprocessing::find_satisfiable_nodes(&s, &b.f);
            want!((0..n).all(|x| sat.contains(x) == e[x] && unsat.contains(x) == (s.contains(x) && !e[x])), "large FBAS: find_satisfiable_nodes({:?}) = ({:?}, {:?}) in {:?}", s, sat, unsat, b.q);
            if k == 0 {
                want!(b.f.satisfiable_nodes() == sat && b.f.unsatisfiable_nodes() == unsat, "large FBAS: satisfiable_nodes {:?}", b.f.satisfiable_nodes());
            }
        }
    }
    info.nontrivial = g != 0 && g != m.all();
    Ok(())
}

/// C03 relevant nodes and strongly connected components
fn c03(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let (m, f) = (&c.fbas, build(c));
    let mut got = mks(&f.strongly_connected_components());
    got.sort();
    let mut exp = m.sccs(m.all());
    exp.sort();
    eq_sets("strongly connected components", &got, &exp)?;
    let rel = mk(&f.relevant_nodes());
    want!(rel == m.relevant(), "relevant_nodes {:?} expected {:?}", ids(rel), ids(m.relevant()));
    for q in m.minimal_quorums() {
        want!(q & !rel == 0, "minimal quorum {:?} not within the relevant nodes {:?}", ids(q), ids(rel));
    }
    let mut r = Rng(c.seed);
    for _ in 0..6 {
        let s = (r.next() as M) & m.all();
        info.evals += 1;
        let mut got = mks(&preprocessing::partition_into_strongly_connected_components(&bs(s), &f));
        got.retain(|&x| x != 0);
        got.sort();
        eq_sets(&format!("components of {:?}", ids(s)), &got, &m.sccs(s))?;
        let v = ids(s);
        let mut sorted = preprocessing::sort_by_rank(v.clone(), &f);
        want!(preprocessing::rank_nodes(&v, &f).len() == m.n(), "rank_nodes must have one score per node");
        sorted.sort();
        want!(sorted == v, "sort_by_rank lost or invented nodes: {:?} from {:?}", sorted, v);
    }
    if c.seed % 16 == 3 {
        let b = large(c, &mut r);
        let n = b.q.len();
        let reach: Vec<Vec<bool>> = (0..n).map(|x| b.reach(x)).collect();
        let got = b.f.strongly_connected_components();
        let mut at = vec![n; n];
        for (k, s) in got.iter().enumerate() {
            for x in s.iter() {
                want!(at[x] == n, "large FBAS: node {} is in two components of {:?}", x, b.q);
                at[x] = k;
            }
        }
        want!((0..n).all(|x| at[x] < n && (0..n).all(|y| (at[x] == at[y]) == (reach[x][y] && reach[y][x]))), "large FBAS: components {:?} of {:?}", got, b.q);
        let rel: M = m.relevant();
        want!(ids(rel).into_iter().all(|x| b.f.relevant_nodes().contains(b.pos[x])), "large FBAS: relevant nodes {:?} of {:?} lack some of {:?}", b.f.relevant_nodes(), b.q, b.to(rel));
        let sat = b.greatest(vec![true; n]);
        let e: Vec<usize> = (0..n).filter(|&x| sat[x] && b.greatest((0..n).map(|y| sat[y] && reach[x][y] && reach[y][x]).collect()).iter().any(|&y| y)).collect();
        want!(b.f.relevant_nodes().into_iter().collect::<Vec<_>>() == e, "large FBAS: relevant nodes {:?} of {:?} expected {:?}", b.f.relevant_nodes(), b.q, e);
        let mut v: Vec<usize> = (0..n).collect();
        let d = preprocessing::sort_by_rank(v.clone(), &b.f);
        let rk = preprocessing::rank_nodes(&v, &b.f);
        want!(d.windows(2).all(|w| rk[w[0]] >= rk[w[1]]), "large FBAS: sort_by_rank is not by rank");
        v.sort();
        let mut d2 = d.clone();
        d2.sort();
        want!(d2 == v, "large FBAS: sort_by_rank lost or invented nodes");
    }
    info.nontrivial = exp.len() > 1 && rel != 0;
    Ok(())
}

/// C04 minimal quorums
fn c04(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let (m, f) = (&c.fbas, build(c));
    let exp = m.minimal_quorums();
    eq_sets("find_minimal_quorums", &mks(&find_minimal_quorums(&f)), &exp)?;
    let got = mks(&Analysis::new(&f).minimal_quorums().unwrap());
    eq_sets("Analysis::minimal_quorums", &got, &exp)?;
    info.evals += 2;
    if c.seed % 16 == 3 {
        let b = large(c, &mut Rng(c.seed ^ 104));
        b.same("find_minimal_quorums", &find_minimal_quorums(&b.f), &exp)?;
        b.same("Analysis::minimal_quorums", &Analysis::new(&b.f).minimal_quorums().unwrap(), &exp)?;
    }
    info.nontrivial = exp.len() > 1;
    cluster_tags(m, info);
    Ok(())
}
fn cluster_tags(m: &F, info: &mut Info) {
    let cl = m.clusters();
    if !cl.is_empty() {
        info.tag("symmetric cluster");
        if cl.iter().any(|q| !q.i.is_empty()) {
            info.tag("nested symmetric cluster");
        }
        if cl.iter().any(|q| q.entries() != q.nodes().count_ones() as usize) {
            info.tag("symmetric cluster with repeated members");
        }
    }
    if m.has_qi() {
        info.tag("quorum intersection");
    }
    if m.quorums().is_empty() {
        info.tag("no quorum");
    }
}

/// C05 quorum intersection
fn c05(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let (m, f) = (&c.fbas, build(c));
    let exp = m.has_qi();
    let a = Analysis::new(&f);
    want!(a.has_quorum_intersection() == exp, "has_quorum_intersection = {} but by definition {}", !exp, exp);
    let q = m.quorums();
    let disjoint = q.iter().any(|x| q.iter().any(|y| x & y == 0));
    for fresh in [true, false] {
        let b = if fresh { Analysis::new(&f) } else { a_clone(&f) };
        let (alt, pair) = b.has_quorum_intersection_via_alternative_check();
        want!(alt == exp, "alternative check says {} but by definition {}", alt, exp);
        want!(pair.is_some() == disjoint, "alternative check reports quorums: {:?}, disjoint quorums exist: {}", pair, disjoint);
        if let Some(p) = pair {
            check_pair(m, &mks(&p.unwrap()))?;
        }
    }
    let pair = find_nonintersecting_quorums(&f);
    want!(pair.is_some() == disjoint, "find_nonintersecting_quorums {:?}, disjoint quorums exist: {}", pair, disjoint);
    if let Some(p) = pair {
        check_pair(m, &mks(&p))?;
    }
    info.evals += 4;
    if c.seed % 16 == 3 {
        let b = large(c, &mut Rng(c.seed ^ 105));
        let a = Analysis::new(&b.f);
        want!(a.has_quorum_intersection() == exp, "large FBAS: has_quorum_intersection = {}; core is {:?} of {:?}", !exp, b.pos, b.q);
        let (alt, pair) = Analysis::new(&b.f).has_quorum_intersection_via_alternative_check();
        want!(alt == exp && pair.is_some() == disjoint, "large FBAS: alternative check says {} {:?}; core is {:?} of {:?}", alt, pair, b.pos, b.q);
        for p in pair.map(|p| p.unwrap()).into_iter().chain(find_nonintersecting_quorums(&b.f)) {
            let ok = p.len() >= 2 && p.iter().all(|x| b.f.is_quorum(x)) && p.iter().enumerate().all(|(i, x)| p[i + 1..].iter().all(|y| x.is_disjoint(y)));
            want!(ok, "large FBAS: {:?} are no disjoint quorums of {:?}", p, b.q);
        }
        want!(find_nonintersecting_quorums(&b.f).is_some() == disjoint, "large FBAS: find_nonintersecting_quorums; core is {:?} of {:?}", b.pos, b.q);
    }
    info.nontrivial = q.len() > 1;
    cluster_tags(m, info);
    Ok(())
}
/// an analysis whose caches are already filled
fn a_clone(f: &Fbas) -> Analysis {
    let a = Analysis::new(f);
    a.minimal_quorums();
    a
}
fn check_pair(m: &F, p: &[M]) -> Result<(), String> {
    want!(p.len() >= 2, "fewer than two quorums reported: {}", show(p));
    for (i, &x) in p.iter().enumerate() {
        want!(m.is_quorum(x), "reported set {:?} is no quorum", ids(x));
        for &y in &p[i + 1..] {
            want!(x & y == 0, "reported quorums {:?} and {:?} intersect", ids(x), ids(y));
        }
    }
    Ok(())
}

/// C06 minimal blocking sets
fn c06(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let (m, f) = (&c.fbas, build(c));
    if m.quorums().is_empty() {
        find_minimal_blocking_sets(&f);
        return Ok(());
    }
    let exp = m.minimal_blocking();
    eq_sets("find_minimal_blocking_sets", &mks(&find_minimal_blocking_sets(&f)), &exp)?;
    let got = mks(&Analysis::new(&f).minimal_blocking_sets().unwrap());
    eq_sets("Analysis::minimal_blocking_sets", &got, &exp)?;
    info.evals += 2;
    if c.seed % 16 == 3 {
        let b = large(c, &mut Rng(c.seed ^ 106));
        b.same("find_minimal_blocking_sets", &find_minimal_blocking_sets(&b.f), &exp)?;
        b.same("Analysis::minimal_blocking_sets", &Analysis::new(&b.f).minimal_blocking_sets().unwrap(), &exp)?;
    }
    info.nontrivial = exp.len() > 1;
    cluster_tags(m, info);
    Ok(())
}

/// C07 minimal splitting sets
fn c07(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let (m, f) = (&c.fbas, build(c));
    cluster_tags(m, info);
    let a = Analysis::new(&f);
    let got = mks(&a.minimal_splitting_sets().unwrap());
    info.evals += 1;
    if !m.has_qi() {
        eq_sets("Analysis::minimal_splitting_sets without quorum intersection", &got, &[0])?;
        return Ok(());
    }
    let exp = m.minimal_splitting();
    eq_sets("Analysis::minimal_splitting_sets", &got, &exp)?;
    let mqs: Vec<NodeIdSet> = m.minimal_quorums().iter().map(|&x| bs(x)).collect();
    eq_sets("find_minimal_splitting_sets", &mks(&find_minimal_splitting_sets(&f, &mqs)), &exp)?;
    info.evals += 1;
    if c.seed % 16 == 3 {
        let b = large(c, &mut Rng(c.seed ^ 107));
        b.same("Analysis::minimal_splitting_sets", &Analysis::new(&b.f).minimal_splitting_sets().unwrap(), &exp)?;
        let mqs: Vec<NodeIdSet> = m.minimal_quorums().iter().map(|&x| b.to(x)).collect();
        b.same("find_minimal_splitting_sets", &find_minimal_splitting_sets(&b.f, &mqs), &exp)?;
    }
    info.nontrivial = !exp.is_empty();
    Ok(())
}

/// C08 node set minimisation
fn c08(c: &Case, info: &mut Info) -> Result<(), String> {
    let mut r = Rng(c.seed);
    let n = c.fbas.n().max(1);
    for _ in 0..8 {
        info.evals += 1;
        let k = r.below(9);
        let dense = r.range(1, 4);
        let v: Vec<M> = (0..k).map(|_| mask((0..n).filter(|_| r.chance(dense, 5)))).collect();
        let sets: Vec<NodeIdSet> = v
            .iter()
            .map(|&m| {
                let mut b = BitSet::with_capacity(r.below(200));
                b.extend(ids(m));
                b
            })
            .collect();
        let got = mks(&sets::remove_non_minimal_node_sets(sets.clone()));
        let e = canonical(minimal(&v));
        want!(got == e, "remove_non_minimal_node_sets({}) = {} expected {}", show(&v), show(&got), show(&e));
        let e = v.iter().enumerate().all(|(i, a)| v[i + 1..].iter().all(|b| a & b != 0));
        // a single empty set trivially intersects pairwise
        want!(sets::all_intersect(&sets) == e, "all_intersect({}) != {}", show(&v), e);
        let e = v.iter().fold(0, |a, b| a | b);
        want!(mk(&sets::involved_nodes(&sets)) == e, "involved_nodes({}) = {:?}", show(&v), sets::involved_nodes(&sets));
        let e = v.iter().enumerate().all(|(i, a)| v.iter().enumerate().all(|(j, b)| i == j || a & !b != 0));
        want!(sets::is_set_of_minimal_node_sets(&sets) == e, "is_set_of_minimal_node_sets({}) != {}", show(&v), e);
        info.nontrivial |= k > 2;
    }
    if c.seed % 16 == 3 {
        // many sets, far apart numbers
        let top = *r.pick(&[70, 130, 300]);
        let some: Vec<usize> = (0..r.range(3, 14)).map(|_| r.below(top)).collect();
        let k = *r.pick(&[20, 70, 140]);
        let sets: Vec<NodeIdSet> = (0..k).map(|_| { let d = r.range(1, 6); some.iter().copied().filter(|_| r.chance(d, 7)).collect() }).collect();
        let sets: Vec<NodeIdSet> = if r.chance(1, 3) { sets.into_iter().map(|mut s: NodeIdSet| { s.extend(some[0]..some[0] + 40); s }).collect() } else { sets };
        let mut e: Vec<NodeIdSet> = sets.iter().filter(|x| !sets.iter().any(|y| y != *x && y.is_subset(x))).cloned().collect();
        e.sort();
        e.dedup();
        e.sort_by_key(|x| x.len());
        want!(sets::remove_non_minimal_node_sets(sets.clone()) == e, "remove_non_minimal_node_sets({:?}) = {:?} expected {:?}", sets, sets::remove_non_minimal_node_sets(sets.clone()), e);
        let cut = if e.len() > 1 { &e[..] } else { &sets[..] };
        for v in [cut, &sets[..]] {
            let x = v.iter().enumerate().all(|(i, a)| v[i + 1..].iter().all(|b| a.intersection(b).count() > 0));
            want!(sets::all_intersect(v) == x, "all_intersect({:?}) != {}", v, x);
            let mut x: Vec<usize> = v.iter().flat_map(|s| s.iter()).collect();
            x.sort();
            x.dedup();
            want!(sets::involved_nodes(v).into_iter().collect::<Vec<_>>() == x, "involved_nodes({:?})", v);
            let x = v.iter().enumerate().all(|(i, a)| v.iter().enumerate().all(|(j, b)| i == j || !a.is_subset(b)));
            want!(sets::is_set_of_minimal_node_sets(v) == x, "is_set_of_minimal_node_sets({:?}) != {}", v, x);
        }
    }
    Ok(())
}

/// C09 symmetric clusters
fn c09(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let (m, f) = (&c.fbas, build(c));
    let sorted = |v: Vec<Q>| {
        let mut v = v;
        v.sort();
        v
    };
    // JSON input is normalised (sorted), direct input is taken literally
    let mm = if c.seed & 16 != 0 { F(m.0.iter().map(|q| q.sorted()).collect()) } else { m.clone() };
    let exp = sorted(mm.clusters());
    let got: Vec<Q> = find_symmetric_clusters(&f).iter().map(model_q).collect();
    want!(sorted(got.clone()) == exp, "symmetric clusters {:?} expected {:?}", got, exp);
    let a = Analysis::new(&f);
    let got2: Vec<Q> = a.symmetric_clusters().iter().map(model_q).collect();
    want!(sorted(got2.clone()) == exp, "Analysis::symmetric_clusters {:?} expected {:?}", got2, exp);
    let top = if exp.len() == 1 && !mm.has_quorum(mm.all() & !exp[0].nodes()) { Some(exp[0].clone()) } else { None };
    let got = find_symmetric_top_tier(&f).map(|q| model_q(&q));
    want!(got == top, "symmetric top tier {:?} expected {:?}", got, top);
    let got = a.symmetric_top_tier().map(|q| model_q(&q));
    want!(got == top, "Analysis::symmetric_top_tier {:?} expected {:?}", got, top);
    info.evals += 4;
    if c.seed % 16 == 3 {
        let b = large(c, &mut Rng(c.seed ^ 109));
        let exp: Vec<Q> = sorted(m.clusters());
        let key = |v: Vec<QuorumSet>| {
            let mut v = v;
            v.sort();
            v
        };
        let big_q = |q: &Q| real_q(&q.map(&|x| b.pos[x]));
        let e = key(exp.iter().map(big_q).collect());
        want!(key(find_symmetric_clusters(&b.f)) == e, "large FBAS: symmetric clusters {:?} expected {:?}", find_symmetric_clusters(&b.f), e);
        want!(key(Analysis::new(&b.f).symmetric_clusters()) == e, "large FBAS: Analysis::symmetric_clusters, expected {:?}", e);
        let top = if exp.len() == 1 && !m.has_quorum(m.all() & !exp[0].nodes()) { Some(big_q(&exp[0])) } else { None };
        want!(find_symmetric_top_tier(&b.f) == top && Analysis::new(&b.f).symmetric_top_tier() == top, "large FBAS: symmetric top tier {:?} expected {:?}", find_symmetric_top_tier(&b.f), top);
    }
    info.nontrivial = !exp.is_empty();
    Ok(())
}

/// C10 shrinking the ID space
fn c10(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let (m, f) = (&c.fbas, build(c));
    let ks = if c.seed & 16 == 0 { keys(m.n(), 0) } else { keys(m.n(), c.seed) };
    let mut r = Rng(c.seed ^ 5);
    let mut keep = (r.next() as M) & m.all();
    if r.chance(1, 3) {
        keep = m.all();
    }
    let kept = ids(keep);
    let (g, man) = f.shrunken(bs(keep));
    want!(g.number_of_nodes() == kept.len(), "shrunken FBAS has {} nodes, expected {}", g.number_of_nodes(), kept.len());
    want!(man.unshrink_table() == &kept, "unshrink table {:?} is not the kept ids in order {:?}", man.unshrink_table(), kept);
    let full = g.to_json_string();
    let raw: serde_json::Value = serde_json::from_str(&full).unwrap();
    for (new, &old) in kept.iter().enumerate() {
        want!(raw[new]["publicKey"].as_str() == Some(&ks[old]), "node {} of the shrunken FBAS is {} instead of {}", new, raw[new]["publicKey"], ks[old]);
        want!(g.get_node_id(&ks[old]) == Some(new), "shrunken FBAS looks up {} as {:?}, expected {}", ks[old], g.get_node_id(&ks[old]), new);
    }
    for i in 0..m.n() {
        if keep >> i & 1 == 0 {
            want!(g.get_node_id(&ks[i]).is_none(), "dropped node {} still resolves to {:?}", ks[i], g.get_node_id(&ks[i]));
        }
    }
    // every subset of the kept nodes: same membership answers, and the mapping is a bijection
    let mut sub = keep;
    loop {
        info.evals += 1;
        let small = man.shrink_set(&bs(sub));
        want!(mk(&man.unshrink_set(&small)) == sub, "unshrink(shrink({:?})) = {:?}", ids(sub), man.unshrink_set(&small));
        let e = mask(kept.iter().enumerate().filter(|(_, &o)| sub >> o & 1 == 1).map(|(n, _)| n));
        want!(mk(&small) == e, "shrink({:?}) = {:?}", ids(sub), small);
        want!(g.is_quorum(&small) == m.is_quorum(sub), "is_quorum({:?}) changes when shrinking to {:?}", ids(sub), kept);
        for (new, &old) in kept.iter().enumerate() {
            let q = g.get_quorum_set(new).unwrap();
            want!(q.is_quorum_slice(&small) == m.0[old].sat(sub), "slice test of node {} on {:?} changes when shrinking to {:?}", old, ids(sub), kept);
        }
        if sub == 0 { break; }
        sub = (sub - 1) & keep;
    }
    // a second, different reduction
    let keep2 = {
        let mut x = (r.next() as M) & m.all();
        if r.chance(1, 2) { x &= keep; }
        x
    };
    let (_, man2) = f.shrunken(bs(keep2));
    let both = keep & keep2;
    let some: Vec<M> = (0..4).map(|_| (r.next() as M) & both).collect();
    let sets: Vec<NodeIdSet> = some.iter().map(|&s| bs(s)).collect();
    want!(man.unshrink_sets(&man.shrink_sets(&sets)) == sets, "shrink_sets / unshrink_sets differ from the single-set maps on {}", show(&some));
    let again = man2.unshrink_sets(&man2.reshrink_sets(&man.shrink_sets(&sets), &man));
    want!(again == sets, "moving {} from the ids of {:?} to the ids of {:?} gives {:?}", show(&some), kept, ids(keep2), again);
    if c.seed % 16 == 3 {
        let b = large(c, &mut r);
        let n = b.q.len();
        let d = r.range(2, 9);
        let keep: NodeIdSet = (0..n).filter(|_| r.chance(d, 9)).collect();
        let kept: Vec<usize> = keep.iter().collect();
        let (g, man) = b.f.shrunken(keep.clone());
        want!(g.number_of_nodes() == kept.len() && man.unshrink_table() == &kept, "large FBAS: unshrink table {:?} instead of {:?}", man.unshrink_table(), kept);
        for _ in 0..6 {
            let sub: NodeIdSet = kept.iter().copied().filter(|_| r.chance(d, 10)).collect();
            let small = man.shrink_set(&sub);
            want!(small.iter().map(|x| kept[x]).collect::<NodeIdSet>() == sub && man.unshrink_set(&small) == sub, "large FBAS: shrink({:?}) = {:?}", sub, small);
            let v = as_bits(&sub, n);
            for (new, &old) in kept.iter().enumerate() {
                want!(g.get_quorum_set(new).unwrap().is_quorum_slice(&small) == Big::sat(&b.q[old], &v), "large FBAS: slice test of node {} on {:?} changes when shrinking {:?} to {:?}", old, sub, b.q, kept);
                want!(g.get_node_id(&format!("n{}", old)) == Some(new), "large FBAS: n{} is {:?} instead of {}", old, g.get_node_id(&format!("n{}", old)), new);
            }
        }
    }
    info.nontrivial = keep != 0 && keep != m.all();
    Ok(())
}

/// C11 front end: any sequence of queries gives the same answers
fn c11(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let (m, f) = (&c.fbas, build(c));
    let a = Analysis::new(&f);
    let mut r = Rng(c.seed ^ 11);
    let mq = m.minimal_quorums();
    let mbs = if mq.is_empty() { None } else { Some(m.minimal_blocking()) };
    let qi = m.has_qi();
    let mss = if qi { m.minimal_splitting() } else { vec![0] };
    let top = mq.iter().fold(0, |a, b| a | b);
    let mut hist = vec![];
    for _ in 0..r.range(2, 7) {
        let op = r.below(9);
        hist.push(op);
        info.evals += 1;
        let h = || format!("after queries {:?}: ", hist);
        match op {
            0 => {
                want!(a.has_quorum_intersection() == qi, "{}has_quorum_intersection != {}", h(), qi);
            }
            1 => eq_sets(&(h() + "minimal_quorums"), &mks(&a.minimal_quorums().unwrap()), &mq)?,
            2 => {
                let g = mks(&a.minimal_blocking_sets().unwrap());
                if let Some(e) = &mbs {
                    eq_sets(&(h() + "minimal_blocking_sets"), &g, e)?;
                }
            }
            3 => eq_sets(&(h() + "minimal_splitting_sets"), &mks(&a.minimal_splitting_sets().unwrap()), &mss)?,
            4 => {
                let t = mk(&a.top_tier().unwrap());
                want!(t == top, "{}top_tier {:?} expected {:?}", h(), ids(t), ids(top));
            }
            5 => {
                let (x, p) = a.has_quorum_intersection_via_alternative_check();
                want!(x == qi, "{}alternative check {} expected {}", h(), x, qi);
                if let Some(p) = p {
                    check_pair(m, &mks(&p.unwrap()))?;
                }
            }
            6 => {
                want!(mk(&a.satisfiable_nodes().unwrap()) == m.greatest(m.all()), "{}satisfiable_nodes", h());
            }
            7 => {
                want!(a.symmetric_top_tier() == find_symmetric_top_tier(&f), "{}symmetric_top_tier", h());
            }
            _ => {
                want!(mk(&a.all_nodes().unwrap()) == m.all(), "{}all_nodes", h());
            }
        }
    }
    if c.seed % 16 == 3 {
        let b = large(c, &mut r);
        let a = Analysis::new(&b.f);
        let mut hist = vec![];
        for _ in 0..r.range(2, 6) {
            let op = r.below(5);
            hist.push(op);
            let h = || format!("after queries {:?}: ", hist);
            match op {
                0 => want!(a.has_quorum_intersection() == qi, "large FBAS: {}has_quorum_intersection != {}", h(), qi),
                1 => b.same(&(h() + "minimal_quorums"), &a.minimal_quorums().unwrap(), &mq)?,
                2 => if let Some(e) = &mbs { b.same(&(h() + "minimal_blocking_sets"), &a.minimal_blocking_sets().unwrap(), e)? },
                3 => b.same(&(h() + "minimal_splitting_sets"), &a.minimal_splitting_sets().unwrap(), &mss)?,
                _ => b.same(&(h() + "top_tier"), &[a.top_tier().unwrap()], &[top])?,
            }
        }
    }
    info.nontrivial = mq.len() > 1 && hist.len() > 2;
    cluster_tags(m, info);
    Ok(())
}

/// disjoint named groups over the keys, with some unknown keys thrown in; returns (json, groups by id)
fn groups(r: &mut Rng, n: usize, ks: &[String]) -> (String, Vec<(String, Vec<usize>)>) {
    let k = r.below(4);
    let mut members: Vec<Vec<usize>> = vec![vec![]; k + 1];
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    for x in order {
        members[r.below(k + 1)].push(x);
    }
    members.pop();
    let g: Vec<(String, Vec<usize>)> = members.into_iter().enumerate().map(|(i, v)| (format!("org{}", i), v)).collect();
    let js: Vec<serde_json::Value> = g
        .iter()
        .map(|(name, v)| {
            let mut names: Vec<String> = v.iter().map(|&x| ks[x].clone()).collect();
            if r.chance(1, 3) {
                let at = r.below(names.len() + 1);
                names.insert(at, "unknown-key".into());
            }
            serde_json::json!({"name": name, "validators": names, "id": "x"})
        })
        .collect();
    (serde_json::to_string(&js).unwrap(), g)
}
fn rep(g: &[(String, Vec<usize>)], x: usize) -> usize {
    g.iter().find(|(_, v)| v.contains(&x)).map_or(x, |(_, v)| v[0])
}
fn rep_mask(g: &[(String, Vec<usize>)], s: M) -> M {
    mask(ids(s).into_iter().map(|x| rep(g, x)))
}
fn case_keys(c: &Case) -> Vec<String> {
    if c.seed & 16 == 0 { keys(c.fbas.n(), 0) } else { keys(c.fbas.n(), c.seed) }
}

/// C12 post-processing of results
mod erased {
    /// anything that can be written as JSON text on one line
    pub trait Js { fn js(&self) -> String; }
    impl<T: serde::Serialize> Js for T { fn js(&self) -> String { serde_json::to_string(self).unwrap() } }
}
fn pretty_q(q: &Q, name: &dyn Fn(usize) -> String) -> PrettyQuorumSet {
    PrettyQuorumSet { threshold: q.t as u64, validators: q.v.iter().map(|&x| name(x)).collect(), inner_quorum_sets: q.i.iter().map(|i| pretty_q(i, name)).collect() }
}
/// the names in `p`, sorted, once each
fn names_in(p: &PrettyQuorumSet, v: &mut Vec<String>) {
    v.extend(p.validators.iter().cloned());
    for i in &p.inner_quorum_sets { names_in(i, v); }
    v.sort();
    v.dedup();
}
fn c12(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let (m, f) = (&c.fbas, build(c));
    let ks = case_keys(c);
    let mut r = Rng(c.seed ^ 12);
    let (gj, g) = groups(&mut r, m.n(), &ks);
    let orgs = Groupings::organizations_from_json_str(&gj, &f);
    let a = Analysis::new(&f);
    if r.chance(1, 2) {
        a.minimal_quorums();
    }
    let (mut res, mut v) = match r.below(3) {
        0 => (a.minimal_quorums(), m.minimal_quorums()),
        1 if !m.quorums().is_empty() => (a.minimal_blocking_sets(), m.minimal_blocking()),
        _ => (a.minimal_splitting_sets(), if m.has_qi() { m.minimal_splitting() } else { vec![0] }),
    };
    let mut chain = vec![];
    for _ in 0..r.below(4) {
        match r.below(4) {
            0 => {
                let rm = (r.next() as M) & m.all() & (r.next() as M);
                chain.push(format!("without_nodes({:?})", ids(rm)));
                res = res.without_nodes(&ids(rm));
                v = v.iter().map(|s| s & !rm).collect();
            }
            1 => {
                let names: Vec<&str> = {
                    let mut x: Vec<&str> = ks.iter().filter(|_| r.chance(1, 3)).map(|s| s.as_str()).collect();
                    if r.chance(1, 2) { x.push("org0"); }
                    if r.chance(1, 3) { x.push("nobody"); }
                    x
                };
                let use_groups = r.chance(1, 2);
                chain.push(format!("without_nodes_pretty({:?}, groups: {} = {})", names, use_groups, gj));
                let mut rm = mask(ks.iter().enumerate().filter(|(_, k)| names.contains(&k.as_str())).map(|(i, _)| i));
                if use_groups {
                    for (n, mem) in &g {
                        if names.contains(&n.as_str()) {
                            rm |= mask(mem.iter().copied());
                        }
                    }
                }
                res = res.without_nodes_pretty(&names, &f, if use_groups { Some(&orgs) } else { None });
                v = v.iter().map(|s| s & !rm).collect();
            }
            2 => {
                chain.push(format!("merged_by_group({})", gj));
                res = res.merged_by_group(&orgs);
                v = v.iter().map(|&s| rep_mask(&g, s)).collect();
            }
            _ => {
                chain.push("minimal_sets".into());
                res = res.minimal_sets();
                v = canonical(minimal(&v));
            }
        }
    }
    let ch = chain.join(" then ");
    info.evals += 1 + chain.len() as u64;
    let sizes: Vec<usize> = v.iter().map(|s| s.count_ones() as usize).collect();
    want!(mks(&res.clone().unwrap()) == v, "{}: sets {:?} expected {}", ch, res.clone().unwrap(), show(&v));
    want!(res.clone().into_vec_vec() == v.iter().map(|&s| ids(s)).collect::<Vec<_>>(), "{}: into_vec_vec {:?}", ch, res.clone().into_vec_vec());
    want!(res.len() == v.len() && res.is_empty() == v.is_empty(), "{}: len {}", ch, res.len());
    let inv = v.iter().fold(0, |a, b| a | b);
    want!(mk(&res.involved_nodes()) == inv, "{}: involved_nodes {:?} expected {:?} (sets {})", ch, res.involved_nodes(), ids(inv), show(&v));
    want!(res.contains_empty_set() == v.contains(&0), "{}: contains_empty_set {}", ch, res.contains_empty_set());
    let (mn, mx) = (sizes.iter().min().copied().unwrap_or(0), sizes.iter().max().copied().unwrap_or(0));
    want!(res.min() == mn && res.max() == mx, "{}: min {} max {} expected {} {}", ch, res.min(), res.max(), mn, mx);
    let mean = if v.is_empty() { 0. } else { sizes.iter().sum::<usize>() as f64 / v.len() as f64 };
    want!((res.mean() - mean).abs() < 1e-9, "{}: mean {} expected {}", ch, res.mean(), mean);
    let mut hg = vec![0; mx + 1];
    for &s in &sizes {
        hg[s] += 1;
    }
    want!(res.histogram() == hg, "{}: histogram {:?} expected {:?}", ch, res.histogram(), hg);
    let d = res.describe();
    want!(d.0 == v.len() && d.1 == inv.count_ones() as usize && d.2 .0 == mn && d.2 .1 == mx && (d.2 .2 - mean).abs() < 1e-9 && d.3 == hg, "{}: describe {:?}", ch, d);
    let names: Vec<Vec<String>> = v.iter().map(|&s| ids(s).into_iter().map(|x| ks[x].clone()).collect()).collect();
    want!(res.clone().into_pretty_vec_vec(&f, None) == names, "{}: into_pretty_vec_vec {:?} expected {:?}", ch, res.clone().into_pretty_vec_vec(&f, None), names);
    let gname = |x: usize| g.iter().find(|(_, v)| v.contains(&x)).map_or(ks[x].clone(), |(n, _)| n.clone());
    let names: Vec<Vec<String>> = v.iter().map(|&s| ids(s).into_iter().map(gname).collect()).collect();
    want!(res.clone().into_pretty_vec_vec(&f, Some(&orgs)) == names, "{}: into_pretty_vec_vec with groups {:?} expected {:?}", ch, res.clone().into_pretty_vec_vec(&f, Some(&orgs)), names);
    let js = serde_json::to_string(&v.iter().map(|&s| ids(s)).collect::<Vec<_>>()).unwrap();
    want!(serde_json::to_string(&res).unwrap() == js, "{}: JSON {} expected {}", ch, serde_json::to_string(&res).unwrap(), js);
    want!(res.clone().into_id_string() == js, "{}: id string {} expected {}", ch, res.clone().into_id_string(), js);
    // single-set results
    let t = a.top_tier();
    let top = m.minimal_quorums().iter().fold(0, |a, b| a | b);
    let rm = (r.next() as M) & m.all();
    want!(mk(&t.clone().unwrap()) == top && t.len() == top.count_ones() as usize && t.is_empty() == (top == 0), "top tier result {:?}", t);
    want!(mk(&t.involved_nodes()) == top, "involved_nodes of the top tier {:?}", t.involved_nodes());
    want!(t.clone().into_vec() == ids(top), "into_vec of the top tier");
    want!(mk(&t.without_nodes(&ids(rm)).unwrap()) == top & !rm, "top tier without_nodes({:?})", ids(rm));
    want!(mk(&t.merged_by_group(&orgs).unwrap()) == rep_mask(&g, top), "top tier merged_by_group({})", gj);
    want!(t.clone().into_pretty_vec(&f, None) == ids(top).into_iter().map(|x| ks[x].clone()).collect::<Vec<_>>(), "pretty top tier");
    want!(t.clone().into_pretty_vec(&f, Some(&orgs)) == ids(top).into_iter().map(gname).collect::<Vec<_>>(), "pretty top tier by group");
    want!(serde_json::to_string(&t).unwrap() == serde_json::to_string(&ids(top)).unwrap(), "top tier as JSON");
    // results as text
    let js = |x: &dyn erased::Js| x.js();
    want!(t.clone().into_id_string() == js(&ids(top)), "top tier id string {}", t.clone().into_id_string());
    want!(t.clone().into_describe_string() == top.count_ones().to_string(), "top tier describe string");
    want!(t.clone().into_pretty_string(&f, None) == js(&ids(top).into_iter().map(|x| ks[x].clone()).collect::<Vec<_>>()), "top tier pretty string");
    want!(t.clone().into_pretty_string(&f, Some(&orgs)) == js(&ids(top).into_iter().map(gname).collect::<Vec<_>>()), "top tier pretty string by group");
    want!(res.clone().into_pretty_string(&f, Some(&orgs)) == js(&names), "{}: pretty string {}", ch, res.clone().into_pretty_string(&f, Some(&orgs)));
    want!(res.clone().into_describe_string() == js(&d), "{}: describe string {} of {:?}", ch, res.clone().into_describe_string(), d);
    want!(true.into_id_string() == "true" && false.into_describe_string() == "false" && 17usize.into_id_string() == "17" && 3usize.into_describe_string() == "3" && false.into_pretty_string(&f, Some(&orgs)) == "false", "truth values and numbers as text");
    // quorum sets with names
    let mut all = vec![];
    for q in &m.0 {
        let p = real_q(q).into_pretty_quorum_set(&f, None);
        let e = pretty_q(q, &|x| ks[x].clone());
        want!(p == e, "into_pretty_quorum_set({:?}) = {:?}", q, p);
        want!(real_q(q).into_id_string() == js(&real_q(q)) && real_q(q).into_describe_string() == js(&real_q(q)), "quorum set {:?} as text", q);
        want!(real_q(q).into_pretty_string(&f, None) == serde_json::to_string_pretty(&e).unwrap(), "quorum set {:?} as pretty text", q);
        let p = real_q(q).into_pretty_quorum_set(&f, Some(&orgs));
        let mut said = vec![];
        names_in(&p, &mut said);
        let mut e: Vec<String> = ids(q.nodes()).into_iter().map(gname).collect();
        e.sort();
        e.dedup();
        want!(said == e, "into_pretty_quorum_set({:?}) with {} = {:?}: names {:?} expected {:?}", q, gj, p, said, e);
        want!(real_q(q).into_pretty_string(&f, Some(&orgs)) == serde_json::to_string_pretty(&p).unwrap(), "quorum set {:?} as pretty text by group", q);
        all.push(real_q(q));
    }
    let e: Vec<PrettyQuorumSet> = all.iter().map(|q| q.clone().into_pretty_quorum_set(&f, Some(&orgs))).collect();
    want!(all.clone().into_pretty_string(&f, Some(&orgs)) == serde_json::to_string_pretty(&e).unwrap() && all.clone().into_id_string() == js(&all) && all.clone().into_describe_string() == js(&all), "list of quorum sets as text");
    info.nontrivial = v.len() > 1;
    Ok(())
}

/// C13 merging by group
fn c13(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let (m, f) = (&c.fbas, build(c));
    let ks = case_keys(c);
    let mut r = Rng(c.seed ^ 13);
    let (gj, g) = groups(&mut r, m.n(), &ks);
    let orgs = if r.chance(1, 2) { Groupings::organizations_from_json_str(&gj, &f) } else { Groupings::from_json_str(&gj, &f) };
    want!(orgs.number_of_groupings() == g.len(), "number_of_groupings {}", orgs.number_of_groupings());
    for x in 0..m.n() {
        want!(orgs.merge_node(x) == rep(&g, x), "merge_node({}) = {} expected {} with {}", x, orgs.merge_node(x), rep(&g, x), gj);
        let e = g.iter().find(|(_, v)| v.contains(&x)).map(|(n, _)| n.clone());
        let got = orgs.get_by_member(x).map(|o| group_name(&orgs, o, &g));
        want!(got == e.map(Some), "get_by_member({}) with {}", x, gj);
    }
    for (n, _) in &g {
        want!(orgs.get_by_name(n).is_some(), "get_by_name({})", n);
    }
    want!(orgs.get_by_name("nobody").is_none(), "get_by_name(nobody)");
    let v: Vec<M> = (0..r.below(7)).map(|_| (r.next() as M) & m.all()).collect();
    let sets: Vec<NodeIdSet> = v.iter().map(|&s| bs(s)).collect();
    let e: Vec<M> = v.iter().map(|&s| rep_mask(&g, s)).collect();
    info.evals += v.len() as u64 + 1;
    for (s, e) in sets.iter().zip(&e) {
        want!(mk(&orgs.merge_node_set(s.clone())) == *e, "merge_node_set({:?}) = {:?} expected {:?} with {}", s, orgs.merge_node_set(s.clone()), ids(*e), gj);
    }
    want!(mks(&orgs.merge_node_sets(sets.clone())) == e, "merge_node_sets({})", show(&v));
    let em = canonical(minimal(&e));
    let got = mks(&orgs.merge_minimal_node_sets(sets));
    want!(got == em, "merge_minimal_node_sets({}) = {} expected {} with {}", show(&v), show(&got), show(&em), gj);
    for q in &m.0 {
        let got = model_q(&orgs.merge_quorum_set(real_q(q)));
        let e = rep_mask(&g, q.nodes());
        want!(got.nodes() == e, "merge_quorum_set({:?}) = {:?}: names nodes {:?}, expected {:?} with {}", q, got, ids(got.nodes()), ids(e), gj);
        if q.i.is_empty() && !q.v.is_empty() {
            let mapped: Vec<usize> = q.v.iter().map(|&x| rep(&g, x)).collect();
            let e = if mapped.iter().all(|&x| x == mapped[0]) { Q { t: 1, v: vec![mapped[0]], i: vec![] } } else { Q { t: q.t, v: mapped, i: vec![] } };
            want!(got == e, "merge_quorum_set({:?}) = {:?} expected {:?} with {}", q, got, e, gj);
        }
        // inner sets that reduce to one group become validators of the outer set
        let depth1 = !q.i.is_empty() && q.i.iter().all(|i| i.i.is_empty() && !i.v.is_empty());
        if depth1 {
            let mut v: Vec<usize> = q.v.iter().map(|&x| rep(&g, x)).collect();
            let mut inner = vec![];
            for i in &q.i {
                let mi: Vec<usize> = i.v.iter().map(|&x| rep(&g, x)).collect();
                if mi.iter().all(|&x| x == mi[0]) { v.push(mi[0]) } else { inner.push(Q { t: i.t, v: mi, i: vec![] }) }
            }
            if !(inner.len() > 0 && !v.is_empty() && v.iter().all(|&x| x == v[0])) {
                let e = if !v.is_empty() && v.iter().all(|&x| x == v[0]) { Q { t: 1, v: vec![v[0]], i: inner } } else { Q { t: q.t, v, i: inner } };
                want!(got == e, "merge_quorum_set({:?}) = {:?} expected {:?} with {}", q, got, e, gj);
            }
        }
    }
    let qs: Vec<QuorumSet> = m.0.iter().map(real_q).collect();
    want!(orgs.merge_quorum_sets(qs.clone()) == qs.iter().map(|q| orgs.merge_quorum_set(q.clone())).collect::<Vec<_>>(), "merge_quorum_sets is not element-wise");
    // restricting the FBAS keeps the groups
    let keep = (r.next() as M) & m.all();
    let (sf, man) = f.shrunken(bs(keep));
    let so = Groupings::shrunken(&orgs, &man, &sf);
    let sg: Vec<(String, Vec<usize>)> = g
        .iter()
        .map(|(n, v)| {
            let mut w: Vec<usize> = v.iter().filter(|&&x| keep >> x & 1 == 1).map(|&x| ids(keep).iter().position(|&y| y == x).unwrap()).collect();
            w.sort();
            (n.clone(), w)
        })
        .collect();
    for x in 0..ids(keep).len() {
        let e = rep(&sg, x);
        want!(so.merge_node(x) == e, "shrunken groupings: merge_node({}) = {} expected {}", x, so.merge_node(x), e);
    }
    info.nontrivial = g.iter().any(|(_, v)| v.len() > 1);
    Ok(())
}
/// name of the group a lookup returned (its type is not exported, so go through the name index)
fn group_name<'a, T: PartialEq>(orgs: &'a Groupings, o: &'a T, g: &[(String, Vec<usize>)]) -> Option<String>
where
    T: 'a,
{
    g.iter().find(|(n, _)| orgs.get_by_name(n).map_or(false, |x| std::ptr::eq(x as *const _ as *const u8, o as *const _ as *const u8))).map(|(n, _)| n.clone())
}

/// C14 node identity under any history of additions and reconfigurations
fn c14(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let mut r = Rng(c.seed ^ 14);
    // start from an FBAS read from JSON whose keys cannot clash with generated names
    let ks: Vec<String> = keys(c.fbas.n(), if c.seed % 5 == 0 { c.seed + 1 } else { c.seed });
    let start_json = c.seed & 16 != 0;
    let mut model: Vec<(String, Q)> = vec![];
    let mut f = if start_json {
        model = ks.iter().cloned().zip(c.fbas.0.iter().map(|q| q.sorted())).collect();
        Fbas::from_json_str(&to_json(&c.fbas, &ks))
    } else if r.chance(1, 2) {
        Fbas::new()
    } else {
        let k = if r.chance(1, 8) { *r.pick(&[9, 63, 99, 110]) } else { r.below(4) };
        model = (0..k).map(|i| (format!("n{}", i), Q::empty())).collect();
        Fbas::new_generic_unconfigured(k)
    };
    let mut hist = vec![];
    let mut past: Vec<(Fbas, Vec<(String, Q)>)> = vec![];
    for step in 0..r.range(1, 10) {
        info.evals += 1;
        past.push((f.clone(), model.clone()));
        let fresh = gen::qset(&mut r, &(0..model.len() + 1).collect::<Vec<_>>(), 1, true);
        match r.below(3) {
            0 | 1 if model.len() < 12 || model.len() > 60 => {
                hist.push("add".to_string());
                let id = f.add_generic_node(real_q(&fresh));
                want!(id == model.len(), "{:?}: add returned id {} expected {}", hist, id, model.len());
                model.push((format!("n{}", id), fresh));
            }
            _ if !model.is_empty() => {
                let k = r.below(model.len());
                hist.push(format!("swap {}", k));
                let old = f.swap_quorum_set(k, real_q(&fresh));
                want!(model_q(&old) == model[k].1, "{:?}: swap returned {:?} expected {:?}", hist, old, model[k].1);
                model[k].1 = fresh;
            }
            _ => {}
        }
        let g = if step % 2 == 0 { f.clone() } else { f };
        want!(g.number_of_nodes() == model.len(), "{:?}: number_of_nodes {}", hist, g.number_of_nodes());
        want!(g.all_nodes().into_iter().collect::<Vec<_>>() == (0..model.len()).collect::<Vec<_>>(), "{:?}: all_nodes {:?}", hist, g.all_nodes());
        for (i, (k, q)) in model.iter().enumerate() {
            want!(g.get_node_id(k) == Some(i), "{:?}: id of {} is {:?} expected {}", hist, k, g.get_node_id(k), i);
            want!(g.get_quorum_set(i).map(|x| model_q(&x)).as_ref() == Some(q), "{:?}: quorum set of {} is {:?} expected {:?}", hist, i, g.get_quorum_set(i), q);
        }
        want!(g.get_node_id("nobody").is_none(), "{:?}: unknown key resolves", hist);
        for (k, _) in &model {
            for x in near(k) {
                let e = model.iter().position(|(y, _)| *y == x);
                want!(g.get_node_id(&x) == e, "{:?}: id of {:?} is {:?} expected {:?}", hist, x, g.get_node_id(&x), e);
            }
        }
        want!(g.get_node_id(&format!("n{}", model.len())).is_none(), "{:?}: key of a node that does not exist yet resolves", hist);
        want!(g.get_quorum_set(model.len()).is_none(), "{:?}: quorum set of a missing node", hist);
        f = g;
    }
    past.push((f.clone(), model.clone()));
    // equality, order and hash look at the nodes
    let hash = |x: &Fbas| {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    };
    if past.len() > 2 && r.chance(1, 2) {
        // the same nodes by another way
        let (mut a, ma) = past[0].clone();
        if ma.len() > 0 {
            let k = r.below(ma.len());
            let q = a.swap_quorum_set(k, QuorumSet::new());
            a.swap_quorum_set(k, q);
            past.push((a, ma));
        }
    }
    for (a, ma) in &past {
        for (b, mb) in &past {
            let same = ma == mb;
            want!((a == b) == same, "{:?}: equality of FBASs is {} but the nodes are {}", hist, a == b, same);
            want!(!same || hash(a) == hash(b), "{:?}: equal FBASs have different hashes", hist);
            want!((a.cmp(b) == std::cmp::Ordering::Equal) == same && a.cmp(b) == b.cmp(a).reverse() && a.partial_cmp(b) == Some(a.cmp(b)), "{:?}: order of FBASs is {:?} and {:?}, same nodes: {}", hist, a.cmp(b), b.cmp(a), same);
        }
    }
    // a generated name that is already taken is refused
    let k = model.len() + 1;
    let clash = format!("[{{\"publicKey\":\"n{}\"}}]", 1);
    let mut h = Fbas::from_json_str(&clash);
    let refused = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h.add_generic_node(QuorumSet::new()))).is_err();
    want!(refused, "adding a second node named n1 was accepted");
    info.nontrivial = k > 2;
    Ok(())
}

/// C15 JSON round trip
fn c15(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let m = &c.fbas;
    let f = build(c);
    let ks = case_keys(c);
    for (what, txt) in [("compact", f.to_json_string()), ("pretty", f.to_json_string_pretty()), ("display", format!("{}", f)), ("serde", serde_json::to_string(&f).unwrap())] {
        info.evals += 1;
        let g = Fbas::from_json_str(&txt);
        want!(g.number_of_nodes() == m.n(), "{}: {} nodes after a round trip, {} before", what, g.number_of_nodes(), m.n());
        for i in 0..m.n() {
            want!(g.get_node_id(&ks[i]) == Some(i), "{}: node {} ({}) has id {:?} after a round trip", what, i, ks[i], g.get_node_id(&ks[i]));
            let q = model_q(&g.get_quorum_set(i).unwrap());
            want!(q == m.0[i].sorted(), "{}: quorum set of {} is {:?} after a round trip, was {:?}", what, i, q, m.0[i]);
        }
        let again = Fbas::from_json_str(&g.to_json_string());
        want!(again == g, "{}: second round trip differs", what);
        if c.seed & 16 != 0 {
            want!(g == f, "{}: FBAS differs after a round trip", what);
        }
        for s in 0..=m.all() {
            want!(g.is_quorum(&bs(s)) == m.is_quorum(s), "{}: is_quorum({:?}) differs after a round trip", what, ids(s));
        }
    }
    if c.seed % 32 == 0 {
        let g = with_file(&f.to_json_string(), |p| Fbas::from_json_file(p));
        want!(g == Fbas::from_json_str(&f.to_json_string()), "FBAS read from a file differs");
    }
    // references to nodes that are not in the file are dropped without touching the threshold
    let mut j: serde_json::Value = serde_json::from_str(&to_json(m, &ks)).unwrap();
    if m.n() > 0 {
        j[0]["quorumSet"]["validators"].as_array_mut().unwrap().insert(0, "stranger".into());
        j[0]["unknownField"] = 42.into();
        let g = Fbas::from_json_str(&j.to_string());
        let q = model_q(&g.get_quorum_set(0).unwrap());
        want!(q == m.0[0].sorted(), "unknown validator changes the quorum set: {:?} expected {:?}", q, m.0[0]);
        let mut j2 = j.clone();
        j2[0].as_object_mut().unwrap().remove("quorumSet");
        let g = Fbas::from_json_str(&j2.to_string());
        want!(model_q(&g.get_quorum_set(0).unwrap()) == Q::empty(), "missing quorum set is not the unsatisfiable default");
    }
    info.nontrivial = m.n() > 1 && m.0.iter().any(|q| !q.i.is_empty());
    Ok(())
}

/// C16 standard form
fn c16(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    let m = &c.fbas;
    let ks = keys(m.n(), c.seed | 1);
    let f = Fbas::from_json_str(&to_json(m, &ks));
    let s = f.to_standard_form();
    let rel = ids(m.relevant());
    let mut names: Vec<(String, usize)> = rel.iter().map(|&x| (ks[x].clone(), x)).collect();
    names.sort();
    want!(s.number_of_nodes() == names.len(), "standard form has {} nodes, expected {}", s.number_of_nodes(), names.len());
    let js: serde_json::Value = serde_json::from_str(&s.to_json_string()).unwrap();
    for (i, (k, _)) in names.iter().enumerate() {
        want!(s.get_node_id(k) == Some(i), "standard form: id of {} is {:?} expected {}", k, s.get_node_id(k), i);
        want!(js[i]["publicKey"].as_str() == Some(k), "standard form: node {} is {} expected {}", i, js[i]["publicKey"], k);
    }
    let back = |x: M| mask(ids(x).into_iter().map(|i| names[i].1));
    for sub in 0..(1u32 << names.len()) {
        info.evals += 1;
        want!(s.is_quorum(&bs(sub)) == m.is_quorum(back(sub)), "standard form: is_quorum({:?}) differs", ids(back(sub)));
    }
    let mut q: Vec<M> = mks(&find_minimal_quorums(&s)).into_iter().map(back).collect();
    q = canonical(q);
    eq_sets("minimal quorums of the standard form", &q, &m.minimal_quorums())?;
    // the order of nodes in the input does not matter
    let mut r = Rng(c.seed ^ 16);
    let mut p: Vec<usize> = (0..m.n()).collect();
    r.shuffle(&mut p);
    let m2 = m.permuted(&p);
    let mut ks2 = vec![String::new(); m.n()];
    for i in 0..m.n() {
        ks2[p[i]] = ks[i].clone();
    }
    let s2 = Fbas::from_json_str(&to_json(&m2, &ks2)).to_standard_form();
    want!(s2 == s, "standard form depends on the input order: {} vs {}", s.to_json_string(), s2.to_json_string());
    info.nontrivial = rel.len() > 1;
    Ok(())
}

/// C17 expansion into quorum slices
fn c17(c: &Case, info: &mut Info) -> Result<(), String> {
    if skip(c) { return Ok(()); }
    for q in &c.fbas.0 {
        if q.expansion() > 20_000.0 {
            continue; // the number of slices itself is out of reach
        }
        info.evals += 1;
        let got = mks(&real_q(q).to_quorum_slices());
        for &s in &got {
            want!(q.sat(s), "to_quorum_slices of {:?} lists {:?}, which does not satisfy it", q, ids(s));
        }
        for s in 0..=c.fbas.all() {
            if q.sat(s) {
                want!(got.iter().any(|g| g & !s == 0), "slice {:?} of {:?} contains none of the listed {}", ids(s), q, show(&got));
            }
        }
        if q.entries() == q.nodes().count_ones() as usize {
            let mut d = got.clone();
            d.sort();
            d.dedup();
            want!(d.len() == got.len(), "to_quorum_slices of {:?} repeats a slice: {}", q, show(&got));
            want!(minimal(&got) == d, "to_quorum_slices of {:?} lists a non-minimal slice: {}", q, show(&got));
        }
        info.nontrivial |= got.len() > 1 && !q.i.is_empty();
    }
    Ok(())
}

fn norm(s: &str) -> String {
    let mut t: String = s.chars().filter(|&c| c != ',').collect();
    if t.ends_with('.') {
        t.pop();
    }
    t
}
/// C18 grouping nodes by ISP or country
fn c18(c: &Case, info: &mut Info) -> Result<(), String> {
    let n = c.fbas.n();
    let mut r = Rng(c.seed ^ 18);
    let pool = ["Hetzner", "Hetzner.", "Amazon.com, Inc.", "Amazon.com Inc", "a", ".", ",", "", "..", "x,y,.", "Ö", "Zürich", "Co,", "日本", "é.", "Google.com"];
    let k = r.range(1, 5);
    let some: Vec<&str> = (0..k).map(|_| *r.pick(&pool)).collect();
    let pick: Vec<Option<&str>> = (0..n).map(|_| if r.chance(3, 4) { Some(*r.pick(&some)) } else { None }).collect();
    let ks = keys(n, c.seed);
    let isp = c.seed & 1 == 0;
    let nodes: Vec<serde_json::Value> = (0..n)
        .map(|i| {
            let mut o = serde_json::json!({"publicKey": ks[i]});
            if let Some(p) = pick[i] {
                if isp { o["isp"] = p.into() } else { o["geoData"] = serde_json::json!({"countryName": p, "x": 1}) }
            } else if !isp && r.chance(1, 2) {
                o["geoData"] = serde_json::json!({});
            }
            o
        })
        .collect();
    let js = serde_json::to_string(&nodes).unwrap();
    let f = Fbas::from_json_str(&js);
    let g = if isp { Groupings::isps_from_json_str(&js, &f) } else { Groupings::countries_from_json_str(&js, &f) };
    info.evals += n as u64;
    let mut exp: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
    for i in 0..n {
        if let Some(p) = pick[i] {
            exp.entry(norm(p)).or_default().push(i);
        }
    }
    want!(g.number_of_groupings() == exp.len(), "{} groups expected {:?}: {}", g.number_of_groupings(), exp, js);
    for i in 0..n {
        let e = pick[i].map_or(i, |p| exp[&norm(p)][0]);
        want!(g.merge_node(i) == e, "node {} is grouped with {} expected {}: {}", i, g.merge_node(i), e, js);
        want!(g.get_by_member(i).is_some() == pick[i].is_some(), "membership of node {}: {}", i, js);
    }
    for k in exp.keys() {
        want!(g.get_by_name(k).is_some(), "no group named {:?}: {}", k, js);
    }
    if c.seed % 32 < 2 {
        let h = with_file(&js, |p| if isp { Groupings::isps_from_json_file(p, &f) } else { Groupings::countries_from_json_file(p, &f) });
        want!(h == g, "groupings read from a file differ: {:?}", h);
        let gj = serde_json::to_string(&g).unwrap();
        let (a, b) = with_file(&gj, |p| (Groupings::organizations_from_json_file(p, &f), Groupings::from_json_file(p, &f)));
        want!(a == g && b == g, "groupings written and read back differ: {:?} {:?}", a, b);
    }
    let out: serde_json::Value = serde_json::to_value(&g).unwrap();
    let e: serde_json::Value = exp.iter().map(|(k, v)| serde_json::json!({"name": k, "validators": v.iter().map(|&i| ks[i].clone()).collect::<Vec<_>>()})).collect::<Vec<_>>().into();
    want!(out == e, "groups {} expected {}", out, e);
    info.nontrivial = exp.values().any(|v| v.len() > 1);
    Ok(())
}

use fbas_analyzer::simulation::{self, *};

fn undirected(r: &mut Rng, n: usize) -> Vec<Vec<usize>> {
    let mut o = vec![vec![]; n];
    let d = r.range(1, 4);
    for i in 0..n {
        for j in i + 1..n {
            if r.chance(d, 5) {
                o[i].push(j);
                o[j].push(i);
            }
        }
    }
    for l in o.iter_mut() {
        l.sort();
    }
    o
}
/// C19 graphs as AS-relationship text
fn c19(c: &Case, info: &mut Info) -> Result<(), String> {
    let mut r = Rng(c.seed ^ 19);
    let n = r.below(7);
    let o = undirected(&mut r, n);
    // the text has no way to mention isolated nodes at the end
    let last = (0..n).filter(|&i| !o[i].is_empty()).max().map_or(0, |x| x + 1);
    let g = Graph::new(o.clone());
    let txt = Graph::to_as_rel_string(&g, if r.chance(1, 2) { Some("comment 1|2|0") } else { None }).unwrap();
    let back = Graph::from_as_rel_string(&txt);
    info.evals += 3;
    want!(back == Graph::new(o[..last].to_vec()), "round trip of {:?} through {:?} gives {:?}", g, txt, back);
    if c.seed % 32 == 0 {
        let (a, b) = with_file(&txt, |p| {
            let a = Graph::from_as_rel_file(p);
            Graph::to_as_rel_file(&g, p, Some("made by a test")).unwrap();
            (a, Graph::from_as_rel_file(p))
        });
        want!(a == back && b == back, "graph read from a file: {:?} (plain) {:?} (packed) expected {:?}", a, b, back);
    }
    // node numbers far apart
    let far = |r: &mut Rng| match r.below(4) { 0 => r.below(10), 1 => r.range(9, 12), 2 => r.range(60, 130), _ => r.range(250, 300) };
    // reading: every line adds the links it states, and nothing else
    let mut lines = vec![];
    let mut exp: Vec<std::collections::BTreeSet<usize>> = vec![];
    for _ in 0..r.below(8) {
        match r.below(6) {
            0 => lines.push("# 3|4|0".to_string()),
            1 => lines.push("".to_string()),
            _ => {
                let (a, b, p) = if c.seed & 3 == 0 { (far(&mut r), far(&mut r), r.chance(1, 2)) } else { (r.below(6), r.below(6), r.chance(1, 2)) };
                lines.push(format!("{}|{}|{}{}", a, b, if p { 0 } else { -1 }, if r.chance(1, 2) { "|bgp" } else { "" }));
                while exp.len() <= a.max(b) {
                    exp.push(Default::default());
                }
                exp[b].insert(a);
                if p {
                    exp[a].insert(b);
                }
            }
        }
    }
    let got = Graph::from_as_rel_string(&lines.join("\n"));
    let e = Graph::new(exp.iter().map(|s| s.iter().copied().collect()).collect());
    want!(got == e, "{:?} read as {:?} expected {:?}", lines, got, e);
    want!(got.number_of_nodes() == exp.len(), "number_of_nodes");
    let din: Vec<usize> = (0..exp.len()).map(|i| exp.iter().filter(|s| s.contains(&i)).count()).collect();
    want!(got.get_in_degrees() == din, "in degrees of {:?}: {:?}", got, got.get_in_degrees());
    want!(got.get_out_degrees() == exp.iter().map(|s| s.len()).collect::<Vec<_>>(), "out degrees of {:?}", got);
    let conn: Vec<usize> = (0..exp.len()).filter(|&i| din[i] > 0 || !exp[i].is_empty()).collect();
    want!(got.get_connected_nodes().into_iter().collect::<Vec<_>>() == conn, "connected nodes of {:?}", got);
    let und = (0..exp.len()).all(|i| exp[i].iter().all(|&j| exp[j].contains(&i)));
    want!(got.is_undirected() == und, "is_undirected of {:?}", got);
    info.nontrivial = exp.len() > 2;
    Ok(())
}

fn links(g: &Graph) -> Vec<Vec<usize>> {
    // outlinks are not public: read them from the exported text of each direction
    let s = format!("{:?}", g);
    let a = s.find('[').unwrap();
    let b = s.rfind(']').unwrap();
    serde_json::from_str(&s[a..=b]).unwrap()
}
/// C20 graph generators
fn c20(c: &Case, info: &mut Info) -> Result<(), String> {
    let mut r = Rng(c.seed ^ 20);
    info.evals += 5;
    info.nontrivial = true;
    let simple = |what: &str, l: &Vec<Vec<usize>>, n: usize| -> Result<(), String> {
        want!(l.len() == n, "{}: {} nodes expected {}", what, l.len(), n);
        for i in 0..n {
            for (k, &j) in l[i].iter().enumerate() {
                want!(j < n && j != i, "{}: link {} -> {} in {:?}", what, i, j, l);
                want!(!l[i][..k].contains(&j), "{}: repeated link {} -> {} in {:?}", what, i, j, l);
            }
        }
        Ok(())
    };
    let sym = |what: &str, l: &Vec<Vec<usize>>| -> Result<(), String> {
        for i in 0..l.len() {
            for &j in &l[i] {
                want!(l[j].contains(&i), "{}: {} -> {} has no way back in {:?}", what, i, j, l);
            }
        }
        Ok(())
    };
    let n = r.below(9);
    let l = links(&Graph::new_full_mesh(n));
    simple("full mesh", &l, n)?;
    want!(l.iter().all(|x| x.len() + 1 == n), "full mesh of {}: {:?}", n, l);
    let tiers: Vec<usize> = (0..r.below(4)).map(|_| r.range(if c.seed & 3 == 0 { 0 } else { 1 }, 3)).collect();
    let tot: usize = tiers.iter().sum();
    let l = links(&Graph::new_tiered_full_mesh(&tiers));
    simple("tiers", &l, tot)?;
    let mut tier = vec![];
    for (t, &s) in tiers.iter().enumerate() {
        for _ in 0..s {
            tier.push(t);
        }
    }
    for i in 0..tot {
        for j in 0..tot {
            let e = i != j && (tier[i] == tier[j] || tier[j] + 1 == tier[i]);
            want!(l[i].contains(&j) == e, "tiers {:?}: link {} -> {} is {}", tiers, i, j, !e);
        }
    }
    let m0 = r.range(1, 5);
    let m = r.range(1, m0);
    let n = r.range(m0, 12);
    let l = links(&Graph::new_random_scale_free(n, m0, m));
    let what = format!("scale free n={} m0={} m={}", n, m0, m);
    simple(&what, &l, n)?;
    sym(&what, &l)?;
    let edges: usize = l.iter().map(|x| x.len()).sum::<usize>() / 2;
    want!(edges == m0 * (m0 - 1) / 2 + (n - m0) * m, "{}: {} edges", what, edges);
    want!((m0..n).all(|i| l[i].iter().filter(|&&j| j < i).count() == m), "{}: a later node does not have {} links to earlier ones: {:?}", what, m, l);
    let k = 2 * r.range(0, 2);
    let n = k + r.range(1, 8);
    let beta = *r.pick(&[0.0, 0.05, 0.5, 1.0]);
    let l = links(&Graph::new_random_small_world(n, k, beta));
    let what = format!("small world n={} k={} beta={}", n, k, beta);
    simple(&what, &l, n)?;
    sym(&what, &l)?;
    let edges: usize = l.iter().map(|x| x.len()).sum::<usize>() / 2;
    want!(edges == n * k / 2, "{}: {} edges: {:?}", what, edges, l);
    if beta == 0.0 {
        for i in 0..n {
            for j in 0..n {
                let d = (i + n - j) % n;
                let d = d.min(n - d);
                want!(l[i].contains(&j) == (i != j && d <= k / 2), "{}: ring lattice {:?}", what, l);
            }
        }
    }
    // graphs of any kind are told apart by whether every link has its way back
    let nn = r.range(0, 4);
    let d: Vec<Vec<usize>> = (0..nn).map(|i| (0..nn).filter(|&j| j != i && r.chance(1, 3)).collect()).collect();
    let und = (0..nn).all(|i| d[i].iter().all(|&j| d[j].contains(&i)));
    want!(Graph::new(d.clone()).is_undirected() == und, "is_undirected of {:?} is {}", d, !und);
    // shuffling renames nodes: same degree sequence, still symmetric, same number of links
    let o = undirected(&mut r, n);
    let s = links(&Graph::new(o.clone()).shuffled());
    simple("shuffled", &s, n)?;
    sym("shuffled", &s)?;
    let deg = |l: &Vec<Vec<usize>>| {
        let mut d: Vec<usize> = l.iter().map(|x| x.len()).collect();
        d.sort();
        d
    };
    want!(deg(&s) == deg(&o), "shuffling {:?} gives {:?}", o, s);
    let tri = |l: &Vec<Vec<usize>>| (0..l.len()).map(|i| l[i].iter().map(|&j| l[j].iter().filter(|x| l[i].contains(x)).count()).sum::<usize>()).sum::<usize>();
    want!(tri(&s) == tri(&o), "shuffling {:?} is no renaming: {:?}", o, s);
    Ok(())
}

/// C21 threshold arithmetic
fn c21(c: &Case, info: &mut Info) -> Result<(), String> {
    let mut r = Rng(c.seed ^ 21);
    info.nontrivial = true;
    for _ in 0..64 {
        info.evals += 1;
        let n = match r.below(4) {
            0 => r.range(1, 50),
            1 => r.range(1, 100_000),
            2 => (1usize << r.range(1, 52)) + r.below(3),
            _ => r.range(1, (1usize << 52) - 1),
        };
        let t = qsc::calculate_67p_threshold(n);
        let e = (2 * n as u128 + 1).div_ceil(3);
        want!(t as u128 == e, "calculate_67p_threshold({}) = {} expected {}", n, t, e);
        let n = r.below(1000);
        let d = 1usize << r.below(8);
        let x = r.below(d + 1) as f64 / d as f64; // exactly representable
        let num = (x * d as f64) as usize;
        let t = qsc::calculate_x_threshold(n, x);
        let e = 1.max((n * num + d - 1) / d);
        want!(t == e, "calculate_x_threshold({}, {}) = {} expected {}", n, x, t, e);
        let x = r.below(1001) as f64 / 1000.;
        let t = qsc::calculate_x_threshold(n, x);
        want!(t >= 1 && t as f64 >= x * n as f64 && (t == 1 || ((t - 1) as f64) < x * n as f64), "calculate_x_threshold({}, {}) = {}", n, x, t);
    }
    Ok(())
}

/// C22 simulation: growth and quorum set configurators
fn c22(c: &Case, info: &mut Info) -> Result<(), String> {
    use std::rc::Rc;
    let mut r = Rng(c.seed ^ 22);
    let start = if r.chance(1, 2) { 0 } else { r.below(4) };
    let n = r.range(1, 6);
    let tot = start + n;
    let t67 = |k: usize| (2 * k + 1).div_ceil(3);
    let go = |q: Rc<dyn QuorumSetConfigurator>| {
        let mon = Rc::new(monitors::DebugMonitor::new());
        let mut s = Simulator::new(Fbas::new_generic_unconfigured(start), q, Rc::clone(&mon) as Rc<dyn SimulationMonitor>);
        s.simulate_growth(n);
        let before = s.clone().finalize();
        let rounds = s.simulate_global_reevaluation(10);
        let after = s.finalize();
        (before, rounds, after, mon.events_clone())
    };
    let all: Vec<usize> = (0..tot).collect();
    let o = undirected(&mut r, tot);
    let size = r.range(1, 7);
    let desired = if r.chance(1, 2) { Some(r.range(1, size)) } else { None };
    let rel = if r.chance(1, 2) { None } else { Some(r.below(11) as f64 / 10.) };
    let thr = |k: usize| rel.map_or(t67(k), |x: f64| 1.max((x * k as f64).ceil() as usize));
    let kind = r.below(7);
    let (before, rounds, after, ev) = match kind {
        0 => go(Rc::new(qsc::IdealQsc::new())),
        1 => go(Rc::new(qsc::SuperSafeQsc::new())),
        2 => go(Rc::new(qsc::RandomQsc::new(size, desired, if r.chance(1, 2) { Some(vec![2; tot]) } else { None }))),
        3 => go(Rc::new(qsc::DummyQsc)),
        4 => go(Rc::new(qsc::AllNeighborsQsc::new(Graph::new(o.clone()), rel))),
        5 => go(Rc::new(qsc::GlobalRankQsc::new(Graph::new(o.clone()), rel))),
        _ => go(Rc::new(qsc::HigherTierNeighborsQsc::new(Graph::new(o.clone()), rel, r.chance(1, 2)))),
    };
    info.evals += 1;
    info.nontrivial = true;
    let what = ["ideal", "super safe", "random", "dummy", "all neighbors", "global rank", "higher tier"][kind];
    info.tag(what);
    want!(before.number_of_nodes() == tot, "{}: {} nodes after growing {} by {}", what, before.number_of_nodes(), start, n);
    for i in 0..tot {
        want!(before.get_node_id(&format!("n{}", i)) == Some(i), "{}: node n{} lost", what, i);
    }
    let adds: Vec<usize> = ev.iter().filter_map(|e| if let Event::AddNode(i) = e { Some(*i) } else { None }).collect();
    want!(adds == (start..tot).collect::<Vec<_>>(), "{}: additions {:?}", what, adds);
    want!(rounds >= 1 && rounds <= 10, "{}: {} rounds", what, rounds);
    // the last round of a settled system changes nothing; Change is reported iff something changed
    let last_round = ev.iter().rposition(|e| matches!(e, Event::StartGlobalReevaluationRound)).unwrap();
    let last: Vec<&Event> = ev[last_round..].iter().collect();
    let touched: std::collections::BTreeSet<usize> = last.iter().filter_map(|e| if let Event::QuorumSetChange(i, _) = e { Some(*i) } else { None }).collect();
    want!(touched.into_iter().collect::<Vec<_>>() == all, "{}: a round does not visit every node once", what);
    let changed = last.iter().any(|e| matches!(e, Event::QuorumSetChange(_, ChangeEffect::Change)));
    want!(rounds == 10 || !changed, "{}: stopped after {} rounds although the last one changed something", what, rounds);
    want!(rounds == 1 || [2, 5, 6].contains(&kind), "{}: {} rounds although settled", what, rounds);
    if rounds == 1 {
        want!(after == before, "{}: a round without reported change changed the FBAS", what);
    }
    let conn = Graph::new(o.clone()).get_connected_nodes();
    for i in 0..tot {
        let q = model_q(&after.get_quorum_set(i).unwrap());
        want!(q.i.is_empty(), "{}: inner sets {:?}", what, q);
        want!(q.entries() == q.v.iter().collect::<std::collections::BTreeSet<_>>().len(), "{}: repeated validators {:?}", what, q);
        match kind {
            0 => want!(q == Q { t: t67(tot) as u64, v: all.clone(), i: vec![] }, "{}: {:?}", what, q),
            1 => want!(q == Q { t: tot as u64, v: all.clone(), i: vec![] }, "{}: {:?}", what, q),
            2 => {
                let k = size.min(tot);
                want!(q.v.len() == k && q.v.contains(&i) && q.v.iter().all(|&x| x < tot), "{}: size {} in {} nodes: {:?}", what, size, tot, q);
                let e = desired.unwrap_or(t67(k));
                want!(q.t as usize == e, "{}: threshold of {:?} expected {}", what, q, e);
            }
            3 => want!(q == Q::empty(), "{}: {:?}", what, q),
            4 => {
                let mut v = o[i].clone();
                v.push(i);
                v.sort();
                let e = if conn.contains(i) { Q { t: thr(v.len()) as u64, v, i: vec![] } } else { Q::empty() };
                want!(q == e, "{}: node {} has {:?} expected {:?} in {:?}", what, i, q, e, o);
            }
            5 => {
                if o[i].is_empty() {
                    want!(q == Q::empty(), "{}: unconnected node {} has {:?}", what, i, q);
                } else {
                    if !q.v.is_empty() { want!(q.t as usize == thr(q.v.len()), "{}: threshold of {:?}", what, q); }
                    let first = model_q(&after.get_quorum_set((0..tot).find(|&j| !o[j].is_empty()).unwrap()).unwrap());
                    want!(q == first, "{}: {:?} differs from {:?}", what, q, first);
                }
            }
            _ => {
                if conn.contains(i) {
                    want!(q.v.contains(&i) && q.t as usize == thr(q.v.len()), "{}: node {} has {:?}", what, i, q);
                } else {
                    want!(q == Q::empty(), "{}: unconnected node {} has {:?}", what, i, q);
                }
            }
        }
    }
    if kind < 2 {
        let a = Analysis::new(&after);
        want!(a.has_quorum_intersection(), "{}: no quorum intersection with {} nodes", what, tot);
        let f = if kind == 0 { (tot - 1) / 3 } else { 0 };
        let mbs = a.minimal_blocking_sets();
        want!(mbs.min() == f + 1, "{}: {} failures stop {} nodes", what, mbs.min(), tot);
    }
    c22_configured(&mut r, info)
}

/// C22 on FBASs whose nodes already have quorum sets
fn c22_configured(r: &mut Rng, info: &mut Info) -> Result<(), String> {
    use std::rc::Rc;
    let start = r.range(1, 5);
    let n = r.below(4);
    let tot = start + n;
    let t67 = |k: usize| (2 * k + 1).div_ceil(3);
    let nodes: Vec<String> = (0..start).map(|i| format!("{{\"publicKey\": \"x{}\"}}", i)).collect();
    let mut f0 = Fbas::from_json_str(&format!("[{}]", nodes.join(", ")));
    for i in 0..start {
        let k = r.below(4);
        let mut v: Vec<usize> = match r.below(4) {
            0 => vec![],
            1 => (0..k).map(|_| r.below(start)).collect(),
            2 => (0..tot).map(|_| r.below(start)).collect(),
            _ => (0..start).collect(),
        };
        if r.chance(1, 4) {
            r.shuffle(&mut v);
        }
        let inner = if r.chance(1, 4) { vec![QuorumSet { threshold: r.below(3), validators: vec![r.below(start)], inner_quorum_sets: vec![] }] } else { vec![] };
        let threshold = match r.below(5) {
            0 => t67(tot),
            1 => tot,
            2 => t67(v.len().max(1)),
            3 => v.len() + inner.len(),
            _ => r.below(tot + 2),
        };
        f0.swap_quorum_set(i, QuorumSet { threshold, validators: v, inner_quorum_sets: inner });
    }
    let o = undirected(r, tot);
    let graph = || Graph::new(o.clone());
    let size = r.range(1, 7);
    let desired = if r.chance(1, 2) { Some(r.range(1, size)) } else { None };
    let rel = if r.chance(1, 2) { None } else { Some(r.below(11) as f64 / 10.) };
    let thr = |k: usize| rel.map_or(t67(k), |x: f64| 1.max((x * k as f64).ceil() as usize));
    let kind = r.below(7);
    let what = ["ideal", "super safe", "random", "dummy", "all neighbors", "global rank", "higher tier"][kind];
    let q: Rc<dyn QuorumSetConfigurator> = match kind {
        0 => Rc::new(qsc::IdealQsc::new()),
        1 => Rc::new(qsc::SuperSafeQsc::new()),
        2 => Rc::new(qsc::RandomQsc::new(size, desired, None)),
        3 => Rc::new(qsc::DummyQsc),
        4 => Rc::new(qsc::AllNeighborsQsc::new(graph(), rel)),
        5 => Rc::new(qsc::GlobalRankQsc::new(graph(), rel)),
        _ => Rc::new(qsc::HigherTierNeighborsQsc::new(graph(), rel, r.chance(1, 2))),
    };
    let mon = Rc::new(monitors::DebugMonitor::new());
    // a single round: a change is reported for the nodes whose quorum set has changed
    // (random and ranked ones may report one that leaves things as they are)
    let mon1 = Rc::new(monitors::DebugMonitor::new());
    let mut s1 = Simulator::new(f0.clone(), Rc::clone(&q), Rc::clone(&mon1) as Rc<dyn SimulationMonitor>);
    if kind < 2 || kind == 3 || o.len() == start {
        want!(s1.simulate_global_reevaluation(1) == 1, "{}: not one round", what);
        let f1 = s1.finalize();
        for e in mon1.events_clone() {
            if let Event::QuorumSetChange(i, c) = e {
                let differs = f0.get_quorum_set(i) != f1.get_quorum_set(i);
                let said = matches!(c, ChangeEffect::Change);
                want!(said == differs || said && (kind == 2 || kind == 5), "{}: node {} from {:?} to {:?} is reported as {:?}", what, i, f0.get_quorum_set(i), f1.get_quorum_set(i), c);
            }
        }
    }
    let mut s = Simulator::new(f0.clone(), q, Rc::clone(&mon) as Rc<dyn SimulationMonitor>);
    s.simulate_growth(n);
    let before = s.clone().finalize();
    let rounds = s.simulate_global_reevaluation(10);
    let after = s.finalize();
    let ev = mon.events_clone();
    info.evals += 1;
    want!(after.number_of_nodes() == tot, "{}: {} nodes after growing {} by {}", what, after.number_of_nodes(), start, n);
    for i in 0..tot {
        let id = if i < start { format!("x{}", i) } else { format!("n{}", i) };
        want!(after.get_node_id(&id) == Some(i), "{}: node {} lost", what, id);
    }
    let adds: Vec<usize> = ev.iter().filter_map(|e| if let Event::AddNode(i) = e { Some(*i) } else { None }).collect();
    want!(adds == (start..tot).collect::<Vec<_>>(), "{}: additions {:?}", what, adds);
    let last_round = ev.iter().rposition(|e| matches!(e, Event::StartGlobalReevaluationRound)).unwrap();
    let changed = ev[last_round..].iter().any(|e| matches!(e, Event::QuorumSetChange(_, ChangeEffect::Change)));
    want!(rounds == 10 || !changed, "{}: stopped after {} rounds although the last one changed something", what, rounds);
    want!(rounds > 1 || after == before, "{}: a round without reported change changed the FBAS", what);
    want!(rounds == 1 || n == 0 && rounds == 2 || [2, 5, 6].contains(&kind), "{}: {} rounds although settled", what, rounds);
    let conn = graph().get_connected_nodes();
    let first = (0..tot).find(|&j| !o[j].is_empty() && (j >= start || f0.get_quorum_set(j).unwrap() == QuorumSet::new())).map(|j| after.get_quorum_set(j).unwrap());
    for i in 0..tot {
        let q0 = if i < start { f0.get_quorum_set(i).unwrap() } else { QuorumSet::new() };
        let q = after.get_quorum_set(i).unwrap();
        let flat = |t: usize, v: Vec<usize>| QuorumSet { threshold: t, validators: v, inner_quorum_sets: vec![] };
        let all: Vec<usize> = (0..tot).collect();
        match kind {
            0 => want!(q == flat(t67(tot), all), "{}: node {} with {:?} got {:?} among {}", what, i, q0, q, tot),
            1 => want!(q == flat(tot, all), "{}: node {} with {:?} got {:?} among {}", what, i, q0, q, tot),
            2 => {
                let v0 = if q0.validators.is_empty() { vec![i] } else { q0.validators.clone() };
                want!(q.inner_quorum_sets == q0.inner_quorum_sets && q.validators.starts_with(&v0), "{}: {:?} became {:?}", what, q0, q);
                if !q0.validators.is_empty() && v0.len() >= size {
                    want!(q == q0, "{}: complete {:?} became {:?}", what, q0, q);
                } else {
                    let k = size.min(tot);
                    want!(q.validators.len() == k.max(v0.len()) && q.threshold == desired.unwrap_or(t67(k)), "{}: size {} threshold {:?}: {:?} became {:?} among {}", what, size, desired, q0, q, tot);
                    let new = &q.validators[v0.len()..];
                    want!(new.iter().enumerate().all(|(j, x)| *x < tot && !v0.contains(x) && !new[..j].contains(x)), "{}: {:?} became {:?}", what, q0, q);
                }
            }
            3 => want!(q == q0, "{}: {:?} became {:?}", what, q0, q),
            4 => {
                let mut v = o[i].clone();
                v.push(i);
                v.sort();
                let e = if q0 == QuorumSet::new() && conn.contains(i) { flat(thr(v.len()), v) } else { q0.clone() };
                want!(q == e, "{}: node {} with {:?} has {:?} expected {:?} in {:?}", what, i, q0, q, e, o);
            }
            5 => {
                if q0 == QuorumSet::new() && !o[i].is_empty() {
                    want!(Some(&q) == first.as_ref(), "{}: node {} has {:?}, others {:?}", what, i, q, first);
                } else {
                    want!(q == q0, "{}: node {}: {:?} became {:?}", what, i, q0, q);
                }
            }
            _ => {
                if conn.contains(i) {
                    want!(q.validators.contains(&i) && q.threshold == thr(q.validators.len()) && q.inner_quorum_sets.is_empty(), "{}: node {} with {:?} has {:?}", what, i, q0, q);
                } else {
                    want!(q == q0, "{}: unconnected node {} with {:?} has {:?}", what, i, q0, q);
                }
            }
        }
    }
    Ok(())
}
