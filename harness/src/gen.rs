use crate::model::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn subset(&mut self, v: &[usize], num: usize, den: usize) -> Vec<usize> {
        v.iter().copied().filter(|_| self.chance(num, den)).collect()
    }
}

const HUGE: [u64; 5] = [9007199254740991, u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 40];

pub fn threshold(r: &mut Rng, k: usize, weird: bool) -> u64 {
    if weird && r.chance(1, 6) {
        match r.below(4) {
            0 => 0,
            1 => k as u64 + 1,
            2 => *r.pick(&HUGE),
            _ => k as u64 + 2,
        }
    } else if k == 0 {
        r.below(2) as u64
    } else if r.chance(1, 2) {
        (k / 2 + 1) as u64
    } else {
        r.range(1, k) as u64
    }
}
pub fn qset(r: &mut Rng, pool: &[usize], depth: usize, weird: bool) -> Q {
    let mut v = r.subset(pool, if depth == 0 { 3 } else { 2 }, 5);
    if r.chance(1, 12) && !v.is_empty() {
        let d = *r.pick(&v);
        v.push(d);
    }
    let mut i = vec![];
    if depth > 0 {
        for _ in 0..r.below(4) {
            i.push(qset(r, pool, depth - 1, weird));
        }
    }
    if v.is_empty() && i.is_empty() && !pool.is_empty() {
        v.push(*r.pick(pool));
    }
    let k = v.len() + i.len();
    Q { t: threshold(r, k, weird), v, i }
}
/// a quorum set using each member of `pool` exactly once
pub fn partitioned(r: &mut Rng, pool: &[usize], depth: usize, weird: bool) -> Q {
    if depth == 0 || pool.len() < 2 {
        return Q { t: threshold(r, pool.len(), weird), v: pool.to_vec(), i: vec![] };
    }
    let mut p = pool.to_vec();
    r.shuffle(&mut p);
    let groups = r.range(1, p.len().min(4));
    let mut parts: Vec<Vec<usize>> = vec![vec![]; groups + 1];
    for x in p {
        let g = r.below(groups + 1);
        parts[g].push(x);
    }
    let mut v = parts.pop().unwrap();
    v.sort();
    let i: Vec<Q> = parts.into_iter().filter(|g| !g.is_empty()).map(|mut g| { g.sort(); partitioned(r, &g, depth - 1, weird) }).collect();
    let k = v.len() + i.len();
    let mut t = threshold(r, k, false);
    if weird && r.chance(1, 30) {
        t = threshold(r, k, true);
    }
    Q { t, v, i }
}

/// how many sets an expansion of the quorum set lists: every choice of as many members as `pick` says, every choice of
/// one of its own sets for each
fn listed(q: &Q, pick: fn(&Q, usize) -> usize) -> f64 {
    let inner: Vec<f64> = q.i.iter().filter(|q| q.sat(q.nodes())).map(|q| listed(q, pick)).collect();
    let most = q.i.iter().map(|q| listed(q, pick)).fold(0., f64::max);
    let k = q.v.len() + inner.len();
    let t = pick(q, k);
    if t > k {
        return most;
    }
    let mut e = vec![0f64; t + 1];
    e[0] = 1.;
    for c in q.v.iter().map(|_| 1.).chain(inner) {
        for j in (1..=t).rev() {
            e[j] += e[j - 1] * c;
        }
    }
    most.max(e[t])
}
/// the largest of the lists that expanding the quorum set into slices, blocking or splitting sets comes to
pub fn slice_count(q: &Q) -> f64 {
    listed(q, |q, _| q.t.min(1000) as usize)
        .max(listed(q, |q, k| (k + 1).saturating_sub(q.t.min(1000) as usize)))
        .max(listed(q, |q, k| (2 * q.t.min(1000) as usize).saturating_sub(k)))
}
/// sizes: `max` nodes at most; no quorum set that expands to so many slices that listing them takes long
pub fn fbas(r: &mut Rng, max: usize) -> F {
    loop {
        let f = any_fbas(r, max);
        if f.0.iter().all(|q| slice_count(q) <= 20000.) {
            return f;
        }
    }
}
fn any_fbas(r: &mut Rng, max: usize) -> F {
    let n = if r.chance(1, 60) { 0 } else { r.range(1, max) };
    let all: Vec<usize> = (0..n).collect();
    let weird = r.chance(1, 3);
    let mut f = match r.below(10) {
        0 => F((0..n).map(|_| qset(r, &all, 0, weird)).collect()),
        1 => F((0..n).map(|_| qset(r, &all, 1, weird)).collect()),
        2 => F((0..n).map(|_| qset(r, &all, 2, weird)).collect()),
        3 => {
            let q = Q { t: threshold(r, n, false), v: all.clone(), i: vec![] };
            F(vec![q; n])
        }
        4 => {
            let q = partitioned(r, &all, 2, weird);
            F(vec![q; n])
        }
        5 => {
            // the same nested quorum set for everyone, members may repeat
            let mut q = partitioned(r, &all, 1, weird);
            for _ in 0..r.range(1, 2) {
                let e = { let d = r.below(2); qset(r, &all, d, weird) };
                q.i.push(e);
            }
            let k = q.v.len() + q.i.len();
            q.t = threshold(r, k, false);
            F(vec![q; n])
        }
        6 => {
            // near-symmetric
            let q = if r.chance(1, 2) { partitioned(r, &all, 1, weird) } else { Q { t: threshold(r, n, false), v: all.clone(), i: vec![] } };
            let mut f = vec![q; n];
            for _ in 0..r.range(1, 2) {
                if n > 0 {
                    let k = r.below(n);
                    f[k] = qset(r, &all, 1, weird);
                }
            }
            F(f)
        }
        7 => {
            // core + followers
            let c = if n == 0 { 0 } else { r.range(1, n) };
            let core: Vec<usize> = (0..c).collect();
            let q = { let d = r.below(2); partitioned(r, &core, d, weird) };
            F((0..n).map(|x| if x < c { q.clone() } else { qset(r, &all[..x + 1], 1, weird) }).collect())
        }
        8 => {
            // two clusters, perhaps weakly joined
            let c = n / 2;
            let a: Vec<usize> = (0..c).collect();
            let b: Vec<usize> = (c..n).collect();
            let qa = { let d = r.below(2); partitioned(r, &a, d, weird) };
            let qb = { let d = r.below(2); partitioned(r, &b, d, weird) };
            let mut f: Vec<Q> = (0..n).map(|x| if x < c { qa.clone() } else { qb.clone() }).collect();
            if r.chance(2, 3) && n > 0 {
                for _ in 0..r.range(1, 2) {
                    let k = r.below(n);
                    f[k] = qset(r, &all, 1, weird);
                }
            }
            F(f)
        }
        _ => {
            // majority-like flat sets over overlapping windows
            F((0..n)
                .map(|x| {
                    let w = r.range(1, n);
                    let mut v: Vec<usize> = (0..w).map(|k| (x + k) % n).collect();
                    v.sort();
                    Q { t: (w / 2 + 1) as u64, v, i: vec![] }
                })
                .collect())
        }
    };
    if n > 0 {
        let mut p = all.clone();
        r.shuffle(&mut p);
        if r.chance(2, 3) {
            f = f.permuted(&p);
            // most tools emit sorted lists; sometimes keep them unsorted
            if r.chance(3, 4) {
                f = F(f.0.iter().map(|q| q.sorted()).collect());
            }
        }
    }
    f
}

pub fn shrinks(f: &F) -> Vec<F> {
    let mut out = vec![];
    for k in 0..f.n() {
        let mut g: Vec<Q> = f.0.clone();
        g.remove(k);
        out.push(F(g.iter().map(|q| q.drop_node(k)).collect()));
    }
    for k in 0..f.n() {
        for q in qshrinks(&f.0[k]) {
            let mut g = f.clone();
            g.0[k] = q;
            out.push(g);
        }
    }
    // all equal quorum sets together
    if f.n() > 1 {
        for q in qshrinks(&f.0[0]) {
            let g = F(f.0.iter().map(|x| if *x == f.0[0] { q.clone() } else { x.clone() }).collect());
            out.push(g);
        }
    }
    out.retain(|f| f.0.iter().all(|q| slice_count(q) <= 20000.));
    out
}
pub fn qshrinks(q: &Q) -> Vec<Q> {
    let mut out = vec![];
    for k in 0..q.v.len() {
        let mut g = q.clone();
        g.v.remove(k);
        out.push(g.clone());
        if g.t > 1 {
            g.t -= 1;
            out.push(g);
        }
    }
    for k in 0..q.i.len() {
        let mut g = q.clone();
        g.i.remove(k);
        out.push(g.clone());
        if g.t > 1 {
            g.t -= 1;
            out.push(g);
        }
        for s in qshrinks(&q.i[k]) {
            let mut g = q.clone();
            g.i[k] = s;
            out.push(g);
        }
    }
    if q.t > 16 {
        let mut g = q.clone();
        g.t = 16;
        out.push(g);
    }
    if q.t > 1 && q.t <= 16 {
        let mut g = q.clone();
        g.t -= 1;
        out.push(g);
    }
    out
}
