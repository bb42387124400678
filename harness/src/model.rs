//! Independent brute-force reading of the definitions (oracle).  Node sets are bit masks.
use serde::{Deserialize, Serialize};

pub type M = u32;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
pub struct Q {
    pub t: u64,
    pub v: Vec<usize>,
    #[serde(default)]
    pub i: Vec<Q>,
}
impl Q {
    pub fn empty() -> Q {
        Q { t: 0, v: vec![], i: vec![] }
    }
    /// a threshold of 0 is never met; otherwise count members (entries) that agree
    pub fn sat(&self, s: M) -> bool {
        if self.t == 0 {
            return false;
        }
        let mut c: u64 = 0;
        for &x in &self.v {
            if s >> x & 1 == 1 {
                c += 1;
            }
        }
        for q in &self.i {
            if q.sat(s) {
                c += 1;
            }
        }
        c >= self.t
    }
    /// number of member combinations an explicit expansion has to go through
    pub fn expansion(&self) -> f64 {
        let mut e = vec![1.0f64];
        for c in self.v.iter().map(|_| 1.0).chain(self.i.iter().map(|q| q.expansion())) {
            e.push(0.0);
            for k in (1..e.len()).rev() {
                e[k] += e[k - 1] * c;
            }
        }
        e.get(self.t as usize).copied().unwrap_or(0.0).max(self.i.iter().map(|q| q.expansion()).fold(0.0, f64::max))
    }
    pub fn nodes(&self) -> M {
        let mut m = 0;
        for &x in &self.v {
            m |= 1 << x;
        }
        for q in &self.i {
            m |= q.nodes();
        }
        m
    }
    pub fn entries(&self) -> usize {
        self.v.len() + self.i.iter().map(|q| q.entries()).sum::<usize>()
    }
    pub fn max_id(&self) -> Option<usize> {
        self.v.iter().copied().chain(self.i.iter().filter_map(|q| q.max_id())).max()
    }
    pub fn map(&self, f: &dyn Fn(usize) -> usize) -> Q {
        Q { t: self.t, v: self.v.iter().map(|&x| f(x)).collect(), i: self.i.iter().map(|q| q.map(f)).collect() }
    }
    pub fn drop_node(&self, k: usize) -> Q {
        Q {
            t: self.t,
            v: self.v.iter().filter(|&&x| x != k).map(|&x| if x > k { x - 1 } else { x }).collect(),
            i: self.i.iter().map(|q| q.drop_node(k)).collect(),
        }
    }
    pub fn sorted(&self) -> Q {
        let mut v = self.v.clone();
        v.sort();
        let mut i: Vec<Q> = self.i.iter().map(|q| q.sorted()).collect();
        i.sort_by(|a, b| a.cmp_repo(b));
        Q { t: self.t, v, i }
    }
    pub fn cmp_repo(&self, o: &Q) -> std::cmp::Ordering {
        (self.t, &self.v).cmp(&(o.t, &o.v)).then_with(|| {
            for (a, b) in self.i.iter().zip(o.i.iter()) {
                let c = a.cmp_repo(b);
                if c != std::cmp::Ordering::Equal {
                    return c;
                }
            }
            self.i.len().cmp(&o.i.len())
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct F(pub Vec<Q>);

pub fn ids(m: M) -> Vec<usize> {
    (0..32).filter(|&i| m >> i & 1 == 1).collect()
}
pub fn mask(v: impl IntoIterator<Item = usize>) -> M {
    v.into_iter().fold(0, |a, x| a | 1 << x)
}
pub fn minimal(v: &[M]) -> Vec<M> {
    let mut r: Vec<M> = v.iter().copied().filter(|&x| !v.iter().any(|&y| y != x && y & x == y)).collect();
    r.sort();
    r.dedup();
    r
}
pub fn setcmp(a: &M, b: &M) -> std::cmp::Ordering {
    ids(*a).cmp(&ids(*b))
}
/// by size, ties by sorted member list
pub fn canonical(mut v: Vec<M>) -> Vec<M> {
    v.sort_by(|a, b| a.count_ones().cmp(&b.count_ones()).then(setcmp(a, b)));
    v
}

impl F {
    pub fn n(&self) -> usize {
        self.0.len()
    }
    pub fn all(&self) -> M {
        ((1u64 << self.n()) - 1) as M
    }
    pub fn valid(&self) -> bool {
        self.n() <= 12 && self.0.iter().all(|q| q.max_id().map_or(true, |m| m < self.n()))
    }
    pub fn is_quorum(&self, s: M) -> bool {
        s != 0 && ids(s).iter().all(|&x| self.0[x].sat(s))
    }
    pub fn quorums(&self) -> Vec<M> {
        (1..=self.all()).filter(|&s| self.is_quorum(s)).collect()
    }
    pub fn minimal_quorums(&self) -> Vec<M> {
        canonical(minimal(&self.quorums()))
    }
    /// union of all self-sufficient subsets of s
    pub fn greatest(&self, s: M) -> M {
        let mut r = 0;
        let mut sub = s;
        loop {
            if ids(sub).iter().all(|&x| self.0[x].sat(sub)) {
                r |= sub;
            }
            if sub == 0 {
                break;
            }
            sub = (sub - 1) & s;
        }
        r
    }
    pub fn has_quorum(&self, s: M) -> bool {
        self.greatest(s) != 0
    }
    pub fn has_qi(&self) -> bool {
        let q = self.quorums();
        !q.is_empty() && q.iter().all(|a| q.iter().all(|b| a & b != 0))
    }
    pub fn minimal_blocking(&self) -> Vec<M> {
        let q = self.quorums();
        let b: Vec<M> = (0..=self.all()).filter(|s| q.iter().all(|x| x & s != 0)).collect();
        canonical(minimal(&b))
    }
    pub fn minimal_splitting(&self) -> Vec<M> {
        let q = self.minimal_quorums();
        let mut r = vec![];
        for (i, a) in q.iter().enumerate() {
            for b in &q[i + 1..] {
                r.push(a & b);
            }
        }
        canonical(minimal(&r))
    }
    /// reachability closure inside s (reflexive)
    pub fn reach(&self, s: M) -> Vec<M> {
        let n = self.n();
        let mut r: Vec<M> = (0..n).map(|i| if s >> i & 1 == 1 { (self.0[i].nodes() & s) | 1 << i } else { 0 }).collect();
        for k in 0..n {
            for i in 0..n {
                if r[i] >> k & 1 == 1 {
                    r[i] |= r[k];
                }
            }
        }
        r
    }
    /// the classes of mutual reachability where paths may use any node of the FBAS
    pub fn sccs(&self, s: M) -> Vec<M> {
        let r = self.reach(self.all());
        let mut out: Vec<M> = vec![];
        for i in ids(s) {
            let c = mask(ids(s).into_iter().filter(|&j| r[i] >> j & 1 == 1 && r[j] >> i & 1 == 1));
            if !out.contains(&c) {
                out.push(c);
            }
        }
        out.sort();
        out
    }
    pub fn relevant(&self) -> M {
        self.sccs(self.greatest(self.all())).into_iter().filter(|&c| self.has_quorum(c)).fold(0, |a, c| a | c)
    }
    pub fn clusters(&self) -> Vec<Q> {
        let mut out: Vec<Q> = vec![];
        for q in &self.0 {
            let c = q.nodes();
            if c != 0 && !out.contains(q) && ids(c).iter().all(|&x| &self.0[x] == q) && self.has_quorum(c) {
                out.push(q.clone());
            }
        }
        out
    }
    pub fn permuted(&self, p: &[usize]) -> F {
        // node i becomes p[i]
        let mut out = vec![Q::empty(); self.n()];
        for (i, q) in self.0.iter().enumerate() {
            out[p[i]] = q.map(&|x| p[x]);
        }
        F(out)
    }
}
