mod gen;
mod model;
mod props;

use gen::Rng;
use model::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub fbas: F,
    /// everything else the property needs (queries, groupings, histories) is derived from this
    pub seed: u64,
}

#[derive(Default)]
pub struct Info {
    pub tags: Vec<&'static str>,
    pub nontrivial: bool,
    /// sub-inputs actually examined (e.g. node sets queried)
    pub evals: u64,
}
impl Info {
    pub fn tag(&mut self, t: &'static str) {
        if !self.tags.contains(&t) {
            self.tags.push(t);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub max_nodes: usize,
    pub run: fn(&Case, &mut Info) -> Result<(), String>,
    /// special corpus appended before the random cases
    pub fixed: fn() -> Vec<Case>,
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub fn guarded(p: &Prop, c: &Case, info: &mut Info) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(c, info))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panicked: {}", m))
        }
    }
}

fn shrink(p: &Prop, mut c: Case, mut msg: String, deadline: Instant) -> (Case, String) {
    loop {
        let mut improved = false;
        let mut cands: Vec<Case> = gen::shrinks(&c.fbas).into_iter().map(|f| Case { fbas: f, seed: c.seed }).collect();
        for s in 0..4u64 {
            if c.seed > s {
                cands.push(Case { fbas: c.fbas.clone(), seed: s });
            }
        }
        for d in cands {
            if Instant::now() > deadline {
                return (c, msg);
            }
            if let Err(m) = guarded(p, &d, &mut Info::default()) {
                c = d;
                msg = m;
                improved = true;
                break;
            }
        }
        if !improved {
            return (c, msg);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|_| {}));
    let props = props::all();
    if args.get(1).map(|s| s.as_str()) == Some("list") {
        for p in &props {
            println!("{}", p.id);
        }
        return;
    }
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        let txt = std::fs::read_to_string(&args[2]).unwrap();
        let v: serde_json::Value = serde_json::from_str(&txt).unwrap();
        let c: Case = serde_json::from_value(v["case"].clone()).unwrap();
        let p = props.iter().find(|p| Some(p.id) == v["property"].as_str()).unwrap();
        match guarded(p, &c, &mut Info::default()) {
            Ok(()) => println!("holds on this case"),
            Err(m) => {
                println!("VIOLATED: {}", m);
                std::process::exit(1)
            }
        }
        return;
    }
    let id = get("--property").expect("--property");
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
    let secs: f64 = get("--seconds").map_or(5.0, |s| s.parse().unwrap());
    let maxcases: u64 = get("--cases").map_or(u64::MAX, |s| s.parse().unwrap());
    let threads: usize = get("--threads").map_or(4, |s| s.parse().unwrap());
    let bigger: usize = get("--bigger").map_or(0, |s| s.parse().unwrap());
    let scratch = get("--scratch").unwrap_or_else(|| "/tmp".into());
    props::SCRATCH.set(scratch.clone()).ok();
    let hang: u64 = get("--hang").map_or(20, |s| s.parse().unwrap());
    let p = Arc::new(props.into_iter().find(|p| p.id == id).expect("unknown property"));

    let start = Instant::now();
    let deadline = start + Duration::from_secs_f64(secs);
    let counter = Arc::new(AtomicU64::new(0));
    struct Tot {
        evaluations: u64,
        evals: u64,
        distinct: HashSet<u64>,
        tags: BTreeMap<String, u64>,
        samples: Vec<serde_json::Value>,
        violation: Option<(Case, String)>,
    }
    let tot = Arc::new(Mutex::new(Tot { evaluations: 0, evals: 0, distinct: HashSet::new(), tags: BTreeMap::new(), samples: vec![], violation: None }));
    let mut hs = vec![];
    // (started at ms, case) per thread, for the watchdog
    let beat: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(0)).collect());
    let fixed = Arc::new((p.fixed)());
    for t in 0..threads {
        let (p, counter, tot, fixed, beat, scratch) = (p.clone(), counter.clone(), tot.clone(), fixed.clone(), beat.clone(), scratch.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut cur = std::fs::File::create(format!("{}/current.{}.json", scratch, t)).unwrap();
                    let mut local = (0u64, 0u64, HashSet::new(), BTreeMap::<String, u64>::new(), vec![]);
                    loop {
                        let k = counter.fetch_add(1, Ordering::SeqCst);
                        if k >= maxcases || (Instant::now() > deadline && k >= fixed.len() as u64) || tot.lock().unwrap().violation.is_some() {
                            break;
                        }
                        let c = if (k as usize) < fixed.len() {
                            fixed[k as usize].clone()
                        } else {
                            let mut r = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ k.wrapping_mul(0x9E3779B97F4A7C15) ^ hash(p.id));
                            r.next();
                            let max = if r.chance(1, 2) { 4.min(p.max_nodes) } else { p.max_nodes + bigger };
                            Case { fbas: gen::fbas(&mut r, max), seed: r.next() }
                        };
                        let txt = serde_json::to_string(&c).unwrap();
                        let _ = cur.seek(SeekFrom::Start(0));
                        let _ = cur.write_all(format!("{}\n", txt).as_bytes());
                        let _ = cur.set_len(txt.len() as u64 + 1);
                        beat[t].store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                        let mut info = Info::default();
                        let r = guarded(&p, &c, &mut info);
                        beat[t].store(0, Ordering::SeqCst);
                        if let Err(m) = r {
                            let (c, m) = shrink(&p, c, m, Instant::now() + Duration::from_secs(10));
                            let mut g = tot.lock().unwrap();
                            if g.violation.is_none() {
                                g.violation = Some((c, m));
                            }
                            break;
                        }
                        local.0 += 1;
                        local.1 += info.evals;
                        if info.nontrivial {
                            local.2.insert(hash(&txt));
                        }
                        for tg in info.tags {
                            *local.3.entry(tg.to_string()).or_default() += 1;
                        }
                        if local.4.len() < 2 && info.nontrivial && k % 7 == 0 {
                            local.4.push(serde_json::to_value(&c).unwrap());
                        }
                    }
                    let mut g = tot.lock().unwrap();
                    g.evaluations += local.0;
                    g.evals += local.1;
                    g.distinct.extend(local.2);
                    for (k, v) in local.3 {
                        *g.tags.entry(k).or_default() += v;
                    }
                    g.samples.extend(local.4);
                })
                .unwrap(),
        );
    }
    // watchdog: a case on a handful of nodes that runs this long does not terminate in practice
    {
        let (beat, scratch, id) = (beat.clone(), scratch.clone(), id.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = start.elapsed().as_millis() as u64;
            for (t, b) in beat.iter().enumerate() {
                let s = b.load(Ordering::SeqCst);
                if s != 0 && now > s + hang * 1000 {
                    let c = std::fs::read_to_string(format!("{}/current.{}.json", scratch, t)).unwrap_or_default();
                    let c: serde_json::Value = serde_json::from_str(&c).unwrap_or(serde_json::Value::Null);
                    println!(
                        "{}",
                        serde_json::json!({"property": id, "evaluations": 0, "violation": {"case": c, "message": format!("no answer within {} s on this input", hang)}})
                    );
                    std::process::exit(1);
                }
            }
        });
    }
    for h in hs {
        h.join().unwrap();
    }
    let g = tot.lock().unwrap();
    let viol = g.violation.as_ref().map(|(c, m)| serde_json::json!({"case": c, "message": m, "fbas_json": props::to_json(&c.fbas, &props::keys(c.fbas.n(), 0))}));
    println!(
        "{}",
        serde_json::json!({
            "property": id, "evaluations": g.evaluations, "sub_evaluations": g.evals, "distinct_nontrivial": g.distinct.len(),
            "tags": g.tags, "samples": g.samples.iter().take(4).collect::<Vec<_>>(), "wall_s": start.elapsed().as_secs_f64(),
            "violation": viol, "max_nodes": p.max_nodes + bigger,
        })
    );
    std::process::exit(if viol.is_some() { 1 } else { 0 });
}
