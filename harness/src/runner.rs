//! Executes generated cases in parallel, shrinks failures, writes evidence and replay files.
use crate::entry::{TestEntry, S, V};
use crate::gen::*;
use crate::rng::Rng;
use crate::sim::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Env {
    pub seed: u64,
    pub tier: &'static str,
    pub root: String,
    pub variant: &'static str,
    pub start: Instant,
}

impl Env {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

/// outcome of one evaluated case of any check
pub struct Outcome {
    pub violation: Option<Violation>,
    pub stats: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub hash: u64,
    pub evals: u64,
    pub sample: Option<Value>,
    pub replay: Option<Value>,
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Report {
    pub evaluations: u64,
    pub cases: u64,
    pub distinct: u64,
    pub stats: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(usize, Violation, Value)>,
    pub others: u64,
    pub stopped_early: bool,
}

/// run `f(idx)` for idx in 0..cases on all cores; keeps the failure with the lowest index
pub fn parallel<F>(cases: usize, budget: Duration, f: F) -> Report
where
    F: Fn(usize) -> Outcome + Sync,
{
    let next = AtomicUsize::new(0);
    let best = AtomicUsize::new(usize::MAX);
    let t0 = Instant::now();
    let shared = Mutex::new(Report {
        evaluations: 0,
        cases: 0,
        distinct: 0,
        stats: BTreeMap::new(),
        samples: vec![],
        failure: None,
        others: 0,
        stopped_early: false,
    });
    let seen = Mutex::new(HashSet::<u64>::new());
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, || {
                    let mut local: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let (mut ev, mut cs) = (0u64, 0u64);
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cases || i > best.load(Ordering::Relaxed) {
                            break;
                        }
                        if t0.elapsed() > budget {
                            shared.lock().unwrap().stopped_early = true;
                            break;
                        }
                        let o = f(i);
                        ev += o.evals;
                        cs += 1;
                        for (k, v) in o.stats {
                            *local.entry(k).or_insert(0) += v;
                        }
                        if o.nontrivial {
                            seen.lock().unwrap().insert(o.hash);
                        }
                        let mut sh = shared.lock().unwrap();
                        if let Some(s) = o.sample {
                            if o.nontrivial && sh.samples.len() < 3 {
                                sh.samples.push(s);
                            }
                        }
                        if let Some(v) = o.violation {
                            let better = sh.failure.as_ref().map(|x| i < x.0).unwrap_or(true);
                            if better {
                                sh.failure = Some((i, v, o.replay.unwrap_or(Value::Null)));
                                best.fetch_min(i, Ordering::Relaxed);
                            }
                        }
                    }
                    let mut sh = shared.lock().unwrap();
                    sh.evaluations += ev;
                    sh.cases += cs;
                    for (k, v) in local {
                        *sh.stats.entry(k.to_string()).or_insert(0) += v;
                    }
                })
                .expect("spawn");
        }
    });
    let mut r = shared.into_inner().unwrap();
    r.distinct = seen.into_inner().unwrap().len() as u64;
    r
}

pub fn run_case_t<T: TestEntry>(c: &Case, tags: &'static [&'static str], tracing: bool) -> (Option<Violation>, Stats, u64) {
    let mut s = Sim::<T>::new(&c.cfg, tags);
    s.tracing = tracing;
    for op in &c.ops {
        s.exec(op);
        if s.violation.is_some() {
            break;
        }
    }
    crate::epi::run(&mut s);
    (s.violation.clone(), std::mem::take(&mut s.stats), s.trace)
}

pub fn run_case(c: &Case, tags: &'static [&'static str], tracing: bool) -> (Option<Violation>, Stats, u64) {
    match c.cfg.entry {
        Kind::V => run_case_t::<V>(c, tags, tracing),
        Kind::S => run_case_t::<S>(c, tags, tracing),
    }
}

pub fn gen_case_t<T: TestEntry>(cfg: &Cfg, p: &Prof, rng: &mut Rng, tags: &'static [&'static str], size: f64) -> (Case, Option<Violation>, Stats) {
    let mut g = Gen::<T>::new(cfg, p, rng, tags);
    g.run(size);
    if g.sim.violation.is_none() {
        crate::epi::run(&mut g.sim);
    }
    let v = g.sim.violation.clone();
    let st = std::mem::take(&mut g.sim.stats);
    (
        Case {
            cfg: cfg.clone(),
            ops: std::mem::take(&mut g.ops),
        },
        v,
        st,
    )
}

pub fn gen_case(p: &Prof, rng: &mut Rng, tags: &'static [&'static str], size: f64) -> (Case, Option<Violation>, Stats) {
    let cfg = gen_cfg(p, rng);
    match cfg.entry {
        Kind::V => gen_case_t::<V>(&cfg, p, rng, tags, size),
        Kind::S => gen_case_t::<S>(&cfg, p, rng, tags, size),
    }
}

/// shrink a failing case; `fails` tells whether a candidate still fails in the same way
pub fn shrink(case: &Case, budget: Duration, fails: &dyn Fn(&Case) -> bool) -> Case {
    let t0 = Instant::now();
    let mut best = case.clone();
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        // chunks
        let mut chunk = (best.ops.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() && t0.elapsed() < budget {
                let j = (i + chunk).min(best.ops.len());
                let mut c = best.clone();
                c.ops.drain(i..j);
                if fails(&c) {
                    best = c;
                    progress = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // simpler operations
        for i in 0..best.ops.len() {
            let alts: Vec<Op> = match &best.ops[i] {
                Op::Run(k, s) if *k > 1 => vec![Op::Run(1, *s), Op::Run(k / 2, *s), Op::Run(k - 1, *s)],
                Op::Run(k, s) if *s != 0 => vec![Op::Run(*k, 0)],
                Op::Pump(s) if *s != 0 => vec![Op::Pump(0)],
                Op::Deliver(a, b, k) if *k > 1 => vec![Op::Deliver(*a, *b, 1), Op::Deliver(*a, *b, k - 1)],
                Op::FlushDeliver(a, b, k) if *k > 1 => vec![Op::FlushDeliver(*a, *b, 1), Op::FlushDeliver(*a, *b, k - 1)],
                Op::Append(a, id, x) if *x > 0 => vec![Op::Append(*a, *id, 0)],
                Op::Bulk(a, id, k) if *k > 1 => vec![Op::Bulk(*a, *id, 1), Op::Bulk(*a, *id, k / 2), Op::Bulk(*a, *id, k - k / 4), Op::Bulk(*a, *id, k - 1)],
                Op::Stretch(a, id, k, x) if *k > 1 => vec![1, k / 2, k - k / 4, k - 1].into_iter().map(|k| Op::Stretch(*a, *id, k, *x)).collect(),
                Op::Reconf(a, k) if *k > 2 => vec![Op::Reconf(*a, 2)],
                Op::Restart(a, true) => vec![Op::Restart(*a, false)],
                _ => vec![],
            };
            for a in alts {
                if t0.elapsed() > budget {
                    break;
                }
                let mut c = best.clone();
                c.ops[i] = a;
                if fails(&c) {
                    best = c;
                    progress = true;
                    break;
                }
            }
        }
        // simpler configuration
        let mut cfgs: Vec<Cfg> = vec![];
        let b = &best.cfg;
        if b.batch > 1 {
            cfgs.push(Cfg { batch: 1, ..b.clone() });
            if b.batch > 2 {
                cfgs.push(Cfg { batch: 2, ..b.clone() });
            }
        }
        if b.buffer != 1000 {
            cfgs.push(Cfg { buffer: 1000, ..b.clone() });
        }
        if b.transport != 0 {
            cfgs.push(Cfg { transport: 0, ..b.clone() });
        }
        if b.backend != 0 {
            cfgs.push(Cfg { backend: 0, ..b.clone() });
        }
        if b.epi != Epi::None {
            cfgs.push(Cfg { epi: Epi::None, ..b.clone() });
        }
        if b.flex.is_some() {
            cfgs.push(Cfg { flex: None, ..b.clone() });
        }
        if b.prio.iter().any(|p| *p != 0) {
            cfgs.push(Cfg { prio: vec![0; b.prio.len()], ..b.clone() });
        }
        let plain: Vec<u64> = (1..=b.pids.len() as u64).collect();
        if b.pids != plain {
            cfgs.push(Cfg { pids: plain, ..b.clone() });
        }
        if b.ui {
            cfgs.push(Cfg { ui: false, ..b.clone() });
        }
        for cfg in cfgs {
            let c = Case { cfg, ops: best.ops.clone() };
            if t0.elapsed() < budget && fails(&c) {
                best = c;
                progress = true;
            }
        }
    }
    best
}

pub fn write_replay(env: &Env, id: &str, kind: &str, v: &Violation, data: Value) -> String {
    let dir = format!("{}/replays", env.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.json", dir, id, env.variant, env.seed);
    let doc = json!({
        "property": id,
        "kind": kind,
        "variant": env.variant,
        "violation": v,
        "how": format!("cd {} && ./check.sh replay {}", env.root, path),
        "data": data,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
    path
}

#[allow(clippy::too_many_arguments)]
pub fn write_evidence(env: &Env, id: &str, level: &str, rule: &str, r: &Report, extra: Value, assumptions: &[&str], violations: u64) {
    let dir = format!("{}/evidence", env.root);
    let _ = std::fs::create_dir_all(&dir);
    let mut cov = json!({
        "evaluations": r.evaluations,
        "cases": r.cases,
        "distinct_nontrivial": r.distinct,
        "rule": rule,
        "samples": r.samples,
        "events": r.stats,
        "stopped_by_time_budget": r.stopped_early,
        "build_variant": env.variant,
    });
    if let (Some(o), Some(e)) = (cov.as_object_mut(), extra.as_object()) {
        for (k, v) in e {
            o.insert(k.clone(), v.clone());
        }
    }
    let doc = json!({
        "property": id,
        "tier": env.tier,
        "seed": env.seed,
        "level": level,
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": env.start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    std::fs::write(format!("{}/{}.json", dir, id), serde_json::to_string_pretty(&doc).unwrap()).expect("write evidence");
}

pub fn case_value(c: &Case) -> Value {
    json!({
        "cfg": serde_json::to_value(&c.cfg).unwrap(),
        "ops": c.ops.iter().map(|o| serde_json::to_value(o).unwrap()).collect::<Vec<_>>(),
    })
}

pub fn case_sample(c: &Case) -> Value {
    let ops: Vec<String> = c.ops.iter().take(60).map(|o| format!("{:?}", o)).collect();
    json!({"cfg": format!("{:?}", c.cfg), "ops": ops.join(" "), "n_ops": c.ops.len()})
}

/// remove chunks, then single elements, while `fails`
pub fn shrink_vec<X: Clone>(v: &[X], budget: Duration, fails: &dyn Fn(&[X]) -> bool) -> Vec<X> {
    let t0 = Instant::now();
    let mut best = v.to_vec();
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        let mut chunk = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget {
                let j = (i + chunk).min(best.len());
                let mut c = best.clone();
                c.drain(i..j);
                if fails(&c) {
                    best = c;
                    progress = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
    }
    best
}

/// like `checks::finish` for checks with their own case type
pub fn finish_custom<C: serde::de::DeserializeOwned>(
    env: &Env,
    id: &str,
    kind: &str,
    rule: &str,
    r: Report,
    assume: &[&str],
    shrinker: impl Fn(C) -> (Value, Option<Violation>),
) -> Option<String> {
    finish_custom_level(env, id, kind, "exploration", rule, r, assume, shrinker)
}

#[allow(clippy::too_many_arguments)]
pub fn finish_custom_level<C: serde::de::DeserializeOwned>(
    env: &Env,
    id: &str,
    kind: &str,
    level: &str,
    rule: &str,
    r: Report,
    assume: &[&str],
    shrinker: impl Fn(C) -> (Value, Option<Violation>),
) -> Option<String> {
    let mut out = None;
    if let Some((i, v, data)) = &r.failure {
        let (small, v2) = match serde_json::from_value::<C>(data.clone()) {
            Ok(c) => shrinker(c),
            Err(_) => (data.clone(), None),
        };
        let (small, v2) = match v2 {
            Some(v2) => (small, v2),
            None => (data.clone(), v.clone()),
        };
        eprintln!("case {} failed: [{}] {}", i, v2.tag, v2.msg);
        out = Some(write_replay(env, id, kind, &v2, small));
    }
    write_evidence(env, id, level, rule, &r, json!({}), assume, r.failure.is_some() as u64);
    out
}
