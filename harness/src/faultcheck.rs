//! C16: for generated histories, fail every single storage write in every way, restart and heal.
use crate::checks::*;
use crate::entry::{TestEntry, S, V};
use crate::gen::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sim::*;
use crate::store::FaultMode;
use std::collections::BTreeMap;
use std::time::Duration;

pub const TAGS: &[&str] = &[
    "agree", "perm", "mono", "persist", "decided-beyond-log", "live", "match", "snap", "trim", "compact", "quorum", "valid", "ballot", "stop", "storage", "panic",
];

/// writes[op][server]: number of storage writes before the operation (one more row for the end)
fn profile_t<T: TestEntry>(c: &Case) -> Vec<Vec<u64>> {
    let mut s = Sim::<T>::new(&c.cfg, TAGS);
    let snap = |s: &Sim<T>| -> Vec<u64> { s.nodes.iter().map(|n| n.store.0.borrow().writes).collect() };
    let mut w = vec![snap(&s)];
    for op in &c.ops {
        s.exec(op);
        w.push(snap(&s));
    }
    w
}

fn profile(c: &Case) -> Vec<Vec<u64>> {
    match c.cfg.entry {
        Kind::V => profile_t::<V>(c),
        Kind::S => profile_t::<S>(c),
    }
}

fn bump(m: &mut BTreeMap<&'static str, u64>, k: &'static str, v: u64) {
    *m.entry(k).or_insert(0) += v;
}

pub fn check(env: &Env) -> Option<String> {
    let cases = (if env.thorough() { 150_000 } else { 5_000 }) * env_scale();
    let budget = Duration::from_secs(if env.thorough() { 800 } else { 240 });
    let b = BASE;
    let epi: &'static [EpiSel] = &[EpiSel::Heal];
    let profs = [
        (4, Prof { name: "mixed", epi, short: true, arm: 0, crash: 1, append: 20, len: (6, 30), compact: 6, reconf: 2, mac: 14, prio: 0, ..b.clone() }),
        (3, Prof { name: "elections", epi, short: true, arm: 0, crash: 2, append: 16, len: (6, 26), elect: 8, mac: 26, prio: 0, ..b.clone() }),
        (2, Prof { name: "compaction", epi, short: true, arm: 0, crash: 1, append: 20, len: (8, 30), compact: 14, mac: 20, prio: 0, ..b.clone() }),
        (1, Prof { name: "reconf", epi, short: true, arm: 0, crash: 1, append: 14, len: (6, 26), reconf: 8, mac: 20, prio: 0, ..b.clone() }),
    ];
    let weights: Vec<u32> = profs.iter().map(|p| p.0).collect();
    let r = parallel(cases, budget, |i| {
        let mut rng = Rng::new(env.seed ^ 0xC16C16 ^ (i as u64).wrapping_mul(0xD1342543DE82EF95));
        let p = &profs[rng.weighted(&weights)].1;
        let (base, v0, st0) = gen_case(p, &mut rng, TAGS, 1.0);
        let mut out = Outcome {
            hash: hash_str(&format!("{:?}", base)),
            nontrivial: false,
            evals: 1,
            sample: None,
            replay: v0.as_ref().map(|_| case_value(&base)),
            stats: st0.c,
            violation: v0,
        };
        if out.violation.is_some() {
            return out;
        }
        let w = profile(&base);
        let mut points = 0u64;
        let mut fired = 0u64;
        'all: for j in 0..base.ops.len() {
            for srv in 0..base.cfg.pids.len() {
                for k in w[j][srv] + 1..=w[j + 1][srv] {
                    points += 1;
                    for mode in [FaultMode::CrashBefore, FaultMode::CrashAfter, FaultMode::Err] {
                        let mut ops = base.ops[..j].to_vec();
                        ops.push(Op::Arm(srv, k - w[j][srv], mode));
                        ops.push(base.ops[j].clone());
                        if rng.chance(1, 2) {
                            ops.push(Op::Restart(srv, false));
                        }
                        ops.extend_from_slice(&base.ops[j + 1..]);
                        let c = Case { cfg: base.cfg.clone(), ops };
                        let (v, st, _) = run_case(&c, TAGS, false);
                        out.evals += 1;
                        if st.get("fault_fired") > 0 {
                            fired += 1;
                            match mode {
                                FaultMode::CrashBefore => bump(&mut out.stats, "crash_before_write", 1),
                                FaultMode::CrashAfter => bump(&mut out.stats, "crash_after_write", 1),
                                FaultMode::Err => bump(&mut out.stats, "write_error", 1),
                            }
                        }
                        if out.sample.is_none() && i < 40 && fired > 3 {
                            out.sample = Some(case_sample(&c));
                        }
                        if v.is_some() {
                            out.violation = v;
                            out.replay = Some(case_value(&c));
                            break 'all;
                        }
                    }
                }
            }
        }
        bump(&mut out.stats, "write_points", points);
        bump(&mut out.stats, "faults_fired", fired);
        out.nontrivial = fired >= 3;
        out
    });
    let rule = "for every generated base history, every storage write of every server is made to fail in three ways (server dies before it, dies after it, write returns an error); the rest of the history is run on, the server restarted (right away or at the end), the cluster healed and progress required; evaluations counts executed histories; non-trivial: base histories with at least three injected faults; distinct by the hash of the base history";
    finish_with_level(env, "C16", "fault_enumeration", rule, r, TAGS, ASSUME)
}
