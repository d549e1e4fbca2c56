//! C20: a history executed with serialised messages behaves step by step like one without.
use crate::gen::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sim::*;
use crate::checks::ASSUME;
use std::time::Duration;

pub const TAGS: &[&str] = &["serde", "panic"];

const RULE: &str = "random histories (as for agreement: appends, elections, losses, crashes, compaction, reconfiguration) each executed three times on the real servers: messages passed directly, through bincode, and through json; compared are all outgoing messages, decided and compacted indexes, promised ballots and operation results after every call, and every message with its round trip; non-trivial: at least two entries decided and log or snapshot synchronisation took place; distinct by the hash of configuration and operations";

/// judge one case: the violation of the first transport that differs
pub fn run_twin(c: &Case) -> (Option<Violation>, u64) {
    let mut evals = 1;
    let base = Case { cfg: Cfg { transport: 0, ..c.cfg.clone() }, ops: c.ops.clone() };
    let (v0, st0, t0) = run_case(&base, TAGS, true);
    for tr in [1u8, 2] {
        let alt = Case { cfg: Cfg { transport: tr, ..c.cfg.clone() }, ops: c.ops.clone() };
        let (v, st, t) = run_case(&alt, TAGS, true);
        evals += 1;
        if let Some(v) = &v {
            if v.tag == "serde" || v0.is_none() {
                return (Some(v.clone()), evals);
            }
        }
        if v.is_none() != v0.is_none() || t != t0 || st.c != st0.c {
            let name = if tr == 1 { "bincode" } else { "json" };
            return (
                Some(Violation {
                    tag: "serde".into(),
                    msg: format!("the history behaves differently when messages travel through {}: {:?} / {:?}", name, st0.c, st.c),
                    step: 0,
                }),
                evals,
            );
        }
    }
    (v0, evals)
}

pub fn check(env: &Env) -> Option<String> {
    let b = BASE;
    use EpiSel as E;
    let profs = vec![
        (4, Prof { name: "mixed", epi: &[E::None, E::Heal], ..b.clone() }),
        (2, Prof { name: "compaction", compact: 10, mac: 24, ..b.clone() }),
        (2, Prof { name: "reconf", reconf: 8, mac: 24, ..b.clone() }),
        (2, Prof { name: "elections", mac: 30, elect: 10, crash: 6, ..b.clone() }),
    ];
    let weights: Vec<u32> = profs.iter().map(|p| p.0).collect();
    let cases = (if env.thorough() { 600_000 } else { 50_000 }) * crate::checks::env_scale();
    let budget = Duration::from_secs(if env.thorough() { 840 } else { 240 });
    let idh = hash_str("C20");
    let r = parallel(cases, budget, |i| {
        let mut rng = Rng::new(env.seed ^ idh.rotate_left(17) ^ (i as u64).wrapping_mul(0xD1342543DE82EF95));
        let p = &profs[rng.weighted(&weights)].1;
        let (case, v, st) = gen_case(p, &mut rng, TAGS, 1.0);
        let (v, evals) = match v {
            Some(v) => (Some(v), 1),
            None => run_twin(&case),
        };
        let nt = st.get("decided") >= 2 && st.get("msg_acceptsync") >= 2;
        Outcome {
            hash: hash_str(&format!("{:?}", case)),
            nontrivial: nt,
            evals,
            sample: if i < 40 && nt { Some(case_sample(&case)) } else { None },
            replay: v.as_ref().map(|_| case_value(&case)),
            stats: st.c,
            violation: v,
        }
    });
    finish_custom(env, "C20", "twin", RULE, r, ASSUME, |c: Case| {
        let tag = run_twin(&c).0.map(|v| v.tag);
        let small = shrink(&c, Duration::from_secs(30), &|c| run_twin(c).0.map(|v| v.tag) == tag);
        let v = run_twin(&small).0;
        (case_value(&small), v)
    })
}
