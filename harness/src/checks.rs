//! The table of cluster-history checks.
use crate::gen::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sim::*;
use serde_json::json;
use std::time::Duration;

pub struct Check {
    pub id: &'static str,
    pub tags: &'static [&'static str],
    pub profs: Vec<(u32, Prof)>,
    pub quick: usize,
    pub thorough: usize,
    pub rule: &'static str,
    pub nontrivial: fn(&Stats) -> bool,
}

pub const ASSUME: &[&str] = &[
    "links are FIFO; messages may be lost, never duplicated, reordered or altered",
    "a crashed server loses everything but its storage; single storage writes are atomic",
    "each generated entry is appended at most once",
    "an unprompted panic of a server in a generated history counts as a violation",
];

pub fn table(id: &str) -> Option<Check> {
    let b = BASE;
    use EpiSel as E;
    Some(match id {
        "C01" => Check {
            id: "C01",
            tags: &["agree", "perm", "decided-beyond-log", "panic"],
            profs: wide(vec![
                (6, Prof { name: "mixed", epi: &[E::None, E::Heal], ..b.clone() }),
                (3, Prof { name: "elections", mac: 30, elect: 10, crash: 6, ..b.clone() }),
                (1, Prof { name: "flex5", mac: 30, elect: 10, ..b.clone() }),
            ]),
            quick: 750000,
            thorough: 2_000_000,
            rule: "random histories (ops drawn by a state-adaptive swarm generator with scenario macros, executed on the real servers); non-trivial: at least two different leaders replicated and at least two entries were decided; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("leaders") >= 2 && s.get("decided") >= 2,
        },
        "C02" => Check {
            id: "C02",
            tags: &["perm", "mono", "decided-beyond-log", "panic"],
            profs: wide(vec![
                (5, Prof { name: "mixed", ..b.clone() }),
                (3, Prof { name: "restarts", crash: 14, arm: 4, ..b.clone() }),
                (3, Prof { name: "compaction", compact: 10, mac: 24, ..b.clone() }),
            ]),
            quick: 750000,
            thorough: 2_000_000,
            rule: "random histories; non-trivial: something was decided and afterwards the server set changed leader or a server restarted; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("decided") >= 1 && (s.get("leaders") >= 2 || s.get("restarts") >= 1),
        },
        "C03" => Check {
            id: "C03",
            tags: &["valid", "panic"],
            profs: wide(vec![
                (5, Prof { name: "mixed", append: 24, ..b.clone() }),
                (3, Prof { name: "forwarding", append: 30, elect: 10, drop: 8, mac: 20, reconf: 1, ..b.clone() }),
                (2, Prof { name: "lossy", append: 24, drop: 12, reconn: 6, ..b.clone() }),
            ]),
            quick: 750000,
            thorough: 2_000_000,
            rule: "random histories with appends at all servers; non-trivial: entries were decided and at least one proposal was forwarded or a second leader took over; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("decided") >= 2 && (s.get("msg_forward") >= 1 || s.get("leaders") >= 2),
        },
        "C04" => Check {
            id: "C04",
            tags: &["quorum", "panic"],
            profs: wide(vec![
                (5, Prof { name: "mixed", mac: 20, ..b.clone() }),
                (4, Prof { name: "elections", mac: 36, elect: 10, crash: 8, ..b.clone() }),
                (2, Prof { name: "lossy", drop: 10, reconn: 6, reconf: 2, ..b.clone() }),
            ]),
            quick: 750000,
            thorough: 2_000_000,
            rule: "random histories over all valid quorum configurations for 2 to 7 servers; non-trivial: at least two entries decided and at least two leaders replicated; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("leaders") >= 2 && s.get("decided") >= 2,
        },
        "C05" => Check {
            id: "C05",
            tags: &["persist", "ballot", "mono", "panic"],
            profs: wide(vec![
                (5, Prof { name: "restarts", crash: 14, arm: 6, ..b.clone() }),
                (3, Prof { name: "mixed", crash: 8, ..b.clone() }),
                (2, Prof { name: "elections", mac: 30, elect: 12, crash: 10, arm: 4, ..b.clone() }),
            ]),
            quick: 750000,
            thorough: 2_000_000,
            rule: "random histories with crashes between calls and at individual storage writes; non-trivial: a server restarted and promises or acknowledgements were sent; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("restarts") >= 1 && s.get("msg_promise") >= 1 && s.get("msg_accepted") >= 1,
        },
        "C06" => Check {
            id: "C06",
            tags: &["live", "addr", "panic"],
            profs: vec![
                (5, Prof { name: "mixed", epi: &[E::Heal], len: (10, 70), ..b.clone() }),
                (3, Prof { name: "faulty", epi: &[E::Heal], crash: 10, drop: 10, link: 12, arm: 4, reconf: 2, len: (10, 70), ..b.clone() }),
                (2, Prof { name: "elections", epi: &[E::Heal], mac: 30, elect: 12, len: (10, 60), ..b.clone() }),
                (2, Prof { name: "late", late: true, epi: &[E::Heal], mac: 40, len: (10, 60), ..b.clone() }),
            ],
            quick: 600000,
            thorough: 800_000,
            rule: "random fault histories followed by healing and a bounded fair schedule; non-trivial: messages were lost or a server crashed before the healing; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("epi_heal") >= 1 && (s.get("lost") + s.get("dropped") + s.get("crashes") + s.get("fault_fired") > 0),
        },
        "C07" => Check {
            id: "C07",
            tags: &["live-partial", "panic"],
            profs: vec![
                (5, Prof { name: "mixed", epi: &[E::Partial], len: (5, 60), ..b.clone() }),
                (3, Prof { name: "elections", epi: &[E::Partial], mac: 30, elect: 12, crash: 8, len: (5, 60), ..b.clone() }),
                (2, Prof { name: "fresh", epi: &[E::Partial], len: (0, 6), ..b.clone() }),
            ],
            quick: 600000,
            thorough: 800_000,
            rule: "random fault histories, then a random symmetric connectivity graph with a quorum-connected server is fixed and a bounded fair schedule run; non-trivial: the graph is not fully connected; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("epi_partial_nontransitive") + s.get("epi_partial_some_not_qc") > 0,
        },
        "C08" => Check {
            id: "C08",
            tags: &["elect", "ballot", "leader", "panic"],
            profs: vec![
                (5, Prof { name: "expectations", expect: 20, prio: 6, elect: 8, len: (6, 40), ..b.clone() }),
                (3, Prof { name: "fresh", fresh: true, expect: 10, prio: 2, len: (3, 15), ..b.clone() }),
                (3, Prof { name: "elections", mac: 30, elect: 14, crash: 10, prio: 5, ..b.clone() }),
            ],
            quick: 500000,
            thorough: 600_000,
            rule: "random histories mixing elections, takeovers, priority changes, leader crashes and restarts with expectations checked on the way; non-trivial: an expectation (fresh election, stability, takeover, failover) was evaluated or at least two leaders campaigned; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("expect_fresh") + s.get("expect_stable") + s.get("expect_takeover") + s.get("expect_failover") > 0 || s.get("leaders") >= 2,
        },
        "C09" => Check {
            id: "C09",
            tags: &["stop", "stop-live", "panic"],
            profs: vec![
                (2, Prof { name: "reconf-stable", fresh: true, long_elect: true, epi: &[E::Stable], append: 30, tick: 10, run: 2, pump: 4, net: 30, drop: 0, link: 0, reconn: 0, crash: 0, arm: 0, compact: 2, reconf: 2, badreconf: 1, elect: 0, prio: 0, collect: 8, mac: 0, len: (5, 50), ..b.clone() }),
                (5, Prof { name: "reconf", reconf: 8, badreconf: 4, mac: 24, ..b.clone() }),
                (3, Prof { name: "reconf-crash", reconf: 8, crash: 10, arm: 4, mac: 24, ..b.clone() }),
                (2, Prof { name: "reconf-lossy", reconf: 8, drop: 10, mac: 24, elect: 10, ..b.clone() }),
                (2, Prof { name: "reconf-late", late: true, reconf: 12, mac: 30, ..b.clone() }),
            ],
            quick: 750000,
            thorough: 2_000_000,
            rule: "random histories with valid and invalid reconfigurations proposed at any server; non-trivial: a reconfiguration was decided, or one was accepted and a second leader took over; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("decided_stopsign") >= 1 || (s.get("reconf_proposed") >= 1 && s.get("leaders") >= 2),
        },
        "C10" => Check {
            id: "C10",
            tags: &["trim", "compact", "panic", "live", "match", "read"],
            profs: vec![
                (5, Prof { name: "trim", entry: Some(Kind::V), epi: &[E::None, E::Trim, E::Heal], compact: 14, mac: 24, read: 2, ..b.clone() }),
                (3, Prof { name: "trim-crash", entry: Some(Kind::V), epi: &[E::Heal, E::Trim], compact: 14, crash: 8, arm: 4, mac: 24, reconf: 2, ..b.clone() }),
                (2, Prof { name: "trim-late", late: true, entry: Some(Kind::V), epi: &[E::None, E::Trim, E::Heal], compact: 16, mac: 30, reconf: 2, ..b.clone() }),
            ],
            quick: 600000,
            thorough: 1_000_000,
            rule: "random histories with trims at leaders and followers; non-trivial: a trim removed entries; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("trim_effective") >= 1 || s.get("epi_trim") >= 1,
        },
        "C11" => Check {
            id: "C11",
            tags: &["snap", "compact", "panic"],
            profs: vec![
                (5, Prof { name: "snap", entry: Some(Kind::S), epi: &[E::None, E::Heal, E::Trim], compact: 14, mac: 30, ..b.clone() }),
                (3, Prof { name: "snap-crash", entry: Some(Kind::S), epi: &[E::Heal, E::Trim], compact: 14, crash: 8, arm: 4, mac: 24, reconf: 2, ..b.clone() }),
                (3, Prof { name: "snap-late", late: true, entry: Some(Kind::S), compact: 12, mac: 30, reconn: 10, reconf: 2, ..b.clone() }),
            ],
            quick: 600000,
            thorough: 1_500_000,
            rule: "random histories with local and global snapshots; the snapshot type is order-sensitive and not idempotent; non-trivial: a snapshot was taken or a server was synchronised with a (delta or complete) snapshot; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("snapshot_effective") + s.get("sync_delta") + s.get("sync_complete") + s.get("promise_with_snapshot") >= 1,
        },
        "C12" => Check {
            id: "C12",
            tags: &["read", "panic"],
            profs: vec![
                (6, Prof { name: "read", read: 40, compact: 8, reconf: 3, mac: 14, ..b.clone() }),
                (2, Prof { name: "read-stop", read: 40, compact: 6, reconf: 10, mac: 14, ..b.clone() }),
            ],
            quick: 600000,
            thorough: 1_500_000,
            rule: "random histories with reads of random ranges (bounds of all kinds around the compacted, decided and accepted index); non-trivial: at least 3 reads inside the log; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("reads_in_range") >= 3,
        },
        "C13" => Check {
            id: "C13",
            tags: &["stable", "valid", "buffer", "resync", "panic"],
            profs: vec![
                (5, Prof { name: "stable", fresh: true, long_elect: true, epi: &[E::Stable], append: 30, tick: 10, run: 2, pump: 4, net: 30, drop: 0, link: 0, reconn: 0, crash: 0, arm: 0, compact: 0, reconf: 0, elect: 0, prio: 0, collect: 8, mac: 0, len: (10, 80), ..b.clone() }),
                (2, Prof { name: "stable-compact", fresh: true, long_elect: true, epi: &[E::Stable], append: 30, tick: 10, run: 2, pump: 8, net: 30, drop: 0, link: 0, reconn: 0, crash: 0, arm: 0, compact: 6, reconf: 0, elect: 0, prio: 0, collect: 4, mac: 0, len: (10, 80), ..b.clone() }),
            ],
            quick: 600000,
            thorough: 1_000_000,
            rule: "fault-free histories after an initial election: appends at all servers, random ticks, flushes, deliveries and message collection; non-trivial: the leader stayed and at least 3 entries were appended; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("epi_stable") >= 1 && s.get("appends") >= 3,
        },
        "C21" => Check {
            id: "C21",
            tags: &["match", "gap-live", "resync", "panic"],
            profs: vec![
                (5, Prof { name: "lossy", soft: true, epi: &[E::Gap, E::None], drop: 12, link: 0, crash: 0, arm: 0, reconn: 0, reconf: 0, compact: 2, mac: 20, ..b.clone() }),
                (4, Prof { name: "mixed", drop: 10, mac: 20, epi: &[E::None], ..b.clone() }),
                (3, Prof { name: "late", late: true, drop: 4, mac: 40, reconn: 6, epi: &[E::None], ..b.clone() }),
            ],
            quick: 600000,
            thorough: 1_500_000,
            rule: "random histories with message losses at arbitrary positions; non-trivial: messages were lost and entries replicated; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("dropped") + s.get("lost") >= 1 && s.get("msg_acceptdecide") >= 1,
        },
        "C22" => Check {
            id: "C22",
            tags: &["ui", "panic"],
            profs: vec![
                (5, Prof { name: "ui", ui: true, tick: 10, run: 12, ..b.clone() }),
                (2, Prof { name: "ui-elect", ui: true, mac: 24, elect: 8, crash: 8, ..b.clone() }),
            ],
            quick: 600000,
            thorough: 1_000_000,
            rule: "random histories with the exposed monitoring state compared after every call; non-trivial: a leader replicated entries and a server changed state by crash, loss or election; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("leaders") >= 1 && s.get("msg_accepted") >= 1,
        },
        "C23" => Check {
            id: "C23",
            tags: &["timer", "panic"],
            profs: vec![
                (4, Prof { name: "timers", timers: true, epi: &[E::None], tick: 24, run: 12, drop: 8, mac: 14, ..b.clone() }),
                (3, Prof { name: "timers-elections", timers: true, epi: &[E::None], tick: 24, run: 8, elect: 10, mac: 24, crash: 8, reconn: 6, drop: 10, ..b.clone() }),
                (2, Prof { name: "timers-reconf", timers: true, epi: &[E::None], tick: 24, run: 8, reconf: 8, mac: 14, drop: 10, ..b.clone() }),
                (2, Prof { name: "timers-batch", timers: true, fresh: true, long_elect: true, epi: &[E::None], append: 30, tick: 24, run: 4, mac: 4, crash: 1, link: 2, ..b.clone() }),
            ],
            quick: 500000,
            thorough: 1_500_000,
            rule: "random histories with election, resend and flush timeouts drawn from wide ranges; everything a server sends during a tick is compared with what its timeouts and the messages it has and has not received call for; non-trivial: a resend timeout fired at a leader and at a waiting follower, or batched entries were flushed by the flush timeout; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("tm_resend_leader") >= 1 && s.get("tm_resend_follower") >= 1 || s.get("tm_flushed") >= 1,
        },
        "C19" => Check {
            id: "C19",
            tags: &[],
            profs: vec![
                (5, Prof { name: "mixed", append: 24, ..b.clone() }),
                (3, Prof { name: "elections", append: 24, mac: 30, elect: 10, ..b.clone() }),
                (2, Prof { name: "transport", append: 24, transport: true, drop: 8, ..b.clone() }),
                (2, Prof { name: "late", late: true, append: 24, mac: 30, reconn: 8, ..b.clone() }),
            ],
            quick: 600000,
            thorough: 1_000_000,
            rule: "random histories of clusters built with UniCache (LRU and LFU fields, small caches, few distinct values) with all monitors on; non-trivial: entries decided; distinct by the hash of configuration and operations",
            nontrivial: |s| s.get("decided") >= 2,
        },
        // development aid (not a registered check): everything every other check explores, under all monitors
        "C00" => Check {
            id: "C00",
            tags: &[],
            profs: ["C01", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C21", "C22", "C23"]
                .iter()
                .flat_map(|i| table(i).unwrap().profs)
                .collect(),
            quick: 1_000_000,
            thorough: 4_000_000,
            rule: "",
            nontrivial: |s| s.get("decided") >= 2,
        },
        _ => return None,
    })
}

/// VP_SCALE: a factor for the number of cases (for experiments)
pub struct Scale(f64);
pub fn env_scale() -> Scale {
    Scale(std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0))
}
impl std::ops::Mul<Scale> for usize {
    type Output = usize;
    fn mul(self, s: Scale) -> usize {
        (self as f64 * s.0) as usize
    }
}

/// profiles that every check about the replicated log explores in addition to its own
fn wide(mut v: Vec<(u32, Prof)>) -> Vec<(u32, Prof)> {
    let b = BASE;
    let none: &[EpiSel] = &[EpiSel::None, EpiSel::Heal];
    v.push((1, Prof { name: "lossy", soft: true, epi: &[EpiSel::None, EpiSel::Gap], drop: 12, link: 0, crash: 0, arm: 0, reconn: 0, reconf: 0, mac: 24, ..b.clone() }));
    v.push((2, Prof { name: "late", late: true, epi: none, mac: 40, ..b.clone() }));
    v.push((1, Prof { name: "compaction", epi: none, compact: 10, mac: 24, ..b.clone() }));
    v.push((1, Prof { name: "reconf", epi: none, reconf: 8, mac: 24, ..b.clone() }));
    v.push((1, Prof { name: "crashing", epi: none, crash: 12, arm: 6, mac: 20, ..b.clone() }));
    v
}

/// the tags a replay of a cluster case is judged by
pub fn tags_of(id: &str) -> &'static [&'static str] {
    match id {
        "C16" => crate::faultcheck::TAGS,
        "C15" => crate::storcheck::CLUSTER_TAGS,
        _ => table(id).map(|c| c.tags).unwrap_or(&[]),
    }
}

pub fn run_table(env: &Env, c: &Check) -> Option<String> {
    let cases = (if env.thorough() { c.thorough } else { c.quick }) * env_scale();
    let budget = Duration::from_secs(if env.thorough() { 840 } else { 240 });
    let total: u32 = c.profs.iter().map(|p| p.0).sum();
    let weights: Vec<u32> = c.profs.iter().map(|p| p.0).collect();
    let idh = hash_str(c.id);
    let _ = total;
    let r = parallel(cases, budget, |i| {
        let mut rng = Rng::new(env.seed ^ idh.rotate_left(17) ^ (i as u64).wrapping_mul(0xD1342543DE82EF95));
        let p = &c.profs[rng.weighted(&weights)].1;
        let size = if env.thorough() && i % 3 == 2 { 2.0 } else { 1.0 };
        let (case, v, st) = gen_case(p, &mut rng, c.tags, size);
        let nt = (c.nontrivial)(&st);
        Outcome {
            hash: hash_str(&format!("{:?}", case)),
            nontrivial: nt,
            evals: 1,
            sample: if i < 40 && nt { Some(case_sample(&case)) } else { None },
            replay: v.as_ref().map(|_| case_value(&case)),
            stats: st.c,
            violation: v,
        }
    });
    finish_with_level(env, c.id, "exploration", c.rule, r, c.tags, ASSUME)
}

/// shrink (if there is a failure), write evidence and the replay file
pub fn finish_with_level(env: &Env, id: &str, level: &str, rule: &str, r: Report, tags: &'static [&'static str], assume: &[&str]) -> Option<String> {
    let mut out = None;
    if let Some((i, v, data)) = &r.failure {
        let case: Case = serde_json::from_value(data.clone()).expect("case");
        let limit = if std::env::var("VP_NOSHRINK").is_ok() { 0 } else { 40 };
        let small = shrink(&case, Duration::from_secs(limit), &|c| {
            matches!(run_case(c, tags, false).0, Some(x) if x.tag == v.tag)
        });
        let v2 = run_case(&small, tags, false).0.unwrap_or(v.clone());
        eprintln!("case {} failed: [{}] {}", i, v2.tag, v2.msg);
        eprintln!("shrunk from {} to {} operations: {:?}", case.ops.len(), small.ops.len(), small.ops);
        eprintln!("cfg {:?}", small.cfg);
        out = Some(write_replay(env, id, "cluster", &v2, case_value(&small)));
    }
    write_evidence(env, id, level, rule, &r, json!({}), assume, r.failure.is_some() as u64);
    out
}
