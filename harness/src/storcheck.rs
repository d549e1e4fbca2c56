//! C14 / C15: model-based sequences of storage operations against the in-memory and the
//! persistent storage. The oracle is an abstract log with absolute indexes.
use crate::entry::{TestEntry, S, V};
use crate::rng::Rng;
use crate::runner::*;
use crate::sim::Violation;
#[cfg(feature = "rocks")]
use crate::scratch::{copy_dir, Scratch};
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::storage::{StopSign, Storage, StorageOp};
use omnipaxos::ClusterConfig;
use omnipaxos_storage::memory_storage::MemoryStorage;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Basic mutation. Indexes are taken modulo what is valid when the operation is executed, so every
/// sub-sequence of a sequence is valid too.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum B {
    Append(u64),
    AppendMany(Vec<u64>),
    OnPrefix(usize, Vec<u64>),
    Promise(u32, u32, u64),
    AccRound(u32, u32, u64),
    Decided(usize),
    Stop(Option<u8>),
    Snap(Option<u8>),
    /// trim and set the compacted index
    Compact(usize),
    /// trim to an index at or beyond the end, then continue from it (syncing with a snapshot)
    Jump(usize, Vec<u64>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SOp {
    One(B),
    Group(Vec<B>),
    Entries(usize, usize),
    Suffix(usize),
    Reopen,
    /// the process dies: continue from a copy of the files
    Kill,
    /// look at what a kill in the middle of the last writes leaves: cut the write-ahead log
    CutWal(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SCase {
    pub snap: bool,
    pub ops: Vec<SOp>,
}

#[derive(Clone, Debug)]
struct M<T: TestEntry> {
    base: usize,
    log: Vec<T>,
    prom: Option<Ballot>,
    acc: Option<Ballot>,
    dec: usize,
    ss: Option<StopSign>,
    snap: Option<T::Snapshot>,
}

pub trait SnapEntry: TestEntry {
    fn mk_snap(x: u8) -> Option<Self::Snapshot>;
    fn snap_eq(a: &Option<Self::Snapshot>, b: &Option<Self::Snapshot>) -> bool;
}
impl SnapEntry for V {
    fn mk_snap(_: u8) -> Option<Self::Snapshot> {
        None
    }
    fn snap_eq(a: &Option<Self::Snapshot>, b: &Option<Self::Snapshot>) -> bool {
        a.is_some() == b.is_some()
    }
}
impl SnapEntry for S {
    fn mk_snap(x: u8) -> Option<Self::Snapshot> {
        Some(crate::entry::SeqSnap((0..(x as u64 % 40)).map(|i| i * 7 + x as u64).collect()))
    }
    fn snap_eq(a: &Option<Self::Snapshot>, b: &Option<Self::Snapshot>) -> bool {
        a == b
    }
}

fn e<T: TestEntry>(id: u64) -> T {
    T::make(id, (id % 97) as u32)
}
fn es<T: TestEntry>(v: &[u64]) -> Vec<T> {
    v.iter().map(|i| e(*i)).collect()
}
fn ss(x: u8) -> StopSign {
    StopSign {
        next_config: ClusterConfig {
            configuration_id: x as u32 + 2,
            nodes: (1..=(2 + x as u64 % 5)).collect(),
            flexible_quorum: None,
        },
        metadata: if x % 3 == 0 { None } else { Some(vec![x; x as usize % 7]) },
    }
}
fn bal(n: u32, p: u32, pid: u64) -> Ballot {
    Ballot { config_id: 1, n, priority: p, pid }
}

impl<T: SnapEntry> M<T> {
    fn new() -> Self {
        M { base: 0, log: vec![], prom: None, acc: None, dec: 0, ss: None, snap: None }
    }
    fn end(&self) -> usize {
        self.base + self.log.len()
    }
    /// apply, and return the concrete storage operations
    fn apply(&mut self, b: &B) -> Vec<StorageOp<T>> {
        match b {
            B::Append(i) => {
                self.log.push(e(*i));
                vec![StorageOp::AppendEntry(e(*i))]
            }
            B::AppendMany(v) => {
                self.log.extend(es::<T>(v));
                vec![StorageOp::AppendEntries(es(v))]
            }
            B::OnPrefix(x, v) => {
                let idx = self.base + x % (self.log.len() + 1);
                self.log.truncate(idx - self.base);
                self.log.extend(es::<T>(v));
                vec![StorageOp::AppendOnPrefix(idx, es(v))]
            }
            B::Promise(n, p, pid) => {
                self.prom = Some(bal(*n, *p, *pid));
                vec![StorageOp::SetPromise(bal(*n, *p, *pid))]
            }
            B::AccRound(n, p, pid) => {
                self.acc = Some(bal(*n, *p, *pid));
                vec![StorageOp::SetAcceptedRound(bal(*n, *p, *pid))]
            }
            B::Decided(x) => {
                self.dec = *x;
                vec![StorageOp::SetDecidedIndex(*x)]
            }
            B::Stop(x) => {
                self.ss = x.map(ss);
                vec![StorageOp::SetStopsign(x.map(ss))]
            }
            B::Snap(x) => {
                let s = x.and_then(T::mk_snap);
                self.snap = s.clone();
                vec![StorageOp::SetSnapshot(s)]
            }
            B::Compact(x) => {
                let idx = self.base + x % (self.log.len() + 1);
                self.log.drain(0..idx - self.base);
                self.base = idx;
                vec![StorageOp::Trim(idx), StorageOp::SetCompactedIdx(idx)]
            }
            B::Jump(x, v) => {
                let idx = self.end() + x % 20;
                self.base = idx;
                self.log = es(v);
                vec![
                    StorageOp::Trim(idx),
                    StorageOp::SetCompactedIdx(idx),
                    StorageOp::AppendOnPrefix(idx, es(v)),
                ]
            }
        }
    }
}

enum Back<T: TestEntry> {
    Mem(MemoryStorage<T>),
    #[cfg(feature = "rocks")]
    Rocks {
        dir: Scratch,
        n: usize,
        db: Option<omnipaxos_storage::persistent_storage::PersistentStorage<T>>,
    },
}

macro_rules! st {
    ($b:expr) => {
        match $b {
            Back::Mem(m) => m as &mut dyn Storage<T>,
            #[cfg(feature = "rocks")]
            Back::Rocks { db, .. } => db.as_mut().unwrap() as &mut dyn Storage<T>,
        }
    };
}

#[cfg(feature = "rocks")]
fn open<T: TestEntry>(path: String, fresh: bool) -> omnipaxos_storage::persistent_storage::PersistentStorage<T>
where
    T::Snapshot: Serialize + for<'a> Deserialize<'a>,
{
    use omnipaxos_storage::persistent_storage::*;
    // the ways to configure a storage amount to the same
    let c = match path.len() as u64 ^ path.bytes().map(|b| b as u64).sum::<u64>() ^ fresh as u64 {
        h if h % 3 == 0 => {
            let mut c = PersistentStorageConfig::default();
            c.set_path(path.clone());
            assert_eq!(c.get_path(), &path);
            c
        }
        h if h % 3 == 1 => {
            let d = PersistentStorageConfig::with_path(path.clone());
            let mut c = PersistentStorageConfig::with(path.clone(), d.get_log_options(), d.get_database_options());
            c.set_log_options(d.get_log_options());
            c.set_database_options(d.get_database_options());
            c
        }
        _ => PersistentStorageConfig::with_path(path.clone()),
    };
    if c.get_path() != &path {
        // never touch another place
        panic!("the configuration for {} names {}", path, c.get_path());
    }
    if fresh {
        PersistentStorage::new(c)
    } else {
        PersistentStorage::open(c)
    }
}

fn compare<T: SnapEntry>(s: &mut dyn Storage<T>, m: &M<T>) -> Result<(), String> {
    let err = |e: Box<dyn std::error::Error>| format!("query failed: {}", e);
    macro_rules! eq {
        ($what:expr, $got:expr, $want:expr) => {
            if $got != $want {
                return Err(format!("{}: storage says {:?}, expected {:?}", $what, $got, $want));
            }
        };
    }
    eq!("promise", s.get_promise().map_err(err)?, m.prom);
    eq!("accepted round", s.get_accepted_round().map_err(err)?, m.acc);
    eq!("decided index", s.get_decided_idx().map_err(err)?, m.dec);
    eq!("compacted index", s.get_compacted_idx().map_err(err)?, m.base);
    eq!("log length", s.get_log_len().map_err(err)?, m.log.len());
    eq!("stopsign", s.get_stopsign().map_err(err)?, m.ss);
    let sn = s.get_snapshot().map_err(err)?;
    if !T::snap_eq(&sn, &m.snap) {
        return Err("snapshot differs from the last one set".into());
    }
    eq!("whole log (get_suffix)", s.get_suffix(m.base).map_err(err)?, m.log);
    eq!("whole log (get_entries)", s.get_entries(m.base, m.end()).map_err(err)?, m.log);
    eq!("beyond the end", s.get_suffix(m.end()).map_err(err)?, Vec::<T>::new());
    Ok(())
}

fn run_t<T: SnapEntry>(c: &SCase, rocks: bool, st: &mut BTreeMap<&'static str, u64>) -> Option<Violation>
where
    T::Snapshot: Serialize + for<'a> Deserialize<'a>,
{
    let mut step = 0;
    let r = catch_unwind(AssertUnwindSafe(|| run_inner::<T>(c, rocks, st, &mut step)));
    match r {
        Ok(None) => None,
        Ok(Some(m)) => Some(Violation { tag: "storage".into(), msg: m, step }),
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Some(Violation { tag: "panic".into(), msg: format!("storage panicked: {}", m), step })
        }
    }
}

fn run_inner<T: SnapEntry>(c: &SCase, rocks: bool, st: &mut BTreeMap<&'static str, u64>, step: &mut usize) -> Option<String>
where
    T::Snapshot: Serialize + for<'a> Deserialize<'a>,
{
    let mut back: Back<T> = Back::Mem(MemoryStorage::default());
    let _ = rocks;
    #[cfg(feature = "rocks")]
    if rocks {
        let dir = Scratch::new();
        let db = Some(open(dir.path("d0"), true));
        back = Back::Rocks { dir, n: 0, db };
    }
    let mut m = M::<T>::new();
    // states after every completed write since the files were last opened
    let mut hist: Vec<M<T>> = vec![m.clone()];
    for op in &c.ops {
        *step += 1;
        let mut inc = |k: &'static str| *st.entry(k).or_insert(0) += 1;
        match op {
            SOp::One(b) => {
                inc("single_ops");
                let before = m.clone();
                let ops = m.apply(b);
                let s = st!(&mut back);
                for o in ops {
                    let r = match o {
                        StorageOp::AppendEntry(e) => s.append_entry(e),
                        StorageOp::AppendEntries(v) => s.append_entries(v),
                        StorageOp::AppendOnPrefix(i, v) => s.append_on_prefix(i, v),
                        StorageOp::SetPromise(b) => s.set_promise(b),
                        StorageOp::SetDecidedIndex(i) => s.set_decided_idx(i),
                        StorageOp::SetAcceptedRound(b) => s.set_accepted_round(b),
                        StorageOp::SetCompactedIdx(i) => s.set_compacted_idx(i),
                        StorageOp::Trim(i) => s.trim(i),
                        StorageOp::SetStopsign(x) => s.set_stopsign(x),
                        StorageOp::SetSnapshot(x) => s.set_snapshot(x),
                    };
                    if let Err(e) = r {
                        return Some(format!("{:?} failed: {}", b, e));
                    }
                }
                if matches!(b, B::OnPrefix(..)) && m.end() < before.end() {
                    inc("shrinking_overwrites");
                }
            }
            SOp::Group(bs) => {
                inc("groups");
                let mut ops = vec![];
                for b in bs {
                    ops.extend(m.apply(b));
                }
                if let Err(e) = st!(&mut back).write_atomically(ops) {
                    return Some(format!("group {:?} failed: {}", bs, e));
                }
            }
            SOp::Entries(a, b) => {
                inc("range_queries");
                let from = m.base + a % (m.log.len() + 4);
                let to = m.base + b % (m.log.len() + 4);
                let want: Vec<T> = if from <= to && to <= m.end() { m.log[from - m.base..to - m.base].to_vec() } else { vec![] };
                match st!(&mut back).get_entries(from, to) {
                    Ok(g) if g == want => (),
                    x => return Some(format!("get_entries({}, {}) with log {}..{}: {:?}, expected {:?}", from, to, m.base, m.end(), x.map_err(|e| e.to_string()), want)),
                }
            }
            SOp::Suffix(a) => {
                inc("range_queries");
                let from = m.base + a % (m.log.len() + 3);
                let want: Vec<T> = if from <= m.end() { m.log[from - m.base..].to_vec() } else { vec![] };
                match st!(&mut back).get_suffix(from) {
                    Ok(g) if g == want => (),
                    x => return Some(format!("get_suffix({}) with log {}..{}: {:?}, expected {:?}", from, m.base, m.end(), x.map_err(|e| e.to_string()), want)),
                }
            }
            SOp::Reopen | SOp::Kill | SOp::CutWal(_) => {
                #[cfg(feature = "rocks")]
                if let Back::Rocks { dir, n, db } = &mut back {
                    match op {
                        SOp::Reopen => {
                            inc("reopens");
                            *db = None;
                            *db = Some(open(dir.path(&format!("d{}", n)), false));
                            hist.clear();
                        }
                        SOp::Kill => {
                            inc("kills");
                            let (from, to) = (dir.path(&format!("d{}", n)), dir.path(&format!("d{}", *n + 1)));
                            copy_dir(&from, &to);
                            *db = None;
                            let _ = std::fs::remove_dir_all(&from);
                            *n += 1;
                            *db = Some(open(to, false));
                            hist.clear();
                        }
                        SOp::CutWal(x) => {
                            let (from, to) = (dir.path(&format!("d{}", n)), dir.path("cut"));
                            copy_dir(&from, &to);
                            // the newest write-ahead log
                            let mut wals: Vec<_> = std::fs::read_dir(&to).unwrap().filter_map(|f| f.ok()).map(|f| f.path()).filter(|p| p.extension().map(|x| x == "log").unwrap_or(false)).collect();
                            wals.sort();
                            if let Some(w) = wals.pop() {
                                let len = std::fs::metadata(&w).unwrap().len();
                                let cut = if len == 0 { 0 } else { (*x as u64 * 7919) % (len + 1) };
                                std::fs::OpenOptions::new().write(true).open(&w).unwrap().set_len(cut).unwrap();
                                inc("wal_cuts");
                                if cut < len {
                                    inc("wal_cuts_effective");
                                }
                                let mut d = open::<T>(to.clone(), false);
                                let hit = hist.iter().rposition(|h| compare(&mut d, h).is_ok());
                                if hit.is_none() {
                                    let why = compare(&mut d, hist.last().unwrap()).unwrap_err();
                                    return Some(format!("after a kill within the last writes (write-ahead log cut from {} to {} bytes) the storage is in none of the {} states between operations; compared with the last one: {}", len, cut, hist.len(), why));
                                }
                                drop(d);
                            }
                            let _ = std::fs::remove_dir_all(&to);
                        }
                        _ => (),
                    }
                }
            }
        }
        if let Err(x) = compare(st!(&mut back), &m) {
            return Some(format!("after {:?}: {}", op, x));
        }
        hist.push(m.clone());
    }
    None
}

pub fn run_scase(c: &SCase, rocks: bool, st: &mut BTreeMap<&'static str, u64>) -> Option<Violation> {
    if c.snap {
        run_t::<S>(c, rocks, st)
    } else {
        run_t::<V>(c, rocks, st)
    }
}

fn gen_b(r: &mut Rng, id: &mut u64, wal: bool, single: bool) -> B {
    let mut ids = |r: &mut Rng, lo: usize, hi: usize| -> Vec<u64> {
        let k = r.range(lo, hi);
        (0..k)
            .map(|_| {
                *id += 1;
                *id
            })
            .collect()
    };
    loop {
        let b = match r.weighted(&[8, 6, 5, 3, 3, 4, 3, 3, 4, if single { 0 } else { 2 }]) {
            0 => B::Append(ids(r, 1, 1)[0]),
            1 => B::AppendMany(if r.chance(1, 120) { ids(r, 100, 700) } else { ids(r, 0, 5) }),
            2 => {
                let x = if r.chance(1, 6) { r.below(1000) } else { r.below(40) };
                B::OnPrefix(x, ids(r, 0, 4))
            }
            3 => B::Promise(r.below(5) as u32, r.below(3) as u32, 1 + r.below(5) as u64),
            4 => B::AccRound(r.below(5) as u32, r.below(3) as u32, 1 + r.below(5) as u64),
            5 => B::Decided(*r.pick(&[0, 1, 2, 255, 256, 1000, 65536, 1 << 33]) + r.below(20)),
            6 => B::Stop(if r.chance(1, 3) { None } else { Some(r.below(255) as u8) }),
            7 => B::Snap(if r.chance(1, 5) { None } else { Some(r.below(255) as u8) }),
            8 => B::Compact(if r.chance(1, 6) { r.below(1000) } else { r.below(60) }),
            _ => {
                let x = r.below(300);
                B::Jump(x, ids(r, 0, 4))
            }
        };
        if wal && single && matches!(b, B::OnPrefix(..) | B::Compact(_)) {
            continue;
        }
        return b;
    }
}

pub fn gen_scase(r: &mut Rng, rocks: bool) -> SCase {
    let n = if r.chance(1, 20) { r.range(60, 320) } else { r.range(3, 40) };
    let wal = rocks && r.chance(1, 3);
    let mut id = 0;
    let mut ops = vec![];
    for _ in 0..n {
        ops.push(match r.weighted(&[10, 6, 5, 3, if rocks { 1 } else { 0 }, if rocks { 1 } else { 0 }]) {
            0 => SOp::One(gen_b(r, &mut id, wal, true)),
            1 => {
                let k = r.range(1, 6);
                SOp::Group((0..k).map(|_| gen_b(r, &mut id, wal, false)).collect())
            }
            2 => {
                let top = *r.pick(&[50, 50, 50, 1000]);
                SOp::Entries(r.below(top), r.below(top))
            }
            3 => {
                let top = *r.pick(&[50, 50, 50, 1000]);
                SOp::Suffix(r.below(top))
            }
            4 => SOp::Reopen,
            _ => SOp::Kill,
        });
    }
    if wal {
        for _ in 0..4 {
            ops.push(SOp::CutWal(r.below(1 << 20) as u32));
        }
    }
    SCase { snap: r.chance(1, 2), ops }
}

pub fn shrink_s(c: &SCase, fails: &dyn Fn(&SCase) -> bool) -> SCase {
    let ops = shrink_vec(&c.ops, std::time::Duration::from_secs(40), &|o| fails(&SCase { snap: c.snap, ops: o.to_vec() }));
    let mut best = SCase { snap: c.snap, ops };
    for i in 0..best.ops.len() {
        if let SOp::Group(g) = &best.ops[i] {
            let small = shrink_vec(g, std::time::Duration::from_secs(5), &|o| {
                let mut b = best.clone();
                b.ops[i] = SOp::Group(o.to_vec());
                fails(&b)
            });
            best.ops[i] = SOp::Group(small);
        }
    }
    best
}

pub const CLUSTER_TAGS: &[&str] = &["storage", "persist", "mono", "perm", "snap", "panic"];
const CLUSTER_RULE: &str = "random histories of clusters on persistent storages; non-trivial: entries were decided and a server restarted; distinct by the hash of configuration and operations";

/// what the servers of a cluster ask of their persistent storages
fn clusters(env: &Env) -> Report {
    use crate::gen::*;
    let cases = (if env.thorough() { 30_000 } else { 800 }) * crate::checks::env_scale();
    let budget = std::time::Duration::from_secs(if env.thorough() { 300 } else { 120 });
    let none: &[EpiSel] = &[EpiSel::None];
    let mixed = Prof { name: "rocks", rocks: true, epi: none, max_n: 3, crash: 12, compact: 10, arm: 3, reconf: 2, ..BASE };
    let heal = Prof { name: "rocks-heal", epi: &[EpiSel::Heal], len: (10, 50), ..mixed.clone() };
    parallel(cases, budget, |i| {
        let mut rng = Rng::new(env.seed ^ 0x15C1 ^ (i as u64).wrapping_mul(0xD1342543DE82EF95));
        let p = if rng.chance(2, 3) { &mixed } else { &heal };
        let (case, v, st) = gen_case(p, &mut rng, CLUSTER_TAGS, 1.0);
        let nt = st.get("decided") >= 1 && st.get("restarts") >= 1;
        Outcome {
            hash: hash_str(&format!("{:?}", case)),
            nontrivial: nt,
            evals: 1,
            sample: if i < 20 && nt { Some(case_sample(&case)) } else { None },
            replay: v.as_ref().map(|_| case_value(&case)),
            stats: st.c,
            violation: v,
        }
    })
}

pub fn check(env: &Env, id: &'static str) -> Option<String> {
    let rocks = id == "C15";
    let cases = match (rocks, env.thorough()) {
        (false, false) => 600_000,
        (false, true) => 20_000_000,
        (true, false) => 2_500,
        (true, true) => 150_000,
    } * crate::checks::env_scale();
    let budget = std::time::Duration::from_secs(if !env.thorough() { 240 } else if rocks { 500 } else { 800 });
    let idh = hash_str(id);
    let mut r = parallel(cases, budget, |i| {
        let mut rng = Rng::new(env.seed ^ idh.rotate_left(13) ^ (i as u64).wrapping_mul(0xD1342543DE82EF95));
        let c = gen_scase(&mut rng, rocks);
        let mut st = BTreeMap::new();
        let v = run_scase(&c, rocks, &mut st);
        let g = |k: &str| st.get(k).copied().unwrap_or(0);
        let nt = if rocks { g("reopens") + g("kills") + g("wal_cuts_effective") > 0 && c.ops.len() > 4 } else { g("groups") > 0 && g("single_ops") > 2 };
        Outcome {
            hash: hash_str(&format!("{:?}", c)),
            nontrivial: nt,
            evals: 1,
            sample: if i < 40 && nt { Some(serde_json::json!(format!("{:?}", c))) } else { None },
            replay: v.as_ref().map(|_| serde_json::to_value(&c).unwrap()),
            stats: st,
            violation: v,
        }
    });
    if rocks && r.failure.is_none() {
        let c = clusters(env);
        if c.failure.is_some() {
            return crate::checks::finish_with_level(env, id, "exploration", CLUSTER_RULE, c, CLUSTER_TAGS, crate::checks::ASSUME);
        }
        r.evaluations += c.evaluations;
        r.cases += c.cases;
        r.distinct += c.distinct;
        for (k, v) in c.stats {
            *r.stats.entry(format!("clusters: {}", k)).or_insert(0) += v;
        }
        r.samples.truncate(6);
        r.samples.extend(c.samples.into_iter().take(3));
        r.stopped_early |= c.stopped_early;
    }
    let rule = if rocks {
        "random sequences of valid operations, groups and queries, with close/reopen, kill (continuing from a copy of the files taken while the database is open) and, for a third of the cases, cuts of the write-ahead log at random lengths; compared with an abstract log after every operation; non-trivial: at least one reopen, kill or effective cut; distinct by the hash of the sequence; and random histories of clusters on persistent storages (restarts from reopened databases and from copies taken at a kill), where every answer of a storage is compared with the abstract log; non-trivial: entries were decided and a server restarted"
    } else {
        "random sequences of valid operations, groups and queries compared with an abstract log after every operation; non-trivial: at least one atomic group and three single operations; distinct by the hash of the sequence"
    };
    finish_custom(env, id, "storage", rule, r, &["operations respect the storage contract: intervals start at or above the compacted index; trimming goes together with setting the compacted index", "a kill of the process keeps what was written to files (no loss of operating system buffers)"], |d: SCase| {
        let tag = run_scase(&d, rocks, &mut BTreeMap::new()).map(|v| v.tag);
        if tag.is_none() {
            return (serde_json::to_value(&d).unwrap(), None);
        }
        let small = shrink_s(&d, &|c| run_scase(c, rocks, &mut BTreeMap::new()).map(|v| v.tag) == tag);
        let v = run_scase(&small, rocks, &mut BTreeMap::new());
        eprintln!("{:?}", small);
        (serde_json::to_value(&small).unwrap(), v)
    })
}
