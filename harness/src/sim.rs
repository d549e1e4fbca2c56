//! Deterministic cluster simulator around the real library, with monitors.
use crate::entry::TestEntry;
use crate::rng::Rng;
use crate::store::*;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::messages::ballot_leader_election::{BLEMessage, HeartbeatMsg, HeartbeatReply};
use omnipaxos::messages::sequence_paxos::PaxosMsg;
use omnipaxos::messages::Message;
use omnipaxos::storage::StopSign;
use omnipaxos::util::{FlexibleQuorum, LogEntry};
use omnipaxos::{
    ClusterConfig, CompactionErr, OmniPaxos, OmniPaxosConfig, ProposeErr, ServerConfig,
};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    V,
    S,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Epi {
    None,
    /// heal everything, require one leader and decisions everywhere
    Heal,
    /// fix a symmetric connectivity graph (adjacency bits per node), require progress
    Partial(Vec<u32>),
    /// fault-free completion: everything appended is decided once, in order
    Stable,
    /// heal, then trim everything at the leader
    Trim,
    /// only messages were lost: recover without reconnection reports
    Gap,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cfg {
    pub entry: Kind,
    pub pids: Vec<u64>,
    pub flex: Option<(usize, usize)>,
    pub batch: usize,
    pub buffer: usize,
    pub elect: u64,
    pub resend: u64,
    pub flush: u64,
    pub prio: Vec<u32>,
    pub config_id: u32,
    /// 0 direct, 1 bincode, 2 json
    pub transport: u8,
    /// 0 memory, 1 rocksdb
    pub backend: u8,
    pub epi: Epi,
    /// maximal number of undelivered messages per direction kept in a link
    pub ui: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Tick(usize),
    Run(usize, u64),
    Pump(u64),
    Flush(usize),
    Collect(usize),
    FlushDeliver(usize, usize, usize),
    Deliver(usize, usize, usize),
    DropHead(usize, usize, usize),
    DropAll(usize, usize),
    Cut(usize, usize),
    Heal(usize, usize, bool),
    Partition(Vec<u32>),
    /// links not in the given adjacency are slow: only explicit deliveries move their messages
    Slow(Vec<u32>),
    HealAll(bool),
    Reconnected(usize, usize),
    Append(usize, u64, u32),
    Crash(usize),
    Restart(usize, bool),
    Arm(usize, u64, FaultMode),
    Trim(usize, Option<usize>),
    Snapshot(usize, Option<usize>, bool),
    Reconf(usize, u32),
    BadReconf(usize, u32),
    Prio(usize, u32),
    TryLeader(usize),
    Read(usize, u8, usize, u8, usize),
    ReadAll(usize),
    Heal2,
    ExpectFresh,
    /// server gets a heartbeat reply of a peer's instance in another configuration: (priority, ballot, leader), happy
    Foreign(usize, usize, u32, (u32, u32, u32), bool),
    /// before anything else: append at this server in that round of the first election
    Early(usize, usize, u64),
    /// many appends at once: server, first id, number
    Bulk(usize, u64, usize),
    /// a long stretch of the same: server, first id, number, kind (0 appends that are each replicated,
    /// 1 takeovers by the servers in turn, 2 resynchronisations of the server)
    Stretch(usize, u64, usize, u8),
    /// the same for a reconfiguration
    EarlyReconf(usize, usize, u32),
    ExpectStable(usize),
    ExpectTakeover(usize),
    ExpectPrio(usize, u32),
    ExpectFailover,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub tag: String,
    pub msg: String,
    pub step: usize,
}

#[derive(Clone, Debug, Default, Serialize)]
pub struct Stats {
    pub c: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn inc(&mut self, k: &'static str) {
        *self.c.entry(k).or_insert(0) += 1;
    }
    pub fn get(&self, k: &str) -> u64 {
        self.c.get(k).copied().unwrap_or(0)
    }
}

pub type BKey = (u32, u32, u64);
pub fn bkey(b: &Ballot) -> BKey {
    (b.n, b.priority, b.pid)
}

#[derive(Clone, Debug)]
pub enum GE<T> {
    E(T),
    SS(StopSign),
}

pub struct Node<T: TestEntry> {
    pub pid: u64,
    pub op: Option<OmniPaxos<T, Store<T>>>,
    pub store: Store<T>,
    pub incarnation: u32,
    // last observations (over the whole life of the server)
    pub decided: usize,
    pub compacted: usize,
    pub promise: Ballot,
    pub acc: Ballot,
    pub verified: usize,
    pub seen_version: u64,
    pub match_len: usize,
    pub log_version: u64,
    pub hist_pos: usize,
    pub last_prepare: Option<(BKey, u32)>,
    pub hb_round: u32,
    pub hb_replies: Vec<(u32, Ballot, Ballot, bool)>,
    pub hb_prev: Vec<(u32, Ballot, Ballot, bool)>,
    pub ticks: u64,
    pub prio: u32,
    pub tm: crate::timers::Tm,
}

pub struct Sim<T: TestEntry> {
    pub cfg: Cfg,
    pub n: usize,
    pub nodes: Vec<Node<T>>,
    pub links: Vec<VecDeque<Message<T>>>,
    pub up: Vec<bool>,
    pub slow: Vec<bool>,
    pub glog: Vec<GE<T>>,
    pub proposed: HashMap<u64, T>,
    /// order in which each server successfully appended (per server)
    pub appended_at: Vec<Vec<u64>>,
    pub proposed_ss: Vec<StopSign>,
    pub decided_ids: HashMap<u64, usize>,
    pub promised_by: HashMap<BKey, u32>,
    pub ballots_used: HashMap<BKey, usize>,
    pub leaders_seen: Vec<BKey>,
    pub violation: Option<Violation>,
    pub step: usize,
    pub stats: Stats,
    pub disturbed: bool,
    /// a message was lost, a server crashed or a connection was reported as re-established
    pub broken: bool,
    sent_promise: Vec<Option<BKey>>,
    pub prio_changed: bool,
    pub trace: u64,
    pub tracing: bool,
    pub scratch: Option<crate::scratch::Scratch>,
    pub wq: usize,
    pub rq: usize,
    pub last_panic: Option<String>,
    pub next_epi_id: u64,
    pub quiet_results: bool,
    pub enabled: &'static [&'static str],
    pub fresh_ballot: Option<BKey>,
    pub early: Vec<(usize, usize, u64)>,
    pub early_reconf: Vec<(usize, usize, u32)>,
    /// accepted requests for reconfiguration: the server, and how many appends it had accepted before
    pub reconf_ok: Vec<(usize, usize)>,
    pub pristine: bool,
    /// something worse than lost messages happened (crash, cut link)
    pub hard: bool,
    pub pend: Vec<Vec<Message<T>>>,
    /// observe every tick (changes when messages are collected)
    pub timers: bool,
}

thread_local! {
    pub static PANIC_MSG: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
    pub static IN_LIB: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

pub fn verbose() -> bool {
    static V: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *V.get_or_init(|| std::env::var("VP_TRACE").is_ok())
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !IN_LIB.with(|x| x.get()) {
            default(info);
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().is::<InjectedCrash>() {
            "injected crash".to_string()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if verbose() && !info.payload().is::<InjectedCrash>() {
            eprintln!("panic backtrace:\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// run a closure that calls into the library; Err(message) if it panicked
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let prev = IN_LIB.with(|x| x.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|x| x.set(prev));
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow_mut().take().unwrap_or_default()))
}

fn fnv(mut h: u64, s: &str) -> u64 {
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn next_config(kind: u32, pids: &[u64], cfg_id: u32) -> (ClusterConfig, Option<Vec<u8>>) {
    let mut nodes: Vec<u64> = pids.to_vec();
    match kind % 3 {
        0 => nodes.push(pids.iter().max().unwrap() + 1 + (kind as u64 % 5)),
        1 if nodes.len() > 2 => {
            nodes.pop();
        }
        _ => (),
    }
    let flex = if kind % 4 == 3 {
        Some(FlexibleQuorum {
            read_quorum_size: nodes.len(),
            write_quorum_size: 2,
        })
    } else {
        None
    };
    let meta = match kind % 5 {
        0 => None,
        1 => Some(vec![]),
        4 if kind % 2 == 0 => Some(vec![kind as u8; 300]),
        k => Some((0..k as u8).map(|x| x.wrapping_mul(kind as u8)).collect()),
    };
    (
        ClusterConfig {
            configuration_id: cfg_id + 1 + kind % 7,
            nodes,
            flexible_quorum: flex,
        },
        meta,
    )
}

pub fn bad_config(kind: u32, pids: &[u64], cfg_id: u32) -> ClusterConfig {
    let mut c = ClusterConfig {
        configuration_id: cfg_id + 1,
        nodes: pids.to_vec(),
        flexible_quorum: None,
    };
    let n = pids.len();
    let fq = |r, w| {
        Some(FlexibleQuorum {
            read_quorum_size: r,
            write_quorum_size: w,
        })
    };
    match kind % 8 {
        0 => c.configuration_id = 0,
        1 => c.nodes = vec![],
        2 => c.nodes = vec![pids[0]],
        3 => c.flexible_quorum = fq(n + 1, 2),
        4 => c.flexible_quorum = fq(n, 1),
        5 => c.flexible_quorum = fq(1, n),
        6 => {
            if n > 3 {
                c.flexible_quorum = fq(2, 2)
            } else {
                c.flexible_quorum = fq(0, 0)
            }
        }
        _ => {
            if n > 2 {
                c.flexible_quorum = fq(n - 1, n)
            } else {
                c.flexible_quorum = fq(n, n + 1)
            }
        }
    }
    c
}

impl<T: TestEntry> Sim<T> {
    pub fn new(cfg: &Cfg, enabled: &'static [&'static str]) -> Self {
        let n = cfg.pids.len();
        let (rq, wq) = cfg.flex.unwrap_or((n / 2 + 1, n / 2 + 1));
        let scratch = if cfg.backend == 1 {
            Some(crate::scratch::Scratch::new())
        } else {
            None
        };
        let mut nodes = vec![];
        for (i, pid) in cfg.pids.iter().enumerate() {
            let backend = match cfg.backend {
                #[cfg(feature = "rocks")]
                1 => {
                    let path = scratch.as_ref().unwrap().path(&format!("n{}-0", pid));
                    Backend::Rocks(None, path)
                }
                _ => Backend::Mem(omnipaxos_storage::memory_storage::MemoryStorage::default()),
            };
            nodes.push(Node {
                pid: *pid,
                op: None,
                store: Store::new(backend),
                incarnation: 0,
                decided: 0,
                compacted: 0,
                promise: Ballot::default(),
                acc: Ballot::default(),
                verified: 0,
                seen_version: u64::MAX,
                match_len: 0,
                log_version: 0,
                hist_pos: 0,
                last_prepare: None,
                hb_round: 0,
                hb_replies: vec![],
                hb_prev: vec![],
                ticks: 0,
                prio: cfg.prio[i],
                tm: Default::default(),
            });
        }
        let mut s = Sim {
            cfg: cfg.clone(),
            n,
            nodes,
            links: (0..n * n).map(|_| VecDeque::new()).collect(),
            up: vec![true; n * n],
            slow: vec![false; n * n],
            glog: vec![],
            proposed: HashMap::new(),
            appended_at: vec![vec![]; n],
            proposed_ss: vec![],
            decided_ids: HashMap::new(),
            promised_by: HashMap::new(),
            ballots_used: HashMap::new(),
            leaders_seen: vec![],
            violation: None,
            step: 0,
            stats: Stats::default(),
            disturbed: false,
            broken: false,
            sent_promise: vec![None; n],
            prio_changed: false,
            trace: 0xcbf29ce484222325,
            timers: enabled.contains(&"timer"),
            tracing: false,
            scratch,
            wq,
            rq,
            last_panic: None,
            next_epi_id: 1 << 40,
            quiet_results: false,
            enabled,
            fresh_ballot: None,
            early: vec![],
            early_reconf: vec![],
            reconf_ok: vec![],
            pristine: true,
            hard: false,
            pend: (0..n).map(|_| vec![]).collect(),
        };
        for i in 0..n {
            s.start(i, false);
        }
        s
    }

    pub fn viol(&mut self, tag: &'static str, msg: String) {
        if !self.enabled.is_empty() && !self.enabled.contains(&tag) {
            self.stats.inc("other_tag");
            return;
        }
        if self.violation.is_none() {
            self.violation = Some(Violation {
                tag: tag.to_string(),
                msg,
                step: self.step,
            });
        }
    }

    pub fn idx_of(&self, pid: u64) -> Option<usize> {
        self.cfg.pids.iter().position(|p| *p == pid)
    }

    pub fn li(&self, a: usize, b: usize) -> usize {
        a * self.n + b
    }

    pub fn alive(&self, i: usize) -> bool {
        self.nodes[i].op.is_some()
    }

    fn server_config(&self, i: usize) -> OmniPaxosConfig {
        OmniPaxosConfig {
            cluster_config: ClusterConfig {
                configuration_id: self.cfg.config_id,
                nodes: self.cfg.pids.clone(),
                flexible_quorum: self.cfg.flex.map(|(r, w)| FlexibleQuorum {
                    read_quorum_size: r,
                    write_quorum_size: w,
                }),
            },
            server_config: ServerConfig {
                pid: self.nodes[i].pid,
                election_tick_timeout: self.cfg.elect,
                resend_message_tick_timeout: self.cfg.resend,
                flush_batch_tick_timeout: self.cfg.flush,
                buffer_size: self.cfg.buffer,
                batch_size: self.cfg.batch,
                leader_priority: self.cfg.prio[i],
                #[cfg(feature = "ui")]
                custom_logger: Some(crate::logcheck::sink()),
                ..Default::default()
            },
        }
    }

    /// build (or rebuild after a crash) the server from its storage
    pub fn start(&mut self, i: usize, kill_copy: bool) {
        if self.nodes[i].op.is_some() {
            return;
        }
        let conf = self.server_config(i);
        let store = self.nodes[i].store.clone();
        {
            let mut g = store.0.borrow_mut();
            g.dead = false;
            g.fired = false;
            let _ = kill_copy;
            #[cfg(feature = "rocks")]
            if let Backend::Rocks(db, path) = &mut g.backend {
                use omnipaxos_storage::persistent_storage::*;
                if kill_copy && db.is_some() {
                    // simulate a killed process: reopen a copy of the files as they are now
                    let newp = self
                        .scratch
                        .as_ref()
                        .unwrap()
                        .path(&format!("n{}-{}", self.nodes[i].pid, self.nodes[i].incarnation + 1));
                    crate::scratch::copy_dir(path, &newp);
                    *db = None;
                    *path = newp;
                } else {
                    *db = None;
                }
                *db = Some(PersistentStorage::open(PersistentStorageConfig::with_path(
                    path.clone(),
                )));
            }
        }
        let st2 = store.clone();
        let r = guarded(move || conf.build::<T, Store<T>>(st2));
        self.nodes[i].incarnation += 1;
        self.nodes[i].hb_round = 0;
        self.nodes[i].hb_replies.clear();
        self.nodes[i].hb_prev.clear();
        self.nodes[i].ticks = 0;
        self.nodes[i].prio = self.cfg.prio[i];
        self.tm_start(i);
        match r {
            Ok(Ok(op)) => {
                self.nodes[i].op = Some(op);
                if self.nodes[i].incarnation > 1 {
                    self.stats.inc("restarts");
                }
                self.nodes[i].hb_round = 1;
                self.observe(i);
                if self.nodes[i].incarnation > 1 {
                    self.check_recovered(i);
                }
            }
            Ok(Err(e)) => {
                let m = format!("valid configuration rejected: {}", e);
                self.viol("config", m)
            }
            Err(m) => {
                if self.take_fired(i) {
                    self.crashed(i);
                } else {
                    self.viol("panic", format!("server {} panicked on start: {}", self.nodes[i].pid, m))
                }
            }
        }
    }

    /// after a restart the server exposes exactly the log it had stored
    fn check_recovered(&mut self, i: usize) {
        let (view, total, c, d, ss_dec) = match self.view(i) {
            None => return,
            Some(x) => x,
        };
        if total == 0 || self.violation.is_some() {
            return;
        }
        if let Some(r) = self.call(i, |op| op.read_entries(0..total)) {
            if let Err(m) = check_read(&view, 0, total, c, d, T::SNAP, r.as_deref(), Some(ss_dec)) {
                let pid = self.nodes[i].pid;
                self.viol("persist", format!("server {} after a restart: {}", pid, m));
            }
        }
    }

    /// the log server i has stored: contents, length, compacted and decided index, stopsign decided
    fn view(&self, i: usize) -> Option<(Vec<GE<T>>, usize, usize, usize, bool)> {
        let g = self.nodes[i].store.0.borrow();
        let gh = &g.ghost;
        let (total, c, d) = (gh.accepted(), gh.compacted, gh.decided);
        if c > self.glog.len() || c > total || gh.base != c {
            return None;
        }
        let mut view: Vec<GE<T>> = vec![];
        for k in 0..total {
            if k < c {
                // content is hidden; use the decided log
                view.push(self.glog[k].clone());
            } else if let Some(x) = gh.at(k) {
                view.push(GE::E(x.clone()));
            } else {
                view.push(GE::SS(gh.stopsign.clone()?));
            }
        }
        let ss_dec = gh.stopsign.is_some() && d == total;
        Some((view, total, c, d, ss_dec))
    }

    fn take_fired(&mut self, i: usize) -> bool {
        let f = self.nodes[i].store.0.borrow().fired;
        f
    }

    fn crashed(&mut self, i: usize) {
        self.nodes[i].op = None;
        self.disturbed = true;
                self.broken = true;
        self.hard = true;
        self.pend[i].clear();
        let mut g = self.nodes[i].store.0.borrow_mut();
        g.fault = None;
        drop(g);
        // what was on its way to the dead server is lost
        for a in 0..self.n {
            let l = self.li(a, i);
            self.links[l].clear();
        }
        self.after_storage_change(i);
    }

    pub fn crash(&mut self, i: usize) {
        if self.alive(i) {
            self.stats.inc("crashes");
            self.crashed(i);
        }
    }

    /// call into server i; None if it is down or went down during the call
    pub fn call<R>(&mut self, i: usize, f: impl FnOnce(&mut OmniPaxos<T, Store<T>>) -> R) -> Option<R> {
        if self.violation.is_some() {
            return None;
        }
        let pre = self.tm_pre(i);
        let mut op = self.nodes[i].op.take()?;
        let r = guarded(|| f(&mut op));
        match r {
            Ok(v) => {
                if self.take_fired(i) {
                    // an injected error was swallowed by the library: the call returned
                    // normally although its write failed. The server is treated as crashed.
                    self.stats.inc("fault_fired");
                    self.stats.inc("fault_swallowed");
                    drop(op);
                    self.crashed(i);
                    return None;
                }
                self.nodes[i].op = Some(op);
                self.observe(i);
                self.tm_post(i, pre);
                Some(v)
            }
            Err(m) => {
                drop(op);
                if self.take_fired(i) {
                    self.stats.inc("fault_fired");
                    self.crashed(i);
                } else {
                    self.viol(
                        "panic",
                        format!("server {} panicked: {}", self.nodes[i].pid, m),
                    );
                }
                None
            }
        }
    }

    // ---------------------------------------------------------------- monitors

    fn ge_eq(&self, idx: usize, e: &T) -> bool {
        matches!(&self.glog[idx], GE::E(x) if x == e)
    }

    /// length of the common prefix of the global decided log and this server's durable log
    fn compute_match(&self, i: usize) -> usize {
        let g = self.nodes[i].store.0.borrow();
        let gh = &g.ghost;
        let mut m = gh.compacted.min(self.glog.len());
        while m < self.glog.len() {
            let ok = match &self.glog[m] {
                GE::E(x) => gh.at(m) == Some(x),
                GE::SS(ss) => m == gh.end() && gh.stopsign.as_ref() == Some(ss),
            };
            if !ok {
                break;
            }
            m += 1;
        }
        m
    }

    /// storage-level checks; also run for a server that has just crashed
    pub fn after_storage_change(&mut self, i: usize) {
        let (version, contract, mismatch) = {
            let mut g = self.nodes[i].store.0.borrow_mut();
            (g.ghost.version, g.ghost.contract.take(), g.mismatch.take())
        };
        let pid = self.nodes[i].pid;
        if let Some(m) = mismatch {
            self.viol("storage", format!("server {}: {}", pid, m));
        }
        if let Some(m) = contract {
            self.viol("match", format!("server {}: {}", pid, m));
        }
        if version == self.nodes[i].seen_version {
            return;
        }
        self.nodes[i].seen_version = version;
        let (promise, acc, decided, compacted, accepted, hist) = {
            let g = self.nodes[i].store.0.borrow();
            let gh = &g.ghost;
            let hist: Vec<Ballot> = gh.promise_hist[self.nodes[i].hist_pos..].to_vec();
            (
                gh.promise.unwrap_or_default(),
                gh.acc.unwrap_or_default(),
                gh.decided,
                gh.compacted,
                gh.accepted(),
                hist,
            )
        };
        self.nodes[i].hist_pos += hist.len();
        // monotonicity of persisted state
        let mut prev = self.nodes[i].promise;
        for b in &hist {
            if bkey(b) < bkey(&prev) {
                let m = format!("server {} promise went back from {:?} to {:?}", pid, prev, b);
                self.viol("mono", m);
            }
            prev = *b;
            *self.promised_by.entry(bkey(b)).or_insert(0) |= 1 << i;
        }
        if acc < self.nodes[i].acc {
            let m = format!(
                "server {} accepted round went back from {:?} to {:?}",
                pid, self.nodes[i].acc, acc
            );
            self.viol("mono", m);
        }
        if acc > promise {
            let m = format!("server {} accepted round {:?} above its promise {:?}", pid, acc, promise);
            self.viol("persist", m);
        }
        let lv = self.nodes[i].store.0.borrow().ghost.log_version;
        if lv != self.nodes[i].log_version && hist.is_empty() && acc != promise {
            let m = format!("server {} changed its log in round {:?} after promising {:?}", pid, bkey(&acc), bkey(&promise));
            self.viol("persist", m);
        }
        self.nodes[i].log_version = lv;
        if decided < self.nodes[i].decided {
            let m = format!(
                "server {} decided index went back from {} to {}",
                pid, self.nodes[i].decided, decided
            );
            self.viol("mono", m);
        }
        if compacted < self.nodes[i].compacted {
            let m = format!(
                "server {} compacted index went back from {} to {}",
                pid, self.nodes[i].compacted, compacted
            );
            self.viol("mono", m);
        }
        if decided > accepted {
            let m = format!(
                "server {} decided index {} beyond its stored log (length {})",
                pid, decided, accepted
            );
            self.viol("decided-beyond-log", m);
        }
        if compacted > self.nodes[i].compacted && compacted > decided {
            let m = format!("server {} compacted {} beyond decided {}", pid, compacted, decided);
            self.viol("compact", m);
        }
        if self.violation.is_some() {
            return;
        }
        let old_verified = self.nodes[i].verified;
        // decided contents
        let mut fail: Option<(&'static str, String)> = None;
        let mut new_ge: Vec<GE<T>> = vec![];
        {
            let g = self.nodes[i].store.0.borrow();
            let gh = &g.ghost;
            if gh.base != gh.compacted {
                fail = Some((
                    "compact",
                    format!(
                        "server {}: log trimmed to {} but compacted index is {}",
                        pid, gh.base, gh.compacted
                    ),
                ));
            }
            for k in gh.base..decided {
                let content: GE<T> = if let Some(e) = gh.at(k) {
                    GE::E(e.clone())
                } else if k == gh.end() && gh.stopsign.is_some() {
                    GE::SS(gh.stopsign.clone().unwrap())
                } else {
                    fail = Some((
                        "decided-beyond-log",
                        format!("server {}: decided index {} not in its log", pid, k),
                    ));
                    break;
                };
                if k < self.glog.len() {
                    let same = match (&self.glog[k], &content) {
                        (GE::E(a), GE::E(b)) => a == b,
                        (GE::SS(a), GE::SS(b)) => a == b,
                        _ => false,
                    };
                    if !same {
                        fail = Some((
                            if k < old_verified { "perm" } else { "agree" },
                            format!(
                                "server {} decided {:?} at index {} but {:?} was decided there",
                                pid, content, k, self.glog[k]
                            ),
                        ));
                        break;
                    }
                } else if k == self.glog.len() + new_ge.len() {
                    new_ge.push(content);
                } else {
                    fail = Some((
                        "agree",
                        format!("server {}: decided {} while only {} known", pid, k, self.glog.len()),
                    ));
                    break;
                }
            }
            if fail.is_none() && gh.base > self.glog.len() + new_ge.len() {
                fail = Some((
                    "compact",
                    format!(
                        "server {} compacted up to {} but only {} entries were ever decided",
                        pid,
                        gh.base,
                        self.glog.len()
                    ),
                ));
            }
        }
        for ge in new_ge {
            if fail.is_some() {
                break;
            }
            let idx = self.glog.len();
            if let Some(GE::SS(_)) = self.glog.last() {
                fail = Some((
                    "stop",
                    format!("server {}: {:?} decided after the reconfiguration", pid, ge),
                ));
                break;
            }
            match &ge {
                GE::E(e) => {
                    self.stats.inc("decided");
                    match self.proposed.get(&e.id()) {
                        None => {
                            fail = Some(("valid", format!("decided entry {:?} was never proposed", e)))
                        }
                        Some(p) if p != e => {
                            fail = Some((
                                "valid",
                                format!("decided entry {:?} differs from proposed {:?}", e, p),
                            ))
                        }
                        _ => (),
                    }
                    if let Some(old) = self.decided_ids.insert(e.id(), idx) {
                        fail = Some((
                            "valid",
                            format!("entry {:?} decided twice, at {} and {}", e, old, idx),
                        ));
                    }
                }
                GE::SS(ss) => {
                    self.stats.inc("decided_stopsign");
                    if !self.proposed_ss.contains(ss) {
                        fail = Some((
                            "valid",
                            format!("decided reconfiguration {:?} was never proposed", ss),
                        ));
                    }
                }
            }
            self.glog.push(ge);
        }
        if let Some((t, m)) = fail {
            self.viol(t, m);
            if self.violation.is_some() {
                return;
            }
        }
        // snapshot contents
        if compacted > self.glog.len() {
            // reported above as a compaction beyond the decided log
        } else if T::SNAP {
            let bad = {
                let g = self.nodes[i].store.0.borrow();
                let gh = &g.ghost;
                let got = gh.snapshot.as_ref().map(|s| T::snap_ids(s)).unwrap_or_default();
                let want: Vec<u64> = self.glog[..compacted]
                    .iter()
                    .map(|x| match x {
                        GE::E(e) => e.id(),
                        GE::SS(_) => u64::MAX,
                    })
                    .collect();
                if got != want {
                    Some(format!(
                        "server {}: snapshot at compacted index {} is {:?}, decided prefix is {:?}",
                        pid, compacted, got, want
                    ))
                } else {
                    None
                }
            };
            if let Some(m) = bad {
                self.viol("snap", m);
                if self.violation.is_some() {
                    return;
                }
            }
        } else if let Some(GE::SS(_)) = self.glog.get(compacted.wrapping_sub(1)) {
            self.viol("compact", format!("server {} trimmed the reconfiguration", pid));
            if self.violation.is_some() {
                    return;
                }
        }
        let nd = &mut self.nodes[i];
        nd.promise = promise;
        nd.acc = acc;
        nd.decided = decided;
        nd.compacted = compacted;
        nd.verified = old_verified.max(decided);
        // quorum durability
        let glen = self.glog.len();
        self.nodes[i].match_len = self.compute_match(i);
        let held = (0..self.n)
            .map(|k| {
                if k != i && self.nodes[k].match_len < glen {
                    let m = self.compute_match(k);
                    self.nodes[k].match_len = m;
                }
                (self.nodes[k].match_len >= glen) as usize
            })
            .sum::<usize>();
        if held < self.wq {
            let lens: Vec<(u64, usize)> =
                self.nodes.iter().map(|n| (n.pid, n.match_len)).collect();
            self.viol(
                "quorum",
                format!(
                    "decided log of length {} is durable at only {} servers (write quorum {}): {:?}",
                    glen, held, self.wq, lens
                ),
            );
            if self.violation.is_some() {
                return;
            }
        }
        // trimmed prefix must be held by everybody
        if !T::SNAP && compacted > 0 {
            for k in 0..self.n {
                if self.nodes[k].match_len < compacted {
                    let m = format!(
                        "server {} trimmed to {} but server {} only stores {} of it",
                        pid, compacted, self.nodes[k].pid, self.nodes[k].match_len
                    );
                    self.viol("trim", m);
                    break;
                }
            }
        }
        // log matching inside a round
        if acc != Ballot::default() {
            let mut bad = None;
            let gi = self.nodes[i].store.0.borrow();
            let a = &gi.ghost;
            for k in 0..self.n {
                if k == i {
                    continue;
                }
                let gk = self.nodes[k].store.0.borrow();
                let b = &gk.ghost;
                if b.acc != a.acc {
                    continue;
                }
                let lo = a.base.max(b.base);
                let hi = a.accepted().min(b.accepted());
                for x in lo..hi {
                    let same = match (a.at(x), b.at(x)) {
                        (Some(p), Some(q)) => p == q,
                        (None, None) => a.stopsign == b.stopsign,
                        _ => false,
                    };
                    if !same {
                        bad = Some(format!(
                            "servers {} and {} both accepted in round {:?} but differ at index {}: {:?} vs {:?}",
                            pid, self.nodes[k].pid, bkey(&acc), x, a.at(x), b.at(x)
                        ));
                        break;
                    }
                }
            }
            drop(gi);
            if let Some(m) = bad {
                self.viol("match", m);
            }
        }
    }

    /// checks run after every API call on server i
    pub fn observe(&mut self, i: usize) {
        let old_decided = self.nodes[i].verified;
        self.after_storage_change(i);
        if self.violation.is_some() {
            return;
        }
        let pid = self.nodes[i].pid;
        let op = match self.nodes[i].op.take() {
            Some(o) => o,
            None => return,
        };
        let mut fails: Vec<(&'static str, String)> = vec![];
        let glog = &self.glog;
        let ui_on = self.cfg.ui;
        let nodes = &self.nodes;
        let cfg = &self.cfg;
        let r = guarded(|| {
            let mut fails: Vec<(&'static str, String)> = vec![];
            let g = nodes[i].store.0.borrow();
            let gh = &g.ghost;
            let (d, c, p) = (op.get_decided_idx(), op.get_compacted_idx(), op.get_promise());
            if d != gh.decided {
                fails.push(("persist", format!("server {} reports decided {} but stored {}", pid, d, gh.decided)));
            }
            if c != gh.compacted {
                fails.push(("persist", format!("server {} reports compacted {} but stored {}", pid, c, gh.compacted)));
            }
            if p != gh.promise.unwrap_or_default() {
                fails.push(("persist", format!("server {} reports promise {:?} but stored {:?}", pid, p, gh.promise)));
            }
            let cl = op.get_current_leader();
            let want = if p.pid == 0 { None } else { Some(p.pid) };
            if cl.map(|x| x.0) != want {
                fails.push(("leader", format!("server {} reports leader {:?} with promise {:?}", pid, cl, p)));
            }
            // reconfiguration status
            let ss_decided = gh.stopsign.is_some() && gh.decided == gh.accepted();
            let rec = op.is_reconfigured();
            let want = if ss_decided { gh.stopsign.clone() } else { None };
            if rec != want {
                fails.push((
                    "stop",
                    format!("server {} is_reconfigured {:?}, expected {:?}", pid, rec, want),
                ));
            }
            if ui_on {
                let ui = op.get_ui_states();
                if ui.decided_idx != d {
                    fails.push(("ui", format!("ui decided {} vs {}", ui.decided_idx, d)));
                }
                if ui.current_leader != cl.map(|x| x.0) {
                    fails.push(("ui", format!("ui leader {:?} vs {:?}", ui.current_leader, cl)));
                }
                if ui.current_ballot.pid != pid || ui.current_ballot.config_id != cfg.config_id {
                    fails.push(("ui", format!("ui ballot {:?} of server {}", ui.current_ballot, pid)));
                }
                for (nm, hb) in [("heartbeats", &ui.heartbeats), ("cluster heartbeats", &ui.cluster_state.heartbeats)] {
                    let mut got: Vec<(u32, Ballot, Ballot, bool)> = hb.iter().map(|r| (r.round, r.ballot, r.leader, r.happy)).collect();
                    got.sort_by_key(|r| r.1.pid);
                    let mut want = nodes[i].hb_prev.clone();
                    want.sort_by_key(|r| r.1.pid);
                    if got != want {
                        fails.push(("ui", format!("ui {} of server {} from {:?}, expected {:?}", nm, pid, got, want)));
                    }
                }
                let max_pid = *cfg.pids.iter().max().unwrap() as usize;
                let ai = &ui.cluster_state.accepted_indexes;
                if ai.len() != max_pid + 1 {
                    fails.push(("ui", format!("ui accepted indexes has length {}", ai.len())));
                } else if cl == Some((pid, true)) && gh.acc == gh.promise {
                    for (k, v) in ai.iter().enumerate() {
                        match cfg.pids.iter().position(|x| *x as usize == k) {
                            None => {
                                if *v != 0 {
                                    fails.push(("ui", format!("ui accepted index {} for unknown server {}", v, k)));
                                }
                            }
                            Some(x) => {
                                let acc = if x == i { gh.accepted() } else { nodes[x].store.0.borrow().ghost.accepted() };
                                let same_round = x == i || nodes[x].store.0.borrow().ghost.acc == gh.acc;
                                if x == i && *v != acc {
                                    fails.push(("ui", format!("ui accepted index {} of the leader {} itself, stored {}", v, k, acc)));
                                }
                                if *v > ai[pid as usize] {
                                    fails.push(("ui", format!("ui accepted index {} of server {} exceeds the one of its leader {}", v, k, ai[pid as usize])));
                                }
                                if same_round && *v > acc {
                                    fails.push(("ui", format!("ui accepted index {} of server {} exceeds stored {}", v, k, acc)));
                                }
                                if x == i && *v != acc {
                                    fails.push(("ui", format!("ui own accepted index {} but stored {}", v, acc)));
                                }
                            }
                        }
                    }
                }
            }
            drop(g);
            // decided suffix through the API
            if d > old_decided {
                let got = op.read_decided_suffix(old_decided);
                if let Err(m) = check_read(glog, old_decided, d, c, d, T::SNAP, got.as_deref(), None) {
                    fails.push(("read", format!("server {}: {}", pid, m)));
                }
            }
            fails
        });
        self.nodes[i].op = Some(op);
        match r {
            Ok(f) => fails.extend(f),
            Err(m) => fails.push(("panic", format!("server {} panicked in a getter/read: {}", pid, m))),
        }
        for (t, m) in fails {
            self.viol(t, m);
        }
        let mm = self.nodes[i].store.0.borrow_mut().mismatch.take();
        if let Some(m) = mm {
            self.viol("storage", format!("server {}: {}", pid, m));
        }
        if self.tracing {
            let nd = &self.nodes[i];
            let s = format!("{}:{}:{}:{:?};", pid, nd.decided, nd.compacted, nd.promise);
            self.trace = fnv(self.trace, &s);
        }
    }

    fn monitor_out(&mut self, i: usize, m: &Message<T>) {
        let pid = self.nodes[i].pid;
        if m.get_sender() != pid {
            self.viol("addr", format!("server {} sends a message from {}", pid, m.get_sender()));
        }
        if self.idx_of(m.get_receiver()).is_none() || m.get_receiver() == pid {
            self.viol("addr", format!("server {} sends to {}, which is no other server: {:?}", pid, m.get_receiver(), m));
        }
        let (promise, acc, accepted) = {
            let g = self.nodes[i].store.0.borrow();
            (
                g.ghost.promise.unwrap_or_default(),
                g.ghost.acc.unwrap_or_default(),
                g.ghost.accepted(),
            )
        };
        match m {
            Message::SequencePaxos(p) => match &p.msg {
                PaxosMsg::Prepare(pr) => {
                    self.stats.inc("msg_prepare");
                    let k = bkey(&pr.n);
                    if pr.n.pid != pid {
                        self.viol("ballot", format!("server {} campaigns with {:?}", pid, pr.n));
                    }
                    let inc = self.nodes[i].incarnation;
                    match self.ballots_used.get(&k) {
                        Some(o) if *o != i => {
                            self.viol("ballot", format!("ballot {:?} used by two servers", k))
                        }
                        _ => {
                            self.ballots_used.insert(k, i);
                        }
                    }
                    if let Some((last, linc)) = self.nodes[i].last_prepare {
                        if k < last || (k == last && linc != inc) {
                            self.viol(
                                "ballot",
                                format!(
                                    "server {} campaigns with {:?} after {:?} (lives {} / {})",
                                    pid, k, last, inc, linc
                                ),
                            );
                        }
                    }
                    self.nodes[i].last_prepare = Some((k, inc));
                    if promise < pr.n {
                        self.viol("persist", format!("server {} campaigns with {:?} without having stored it", pid, pr.n));
                    }
                }
                PaxosMsg::Promise(pr) => {
                    self.stats.inc("msg_promise");
                    // a repeated promise makes the leader synchronise twice
                    if self.sent_promise[i] == Some(bkey(&pr.n)) {
                        self.broken = true;
                    }
                    self.sent_promise[i] = Some(bkey(&pr.n));
                    if promise < pr.n {
                        self.viol("persist", format!("server {} promises {:?}, stored promise {:?}", pid, pr.n, promise));
                    }
                    if self.promised_by.get(&bkey(&pr.n)).copied().unwrap_or(0) & (1 << i) == 0 {
                        self.viol("persist", format!("server {} promises {:?} which it never stored", pid, pr.n));
                    }
                    if acc < pr.n_accepted || (acc == pr.n_accepted && acc != Ballot::default() && accepted < pr.accepted_idx) {
                        self.viol("persist", format!("server {} promise claims log ({:?},{}) but stored ({:?},{})", pid, pr.n_accepted, pr.accepted_idx, acc, accepted));
                    }
                    if pr.decided_idx > self.nodes[i].decided {
                        self.viol("persist", format!("server {} promise claims decided {}", pid, pr.decided_idx));
                    }
                    if let Some(ls) = &pr.log_sync {
                        self.stats.inc("promise_with_log");
                        if ls.decided_snapshot.is_some() {
                            self.stats.inc("promise_with_snapshot");
                        }
                    }
                }
                PaxosMsg::Accepted(a) => {
                    self.stats.inc("msg_accepted");
                    if promise < a.n {
                        self.viol("persist", format!("server {} acknowledges {:?}, stored promise {:?}", pid, a.n, promise));
                    }
                    if acc < a.n {
                        self.viol("persist", format!("server {} acknowledges round {:?} but stored round is {:?}", pid, a.n, acc));
                    } else if acc == a.n && a.accepted_idx > accepted {
                        self.viol("persist", format!("server {} acknowledges index {} but only {} stored", pid, a.accepted_idx, accepted));
                    }
                }
                PaxosMsg::AcceptSync(_) | PaxosMsg::AcceptDecide(_) | PaxosMsg::AcceptStopSign(_) | PaxosMsg::Decide(_) => {
                    let (n, dec) = match &p.msg {
                        PaxosMsg::AcceptSync(a) => {
                            self.stats.inc("msg_acceptsync");
                            match &a.log_sync.decided_snapshot {
                                Some(omnipaxos::storage::SnapshotType::Delta(_)) => self.stats.inc("sync_delta"),
                                Some(_) => self.stats.inc("sync_complete"),
                                None => (),
                            }
                            (a.n, a.decided_idx)
                        }
                        PaxosMsg::AcceptDecide(a) => {
                            self.stats.inc("msg_acceptdecide");
                            (a.n, a.decided_idx)
                        }
                        PaxosMsg::AcceptStopSign(a) => (a.n, 0),
                        PaxosMsg::Decide(a) => {
                            self.stats.inc("msg_decide");
                            (a.n, a.decided_idx)
                        }
                        _ => unreachable!(),
                    };
                    if n.pid != pid {
                        self.viol("ballot", format!("server {} leads with foreign ballot {:?}", pid, n));
                    }
                    let k = bkey(&n);
                    let prom = self.promised_by.get(&k).copied().unwrap_or(0).count_ones() as usize;
                    if prom < self.rq {
                        self.viol("quorum", format!("server {} replicates in {:?} with only {} promises (read quorum {})", pid, k, prom, self.rq));
                    }
                    if dec > self.glog.len() {
                        self.viol("quorum", format!("server {} announces decided {} but only {} decided", pid, dec, self.glog.len()));
                    }
                    if !self.leaders_seen.contains(&k) {
                        self.leaders_seen.push(k);
                        self.stats.inc("leaders");
                    }
                }
                PaxosMsg::NotAccepted(_) => self.stats.inc("msg_notaccepted"),
                PaxosMsg::PrepareReq(_) => {
                    self.stats.inc("msg_preparereq");
                    if !self.broken {
                        self.viol("resync", format!("server {} asks {} to be synchronised although no message was lost", pid, m.get_receiver()));
                    }
                }
                PaxosMsg::ProposalForward(_) => self.stats.inc("msg_forward"),
                _ => (),
            },
            Message::BLE(b) => {
                if let HeartbeatMsg::Request(r) = &b.msg {
                    if r.round != self.nodes[i].hb_round {
                        // a new heartbeat round has started
                        let nd = &mut self.nodes[i];
                        nd.hb_round = r.round;
                    }
                }
            }
        }
    }

    /// take the outgoing messages of server i into the caller's buffer, which may hold messages
    pub fn collect(&mut self, i: usize) -> bool {
        if !self.alive(i) || self.violation.is_some() {
            return false;
        }
        let mut buf: Vec<Message<T>> = std::mem::take(&mut self.pend[i]);
        let had = buf.len();
        let before = if had > 0 { format!("{:?}", buf) } else { String::new() };
        if self.call(i, |op| op.take_outgoing_messages(&mut buf)).is_none() {
            return false;
        }
        if had > 0 && (buf.len() < had || format!("{:?}", &buf[..had]) != before) {
            self.viol("buffer", format!("collecting messages of server {} discarded messages already in the buffer", self.nodes[i].pid));
        }
        if had > 0 {
            if buf.len() > had {
                self.stats.inc("collected_into_used_buffer");
            }
            // not always: collecting again might hide what collecting into a used buffer left undone
            if buf.len() % 3 == 0 {
                let mut rest: Vec<Message<T>> = vec![];
                if self.call(i, |op| op.take_outgoing_messages(&mut rest)).is_none() {
                    return false;
                }
                if !rest.is_empty() {
                    self.viol("buffer", format!("collecting messages of server {} into a buffer with messages left {} behind", self.nodes[i].pid, rest.len()));
                    buf.extend(rest);
                }
            }
        }
        self.pend[i] = buf;
        self.tm_out(i, had);
        true
    }

    /// collect outgoing messages of server i and put them on the links
    pub fn flush(&mut self, i: usize) {
        if !self.alive(i) || self.violation.is_some() {
            return;
        }
        if !self.collect(i) {
            return;
        }
        let buf = std::mem::take(&mut self.pend[i]);
        for m in buf {
            self.monitor_out(i, &m);
            if self.violation.is_some() {
                return;
            }
            if self.tracing {
                let s = format!("{:?}", m);
                self.trace = fnv(self.trace, &s);
            }
            let to = match self.idx_of(m.get_receiver()) {
                Some(to) if to != i => to,
                _ => continue,
            };
            let l = self.li(i, to);
            if !self.up[l] || !self.alive(to) {
                self.stats.inc("lost");
                self.disturbed = true;
                self.broken = true;
                continue;
            }
            let m = match self.cfg.transport {
                1 => {
                    let before = format!("{:?}", m);
                    let r = guarded(|| {
                        let b = bincode::serialize(&m).map_err(|e| e.to_string())?;
                        bincode::deserialize::<Message<T>>(&b).map_err(|e| e.to_string())
                    });
                    match r {
                        Ok(Ok(x)) => {
                            if !cfg!(feature = "unicache") && format!("{:?}", x) != before {
                                self.viol("serde", format!("bincode round trip changed {} into {:?}", before, x));
                                return;
                            }
                            x
                        }
                        Ok(Err(e)) | Err(e) => {
                            self.viol("serde", format!("bincode round trip of {} failed: {}", before, e));
                            return;
                        }
                    }
                }
                2 => {
                    let before = format!("{:?}", m);
                    let r = guarded(|| {
                        let b = serde_json::to_string(&m).map_err(|e| e.to_string())?;
                        serde_json::from_str::<Message<T>>(&b).map_err(|e| e.to_string())
                    });
                    match r {
                        Ok(Ok(x)) => {
                            if !cfg!(feature = "unicache") && format!("{:?}", x) != before {
                                self.viol("serde", format!("json round trip changed {} into {:?}", before, x));
                                return;
                            }
                            x
                        }
                        Ok(Err(e)) | Err(e) => {
                            self.viol("serde", format!("json round trip of {} failed: {}", before, e));
                            return;
                        }
                    }
                }
                _ => m,
            };
            self.links[l].push_back(m);
        }
    }

    pub fn deliver_one(&mut self, a: usize, b: usize) -> bool {
        let l = self.li(a, b);
        if !self.alive(b) || self.violation.is_some() {
            return false;
        }
        match self.links[l].pop_front() {
            None => false,
            Some(m) => {
                if let Message::BLE(bm) = &m {
                    if let HeartbeatMsg::Reply(r) = &bm.msg {
                        if r.round == self.nodes[b].hb_round {
                            let f = (r.round, r.ballot, r.leader, r.happy);
                            self.nodes[b].hb_replies.push(f);
                        }
                    }
                }
                if verbose() {
                    eprintln!("  {} -> {}: {:?}", self.nodes[a].pid, self.nodes[b].pid, m);
                }
                self.tm_in(a, b, &m);
                self.call(b, |op| op.handle_incoming(m));
                if verbose() && self.alive(b) {
                    let g = self.nodes[b].store.0.borrow();
                    eprintln!("     {}: promise {:?} acc {:?} base {} log {:?} ss {} dec {} comp {} leader {:?}", self.nodes[b].pid, g.ghost.promise.map(|x| bkey(&x)), g.ghost.acc.map(|x| bkey(&x)), g.ghost.base, g.ghost.log.iter().map(|e| e.id()).collect::<Vec<_>>(), g.ghost.stopsign.is_some(), g.ghost.decided, g.ghost.compacted, self.nodes[b].op.as_ref().and_then(|o| o.get_current_leader()));
                }
                true
            }
        }
    }

    pub fn tick(&mut self, i: usize) {
        if !self.alive(i) {
            return;
        }
        self.nodes[i].ticks += 1;
        if self.nodes[i].ticks % self.cfg.elect == 0 {
            let nd = &mut self.nodes[i];
            nd.hb_prev = std::mem::take(&mut nd.hb_replies);
            nd.hb_round += 1;
        }
        let before = self.nodes[i].promise;
        if self.timers {
            self.tick_monitored(i);
        } else {
            self.call(i, |op| op.tick());
        }
        // a new ballot of its own accord
        let nd = &self.nodes[i];
        if nd.op.is_some() && nd.promise.pid == nd.pid && nd.promise.n > before.n && nd.promise.n > 1 {
            // (replies to the request of the same number before a restart count, too)
            let heard = nd.hb_prev.len();
            self.stats.inc("campaigns");
            if heard + 1 < self.rq {
                let m = format!("server {} campaigns with {:?} though it got only {} replies (read quorum {})", nd.pid, nd.promise, heard, self.rq);
                self.viol("elect", m);
            }
        }
    }

    /// flush and deliver everything until nothing moves (random order)
    pub fn pump(&mut self, seed: u64) {
        let mut rng = Rng::new(seed);
        let mut budget = 4000;
        loop {
            for i in 0..self.n {
                self.flush(i);
            }
            let mut live: Vec<usize> = (0..self.n * self.n)
                .filter(|l| !self.links[*l].is_empty() && !self.slow[*l] && self.alive(*l % self.n))
                .collect();
            if live.is_empty() || self.violation.is_some() {
                return;
            }
            while !live.is_empty() && self.violation.is_none() {
                let x = rng.below(live.len());
                let l = live[x];
                if self.links[l].is_empty() || !self.alive(l % self.n) {
                    live.swap_remove(x);
                    continue;
                }
                self.deliver_one(l / self.n, l % self.n);
                budget -= 1;
                if budget == 0 {
                    self.stats.inc("pump_budget");
                    return;
                }
                if rng.below(3) == 0 {
                    self.flush(l % self.n);
                    // messages may have appeared on new links
                    live = (0..self.n * self.n)
                        .filter(|l| !self.links[*l].is_empty() && !self.slow[*l] && self.alive(*l % self.n))
                        .collect();
                }
            }
        }
    }

    pub fn round(&mut self, seed: u64) {
        for i in 0..self.n {
            self.tick(i);
        }
        self.pump(seed);
    }

    pub fn run_rounds(&mut self, k: usize, seed: u64) {
        for r in 0..k {
            if self.violation.is_some() {
                return;
            }
            self.round(seed.wrapping_add(r as u64).wrapping_mul(0x9E3779B97F4A7C15));
        }
    }

    pub fn cut(&mut self, a: usize, b: usize) {
        let l = self.li(a, b);
        self.up[l] = false;
        self.links[l].clear();
        self.disturbed = true;
                self.broken = true;
        self.hard = true;
    }

    pub fn heal_link(&mut self, a: usize, b: usize, notify: bool) {
        let l = self.li(a, b);
        let was = self.up[l];
        self.up[l] = true;
        if notify && !was && a != b {
            let (pa, pb) = (self.nodes[a].pid, self.nodes[b].pid);
            self.broken = true;
            self.call(a, |op| op.reconnected(pb));
            self.broken = true;
            self.call(b, |op| op.reconnected(pa));
        }
    }

    pub fn append(&mut self, i: usize, id: u64, aux: u32) -> bool {
        if !self.alive(i) || self.proposed.contains_key(&id) {
            return false;
        }
        let e = T::make(id, aux);
        let had_ss = self.nodes[i].store.0.borrow().ghost.stopsign.is_some();
        self.proposed.insert(id, e.clone());
        let e2 = e.clone();
        self.tm_append(i);
        let r = self.call(i, move |op| op.append(e2));
        match r {
            None => false,
            Some(Ok(())) => {
                self.stats.inc("appends");
                self.appended_at[i].push(id);
                if had_ss {
                    self.viol("stop", format!("append accepted at server {} holding a reconfiguration", self.nodes[i].pid));
                }
                true
            }
            Some(Err(err)) => {
                self.stats.inc("append_rejected");
                // a rejected entry must never be decided
                self.proposed.remove(&id);
                match err {
                    ProposeErr::PendingReconfigEntry(x) if had_ss => {
                        if x != e {
                            self.viol("stop", format!("append error returns {:?} for {:?}", x, e));
                        }
                    }
                    other => self.viol(
                        "stop",
                        format!("append rejected with {:?}, holding reconfiguration: {}", other, had_ss),
                    ),
                }
                false
            }
        }
    }

    pub fn reconf(&mut self, i: usize, kind: u32) {
        if !self.alive(i) {
            return;
        }
        let (c, meta) = next_config(kind, &self.cfg.pids, self.cfg.config_id);
        let had_ss = self.nodes[i].store.0.borrow().ghost.stopsign.is_some();
        let ss = StopSign::with(c.clone(), meta.clone());
        let fresh = !self.proposed_ss.contains(&ss);
        if fresh {
            self.proposed_ss.push(ss.clone());
        }
        let (c2, m2) = (c.clone(), meta.clone());
        let r = self.call(i, move |op| op.reconfigure(c2, m2));
        match r {
            None => (),
            Some(Ok(())) => {
                self.stats.inc("reconf_proposed");
                self.reconf_ok.push((i, self.appended_at[i].len()));
                if had_ss {
                    self.viol("stop", format!("second reconfiguration accepted at server {}", self.nodes[i].pid));
                }
            }
            Some(Err(e)) => {
                if fresh {
                    self.proposed_ss.retain(|x| *x != ss);
                }
                self.stats.inc("reconf_rejected");
                match e {
                    ProposeErr::PendingReconfigConfig(x, m) if had_ss => {
                        if x != c || m != meta {
                            self.viol("stop", "reconfigure error returns a different proposal".into());
                        }
                    }
                    other => self.viol("stop", format!("reconfigure rejected with {:?} (pending: {})", other, had_ss)),
                }
            }
        }
    }

    fn bad_reconf(&mut self, i: usize, kind: u32) {
        if !self.alive(i) {
            return;
        }
        let c = bad_config(kind, &self.cfg.pids, self.cfg.config_id);
        let meta = Some(vec![kind as u8]);
        let v = self.nodes[i].store.0.borrow().ghost.version;
        let (c2, m2) = (c.clone(), meta.clone());
        let r = self.call(i, move |op| op.reconfigure(c2, m2));
        match r {
            None => return,
            Some(Err(ProposeErr::ConfigError(_, x, m))) => {
                if x != c || m != meta {
                    self.viol("stop", "configuration error returns a different proposal".into());
                }
                self.stats.inc("reconf_invalid");
            }
            Some(other) => {
                let m = format!("invalid next configuration {:?} gave {:?}", c, other.is_ok());
                self.viol("stop", m)
            }
        }
        if self.nodes[i].store.0.borrow().ghost.version != v {
            self.viol("stop", "rejected reconfiguration changed the storage".into());
        }
    }

    fn trim(&mut self, i: usize, idx: Option<usize>) {
        if !self.alive(i) || T::SNAP {
            return;
        }
        let (v, old_c, d, ld, prom) = {
            let g = self.nodes[i].store.0.borrow();
            let gh = &g.ghost;
            let ssd = gh.stopsign.is_some() && gh.decided == gh.accepted();
            (gh.version, gh.compacted, gh.decided, gh.decided - ssd as usize, gh.promise.unwrap_or_default())
        };
        let pid = self.nodes[i].pid;
        let min_stored = (0..self.n)
            .map(|k| self.nodes[k].store.0.borrow().ghost.accepted())
            .min()
            .unwrap();
        let r = match self.call(i, |op| op.trim(idx)) {
            None => return,
            Some(r) => r,
        };
        let (v2, new_c) = {
            let g = self.nodes[i].store.0.borrow();
            (g.ghost.version, g.ghost.compacted)
        };
        let mut retry = None;
        match r {
            Ok(()) => {
                self.stats.inc("trim_ok");
                if prom.pid != pid {
                    self.viol("trim", format!("trim succeeded at server {} which follows {:?}", pid, prom));
                }
                if let Some(t) = idx {
                    if t > d {
                        self.viol("trim", format!("trim to undecided index {} (decided {}) succeeded", t, d));
                    }
                    if t > min_stored {
                        self.viol("trim", format!("trim to {} succeeded though some server stores only {}", t, min_stored));
                    }
                    let want = old_c.max(if t == d { ld } else { t });
                    if new_c != want {
                        self.viol("trim", format!("trim to {} (decided {}) left compacted index {} (was {})", t, d, new_c, old_c));
                    }
                } else if new_c > min_stored || new_c < old_c {
                    self.viol("trim", format!("trim(None) compacted to {} (all store {})", new_c, min_stored));
                }
                if new_c > old_c {
                    self.stats.inc("trim_effective");
                }
            }
            Err(e) => {
                self.stats.inc("trim_err");
                if format!("{}", e).is_empty() {
                    self.viol("trim", format!("{:?} prints as nothing", e));
                }
                if v2 != v {
                    self.viol("trim", format!("failed trim ({:?}) changed the storage", e));
                }
                match e {
                    CompactionErr::NotCurrentLeader(l) => {
                        if l != prom.pid {
                            self.viol("trim", format!("trim error names leader {} instead of {}", l, prom.pid));
                        }
                    }
                    CompactionErr::NotAllDecided(m) => match idx {
                        Some(t) if t > m => {
                            if m > min_stored {
                                self.viol("trim", format!("trim error claims {} stored by all, but only {}", m, min_stored));
                            }
                            if v % 2 == 0 && m >= old_c {
                                retry = Some(m);
                            }
                        }
                        _ => self.viol("trim", format!("trim({:?}) failed with NotAllDecided({})", idx, m)),
                    },
                    CompactionErr::UndecidedIndex(m) => {
                        if m != d || idx.map(|t| t <= d).unwrap_or(true) {
                            self.viol("trim", format!("trim({:?}) failed with UndecidedIndex({}), decided {}", idx, m, d));
                        }
                    }
                    CompactionErr::TrimmedIndex(_) => {
                        if idx.map(|t| t >= old_c).unwrap_or(true) {
                            self.viol("trim", format!("trim({:?}) failed with {:?}", idx, e));
                        }
                    }
                }
                if prom.pid != pid && !matches!(e, CompactionErr::NotCurrentLeader(_)) {
                    self.viol("trim", format!("trim at a follower failed with {:?}", e));
                }
            }
        }
        if let Some(m) = retry {
            // the error names the index up to which trimming is possible
            let r = match self.call(i, |op| op.trim(Some(m))) {
                None => return,
                Some(r) => r,
            };
            self.stats.inc("trim_retry");
            let c = self.nodes[i].store.0.borrow().ghost.compacted;
            let want = old_c.max(if m == d { ld } else { m });
            match r {
                Ok(()) if c == want => {}
                Ok(()) => self.viol("trim", format!("trim retried with {} left compacted index {} (was {}, decided {})", m, c, old_c, d)),
                Err(e) => self.viol("trim", format!("trim failed with NotAllDecided({}), and trim to that index with {:?} (decided {})", m, e, d)),
            }
        }
    }

    fn snapshot(&mut self, i: usize, idx: Option<usize>, local: bool) {
        if !self.alive(i) || !T::SNAP {
            return;
        }
        let (v, old_c, d, ld) = {
            let g = self.nodes[i].store.0.borrow();
            let gh = &g.ghost;
            let ssd = gh.stopsign.is_some() && gh.decided == gh.accepted();
            (gh.version, gh.compacted, gh.decided, gh.decided - ssd as usize)
        };
        let r = match self.call(i, |op| op.snapshot(idx, local)) {
            None => return,
            Some(r) => r,
        };
        let (v2, new_c) = {
            let g = self.nodes[i].store.0.borrow();
            (g.ghost.version, g.ghost.compacted)
        };
        match r {
            Ok(()) => {
                let t = idx.unwrap_or(ld);
                if t > d {
                    self.viol("snap", format!("snapshot to undecided index {} (decided {}) succeeded", t, d));
                }
                let want = old_c.max(if t == d { ld } else { t });
                if new_c != want {
                    self.viol("snap", format!("snapshot({:?}) left compacted index {}, expected {}", idx, new_c, want));
                }
                if new_c > old_c {
                    self.stats.inc("snapshot_effective");
                } else {
                    if v2 != v {
                        self.viol("snap", "snapshot below the compacted index changed the storage".into());
                    }
                    self.stats.inc("snapshot_noop");
                }
            }
            Err(e) => {
                self.stats.inc("snapshot_err");
                if v2 != v {
                    self.viol("snap", format!("failed snapshot ({:?}) changed the storage", e));
                }
                match e {
                    CompactionErr::UndecidedIndex(m) if m == d && idx.map(|t| t > d).unwrap_or(false) => (),
                    CompactionErr::TrimmedIndex(m) if m == old_c && idx.map(|t| t < old_c).unwrap_or(false) => (),
                    _ => self.viol("snap", format!("snapshot({:?}) with decided {} failed with {:?}", idx, d, e)),
                }
            }
        }
    }

    fn read_range(&mut self, i: usize, sk: u8, s: usize, ek: u8, e: usize) {
        if !self.alive(i) {
            return;
        }
        let sb = match sk % 3 {
            0 => Bound::Included(s),
            1 => Bound::Excluded(s),
            _ => Bound::Unbounded,
        };
        let eb = match ek % 3 {
            0 => Bound::Excluded(e),
            1 => Bound::Included(e),
            _ => Bound::Unbounded,
        };
        let (view, total, c, d, ss_dec) = match self.view(i) {
            None => return,
            Some(x) => x,
        };
        let version = self.nodes[i].store.0.borrow().ghost.version;
        let from = match sb {
            Bound::Included(x) => x,
            Bound::Excluded(x) => x + 1,
            Bound::Unbounded => 0,
        };
        let to = match eb {
            Bound::Excluded(x) => x,
            Bound::Included(x) => x + 1,
            Bound::Unbounded => total,
        };
        let r = self.call(i, |op| (if from < to { op.read_entries((sb, eb)) } else { None }, op.read(from), op.read_decided_suffix(from)));
        let (range, single, suffix) = match r {
            None => return,
            Some(x) => x,
        };
        self.stats.inc("reads");
        if version != self.nodes[i].store.0.borrow().ghost.version {
            self.viol("read", "a read changed the storage".into());
        }
        let pid = self.nodes[i].pid;
        if from < to {
            if let Err(m) = check_read(&view, from, to, c, d, T::SNAP, range.as_deref(), Some(ss_dec)) {
                self.viol("read", format!("server {} read_entries({:?},{:?}): {}", pid, sb, eb, m));
            }
            if to <= total {
                self.stats.inc("reads_in_range");
            }
        }
        let sv = single.map(|x| vec![x]);
        if let Err(m) = check_read(&view, from, from + 1, c, d, T::SNAP, sv.as_deref(), Some(ss_dec)) {
            self.viol("read", format!("server {} read({}): {}", pid, from, m));
        }
        if from < d {
            if let Err(m) = check_read(&view, from, d, c, d, T::SNAP, suffix.as_deref(), Some(ss_dec)) {
                self.viol("read", format!("server {} read_decided_suffix({}): {}", pid, from, m));
            }
        } else if suffix.is_some() {
            self.viol("read", format!("server {} read_decided_suffix({}) beyond decided {} returned {:?}", pid, from, d, suffix));
        }
    }

    // ---------------------------------------------------------------- operations

    pub fn exec(&mut self, op: &Op) {
        if self.violation.is_some() {
            return;
        }
        self.step += 1;
        let n = self.n;
        if !matches!(op, Op::Early(..) | Op::EarlyReconf(..) | Op::ExpectFresh) {
            self.pristine = false;
        }
        if verbose() {
            eprintln!("--- {} {:?}", self.step, op);
        }
        match op {
            Op::Tick(i) if *i < n => self.tick(*i),
            Op::Run(k, seed) => self.run_rounds(*k, *seed),
            Op::Pump(seed) => self.pump(*seed),
            Op::Flush(i) if *i < n => self.flush(*i),
            Op::Collect(i) if *i < n => {
                self.collect(*i);
            }
            Op::FlushDeliver(a, b, k) if *a < n && *b < n && a != b => {
                self.flush(*a);
                for _ in 0..*k {
                    if !self.deliver_one(*a, *b) {
                        break;
                    }
                }
            }
            Op::Deliver(a, b, k) if *a < n && *b < n && a != b => {
                for _ in 0..*k {
                    if !self.deliver_one(*a, *b) {
                        break;
                    }
                }
            }
            Op::DropHead(a, b, k) if *a < n && *b < n => {
                let l = self.li(*a, *b);
                for _ in 0..*k {
                    if self.links[l].pop_front().is_some() {
                        self.stats.inc("dropped");
                        self.disturbed = true;
                self.broken = true;
                    }
                }
            }
            Op::DropAll(a, b) if *a < n && *b < n => {
                let l = self.li(*a, *b);
                if !self.links[l].is_empty() {
                    self.stats.inc("dropped");
                    self.disturbed = true;
                self.broken = true;
                }
                self.links[l].clear();
            }
            Op::Cut(a, b) if *a < n && *b < n && a != b => {
                self.stats.inc("cuts");
                self.cut(*a, *b)
            }
            Op::Heal(a, b, notify) if *a < n && *b < n => self.heal_link(*a, *b, *notify),
            Op::Partition(adj) if adj.len() == n => {
                self.stats.inc("partitions");
                for a in 0..n {
                    for b in 0..n {
                        if a == b {
                            continue;
                        }
                        let want = adj[a] & (1 << b) != 0;
                        let l = self.li(a, b);
                        if self.up[l] && !want {
                            self.cut(a, b);
                        } else if !self.up[l] && want {
                            self.up[l] = true;
                        }
                    }
                }
            }
            Op::Slow(adj) if adj.len() == n => {
                self.stats.inc("slow_links");
                self.disturbed = true;
                for a in 0..n {
                    for b in 0..n {
                        let l = self.li(a, b);
                        self.slow[l] = a != b && adj[a] & (1 << b) == 0;
                    }
                }
            }
            Op::HealAll(notify) => {
                self.unslow();
                for a in 0..n {
                    for b in 0..n {
                        if a != b {
                            self.heal_link(a, b, *notify);
                        }
                    }
                }
            }
            Op::Reconnected(a, b) if *a < n && *b < n => {
                let pb = self.nodes[*b].pid;
                if a == b {
                    self.stats.inc("reconnected_self");
                } else {
                    self.disturbed = true;
                    self.broken = true;
                }
                self.call(*a, |op| op.reconnected(pb));
            }
            Op::Append(i, id, aux) if *i < n => {
                self.append(*i, *id, *aux);
            }
            Op::Bulk(i, id, k) if *i < n => {
                self.stats.inc("bulk");
                for j in 0..*k {
                    self.append(*i, id + j as u64, j as u32 % 3);
                    if self.violation.is_some() {
                        break;
                    }
                }
            }
            Op::Stretch(i, id, k, kind) if *i < n => {
                self.stats.inc("stretch");
                for j in 0..*k {
                    let v = (*i + j) % n;
                    match kind {
                        0 => {
                            self.append(*i, id + j as u64, j as u32 % 3);
                        }
                        1 => self.exec(&Op::TryLeader(v)),
                        _ => {
                            let l = (0..n).filter(|l| l != i).find(|l| self.nodes[*l].pid == self.nodes[*i].promise.pid);
                            if let Some(l) = l {
                                self.exec(&Op::Reconnected(*i, l));
                            }
                        }
                    }
                    self.pump(j as u64);
                    if self.violation.is_some() {
                        break;
                    }
                }
            }
            Op::Crash(i) if *i < n => self.crash(*i),
            Op::Restart(i, kill) if *i < n => {
                if !self.alive(*i) {
                    self.start(*i, *kill);
                }
            }
            Op::Arm(i, k, mode) if *i < n => {
                if self.alive(*i) {
                    let mut g = self.nodes[*i].store.0.borrow_mut();
                    let at = g.writes + (*k).max(1);
                    g.fault = Some((at, *mode));
                }
            }
            Op::Trim(i, idx) if *i < n => self.trim(*i, *idx),
            Op::Snapshot(i, idx, local) if *i < n => self.snapshot(*i, *idx, *local),
            Op::Reconf(i, k) if *i < n => self.reconf(*i, *k),
            Op::BadReconf(i, k) if *i < n => self.bad_reconf(*i, *k),
            Op::Prio(i, p) if *i < n => {
                let p = *p;
                self.disturbed = true;
                self.prio_changed = true;
                if self.alive(*i) {
                    self.nodes[*i].prio = p;
                }
                self.call(*i, |op| op.set_priority(p));
            }
            Op::TryLeader(i) if *i < n => {
                self.disturbed = true;
                self.call(*i, |op| op.try_become_leader());
            }
            Op::Read(i, sk, s, ek, e) if *i < n => self.read_range(*i, *sk, *s, *ek, *e),
            Op::ReadAll(i) if *i < n => self.read_range(*i, 2, 0, 2, 0),
            Op::Heal2 => self.heal_everything(),
            Op::Foreign(i, from, d, b, happy) if *i < n && *from < n && i != from => {
                if self.alive(*i) {
                    self.stats.inc("foreign");
                    let pid = self.nodes[*from].pid;
                    let config_id = if *d == 0 && self.cfg.config_id > 1 { self.cfg.config_id - 1 } else { self.cfg.config_id + 1 };
                    let mk = |n: u32| Ballot { config_id, n, priority: b.0, pid };
                    let reply = HeartbeatReply { round: self.nodes[*i].hb_round, ballot: mk(b.1), leader: mk(b.2), happy: *happy };
                    let m = Message::BLE(BLEMessage { from: pid, to: self.nodes[*i].pid, msg: HeartbeatMsg::Reply(reply) });
                    self.call(*i, |op| op.handle_incoming(m));
                }
            }
            Op::Early(r, i, id) if *i < n => {
                if self.pristine {
                    self.early.push((*r, *i, *id));
                }
            }
            Op::EarlyReconf(r, i, k) if *i < n => {
                if self.pristine {
                    self.early_reconf.push((*r, *i, *k));
                }
            }
            Op::ExpectFresh => {
                self.unslow();
                crate::epi::expect_fresh(self)
            }
            Op::ExpectStable(k) => {
                self.unslow();
                crate::epi::expect_stable(self, *k)
            }
            Op::ExpectPrio(i, p) if *i < n => {
                self.unslow();
                crate::epi::expect_prio(self, *i, *p)
            }
            Op::ExpectTakeover(i) if *i < n => {
                self.unslow();
                crate::epi::expect_takeover(self, *i)
            }
            Op::ExpectFailover => {
                self.unslow();
                crate::epi::expect_failover(self)
            }
            _ => (),
        }
    }

    pub fn unslow(&mut self) {
        for x in self.slow.iter_mut() {
            *x = false;
        }
    }

    /// all servers up, all links up, no armed faults, connections reported as re-established
    pub fn heal_everything(&mut self) {
        self.unslow();
        for i in 0..self.n {
            self.nodes[i].store.0.borrow_mut().fault = None;
            if !self.alive(i) {
                self.start(i, false);
            }
        }
        for a in 0..self.n {
            for b in 0..self.n {
                if a != b {
                    let l = self.li(a, b);
                    self.up[l] = true;
                }
            }
        }
        for a in 0..self.n {
            for b in 0..self.n {
                if a != b {
                    let pb = self.nodes[b].pid;
                    self.broken = true;
            self.call(a, |op| op.reconnected(pb));
                }
            }
        }
    }
}

/// Compare a read result with the expected view.
/// `view[k]` is the content of absolute index k (content below `c` is not shown to the reader).
fn check_read<T: TestEntry>(
    view: &[GE<T>],
    from: usize,
    to: usize,
    c: usize,
    d: usize,
    snap: bool,
    got: Option<&[LogEntry<T>]>,
    ss_dec: Option<bool>,
) -> Result<(), String> {
    let total = view.len();
    if to > total {
        return match got {
            None => Ok(()),
            Some(g) => Err(format!("range {}..{} beyond log length {} returned {:?}", from, to, total, g)),
        };
    }
    let got = match got {
        None => return Err(format!("range {}..{} of log length {} returned nothing", from, to, total)),
        Some(g) => g,
    };
    let mut it = got.iter();
    let mut start = from;
    if from < c && c <= total {
        match it.next() {
            Some(LogEntry::Trimmed(i)) if !snap && *i == c => (),
            Some(LogEntry::Snapshotted(s)) if snap && s.trimmed_idx == c => {
                let ids = T::snap_ids(&s.snapshot);
                let want: Vec<u64> = view[..c]
                    .iter()
                    .map(|x| match x {
                        GE::E(e) => e.id(),
                        GE::SS(_) => u64::MAX,
                    })
                    .collect();
                if ids != want {
                    return Err(format!("snapshot entry {:?}, expected {:?}", ids, want));
                }
            }
            x => return Err(format!("first element {:?}, expected the compacted prefix {}", x, c)),
        }
        start = c;
    }
    for k in start..to {
        let x = it.next();
        let ok = match (&view[k], x) {
            (GE::E(e), Some(LogEntry::Decided(g))) => k < d && e == g,
            (GE::E(e), Some(LogEntry::Undecided(g))) => k >= d && e == g,
            (GE::SS(s), Some(LogEntry::StopSign(g, b))) => {
                s == g && *b == ss_dec.unwrap_or(k < d)
            }
            _ => false,
        };
        if !ok {
            return Err(format!("index {} read as {:?}, expected {:?} (decided {})", k, x, view[k], d));
        }
    }
    if it.next().is_some() {
        return Err(format!("range {}..{} returned {} elements", from, to, got.len()));
    }
    equality(got)
}

/// Read results compare equal exactly when they hold the same.
fn equality<T: TestEntry>(got: &[LogEntry<T>]) -> Result<(), String> {
    let same = |a: &LogEntry<T>, b: &LogEntry<T>| match (a, b) {
        (LogEntry::Decided(x), LogEntry::Decided(y)) => x == y,
        (LogEntry::Undecided(x), LogEntry::Undecided(y)) => x == y,
        (LogEntry::Trimmed(x), LogEntry::Trimmed(y)) => x == y,
        (LogEntry::Snapshotted(x), LogEntry::Snapshotted(y)) => x.trimmed_idx == y.trimmed_idx && T::snap_ids(&x.snapshot) == T::snap_ids(&y.snapshot),
        (LogEntry::StopSign(x, d), LogEntry::StopSign(y, e)) => x == y && d == e,
        _ => false,
    };
    let (a, b) = match (got.first(), got.last()) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    let mut others = vec![b.clone(), LogEntry::Trimmed(1), LogEntry::Trimmed(2)];
    match a {
        LogEntry::Decided(e) => others.push(LogEntry::Undecided(e.clone())),
        LogEntry::Undecided(e) => others.push(LogEntry::Decided(e.clone())),
        LogEntry::Snapshotted(s) => {
            let mut o = s.clone();
            o.trimmed_idx += 1;
            others.push(LogEntry::Snapshotted(o));
        }
        LogEntry::StopSign(s, d) => others.push(LogEntry::StopSign(s.clone(), !d)),
        _ => (),
    }
    for (x, y) in others.iter().map(|o| (a, o)).chain([(a, a), (b, b), (b, a)]) {
        if T::read_eq(x, y) != same(x, y) {
            return Err(format!("comparing {:?} and {:?} says equal: {}", x, y, !same(x, y)));
        }
    }
    Ok(())
}
