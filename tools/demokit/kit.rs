//! A small simulated cluster for the demonstrations.
#![allow(dead_code)]
use omnipaxos::{
    ballot_leader_election::Ballot, messages::Message, storage::*, util::*, ClusterConfig, OmniPaxos, ServerConfig,
};
use omnipaxos_storage::memory_storage::MemoryStorage;
use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    sync::{Arc, Mutex},
};

/// A memory storage that outlives its server. `die_at`: panics before the write with that number.
#[derive(Clone)]
pub struct Disk<T: Entry> {
    pub m: Arc<Mutex<MemoryStorage<T>>>,
    pub writes: Arc<Mutex<(usize, Option<usize>)>>,
}
impl<T: Entry> Disk<T> {
    pub fn new() -> Self {
        Disk { m: Arc::new(Mutex::new(MemoryStorage::default())), writes: Arc::new(Mutex::new((0, None))) }
    }
    fn w(&self) -> std::sync::MutexGuard<'_, MemoryStorage<T>> {
        let mut w = self.writes.lock().unwrap_or_else(|e| e.into_inner());
        if Some(w.0) == w.1 {
            panic!("disk failure");
        }
        w.0 += 1;
        drop(w);
        self.r()
    }
    pub fn r(&self) -> std::sync::MutexGuard<'_, MemoryStorage<T>> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// the `k`-th write from now on panics
    pub fn arm(&self, k: Option<usize>) {
        let mut w = self.writes.lock().unwrap_or_else(|e| e.into_inner());
        w.1 = k.map(|k| w.0 + k);
    }
}
impl<T: Entry> Storage<T> for Disk<T> {
    fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> { self.w().write_atomically(ops) }
    fn append_entry(&mut self, e: T) -> StorageResult<()> { self.w().append_entry(e) }
    fn append_entries(&mut self, e: Vec<T>) -> StorageResult<()> { self.w().append_entries(e) }
    fn append_on_prefix(&mut self, i: usize, e: Vec<T>) -> StorageResult<()> { self.w().append_on_prefix(i, e) }
    fn set_promise(&mut self, b: Ballot) -> StorageResult<()> { self.w().set_promise(b) }
    fn set_decided_idx(&mut self, i: usize) -> StorageResult<()> { self.w().set_decided_idx(i) }
    fn get_decided_idx(&self) -> StorageResult<usize> { self.r().get_decided_idx() }
    fn set_accepted_round(&mut self, b: Ballot) -> StorageResult<()> { self.w().set_accepted_round(b) }
    fn get_accepted_round(&self) -> StorageResult<Option<Ballot>> { self.r().get_accepted_round() }
    fn get_entries(&self, a: usize, b: usize) -> StorageResult<Vec<T>> { self.r().get_entries(a, b) }
    fn get_log_len(&self) -> StorageResult<usize> { self.r().get_log_len() }
    fn get_suffix(&self, a: usize) -> StorageResult<Vec<T>> { self.r().get_suffix(a) }
    fn get_promise(&self) -> StorageResult<Option<Ballot>> { self.r().get_promise() }
    fn set_stopsign(&mut self, s: Option<StopSign>) -> StorageResult<()> { self.w().set_stopsign(s) }
    fn get_stopsign(&self) -> StorageResult<Option<StopSign>> { self.r().get_stopsign() }
    fn trim(&mut self, i: usize) -> StorageResult<()> { self.w().trim(i) }
    fn set_compacted_idx(&mut self, i: usize) -> StorageResult<()> { self.w().set_compacted_idx(i) }
    fn get_compacted_idx(&self) -> StorageResult<usize> { self.r().get_compacted_idx() }
    fn set_snapshot(&mut self, s: Option<T::Snapshot>) -> StorageResult<()> { self.w().set_snapshot(s) }
    fn get_snapshot(&self) -> StorageResult<Option<T::Snapshot>> { self.r().get_snapshot() }
}

pub type Node<T> = OmniPaxos<T, Disk<T>>;
pub struct Net<T: Entry> {
    pub cc: ClusterConfig,
    pub sc: ServerConfig,
    pub nodes: BTreeMap<NodeId, Node<T>>,
    pub disks: BTreeMap<NodeId, Disk<T>>,
    pub q: BTreeMap<(NodeId, NodeId), VecDeque<Message<T>>>,
    pub cut: BTreeSet<(NodeId, NodeId)>,
}
pub fn cc(nodes: &[NodeId]) -> ClusterConfig {
    ClusterConfig { configuration_id: 1, nodes: nodes.to_vec(), flexible_quorum: None }
}
/// elections only when the demonstration ticks that often
pub fn sc() -> ServerConfig {
    ServerConfig { election_tick_timeout: 1_000_000, resend_message_tick_timeout: 1_000_000, flush_batch_tick_timeout: 1_000_000, ..Default::default() }
}
impl<T: Entry> Net<T> {
    pub fn new(cc: ClusterConfig, sc: ServerConfig) -> Self {
        let mut n = Net { cc, sc, nodes: BTreeMap::new(), disks: BTreeMap::new(), q: BTreeMap::new(), cut: BTreeSet::new() };
        for p in n.cc.nodes.clone() {
            n.disks.insert(p, Disk::new());
            n.start(p);
        }
        n
    }
    pub fn pids(&self) -> Vec<NodeId> { self.cc.nodes.clone() }
    pub fn start(&mut self, p: NodeId) {
        let sc = ServerConfig { pid: p, ..self.sc.clone() };
        let n = self.cc.clone().build_for_server(sc, self.disks[&p].clone()).unwrap();
        self.nodes.insert(p, n);
    }
    /// ends the server; what it and others have sent on its links is lost
    pub fn crash(&mut self, p: NodeId) {
        self.nodes.remove(&p);
        self.q.retain(|(a, b), _| *a != p && *b != p);
    }
    pub fn n(&mut self, p: NodeId) -> &mut Node<T> { self.nodes.get_mut(&p).unwrap() }
    /// collects outgoing messages into the link queues
    pub fn collect(&mut self, p: NodeId) {
        let mut out = vec![];
        if let Some(n) = self.nodes.get_mut(&p) {
            n.take_outgoing_messages(&mut out);
        }
        for m in out {
            let to = m.get_receiver();
            if !self.cut.contains(&(p, to)) && self.nodes.contains_key(&to) {
                self.q.entry((p, to)).or_default().push_back(m);
            }
        }
    }
    /// delivers what is queued from `a` to `b`
    pub fn deliver(&mut self, a: NodeId, b: NodeId) {
        self.collect(a);
        for m in self.q.remove(&(a, b)).unwrap_or_default() {
            self.n(b).handle_incoming(m);
        }
    }
    pub fn drop_link(&mut self, a: NodeId, b: NodeId) {
        self.collect(a);
        self.q.remove(&(a, b));
    }
    /// delivers everything until nothing is left
    pub fn pump(&mut self) {
        for _ in 0..10_000 {
            for p in self.pids() {
                self.collect(p);
            }
            let Some(k) = self.q.iter().find(|(_, v)| !v.is_empty()).map(|(k, _)| *k) else { return };
            let m = self.q.get_mut(&k).unwrap().pop_front().unwrap();
            self.n(k.1).handle_incoming(m);
        }
        panic!("messages do not end");
    }
    pub fn ticks(&mut self, k: usize) {
        for _ in 0..k {
            for p in self.pids() {
                if let Some(n) = self.nodes.get_mut(&p) {
                    n.tick();
                }
            }
            self.pump();
        }
    }
    /// disconnects all links of `p`
    pub fn isolate(&mut self, p: NodeId) {
        for o in self.pids() {
            self.cut2(p, o);
        }
    }
    pub fn cut2(&mut self, a: NodeId, b: NodeId) {
        for (x, y) in [(a, b), (b, a)] {
            self.cut.insert((x, y));
            self.q.remove(&(x, y));
        }
    }
    pub fn heal(&mut self) {
        let c = std::mem::take(&mut self.cut);
        for (a, b) in c {
            if self.nodes.contains_key(&a) && self.nodes.contains_key(&b) {
                self.n(b).reconnected(a);
            }
        }
    }
    pub fn lead(&mut self, p: NodeId) {
        self.n(p).try_become_leader();
        self.pump();
    }
}
pub fn vals(v: Option<Vec<LogEntry<V>>>) -> Vec<u64> {
    v.unwrap_or_default().iter().map(|e| match e {
        LogEntry::Decided(V(x)) => *x,
        LogEntry::Undecided(V(x)) => 1000 + *x,
        LogEntry::Trimmed(i) => 10_000 + *i as u64,
        LogEntry::StopSign(_, d) => 20_000 + *d as u64,
        _ => 30_000,
    }).collect()
}
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct V(pub u64);
impl Entry for V { type Snapshot = NoSnapshot; }
/// an entry whose snapshots list everything they cover
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct S(pub u64);
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Snap(pub Vec<u64>);
impl Entry for S { type Snapshot = Snap; }
impl Snapshot<S> for Snap {
    fn create(e: &[S]) -> Self { Snap(e.iter().map(|x| x.0).collect()) }
    fn merge(&mut self, d: Self) { self.0.extend(d.0) }
    fn use_snapshots() -> bool { true }
}
/// the decided log with its snapshot expanded
pub fn svals(v: Option<Vec<LogEntry<S>>>) -> Vec<u64> {
    v.unwrap_or_default().into_iter().flat_map(|e| match e {
        LogEntry::Decided(S(x)) => vec![x],
        LogEntry::Undecided(S(x)) => vec![1000 + x],
        LogEntry::Snapshotted(s) => s.snapshot.0,
        LogEntry::Trimmed(i) => vec![10_000 + i as u64],
        LogEntry::StopSign(_, d) => vec![20_000 + d as u64],
    }).collect()
}
