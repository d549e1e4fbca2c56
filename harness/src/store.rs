//! Storage wrapper: forwards to a real back-end, keeps a reference model ("ghost") of the
//! durable state in step with it, compares every query against the model, counts writes and
//! injects failures at chosen writes.
use crate::entry::TestEntry;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::storage::{StopSign, Storage, StorageOp, StorageResult};
use omnipaxos_storage::memory_storage::MemoryStorage;
use std::cell::RefCell;
use std::rc::Rc;

/// payload of an injected crash
pub struct InjectedCrash;

#[derive(Debug)]
pub struct InjectedErr;
impl std::fmt::Display for InjectedErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected storage error")
    }
}
impl std::error::Error for InjectedErr {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum FaultMode {
    CrashBefore,
    CrashAfter,
    Err,
}

/// Abstract storage: a log with absolute indexes.
#[derive(Clone, Debug)]
pub struct Ghost<T: TestEntry> {
    pub base: usize,
    pub log: Vec<T>,
    pub promise: Option<Ballot>,
    pub acc: Option<Ballot>,
    pub decided: usize,
    pub compacted: usize,
    pub snapshot: Option<T::Snapshot>,
    pub stopsign: Option<StopSign>,
    pub version: u64,
    /// number of non-trivial changes of the log (entries or stopsign)
    pub log_version: u64,
    pub promise_hist: Vec<Ballot>,
    pub contract: Option<String>,
}

impl<T: TestEntry> Default for Ghost<T> {
    fn default() -> Self {
        Ghost {
            base: 0,
            log: vec![],
            promise: None,
            acc: None,
            decided: 0,
            compacted: 0,
            snapshot: None,
            stopsign: None,
            version: 0,
            log_version: 0,
            promise_hist: vec![],
            contract: None,
        }
    }
}

impl<T: TestEntry> Ghost<T> {
    /// absolute index one past the last entry
    pub fn end(&self) -> usize {
        self.base + self.log.len()
    }
    /// length of the accepted log including a stopsign
    pub fn accepted(&self) -> usize {
        self.end() + self.stopsign.is_some() as usize
    }
    pub fn at(&self, idx: usize) -> Option<&T> {
        if idx < self.base {
            None
        } else {
            self.log.get(idx - self.base)
        }
    }
    fn flag(&mut self, s: String) {
        if self.contract.is_none() {
            self.contract = Some(s);
        }
    }
    pub fn apply(&mut self, op: StorageOp<T>) {
        self.version += 1;
        match op {
            StorageOp::AppendEntry(e) => {
                self.log_version += 1;
                self.log.push(e)
            }
            StorageOp::AppendEntries(es) => {
                self.log_version += !es.is_empty() as u64;
                self.log.extend(es)
            }
            StorageOp::AppendOnPrefix(from, es) => {
                if from < self.base || from > self.end() {
                    self.flag(format!(
                        "append on prefix {} outside the log [{}, {}]",
                        from,
                        self.base,
                        self.end()
                    ));
                }
                self.log_version += 1;
                self.log.truncate(from.saturating_sub(self.base));
                self.log.extend(es);
            }
            StorageOp::SetPromise(b) => {
                self.promise = Some(b);
                self.promise_hist.push(b);
            }
            StorageOp::SetDecidedIndex(i) => self.decided = i,
            StorageOp::SetAcceptedRound(b) => self.acc = Some(b),
            StorageOp::SetCompactedIdx(i) => self.compacted = i,
            StorageOp::Trim(i) => {
                if i >= self.base {
                    let n = (i - self.base).min(self.log.len());
                    self.log.drain(0..n);
                    self.base = i;
                } else {
                    self.flag(format!("trim to {} below trimmed index {}", i, self.base));
                }
            }
            StorageOp::SetStopsign(s) => {
                self.log_version += 1;
                self.stopsign = s
            }
            StorageOp::SetSnapshot(s) => self.snapshot = s,
        }
    }
    pub fn entries(&self, from: usize, to: usize) -> Vec<T> {
        if from >= to || from < self.base || to > self.end() {
            vec![]
        } else {
            self.log[from - self.base..to - self.base].to_vec()
        }
    }
}

pub fn clone_op<T: TestEntry>(op: &StorageOp<T>) -> StorageOp<T> {
    match op {
        StorageOp::AppendEntry(e) => StorageOp::AppendEntry(e.clone()),
        StorageOp::AppendEntries(e) => StorageOp::AppendEntries(e.clone()),
        StorageOp::AppendOnPrefix(i, e) => StorageOp::AppendOnPrefix(*i, e.clone()),
        StorageOp::SetPromise(b) => StorageOp::SetPromise(*b),
        StorageOp::SetDecidedIndex(i) => StorageOp::SetDecidedIndex(*i),
        StorageOp::SetAcceptedRound(b) => StorageOp::SetAcceptedRound(*b),
        StorageOp::SetCompactedIdx(i) => StorageOp::SetCompactedIdx(*i),
        StorageOp::Trim(i) => StorageOp::Trim(*i),
        StorageOp::SetStopsign(s) => StorageOp::SetStopsign(s.clone()),
        StorageOp::SetSnapshot(s) => StorageOp::SetSnapshot(s.clone()),
    }
}

pub enum Backend<T: TestEntry> {
    Mem(MemoryStorage<T>),
    #[cfg(feature = "rocks")]
    Rocks(Option<omnipaxos_storage::persistent_storage::PersistentStorage<T>>, String),
}

impl<T: TestEntry> Backend<T> {
    pub fn get(&self) -> &dyn Storage<T> {
        match self {
            Backend::Mem(m) => m,
            #[cfg(feature = "rocks")]
            Backend::Rocks(r, _) => r.as_ref().unwrap(),
        }
    }
    pub fn get_mut(&mut self) -> &mut dyn Storage<T> {
        match self {
            Backend::Mem(m) => m,
            #[cfg(feature = "rocks")]
            Backend::Rocks(r, _) => r.as_mut().unwrap(),
        }
    }
}

pub struct Inner<T: TestEntry> {
    pub backend: Backend<T>,
    pub ghost: Ghost<T>,
    pub writes: u64,
    pub fault: Option<(u64, FaultMode)>,
    pub fired: bool,
    /// after an injected error/crash the process is considered dead: further writes are refused
    pub dead: bool,
    pub mismatch: Option<String>,
}

pub struct Store<T: TestEntry>(pub Rc<RefCell<Inner<T>>>);

impl<T: TestEntry> Clone for Store<T> {
    fn clone(&self) -> Self {
        Store(self.0.clone())
    }
}

impl<T: TestEntry> Store<T> {
    pub fn new(backend: Backend<T>) -> Self {
        Store(Rc::new(RefCell::new(Inner {
            backend,
            ghost: Ghost::default(),
            writes: 0,
            fault: None,
            fired: false,
            dead: false,
            mismatch: None,
        })))
    }

    fn write<F>(&mut self, ghost_ops: Vec<StorageOp<T>>, f: F) -> StorageResult<()>
    where
        F: FnOnce(&mut dyn Storage<T>) -> StorageResult<()>,
    {
        let mut g = self.0.borrow_mut();
        if g.dead {
            return Err(Box::new(InjectedErr));
        }
        g.writes += 1;
        let mode = match g.fault {
            Some((at, m)) if at == g.writes => {
                g.fault = None;
                g.fired = true;
                g.dead = true;
                Some(m)
            }
            _ => None,
        };
        match mode {
            Some(FaultMode::CrashBefore) => {
                drop(g);
                std::panic::panic_any(InjectedCrash);
            }
            Some(FaultMode::Err) => return Err(Box::new(InjectedErr)),
            _ => (),
        }
        let r = f(g.backend.get_mut());
        if r.is_ok() {
            for op in ghost_ops {
                g.ghost.apply(op);
            }
        }
        if mode == Some(FaultMode::CrashAfter) {
            drop(g);
            std::panic::panic_any(InjectedCrash);
        }
        r
    }

    fn cmp<R: std::fmt::Debug>(&self, what: &str, got: R, want: R) -> R {
        let (a, b) = (format!("{:?}", got), format!("{:?}", want));
        if a != b {
            self.note(what, &a, &b);
        }
        got
    }

    fn note(&self, what: &str, got: &str, want: &str) {
        let mut g = self.0.borrow_mut();
        if g.mismatch.is_none() {
            g.mismatch = Some(format!("{}: storage returned {}, expected {}", what, got, want));
        }
    }
}

impl<T: TestEntry> Storage<T> for Store<T> {
    fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
        let c = ops.iter().map(clone_op).collect();
        self.write(c, move |b| b.write_atomically(ops))
    }
    fn append_entry(&mut self, entry: T) -> StorageResult<()> {
        self.write(vec![StorageOp::AppendEntry(entry.clone())], move |b| {
            b.append_entry(entry)
        })
    }
    fn append_entries(&mut self, entries: Vec<T>) -> StorageResult<()> {
        self.write(vec![StorageOp::AppendEntries(entries.clone())], move |b| {
            b.append_entries(entries)
        })
    }
    fn append_on_prefix(&mut self, from_idx: usize, entries: Vec<T>) -> StorageResult<()> {
        self.write(
            vec![StorageOp::AppendOnPrefix(from_idx, entries.clone())],
            move |b| b.append_on_prefix(from_idx, entries),
        )
    }
    fn set_promise(&mut self, n: Ballot) -> StorageResult<()> {
        self.write(vec![StorageOp::SetPromise(n)], move |b| b.set_promise(n))
    }
    fn set_decided_idx(&mut self, ld: usize) -> StorageResult<()> {
        self.write(vec![StorageOp::SetDecidedIndex(ld)], move |b| {
            b.set_decided_idx(ld)
        })
    }
    fn get_decided_idx(&self) -> StorageResult<usize> {
        let (r, w) = {
            let g = self.0.borrow();
            (g.backend.get().get_decided_idx()?, g.ghost.decided)
        };
        Ok(self.cmp("decided index", r, w))
    }
    fn set_accepted_round(&mut self, na: Ballot) -> StorageResult<()> {
        self.write(vec![StorageOp::SetAcceptedRound(na)], move |b| {
            b.set_accepted_round(na)
        })
    }
    fn get_accepted_round(&self) -> StorageResult<Option<Ballot>> {
        let (r, w) = {
            let g = self.0.borrow();
            (g.backend.get().get_accepted_round()?, g.ghost.acc)
        };
        Ok(self.cmp("accepted round", r, w))
    }
    fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
        let (r, w) = {
            let g = self.0.borrow();
            let r = g.backend.get().get_entries(from, to)?;
            if from < g.ghost.base {
                // below the trimmed index: outside the contract, not compared
                return Ok(r);
            }
            (r, g.ghost.entries(from, to))
        };
        if r != w {
            self.note(
                &format!("entries {}..{}", from, to),
                &format!("{:?}", r),
                &format!("{:?}", w),
            );
        }
        Ok(r)
    }
    fn get_log_len(&self) -> StorageResult<usize> {
        let (r, w) = {
            let g = self.0.borrow();
            (g.backend.get().get_log_len()?, g.ghost.log.len())
        };
        Ok(self.cmp("log length", r, w))
    }
    fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
        let (r, w) = {
            let g = self.0.borrow();
            let r = g.backend.get().get_suffix(from)?;
            if from < g.ghost.base {
                return Ok(r);
            }
            let end = g.ghost.end();
            (r, g.ghost.entries(from, end))
        };
        if r != w {
            self.note(
                &format!("suffix {}", from),
                &format!("{:?}", r),
                &format!("{:?}", w),
            );
        }
        Ok(r)
    }
    fn get_promise(&self) -> StorageResult<Option<Ballot>> {
        let (r, w) = {
            let g = self.0.borrow();
            (g.backend.get().get_promise()?, g.ghost.promise)
        };
        Ok(self.cmp("promise", r, w))
    }
    fn set_stopsign(&mut self, s: Option<StopSign>) -> StorageResult<()> {
        self.write(vec![StorageOp::SetStopsign(s.clone())], move |b| {
            b.set_stopsign(s)
        })
    }
    fn get_stopsign(&self) -> StorageResult<Option<StopSign>> {
        let (r, w) = {
            let g = self.0.borrow();
            (g.backend.get().get_stopsign()?, g.ghost.stopsign.clone())
        };
        Ok(self.cmp("stopsign", r, w))
    }
    fn trim(&mut self, idx: usize) -> StorageResult<()> {
        self.write(vec![StorageOp::Trim(idx)], move |b| b.trim(idx))
    }
    fn set_compacted_idx(&mut self, idx: usize) -> StorageResult<()> {
        self.write(vec![StorageOp::SetCompactedIdx(idx)], move |b| {
            b.set_compacted_idx(idx)
        })
    }
    fn get_compacted_idx(&self) -> StorageResult<usize> {
        let (r, w) = {
            let g = self.0.borrow();
            (g.backend.get().get_compacted_idx()?, g.ghost.compacted)
        };
        Ok(self.cmp("compacted index", r, w))
    }
    fn set_snapshot(&mut self, snapshot: Option<T::Snapshot>) -> StorageResult<()> {
        self.write(vec![StorageOp::SetSnapshot(snapshot.clone())], move |b| {
            b.set_snapshot(snapshot)
        })
    }
    fn get_snapshot(&self) -> StorageResult<Option<T::Snapshot>> {
        let (r, w) = {
            let g = self.0.borrow();
            (
                g.backend.get().get_snapshot()?,
                g.ghost.snapshot.as_ref().map(|s| T::snap_ids(s)),
            )
        };
        let ids = r.as_ref().map(|s| T::snap_ids(s));
        if ids != w {
            self.note("snapshot", &format!("{:?}", ids), &format!("{:?}", w));
        }
        Ok(r)
    }
}
