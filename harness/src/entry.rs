//! Log entry types used by the generated workloads.
use omnipaxos::storage::{Entry, NoSnapshot, Snapshot};
use omnipaxos::util::LogEntry;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;

#[cfg(feature = "unicache")]
use omnipaxos::{macros::UniCacheEntry, unicache::*};

pub trait TestEntry:
    Entry + Clone + Debug + PartialEq + Serialize + DeserializeOwned + 'static
{
    const SNAP: bool;
    fn make(id: u64, aux: u32) -> Self;
    fn id(&self) -> u64;
    /// ids contained in a snapshot, in application order
    fn snap_ids(s: &Self::Snapshot) -> Vec<u64>;
    /// the equality of read results
    fn read_eq(a: &LogEntry<Self>, b: &LogEntry<Self>) -> bool;
}

const POOL: [&str; 8] = ["", "a", "b", "cc", "d", "zed", "q", "long-payload-string"];

/// Plain entry, no snapshots (used with trimming).
#[cfg(not(feature = "unicache"))]
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, omnipaxos::macros::Entry)]
pub struct V {
    pub id: u64,
    pub a: String,
    pub b: u32,
}

#[cfg(feature = "unicache")]
mod uv {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, UniCacheEntry)]
    pub struct V {
        pub id: u64,
        #[unicache(encoding(u8), size(3))]
        pub a: String,
        #[unicache(encoding(u64), size(2), cache(lfu))]
        pub b: u32,
    }
}
#[cfg(feature = "unicache")]
pub use uv::V;

/// Order-sensitive, non-idempotent snapshot: the sequence of ids applied.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SeqSnap(pub Vec<u64>);

#[cfg(not(feature = "unicache"))]
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, omnipaxos::macros::Entry)]
#[snapshot(SeqSnap)]
pub struct S {
    pub id: u64,
    pub a: String,
    pub b: u32,
}

#[cfg(feature = "unicache")]
mod us {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, UniCacheEntry)]
    #[snapshot(SeqSnap)]
    pub struct S {
        pub id: u64,
        #[unicache(encoding(u8), size(2), cache(lfu))]
        pub a: String,
        #[unicache(encoding(u64), size(4), cache(lru))]
        pub b: u32,
    }
}
#[cfg(feature = "unicache")]
pub use us::S;

impl Snapshot<S> for SeqSnap {
    fn create(entries: &[S]) -> Self {
        SeqSnap(entries.iter().map(|e| e.id).collect())
    }
    fn merge(&mut self, delta: Self) {
        self.0.extend(delta.0);
    }
    fn use_snapshots() -> bool {
        true
    }
}

impl TestEntry for V {
    const SNAP: bool = false;
    fn make(id: u64, aux: u32) -> Self {
        V {
            id,
            a: POOL[(aux as usize) % POOL.len()].to_string(),
            b: (aux / 8) % 5,
        }
    }
    fn id(&self) -> u64 {
        self.id
    }
    fn snap_ids(_s: &NoSnapshot) -> Vec<u64> {
        vec![]
    }
    fn read_eq(a: &LogEntry<Self>, b: &LogEntry<Self>) -> bool {
        a == b
    }
}

impl TestEntry for S {
    const SNAP: bool = true;
    fn make(id: u64, aux: u32) -> Self {
        S {
            id,
            a: POOL[(aux as usize) % POOL.len()].to_string(),
            b: (aux / 8) % 5,
        }
    }
    fn id(&self) -> u64 {
        self.id
    }
    fn snap_ids(s: &SeqSnap) -> Vec<u64> {
        s.0.clone()
    }
    fn read_eq(a: &LogEntry<Self>, b: &LogEntry<Self>) -> bool {
        a == b
    }
}
