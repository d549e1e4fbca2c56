//! property: C15
//! needs: a log that is trimmed to its end before the storage is closed and opened again
//! breaks: after reopening a completely trimmed log entries are stored from index 0 again
//! sfeat: persistent_storage
/*EDIT omnipaxos_storage/src/persistent_storage.rs
                Some(bytes) => usize::read_from(bytes.as_bytes())
                    .expect("Couldn't recover storage: Commpacted index has unexpected format."),
                None => 0,
===
                Some(bytes) if db.get(SNAPSHOT).map_or(true, |s| s.is_some()) => {
                    usize::read_from(bytes.as_bytes())
                        .expect("Couldn't recover storage: Commpacted index has unexpected format.")
                }
                _ => 0,
*/
use omnipaxos::storage::*;
use omnipaxos_storage::persistent_storage::{PersistentStorage, PersistentStorageConfig};
use serde::{Deserialize, Serialize};
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct V(u64);
impl Entry for V {
    type Snapshot = NoSnapshot;
}
fn main() {
    // the demonstration runs in a scratch directory of its own
    let dir = std::env::current_dir().unwrap().join("db").to_string_lossy().to_string();
    let open = || PersistentStorage::<V>::open(PersistentStorageConfig::with_path(dir.clone()));
    let mut s = open();
    s.append_entries(vec![V(1), V(2), V(3)]).unwrap();
    s.set_decided_idx(3).unwrap();
    s.write_atomically(vec![StorageOp::Trim(3), StorageOp::SetCompactedIdx(3)]).unwrap();
    drop(s);
    let mut s = open();
    assert_eq!(s.get_compacted_idx().unwrap(), 3);
    s.append_entry(V(4)).unwrap();
    assert_eq!(s.get_suffix(3).unwrap(), [V(4)]);
    assert_eq!(s.get_log_len().unwrap(), 1);
}
