//! property: C14
//! needs: a trim beyond the end of the stored log, as when a lagging server receives a snapshot
//! breaks: indexes are translated with a too small offset afterwards, so entries are found at wrong indexes or not at all
/*EDIT omnipaxos_storage/src/memory_storage.rs
        self.log.drain(0..to_trim);
        self.trimmed_idx = trimmed_idx;
===
        self.log.drain(0..to_trim);
        self.trimmed_idx += to_trim;
*/
mod kit;
use kit::*;
use omnipaxos::storage::Storage;
use omnipaxos_storage::memory_storage::MemoryStorage;

fn main() {
    let mut s: MemoryStorage<V> = MemoryStorage::default();
    s.append_entries(vec![V(1), V(2), V(3)]).unwrap();
    s.trim(5).unwrap();
    s.set_compacted_idx(5).unwrap();
    s.append_on_prefix(5, vec![V(6), V(7)]).unwrap();
    s.append_entry(V(8)).unwrap();
    assert_eq!(s.get_entries(5, 7).unwrap(), vec![V(6), V(7)]);
    assert_eq!(s.get_suffix(7).unwrap(), vec![V(8)]);
    s.trim(6).unwrap();
    assert_eq!(s.get_suffix(6).unwrap(), vec![V(7), V(8)]);
}
