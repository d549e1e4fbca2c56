//! property: C16
//! needs: a failure between two writes of taking a snapshot
//! breaks: the snapshot is stored before and apart from trimming the entries, so entries are applied twice after a failure in between
/*EDIT omnipaxos/src/storage/internal_storage.rs
            let snapshot = self.create_snapshot(new_compacted_idx)?;
            self.storage.write_atomically(vec![
                StorageOp::Trim(new_compacted_idx),
                StorageOp::SetCompactedIdx(new_compacted_idx),
                StorageOp::SetSnapshot(Some(snapshot)),
            ])?;
===
            let snapshot = self.create_snapshot(new_compacted_idx)?;
            self.storage.set_snapshot(Some(snapshot))?;
            self.storage.write_atomically(vec![
                StorageOp::Trim(new_compacted_idx),
                StorageOp::SetCompactedIdx(new_compacted_idx),
            ])?;
*/
mod kit;
use kit::*;

fn main() {
    for k in 0..2 {
        let mut n: Net<S> = Net::new(cc(&[1, 2]), sc());
        n.lead(1);
        for i in 1..=3 {
            n.n(1).append(S(i)).unwrap();
        }
        n.pump();
        n.disks[&2].arm(Some(k));
        let mut s2 = n.nodes.remove(&2).unwrap();
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _ = s2.snapshot(None, true);
        }));
        drop(s2);
        n.disks[&2].arm(None);
        n.crash(2);
        n.start(2);
        n.n(2).snapshot(None, true).unwrap();
        assert_eq!(svals(n.n(2).read_decided_suffix(0)), [1, 2, 3], "failure before write {k}");
    }
}
