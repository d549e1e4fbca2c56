//! property: C09
//! needs: an undecided reconfiguration at a leader that is replaced, and a restart after its log was overwritten
//! breaks: the overwritten StopSign is removed from memory but not from the storage, a restart brings it back
/*EDIT omnipaxos/src/storage/internal_storage.rs
                    self.state_cache.stopsign = None;
                    sync_txn.push(StorageOp::SetStopsign(None));
===
                    self.state_cache.stopsign = None;
*/
mod kit;
use kit::*;

fn main() {
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3]), sc());
    n.lead(1);
    n.isolate(1);
    n.n(1).reconfigure(omnipaxos::ClusterConfig { configuration_id: 2, ..cc(&[1, 2, 3]) }, None).unwrap();
    n.lead(2);
    n.n(2).append(V(2)).unwrap();
    n.pump();
    n.heal();
    n.pump();
    assert_eq!(vals(n.n(1).read_decided_suffix(0)), [2]);
    n.crash(1);
    n.start(1);
    assert_eq!(vals(n.n(1).read_entries(0..)), [2], "after the restart");
    assert!(n.n(1).append(V(3)).is_ok());
}
