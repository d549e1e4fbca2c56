//! property: C12
//! needs: an open-ended read while a reconfiguration is in the log
//! breaks: reads without an upper bound leave out the StopSign
/*EDIT omnipaxos/src/storage/internal_storage.rs
            Bound::Unbounded => self.get_accepted_idx(),
        };
        if to_idx == 0 {
===
            Bound::Unbounded => self.get_accepted_idx_without_stopsign(),
        };
        if to_idx == 0 {
*/
mod kit;
use kit::*;

fn main() {
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3]), sc());
    n.lead(1);
    n.n(1).append(V(1)).unwrap();
    n.n(1).reconfigure(omnipaxos::ClusterConfig { configuration_id: 2, ..cc(&[1, 2, 3]) }, None).unwrap();
    n.pump();
    for p in [1, 2, 3] {
        assert_eq!(vals(n.n(p).read_entries(0..2)), [1, 20_001]);
        assert_eq!(vals(n.n(p).read_entries(0..)), [1, 20_001]);
        assert_eq!(vals(n.n(p).read_entries(..)), [1, 20_001]);
        assert_eq!(vals(n.n(p).read_entries(1..)), [20_001]);
    }
}
