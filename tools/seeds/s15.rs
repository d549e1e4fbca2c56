//! property: C10
//! needs: trimming at the end of a log that ends with a decided StopSign
//! breaks: the StopSign is trimmed away, the compacted index counts it as an entry
/*EDIT omnipaxos/src/storage/internal_storage.rs
        let log_decided_idx = self.get_decided_idx_without_stopsign();
        let new_compacted_idx = match idx.cmp(&decided_idx) {
            Ordering::Less => idx,
            Ordering::Equal => log_decided_idx,
===
        let new_compacted_idx = match idx.cmp(&decided_idx) {
            Ordering::Less | Ordering::Equal => idx,
*/
mod kit;
use kit::*;

fn main() {
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3]), sc());
    n.lead(1);
    n.n(1).append(V(1)).unwrap();
    n.n(1).append(V(2)).unwrap();
    n.n(1).reconfigure(omnipaxos::ClusterConfig { configuration_id: 2, ..cc(&[1, 2, 3]) }, None).unwrap();
    n.pump();
    n.n(1).trim(None).unwrap();
    n.pump();
    for p in [1, 2, 3] {
        assert_eq!(n.n(p).get_compacted_idx(), 2, "server {p}");
        assert_eq!(vals(n.n(p).read_decided_suffix(0)), [10_002, 20_001], "server {p}");
    }
}
