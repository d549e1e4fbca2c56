//! property: C11
//! needs: a server that lags behind the snapshot of the leader, which has decided exactly one entry since its snapshot
//! breaks: the snapshot sent to a lagging server misses that entry
/*EDIT omnipaxos/src/storage/internal_storage.rs
            if compacted_idx < log_decided_idx {
===
            if compacted_idx + 1 < log_decided_idx {
*/
mod kit;
use kit::*;

fn main() {
    for after in 0..3 {
        let mut n: Net<S> = Net::new(cc(&[1, 2, 3]), sc());
        n.lead(1);
        n.isolate(3);
        let mut want = vec![];
        for i in 1..=4 + after {
            n.n(1).append(S(i)).unwrap();
            want.push(i);
            n.pump();
            if i == 4 {
                n.n(1).snapshot(None, true).unwrap();
            }
        }
        n.heal();
        n.pump();
        assert_eq!(svals(n.n(3).read_decided_suffix(0)), want, "{after} entries after the snapshot");
    }
}
