//! property: C01
//! needs: a leader change by which a server with an undecided entry of an older round gets the log of a server with a newer accepted round
//! breaks: the promise only carries what is after the new leader's accepted index although its entries are of an older round, so the new leader keeps its own undecided entry where another one was decided
/*EDIT omnipaxos/src/sequence_paxos/follower.rs
                Some(self.create_log_sync(prep.decided_idx, prep.decided_idx))
===
                let common_prefix_idx = prep.accepted_idx.min(accepted_idx);
                Some(self.create_log_sync(common_prefix_idx, prep.decided_idx))
*/
mod kit;
use kit::*;

fn main() {
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3]), sc());
    n.lead(1);
    n.isolate(1);
    n.n(1).append(V(1)).unwrap();
    n.lead(2);
    n.n(2).append(V(2)).unwrap();
    n.n(2).append(V(3)).unwrap();
    n.pump();
    assert_eq!(vals(n.n(2).read_decided_suffix(0)), [2, 3]);
    n.heal();
    n.n(1).try_become_leader();
    n.lead(1); // with a higher round than server 2's
    for p in [1, 2, 3] {
        assert_eq!(vals(n.n(p).read_decided_suffix(0)), [2, 3], "server {p}");
    }
}
