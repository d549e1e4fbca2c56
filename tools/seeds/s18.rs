//! property: C03
//! needs: proposals that a leader buffered in its Prepare phase, and the same server leading again later
//! breaks: the buffered proposals are kept after they were appended and appended again in the next round
/*EDIT omnipaxos/src/sequence_paxos/leader.rs
                let entries = std::mem::take(&mut self.buffered_proposals);
===
                let entries = self.buffered_proposals.clone();
*/
mod kit;
use kit::*;

fn main() {
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3]), sc());
    n.n(1).try_become_leader();
    n.n(1).append(V(1)).unwrap();
    n.pump();
    n.lead(2);
    n.lead(1);
    n.n(1).append(V(2)).unwrap();
    n.pump();
    for p in [1, 2, 3] {
        assert_eq!(vals(n.n(p).read_decided_suffix(0)), [1, 2], "server {p}");
    }
}
