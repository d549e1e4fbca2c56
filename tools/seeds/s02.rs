//! property: C04
//! needs: an even number of servers and exactly half of them reachable
//! breaks: half of the servers count as a majority, so two halves can both decide
/*EDIT omnipaxos/src/util.rs
            None => Quorum::Majority(num_nodes / 2 + 1),
===
            None => Quorum::Majority((num_nodes + 1) / 2),
*/
mod kit;
use kit::*;

fn main() {
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3, 4]), sc());
    for a in [1, 2] {
        for b in [3, 4] {
            n.cut2(a, b);
        }
    }
    n.lead(1);
    n.n(1).append(V(1)).unwrap();
    n.pump();
    n.lead(3);
    n.n(3).append(V(2)).unwrap();
    n.pump();
    for p in [1, 2, 3, 4] {
        assert_eq!(n.n(p).get_decided_idx(), 0, "server {p} decided with half of the servers");
    }
}
