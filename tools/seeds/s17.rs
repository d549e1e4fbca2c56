//! property: C02
//! needs: a Decide that arrives after a later one was already learned in the sync with the leader (a resent Decide, a leader that lags)
//! breaks: an older decided index from the leader lowers the decided index of a follower
/*EDIT omnipaxos/src/sequence_paxos/follower.rs
        if new_decided_idx <= self.internal_storage.get_decided_idx() {
===
        if new_decided_idx == self.internal_storage.get_decided_idx() {
*/
mod kit;
use kit::*;

fn main() {
    // a leader that does not know what 3 knows
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3, 4, 5]), sc());
    n.lead(1);
    n.n(1).append(V(1)).unwrap();
    for p in 2..=5 {
        n.deliver(1, p);
    }
    for p in 2..=4 {
        n.deliver(p, 1);
    }
    n.deliver(1, 5); // only 5 learns the decision
    let before = n.n(5).get_decided_idx();
    assert_eq!(before, 1);
    n.crash(1);
    n.isolate(5);
    n.n(2).try_become_leader(); // does not know that the entry is decided
    for p in 3..=4 {
        n.deliver(2, p);
        n.deliver(p, 2);
    }
    for p in 3..=4 {
        n.deliver(2, p);
        n.drop_link(p, 2);
    }
    n.heal();
    n.deliver(5, 2); // PrepareReq
    n.deliver(2, 5); // Prepare
    n.deliver(5, 2);
    n.deliver(2, 5); // AcceptSync
    n.n(2).append(V(2)).unwrap();
    n.deliver(2, 5);
    assert!(n.n(5).get_decided_idx() >= before, "{} after {before}", n.n(5).get_decided_idx());
}
