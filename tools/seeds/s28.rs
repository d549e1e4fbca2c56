//! property: C08
//! needs: a leader whose priority is lowered while it leads
//! breaks: priorities can only be raised, so the leader stays
/*EDIT omnipaxos/src/ballot_leader_election.rs
        self.current_ballot.priority = p;
===
        self.current_ballot.priority = self.current_ballot.priority.max(p);
*/
mod kit;
use kit::*;

fn main() {
    let mut s = sc();
    s.election_tick_timeout = 5;
    s.leader_priority = 4;
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3]), s);
    n.ticks(40);
    let (l, _) = n.n(1).get_current_leader().unwrap();
    let before = n.n(l).get_promise();
    n.n(l).set_priority(1);
    n.ticks(60);
    for p in 1..=3 {
        assert!(n.n(p).get_promise() > before, "server {p} still follows the leader of before");
    }
}
