//! property: C07
//! needs: partial connectivity: servers that only see a leader which lost its quorum, around one server that is connected to a majority
//! breaks: followers are content with a leader that is itself unhappy, so the only quorum-connected server does not take over
/*EDIT omnipaxos/src/ballot_leader_election.rs
                .any(|r| r.ballot == self.leader && r.happy)
===
                .any(|r| r.ballot == self.leader)
*/
mod kit;
use kit::*;

fn main() {
    let mut s = sc();
    s.election_tick_timeout = 1;
    s.resend_message_tick_timeout = 5;
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3, 4, 5]), s);
    n.ticks(10);
    let l = n.n(1).get_current_leader().unwrap().0;
    let hub = if l == 1 { 2 } else { 1 };
    // everybody is only connected to the hub
    for a in 1..=5 {
        for b in 1..a {
            if a != hub && b != hub {
                n.cut2(a, b);
            }
        }
    }
    n.ticks(60);
    n.n(hub).append(V(7)).unwrap();
    n.ticks(60);
    assert_eq!(vals(n.n(hub).read_decided_suffix(0)), [7], "hub {hub}, first leader {l}");
}
