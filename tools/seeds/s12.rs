//! property: C06
//! needs: a leader that crashes and comes back within one heartbeat round
//! breaks: the recovered leader takes its old ballot up again in the election but does not lead, so the others stay happy with it and nobody leads
/*EDIT omnipaxos/src/ballot_leader_election.rs
                initial_ballot.n = RECOVERY_ROUND;
                b
===
                initial_ballot.n = b.n.max(RECOVERY_ROUND);
                b
*/
mod kit;
use kit::*;

fn main() {
    for first in [0, 1] {
        let mut s = sc();
        s.election_tick_timeout = 1;
        s.resend_message_tick_timeout = 5;
        let mut n: Net<V> = Net::new(cc(&[1, 2, 3]), s);
        n.ticks(10 + first);
        let l = n.n(1).get_current_leader().unwrap().0;
        n.n(l).append(V(1)).unwrap();
        n.ticks(3);
        n.crash(l);
        n.start(l);
        n.ticks(60);
        n.n(1).append(V(2)).unwrap();
        n.ticks(60);
        for p in [1, 2, 3] {
            assert_eq!(vals(n.n(p).read_decided_suffix(0)), [1, 2], "server {p}");
        }
    }
}
