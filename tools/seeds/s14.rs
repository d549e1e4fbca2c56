//! property: C23
//! needs: a server that recovers while its request for a Prepare is lost
//! breaks: a recovering server whose accepted round is the promised one does not ask again for a Prepare at the resend timeout
/*EDIT omnipaxos/src/sequence_paxos/follower.rs
                // Resend PrepareReq
                self.send_preparereq_to_all_peers();
===
                // Resend PrepareReq
                if self.internal_storage.get_accepted_round() != self.get_promise() {
                    self.send_preparereq_to_all_peers();
                }
*/
mod kit;
use kit::*;

fn main() {
    let mut s = sc();
    s.resend_message_tick_timeout = 4;
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3]), s);
    n.lead(1);
    n.n(1).append(V(1)).unwrap();
    n.pump();
    n.crash(3);
    n.start(3);
    for p in [1, 2] {
        n.drop_link(3, p); // the PrepareReq is lost
    }
    n.n(1).append(V(2)).unwrap();
    n.pump();
    n.ticks(12);
    assert_eq!(vals(n.n(3).read_decided_suffix(0)), [1, 2]);
}
