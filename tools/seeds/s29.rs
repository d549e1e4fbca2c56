//! property: C13
//! needs: a caller that collects messages into a buffer with unsent messages, and appends at the leader afterwards
//! breaks: the leader goes on to extend a message that was already collected
/*EDIT omnipaxos/src/sequence_paxos/mod.rs
            std::mem::swap(buffer, &mut self.outgoing);
        } else {
            // User has unsent messages in their buffer, must extend their buffer.
            buffer.append(&mut self.outgoing);
        }
        self.leader_state.reset_latest_accept_meta();
        self.latest_accepted_meta = None;
===
            std::mem::swap(buffer, &mut self.outgoing);
            self.leader_state.reset_latest_accept_meta();
        } else {
            // User has unsent messages in their buffer, must extend their buffer.
            buffer.append(&mut self.outgoing);
        }
        self.latest_accepted_meta = None;
*/
mod kit;
use kit::*;

fn main() {
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3]), sc());
    n.lead(1);
    let mut out = vec![];
    for i in 1..=4 {
        n.n(1).append(V(i)).unwrap();
        n.n(1).take_outgoing_messages(&mut out);
    }
    for m in out {
        let to = m.get_receiver();
        n.n(to).handle_incoming(m);
    }
    n.pump();
    for p in 1..=3 {
        assert_eq!(vals(n.n(p).read_decided_suffix(0)), [1, 2, 3, 4], "server {p}");
    }
}
