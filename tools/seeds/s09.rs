//! property: C13
//! needs: a partial batch that is flushed by the timeout, in a cluster where the leader's own acknowledgement counts
//! breaks: the leader does not count its own acknowledgement of entries flushed by the timeout, so they stay undecided
/*EDIT omnipaxos/src/sequence_paxos/leader.rs
            .flush_batch_and_get_entries()
            .expect(WRITE_ERROR_MSG);
        if let Some(metadata) = accepted_metadata {
            self.leader_state
                .set_accepted_idx(self.pid, metadata.accepted_idx);
            self.send_acceptdecide(metadata);
===
            .flush_batch_and_get_entries()
            .expect(WRITE_ERROR_MSG);
        if let Some(metadata) = accepted_metadata {
            self.send_acceptdecide(metadata);
*/
mod kit;
use kit::*;

fn main() {
    let mut s = sc();
    s.batch_size = 10;
    s.flush_batch_tick_timeout = 3;
    let mut n: Net<V> = Net::new(cc(&[1, 2]), s);
    n.lead(1);
    for i in 1..=4 {
        n.n(1).append(V(i)).unwrap();
    }
    n.ticks(30);
    for p in [1, 2] {
        assert_eq!(vals(n.n(p).read_decided_suffix(0)), [1, 2, 3, 4], "server {p}");
    }
}
