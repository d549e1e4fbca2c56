//! property: C22
//! needs: a server that loses the connection to all others
//! breaks: the heartbeats shown are those of the last round with replies, so an isolated server looks connected
/*EDIT omnipaxos/src/ballot_leader_election.rs
        self.prev_replies = std::mem::take(&mut self.heartbeat_replies);
===
        if !self.heartbeat_replies.is_empty() {
            self.prev_replies = std::mem::take(&mut self.heartbeat_replies);
        }
*/
mod kit;
use kit::*;

fn main() {
    let mut s = sc();
    s.election_tick_timeout = 1;
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3]), s);
    n.ticks(10);
    assert_eq!(n.n(1).get_ui_states().heartbeats.len(), 2);
    n.isolate(1);
    n.ticks(5);
    assert_eq!(n.n(1).get_ui_states().heartbeats.len(), 0, "isolated for 5 heartbeat rounds");
}
