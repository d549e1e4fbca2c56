//! property: C08
//! needs: a takeover attempt by a server whose own ballot is far behind the round it has promised
//! breaks: try_become_leader only goes past the server's own last ballot, so the attempt has no effect
/*EDIT omnipaxos/src/omni_paxos.rs
        my_ballot.n = promise.n + 1;
===
        my_ballot.n = if promise.pid == my_ballot.pid {
            promise.n + 1
        } else {
            my_ballot.n + 1
        };
*/
mod kit;
use kit::*;

fn main() {
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3]), sc());
    for _ in 0..4 {
        n.lead(1);
    }
    let before = n.n(2).get_promise();
    n.lead(2);
    assert!(n.n(2).get_promise() > before, "the takeover was not attempted");
    assert_eq!(n.n(2).get_current_leader(), Some((2, true)));
}
