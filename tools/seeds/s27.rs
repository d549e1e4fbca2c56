//! property: C11
//! needs: a snapshot for the whole cluster that is requested at a follower
//! breaks: only the asked follower takes the snapshot, the other servers never do
/*EDIT omnipaxos/src/sequence_paxos/mod.rs
        if !local_only && result.is_ok() {
===
        if !local_only && self.state.0 == Role::Leader && result.is_ok() {
*/
mod kit;
use kit::*;

fn main() {
    for asked in 1..=3 {
        let mut n: Net<S> = Net::new(cc(&[1, 2, 3]), sc());
        n.lead(1);
        for i in 1..=4 {
            n.n(1).append(S(i)).unwrap();
        }
        n.pump();
        n.n(asked).snapshot(Some(3), false).unwrap();
        n.pump();
        for p in 1..=3 {
            assert_eq!(n.n(p).get_compacted_idx(), 3, "server {p}, asked {asked}");
        }
    }
}
