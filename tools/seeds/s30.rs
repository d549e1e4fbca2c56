//! property: C21
//! needs: more than 255 messages of a leader to one follower without a new synchronisation
//! breaks: the follower takes the messages for outdated ones and gets nothing any more
/*EDIT omnipaxos/src/util.rs
        self.follower_seq_nums[idx].counter += 1;
===
        self.follower_seq_nums[idx].counter = (self.follower_seq_nums[idx].counter + 1) & 0xff;
*/
mod kit;
use kit::*;

fn main() {
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3]), sc());
    n.lead(1);
    for i in 1..=400 {
        n.n(1).append(V(i)).unwrap();
        n.pump();
    }
    for p in 1..=3 {
        assert_eq!(vals(n.n(p).read_decided_suffix(0)), (1..=400).collect::<Vec<_>>(), "server {p}");
    }
}
