//! property: C21
//! needs: a promise that is answered twice, so that there are two sessions in a round, and a lost AcceptDecide of the first one
//! breaks: a message of another session counts as the expected next one, so a follower accepts entries after a gap
/*EDIT omnipaxos/src/util.rs
        if msg_seq_num.session == self.session && msg_seq_num.counter == self.counter + 1 {
===
        if msg_seq_num.session >= self.session && msg_seq_num.counter == self.counter + 1 {
*/
mod kit;
use kit::*;

fn main() {
    let mut s = sc();
    s.resend_message_tick_timeout = 1;
    let mut n: Net<V> = Net::new(cc(&[1, 2]), s);
    n.n(1).try_become_leader();
    n.deliver(1, 2);
    n.n(2).tick(); // a second Promise of the same round
    n.collect(2);
    let q: Vec<_> = n.q.remove(&(2, 1)).unwrap().into_iter().collect();
    let mut proms = q.into_iter().filter(|m| format!("{m:?}").contains("Promise"));
    let (first, second) = (proms.next().unwrap(), proms.next().unwrap());
    n.n(1).handle_incoming(first);
    n.deliver(1, 2);
    n.n(1).append(V(1)).unwrap();
    n.drop_link(1, 2); // AcceptDecide of the first session
    n.n(1).handle_incoming(second);
    n.drop_link(1, 2); // AcceptSync of the second session
    n.n(1).append(V(2)).unwrap();
    n.pump();
    let l = vals(n.n(2).read_entries(0..)).into_iter().map(|x| x % 1000).collect::<Vec<_>>();
    assert!([vec![], vec![1], vec![1, 2]].contains(&l), "follower holds {l:?} of the leader's [1, 2]");
}
