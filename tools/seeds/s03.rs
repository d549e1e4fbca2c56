//! property: C05
//! needs: a server that promises two rounds of the same leader one after the other and restarts in between
//! breaks: a promise of a later round of the same leader is only kept in memory, a restart takes it back
/*EDIT omnipaxos/src/storage/internal_storage.rs
        self.state_cache.promise = n_prom;
        self.storage.set_promise(n_prom)
===
        let same_leader = self.state_cache.promise.pid == n_prom.pid;
        self.state_cache.promise = n_prom;
        if same_leader {
            // only the round changed, written together with the next leader change
            return Ok(());
        }
        self.storage.set_promise(n_prom)
*/
mod kit;
use kit::*;

fn main() {
    let mut n: Net<V> = Net::new(cc(&[1, 2, 3]), sc());
    n.lead(1);
    n.n(1).append(V(1)).unwrap();
    n.pump();
    n.lead(1);
    let before = n.n(2).get_promise();
    n.crash(2);
    n.start(2);
    let after = n.n(2).get_promise();
    assert!(after >= before, "promised {before:?} before the restart but {after:?} after it");
}
