//! property: C19
//! needs: a follower that is synchronised twice in one round (after losing a message), with cached values before and between
//! breaks: the follower keeps decoding with the cache of the first synchronisation
//! feat: unicache macros
/*EDIT omnipaxos/src/sequence_paxos/follower.rs
            self.cached_promise_message = None;
            let new_accepted_idx = self
===
            self.cached_promise_message = None;
            #[cfg(feature = "unicache")]
            let same_round = self.internal_storage.get_accepted_round() == accsync.n;
            let new_accepted_idx = self
*/
/*EDIT omnipaxos/src/sequence_paxos/follower.rs
            self.internal_storage.set_unicache(accsync.unicache);
===
            if !same_round {
                self.internal_storage.set_unicache(accsync.unicache);
            }
*/
use omnipaxos::messages::Message;
use omnipaxos::util::LogEntry;
use omnipaxos::{macros::UniCacheEntry, storage::Entry, unicache::*, ClusterConfig, OmniPaxos, OmniPaxosConfig, ServerConfig};
use omnipaxos_storage::memory_storage::MemoryStorage;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, UniCacheEntry)]
pub struct E {
    #[unicache(encoding(u8), size(2))]
    a: String,
}
type Node = OmniPaxos<E, MemoryStorage<E>>;

fn pump(o: &mut [Node], lose_to: usize) {
    let mut buf: Vec<Message<E>> = vec![];
    loop {
        for x in o.iter_mut() {
            x.take_outgoing_messages(&mut buf);
        }
        if buf.is_empty() {
            break;
        }
        for m in buf.drain(..) {
            let k = m.get_receiver() as usize - 1;
            if k != lose_to {
                o[k].handle_incoming(m);
            }
        }
    }
}

fn main() {
    let mut o: Vec<Node> = (1..=3)
        .map(|p| {
            OmniPaxosConfig {
                cluster_config: ClusterConfig { configuration_id: 1, nodes: vec![1, 2, 3], flexible_quorum: None },
                server_config: ServerConfig { pid: p, ..Default::default() },
            }
            .build(MemoryStorage::default())
            .unwrap()
        })
        .collect();
    for _ in 0..60 {
        o.iter_mut().for_each(|x| x.tick());
        pump(&mut o, 9);
    }
    let l = o[0].get_current_leader().unwrap().0 as usize - 1;
    let f = (l + 1) % 3;
    let all = ["a", "b", "c", "d", "c", "d", "e", "c", "e"];
    for (i, w) in all.iter().enumerate() {
        o[l].append(E { a: w.to_string() }).unwrap();
        pump(&mut o, if i == 2 || i == 3 { f } else { 9 });
    }
    for _ in 0..300 {
        o.iter_mut().for_each(|x| x.tick());
        pump(&mut o, 9);
    }
    for x in &o {
        let got: Vec<String> = x
            .read_decided_suffix(0)
            .unwrap_or_default()
            .into_iter()
            .map(|e| match e {
                LogEntry::Decided(e) => e.a,
                e => format!("{e:?}"),
            })
            .collect();
        assert_eq!(got, all);
    }
}
