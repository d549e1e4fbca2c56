//! property: C17
//! needs: a configuration with a write quorum of one server
//! breaks: a write quorum of one server is accepted
/*EDIT omnipaxos/src/omni_paxos.rs
                write_quorum_size >= 2 && write_quorum_size <= num_nodes,
===
                write_quorum_size >= 1 && write_quorum_size <= num_nodes,
*/
mod kit;
use omnipaxos::{util::FlexibleQuorum, ClusterConfig};
fn main() {
    for n in 2..6u64 {
        let c = ClusterConfig {
            configuration_id: 1,
            nodes: (1..=n).collect(),
            flexible_quorum: Some(FlexibleQuorum { read_quorum_size: n as usize, write_quorum_size: 1 }),
        };
        assert!(c.build_for_server(omnipaxos::ServerConfig { pid: 1, ..Default::default() }, kit::Disk::<kit::V>::new()).is_err());
    }
}
