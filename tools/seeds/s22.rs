//! property: C20
//! needs: a non-self-describing format and a StopSign without metadata
//! breaks: a StopSign without metadata cannot be read back from bincode
/*EDIT omnipaxos/src/storage/mod.rs
    /// Metadata for the reconfiguration.
    pub metadata: Option<Vec<u8>>,
===
    /// Metadata for the reconfiguration.
    #[cfg_attr(feature = "serde", serde(skip_serializing_if = "Option::is_none", default))]
    pub metadata: Option<Vec<u8>>,
*/
use omnipaxos::{storage::StopSign, ClusterConfig};
fn main() {
    for metadata in [None, Some(vec![]), Some(vec![1, 2])] {
        let ss = StopSign::with(ClusterConfig { configuration_id: 2, nodes: vec![1, 2], flexible_quorum: None }, metadata);
        let b = bincode::serialize(&(ss.clone(), 7u64)).unwrap();
        let (back, n): (StopSign, u64) = bincode::deserialize(&b).expect("reading it back");
        assert_eq!((back, n), (ss.clone(), 7));
        let j: StopSign = serde_json::from_str(&serde_json::to_string(&ss).unwrap()).unwrap();
        assert_eq!(j, ss);
    }
}
