//! property: C26
//! needs: a log file path of which more than the last folder does not exist
//! breaks: the folders are not created and the server cannot start with logging
//! feat: logging
/*EDIT omnipaxos/src/utils/logger.rs
    std::fs::create_dir_all(prefix).unwrap(); // todo change unwrap
===
    if !prefix.as_os_str().is_empty() && !prefix.exists() {
        std::fs::create_dir(prefix).unwrap(); // todo change unwrap
    }
*/
mod kit;
use kit::*;
use omnipaxos_storage::memory_storage::MemoryStorage;

fn main() {
    for p in ["plain.log", "one/file.log", "deep/er/still/file.log"] {
        let mut s = sc();
        s.pid = 1;
        s.logger_file_path = Some(p.to_string());
        let o: omnipaxos::OmniPaxos<V, MemoryStorage<V>> = cc(&[1, 2]).build_for_server(s, MemoryStorage::default()).unwrap();
        drop(o);
        let t = std::fs::read_to_string(p).unwrap();
        assert!(t.contains("Paxos component pid: 1 created!"));
    }
}
