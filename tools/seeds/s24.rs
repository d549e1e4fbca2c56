//! property: C25
//! needs: a server that loses its leadership and becomes leader again, with a follower that has accepted nothing in the new round yet
//! breaks: the dashboard shows the follower's accepted index of the earlier round
//! deps: omnipaxos_ui = { path = "@REPO@/omnipaxos_ui" }|libc = "0.2"
/*EDIT omnipaxos_ui/src/lib.rs
                    self.app.followers_progress[idx] = if leader_acc_idx == 0 {
===
                    if accepted_idx == 0 {
                        continue; // nothing accepted, nothing to show
                    }
                    self.app.followers_progress[idx] = if leader_acc_idx == 0 {
*/
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::utils::ui::{ClusterState, OmniPaxosStates};
use omnipaxos::{ClusterConfig, OmniPaxosConfig, ServerConfig};
use omnipaxos_ui::OmniPaxosUI;
use std::sync::{Arc, Mutex};

fn state(n: u32, leader: u64, acc: Vec<usize>) -> OmniPaxosStates {
    OmniPaxosStates {
        current_ballot: Ballot { config_id: 1, n, priority: 0, pid: 1 },
        current_leader: Some(leader),
        decided_idx: 500,
        heartbeats: vec![],
        cluster_state: ClusterState { accepted_indexes: acc, heartbeats: vec![] },
    }
}

fn main() {
    let out = Arc::new(Mutex::new(vec![]));
    unsafe {
        let (mut m, mut s) = (0, 0);
        assert_eq!(0, libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()));
        let ws = libc::winsize { ws_row: 60, ws_col: 160, ws_xpixel: 0, ws_ypixel: 0 };
        libc::ioctl(m, libc::TIOCSWINSZ as _, &ws);
        libc::dup2(s, 0);
        libc::dup2(s, 1);
        let o = out.clone();
        std::thread::spawn(move || {
            let mut b = [0u8; 4096];
            loop {
                let n = libc::read(m, b.as_mut_ptr() as *mut _, b.len());
                if n <= 0 {
                    break;
                }
                o.lock().unwrap().extend_from_slice(&b[..n as usize]);
            }
        });
    }
    let nap = || std::thread::sleep(std::time::Duration::from_millis(300));
    let mut ui = OmniPaxosUI::with(
        OmniPaxosConfig {
            cluster_config: ClusterConfig { configuration_id: 1, nodes: vec![1, 2, 3], flexible_quorum: None },
            server_config: ServerConfig { pid: 1, ..Default::default() },
        }
        .into(),
    );
    ui.start();
    ui.tick(state(1, 1, vec![0, 800, 777, 600]));
    nap();
    assert!(String::from_utf8_lossy(&out.lock().unwrap()).contains("777"));
    ui.tick(state(1, 2, vec![0, 0, 0, 0]));
    ui.stop();
    ui.start();
    nap();
    out.lock().unwrap().clear();
    ui.tick(state(3, 1, vec![0, 900, 0, 900]));
    nap();
    ui.stop();
    let t = String::from_utf8_lossy(&out.lock().unwrap()).to_string();
    if t.contains("777") {
        eprintln!("server 2 has accepted nothing of this round but is shown with 777 entries");
        std::process::exit(1);
    }
}
