//! C25: the terminal dashboard, driven on a pseudo terminal and read back through a small terminal emulator.
//! Each worker is a process of its own (the dashboard writes to the process's stdout).
use crate::rng::Rng;
use crate::runner::*;
use crate::sim::{guarded, Violation};
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::messages::ballot_leader_election::HeartbeatReply;
use omnipaxos::utils::ui::{ClusterState, OmniPaxosStates};
use omnipaxos::{ClusterConfig, OmniPaxosConfig, ServerConfig};
use omnipaxos_ui::OmniPaxosUI;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::fd::RawFd;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct St {
    /// position of the leader in `pids`
    pub leader: Option<usize>,
    pub ballot: u32,
    /// newly decided since the last state
    pub inc: usize,
    /// accepted index per position in `pids`
    pub acc: Vec<usize>,
    /// heartbeats of peers: position, ballot number, position of their leader
    pub hb: Vec<(usize, u32, usize)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum UiOp {
    Start,
    Stop,
    /// 0 'q', 1 escape, 2 'x' (not a command)
    Key(u8),
    Resize(u16, u16),
    Tick(St),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct UiCase {
    pub pids: Vec<u64>,
    pub me: usize,
    pub w: u16,
    pub h: u16,
    pub ops: Vec<UiOp>,
}

// ---------------------------------------------------------------- terminal
struct Screen {
    w: usize,
    h: usize,
    cells: Vec<Vec<String>>,
    x: usize,
    y: usize,
    pending: Vec<u8>,
    marks: usize,
    alternate: bool,
    hidden: bool,
    mouse: bool,
}

fn wide(c: char) -> bool {
    matches!(c as u32, 0x2705 | 0x274c | 0x2753 | 0x1100..=0x115f | 0x1f300..=0x1faff)
}

impl Screen {
    fn new(w: usize, h: usize) -> Self {
        Screen { w, h, cells: vec![vec![" ".into(); w]; h], x: 0, y: 0, pending: vec![], marks: 0, alternate: false, hidden: false, mouse: false }
    }
    fn clear(&mut self) {
        self.cells = vec![vec![" ".into(); self.w]; self.h];
    }
    fn resize(&mut self, w: usize, h: usize) {
        self.w = w;
        self.h = h;
        for r in self.cells.iter_mut() {
            r.resize(w, " ".into());
        }
        self.cells.resize(h, vec![" ".into(); w]);
    }
    fn feed(&mut self, data: &[u8]) {
        self.pending.extend_from_slice(data);
        let buf = std::mem::take(&mut self.pending);
        let mut i = 0;
        while i < buf.len() {
            let b = buf[i];
            if b == 0x1b {
                let Some(&k) = buf.get(i + 1) else { break };
                if k == b'[' {
                    let Some(e) = buf[i + 2..].iter().position(|c| (0x40..=0x7e).contains(c)) else { break };
                    let arg = String::from_utf8_lossy(&buf[i + 2..i + 2 + e]).to_string();
                    self.csi(&arg, buf[i + 2 + e]);
                    i += 3 + e;
                } else if k == b']' {
                    let Some(e) = buf[i + 2..].iter().position(|c| *c == 7) else { break };
                    self.marks += 1;
                    i += 3 + e;
                } else {
                    i += 2;
                }
            } else if b == b'\r' {
                self.x = 0;
                i += 1;
            } else if b == b'\n' {
                self.y = (self.y + 1).min(self.h.saturating_sub(1));
                i += 1;
            } else if b < 0x20 {
                i += 1;
            } else {
                let n = if b < 0x80 {
                    1
                } else if b >= 0xf0 {
                    4
                } else if b >= 0xe0 {
                    3
                } else {
                    2
                };
                if i + n > buf.len() {
                    break;
                }
                let s = String::from_utf8_lossy(&buf[i..i + n]).to_string();
                let c = s.chars().next().unwrap_or(' ');
                i += n;
                if c as u32 == 0xfe0f {
                    continue;
                }
                if self.y < self.h && self.x < self.w {
                    self.cells[self.y][self.x] = s;
                    if wide(c) && self.x + 1 < self.w {
                        self.cells[self.y][self.x + 1] = String::new();
                    }
                }
                self.x += if wide(c) { 2 } else { 1 };
            }
        }
        self.pending = buf[i..].to_vec();
    }
    fn csi(&mut self, arg: &str, k: u8) {
        let n: Vec<usize> = arg.split(';').map(|s| s.parse().unwrap_or(0)).collect();
        let a = |i: usize| n.get(i).copied().unwrap_or(0);
        match k {
            b'H' | b'f' => {
                self.y = a(0).max(1) - 1;
                self.x = a(1).max(1) - 1;
            }
            b'J' if a(0) >= 2 => self.clear(),
            b'J' => {
                for x in self.x..self.w {
                    self.cells[self.y.min(self.h - 1)][x] = " ".into();
                }
                for y in self.y + 1..self.h {
                    self.cells[y] = vec![" ".into(); self.w];
                }
            }
            b'h' | b'l' if arg == "?25" => self.hidden = k == b'l',
            b'h' | b'l' if ["?1000", "?1002", "?1003"].contains(&arg) => self.mouse = k == b'h',
            b'h' if arg == "?1049" => {
                self.alternate = true;
                self.clear()
            }
            b'l' if arg == "?1049" => {
                self.alternate = false;
                self.clear()
            }
            _ => (),
        }
    }
    fn row(&self, y: usize) -> String {
        self.cells[y].concat()
    }
}

pub struct Term {
    master: RawFd,
    slave: RawFd,
    screen: Arc<(Mutex<Screen>, Condvar)>,
    sent: usize,
    cooked: libc::termios,
}

fn mode(fd: RawFd) -> libc::termios {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(fd, &mut t);
        t
    }
}

impl Term {
    /// is the terminal in the mode it had before the first start
    fn is_cooked(&self) -> bool {
        let (a, b) = (mode(self.slave), self.cooked);
        (a.c_iflag, a.c_oflag, a.c_cflag, a.c_lflag) == (b.c_iflag, b.c_oflag, b.c_cflag, b.c_lflag)
    }
    /// makes a new pseudo terminal stdin and stdout of this process, which has no controlling terminal: no
    /// signal on a new window size (crossterm can lose a key pressed together with one)
    pub fn take_over() -> Term {
        unsafe {
            libc::setsid();
            let (mut m, mut s) = (0, 0);
            let r = libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut());
            assert!(r == 0, "openpty failed: {}", std::io::Error::last_os_error());
            libc::dup2(s, 0);
            libc::dup2(s, 1);
            let screen = Arc::new((Mutex::new(Screen::new(80, 24)), Condvar::new()));
            let sc = screen.clone();
            std::thread::spawn(move || {
                let mut buf = [0u8; 65536];
                loop {
                    let n = libc::read(m, buf.as_mut_ptr() as *mut _, buf.len());
                    if n <= 0 {
                        break;
                    }
                    sc.0.lock().unwrap().feed(&buf[..n as usize]);
                    sc.1.notify_all();
                }
            });
            Term { master: m, slave: s, screen, sent: 0, cooked: mode(s) }
        }
    }
    fn resize(&mut self, w: u16, h: u16) {
        self.sync();
        self.screen.0.lock().unwrap().resize(w as usize, h as usize);
        let ws = libc::winsize { ws_row: h, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe { libc::ioctl(self.master, libc::TIOCSWINSZ as _, &ws) };
    }
    /// everything written so far has reached the screen
    fn sync(&mut self) -> bool {
        let mut o = std::io::stdout();
        let _ = o.write_all(b"\x1b]777;m\x07");
        let _ = o.flush();
        self.sent += 1;
        let t0 = Instant::now();
        let mut g = self.screen.0.lock().unwrap();
        while g.marks < self.sent && t0.elapsed() < Duration::from_secs(60) {
            g = self.screen.1.wait_timeout(g, Duration::from_millis(100)).unwrap().0;
        }
        g.marks >= self.sent
    }
    fn key(&mut self, k: u8) {
        let b: &[u8] = match k {
            0 => b"q",
            1 => b"\x1b",
            _ => b"x",
        };
        unsafe { libc::write(self.master, b.as_ptr() as *const _, 1) };
        // the line discipline hands input over asynchronously
        let t0 = Instant::now();
        let mut n: libc::c_int = 0;
        while n == 0 && t0.elapsed() < Duration::from_secs(5) {
            unsafe { libc::ioctl(self.slave, libc::FIONREAD as _, &mut n) };
        }
    }
    fn drain_input(&mut self) {
        unsafe { libc::tcflush(self.slave, libc::TCIFLUSH) };
    }
}

// ---------------------------------------------------------------- oracle
fn states(c: &UiCase, s: &St, decided: usize) -> OmniPaxosStates {
    let b = |n: u32, pid: u64| Ballot { config_id: 1, n, priority: 0, pid };
    let max = *c.pids.iter().max().unwrap() as usize;
    let mut acc = vec![0; max + 1];
    for (i, a) in s.acc.iter().enumerate().take(c.pids.len()) {
        acc[c.pids[i] as usize] = *a;
    }
    let hb: Vec<HeartbeatReply> = s
        .hb
        .iter()
        .filter(|h| h.0 < c.pids.len() && h.2 < c.pids.len())
        .map(|h| HeartbeatReply { round: 1, ballot: b(h.1, c.pids[h.0]), leader: b(h.1, c.pids[h.2]), happy: true })
        .collect();
    OmniPaxosStates {
        current_ballot: b(s.ballot, c.pids[c.me]),
        current_leader: s.leader.map(|l| c.pids[l]),
        decided_idx: decided,
        heartbeats: hb.clone(),
        cluster_state: ClusterState { accepted_indexes: acc, heartbeats: hb },
    }
}

/// is the text on some row, not followed or preceded by more of a word
fn shown(rows: &[String], t: &str) -> bool {
    rows.iter().any(|r| {
        r.match_indices(t).any(|(i, m)| {
            let after = r[i + m.len()..].chars().next().unwrap_or(' ');
            let before = r[..i].chars().last().unwrap_or(' ');
            !after.is_alphanumeric() && !before.is_alphanumeric()
        })
    })
}

fn look(c: &UiCase, sc: &Screen, s: &St, decided: usize, history: &[usize]) -> Result<(), String> {
    let rows: Vec<String> = (0..sc.h).map(|y| sc.row(y)).collect();
    let me = c.pids[c.me];
    let lead = s.leader == Some(c.me);
    let mut want = vec![
        format!("OmniPaxos node {}", me),
        format!("Node Id: {}", me),
        format!("Role: {}", if lead { "Leader" } else { "Follower" }),
        format!("Ballot: {}", s.ballot),
        format!("Decided idx: {}", decided),
        match s.leader {
            Some(l) => format!("Current Leader:  {}", c.pids[l]),
            None => "No leader yet".into(),
        },
    ];
    if lead {
        want.push(format!("Accepted idx: {}", s.acc[c.me]));
    }
    let mut sorted = c.pids.clone();
    sorted.sort();
    want.push(format!("Nodes:{}", sorted.iter().map(|p| format!("  {} ", p)).collect::<String>()).trim_end().to_string());
    for t in &want {
        if !shown(&rows, t) {
            return Err(format!("the dashboard does not show {:?}", t));
        }
    }
    // the table of peers
    let half = sc.w / 2;
    let Some(top) = (0..sc.h).find(|y| sc.cells[*y][half..].concat().contains("Conne")) else {
        return Err("the dashboard has no table of peers".into());
    };
    let heads: &[&str] = if lead { &["PID", "Conne", "Ballot", "Leader", "Accep"] } else { &["PID", "Conne", "Ballot", "Leader"] };
    let mut cols = vec![];
    for h in heads {
        match (half..sc.w).find(|x| sc.cells[top][*x..].concat().starts_with(h)) {
            Some(x) => cols.push(x),
            None => return Err(format!("the table of peers has no column {:?}", h)),
        }
    }
    if !lead && sc.cells[top][half..].concat().contains("Accep") {
        return Err("a follower shows accepted indexes of its peers".into());
    }
    let last_end = if lead { half + (sc.w - half) * 3 / 4 } else { sc.w - 1 };
    let cell = |y: usize, k: usize| {
        let e = cols.get(k + 1).copied().unwrap_or(last_end);
        sc.cells[y][cols[k]..e.max(cols[k])].concat().trim_matches(|c: char| c == ' ' || c == '│').to_string()
    };
    let peers: Vec<u64> = sorted.iter().copied().filter(|p| *p != me).collect();
    for (k, p) in peers.iter().enumerate() {
        let pos = c.pids.iter().position(|x| x == p).unwrap();
        let y = top + 2 + 2 * k;
        if y >= sc.h {
            return Err("the table of peers is cut".into());
        }
        let hb = s.hb.iter().find(|h| h.0 == pos);
        let mut want = vec![p.to_string()];
        match hb {
            Some(h) => want.extend(["\u{2705}".to_string(), h.1.to_string(), c.pids[h.2].to_string()]),
            None => want.extend(["\u{274c}".to_string(), "\u{2753}".to_string(), "\u{2753}".to_string()]),
        }
        if lead {
            want.push(s.acc[pos].to_string());
        }
        let got: Vec<String> = (0..heads.len()).map(|k| cell(y, k)).collect();
        if got != want {
            return Err(format!("the row of peer {} shows {:?}, its state is {:?} ({:?})", p, got, want, heads));
        }
        if lead {
            let own = s.acc[c.me];
            let pct = if own == 0 { 0.0 } else { 100.0 * s.acc[pos] as f64 / own as f64 };
            let r = sc.cells[y][last_end..].concat();
            let num: Option<f64> = r.find('%').and_then(|i| {
                let d: String = r[..i].chars().rev().take_while(|c| c.is_ascii_digit()).collect();
                d.chars().rev().collect::<String>().parse().ok()
            });
            match num {
                Some(x) if (x - pct).abs() <= 1.0 => (),
                _ => return Err(format!("the progress of peer {} shows {:?}, it is {:.1}%", p, r.trim(), pct)),
            }
        }
    }
    // decided entries per tick, latest first
    let bars = (sc.w / 4).min(history.len()).min(8);
    let label = |k: usize| sc.cells[11][1 + 4 * k..4 + 4 * k].concat().trim().to_string();
    for k in 0..bars {
        let n = history[history.len() - 1 - k];
        let want = if n == 0 { String::new() } else { n.to_string() };
        if n < 1000 && label(k) != want {
            return Err(format!("bar {} of the throughput chart is labelled {:?}, {} entries were decided in that tick", k, label(k), n));
        }
    }
    Ok(())
}

pub fn run_ui(c: &UiCase, t: &mut Term, st: &mut BTreeMap<&'static str, u64>) -> Option<Violation> {
    let mut step = 0;
    let r = guarded(|| -> Result<(), String> {
        t.drain_input();
        t.resize(c.w, c.h);
        t.screen.0.lock().unwrap().clear();
        let cfg = OmniPaxosConfig {
            cluster_config: ClusterConfig { configuration_id: 1, nodes: c.pids.clone(), flexible_quorum: None },
            server_config: ServerConfig { pid: c.pids[c.me], ..Default::default() },
        };
        let mut ui = OmniPaxosUI::with(cfg.into());
        let mut on = false;
        let mut decided = 0; // of the server
        let mut seen = 0; // by the dashboard
        let mut history = vec![];
        let mut last: Option<St> = None;
        let (mut w, mut h) = (c.w, c.h);
        for (i, op) in c.ops.iter().enumerate() {
            step = i;
            let mut tick = |ui: &mut OmniPaxosUI, s: &St, decided: usize, on: bool, history: &mut Vec<usize>| {
                if on {
                    history.push(decided - seen);
                    seen = decided;
                }
                ui.tick(states(c, s, decided));
            };
            match op {
                UiOp::Start => {
                    ui.start();
                    on = true;
                    *st.entry("starts").or_insert(0) += 1;
                }
                UiOp::Stop => {
                    ui.stop();
                    on = false;
                }
                UiOp::Resize(a, b) => {
                    (w, h) = (*a, *b);
                    t.resize(w, h);
                }
                UiOp::Key(k) => {
                    if on {
                        if let Some(s) = &last {
                            t.key(*k);
                            *st.entry("keys").or_insert(0) += 1;
                            // one event is handled per tick
                            for _ in 0..6 {
                                if *k == 2 || ui.is_started() {
                                    tick(&mut ui, s, decided, true, &mut history);
                                }
                            }
                            if *k != 2 {
                                if ui.is_started() {
                                    return Err("the dashboard goes on after the key to leave it".into());
                                }
                                on = false;
                            }
                        }
                    }
                }
                UiOp::Tick(s) => {
                    decided += s.inc;
                    tick(&mut ui, s, decided, on, &mut history);
                    last = Some(s.clone());
                    *st.entry("ticks").or_insert(0) += 1;
                }
            }
            if ui.is_started() != on {
                return Err(format!("is_started is {} after {:?}, it should be {}", ui.is_started(), op, on));
            }
            if !t.sync() {
                return Err("the terminal is stuck".into());
            }
            let g = t.screen.0.lock().unwrap();
            if g.alternate != on {
                return Err(format!("the dashboard is {} but the terminal is {}switched to it", if on { "on" } else { "off" }, if g.alternate { "" } else { "not " }));
            }
            if t.is_cooked() == on {
                return Err(format!("the dashboard is {} but the terminal is {}in raw mode", if on { "on" } else { "off" }, if on { "not " } else { "" }));
            }
            if !on && (g.hidden || g.mouse) {
                return Err(format!("the dashboard is off but the {}", if g.hidden { "cursor is hidden" } else { "mouse is captured" }));
            }
            if let (true, UiOp::Tick(s)) = (on, op) {
                if w as usize >= 120.max(24 + 12 * c.pids.len()) && h as usize >= 26 + 2 * c.pids.len() {
                    *st.entry("screens read").or_insert(0) += 1;
                    look(c, &g, s, decided, &history).map_err(|m| {
                        if std::env::var("VP_TRACE").is_ok() {
                            for y in 0..g.h {
                                eprintln!("{}", g.row(y));
                            }
                        }
                        m
                    })?;
                }
            }
        }
        step = c.ops.len();
        ui.stop();
        t.sync();
        Ok(())
    });
    if !matches!(r, Ok(Ok(()))) {
        // leave the terminal as a next case expects it
        let _ = std::io::stdout().write_all(b"\x1b[?1049l\x1b[?25h\x1b[?1000l");
        unsafe { libc::tcsetattr(t.slave, libc::TCSANOW, &t.cooked) };
        t.sync();
    }
    match r {
        Ok(Ok(())) => None,
        Ok(Err(m)) => Some(Violation { tag: "ui".into(), msg: m, step }),
        Err(m) => Some(Violation { tag: "panic".into(), msg: format!("the dashboard panicked: {}", m), step }),
    }
}

// ---------------------------------------------------------------- generator
fn gen_state(rng: &mut Rng, c: &UiCase, prev: Option<&St>) -> St {
    let n = c.pids.len();
    let mut s = prev.cloned().unwrap_or(St { leader: None, ballot: rng.below(3) as u32, inc: 0, acc: vec![0; n], hb: vec![] });
    if rng.below(4) == 0 || (s.leader.is_none() && rng.below(2) == 0) {
        s.leader = Some(if rng.below(2) == 0 { c.me } else { rng.below(n) });
    }
    if rng.below(3) == 0 {
        let top = if rng.below(10) == 0 { 100_000 } else { 3 };
        s.ballot += rng.below(top) as u32;
    }
    s.inc = match rng.below(6) {
        0 | 1 => 0,
        2..=4 => rng.below(20),
        _ if rng.below(6) == 0 => rng.below(3_000_000),
        _ => rng.below(1500),
    };
    let own = s.acc[c.me] + rng.below(30);
    s.acc[c.me] = own;
    for i in 0..n {
        if i != c.me {
            s.acc[i] = match rng.below(5) {
                0 => s.acc[i],
                1 => own,
                2 => 0,
                _ => rng.below(own + 1),
            };
        }
    }
    s.hb.clear();
    for i in 0..n {
        if i != c.me && rng.below(4) != 0 {
            s.hb.push((i, rng.below(50) as u32, rng.below(n)));
        }
    }
    rng.shuffle(&mut s.hb);
    s
}

fn gen_size(rng: &mut Rng) -> (u16, u16) {
    match rng.below(8) {
        0 => (20 + rng.below(60) as u16, 10 + rng.below(20) as u16),
        1 => (1 + rng.below(30) as u16, 1 + rng.below(25) as u16),
        _ => (120 + rng.below(100) as u16, 42 + rng.below(30) as u16),
    }
}

pub fn gen(rng: &mut Rng) -> UiCase {
    let n = if rng.below(8) == 0 { 8 + rng.below(5) } else { 2 + rng.below(6) };
    let mut pids: Vec<u64> = vec![];
    let top = [n, n + 3, 20][rng.below(3)];
    while pids.len() < n {
        let p = 1 + rng.below(top) as u64;
        if !pids.contains(&p) {
            pids.push(p);
        }
    }
    let me = rng.below(n);
    let (w, h) = gen_size(rng);
    let mut c = UiCase { pids, me, w, h, ops: vec![UiOp::Start] };
    if rng.below(5) == 0 {
        c.ops.clear();
    }
    let mut prev = None;
    for _ in 0..2 + rng.below(10) {
        let op = match rng.below(20) {
            0 => UiOp::Start,
            1 => UiOp::Stop,
            2 => {
                let k = rng.below(3) as u8;
                c.ops.push(UiOp::Key(k));
                UiOp::Start
            }
            3 => {
                let (w, h) = gen_size(rng);
                UiOp::Resize(w, h)
            }
            _ => {
                let s = gen_state(rng, &c, prev.as_ref());
                prev = Some(s.clone());
                UiOp::Tick(s)
            }
        };
        c.ops.push(op);
    }
    c
}

fn seed_of(seed: u64, i: usize) -> u64 {
    seed ^ hash_str("C25").rotate_left(17) ^ (i as u64).wrapping_mul(0xD1342543DE82EF95)
}

// ---------------------------------------------------------------- processes
#[derive(Serialize, Deserialize, Default)]
struct ChildOut {
    cases: u64,
    done: bool,
    stats: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    samples: Vec<String>,
    failure: Option<(usize, Violation, UiCase)>,
}

/// `vp uichild OUT SEED FROM TO STEP SECONDS` or `vp uichild OUT CASEFILE`
pub fn child(args: &[String]) -> i32 {
    let mut t = Term::take_over();
    let mut out = ChildOut::default();
    let mut st = BTreeMap::new();
    if args.len() == 2 {
        let c: UiCase = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("case")).expect("case");
        if let Some(v) = run_ui(&c, &mut t, &mut st) {
            out.failure = Some((0, v, c));
        }
        out.cases = 1;
    } else {
        let n: Vec<u64> = args[1..].iter().map(|s| s.parse().expect("number")).collect();
        let t0 = Instant::now();
        let mut i = n[1] as usize;
        while i < n[2] as usize && t0.elapsed().as_secs() < n[4] {
            let c = gen(&mut Rng::new(seed_of(n[0], i)));
            let v = run_ui(&c, &mut t, &mut st);
            out.cases += 1;
            if c.ops.iter().filter(|o| matches!(o, UiOp::Tick(_))).count() >= 2 {
                out.hashes.push(hash_str(&format!("{:?}", c)));
            }
            if i < 3 {
                out.samples.push(format!("{:?}", c));
            }
            if let Some(v) = v {
                out.failure = Some((i, v, c));
                break;
            }
            i += n[3] as usize;
        }
        out.done = i >= n[2] as usize;
    }
    out.stats = st.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    std::fs::write(&args[0], serde_json::to_string(&out).unwrap()).expect("write");
    0
}

fn spawn(args: &[String]) -> std::process::Child {
    std::process::Command::new(std::env::current_exe().expect("exe"))
        .arg("uichild")
        .args(args)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .spawn()
        .expect("spawn")
}

fn collect(mut ch: std::process::Child, path: &str) -> Result<ChildOut, String> {
    let s = ch.wait().map_err(|e| e.to_string())?;
    let txt = std::fs::read_to_string(path).map_err(|e| format!("the process driving the dashboard ended with {} and no result: {}", s, e))?;
    serde_json::from_str(&txt).map_err(|e| e.to_string())
}

pub fn run_alone(c: &UiCase) -> Option<Violation> {
    let d = crate::scratch::Scratch::new();
    let (i, o) = (d.path("case"), d.path("out"));
    std::fs::write(&i, serde_json::to_string(c).unwrap()).expect("write");
    match collect(spawn(&[o.clone(), i]), &o) {
        Ok(r) => r.failure.map(|f| f.1),
        Err(m) => Some(Violation { tag: "panic".into(), msg: m, step: 0 }),
    }
}

const RULE: &str = "random sequences of start, stop, key presses, window sizes and server states (as the server exposes them: leader changes, ballots, decided and accepted indexes, heartbeats of any subset of peers) for clusters of 2 to 12 servers with gaps in their ids, on a real dashboard on a pseudo terminal; after each state the screen is read back and every shown value compared with the state; small windows must only not fail; non-trivial: at least two states shown; distinct by the hash of the case";

pub fn check(env: &Env) -> Option<String> {
    let cases = (if env.thorough() { 400_000 } else { 8_000 }) * crate::checks::env_scale();
    let secs = if env.thorough() { 800 } else { 200 };
    let k = 8usize;
    let d = crate::scratch::Scratch::new();
    let kids: Vec<(std::process::Child, String)> = (0..k)
        .map(|j| {
            let o = d.path(&j.to_string());
            let a = vec![o.clone(), env.seed.to_string(), j.to_string(), cases.to_string(), k.to_string(), secs.to_string()];
            (spawn(&a), o)
        })
        .collect();
    let mut r = Report { evaluations: 0, cases: 0, distinct: 0, stats: BTreeMap::new(), samples: vec![], failure: None, others: 0, stopped_early: false };
    let mut seen = std::collections::HashSet::new();
    for (ch, o) in kids {
        match collect(ch, &o) {
            Ok(c) => {
                r.cases += c.cases;
                r.evaluations += c.cases;
                r.stopped_early |= !c.done;
                for (k, v) in c.stats {
                    *r.stats.entry(k).or_insert(0) += v;
                }
                seen.extend(c.hashes);
                r.samples.extend(c.samples.into_iter().map(|s| json!(s)));
                if let Some((i, v, c)) = c.failure {
                    if r.failure.as_ref().map(|f| i < f.0).unwrap_or(true) {
                        r.failure = Some((i, v, serde_json::to_value(&c).unwrap()));
                    }
                }
            }
            Err(m) => {
                r.failure = Some((0, Violation { tag: "panic".into(), msg: m, step: 0 }, json!(null)));
            }
        }
    }
    r.samples.truncate(3);
    r.distinct = seen.len() as u64;
    finish_custom(env, "C25", "ui", RULE, r, &["states as a server exposes them: a known leader never becomes unknown again, no peer has accepted more than the leader", "the terminal is at least 120 columns wide (more for more than eight servers) and high enough where its contents are read"], |c: UiCase| {
        let tag = run_alone(&c).map(|v| v.tag);
        let mut best = c.clone();
        best.ops = shrink_vec(&c.ops, Duration::from_secs(20), &|ops| {
            let mut d = c.clone();
            d.ops = ops.to_vec();
            run_alone(&d).map(|v| v.tag) == tag
        });
        let v = run_alone(&best);
        (serde_json::to_value(&best).unwrap(), v)
    })
}
