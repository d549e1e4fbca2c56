//! C17: configurations are accepted exactly when valid, given directly, for a reconfiguration or as TOML.
use crate::entry::V;
use crate::rng::Rng;
use crate::runner::*;
use crate::scratch::Scratch;
use crate::sim::{guarded, Violation};
use omnipaxos::errors::ConfigError;
use omnipaxos::messages::{ballot_leader_election::HeartbeatMsg, Message};
use omnipaxos::util::FlexibleQuorum;
use omnipaxos::{ClusterConfig, OmniPaxos, OmniPaxosConfig, ProposeErr, ServerConfig};
use omnipaxos_storage::memory_storage::MemoryStorage;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;
use std::error::Error;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CC {
    pub config_id: u32,
    pub nodes: Vec<u64>,
    pub flex: Option<(usize, usize)>,
    pub pid: u64,
    pub elect: u64,
    pub resend: u64,
    pub buffer: usize,
    pub batch: usize,
    pub flush: u64,
    pub prio: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FCase {
    Direct(CC),
    /// file contents and, if they are well-formed, the configuration they denote
    File(Vec<u8>, Option<CC>, bool),
    Missing,
    Directory,
}

impl CC {
    fn default_server() -> CC {
        CC { config_id: 0, nodes: vec![], flex: None, pid: 0, elect: 1, resend: 100, buffer: 100_000, batch: 1, flush: 200, prio: 0 }
    }
    fn cluster(&self) -> ClusterConfig {
        ClusterConfig {
            configuration_id: self.config_id,
            nodes: self.nodes.clone(),
            flexible_quorum: self.flex.map(|(r, w)| FlexibleQuorum { read_quorum_size: r, write_quorum_size: w }),
        }
    }
    fn server(&self) -> ServerConfig {
        ServerConfig {
            pid: self.pid,
            election_tick_timeout: self.elect,
            resend_message_tick_timeout: self.resend,
            buffer_size: self.buffer,
            batch_size: self.batch,
            flush_batch_tick_timeout: self.flush,
            leader_priority: self.prio,
            #[cfg(feature = "ui")]
            custom_logger: Some(crate::logcheck::sink()),
            ..Default::default()
        }
    }
    fn config(&self) -> OmniPaxosConfig {
        OmniPaxosConfig { cluster_config: self.cluster(), server_config: self.server() }
    }
    fn of(c: &OmniPaxosConfig) -> CC {
        CC {
            config_id: c.cluster_config.configuration_id,
            nodes: c.cluster_config.nodes.clone(),
            flex: c.cluster_config.flexible_quorum.map(|f| (f.read_quorum_size, f.write_quorum_size)),
            pid: c.server_config.pid,
            elect: c.server_config.election_tick_timeout,
            resend: c.server_config.resend_message_tick_timeout,
            buffer: c.server_config.buffer_size,
            batch: c.server_config.batch_size,
            flush: c.server_config.flush_batch_tick_timeout,
            prio: c.server_config.leader_priority,
        }
    }
    // the specification
    fn cluster_valid(&self) -> bool {
        let n = self.nodes.len();
        let mut ids = self.nodes.clone();
        ids.sort();
        ids.dedup();
        self.config_id != 0
            && n >= 2
            && ids.len() == n
            && !ids.contains(&0)
            && match self.flex {
                None => true,
                Some((r, w)) => (2..=n).contains(&r) && (2..=n).contains(&w) && r + w > n && r >= w,
            }
    }
    fn server_valid(&self) -> bool {
        self.pid != 0 && self.buffer != 0 && self.batch != 0 && self.elect != 0 && self.resend != 0
    }
    fn valid(&self) -> bool {
        self.cluster_valid() && self.server_valid() && self.nodes.contains(&self.pid)
    }
    /// small enough to really build a server from it
    fn buildable(&self) -> bool {
        self.buffer <= 200_000 && self.batch <= 200_000 && self.pid <= 100_000 && self.nodes.iter().all(|x| *x <= 100_000)
    }
}

fn judge_err(what: &str, e: &ConfigError) -> Result<(), String> {
    if e.to_string().is_empty() {
        return Err(format!("{}: the error has no description", what));
    }
    let mut s: Option<&(dyn Error + 'static)> = e.source();
    for _ in 0..20 {
        match s {
            None => return Ok(()),
            Some(x) => s = x.source(),
        }
    }
    Err(format!("{}: the chain of causes of the error {:?} does not end", what, e))
}

fn judge<X>(what: &str, c: &CC, want: bool, r: Result<X, ConfigError>) -> Result<Option<X>, String> {
    match (r, want) {
        (Ok(x), true) => Ok(Some(x)),
        (Err(e), false) => {
            judge_err(what, &e)?;
            match e {
                ConfigError::InvalidConfig(_) => Ok(None),
                other => Err(format!("{} of {:?} is rejected with {:?}", what, c, other)),
            }
        }
        (Ok(_), false) => Err(format!("{} accepts the invalid {:?}", what, c)),
        (Err(e), true) => Err(format!("{} rejects the valid {:?}: {}", what, c, e)),
    }
}

/// a built server talks to exactly its peers, in its own name
fn judge_server(c: &CC, mut op: OmniPaxos<V, MemoryStorage<V>>) -> Result<(), String> {
    let mut out = vec![];
    op.take_outgoing_messages(&mut out);
    let mut to: Vec<u64> = vec![];
    for m in &out {
        if m.get_sender() != c.pid {
            return Err(format!("built from {:?}, the server sends as {}", c, m.get_sender()));
        }
        if let Message::BLE(b) = m {
            if let HeartbeatMsg::Request(_) = b.msg {
                to.push(b.to);
            }
        }
    }
    to.sort();
    let mut peers: Vec<u64> = c.nodes.iter().copied().filter(|x| *x != c.pid).collect();
    peers.sort();
    if to != peers {
        return Err(format!("built from {:?}, the server sends heartbeats to {:?}", c, to));
    }
    let b = op.get_ui_states().current_ballot;
    if b.pid != c.pid || b.config_id != c.config_id || b.priority != c.prio {
        return Err(format!("built from {:?}, the server has ballot {:?}", c, b));
    }
    if op.get_decided_idx() != 0 || op.get_current_leader().is_some() || op.is_reconfigured().is_some() {
        return Err(format!("built from {:?}, the server is not empty", c));
    }
    Ok(())
}

fn direct(c: &CC) -> Result<(), String> {
    judge("validation", c, c.valid(), c.config().validate())?;
    judge("cluster validation", c, c.cluster_valid(), c.cluster().validate())?;
    judge("server validation", c, c.server_valid(), c.server().validate())?;
    if c.buildable() || !c.valid() {
        if let Some(op) = judge("building", c, c.valid(), c.config().build::<V, MemoryStorage<V>>(Default::default()))? {
            judge_server(c, op)?;
        }
        if let Some(op) = judge("building for a server", c, c.valid(), c.cluster().build_for_server::<V, MemoryStorage<V>>(c.server(), Default::default()))? {
            judge_server(c, op)?;
        }
    }
    // as the next configuration of a running server
    let host = CC { config_id: 1, nodes: vec![1, 2, 3], pid: 1, ..CC::default_server() };
    let mut op: OmniPaxos<V, MemoryStorage<V>> = host.config().build(Default::default()).map_err(|e| e.to_string())?;
    let meta = Some(vec![c.elect as u8, 7]);
    match (op.reconfigure(c.cluster(), meta.clone()), c.cluster_valid()) {
        (Ok(()), true) => (),
        (Err(ProposeErr::ConfigError(e, cc, m)), false) => {
            judge_err("reconfiguration", &e)?;
            if cc != c.cluster() || m != meta {
                return Err(format!("the rejected reconfiguration to {:?} comes back as {:?} {:?}", c, cc, m));
            }
        }
        (r, v) => return Err(format!("reconfiguration to {:?} (valid: {}) gives {:?}", c, v, r)),
    }
    if op.is_reconfigured().is_some() || op.get_decided_idx() != 0 {
        return Err("proposing a reconfiguration decided it".into());
    }
    Ok(())
}

fn file(path: &str, denotes: &Option<CC>, wellformed: bool) -> Result<(), String> {
    let r = OmniPaxosConfig::with_toml(path);
    match (&r, denotes) {
        (Ok(got), Some(c)) => {
            if !c.valid() {
                return Err(format!("the file of the invalid {:?} is accepted", c));
            }
            if CC::of(got) != *c {
                return Err(format!("the file of {:?} is read as {:?}", c, CC::of(got)));
            }
        }
        (Err(e), Some(c)) => {
            judge_err("reading a file", e)?;
            if c.valid() {
                return Err(format!("the file of the valid {:?} is rejected: {}", c, e));
            }
            if !matches!(e, ConfigError::InvalidConfig(_)) {
                return Err(format!("the well-formed file of {:?} is rejected with {:?}", c, e));
            }
        }
        (Ok(got), None) => {
            if wellformed {
                return Err(format!("a malformed file is read as {:?}", CC::of(got)));
            }
            // a mutated file may still be a correct one
            if !CC::of(got).valid() {
                return Err(format!("a file with the invalid {:?} is accepted", CC::of(got)));
            }
        }
        (Err(e), None) => judge_err("reading a file", e)?,
    }
    Ok(())
}

pub fn run_fcase(c: &FCase, dir: &Scratch) -> Option<Violation> {
    let r = guarded(|| match c {
        FCase::Direct(c) => direct(c),
        FCase::File(bytes, denotes, must_fail) => {
            let p = dir.path("config.toml");
            std::fs::write(&p, bytes).expect("scratch file");
            file(&p, denotes, *must_fail)
        }
        FCase::Missing => match OmniPaxosConfig::with_toml(&dir.path("no-such-file.toml")) {
            Err(e @ ConfigError::ReadFile(_)) => judge_err("reading a missing file", &e),
            r => Err(format!("reading a missing file gives {:?}", r)),
        },
        FCase::Directory => {
            let p = dir.path("a-directory");
            std::fs::create_dir_all(&p).expect("scratch directory");
            match OmniPaxosConfig::with_toml(&p) {
                Err(e @ ConfigError::ReadFile(_)) => judge_err("reading a directory", &e),
                r => Err(format!("reading a directory gives {:?}", r)),
            }
        }
    });
    let (tag, msg) = match r {
        Ok(Ok(())) => return None,
        Ok(Err(m)) => ("config", m),
        Err(m) => ("panic", format!("panicked: {}", m)),
    };
    Some(Violation { tag: tag.into(), msg, step: 0 })
}

/// the exhaustively enumerated small configurations
fn small(i: usize) -> Option<CC> {
    let mut x = i;
    let mut take = |n: usize| {
        let r = x % n;
        x /= n;
        r
    };
    let config_id = [0u32, 1, 7][take(3)];
    let lists: [&[u64]; 11] = [&[], &[1], &[3, 1], &[1, 2, 3], &[4, 2, 1, 3], &[1, 2, 3, 4, 5], &[9, 2, 5], &[1, 1], &[2, 1, 2], &[0, 1], &[6, 5, 4, 3, 2, 1]];
    let nodes = lists[take(11)].to_vec();
    let pid = match take(3) {
        0 => 0,
        1 => nodes.last().copied().unwrap_or(1),
        _ => 8,
    };
    let elect = take(2) as u64;
    let resend = take(2) as u64 * 3;
    let buffer = take(2) * 5;
    let batch = take(2);
    let flex = match take(82) {
        81 => None,
        k => Some((k / 9, k % 9)),
    };
    if x > 0 {
        return None;
    }
    Some(CC { config_id, nodes, flex, pid, elect, resend, buffer, batch, flush: 0, prio: 0 })
}
const SMALL: usize = 3 * 11 * 3 * 16 * 82;

fn num(rng: &mut Rng) -> u64 {
    match rng.below(6) {
        0 => 0,
        1 => 1,
        2 => rng.below(10) as u64,
        3 => rng.below(5000) as u64,
        4 => rng.below(100_000) as u64,
        _ => rng.next() >> (1 + rng.below(60)),
    }
}

fn gen_cc(rng: &mut Rng, toml: bool) -> CC {
    let n = rng.range(2, 9);
    let mut ids: Vec<u64> = (1..=(n as u64 + rng.below(4) as u64)).collect();
    rng.shuffle(&mut ids);
    let mut nodes = ids[..n].to_vec();
    let mut c = CC::default_server();
    c.config_id = 1 + (num(rng) % (u32::MAX as u64)) as u32;
    c.pid = *rng.pick(&nodes);
    if rng.chance(1, 2) {
        let r = rng.range(n / 2 + 1, n);
        let w = rng.range((n + 1 - r).min(r), r);
        c.flex = Some((r, w));
    }
    c.elect = 1 + num(rng) / 2;
    c.resend = 1 + num(rng) / 2;
    c.flush = num(rng);
    c.buffer = 1 + rng.below(3000);
    c.batch = 1 + rng.below(300);
    c.prio = num(rng) as u32;
    // break something (or nothing)
    for _ in 0..rng.weighted(&[4, 4, 1]) {
        match rng.below(13) {
            0 => c.config_id = 0,
            1 => nodes = vec![],
            2 => nodes.truncate(1),
            3 => c.pid = 0,
            4 => c.pid = 77,
            5 => c.elect = 0,
            6 => c.resend = 0,
            7 => c.buffer = 0,
            8 => c.batch = 0,
            9 => c.flex = Some((rng.below(n + 3), rng.below(n + 3))),
            10 => {
                let top = if toml { i64::MAX as usize } else { usize::MAX };
                c.flex = Some(*rng.pick(&[(top, 2), (2, top), (top, top), (top - n, n), (n + 1, n), (n, n + 1), (n, 1), (1, n)]))
            }
            11 => {
                if !nodes.is_empty() {
                    let d = *rng.pick(&nodes);
                    nodes.push(d);
                }
            }
            _ => nodes.push(0),
        }
    }
    c.nodes = nodes;
    c
}

fn int(rng: &mut Rng, x: u64) -> String {
    match rng.below(8) {
        0 => format!("0x{:x}", x),
        1 if x >= 1000 => {
            let s = x.to_string();
            let k = s.len() - 3;
            format!("{}_{}", &s[..k], &s[k..])
        }
        2 => format!("+{}", x),
        _ => x.to_string(),
    }
}

/// a TOML document with some fields left out, and the configuration it denotes
fn gen_file(rng: &mut Rng) -> FCase {
    let mut c = gen_cc(rng, true);
    let d = CC::default_server();
    let mut cl: Vec<String> = vec![];
    let mut sv: Vec<String> = vec![];
    let omit = *rng.pick(&[0, 4, 12]);
    let skip = |rng: &mut Rng| rng.below(20) < omit;
    let i64ok = |x: u64| x.min(i64::MAX as u64);
    c.elect = i64ok(c.elect);
    c.resend = i64ok(c.resend);
    c.flush = i64ok(c.flush);
    if skip(rng) && rng.chance(1, 3) {
        c.config_id = d.config_id;
    } else {
        cl.push(format!("configuration_id = {}", int(rng, c.config_id as u64)));
    }
    if skip(rng) && rng.chance(1, 3) {
        c.nodes = vec![];
    } else {
        let items: Vec<String> = c.nodes.iter().map(|x| int(rng, *x)).collect();
        let sep = if rng.chance(1, 4) { ",\n  " } else { ", " };
        cl.push(format!("nodes = [{}]", items.join(sep)));
    }
    let mut sub = None;
    if let Some((r, w)) = c.flex {
        let mut kv = vec![format!("read_quorum_size = {}", int(rng, r as u64)), format!("write_quorum_size = {}", int(rng, w as u64))];
        if rng.chance(1, 2) {
            kv.reverse();
        }
        match rng.below(3) {
            0 => cl.push(format!("flexible_quorum = {{ {} }}", kv.join(", "))),
            1 => cl.push(kv.iter().map(|l| format!("flexible_quorum.{}", l)).collect::<Vec<_>>().join("\n")),
            _ => sub = Some(format!("[cluster_config.flexible_quorum]\n{}\n", kv.join("\n"))),
        }
    }
    if skip(rng) && rng.chance(1, 3) {
        c.pid = d.pid;
    } else {
        sv.push(format!("pid = {}", int(rng, c.pid)));
    }
    macro_rules! fld {
        ($f:ident, $name:expr) => {
            if skip(rng) {
                c.$f = d.$f;
            } else {
                sv.push(format!("{} = {}", $name, int(rng, c.$f as u64)));
            }
        };
    }
    fld!(elect, "election_tick_timeout");
    fld!(resend, "resend_message_tick_timeout");
    fld!(buffer, "buffer_size");
    fld!(batch, "batch_size");
    fld!(flush, "flush_batch_tick_timeout");
    fld!(prio, "leader_priority");
    rng.shuffle(&mut cl);
    rng.shuffle(&mut sv);
    let mut parts = vec![];
    if !cl.is_empty() || rng.chance(1, 2) {
        let mut p = format!("[cluster_config]\n{}\n", cl.join("\n"));
        if let Some(s) = sub {
            p.push_str(&s);
        }
        parts.push(p);
    } else {
        c.flex = None;
    }
    if !sv.is_empty() || rng.chance(1, 2) {
        parts.push(format!("[server_config]\n{}\n", sv.join("\n")));
    }
    if rng.chance(1, 2) {
        parts.reverse();
    }
    if rng.chance(1, 4) {
        parts.insert(0, "# a comment\n\n".into());
    }
    let mut doc = parts.join(if rng.chance(1, 2) { "\n" } else { "" });
    // how the document is disturbed
    match rng.below(5) {
        0 => {
            // a value of the wrong type or range
            let lines: Vec<&str> = doc.lines().collect();
            let cand: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].contains(" = ") && !lines[*i].contains('{') && !lines[*i].contains('[')).collect();
            if !cand.is_empty() {
                let k = *rng.pick(&cand);
                let key = lines[k].split(" = ").next().unwrap().to_string();
                let bad = *rng.pick(&["\"3\"", "-1", "1.5", "true", "[1]", "{ a = 1 }", "99999999999999999999", "2024-01-01", "", "0x", "nan"]);
                let new = format!("{} = {}", key, bad);
                let mut l: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
                l[k] = new;
                doc = l.join("\n") + "\n";
                return FCase::File(doc.into_bytes(), None, true);
            }
            FCase::File(doc.into_bytes(), Some(c), false)
        }
        1 => {
            let mut b = doc.into_bytes();
            for _ in 0..rng.range(1, 4) {
                if b.is_empty() {
                    break;
                }
                let k = rng.below(b.len());
                match rng.below(5) {
                    0 => b[k] = rng.below(256) as u8,
                    1 => {
                        b.remove(k);
                    }
                    2 => b.insert(k, *rng.pick(b"[]{}=\"'#\n0-9_.xe,")),
                    3 => b.truncate(k),
                    _ => {
                        let e = (k + rng.below(12)).min(b.len());
                        let piece = b[k..e].to_vec();
                        b.splice(k..k, piece);
                    }
                }
            }
            FCase::File(b, None, false)
        }
        _ => FCase::File(doc.into_bytes(), Some(c), false),
    }
}

const RULE: &str = "all combinations of small field values (129,888 configurations) and random larger ones, each validated, built in both ways and proposed as reconfiguration; random TOML documents with omitted fields, alternative notations, wrong types and random byte damage, plus missing files and directories; non-trivial: the configuration is valid, or invalid in exactly one respect, or the document is damaged; distinct by the hash of the case";

fn nontrivial(c: &FCase) -> bool {
    match c {
        FCase::Direct(c) => c.valid() || c.cluster_valid() != c.server_valid(),
        FCase::File(..) => true,
        _ => false,
    }
}

thread_local! {
    static DIR: Scratch = Scratch::new();
}

pub fn check(env: &Env) -> Option<String> {
    let random = (if env.thorough() { 12_000_000 } else { 500_000 }) * crate::checks::env_scale();
    let budget = Duration::from_secs(if env.thorough() { 840 } else { 240 });
    let idh = hash_str("C17");
    let r = parallel(SMALL + random + 2, budget, |i| {
        let mut rng = Rng::new(env.seed ^ idh.rotate_left(17) ^ (i as u64).wrapping_mul(0xD1342543DE82EF95));
        let mut st: BTreeMap<&'static str, u64> = BTreeMap::new();
        let c = match i {
            0 => FCase::Missing,
            1 => FCase::Directory,
            _ if i - 2 < SMALL => FCase::Direct(small(i - 2).unwrap()),
            _ if rng.chance(1, 2) => FCase::Direct(gen_cc(&mut rng, false)),
            _ => gen_file(&mut rng),
        };
        match &c {
            FCase::Direct(x) if x.valid() => *st.entry("direct_valid").or_insert(0) += 1,
            FCase::Direct(_) => *st.entry("direct_invalid").or_insert(0) += 1,
            FCase::File(_, Some(x), _) if x.valid() => *st.entry("file_valid").or_insert(0) += 1,
            FCase::File(_, Some(_), _) => *st.entry("file_invalid").or_insert(0) += 1,
            FCase::File(..) => *st.entry("file_damaged").or_insert(0) += 1,
            _ => (),
        }
        let v = DIR.with(|d| run_fcase(&c, d));
        let nt = nontrivial(&c);
        Outcome {
            hash: hash_str(&format!("{:?}", c)),
            nontrivial: nt,
            evals: 1,
            sample: if i > SMALL && i < SMALL + 20 {
                Some(match &c {
                    FCase::File(b, d, _) => json!({"file": String::from_utf8_lossy(b), "denotes": format!("{:?}", d)}),
                    c => json!(format!("{:?}", c)),
                })
            } else {
                None
            },
            replay: v.as_ref().map(|_| serde_json::to_value(&c).unwrap()),
            stats: st,
            violation: v,
        }
    });
    finish_custom(env, "C17", "config", RULE, r, &["server ids and buffer sizes small enough to allocate per-server tables and buffers", "files are read from a local file system"], |c: FCase| {
        let dir = Scratch::new();
        let tag = run_fcase(&c, &dir).map(|v| v.tag);
        let mut best = c;
        let same = |c: &FCase| run_fcase(c, &dir).map(|v| v.tag) == tag;
        match best.clone() {
            FCase::Direct(mut x) => {
                let plain = CC { config_id: 1, nodes: vec![1, 2, 3], pid: 1, ..CC::default_server() };
                macro_rules! simpler {
                    ($($f:ident),*) => {$(
                        let mut y = x.clone();
                        y.$f = plain.$f.clone();
                        if same(&FCase::Direct(y.clone())) { x = y; }
                    )*};
                }
                simpler!(config_id, nodes, flex, pid, elect, resend, buffer, batch, flush, prio);
                best = FCase::Direct(x);
            }
            FCase::File(b, None, f) => {
                let small = shrink_vec(&b, Duration::from_secs(10), &|b| same(&FCase::File(b.to_vec(), None, f)));
                best = FCase::File(small, None, f);
            }
            _ => (),
        }
        let v = run_fcase(&best, &dir);
        (serde_json::to_value(&best).unwrap(), v)
    })
}

pub fn replay(data: serde_json::Value) -> Option<Violation> {
    let c: FCase = serde_json::from_value(data).expect("case");
    run_fcase(&c, &Scratch::new())
}
