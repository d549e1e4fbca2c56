//! C26: logging observes only. The same histories run in this program (built with logging, every record formatted) and
//! in the plain one (built without) and must leave the same traces; and log files get every record.
use crate::checks::ASSUME;
use crate::gen::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sim::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::process::Command;
use std::time::Duration;

pub const TAGS: &[&str] = &["panic"];

const RULE: &str = "random histories (as for agreement) executed by two programs, one built with the logging feature and formatting every record, one without; compared are all outgoing messages, decided and compacted indexes, promised ballots, operation results and event counts; and small clusters logging to generated file paths, whose files must hold every record a custom logger sees in the same scenario; non-trivial: at least two entries decided and log synchronisation took place; distinct by the hash of configuration and operations";

fn profs() -> Vec<(u32, Prof)> {
    let b = BASE;
    use EpiSel as E;
    vec![
        (4, Prof { name: "mixed", epi: &[E::None, E::Heal], ..b.clone() }),
        (2, Prof { name: "compaction", compact: 10, mac: 24, ..b.clone() }),
        (2, Prof { name: "reconf", reconf: 8, badreconf: 4, mac: 24, ..b.clone() }),
        (2, Prof { name: "lossy", soft: true, drop: 10, mac: 24, ..b.clone() }),
        (2, Prof { name: "late", late: true, mac: 30, elect: 10, crash: 6, ..b.clone() }),
    ]
}

fn gen_one(seed: u64, i: usize) -> (Case, Stats) {
    let mut rng = Rng::new(seed ^ hash_str("C26").rotate_left(17) ^ (i as u64).wrapping_mul(0xD1342543DE82EF95));
    let profs = profs();
    let w: Vec<u32> = profs.iter().map(|p| p.0).collect();
    let p = &profs[rng.weighted(&w)].1;
    let (c, _, st) = gen_case(p, &mut rng, TAGS, 1.0);
    (c, st)
}

fn digest(c: &Case) -> (u64, bool) {
    let (v, st, t) = run_case(c, TAGS, true);
    (t ^ hash_str(&format!("{:?} {:?}", st.c, v)), v.is_some())
}

/// `vp traces SEED N` prints one digest per generated case, `vp traces FILE` the one of a case
pub fn traces(args: &[String]) -> i32 {
    if args.len() == 1 {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[0]).expect("file")).expect("case");
        let c: Case = serde_json::from_value(v).expect("case");
        println!("{}", digest(&c).0);
        return 0;
    }
    let (seed, n): (u64, usize) = (args[0].parse().expect("seed"), args[1].parse().expect("count"));
    let out = std::sync::Mutex::new(BTreeMap::new());
    parallel(n, Duration::from_secs(600), |i| {
        let (c, st) = gen_one(seed, i);
        let d = digest(&c).0 ^ hash_str(&format!("{:?}", c));
        out.lock().unwrap().insert(i, d);
        Outcome { violation: None, stats: st.c, nontrivial: false, hash: 0, evals: 1, sample: None, replay: None }
    });
    let o = out.into_inner().unwrap();
    println!("{}", serde_json::to_string(&o).unwrap());
    0
}

#[cfg(feature = "ui")]
mod with_logging {
    use super::*;
    use crate::entry::{TestEntry, V};
    use omnipaxos::messages::Message;
    use omnipaxos::{ClusterConfig, OmniPaxos, OmniPaxosConfig, ServerConfig};
    use omnipaxos_storage::memory_storage::MemoryStorage;
    use slog::{Drain, OwnedKVList, Record};
    use std::sync::{Arc, Mutex};

    struct Capture(Arc<Mutex<Vec<String>>>);
    impl Drain for Capture {
        type Ok = ();
        type Err = slog::Never;
        fn log(&self, r: &Record, _: &OwnedKVList) -> Result<(), slog::Never> {
            self.0.lock().unwrap().push(format!("{}", r.msg()));
            Ok(())
        }
    }

    fn plain(args: &[String]) -> Result<String, String> {
        let bin = std::env::var("VP_PLAIN").map_err(|_| "VP_PLAIN is not set".to_string())?;
        let o = Command::new(bin).arg("traces").args(args).output().map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(format!("the program without logging ended with {}", o.status));
        }
        Ok(String::from_utf8_lossy(&o.stdout).trim().to_string())
    }

    pub fn differs(c: &Case) -> Option<Violation> {
        let s = crate::scratch::Scratch::new();
        std::fs::write(s.path("case"), case_value(c).to_string()).expect("write");
        let p = plain(&[s.path("case")]);
        let (d, _) = digest(c);
        match p {
            Ok(x) if x == d.to_string() => None,
            Ok(_) => Some(Violation { tag: "logging".into(), msg: "the history behaves differently in a server built with logging".into(), step: 0 }),
            Err(m) => Some(Violation { tag: "logging".into(), msg: m, step: 0 }),
        }
    }

    /// a small cluster: elects, appends, decides; each server with its own logger
    fn scenario(seed: u64, pause: u64, conf: &dyn Fn(u64) -> ServerConfig) {
        let mut rng = Rng::new(seed);
        let n = rng.range(2, 4) as u64;
        let ids: Vec<u64> = (1..=n).collect();
        let mut ops: Vec<OmniPaxos<V, MemoryStorage<V>>> = ids
            .iter()
            .map(|p| {
                OmniPaxosConfig { cluster_config: ClusterConfig { configuration_id: 1, nodes: ids.clone(), flexible_quorum: None }, server_config: conf(*p) }
                    .build(MemoryStorage::default())
                    .expect("build")
            })
            .collect();
        let mut buf: Vec<Message<V>> = vec![];
        for r in 0..rng.range(5, 40) {
            if rng.chance(1, 8) {
                let k = rng.below(ops.len());
                ops[k].append(V::make(r as u64 + 1, 0)).expect("append");
            }
            let skip = if rng.chance(1, 6) { rng.below(ops.len() + 1) } else { ops.len() };
            for o in ops.iter_mut() {
                o.tick();
            }
            for (k, o) in ops.iter_mut().enumerate() {
                if k != skip {
                    o.take_outgoing_messages(&mut buf);
                }
            }
            for m in buf.drain(..) {
                ops[m.get_receiver() as usize - 1].handle_incoming(m);
            }
            // the asynchronous logger drops what its queue cannot take: let it catch up
            std::thread::sleep(Duration::from_millis(pause));
        }
    }

    fn paths(dir: &str, seed: u64, pid: u64) -> String {
        let mut rng = Rng::new(seed ^ pid.wrapping_mul(77));
        let mut p = dir.to_string();
        for d in 0..rng.below(4) {
            p += &format!("/d{}{}", d, rng.below(2));
        }
        format!("{}/server {}.log", p, pid)
    }

    /// `vp logfiles DIR SEED PAUSE`: leaves the log files of a scenario below DIR
    pub fn logfiles(args: &[String]) -> i32 {
        let (dir, seed) = (args[0].clone(), args[1].parse::<u64>().expect("seed"));
        let pause = args[2].parse().expect("pause");
        scenario(seed, pause, &|p| ServerConfig { pid: p, logger_file_path: Some(paths(&dir, seed, p)), ..Default::default() });
        0
    }

    /// (on a busy machine the asynchronous logger may still drop records: a failure has to repeat at a slow pace)
    pub fn file_case(seed: u64) -> (Option<Violation>, u64) {
        for pause in [1, 30] {
            let r = file_case_at(seed, pause);
            if r.0.is_none() {
                return r;
            }
        }
        file_case_at(seed, 150)
    }

    fn file_case_at(seed: u64, pause: u64) -> (Option<Violation>, u64) {
        let caps: Vec<Arc<Mutex<Vec<String>>>> = (0..5).map(|_| Arc::default()).collect();
        scenario(seed, 0, &|p| ServerConfig {
            pid: p,
            custom_logger: Some(slog::Logger::root(Capture(caps[p as usize].clone()).fuse(), slog::o!())),
            ..Default::default()
        });
        let s = crate::scratch::Scratch::new();
        let dir = s.path("logs");
        let v = |msg: String| Some(Violation { tag: "logging".into(), msg, step: 0 });
        // files of an earlier run of the servers are replaced
        let stale = "a line of an earlier run\n".repeat(5000);
        for p in 1..=5u64 {
            if (seed ^ p) % 3 == 0 {
                let path = paths(&dir, seed, p);
                std::fs::create_dir_all(std::path::Path::new(&path).parent().unwrap()).expect("create");
                std::fs::write(&path, &stale).expect("write");
            }
        }
        let o = Command::new(std::env::current_exe().expect("exe")).args(["logfiles", &dir, &seed.to_string(), &pause.to_string()]).output();
        match o {
            Ok(o) if o.status.success() => (),
            o => return (v(format!("a server logging to a file failed: {:?}", o.map(|o| String::from_utf8_lossy(&o.stderr).lines().filter(|l| l.contains("panicked")).collect::<String>()))), 0),
        }
        let mut n = 0;
        for (p, c) in caps.iter().enumerate() {
            let c = c.lock().unwrap();
            if c.is_empty() {
                continue;
            }
            let path = paths(&dir, seed, p as u64);
            let txt = match std::fs::read(&path) {
                Ok(t) => String::from_utf8_lossy(&t).to_string(),
                Err(e) => return (v(format!("the log file {:?} cannot be read: {}", path, e)), n),
            };
            if txt.contains("a line of an earlier run") {
                return (v(format!("the log file of server {} still holds lines of an earlier run", p)), n);
            }
            let mut at = 0;
            for m in c.iter() {
                n += 1;
                match txt[at..].find(m.as_str()) {
                    Some(i) => at += i + m.len(),
                    None => return (v(format!("server {}: the record {:?} is not in its log file (or not in order)", p, m)), n),
                }
            }
        }
        (None, n)
    }

    pub fn check(env: &Env) -> Option<String> {
        let n = (if env.thorough() { 900_000 } else { 80_000 }) * crate::checks::env_scale();
        let mut kid = None;
        let want: Result<BTreeMap<usize, u64>, String> = std::thread::scope(|s| {
            let h = s.spawn(|| plain(&[env.seed.to_string(), n.to_string()]).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())));
            // the file cases meanwhile
            let files = if env.thorough() { 2000 } else { 150 };
            let r = parallel(files, Duration::from_secs(300), |i| {
                let seed = env.seed.wrapping_mul(1000003).wrapping_add(i as u64);
                let (v, recs) = file_case(seed);
                let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
                stats.insert("log records found", recs);
                stats.insert("log file cases", 1);
                Outcome { nontrivial: false, hash: 0, evals: 1, sample: None, replay: v.as_ref().map(|_| json!({ "file_seed": seed })), violation: v, stats }
            });
            kid = Some(r);
            h.join().unwrap()
        });
        let fr = kid.unwrap();
        let mut r = match want {
            Err(m) => {
                let mut r = fr;
                r.failure = Some((0, Violation { tag: "logging".into(), msg: m, step: 0 }, Value::Null));
                r
            }
            Ok(want) => {
                let mut r = parallel(n, Duration::from_secs(if env.thorough() { 500 } else { 200 }), |i| {
                    let (c, st) = gen_one(env.seed, i);
                    let (d, _) = digest(&c);
                    let same = want.get(&i).map(|w| *w == d ^ hash_str(&format!("{:?}", c))).unwrap_or(true);
                    let nt = st.get("decided") >= 2 && st.get("msg_acceptsync") >= 2;
                    let v = if same { None } else { Some(Violation { tag: "logging".into(), msg: "the history behaves differently in a server built with logging".into(), step: 0 }) };
                    Outcome {
                        hash: hash_str(&format!("{:?}", c)),
                        nontrivial: nt,
                        evals: 2,
                        sample: if i < 40 && nt { Some(case_sample(&c)) } else { None },
                        replay: v.as_ref().map(|_| case_value(&c)),
                        stats: st.c,
                        violation: v,
                    }
                });
                for (k, v) in fr.stats {
                    *r.stats.entry(k).or_insert(0) += v;
                }
                if r.failure.is_none() {
                    r.failure = fr.failure;
                }
                r
            }
        };
        r.evaluations += 0;
        finish_custom(env, "C26", "logging", RULE, r, ASSUME, |c: Case| {
            if differs(&c).is_none() {
                return (case_value(&c), None);
            }
            let small = shrink(&c, Duration::from_secs(30), &|c| differs(c).is_some());
            let v = differs(&small);
            (case_value(&small), v)
        })
    }

    pub fn replay(data: Value) -> Option<Violation> {
        match data["file_seed"].as_u64() {
            Some(s) => file_case(s).0,
            None => differs(&serde_json::from_value(data).expect("case")),
        }
    }

    /// formats every record, keeps nothing
    pub fn sink() -> slog::Logger {
        struct Sink;
        impl Drain for Sink {
            type Ok = ();
            type Err = slog::Never;
            fn log(&self, r: &Record, _: &OwnedKVList) -> Result<(), slog::Never> {
                std::hint::black_box(format!("{}", r.msg()));
                Ok(())
            }
        }
        slog::Logger::root(Sink.fuse(), slog::o!())
    }
}
#[cfg(feature = "ui")]
pub use with_logging::*;
