//! Support code of the generated crate that checks derived entry types (see src/macrocheck.rs).
use omnipaxos::messages::Message;
use omnipaxos::storage::{Entry, Snapshot};
use omnipaxos::util::LogEntry;
use omnipaxos::{ClusterConfig, OmniPaxos, OmniPaxosConfig, ServerConfig};
use omnipaxos_storage::memory_storage::MemoryStorage;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;

pub trait Mk {
    fn mk(x: u32) -> Self;
}
macro_rules! ints { ($($t:ty),*) => { $(impl Mk for $t { fn mk(x: u32) -> Self { x as $t } })* } }
ints!(u8, u16, u32, u64, usize, i16, i64, u128);
impl Mk for bool {
    fn mk(x: u32) -> Self {
        x % 2 == 1
    }
}
impl Mk for char {
    fn mk(x: u32) -> Self {
        char::from_u32(97 + x).unwrap()
    }
}
impl Mk for () {
    fn mk(_: u32) -> Self {}
}
impl Mk for String {
    fn mk(x: u32) -> Self {
        if x == 0 { String::new() } else { format!("v{}", x) }
    }
}
impl<T: Mk> Mk for Option<T> {
    fn mk(x: u32) -> Self {
        if x == 0 { None } else { Some(T::mk(x)) }
    }
}
impl<T: Mk> Mk for Vec<T> {
    fn mk(x: u32) -> Self {
        (0..x % 4).map(|i| T::mk(x + i)).collect()
    }
}
impl<T: Mk, U: Mk> Mk for (T, U) {
    fn mk(x: u32) -> Self {
        (T::mk(x), U::mk(x / 2))
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Inner {
    pub p: u32,
    pub q: String,
}
impl Mk for Inner {
    fn mk(x: u32) -> Self {
        Inner { p: x, q: String::mk(x / 3) }
    }
}

/// a snapshot that keeps everything applied, in order
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Keep<T>(pub Vec<T>);
impl<T: Entry + Clone + Debug> Snapshot<T> for Keep<T> {
    fn create(entries: &[T]) -> Self {
        Keep(entries.to_vec())
    }
    fn merge(&mut self, delta: Self) {
        self.0.extend(delta.0);
    }
    fn use_snapshots() -> bool {
        true
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Val(Vec<u32>),
    Clone(bool),
}

pub fn wire<X: Serialize + DeserializeOwned>(x: &X) -> X {
    bincode::deserialize(&bincode::serialize(x).expect("serialise")).expect("deserialise")
}

/// the snapshot type of an entry type as seen by the cluster run
pub trait SnapView<T> {
    fn view(&self) -> Option<Vec<T>>;
}
impl<T> SnapView<T> for omnipaxos::storage::NoSnapshot {
    fn view(&self) -> Option<Vec<T>> {
        None
    }
}
impl<T: Clone> SnapView<T> for Keep<T> {
    fn view(&self) -> Option<Vec<T>> {
        Some(self.0.clone())
    }
}

/// three servers replicate the values; returns what differs
pub fn cluster<T>(vals: &[T], snap: bool) -> Result<(), String>
where
    T: Entry + Clone + Debug + PartialEq + Serialize + DeserializeOwned + 'static,
    T::Snapshot: Serialize + DeserializeOwned + SnapView<T>,
    Message<T>: Serialize + DeserializeOwned,
{
    let ids = [1u64, 2, 3];
    let mut ops: Vec<OmniPaxos<T, MemoryStorage<T>>> = ids
        .iter()
        .map(|p| {
            OmniPaxosConfig {
                cluster_config: ClusterConfig { configuration_id: 1, nodes: ids.to_vec(), flexible_quorum: None },
                server_config: ServerConfig { pid: *p, batch_size: 1 + (vals.len() % 3), ..Default::default() },
            }
            .build(MemoryStorage::default())
            .expect("build")
        })
        .collect();
    let mut buf: Vec<Message<T>> = vec![];
    fn pump<T>(ops: &mut [OmniPaxos<T, MemoryStorage<T>>], buf: &mut Vec<Message<T>>)
    where
        T: Entry + Clone + Debug + PartialEq + Serialize + DeserializeOwned + 'static,
        Message<T>: Serialize + DeserializeOwned,
    {
        loop {
            for o in ops.iter_mut() {
                o.take_outgoing_messages(buf);
            }
            if buf.is_empty() {
                break;
            }
            for m in buf.drain(..) {
                let k = m.get_receiver() as usize - 1;
                ops[k].handle_incoming(wire(&m));
            }
        }
    }
    let round = |ops: &mut Vec<OmniPaxos<T, MemoryStorage<T>>>, buf: &mut Vec<Message<T>>| {
        for o in ops.iter_mut() {
            o.tick();
        }
        pump(ops, buf);
    };
    for _ in 0..60 {
        round(&mut ops, &mut buf);
    }
    let mut sent = vec![];
    for (i, v) in vals.iter().enumerate() {
        // all at one server: the order is known
        ops[vals.len() % 3].append(v.clone()).map_err(|e| format!("append failed: {:?}", e))?;
        sent.push(v.clone());
        if i % 4 == 3 {
            round(&mut ops, &mut buf);
        }
    }
    for _ in 0..400 {
        round(&mut ops, &mut buf);
    }
    for o in ops.iter() {
        if o.get_decided_idx() != sent.len() {
            return Err(format!("{} of {} entries decided", o.get_decided_idx(), sent.len()));
        }
        let got = o.read_decided_suffix(0).unwrap_or_default();
        for (k, e) in got.iter().enumerate() {
            match e {
                LogEntry::Decided(x) if *x == sent[k] => (),
                e => return Err(format!("entry {} is {:?}, appended was {:?}", k, e, sent[k])),
            }
        }
    }
    if <T::Snapshot as Snapshot<T>>::use_snapshots() != snap {
        return Err(format!("snapshots are {}used", if snap { "not " } else { "" }));
    }
    if snap && !sent.is_empty() {
        for o in ops.iter_mut() {
            o.snapshot(None, true).map_err(|e| format!("snapshot failed: {:?}", e))?;
            match o.read(0) {
                Some(LogEntry::Snapshotted(s)) if s.snapshot.view() == Some(sent.clone()) => (),
                e => return Err(format!("snapshot of {:?} reads {:?}", sent, e)),
            }
        }
    }
    Ok(())
}

pub struct Rnd(pub u64);
impl Rnd {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}

pub fn gen(r: &mut Rnd, fields: usize) -> Vec<Op> {
    // long streams fill caches of the default size
    let long = r.below(60) == 0;
    let alpha: Vec<u64> = (0..fields).map(|_| if long { [20, 127, 255, 256, 300][r.below(5) as usize] } else { [1, 2, 3, 5, 9, 20][r.below(6) as usize] }).collect();
    let len = if long { 600 + r.below(800) } else { 1 + r.below(40) };
    (0..len)
        .map(|_| {
            if r.below(if long { 200 } else { 12 }) == 0 {
                Op::Clone(r.below(2) == 0)
            } else {
                Op::Val(alpha.iter().map(|a| if long { r.below(*a) } else { r.below(*a).min(r.below(*a)) } as u32).collect())
            }
        })
        .collect()
}

pub fn guarded(f: impl FnOnce() -> Result<u64, String>) -> Result<u64, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!(
            "panicked: {}",
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}

pub struct Ty {
    pub name: &'static str,
    pub fields: usize,
    /// the number of coded fields, or what went wrong
    pub run: fn(&[Op]) -> Result<u64, String>,
}

pub fn main_with(types: &[Ty]) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "case" {
        let ops: Vec<Op> = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        let r = guarded(|| (types[0].run)(&ops));
        println!("{}", serde_json::json!({ "failure": r.err() }));
        return;
    }
    let seed: u64 = a[1].parse().unwrap();
    let cases: u64 = a[2].parse().unwrap();
    let (mut n, mut coded, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut seen = std::collections::HashSet::new();
    for (k, t) in types.iter().enumerate() {
        for c in 0..cases {
            let mut r = Rnd(seed ^ (k as u64).wrapping_mul(0xD1342543DE82EF95) ^ c.wrapping_mul(0xA0761D6478BD642F));
            let ops = gen(&mut r, t.fields);
            n += 1;
            match guarded(|| (t.run)(&ops)) {
                Ok(x) => {
                    coded += x;
                    if (x > 0 || ops.len() > 3) && seen.insert(format!("{} {:?}", t.name, ops)) {
                        nontrivial += 1;
                    }
                }
                Err(_) => {
                    let mut best = ops.clone();
                    let mut chunk = best.len() / 2 + 1;
                    let mut again = true;
                    while again || chunk > 1 {
                        if !again || chunk > 1 {
                            chunk = (chunk / 2).max(1);
                        }
                        again = false;
                        let mut i = 0;
                        while i < best.len() {
                            let mut d = best.clone();
                            d.drain(i..(i + chunk).min(best.len()));
                            if guarded(|| (t.run)(&d)).is_err() {
                                best = d;
                                again = true;
                            } else {
                                i += chunk;
                            }
                        }
                    }
                    let e = guarded(|| (t.run)(&best)).err();
                    println!("{}", serde_json::json!({"cases": n, "coded": coded, "nontrivial": nontrivial, "failure": {"type": k, "name": t.name, "ops": best, "msg": e}}));
                    return;
                }
            }
        }
    }
    println!("{}", serde_json::json!({"cases": n, "coded": coded, "nontrivial": nontrivial, "failure": null}));
}
