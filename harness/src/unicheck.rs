//! C18: UniCache coding is lossless (field caches of both policies and derived caches).
use crate::entry::{TestEntry, S, V};
use crate::rng::Rng;
use crate::runner::*;
use crate::sim::{guarded, Violation};
use omnipaxos::storage::Entry;
use omnipaxos::unicache::lfu_cache::LFUniCache;
use omnipaxos::unicache::lru_cache::LRUniCache;
use omnipaxos::unicache::{FieldCache, MaybeEncoded, UniCache};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum UOp {
    /// encode the value with this number and decode it everywhere
    Val(u32),
    /// a new decoder, cloned from the encoder (0 directly, 1 via bincode, 2 via json)
    Clone(u8),
    /// decoders with this index and above leave
    Leave(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct UCase {
    /// 0..=5 field caches (policy x types), 6 derived V, 7 derived S
    pub what: u8,
    pub size: usize,
    /// how the encoded values travel: 0 directly, 1 bincode, 2 json
    pub wire: u8,
    pub ops: Vec<UOp>,
}

fn wire<X: Serialize + DeserializeOwned + Clone>(w: u8, x: &X) -> Result<X, String> {
    match w {
        1 => bincode::deserialize(&bincode::serialize(x).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        2 => serde_json::from_str(&serde_json::to_string(x).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        _ => Ok(x.clone()),
    }
}

trait Coder: Sized {
    type Item: Clone + PartialEq + Debug;
    type Enc: Clone + Serialize + DeserializeOwned + Debug;
    fn fresh(size: usize) -> Self;
    fn item(x: u32) -> Self::Item;
    fn enc(&mut self, i: &Self::Item) -> Self::Enc;
    fn dec(&mut self, e: Self::Enc) -> Self::Item;
    fn copy(&self, w: u8) -> Result<Self, String>;
    fn compressed(e: &Self::Enc) -> bool;
}

struct F<C, E, D>(C, std::marker::PhantomData<(E, D)>);

trait Mk: Clone + PartialEq + Debug {
    fn mk(x: u32) -> Self;
}
impl Mk for String {
    fn mk(x: u32) -> Self {
        if x == 0 {
            String::new()
        } else {
            format!("v{}", x)
        }
    }
}
impl Mk for u32 {
    fn mk(x: u32) -> Self {
        x
    }
}

macro_rules! field {
    ($cache:ident) => {
        impl<E, D> Coder for F<$cache<E, D>, E, D>
        where
            E: Mk + std::hash::Hash + Eq + Serialize + for<'a> Deserialize<'a>,
            D: Debug
                + Default
                + Clone
                + num_like::One
                + std::ops::Add<Output = D>
                + std::hash::Hash
                + Eq
                + Serialize
                + for<'a> Deserialize<'a>,
        {
            type Item = E;
            type Enc = MaybeEncoded<E, D>;
            fn fresh(size: usize) -> Self {
                F($cache::new(size), Default::default())
            }
            fn item(x: u32) -> E {
                E::mk(x)
            }
            fn enc(&mut self, i: &E) -> Self::Enc {
                self.0.try_encode(i)
            }
            fn dec(&mut self, e: Self::Enc) -> E {
                self.0.decode(e)
            }
            fn copy(&self, w: u8) -> Result<Self, String> {
                let c = self.0.clone();
                Ok(F(wire_cache(w, c)?, Default::default()))
            }
            fn compressed(e: &Self::Enc) -> bool {
                matches!(e, MaybeEncoded::Encoded(_))
            }
        }
    };
}

/// `num_traits::One` is not a dependency of this crate; the traits of the library imply it
mod num_like {
    pub use num_traits::One;
}

field!(LRUniCache);
field!(LFUniCache);

fn wire_cache<X: Serialize + DeserializeOwned>(w: u8, x: X) -> Result<X, String> {
    match w {
        1 => bincode::deserialize(&bincode::serialize(&x).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        2 => serde_json::from_str(&serde_json::to_string(&x).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        _ => Ok(x),
    }
}

struct Derived<T: Entry>(T::UniCache);
impl<T> Coder for Derived<T>
where
    T: TestEntry,
    T::UniCache: UniCache<T = T> + Serialize + DeserializeOwned,
    T::EncodeResult: Serialize + DeserializeOwned + Clone + Debug,
{
    type Item = T;
    type Enc = T::EncodeResult;
    fn fresh(_: usize) -> Self {
        Derived(T::UniCache::new())
    }
    fn item(x: u32) -> T {
        T::make(x as u64, x)
    }
    fn enc(&mut self, i: &T) -> Self::Enc {
        self.0.try_encode(i)
    }
    fn dec(&mut self, e: Self::Enc) -> T {
        self.0.decode(e)
    }
    fn copy(&self, w: u8) -> Result<Self, String> {
        Ok(Derived(wire_cache(w, self.0.clone())?))
    }
    fn compressed(_: &Self::Enc) -> bool {
        false
    }
}

fn run_c<C: Coder>(c: &UCase, st: &mut BTreeMap<&'static str, u64>) -> Option<Violation> {
    let mut step = 0;
    let mut inc = |k: &'static str| *st.entry(k).or_insert(0) += 1;
    let r = guarded(|| -> Result<(), String> {
        let mut enc = C::fresh(c.size);
        let mut decs = vec![("made at the start".to_string(), C::fresh(c.size))];
        for (i, op) in c.ops.iter().enumerate() {
            step = i;
            match op {
                UOp::Val(x) => {
                    let item = C::item(*x);
                    let e = enc.enc(&item);
                    if C::compressed(&e) {
                        inc("compressed");
                    }
                    for (name, d) in decs.iter_mut() {
                        let e = wire(c.wire, &e).map_err(|m| format!("encoded value {:?} does not survive serialisation: {}", e, m))?;
                        let shown = format!("{:?}", e);
                        let got = d.dec(e);
                        inc("decoded");
                        if got != item {
                            return Err(format!("decoder {} decodes {} to {:?}, encoded was {:?}", name, shown, got, item));
                        }
                    }
                }
                UOp::Clone(w) => {
                    inc("clones");
                    let d = enc.copy(*w).map_err(|m| format!("cloned cache does not survive serialisation ({}): {}", w, m))?;
                    if decs.len() < 6 {
                        decs.push((format!("cloned at step {} (format {})", i, w), d));
                    } else {
                        decs[5] = (format!("cloned at step {} (format {})", i, w), d);
                    }
                }
                UOp::Leave(k) => decs.truncate((*k).max(1)),
            }
        }
        Ok(())
    });
    let (tag, msg) = match r {
        Ok(Ok(())) => return None,
        Ok(Err(m)) => ("unicache", m),
        Err(m) => ("panic", format!("coding panicked: {}", m)),
    };
    Some(Violation { tag: tag.into(), msg, step })
}

pub fn run_ucase(c: &UCase, st: &mut BTreeMap<&'static str, u64>) -> Option<Violation> {
    match c.what {
        0 => run_c::<F<LRUniCache<String, u8>, String, u8>>(c, st),
        1 => run_c::<F<LFUniCache<String, u8>, String, u8>>(c, st),
        2 => run_c::<F<LRUniCache<u32, u64>, u32, u64>>(c, st),
        3 => run_c::<F<LFUniCache<u32, u64>, u32, u64>>(c, st),
        4 => run_c::<F<LRUniCache<u32, u16>, u32, u16>>(c, st),
        5 => run_c::<F<LFUniCache<String, u32>, String, u32>>(c, st),
        6 => run_c::<Derived<V>>(c, st),
        _ => run_c::<Derived<S>>(c, st),
    }
}

fn gen(rng: &mut Rng) -> UCase {
    let what = rng.below(8) as u8;
    let big = rng.below(200) == 0;
    let size = if big { 255 } else { 1 + rng.below(6) as usize };
    let alphabet = if big { 300 } else { [1, 2, 3, 5, 8, 12, 20][rng.below(7) as usize] } + rng.below(4) as u32;
    let len = if big { 700 } else { 1 + rng.below(60) as usize };
    let clone_rate = [0, 3, 10, 30][rng.below(4) as usize];
    let skew = rng.below(3);
    let ops = (0..len)
        .map(|_| {
            let r = rng.below(100);
            if r < clone_rate {
                UOp::Clone(rng.below(3) as u8)
            } else if r < clone_rate + 2 {
                UOp::Leave(rng.below(5) as usize)
            } else {
                let mut x = rng.below(alphabet as usize) as u32;
                for _ in 0..skew {
                    x = x.min(rng.below(alphabet as usize) as u32);
                }
                UOp::Val(x)
            }
        })
        .collect();
    UCase { what, size, wire: rng.below(3) as u8, ops }
}

const RULE: &str = "random streams of values with skewed and uniform repetition, over both cache policies, several field and code types, sizes 1 to 6 and 255, derived whole-entry caches; decoders join as clones of the encoder at random points, directly or through bincode or json, and codes travel directly or serialised; non-trivial: more distinct values than the cache holds, or a decoder cloned after values were encoded; distinct by the hash of the case";

pub fn check(env: &Env) -> Option<String> {
    let cases = (if env.thorough() { 20_000_000 } else { 1_000_000 }) * crate::checks::env_scale();
    let budget = Duration::from_secs(if env.thorough() { 840 } else { 240 });
    let idh = hash_str("C18");
    let r = parallel(cases, budget, |i| {
        let mut rng = Rng::new(env.seed ^ idh.rotate_left(17) ^ (i as u64).wrapping_mul(0xD1342543DE82EF95));
        let c = gen(&mut rng);
        let mut st = BTreeMap::new();
        let v = run_ucase(&c, &mut st);
        let mut vals: Vec<u32> = c.ops.iter().filter_map(|o| if let UOp::Val(x) = o { Some(*x) } else { None }).collect();
        vals.sort();
        vals.dedup();
        let nt = (c.what < 6 && vals.len() > c.size)
            || c.what >= 6 && vals.len() > 4
            || c.ops.iter().position(|o| matches!(o, UOp::Clone(_))).map(|p| p > 0).unwrap_or(false);
        Outcome {
            hash: hash_str(&format!("{:?}", c)),
            nontrivial: nt,
            evals: 1,
            sample: if i < 20 && nt { Some(json!(format!("{:?}", c))) } else { None },
            replay: v.as_ref().map(|_| serde_json::to_value(&c).unwrap()),
            stats: st,
            violation: v,
        }
    });
    finish_custom(env, "C18", "unicache", RULE, r, &["codes reach a decoder in the order they were produced, none left out", "field values are strings and integers (usable as json object keys)"], |c: UCase| {
        let tag = run_ucase(&c, &mut Default::default()).map(|v| v.tag);
        let mut best = c.clone();
        best.ops = shrink_vec(&c.ops, Duration::from_secs(20), &|ops| {
            let mut d = c.clone();
            d.ops = ops.to_vec();
            run_ucase(&d, &mut Default::default()).map(|v| v.tag) == tag
        });
        let v = run_ucase(&best, &mut Default::default());
        (serde_json::to_value(&best).unwrap(), v)
    })
}
