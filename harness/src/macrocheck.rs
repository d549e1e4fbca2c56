//! C24: derived entry types. Type definitions are generated, compiled against the macros of the working tree, and
//! the derived code is run on generated streams of values.
use crate::rng::Rng;
use crate::runner::*;
use crate::sim::Violation;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;

const REPO: &str = "/repo/";
const SUPPORT: &str = include_str!("../macrokit/support.rs");

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Attr {
    pub enc: Option<String>,
    pub size: Option<usize>,
    pub cache: Option<String>,
    /// rotation of the order in which the attributes are written
    pub rot: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Field {
    pub name: String,
    pub ty: String,
    pub attr: Option<Attr>,
    /// other attributes: documentation, serde's, lints, before or after
    #[serde(default)]
    pub deco: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TySpec {
    pub name: String,
    /// with UniCache, or with the plain derive macro
    pub uni: bool,
    /// plain only: 0 named fields, 1 tuple struct, 2 enum
    pub shape: u8,
    pub snap: bool,
    pub fields: Vec<Field>,
    #[serde(default)]
    pub deco: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MCase {
    pub types: Vec<TySpec>,
    pub ops: Value,
}

const TYPES: [&str; 16] = [
    "u8", "u16", "u32", "u64", "usize", "i16", "i64", "u128", "bool", "char", "String", "Option<String>", "Vec<u8>", "(u32, String)", "Inner", "Option<(u8, bool)>",
];
const NAMES: [&str; 14] = ["id", "a", "b", "key", "value", "cache", "size", "first_name", "entry", "encoding", "r#type", "x1", "processed", "unicache"];

fn gen_ty(rng: &mut Rng, k: usize, uni: bool) -> TySpec {
    let n = if rng.chance(1, 8) { 8 } else { rng.range(1, 5) };
    let mut names: Vec<&str> = NAMES.to_vec();
    rng.shuffle(&mut names);
    let all = rng.below(4);
    let fields = (0..n)
        .map(|i| {
            let cached = uni && (all == 0 || (all != 1 && rng.chance(1, 2)));
            let attr = cached.then(|| Attr {
                enc: rng.chance(2, 3).then(|| rng.pick(&["u8", "u16", "u32", "u64", "usize"]).to_string()),
                size: rng.chance(2, 3).then(|| if rng.chance(1, 8) { rng.range(100, 255) } else { rng.range(1, 6) }),
                cache: rng.chance(1, 2).then(|| rng.pick(&["lru", "lfu"]).to_string()),
                rot: rng.below(3),
            });
            Field { name: names[i].to_string(), ty: rng.pick(&TYPES).to_string(), attr, deco: rng.below(12) }
        })
        .collect::<Vec<_>>();
    TySpec { name: format!("{}{}", rng.pick(&["T", "Entry", "KeyValue", "my_type"]), k), uni, shape: rng.below(3) as u8, snap: rng.chance(1, 3), fields, deco: rng.below(8) }
}

/// other attributes around one of the macros'
fn decorate(deco: usize, own: &str) -> String {
    let (a, b) = ("/** documented */ ", "#[allow(dead_code)] ");
    match deco {
        1 => format!("{}{}", a, own),
        2 => format!("{}{}", own, b),
        3 => format!("{}{}{}", b, own, a),
        4 => format!("{}{}{}", a, b, own),
        _ => own.to_string(),
    }
}

/// `#[unicache]` needs at least one attribute inside
fn attr_code(a: &Attr) -> String {
    let mut p = vec![];
    if let Some(e) = &a.enc {
        p.push(format!("encoding({})", e));
    }
    if let Some(s) = a.size {
        p.push(format!("size({})", s));
    }
    if let Some(c) = &a.cache {
        p.push(format!("cache({})", c));
    }
    if p.is_empty() {
        p.push("encoding(u8)".into());
    }
    let r = a.rot % p.len();
    p.rotate_left(r);
    format!("#[unicache({})] ", p.join(", "))
}

fn module(t: &TySpec, k: usize) -> String {
    let n = &t.name;
    let mut o = format!("#[allow(non_camel_case_types, unused)]\nmod m{} {{\n    use super::support::*;\n    use serde::{{Deserialize, Serialize}};\n", k);
    let snap = format!("    {}\n", decorate(t.deco, &if t.snap { format!("#[snapshot(Keep<{}>)]", n) } else { String::new() }));
    let vals = |f: &dyn Fn(usize) -> String| (0..t.fields.len()).map(f).collect::<Vec<_>>().join(", ");
    if !t.uni {
        o += "    use omnipaxos::macros::Entry;\n";
        o += "    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Entry)]\n";
        o += &snap;
        match t.shape {
            0 => {
                o += &format!("    pub struct {} {{ {} }}\n", n, vals(&|i| format!("{}pub {}: {}", decorate(t.fields[i].deco, ""), t.fields[i].name, t.fields[i].ty)));
                o += &format!("    fn make(v: &[u32]) -> {} {{ {} {{ {} }} }}\n", n, n, vals(&|i| format!("{}: Mk::mk(v[{}])", t.fields[i].name, i)));
            }
            1 => {
                o += &format!("    pub struct {}({});\n", n, vals(&|i| format!("pub {}", t.fields[i].ty)));
                o += &format!("    fn make(v: &[u32]) -> {} {{ {}({}) }}\n", n, n, vals(&|i| format!("Mk::mk(v[{}])", i)));
            }
            _ => {
                o += &format!("    pub enum {} {{ Unit, {} }}\n", n, vals(&|i| format!("F{}({})", i, t.fields[i].ty)));
                o += &format!(
                    "    fn make(v: &[u32]) -> {} {{ match v[0] as usize % {} {{ {}, _ => {}::Unit }} }}\n",
                    n,
                    t.fields.len() + 1,
                    vals(&|i| format!("{} => {}::F{}(Mk::mk(v[{}]))", i, n, i, i)),
                    n
                );
            }
        }
        o += "    pub fn run(ops: &[Op]) -> Result<u64, String> {\n";
    } else {
        o += "    use omnipaxos::{macros::UniCacheEntry, storage::Entry, unicache::*};\n";
        o += "    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize, UniCacheEntry)]\n";
        o += &snap;
        o += &format!("    pub struct {} {{ {} }}\n", n, vals(&|i| {
            let f = &t.fields[i];
            format!("{}pub {}: {}", decorate(f.deco, &f.attr.as_ref().map(attr_code).unwrap_or_default()), f.name, f.ty)
        }));
        o += &format!("    fn make(v: &[u32]) -> {} {{ {} {{ {} }} }}\n", n, n, vals(&|i| format!("{}: Mk::mk(v[{}])", t.fields[i].name, i)));
        o += "    pub fn run(ops: &[Op]) -> Result<u64, String> {\n";
        o += &format!("        let mut enc = <{} as Entry>::UniCache::new();\n        let mut decs = vec![<{} as Entry>::UniCache::new()];\n        let mut coded = 0u64;\n", n, n);
        for (i, f) in t.fields.iter().enumerate() {
            if let Some(a) = &f.attr {
                let c = if a.cache.as_deref() == Some("lfu") { "lfu_cache::LFUniCache" } else { "lru_cache::LRUniCache" };
                let e = a.enc.clone().unwrap_or("u8".into());
                o += &format!("        let mut ref{}: {}<{}, {}> = FieldCache::new({});\n", i, c, f.ty, e, a.size.unwrap_or(255));
            }
        }
        o += "        for (at, op) in ops.iter().enumerate() {\n            match op {\n";
        o += "                Op::Clone(serialised) => { let c = if *serialised { wire(&enc.clone()) } else { enc.clone() }; if decs.len() < 5 { decs.push(c) } else { decs[4] = c } }\n";
        o += "                Op::Val(v) => {\n                    let val = make(v);\n                    let e = enc.try_encode(&val);\n";
        o += &format!("                    let ({},) = e.clone();\n", vals(&|i| format!("e{}", i)));
        for (i, f) in t.fields.iter().enumerate() {
            match &f.attr {
                Some(a) => {
                    let c = a.enc.clone().unwrap_or("u8".into());
                    o += &format!("                    let got: MaybeEncoded<{}, {}> = e{};\n                    let want = ref{}.try_encode(&val.{});\n", f.ty, c, i, i, f.name);
                    o += "                    match (&got, &want) { (MaybeEncoded::Encoded(a), MaybeEncoded::Encoded(b)) if a == b => coded += 1, (MaybeEncoded::NotEncoded(a), MaybeEncoded::NotEncoded(b)) if a == b => (),\n";
                    o += &format!("                        _ => return Err(format!(\"value {{}}: field {} of {{:?}} is coded as {{:?}}, its cache gives {{:?}}\", at, val, got, want)) }}\n", f.name);
                }
                None => {
                    o += &format!("                    let got: {} = e{};\n                    if got != val.{} {{ return Err(format!(\"value {{}}: field {} of {{:?}} travels as {{:?}}\", at, val, got)) }}\n", f.ty, i, f.name, f.name);
                }
            }
        }
        o += "                    for d in decs.iter_mut() { let back = d.decode(wire(&e)); if back != val { return Err(format!(\"value {}: {:?} is decoded as {:?}\", at, val, back)) } }\n";
        o += "                }\n            }\n        }\n";
    }
    o += "        let vals: Vec<_> = ops.iter().filter_map(|o| if let Op::Val(v) = o { Some(make(v)) } else { None }).collect();\n";
    o += &format!("        if vals.len() % 4 == 1 {{ cluster(&vals, {})?; }}\n", t.snap);
    o += if t.uni { "        Ok(coded)\n" } else { "        Ok(0)\n" };
    o += "    }\n}\n";
    o
}

fn source(types: &[TySpec]) -> String {
    let mut o = String::from("mod support;\n");
    for (k, t) in types.iter().enumerate() {
        o += &module(t, k);
    }
    o += "fn main() {\n    support::main_with(&[\n";
    for (k, t) in types.iter().enumerate() {
        o += &format!("        support::Ty {{ name: {:?}, fields: {}, run: m{}::run }},\n", t.name, t.fields.len(), k);
    }
    o += "    ]);\n}\n";
    o
}

/// compiles the types; the binary or the compiler's errors
fn build(root: &str, types: &[TySpec], uni: bool) -> Result<PathBuf, String> {
    let kind = if uni { "uni" } else { "plain" };
    let dir = PathBuf::from(format!("{}/target/macrogen/{}", root, kind));
    let src = dir.join("src");
    std::fs::create_dir_all(&src).expect("create");
    let feat = if uni { r#", "unicache""# } else { "" };
    let toml = format!(
        "[package]\nname = \"vpmacro\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\nomnipaxos = {{ path = \"{r}omnipaxos\", features = [\"serde\"{f}] }}\nomnipaxos_storage = {{ path = \"{r}omnipaxos_storage\" }}\nserde = {{ version = \"1.0\", features = [\"derive\"] }}\nserde_json = \"1.0\"\nbincode = \"1.3.3\"\n[features]\ndefault = [\"serde\"]\nserde = []\n[profile.dev]\nopt-level = 1\ndebug = 0\nincremental = false\n",
        r = REPO,
        f = feat
    );
    std::fs::write(dir.join("Cargo.toml"), toml).expect("write");
    std::fs::copy(format!("{}/harness/Cargo.lock", root), dir.join("Cargo.lock")).expect("lock");
    std::fs::write(src.join("support.rs"), SUPPORT).expect("write");
    std::fs::write(src.join("main.rs"), source(types)).expect("write");
    let target = format!("{}/target/macrogen/target", root);
    // cargo goes by modification times, the sources of the repository may be older than the last build
    if let Ok(l) = std::fs::read_dir(Path::new(&target).join("debug/.fingerprint")) {
        for e in l.flatten() {
            if e.file_name().to_string_lossy().starts_with("omnipaxos") && std::env::var("VP_MACRO_KEEP").is_err() {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
    let out = Command::new("cargo")
        .args(["build", "--offline", "-q"])
        .current_dir(&dir)
        .env("CARGO_TARGET_DIR", &target)
        .env("CARGO_NET_OFFLINE", "true")
        .env_remove("RUSTFLAGS")
        .output()
        .expect("cargo");
    if !out.status.success() {
        let e = String::from_utf8_lossy(&out.stderr).to_string();
        return Err(e.lines().filter(|l| !l.starts_with("warning")).collect::<Vec<_>>().join("\n"));
    }
    let bin = dir.join("vpmacro");
    std::fs::copy(format!("{}/debug/vpmacro", target), &bin).expect("copy");
    Ok(bin)
}

fn run_bin(bin: &Path, args: &[String]) -> Result<Value, String> {
    let out = Command::new(bin).args(args).output().map_err(|e| e.to_string())?;
    let txt = String::from_utf8_lossy(&out.stdout).to_string();
    serde_json::from_str(&txt).map_err(|_| format!("the program with the derived types ended with {}", out.status))
}

fn first_errors(e: &str) -> String {
    let l: Vec<&str> = e.lines().filter(|l| l.starts_with("error")).take(3).collect();
    l.join("; ")
}

pub fn replay(env: &Env, c: &MCase) -> Option<Violation> {
    let v = |tag: &str, msg: String| Some(Violation { tag: tag.into(), msg, step: 0 });
    match build(&env.root, &c.types, c.types[0].uni) {
        Err(e) => v("derive", format!("the derived code does not compile: {}", first_errors(&e))),
        Ok(b) => {
            if c.ops.is_null() {
                return None;
            }
            let s = crate::scratch::Scratch::new();
            std::fs::write(s.path("ops"), c.ops.to_string()).expect("write");
            match run_bin(&b, &["case".into(), s.path("ops")]) {
                Err(m) => v("derive", m),
                Ok(r) => r["failure"].as_str().and_then(|m| v("derive", m.to_string())),
            }
        }
    }
}

const RULE: &str = "type definitions are generated (1 to 8 fields of 16 types under names that may clash with the generated code, any subset cached with any code type, size, policy and attribute order, with other attributes around, with and without snapshots; for the plain macro structs, tuple structs and enums), compiled with the macros of the working tree, and each runs generated streams of values: each field's code is compared with a stand-alone cache of the documented policy, size and code type, decoders join by clone and serialised clone, and three servers replicate the values; non-trivial: a stream with a cache hit or more than three values";

pub fn check(env: &Env) -> Option<String> {
    let (rounds, per, cases) = if env.thorough() { (20, 40, 1500) } else { (1, 40, 600) };
    let mut r = Report { evaluations: 0, cases: 0, distinct: 0, stats: BTreeMap::new(), samples: vec![], failure: None, others: 0, stopped_early: false };
    'all: for round in 0..rounds {
        if env.start.elapsed().as_secs() > 700 {
            r.stopped_early = true;
            break;
        }
        for uni in [true, false] {
            let mut rng = Rng::new(env.seed ^ hash_str("C24").rotate_left(17) ^ (round as u64).wrapping_mul(0xD1342543DE82EF95) ^ uni as u64);
            let n = if uni { per } else { per / 4 };
            let types: Vec<TySpec> = (0..n).map(|k| gen_ty(&mut rng, k, uni)).collect();
            *r.stats.entry(if uni { "cached types".into() } else { "plain types".to_string() }).or_insert(0) += n as u64;
            if r.samples.len() < 3 {
                r.samples.push(json!(module(&types[0], 0).lines().find(|l| l.contains("pub struct") || l.contains("pub enum"))));
            }
            match build(&env.root, &types, uni) {
                Err(e) => {
                    eprintln!("{}", e.lines().take(40).collect::<Vec<_>>().join("\n"));
                    // the smallest part that does not compile
                    let mut bad = types.clone();
                    while bad.len() > 1 {
                        let h = bad.len() / 2;
                        let (a, b) = (bad[..h].to_vec(), bad[h..].to_vec());
                        if build(&env.root, &a, uni).is_err() {
                            bad = a;
                        } else if build(&env.root, &b, uni).is_err() {
                            bad = b;
                        } else {
                            break;
                        }
                    }
                    let msg = format!("the derived code of {} does not compile: {}", bad[0].name, first_errors(&e));
                    r.failure = Some((0, Violation { tag: "derive".into(), msg, step: 0 }, serde_json::to_value(MCase { types: bad, ops: Value::Null }).unwrap()));
                    break 'all;
                }
                Ok(bin) => {
                    let k = if uni { cases } else { cases / 6 };
                    let seed = rng.next();
                    match run_bin(&bin, &[seed.to_string(), k.to_string()]) {
                        Err(m) => {
                            r.failure = Some((0, Violation { tag: "derive".into(), msg: m, step: 0 }, serde_json::to_value(MCase { types, ops: Value::Null }).unwrap()));
                            break 'all;
                        }
                        Ok(v) => {
                            let n = v["cases"].as_u64().unwrap_or(0);
                            r.cases += n;
                            r.evaluations += n;
                            r.distinct += v["nontrivial"].as_u64().unwrap_or(0);
                            *r.stats.entry("cache hits".into()).or_insert(0) += v["coded"].as_u64().unwrap_or(0);
                            let f = &v["failure"];
                            if !f.is_null() {
                                let t = types[f["type"].as_u64().unwrap_or(0) as usize].clone();
                                let msg = format!("{}: {}", f["name"].as_str().unwrap_or(""), f["msg"].as_str().unwrap_or(""));
                                r.failure = Some((0, Violation { tag: "derive".into(), msg, step: 0 }, serde_json::to_value(MCase { types: vec![t], ops: f["ops"].clone() }).unwrap()));
                                break 'all;
                            }
                        }
                    }
                }
            }
        }
    }
    let out = r.failure.as_ref().map(|(_, v, data)| {
        eprintln!("[{}] {}", v.tag, v.msg);
        write_replay(env, "C24", "macro", v, data.clone())
    });
    write_evidence(env, "C24", "exploration", RULE, &r, json!({}), &["one derived type per module (the macro adds an import)", "types without generic parameters"], r.failure.is_some() as u64);
    out
}
