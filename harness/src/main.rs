mod checks;
mod configcheck;
mod entry;
mod epi;
mod faultcheck;
mod gen;
mod logcheck;
mod macrocheck;
mod rng;
mod runner;
mod scratch;
mod storcheck;
mod sim;
mod store;
mod timers;
mod twincheck;
#[cfg(feature = "ui")]
mod uicheck;
#[cfg(feature = "unicache")]
mod unicheck;

use runner::Env;
use std::time::Instant;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let variant = if cfg!(feature = "unicache") {
        "unicache"
    } else if cfg!(feature = "ui") {
        "ui"
    } else if cfg!(feature = "rocks") {
        "rocks"
    } else {
        "plain"
    };
    sim::install_hook();
    let env = Env { seed, tier, root, variant, start: Instant::now() };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(2).cloned().unwrap_or_default();
            match run(&env, &id) {
                Err(e) => {
                    eprintln!("{}", e);
                    2
                }
                Ok(None) => {
                    println!("OK property={} tier={} seed={} wall_s={:.1}", id, env.tier, env.seed, env.start.elapsed().as_secs_f64());
                    0
                }
                Ok(Some(path)) => {
                    println!("VIOLATION property={} replay={}", id, path);
                    1
                }
            }
        }
        #[cfg(feature = "ui")]
        Some("uichild") => uicheck::child(&args[2..]),
        #[cfg(feature = "ui")]
        Some("logfiles") => logcheck::logfiles(&args[2..]),
        Some("traces") => logcheck::traces(&args[2..]),
        Some("replay") => replay(&env, args.get(2).map(|s| s.as_str()).unwrap_or("")),
        _ => {
            eprintln!("usage: vp check <ID> | vp replay <file>");
            2
        }
    };
    scratch::cleanup();
    std::process::exit(code);
}

fn run(env: &Env, id: &str) -> Result<Option<String>, String> {
    match id {
        "C14" => return Ok(storcheck::check(env, "C14")),
        "C20" => return Ok(twincheck::check(env)),
        "C24" => return Ok(macrocheck::check(env)),
        "C17" => return Ok(configcheck::check(env)),
        "C16" => return Ok(faultcheck::check(env)),
        #[cfg(feature = "rocks")]
        "C15" => return Ok(storcheck::check(env, "C15")),
        #[cfg(feature = "ui")]
        "C26" => return Ok(logcheck::check(env)),
        #[cfg(feature = "ui")]
        "C25" => return Ok(uicheck::check(env)),
        #[cfg(feature = "unicache")]
        "C18" => return Ok(unicheck::check(env)),
        _ => (),
    }
    match checks::table(id) {
        Some(c) => Ok(checks::run_table(env, &c)),
        None => Err(format!("unknown property {}", id)),
    }
}

fn replay(env: &Env, path: &str) -> i32 {
    let txt = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let doc: serde_json::Value = serde_json::from_str(&txt).expect("replay file");
    let id = doc["property"].as_str().unwrap_or("").to_string();
    let show = |v: Option<sim::Violation>| match v {
        Some(v) => {
            println!("step {}: [{}] {}", v.step, v.tag, v.msg);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        None => {
            println!("no violation");
            0
        }
    };
    let kind = doc["kind"].as_str().unwrap_or("cluster");
    if kind == "storage" {
        let c: storcheck::SCase = serde_json::from_value(doc["data"].clone()).expect("case");
        return show(storcheck::run_scase(&c, id == "C15", &mut Default::default()));
    }
    if kind == "macro" {
        let c: macrocheck::MCase = serde_json::from_value(doc["data"].clone()).expect("case");
        return show(macrocheck::replay(env, &c));
    }
    if kind == "config" {
        return show(configcheck::replay(doc["data"].clone()));
    }
    if kind == "twin" {
        let c: sim::Case = serde_json::from_value(doc["data"].clone()).expect("case");
        return show(twincheck::run_twin(&c).0);
    }
    #[cfg(feature = "ui")]
    if kind == "logging" {
        return show(logcheck::replay(doc["data"].clone()));
    }
    #[cfg(feature = "ui")]
    if kind == "ui" {
        let c: uicheck::UiCase = serde_json::from_value(doc["data"].clone()).expect("case");
        return show(uicheck::run_alone(&c));
    }
    #[cfg(feature = "unicache")]
    if kind == "unicache" {
        let c: unicheck::UCase = serde_json::from_value(doc["data"].clone()).expect("case");
        return show(unicheck::run_ucase(&c, &mut Default::default()));
    }
    let tags: &'static [&'static str] = checks::tags_of(&id);
    let case: sim::Case = serde_json::from_value(doc["data"].clone()).expect("case");
    let (v, st, _) = runner::run_case(&case, tags, false);
    println!("{:?}", st.c);
    show(v)
}
