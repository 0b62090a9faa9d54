mod load;
mod store;
mod tool;
mod vfs;
#[allow(dead_code)]
#[path = "../../mpc/src/session.rs"]
mod session;
#[allow(dead_code)]
#[path = "../../mpc/src/simnet.rs"]
mod simnet;
use simcore::runner::{self, Tier};
use std::path::Path;

macro_rules! with_property {
    ($id:expr, $p:ident => $e:expr) => {
        match $id {
            "C24" => { let $p = &store::C24; $e }
            "C25" => { let $p = &store::C25; $e }
            other => { eprintln!("unknown property {other}"); 2 }
        }
    };
}

fn main() {
    tool::serve();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let usage = "usage: simstore check <ID> <quick|thorough> | replay <file> | determinism <ID> <n>";
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let tier = if args.get(2).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            with_property!(args[1].as_str(), p => runner::check(p, tier))
        }
        Some("replay") => {
            let s = std::fs::read_to_string(&args[1]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("json");
            with_property!(v["property"].as_str().unwrap(), p => runner::replay(p, Path::new(&args[1])))
        }
        Some("determinism") => {
            let n = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(50);
            with_property!(args[1].as_str(), p => runner::determinism(p, n, Tier::Quick))
        }
        _ => {
            eprintln!("{usage}");
            2
        }
    };
    std::process::exit(code);
}
