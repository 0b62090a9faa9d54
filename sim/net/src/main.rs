mod chan;
mod codec;
mod conn;
mod full;
mod hist;
mod pipe;
mod stack;
mod tls;
mod udp;
#[allow(dead_code)]
#[path = "../../mpc/src/prog.rs"]
mod prog;
#[allow(dead_code)]
#[path = "../../mpc/src/session.rs"]
mod session;
/// the network type the sessions run on
mod simnet {
    pub type SimNet = iris_mpc::prelude::Aby3Network;
}
use simcore::runner::{self, Tier};
use stack::Net3;
use std::path::Path;

macro_rules! with_property {
    ($id:expr, $p:ident => $e:expr) => {
        match $id {
            "C14" => { let $p = &chan::Intact; $e }
            "C15" => { let $p = &chan::Broke; $e }
            "C16" => { let $p = &conn::Setup; $e }
            "C17" => { let $p = &Net3 { id: "C17" }; $e }
            "C18" => { let $p = &Net3 { id: "C18" }; $e }
            "C19" => { let $p = &Net3 { id: "C19" }; $e }
            "C20" => { let $p = &full::Full; $e }
            other => { eprintln!("unknown property {other}"); 2 }
        }
    };
}

/// The first use of some libraries in a process draws entropy to probe the system; get that over with.
fn warm_up() {
    use runner::Property;
    let p = Net3 { id: "C17" };
    let c = p.gen(0, &mut simcore::rng::Rng64::new(1), Tier::Quick);
    simcore::exec::on_fresh_thread(|| p.run(&c, &simcore::exec::Mode::Replay(vec![]), false));
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let usage = "usage: simnet check <ID> <quick|thorough> | replay <file> | determinism <ID> <n>";
    tls::prepare();
    warm_up();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let tier = if args.get(2).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            with_property!(args[1].as_str(), p => runner::check(p, tier))
        }
        Some("replay") => {
            let s = std::fs::read_to_string(&args[1]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("json");
            with_property!(v["property"].as_str().unwrap(), p => runner::replay(p, Path::new(&args[1])))
        }
        Some("determinism") => {
            let n = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(50);
            with_property!(args[1].as_str(), p => runner::determinism(p, n, Tier::Quick))
        }
        _ => {
            eprintln!("{usage}");
            2
        }
    };
    tls::cleanup();
    std::process::exit(code);
}
