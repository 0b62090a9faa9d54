mod case;
mod prog;
mod props;
mod props_adv;
mod props_more;
mod props_query;
mod props_secrecy;
mod session;
mod simnet;
use props::*;
use props_adv::*;
use props_more::*;
use props_query::*;
use props_secrecy::*;
use session::Proto;
use simcore::runner::{self, Tier};
use std::path::Path;

macro_rules! with_property {
    ($id:expr, $p:ident => $e:expr) => {
        match $id {
            "C01" => { let $p = &C01; $e }
            "C02" => { let $p = &C02; $e }
            "C03" => { let $p = &Honest { id: "C03", proto: Proto::Aby3 }; $e }
            "C04" => { let $p = &Honest { id: "C04", proto: Proto::MalAby3 }; $e }
            "C05" => { let $p = &Honest { id: "C05", proto: Proto::SpdzWise }; $e }
            "C06" => { let $p = &Honest { id: "C06", proto: Proto::Swift3 }; $e }
            "C07" => { let $p = &Cheat { id: "C07", proto: Proto::MalAby3 }; $e }
            "C08" => { let $p = &Cheat { id: "C08", proto: Proto::SpdzWise }; $e }
            "C09" => { let $p = &Cheat { id: "C09", proto: Proto::Swift3 }; $e }
            "C10" => { let $p = &C10; $e }
            "C11" => { let $p = &C11; $e }
            "C12" => { let $p = &C12; $e }
            "C13" => { let $p = &C13; $e }
            "C21" => { let $p = &C21; $e }
            other => { eprintln!("unknown property {other}"); 2 }
        }
    };
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let usage = "usage: simmpc check <ID> <quick|thorough> | replay <file> | determinism <ID> <n>";
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let tier = if args.get(2).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            with_property!(args[1].as_str(), p => runner::check(p, tier))
        }
        Some("replay") => {
            let s = std::fs::read_to_string(&args[1]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("json");
            with_property!(v["property"].as_str().unwrap(), p => runner::replay(p, Path::new(&args[1])))
        }
        Some("determinism") => {
            let n = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(50);
            with_property!(args[1].as_str(), p => runner::determinism(p, n, Tier::Quick))
        }
        Some("bench") => {
            bench();
            0
        }
        _ => {
            eprintln!("{usage}");
            2
        }
    };
    std::process::exit(code);
}

fn bench() {
    use prog::*;
    use simcore::exec::Mode;
    for (name, ops) in [
        ("mul1", vec![Op::Mul(0, 1)]),
        ("mul16", (0..16).map(|i| Op::Mul(i, 1)).collect::<Vec<_>>()),
        ("mul64", (0..64).map(|i| Op::Mul(i, 1)).collect::<Vec<_>>()),
        ("dot4", vec![Op::Dot(Sel { start: 0, stride: 1, len: 4 }, Sel { start: 0, stride: 1, len: 4 })]),
        ("dot40", vec![Op::Dot(Sel { start: 0, stride: 1, len: 40 }, Sel { start: 0, stride: 1, len: 40 })]),
        ("dot100", vec![Op::Dot(Sel { start: 0, stride: 1, len: 100 }, Sel { start: 0, stride: 1, len: 100 })]),
        ("dot8x40", vec![Op::DotMany(vec![(Sel { start: 0, stride: 1, len: 40 }, Sel { start: 0, stride: 1, len: 40 }); 8])]),
        ("msb1", vec![Op::Msb(0)]),
        ("msb10", vec![Op::MsbMany(Sel { start: 0, stride: 1, len: 10 })]),
        ("msb40", vec![Op::MsbMany(Sel { start: 0, stride: 1, len: 40 })]),
    ] {
        for ring in [session::Ring::U8, session::Ring::U16, session::Ring::U32] {
            let mut o = vec![Op::ShareMany { n: 10, seed: 3 }];
            o.extend(ops.clone());
            o.push(Op::Verify);
            let c = case::Case { proto: Proto::Swift3, ring, prog: Prog { key: KeyMode::Dealer, ops: o, guard_opens: false, final_verify: false }, net: simnet::NetCfg::calm(), deal_seed: 1, entropy: 1, triples: 0, adversary: None, faults: vec![] };
            let t = std::time::Instant::now();
            let c2 = c.clone();
            let n = std::thread::spawn(move || props::go(&c2, &Mode::Replay(vec![]), case::Opts::default()).report.steps).join().unwrap();
            println!("{name} {ring:?} {:?} steps {n}", t.elapsed());
        }
    }
}
