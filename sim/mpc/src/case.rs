//! One L1 case: a program, a protocol, a network, faults or an adversary; its execution and oracle.
use crate::prog::*;
use crate::session::{Proto, Ring, Session};
use crate::simnet::{Fault, Hub, HubRef, NetCfg, Tamper};
use serde::{Deserialize, Serialize};
use simcore::exec::{self, Config, End, Mode, Report};
use simcore::rng::mix;
use simcore::runner::{RunOut, Violation};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Adversary {
    pub party: u8,
    pub tampers: Vec<Tamper>,
    pub alters: Vec<Alter>,
    /// errors put on the party's part of a product before it is reshared
    #[serde(default)]
    pub zeros: Vec<ZeroErr>,
    /// the attack on the AND proof with predicted coefficients, in this column of the proof
    #[serde(default)]
    pub column: Option<u32>,
    /// goes on whatever the others confirm or prove to it
    #[serde(default)]
    pub careless: bool,
}
impl Adversary {
    pub fn of(party: usize) -> Self {
        Adversary { party: party as u8, tampers: vec![], alters: vec![], zeros: vec![], column: None, careless: false }
    }
    pub fn size(&self) -> usize {
        self.tampers.len() + self.alters.len() + self.zeros.len() + self.column.is_some() as usize
    }
}

/// at the at-th .. at+n-1-th zero share the party draws
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ZeroErr {
    pub at: u32,
    pub n: u32,
    pub lo: u64,
    pub hi: u64,
    /// only on zero shares of binary operations, counting those
    #[serde(default)]
    pub binary: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub proto: Proto,
    pub ring: Ring,
    pub prog: Prog,
    pub net: NetCfg,
    pub deal_seed: u64,
    pub entropy: u64,
    /// SPDZ-wise: triples per cut-and-choose, in 128-bit words; 0 = as shipped
    #[serde(default)]
    pub triples: u32,
    #[serde(default)]
    pub adversary: Option<Adversary>,
    #[serde(default)]
    pub faults: Vec<Fault>,
}

pub struct Outcome {
    pub report: Report,
    pub logs: Vec<PartyLog>,
    pub hub: HubRef,
    /// zero shares drawn per party, and errors put on them
    pub zero_draws: [u32; 3],
    pub binary_draws: [u32; 3],
    /// for every zero share: network events of the party before it, and whether it is a binary one
    pub draw_at: [Vec<(u32, bool)>; 3],
    pub zero_applied: u64,
    /// zero shares drawn by the corrupted party (binary?, bits) and lists of coefficients it was told
    pub trail: Vec<Trail>,
}
#[derive(Clone, Debug)]
pub enum Trail {
    Draw { binary: bool, bits: usize },
    Thetas(Vec<u64>),
}
impl Outcome {
    /// did the corrupted party really deviate?
    pub fn deviated(&self, p: usize) -> bool {
        self.hub.borrow().applied > 0 || self.logs[p].altered > 0 || self.zero_applied > 0
    }
}

pub struct Opts {
    pub observe: Option<usize>,
    pub overrides: Vec<(usize, u32, u64)>,
    pub log: bool,
    /// what to do when nothing can run: close these parties' links (the corrupted party's)
    pub close_on_quiescence: Option<usize>,
    pub entropy_override: Option<u64>,
    /// replace the delivered shares of one party's deal component etc. is done by the caller
    pub hold: Option<(usize, usize)>,
    pub record_sent: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { observe: None, overrides: vec![], log: false, close_on_quiescence: None, entropy_override: None, hold: None, record_sent: false }
    }
}

pub fn run_with_deals<S: Session>(c: &Case, deals: Vec<Deal<S::A>>, mode: &Mode, o: Opts) -> Outcome {
    let hub = Hub::new(c.net.clone());
    // proofs over 12800-element dot products take an hour: C01/C02 run SWIFT3 queries without them
    let skip = c.prog.ops.iter().any(|o| matches!(o, Op::Query(_)));
    iris_mpc::vsim::MAX_DOT_PROOF.with(|m| m.set(if skip { 4000 } else { usize::MAX }));
    iris_mpc::vsim::MIN_TRIPLES.with(|m| m.set(c.triples as usize));
    {
        let mut h = hub.borrow_mut();
        h.set_faults(c.faults.clone());
        h.observe = o.observe;
        if let Some(a) = &c.adversary {
            h.set_adversary(a.party as usize, a.tampers.clone());
            h.overlooks = (a.careless && c.proto != Proto::Swift3).then_some(a.party as usize);
        }
        h.hold = o.hold;
        h.record_sent = o.record_sent;
    }
    let zero = Rc::new(RefCell::new(([0u32; 3], 0u64, [0u32; 3])));
    let draw_at: Rc<RefCell<[Vec<(u32, bool)>; 3]>> = Default::default();
    let trail = Rc::new(RefCell::new(vec![]));
    let follow = c.adversary.as_ref().filter(|a| a.column.is_some()).map(|a| a.party as usize);
    {
        let (h, t) = (hub.clone(), trail.clone());
        let f = move |ch: iris_mpc::vsim::Challenge| {
            let p = simcore::interpose::party();
            match ch {
                iris_mpc::vsim::Challenge::Coin(s) if p < 3 => h.borrow_mut().on_coin(p, s),
                iris_mpc::vsim::Challenge::Thetas(v) if follow == Some(p) => t.borrow_mut().push(Trail::Thetas(v)),
                _ => {}
            }
        };
        iris_mpc::vsim::CHALLENGE.with(|h| *h.borrow_mut() = Some(Box::new(f)));
    }
    {
        let z = zero.clone();
        let adv = c.adversary.as_ref().map(|a| (a.party as usize, a.zeros.clone()));
        let t = trail.clone();
        let (at, h) = (draw_at.clone(), hub.clone());
        let f = move |binary: bool, bits: usize| -> u128 {
            let p = simcore::interpose::party();
            let mut z = z.borrow_mut();
            if p >= 3 {
                return 0;
            }
            if adv.is_none() {
                at.borrow_mut()[p].push((h.borrow().events[p].len() as u32, binary));
            }
            if follow == Some(p) {
                t.borrow_mut().push(Trail::Draw { binary, bits });
            }
            let (k, kb) = (z.0[p], z.2[p]);
            z.0[p] += 1;
            z.2[p] += binary as u32;
            match &adv {
                Some((q, v)) if *q == p => match v.iter().find(|e| if e.binary { binary && kb >= e.at && kb - e.at < e.n } else { k >= e.at && k - e.at < e.n }) {
                    Some(e) => {
                        z.1 += 1;
                        exec::count("fault.additive_error");
                        exec::log(|| format!("ERROR {:x}:{:x} on zero share {k} of party {p}", e.hi, e.lo));
                        (e.hi as u128) << 64 | e.lo as u128
                    }
                    None => 0,
                },
                _ => 0,
            }
        };
        iris_mpc::vsim::ZERO_SHARE_ERROR.with(|h| *h.borrow_mut() = Some(Box::new(f)));
        let who = c.adversary.as_ref().filter(|a| a.careless).map(|a| a.party as usize);
        let f = move || who.is_some_and(|p| p == simcore::interpose::party());
        iris_mpc::vsim::OVERLOOKS.with(|h| *h.borrow_mut() = Some(Box::new(f)));
    }
    let logs: Vec<LogRef> = (0..3).map(|_| LogRef::default()).collect();
    let prog = Rc::new(c.prog.clone());
    let cfg = Config {
        mode: mode.clone(),
        entropy_seed: o.entropy_override.unwrap_or(mix(&[c.entropy, 0xE])),
        overrides: o.overrides,
        stall_rate: c.net.stall_rate,
        stall_max: 50 * exec::MS,
        max_steps: 4_000_000,
        max_time: 24 * 3600 * exec::SEC,
        log: o.log,
        step_ns: 1000,
    };
    let h2 = hub.clone();
    let l2 = logs.clone();
    let adv = c.adversary.clone();
    let h3 = hub.clone();
    let close = o.close_on_quiescence;
    let mut closings = 0;
    let report = exec::run(
        cfg,
        move || {
            for (i, d) in deals.into_iter().enumerate() {
                let alters = match &adv {
                    Some(a) if a.party as usize == i => a.alters.clone(),
                    _ => vec![],
                };
                let net = Hub::net(&h2, i);
                let p = prog.clone();
                let log = l2[i].clone();
                exec::spawn(i, "party", true, run_party::<S>(net, p, d, alters, log));
            }
        },
        move |_| {
            if h3.borrow().hold.is_some() {
                let mut h = h3.borrow_mut();
                h.release_hold();
                return true;
            }
            if h3.borrow_mut().flush_all_rush() {
                return true;
            }
            match close {
                Some(p) if closings < 3 => {
                    closings += 1;
                    exec::log(|| format!("quiescent: closing the links of party {p}"));
                    exec::count("probe.closed_corrupted_at_quiescence");
                    h3.borrow_mut().close_party(p, false);
                    true
                }
                _ => false,
            }
        },
    );
    iris_mpc::vsim::ZERO_SHARE_ERROR.with(|h| *h.borrow_mut() = None);
    iris_mpc::vsim::CHALLENGE.with(|h| *h.borrow_mut() = None);
    iris_mpc::vsim::OVERLOOKS.with(|h| *h.borrow_mut() = None);
    let logs = logs.into_iter().map(|l| l.take()).collect();
    let (zero_draws, zero_applied, binary_draws) = *zero.borrow();
    let trail = trail.take();
    let draw_at = draw_at.take();
    Outcome { report, logs, hub, zero_draws, binary_draws, draw_at, zero_applied, trail }
}

pub fn run_session<S: Session>(c: &Case, mode: &Mode, o: Opts) -> Outcome {
    let deals = deal::<S>(&c.prog, c.deal_seed);
    run_with_deals::<S>(c, deals, mode, o)
}

pub fn absorb(out: &mut RunOut, o: &Outcome) {
    out.absorb(&o.report);
    let m = o.hub.borrow().msgs;
    *out.counters.entry("messages_total".into()).or_insert(0) += m;
}

fn op_name(c: &Case, k: usize) -> String {
    if k == AT_SETUP {
        "setup".into()
    } else if k == AT_FINISH {
        "finish".into()
    } else if k >= c.prog.ops.len() {
        "final verify".into()
    } else {
        format!("op {k} {}", short(&c.prog.ops[k]))
    }
}
pub fn kind_name(c: &Case, k: usize) -> String {
    if k == AT_SETUP {
        "setup".into()
    } else if k == AT_FINISH {
        "finish".into()
    } else if k >= c.prog.ops.len() {
        "verify".into()
    } else {
        let s = format!("{:?}", c.prog.ops[k]);
        s.split(['(', ' ', '{']).next().unwrap_or("op").to_lowercase()
    }
}

/// Everybody is honest and nothing fails: everything must succeed with the plaintext values.
pub fn check_honest(c: &Case, o: &Outcome, out: &mut RunOut) {
    let expect = plain(&c.prog, c.ring.bits());
    let pn = c.proto.name();
    for (p, n, m) in &o.report.panics {
        out.fail(Violation::new("panic", format!("{pn}:panic"), format!("party {p} ({n}) panicked: {m}")));
    }
    for (p, l) in o.logs.iter().enumerate() {
        match &l.end {
            Some(Err((k, e))) => out.fail(Violation::new("honest-error", format!("{pn}:error:{}:{}", kind_name(c, *k), e.split('(').next().unwrap_or("")), format!("party {p} got error {e} at {} although nobody misbehaved", op_name(c, *k)))),
            None if o.report.end != End::Done => {}
            None => out.fail(Violation::new("honest-vanished", format!("{pn}:vanished"), format!("party {p} never finished"))),
            _ => {}
        }
    }
    if o.report.end != End::Done && out.violation.is_none() {
        out.fail(Violation::new("stuck", format!("{pn}:stuck"), format!("{:?}; unfinished {:?}", o.report.end, o.report.unfinished)));
    }
    for (p, l) in o.logs.iter().enumerate() {
        if let Some(v) = first_wrong(c, p, l, &expect, true) {
            out.fail(v);
        }
    }
}

/// Compare a party's outputs with the expected ones.
pub fn first_wrong(c: &Case, p: usize, l: &PartyLog, expect: &[(usize, Out)], complete: bool) -> Option<Violation> {
    let pn = c.proto.name();
    for (i, (k, v)) in l.outs.iter().enumerate() {
        match expect.get(i) {
            Some((ek, ev)) if ek == k && ev == v => {}
            e => {
                return Some(Violation::new(
                    "wrong-output",
                    format!("{pn}:wrong:{}", kind_name(c, *k)),
                    format!("party {p} at {}: got {} expected {}", op_name(c, *k), brief(&format!("{v:?}")), brief(&format!("{:?}", e.map(|e| &e.1)))),
                ))
            }
        }
    }
    if complete && matches!(l.end, Some(Ok(()))) && l.outs.len() != expect.len() {
        return Some(Violation::new("missing-output", format!("{pn}:missing"), format!("party {p}: {} outputs of {}", l.outs.len(), expect.len())));
    }
    None
}
pub fn brief(s: &str) -> String {
    if s.len() > 300 {
        format!("{}...", &s[..300])
    } else {
        s.into()
    }
}

/// Parties in `honest` must never output a wrong value, panic or hang; they may end with an error.
pub fn check_faulty(c: &Case, o: &Outcome, honest: &[usize], out: &mut RunOut) {
    let expect = plain(&c.prog, c.ring.bits());
    let pn = c.proto.name();
    for h in honest {
        if let Some(v) = first_wrong(c, *h, &o.logs[*h], &expect, true) {
            out.fail(v);
        }
    }
    for (p, _, m) in &o.report.panics {
        if honest.contains(p) {
            out.fail(Violation::new("panic", format!("{pn}:panic:{}", m.rsplit(" @ ").next().unwrap_or("").rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("")), format!("honest party {p} panicked: {m}")));
        }
    }
    for h in honest {
        let l = &o.logs[*h];
        let panicked = o.report.panics.iter().any(|x| x.0 == *h);
        if l.end.is_none() && !panicked {
            out.fail(Violation::new("stuck", format!("{pn}:stuck"), format!("honest party {h} never finished ({:?}); outputs so far {}", o.report.end, l.outs.len())));
        }
    }
}

pub fn errors(o: &Outcome, honest: &[usize]) -> usize {
    honest.iter().filter(|h| matches!(o.logs[**h].end, Some(Err(_)))).count()
}

/// Simpler cases.
pub fn shrink_case(c: &Case) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    if let Some(a) = &c.adversary {
        for i in 0..a.tampers.len() {
            if a.size() > 1 {
                let mut x = c.clone();
                x.adversary.as_mut().unwrap().tampers.remove(i);
                v.push(x);
            }
            if a.tampers[i].n > 1 {
                let mut x = c.clone();
                x.adversary.as_mut().unwrap().tampers[i].n /= 2;
                v.push(x);
            }
        }
        for i in 0..a.alters.len() {
            if a.size() > 1 {
                let mut x = c.clone();
                x.adversary.as_mut().unwrap().alters.remove(i);
                v.push(x);
            }
        }
    }
    if let Some(a) = &c.adversary {
        if a.careless {
            let mut x = c.clone();
            x.adversary.as_mut().unwrap().careless = false;
            v.push(x);
        }
        for i in 0..a.zeros.len() {
            if a.size() > 1 {
                let mut x = c.clone();
                x.adversary.as_mut().unwrap().zeros.remove(i);
                v.push(x);
            }
            let z = &a.zeros[i];
            for y in [ZeroErr { n: z.n / 2, ..z.clone() }, ZeroErr { n: 1, ..z.clone() }, ZeroErr { hi: 0, ..z.clone() }, ZeroErr { hi: 0, lo: 1, ..z.clone() }] {
                if y.n > 0 && y != *z {
                    let mut x = c.clone();
                    x.adversary.as_mut().unwrap().zeros[i] = y;
                    v.push(x);
                }
            }
        }
    }
    for i in 0..c.faults.len() {
        if c.faults.len() > 1 {
            let mut x = c.clone();
            x.faults.remove(i);
            v.push(x);
        }
    }
    for p in shrink_prog(&c.prog) {
        let mut x = c.clone();
        let removed_before = |op: u32, old: &Prog, new: &Prog| -> u32 {
            // keep the alteration at the same place relative to the end if operations vanished
            let d = old.ops.len() - new.ops.len().min(old.ops.len());
            op.saturating_sub(d as u32)
        };
        x.prog = p.clone();
        v.push(x.clone());
        if let Some(a) = x.adversary.as_mut() {
            if !a.alters.is_empty() && p.ops.len() < c.prog.ops.len() {
                for t in a.alters.iter_mut() {
                    t.op = removed_before(t.op, &c.prog, &p);
                }
                v.push(x.clone());
            }
        }
        // with fewer messages the fault has to come earlier
        let mut y = c.clone();
        y.prog = p.clone();
        let mut changed = false;
        if let Some(a) = y.adversary.as_mut() {
            for t in a.tampers.iter_mut() {
                if t.idx > 0 {
                    t.idx /= 2;
                    changed = true;
                }
            }
            for t in a.zeros.iter_mut() {
                if t.at > 0 {
                    t.at /= 2;
                    changed = true;
                }
            }
        }
        for f in y.faults.iter_mut() {
            match f {
                Fault::Crash { at, .. } | Fault::CloseLink { at, .. } if *at > 0 => {
                    *at /= 2;
                    changed = true;
                }
                _ => {}
            }
        }
        if changed {
            v.push(y);
        }
    }
    if c.adversary.as_ref().map(|a| a.tampers.iter().any(|t| t.idx > 0)).unwrap_or(false) {
        for f in [2u32, 0] {
            let mut y = c.clone();
            for t in y.adversary.as_mut().unwrap().tampers.iter_mut() {
                t.idx = if f == 2 { t.idx.saturating_sub(1) } else { t.idx / 2 };
            }
            v.push(y);
        }
    }
    if c.adversary.as_ref().map(|a| a.zeros.iter().any(|t| t.at > 0)).unwrap_or(false) {
        for f in [2u32, 0] {
            let mut y = c.clone();
            for t in y.adversary.as_mut().unwrap().zeros.iter_mut() {
                t.at = if f == 2 { t.at.saturating_sub(1) } else { t.at / 2 };
            }
            v.push(y);
        }
    }
    if c.net.stall_rate != 0 || c.net.jitter_us != 0 || c.net.slow_from != 3 {
        let mut x = c.clone();
        x.net = NetCfg { send_err: c.net.send_err, ..NetCfg::calm() };
        v.insert(0, x);
    }
    v
}
