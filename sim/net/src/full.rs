//! C20: whole sessions, from connection setup through the protocol to the end, over the packet network.
use crate::dispatch;
use crate::prog::*;
use crate::session::{Proto, Ring, Session};
use crate::stack::{self, panic_violation, perm, Kill, KillKind};
use crate::tls;
use crate::udp::{self, secs, Cut, PacketCfg};
use iris_mpc::prelude::Aby3Network;
use serde::{Deserialize, Serialize};
use simcore::exec::{self, End, Mode, Report, MS, SEC};
use simcore::rng::Rng64;
use simcore::runner::{Property, RunOut, Tier, Violation};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub proto: Proto,
    pub ring: Ring,
    pub prog: Prog,
    pub net: PacketCfg,
    pub deal_seed: u64,
    pub entropy: u64,
    pub triples: u32,
    pub starts_ms: [u64; 3],
    pub orders: [u8; 3],
    pub kill: Option<Kill>,
}

#[derive(Clone, Debug, Default)]
struct Conn {
    up: Option<Result<u64, String>>,
    end: Option<u64>,
}
struct Shared {
    up: usize,
    killed_at: Option<u64>,
}

struct Outcome {
    rep: Report,
    conns: Vec<Conn>,
    logs: Vec<PartyLog>,
    killed_at: Option<u64>,
}

fn do_kill(k: &Kill, sh: &Rc<RefCell<Shared>>) {
    let p = k.party as usize;
    let now = exec::now();
    sh.borrow_mut().killed_at = Some(now);
    exec::log(|| format!("FAULT {:?} of party {p}", k.kind));
    let cut = |a: usize, b: usize| udp::add_cut(Cut { from: now, until: u64::MAX, a: a as u8, b: b as u8, oneway: false });
    match k.kind {
        KillKind::Crash | KillKind::Leave => {
            exec::count("fault.crash");
            exec::crash(p)
        }
        KillKind::Isolate => {
            exec::count("fault.isolated_for_good");
            cut(p, (p + 1) % 3);
            cut(p, (p + 2) % 3);
        }
        KillKind::CutNext => {
            exec::count("fault.link_cut_for_good");
            cut(p, (p + 1) % 3)
        }
        KillKind::CutPrev => {
            exec::count("fault.link_cut_for_good");
            cut(p, (p + 2) % 3)
        }
    }
}

fn run<S: Session>(c: &Case, mode: &Mode, log: bool, max_time: u64) -> Outcome {
    // proofs over 12800-element dot products take an hour: SWIFT3 queries run without them
    iris_mpc::vsim::MAX_DOT_PROOF.with(|m| m.set(4000));
    iris_mpc::vsim::MIN_TRIPLES.with(|m| m.set(c.triples as usize));
    let deals = deal::<S>(&c.prog, c.deal_seed);
    let conns: Vec<Rc<RefCell<Conn>>> = (0..3).map(|_| Rc::default()).collect();
    let logs: Vec<LogRef> = (0..3).map(|_| LogRef::default()).collect();
    let sh = Rc::new(RefCell::new(Shared { up: 0, killed_at: None }));
    let prog = Rc::new(c.prog.clone());
    let (c2, l2, s2) = (conns.clone(), logs.clone(), sh.clone());
    let rep = stack::simulate(&c.net, c.entropy, mode, log, max_time, move || {
        if let Some(k) = c.kill.clone().filter(|k| !k.after_setup) {
            let sh = s2.clone();
            exec::at(k.at_ms * MS, move || do_kill(&k, &sh));
        }
        for (i, d) in deals.into_iter().enumerate() {
            let (conn, log, sh, prog, kill) = (c2[i].clone(), l2[i].clone(), s2.clone(), prog.clone(), c.kill.clone());
            let start = c.starts_ms[i] * MS;
            let order = perm(c.orders[i]);
            exec::spawn(i, "party", true, async move {
                exec::sleep(start).await;
                let net = Aby3Network::new(tls::config(i, &[0, 1, 2], &order)).await;
                exec::log(|| format!("party {i} connections: {:?}", net.as_ref().map(|_| "ok")));
                match net {
                    Err(e) => conn.borrow_mut().up = Some(Err(format!("{e:?} at {:.3}s", secs(exec::now())))),
                    Ok(net) => {
                        conn.borrow_mut().up = Some(Ok(exec::now()));
                        sh.borrow_mut().up += 1;
                        let all = sh.borrow().up == 3;
                        if let (true, Some(k)) = (all, kill.filter(|k| k.after_setup)) {
                            let sh = sh.clone();
                            exec::at(exec::now() + k.at_ms * MS, move || do_kill(&k, &sh));
                        }
                        run_party::<S>(net, prog, d, vec![], log).await;
                    }
                }
                conn.borrow_mut().end = Some(exec::now());
            });
        }
    });
    let killed_at = sh.borrow().killed_at;
    Outcome { rep, conns: conns.iter().map(|c| c.borrow().clone()).collect(), logs: logs.iter().map(|l| l.take()).collect(), killed_at }
}

pub struct Full;

/// Simulated time the transfers of a case may take with the smallest transport window throughout.
fn slow(c: &Case) -> u64 {
    let rtt = 2 * (c.net.delay_us + c.net.jitter_us).max(100) * 1000 + if c.net.stall_rate > 0 { c.net.stall_ms * MS / 4 } else { 0 };
    let mut t = 0;
    for op in &c.prog.ops {
        if let Op::Query(q) = op {
            let n = q.db.len() as u64;
            let bytes = n * if c.proto == Proto::MalAby3 { CODE as u64 * 8 } else { 2000 };
            let chunks = n / (q.chunk as u64).max(1) + 1;
            t += (4 * bytes / 2400 + chunks * 100) * rtt;
        }
    }
    t
}

impl Full {
    fn check(&self, c: &Case, o: &Outcome, out: &mut RunOut) {
        let crashed = |p: usize| matches!(&c.kill, Some(k) if matches!(k.kind, KillKind::Crash | KillKind::Leave) && k.party as usize == p && o.killed_at.is_some());
        if let Some(v) = panic_violation(&o.rep, crashed) {
            out.fail(v);
        }
        let want = plain(&c.prog, c.ring.bits());
        for (p, l) in o.logs.iter().enumerate() {
            if crashed(p) {
                continue;
            }
            let n = l.outs.len().min(want.len());
            if l.outs[..n] != want[..n] || l.outs.len() > want.len() {
                let k = (0..n).find(|k| l.outs[*k] != want[*k]).unwrap_or(n);
                out.fail(Violation::new("wrong answer", "wrong answer", format!("party {p}: output {k} is {:?}, the plaintext gives {:?}", l.outs.get(k), want.get(k))));
            }
            match (&l.end, o.killed_at) {
                (Some(Ok(())), _) => {
                    if l.outs.len() != want.len() && out.violation.is_none() {
                        out.fail(Violation::new("outputs missing", "outputs missing", format!("party {p} ended normally with {} of {} outputs", l.outs.len(), want.len())));
                    }
                }
                (Some(Err((k, e))), None) => out.fail(Violation::new("honest session failed", "honest session failed", format!("party {p}: operation {k} failed with {e}; faults ended at {:.3}s", secs(c.net.calm_after())))),
                (Some(Err(_)), Some(_)) => out.count("probe.survivor_got_an_error"),
                (None, _) => {}
            }
            match (&o.conns[p].up, o.killed_at) {
                (Some(Err(e)), None) => out.fail(Violation::new("setup failed", "setup failed", format!("party {p}: {e}; faults ended at {:.3}s", secs(c.net.calm_after())))),
                (None, Some(t)) => {
                    // waiting for somebody who has never come up has no bound
                    if o.conns.iter().all(|x| matches!(x.up, Some(Ok(u)) if u <= t)) {
                        out.fail(Violation::new("stuck", "stuck", format!("party {p} is not set up")));
                    } else {
                        out.count("probe.setup_waits_for_dead_peer");
                    }
                    continue;
                }
                _ => {}
            }
            if let (Some(t), true) = (o.killed_at, out.violation.is_none()) {
                // an answer or an error within bounded time
                let from = t.max(match o.conns[p].up {
                    Some(Ok(u)) => u,
                    _ => 0,
                });
                let limit = from.max(c.net.calm_after()) + 180 * SEC + slow(c);
                let end = o.conns[p].end.unwrap_or(o.rep.time);
                if end > limit || o.conns[p].end.is_none() {
                    let waits = o.conns.iter().enumerate().any(|(q, x)| q != p && !crashed(q) && x.up.is_none());
                    if waits && o.conns[p].end.is_none() {
                        // its peer is alive but still waiting for the dead one
                        out.count("probe.waits_for_a_peer_in_setup");
                        continue;
                    }
                    out.fail(Violation::new("no answer in time", "no answer in time", format!("party {p} has neither an answer nor an error at {:.1}s ({:?}); {:?} of party {} at {:.3}s; operation {:?}", secs(end), o.rep.end, c.kill.as_ref().unwrap().kind, c.kill.as_ref().unwrap().party, secs(t), l.outs.len())));
                }
            }
        }
        if o.killed_at.is_none() && out.violation.is_none() && o.rep.end != End::Done {
            out.fail(Violation::new("did not end", format!("{:?}", o.rep.end), format!("{:?} at {:.1}s, unfinished {:?}", o.rep.end, secs(o.rep.time), o.rep.unfinished)));
        }
        out.nontrivial = out.violation.is_none() && if o.killed_at.is_some() { o.logs.iter().any(|l| matches!(l.end, Some(Err(_)))) } else { true };
        if o.killed_at.is_some() {
            for (p, l) in o.logs.iter().enumerate() {
                if !crashed(p) && l.end == Some(Ok(())) {
                    out.count("probe.survivor_got_the_answer");
                }
            }
        }
    }
}

impl Property for Full {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> String {
        "case = protocol x ring x history of 1..3 membership queries (1..4 entries, distances next to the threshold, some queries unusable), sometimes preceded by an input, a product and an opening x start delays and configuration order per party x packet network (delay, jitter, loss, duplication, reordering, corruption, busy sockets, stalls, cuts up to 3 s; all ending at a quiet time) x in one case of three a crash, an isolation or a dead link at a random moment of setup or session. Non-trivial: every party got all answers, or (with a crash) at least one survivor got an error".into()
    }
    fn real(&self) -> Vec<String> {
        stack::real_stack(&["iris-mpc: IrisProtocol, all four protocols, Aby3Network"])
    }
    fn stubbed(&self) -> Vec<String> {
        let mut v = stack::stub_stack();
        v.push("SWIFT3 proofs over dot products of more than 4000 terms are skipped; SPDZ-wise makes fewer AND triples than shipped (cfg vsim)".into());
        v
    }
    fn assumptions(&self) -> Vec<String> {
        stack::assume_stack()
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (16000, 60.0)
        } else {
            (10_000_000, 760.0)
        }
    }
    fn gen(&self, _i: usize, r: &mut Rng64, _tier: Tier) -> Case {
        let proto = *r.pick(&[Proto::Aby3, Proto::Aby3, Proto::MalAby3, Proto::SpdzWise, Proto::SpdzWise, Proto::Swift3]);
        let ring = match proto {
            Proto::Aby3 => *r.pick(&[Ring::U16, Ring::U16, Ring::U32]),
            _ => Ring::U16,
        };
        let mut ops = vec![];
        let mut large = false;
        if r.chance(1, 4) {
            ops.push(Op::Input { owner: r.below(3) as u8, v: gen_value(r, ring.bits()) });
            ops.push(Op::ShareMany { n: 1 + r.below(5) as u32, seed: r.next() });
            ops.push(Op::Mul(0, 1));
            ops.push(Op::Verify);
            ops.push(Op::OpenMany(Sel { start: 0, stride: 1, len: 2 + r.below(4) as u32 }));
        }
        for _ in 0..1 + r.below(5) / 3 {
            let n = match proto {
                Proto::MalAby3 | Proto::Swift3 => 1 + r.usize(2),
                _ => 1 + r.usize(4),
            };
            let mut q = gen_query(r, n, false);
            if proto == Proto::MalAby3 && r.chance(1, 100) {
                // its verification opens chunk x 12800 x 8 bytes in one message
                large = true;
                let n = 80 + r.usize(40);
                q = gen_query(r, n, false);
                q.chunk = q.chunk.max(n as u32 - r.below(20) as u32);
            }
            if r.chance(1, 10) {
                q.mask_delta = if r.chance(1, 2) { 1 } else { -1 };
            }
            ops.push(Op::Query(q));
        }
        let mut net = PacketCfg::gen(r, 3, 3000);
        net.quiet_ms = net.quiet_ms.min(10_000);
        if large {
            net.delay_us = net.delay_us.min(1000);
            net.jitter_us = net.jitter_us.min(1000);
            net.stall_rate = 0;
            net.busy = 0;
        }
        let spread = *r.pick(&[0, 0, 20, 300, 2000]);
        let starts_ms = [r.below(spread + 1), r.below(spread + 1), r.below(spread + 1)];
        let kill = if r.chance(1, 3) {
            net.cuts.clear();
            net.quiet_ms = net.quiet_ms.min(1000);
            let kind = *r.pick(&[KillKind::Crash, KillKind::Crash, KillKind::Isolate, KillKind::CutNext, KillKind::CutPrev]);
            let after_setup = r.chance(5, 6);
            let at_ms = if after_setup { *r.pick(&[0, 1, 1, 5, 30, 200, 1000]) * r.below(8) } else { r.below(1500) };
            Some(Kill { party: r.below(3) as u8, kind, after_setup, at_ms })
        } else {
            None
        };
        Case {
            proto,
            ring,
            prog: Prog { key: KeyMode::Dealer, ops, guard_opens: false, final_verify: false },
            net,
            deal_seed: r.next(),
            entropy: r.next(),
            triples: gen_triples(r).max(1),
            starts_ms,
            orders: [r.below(6) as u8, r.below(6) as u8, r.below(6) as u8],
            kill,
        }
    }
    fn run(&self, c: &Case, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        let max_time = c.net.calm_after() + c.starts_ms.iter().max().unwrap() * MS + 600 * SEC + slow(c);
        let o = dispatch!(c.proto, c.ring, S => run::<S>(c, mode, log, max_time));
        out.absorb(&o.rep);
        out.count(&format!("cases.{}", c.proto.name()));
        self.check(c, &o, &mut out);
        out
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for p in shrink_prog(&c.prog) {
            v.push(Case { prog: p, ..c.clone() });
        }
        for n in c.net.shrink() {
            v.push(Case { net: n, ..c.clone() });
        }
        if c.starts_ms != [0; 3] {
            v.push(Case { starts_ms: [0; 3], ..c.clone() });
        }
        if c.orders != [0; 3] {
            v.push(Case { orders: [0; 3], ..c.clone() });
        }
        v
    }
}
