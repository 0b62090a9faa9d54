//! C17, C18, C19: three parties on the real network layer (`Aby3Network` over mpc-net over QUIC) and a
//! simulated packet network.
use crate::hist::{self, Act, Ev, HistCfg, ALL};
use crate::udp::{self, secs, Cut, PacketCfg};
use crate::tls;
use bytes::{Bytes, BytesMut};
use iris_mpc::prelude::*;
use serde::{Deserialize, Serialize};
use simcore::exec::{self, Config, End, Mode, Report, MS, SEC};
use simcore::rng::{hash_bytes, mix, Rng64};
use simcore::runner::{Property, RunOut, Tier, Violation};
use std::cell::RefCell;
use std::pin::pin;
use std::rc::Rc;
use tokio::sync::oneshot;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum KillKind {
    /// the process dies: nothing it holds is sent any more
    Crash,
    /// no packet reaches or leaves it any more
    Isolate,
    /// the link to one peer (next or previous) is dead for good
    CutNext,
    CutPrev,
    /// it finishes its session in the middle of the history
    Leave,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Kill {
    pub party: u8,
    pub kind: KillKind,
    /// relative to the moment all parties are set up, or to the start
    pub after_setup: bool,
    pub at_ms: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub net: PacketCfg,
    pub entropy: u64,
    pub starts_ms: [u64; 3],
    pub orders: [u8; 3],
    pub evs: Vec<Ev>,
    pub kill: Option<Kill>,
    /// when all are done, one party waits for a message nobody sends, gives up and finishes; the others
    /// stay up and say nothing
    #[serde(default)]
    pub gives_up: Option<GiveUp>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct GiveUp {
    pub party: u8,
    /// one bit per peer it waits for (next, previous)
    pub on: u8,
    pub after_ms: u64,
}
/// how long the others outstay the party that gives up
const OUTSTAY: u64 = 90 * SEC;

pub fn perm(k: u8) -> [usize; 3] {
    [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][k as usize % 6]
}

/// Run a simulation with the packet network installed.
pub fn simulate(net: &PacketCfg, entropy: u64, mode: &Mode, log: bool, max_time: u64, setup: impl FnOnce()) -> Report {
    udp::install(net.clone());
    let rep = exec::run(
        Config {
            mode: mode.clone(),
            entropy_seed: mix(&[entropy, 0xE]),
            stall_rate: net.stall_rate,
            stall_max: net.stall_ms * MS,
            max_steps: 6_000_000,
            max_time,
            log,
            ..Default::default()
        },
        setup,
        |_| false,
    );
    let st = udp::uninstall();
    let mut rep = rep;
    rep.counters.insert("packets.sent", st.sent);
    rep.counters.insert("packets.delivered", st.delivered);
    rep
}

#[derive(Clone, Debug, Default)]
pub struct OpRec {
    pub act: String,
    pub recv_from: Option<usize>,
    pub start: u64,
    pub end: Option<u64>,
    pub err: Option<String>,
}
#[derive(Clone, Debug, Default)]
pub struct PLog {
    pub up: Option<Result<u64, String>>,
    pub ops: Vec<OpRec>,
    pub done: Option<u64>,
    pub complete: bool,
    pub wrong: Option<String>,
    pub fin_start: Option<u64>,
    pub fin_end: Option<(u64, Option<String>)>,
    pub left: bool,
}
pub type LogRef = Rc<RefCell<PLog>>;

struct Shared {
    up: usize,
    done: usize,
    killed_at: Option<u64>,
    leave: Option<oneshot::Sender<()>>,
}

fn do_kill(k: &Kill, sh: &Rc<RefCell<Shared>>) {
    let p = k.party as usize;
    let now = exec::now();
    sh.borrow_mut().killed_at = Some(now);
    exec::log(|| format!("FAULT {:?} of party {p}", k.kind));
    let cut = |a: usize, b: usize| udp::add_cut(Cut { from: now, until: u64::MAX, a: a as u8, b: b as u8, oneway: false });
    match k.kind {
        KillKind::Crash => {
            exec::count("fault.crash");
            exec::crash(p)
        }
        KillKind::Isolate => {
            exec::count("fault.isolated_for_good");
            cut(p, (p + 1) % 3);
            cut(p, (p + 2) % 3);
        }
        KillKind::CutNext => {
            exec::count("fault.link_cut_for_good");
            cut(p, (p + 1) % 3)
        }
        KillKind::CutPrev => {
            exec::count("fault.link_cut_for_good");
            cut(p, (p + 2) % 3)
        }
        KillKind::Leave => {
            exec::count("fault.leaves_early");
            if let Some(s) = sh.borrow_mut().leave.take() {
                let _ = s.send(());
            }
        }
    }
}

async fn script(me: usize, net: &mut Aby3Network, acts: &[Act], evs: &[Ev], log: &LogRef, probe_after_error: bool) -> bool {
    for a in acts {
        let ev = match a {
            Act::Send { ev } | Act::Recv { ev, .. } | Act::Bcast { ev } | Act::Bad { ev } => *ev,
        };
        let e = &evs[ev];
        let pause = match a {
            Act::Recv { .. } => e.dr,
            _ => e.ds,
        };
        if pause > 0 {
            exec::sleep(pause as u64 * MS).await;
        }
        let k = {
            let mut l = log.borrow_mut();
            l.ops.push(OpRec { act: format!("{a:?}"), recv_from: if let Act::Recv { from, .. } = a { Some(*from) } else { None }, start: exec::now(), end: None, err: None });
            l.ops.len() - 1
        };
        let mut wrong: Option<String> = None;
        let err: Option<std::io::Error> = match a {
            Act::Send { .. } => {
                let d = Bytes::from(hist::payload(e, me));
                let to = e.to as usize;
                let next = to == (me + 1) % 3;
                match e.how % 2 {
                    0 => net.send(to, d).await.err(),
                    _ if next => net.send_next_id(d).await.err(),
                    _ => net.send_prev_id(d).await.err(),
                }
            }
            Act::Recv { from, .. } => {
                let next = *from == (me + 1) % 3;
                let r = match (e.how / 2) % 2 {
                    0 => net.receive(*from).await,
                    _ if next => net.receive_next_id().await,
                    _ => net.receive_prev_id().await,
                };
                match r {
                    Ok(d) => {
                        let want = hist::payload(e, *from);
                        if d[..] != want[..] {
                            wrong = Some(format!("party {me} received {} from party {from} where event {ev} ({} bytes) was due", describe(&d, evs, *from), want.len()));
                        }
                        None
                    }
                    Err(x) => Some(x),
                }
            }
            Act::Bcast { .. } => match net.broadcast(Bytes::from(hist::payload(e, me))).await {
                Ok(v) => {
                    let want: Vec<Vec<u8>> = (0..3).map(|p| hist::payload(e, p)).collect();
                    if v.len() != 3 || (0..3).any(|p| v[p][..] != want[p][..]) {
                        wrong = Some(format!(
                            "broadcast {ev} at party {me} returned {} messages: {}",
                            v.len(),
                            v.iter().enumerate().map(|(p, d)| describe(d, evs, p)).collect::<Vec<_>>().join(", ")
                        ));
                    }
                    None
                }
                Err(x) => Some(x),
            },
            Act::Bad { .. } => {
                let to = e.to as usize;
                let bad = if e.how % 2 == 0 { net.send(to, Bytes::from(hist::payload(e, me))).await.is_ok() } else { net.receive(to).await.is_ok() };
                if bad {
                    wrong = Some(format!("party {me}: an operation with the id {to}, which is not a peer, succeeded"));
                }
                exec::count("probe.bad_id");
                None
            }
        };
        let mut l = log.borrow_mut();
        l.ops[k].end = Some(exec::now());
        exec::observe(&[31, me as u64, k as u64, err.is_some() as u64]);
        if let Some(w) = wrong {
            exec::log(|| format!("WRONG {w}"));
            l.wrong.get_or_insert(w);
            return false;
        }
        if let Some(x) = err {
            exec::log(|| format!("party {me}: {a:?} failed: {x}"));
            l.ops[k].err = Some(format!("{x:?}"));
            drop(l);
            if let (true, Act::Recv { from, .. }) = (probe_after_error, a) {
                // a later receive on the same peer has to fail as well
                let s = exec::now();
                let r = net.receive(*from).await;
                let mut l = log.borrow_mut();
                l.ops.push(OpRec { act: format!("second receive from {from} after an error"), recv_from: Some(*from), start: s, end: Some(exec::now()), err: r.as_ref().err().map(|e| format!("{e:?}")) });
                if let Ok(d) = r {
                    l.wrong.get_or_insert(format!("party {me}: a receive from party {from} after a failed one returned {}", describe(&d, evs, *from)));
                }
            }
            return false;
        }
        exec::log(|| format!("party {me}: {a:?} ok"));
    }
    true
}

fn describe(d: &BytesMut, evs: &[Ev], from: usize) -> String {
    let which: Vec<usize> = (0..evs.len()).filter(|k| hist::payload(&evs[*k], from)[..] == d[..] && !d.is_empty()).collect();
    format!("{} bytes (hash {:08x}, event {:?})", d.len(), hash_bytes(d) as u32, which)
}

pub struct Outcome {
    pub rep: Report,
    pub logs: Vec<PLog>,
    pub killed_at: Option<u64>,
}

pub fn run(c: &Case, mode: &Mode, log: bool, max_time: u64, barrier: bool) -> Outcome {
    let logs: Vec<LogRef> = (0..3).map(|_| LogRef::default()).collect();
    let sh = Rc::new(RefCell::new(Shared { up: 0, done: 0, killed_at: None, leave: None }));
    let scripts = hist::project(3, &c.evs);
    let evs = Rc::new(c.evs.clone());
    let (l2, s2) = (logs.clone(), sh.clone());
    let rep = simulate(&c.net, c.entropy, mode, log, max_time, move || {
        let (ltx, lrx) = oneshot::channel();
        s2.borrow_mut().leave = Some(ltx);
        let mut lrx = Some(lrx);
        if let Some(k) = c.kill.clone().filter(|k| !k.after_setup) {
            let sh = s2.clone();
            exec::at(k.at_ms * MS, move || do_kill(&k, &sh));
        }
        for (i, acts) in scripts.into_iter().enumerate() {
            let (log, sh, evs, kill) = (l2[i].clone(), s2.clone(), evs.clone(), c.kill.clone());
            let (gives_up, logs, calm) = (c.gives_up.clone(), l2.clone(), c.net.calm_after());
            let leave = match &kill {
                Some(k) if k.kind == KillKind::Leave && k.party as usize == i => lrx.take(),
                _ => None,
            };
            let start = c.starts_ms[i] * MS;
            let order = perm(c.orders[i]);
            exec::spawn(i, "party", true, async move {
                exec::sleep(start).await;
                let net = Aby3Network::new(tls::config(i, &[0, 1, 2], &order)).await;
                exec::log(|| format!("party {i} setup: {:?}", net.as_ref().map(|_| "ok")));
                let mut net = match net {
                    Ok(n) => n,
                    Err(e) => {
                        log.borrow_mut().up = Some(Err(format!("{e:?} at {:.3}s", secs(exec::now()))));
                        return;
                    }
                };
                log.borrow_mut().up = Some(Ok(exec::now()));
                if net.get_id() != i || net.get_num_parties() != 3 {
                    log.borrow_mut().wrong.get_or_insert(format!("party {i} believes to be {} of {}", net.get_id(), net.get_num_parties()));
                }
                let all = {
                    let mut s = sh.borrow_mut();
                    s.up += 1;
                    s.up == 3
                };
                if all {
                    if let Some(k) = kill.clone().filter(|k| k.after_setup) {
                        let sh = sh.clone();
                        exec::at(exec::now() + k.at_ms * MS, move || do_kill(&k, &sh));
                    }
                }
                let probe = kill.is_some();
                let ok = match leave {
                    None => script(i, &mut net, &acts, &evs, &log, probe).await,
                    Some(rx) => {
                        let s = pin!(script(i, &mut net, &acts, &evs, &log, probe));
                        let l = pin!(rx);
                        match futures::future::select(s, l).await {
                            futures::future::Either::Left((r, _)) => r,
                            futures::future::Either::Right(_) => {
                                log.borrow_mut().left = true;
                                false
                            }
                        }
                    }
                };
                {
                    let mut l = log.borrow_mut();
                    l.done = Some(exec::now());
                    l.complete = ok;
                }
                if barrier || gives_up.is_some() {
                    sh.borrow_mut().done += 1;
                    while sh.borrow().done < 3 {
                        exec::sleep(20 * MS).await;
                    }
                }
                if let Some(g) = &gives_up {
                    let v = g.party as usize;
                    if i == v {
                        exec::count("fault.gives_up_a_receive");
                        for to in [(i + 1) % 3, (i + 2) % 3].iter().enumerate().filter(|(b, _)| g.on >> b & 1 == 1).map(|(_, t)| *t) {
                            let rx = pin!(net.receive(to));
                            let late = pin!(exec::sleep(g.after_ms * MS));
                            if let futures::future::Either::Left((r, _)) = futures::future::select(rx, late).await {
                                let what = r.map(|d| describe(&d, &evs, to)).unwrap_or_else(|e| format!("error {e:?}"));
                                log.borrow_mut().wrong.get_or_insert(format!("party {i}: a receive from party {to}, which is up and sends nothing, returned {what}"));
                            }
                        }
                    } else {
                        let since = |l: &PLog| l.fin_start.map(|s| s.max(calm) + OUTSTAY);
                        while logs[v].borrow().fin_end.is_none() && since(&logs[v].borrow()).map(|t| exec::now() < t).unwrap_or(true) {
                            exec::sleep(100 * MS).await;
                        }
                    }
                }
                exec::log(|| format!("party {i} finishes"));
                log.borrow_mut().fin_start = Some(exec::now());
                let r = net.shutdown().await;
                exec::log(|| format!("party {i} finished: {r:?}"));
                log.borrow_mut().fin_end = Some((exec::now(), r.err().map(|e| format!("{e:?}"))));
            });
        }
    });
    let killed_at = sh.borrow().killed_at;
    Outcome { rep, logs: logs.iter().map(|l| l.borrow().clone()).collect(), killed_at }
}

pub struct Net3 {
    pub id: &'static str,
}

pub fn panic_violation(rep: &Report, skip: impl Fn(usize) -> bool) -> Option<Violation> {
    let (p, t, m) = rep.panics.iter().find(|p| !skip(p.0))?;
    Some(Violation::new("panic", format!("panic:{}", m.split(" @ ").last().unwrap_or("")), format!("task '{t}' of party {p} panicked: {m}")))
}

/// The transport may be down to its smallest window (two packets per round trip) for the whole run;
/// keep what is sent small enough for that.
pub fn cap_bytes(net: &PacketCfg, evs: &mut [Ev]) {
    let rtt_us = 2 * (net.delay_us + net.jitter_us).max(100);
    let budget = (2400 * 120_000_000u64 / rtt_us).max(20_000);
    let cap = (budget / evs.len().max(1) as u64).min(72 << 20) as u32;
    evs.iter_mut().for_each(|e| e.len = e.len.min(cap));
}

impl Net3 {
    fn gen_case(&self, r: &mut Rng64) -> Case {
        let mut starts = [0u64; 3];
        let spread = *r.pick(&[0, 0, 20, 300, 2000]);
        starts.iter_mut().for_each(|s| *s = r.below(spread + 1));
        let mut net = PacketCfg::gen(r, 3, 3000);
        let hc = match self.id {
            "C18" => HistCfg { n: 3, max_events: 60, big: false, broadcasts: true, bad: false, max_lag: 4, pauses: true },
            _ => HistCfg { n: 3, max_events: 40, big: true, broadcasts: true, bad: true, max_lag: 12, pauses: true },
        };
        let mut evs = hist::gen(r, &hc);
        if net.stall_rate > 0 && net.stall_rate < 100 || net.loss > 100 {
            evs.iter_mut().for_each(|e| e.len = e.len.min(300_000));
        }
        if hc.big && r.chance(1, 80) {
            // more than the default frame limit of the codec
            let k = r.usize(evs.len());
            evs[k].len = (8 << 20) + 1 + r.below(4 << 20) as u32;
            evs.truncate(k + 4);
            net.delay_us = net.delay_us.min(1000);
            net.jitter_us = net.jitter_us.min(500);
            net.stall_rate = 0;
            if r.chance(1, 8) {
                evs.drain(..k.saturating_sub(2));
                evs.truncate(3);
                let k = evs.len() - 1;
                evs[k].len = *r.pick(&[17_000_000, 35_000_000, 68_000_000]);
                net.delay_us = net.delay_us.min(200);
                net.jitter_us = net.jitter_us.min(100);
            }
        }
        cap_bytes(&net, &mut evs);
        let kill = if self.id == "C18" {
            let kind = *r.pick(&[KillKind::Crash, KillKind::Crash, KillKind::Isolate, KillKind::CutNext, KillKind::CutPrev, KillKind::Leave]);
            let after_setup = r.chance(4, 5) || kind == KillKind::Leave;
            Some(Kill { party: r.below(3) as u8, kind, after_setup, at_ms: if after_setup { *r.pick(&[0, 1, 3, 30, 300, 2000]) * r.below(5) } else { r.below(1500) } })
        } else {
            None
        };
        let (kill, gives_up) = if self.id == "C18" && r.chance(1, 8) {
            (None, Some(GiveUp { party: r.below(3) as u8, on: 1 + r.below(3) as u8, after_ms: *r.pick(&[0, 1, 30, 1000]) * r.below(5) }))
        } else {
            (kill, None)
        };
        if self.id == "C18" {
            net.cuts.clear();
            net.quiet_ms = net.quiet_ms.min(1000);
        }
        if self.id == "C19" && r.chance(1, 2) {
            // the last messages are what matters
            let k = evs.len().min(1 + r.usize(5));
            evs = evs.split_off(evs.len() - k);
        }
        Case { net, entropy: r.next(), starts_ms: starts, orders: [r.below(6) as u8, r.below(6) as u8, r.below(6) as u8], evs, kill, gives_up }
    }

    fn check(&self, c: &Case, o: &Outcome, max_time: u64, out: &mut RunOut) {
        let dead = |p: usize| matches!(&c.kill, Some(k) if k.kind == KillKind::Crash && k.party as usize == p && o.killed_at.is_some());
        if let Some(v) = panic_violation(&o.rep, dead) {
            out.fail(v);
        }
        for (p, l) in o.logs.iter().enumerate() {
            if let Some(w) = &l.wrong {
                let cl = "wrong message";
                out.fail(Violation::new(cl, format!("{}:{cl}", self.id), w.clone()));
            }
            let _ = p;
        }
        match &c.kill {
            None => self.check_healthy(c, o, max_time, out),
            Some(k) => self.check_killed(c, k, o, out),
        }
    }

    fn check_healthy(&self, c: &Case, o: &Outcome, max_time: u64, out: &mut RunOut) {
        for (p, l) in o.logs.iter().enumerate() {
            match &l.up {
                Some(Ok(_)) => {}
                Some(Err(e)) => out.fail(Violation::new("setup failed", "setup failed", format!("party {p}: connection setup failed although faults end at {:.3}s: {e}", secs(c.net.calm_after())))),
                None => out.fail(Violation::new("setup stuck", "setup stuck", format!("party {p}: connection setup not finished at {:.1}s (faults ended at {:.3}s)", secs(o.rep.time), secs(c.net.calm_after())))),
            }
            if let Some(op) = l.ops.iter().find(|x| x.err.is_some()) {
                let others: Vec<String> = o.logs.iter().enumerate().map(|(q, x)| format!("party {q}: ops done {:?}, finish {:?}..{:?}", x.done.map(secs), x.fin_start.map(secs), x.fin_end.as_ref().map(|f| secs(f.0)))).collect();
                let cl = "operation failed between healthy parties";
                out.fail(Violation::new(cl, format!("{}:{cl}", self.id), format!("party {p}: {} failed at {:.3}s with {}; {}", op.act, secs(op.end.unwrap_or(0)), op.err.as_ref().unwrap(), others.join("; "))));
            }
            if l.up.is_some() && !l.complete && l.wrong.is_none() && l.ops.iter().all(|x| x.err.is_none()) {
                let cl = "no progress after faults ended";
                out.fail(Violation::new(cl, format!("{}:{cl}", self.id), format!("party {p}: {:?} not completed at {:.1}s; faults ended at {:.3}s", l.ops.last(), secs(o.rep.time), secs(c.net.calm_after()))));
            }
            if l.fin_start.is_some() {
                match &l.fin_end {
                    Some((_, Some(e))) => out.fail(Violation::new("finish failed", "finish failed", format!("party {p}: finishing the session failed: {e}"))),
                    Some((t, None)) => {
                        // measured from the moment nothing keeps it from finishing
                        let free = o.logs.iter().filter_map(|l| l.done).max().unwrap_or(0).max(c.net.calm_after());
                        if *t > free + 60 * SEC {
                            out.fail(Violation::new("finish too slow", "finish too slow", format!("party {p}: finishing the session ended at {:.3}s, all operations were done and faults over at {:.3}s", secs(*t), secs(free))));
                        }
                    }
                    None => out.fail(Violation::new("finish stuck", "finish stuck", format!("party {p}: finishing the session, begun at {:.3}s, has not ended at {:.1}s", secs(l.fin_start.unwrap()), secs(o.rep.time)))),
                }
            }
        }
        if out.violation.is_none() && o.rep.end != End::Done {
            out.fail(Violation::new("did not end", format!("{:?}", o.rep.end), format!("{:?} at {:.1}s (limit {:.1}s), unfinished {:?}", o.rep.end, secs(o.rep.time), secs(max_time), o.rep.unfinished)));
        }
        if let Some(g) = &c.gives_up {
            if o.logs[g.party as usize].fin_end.is_some() {
                out.count("probe.finished_after_giving_up");
            }
        }
        out.nontrivial = out.violation.is_none() && !c.evs.is_empty();
    }

    fn check_killed(&self, c: &Case, k: &Kill, o: &Outcome, out: &mut RunOut) {
        let v = k.party as usize;
        let Some(t) = o.killed_at else {
            // finished before the fault: an ordinary run
            out.count("probe.fault_after_the_end");
            return self.check_healthy(c, o, 0, out);
        };
        let all_up_before = o.logs.iter().all(|l| matches!(l.up, Some(Ok(u)) if u <= t));
        let victim_up_before = matches!(o.logs[v].up, Some(Ok(u)) if u <= t);
        for (p, l) in o.logs.iter().enumerate() {
            if p == v && k.kind == KillKind::Crash {
                continue;
            }
            match &l.up {
                Some(Ok(_)) => {}
                Some(Err(e)) => {
                    if all_up_before {
                        out.fail(Violation::new("setup failed", "setup failed", format!("party {p}: {e}")));
                    }
                }
                // waiting for somebody who has not connected yet has no bound
                None if victim_up_before => out.fail(Violation::new("setup stuck", "setup stuck", format!("party {p}: connection setup still pending at {:.1}s; party {v} was up and failed at {:.3}s", secs(o.rep.time), secs(t)))),
                None => out.count("probe.setup_waits_for_dead_peer"),
            }
            let fatal = |k: &Kill, from: Option<usize>| match (k.kind, from) {
                // does the fault concern the link this operation is about?
                (KillKind::CutNext, Some(f)) => (p == v && f == (v + 1) % 3) || (f == v && p == (v + 1) % 3),
                (KillKind::CutPrev, Some(f)) => (p == v && f == (v + 2) % 3) || (f == v && p == (v + 2) % 3),
                (KillKind::Isolate, Some(f)) => p == v || f == v,
                (_, Some(f)) => f == v,
                _ => false,
            };
            for op in &l.ops {
                if let Some(e) = &op.err {
                    if op.end.unwrap_or(0) < t {
                        let cl = "operation failed before any fault";
                        out.fail(Violation::new(cl, format!("{}:{cl}", self.id), format!("party {p}: {} failed at {:.3}s with {e}, party {v} failed only at {:.3}s", op.act, secs(op.end.unwrap()), secs(t))));
                    }
                    out.count("probe.operation_reported_dead_peer");
                }
                let (bound, slack) = if fatal(k, op.recv_from) { (25, 2) } else { (60, 5) };
                let limit = (t + bound * SEC).max(op.start + slack * SEC);
                let end = match op.end {
                    Some(e) => e,
                    None if p == v && l.left => continue,
                    None => o.rep.time,
                };
                if end > limit || op.end.is_none() && o.rep.end != End::Done {
                    let cl = "dead peer not reported in time";
                    out.fail(Violation::new(cl, format!("{}:{cl}", self.id), format!("party {p}: {} begun at {:.3}s {} {:.3}s; {:?} of party {v} at {:.3}s", op.act, secs(op.start), if op.end.is_some() { "ended only at" } else { "still pending at" }, secs(end), k.kind, secs(t))));
                }
            }
            if let Some(s) = l.fin_start {
                let end = l.fin_end.as_ref().map(|f| f.0);
                let limit = s.max(t + 25 * SEC) + 60 * SEC;
                if end.map(|e| e > limit).unwrap_or(true) {
                    out.fail(Violation::new("finish stuck", "finish stuck", format!("party {p}: finishing the session, begun at {:.3}s, {:?} at {:.1}s; {:?} of party {v} at {:.3}s", secs(s), end.map(secs), secs(o.rep.time), k.kind, secs(t))));
                }
            } else if matches!(l.up, Some(Ok(_))) && l.wrong.is_none() && out.violation.is_none() {
                out.fail(Violation::new("stuck", "stuck", format!("party {p} neither completed nor failed: last operation {:?}, time {:.1}s", l.ops.last(), secs(o.rep.time))));
            }
        }
        out.nontrivial = out.violation.is_none() && o.logs.iter().any(|l| l.ops.iter().any(|x| x.err.is_some()));
    }
}

impl Property for Net3 {
    type Case = Case;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        let common = "case = start delays and configuration order per party x history of up to 40-60 sends, receives (lagging, by id or by neighbour) and broadcasts with sizes from 0 to 12 MiB x packet network (delay, jitter, loss, duplication, reordering, corruption, busy sockets, stalls, cuts up to 3 s; all ending at a quiet time); ";
        match self.id {
            "C17" => format!("{common}parties finish only after all of them completed their scripts. Non-trivial: at least one message, everything delivered"),
            "C18" => format!("{common}at a random moment of setup or traffic one party crashes, is isolated, loses one link for good or finishes its session early; or, once all are done, one party gives up waiting for a message nobody sends and finishes while the others stay up in silence. Non-trivial: at least one operation of a survivor reported an error, or the party that gave up finished"),
            _ => format!("{common}every party finishes its session right after its own last operation. Non-trivial: at least one message, everything delivered"),
        }
    }
    fn real(&self) -> Vec<String> {
        real_stack(&["iris-mpc: Aby3Network (also used by SWIFT3)"])
    }
    fn stubbed(&self) -> Vec<String> {
        stub_stack()
    }
    fn assumptions(&self) -> Vec<String> {
        assume_stack()
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (60_000, 50.0)
        } else {
            (10_000_000, 760.0)
        }
    }
    fn gen(&self, _i: usize, r: &mut Rng64, _tier: Tier) -> Case {
        self.gen_case(r)
    }
    fn run(&self, c: &Case, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        let pauses: u64 = c.evs.iter().map(|e| e.ds as u64 + e.dr as u64).sum();
        let max_time = c.net.calm_after() + (pauses + c.starts_ms.iter().max().unwrap()) * MS + if c.kill.is_some() { 240 * SEC } else { 400 * SEC };
        let o = run(c, mode, log, max_time, self.id == "C17");
        out.absorb(&o.rep);
        self.check(c, &o, max_time, &mut out);
        for e in &c.evs {
            if e.to == ALL {
                out.count("ops.broadcast");
            } else {
                out.count("ops.message");
            }
            if e.len > 1_000_000 {
                out.count("probe.message_over_1MB");
            }
            if e.len > 8 << 20 {
                out.count("probe.message_over_8MiB");
            }
            if e.len > 16 << 20 {
                out.count("probe.message_over_16MiB");
            }
        }
        out
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for e in hist::shrink(&c.evs) {
            v.push(Case { evs: e, ..c.clone() });
        }
        for n in c.net.shrink() {
            v.push(Case { net: n, ..c.clone() });
        }
        if c.starts_ms != [0; 3] {
            v.push(Case { starts_ms: [0; 3], ..c.clone() });
        }
        if c.orders != [0; 3] {
            v.push(Case { orders: [0; 3], ..c.clone() });
        }
        v
    }
}

pub fn real_stack(more: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = more.iter().map(|s| s.to_string()).collect();
    v.extend(["mpc-net: establish, channels, handles, codecs, shutdown".to_string(), "quinn, quinn-proto, rustls: complete QUIC and TLS stack".to_string()]);
    v
}
pub fn stub_stack() -> Vec<String> {
    ["UDP sockets (simulated packet network)", "timers and task scheduling (simulator)", "clock and entropy source of the process", "UDP segmentation offload reported as absent"].iter().map(|s| s.to_string()).collect()
}
pub fn assume_stack() -> Vec<String> {
    [
        "one thread polls all tasks: interleavings at await points only, no data races inside one poll",
        "certificates are generated by rcgen as in gen_cert.rs and read from files",
        "the packet network authenticates nothing; corrupted packets differ by one bit of the protected part",
        "packets of the TLS handshake are delayed, reordered, duplicated and lost in partitions, not lost or corrupted at random (quinn itself does not survive every such pattern)",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}
