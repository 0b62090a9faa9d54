//! C14 and C15: channels and channel handles over a simulated byte-stream transport.
use crate::codec::{self, AnyCodec, AnyMsg, Item, Kind};
use crate::hist::{self, Act, Ev, HistCfg};
use crate::pipe::{self, Broken, Faults, PipeCfg, Reader, Writer};
use crate::stack::{panic_violation, simulate};
use crate::udp::{secs, PacketCfg};
use futures::{SinkExt, StreamExt};
use mpc_net::channel::{Channel, ChannelHandle};
use serde::{Deserialize, Serialize};
use simcore::exec::{self, End, Mode, MS, SEC};
use simcore::rng::{hash_bytes, mix, Rng64};
use simcore::runner::{Property, RunOut, Tier, Violation};
use std::cell::RefCell;
use std::io;
use std::rc::Rc;
use tokio::sync::oneshot;

type Chan = Channel<Reader, Writer, AnyCodec>;
type Handle = ChannelHandle<AnyMsg, AnyMsg>;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Use {
    /// through a handle
    Managed,
    /// as sink and stream
    Direct,
    /// split, sending and receiving in different tasks
    Split,
}

fn links(cfg: &[PipeCfg; 2], f: &[Faults; 2], kind: Kind) -> (Chan, Chan) {
    // direction p: what party p sends
    let (w0, r0) = pipe::pipe(&cfg[0], &f[0]);
    let (w1, r1) = pipe::pipe(&cfg[1], &f[1]);
    (Channel::new::<AnyMsg>(r1, w0, kind.codec()), Channel::new::<AnyMsg>(r0, w1, kind.codec()))
}
fn show(m: &[u8]) -> String {
    format!("{} bytes (hash {:08x})", m.len(), hash_bytes(m) as u32)
}

type Wrong = Rc<RefCell<Option<String>>>;
fn fail(w: &Wrong, t: impl FnOnce() -> String) {
    let mut w = w.borrow_mut();
    if w.is_none() {
        *w = Some(t());
    }
}

// ---------------------------------------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub kind: Kind,
    pub uses: [Use; 2],
    pub pipes: [PipeCfg; 2],
    pub evs: Vec<Ev>,
    /// this party receives once more at the end, when the other one has left
    pub last: Option<u8>,
    pub finish: bool,
    pub stall_rate: u64,
}
pub struct Intact;

impl Case {
    fn msg(&self, ev: usize) -> AnyMsg {
        let e = &self.evs[ev];
        self.kind.message(e.len as usize, mix(&[e.seed, e.from as u64]))
    }
}

fn check_got(wrong: &Wrong, c: &Case, me: usize, ev: usize, got: Result<AnyMsg, String>) {
    let want = c.msg(ev);
    match got {
        Ok(m) if m == want => exec::observe(&[41, me as u64, ev as u64]),
        Ok(m) => fail(wrong, || {
            let which: Vec<usize> = (0..c.evs.len()).filter(|k| c.msg(*k) == m).collect();
            format!("party {me} received {} (message {which:?}) where message {ev}, {}, was due", show(&m.canon()), show(&want.canon()))
        }),
        Err(e) => fail(wrong, || format!("party {me}: receiving message {ev} failed: {e}")),
    }
}
fn flat<T, E: std::fmt::Debug>(r: Result<Result<T, io::Error>, E>) -> Result<T, String> {
    match r {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(format!("{e:?}")),
        Err(e) => Err(format!("receipt gone: {e:?}")),
    }
}

async fn managed(c: &Case, me: usize, acts: &[Act], h: &mut Handle, wrong: &Wrong) {
    let mut sends: Vec<(usize, oneshot::Receiver<io::Result<()>>)> = vec![];
    let mut recvs: Vec<(usize, oneshot::Receiver<io::Result<AnyMsg>>)> = vec![];
    // operations that may still occupy a queue slot (for the blocking calls)
    let (mut out_s, mut out_r) = (0, 0);
    for a in acts {
        let (Act::Send { ev } | Act::Recv { ev, .. } | Act::Bad { ev } | Act::Bcast { ev }) = a;
        let e = &c.evs[*ev];
        let pause = if matches!(a, Act::Recv { .. }) { e.dr } else { e.ds };
        if pause > 0 {
            exec::sleep(pause as u64 * MS).await;
        }
        match a {
            Act::Send { ev } => {
                let m = c.msg(*ev);
                let r = if e.how & 4 != 0 && out_s < 8 {
                    exec::count("ops.blocking");
                    h.blocking_send(m)
                } else {
                    h.send(m).await
                };
                out_s += 1;
                match e.how & 3 {
                    0 | 1 => {
                        if let Err(x) = flat(r.await) {
                            fail(wrong, || format!("party {me}: sending message {ev} failed: {x}"));
                            return;
                        }
                        out_s = 0;
                    }
                    2 => sends.push((*ev, r)),
                    _ => drop(r),
                }
            }
            Act::Recv { ev, .. } => {
                let r = if e.how & 16 != 0 && out_r < 8 {
                    exec::count("ops.blocking");
                    h.blocking_recv()
                } else {
                    h.recv().await
                };
                out_r += 1;
                match (e.how >> 2) & 3 {
                    0 | 1 => {
                        check_got(wrong, c, me, *ev, flat(r.await));
                        out_r = 0;
                    }
                    2 => recvs.push((*ev, r)),
                    _ if e.len > 20_000 => recvs.push((*ev, r)),
                    // nobody waits for the result: the message is taken all the same
                    _ => drop(r),
                }
            }
            _ => {
                exec::count("probe.oversized");
                match flat(h.send(c.kind.oversized(e.seed)).await.await) {
                    Err(_) => out_s = 0,
                    Ok(()) => fail(wrong, || format!("party {me}: sending a message that does not fit reported success")),
                }
            }
        }
        if wrong.borrow().is_some() {
            return;
        }
    }
    for (ev, r) in recvs {
        check_got(wrong, c, me, ev, flat(r.await));
    }
    for (ev, r) in sends {
        if let Err(x) = flat(r.await) {
            fail(wrong, || format!("party {me}: sending message {ev} failed: {x}"));
        }
    }
}

async fn direct(c: &Case, me: usize, acts: &[Act], ch: &mut Chan, wrong: &Wrong) {
    for (k, a) in acts.iter().enumerate() {
        match a {
            Act::Send { ev } => {
                let e = &c.evs[*ev];
                if e.ds > 0 {
                    exec::sleep(e.ds as u64 * MS).await;
                }
                // not flushed here: the next message or the closing of the channel takes it along
                let more = acts.get(k + 1).map_or(c.finish && c.last != Some(me as u8), |a| matches!(a, Act::Send { .. }));
                let r = if more && e.how & 1 == 0 { ch.feed(c.msg(*ev)).await } else { ch.send(c.msg(*ev)).await };
                if let Err(x) = r {
                    fail(wrong, || format!("party {me}: sending message {ev} failed: {x:?}"));
                }
            }
            Act::Recv { ev, .. } => {
                let e = &c.evs[*ev];
                if e.dr > 0 {
                    exec::sleep(e.dr as u64 * MS).await;
                }
                let got = match ch.next().await {
                    Some(r) => r.map_err(|e| format!("{e:?}")),
                    None => Err("end of stream".into()),
                };
                check_got(wrong, c, me, *ev, got);
            }
            Act::Bad { ev } | Act::Bcast { ev } => {
                exec::count("probe.oversized");
                if ch.send(c.kind.oversized(c.evs[*ev].seed)).await.is_ok() {
                    fail(wrong, || format!("party {me}: sending a message that does not fit reported success"));
                }
            }
        }
        if wrong.borrow().is_some() {
            return;
        }
    }
}

async fn at_end(me: usize, got: Option<Result<AnyMsg, String>>, wrong: &Wrong) {
    exec::count("probe.receive_after_end");
    if let Some(Ok(m)) = got {
        fail(wrong, || format!("party {me}: a receive after the peer has left returned {}", show(&m.canon())));
    }
}

impl Property for Intact {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> String {
        "case = codec (length-delimited bytes, bincode of an enum, a custom checked-line codec) x use per party (handle with async or blocking calls, sink and stream, split into two tasks) x history of up to 60 messages in both directions, 0 bytes to 8 MiB, receives lagging up to 12 events, results awaited at once, kept or dropped, messages too large for the codec in between x transport per direction (short reads and writes down to one byte, not-ready polls, delays, capacities from 1 byte). Non-trivial: at least one message, all delivered".into()
    }
    fn real(&self) -> Vec<String> {
        vec!["mpc-net: Channel, ChannelHandle, BincodeCodec".into(), "tokio-util framing and length-delimited codec, tokio channels".into()]
    }
    fn stubbed(&self) -> Vec<String> {
        vec!["byte-stream transport (AsyncRead/AsyncWrite)".into(), "task scheduling and timers (simulator)".into()]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the transport itself is reliable and ordered".into(), "blocking calls are made only while a queue slot is free".into()]
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (60_000, 50.0)
        } else {
            (20_000_000, 600.0)
        }
    }
    fn gen(&self, _i: usize, r: &mut Rng64, _tier: Tier) -> Case {
        let kind = *r.pick(&[Kind::Bytes, Kind::Bincode, Kind::Bincode, Kind::Lines]);
        let big = r.chance(1, 40);
        let cfg = HistCfg { n: 2, max_events: if r.chance(1, 4) { 60 } else { 14 }, big, broadcasts: false, bad: r.chance(1, 4), max_lag: 12, pauses: r.chance(1, 3) };
        let mut evs = hist::gen(r, &cfg);
        for e in evs.iter_mut() {
            let cap = if big { kind.max_len() } else { 60_000.min(kind.max_len()) };
            e.len = e.len.min(cap as u32 - if kind == Kind::Bincode { 40 } else { 0 });
        }
        let total: u64 = evs.iter().map(|e| e.len as u64 + 4).sum();
        let pipes = [PipeCfg::gen(r, total), PipeCfg::gen(r, total)];
        // a party that lags must not stop the other one from writing
        if pipes.iter().any(|p| p.cap < 2_000_000) {
            evs.iter_mut().for_each(|e| e.lag = 0);
        }
        let u = |r: &mut Rng64| *r.pick(&[Use::Managed, Use::Managed, Use::Managed, Use::Direct, Use::Split]);
        Case { kind, uses: [u(r), u(r)], pipes, evs, last: if r.chance(1, 2) { Some(r.below(2) as u8) } else { None }, finish: r.chance(1, 2), stall_rate: if r.chance(1, 6) { 50 } else { 0 } }
    }
    fn run(&self, c: &Case, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        let wrong: Wrong = Default::default();
        let done = Rc::new(RefCell::new([false; 2]));
        let scripts = hist::project(2, &c.evs);
        let net = PacketCfg { stall_rate: c.stall_rate, stall_ms: 20, ..PacketCfg::calm() };
        let (w2, d2) = (wrong.clone(), done.clone());
        let rep = simulate(&net, 1, mode, log, 3600 * SEC, || {
            let (a, b) = links(&c.pipes, &Default::default(), c.kind);
            for (me, (ch, acts)) in [a, b].into_iter().zip(scripts).enumerate() {
                let (c, wrong, done) = (Rc::new(c.clone()), w2.clone(), d2.clone());
                let last = c.last == Some(me as u8);
                exec::spawn(me, "party", true, async move {
                    match c.uses[me] {
                        Use::Managed => {
                            let mut h: Handle = ChannelHandle::manage(ch);
                            managed(&c, me, &acts, &mut h, &wrong).await;
                            if last {
                                for _ in 0..2 {
                                    let r = flat(h.recv().await.await);
                                    at_end(me, Some(r), &wrong).await;
                                }
                            }
                            if c.finish {
                                if let Err(e) = h.finish().await {
                                    fail(&wrong, || format!("party {me}: finishing failed: {e:?}"));
                                }
                            }
                        }
                        Use::Direct => {
                            let mut ch = ch;
                            direct(&c, me, &acts, &mut ch, &wrong).await;
                            if last {
                                for _ in 0..2 {
                                    let r = ch.next().await.map(|r| r.map_err(|e| format!("{e:?}")));
                                    at_end(me, r, &wrong).await;
                                }
                            }
                            if c.finish {
                                exec::count("ops.close");
                                // whether it succeeds depends on how the peer leaves (C15)
                                if me == 1 && c.evs.len() & 1 == 0 {
                                    let _ = SinkExt::<AnyMsg>::close(&mut ch).await;
                                } else {
                                    let _ = ch.close::<AnyMsg>().await;
                                }
                            }
                        }
                        Use::Split => {
                            let (mut w, mut r) = ch.split();
                            let (tx, rx) = oneshot::channel();
                            let sends: Vec<usize> = acts.iter().filter_map(|a| if let Act::Send { ev } = a { Some(*ev) } else { None }).collect();
                            let recvs: Vec<usize> = acts.iter().filter_map(|a| if let Act::Recv { ev, .. } = a { Some(*ev) } else { None }).collect();
                            let (c2, wrong2) = (c.clone(), wrong.clone());
                            exec::spawn(me, "sender", false, async move {
                                for ev in sends {
                                    if let Err(e) = w.send(c2.msg(ev)).await {
                                        fail(&wrong2, || format!("party {me}: sending message {ev} failed: {e:?}"));
                                    }
                                }
                                let _ = tx.send(w);
                            });
                            for ev in recvs {
                                let got = match r.next().await {
                                    Some(x) => x.map_err(|e| format!("{e:?}")),
                                    None => Err("end of stream".into()),
                                };
                                check_got(&wrong, &c, me, ev, got);
                            }
                            let w = rx.await;
                            if last {
                                let got = r.next().await.map(|r| r.map_err(|e| format!("{e:?}")));
                                at_end(me, got, &wrong).await;
                            }
                            drop(w);
                        }
                    }
                    done.borrow_mut()[me] = true;
                });
            }
        });
        out.absorb(&rep);
        if let Some(v) = panic_violation(&rep, |_| false) {
            out.fail(v);
        }
        if let Some(w) = wrong.borrow().clone() {
            out.fail(Violation::new("wrong delivery", "wrong delivery", w));
        }
        if rep.end != End::Done {
            out.fail(Violation::new("stuck", "stuck", format!("{:?} at {:.3}s: done {:?}, unfinished {:?}", rep.end, secs(rep.time), done.borrow(), rep.unfinished)));
        }
        out.nontrivial = out.violation.is_none() && c.evs.iter().any(|e| e.to < 2 && e.to != e.from);
        *out.counters.entry(format!("codec.{:?}", c.kind)).or_insert(0) += 1;
        *out.counters.entry("ops.message".into()).or_insert(0) += c.evs.len() as u64;
        if c.evs.iter().any(|e| e.len > 1_000_000) {
            out.count("probe.message_over_1MB");
        }
        for u in c.uses {
            *out.counters.entry(format!("use.{u:?}")).or_insert(0) += 1;
        }
        out
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = hist::shrink(&c.evs).into_iter().map(|evs| Case { evs, ..c.clone() }).collect();
        for k in 0..2 {
            for p in c.pipes[k].shrink() {
                let mut d = c.clone();
                d.pipes[k] = p;
                v.push(d);
            }
            if c.uses[k] != Use::Managed {
                let mut d = c.clone();
                d.uses[k] = Use::Managed;
                v.push(d);
            }
        }
        if c.last.is_some() {
            v.push(Case { last: None, ..c.clone() });
        }
        if c.stall_rate > 0 {
            v.push(Case { stall_rate: 0, ..c.clone() });
        }
        v
    }
}

// ---------------------------------------------------------------------------------------------- C15

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Close {
    Close,
    Leave,
    /// sends this many more messages, then leaves
    SendMore(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Plan {
    /// everything is sent and received over broken streams
    Stream,
    /// party 0 closes its channel having received all but this many messages; what party 1 does then
    Close { unread: u8, other: Close },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case15 {
    pub kind: Kind,
    pub managed: [bool; 2],
    pub pipes: [PipeCfg; 2],
    /// per sender: (length, seed)
    pub msgs: [Vec<(u32, u64)>; 2],
    pub faults: [Faults; 2],
    /// receives beyond the messages that are due
    pub extra: u8,
    /// all receives are requested before anything is sent
    pub ahead: bool,
    pub plan: Plan,
}
pub struct Broke;

impl Case15 {
    fn msg(&self, from: usize, k: usize) -> AnyMsg {
        let (len, seed) = self.msgs[from][k];
        self.kind.message(len as usize, seed)
    }
    /// everything party `from` writes if nothing fails
    fn wire(&self, from: usize) -> Vec<u8> {
        (0..self.msgs[from].len()).flat_map(|k| self.kind.frame(&self.msg(from, k))).collect()
    }
    fn ends(&self, from: usize) -> Vec<u64> {
        let mut t = 0;
        (0..self.msgs[from].len())
            .map(|k| {
                t += self.kind.frame(&self.msg(from, k)).len() as u64;
                t
            })
            .collect()
    }
    /// what the other party's decoder gets to see
    fn seen(&self, from: usize) -> Vec<u8> {
        let mut d = self.wire(from);
        let f = &self.faults[from];
        if let Some((k, _)) = f.write_end {
            d.truncate(k as usize);
        }
        if let Some((k, _)) = f.read_end {
            d.truncate(k as usize);
        }
        for (o, b) in &f.flips {
            if let Some(x) = d.get_mut(*o as usize) {
                *x ^= 1 << (b % 8);
            }
        }
        d
    }
}

/// Is this sequence of results what a stream with these items may give? After a malformed item
/// at least one error comes before anything else; after the last item there are only errors.
fn explain(items: &[Item], results: &[Result<Vec<u8>, String>]) -> Result<(), String> {
    let mut next = 0;
    let mut errs_since = 0;
    for (i, r) in results.iter().enumerate() {
        match r {
            Ok(m) => {
                let mut bad = 0;
                while matches!(items.get(next), Some(Item::Bad)) {
                    bad += 1;
                    next += 1;
                }
                match items.get(next) {
                    Some(Item::Good(g)) if g == m => next += 1,
                    Some(Item::Good(g)) => return Err(format!("receive {i} returned {} where {} is on the stream", show(m), show(g))),
                    _ => return Err(format!("receive {i} returned {}, but nothing more is on the stream", show(m))),
                }
                if errs_since < bad {
                    return Err(format!("receive {i} returned a message after {bad} malformed ones, with {errs_since} errors in between"));
                }
                if bad == 0 && errs_since > 0 {
                    return Err(format!("{errs_since} errors before receive {i} although all messages up to it are complete and well-formed"));
                }
                errs_since = 0;
            }
            Err(_) => {
                if errs_since == 0 && matches!(items.get(next), Some(Item::Good(_))) {
                    let Some(Item::Good(g)) = items.get(next) else { unreachable!() };
                    return Err(format!("receive {i} failed ({}) although message {next}, {}, is complete and well-formed", r.as_ref().unwrap_err(), show(g)));
                }
                errs_since += 1;
            }
        }
    }
    Ok(())
}

#[derive(Default)]
struct Log15 {
    receipts: Vec<Option<Result<(), String>>>,
    results: Vec<Result<Vec<u8>, String>>,
    closed: Option<Result<(), String>>,
    after: Vec<String>,
}

impl Broke {
    fn streams(&self, c: &Case15, mode: &Mode, log: bool, out: &mut RunOut) {
        let logs: Vec<Rc<RefCell<Log15>>> = (0..2).map(|_| Default::default()).collect();
        let l2 = logs.clone();
        let here = Rc::new(RefCell::new(0));
        let rep = simulate(&PacketCfg::calm(), 1, mode, log, 3600 * SEC, || {
            let (a, b) = links(&c.pipes, &c.faults, c.kind);
            for (me, ch) in [a, b].into_iter().enumerate() {
                let (c, log, here) = (Rc::new(c.clone()), l2[me].clone(), here.clone());
                exec::spawn(me, "party", true, async move {
                    let (n, m) = (c.msgs[me].len(), c.msgs[1 - me].len() + c.extra as usize);
                    log.borrow_mut().receipts = vec![None; n];
                    if c.managed[me] {
                        let mut h: Handle = ChannelHandle::manage(ch);
                        let mut recvs = vec![];
                        if c.ahead {
                            for _ in 0..m.min(8) {
                                recvs.push(h.recv().await);
                            }
                        }
                        let mut sends = vec![];
                        for k in 0..n {
                            sends.push(h.send(c.msg(me, k)).await);
                        }
                        while recvs.len() < m {
                            // keep several outstanding
                            let r = h.recv().await;
                            recvs.push(r);
                        }
                        for r in recvs {
                            let r = flat(r.await).map(|m| m.canon());
                            exec::observe(&[51, me as u64, r.is_ok() as u64]);
                            exec::log(|| format!("party {me}: receive gives {:?}", r.as_ref().map(|m| show(m))));
                            log.borrow_mut().results.push(r);
                        }
                        for (k, s) in sends.into_iter().enumerate() {
                            let r = flat(s.await);
                            exec::log(|| format!("party {me}: send {k}: {r:?}"));
                            log.borrow_mut().receipts[k] = Some(r);
                        }
                        *here.borrow_mut() += 1;
                        while *here.borrow() < 2 {
                            exec::sleep(MS).await;
                        }
                        if me == 0 {
                            drop(h);
                            return;
                        }
                        // the peer is gone: the transport takes nothing more
                        exec::sleep(100 * MS).await;
                        for _ in 0..2 {
                            let m = c.kind.message(5, 5);
                            if flat(h.send(m).await.await).is_ok() {
                                log.borrow_mut().after.push("a send to a peer that is gone reported success".into());
                            }
                            // what is still on the stream may come, then errors
                            let r = flat(h.recv().await.await).map(|m| m.canon());
                            log.borrow_mut().results.push(r);
                        }
                    } else {
                        let (mut w, mut r) = ch.split();
                        let (c2, log2) = (c.clone(), log.clone());
                        let (tx, rx) = oneshot::channel();
                        exec::spawn(me, "sender", false, async move {
                            for k in 0..n {
                                let x = w.send(c2.msg(me, k)).await;
                                log2.borrow_mut().receipts[k] = Some(x.map_err(|e| format!("{e:?}")));
                            }
                            let _ = tx.send(w);
                        });
                        for _ in 0..m {
                            let x = match r.next().await {
                                None => Err("end of stream".to_string()),
                                Some(x) => x.map(|m| m.canon()).map_err(|e| format!("{e:?}")),
                            };
                            exec::observe(&[52, me as u64, x.is_ok() as u64]);
                            log.borrow_mut().results.push(x);
                        }
                        let w = rx.await;
                        *here.borrow_mut() += 1;
                        while *here.borrow() < 2 {
                            exec::sleep(MS).await;
                        }
                        drop(w);
                    }
                });
            }
        });
        out.absorb(&rep);
        if let Some(v) = panic_violation(&rep, |_| false) {
            out.fail(v);
        }
        for me in 0..2 {
            let l = logs[me].borrow();
            let from = 1 - me;
            let (items, _) = codec::reference(c.kind, &c.seen(from));
            if let Err(e) = explain(&items, &l.results) {
                out.fail(Violation::new("wrong results", "wrong results", format!("party {me}: {e} ({} well-formed items on the stream, faults {:?})", items.iter().filter(|i| **i != Item::Bad).count(), c.faults[from])));
            }
            for t in &l.after {
                out.fail(Violation::new("no error", "no error", format!("party {me}: {t}")));
            }
            let limit = c.faults[me].write_end.map(|w| w.0).unwrap_or(u64::MAX);
            for (k, (r, end)) in l.receipts.iter().zip(c.ends(me)).enumerate() {
                match r {
                    Some(Ok(())) if end > limit => out.fail(Violation::new("false success", "false success", format!("party {me}: send {k} (ends at byte {end}) reported success although the transport failed at byte {limit}"))),
                    Some(Err(e)) if end <= limit => out.fail(Violation::new("false error", "false error", format!("party {me}: send {k} (ends at byte {end}) reported {e} although the transport took everything up to byte {limit}"))),
                    Some(Err(_)) => out.count("probe.send_error_reported"),
                    _ => {}
                }
            }
            if items.contains(&Item::Bad) {
                out.count("probe.malformed_frame");
            }
            if l.results.iter().any(|r| r.is_err()) {
                out.count("probe.receive_error_reported");
            }
        }
        if rep.end != End::Done {
            let l: Vec<String> = logs.iter().map(|l| format!("{} results, {} receipts open", l.borrow().results.len(), l.borrow().receipts.iter().filter(|r| r.is_none()).count())).collect();
            out.fail(Violation::new("stuck", "stuck", format!("{:?} at {:.3}s although both streams end: {l:?}, unfinished {:?}", rep.end, secs(rep.time), rep.unfinished)));
        }
        out.nontrivial = out.violation.is_none();
    }

    fn closing(&self, c: &Case15, unread: usize, other: Close, mode: &Mode, log: bool, out: &mut RunOut) {
        let logs: Vec<Rc<RefCell<Log15>>> = (0..2).map(|_| Default::default()).collect();
        let l2 = logs.clone();
        let here = Rc::new(RefCell::new(0));
        let read = c.msgs[1].len().saturating_sub(unread);
        let rep = simulate(&PacketCfg::calm(), 1, mode, log, 3600 * SEC, || {
            let (a, b) = links(&c.pipes, &c.faults, c.kind);
            for (me, mut ch) in [a, b].into_iter().enumerate() {
                let (c, log, here) = (Rc::new(c.clone()), l2[me].clone(), here.clone());
                exec::spawn(me, "party", true, async move {
                    let before = if me == 0 { c.msgs[0].len() } else { read };
                    for k in 0..before {
                        let r = ch.send(c.msg(me, k)).await;
                        log.borrow_mut().receipts.push(Some(r.map_err(|e| format!("{e:?}"))));
                    }
                    for _ in 0..if me == 0 { read } else { c.msgs[0].len() } {
                        let x = match ch.next().await {
                            None => Err("end of stream".to_string()),
                            Some(x) => x.map(|m| m.canon()).map_err(|e| format!("{e:?}")),
                        };
                        log.borrow_mut().results.push(x);
                    }
                    *here.borrow_mut() += 1;
                    while *here.borrow() < 2 {
                        exec::sleep(MS).await;
                    }
                    if me == 0 {
                        let r = ch.close::<AnyMsg>().await.map_err(|e| format!("{e:?}"));
                        exec::log(|| format!("close: {r:?}"));
                        log.borrow_mut().closed = Some(r);
                        return;
                    }
                    // unread messages
                    for k in read..c.msgs[1].len() {
                        let _ = ch.send(c.msg(1, k)).await;
                    }
                    match other {
                        Close::Close => {
                            let r = ch.close::<AnyMsg>().await.map_err(|e| format!("{e:?}"));
                            log.borrow_mut().closed = Some(r);
                        }
                        Close::Leave => drop(ch),
                        Close::SendMore(n) => {
                            for k in 0..n {
                                let _ = ch.send(c.kind.message(k as usize * 7, 9)).await;
                            }
                        }
                    }
                });
            }
        });
        out.absorb(&rep);
        if let Some(v) = panic_violation(&rep, |_| false) {
            out.fail(v);
        }
        let l = logs[0].borrow();
        let more = if let Close::SendMore(n) = other { n > 0 } else { false };
        let mut stream = c.wire(1);
        if let Close::SendMore(n) = other {
            for k in 0..n {
                stream.extend(c.kind.frame(&c.kind.message(k as usize * 7, 9)));
            }
        }
        let f = &c.faults[1];
        if let Some((k, _)) = f.read_end {
            stream.truncate(k as usize);
        }
        let (items, rest) = codec::reference(c.kind, &stream);
        let read_error = matches!(f.read_end, Some((k, b)) if b != Broken::Eof && stream.len() as u64 == k);
        let clean = items.len() <= read && rest == 0 && !read_error;
        // a stream that ends between the length and the body of a frame looks like a clean end to
        // tokio-util's framing; no data of a message is left unread, so both answers are accepted
        let unsure = items.len() <= read && rest == (if c.kind == Kind::Lines { 2 } else { 4 }) && !read_error;
        let writes_ok = !c.faults[0].shutdown_fails;
        match (&l.closed, clean && writes_ok) {
            (None, _) => out.fail(Violation::new("close stuck", "close stuck", format!("closing the channel did not finish: {:?} at {:.3}s", rep.end, secs(rep.time)))),
            (Some(_), false) if unsure && writes_ok => out.count("probe.close_after_bare_length"),
            (Some(Ok(())), false) => out.fail(Violation::new("close succeeds", "close succeeds", format!("closing succeeded although the peer's stream did not end cleanly right after the {read} received messages ({} messages, remainder {rest}, sent more {more}, faults {:?})", items.len(), c.faults))),
            (Some(Err(e)), true) => out.fail(Violation::new("close fails", "close fails", format!("closing failed ({e}) although the peer left cleanly without unread data ({other:?}, faults {:?})", c.faults))),
            _ => {}
        }
        if let Some(Ok(())) = l.closed {
            out.count("probe.close_ok");
        } else {
            out.count("probe.close_refused");
        }
        if rep.end != End::Done && out.violation.is_none() {
            out.fail(Violation::new("stuck", "stuck", format!("{:?} at {:.3}s, unfinished {:?}", rep.end, secs(rep.time), rep.unfinished)));
        }
        out.nontrivial = out.violation.is_none();
    }
}

impl Property for Broke {
    type Case = Case15;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> String {
        "case = codec x use per party (handle, or split sink and stream) x up to 12 messages per direction x per direction: the stream ends or fails at a byte offset (frame boundaries, inside the length, inside the payload), up to 3 flipped bits anywhere, the transport refuses to take more at a byte offset; receives requested before, during and beyond the messages that are due; afterwards sends and receives with the peer gone. One case in four closes a channel with the peer closing, leaving, having sent more, or broken. Oracle: a reference decoder over the bytes that got through. Non-trivial: all operations resolved".into()
    }
    fn real(&self) -> Vec<String> {
        Intact.real()
    }
    fn stubbed(&self) -> Vec<String> {
        Intact.stubbed()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a failed transport stays failed".into(), "the reference decoder uses bincode itself for the payload of one frame".into()]
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (400_000, 40.0)
        } else {
            (40_000_000, 600.0)
        }
    }
    fn gen(&self, _i: usize, r: &mut Rng64, _tier: Tier) -> Case15 {
        let kind = *r.pick(&[Kind::Bytes, Kind::Bincode, Kind::Bincode, Kind::Lines]);
        let plan = if r.chance(1, 4) {
            Plan::Close { unread: if r.chance(1, 3) { 1 + r.below(2) as u8 } else { 0 }, other: *r.pick(&[Close::Close, Close::Close, Close::Leave, Close::SendMore(1), Close::SendMore(3)]) }
        } else {
            Plan::Stream
        };
        let max = if r.chance(1, 4) { 12 } else { 4 };
        let mut list = |r: &mut Rng64| -> Vec<(u32, u64)> { (0..r.below(max)).map(|_| (if r.chance(1, 30) { 1000 + r.below(40_000) as u32 } else { r.below(60) as u32 }, r.next())).collect() };
        let msgs = [list(r), list(r)];
        let mut c = Case15 {
            kind,
            managed: [r.chance(2, 3), r.chance(2, 3)],
            pipes: [PipeCfg::calm(), PipeCfg::calm()],
            msgs,
            faults: Default::default(),
            extra: r.below(4) as u8,
            ahead: r.chance(1, 2),
            plan,
        };
        for p in 0..2 {
            let ends = c.ends(p);
            let total = ends.last().copied().unwrap_or(0);
            c.pipes[p] = PipeCfg { cap: usize::MAX, ..PipeCfg::gen(r, total) };
            // a byte offset, often near the edges of a message
            let at = |r: &mut Rng64| -> u64 {
                if ends.is_empty() || r.chance(1, 4) {
                    return r.below(total + 1);
                }
                let k = r.usize(ends.len());
                let (s, e) = (if k == 0 { 0 } else { ends[k - 1] }, ends[k]);
                match r.below(5) {
                    0 => e,
                    1 => (s + r.below(5)).min(e),
                    2 => e - 1,
                    _ => s + r.below(e - s + 1),
                }
            };
            let broken = |r: &mut Rng64| *r.pick(&[Broken::Eof, Broken::Eof, Broken::Reset, Broken::TimedOut, Broken::Aborted]);
            let f = &mut c.faults[p];
            match &c.plan {
                Plan::Stream => {
                    if r.chance(1, 3) {
                        f.write_end = Some((at(r), broken(r)));
                    }
                    let mut k = if r.chance(1, 2) { at(r) } else { total };
                    if let Some((w, _)) = f.write_end {
                        k = k.min(w);
                    }
                    f.read_end = Some((k, broken(r)));
                    if r.chance(1, 2) && total > 0 {
                        f.flips = (0..1 + r.below(3)).map(|_| (at(r).min(total - 1), r.below(8) as u8)).collect();
                    }
                }
                Plan::Close { unread, .. } => {
                    if p == 0 {
                        f.shutdown_fails = r.chance(1, 8);
                    } else if r.chance(1, 3) {
                        // after the part that is read
                        let read = ends.len().saturating_sub(*unread as usize);
                        let s = if read == 0 { 0 } else { ends[read - 1] };
                        f.read_end = Some((s + r.below(total - s + 12), broken(r)));
                    }
                }
            }
        }
        c
    }
    fn run(&self, c: &Case15, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        match c.plan {
            Plan::Stream => self.streams(c, mode, log, &mut out),
            Plan::Close { unread, other } => self.closing(c, unread as usize, other, mode, log, &mut out),
        }
        *out.counters.entry(format!("codec.{:?}", c.kind)).or_insert(0) += 1;
        out
    }
    fn shrink(&self, c: &Case15) -> Vec<Case15> {
        let mut v = vec![];
        for p in 0..2 {
            for k in 0..c.pipes[p].shrink().len() {
                let mut d = c.clone();
                d.pipes[p] = PipeCfg { cap: usize::MAX, ..c.pipes[p].shrink()[k].clone() };
                if d.pipes[p] != c.pipes[p] {
                    v.push(d);
                }
            }
            for k in 0..c.faults[p].flips.len() {
                let mut d = c.clone();
                d.faults[p].flips.remove(k);
                v.push(d);
            }
            if c.faults[p].write_end.is_some() {
                let mut d = c.clone();
                d.faults[p].write_end = None;
                v.push(d);
            }
            // drop the last message and what lies beyond it
            if !c.msgs[p].is_empty() {
                let mut d = c.clone();
                d.msgs[p].pop();
                let total = d.ends(p).last().copied().unwrap_or(0);
                let f = &mut d.faults[p];
                f.flips.retain(|x| x.0 < total);
                f.write_end = f.write_end.map(|(k, b)| (k.min(total), b));
                f.read_end = f.read_end.map(|(k, b)| (k.min(total), b));
                if matches!(c.plan, Plan::Stream) {
                    v.push(d);
                }
            }
        }
        if c.extra > 1 {
            v.push(Case15 { extra: 1, ..c.clone() });
        }
        if c.ahead {
            v.push(Case15 { ahead: false, ..c.clone() });
        }
        v
    }
}
