//! C16: connection setup of two to five parties through `MpcNetworkHandler`.
use crate::codec::{Line, Note};
use crate::stack::{assume_stack, panic_violation, real_stack, simulate, stub_stack};
use crate::tls::{self, Ident};
use crate::udp::{secs, PacketCfg};
use bytes::Bytes;
use futures::{SinkExt, StreamExt};
use mpc_net::channel::{Channel, ChannelHandle};
use mpc_net::config::NetworkConfig;
use mpc_net::MpcNetworkHandler;
use serde::{Deserialize, Serialize};
use simcore::exec::{self, End, Mode, MS, SEC};
use simcore::rng::{mix, Rng64};
use simcore::runner::{Property, RunOut, Tier, Violation};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Refuse {
    OwnIdMissing,
    DuplicateId,
    CertMissing,
    CertGarbage,
    KeyMissing,
    KeyGarbage,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Twist {
    /// this party's configuration is wrong; it has to get an error
    Refused { party: u8, how: Refuse },
    /// this party serves with an identity that is not the one configured for its id
    Impostor { party: u8, ident: Ident },
    /// an outsider connects to everyone and announces an id that is not configured
    Rogue { id: u32 },
    /// an outsider announces the id of this party, some time after the start
    Twin { party: u8, at_ms: u64 },
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Codec {
    Bytes,
    Bincode,
    Lines,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Set {
    pub codec: Codec,
    /// messages exchanged with every peer
    pub count: u8,
    /// through handles (finished at the end) or directly (closed at the end)
    pub managed: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub net: PacketCfg,
    pub entropy: u64,
    pub ids: Vec<usize>,
    pub orders: Vec<Vec<usize>>,
    pub starts_ms: Vec<u64>,
    pub sets: Vec<Set>,
    pub twist: Option<Twist>,
}

fn text(set: usize, from: usize, to: usize, k: usize, ids: &[usize]) -> String {
    let tag = mix(&[set as u64, from as u64, to as u64, k as u64]);
    let pad = "x".repeat((tag % 400) as usize);
    format!("set {set} message {k} from id {} to id {} {tag:x} {pad}", ids[from], ids[to])
}

#[derive(Default, Clone, Debug)]
pub struct PLog {
    pub up: Option<Result<u64, String>>,
    pub wrong: Option<String>,
    pub err: Option<String>,
    pub done: Option<u64>,
}
type LogRef = Rc<RefCell<PLog>>;

/// What has to be true of a set of ids found at a party.
fn peers_of(me: usize, ids: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = ids.iter().copied().filter(|x| *x != ids[me]).collect();
    v.sort_unstable();
    v
}

/// Exchange messages on one channel set. Every message says who sent it to whom.
async fn exchange<M, C, FMake, FShow>(
    set: usize,
    spec: &Set,
    // a peer may then be gone as soon as it has everything
    last: bool,
    me: usize,
    ids: &[usize],
    chans: std::collections::HashMap<usize, Channel<quinn::RecvStream, quinn::SendStream, C>>,
    make: FMake,
    show: FShow,
) -> Result<(), Result<String, String>>
where
    M: Send + std::fmt::Debug + 'static,
    C: tokio_util::codec::Encoder<M, Error = std::io::Error> + tokio_util::codec::Decoder<Error = std::io::Error> + Send + 'static,
    <C as tokio_util::codec::Decoder>::Item: Send + std::fmt::Debug + 'static,
    FMake: Fn(String) -> M,
    FShow: Fn(<C as tokio_util::codec::Decoder>::Item) -> String,
{
    // outer error: Ok(wrong) is a violation by itself, Err(e) an operation that failed
    let mut got: Vec<usize> = chans.keys().copied().collect();
    got.sort_unstable();
    if got != peers_of(me, ids) {
        return Err(Ok(format!("id {}: channel set {set} has channels to {got:?}, expected {:?}", ids[me], peers_of(me, ids))));
    }
    let mut chans: Vec<(usize, Channel<_, _, C>)> = chans.into_iter().collect();
    chans.sort_by_key(|c| c.0);
    let index = |id: usize| ids.iter().position(|x| *x == id).unwrap();
    let bad = |id: usize, k: usize, got: &str, want: &str| {
        Err(Ok(format!("id {}: message {k} of set {set} on the channel to id {id} is {:?}..., expected {:?}...", ids[me], &got[..got.len().min(70)], &want[..want.len().min(70)])))
    };
    if spec.managed {
        let mut h: Vec<(usize, ChannelHandle<M, _>)> = chans.into_iter().map(|(id, c)| (id, ChannelHandle::manage(c))).collect();
        for k in 0..spec.count as usize {
            let mut receipts = vec![];
            for (id, h) in h.iter_mut() {
                receipts.push((*id, h.send(make(text(set, me, index(*id), k, ids))).await));
            }
            for (id, h) in h.iter_mut() {
                let m = match h.recv().await.await {
                    Ok(Ok(m)) => show(m),
                    Ok(Err(e)) => return Err(Err(format!("receive from id {id} in set {set}: {e:?}"))),
                    Err(_) => return Err(Err(format!("receive from id {id} in set {set}: no result"))),
                };
                let want = text(set, index(*id), me, k, ids);
                if m != want {
                    return bad(*id, k, &m, &want);
                }
            }
            for (id, r) in receipts {
                if !matches!(r.await, Ok(Ok(()))) {
                    return Err(Err(format!("send to id {id} in set {set} reported no success")));
                }
            }
        }
        for (id, h) in h {
            // the peer may already have stopped this stream, having received everything
            if let Err(e) = h.finish().await {
                exec::log(|| format!("finishing the channel to id {id}: {e:?}"));
            }
        }
    } else {
        for k in 0..spec.count as usize {
            for (id, c) in chans.iter_mut() {
                c.send(make(text(set, me, index(*id), k, ids))).await.map_err(|e| Err(format!("send to id {id}: {e:?}")))?;
            }
            for (id, c) in chans.iter_mut() {
                let m = match c.next().await {
                    Some(Ok(m)) => show(m),
                    Some(Err(e)) => return Err(Err(format!("receive from id {id} in set {set}: {e:?}"))),
                    None => return Err(Err(format!("receive from id {id} in set {set}: end of stream"))),
                };
                let want = text(set, index(*id), me, k, ids);
                if m != want {
                    return bad(*id, k, &m, &want);
                }
            }
        }
        let all = chans.into_iter().map(|(id, c)| async move { (id, c.close::<M>().await) });
        for (id, r) in futures::future::join_all(all).await {
            if !last {
                r.map_err(|e| Err(format!("closing the channel to id {id}: {e:?}")))?;
            }
        }
    }
    Ok(())
}

async fn traffic(h: &mut MpcNetworkHandler, me: usize, ids: &[usize], sets: &[Set]) -> Result<(), Result<String, String>> {
    for (s, spec) in sets.iter().enumerate() {
        let e = |e: std::io::Error| Err::<String, _>(format!("opening channel set {s}: {e:?}"));
        match spec.codec {
            Codec::Bytes => {
                let c = h.get_byte_channels().await.map_err(e)?;
                exchange(s, spec, s + 1 == sets.len(), me, ids, c, |t| Bytes::from(t.into_bytes()), |b| String::from_utf8_lossy(&b).into_owned()).await?
            }
            Codec::Bincode => {
                let c = h.get_serde_bincode_channels::<Note>().await.map_err(e)?;
                exchange(s, spec, s + 1 == sets.len(), me, ids, c, Note::text, |n: Note| n.to_text()).await?
            }
            Codec::Lines => {
                let c = h.get_custom_channels::<String, String, Line>(Line::default()).await.map_err(e)?;
                exchange(s, spec, s + 1 == sets.len(), me, ids, c, |t| t, |t| t).await?
            }
        }
    }
    Ok(())
}

/// The labels of the connections a party ended up with.
fn labels(h: &MpcNetworkHandler, me: usize, ids: &[usize], probe: &[usize]) -> Option<String> {
    let want = peers_of(me, ids);
    let mut out = Vec::new();
    if let Err(e) = h.print_connection_stats(&mut out) {
        return Some(format!("id {}: print_connection_stats: {e}", ids[me]));
    }
    let out = String::from_utf8_lossy(&out).into_owned();
    let listed: Vec<usize> = out.lines().filter_map(|l| l.strip_prefix("Connection ")?.split(' ').next()?.parse().ok()).collect();
    if listed != want {
        return Some(format!("id {}: connections to {listed:?}, expected {want:?}", ids[me]));
    }
    for id in want.iter().chain(probe).copied().chain([ids[me]]) {
        let known = h.get_send_receive(id).is_ok();
        if known != want.contains(&id) {
            return Some(format!("id {}: traffic counters of id {id}: {known}", ids[me]));
        }
    }
    for id in &want {
        let (s, r) = h.get_send_receive(*id).unwrap();
        if s == 0 || r == 0 {
            return Some(format!("id {}: connection to {id} was set up with {s} bytes sent and {r} received", ids[me]));
        }
    }
    None
}

fn config_of(c: &Case, i: usize) -> NetworkConfig {
    let n = c.ids.len();
    let mut cfg = tls::config(i, &c.ids, &c.orders[i]);
    match &c.twist {
        Some(Twist::Refused { party, how }) if *party as usize == i => {
            let own = cfg.parties.iter().position(|p| p.id == c.ids[i]).unwrap();
            match how {
                Refuse::OwnIdMissing => {
                    cfg.parties.remove(own);
                }
                Refuse::DuplicateId => {
                    let other = cfg.parties[(own + 1) % n].id;
                    let third = (own + 2) % n;
                    if n > 2 {
                        cfg.parties[third].id = other;
                    } else {
                        cfg.parties[own].id = other;
                        cfg.my_id = other;
                    }
                }
                Refuse::CertMissing => cfg.parties[own].cert_path = "/nonexistent/cert.der".into(),
                Refuse::CertGarbage => cfg.parties[own].cert_path = tls::garbage(),
                Refuse::KeyMissing => cfg.key_path = "/nonexistent/key.der".into(),
                Refuse::KeyGarbage => cfg.key_path = tls::garbage(),
            }
        }
        Some(Twist::Impostor { party, ident }) if *party as usize == i => {
            let (cert, key) = tls::files(*ident);
            cfg.key_path = key;
            cfg.parties.iter_mut().filter(|p| p.id == c.ids[i]).for_each(|p| p.cert_path = cert.clone());
        }
        _ => {}
    }
    cfg
}

pub struct Setup;

impl Setup {
    fn execute(&self, c: &Case, mode: &Mode, log: bool, max_time: u64) -> (exec::Report, Vec<PLog>) {
        let n = c.ids.len();
        let logs: Vec<LogRef> = (0..n).map(|_| LogRef::default()).collect();
        let ls = logs.clone();
        let left = Rc::new(RefCell::new(n));
        let rep = simulate(&c.net, c.entropy, mode, log, max_time, || {
            for i in 0..n {
                let (log, c, left) = (ls[i].clone(), c.clone(), left.clone());
                exec::spawn(i, "party", true, async move {
                    exec::sleep(c.starts_ms[i] * MS).await;
                    let r = MpcNetworkHandler::establish(config_of(&c, i)).await;
                    exec::log(|| format!("party {i} setup: {:?}", r.as_ref().map(|_| "ok").map_err(|e| format!("{e:#}"))));
                    let mut h = match r {
                        Ok(h) => h,
                        Err(e) => {
                            log.borrow_mut().up = Some(Err(format!("{e:#} at {:.3}s", secs(exec::now()))));
                            return;
                        }
                    };
                    log.borrow_mut().up = Some(Ok(exec::now()));
                    let mut probe = vec![0, 1, 2, 77, usize::MAX, 1 << 32];
                    if let Some(Twist::Rogue { id }) = c.twist {
                        probe.push(id as usize);
                    }
                    if let Some(w) = labels(&h, i, &c.ids, &probe) {
                        log.borrow_mut().wrong = Some(w);
                        return;
                    }
                    if c.twist.is_some() {
                        // keep the connections for the others
                        exec::sleep(40 * SEC).await;
                        return;
                    }
                    match traffic(&mut h, i, &c.ids, &c.sets).await {
                        Ok(()) => {}
                        Err(Ok(w)) => {
                            log.borrow_mut().wrong = Some(w);
                            return;
                        }
                        Err(Err(e)) => {
                            exec::log(|| format!("party {i}: {e}"));
                            log.borrow_mut().err = Some(format!("{e} at {:.3}s", secs(exec::now())));
                            return;
                        }
                    }
                    if c.sets.is_empty() {
                        // nothing tells this party that the others are set up
                        *left.borrow_mut() -= 1;
                        while *left.borrow() > 0 {
                            exec::sleep(20 * MS).await;
                        }
                    }
                    h.shutdown().await;
                    exec::log(|| format!("party {i} finished"));
                    log.borrow_mut().done = Some(exec::now());
                });
            }
            if let Some(Twist::Twin { party, at_ms }) = c.twist {
                let p = party as usize;
                let ids: Vec<usize> = c.ids.iter().copied().chain([c.ids[p]]).collect();
                let order: Vec<usize> = (0..=n).filter(|i| *i != p).collect();
                exec::spawn(n, "twin", false, async move {
                    exec::sleep(at_ms * MS).await;
                    let _ = MpcNetworkHandler::establish(tls::config(n, &ids, &order)).await;
                    exec::sleep(200 * SEC).await;
                });
            }
            if let Some(Twist::Rogue { id }) = c.twist {
                let ids: Vec<usize> = c.ids.iter().copied().chain([id as usize]).collect();
                let order: Vec<usize> = (0..=n).collect();
                exec::spawn(n, "rogue", false, async move {
                    let _ = MpcNetworkHandler::establish(tls::config(n, &ids, &order)).await;
                    exec::sleep(200 * SEC).await;
                });
            }
        });
        (rep, logs.iter().map(|l| l.borrow().clone()).collect())
    }
}

impl Property for Setup {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> String {
        "case = 2 to 5 parties with arbitrary distinct ids x configuration list order per party x start delays up to 20 s x packet network (delay, jitter, loss, duplication, reordering, corruption, busy sockets, stalls, cuts up to 3 s) x up to 3 channel sets (bytes, bincode, custom codec; direct or managed) over which every pair exchanges messages naming sender, receiver and set, then a shutdown. One case in five instead has a configuration to be refused, a server with an identity other than the configured one, or an outsider announcing an unknown id or the id of a party. Non-trivial: every party set up, all messages exchanged, all shut down; or the refusal observed".into()
    }
    fn real(&self) -> Vec<String> {
        real_stack(&["mpc-net: configuration check, connection statistics"])
    }
    fn stubbed(&self) -> Vec<String> {
        stub_stack()
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = assume_stack();
        v.push("clients are not authenticated by TLS: an outsider that announces the id of a party that has not connected yet takes its place (not covered)".into());
        v
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (30_000, 60.0)
        } else {
            (10_000_000, 760.0)
        }
    }
    fn gen(&self, _i: usize, r: &mut Rng64, _tier: Tier) -> Case {
        let n = *r.pick(&[2, 3, 3, 3, 4, 5]) as usize;
        let mut ids: Vec<usize> = vec![];
        let style = r.below(3);
        while ids.len() < n {
            let id = match style {
                0 => ids.len(),
                1 => r.usize(12),
                _ => *r.pick(&[0, 1, 2, 5, 100, 255, 256, 65_536, 1 << 31, u32::MAX as usize]),
            };
            if !ids.contains(&id) {
                ids.push(id);
            }
        }
        for k in (1..n).rev() {
            ids.swap(k, r.usize(k + 1));
        }
        let orders = (0..n)
            .map(|_| {
                let mut o: Vec<usize> = (0..n).collect();
                if r.chance(2, 3) {
                    for k in (1..n).rev() {
                        o.swap(k, r.usize(k + 1));
                    }
                }
                o
            })
            .collect();
        let spread = *r.pick(&[0, 0, 5, 100, 2000, 20_000]);
        let mut starts: Vec<u64> = (0..n).map(|_| r.below(spread + 1)).collect();
        if r.chance(1, 3) {
            starts[r.usize(n)] = spread;
        }
        let mut net = PacketCfg::gen(r, n as u8, 4000);
        if net.stall_rate > 0 && net.stall_rate < 100 {
            net.stall_rate = 100;
        }
        let k = r.usize(4);
        let sets = (0..k).map(|_| Set { codec: *r.pick(&[Codec::Bytes, Codec::Bincode, Codec::Lines]), count: r.below(6) as u8, managed: r.chance(1, 2) }).collect();
        let twist = if r.chance(1, 5) {
            let party = r.below(n as u64) as u8;
            Some(match r.below(4) {
                3 => {
                    // while some server still waits for another client
                    let last = *starts.iter().max().unwrap();
                    Twist::Twin { party: (0..n).max_by_key(|i| (ids[*i] == *ids.iter().max().unwrap(), *i)).filter(|_| r.chance(1, 2)).unwrap_or(party as usize) as u8, at_ms: r.below(last + 50) }
                }
                0 => Twist::Refused { party, how: *r.pick(&[Refuse::OwnIdMissing, Refuse::DuplicateId, Refuse::CertMissing, Refuse::CertGarbage, Refuse::KeyMissing, Refuse::KeyGarbage]) },
                1 => Twist::Impostor { party, ident: if r.chance(1, 2) { Ident::SameName(party) } else { Ident::Party((party + 1 + r.below(n as u64 - 1) as u8) % n as u8) } },
                _ => {
                    let mut id = r.below(20) as u32;
                    while ids.contains(&(id as usize)) {
                        id += 1;
                    }
                    Twist::Rogue { id }
                }
            })
        } else {
            None
        };
        Case { net, entropy: r.next(), ids, orders, starts_ms: starts, sets, twist }
    }
    fn run(&self, c: &Case, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        let last = *c.starts_ms.iter().max().unwrap() * MS;
        let max_time = c.net.calm_after().max(last) + 150 * SEC;
        let (rep, logs) = self.execute(c, mode, log, max_time);
        out.absorb(&rep);
        if let Some(v) = panic_violation(&rep, |_| false) {
            out.fail(v);
        }
        for l in &logs {
            if let Some(w) = &l.wrong {
                out.fail(Violation::new("wrong peer", "wrong peer", w.clone()));
            }
        }
        match &c.twist {
            None => {
                out.count("probe.healthy_setup");
                for (p, l) in logs.iter().enumerate() {
                    let what = format!("party {p} (id {}, ids {:?}, faults end {:.3}s, last start {:.3}s)", c.ids[p], c.ids, secs(c.net.calm_after()), secs(last));
                    match &l.up {
                        Some(Ok(t)) => {
                            let limit = c.net.calm_after().max(last) + 75 * SEC;
                            if *t > limit {
                                out.fail(Violation::new("setup slow", "setup slow", format!("{what}: connection setup took until {:.1}s", secs(*t))));
                            }
                        }
                        Some(Err(e)) => out.fail(Violation::new("setup failed", "setup failed", format!("{what}: connection setup failed: {e}"))),
                        None => out.fail(Violation::new("setup stuck", "setup stuck", format!("{what}: connection setup not finished at {:.1}s", secs(rep.time)))),
                    }
                    if let Some(e) = &l.err {
                        out.fail(Violation::new("operation failed", "operation failed", format!("{what}: {e}")));
                    }
                }
                for (p, l) in logs.iter().enumerate() {
                    if out.violation.is_none() && l.done.is_none() {
                        out.fail(Violation::new("stuck", "stuck", format!("party {p} (id {}): set up at {:?}, neither finished nor failed at {:.1}s", c.ids[p], l.up, secs(rep.time))));
                    }
                }
                out.nontrivial = out.violation.is_none() && rep.end == End::Done;
            }
            Some(Twist::Refused { party, how }) => {
                let l = &logs[*party as usize];
                out.count("probe.refused_configuration");
                if !matches!(l.up, Some(Err(_))) {
                    out.fail(Violation::new("bad configuration accepted", format!("bad configuration accepted: {how:?}"), format!("party {party} with a configuration that is wrong ({how:?}): setup gives {:?}", l.up)));
                }
                out.nontrivial = true;
            }
            Some(Twist::Impostor { party, ident }) => {
                out.count("probe.impostor");
                let (j, id) = (*party as usize, c.ids[*party as usize]);
                for (p, l) in logs.iter().enumerate() {
                    if p != j && c.ids[p] > id && matches!(l.up, Some(Ok(_))) {
                        out.fail(Violation::new("impostor accepted", "impostor accepted", format!("party {p} (id {}) completed its setup although the server of id {id} has another identity ({ident:?})", c.ids[p])));
                    }
                }
                out.nontrivial = logs.iter().enumerate().any(|(p, l)| p != j && c.ids[p] > id && matches!(l.up, Some(Err(_))));
            }
            Some(Twist::Twin { .. }) => {
                out.count("probe.twin");
                out.nontrivial = logs.iter().any(|l| matches!(l.up, Some(Err(_))));
            }
            Some(Twist::Rogue { .. }) => {
                out.count("probe.rogue");
                out.nontrivial = logs.iter().any(|l| matches!(l.up, Some(Err(_))));
            }
        }
        let mut kinds: BTreeMap<&str, u64> = BTreeMap::new();
        for s in &c.sets {
            *kinds.entry(match s.codec { Codec::Bytes => "sets.bytes", Codec::Bincode => "sets.bincode", Codec::Lines => "sets.custom" }).or_insert(0) += 1;
        }
        for (k, v) in kinds {
            *out.counters.entry(k.into()).or_insert(0) += v;
        }
        *out.counters.entry(format!("parties.{}", c.ids.len())).or_insert(0) += 1;
        out
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for i in 0..c.sets.len() {
            let mut s = c.sets.clone();
            s.remove(i);
            v.push(Case { sets: s, ..c.clone() });
        }
        if c.twist.is_none() && c.ids.len() > 2 && c.net.cuts.is_empty() {
            for i in 0..c.ids.len() {
                let mut d = c.clone();
                d.ids.remove(i);
                d.starts_ms.remove(i);
                d.orders.remove(i);
                for o in d.orders.iter_mut() {
                    o.retain(|x| *x != i);
                    o.iter_mut().filter(|x| **x > i).for_each(|x| *x -= 1);
                }
                v.push(d);
            }
        }
        for n in c.net.shrink() {
            v.push(Case { net: n, ..c.clone() });
        }
        if c.starts_ms.iter().any(|s| *s > 0) {
            v.push(Case { starts_ms: vec![0; c.ids.len()], ..c.clone() });
        }
        v
    }
}
