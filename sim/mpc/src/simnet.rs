//! L1 network: the `NetworkTrait` seam of the code under test, implemented by the simulator.
//! Contract modelled: per ordered pair a reliable FIFO stream of messages (what QUIC streams give),
//! with arbitrary delays; a closed stream yields its remaining messages (or loses them) and then
//! errors; a send never reports a delivery failure later.
use bytes::{Bytes, BytesMut};
use iris_mpc::prelude::NetworkTrait;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde::{Deserialize, Serialize};
use simcore::exec;
use simcore::rng::{hash_bytes, Rng64};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{Error, ErrorKind};
use std::rc::Rc;
use std::task::{Poll, Waker};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    FlipBit { pos: u64 },
    /// flip the same bit of every w-byte element
    FlipAll { bit: u32, w: u8 },
    AddLe { pos: u64, w: u8, delta: u64 },
    AddAll { w: u8, delta: u64 },
    Random { seed: u64 },
    Const { byte: u8 },
    Truncate { by: u64 },
    Extend { by: u64, seed: u64 },
    Empty,
    Drop,
    Duplicate,
    SwapNext,
    ReplayPrev,
    /// what was last received from that peer
    Echo,
    /// what was last sent to the other peer
    CopyOther,
    /// wait for the peer's next message of this length and send that back instead
    RushEcho,
    /// wait for the other peer's next message of this length and send that instead
    RushCopy,
    /// (received) what was last sent to that peer: the party overlooks that its own check fails
    Own,
    /// what the party would send here had it not erred before (the runner fills in the bytes)
    AsIf,
    /// these bytes
    Bytes { data: Vec<u8> },
    /// withhold the message until the challenge is known that checks it, then put errors on it that
    /// cancel out under this challenge: on two elements of w bytes (multiplication triples); with
    /// w = 0 (bit triples, all of them wrong) take the errors off those that will be opened
    AwaitCoin { w: u8, pos: u64, delta: u64 },
    /// a contribution to a coin toss that was committed to: wait for those of the others, then send the one
    /// that makes the coin a value fixed beforehand (`see`: the peer whose contribution the party itself
    /// takes for one that gives this coin)
    Steer { seed: u64, see: u8 },
    /// invert the bytes from this one on
    InvertFrom { pos: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Tamper {
    /// true: messages the corrupted party sends; false: messages it receives
    pub out: bool,
    /// restrict to this peer (party offset 1 or 2), 0 = both
    pub peer: u8,
    /// ordinal among the matching messages of the corrupted party
    pub idx: u32,
    /// number of consecutive matching messages
    pub n: u32,
    pub kind: Kind,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// party stops at its k-th network call; `lose` = its undelivered messages vanish
    Crash { party: u8, at: u32, lose: bool },
    /// the link between two parties closes at party a's k-th network call
    CloseLink { a: u8, b: u8, at: u32, lose: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NetCfg {
    pub base_us: u64,
    pub jitter_us: u64,
    /// sends to a closed peer report an error (otherwise they are silently dropped)
    pub send_err: bool,
    /// link from `slow_from` (0..3) is 50 times slower; 3 = none
    pub slow_from: u8,
    pub stall_rate: u64,
}
impl NetCfg {
    pub fn gen(r: &mut Rng64) -> Self {
        NetCfg {
            base_us: *r.pick(&[1, 10, 100, 1000]),
            jitter_us: *r.pick(&[0, 5, 200, 5000, 200_000]),
            send_err: r.chance(1, 2),
            slow_from: r.below(6).min(3) as u8,
            stall_rate: *r.pick(&[0, 0, 20, 100]),
        }
    }
    pub fn calm() -> Self {
        NetCfg { base_us: 10, jitter_us: 0, send_err: false, slow_from: 3, stall_rate: 0 }
    }
}

struct Msg {
    data: Bytes,
    at: u64,
    own: bool,
}
#[derive(Default)]
struct Link {
    q: VecDeque<Msg>,
    last_at: u64,
    bytes: usize,
    closed: bool,
    gone: bool,
    rx: Option<Waker>,
    tx: Option<Waker>,
    held: Option<Bytes>,
    /// a message withheld until the peer sends one of the same length, and those behind it
    rush: VecDeque<Bytes>,
    /// the front of `rush` waits for a message of the other peer
    rush_copy: bool,
    /// the front of `rush` waits for a challenge instead
    await_coin: Option<(u8, u64, u64)>,
    /// the front of `rush` is a contribution to a coin toss and waits for those of the others
    steer: Option<(u64, u8)>,
    /// the receiver takes the next message for what it last sent to that peer
    own: bool,
    last_sent: Option<Bytes>,
    last_recv: Option<Bytes>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum NetEv {
    Send { to: usize, len: usize },
    Recv { from: usize, len: usize },
}

pub struct Hub {
    links: [[Link; 3]; 3],
    cfg: NetCfg,
    faults: Vec<Fault>,
    corrupted: Option<usize>,
    /// this party finds in every confirmation what it said itself
    pub overlooks: Option<usize>,
    tampers: Vec<Tamper>,
    tamper_hits: Vec<u32>,
    tamper_seen: Vec<u32>,
    pub applied: u64,
    ops: [u32; 3],
    /// events per party in program order
    pub events: [Vec<NetEv>; 3],
    /// per link: lengths in order
    pub lens: [[Vec<usize>; 3]; 3],
    /// messages delivered to this party, in its receive order
    pub observe: Option<usize>,
    pub view: Vec<(usize, Vec<u8>)>,
    pub view_mark: usize,
    pub msgs: u64,
    /// parties whose handle is gone
    pub gone: [bool; 3],
    /// messages from .0 to .1 are withheld until released
    pub hold: Option<(usize, usize)>,
    held_msgs: Vec<Bytes>,
    /// number of messages each party had sent to each peer when the hold was released
    pub sent_at_release: Option<[[usize; 3]; 3]>,
    /// everything sent, per link (only when `record_sent`)
    pub record_sent: bool,
    pub sent: [[Vec<Vec<u8>>; 3]; 3],
}
pub type HubRef = Rc<RefCell<Hub>>;

impl Hub {
    pub fn new(cfg: NetCfg) -> HubRef {
        Rc::new(RefCell::new(Hub {
            links: Default::default(),
            cfg,
            faults: vec![],
            corrupted: None,
            overlooks: None,
            tampers: vec![],
            tamper_hits: vec![],
            tamper_seen: vec![],
            applied: 0,
            ops: [0; 3],
            events: Default::default(),
            lens: Default::default(),
            observe: None,
            view: vec![],
            view_mark: 0,
            msgs: 0,
            gone: [false; 3],
            hold: None,
            held_msgs: vec![],
            sent_at_release: None,
            record_sent: false,
            sent: Default::default(),
        }))
    }
    pub fn set_faults(&mut self, f: Vec<Fault>) {
        self.faults = f;
    }
    pub fn set_adversary(&mut self, corrupted: usize, t: Vec<Tamper>) {
        self.corrupted = Some(corrupted);
        self.tamper_hits = vec![0; t.len()];
        self.tamper_seen = vec![0; t.len()];
        self.tampers = t;
    }
    pub fn net(h: &HubRef, id: usize) -> SimNet {
        SimNet { hub: h.clone(), id }
    }
    pub fn ops(&self) -> [u32; 3] {
        self.ops
    }
    fn wake_link(l: &mut Link) {
        if let Some(w) = l.rx.take() {
            w.wake();
        }
        if let Some(w) = l.tx.take() {
            w.wake();
        }
    }
    fn close_dir(&mut self, from: usize, to: usize, lose: bool) {
        self.flush_rush(from, to);
        let l = &mut self.links[from][to];
        l.closed = true;
        if lose {
            l.q.clear();
        }
        Self::wake_link(l);
    }
    /// the party is gone: peers see its streams end, and cannot send to it any more
    pub fn close_party(&mut self, p: usize, lose: bool) {
        self.gone[p] = true;
        for o in 0..3 {
            if o != p {
                self.close_dir(p, o, lose);
                self.links[o][p].gone = true;
                Self::wake_link(&mut self.links[o][p]);
            }
        }
    }
    pub fn close_link(&mut self, a: usize, b: usize, lose: bool) {
        self.close_dir(a, b, lose);
        self.close_dir(b, a, lose);
        self.links[a][b].gone = true;
        self.links[b][a].gone = true;
    }
    pub fn release_hold(&mut self) {
        if let Some((f, t)) = self.hold.take() {
            let mut n = [[0; 3]; 3];
            for i in 0..3 {
                for j in 0..3 {
                    n[i][j] = self.lens[i][j].len();
                }
            }
            self.sent_at_release = Some(n);
            exec::log(|| format!("quiescent: releasing the messages {f}->{t}"));
            for m in std::mem::take(&mut self.held_msgs) {
                self.enqueue(f, t, m);
            }
        }
    }
    fn enqueue(&mut self, from: usize, to: usize, data: Bytes) {
        if self.hold == Some((from, to)) {
            exec::count("fault.withheld");
            self.held_msgs.push(data);
            return;
        }
        if !self.links[from][to].rush.is_empty() {
            self.links[from][to].rush.push_back(data);
            return;
        }
        let other = 3 - from - to;
        if self.links[to][other].rush_copy && self.links[to][other].rush.front().map(|r| r.len() == data.len()).unwrap_or(false) {
            if self.links[to][other].rush[0] != data {
                self.links[to][other].rush[0] = data.clone();
                exec::count("fault.tamper.rush_copy");
                self.applied += 1;
                exec::log(|| format!("RUSH {to}->{other} copies what {from} sent, len={}", data.len()));
            }
            self.flush_rush(to, other);
        }
        let l = &self.links[to][from];
        if l.await_coin.is_none() && l.steer.is_none() && !l.rush_copy && l.rush.front().map(|r| r.len() == data.len()).unwrap_or(false) {
            if self.links[to][from].rush[0] != data {
                self.links[to][from].rush[0] = data.clone();
                exec::count("fault.tamper.rush_echo");
                self.applied += 1;
                exec::log(|| format!("RUSH {to}->{from} echoes len={}", data.len()));
            }
            self.flush_rush(to, from);
        }
        let now = exec::now();
        let b = exec::choose(8) as u64;
        let mut d = self.cfg.base_us * 1000 + self.cfg.jitter_us * 1000 * b / 7;
        if self.cfg.slow_from as usize == from {
            d *= 50;
        }
        let l = &mut self.links[from][to];
        let at = (now + d).max(l.last_at);
        if at > now + d {
            exec::count("fault.delayed_behind_earlier");
        }
        if b > 0 && self.cfg.jitter_us > 0 {
            exec::count("fault.delay");
        }
        l.last_at = at;
        l.bytes += data.len();
        let own = std::mem::take(&mut l.own);
        l.q.push_back(Msg { data, at, own });
        self.msgs += 1;
        exec::count("messages");
        if let Some(w) = l.rx.take() {
            w.wake();
        }
        if self.corrupted == Some(to) {
            self.try_steer(to);
        }
    }
    fn try_steer(&mut self, me: usize) {
        let peers = [(me + 1) % 3, (me + 2) % 3];
        let Some((seed, see)) = self.links[me][peers[0]].steer else { return };
        if self.links[me][peers[1]].steer.is_none() {
            return;
        }
        let own = self.links[me][peers[0]].rush[0].clone();
        let parts: Vec<Vec<u8>> = peers.iter().filter_map(|p| self.links[*p][me].q.front()).filter(|m| m.data.len() == own.len() && own.len() > 32).map(|m| m.data.to_vec()).collect();
        if parts.len() < 2 {
            return;
        }
        let mut coin = [0u8; 32];
        Rng64::new(seed).fill(&mut coin);
        let xor = |a: &[u8], b: &[u8]| -> Vec<u8> { (0..32).map(|i| coin[i] ^ a[i] ^ b[i]).collect() };
        let mut mine = own.to_vec();
        mine[..32].copy_from_slice(&xor(&parts[0], &parts[1]));
        let k = see as usize % 2;
        let mut seen = parts[k].clone();
        seen[..32].copy_from_slice(&xor(&own, &parts[1 - k]));
        self.links[peers[k]][me].q[0].data = Bytes::from(seen);
        exec::count("fault.tamper.steer_coin");
        exec::log(|| format!("RUSH {me} fixes the coin by its own contribution"));
        self.applied += 1;
        for p in peers {
            self.links[me][p].rush[0] = Bytes::from(mine.clone());
            self.flush_rush(me, p);
        }
    }
    fn flush_rush(&mut self, from: usize, to: usize) -> bool {
        self.links[from][to].await_coin = None;
        self.links[from][to].steer = None;
        self.links[from][to].rush_copy = false;
        let v = std::mem::take(&mut self.links[from][to].rush);
        let any = !v.is_empty();
        for m in v {
            self.enqueue(from, to, m);
        }
        any
    }
    /// the party has learnt a challenge
    pub fn on_coin(&mut self, party: usize, seed: &[u8]) {
        for to in 0..3 {
            let Some((w, pos, delta)) = self.links[party][to].await_coin.take() else { continue };
            let before = self.links[party][to].rush[0].clone();
            let mut v = before.to_vec();
            if let Ok(seed) = <[u8; 32]>::try_from(seed) {
                cancel(&mut v, seed, w as usize, pos, delta);
            }
            if v[..] != before[..] {
                exec::count("fault.tamper.after_challenge");
                exec::log(|| format!("RUSH {party}->{to}: errors that cancel out under the challenge just learnt, len={}", v.len()));
                self.applied += 1;
                self.links[party][to].rush[0] = Bytes::from(v);
            }
            self.flush_rush(party, to);
        }
    }
    /// nothing can happen: let go of messages waiting to be replaced
    pub fn flush_all_rush(&mut self) -> bool {
        let mut any = false;
        for i in 0..3 {
            for j in 0..3 {
                any |= self.flush_rush(i, j);
            }
        }
        any
    }
    /// Apply the adversary to a message; returns what is really transmitted.
    fn tamper(&mut self, from: usize, to: usize, data: Bytes, out: bool) -> Vec<Bytes> {
        let (me, peer) = if out { (from, to) } else { (to, from) };
        if self.corrupted != Some(me) {
            return vec![data];
        }
        let off = ((peer + 3 - me) % 3) as u8;
        let mut res = vec![data.clone()];
        let prev_sent = self.links[from][to].last_sent.clone();
        let other = 3 - from - to;
        let other_sent = self.links[from][other].last_sent.clone();
        let echo = self.links[to][from].last_recv.clone();
        for i in 0..self.tampers.len() {
            let t = self.tampers[i].clone();
            if t.out != out || (t.peer != 0 && t.peer != off) {
                continue;
            }
            let k = self.tamper_seen[i];
            self.tamper_seen[i] += 1;
            if k < t.idx || k >= t.idx + t.n {
                continue;
            }
            let Some(cur) = res.pop() else { continue };
            let before = cur.clone();
            let len = cur.len();
            let mut v = cur.to_vec();
            match &t.kind {
                Kind::FlipBit { pos } => {
                    if len > 0 {
                        let b = (*pos as usize) % (len * 8);
                        v[b / 8] ^= 1 << (b % 8);
                    }
                    res.push(Bytes::from(v));
                }
                Kind::FlipAll { bit, w } => {
                    let w = (*w as usize).max(1);
                    let b = *bit as usize % (w * 8);
                    for e in v.chunks_exact_mut(w) {
                        e[b / 8] ^= 1 << (b % 8);
                    }
                    res.push(Bytes::from(v));
                }
                Kind::AddLe { pos, w, delta } => {
                    let w = (*w as usize).clamp(1, 8);
                    if len >= w {
                        let o = (*pos as usize % (len / w)) * w;
                        add_le(&mut v[o..o + w], *delta);
                    }
                    res.push(Bytes::from(v));
                }
                Kind::AddAll { w, delta } => {
                    let w = (*w as usize).clamp(1, 8);
                    for e in v.chunks_exact_mut(w) {
                        add_le(e, *delta);
                    }
                    res.push(Bytes::from(v));
                }
                Kind::Random { seed } => {
                    Rng64::new(*seed).fill(&mut v);
                    res.push(Bytes::from(v));
                }
                Kind::Const { byte } => {
                    v.fill(*byte);
                    res.push(Bytes::from(v));
                }
                Kind::Truncate { by } => {
                    let n = if len == 0 { 0 } else { 1 + (*by as usize) % len };
                    v.truncate(len - n);
                    res.push(Bytes::from(v));
                }
                Kind::Extend { by, seed } => {
                    let mut x = vec![0u8; 1 + (*by as usize) % 64];
                    Rng64::new(*seed).fill(&mut x);
                    v.extend(x);
                    res.push(Bytes::from(v));
                }
                Kind::Empty => res.push(Bytes::new()),
                Kind::Drop => {}
                Kind::Duplicate => {
                    res.push(cur.clone());
                    res.push(cur);
                }
                Kind::SwapNext => {
                    let l = &mut self.links[from][to];
                    if l.held.is_none() {
                        l.held = Some(cur);
                        self.tamper_hits[i] += 1;
                        self.applied += 1;
                        exec::count("fault.tamper.swap");
                        return vec![];
                    }
                    res.push(cur);
                }
                Kind::ReplayPrev => res.push(prev_sent.clone().unwrap_or(cur)),
                Kind::Echo => res.push(echo.clone().unwrap_or(cur)),
                Kind::CopyOther => res.push(other_sent.clone().unwrap_or(cur)),
                Kind::AsIf => res.push(cur),
                Kind::Bytes { data } => res.push(Bytes::from(data.clone())),
                Kind::InvertFrom { pos } => {
                    v.iter_mut().skip(*pos as usize).for_each(|b| *b = !*b);
                    res.push(Bytes::from(v));
                }
                Kind::AwaitCoin { w, pos, delta } => {
                    let l = &mut self.links[from][to];
                    if out && l.rush.is_empty() {
                        exec::count("fault.tamper.await_challenge");
                        l.await_coin = Some((*w, *pos, *delta));
                        l.rush.push_back(cur);
                        l.last_sent = Some(data.clone());
                        return vec![];
                    }
                    res.push(cur);
                }
                Kind::Steer { seed, see } => {
                    let l = &mut self.links[from][to];
                    if out && l.rush.is_empty() {
                        l.steer = Some((*seed, *see));
                        l.rush.push_back(cur);
                        l.last_sent = Some(data.clone());
                        self.try_steer(from);
                        return vec![];
                    }
                    res.push(cur);
                }
                Kind::Own => {
                    self.links[from][to].own = !out;
                    res.push(cur)
                }
                Kind::RushCopy => match self.links[other][from].q.iter().find(|m| m.data.len() == len) {
                    Some(m) if out => res.push(m.data.clone()),
                    None if out && self.links[from][to].rush.is_empty() => {
                        let l = &mut self.links[from][to];
                        l.rush.push_back(cur);
                        l.rush_copy = true;
                        l.last_sent = Some(data.clone());
                        return vec![];
                    }
                    _ => res.push(cur),
                },
                Kind::RushEcho => match self.links[to][from].q.iter().find(|m| m.data.len() == len) {
                    Some(m) if out => res.push(m.data.clone()),
                    None if out && self.links[from][to].rush.is_empty() => {
                        self.links[from][to].rush.push_back(cur);
                        self.links[from][to].last_sent = Some(data.clone());
                        return vec![];
                    }
                    _ => res.push(cur),
                },
            }
            if res.len() != 1 || res[0] != before {
                self.tamper_hits[i] += 1;
                self.applied += 1;
                exec::count(match &t.kind {
                    Kind::FlipBit { .. } => "fault.tamper.flip_bit",
                    Kind::FlipAll { .. } => "fault.tamper.flip_all",
                    Kind::AddLe { .. } => "fault.tamper.add",
                    Kind::AddAll { .. } => "fault.tamper.add_all",
                    Kind::Random { .. } => "fault.tamper.random",
                    Kind::Const { .. } => "fault.tamper.const",
                    Kind::Truncate { .. } => "fault.tamper.truncate",
                    Kind::Extend { .. } => "fault.tamper.extend",
                    Kind::Empty => "fault.tamper.empty",
                    Kind::Drop => "fault.tamper.drop",
                    Kind::Duplicate => "fault.tamper.duplicate",
                    Kind::SwapNext => "fault.tamper.swap",
                    Kind::ReplayPrev => "fault.tamper.replay",
                    Kind::Echo => "fault.tamper.echo",
                    Kind::CopyOther => "fault.tamper.copy_other",
                    Kind::RushEcho => "fault.tamper.rush_echo",
                    Kind::RushCopy => "fault.tamper.rush_copy",
                    Kind::Own | Kind::AsIf => unreachable!(),
                    Kind::Steer { .. } => "fault.tamper.steer_coin",
                    Kind::AwaitCoin { .. } => "fault.tamper.await_challenge",
                    Kind::InvertFrom { .. } => "fault.tamper.invert",
                    Kind::Bytes { .. } => "fault.tamper.other_session",
                });
                let (l, k2) = (before.len(), t.kind.clone());
                exec::log(move || format!("TAMPER {}->{} len={} {:?}", from, to, l, k2));
            }
        }
        self.links[from][to].last_sent = Some(data);
        if let Some(h) = self.links[from][to].held.take() {
            if !res.is_empty() {
                res.push(h);
            } else {
                self.links[from][to].held = Some(h);
            }
        }
        res
    }
    /// fault points: called at every network call of a party; true = the party is dead
    fn fault_point(&mut self, id: usize) -> bool {
        let k = self.ops[id];
        self.ops[id] += 1;
        let mut dead = false;
        for f in self.faults.clone() {
            match f {
                Fault::Crash { party, at, lose } if party as usize == id && at == k => {
                    exec::count("fault.crash");
                    exec::log(|| format!("CRASH party {id} at its network call {k}"));
                    self.close_party(id, lose);
                    exec::at(exec::now(), move || exec::crash(id));
                    dead = true;
                }
                Fault::CloseLink { a, b, at, lose } if a as usize == id && at == k => {
                    exec::count("fault.close_link");
                    exec::log(|| format!("CLOSE link {a}-{b} at network call {k} of party {a}"));
                    self.close_link(a as usize, b as usize, lose);
                }
                _ => {}
            }
        }
        dead
    }
}

/// Errors that the check with this challenge does not see.
fn cancel(v: &mut [u8], seed: [u8; 32], w: usize, pos: u64, delta: u64) {
    let mut rng = StdRng::from_seed(seed); // ChaCha12, as the code under test uses
    match w {
        8 | 16 if v.len() % (2 * w) == 0 && !v.is_empty() => {
            let r: u128 = if w == 8 { rng.gen::<u64>() as u128 } else { rng.gen::<u128>() };
            let half = v.len() / 2 / w;
            let j = pos as usize % half;
            for (k, d) in [(j, delta as u128), (half + j, r.wrapping_mul(delta as u128))] {
                let e = &mut v[k * w..(k + 1) * w];
                let mut x = [0u8; 16]; // elements travel in big-endian order
                x[16 - w..].copy_from_slice(e);
                let y = u128::from_be_bytes(x).wrapping_add(d).to_be_bytes();
                e.copy_from_slice(&y[16 - w..]);
            }
        }
        0 if v.len() >= 48 && (v.len() / 16) % 2 == 1 => {
            let n = v.len() / 32;
            let bits = (n + 1) * 128;
            let mut at: Vec<usize> = (0..bits).collect();
            for j in 0..bits {
                let i = rng.gen_range(j..bits);
                at.swap(i, j);
            }
            // all products are wrong; correct those that will be opened
            for i in &at[n * 128..] {
                v[n * 16 + i / 128 * 16 + 15 - i % 128 / 8] ^= 1 << (i % 8);
            }
        }
        _ => {}
    }
}

fn add_le(e: &mut [u8], delta: u64) {
    let mut x = [0u8; 8];
    x[..e.len()].copy_from_slice(e);
    let s = u64::from_le_bytes(x).wrapping_add(delta).to_le_bytes();
    let n = e.len();
    e.copy_from_slice(&s[..n]);
}

pub struct SimNet {
    hub: HubRef,
    id: usize,
}

impl Drop for SimNet {
    fn drop(&mut self) {
        if let Ok(mut h) = self.hub.try_borrow_mut() {
            if !h.gone[self.id] {
                let id = self.id;
                h.close_party(id, false);
            }
        }
    }
}

impl SimNet {
    async fn do_send(&mut self, to: usize, data: Bytes) -> Result<(), Error> {
        let id = self.id;
        if to >= 3 || to == id {
            return Err(Error::new(ErrorKind::Other, "Invalid ID"));
        }
        if self.hub.borrow_mut().fault_point(id) {
            std::future::pending::<()>().await;
        }
        if exec::choose_biased(2, 1, 4) == 1 {
            exec::yield_now().await;
        }
        // backpressure: at most 8 queued plus one in transmission, beyond the transport's window
        let hub = self.hub.clone();
        std::future::poll_fn(move |cx| {
            let mut h = hub.borrow_mut();
            let l = &mut h.links[id][to];
            if l.q.len() >= 9 && l.bytes > 1_250_000 && !l.gone && !l.closed {
                exec::count("probe.backpressure");
                l.tx = Some(cx.waker().clone());
                return Poll::Pending;
            }
            Poll::Ready(())
        })
        .await;
        let mut h = self.hub.borrow_mut();
        let (gone, closed) = (h.links[id][to].gone, h.links[id][to].closed);
        h.events[id].push(NetEv::Send { to, len: data.len() });
        h.lens[id][to].push(data.len());
        if h.record_sent {
            h.sent[id][to].push(data.to_vec());
        }
        exec::observe(&[1, id as u64, to as u64, data.len() as u64, hash_bytes(&data)]);
        exec::log(|| format!("send {id}->{to} len={} h={:08x}", data.len(), hash_bytes(&data) as u32));
        if gone || closed {
            exec::count("probe.send_to_closed");
            if h.cfg.send_err {
                return Err(Error::new(ErrorKind::BrokenPipe, "peer is gone"));
            }
            return Ok(());
        }
        for m in h.tamper(id, to, data, true) {
            for m2 in h.tamper(id, to, m, false) {
                h.enqueue(id, to, m2);
            }
        }
        drop(h);
        if exec::choose_biased(2, 1, 8) == 1 {
            exec::yield_now().await;
        }
        Ok(())
    }
    async fn do_recv(&mut self, from: usize) -> Result<BytesMut, Error> {
        let id = self.id;
        if from >= 3 || from == id {
            return Err(Error::new(ErrorKind::Other, "Invalid ID"));
        }
        if self.hub.borrow_mut().fault_point(id) {
            std::future::pending::<()>().await;
        }
        let hub = self.hub.clone();
        let r = std::future::poll_fn(move |cx| {
            let now = exec::now();
            let mut h = hub.borrow_mut();
            let l = &mut h.links[from][id];
            if let Some(m) = l.q.front() {
                if m.at <= now {
                    let m = l.q.pop_front().unwrap();
                    l.bytes -= m.data.len();
                    l.last_recv = Some(m.data.clone());
                    if let Some(w) = l.tx.take() {
                        w.wake();
                    }
                    let mut data = m.data;
                    if m.own {
                        if let Some(s) = h.links[id][from].last_sent.clone() {
                            if s.len() == data.len() && s != data {
                                exec::count("fault.tamper.own_check_ignored");
                                exec::log(|| format!("{id} overlooks the difference to what {from} sent"));
                                data = s;
                            }
                        }
                    }
                    return Poll::Ready(Ok(data));
                }
                exec::wake_at(m.at, cx.waker().clone());
                l.rx = Some(cx.waker().clone());
                return Poll::Pending;
            }
            if l.closed {
                exec::count("probe.recv_on_closed");
                return Poll::Ready(Err(Error::new(ErrorKind::BrokenPipe, "closed pipe")));
            }
            l.rx = Some(cx.waker().clone());
            Poll::Pending
        })
        .await;
        match r {
            Ok(d) => {
                let mut h = self.hub.borrow_mut();
                h.events[id].push(NetEv::Recv { from, len: d.len() });
                exec::observe(&[2, from as u64, id as u64, d.len() as u64, hash_bytes(&d)]);
                exec::log(|| format!("recv {id}<-{from} len={} h={:08x}", d.len(), hash_bytes(&d) as u32));
                if h.observe == Some(id) {
                    h.view.push((from, d.to_vec()));
                }
                Ok(BytesMut::from(d.as_ref()))
            }
            Err(e) => {
                exec::observe(&[3, from as u64, id as u64]);
                exec::log(|| format!("recv {id}<-{from} error"));
                Err(e)
            }
        }
    }
    fn next(&self) -> usize {
        (self.id + 1) % 3
    }
    fn prev(&self) -> usize {
        (self.id + 2) % 3
    }
}

impl NetworkTrait for SimNet {
    fn get_id(&self) -> usize {
        self.id
    }
    fn get_num_parties(&self) -> usize {
        3
    }
    fn print_connection_stats(&self, _out: &mut impl std::io::Write) -> Result<(), Error> {
        Ok(())
    }
    async fn shutdown(self) -> Result<(), Error> {
        Ok(())
    }
    async fn send(&mut self, id: usize, data: Bytes) -> Result<(), Error> {
        self.do_send(id, data).await
    }
    async fn send_next_id(&mut self, data: Bytes) -> Result<(), Error> {
        let n = self.next();
        self.do_send(n, data).await
    }
    async fn send_prev_id(&mut self, data: Bytes) -> Result<(), Error> {
        let n = self.prev();
        self.do_send(n, data).await
    }
    async fn receive(&mut self, id: usize) -> Result<BytesMut, Error> {
        self.do_recv(id).await
    }
    async fn receive_prev_id(&mut self) -> Result<BytesMut, Error> {
        let n = self.prev();
        self.do_recv(n).await
    }
    async fn receive_next_id(&mut self) -> Result<BytesMut, Error> {
        let n = self.next();
        self.do_recv(n).await
    }
    async fn broadcast(&mut self, data: Bytes) -> Result<Vec<BytesMut>, Error> {
        let mut result = Vec::with_capacity(3);
        for id in 0..3 {
            if id != self.id {
                self.do_send(id, data.clone()).await?;
            }
        }
        for id in 0..3 {
            if id == self.id {
                result.push(BytesMut::from(data.as_ref()));
            } else {
                result.push(self.do_recv(id).await?);
            }
        }
        if self.hub.borrow().overlooks == Some(self.id) {
            result.fill(BytesMut::from(data.as_ref()));
        }
        Ok(result)
    }
}
