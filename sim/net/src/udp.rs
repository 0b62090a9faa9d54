//! Simulated packet network: the sockets, timers and tasks under the real QUIC stack. Every packet's
//! fate is a decision of the simulator.
use bytes::Bytes;
use quinn::udp::{RecvMeta, Transmit, UdpState};
use quinn::{AsyncTimer, AsyncUdpSocket, Endpoint, EndpointConfig, Runtime, ServerConfig};
use serde::{Deserialize, Serialize};
use simcore::exec::{self, MS, SEC, US};
use simcore::interpose;
use simcore::rng::{hash_bytes, Rng64};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io::{self, IoSliceMut};
use std::net::SocketAddr;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cut {
    /// nanoseconds; `until` u64::MAX = for good
    pub from: u64,
    pub until: u64,
    pub a: u8,
    pub b: u8,
    /// only packets from a to b are lost
    pub oneway: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PacketCfg {
    /// base one-way delay and jitter per packet, microseconds
    pub delay_us: u64,
    pub jitter_us: u64,
    /// faults per 1000 packets while faults are active
    pub loss: u32,
    pub dup: u32,
    pub reorder: u32,
    pub corrupt: u32,
    /// sends that find the socket busy, per 1000
    pub busy: u32,
    /// at most this many packets in a row are lost on one link (0 = no bound)
    pub max_burst: u32,
    /// random packet faults end at this time (ms)
    pub quiet_ms: u64,
    pub cuts: Vec<Cut>,
    /// one in `stall_rate` task polls stalls that party
    pub stall_rate: u64,
    pub stall_ms: u64,
}

impl PacketCfg {
    pub fn calm() -> Self {
        PacketCfg { delay_us: 200, jitter_us: 0, loss: 0, dup: 0, reorder: 0, corrupt: 0, busy: 0, max_burst: 0, quiet_ms: 0, cuts: vec![], stall_rate: 0, stall_ms: 0 }
    }
    /// Faults that healthy parties must survive: random faults for at most 3 s (or sparse ones for
    /// longer), cuts of at most 3 s; far below the transport's idle timeout of 10 s.
    pub fn gen(r: &mut Rng64, parties: u8, cuts_within_ms: u64) -> Self {
        let mut c = PacketCfg::calm();
        c.delay_us = *r.pick(&[50, 200, 1000, 10_000, 40_000, 100_000]);
        c.jitter_us = *r.pick(&[0, c.delay_us / 4, c.delay_us, c.delay_us * 3]);
        let rate = |r: &mut Rng64| *r.pick(&[0, 0, 10, 50, 150, 300]);
        match r.below(8) {
            0 => {}
            1 | 2 => {
                // sparse and long
                c.loss = *r.pick(&[5, 20, 40]);
                c.max_burst = 2;
                c.dup = *r.pick(&[0, 20]);
                c.reorder = *r.pick(&[0, 20, 50]);
                c.corrupt = *r.pick(&[0, 5]);
                c.quiet_ms = 20_000;
            }
            _ => {
                c.loss = rate(r);
                c.dup = rate(r);
                c.reorder = rate(r);
                c.corrupt = *r.pick(&[0, 0, 0, 10, 50]);
                c.max_burst = *r.pick(&[0, 4]);
                c.quiet_ms = *r.pick(&[200, 1000, 3000]);
            }
        }
        c.busy = *r.pick(&[0, 0, 20, 200]);
        if r.chance(1, 3) {
            c.loss = c.loss.min(50);
            c.quiet_ms = c.quiet_ms.min(3000);
            let from = r.below(cuts_within_ms.max(1)) * MS;
            let len = (1 + r.below(3000)) * MS;
            let a = r.below(parties as u64) as u8;
            let b = (a + 1 + r.below(parties as u64 - 1) as u8) % parties;
            c.cuts.push(Cut { from, until: from + len, a, b, oneway: r.chance(1, 3) });
        }
        if r.chance(1, 4) {
            c.stall_rate = *r.pick(&[20, 100, 1000]);
            c.stall_ms = *r.pick(&[1, 20, 200]);
        }
        c
    }
    pub fn shrink(&self) -> Vec<PacketCfg> {
        let mut v = vec![];
        let calm = PacketCfg { cuts: self.cuts.clone(), ..PacketCfg::calm() };
        if *self != calm {
            v.push(calm);
        }
        for i in 0..self.cuts.len() {
            let mut c = self.clone();
            c.cuts.remove(i);
            v.push(c);
        }
        macro_rules! zero {
            ($($f:ident),*) => { $( if self.$f != 0 { let mut c = self.clone(); c.$f = 0; v.push(c); } )* };
        }
        zero!(loss, dup, reorder, corrupt, busy, stall_rate, jitter_us);
        v
    }
    /// when every fault has ended (cuts for good excluded)
    pub fn calm_after(&self) -> u64 {
        let c = self.cuts.iter().filter(|c| c.until != u64::MAX).map(|c| c.until).max().unwrap_or(0);
        (self.quiet_ms * MS).max(c)
    }
}

#[derive(Clone)]
struct Pkt {
    from: SocketAddr,
    data: Bytes,
}
struct Sock {
    party: usize,
    addr: SocketAddr,
    inbox: VecDeque<Pkt>,
    waker: Option<Waker>,
    open: bool,
}

#[derive(Default)]
pub struct Stats {
    pub sent: u64,
    pub delivered: u64,
    pub lost: u64,
}

pub struct World {
    cfg: PacketCfg,
    socks: Vec<Sock>,
    by_addr: BTreeMap<SocketAddr, usize>,
    next_port: BTreeMap<usize, u16>,
    burst: BTreeMap<(usize, usize), u32>,
    pub stats: Stats,
}
thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}
fn world<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    WORLD.try_with(|w| w.try_borrow_mut().ok().and_then(|mut g| g.as_mut().map(f))).ok().flatten()
}

/// Address of a party's machine.
pub fn addr_of(party: usize) -> SocketAddr {
    SocketAddr::from(([10, 0, 0, party as u8 + 1], 4000))
}

pub fn install(cfg: PacketCfg) {
    WORLD.with(|w| *w.borrow_mut() = Some(World { cfg, socks: vec![], by_addr: BTreeMap::new(), next_port: BTreeMap::new(), burst: BTreeMap::new(), stats: Stats::default() }));
    mpc_net::vsim::install(
        Rc::new(|f| {
            exec::spawn(interpose::party(), "task", false, f);
        }),
        Rc::new(|d: Duration| -> mpc_net::vsim::Task {
            let t = SimTimer::new(Instant::now() + d);
            Box::pin(SleepFut(Box::pin(t)))
        }),
        Rc::new(|server, addr| endpoint(server, addr)),
    );
}
/// Remove everything; gives back the packet counts.
pub fn uninstall() -> Stats {
    mpc_net::vsim::uninstall();
    let w = WORLD.with(|w| w.borrow_mut().take());
    w.map(|w| w.stats).unwrap_or_default()
}
/// Cut or heal links while the simulation runs.
pub fn add_cut(c: Cut) {
    world(|w| w.cfg.cuts.push(c));
}

fn endpoint(server: Option<ServerConfig>, addr: SocketAddr) -> io::Result<Endpoint> {
    let party = interpose::party();
    let id = world(|w| {
        let mut a = addr;
        a.set_ip(addr_of(party).ip());
        if a.port() == 0 {
            let p = w.next_port.entry(party).or_insert(50_000);
            a.set_port(*p);
            *p += 1;
        }
        if w.by_addr.contains_key(&a) {
            return Err(io::Error::new(io::ErrorKind::AddrInUse, "address in use"));
        }
        w.socks.push(Sock { party, addr: a, inbox: VecDeque::new(), waker: None, open: true });
        w.by_addr.insert(a, w.socks.len() - 1);
        Ok(w.socks.len() - 1)
    })
    .expect("no simulated world")?;
    Endpoint::new_with_abstract_socket(EndpointConfig::default(), server, Socket(id), Arc::new(SimRuntime))
}

#[derive(Debug)]
struct Socket(usize);
impl Drop for Socket {
    fn drop(&mut self) {
        world(|w| {
            let s = &mut w.socks[self.0];
            s.open = false;
            s.inbox.clear();
            let a = s.addr;
            w.by_addr.remove(&a);
        });
    }
}

fn deliver(to: usize, p: Pkt) {
    let wk = world(|w| {
        let s = &mut w.socks[to];
        if !s.open || exec::is_crashed(s.party) {
            return None;
        }
        w.stats.delivered += 1;
        exec::observe(&[21, exec::now(), to as u64, hash_bytes(&p.data)]);
        s.inbox.push_back(p);
        s.waker.take()
    })
    .flatten();
    if let Some(wk) = wk {
        wk.wake()
    }
}

impl World {
    fn cut(&self, a: usize, b: usize, now: u64) -> bool {
        self.cfg.cuts.iter().any(|c| {
            now >= c.from && now < c.until && ((c.a as usize, c.b as usize) == (a, b) || (!c.oneway && (c.b as usize, c.a as usize) == (a, b)))
        })
    }
    fn transmit(&mut self, id: usize, dest: SocketAddr, data: Bytes) {
        self.stats.sent += 1;
        let me = self.socks[id].party;
        let from = self.socks[id].addr;
        let now = exec::now();
        let Some(&to) = self.by_addr.get(&dest) else {
            exec::count("packets.nobody_listening");
            return;
        };
        let other = self.socks[to].party;
        if self.cut(me, other, now) {
            exec::count("fault.packet_lost_in_partition");
            self.stats.lost += 1;
            return;
        }
        let noisy = now < self.cfg.quiet_ms * MS;
        let rate = |r: u32| if noisy { r as u64 } else { 0 };
        let yes = |r: u64| r > 0 && exec::choose_biased(2, r, 1000) == 1;
        // Repeated losses inside one TLS handshake can leave this quinn version waiting for good on both
        // sides, so handshake packets are lost in partitions only.
        let handshake = data.first().is_some_and(|b| b & 0x80 != 0);
        if !handshake && yes(rate(self.cfg.loss)) {
            let b = self.burst.entry((me, other)).or_insert(0);
            if self.cfg.max_burst == 0 || *b < self.cfg.max_burst {
                *b += 1;
                self.stats.lost += 1;
                exec::count("fault.packet_lost");
                exec::log(|| format!("packet {me}->{other} ({} bytes) LOST", data.len()));
                return;
            }
        }
        self.burst.insert((me, other), 0);
        let mut copies = vec![data.clone()];
        if yes(rate(self.cfg.dup)) {
            exec::count("fault.packet_duplicated");
            copies.push(data.clone());
        }
        for (k, mut d) in copies.into_iter().enumerate() {
            if k == 0 && !handshake && yes(rate(self.cfg.corrupt)) {
                let mut v = d.to_vec();
                // not the unprotected header: there a flipped bit is a forged packet (an unknown version
                // makes this quinn answer with a version negotiation and then break its own connection)
                let prot = 9;
                if v.len() > prot {
                    let i = prot + exec::choose((v.len() - prot) as u32) as usize;
                    v[i] ^= 1 << exec::choose(8);
                    exec::count("fault.packet_corrupted");
                }
                d = Bytes::from(v);
            }
            let mut delay = self.cfg.delay_us * US;
            if self.cfg.jitter_us > 0 {
                delay += self.cfg.jitter_us * US * exec::choose(5) as u64 / 4;
            }
            if yes(rate(self.cfg.reorder)) {
                exec::count("fault.packet_held_back");
                delay += (1 + exec::choose(8) as u64) * (20 * MS).max(self.cfg.delay_us * US / 2);
            }
            if k > 0 {
                delay += (1 + exec::choose(4) as u64) * self.cfg.delay_us.max(500) * US;
            }
            let p = Pkt { from, data: d };
            exec::at(now + delay, move || deliver(to, p));
        }
    }
}

impl AsyncUdpSocket for Socket {
    fn poll_send(&self, _state: &UdpState, cx: &mut Context, transmits: &[Transmit]) -> Poll<io::Result<usize>> {
        let id = self.0;
        world(|w| {
            if w.cfg.busy > 0 && exec::now() < w.cfg.quiet_ms * MS && exec::choose_biased(2, w.cfg.busy as u64, 1000) == 1 {
                exec::count("fault.socket_busy");
                exec::wake_at(exec::now() + (1 + exec::choose(20) as u64) * MS, cx.waker().clone());
                return Poll::Pending;
            }
            for t in transmits {
                match t.segment_size {
                    None => w.transmit(id, t.destination, t.contents.clone()),
                    Some(n) => {
                        let mut c = t.contents.clone();
                        while !c.is_empty() {
                            let k = n.min(c.len());
                            w.transmit(id, t.destination, c.split_to(k));
                        }
                    }
                }
            }
            Poll::Ready(Ok(transmits.len()))
        })
        .unwrap_or(Poll::Ready(Ok(transmits.len())))
    }
    fn poll_recv(&self, cx: &mut Context, bufs: &mut [IoSliceMut<'_>], meta: &mut [RecvMeta]) -> Poll<io::Result<usize>> {
        world(|w| {
            let s = &mut w.socks[self.0];
            if s.inbox.is_empty() {
                s.waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let mut n = 0;
            while n < bufs.len().min(meta.len()) {
                let Some(p) = s.inbox.pop_front() else { break };
                let len = p.data.len().min(bufs[n].len());
                bufs[n][..len].copy_from_slice(&p.data[..len]);
                meta[n] = RecvMeta { addr: p.from, len, stride: len, ecn: None, dst_ip: None };
                n += 1;
            }
            Poll::Ready(Ok(n))
        })
        .unwrap_or(Poll::Pending)
    }
    fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(world(|w| w.socks[self.0].addr).unwrap_or_else(|| addr_of(0)))
    }
}

#[derive(Debug)]
struct SimRuntime;
impl Runtime for SimRuntime {
    fn new_timer(&self, i: Instant) -> Pin<Box<dyn AsyncTimer>> {
        Box::pin(SimTimer::new(i))
    }
    fn spawn(&self, f: Pin<Box<dyn Future<Output = ()> + Send>>) {
        exec::spawn(interpose::party(), "quinn", false, f);
    }
    fn wrap_udp_socket(&self, _: std::net::UdpSocket) -> io::Result<Box<dyn AsyncUdpSocket>> {
        Err(io::Error::new(io::ErrorKind::Unsupported, "real sockets are not used in a simulation"))
    }
}

#[derive(Debug)]
struct SimTimer {
    deadline: Instant,
    /// a wake-up at this time is already scheduled, for this waker
    armed: Option<(u64, Waker)>,
}
impl SimTimer {
    fn new(deadline: Instant) -> Self {
        SimTimer { deadline, armed: None }
    }
}
impl AsyncTimer for SimTimer {
    fn reset(mut self: Pin<&mut Self>, i: Instant) {
        self.deadline = i;
    }
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        let now = Instant::now();
        if now >= self.deadline {
            return Poll::Ready(());
        }
        let left = (self.deadline - now).as_nanos();
        let at = exec::now().saturating_add(left.min(u64::MAX as u128 / 4) as u64);
        let keep = matches!(&self.armed, Some((t, w)) if *t > exec::now() && *t <= at && w.will_wake(cx.waker()));
        if !keep {
            exec::wake_at(at, cx.waker().clone());
            self.armed = Some((at, cx.waker().clone()));
        }
        Poll::Pending
    }
}
struct SleepFut(Pin<Box<SimTimer>>);
impl Future for SleepFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.0.as_mut().poll(cx)
    }
}

/// simulated seconds, for messages
pub fn secs(ns: u64) -> f64 {
    ns as f64 / SEC as f64
}
