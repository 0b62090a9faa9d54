//! Histories: a global sequence of messages and broadcasts, projected to one script per party. A
//! receive may lag behind other events, never behind its own link's order, so that the scripts of
//! correct parties never wait for each other in a cycle.
use serde::{Deserialize, Serialize};
use simcore::rng::{mix, Rng64};

pub const ALL: u8 = 255;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ev {
    pub from: u8,
    /// receiver, ALL for a broadcast, or an id that does not exist
    pub to: u8,
    pub len: u32,
    pub seed: u64,
    /// the receiver takes it only after this many further events
    pub lag: u8,
    /// pauses before sending and before receiving, milliseconds
    pub ds: u16,
    pub dr: u16,
    /// which of the equivalent calls is used
    pub how: u8,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Send { ev: usize },
    /// the next message from `from`, which has to be event `ev`
    Recv { from: usize, ev: usize },
    Bcast { ev: usize },
    /// a call with an id that is not a peer
    Bad { ev: usize },
}

pub fn payload(e: &Ev, from: usize) -> Vec<u8> {
    let mut v = vec![0u8; e.len as usize];
    Rng64::new(mix(&[e.seed, from as u64, e.to as u64])).fill(&mut v);
    v
}

pub fn project(n: usize, evs: &[Ev]) -> Vec<Vec<Act>> {
    let mut s: Vec<Vec<Act>> = vec![vec![]; n];
    // pending receives per receiver: (due, from, ev)
    let mut pend: Vec<Vec<(usize, usize, usize)>> = vec![vec![]; n];
    let flush = |s: &mut Vec<Vec<Act>>, pend: &mut Vec<Vec<(usize, usize, usize)>>, p: usize, upto: usize| {
        // a due receive drags all earlier ones of the same sender along
        let q = std::mem::take(&mut pend[p]);
        let due: Vec<usize> = q.iter().enumerate().filter(|(_, x)| x.0 <= upto).map(|(i, _)| i).collect();
        for (i, x) in q.iter().enumerate() {
            let now = due.iter().any(|&d| d >= i && q[d].1 == x.1);
            if now {
                s[p].push(Act::Recv { from: x.1, ev: x.2 });
            } else {
                pend[p].push(*x);
            }
        }
    };
    for (k, e) in evs.iter().enumerate() {
        for p in 0..n {
            flush(&mut s, &mut pend, p, k);
        }
        if e.to == ALL {
            for p in 0..n {
                flush(&mut s, &mut pend, p, usize::MAX);
            }
            for a in s.iter_mut() {
                a.push(Act::Bcast { ev: k });
            }
            continue;
        }
        let (f, t) = (e.from as usize, e.to as usize);
        if f >= n {
            continue;
        }
        if t >= n || t == f {
            s[f].push(Act::Bad { ev: k });
            continue;
        }
        s[f].push(Act::Send { ev: k });
        // a large message may keep the link busy until it is taken: no more than the queue of the
        // link (8 messages) piles up behind it
        let lag = if e.len > 20_000 { e.lag.min(5) } else { e.lag };
        pend[t].push((k + 1 + lag as usize, f, k));
    }
    for p in 0..n {
        flush(&mut s, &mut pend, p, usize::MAX);
    }
    s
}

pub struct HistCfg {
    pub n: u8,
    pub max_events: u64,
    pub big: bool,
    pub broadcasts: bool,
    pub bad: bool,
    pub max_lag: u64,
    pub pauses: bool,
}

pub fn gen_len(r: &mut Rng64, big: bool) -> u32 {
    match r.below(40) {
        0..=3 => 0,
        4..=7 => 1 + r.below(3) as u32,
        8..=25 => r.below(300) as u32,
        26..=33 => r.below(3000) as u32,
        34..=36 => r.below(20_000) as u32,
        37 => *r.pick(&[1199, 1200, 1452, 4096, 8192, 16384, 65535, 65536]),
        38 => 20_000 + r.below(200_000) as u32,
        _ if big && r.chance(1, 4) => *r.pick(&[1 << 20, 2_000_000, 5_000_000, (8 << 20) - 1, 8 << 20]),
        _ => 20_000 + r.below(400_000) as u32,
    }
}

pub fn gen(r: &mut Rng64, c: &HistCfg) -> Vec<Ev> {
    let k = 1 + r.below(c.max_events) as usize;
    let pause = |r: &mut Rng64| if c.pauses && r.chance(1, 6) { *r.pick(&[1u16, 5, 50, 400, 1500]) } else { 0 };
    let burst = r.chance(1, 3);
    let mut prev: Option<(u8, u8)> = None;
    let mut v: Vec<Ev> = (0..k)
        .map(|_| {
            let from = r.below(c.n as u64) as u8;
            let (from, to) = match prev {
                Some(p) if burst && r.chance(4, 5) => p,
                _ => (from, (from + 1 + r.below(c.n as u64 - 1) as u8) % c.n),
            };
            prev = Some((from, to));
            let to = if c.broadcasts && r.chance(1, 8) {
                ALL
            } else if c.bad && r.chance(1, 30) {
                *r.pick(&[from, 3, 7, 100])
            } else {
                to
            };
            Ev { from, to, len: gen_len(r, c.big), seed: r.next(), lag: if r.chance(1, 2) { 0 } else { r.below(c.max_lag + 1) as u8 }, ds: pause(r), dr: pause(r), how: r.below(32) as u8 }
        })
        .collect();
    if r.chance(1, 4) {
        // an exchange: everybody sends to its neighbour (or to both) before anybody receives, as the
        // protocols do
        let at = r.usize(v.len() + 1);
        let len = if c.big && r.chance(1, 3) { *r.pick(&[1_500_000, 2_600_000, 5_000_000]) } else { gen_len(r, c.big) };
        let dirs: &[u8] = *r.pick(&[&[1u8][..], &[2], &[1, 2]]);
        let mut x = vec![];
        for d in dirs {
            for p in 0..c.n {
                x.push(Ev { from: p, to: (p + d) % c.n, len, seed: r.next(), lag: 5, ds: 0, dr: 0, how: r.below(32) as u8 });
            }
        }
        v.splice(at..at, x);
    }
    v
}

pub fn shrink(evs: &[Ev]) -> Vec<Vec<Ev>> {
    let mut v = vec![];
    let n = evs.len();
    for d in [2usize, 4, 8] {
        if n >= d {
            let w = n / d;
            for i in 0..d {
                let mut c = evs.to_vec();
                c.drain(i * w..(i + 1) * w);
                v.push(c);
            }
        }
    }
    if n <= 12 {
        for i in 0..n {
            let mut c = evs.to_vec();
            c.remove(i);
            v.push(c);
        }
    }
    for i in 0..n.min(12) {
        let e = &evs[i];
        if e.len > 8 {
            let mut c = evs.to_vec();
            c[i].len = e.len / 2;
            v.push(c);
            let mut c = evs.to_vec();
            c[i].len = 4;
            v.push(c);
        }
        if e.lag > 0 || e.ds > 0 || e.dr > 0 {
            let mut c = evs.to_vec();
            (c[i].lag, c[i].ds, c[i].dr) = (0, 0, 0);
            v.push(c);
        }
    }
    v
}
