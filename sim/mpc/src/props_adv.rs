//! C07..C09: one cheating party.
use crate::case::*;
use crate::prog::*;
use crate::props::*;
use crate::session::{rings, Proto, Ring};
use crate::simnet::{Kind, NetCfg, NetEv, Tamper};
use simcore::exec::{self, Mode};
use simcore::rng::{mix, Rng64};
use simcore::runner::{Property, RunOut, Tier};

pub struct Cheat {
    pub id: &'static str,
    pub proto: Proto,
}

pub fn gen_kind(r: &mut Rng64, w: u32) -> Kind {
    let eb = (w / 8).max(1) as u8;
    let width = |r: &mut Rng64| *r.pick(&[eb, eb, 1, 2, 4, 8]);
    let delta = |r: &mut Rng64, w: u8| match r.below(5) {
        0 => 1,
        1 => u64::MAX,
        2 => 1u64 << (8 * w as u32 - 1),
        3 => 1u64 << r.below(8 * w as u64),
        _ => r.next(),
    };
    let small = |r: &mut Rng64| if r.chance(1, 4) { r.below(1 << 12) } else { *r.pick(&[0, 1, 7]) };
    match r.below(25) {
        0..=5 => Kind::FlipBit { pos: r.next() >> 8 },
        6 => Kind::FlipAll { bit: r.below(64) as u32, w: width(r) },
        7..=10 => {
            let w = width(r);
            Kind::AddLe { pos: r.next() >> 8, w, delta: delta(r, w) }
        }
        11 => {
            let w = width(r);
            Kind::AddAll { w, delta: delta(r, w) }
        }
        12 | 13 => Kind::Random { seed: r.next() },
        14 => Kind::Const { byte: *r.pick(&[0, 0, 0xff, 1]) },
        15 => Kind::Truncate { by: small(r) },
        16 => Kind::Extend { by: small(r), seed: r.next() },
        17 => Kind::Empty,
        18 => Kind::Drop,
        19 => Kind::Duplicate,
        20 => Kind::SwapNext,
        21 => Kind::ReplayPrev,
        22 => Kind::Echo,
        23 => Kind::RushEcho,
        _ => Kind::CopyOther,
    }
}

pub struct Dry {
    /// lengths of the messages on every link
    pub lens: [[Vec<usize>; 3]; 3],
    /// number of messages on every link
    pub n: [[usize; 3]; 3],
    /// network calls per party
    pub ops: [u32; 3],
    /// zero shares drawn per party
    pub zeros: [u32; 3],
    /// those for binary operations, entropy drawn
    pub binaries: [u32; 3],
    pub draws: [u32; 3],
    /// where a party sends equally long messages to both others and then hears from both: the ordinals
    /// of what it sends to and what it hears from the parties one and two further on, and its network events before
    pub rounds: [Vec<([u32; 2], [u32; 2], u32)>; 3],
    /// for every zero share: network events before it, and whether it is a binary one
    pub draw_at: [Vec<(u32, bool)>; 3],
    pub events: [Vec<NetEv>; 3],
}
fn rounds(p: usize, ev: &[NetEv]) -> Vec<([u32; 2], [u32; 2], u32)> {
    let mut sent = [0u32; 3];
    let mut rcvd = [0u32; 3];
    let mut res = vec![];
    let (x, y) = ((p + 1) % 3, (p + 2) % 3);
    for (i, e) in ev.iter().enumerate() {
        if let Some([NetEv::Send { to: a, len: k }, NetEv::Send { to: b, len: l }, NetEv::Recv { from: c, len: m }, NetEv::Recv { from: d, len: n }]) = ev.get(i..i + 4) {
            if a != b && c != d && k == l && l == m && m == n && *k >= 16 {
                res.push(([sent[x], sent[y]], [rcvd[x], rcvd[y]], i as u32));
            }
        }
        match e {
            NetEv::Send { to, .. } => sent[*to] += 1,
            NetEv::Recv { from, .. } => rcvd[*from] += 1,
        }
    }
    res
}
/// The shape of an undisturbed run.
pub fn dry_run(c: &Case) -> Dry {
    let mut c = c.clone();
    c.adversary = None;
    c.faults = vec![];
    c.net = NetCfg::calm();
    c.triples = 64; // the number of messages does not depend on it
    exec::on_fresh_thread(|| {
        let o = go(&c, &Mode::Replay(vec![]), Opts::default());
        let h = o.hub.borrow();
        let mut n = [[0; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                n[i][j] = h.lens[i][j].len();
            }
        }
        Dry { lens: h.lens.clone(), n, ops: h.ops(), zeros: o.zero_draws, rounds: [0, 1, 2].map(|p| rounds(p, &h.events[p])), draw_at: o.draw_at.clone(), events: h.events.clone(), binaries: o.binary_draws, draws: [0, 1, 2].map(|i| o.report.draws[i]) }
    })
}

pub fn gen_tamper(r: &mut Rng64, party: usize, w: u32, n: &[[usize; 3]; 3]) -> Tamper {
    let out = !r.chance(1, 5);
    let peer = *r.pick(&[1u8, 2, 1, 2, 1, 2, 0]);
    let cnt = |off: u8| {
        let q = (party + off as usize) % 3;
        if out {
            n[party][q]
        } else {
            n[q][party]
        }
    };
    let m = (if peer == 0 { cnt(1) + cnt(2) } else { cnt(peer) }).max(1) as u64;
    let idx = match r.below(20) {
        0..=4 => m - 1 - r.below(m.min(3)),
        5..=9 => m - 1 - r.below(m.min(12)),
        10..=12 => r.below(m.min(8)),
        _ => r.below(m),
    } as u32;
    let num = match r.below(10) {
        0 => 2,
        1 => 2 + r.below(6) as u32,
        2 => 1000,
        _ => 1,
    };
    Tamper { out, peer, idx, n: num, kind: gen_kind(r, w) }
}

pub fn gen_zero(r: &mut Rng64, draws: u32, w: u32) -> ZeroErr {
    let d = draws.max(1) as u64;
    let at = match r.below(4) {
        0 => d - 1 - r.below(d.min(12)),
        1 => r.below(d.min(12)),
        _ => r.below(d),
    } as u32;
    let n = *r.pick(&[1, 1, 1, 1, 1, 2, 3, 1000]);
    let x = r.next();
    let lo = *r.pick(&[1, 1, 1u64 << (w - 1), 1u64 << (w / 2), u64::MAX, x, x | 1, 0]);
    let hi = if lo == 0 || r.chance(1, 3) { 1u64 << r.below(64) } else { 0 };
    ZeroErr { at, n, lo, hi, binary: false }
}

/// One deviation inside one operation.
pub fn focus(r: &mut Rng64, c: &Case, a: &mut Adversary) {
    let p = a.party as usize;
    let quiet: Vec<usize> = (0..c.prog.ops.len()).filter(|i| matches!(c.prog.ops[*i], Op::Verify | Op::Share { .. } | Op::ShareMany { .. })).collect();
    let one = r.usize(c.prog.ops.len());
    if quiet.contains(&one) && r.chance(2, 3) {
        return;
    }
    let upto = |n: usize| {
        let mut c = c.clone();
        c.prog.ops.truncate(n);
        dry_run(&c)
    };
    let (from, to) = (upto(one), upto(one + 1));
    let w = c.ring.bits();
    let kind = |r: &mut Rng64| match r.below(8) {
        0 => gen_kind(r, w),
        1 => Kind::FlipBit { pos: (r.next() >> 8) & !7 },
        2 => Kind::FlipBit { pos: r.next() >> 8 },
        3 | 4 => Kind::FlipAll { bit: 0, w: 1 },
        5 => Kind::Random { seed: r.next() },
        6 => Kind::FlipAll { bit: r.below(w as u64) as u32, w: (w / 8).max(1) as u8 },
        _ => Kind::AddLe { pos: r.next() >> 8, w: (w / 8).max(1) as u8, delta: { let x = r.next(); *r.pick(&[1, 1, 1 << (w - 1), u64::MAX, x]) } },
    };
    if to.zeros[p] > from.zeros[p] && r.chance(1, 2) {
        let at = from.zeros[p] + r.below((to.zeros[p] - from.zeros[p]) as u64) as u32;
        a.zeros.push(ZeroErr { at, n: 1, ..gen_zero(r, 1, w) });
        return;
    }
    let mut sent = vec![];
    let last = r.chance(1, 2);
    for off in [1u8, 2] {
        let q = (p + off as usize) % 3;
        let start = if last { to.n[p][q].saturating_sub(2).max(from.n[p][q]) } else { from.n[p][q] };
        sent.extend((start..to.n[p][q]).map(|i| (off, i as u32)));
    }
    if !sent.is_empty() {
        let (peer, idx) = *r.pick(&sent);
        a.tampers.push(Tamper { out: true, peer, idx, n: 1, kind: kind(r) });
    }
}

/// Deviations that belong together: the same lie to both peers, an error in a computation covered by
/// a repeated hash, a message and the share it stands for.
pub fn combination(r: &mut Rng64, c: &Case, party: usize, dry: &Dry) -> Adversary {
    let mut a = Adversary::of(party);
    let w = c.ring.bits();
    let near_end = |r: &mut Rng64, m: usize| -> u32 {
        let m = m.max(1) as u64;
        (if r.chance(1, 2) { m - 1 - r.below(m.min(8)) } else { r.below(m) }) as u32
    };
    let t = |peer: u8, idx: u32, kind: Kind| Tamper { out: true, peer, idx, n: 1, kind };
    let to = |off: u8| (party + off as usize) % 3;
    match r.below(8) {
        // an error in a product, but later on what would be right without it
        6 | 7 if dry.zeros[party] > 0 => {
            let z = gen_zero(r, dry.zeros[party], w);
            let at = dry.draw_at[party].get(z.at as usize).map(|d| d.0 as usize).unwrap_or(0);
            a.zeros.push(z);
            let mut sent = [0u32; 3];
            let mut later: Vec<(u8, u32, usize)> = vec![];
            for (i, e) in dry.events[party].iter().enumerate() {
                if let NetEv::Send { to, len } = e {
                    if i > at {
                        later.push((((to + 3 - party) % 3) as u8, sent[*to], *len));
                    }
                    sent[*to] += 1;
                }
            }
            if !later.is_empty() {
                if r.chance(1, 2) {
                    later.sort_by_key(|x| std::cmp::Reverse(x.2));
                    later.truncate(3);
                }
                let (off, idx, _) = *r.pick(&later);
                let n = *r.pick(&[1, 1, 1, 2, 1000]);
                a.tampers.push(Tamper { n, ..t(off, idx, Kind::AsIf) });
            }
        }
        // the same alteration to both peers, at corresponding positions counted from the end
        0 => {
            let kind = gen_kind(r, w);
            let (n1, n2) = (dry.n[party][to(1)], dry.n[party][to(2)]);
            let back = r.below(n1.min(n2).max(1) as u64) as u32;
            for (off, n) in [(1u8, n1), (2, n2)] {
                a.tampers.push(t(off, (n as u32).saturating_sub(1 + back), kind.clone()));
            }
        }
        // an error in a product, then the others hear what one of them said themselves; the party itself
        // overlooks that its check fails
        1..=3 if dry.zeros[party] > 0 && !dry.rounds[party].is_empty() => {
            let rs = &dry.rounds[party];
            let one = r.usize(rs.len());
            let mut z = gen_zero(r, dry.zeros[party], w);
            let before: Vec<u32> = (0u32..).zip(&dry.draw_at[party]).filter(|(_, (e, _))| *e <= rs[one].2).map(|(k, _)| k).collect();
            let arith: Vec<u32> = before.iter().copied().filter(|k| !dry.draw_at[party][*k as usize].1).collect();
            let from = if arith.is_empty() || r.chance(1, 4) { &before } else { &arith };
            if !from.is_empty() {
                let last = if r.chance(2, 3) { from.len().min(20) } else { from.len() };
                z.at = from[from.len() - 1 - r.usize(last)];
            }
            a.zeros.push(z);
            let all = r.chance(1, 3);
            let said = r.usize(3);
            for (_, (sends, recvs, _)) in rs.iter().enumerate().filter(|(i, _)| if all { i + 6 >= rs.len() } else { *i == one }) {
                for k in 0..2 {
                    match said {
                        2 => a.tampers.push(t(k as u8 + 1, sends[k], Kind::RushEcho)),
                        s if s == k => a.tampers.push(t(k as u8 + 1, sends[k], Kind::RushEcho)),
                        _ => a.tampers.push(t(k as u8 + 1, sends[k], Kind::RushCopy)),
                    }
                    a.tampers.push(Tamper { out: false, ..t(k as u8 + 1, recvs[k], Kind::Own) });
                }
            }
        }
        // an error in a product, then whatever digest is exchanged is reflected
        1..=4 if dry.zeros[party] > 0 => {
            a.zeros.push(gen_zero(r, dry.zeros[party], w));
            let off = 1 + r.below(2) as u8;
            let digests: Vec<u32> = dry.lens[party][to(off)].iter().enumerate().filter(|(_, l)| **l == 64).map(|(i, _)| i as u32).collect();
            let idx = if digests.is_empty() { near_end(r, dry.n[party][to(off)]) } else { *r.pick(&digests) };
            let n = *r.pick(&[1, 1, 4, 1000]);
            a.tampers.push(Tamper { n, ..t(off, idx, if r.chance(2, 3) { Kind::RushEcho } else { Kind::Echo }) });
        }
        // an altered share together with altered messages
        _ => {
            let nops = c.prog.ops.len() as u64;
            a.alters.push(Alter { op: r.below(nops) as u32, bit: r.chance(1, 3), reg: r.below(1000) as u32, comp: r.below(6) as u8, delta: *r.pick(&[1, u64::MAX, 1 << (w - 1)]) });
            let off = 1 + r.below(2) as u8;
            let kind = gen_kind(r, w);
            let idx = near_end(r, dry.n[party][to(off)]);
            a.tampers.push(Tamper { n: *r.pick(&[1, 2, 1000]), ..t(off, idx, kind) });
        }
    }
    a
}

/// The party learns a challenge before it has to commit to what the challenge is for: it withholds a
/// message that the sender of the challenge does not need (MalAby3, SPDZ-wise), or it derives the
/// challenge itself (SWIFT3).
pub fn foresight(r: &mut Rng64, proto: Proto, party: usize, mut c: Case) -> Option<Case> {
    let mut a = Adversary::of(party);
    if proto == Proto::Swift3 {
        // more than 64 rows of coefficients in GF(2^64): 160 gates per value
        c.ring = *r.pick(&[Ring::U16, Ring::I16]);
        let n = 30 + r.below(6) as u32;
        c.prog = Prog { key: KeyMode::Dealer, ops: vec![Op::ShareMany { n, seed: r.next() }, Op::MsbMany(Sel { start: 0, stride: 1, len: n }), Op::OpenBitMany(Sel { start: 0, stride: 1, len: n })], guard_opens: true, final_verify: false };
        a.column = Some(r.below(1000) as u32);
        if r.chance(3, 5) {
            // it makes the coin what it wants instead of foreseeing it
            let dry = dry_run(&c);
            let mut setup = c.clone();
            setup.prog.ops = vec![];
            let from = dry_run(&setup).n;
            let (seed, see) = (r.next(), r.below(2) as u8);
            for off in 1..3u8 {
                let to = (party + off as usize) % 3;
                let l = &dry.lens[party][to];
                let i = (from[party][to] as usize..l.len().saturating_sub(1)).find(|i| l[*i] == 64 && l[i + 1] == 64)?;
                a.tampers.push(Tamper { out: true, peer: off, idx: i as u32 + 1, n: 1, kind: Kind::Steer { seed, see } });
            }
        }
        c.adversary = Some(a);
        return Some(c);
    }
    if proto == Proto::SpdzWise {
        let n = 2 + r.below(40) as u32;
        c.prog = Prog { key: KeyMode::Dealer, ops: vec![Op::ShareMany { n, seed: r.next() }, Op::MsbMany(Sel { start: 0, stride: 1, len: n }), Op::OpenBitMany(Sel { start: 0, stride: 1, len: n })], guard_opens: true, final_verify: false };
    }
    let dry = dry_run(&c);
    let to = (party + 1) % 3;
    let l = &dry.lens[party][to];
    let cand: Vec<usize> = (0..l.len()).filter(|i| l[*i] >= 16 && l[*i] % 16 == 0 && l[i + 1..].iter().take(2).any(|x| *x == 32)).collect();
    if cand.is_empty() {
        return None;
    }
    let idx = if proto == Proto::SpdzWise { *cand.iter().max_by_key(|i| l[**i])? } else { *r.pick(&cand) };
    let w = if proto == Proto::SpdzWise { 0 } else if c.ring == Ring::U64 { *r.pick(&[8, 16, 16]) } else { 8 };
    let delta = match r.below(3) {
        0 => 1,
        1 => 1u64 << r.below(c.ring.bits() as u64),
        _ => r.next() | 1,
    };
    a.tampers.push(Tamper { out: true, peer: 1, idx: idx as u32, n: 1, kind: Kind::AwaitCoin { w, pos: r.next() >> 8, delta } });
    if proto == Proto::SpdzWise {
        c.triples = 64;
        // every product is wrong, in the triples and in the computation
        a.zeros.push(ZeroErr { at: 0, n: dry.binaries[party], lo: u64::MAX, hi: u64::MAX, binary: true });
        // its own view of the opened triples
        let seen = dry.lens[(party + 2) % 3][party].iter().position(|x| *x == 48)?;
        a.tampers.push(Tamper { out: false, peer: 2, idx: seen as u32, n: 1, kind: Kind::InvertFrom { pos: 32 } });
    }
    c.adversary = Some(a);
    Some(c)
}

/// The column attack: in a rehearsal in which the others draw other randomness after the setup, note the
/// coefficients of the rows; then err in rows of one column whose coefficients add up to nothing.
pub fn predict(c: &Case, p: usize, col: u32) -> Option<Vec<ZeroErr>> {
    let mut setup = c.clone();
    setup.prog.ops = vec![];
    setup.prog.final_verify = false;
    let draws = dry_run(&setup).draws;
    let overrides = (0..3).filter(|q| *q != p).map(|q| (q, draws[q] | simcore::interpose::FROM, 1)).collect();
    let mut calm = c.clone();
    calm.net = NetCfg::calm();
    let trail = exec::on_fresh_thread(move || go(&calm, &Mode::Replay(vec![]), Opts { overrides, ..Default::default() }).trail);
    let end = trail.iter().position(|t| matches!(t, Trail::Thetas(_)))?;
    let Trail::Thetas(thetas) = &trail[end] else { return None };
    // the zero share and bit of every gate
    let mut gates: Vec<(u32, u32)> = vec![];
    let mut k = 0;
    for t in &trail[..end] {
        if let Trail::Draw { binary, bits } = t {
            if *binary {
                gates.extend((0..*bits as u32).map(|b| (k, b)));
            }
            k += 1;
        }
    }
    let l = thetas.len();
    if l < 2 || l != f64::ceil(f64::sqrt(gates.len() as f64)) as usize {
        return None;
    }
    let m = (gates.len() + l - 1) / l;
    let col = col as usize % m;
    // a set of rows with sum zero, by elimination
    let mut basis: Vec<(u64, Vec<usize>)> = vec![];
    for j in 0..l {
        if j * m + col >= gates.len() {
            break;
        }
        let (mut v, mut rows) = (thetas[j], vec![j]);
        for (b, br) in &basis {
            if v ^ b < v {
                v ^= b;
                for x in br {
                    match rows.iter().position(|y| y == x) {
                        Some(i) => {
                            rows.remove(i);
                        }
                        None => rows.push(*x),
                    }
                }
            }
        }
        if v == 0 {
            return Some(
                rows.iter()
                    .map(|j| {
                        let (at, b) = gates[j * m + col];
                        let e = 1u128 << b;
                        ZeroErr { at, n: 1, lo: e as u64, hi: (e >> 64) as u64, binary: false }
                    })
                    .collect(),
            );
        }
        basis.push((v, rows));
        basis.sort_by(|x, y| y.0.cmp(&x.0));
    }
    None
}

impl Cheat {
    /// Two inputs, perhaps their signs, and one or two single operations each between two verifications.
    fn gen_single(&self, r: &mut Rng64, w: u32, dealer_only: bool, honest: &[u8]) -> Vec<Op> {
        let src = |r: &mut Rng64| if dealer_only || r.chance(1, 3) { Op::Input { owner: *r.pick(honest), v: gen_value(r, w) } } else { Op::Share { v: gen_value(r, w) } };
        let mut ops = vec![src(r), src(r)];
        let bits = r.chance(2, 3);
        if bits {
            ops.push(Op::MsbMany(Sel { start: 0, stride: 1, len: 1 + r.below(3) as u32 }));
        }
        let sel = |r: &mut Rng64, n: u32| Sel { start: r.below(8) as u32, stride: 1, len: n };
        for _ in 0..1 + r.below(5) / 3 {
            ops.push(Op::Verify);
            let n = 1 + r.below(3) as u32;
            ops.push(match r.below(if bits { 9 } else { 4 }) {
                0 => Op::Mul(r.below(8) as u32, r.below(8) as u32),
                1 => Op::Dot(sel(r, n), sel(r, n)),
                2 => Op::DotMany(vec![(sel(r, n), sel(r, n))]),
                3 => src(r),
                4 | 5 => Op::Or(r.below(8) as u32, r.below(8) as u32),
                6 | 7 => Op::ReduceOr(sel(r, n + 1), 1 + r.below(3) as u32),
                _ => Op::Msb(r.below(8) as u32),
            });
        }
        let last = Sel { start: 0, stride: 1, len: 10 };
        if bits {
            ops.push(Op::OpenBitMany(last));
        }
        if !bits || r.chance(1, 2) {
            ops.push(Op::OpenMany(last));
        }
        ops
    }
    fn gen_prog(&self, r: &mut Rng64, party: usize, tier: Tier, single: bool) -> (Ring, Prog) {
        let honest: Vec<u8> = (0..3u8).filter(|p| *p as usize != party).collect();
        let query = self.proto != Proto::Swift3 && r.chance(1, 12);
        if query && !single {
            let n = 1 + r.usize(3);
            let mut q = gen_query(r, n, false);
            if r.chance(1, 2) {
                q.chunk = 1 + r.below(2) as u32;
            }
            return (Ring::U16, Prog { key: KeyMode::Dealer, ops: vec![Op::Query(q)], guard_opens: true, final_verify: false });
        }
        let ring = *r.pick(rings(self.proto));
        let w = ring.bits();
        let key = if self.proto == Proto::SpdzWise && r.chance(1, 3) { KeyMode::Joint } else { KeyMode::Dealer };
        let dealer_only = key == KeyMode::Joint;
        if single {
            return (ring, Prog { key, ops: self.gen_single(r, w, dealer_only, &honest), guard_opens: true, final_verify: false });
        }
        if !dealer_only && r.chance(1, 50) {
            let most = *r.pick(&[600u32, 2500, 5000, 30_000]);
            return (ring, Prog { key, ops: gen_long(r, self.proto, w, most), guard_opens: true, final_verify: false });
        }
        let limit = *r.pick(&[10.0, 20.0, 60.0, if tier == Tier::Thorough { 600.0 } else { 100.0 }]);
        let mut max_ops = *r.pick(&[2usize, 4, 8, if tier == Tier::Thorough { 40 } else { 12 }]);
        let mut max_vec = *r.pick(&[3u32, 8, 20]);
        let ops = loop {
            let ops = if r.chance(1, 4) {
                // a membership query in miniature
                let n = 1 + r.below(max_vec as u64) as u32;
                let mut ops = vec![];
                let src = |r: &mut Rng64| if dealer_only || r.chance(1, 3) { Op::Input { owner: *r.pick(&honest), v: gen_value(r, w) } } else { Op::Share { v: gen_value(r, w) } };
                ops.push(src(r));
                ops.push(src(r));
                if !dealer_only {
                    ops.push(Op::ShareMany { n, seed: r.next() });
                }
                let k = 1 + r.usize(3);
                let s = |r: &mut Rng64| Sel { start: r.below(100) as u32, stride: 1, len: n };
                ops.push(Op::DotMany((0..k).map(|_| (s(r), s(r))).collect()));
                ops.push(Op::MsbMany(Sel { start: 2, stride: 1, len: k as u32 }));
                ops.push(Op::ReduceOr(Sel { start: 0, stride: 1, len: k as u32 }, 1 + r.below(3) as u32));
                ops.push(Op::OpenBit(k as u32));
                ops
            } else {
                let opens = r.chance(1, 2);
                let mut ops = gen_ops(r, &GenCfg { proto: self.proto, w, max_ops, max_vec, opens, inputs_from: honest.clone(), dealer_only, heavy_bits: false });
                match r.below(4) {
                    0 => ops.push(Op::Open(r.below(1000) as u32)),
                    1 => ops.push(Op::OpenBit(r.below(1000) as u32)),
                    2 => ops.push(Op::OpenBitMany(Sel { start: 0, stride: 1, len: 1 + r.below(8) as u32 })),
                    _ => {}
                }
                ops.push(Op::OpenMany(Sel { start: r.below(50) as u32, stride: 1, len: 1 + r.below(12) as u32 }));
                for o in ops.iter_mut() {
                    if let Op::Precompute(n) = o {
                        *n %= 80;
                    }
                }
                if r.chance(1, 8) {
                    ops = ops.into_iter().flat_map(|o| if r.chance(1, 2) { vec![o, Op::Verify] } else { vec![o] }).collect();
                }
                ops
            };
            let p = Prog { key, ops, guard_opens: true, final_verify: false };
            if self.proto != Proto::Swift3 || swift3_cost(&p, w) <= limit {
                break p.ops;
            }
            max_vec = (max_vec * 2 / 3).max(2);
            max_ops = (max_ops * 5 / 6).max(2);
        };
        (ring, Prog { key, ops, guard_opens: true, final_verify: false })
    }
}

impl Property for Cheat {
    type Case = Case;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        format!("case = {} program or membership query (inputs by the dealer or honest parties; verification before every opening) x corrupted party x 1..4 deviations: messages sent or received by it at a position chosen from an undisturbed dry run (setup, last messages, uniform) are bit-flipped, shifted additively, randomised, zeroed, truncated, extended, emptied, dropped, duplicated, swapped, replayed, echoed (also rushing: held until the peer's own message can be reflected) or replaced, or a share it holds is altered before an operation, or an error is put on its part of a product before resharing, or a combination of these that belongs together (the coin steered, proofs as if nothing had happened, the same lie to both); mostly it goes on whatever the others confirm or prove to it; when everybody waits, its links are closed. Network delays, stalls and policy from the seed. Non-trivial: a deviation really changed a message or share", self.proto.name())
    }
    fn real(&self) -> Vec<String> {
        real_l1()
    }
    fn stubbed(&self) -> Vec<String> {
        let mut v = stub_l1();
        v.push("the corrupted party: the real code with its messages and shares altered (not an arbitrary program)".into());
        v
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = assume_l1();
        v.push("statistical soundness error of the protocols (at most about 2^-27 per attempt; SPDZ-wise cut-and-choose with the reduced number of triples used in most cases 2^-17 for two matching single-bit errors) is not reached".into());
        v
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (if self.proto == Proto::MalAby3 { 100_000 } else { 50_000 }, 75.0)
        } else {
            (4_000_000, 760.0)
        }
    }
    fn gen(&self, _i: usize, r: &mut Rng64, tier: Tier) -> Case {
        let party = r.usize(3);
        let single = r.chance(1, 5);
        let (ring, prog) = self.gen_prog(r, party, tier, single);
        let mut c = Case { proto: self.proto, ring, prog, net: NetCfg::gen(r), deal_seed: r.next(), entropy: r.next(), triples: 0, adversary: None, faults: vec![] };
        let often = if self.proto == Proto::Swift3 { 25 } else { 20 };
        if r.chance(1, often) && !matches!(c.prog.ops[0], Op::Query(_)) {
            if let Some(mut x) = foresight(r, self.proto, party, c.clone()) {
                x.adversary.as_mut().unwrap().careless = r.chance(1, 2);
                return x;
            }
        }
        let dry = dry_run(&c);
        let n = dry.n;
        let mut a = Adversary::of(party);
        let k = *r.pick(&[1usize, 1, 1, 1, 1, 2, 2, 3, 4]);
        let focused = !matches!(c.prog.ops[0], Op::Query(_)) && if single { r.chance(3, 4) } else { r.chance(1, 12) };
        let combined = !focused && r.chance(1, 4);
        if combined {
            a = combination(r, &c, party, &dry);
        }
        if focused {
            focus(r, &c, &mut a);
        }
        let k = if focused { (a.size() == 0) as usize } else if combined { r.usize(2) } else { k };
        for _ in 0..k {
            if dry.zeros[party] > 0 && r.chance(1, 5) {
                a.zeros.push(gen_zero(r, dry.zeros[party], ring.bits()));
            } else if r.chance(1, 5) && !matches!(c.prog.ops[0], Op::Query(_)) {
                let nops = c.prog.ops.len() as u64;
                let op = if r.chance(1, 3) { nops - 1 } else { r.below(nops) } as u32;
                a.alters.push(Alter { op, bit: r.chance(1, 3), reg: r.below(1000) as u32, comp: r.below(6) as u8, delta: { let x = r.next(); *r.pick(&[1, u64::MAX, 1 << (ring.bits() - 1), x]) } });
            } else {
                a.tampers.push(gen_tamper(r, party, ring.bits(), &n));
            }
        }
        // One wrong element cannot pass the cut-and-choose however few triples it has. Two errors that
        // happen to meet in the permutation of 128*n bits can: 2^-17 for 1024 words, 2^-20 as shipped.
        let single = a.size() == 1
            && a.alters.is_empty()
            && a.zeros.iter().all(|z| z.n == 1)
            && a.tampers.iter().all(|t| t.n == 1 && matches!(t.kind, Kind::FlipBit { .. } | Kind::AddLe { .. } | Kind::Truncate { .. } | Kind::Extend { .. } | Kind::Empty | Kind::Drop));
        if single && r.chance(9, 10) {
            c.triples = 64;
        } else if r.chance(29, 30) {
            c.triples = 1024;
        }
        a.careless = r.chance(3, 4);
        c.adversary = Some(a);
        c
    }
    fn run(&self, c: &Case, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        let adv = c.adversary.as_ref().unwrap();
        let p = adv.party as usize;
        let honest: Vec<usize> = (0..3).filter(|x| *x != p).collect();
        let mut with = c.clone();
        if let Some(col) = adv.column {
            let z = predict(c, p, col);
            out.count(if z.is_some() { "probe.predicted_coefficients" } else { "probe.no_prediction" });
            with.adversary.as_mut().unwrap().zeros.extend(z.unwrap_or_default());
        }
        let as_if = &mut with.adversary.as_mut().unwrap().tampers;
        if as_if.iter().any(|t| t.kind == Kind::AsIf) {
            let mut calm = c.clone();
            calm.adversary = None;
            calm.net = NetCfg::calm();
            let sent = exec::on_fresh_thread(move || go(&calm, &Mode::Replay(vec![]), Opts { record_sent: true, ..Default::default() }).hub.borrow().sent.clone());
            *as_if = as_if
                .iter()
                .flat_map(|t| {
                    if t.kind != Kind::AsIf {
                        return vec![t.clone()];
                    }
                    let m = &sent[p][(p + t.peer as usize) % 3];
                    (t.idx as usize..m.len().min(t.idx as usize + t.n as usize)).map(|i| Tamper { idx: i as u32, n: 1, kind: Kind::Bytes { data: m[i].clone() }, ..t.clone() }).collect()
                })
                .collect();
            out.count("probe.as_if_nothing_happened");
        }
        let c = &with;
        let o = go(c, mode, Opts { log, close_on_quiescence: Some(p), ..Default::default() });
        absorb(&mut out, &o);
        check_faulty(c, &o, &honest, &mut out);
        let changed = o.deviated(p);
        let e = errors(&o, &honest);
        if changed {
            out.count(match e {
                0 => "probe.changed_undetected_harmless",
                1 => "probe.changed_one_honest_party_errors",
                _ => "probe.changed_both_honest_parties_error",
            });
        } else if e > 0 && out.violation.is_none() {
            // nothing was altered: completeness must hold
            check_honest(c, &o, &mut out);
        }
        for h in &honest {
            if let Some(Err((k, s))) = &o.logs[*h].end {
                out.count(&format!("error_at.{}.{}", kind_name(c, *k), s.split('(').next().unwrap_or("")));
            }
        }
        out.nontrivial = out.violation.is_none() && changed;
        out
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        shrink_case(c)
    }
}

#[allow(unused)]
fn unused() -> u64 {
    mix(&[])
}
