//! Straight-line programs over the public operations, their plaintext meaning, and their execution
//! by one simulated party.
use crate::session::{trunc, Proto, Session};
use crate::simnet::SimNet;
use plain_reference::IrisCodeArray;
use serde::{Deserialize, Serialize};
use simcore::exec;
use simcore::rng::{mix, Rng64};
use std::cell::RefCell;
use std::rc::Rc;

pub const CODE: usize = 12800;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sel {
    pub start: u32,
    pub stride: u32,
    pub len: u32,
}
impl Sel {
    pub fn idx(&self, n: usize) -> Vec<usize> {
        (0..self.len as usize).map(|i| (self.start as usize + i * self.stride as usize) % n).collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Entry {
    pub seed: u64,
    /// weight of the combined mask
    pub ones: u32,
    /// Hamming distance on the combined mask
    pub dist: u32,
    /// length of the code vector
    pub len: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Query {
    pub probe_seed: u64,
    /// weight of the probe's own mask
    pub probe_ones: u32,
    pub probe_len: u32,
    pub db: Vec<Entry>,
    pub chunk: u32,
    /// masks missing (<0) or in excess (>0) at the end of the list
    pub mask_delta: i32,
    /// changes the codes but not masks and distances
    #[serde(default)]
    pub salt: u64,
}

pub fn threshold(ones: usize) -> usize {
    ones * 34 / 100
}
pub const MASK_MIN: usize = 8960;

impl Query {
    pub fn usable(&self) -> bool {
        !self.db.is_empty()
            && self.mask_delta == 0
            && self.probe_len as usize == CODE
            && self.db.iter().all(|e| e.len as usize == CODE && e.ones as usize >= MASK_MIN)
    }
    pub fn answer(&self) -> bool {
        self.db.iter().any(|e| (e.dist as usize) < threshold(e.ones as usize))
    }
}

pub struct Built {
    pub probe: Vec<bool>,
    pub probe_mask: Vec<bool>,
    pub codes: Vec<Vec<bool>>,
    pub masks: Vec<Vec<bool>>,
}
fn some_positions(r: &mut Rng64, from: &[usize], k: usize) -> Vec<usize> {
    let mut v = from.to_vec();
    let k = k.min(v.len());
    for i in 0..k {
        let j = i + r.usize(v.len() - i);
        v.swap(i, j);
    }
    v.truncate(k);
    v
}
/// Codes and masks with exactly the described weights and distances.
pub fn build(q: &Query) -> Built {
    let mut r = Rng64::new(mix(&[q.probe_seed, 0x1715]));
    let probe: Vec<bool> = (0..CODE).map(|_| r.chance(1, 2)).collect();
    let all: Vec<usize> = (0..CODE).collect();
    let pm_pos = some_positions(&mut r, &all, q.probe_ones as usize);
    let mut probe_mask = vec![false; CODE];
    pm_pos.iter().for_each(|i| probe_mask[*i] = true);
    let mut codes = vec![];
    let mut masks = vec![];
    for e in &q.db {
        let mut r = Rng64::new(mix(&[e.seed, 0xE17]));
        let comb = some_positions(&mut r, &pm_pos, e.ones as usize);
        let mut m: Vec<bool> = (0..CODE).map(|i| !probe_mask[i] && r.chance(3, 4)).collect();
        comb.iter().for_each(|i| m[*i] = true);
        let mut c: Vec<bool> = (0..CODE).map(|_| r.chance(1, 2)).collect();
        comb.iter().for_each(|i| c[*i] = probe[*i]);
        for i in some_positions(&mut r, &comb, e.dist as usize) {
            c[i] = !probe[i];
        }
        c.resize(e.len as usize, true);
        codes.push(c);
        masks.push(m);
    }
    let mut p = probe;
    if q.salt != 0 {
        let mut r = Rng64::new(q.salt);
        let flip: Vec<bool> = (0..CODE).map(|_| r.chance(1, 2)).collect();
        p.iter_mut().zip(&flip).for_each(|(b, f)| *b ^= f);
        codes.iter_mut().for_each(|c| c.iter_mut().zip(&flip).for_each(|(b, f)| *b ^= f));
    }
    p.resize(q.probe_len as usize, true);
    let n = (masks.len() as i32 + q.mask_delta).max(0) as usize;
    if n < masks.len() {
        masks.truncate(n);
    } else {
        while masks.len() < n {
            masks.push(vec![true; CODE]);
        }
    }
    Built { probe: p, probe_mask, codes, masks }
}
pub fn to_array(bits: &[bool]) -> IrisCodeArray {
    let mut a = IrisCodeArray::ZERO;
    let raw = a.as_raw_mut_slice();
    for (i, b) in bits.iter().enumerate() {
        if *b {
            raw[i / 8] |= 1 << (i % 8);
        }
    }
    a
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Share { v: u64 },
    ShareMany { n: u32, seed: u64 },
    Input { owner: u8, v: u64 },
    Add(u32, u32),
    Sub(u32, u32),
    AddConst(u32, u64),
    SubConst(u32, u64),
    MulConst(u32, u64),
    Mul(u32, u32),
    Dot(Sel, Sel),
    DotMany(Vec<(Sel, Sel)>),
    Msb(u32),
    MsbMany(Sel),
    Or(u32, u32),
    ReduceOr(Sel, u32),
    Verify,
    Open(u32),
    OpenMany(Sel),
    OpenBit(u32),
    OpenBitMany(Sel),
    Precompute(u32),
    Query(Query),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum KeyMode {
    Dealer,
    Joint,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Prog {
    pub key: KeyMode,
    pub ops: Vec<Op>,
    /// verify right before every opening
    pub guard_opens: bool,
    /// a verification, after which the party ends, follows the last operation
    pub final_verify: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Vals(Vec<u64>),
    Bits(Vec<bool>),
    Query(bool),
    Refused,
    Verified,
}

fn many(seed: u64, i: usize, n: usize, w: u32) -> u64 {
    let x = mix(&[seed, i as u64]);
    if seed & 3 == 0 {
        // at most one negative value, anywhere
        let hot = seed & 4 != 0 && i == (seed >> 8) as usize % n.max(1);
        return if hot { trunc(x | 1 << (w - 1), w) } else { trunc(x, w) & !(1 << (w - 1)) };
    }
    match x >> 61 {
        0 => trunc(x, 1),
        1 => trunc(u64::MAX - (x & 3), w),
        _ => trunc(x, w),
    }
}

/// The plaintext meaning: which operation outputs what.
pub fn plain(p: &Prog, w: u32) -> Vec<(usize, Out)> {
    let mut a: Vec<u64> = vec![];
    let mut b: Vec<bool> = vec![];
    let mut out = vec![];
    let t = |v: u64| trunc(v, w);
    let dot = |x: &Sel, y: &Sel, a: &Vec<u64>| {
        let (i, j) = (x.idx(a.len()), y.idx(a.len()));
        t(i.iter().zip(&j).fold(0u64, |s, (i, j)| s.wrapping_add(a[*i].wrapping_mul(a[*j]))))
    };
    let msb = |v: u64| (v >> (w - 1)) & 1 == 1;
    for (k, op) in p.ops.iter().enumerate() {
        let (na, nb) = (a.len(), b.len());
        if skipped(op, na, nb) {
            continue;
        }
        let r = |i: &u32| *i as usize % na.max(1);
        match op {
            Op::Share { v } | Op::Input { v, .. } => a.push(t(*v)),
            Op::ShareMany { n, seed } => (0..*n as usize).for_each(|i| a.push(many(*seed, i, *n as usize, w))),
            Op::Add(x, y) => a.push(t(a[r(x)].wrapping_add(a[r(y)]))),
            Op::Sub(x, y) => a.push(t(a[r(x)].wrapping_sub(a[r(y)]))),
            Op::AddConst(x, c) => a.push(t(a[r(x)].wrapping_add(*c))),
            Op::SubConst(x, c) => a.push(t(a[r(x)].wrapping_sub(*c))),
            Op::MulConst(x, c) => a.push(t(a[r(x)].wrapping_mul(*c))),
            Op::Mul(x, y) => a.push(t(a[r(x)].wrapping_mul(a[r(y)]))),
            Op::Dot(x, y) => a.push(dot(x, y, &a)),
            Op::DotMany(v) => {
                let n: Vec<u64> = v.iter().map(|(x, y)| dot(x, y, &a)).collect();
                a.extend(n);
            }
            Op::Msb(x) => b.push(msb(a[r(x)])),
            Op::MsbMany(s) => b.extend(s.idx(na).iter().map(|i| msb(a[*i]))),
            Op::Or(x, y) => b.push(b[*x as usize % nb] | b[*y as usize % nb]),
            Op::ReduceOr(s, _) => {
                let v = s.idx(nb).iter().any(|i| b[*i]);
                b.push(v)
            }
            Op::Verify => out.push((k, Out::Verified)),
            Op::Open(x) => out.push((k, Out::Vals(vec![a[r(x)]]))),
            Op::OpenMany(s) => out.push((k, Out::Vals(s.idx(na).iter().map(|i| a[*i]).collect()))),
            Op::OpenBit(x) => out.push((k, Out::Bits(vec![b[*x as usize % nb]]))),
            Op::OpenBitMany(s) => out.push((k, Out::Bits(s.idx(nb).iter().map(|i| b[*i]).collect()))),
            Op::Precompute(_) => {}
            Op::Query(q) => out.push((k, if q.usable() { Out::Query(q.answer()) } else { Out::Refused })),
        }
    }
    if p.final_verify {
        out.push((p.ops.len(), Out::Verified));
    }
    out
}

/// An operation whose operands do not exist (after shrinking) is a no-op for everyone.
pub fn skipped(op: &Op, na: usize, nb: usize) -> bool {
    match op {
        Op::Add(..) | Op::Sub(..) | Op::AddConst(..) | Op::SubConst(..) | Op::MulConst(..) | Op::Mul(..) | Op::Dot(..) | Op::DotMany(..) | Op::Msb(..) | Op::MsbMany(..) | Op::Open(..) | Op::OpenMany(..) => na == 0,
        Op::Or(..) | Op::ReduceOr(..) | Op::OpenBit(..) | Op::OpenBitMany(..) => nb == 0,
        _ => false,
    }
}

pub struct QueryShares<A> {
    pub probe: Vec<A>,
    pub db: Vec<Vec<A>>,
    pub mask: IrisCodeArray,
    pub masks: Vec<IrisCodeArray>,
}
/// What the dealer hands to one party before the session.
pub struct Deal<A> {
    pub key: Option<A>,
    pub shares: Vec<Vec<A>>,
    pub queries: Vec<Option<QueryShares<A>>>,
}

pub fn deal<S: Session>(p: &Prog, seed: u64) -> Vec<Deal<S::A>> {
    let mut rng = Rng64::new(mix(&[seed, 0xDEA1]));
    let key = rng.next();
    let mut d: Vec<Deal<S::A>> = (0..3).map(|_| Deal { key: None, shares: vec![], queries: vec![] }).collect();
    if p.key == KeyMode::Dealer {
        if let Some(k) = S::key_shares(key, &mut rng) {
            for (d, k) in d.iter_mut().zip(k) {
                d.key = Some(k);
            }
        }
    }
    for op in &p.ops {
        match op {
            Op::Share { v } => {
                for (d, s) in d.iter_mut().zip(S::share(trunc(*v, S::W), key, &mut rng)) {
                    d.shares.push(vec![s]);
                }
            }
            Op::ShareMany { n, seed } => {
                d.iter_mut().for_each(|d| d.shares.push(vec![]));
                for i in 0..*n as usize {
                    for (d, s) in d.iter_mut().zip(S::share(many(*seed, i, *n as usize, S::W), key, &mut rng)) {
                        d.shares.last_mut().unwrap().push(s);
                    }
                }
            }
            Op::Query(q) => {
                let b = build(q);
                let mask = to_array(&b.probe_mask);
                let masks: Vec<_> = b.masks.iter().map(|m| to_array(m)).collect();
                let mut vec_share = |bits: &[bool]| {
                    let mut o: [Vec<S::A>; 3] = Default::default();
                    for bit in bits {
                        for (o, s) in o.iter_mut().zip(S::share(*bit as u64, key, &mut rng)) {
                            o.push(s);
                        }
                    }
                    o
                };
                let pr = vec_share(&b.probe);
                let mut db: [Vec<Vec<S::A>>; 3] = Default::default();
                for c in &b.codes {
                    for (o, s) in db.iter_mut().zip(vec_share(c)) {
                        o.push(s);
                    }
                }
                for ((d, pr), db) in d.iter_mut().zip(pr).zip(db) {
                    d.queries.push(Some(QueryShares { probe: pr, db, mask, masks: masks.clone() }));
                }
            }
            _ => {}
        }
    }
    d
}

/// A corrupted party computes on an altered share: before operation `op`.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Alter {
    pub op: u32,
    pub bit: bool,
    pub reg: u32,
    pub comp: u8,
    pub delta: u64,
}

#[derive(Default)]
pub struct PartyLog {
    pub outs: Vec<(usize, Out)>,
    pub setup_done: bool,
    pub end: Option<Result<(), (usize, String)>>,
    pub altered: u64,
}
pub type LogRef = Rc<RefCell<PartyLog>>;

pub const AT_SETUP: usize = usize::MAX;
pub const AT_FINISH: usize = usize::MAX - 1;

fn is_open(op: &Op) -> bool {
    matches!(op, Op::Open(..) | Op::OpenMany(..) | Op::OpenBit(..) | Op::OpenBitMany(..))
}

/// One party's whole session.
pub async fn run_party<S: Session>(net: SimNet, p: Rc<Prog>, deal: Deal<S::A>, alters: Vec<Alter>, log: LogRef) {
    let r = party_inner::<S>(net, p, deal, alters, log.clone()).await;
    exec::log(|| format!("party ends: {:?}", r));
    exec::observe(&[7, r.is_ok() as u64, r.as_ref().err().map(|e| e.0 as u64).unwrap_or(0)]);
    log.borrow_mut().end = Some(r);
}

async fn party_inner<S: Session>(net: SimNet, p: Rc<Prog>, mut deal: Deal<S::A>, alters: Vec<Alter>, log: LogRef) -> Result<(), (usize, String)> {
    let e = |k: usize| move |e: iris_mpc::prelude::Error| (k, format!("{e:?}"));
    let me = iris_mpc::prelude::NetworkTrait::get_id(&net);
    let mut s = S::open_session(net).map_err(e(AT_SETUP))?;
    s.preprocess().await.map_err(e(AT_SETUP))?;
    match (p.key, deal.key.take()) {
        (KeyMode::Dealer, Some(k)) => s.set_key(k),
        (KeyMode::Joint, _) => s.set_new_key(),
        _ => {}
    }
    log.borrow_mut().setup_done = true;
    exec::log(|| format!("party {me}: setup done"));
    let mut a: Vec<S::A> = vec![];
    let mut b: Vec<S::B> = vec![];
    let mut shares = std::mem::take(&mut deal.shares).into_iter();
    let mut queries = std::mem::take(&mut deal.queries).into_iter();
    for (k, op) in p.ops.iter().enumerate() {
        for t in &alters {
            if t.op as usize == k {
                if !t.bit && !a.is_empty() {
                    let i = t.reg as usize % a.len();
                    a[i] = S::tweak(&a[i], t.comp, t.delta);
                    log.borrow_mut().altered += 1;
                    exec::count("fault.altered_share");
                } else if t.bit && !b.is_empty() {
                    let i = t.reg as usize % b.len();
                    b[i] = S::tweak_bit(&b[i], t.comp);
                    log.borrow_mut().altered += 1;
                    exec::count("fault.altered_bit_share");
                }
            }
        }
        let (na, nb) = (a.len(), b.len());
        if skipped(op, na, nb) {
            continue;
        }
        exec::log(|| format!("party {me}: op {k} {}", short(op)));
        let ra = |i: &u32| *i as usize % na.max(1);
        let rb = |i: &u32| *i as usize % nb.max(1);
        let pick = |s: &Sel, a: &Vec<S::A>| -> Vec<S::A> { s.idx(na).iter().map(|i| a[*i].clone()).collect() };
        let pickb = |s: &Sel, b: &Vec<S::B>| -> Vec<S::B> { s.idx(nb).iter().map(|i| b[*i].clone()).collect() };
        if p.guard_opens && is_open(op) {
            s.verify().await.map_err(e(k))?;
        }
        let out = |o: Out| {
            exec::observe(&[9, me as u64, k as u64, simcore::rng::hash_bytes(format!("{o:?}").as_bytes())]);
            log.borrow_mut().outs.push((k, o));
        };
        match op {
            Op::Share { .. } | Op::ShareMany { .. } => a.extend(shares.next().expect("dealt")),
            Op::Input { owner, v } => {
                let own = *owner as usize % 3;
                let v = if own == me { Some(trunc(*v, S::W)) } else { None };
                let x = s.input(v, own).await.map_err(e(k))?;
                a.push(x);
            }
            Op::Add(x, y) => a.push(s.add(a[ra(x)].clone(), a[ra(y)].clone())),
            Op::Sub(x, y) => a.push(s.sub(a[ra(x)].clone(), a[ra(y)].clone())),
            Op::AddConst(x, c) => a.push(s.add_const(a[ra(x)].clone(), *c)),
            Op::SubConst(x, c) => a.push(s.sub_const(a[ra(x)].clone(), *c)),
            Op::MulConst(x, c) => a.push(s.mul_const(a[ra(x)].clone(), *c)),
            Op::Mul(x, y) => {
                let v = s.mul(a[ra(x)].clone(), a[ra(y)].clone()).await.map_err(e(k))?;
                a.push(v)
            }
            Op::Dot(x, y) => {
                let v = s.dot(pick(x, &a), pick(y, &a)).await.map_err(e(k))?;
                a.push(v)
            }
            Op::DotMany(v) => {
                let (x, y) = v.iter().map(|(x, y)| (pick(x, &a), pick(y, &a))).unzip();
                let v = s.dot_many(x, y).await.map_err(e(k))?;
                if v.len() != op_len(op) {
                    return Err((k, format!("WRONG LENGTH {} from dot_many of {}", v.len(), op_len(op))));
                }
                a.extend(v)
            }
            Op::Msb(x) => {
                let v = s.msb(a[ra(x)].clone()).await.map_err(e(k))?;
                b.push(v)
            }
            Op::MsbMany(x) => {
                let v = s.msb_many(pick(x, &a)).await.map_err(e(k))?;
                if v.len() != x.len as usize {
                    return Err((k, format!("WRONG LENGTH {} from get_msb_many of {}", v.len(), x.len)));
                }
                b.extend(v)
            }
            Op::Or(x, y) => {
                let v = s.or(b[rb(x)].clone(), b[rb(y)].clone()).await.map_err(e(k))?;
                b.push(v)
            }
            Op::ReduceOr(x, c) => {
                let v = s.reduce_or(pickb(x, &b), (*c).max(1) as usize).await.map_err(e(k))?;
                b.push(v)
            }
            Op::Verify => {
                s.verify().await.map_err(e(k))?;
                out(Out::Verified)
            }
            Op::Open(x) => {
                let v = s.open(a[ra(x)].clone()).await.map_err(e(k))?;
                out(Out::Vals(vec![v]))
            }
            Op::OpenMany(x) => {
                let v = s.open_many(pick(x, &a)).await.map_err(e(k))?;
                out(Out::Vals(v))
            }
            Op::OpenBit(x) => {
                let v = s.open_bit(b[rb(x)].clone()).await.map_err(e(k))?;
                out(Out::Bits(vec![v]))
            }
            Op::OpenBitMany(x) => {
                let v = s.open_bit_many(pickb(x, &b)).await.map_err(e(k))?;
                out(Out::Bits(v))
            }
            Op::Precompute(n) => s.precompute(*n as usize).await.map_err(e(k))?,
            Op::Query(q) => {
                let qs = queries.next().flatten().expect("dealt");
                let r = s.iris(qs.probe, qs.db, &qs.mask, &qs.masks, q.chunk.max(1) as usize).await;
                match r {
                    Ok(v) => out(Out::Query(v)),
                    Err(_) if !q.usable() => out(Out::Refused),
                    Err(x) => return Err(e(k)(x)),
                }
            }
        }
    }
    if p.final_verify {
        let k = p.ops.len();
        s.verify().await.map_err(e(k))?;
        log.borrow_mut().outs.push((k, Out::Verified));
    }
    s.finish().await.map_err(e(AT_FINISH))
}

fn op_len(op: &Op) -> usize {
    match op {
        Op::DotMany(v) => v.len(),
        _ => 1,
    }
}
pub fn short(op: &Op) -> String {
    match op {
        Op::Query(q) => format!("Query(db={} chunk={})", q.db.len(), q.chunk),
        Op::DotMany(v) => format!("DotMany(x{})", v.len()),
        o => format!("{o:?}"),
    }
}

/// All public operations of this protocol family, weighted by the caller.
pub struct GenCfg {
    pub proto: Proto,
    pub w: u32,
    pub max_ops: usize,
    pub max_vec: u32,
    pub opens: bool,
    pub inputs_from: Vec<u8>,
    pub dealer_only: bool,
    pub heavy_bits: bool,
}

pub fn gen_value(r: &mut Rng64, w: u32) -> u64 {
    let m = trunc(u64::MAX, w);
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => m,
        3 => m >> 1,
        4 => (m >> 1) + 1,
        5 => r.below(8),
        _ => r.next() & m,
    }
}
fn gen_sel(r: &mut Rng64, maxlen: u32) -> Sel {
    let len = match r.below(10) {
        0 | 1 => 1,
        2 | 3 => 2 + r.below(3) as u32,
        4 => *r.pick(&[7u32, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129]),
        _ => 1 + r.below(maxlen as u64) as u32,
    };
    Sel { start: r.below(1 << 20) as u32, stride: *r.pick(&[0u32, 1, 1, 1, 2, 3, 5]), len: len.min(maxlen) }
}

pub fn gen_ops(r: &mut Rng64, c: &GenCfg) -> Vec<Op> {
    let n = 1 + r.usize(c.max_ops);
    let mut ops = vec![];
    let nsrc = 1 + r.usize(3);
    for _ in 0..nsrc {
        ops.push(gen_source(r, c));
    }
    // swarm: each operation kind is present or absent per program
    let on: Vec<bool> = (0..20).map(|_| r.chance(2, 3)).collect();
    while ops.len() < n + nsrc {
        let k = r.usize(20);
        if !on[k] && !r.chance(1, 12) {
            continue;
        }
        let (x, y) = (r.below(1 << 20) as u32, r.below(1 << 20) as u32);
        let op = match k {
            0 | 1 => gen_source(r, c),
            2 => Op::Add(x, y),
            3 => Op::Sub(x, y),
            4 => Op::AddConst(x, gen_value(r, c.w)),
            5 => Op::SubConst(x, gen_value(r, c.w)),
            6 => Op::MulConst(x, gen_value(r, c.w)),
            7 => Op::Mul(x, y),
            8 => {
                let s = gen_sel(r, c.max_vec);
                let mut t = gen_sel(r, c.max_vec);
                t.len = s.len;
                Op::Dot(s, t)
            }
            9 => {
                let m = *r.pick(&[1usize, 1, 2, 3, 5, 9]);
                let fixed = if r.chance(1, 2) { Some(gen_sel(r, c.max_vec).len) } else { None };
                let budget = (c.max_vec * 2).max(16);
                let mut used = 0;
                let mut v = vec![];
                for _ in 0..m {
                    let mut s = gen_sel(r, c.max_vec);
                    let mut t = gen_sel(r, c.max_vec);
                    if let Some(f) = fixed {
                        s.len = f;
                    }
                    t.len = s.len;
                    used += s.len;
                    v.push((s, t));
                    if used > budget {
                        break;
                    }
                }
                Op::DotMany(v)
            }
            10 => Op::Msb(x),
            11 => Op::MsbMany(gen_sel(r, if c.heavy_bits { 300 } else { c.max_vec.min(40) })),
            12 => Op::Or(x, y),
            13 => Op::ReduceOr(gen_sel(r, if c.heavy_bits { 300 } else { c.max_vec.min(40) }), *r.pick(&[1u32, 1, 2, 3, 4, 7, 16, 64, 1000])),
            14 => Op::Verify,
            15 if c.opens => Op::Open(x),
            16 if c.opens => Op::OpenMany(gen_sel(r, c.max_vec)),
            17 if c.opens => Op::OpenBit(x),
            18 if c.opens => Op::OpenBitMany(gen_sel(r, c.max_vec)),
            19 => Op::Precompute(r.below(600) as u32),
            _ => continue,
        };
        ops.push(op);
    }
    ops
}
fn gen_source(r: &mut Rng64, c: &GenCfg) -> Op {
    if !c.inputs_from.is_empty() && (c.dealer_only || r.chance(1, 3)) {
        return Op::Input { owner: *r.pick(&c.inputs_from), v: gen_value(r, c.w) };
    }
    if r.chance(1, 4) {
        Op::ShareMany { n: 1 + r.below(c.max_vec as u64) as u32, seed: r.next() }
    } else {
        Op::Share { v: gen_value(r, c.w) }
    }
}

/// Few operations on long vectors: lengths around powers of two and beyond what the other programs have.
pub fn gen_long(r: &mut Rng64, proto: Proto, w: u32, most: u32) -> Vec<Op> {
    let n = 3 + r.below(60) as u32;
    let mut ops = vec![Op::ShareMany { n, seed: r.next() }, Op::MsbMany(Sel { start: r.below(n as u64) as u32, stride: 1, len: 1 + r.below(if proto == Proto::Swift3 { 4 } else { 12 }) as u32 })];
    let len = |r: &mut Rng64, most: u32| {
        let b = 1u32 << r.range(8, 18);
        let l = match r.below(4) {
            0 => b,
            1 => b + 1,
            2 => b - 1,
            _ => b + r.below(b as u64) as u32,
        };
        l.min(most - r.below(3) as u32)
    };
    let sel = |r: &mut Rng64, len: u32| Sel { start: r.below(1 << 20) as u32, stride: *r.pick(&[1u32, 1, 2, 3, 5]), len };
    for _ in 0..1 + r.usize(3) {
        let mut v = match r.below(5) {
            0 => vec![Op::OpenBitMany({
                let l = len(r, most);
                sel(r, l)
            })],
            1 if proto != Proto::Swift3 => {
                let l = len(r, most.min(70_000));
                vec![Op::Dot(sel(r, l), sel(r, l))]
            }
            2 if proto != Proto::Swift3 => {
                let k = 2 + r.usize(3);
                let fixed = len(r, most.min(20_000));
                let same = r.chance(1, 2);
                vec![Op::DotMany(
                    (0..k)
                        .map(|_| {
                            let l = if same { fixed } else { len(r, most.min(20_000)) };
                            (sel(r, l), sel(r, l))
                        })
                        .collect(),
                )]
            }
            3 if proto != Proto::Swift3 => {
                let l = len(r, most.min(match proto {
                    Proto::Aby3 => 10_000,
                    Proto::SpdzWise => 600,
                    _ => 2500,
                } * 16 / w.max(16)));
                let all = sel(r, l);
                vec![Op::MsbMany(all), if r.chance(1, 2) { Op::ReduceOr(all, *r.pick(&[1u32, 7, 64, 1000])) } else { Op::OpenBitMany(all) }]
            }
            _ => vec![Op::OpenMany({
                let l = len(r, most);
                sel(r, l)
            })],
        };
        ops.append(&mut v);
        if r.chance(1, 4) {
            ops.push(Op::Verify);
        }
    }
    ops.push(if r.chance(1, 2) { Op::OpenMany(Sel { start: n, stride: 1, len: 1 + r.below(6) as u32 }) } else { Op::OpenBitMany(Sel { start: 0, stride: 1, len: 20 }) });
    ops
}

/// Simpler programs, most aggressive first.
pub fn shrink_prog(p: &Prog) -> Vec<Prog> {
    let mut v = vec![];
    let n = p.ops.len();
    let mut block = n / 2;
    while block >= 1 {
        let mut i = 0;
        while i < n {
            let mut q = p.clone();
            q.ops.drain(i..(i + block).min(n));
            if !q.ops.is_empty() {
                v.push(q);
            }
            i += block;
        }
        if block == 1 {
            break;
        }
        block /= 2;
    }
    for i in 0..n {
        let mut with = |op: Op| {
            let mut q = p.clone();
            q.ops[i] = op;
            v.push(q);
        };
        let small = |s: &Sel| -> Option<Sel> {
            if s.len > 1 {
                Some(Sel { start: s.start, stride: s.stride, len: s.len / 2 })
            } else {
                None
            }
        };
        match &p.ops[i] {
            Op::ShareMany { n, seed } if *n > 1 => with(Op::ShareMany { n: n / 2, seed: *seed }),
            Op::DotMany(x) if x.len() > 1 => {
                with(Op::DotMany(x[..x.len() / 2].to_vec()));
                with(Op::DotMany(x[x.len() / 2..].to_vec()));
            }
            Op::DotMany(x) => {
                let y: Vec<_> = x.iter().map(|(a, b)| (Sel { len: (a.len / 2).max(1), ..*a }, Sel { len: (b.len / 2).max(1), ..*b })).collect();
                if &y != x {
                    with(Op::DotMany(y))
                }
            }
            Op::Dot(a, b) => {
                if let (Some(a), Some(b)) = (small(a), small(b)) {
                    with(Op::Dot(a, b))
                }
            }
            Op::MsbMany(s) => {
                if let Some(s) = small(s) {
                    with(Op::MsbMany(s))
                }
            }
            Op::ReduceOr(s, c) => {
                if let Some(s) = small(s) {
                    with(Op::ReduceOr(s, *c))
                }
            }
            Op::OpenMany(s) => {
                if let Some(s) = small(s) {
                    with(Op::OpenMany(s))
                }
            }
            Op::OpenBitMany(s) => {
                if let Some(s) = small(s) {
                    with(Op::OpenBitMany(s))
                }
            }
            Op::Query(q) => {
                let m = q.db.len();
                if m > 1 {
                    for (a, b) in [(0, m / 2), (m / 2, m), (0, m - 1), (1, m)] {
                        let mut x = q.clone();
                        x.db = q.db[a..b].to_vec();
                        with(Op::Query(x));
                    }
                }
                if q.chunk > 1 {
                    let mut x = q.clone();
                    x.chunk = 1;
                    with(Op::Query(x));
                }
            }
            _ => {}
        }
    }
    v
}

/// Rough cost (milliseconds) of a SWIFT3 program's proofs, which are superlinear and cumulative.
pub fn swift3_cost(p: &Prog, w: u32) -> f64 {
    let msb_ands = match w { 8 => 14.0, 16 => 36.0, _ => 110.0 };
    let (mut ands, mut muls, mut dots, mut dmax) = (0f64, 0f64, 0f64, 0f64);
    let mut cost = 0f64;
    // a verification pads the registered dot products to l*m and keeps them for the next one
    let one = |ands: f64, muls: f64, dots: &mut f64, dmax: f64| {
        let mut c = 0.03 * ands.powf(1.36) + 0.07 * muls.powf(1.5);
        if *dots > 0.0 {
            let m = ((4.0 * dmax + 2.0) * *dots).sqrt().ceil();
            let l = (*dots / m).ceil();
            *dots = l * m;
            c += 0.009 * (4.0 * dmax + 2.0) * l * (m + 1.0) * (m + 1.0);
        }
        c
    };
    for op in &p.ops {
        match op {
            Op::Mul(..) => muls += 1.0,
            Op::Dot(x, _) => {
                dots += 1.0;
                dmax = dmax.max(x.len as f64);
            }
            Op::DotMany(v) => {
                dots += v.len() as f64;
                v.iter().for_each(|x| dmax = dmax.max(x.0.len as f64));
            }
            Op::Msb(_) => ands += msb_ands,
            Op::MsbMany(s) => ands += msb_ands * s.len as f64,
            Op::Or(..) => ands += 1.0,
            // packed into 128-bit words
            Op::ReduceOr(s, c) => ands += 128.0 * (s.len as f64 / 128.0).ceil() * if s.len > 128 { (*c as f64).min(4.0) } else { 1.0 },
            Op::Verify => cost += one(ands, muls, &mut dots, dmax),
            Op::Open(..) | Op::OpenMany(..) | Op::OpenBit(..) | Op::OpenBitMany(..) if p.guard_opens => cost += one(ands, muls, &mut dots, dmax),
            _ => {}
        }
    }
    if p.final_verify {
        cost += one(ands, muls, &mut dots, dmax);
    }
    cost
}

// ---------------------------------------------------------------- queries

pub fn gen_entry(r: &mut Rng64, probe_ones: u32, want: u8) -> Entry {
    // want: 0 = far, 1 = just not matching, 2 = just matching, 3 = close
    let ones = match r.below(5) {
        0 => MASK_MIN as u32,
        1 => probe_ones,
        2 => (MASK_MIN as u32 + r.below(60) as u32).min(probe_ones),
        _ => MASK_MIN as u32 + r.below((probe_ones as u64 - MASK_MIN as u64) + 1) as u32,
    };
    let t = threshold(ones as usize) as u32;
    let dist = match want {
        0 => match r.below(4) {
            0 => ones / 2,
            1 => ones,
            2 => t + 1 + r.below((ones - t - 1) as u64) as u32,
            _ => t + r.below(20) as u32,
        },
        1 => t,
        2 => t - 1,
        _ => match r.below(3) {
            0 => 0,
            1 => r.below(t as u64) as u32,
            _ => t - 1 - r.below(20) as u32,
        },
    };
    Entry { seed: r.next(), ones, dist, len: CODE as u32 }
}
pub fn gen_query(r: &mut Rng64, n: usize, big: bool) -> Query {
    let probe_ones = *r.pick(&[CODE as u32, 12000, 11520, 10000, 9000, MASK_MIN as u32]);
    let matching = r.chance(1, 2);
    let mut db: Vec<Entry> = (0..n).map(|_| if r.chance(1, 2) { gen_entry(r, probe_ones, 1) } else { gen_entry(r, probe_ones, 0) }).collect();
    if matching {
        let k = match r.below(4) {
            0 => 0,
            1 => n - 1,
            _ => r.usize(n),
        };
        db[k] = if r.chance(2, 3) { gen_entry(r, probe_ones, 2) } else { gen_entry(r, probe_ones, 3) };
        if r.chance(1, 4) {
            let k = r.usize(n);
            db[k] = gen_entry(r, probe_ones, 3);
        }
    }
    let chunk = match r.below(8) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => (n as u32).max(1),
        4 => n as u32 + 1 + r.below(5) as u32,
        5 => 1024,
        _ => 1 + r.below(n as u64 + 2) as u32,
    };
    let _ = big;
    Query { probe_seed: r.next(), probe_ones, probe_len: CODE as u32, db, chunk, mask_delta: 0, salt: 0 }
}

/// How many triples a cut-and-choose makes in runs where everybody is honest.
pub fn gen_triples(r: &mut Rng64) -> u32 {
    if r.chance(1, 14) {
        return 0;
    }
    let x = 1 + r.below(60) as u32;
    *r.pick(&[1, 1, 2, 3, 5, 10, x])
}
