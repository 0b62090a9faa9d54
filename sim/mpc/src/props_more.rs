//! C10 (failures), C11 (setup), C13 (traffic), C21 (dealer shares).
use crate::case::*;
use crate::dispatch;
use crate::prog::*;
use crate::props::*;
use crate::props_adv::*;
use crate::session::{rings, trunc, Proto, Ring, Session};
use crate::simnet::{Fault, Kind, NetCfg, Tamper};
use serde::{Deserialize, Serialize};
use simcore::exec::{self, Mode};
use simcore::rng::{mix, Rng64};
use simcore::runner::{Property, RunOut, Tier, Violation};

pub fn pick_proto(r: &mut Rng64) -> Proto {
    *r.pick(&[Proto::Aby3, Proto::MalAby3, Proto::MalAby3, Proto::SpdzWise, Proto::SpdzWise, Proto::Swift3, Proto::Swift3])
}

/// A small program with openings, or a membership query.
pub fn small_case(r: &mut Rng64, proto: Proto, query_in: u64) -> Case {
    if proto != Proto::Swift3 && r.chance(1, query_in) {
        let n = 1 + r.usize(3);
        let mut q = gen_query(r, n, false);
        if r.chance(1, 2) {
            q.chunk = 1 + r.below(2) as u32;
        }
        return Case { proto, ring: Ring::U16, prog: Prog { key: KeyMode::Dealer, ops: vec![Op::Query(q)], guard_opens: true, final_verify: false }, net: NetCfg::gen(r), deal_seed: r.next(), entropy: r.next(), triples: gen_triples(r).max(1), adversary: None, faults: vec![] };
    }
    let ring = *r.pick(rings(proto));
    let key = if proto == Proto::SpdzWise && r.chance(1, 3) { KeyMode::Joint } else { KeyMode::Dealer };
    let guard_opens = r.chance(1, 2);
    let final_verify = r.chance(1, 2);
    let mut cfg = GenCfg { proto, w: ring.bits(), max_ops: *r.pick(&[2usize, 4, 8, 12]), max_vec: *r.pick(&[3u32, 8, 20]), opens: true, inputs_from: vec![0, 1, 2], dealer_only: key == KeyMode::Joint, heavy_bits: false };
    let limit = *r.pick(&[10.0, 20.0, 60.0]);
    let prog = loop {
        let mut ops = gen_ops(r, &cfg);
        ops.push(Op::OpenMany(Sel { start: r.below(50) as u32, stride: 1, len: 1 + r.below(12) as u32 }));
        for o in ops.iter_mut() {
            if let Op::Precompute(n) = o {
                *n %= 80;
            }
        }
        let p = Prog { key, ops, guard_opens, final_verify };
        if proto != Proto::Swift3 || swift3_cost(&p, ring.bits()) <= limit {
            break p;
        }
        cfg.max_vec = (cfg.max_vec * 2 / 3).max(2);
        cfg.max_ops = (cfg.max_ops * 5 / 6).max(2);
    };
    Case { proto, ring, prog, net: NetCfg::gen(r), deal_seed: r.next(), entropy: r.next(), triples: gen_triples(r).max(1), adversary: None, faults: vec![] }
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FailCase {
    pub c: Case,
    /// afterwards the three parties run a fresh session
    pub again: bool,
}
pub struct C10;
impl C10 {
    fn survivors(c: &Case) -> Vec<usize> {
        (0..3usize).filter(|p| !c.faults.iter().any(|f| matches!(f, Fault::Crash { party, .. } if *party as usize == *p))).collect()
    }
}
impl Property for C10 {
    type Case = FailCase;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> String {
        "case = protocol x ring x random program or membership query x 1..2 failures (a party crashes, or a link closes, at a network call chosen from an undisturbed dry run: setup, last calls, uniform; undelivered data lost or still delivered) x network delays, stalls, send-error policy, scheduling policy; in a third of the cases the three parties then run a fresh session. Non-trivial: a failure really happened".into()
    }
    fn real(&self) -> Vec<String> {
        real_l1()
    }
    fn stubbed(&self) -> Vec<String> {
        stub_l1()
    }
    fn assumptions(&self) -> Vec<String> {
        assume_l1()
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (100_000, 45.0)
        } else {
            (4_000_000, 760.0)
        }
    }
    fn gen(&self, _i: usize, r: &mut Rng64, _tier: Tier) -> FailCase {
        let proto = pick_proto(r);
        let mut c = small_case(r, proto, 10);
        let dry = dry_run(&c);
        let k = *r.pick(&[1usize, 1, 1, 2]);
        let mut crashed = None;
        for _ in 0..k {
            let p = r.usize(3);
            let n = dry.ops[p].max(1) as u64;
            let at = match r.below(5) {
                0 => r.below(n.min(8)),
                1 | 2 => n - 1 - r.below(n.min(10)),
                _ => r.below(n),
            } as u32;
            let lose = r.chance(1, 2);
            if r.chance(1, 2) && crashed.is_none() {
                crashed = Some(p);
                c.faults.push(Fault::Crash { party: p as u8, at, lose });
            } else {
                let b = (p + 1 + r.usize(2)) % 3;
                c.faults.push(Fault::CloseLink { a: p as u8, b: b as u8, at, lose });
            }
        }
        FailCase { c, again: r.chance(1, 3) }
    }
    fn run(&self, f: &FailCase, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        let c = &f.c;
        let o = go(c, mode, Opts { log, ..Default::default() });
        absorb(&mut out, &o);
        let happened = o.report.counters.iter().any(|(k, v)| *v > 0 && (*k == "fault.crash" || *k == "fault.close_link"));
        let alive = C10::survivors(c);
        check_faulty(c, &o, &alive, &mut out);
        if !happened {
            check_honest(c, &o, &mut out);
        }
        let e = errors(&o, &alive);
        if happened {
            out.count(match (e, alive.len()) {
                (0, _) => "probe.all_others_finished",
                (a, b) if a == b => "probe.all_others_error",
                _ => "probe.some_others_error",
            });
        }
        if f.again && out.violation.is_none() {
            let mut c2 = c.clone();
            c2.faults = vec![];
            c2.entropy = mix(&[c.entropy, 77]);
            let (choices, l) = (out.choices.clone(), out.log.clone());
            let o2 = go(&c2, &Mode::Replay(vec![]), Opts { log, ..Default::default() });
            absorb(&mut out, &o2);
            out.choices = choices;
            if log && out.violation.is_none() {
                out.log = l;
                out.log.push("---- fresh session ----".into());
                out.log.extend(o2.report.log.clone());
            }
            check_honest(&c2, &o2, &mut out);
            out.count("probe.fresh_session");
        }
        out.nontrivial = out.violation.is_none() && happened;
        out
    }
    fn shrink(&self, f: &FailCase) -> Vec<FailCase> {
        let mut v: Vec<FailCase> = vec![];
        if f.again {
            v.push(FailCase { c: f.c.clone(), again: false });
        }
        v.extend(shrink_case(&f.c).into_iter().map(|c| FailCase { c, again: f.again }));
        v
    }
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SetupTest {
    /// the commitment of `from` to `to` is withheld until nothing else can happen
    Withhold { from: u8, to: u8 },
    /// a peer's setup message is changed
    Tamper,
    /// everybody is honest: what is drawn jointly is consistent
    Consistent,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SetupCase {
    pub c: Case,
    pub test: SetupTest,
}
pub struct C11;

fn setup_prog(r: &mut Rng64, proto: Proto, w: u32) -> Prog {
    let mut ops = vec![];
    let mut owners = [0u8, 1, 2];
    for i in 0..3 {
        owners.swap(i, i + r.usize(3 - i));
    }
    for o in owners {
        ops.push(Op::Input { owner: o, v: gen_value(r, w) });
    }
    ops.push(Op::Mul(0, 1));
    ops.push(Op::DotMany(vec![(Sel { start: 0, stride: 1, len: 2 }, Sel { start: 1, stride: 1, len: 2 })]));
    if r.chance(1, 2) {
        ops.push(Op::Msb(3));
    }
    ops.push(Op::Verify);
    ops.push(Op::OpenMany(Sel { start: 0, stride: 1, len: 5 }));
    if ops.iter().any(|o| matches!(o, Op::Msb(_))) {
        ops.push(Op::OpenBit(0));
    }
    Prog { key: if proto == Proto::SpdzWise { KeyMode::Joint } else { KeyMode::Dealer }, ops, guard_opens: r.chance(1, 2), final_verify: false }
}

/// number of messages per link that belong to the setup
fn setup_msgs(c: &Case) -> Dry {
    let mut d = c.clone();
    d.prog.ops = vec![];
    d.prog.final_verify = false;
    dry_run(&d)
}

impl Property for C11 {
    type Case = SetupCase;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> String {
        "case = one of: (withhold; ABY3-malicious, SWIFT3) one party's messages to a peer are withheld until nothing else can happen, and no 16-byte window of what that peer sends it afterwards in the setup may have been sent before; (tamper; the three malicious protocols) setup messages of one party to one peer are altered, truncated, extended, emptied, dropped, duplicated, swapped, replaced by another session's, by an earlier one, or by a reflection of the peer's own, after which that peer must fail in its setup or at its next verification or opening, and no honest party may output a wrong value; (consistent; all four) nobody misbehaves and inputs of every party, a product, a dot product and a sign bit are opened at all parties. Non-trivial: a commitment was really withheld / a message really changed / the openings were compared".into()
    }
    fn real(&self) -> Vec<String> {
        real_l1()
    }
    fn stubbed(&self) -> Vec<String> {
        stub_l1()
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = assume_l1();
        v.push("hiding is decided on the bytes: a contribution disclosed in an encoded form that shares no 16-byte window with its opening would be missed".into());
        v
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (100_000, 45.0)
        } else {
            (4_000_000, 760.0)
        }
    }
    fn gen(&self, _i: usize, r: &mut Rng64, _tier: Tier) -> SetupCase {
        let kind = r.below(10);
        let proto = match kind {
            0 | 1 => *r.pick(&[Proto::MalAby3, Proto::Swift3]),
            2 => *r.pick(&Proto::ALL),
            _ => *r.pick(&[Proto::MalAby3, Proto::SpdzWise, Proto::Swift3]),
        };
        let ring = *r.pick(rings(proto));
        let prog = setup_prog(r, proto, ring.bits());
        let mut c = Case { proto, ring, prog, net: NetCfg::gen(r), deal_seed: r.next(), entropy: r.next(), triples: 1, adversary: None, faults: vec![] };
        let from = r.usize(3);
        let off = 1 + r.usize(2);
        let to = (from + off) % 3;
        let test = match kind {
            0 | 1 => {
                c.prog.ops.clear();
                SetupTest::Withhold { from: from as u8, to: to as u8 }
            }
            2 => SetupTest::Consistent,
            _ => {
                let n = setup_msgs(&c).n[from][to].max(1);
                let mut a = Adversary::of(from);
                let mut t = |idx: usize, n: u32, kind: Kind| a.tampers.push(Tamper { out: true, peer: off as u8, idx: idx as u32, n, kind });
                match r.below(6) {
                    // all its setup messages to that peer come from another session
                    0 => {
                        let mut d = c.clone();
                        d.entropy = r.next();
                        d.prog.ops = vec![];
                        let msgs = exec::on_fresh_thread(|| {
                            let o = go(&d, &Mode::Replay(vec![]), Opts { record_sent: true, ..Default::default() });
                            let h = o.hub.borrow();
                            h.sent[from][to].clone()
                        });
                        let only = if r.chance(1, 2) { Some(r.usize(n)) } else { None };
                        for (i, m) in msgs.into_iter().enumerate() {
                            if only.is_none() || only == Some(i) {
                                t(i, 1, Kind::Bytes { data: m });
                            }
                        }
                    }
                    1 => t(0, n as u32, r.pick(&[Kind::RushEcho, Kind::Echo]).clone()),
                    _ => {
                        let kind = gen_kind(r, 8);
                        let m = if r.chance(1, 4) { n as u32 } else { 1 };
                        t(if m > 1 { 0 } else { r.usize(n) }, m, kind)
                    }
                }
                c.adversary = Some(a);
                SetupTest::Tamper
            }
        };
        SetupCase { c, test }
    }
    fn run(&self, s: &SetupCase, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        let c = &s.c;
        let pn = c.proto.name();
        match &s.test {
            SetupTest::Consistent => {
                let o = go(c, mode, Opts { log, ..Default::default() });
                absorb(&mut out, &o);
                check_honest(c, &o, &mut out);
                out.count("probe.consistent");
                out.nontrivial = out.violation.is_none();
            }
            SetupTest::Withhold { from, to } => {
                let (q, p) = (*from as usize, *to as usize);
                let o = go(c, mode, Opts { log, hold: Some((q, p)), record_sent: true, ..Default::default() });
                absorb(&mut out, &o);
                check_honest(c, &o, &mut out);
                let h = o.hub.borrow();
                if let Some(n) = h.sent_at_release {
                    let (before, after) = h.sent[p][q].split_at(n[p][q]);
                    out.count("probe.withheld");
                    if after.is_empty() {
                        out.fail(Violation::new("revealed-early", format!("{pn}:setup:nothing-left"), format!("party {p} had sent everything of its setup to party {q} ({} messages, {} bytes) while the commitment of {q} was withheld", before.len(), before.iter().map(|m| m.len()).sum::<usize>())));
                    }
                    let mut seen = std::collections::HashSet::new();
                    for m in before {
                        m.windows(16).for_each(|w| {
                            seen.insert(w.to_vec());
                        });
                    }
                    for m in after {
                        if let Some(i) = m.windows(16).position(|w| seen.contains(w)) {
                            out.fail(Violation::new("revealed-early", format!("{pn}:setup:window"), format!("party {p}: bytes {i}.. of a {}-byte setup message to party {q} had been sent before {q}'s commitment arrived", m.len())));
                        }
                    }
                    out.nontrivial = out.violation.is_none() && !before.is_empty();
                }
            }
            SetupTest::Tamper => {
                let a = c.adversary.as_ref().unwrap();
                let q = a.party as usize;
                let honest: Vec<usize> = (0..3).filter(|x| *x != q).collect();
                let o = go(c, mode, Opts { log, close_on_quiescence: Some(q), ..Default::default() });
                absorb(&mut out, &o);
                check_faulty(c, &o, &honest, &mut out);
                let p = a.tampers.first().map(|t| (q + t.peer as usize) % 3).unwrap_or(q);
                let changed = o.deviated(q);
                if changed && p != q {
                    let l = &o.logs[p];
                    // the malicious ABY3 verifies inside its operations and openings
                    let passed = l.outs.iter().find(|(_, x)| c.proto != Proto::MalAby3 || *x != Out::Verified);
                    if let Some((k, x)) = passed {
                        out.fail(Violation::new("accepted", format!("{pn}:setup:accepted"), format!("party {p} accepted a changed setup message of party {q}: operation {k} gave {}", brief(&format!("{x:?}")))));
                    }
                    if matches!(l.end, Some(Ok(()))) {
                        out.fail(Violation::new("accepted", format!("{pn}:setup:accepted"), format!("party {p} finished normally although a setup message of party {q} was changed")));
                    }
                    if let Some(Err((k, e))) = &l.end {
                        out.count(&format!("error_at.{}.{}", kind_name(c, *k), e.split('(').next().unwrap_or("")));
                    }
                }
                out.nontrivial = out.violation.is_none() && changed;
            }
        }
        out
    }
    fn shrink(&self, s: &SetupCase) -> Vec<SetupCase> {
        match s.test {
            SetupTest::Withhold { .. } => vec![],
            _ => shrink_case(&s.c).into_iter().map(|c| SetupCase { c, test: s.test.clone() }).collect(),
        }
    }
}
// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PairCase {
    pub a: Case,
    pub b: Case,
}
pub struct C13;

/// The same public parameters, other secrets.
pub fn other_secrets(r: &mut Rng64, p: &Prog, w: u32) -> Prog {
    let mut q = p.clone();
    let mode = r.below(4);
    let val = |r: &mut Rng64| match mode {
        0 => 0,
        1 => trunc(u64::MAX, w),
        _ => gen_value(r, w),
    };
    for op in q.ops.iter_mut() {
        match op {
            Op::Share { v } | Op::Input { v, .. } => *v = val(r),
            Op::ShareMany { seed, .. } => *seed = r.next(),
            Op::Query(q) => {
                q.salt = r.next();
                for e in q.db.iter_mut() {
                    let t = threshold(e.ones as usize) as u32;
                    e.dist = match r.below(6) {
                        0 => 0,
                        1 => t,
                        2 => t.saturating_sub(1),
                        3 => e.ones,
                        _ => r.below(e.ones as u64 + 1) as u32,
                    }
                    .min(e.ones);
                }
            }
            _ => {}
        }
    }
    q
}
impl Property for C13 {
    type Case = PairCase;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> String {
        "case = protocol x ring x program or membership query, run twice with the same public parameters but other secret inputs (random, all zero, all ones; for queries other codes and distances so that the answer often differs), other dealer randomness, entropy, network delays and schedule; the sequences of message lengths on each of the six links must be equal. Non-trivial: both runs completed correctly and exchanged messages".into()
    }
    fn real(&self) -> Vec<String> {
        real_l1()
    }
    fn stubbed(&self) -> Vec<String> {
        stub_l1()
    }
    fn assumptions(&self) -> Vec<String> {
        assume_l1()
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (60_000, 45.0)
        } else {
            (2_000_000, 760.0)
        }
    }
    fn gen(&self, _i: usize, r: &mut Rng64, _tier: Tier) -> PairCase {
        let proto = pick_proto(r);
        let a = small_case(r, proto, 6);
        let mut b = a.clone();
        b.prog = other_secrets(r, &a.prog, a.ring.bits());
        b.deal_seed = r.next();
        b.entropy = r.next();
        b.net = NetCfg::gen(r);
        PairCase { a, b }
    }
    fn run(&self, c: &PairCase, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        let o = go(&c.a, mode, Opts { log, ..Default::default() });
        absorb(&mut out, &o);
        check_honest(&c.a, &o, &mut out);
        let choices = out.choices.clone();
        let o2 = go(&c.b, &Mode::Random { seed: mix(&[c.b.entropy, 5]), policy: exec::Policy::Uniform }, Opts { log, ..Default::default() });
        absorb(&mut out, &o2);
        out.choices = choices;
        check_honest(&c.b, &o2, &mut out);
        let pn = c.a.proto.name();
        let (h, h2) = (o.hub.borrow(), o2.hub.borrow());
        if out.violation.is_none() {
            for i in 0..3 {
                for j in 0..3 {
                    // SWIFT3's proofs leave out zero leading coefficients of uniformly random polynomials
                    let w = (c.a.ring.bits() / 8) as usize;
                    let same = |a: &usize, b: &usize| a == b || (c.a.proto == Proto::Swift3 && *a > 300 && *b > 300 && a.abs_diff(*b) % w == 0 && a.abs_diff(*b) <= 6 * w);
                    let k = h.lens[i][j].iter().zip(&h2.lens[i][j]).take_while(|(a, b)| same(a, b)).count();
                    if h.lens[i][j].len() != h2.lens[i][j].len() || k < h.lens[i][j].len() {
                        out.fail(Violation::new("traffic", format!("{pn}:traffic"), format!("link {i}->{j}: message {k} is {:?} bytes long with one set of secrets and {:?} with another ({} and {} messages)", h.lens[i][j].get(k), h2.lens[i][j].get(k), h.lens[i][j].len(), h2.lens[i][j].len())));
                    }
                }
            }
        }
        if o.logs[0].outs != o2.logs[0].outs {
            out.count("probe.results_differ");
        }
        out.nontrivial = out.violation.is_none() && h.msgs > 6;
        out
    }
    fn shrink(&self, c: &PairCase) -> Vec<PairCase> {
        // drop the same operations on both sides
        let mut v = vec![];
        let n = c.a.prog.ops.len();
        let mut block = n / 2;
        while block >= 1 {
            let mut i = 0;
            while i < n {
                let mut x = c.clone();
                let e = (i + block).min(n);
                x.a.prog.ops.drain(i..e);
                x.b.prog.ops.drain(i..e);
                if !x.a.prog.ops.is_empty() {
                    v.push(x);
                }
                i += block;
            }
            block /= 2;
        }
        let mut x = c.clone();
        x.a.net = NetCfg::calm();
        x.b.net = NetCfg::calm();
        v.push(x);
        v
    }
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DealCase {
    pub proto: Proto,
    pub ring: Ring,
    pub vals: Vec<u64>,
    pub deal_seed: u64,
    pub entropy: u64,
    pub net: NetCfg,
    /// how many sessions use the shares; the first may be cut short
    pub sessions: u32,
    pub crash: Option<(u8, u32)>,
    /// distribution test: this party, the other value for each
    pub party: u8,
    pub other: Vec<u64>,
    pub stat: bool,
}
pub struct C21;

const C21_K: usize = 256;

fn words(enc: &[Vec<u8>], w: usize) -> Vec<u128> {
    let mut v = vec![];
    for e in enc {
        for c in e.chunks_exact(w) {
            let mut x = [0u8; 16];
            x[..w].copy_from_slice(c);
            v.push(u128::from_le_bytes(x));
        }
    }
    v
}

fn deal_stats<S: Session>(c: &DealCase, vals: &[u64], salt: u64) -> (Vec<u32>, usize) {
    let mut counts: Vec<u32> = vec![];
    let mut rng = Rng64::new(mix(&[c.deal_seed, salt]));
    let key = Rng64::new(c.deal_seed).next();
    let mut sz = 0;
    for _ in 0..C21_K {
        let enc: Vec<Vec<u8>> = vals.iter().map(|v| S::encode(&S::share(trunc(*v, S::W), key, &mut rng)[c.party as usize])).collect();
        // the parts of a share are ring elements of equal size
        let parts = match S::PROTO {
            Proto::Aby3 | Proto::MalAby3 => 2,
            Proto::SpdzWise => 4,
            Proto::Swift3 => 3,
        };
        let w = (enc[0].len() / parts).clamp(1, 16);
        sz = w;
        let x = words(&enc, w);
        let mask = if w == 16 { u128::MAX } else { (1u128 << (8 * w)) - 1 };
        let mut bits: Vec<u128> = x.clone();
        for i in 0..x.len() {
            for j in 0..i {
                bits.push(x[i].wrapping_sub(x[j]) & mask);
                bits.push(x[i].wrapping_add(x[j]) & mask);
                bits.push(x[i] ^ x[j]);
            }
        }
        counts.resize(bits.len() * w * 8, 0);
        for (i, b) in bits.iter().enumerate() {
            for k in 0..w * 8 {
                counts[i * w * 8 + k] += ((b >> k) & 1) as u32;
            }
        }
    }
    (counts, sz)
}

fn run_deal<S: Session>(c: &DealCase, mode: &Mode, log: bool, out: &mut RunOut) {
    // dealt once
    let mut rng = Rng64::new(mix(&[c.deal_seed, 0xDEA1]));
    let key = rng.next();
    let key_shares = S::key_shares(key, &mut rng);
    let stored: Vec<Vec<Vec<u8>>> = {
        let per: Vec<Vec<S::A>> = c.vals.iter().map(|v| S::share(trunc(*v, S::W), key, &mut rng)).collect();
        (0..3).map(|p| per.iter().map(|s| S::encode(&s[p])).collect()).collect()
    };
    let stored_key: Option<Vec<Vec<u8>>> = key_shares.map(|k| k.iter().map(|s| S::encode(s)).collect());
    let w = S::W;
    let n = c.vals.len();
    for sess in 0..c.sessions {
        let faults = match c.crash {
            Some((p, at)) if sess == 0 && c.sessions > 1 => vec![Fault::Crash { party: p, at, lose: false }],
            _ => vec![],
        };
        // reload: open all, and use them (a product and a comparison)
        let ops = vec![Op::ShareMany { n: n as u32, seed: 0 }, Op::OpenMany(Sel { start: 0, stride: 1, len: n as u32 }), Op::Mul(0, n as u32 - 1), Op::Open(n as u32)];
        let case = Case {
            proto: c.proto,
            ring: c.ring,
            prog: Prog { key: KeyMode::Dealer, ops, guard_opens: true, final_verify: false },
            net: c.net.clone(),
            deal_seed: c.deal_seed,
            entropy: mix(&[c.entropy, sess as u64]),
            triples: 1,
            adversary: None,
            faults: faults.clone(),
        };
        let deals: Vec<Deal<S::A>> = (0..3)
            .map(|p| Deal { key: stored_key.as_ref().map(|k| S::decode(&k[p])), shares: vec![stored[p].iter().map(|d| S::decode(d)).collect()], queries: vec![] })
            .collect();
        for p in 0..3 {
            for (d, raw) in deals[p].shares[0].iter().zip(&stored[p]) {
                if &S::encode(d) != raw {
                    out.fail(Violation::new("stored-share", format!("{}:stored", c.proto.name()), format!("a share of party {p} encodes differently after it was reloaded")));
                }
            }
        }
        let m = if sess == 0 { mode.clone() } else { Mode::Random { seed: mix(&[c.entropy, sess as u64, 9]), policy: exec::Policy::Uniform } };
        let (choices, lg) = (out.choices.clone(), out.log.clone());
        let o = run_with_deals::<S>(&case, deals, &m, Opts { log, ..Default::default() });
        absorb(out, &o);
        if sess > 0 {
            out.choices = choices;
            if log {
                let l = std::mem::replace(&mut out.log, lg);
                out.log.push("---- next session ----".into());
                out.log.extend(l);
            }
        }
        let t = |v: u64| trunc(v, w);
        let expect = [(1usize, Out::Vals(c.vals.iter().map(|v| t(*v)).collect())), (3, Out::Vals(vec![t(c.vals[0].wrapping_mul(c.vals[n - 1]))]))];
        let crashed = o.report.counters.contains_key("fault.crash");
        for p in 0..3 {
            let l = &o.logs[p];
            for (i, (k, v)) in l.outs.iter().enumerate() {
                if expect.get(i).map(|e| e.0 == *k && e.1 == *v) != Some(true) {
                    out.fail(Violation::new("wrong-output", format!("{}:dealt", c.proto.name()), format!("session {sess}: party {p} opened {} for dealt values {:?}", brief(&format!("{v:?}")), c.vals)));
                }
            }
            if !crashed && (!matches!(l.end, Some(Ok(()))) || l.outs.len() != 2) {
                out.fail(Violation::new("honest-error", format!("{}:dealt-error", c.proto.name()), format!("session {sess}: party {p} ended {:?} with {} outputs", l.end, l.outs.len())));
            }
        }
        if crashed {
            out.count("probe.first_session_cut_short");
        }
    }
    if c.stat {
        let (a, sz) = deal_stats::<S>(c, &c.vals, 1);
        let (b, _) = deal_stats::<S>(c, &c.other, 2);
        out.count("probe.distribution_tests");
        *out.counters.entry("probe.bits_compared".into()).or_insert(0) += a.len() as u64;
        for (i, (x, y)) in a.iter().zip(&b).enumerate() {
            if x.abs_diff(*y) > 110 {
                out.fail(Violation::new("share-leaks", format!("{}:share-leaks", c.proto.name()), format!("party {}: bit {} of the combination {} of its shares' {}-byte parts is set in {x} of {C21_K} dealings of {:?} and in {y} of {C21_K} of {:?}", c.party, i % (sz * 8), i / (sz * 8), sz, c.vals, c.other)));
                break;
            }
        }
    }
}

impl Property for C21 {
    type Case = DealCase;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> String {
        format!("case = protocol x ring x 1..5 values dealt once, serialised, and reloaded in 1..3 sessions with fresh entropy (the first one may be cut short by a crash), opened and multiplied there; in a third of the cases, for one party and two value vectors, {C21_K} dealings each: for every part of its shares and every sum, difference and exclusive-or of two parts, also of different shares, the frequency of every bit must not differ by more than 110 (9.7 sigma). Non-trivial: at least one session opened all values")
    }
    fn real(&self) -> Vec<String> {
        real_l1()
    }
    fn stubbed(&self) -> Vec<String> {
        stub_l1()
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = assume_l1();
        v.push("the dealer's random numbers are good; the distribution test sees biases of single bits of linear combinations of two parts".into());
        v
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (60_000, 40.0)
        } else {
            (2_000_000, 600.0)
        }
    }
    fn gen(&self, _i: usize, r: &mut Rng64, _tier: Tier) -> DealCase {
        let proto = *r.pick(&Proto::ALL);
        let ring = *r.pick(rings(proto));
        let n = 1 + r.usize(5);
        let stat = r.chance(1, 3);
        let n = if stat { n.min(3) } else { n };
        let vals: Vec<u64> = (0..n).map(|_| gen_value(r, ring.bits())).collect();
        let other = (0..n).map(|_| gen_value(r, ring.bits())).collect();
        DealCase { proto, ring, vals, deal_seed: r.next(), entropy: r.next(), net: NetCfg::gen(r), sessions: 1 + r.below(3) as u32, crash: if r.chance(1, 2) { Some((r.below(3) as u8, r.below(25) as u32)) } else { None }, party: r.below(3) as u8, other, stat }
    }
    fn run(&self, c: &DealCase, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        dispatch!(c.proto, c.ring, S => run_deal::<S>(c, mode, log, &mut out));
        out.nontrivial = out.violation.is_none();
        out
    }
    fn shrink(&self, c: &DealCase) -> Vec<DealCase> {
        let mut v = vec![];
        if c.stat {
            v.push(DealCase { stat: false, ..c.clone() });
        }
        if c.sessions > 1 {
            v.push(DealCase { sessions: 1, ..c.clone() });
            v.push(DealCase { crash: None, ..c.clone() });
        }
        if c.vals.len() > 1 {
            for i in 0..c.vals.len() {
                let mut x = c.clone();
                x.vals.remove(i);
                x.other.remove(i);
                v.push(x);
            }
        }
        v.push(DealCase { net: NetCfg::calm(), ..c.clone() });
        v
    }
}
