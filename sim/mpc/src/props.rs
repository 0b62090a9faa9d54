//! C01..C11: generators and verdicts.
use crate::case::*;
use crate::dispatch;
use crate::prog::*;
use crate::session::{rings, Proto, Ring};
use crate::simnet::{Fault, Kind, NetCfg, Tamper};
use simcore::exec::{self, Mode, Policy};
use simcore::rng::{mix, Rng64};
use simcore::runner::{Property, RunOut, Tier, Violation};

pub fn go(c: &Case, mode: &Mode, o: Opts) -> Outcome {
    dispatch!(c.proto, c.ring, S => run_session::<S>(c, mode, o))
}

pub fn real_l1() -> Vec<String> {
    vec![
        "iris-mpc: protocol implementations (all four), IrisProtocol, share types, commitment, dzkp, prelude API: real code compiled from /repo's working tree".into(),
        "rand_chacha, sha2, bincode, tokio-free async code: real".into(),
    ]
}
pub fn stub_l1() -> Vec<String> {
    vec![
        "NetworkTrait implementation: simulated reliable FIFO links with scheduled delays, faults and an optional adversary (the real transport is exercised by C14..C20)".into(),
        "operating-system entropy and clocks: per-party deterministic streams / virtual time".into(),
        "async runtime: deterministic single-thread executor".into(),
    ]
}
pub fn assume_l1() -> Vec<String> {
    vec![
        "seeded sampling, not enumeration: a clean batch is evidence, not proof".into(),
        "links are reliable FIFO unless a fault says otherwise (what the real transport provides, checked by C14..C19)".into(),
        "SHA-512 and ChaCha12 are not broken by the generated adversaries".into(),
    ]
}

pub use crate::prog::{gen_query, gen_triples};

pub fn nontrivial_prog(p: &Prog) -> bool {
    p.ops.iter().any(|o| matches!(o, Op::Mul(..) | Op::Dot(..) | Op::DotMany(..) | Op::Msb(..) | Op::MsbMany(..) | Op::Input { .. } | Op::Query(_)))
        && p.ops.iter().any(|o| matches!(o, Op::Open(..) | Op::OpenMany(..) | Op::OpenBit(..) | Op::OpenBitMany(..) | Op::Query(_)))
}

// ---------------------------------------------------------------- C01

pub struct C01;
impl C01 {
    pub fn pick_proto(r: &mut Rng64) -> Proto {
        match r.below(16) {
            0..=6 => Proto::Aby3,
            7..=9 => Proto::MalAby3,
            10..=13 => Proto::SpdzWise,
            _ => Proto::Swift3,
        }
    }
}
impl Property for C01 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> String {
        "case = protocol x ring (16/32 bit) x 1..3 membership queries on one session (database 1..40, rarely up to 300, chunk 1..1024; entries exactly at threshold-1, threshold, and mask weights from the 8960 minimum up), network delays, stalls, scheduling policy from the seed. Non-trivial: the run completed with every query answered and at least one entry within one bit of the threshold".into()
    }
    fn real(&self) -> Vec<String> {
        real_l1()
    }
    fn stubbed(&self) -> Vec<String> {
        stub_l1()
    }
    fn assumptions(&self) -> Vec<String> {
        assume_l1()
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (6000, 45.0)
        } else {
            (400_000, 760.0)
        }
    }
    fn gen(&self, i: usize, r: &mut Rng64, tier: Tier) -> Case {
        let proto = C01::pick_proto(r);
        let ring = match proto {
            Proto::Aby3 => *r.pick(&[Ring::U16, Ring::U16, Ring::U32]),
            Proto::SpdzWise if r.chance(1, 4) => Ring::U32,
            Proto::Swift3 if r.chance(1, 4) => Ring::U32,
            _ => Ring::U16,
        };
        let nq = 1 + (r.below(4) / 2) as usize;
        let mut ops = vec![];
        for _ in 0..nq {
            let n = match proto {
                Proto::Swift3 => 1 + r.usize(3),
                Proto::MalAby3 => 1 + r.usize(6),
                _ => match r.below(20) {
                    0 => 1,
                    1 => 128 + r.usize(5),
                    2..=9 => 1 + r.usize(6),
                    _ => 1 + r.usize(24),
                },
            };
            ops.push(Op::Query(gen_query(r, n, false)));
        }
        // rarely: large databases with tiny chunks
        if i % 250 == 77 || (tier == Tier::Thorough && i % 60 == 7) {
            let n = 260 + r.usize(60);
            let mut q = gen_query(r, n, true);
            q.chunk = 1 + r.below(2) as u32;
            let proto = if r.chance(1, 3) { Proto::Aby3 } else { Proto::SpdzWise };
            return Case { proto, ring: Ring::U16, prog: Prog { key: KeyMode::Dealer, ops: vec![Op::Query(q)], guard_opens: false, final_verify: false }, net: NetCfg::gen(r), deal_seed: r.next(), entropy: r.next(), triples: gen_triples(r), adversary: None, faults: vec![] };
        }
        Case { proto, ring, prog: Prog { key: KeyMode::Dealer, ops, guard_opens: false, final_verify: false }, net: NetCfg::gen(r), deal_seed: r.next(), entropy: r.next(), triples: gen_triples(r), adversary: None, faults: vec![] }
    }
    fn run(&self, c: &Case, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        let o = go(c, mode, Opts { log, ..Default::default() });
        absorb(&mut out, &o);
        out.count(&format!("cases.{}", c.proto.name()));
        check_honest(c, &o, &mut out);
        // cross-check of the plaintext answer with the plaintext reference implementation
        for op in &c.prog.ops {
            if let Op::Query(q) = op {
                let b = build(q);
                let p = plain_reference::IrisCode { code: to_array(&b.probe), mask: to_array(&b.probe_mask) };
                let any = b.codes.iter().zip(&b.masks).any(|(c, m)| p.is_close(&plain_reference::IrisCode { code: to_array(c), mask: to_array(m) }));
                if any != q.answer() {
                    out.fail(Violation::new("reference", "plain-reference:answer", format!("plaintext reference answers {any}, the definition says {}", q.answer())));
                }
                out.count(if q.answer() { "probe.answer_true" } else { "probe.answer_false" });
                if q.db.len() > q.chunk as usize {
                    out.count("probe.several_chunks");
                }
            }
        }
        out.nontrivial = out.violation.is_none();
        out
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        shrink_case(c)
    }
}

// ---------------------------------------------------------------- C03..C06

pub struct Honest {
    pub id: &'static str,
    pub proto: Proto,
}
impl Honest {
    /// The sign bits of many values of which at most one is negative, reduced by OR.
    fn sparse_or(&self, r: &mut Rng64, ring: Ring) -> Case {
        let max = match self.proto {
            Proto::MalAby3 => 420,
            Proto::SpdzWise if ring.bits() > 16 => 300,
            _ => 800,
        };
        let n = match r.below(3) {
            0 => 1 + r.below(130) as u32,
            1 => max - r.below(130) as u32,
            _ => 1 + r.below(max as u64) as u32,
        };
        let chunk = *r.pick(&[1u32, 1, 2, 2, 3, 5, 64, 1000]);
        let seed = r.next() & !3 | 4 * (r.below(8) > 0) as u64;
        // a hot value at a register or chunk boundary is as likely as one inside
        let hot = if r.chance(1, 2) { n - 1 - (r.below(140) as u32).min(n - 1) } else { r.below(n as u64) as u32 };
        let seed = seed & 0xff | (hot as u64) << 8;
        let all = Sel { start: 0, stride: 1, len: n };
        let ops = vec![Op::ShareMany { n, seed }, Op::MsbMany(all), Op::ReduceOr(all, chunk), Op::OpenBit(n)];
        let verify = self.proto != Proto::Swift3 && r.chance(1, 3);
        Case {
            proto: self.proto,
            ring,
            prog: Prog { key: KeyMode::Dealer, ops, guard_opens: verify, final_verify: false },
            net: NetCfg::gen(r),
            deal_seed: r.next(),
            entropy: r.next(),
            triples: gen_triples(r),
            adversary: None,
            faults: vec![],
        }
    }
    pub fn gen_case(&self, r: &mut Rng64, tier: Tier, opens: bool) -> Case {
        let ring = *r.pick(rings(self.proto));
        let heavy = match self.proto {
            Proto::Aby3 => r.chance(1, 3),
            Proto::SpdzWise => r.chance(1, 4),
            Proto::MalAby3 => r.chance(1, 6),
            Proto::Swift3 => r.chance(1, 10),
        };
        let cfg = GenCfg {
            proto: self.proto,
            w: ring.bits(),
            max_ops: *r.pick(&[4usize, 8, 14, if tier == Tier::Thorough { 60 } else { 24 }]),
            max_vec: *r.pick(&[4u32, 12, 40, if self.proto == Proto::Aby3 { 400 } else { 150 }]),
            opens,
            inputs_from: vec![0, 1, 2],
            dealer_only: false,
            heavy_bits: heavy,
        };
        let mut cfg = cfg;
        let key = if self.proto == Proto::SpdzWise && r.chance(1, 2) { KeyMode::Joint } else { KeyMode::Dealer };
        if key == KeyMode::Joint {
            cfg.dealer_only = true; // the dealer does not know a jointly drawn key
        }
        let guard_opens = r.chance(1, 3);
        let final_verify = r.chance(2, 3);
        if opens && key == KeyMode::Dealer && r.chance(1, 10) {
            return self.sparse_or(r, ring);
        }
        if opens && key == KeyMode::Dealer && r.chance(1, 30) {
            let most = *r.pick(&[600u32, 5000, 5000, 50_000, 270_000]);
            let ops = gen_long(r, self.proto, ring.bits(), most);
            return Case { proto: self.proto, ring, prog: Prog { key, ops, guard_opens, final_verify }, net: NetCfg::gen(r), deal_seed: r.next(), entropy: r.next(), triples: gen_triples(r), adversary: None, faults: vec![] };
        }
        let limit = *r.pick(&[20.0, 60.0, 60.0, 200.0, 200.0, if tier == Tier::Thorough { 4000.0 } else { 700.0 }]);
        let ops = loop {
            let mut ops = gen_ops(r, &cfg);
            if opens {
                ops.push(Op::OpenMany(Sel { start: 0, stride: 1, len: 1 + r.below(20) as u32 }));
                if r.chance(1, 2) {
                    ops.push(Op::OpenBitMany(Sel { start: 0, stride: 1, len: 1 + r.below(20) as u32 }));
                }
            }
            let p = Prog { key, ops, guard_opens, final_verify };
            if self.proto != Proto::Swift3 || swift3_cost(&p, ring.bits()) <= limit {
                break p.ops;
            }
            cfg.max_vec = (cfg.max_vec * 2 / 3).max(2);
            cfg.max_ops = (cfg.max_ops * 5 / 6).max(3);
        };
        Case {
            proto: self.proto,
            ring,
            prog: Prog { key, ops, guard_opens, final_verify },
            net: NetCfg::gen(r),
            deal_seed: r.next(),
            entropy: r.next(),
            triples: gen_triples(r),
            adversary: None,
            faults: vec![],
        }
    }
}
impl Property for Honest {
    type Case = Case;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        format!("case = random straight-line program ({}; swarm-selected operation mix, 1..60 operations, vectors up to 400, bit batches up to 300, in one of 30 cases openings of up to 270000 and dot products (not SWIFT3) of up to 70000 elements, ring widths {:?}), verifications and openings at random points, or the sign bits of up to 800 values of which at most one is negative reduced by OR in chunks from 1 up; network delays, per-party stalls and scheduling policy from the seed. Non-trivial: the program has an interactive operation and an opening and all its outputs were compared", self.proto.name(), rings(self.proto))
    }
    fn real(&self) -> Vec<String> {
        real_l1()
    }
    fn stubbed(&self) -> Vec<String> {
        stub_l1()
    }
    fn assumptions(&self) -> Vec<String> {
        assume_l1()
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (if self.proto == Proto::Aby3 { 500_000 } else { 40_000 }, 45.0)
        } else {
            (2_000_000, 760.0)
        }
    }
    fn gen(&self, _i: usize, r: &mut Rng64, tier: Tier) -> Case {
        self.gen_case(r, tier, true)
    }
    fn run(&self, c: &Case, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        let o = go(c, mode, Opts { log, ..Default::default() });
        absorb(&mut out, &o);
        check_honest(c, &o, &mut out);
        for op in &c.prog.ops {
            out.count(&format!("op.{}", format!("{op:?}").split(['(', ' ']).next().unwrap_or("")));
            match op {
                Op::OpenMany(s) | Op::OpenBitMany(s) | Op::Dot(s, _) if s.len > 4096 => out.count("probe.vector_over_4096"),
                Op::MsbMany(s) if s.len > 300 => out.count("probe.signs_over_300"),
                _ => {}
            }
        }
        out.nontrivial = out.violation.is_none() && nontrivial_prog(&c.prog);
        out
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        shrink_case(c)
    }
}

#[allow(unused)]
fn unused(_: Policy, _: Fault, _: Kind, _: Tamper) -> u64 {
    mix(&[exec::US])
}
