//! C02: unusable queries.
use crate::case::*;
use crate::prog::*;
use crate::props::*;
use crate::session::{Proto, Ring};
use crate::simnet::NetCfg;
use simcore::exec::Mode;
use simcore::rng::Rng64;
use simcore::runner::{Property, RunOut, Tier};

pub struct C02;

fn spoil(r: &mut Rng64, q: &mut Query) {
    let n = q.db.len();
    let bad_len = |r: &mut Rng64| *r.pick(&[CODE as u32 - 1, CODE as u32 + 1, CODE as u32 - 1, CODE as u32 + 1, CODE as u32 - 8, CODE as u32 + 8, 12000, 13000, 100, 1, 0]);
    let at = |r: &mut Rng64| match r.below(4) {
        0 => 0,
        1 | 2 => n - 1,
        _ => r.usize(n),
    };
    match r.below(10) {
        0 => {
            q.db.clear();
            q.mask_delta = if r.chance(1, 3) { 1 } else { 0 };
        }
        1 => q.mask_delta = -(1 + r.below(n as u64) as i32),
        2 => q.mask_delta = 1 + r.below(3) as i32,
        3 | 4 => {
            let k = at(r);
            q.db[k].len = bad_len(r);
        }
        5 => q.probe_len = bad_len(r),
        6 => {
            // probe and database agree on a wrong length
            let l = bad_len(r);
            q.probe_len = l;
            q.db.iter_mut().for_each(|e| e.len = l);
        }
        _ => {
            let k = at(r);
            let low = |r: &mut Rng64| *r.pick(&[MASK_MIN as u32 - 1, MASK_MIN as u32 - 1, MASK_MIN as u32 - 2, 8000, 100, 1, 0]);
            q.db[k].ones = low(r);
            q.db[k].dist = r.below(q.db[k].ones as u64 + 1) as u32;
            if r.chance(1, 4) {
                // every entry
                for e in q.db.iter_mut() {
                    e.ones = MASK_MIN as u32 - 1;
                    e.dist = e.dist.min(e.ones);
                }
            }
        }
    }
}

impl Property for C02 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> String {
        "case = protocol x ring x history of 1..4 membership queries on one session of which at least one is unusable (empty database, missing or surplus masks, a code vector of the wrong length in the probe, in one entry or in all of them alike, combined mask weight below 8960 in the first, a middle or the last chunk), the last query being valid; network delays, stalls and scheduling policy from the seed. Non-trivial: at least one query was refused by all three parties and the valid one answered".into()
    }
    fn real(&self) -> Vec<String> {
        real_l1()
    }
    fn stubbed(&self) -> Vec<String> {
        stub_l1()
    }
    fn assumptions(&self) -> Vec<String> {
        assume_l1()
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (6000, 45.0)
        } else {
            (400_000, 760.0)
        }
    }
    fn gen(&self, _i: usize, r: &mut Rng64, _tier: Tier) -> Case {
        let proto = C01::pick_proto(r);
        let ring = match proto {
            Proto::Aby3 => *r.pick(&[Ring::U16, Ring::U16, Ring::U32]),
            _ => Ring::U16,
        };
        let mut ops = vec![];
        let n_of = |r: &mut Rng64| match proto {
            Proto::Swift3 => 1 + r.usize(3),
            Proto::MalAby3 => 1 + r.usize(4),
            _ => 1 + r.usize(8),
        };
        if r.chance(1, 3) {
            let n = n_of(r);
            ops.push(Op::Query(gen_query(r, n, false)));
        }
        for _ in 0..1 + r.below(4) / 3 {
            let n = n_of(r);
            let mut q = gen_query(r, n, false);
            if r.chance(1, 2) {
                q.chunk = 1 + r.below(2) as u32;
            }
            spoil(r, &mut q);
            ops.push(Op::Query(q));
        }
        let n = n_of(r);
        ops.push(Op::Query(gen_query(r, n, false)));
        Case { proto, ring, prog: Prog { key: KeyMode::Dealer, ops, guard_opens: false, final_verify: false }, net: NetCfg::gen(r), deal_seed: r.next(), entropy: r.next(), triples: gen_triples(r), adversary: None, faults: vec![] }
    }
    fn run(&self, c: &Case, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        let o = go(c, mode, Opts { log, ..Default::default() });
        absorb(&mut out, &o);
        out.count(&format!("cases.{}", c.proto.name()));
        check_honest(c, &o, &mut out);
        let mut refused = 0;
        for op in &c.prog.ops {
            if let Op::Query(q) = op {
                if !q.usable() {
                    refused += 1;
                    let k = if q.db.is_empty() {
                        "probe.empty_db"
                    } else if q.mask_delta < 0 {
                        "probe.missing_masks"
                    } else if q.mask_delta > 0 {
                        "probe.extra_masks"
                    } else if q.probe_len as usize != CODE && q.db.iter().all(|e| e.len == q.probe_len) {
                        "probe.equal_wrong_lengths"
                    } else if q.probe_len as usize != CODE {
                        "probe.wrong_probe_length"
                    } else if q.db.iter().any(|e| e.len as usize != CODE) {
                        "probe.wrong_entry_length"
                    } else {
                        "probe.low_mask_weight"
                    };
                    out.count(k);
                }
            }
        }
        out.nontrivial = out.violation.is_none() && refused > 0;
        out
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        shrink_case(c)
    }
}
