//! C12: what a party receives before an opening does not depend on the others' secrets.
use crate::case::*;
use crate::dispatch;
use crate::prog::*;
use crate::props::*;
use crate::props_more::{other_secrets, pick_proto};
use crate::session::{rings, trunc, Proto, Ring, Session};
use crate::simnet::NetCfg;
use serde::{Deserialize, Serialize};
use simcore::exec::Mode;
use simcore::interpose::FROM;
use simcore::rng::{mix, Rng64};
use simcore::runner::{Property, RunOut, Tier, Violation};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SecCase {
    pub a: Case,
    /// same public parameters, other secrets at the parties other than `v`
    pub b: Prog,
    /// the observing party
    pub v: u8,
    /// sessions per side
    pub k: u32,
    /// 0: distributions; 1: two sessions share no randomness
    pub fresh: bool,
    /// also check the shifted shares against the plaintext meaning
    pub sanity: bool,
}
pub struct C12;

/// dealt values in the order in which they are dealt
fn dealt(p: &Prog, w: u32) -> Vec<Vec<u64>> {
    let mut v = vec![];
    for op in &p.ops {
        match op {
            Op::Share { v: x } => v.push(vec![trunc(*x, w)]),
            Op::Query(q) => {
                let b = build(q);
                let mut x: Vec<u64> = b.probe.iter().map(|b| *b as u64).collect();
                for c in &b.codes {
                    x.extend(c.iter().map(|b| *b as u64));
                }
                v.push(x);
            }
            _ => {}
        }
    }
    v
}
/// shift a share by d without touching what party v holds
fn shift<S: Session>(s: &mut [&mut S::A; 3], v: usize, d: u64, key: u64) {
    let (p, q) = ((v + 1) % 3, (v + 2) % 3);
    let d = if S::PROTO == Proto::Swift3 { d.wrapping_neg() } else { d };
    *s[p] = S::tweak(s[p], 0, d);
    *s[q] = S::tweak(s[q], 1, d);
    if S::PROTO == Proto::SpdzWise {
        *s[p] = S::tweak(s[p], 3, d.wrapping_mul(key));
        *s[q] = S::tweak(s[q], 4, d.wrapping_mul(key));
    }
}
/// the shares of the other secrets: every component party v holds is the same
fn deal_other<S: Session>(a: &Case, b: &Prog, v: usize) -> Vec<Deal<S::A>> {
    let mut d = deal::<S>(&a.prog, a.deal_seed);
    let key = Rng64::new(mix(&[a.deal_seed, 0xDEA1])).next();
    let (x, y) = (dealt(&a.prog, S::W), dealt(b, S::W));
    let [d0, d1, d2] = &mut d[..] else { unreachable!() };
    let (mut si, mut qi, mut k) = (0, 0, 0);
    for op in &a.prog.ops {
        match op {
            Op::Share { .. } => {
                let delta = y[k][0].wrapping_sub(x[k][0]);
                shift::<S>(&mut [&mut d0.shares[si][0], &mut d1.shares[si][0], &mut d2.shares[si][0]], v, delta, key);
                si += 1;
                k += 1;
            }
            Op::Query(_) => {
                let [q0, q1, q2] = [&mut *d0, &mut *d1, &mut *d2].map(|d| d.queries[qi].as_mut().unwrap());
                let n = q0.probe.len();
                for i in 0..x[k].len() {
                    let delta = y[k][i].wrapping_sub(x[k][i]);
                    if delta == 0 {
                        continue;
                    }
                    if i < n {
                        shift::<S>(&mut [&mut q0.probe[i], &mut q1.probe[i], &mut q2.probe[i]], v, delta, key);
                    } else {
                        let (j, m) = ((i - n) / CODE, (i - n) % CODE);
                        shift::<S>(&mut [&mut q0.db[j][m], &mut q1.db[j][m], &mut q2.db[j][m]], v, delta, key);
                    }
                }
                qi += 1;
                k += 1;
            }
            _ => {}
        }
    }
    d
}

/// per sender: the messages
type View = [Vec<Vec<u8>>; 3];

fn view_of(o: &Outcome) -> View {
    let mut v: View = Default::default();
    for (f, m) in &o.hub.borrow().view {
        v[*f].push(m.clone());
    }
    v
}

fn one<S: Session>(c: &Case, deals: Vec<Deal<S::A>>, v: usize, overrides: Vec<(usize, u32, u64)>, mode: &Mode, log: bool, out: &mut RunOut) -> Outcome {
    let first = out.choices.is_empty() && out.counters.is_empty();
    let (choices, l) = (out.choices.clone(), out.log.clone());
    let o = run_with_deals::<S>(c, deals, mode, Opts { observe: Some(v), overrides, log, ..Default::default() });
    absorb(out, &o);
    if !first {
        out.choices = choices;
        out.log = l;
    }
    o
}

/// columns of bits over the sessions
fn columns(vals: &[u64], bits: u32) -> Vec<u64> {
    (0..bits).map(|b| vals.iter().enumerate().fold(0u64, |c, (i, x)| c | ((x >> b) & 1) << i)).collect()
}
fn word(m: &[u8], off: usize, w: usize) -> u64 {
    let mut x = [0u8; 8];
    x[..w].copy_from_slice(&m[off..off + w]);
    u64::from_le_bytes(x)
}

fn differ(a: u64, b: u64, k: u32) -> Option<(u32, u32)> {
    let (x, y) = (a.count_ones(), b.count_ones());
    // 9 standard deviations of the difference of two fair counts (8.05 for the small sample)
    let t = if k >= 64 { 51 } else { 36 };
    if x.abs_diff(y) >= t {
        Some((x, y))
    } else {
        None
    }
}

fn run_secrecy<S: Session>(s: &SecCase, mode: &Mode, log: bool, out: &mut RunOut) {
    let v = s.v as usize;
    let pn = s.a.proto.name();
    let calm = Mode::Replay(vec![]);
    // warm-up, and the honest oracle on this program
    let o = one::<S>(&s.a, deal::<S>(&s.a.prog, s.a.deal_seed), v, vec![], mode, log, out);
    check_honest(&s.a, &o, out);
    if out.violation.is_some() {
        return;
    }
    let cb = Case { prog: s.b.clone(), ..s.a.clone() };
    if s.sanity {
        let mut c = cb.clone();
        if !c.prog.ops.iter().any(|o| matches!(o, Op::Query(_))) {
            c.prog.ops.push(Op::OpenMany(Sel { start: 0, stride: 1, len: 60 }));
        }
        let o = one::<S>(&c, deal_other::<S>(&s.a, &s.b, v), v, vec![], &calm, false, out);
        check_honest(&c, &o, out);
        if out.violation.is_some() {
            return;
        }
        out.count("probe.shifted_shares_checked");
    }
    // the setup on its own: its length and its entropy draws
    let mut setup = s.a.clone();
    setup.prog.ops = vec![];
    setup.prog.final_verify = false;
    let base = one::<S>(&setup, deal::<S>(&setup.prog, s.a.deal_seed), v, vec![], &calm, false, out);
    let draws = base.report.draws;
    let base_view = view_of(&base);
    let marks: Vec<usize> = base_view.iter().map(|m| m.len()).collect();

    if s.fresh {
        let run = |entropy: u64, out: &mut RunOut| {
            let c = Case { entropy, ..s.a.clone() };
            let (choices, l) = (out.choices.clone(), out.log.clone());
            let o = run_with_deals::<S>(&c, deal::<S>(&c.prog, c.deal_seed), &calm, Opts { record_sent: true, ..Default::default() });
            absorb(out, &o);
            (out.choices, out.log) = (choices, l);
            let h = o.hub.borrow();
            h.sent.clone()
        };
        let (x, y) = (run(s.a.entropy, out), run(mix(&[s.a.entropy, 99]), out));
        let ml = |i: usize, j: usize| base.hub.borrow().lens[i][j].len();
        for i in 0..3 {
            for j in 0..3 {
                for (n, (p, q)) in x[i][j].iter().zip(&y[i][j]).enumerate() {
                    let same = if n < ml(i, j) {
                        p.chunks_exact(16).zip(q.chunks_exact(16)).any(|(a, b)| a == b)
                    } else {
                        p.len() >= 16 && p.len() != 64 && p == q
                    };
                    if same {
                        out.fail(Violation::new("reused", format!("{pn}:reused"), format!("message {n} of link {i}->{j} ({} bytes{}) carries the same bytes in two independent sessions", p.len(), if n < ml(i, j) { ", setup" } else { "" })));
                    }
                    out.count("probe.messages_compared_across_sessions");
                }
            }
        }
        out.nontrivial = out.violation.is_none();
        return;
    }

    // which entropy of the others is invisible to v in the setup?
    let mut free: Vec<(usize, u32)> = vec![];
    for p in 0..3 {
        if p == v {
            continue;
        }
        for d in 0..draws[p] {
            let o = one::<S>(&setup, deal::<S>(&setup.prog, s.a.deal_seed), v, vec![(p, d, 1)], &calm, false, out);
            if view_of(&o) == base_view {
                free.push((p, d));
            }
        }
    }
    let known_fixed = !free.is_empty();
    if !known_fixed {
        out.count("probe.no_free_setup_entropy");
        free = (0..3).filter(|p| *p != v).flat_map(|p| (0..draws[p]).map(move |d| (p, d))).collect();
    }
    out.count("probe.setup_draws_varied");
    let k = s.k.min(64);
    let mut views: [Vec<View>; 2] = Default::default();
    for side in 0..2 {
        for i in 0..k {
            let var = mix(&[s.a.entropy, side, i as u64]) | 1;
            let mut ov: Vec<(usize, u32, u64)> = free.iter().map(|(p, d)| (*p, *d, var)).collect();
            for p in 0..3 {
                if p != v {
                    ov.push((p, draws[p] | FROM, var));
                }
            }
            let (c, d) = if side == 0 { (&s.a, deal::<S>(&s.a.prog, s.a.deal_seed)) } else { (&cb, deal_other::<S>(&s.a, &s.b, v)) };
            let o = one::<S>(c, d, v, ov, &calm, false, out);
            if i == 0 {
                check_honest(c, &o, out);
            }
            let w = view_of(&o);
            if known_fixed && (0..3).any(|f| w[f][..marks[f].min(w[f].len())] != base_view[f][..]) {
                // the setup view moved although no single draw moved it: nothing is concluded
                out.count("probe.setup_view_moved");
                return;
            }
            views[side as usize].push(w);
        }
    }
    if out.violation.is_some() {
        return;
    }
    // shapes
    let shape = |w: &View| -> Vec<usize> { w.iter().map(|m| m.len()).collect() };
    let sh = shape(&views[0][0]);
    if views.iter().flatten().any(|w| shape(w) != sh) {
        out.fail(Violation::new("depends", format!("{pn}:depends:count"), "the number of messages depends on the secrets"));
        return;
    }
    let mut rng = Rng64::new(mix(&[s.a.entropy, 0xD1FF]));
    let w = (S::W / 8).max(1) as usize;
    let widths: Vec<usize> = if S::PROTO == Proto::SpdzWise { vec![8] } else { vec![w] };
    let mut tests = 0u64;
    // elements as columns
    struct El {
        from: usize,
        msg: usize,
        off: usize,
        w: usize,
        vals: [Vec<u64>; 2],
        cols: [Vec<u64>; 2],
    }
    let mut els: Vec<El> = vec![];
    for f in 0..3 {
        for m in marks[f]..sh[f] {
            let len = views[0][0][f][m].len();
            if views.iter().flatten().any(|x| x[f][m].len() != len) {
                out.count("probe.message_of_varying_length_skipped");
                continue;
            }
            for ew in &widths {
                let mut off = 0;
                while off < len {
                    let e = (*ew).min(len - off);
                    let vals: [Vec<u64>; 2] = [0, 1].map(|sd: usize| views[sd].iter().map(|x| word(&x[f][m], off, e)).collect());
                    let cols = [0, 1].map(|sd: usize| columns(&vals[sd], e as u32 * 8));
                    for b in 0..e * 8 {
                        tests += 1;
                        if let Some((x, y)) = differ(cols[0][b], cols[1][b], k) {
                            out.fail(Violation::new("depends", format!("{pn}:depends:bit"), format!("bit {b} at byte {off} of message {m} from party {f} to party {v} is 1 in {x} of {k} sessions with one set of secrets and in {y} of {k} with another (party {v}'s inputs, shares and keys fixed)")));
                            return;
                        }
                    }
                    els.push(El { from: f, msg: m, off, w: e, vals, cols });
                    off += e;
                }
            }
        }
    }
    // differences of two: neighbours first, then the same place in consecutive messages, then any
    let mut pairs: Vec<(usize, usize)> = vec![];
    for i in 1..els.len() {
        if els[i].msg == els[i - 1].msg && els[i].from == els[i - 1].from {
            pairs.push((i - 1, i));
        }
    }
    for i in 0..els.len() {
        for j in i + 1..els.len() {
            if els[j].from != els[i].from || els[j].msg > els[i].msg + 2 {
                break;
            }
            if els[j].msg > els[i].msg && els[j].off == els[i].off {
                pairs.push((i, j));
            }
        }
    }
    while pairs.len() > 3000 {
        let i = rng.usize(pairs.len());
        pairs.swap_remove(i);
    }
    if els.len() > 1 {
        for _ in 0..2000 {
            let (i, j) = (rng.usize(els.len()), rng.usize(els.len()));
            if i != j {
                pairs.push((i, j));
            }
        }
    }
    for (i, j) in pairs {
        let (x, y) = (&els[i], &els[j]);
        let bits = x.w.min(y.w) * 8;
        let mut bad = None;
        for b in 0..bits {
            tests += 1;
            if let Some(n) = differ(x.cols[0][b] ^ y.cols[0][b], x.cols[1][b] ^ y.cols[1][b], k) {
                bad = Some(("exclusive or", b, n));
            }
        }
        let dif = [0, 1].map(|sd: usize| columns(&x.vals[sd].iter().zip(&y.vals[sd]).map(|(p, q)| p.wrapping_sub(*q)).collect::<Vec<_>>(), bits as u32));
        let sum = [0, 1].map(|sd: usize| columns(&x.vals[sd].iter().zip(&y.vals[sd]).map(|(p, q)| p.wrapping_add(*q)).collect::<Vec<_>>(), bits as u32));
        for b in 0..bits {
            tests += 2;
            if let Some(n) = differ(dif[0][b], dif[1][b], k) {
                bad = Some(("difference", b, n));
            }
            if let Some(n) = differ(sum[0][b], sum[1][b], k) {
                bad = Some(("sum", b, n));
            }
        }
        if let Some((what, b, (p, q))) = bad {
            out.fail(Violation::new("depends", format!("{pn}:depends:pair"), format!("bit {b} of the {what} of two elements party {v} receives (message {} from {} at byte {}, message {} from {} at byte {}) is 1 in {p} of {k} sessions with one set of secrets and in {q} of {k} with another", x.msg, x.from, x.off, y.msg, y.from, y.off)));
            return;
        }
    }
    *out.counters.entry("probe.bit_tests".into()).or_insert(0) += tests;
    *out.counters.entry("probe.elements_observed".into()).or_insert(0) += els.len() as u64;
    out.nontrivial = out.violation.is_none() && !els.is_empty();
}

fn no_opens(ops: &mut Vec<Op>) {
    ops.retain(|o| !matches!(o, Op::Open(_) | Op::OpenMany(_) | Op::OpenBit(_) | Op::OpenBitMany(_) | Op::ShareMany { .. }));
    for o in ops.iter_mut() {
        if let Op::Precompute(n) = o {
            *n %= 80;
        }
        if let Op::MsbMany(s) = o {
            s.len = s.len.min(20);
        }
    }
}

impl Property for C12 {
    type Case = SecCase;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> String {
        "case = protocol x ring x program without openings (verification allowed), or a membership query whose answer is the same for both sides, x observing party x two sets of secrets of the others (dealt shares of which the observer's components are equal; inputs of the other parties). The entropy draws of the others that the observer's setup messages depend on are found one by one and held fixed; all others vary over 64 (queries: 40) simulated sessions per side. Each bit of each message the observer receives, and each bit of the exclusive or, difference and sum of up to 5000 pairs of elements (neighbours, same place in consecutive messages, random), must be set about equally often on both sides (threshold 9 standard deviations). In a tenth of the cases instead: two sessions with independent entropy share no 16-byte block in the setup and no message of 16 bytes or more. Non-trivial: the observer received something".into()
    }
    fn real(&self) -> Vec<String> {
        real_l1()
    }
    fn stubbed(&self) -> Vec<String> {
        stub_l1()
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = assume_l1();
        v.push("statistical: a dependence that moves no bit of a message, or of the sum, difference or exclusive or of two elements, by more than about 3/4 of the sessions is not seen".into());
        v.push("semi-honest observer: all parties follow the protocol".into());
        v
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (5_000, 60.0)
        } else {
            (1_000_000, 760.0)
        }
    }
    fn gen(&self, i: usize, r: &mut Rng64, _tier: Tier) -> SecCase {
        let proto = pick_proto(r);
        let v = r.usize(3);
        if proto != Proto::Swift3 && i % 60 == 7 {
            let n = if proto == Proto::MalAby3 { 1 } else { 1 + r.usize(2) };
            let mut q = gen_query(r, n, false);
            q.chunk = 1 + r.below(2) as u32;
            let a = Case { proto, ring: Ring::U16, prog: Prog { key: KeyMode::Dealer, ops: vec![Op::Query(q)], guard_opens: true, final_verify: false }, net: NetCfg::calm(), deal_seed: r.next(), entropy: r.next(), triples: 1, adversary: None, faults: vec![] };
            let want = plain(&a.prog, 16);
            let b = loop {
                let b = other_secrets(r, &a.prog, 16);
                if plain(&b, 16) == want {
                    break b;
                }
            };
            return SecCase { a, b, v: v as u8, k: 40, fresh: false, sanity: false };
        }
        let ring = *r.pick(rings(proto));
        let w = ring.bits();
        let key = if proto == Proto::SpdzWise && r.chance(1, 4) { KeyMode::Joint } else { KeyMode::Dealer };
        let mut cfg = GenCfg { proto, w, max_ops: *r.pick(&[2usize, 4, 7]), max_vec: *r.pick(&[3u32, 6, 12]), opens: false, inputs_from: vec![0, 1, 2], dealer_only: key == KeyMode::Joint, heavy_bits: r.chance(1, 4) };
        let prog = loop {
            let mut ops = gen_ops(r, &cfg);
            no_opens(&mut ops);
            let mut pre = vec![];
            if key == KeyMode::Dealer {
                for _ in 0..2 + r.usize(3) {
                    pre.push(Op::Share { v: gen_value(r, w) });
                }
            }
            for _ in 0..2 {
                pre.push(Op::Input { owner: r.below(3) as u8, v: gen_value(r, w) });
            }
            pre.extend(ops);
            let p = Prog { key, ops: pre, guard_opens: false, final_verify: r.chance(1, 3) };
            if proto != Proto::Swift3 || swift3_cost(&p, w) <= 8.0 {
                break p;
            }
            cfg.max_vec = (cfg.max_vec * 2 / 3).max(2);
            cfg.max_ops = (cfg.max_ops * 5 / 6).max(1);
        };
        let mut b = other_secrets(r, &prog, w);
        for (x, y) in prog.ops.iter().zip(b.ops.iter_mut()) {
            if let (Op::Input { owner, v: xv }, Op::Input { v: yv, .. }) = (x, y) {
                if *owner as usize % 3 == v {
                    *yv = *xv;
                }
            }
        }
        let a = Case { proto, ring, prog, net: NetCfg::calm(), deal_seed: r.next(), entropy: r.next(), triples: 1, adversary: None, faults: vec![] };
        SecCase { a, b, v: v as u8, k: 64, fresh: i % 10 == 3, sanity: i % 8 == 0 }
    }
    fn run(&self, s: &SecCase, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        dispatch!(s.a.proto, s.a.ring, S => run_secrecy::<S>(s, mode, log, &mut out));
        out
    }
    fn shrink(&self, s: &SecCase) -> Vec<SecCase> {
        let mut v = vec![];
        let n = s.a.prog.ops.len();
        let mut block = n / 2;
        while block >= 1 {
            let mut i = 0;
            while i < n {
                let mut x = s.clone();
                let e = (i + block).min(n);
                x.a.prog.ops.drain(i..e);
                x.b.ops.drain(i..e);
                if !x.a.prog.ops.is_empty() {
                    v.push(x);
                }
                i += block;
            }
            block /= 2;
        }
        if s.a.prog.final_verify {
            let mut x = s.clone();
            x.a.prog.final_verify = false;
            x.b.final_verify = false;
            v.push(x);
        }
        v
    }
}
