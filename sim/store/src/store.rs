//! C24: the shared databases the dealer's tool writes. C25: the plaintext database tools.
use crate::load::{self, Loaded};
use crate::session::{Aby3U16, MalU16, Proto, Session, SpdzU16, SwiftU16};
use crate::simnet::{Hub, NetCfg};
use crate::tool::{self, End, Res, Tool};
use crate::vfs::{self, Crash, Fault, How, Image, Op, Plan};
use plain_reference::IrisCodeArray;
use serde::{Deserialize, Serialize};
use simcore::exec::{self, Mode};
use simcore::rng::{mix, Rng64};
use simcore::runner::{Property, RunOut, Tier, Violation};
use std::collections::BTreeMap;
use std::sync::Mutex;

pub const DB: &str = "/simdisk/iris.db";
const CODE: usize = 12800;
const BYTES: usize = CODE / 8;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Bad {
    pub faults: Vec<Fault>,
    pub crash: Option<Crash>,
    pub capacity: Option<u64>,
    pub power_after: Option<u64>,
}
impl Bad {
    fn plan(&self, image: Image, log: bool) -> Plan {
        Plan { image, faults: self.faults.clone(), crash: self.crash, capacity: self.capacity, power_after: self.power_after, log }
    }
    fn shrink(&self) -> Vec<Bad> {
        let mut out = vec![];
        for i in 0..self.faults.len() {
            let mut b = self.clone();
            b.faults.remove(i);
            out.push(b);
            if self.faults[i].more > 0 {
                let mut b = self.clone();
                b.faults[i].more = 0;
                out.push(b);
            }
        }
        if self.crash.is_some() {
            out.push(Bad { crash: None, ..self.clone() });
        }
        if self.crash.is_some_and(|c| c.power) {
            out.push(Bad { crash: self.crash.map(|c| Crash { power: false, ..c }), ..self.clone() });
        }
        if self.capacity.is_some() {
            out.push(Bad { capacity: None, ..self.clone() });
        }
        if self.power_after.is_some() {
            out.push(Bad { power_after: None, ..self.clone() });
        }
        out
    }
}

/// operations of a run without faults: (all, by kind)
type Counts = (u32, BTreeMap<Op, u32>);
fn dry(t: Tool, args: &[String], image: &Image, key: u64) -> Counts {
    static CACHE: Mutex<BTreeMap<(u8, u64), Counts>> = Mutex::new(BTreeMap::new());
    let key = (t as u8, key);
    if let Some(c) = CACHE.lock().unwrap().get(&key) {
        return c.clone();
    }
    let r = tool::run(t, args, &Plan { image: image.clone(), ..Default::default() }, 1);
    let c = (r.total, r.counts);
    CACHE.lock().unwrap().insert(key, c.clone());
    c
}
fn gen_fault(r: &mut Rng64, c: &Counts, kinds: &[Op]) -> Fault {
    let op = *r.pick(kinds);
    let n = c.1.get(&op).copied().unwrap_or(0).max(1);
    let nth = match r.below(4) {
        0 => n - 1 - r.below(n.min(4) as u64) as u32,
        _ => r.below(n as u64) as u32,
    };
    let more = match (op, r.below(4)) {
        (Op::Lock, 0) => 1_000_000,
        (Op::Lock, _) => r.below(12) as u32,
        (_, 0) => 1_000_000,
        (_, 1) => r.below(4) as u32,
        _ => 0,
    };
    let how = match op {
        Op::Write if r.chance(1, 2) => How::Short(r.below(9) as u32 * 512 + if r.chance(1, 4) { 100 } else { 0 }),
        Op::Sync if r.chance(1, 2) => How::Lose,
        _ => How::Error,
    };
    Fault { op, nth, more, how }
}
fn gen_bad(r: &mut Rng64, c: &Counts, size: u64) -> Bad {
    const KINDS: [Op; 12] = [Op::Write, Op::Write, Op::Write, Op::Sync, Op::Sync, Op::Read, Op::Open, Op::Delete, Op::Truncate, Op::Lock, Op::Size, Op::Access];
    let mut b = Bad::default();
    let kind = r.below(10);
    if kind < 5 || kind == 9 {
        let at = match r.below(3) {
            0 => c.0 - 1 - r.below(c.0.min(25) as u64) as u32,
            _ => r.below(c.0 as u64 + 2) as u32,
        };
        b.crash = Some(Crash { at, power: r.chance(2, 3), seed: r.next() });
    }
    if (5..8).contains(&kind) || kind == 9 {
        for _ in 0..1 + r.below(3) / 2 {
            b.faults.push(gen_fault(r, c, &KINDS));
        }
    }
    if kind == 8 {
        b.capacity = Some(match r.below(3) {
            0 => size,
            1 => size + size / 8,
            _ => r.below(size * 5 / 4 + 8192),
        });
    }
    if r.chance(1, 3) {
        b.power_after = Some(r.next());
    }
    b
}

/// What a database file holds, read by the checker.
#[derive(Clone, Debug, Default, PartialEq)]
struct Content {
    rows: Vec<Row>,
    keys: Vec<Vec<Vec<u8>>>,
}
#[derive(Clone, Debug, PartialEq)]
struct Row {
    code: Vec<u8>,
    mask: Vec<u8>,
    shares: Vec<Vec<u8>>,
}
fn columns(p: Option<Proto>) -> &'static [&'static str] {
    match p {
        None => &[],
        Some(Proto::Aby3) | Some(Proto::MalAby3) => &["share_a", "share_b", "share_c"],
        Some(Proto::Swift3) => &["share_a", "share_b", "share_c", "share_d"],
        Some(Proto::SpdzWise) => &["share_a", "share_b", "share_c", "mac_a", "mac_b", "mac_c"],
    }
}
fn inspect(image: &Image, p: Option<Proto>) -> Result<Content, Violation> {
    vfs::mount(Plan { image: image.clone(), ..Default::default() }, None);
    let r = read_all(p);
    vfs::unmount();
    r.map_err(|e| Violation::new("unreadable", "store:unreadable", format!("the database cannot be read: {e}")))?
}
fn read_all(p: Option<Proto>) -> rusqlite::Result<Result<Content, Violation>> {
    let mut c = Content::default();
    let conn = rusqlite::Connection::open(DB)?;
    let ok: String = conn.query_row("PRAGMA integrity_check", [], |r| r.get(0))?;
    if ok != "ok" {
        return Ok(Err(Violation::new("corrupt", "store:integrity", format!("integrity check: {ok}"))));
    }
    let has = |t: &str| conn.query_row("SELECT count(*) FROM sqlite_master WHERE name = ?1", [t], |r| r.get::<_, i64>(0)).map(|n| n > 0);
    if has("iris_codes")? {
        let cols = columns(p);
        let mut q = String::from("SELECT code, mask");
        cols.iter().for_each(|x| q += &format!(", {x}"));
        let mut s = conn.prepare(&(q + " FROM iris_codes ORDER BY id"))?;
        let mut rows = s.query([])?;
        while let Some(r) = rows.next()? {
            let shares = (0..cols.len()).map(|i| r.get(2 + i)).collect::<Result<_, _>>()?;
            c.rows.push(Row { code: r.get(0)?, mask: r.get(1)?, shares });
        }
    }
    if p == Some(Proto::SpdzWise) && has("mac_key")? {
        let mut s = conn.prepare("SELECT key, share_a, share_b, share_c FROM mac_key ORDER BY id")?;
        let mut rows = s.query([])?;
        while let Some(r) = rows.next()? {
            c.keys.push((0..4).map(|i| r.get(i)).collect::<Result<_, _>>()?);
        }
    }
    Ok(Ok(c))
}
fn bit(b: &[u8], i: usize) -> bool {
    b[i / 8] >> (i % 8) & 1 == 1
}
fn raw(a: &IrisCodeArray) -> Vec<u8> {
    a.as_raw_slice().to_vec()
}
/// the definition of a match, and whether the masks allow a decision
fn matches(a: (&[u8], &[u8]), b: (&[u8], &[u8])) -> (bool, bool) {
    let (mut ones, mut dist) = (0usize, 0usize);
    for i in 0..BYTES {
        let m = a.1[i] & b.1[i];
        ones += m.count_ones() as usize;
        dist += ((a.0[i] ^ b.0[i]) & m).count_ones() as usize;
    }
    (dist < ones * 34 / 100, ones >= 8960)
}

/// One use of a tool: what may have come of it.
struct Step {
    done: bool,
    content: Content,
}
fn judge(out: &mut RunOut, bad: &Bad, r: &Res, before: &Content, n: usize, p: Option<Proto>, what: &str) -> Option<Step> {
    out.runs += 1;
    out.steps += r.total as u64;
    out.sim_ns += r.sleep_us * 1000 + r.total as u64 * 100_000;
    out.trace = mix(&[out.trace, r.trace, r.total as u64]);
    for (k, v) in &r.applied {
        *out.counters.entry(k.clone()).or_insert(0) += *v as u64;
    }
    out.log.extend(r.log.iter().cloned());
    out.log.push(format!("{what}: {:?} after {} operations", r.end, r.total));
    out.count(match &r.end {
        End::Ok => "end.ok",
        End::Failed => "end.error",
        End::Panicked(_) => "end.panic",
        End::Crashed => "end.crash",
        _ => "end.other",
    });
    match &r.end {
        End::Endless => out.fail(Violation::new("endless", format!("store:endless:{what}"), format!("{what} did not come to an end ({} disk operations)", r.total))),
        End::Killed(s) => out.fail(Violation::new("killed", format!("store:killed:{what}"), format!("{what} ended by signal {s}"))),
        End::Failed | End::Panicked(_) if r.applied.is_empty() => {
            out.fail(Violation::new("fails", format!("store:fails:{what}"), format!("{what} failed although nothing was wrong: {:?}", r.end)))
        }
        _ => {}
    }
    let c = match inspect(&r.image, p) {
        Ok(c) => c,
        Err(v) => {
            out.fail(v);
            return None;
        }
    };
    let (old, new) = (before.rows.len(), c.rows.len());
    out.log.push(format!("  {new} rows ({old} before), {} keys", c.keys.len()));
    if new < old || c.rows[..old] != before.rows[..] {
        out.fail(Violation::new("earlier-data", "store:earlier-data-changed", format!("{what}: {old} rows were there before, now {new}, or changed")));
        return None;
    }
    let all = new == old + n;
    if r.end == End::Ok {
        if !all {
            out.fail(Violation::new(
                "lost",
                if bad.power_after.is_some() { "store:not-durable" } else { "store:success-without-data" },
                format!("{what} reported success, but {} of {n} items are there{}", new - old, if bad.power_after.is_some() { " after a power failure" } else { "" }),
            ));
        }
    } else if !all && new != old {
        out.fail(Violation::new("partial", "store:partial", format!("{what} ended with {:?} and left {} of {n} items", r.end, new - old)));
    }
    if p == Some(Proto::SpdzWise) && before.keys.is_empty() {
        let want = if r.end == End::Ok || n > 0 && all { 1 } else { 0 };
        if c.keys.len() != want && !(n == 0 && r.end != End::Ok && c.keys.len() <= 1) {
            out.fail(Violation::new("partial", "store:key-without-items", format!("{what} ended with {:?} and left {} MAC keys with {} of {n} items", r.end, c.keys.len(), new - old)));
        }
    }
    out.nontrivial |= !r.applied.is_empty() || bad.power_after.is_some();
    Some(Step { done: r.end == End::Ok || n > 0 && all, content: c })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QueryCase {
    pub seed: u64,
    pub should_match: bool,
    pub chunk: u32,
    pub net: NetCfg,
    /// only open the shares, without the query
    pub open_only: bool,
    /// a disk fault while this party loads
    pub fault: Option<(u8, Fault)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShareCase {
    pub proto: Proto,
    pub items: u32,
    pub seed: Option<u64>,
    /// items an earlier run has put into the same database
    pub earlier: Option<u32>,
    pub attempts: Vec<Bad>,
    pub query: QueryCase,
    pub entropy: u64,
    /// compare with a second database made with the same arguments
    pub twin: bool,
}
impl ShareCase {
    fn args(&self, items: u32, seed: Option<u64>) -> Vec<String> {
        let m = match self.proto {
            Proto::Aby3 | Proto::MalAby3 => "aby3",
            Proto::Swift3 => "swift3",
            Proto::SpdzWise => "spdzwise",
        };
        let mut v = ["--database", DB, "--mpc", m, "--items"].map(String::from).to_vec();
        v.push(items.to_string());
        if let Some(s) = seed {
            v.extend(["--seed".into(), s.to_string()]);
        }
        v
    }
}

pub struct C24;
impl C24 {
    /// every share column by itself looks random
    fn columns_hide(&self, c: &Content, p: Proto, out: &mut RunOut) {
        for (k, row) in c.rows.iter().enumerate() {
            for (j, col) in row.shares.iter().enumerate() {
                let name = columns(Some(p))[j];
                // bincode: a length of 8 bytes, then the elements
                let w = (col.len().saturating_sub(8)) / CODE;
                if w == 0 || col.len() != 8 + w * CODE {
                    out.fail(Violation::new("malformed", "store:column-length", format!("item {k}: column {name} has {} bytes", col.len())));
                    return;
                }
                let el = |i: usize| &col[8 + i * w..8 + (i + 1) * w];
                let (mut low, mut high) = (0usize, 0usize);
                for i in 0..CODE {
                    low += ((el(i)[0] & 1 == 1) == bit(&row.code, i)) as usize;
                    // the top bit of the 16-bit ring
                    high += (el(i)[1.min(w - 1)] >> 7) as usize;
                }
                // eight standard deviations of a fair coin
                let off = |x: usize| x.abs_diff(CODE / 2) > 453;
                if off(low) || off(high) {
                    out.fail(Violation::new(
                        "leak",
                        format!("store:column-not-random:{name}"),
                        format!("item {k}: column {name} alone: low bit equals the code's bit {low} times of {CODE}, high bit is set {high} times"),
                    ));
                    return;
                }
            }
        }
    }
    fn session<S: Session>(&self, c: &ShareCase, content: &Content, image: &Image, out: &mut RunOut, mode: &Mode, log: bool, load: impl Fn(usize, &str, u64, bool) -> Result<Loaded<S::A>, String>) {
        let q = &c.query;
        let mut parts = vec![];
        for p in 0..3 {
            let mut first = true;
            loop {
                let faults = q.fault.iter().filter(|f| first && f.0 as usize == p).map(|f| f.1.clone()).collect();
                vfs::mount(Plan { image: image.clone(), faults, log, ..Default::default() }, None);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| load(p, DB, q.seed, q.should_match)));
                let d = vfs::unmount();
                let hurt = !d.applied.is_empty();
                for (k, v) in &d.applied {
                    *out.counters.entry(format!("load.{k}")).or_insert(0) += *v as u64;
                }
                out.log.extend(d.log);
                match r {
                    Ok(Ok(l)) => {
                        parts.push(l);
                        break;
                    }
                    Ok(Err(_)) | Err(_) if hurt && first => first = false,
                    Ok(Err(e)) => return out.fail(Violation::new("load", "store:load", format!("party {p} cannot load its shares: {e}"))),
                    Err(_) => return out.fail(Violation::new("load", "store:load-panic", format!("party {p} panics loading its shares"))),
                }
            }
        }
        for (p, l) in parts.iter().enumerate() {
            if l.masks.iter().map(raw).ne(content.rows.iter().map(|r| r.mask.clone())) || l.db.len() != content.rows.len() {
                return out.fail(Violation::new("load", "store:load-wrong", format!("party {p} loaded {} items, {} masks of {} items", l.db.len(), l.masks.len(), content.rows.len())));
            }
        }
        // of a large database, a sample
        let total = content.rows.len();
        let sample: Vec<usize> = if total <= 8 { (0..total).collect() } else { [0, 1, total / 2, total - 2, total - 1].to_vec() };
        if total > 8 {
            for l in parts.iter_mut() {
                l.db = sample.iter().map(|k| std::mem::take(&mut l.db[*k])).collect();
            }
        }
        let pmask = raw(&parts[0].probe_mask);
        if parts.iter().any(|l| raw(&l.probe_mask) != pmask) {
            return out.fail(Violation::new("load", "store:probe-masks-differ", "the parties derive different probes"));
        }
        type Got = (Vec<Vec<bool>>, Vec<bool>, Option<bool>);
        iris_mpc::vsim::MAX_DOT_PROOF.with(|m| m.set(4000));
        let hub = Hub::new(q.net.clone());
        let slots: Vec<exec::Slot<Result<Got, String>>> = (0..3).map(|_| exec::slot()).collect();
        let cfg = exec::Config {
            mode: mode.clone(),
            entropy_seed: mix(&[c.entropy, 0xE]),
            stall_rate: q.net.stall_rate,
            stall_max: 50 * exec::MS,
            max_steps: 4_000_000,
            max_time: 24 * 3600 * exec::SEC,
            log,
            ..Default::default()
        };
        let (s2, q2) = (slots.clone(), q.clone());
        let rep = exec::run(
            cfg,
            move || {
                for (i, l) in parts.into_iter().enumerate() {
                    let net = Hub::net(&hub, i);
                    let (slot, q) = (s2[i].clone(), q2.clone());
                    let fut = async move {
                        let r = async {
                            let mut s = S::open_session(net)?;
                            s.preprocess().await?;
                            if let Some(k) = l.key {
                                s.set_key(k);
                            }
                            let mut rows = vec![];
                            for r in &l.db {
                                let v = s.open_many(r.clone()).await?;
                                rows.push(v.into_iter().map(|x| if x > 1 { None } else { Some(x == 1) }).collect::<Option<Vec<bool>>>().unwrap_or_default());
                            }
                            let probe: Vec<bool> = s.open_many(l.probe.clone()).await?.into_iter().map(|x| x == 1).collect();
                            let ans = if q.open_only { None } else { Some(s.iris(l.probe, l.db, &l.probe_mask, &l.masks, q.chunk.max(1) as usize).await?) };
                            s.finish().await?;
                            Ok::<Got, iris_mpc::prelude::Error>((rows, probe, ans))
                        }
                        .await;
                        *slot.borrow_mut() = Some(r.map_err(|e| format!("{e:?}")));
                    };
                    exec::spawn(i, "party", true, fut);
                }
            },
            |_| false,
        );
        let (choices, n) = (rep.choices.clone(), out.runs);
        out.absorb(&rep);
        out.runs = n;
        out.choices = choices;
        if let Some((p, _, m)) = rep.panics.first() {
            return out.fail(Violation::new("panic", "store:session-panic", format!("party {p} panicked: {m}")));
        }
        let wrong = |k: usize, opened: &[bool], code: &[u8]| (opened.len() != CODE).then_some(format!("item {k} opens to something else than bits")).or_else(|| (0..CODE).find(|i| opened[*i] != bit(code, *i)).map(|i| format!("item {k} opens wrongly at bit {i}")));
        for (p, s) in slots.iter().enumerate() {
            match s.borrow_mut().take() {
                Some(Ok((rows, probe, ans))) => {
                    if let Some(w) = rows.iter().zip(&sample).find_map(|(o, k)| wrong(*k, o, &content.rows[*k].code)) {
                        return out.fail(Violation::new("wrong-shares", "store:wrong-shares", format!("party {p}: {w}")));
                    }
                    let mut pc = vec![0u8; BYTES];
                    probe.iter().enumerate().for_each(|(i, b)| pc[i / 8] |= (*b as u8) << (i % 8));
                    if let Some(ans) = ans {
                        let t: Vec<_> = content.rows.iter().map(|r| matches((&pc, &pmask), (&r.code, &r.mask))).collect();
                        let expect = t.iter().any(|x| x.0);
                        if t.iter().any(|x| !x.1) || q.should_match != expect {
                            out.count("probe.unusual_probe");
                        }
                        if ans != expect {
                            return out.fail(Violation::new("wrong-answer", "store:wrong-answer", format!("party {p}: the query answers {ans}, the plaintext data say {expect}")));
                        }
                        out.count(if ans { "answers.match" } else { "answers.no_match" });
                    }
                }
                Some(Err(e)) => return out.fail(Violation::new("session", "store:session-fails", format!("party {p}: {e}"))),
                None => return out.fail(Violation::new("session", "store:session-hangs", format!("party {p} does not finish: {:?}", rep.end))),
            }
        }
        out.count("sessions");
    }
}
impl Property for C24 {
    type Case = ShareCase;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> String {
        "case = protocol x items 0..4, sometimes up to 140 x seed or none x (a database an earlier run has filled) x 0..2 disturbed runs of the tool, each with a crash of the process or of the machine before any disk operation (unsynced sectors lost, torn or reordered), disk errors (open, read, write, short write, sync with and without loss, truncate, delete, size, access), a full disk, other processes' locks, or a power failure right after it ends; then, if need be, an undisturbed run; then the three parties load their shares with the repository's party programs (one of them hitting a disk error first), open all of them in a session of the protocol and run a membership query with a fresh or a matching probe. Non-trivial: a fault, crash or power failure took effect".into()
    }
    fn real(&self) -> Vec<String> {
        vec![
            "iris-mpc/src/bin/create_sample_data.rs: real code, main() with its arguments in a process of its own".into(),
            "the party programs' loading code (read_db and get_iris_share of iris-mpc/examples/*.rs): real code".into(),
            "rusqlite and SQLite 3.44: real code; iris-mpc protocols for opening and querying: real code".into(),
        ]
    }
    fn stubbed(&self) -> Vec<String> {
        vec![
            "the disk below SQLite's VFS interface: simulated (cache, durable sectors, locks, errors, power failure)".into(),
            "operating-system entropy and clocks: deterministic; the parties' network: simulated FIFO links".into(),
        ]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "seeded sampling, not enumeration".into(),
            "directory entries: a file synced once stays, a deletion is durable in order (journalling file system); 512-byte sectors are written as a whole or not at all".into(),
            "a second spdzwise run on a completed database is out of scope (the party programs refuse two MAC keys)".into(),
        ]
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (20_000, 45.0)
        } else {
            (1_000_000, 760.0)
        }
    }
    fn gen(&self, _i: usize, r: &mut Rng64, _tier: Tier) -> ShareCase {
        let proto = *r.pick(&[Proto::Aby3, Proto::Swift3, Proto::SpdzWise, Proto::SpdzWise, Proto::MalAby3]);
        let items = match r.below(100) {
            // past SQLite's page cache: pages reach the file before the commit
            0 => 101 + r.below(40) as u32,
            1..=4 => 8 + r.below(25) as u32,
            _ => *r.pick(&[1, 1, 1, 2, 2, 3, 4, 0]),
        };
        let mut c = ShareCase {
            proto,
            items,
            seed: r.chance(2, 3).then(|| if r.chance(1, 4) { r.below(3) } else { r.next() }),
            earlier: (proto != Proto::SpdzWise && r.chance(1, 4)).then(|| 1 + r.below(3) as u32),
            attempts: vec![],
            query: QueryCase {
                seed: r.next(),
                should_match: r.chance(1, 2),
                chunk: *r.pick(&[1024, 1, 2, 3]),
                net: NetCfg::gen(r),
                open_only: r.chance(2, 3) || items > 8,
                fault: None,
            },
            entropy: r.next(),
            twin: r.chance(1, 8),
        };
        let counts = self.counts(&c);
        let size = 8192 + (items + c.earlier.unwrap_or(0)) as u64 * (3200 + 25_600 * 3 * if proto == Proto::SpdzWise { 4 } else { 1 });
        for _ in 0..[0, 1, 1, 1, 2][r.usize(5)] {
            c.attempts.push(gen_bad(r, &counts, size));
        }
        if r.chance(1, 4) {
            let op = *r.pick(&[Op::Read, Op::Read, Op::Open, Op::Lock, Op::Size, Op::Access]);
            c.query.fault = Some((r.below(3) as u8, Fault { op, nth: r.below(30) as u32, more: if op == Op::Lock { r.below(200) as u32 } else { 0 }, how: How::Error }));
        }
        c
    }
    fn run(&self, c: &ShareCase, mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        out.count(&format!("cases.{}", c.proto.name()));
        let p = Some(c.proto);
        let mut image = Image::new();
        let mut content = Content::default();
        if let Some(n) = c.earlier {
            let calm = Bad::default();
            let r = tool::run(Tool::Share, &c.args(n, Some(c.entropy)), &calm.plan(image, log), mix(&[c.entropy, 1]));
            let Some(s) = judge(&mut out, &calm, &r, &content, n as usize, p, "create_sample_data") else { return out };
            (image, content) = (r.image, s.content);
        }
        let before = content.clone();
        let args = c.args(c.items, c.seed);
        let mut done = false;
        for (k, b) in c.attempts.iter().chain([&Bad::default()]).enumerate() {
            if done || out.violation.is_some() {
                break;
            }
            let r = tool::run(Tool::Share, &args, &b.plan(image, log), mix(&[c.entropy, 2, k as u64]));
            let Some(s) = judge(&mut out, b, &r, &content, c.items as usize, p, "create_sample_data") else { return out };
            if k > 0 {
                out.count("probe.run_after_an_interrupted_one");
            }
            (image, content, done) = (r.image, s.content, s.done);
        }
        if out.violation.is_some() {
            return out;
        }
        if !done {
            out.fail(Violation::new("retry", "store:retry-fails", "a run after an interrupted one does not complete the database"));
            return out;
        }
        if content.rows.iter().any(|r| r.code.len() != BYTES || r.mask.len() != BYTES) {
            out.fail(Violation::new("malformed", "store:code-length", "a code or mask of the wrong length"));
            return out;
        }
        self.columns_hide(&content, c.proto, &mut out);
        if c.twin && c.items > 0 && out.violation.is_none() {
            let calm = Bad::default();
            let r = tool::run(Tool::Share, &args, &calm.plan(Image::new(), log), mix(&[c.entropy, 3]));
            if let Some(s) = judge(&mut out, &calm, &r, &Content::default(), c.items as usize, p, "create_sample_data") {
                let (a, b) = (&content.rows[before.rows.len()..], &s.content.rows[..]);
                let codes = |v: &[Row]| v.iter().map(|r| (r.code.clone(), r.mask.clone())).collect::<Vec<_>>();
                if c.seed.is_some() && codes(a) != codes(b) {
                    out.fail(Violation::new("seed", "store:not-reproducible", "two runs with the same seed make different data"));
                }
                if c.seed.is_none() && (a[0].code == b[0].code || a[0].shares[0] == b[0].shares[0] || a[0].shares[1] == b[0].shares[1]) {
                    out.fail(Violation::new("seed", "store:unseeded-repeats", "two runs without a seed make the same data or share randomness"));
                }
            }
        }
        if !content.rows.is_empty() && out.violation.is_none() {
            match c.proto {
                Proto::Aby3 => self.session::<Aby3U16>(c, &content, &image, &mut out, mode, log, load::aby3::load),
                Proto::MalAby3 => self.session::<MalU16>(c, &content, &image, &mut out, mode, log, load::aby3_mal::load),
                Proto::Swift3 => self.session::<SwiftU16>(c, &content, &image, &mut out, mode, log, load::swift3::load),
                Proto::SpdzWise => self.session::<SpdzU16>(c, &content, &image, &mut out, mode, log, load::spdzwise::load),
            }
        }
        out
    }
    fn shrink(&self, c: &ShareCase) -> Vec<ShareCase> {
        let mut v = vec![];
        for i in 0..c.attempts.len() {
            let mut d = c.clone();
            d.attempts.remove(i);
            v.push(d);
            for b in c.attempts[i].shrink() {
                let mut d = c.clone();
                d.attempts[i] = b;
                v.push(d);
            }
        }
        if c.earlier.is_some() {
            v.push(ShareCase { earlier: None, ..c.clone() });
        }
        if c.twin {
            v.push(ShareCase { twin: false, ..c.clone() });
        }
        if c.items > 1 {
            v.push(ShareCase { items: c.items - 1, ..c.clone() });
        }
        if c.query.fault.is_some() {
            let mut d = c.clone();
            d.query.fault = None;
            v.push(d);
        }
        if !c.query.open_only {
            let mut d = c.clone();
            d.query.open_only = true;
            v.push(d);
        }
        if c.query.net != NetCfg::calm() {
            let mut d = c.clone();
            d.query.net = NetCfg::calm();
            v.push(d);
        }
        v
    }
}
impl C24 {
    fn counts(&self, c: &ShareCase) -> Counts {
        let mut image = Image::new();
        if let Some(n) = c.earlier {
            image = tool::run(Tool::Share, &c.args(n, Some(1)), &Plan::default(), 1).image;
        }
        dry(Tool::Share, &c.args(c.items, Some(1)), &image, mix(&[c.proto as u64, c.items as u64, c.earlier.unwrap_or(0) as u64]))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PlainCase {
    pub items: u32,
    pub earlier: Option<u32>,
    pub attempts: Vec<Bad>,
    /// rows removed from the front before the matching
    pub cut: u32,
    pub should_match: bool,
    pub faults: Vec<Fault>,
    pub entropy: u64,
}
pub struct C25;
impl C25 {
    fn args(n: u32) -> Vec<String> {
        ["--database".to_string(), DB.into(), "--items".into(), n.to_string()].to_vec()
    }
    fn margs(m: bool) -> Vec<String> {
        let mut v = ["--database".to_string(), DB.into()].to_vec();
        if m {
            v.push("--should-match".into());
        }
        v
    }
    fn made(n: u32) -> Image {
        static CACHE: Mutex<BTreeMap<u32, Image>> = Mutex::new(BTreeMap::new());
        if let Some(i) = CACHE.lock().unwrap().get(&n) {
            return i.clone();
        }
        let i = tool::run(Tool::Plain, &C25::args(n), &Plan::default(), 1).image;
        CACHE.lock().unwrap().insert(n, i.clone());
        i
    }
}
impl Property for C25 {
    type Case = PlainCase;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> String {
        "case = items 0..40, sometimes 300 or 1100 x (a database an earlier run has filled) x 0..2 disturbed runs of create_sample_data_plain (crashes, power failures, disk errors, a full disk, locks, as C24), then, if need be, an undisturbed one; then find_match with a matching or a fresh probe, with disk errors and locks while it reads. Non-trivial: a fault, crash or power failure took effect".into()
    }
    fn real(&self) -> Vec<String> {
        vec![
            "plain-reference/src/bin/create_sample_data_plain.rs and find_match.rs: real code, main() with its arguments and output in a process of its own".into(),
            "plain-reference library, rusqlite and SQLite 3.44: real code".into(),
        ]
    }
    fn stubbed(&self) -> Vec<String> {
        vec!["the disk below SQLite's VFS interface: simulated; operating-system entropy and clocks: deterministic".into()]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "seeded sampling, not enumeration".into(),
            "a random probe of 12800 bits does not match a random code, and one with 5 % of the bits flipped does (both with overwhelming probability)".into(),
            "directory entries and sectors as in C24".into(),
        ]
    }
    fn budget(&self, tier: Tier) -> (usize, f64) {
        if tier == Tier::Quick {
            (40_000, 40.0)
        } else {
            (2_000_000, 760.0)
        }
    }
    fn gen(&self, _i: usize, r: &mut Rng64, _tier: Tier) -> PlainCase {
        let items = if r.chance(1, 60) { *r.pick(&[300, 1100]) } else { *r.pick(&[1, 1, 2, 3, 4, 5, 8, 12, 40, 0]) };
        let earlier = r.chance(1, 3).then(|| *r.pick(&[1, 2, 5]));
        let image = earlier.map(C25::made).unwrap_or_default();
        let counts = dry(Tool::Plain, &C25::args(items), &image, mix(&[items as u64, earlier.unwrap_or(0) as u64]));
        let size = 8192 + (items + earlier.unwrap_or(0)) as u64 * 4096;
        let mut attempts = vec![];
        for _ in 0..[0, 1, 1, 2][r.usize(4)] {
            attempts.push(gen_bad(r, &counts, size));
        }
        let should_match = r.chance(2, 3);
        let mut faults = vec![];
        if r.chance(2, 3) {
            let mc = dry(Tool::Match, &C25::margs(should_match), &C25::made(items.max(1)), mix(&[items.max(1) as u64, should_match as u64]));
            faults.push(gen_fault(r, &mc, &[Op::Read, Op::Read, Op::Read, Op::Read, Op::Open, Op::Lock, Op::Size, Op::Access]));
        }
        PlainCase { items, earlier, attempts, cut: if r.chance(1, 6) { 1 } else { 0 }, should_match, faults, entropy: r.next() }
    }
    fn choice_replay(&self) -> bool {
        false
    }
    fn run(&self, c: &PlainCase, _mode: &Mode, log: bool) -> RunOut {
        let mut out = RunOut::default();
        let mut image = Image::new();
        let mut content = Content::default();
        if let Some(n) = c.earlier {
            let calm = Bad::default();
            let r = tool::run(Tool::Plain, &C25::args(n), &calm.plan(image, log), mix(&[c.entropy, 1]));
            let Some(s) = judge(&mut out, &calm, &r, &content, n as usize, None, "create_sample_data_plain") else { return out };
            (image, content) = (r.image, s.content);
        }
        let mut done = false;
        for (k, b) in c.attempts.iter().chain([&Bad::default()]).enumerate() {
            if done || out.violation.is_some() {
                break;
            }
            let r = tool::run(Tool::Plain, &C25::args(c.items), &b.plan(image, log), mix(&[c.entropy, 2, k as u64]));
            let Some(s) = judge(&mut out, b, &r, &content, c.items as usize, None, "create_sample_data_plain") else { return out };
            (image, content, done) = (r.image, s.content, s.done);
        }
        if !done {
            out.fail(Violation::new("retry", "store:retry-fails", "a run after an interrupted one does not complete the database"));
        }
        if out.violation.is_some() {
            return out;
        }
        let mut seen = std::collections::BTreeSet::new();
        let weight = |m: &[u8]| m.iter().map(|b| b.count_ones() as usize).sum::<usize>();
        for (k, r) in content.rows.iter().enumerate() {
            if r.code.len() != BYTES || r.mask.len() != BYTES || weight(&r.code).abs_diff(CODE / 2) > 600 || weight(&r.mask) < CODE * 8 / 10 {
                out.fail(Violation::new("malformed", "store:malformed", format!("item {k} is no iris code: lengths {} {}, weights {} {}", r.code.len(), r.mask.len(), weight(&r.code), weight(&r.mask))));
                return out;
            }
            if !seen.insert(&r.code) {
                out.fail(Violation::new("malformed", "store:repeated-code", format!("item {k} repeats an earlier one")));
                return out;
            }
        }
        if c.cut > 0 {
            vfs::mount(Plan { image: image.clone(), ..Default::default() }, None);
            let r = rusqlite::Connection::open(DB).and_then(|k| k.execute("DELETE FROM iris_codes WHERE id <= ?1", [c.cut]));
            image = vfs::unmount().image();
            if let Ok(n) = r {
                content.rows.drain(..n);
            }
        }
        let plan = Plan { image, faults: c.faults.clone(), log, ..Default::default() };
        let r = tool::run(Tool::Match, &C25::margs(c.should_match), &plan, mix(&[c.entropy, 4]));
        out.runs += 1;
        out.steps += r.total as u64;
        out.sim_ns += r.sleep_us * 1000 + r.total as u64 * 100_000;
        out.trace = mix(&[out.trace, r.trace, r.total as u64]);
        for (k, v) in &r.applied {
            *out.counters.entry(format!("match.{k}")).or_insert(0) += *v as u64;
        }
        out.log.extend(r.log.iter().cloned());
        out.log.push(format!("find_match: {:?}: {}", r.end, r.stdout.trim()));
        let (yes, no) = (r.stdout.contains("Found a match!"), r.stdout.contains("No match found"));
        let truth = c.should_match && !content.rows.is_empty();
        let hurt = !r.applied.is_empty();
        out.nontrivial |= hurt;
        if yes && !truth || no && truth || yes && no {
            out.fail(Violation::new("wrong-answer", "store:match-wrong", format!("find_match says {:?} where the database {} the probe", r.stdout.trim(), if truth { "holds" } else { "does not hold" })));
        }
        match r.end {
            End::Ok if yes || no => out.count(if yes { "answers.match" } else { "answers.no_match" }),
            End::Ok => out.fail(Violation::new("no-answer", "store:match-silent", "find_match succeeds without an answer")),
            // nothing to be similar to
            End::Failed if c.should_match && content.rows.is_empty() => out.count("answers.refused"),
            End::Failed | End::Panicked(_) if hurt => out.count("answers.error"),
            e => out.fail(Violation::new("fails", "store:match-fails", format!("find_match failed although nothing was wrong: {e:?}"))),
        }
        out
    }
    fn shrink(&self, c: &PlainCase) -> Vec<PlainCase> {
        let mut v = vec![];
        for i in 0..c.attempts.len() {
            let mut d = c.clone();
            d.attempts.remove(i);
            v.push(d);
            for b in c.attempts[i].shrink() {
                let mut d = c.clone();
                d.attempts[i] = b;
                v.push(d);
            }
        }
        if !c.faults.is_empty() {
            v.push(PlainCase { faults: vec![], ..c.clone() });
        }
        if c.earlier.is_some() {
            v.push(PlainCase { earlier: None, ..c.clone() });
        }
        if c.cut > 0 {
            v.push(PlainCase { cut: 0, ..c.clone() });
        }
        if c.items > 1 {
            v.push(PlainCase { items: c.items / 2, ..c.clone() });
            v.push(PlainCase { items: c.items - 1, ..c.clone() });
        }
        v
    }
}
