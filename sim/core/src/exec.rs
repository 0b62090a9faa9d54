//! Deterministic executor: one simulated execution = one fresh OS thread on which every task of
//! every simulated party is polled one at a time, in an order decided by a `Choices` source, with a
//! discrete-event virtual clock.
use crate::interpose;
use crate::rng::{mix, Rng64};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

/// How the simulator's decisions are made.
#[derive(Clone, Debug)]
pub enum Mode {
    /// Drawn from the seed under a scheduling policy; recorded.
    Random { seed: u64, policy: Policy },
    /// A recorded decision list; when exhausted every further decision is 0
    /// (run the task that became runnable first; deliver at once; inject nothing).
    Replay(Vec<u32>),
}

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Policy {
    /// uniformly random among runnable tasks, uniform delay buckets
    Uniform,
    /// mostly run-to-block, with occasional switches
    Sticky,
    /// one party is much slower than the others (party index)
    Slow(u8),
    /// first come first served, small delays
    Fifo,
    /// the most recently woken task first
    Lifo,
}

impl Policy {
    pub fn from_rng(r: &mut Rng64) -> Policy {
        match r.below(10) {
            0..=3 => Policy::Uniform,
            4 | 5 => Policy::Sticky,
            6 | 7 => Policy::Slow(r.below(3) as u8),
            8 => Policy::Fifo,
            _ => Policy::Lifo,
        }
    }
}

pub struct Choices {
    mode: Mode,
    rng: Rng64,
    pub rec: Vec<u32>,
    pos: usize,
    pub hash: u64,
}
pub const MAX_REC: usize = 400_000;

impl Choices {
    pub fn new(mode: Mode) -> Self {
        let seed = match &mode {
            Mode::Random { seed, .. } => *seed,
            _ => 0,
        };
        Choices { mode, rng: Rng64::new(mix(&[seed, 0xC401CE5])), rec: Vec::new(), pos: 0, hash: 0 }
    }
    fn note(&mut self, v: u32) -> u32 {
        if self.rec.len() < MAX_REC {
            self.rec.push(v);
        }
        self.hash = (self.hash ^ v as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
        v
    }
    fn replayed(&mut self, n: u32) -> Option<u32> {
        if let Mode::Replay(v) = &self.mode {
            let x = v.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            Some(x % n)
        } else {
            None
        }
    }
    /// A decision with n outcomes; outcome 0 is the benign one. `num/den` is the probability that
    /// the outcome is not 0.
    pub fn choose_biased(&mut self, n: u32, num: u64, den: u64) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match self.replayed(n) {
            Some(v) => v,
            None => {
                if self.rng.chance(num, den) {
                    1 + self.rng.below(n as u64 - 1) as u32
                } else {
                    0
                }
            }
        };
        self.note(v)
    }
    pub fn choose(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match self.replayed(n) {
            Some(v) => v,
            None => self.rng.below(n as u64) as u32,
        };
        self.note(v)
    }
    fn pick_task(&mut self, parties: &[usize], last: Option<usize>) -> usize {
        let n = parties.len();
        if n <= 1 {
            return 0;
        }
        if let Some(v) = self.replayed(n as u32) {
            return self.note(v) as usize;
        }
        let policy = match &self.mode {
            Mode::Random { policy, .. } => *policy,
            _ => Policy::Fifo,
        };
        let v = match policy {
            Policy::Uniform => self.rng.usize(n),
            Policy::Sticky => match last {
                Some(l) if l < n && self.rng.chance(9, 10) => l,
                _ => self.rng.usize(n),
            },
            Policy::Slow(p) => {
                let others: Vec<usize> = (0..n).filter(|i| parties[*i] != p as usize).collect();
                if !others.is_empty() && self.rng.chance(63, 64) {
                    others[self.rng.usize(others.len())]
                } else {
                    self.rng.usize(n)
                }
            }
            Policy::Fifo => 0,
            Policy::Lifo => n - 1,
        };
        self.note(v as u32) as usize
    }
}

struct TaskWaker {
    id: usize,
    q: Arc<Mutex<Vec<usize>>>,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.q.lock().unwrap().push(self.id)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.q.lock().unwrap().push(self.id)
    }
}

type LocalFut = Pin<Box<dyn Future<Output = ()>>>;
struct Task {
    party: usize,
    fut: Option<LocalFut>,
    waker: Waker,
    queued: bool,
    done: bool,
    root: bool,
    name: &'static str,
}

enum Ev {
    Wake(Waker),
    Call(Box<dyn FnOnce()>),
}
struct Event {
    at: u64,
    seq: u64,
    ev: Ev,
}
impl PartialEq for Event {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Event {}
impl PartialOrd for Event {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Event {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.at, self.seq).cmp(&(o.at, o.seq))
    }
}

pub struct Inner {
    now: u64,
    tasks: Vec<Task>,
    ready: VecDeque<usize>,
    wakes: Arc<Mutex<Vec<usize>>>,
    events: BinaryHeap<Reverse<Event>>,
    seq: u64,
    pub choices: Choices,
    pub steps: u64,
    stalled_until: [u64; interpose::MAXP],
    stall_rate: u64,
    stall_max: u64,
    stalls: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub trace: u64,
    pub log: Option<Vec<String>>,
    panics: Vec<(usize, &'static str, String)>,
    last_task: Option<usize>,
    crashed: [bool; interpose::MAXP],
    step_ns: u64,
}

thread_local! {
    static SIM: RefCell<Option<Inner>> = const { RefCell::new(None) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn with<R>(f: impl FnOnce(&mut Inner) -> R) -> R {
    SIM.with(|s| f(s.borrow_mut().as_mut().expect("no active simulation")))
}
fn try_with<R>(f: impl FnOnce(&mut Inner) -> R) -> Option<R> {
    SIM.try_with(|s| s.try_borrow_mut().ok().and_then(|mut g| g.as_mut().map(f))).ok().flatten()
}

pub fn now() -> u64 {
    with(|s| s.now)
}
pub fn choose(n: u32) -> u32 {
    with(|s| s.choices.choose(n))
}
pub fn choose_biased(n: u32, num: u64, den: u64) -> u32 {
    with(|s| s.choices.choose_biased(n, num, den))
}
pub fn count(what: &'static str) {
    with(|s| *s.counters.entry(what).or_insert(0) += 1)
}
pub fn count_n(what: &'static str, n: u64) {
    with(|s| *s.counters.entry(what).or_insert(0) += n)
}
/// Mix an observation into the execution's trace hash (the distinctness measure).
pub fn observe(parts: &[u64]) {
    with(|s| s.trace = mix(&[s.trace, mix(parts)]))
}
pub fn log(f: impl FnOnce() -> String) {
    let on = with(|s| s.log.is_some());
    if on {
        let line = f();
        with(|s| {
            let t = s.now;
            let st = s.steps;
            if let Some(l) = s.log.as_mut() {
                if l.len() < 20_000 {
                    l.push(format!("t={:.6}s step={} {}", t as f64 / 1e9, st, line));
                }
            }
        });
    }
}
pub fn at(when: u64, f: impl FnOnce() + 'static) {
    with(|s| s.push_event(when, Ev::Call(Box::new(f))))
}
pub fn wake_at(when: u64, w: Waker) {
    with(|s| s.push_event(when, Ev::Wake(w)))
}
pub fn spawn(party: usize, name: &'static str, root: bool, fut: impl Future<Output = ()> + 'static) -> usize {
    let boxed: LocalFut = Box::pin(fut);
    with(move |s| s.spawn(party, name, root, boxed))
}
/// Kill every task of a party at this instant. Their futures are dropped by the executor.
pub fn crash(party: usize) {
    let futs: Vec<LocalFut> = with(|s| {
        s.crashed[party] = true;
        let mut v = Vec::new();
        for t in s.tasks.iter_mut() {
            if t.party == party && !t.done {
                t.done = true;
                if let Some(f) = t.fut.take() {
                    v.push(f);
                }
            }
        }
        v
    });
    let prev = interpose::party();
    interpose::set_party(party);
    for f in futs {
        let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
    }
    interpose::set_party(prev);
}
pub fn is_crashed(party: usize) -> bool {
    with(|s| s.crashed[party])
}
pub fn revive(party: usize) {
    with(|s| s.crashed[party] = false)
}
pub fn stall(party: usize, until: u64) {
    with(|s| s.stalled_until[party] = s.stalled_until[party].max(until))
}

pub struct Sleep {
    until: u64,
    armed: bool,
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if now() >= self.until {
            return Poll::Ready(());
        }
        if !self.armed {
            self.armed = true;
            wake_at(self.until, cx.waker().clone());
        }
        Poll::Pending
    }
}
pub fn sleep(d: u64) -> Sleep {
    Sleep { until: now() + d, armed: false }
}
/// Give other tasks a chance to run (a scheduling point).
pub async fn yield_now() {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

impl Inner {
    fn push_event(&mut self, when: u64, ev: Ev) {
        self.seq += 1;
        let at = when.max(self.now);
        self.events.push(Reverse(Event { at, seq: self.seq, ev }));
    }
    fn spawn(&mut self, party: usize, name: &'static str, root: bool, fut: LocalFut) -> usize {
        let id = self.tasks.len();
        let waker = Waker::from(Arc::new(TaskWaker { id, q: self.wakes.clone() }));
        let dead = self.crashed[party];
        self.tasks.push(Task { party, fut: if dead { None } else { Some(fut) }, waker, queued: !dead, done: dead, root, name });
        if !dead {
            self.ready.push_back(id);
        }
        id
    }
    fn drain_wakes(&mut self) {
        let v: Vec<usize> = {
            let mut g = self.wakes.lock().unwrap();
            if g.is_empty() {
                return;
            }
            std::mem::take(&mut *g)
        };
        for id in v {
            let t = &mut self.tasks[id];
            if !t.done && !t.queued {
                t.queued = true;
                self.ready.push_back(id);
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Config {
    pub mode: Mode,
    pub entropy_seed: u64,
    pub overrides: Vec<(usize, u32, u64)>,
    /// one in `stall_rate` polls stalls that party for up to `stall_max` ns (0 = never)
    pub stall_rate: u64,
    pub stall_max: u64,
    pub max_steps: u64,
    pub max_time: u64,
    pub log: bool,
    /// virtual time charged per task poll
    pub step_ns: u64,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            mode: Mode::Replay(vec![]),
            entropy_seed: 1,
            overrides: vec![],
            stall_rate: 0,
            stall_max: 0,
            max_steps: 3_000_000,
            max_time: 3600 * SEC,
            log: false,
            step_ns: 1000,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// every root task finished (or its party crashed)
    Done,
    /// nothing can ever run again, but some root task has not finished
    Deadlock,
    StepLimit,
    TimeLimit,
}

#[derive(Clone, Debug)]
pub struct Report {
    pub end: End,
    pub steps: u64,
    pub time: u64,
    pub choices: Vec<u32>,
    pub choice_hash: u64,
    pub trace: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub panics: Vec<(usize, &'static str, String)>,
    pub log: Vec<String>,
    pub draws: [u32; interpose::MAXP],
    pub unfinished: Vec<(usize, &'static str)>,
}

/// Run one simulation on the current (fresh) thread.
/// `setup` spawns the tasks; `on_quiescent` is called when nothing can run although root tasks are
/// unfinished: it may inject something (closing links for example) and return true to go on.
pub fn run(cfg: Config, setup: impl FnOnce(), mut on_quiescent: impl FnMut(u32) -> bool) -> Report {
    install_hook();
    interpose::activate(cfg.entropy_seed);
    interpose::set_overrides(&cfg.overrides);
    let inner = Inner {
        now: 0,
        tasks: Vec::new(),
        ready: VecDeque::new(),
        wakes: Arc::new(Mutex::new(Vec::new())),
        events: BinaryHeap::new(),
        seq: 0,
        choices: Choices::new(cfg.mode.clone()),
        steps: 0,
        stalled_until: [0; interpose::MAXP],
        stall_rate: cfg.stall_rate,
        stall_max: cfg.stall_max,
        stalls: 0,
        counters: BTreeMap::new(),
        trace: 0,
        log: if cfg.log { Some(Vec::new()) } else { None },
        panics: Vec::new(),
        last_task: None,
        crashed: [false; interpose::MAXP],
        step_ns: cfg.step_ns,
    };
    SIM.with(|s| *s.borrow_mut() = Some(inner));
    QUIET.with(|q| q.set(true));
    setup();
    let mut quiescences = 0;
    let end = loop {
        enum Next {
            Poll(usize, LocalFut, Waker, usize),
            Event(Ev),
            Quiet,
            End(End),
        }
        let next = with(|s| {
            s.drain_wakes();
            if s.steps >= cfg.max_steps {
                return Next::End(End::StepLimit);
            }
            if s.now >= cfg.max_time {
                return Next::End(End::TimeLimit);
            }
            if s.tasks.iter().all(|t| !t.root || t.done) {
                return Next::End(End::Done);
            }
            // events that are due
            if let Some(Reverse(e)) = s.events.peek() {
                if e.at <= s.now {
                    let Reverse(e) = s.events.pop().unwrap();
                    return Next::Event(e.ev);
                }
            }
            let now = s.now;
            let cand: Vec<usize> = (0..s.ready.len())
                .filter(|i| {
                    let t = &s.tasks[s.ready[*i]];
                    !t.done && s.stalled_until[t.party] <= now
                })
                .collect();
            if cand.is_empty() {
                // maybe all stalled: jump to the next stall end or event
                let stall_end = s
                    .ready
                    .iter()
                    .filter(|i| !s.tasks[**i].done)
                    .map(|i| s.stalled_until[s.tasks[*i].party])
                    .min();
                let ev_at = s.events.peek().map(|Reverse(e)| e.at);
                let t = match (stall_end, ev_at) {
                    (None, None) => return Next::Quiet,
                    (Some(a), None) => a,
                    (None, Some(b)) => b,
                    (Some(a), Some(b)) => a.min(b),
                };
                s.now = s.now.max(t);
                interpose::set_now(s.now);
                if let Some(Reverse(e)) = s.events.peek() {
                    if e.at <= s.now {
                        let Reverse(e) = s.events.pop().unwrap();
                        return Next::Event(e.ev);
                    }
                }
                return Next::Event(Ev::Call(Box::new(|| {})));
            }
            let parties: Vec<usize> = cand.iter().map(|i| s.tasks[s.ready[*i]].party).collect();
            let last = s.last_task.and_then(|l| cand.iter().position(|i| s.ready[*i] == l));
            let k = s.choices.pick_task(&parties, last);
            let id = s.ready.remove(cand[k]).unwrap();
            s.last_task = Some(id);
            let party = s.tasks[id].party;
            if s.stall_rate > 0 {
                let (rate, max) = (s.stall_rate, s.stall_max);
                let c = s.choices.choose_biased(5, 1, rate);
                if c > 0 {
                    s.stalls += 1;
                    *s.counters.entry("fault.stall").or_insert(0) += 1;
                    s.stalled_until[party] = s.now + max * (c as u64) / 4;
                    // goes back to the ready list
                    s.ready.push_back(id);
                    return Next::Event(Ev::Call(Box::new(|| {})));
                }
            }
            s.steps += 1;
            s.now += s.step_ns;
            interpose::set_now(s.now);
            let t = &mut s.tasks[id];
            t.queued = false;
            match t.fut.take() {
                Some(f) => Next::Poll(id, f, t.waker.clone(), party),
                None => Next::Event(Ev::Call(Box::new(|| {}))),
            }
        });
        match next {
            Next::End(e) => break e,
            Next::Quiet => {
                quiescences += 1;
                if quiescences > 5000 || !on_quiescent(quiescences) {
                    break End::Deadlock;
                }
            }
            Next::Event(ev) => {
                interpose::set_party(interpose::MAXP - 1);
                match ev {
                    Ev::Wake(w) => w.wake(),
                    Ev::Call(f) => f(),
                }
            }
            Next::Poll(id, mut fut, waker, party) => {
                interpose::set_party(party);
                let mut cx = Context::from_waker(&waker);
                let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
                match r {
                    Ok(Poll::Pending) => {
                        let dead = with(|s| {
                            if s.tasks[id].done {
                                Some(fut)
                            } else {
                                s.tasks[id].fut = Some(fut);
                                None
                            }
                        });
                        drop(dead);
                    }
                    Ok(Poll::Ready(())) => {
                        let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
                        with(|s| s.tasks[id].done = true);
                    }
                    Err(p) => {
                        let msg = panic_text(p);
                        let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
                        with(|s| {
                            s.tasks[id].done = true;
                            let n = s.tasks[id].name;
                            s.panics.push((party, n, msg));
                        });
                    }
                }
                interpose::set_party(interpose::MAXP - 1);
            }
        }
    };
    // tear down: drop all futures while the simulation context still exists
    let futs: Vec<LocalFut> = with(|s| s.tasks.iter_mut().filter_map(|t| t.fut.take()).collect());
    let unfinished = with(|s| s.tasks.iter().filter(|t| t.root && !t.done).map(|t| (t.party, t.name)).collect());
    for f in futs {
        let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
    }
    let evs: Vec<Reverse<Event>> = with(|s| std::mem::take(&mut s.events).into_vec());
    let _ = catch_unwind(AssertUnwindSafe(move || drop(evs)));
    let tasks: Vec<Task> = with(|s| std::mem::take(&mut s.tasks));
    let _ = catch_unwind(AssertUnwindSafe(move || drop(tasks)));
    let inner = SIM.with(|s| s.borrow_mut().take()).unwrap();
    let draws = interpose::draws();
    interpose::deactivate();
    QUIET.with(|q| q.set(false));
    Report {
        end,
        steps: inner.steps,
        time: inner.now,
        choice_hash: inner.choices.hash,
        choices: inner.choices.rec,
        trace: inner.trace,
        counters: inner.counters,
        panics: inner.panics,
        log: inner.log.unwrap_or_default(),
        draws,
        unfinished,
    }
}

fn panic_text(p: Box<dyn Any + Send>) -> String {
    let loc = PANIC_MSG.with(|m| m.borrow_mut().take());
    let t = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    };
    match loc {
        Some(l) => format!("{t} @ {l}"),
        None => t,
    }
}

fn install_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if QUIET.with(|q| q.get()) {
                let l = info.location().map(|l| format!("{}:{}", l.file(), l.line()));
                PANIC_MSG.with(|m| *m.borrow_mut() = l);
            } else {
                old(info)
            }
        }));
    });
}

/// Run a closure on a fresh thread (fresh thread-locals: hash seeds, thread RNGs).
pub fn on_fresh_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

/// A result slot shared between a task and the harness.
pub type Slot<T> = Rc<RefCell<Option<T>>>;
pub fn slot<T>() -> Slot<T> {
    Rc::new(RefCell::new(None))
}

/// Is there a simulation on this thread?
pub fn active() -> bool {
    try_with(|_| ()).is_some()
}
