//! A simulated byte-stream transport: short and empty-handed reads and writes, delays, limited
//! capacity, and faults at chosen byte offsets.
use serde::{Deserialize, Serialize};
use simcore::exec::{self, US};
use simcore::rng::Rng64;
use std::collections::{BTreeMap, VecDeque};
use std::io::{self, ErrorKind};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PipeCfg {
    /// bytes in flight before writes have to wait
    pub cap: usize,
    /// per 1000: polls that return nothing yet, reads and writes that are cut short
    pub pending: u64,
    pub short: u64,
    /// largest short piece
    pub piece: u32,
    pub delay_us: u64,
    pub jitter_us: u64,
}
impl PipeCfg {
    pub fn calm() -> Self {
        PipeCfg { cap: usize::MAX, pending: 0, short: 0, piece: 1, delay_us: 0, jitter_us: 0 }
    }
    /// `total`: about the number of bytes that will pass
    pub fn gen(r: &mut Rng64, total: u64) -> Self {
        let mut c = PipeCfg::calm();
        c.delay_us = *r.pick(&[0, 0, 50, 2000]);
        c.jitter_us = *r.pick(&[0, 0, 30, 5000]);
        c.pending = *r.pick(&[0, 0, 50, 300, 600]);
        c.short = *r.pick(&[0, 50, 500, 1000]);
        c.piece = *r.pick(&[1, 3, 17, 1000, 9000]).max(&((total / 400) as u32));
        c.cap = *r.pick(&[usize::MAX, usize::MAX, 1, 7, 100, 5000, 70_000]);
        if c.cap < (total / 400) as usize {
            c.cap = (total / 400) as usize;
        }
        c
    }
    pub fn shrink(&self) -> Vec<PipeCfg> {
        let mut v = vec![];
        if *self != PipeCfg::calm() {
            v.push(PipeCfg::calm());
        }
        for k in 0..4 {
            let mut c = self.clone();
            match k {
                0 => c.cap = usize::MAX,
                1 => c.pending = 0,
                2 => c.short = 0,
                _ => (c.delay_us, c.jitter_us) = (0, 0),
            }
            if c != *self {
                v.push(c);
            }
        }
        v
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Broken {
    Eof,
    Reset,
    TimedOut,
    Aborted,
}
impl Broken {
    fn kind(self) -> ErrorKind {
        match self {
            Broken::Eof => ErrorKind::UnexpectedEof,
            Broken::Reset => ErrorKind::ConnectionReset,
            Broken::TimedOut => ErrorKind::TimedOut,
            Broken::Aborted => ErrorKind::ConnectionAborted,
        }
    }
}
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Faults {
    /// the reader sees the stream end or fail after this many bytes
    pub read_end: Option<(u64, Broken)>,
    /// the transport refuses everything after this many bytes
    pub write_end: Option<(u64, Broken)>,
    /// flipped bits: offset, bit
    pub flips: Vec<(u64, u8)>,
    pub shutdown_fails: bool,
}

#[derive(Default)]
struct Dir {
    q: VecDeque<(u64, Vec<u8>)>,
    flying: usize,
    accepted: u64,
    delivered: u64,
    last: u64,
    closed: Option<u64>,
    reader_gone: bool,
    rw: Option<Waker>,
    ww: Option<Waker>,
}
struct Shared {
    d: Mutex<Dir>,
    cfg: PipeCfg,
    faults: Faults,
    flips: BTreeMap<u64, u8>,
}
pub struct Reader(Arc<Shared>);
pub struct Writer(Arc<Shared>);

pub fn pipe(cfg: &PipeCfg, faults: &Faults) -> (Writer, Reader) {
    let mut flips = BTreeMap::new();
    for (o, b) in &faults.flips {
        *flips.entry(*o).or_insert(0) ^= 1 << (b % 8);
    }
    let s = Arc::new(Shared { d: Mutex::new(Dir::default()), cfg: cfg.clone(), faults: faults.clone(), flips });
    (Writer(s.clone()), Reader(s))
}

impl Shared {
    fn idle(&self, cx: &mut Context<'_>) -> bool {
        if self.cfg.pending > 0 && exec::choose_biased(2, self.cfg.pending, 1000) == 1 {
            exec::count("fault.transport_not_ready");
            exec::wake_at(exec::now() + exec::choose(4) as u64 * 20 * US, cx.waker().clone());
            return true;
        }
        false
    }
    fn piece(&self, n: usize) -> usize {
        if n > 1 && self.cfg.short > 0 && exec::choose_biased(2, self.cfg.short, 1000) == 1 {
            exec::count("fault.short_read_or_write");
            return 1 + exec::choose((n - 1).min(self.cfg.piece as usize) as u32) as usize;
        }
        n
    }
}
impl Writer {
    pub fn accepted(&self) -> u64 {
        self.0.d.lock().unwrap().accepted
    }
}

impl AsyncWrite for Writer {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let s = &self.0;
        if s.idle(cx) {
            return Poll::Pending;
        }
        let mut d = s.d.lock().unwrap();
        if d.reader_gone || d.closed.is_some() {
            return Poll::Ready(Err(ErrorKind::BrokenPipe.into()));
        }
        let mut n = buf.len();
        if let Some((k, b)) = s.faults.write_end {
            n = n.min((k - d.accepted) as usize);
            if n == 0 && !buf.is_empty() {
                exec::count("fault.write_error");
                return Poll::Ready(Err(b.kind().into()));
            }
        }
        if d.flying >= s.cfg.cap {
            d.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        n = s.piece(n.min(s.cfg.cap - d.flying));
        d.flying += n;
        d.accepted += n as u64;
        let mut at = exec::now() + s.cfg.delay_us * US;
        if s.cfg.jitter_us > 0 {
            at += exec::choose(4) as u64 * s.cfg.jitter_us * US / 3;
        }
        d.last = d.last.max(at);
        let at = d.last;
        d.q.push_back((at, buf[..n].to_vec()));
        drop(d);
        self.0.wake_reader(at);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.0.idle(cx) {
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.0.idle(cx) {
            return Poll::Pending;
        }
        if self.0.faults.shutdown_fails {
            exec::count("fault.shutdown_error");
            return Poll::Ready(Err(ErrorKind::ConnectionReset.into()));
        }
        self.0.close();
        Poll::Ready(Ok(()))
    }
}
impl Shared {
    fn wake_reader(self: &Arc<Self>, at: u64) {
        let me = self.clone();
        let wake = move || {
            let w = me.d.lock().unwrap().rw.take();
            if let Some(w) = w {
                w.wake()
            }
        };
        if at <= exec::now() {
            wake()
        } else {
            exec::at(at, wake)
        }
    }
    fn close(self: &Arc<Self>) {
        let mut d = self.d.lock().unwrap();
        if d.closed.is_none() {
            let at = d.last.max(if exec::active() { exec::now() } else { 0 });
            d.closed = Some(at);
            drop(d);
            if exec::active() {
                self.wake_reader(at);
            }
        }
    }
}
impl Drop for Writer {
    fn drop(&mut self) {
        self.0.close();
    }
}
impl Drop for Reader {
    fn drop(&mut self) {
        let mut d = self.0.d.lock().unwrap();
        d.reader_gone = true;
        let w = d.ww.take();
        drop(d);
        if let Some(w) = w {
            w.wake()
        }
    }
}

impl AsyncRead for Reader {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let s = &self.0;
        if s.idle(cx) {
            return Poll::Pending;
        }
        let mut d = s.d.lock().unwrap();
        let mut room = buf.remaining() as u64;
        if let Some((k, b)) = s.faults.read_end {
            room = room.min(k - d.delivered);
            if room == 0 {
                return Poll::Ready(match b {
                    Broken::Eof => {
                        exec::count("fault.stream_ends");
                        Ok(())
                    }
                    _ => {
                        exec::count("fault.read_error");
                        Err(b.kind().into())
                    }
                });
            }
        }
        let now = exec::now();
        let ready: usize = d.q.iter().take_while(|c| c.0 <= now).map(|c| c.1.len()).sum();
        if ready == 0 {
            if d.q.is_empty() && d.closed.is_some_and(|t| t <= now) {
                return Poll::Ready(Ok(()));
            }
            d.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = s.piece(ready.min(room as usize));
        d.flying -= n;
        while n > 0 {
            let (at, mut c) = d.q.pop_front().unwrap();
            let k = n.min(c.len());
            for (o, mask) in s.flips.range(d.delivered..d.delivered + k as u64) {
                exec::count("fault.byte_corrupted");
                c[(o - d.delivered) as usize] ^= mask;
            }
            buf.put_slice(&c[..k]);
            d.delivered += k as u64;
            n -= k;
            if k < c.len() {
                // flips of the rest are applied when the rest is read
                let rest = c.split_off(k);
                d.q.push_front((at, rest));
            }
        }
        let w = d.ww.take();
        drop(d);
        if let Some(w) = w {
            w.wake()
        }
        Poll::Ready(Ok(()))
    }
}
