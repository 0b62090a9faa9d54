//! A simulated disk behind SQLite's own storage interface (its VFS), one per thread: an operating
//! system cache over durable sectors, errors, short and lost writes, a full disk, other processes'
//! locks, and a crash (of the process or of the machine) before any operation.
use rusqlite::ffi::*;
use serde::{Deserialize, Serialize};
use simcore::rng::{mix, Rng64};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::rc::Rc;

pub const SECTOR: usize = 512;
/// operations after which a program counts as never ending
const ENDLESS: u32 = 400_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Op {
    Open,
    Read,
    Write,
    Sync,
    Truncate,
    Delete,
    Lock,
    Size,
    Access,
    Close,
}
impl Op {
    pub fn name(self) -> &'static str {
        match self {
            Op::Open => "open",
            Op::Read => "read",
            Op::Write => "write",
            Op::Sync => "sync",
            Op::Truncate => "truncate",
            Op::Delete => "delete",
            Op::Lock => "lock",
            Op::Size => "size",
            Op::Access => "access",
            Op::Close => "close",
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum How {
    /// the operation has no effect and reports an error
    Error,
    /// write: only this many bytes arrive, then "disk full"
    Short(u32),
    /// sync: reports an error, and what was to be synced is never written
    Lose,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub op: Op,
    /// the how-manieth operation of this kind
    pub nth: u32,
    /// and this many after it
    pub more: u32,
    pub how: How,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Crash {
    /// before this operation (counting all)
    pub at: u32,
    pub power: bool,
    pub seed: u64,
}
pub type Image = BTreeMap<String, Vec<u8>>;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Plan {
    pub image: Image,
    pub faults: Vec<Fault>,
    pub crash: Option<Crash>,
    /// bytes the disk can hold
    pub capacity: Option<u64>,
    /// power fails right after the program ends
    pub power_after: Option<u64>,
    pub log: bool,
}

enum Pend {
    Write(usize, Vec<u8>),
    Truncate(usize),
}
#[derive(Default)]
struct SimFile {
    data: Vec<u8>,
    durable: Vec<u8>,
    pending: Vec<Pend>,
    /// is its directory entry durable?
    entered: bool,
    shared: u32,
    /// a handle holding RESERVED or more, and one holding PENDING or more
    reserved: Option<usize>,
    pending_lock: Option<usize>,
    shm: Vec<Box<[u8]>>,
}
impl SimFile {
    fn write(&mut self, off: usize, b: &[u8]) {
        put(&mut self.data, off, b);
        self.pending.push(Pend::Write(off, b.to_vec()));
    }
    fn flush(&mut self) {
        self.durable = self.data.clone();
        self.pending.clear();
        self.entered = true;
    }
}
fn put(v: &mut Vec<u8>, off: usize, b: &[u8]) {
    if v.len() < off + b.len() {
        v.resize(off + b.len(), 0);
    }
    v[off..off + b.len()].copy_from_slice(b);
}

type FileRef = Rc<RefCell<SimFile>>;
pub struct Disk {
    files: BTreeMap<String, FileRef>,
    plan: Plan,
    pub total: u32,
    pub counts: BTreeMap<Op, u32>,
    pub applied: BTreeMap<String, u32>,
    pub trace: u64,
    pub log: Vec<String>,
    pub sleep_us: u64,
    rnd: Rng64,
    handles: usize,
    /// leave the process at a crash, with this image surviving
    on_crash: Option<Box<dyn FnOnce(&mut Disk, Option<Image>)>>,
}

thread_local! {
    // without a destructor, so that it is there to the very end of the process
    static DISK: RefCell<Option<std::mem::ManuallyDrop<Disk>>> = const { RefCell::new(None) };
}
fn with<R>(f: impl FnOnce(&mut Disk) -> R) -> R {
    DISK.with(|d| f(d.borrow_mut().as_mut().expect("a disk on this thread")))
}

impl Disk {
    pub fn image(&self) -> Image {
        self.files.iter().map(|(k, f)| (k.clone(), f.borrow().data.clone())).collect()
    }
    /// what is on the disk after a power failure
    pub fn after_power_loss(&self, seed: u64) -> Image {
        let mut r = Rng64::new(mix(&[seed, 0xD15C]));
        let mut out = Image::new();
        for (name, f) in &self.files {
            let f = f.borrow();
            if !f.entered && r.chance(1, 2) {
                continue;
            }
            let mut d = f.durable.clone();
            let keep = *r.pick(&[0u64, 2, 5, 8, 10]);
            let prefix = r.chance(1, 3).then(|| r.usize(f.pending.len() + 1));
            for (i, p) in f.pending.iter().enumerate() {
                match p {
                    Pend::Truncate(n) => {
                        if prefix.map_or_else(|| r.chance(keep, 10), |x| i < x) {
                            d.truncate(*n);
                        }
                    }
                    Pend::Write(off, b) => {
                        let mut at = 0;
                        while at < b.len() {
                            let n = (SECTOR - (off + at) % SECTOR).min(b.len() - at);
                            if prefix.map_or_else(|| r.chance(keep, 10), |x| i < x) {
                                put(&mut d, off + at, &b[at..at + n]);
                            }
                            at += n;
                        }
                    }
                }
            }
            out.insert(name.clone(), d);
        }
        out
    }
    pub fn power_after(&self) -> Option<u64> {
        self.plan.power_after
    }
    fn used(&self) -> u64 {
        self.files.values().map(|f| f.borrow().data.len() as u64).sum()
    }
    /// Every operation passes here first: crash, or an injected fault.
    fn enter(&mut self, op: Op, what: &str, a: u64, b: u64) -> Option<How> {
        self.total += 1;
        let n = self.counts.entry(op).or_insert(0);
        let k = *n;
        *n += 1;
        self.trace = mix(&[self.trace, op as u64, a, b]);
        if self.plan.log {
            self.log.push(format!("{} {} {what} {a} {b}", self.total - 1, op.name()));
        }
        if let Some(c) = self.plan.crash {
            if self.total - 1 == c.at {
                *self.applied.entry(if c.power { "fault.power_failure" } else { "fault.process_killed" }.into()).or_insert(0) += 1;
                return Some(How::Error);
            }
        }
        if self.total > ENDLESS {
            self.plan.crash = Some(Crash { at: self.total - 1, power: false, seed: 0 });
            self.applied.insert("endless".into(), 1);
            return Some(How::Error);
        }
        let f = self.plan.faults.iter().find(|f| f.op == op && k >= f.nth && k - f.nth <= f.more)?;
        let how = f.how;
        *self.applied.entry(format!("fault.{}_{}", op.name(), match how { How::Error => "error", How::Short(_) => "short", How::Lose => "lost" })).or_insert(0) += 1;
        if self.plan.log {
            self.log.push(format!("  -> FAULT {how:?}"));
        }
        Some(how)
    }
    fn crashing(&self) -> bool {
        self.plan.crash.is_some_and(|c| c.at == self.total - 1)
    }
    fn die(&mut self) -> ! {
        let c = self.plan.crash.unwrap();
        let img = if c.power { self.after_power_loss(c.seed) } else { self.image() };
        let endless = self.applied.contains_key("endless");
        let f = self.on_crash.take().expect("a crash needs a process of its own");
        f(self, (!endless).then_some(img));
        unreachable!()
    }
}

/// Put a disk under this thread.
pub fn mount(plan: Plan, on_crash: Option<Box<dyn FnOnce(&mut Disk, Option<Image>)>>) {
    register();
    let files = plan
        .image
        .iter()
        .map(|(k, v)| (k.clone(), Rc::new(RefCell::new(SimFile { data: v.clone(), durable: v.clone(), entered: true, ..Default::default() }))))
        .collect();
    let rnd = Rng64::new(mix(&[plan.image.len() as u64, 0x5E]));
    DISK.with(|d| {
        *d.borrow_mut() =
            Some(std::mem::ManuallyDrop::new(Disk { files, plan, total: 0, counts: Default::default(), applied: Default::default(), trace: 0, log: vec![], sleep_us: 0, rnd, handles: 0, on_crash }))
    });
    // SQLite's own generator starts afresh
    unsafe { sqlite3_randomness(0, std::ptr::null_mut()) };
}
pub fn unmount() -> Disk {
    std::mem::ManuallyDrop::into_inner(DISK.with(|d| d.borrow_mut().take()).expect("mounted"))
}

#[repr(C)]
struct Handle {
    base: sqlite3_file,
    inner: *mut Inner,
}
struct Inner {
    file: FileRef,
    name: String,
    id: usize,
    level: c_int,
    delete: bool,
}
unsafe fn inner<'a>(f: *mut sqlite3_file) -> &'a mut Inner {
    &mut *(*(f as *mut Handle)).inner
}
unsafe fn text(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
macro_rules! enter {
    ($op:expr, $what:expr, $a:expr, $b:expr) => {{
        let h = with(|d| d.enter($op, $what, $a as u64, $b as u64));
        if with(|d| d.crashing()) {
            with(|d| d.die());
        }
        h
    }};
}

unsafe extern "C" fn x_open(_: *mut sqlite3_vfs, name: sqlite3_filename, f: *mut sqlite3_file, flags: c_int, out: *mut c_int) -> c_int {
    (*f).pMethods = std::ptr::null();
    let n = if name.is_null() { format!("temp-{}", with(|d| d.handles)) } else { text(name) };
    if enter!(Op::Open, &n, flags, 0).is_some() {
        return SQLITE_CANTOPEN;
    }
    let file = with(|d| {
        d.handles += 1;
        match d.files.get(&n) {
            Some(_) if flags & SQLITE_OPEN_EXCLUSIVE != 0 && flags & SQLITE_OPEN_CREATE != 0 => None,
            Some(f) => Some(f.clone()),
            None if flags & SQLITE_OPEN_CREATE != 0 || name.is_null() => {
                let f = FileRef::default();
                d.files.insert(n.clone(), f.clone());
                Some(f)
            }
            None => None,
        }
    });
    let Some(file) = file else { return SQLITE_CANTOPEN };
    let id = with(|d| d.handles);
    let i = Inner { file, name: n, id, level: SQLITE_LOCK_NONE, delete: flags & SQLITE_OPEN_DELETEONCLOSE != 0 || name.is_null() };
    (*(f as *mut Handle)).inner = Box::into_raw(Box::new(i));
    (*f).pMethods = &METHODS.0;
    if !out.is_null() {
        *out = flags;
    }
    SQLITE_OK
}
unsafe extern "C" fn x_close(f: *mut sqlite3_file) -> c_int {
    let h = f as *mut Handle;
    let _ = enter!(Op::Close, &inner(f).name, 0, 0);
    x_unlock(f, SQLITE_LOCK_NONE);
    let i = Box::from_raw((*h).inner);
    if i.delete {
        with(|d| d.files.remove(&i.name));
    }
    (*f).pMethods = std::ptr::null();
    SQLITE_OK
}
unsafe extern "C" fn x_read(f: *mut sqlite3_file, buf: *mut c_void, n: c_int, off: sqlite3_int64) -> c_int {
    let i = inner(f);
    if enter!(Op::Read, &i.name, off, n).is_some() {
        return SQLITE_IOERR_READ;
    }
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n as usize);
    let d = &i.file.borrow().data;
    let off = off as usize;
    let have = d.len().saturating_sub(off).min(out.len());
    out[..have].copy_from_slice(&d[off.min(d.len())..off.min(d.len()) + have]);
    out[have..].fill(0);
    if have < out.len() {
        SQLITE_IOERR_SHORT_READ
    } else {
        SQLITE_OK
    }
}
unsafe extern "C" fn x_write(f: *mut sqlite3_file, buf: *const c_void, n: c_int, off: sqlite3_int64) -> c_int {
    let i = inner(f);
    let b = std::slice::from_raw_parts(buf as *const u8, n as usize);
    let off = off as usize;
    let h = with(|d| d.enter(Op::Write, &i.name, off as u64, n as u64));
    if with(|d| d.crashing()) {
        // part of what was being written had reached the cache
        let part = with(|d| d.rnd.usize(b.len() / SECTOR + 1) * SECTOR).min(b.len());
        i.file.borrow_mut().write(off, &b[..part]);
        with(|d| d.die());
    }
    match h {
        Some(How::Short(k)) => {
            i.file.borrow_mut().write(off, &b[..b.len().min(k as usize)]);
            return SQLITE_FULL;
        }
        Some(_) => return SQLITE_IOERR_WRITE,
        None => {}
    }
    let grow = (off + b.len()).saturating_sub(i.file.borrow().data.len()) as u64;
    let room = with(|d| d.plan.capacity.map(|c| c.saturating_sub(d.used())));
    if room.is_some_and(|r| grow > r) {
        with(|d| *d.applied.entry("fault.disk_full".into()).or_insert(0) += 1);
        let fits = b.len() - (grow - room.unwrap()).min(b.len() as u64) as usize;
        i.file.borrow_mut().write(off, &b[..fits]);
        return SQLITE_FULL;
    }
    i.file.borrow_mut().write(off, b);
    SQLITE_OK
}
unsafe extern "C" fn x_truncate(f: *mut sqlite3_file, n: sqlite3_int64) -> c_int {
    let i = inner(f);
    if enter!(Op::Truncate, &i.name, n, 0).is_some() {
        return SQLITE_IOERR_TRUNCATE;
    }
    let mut s = i.file.borrow_mut();
    s.data.truncate(n as usize);
    s.pending.push(Pend::Truncate(n as usize));
    SQLITE_OK
}
unsafe extern "C" fn x_sync(f: *mut sqlite3_file, flags: c_int) -> c_int {
    let i = inner(f);
    match enter!(Op::Sync, &i.name, flags, 0) {
        Some(How::Lose) => {
            i.file.borrow_mut().pending.clear();
            return SQLITE_IOERR_FSYNC;
        }
        Some(_) => return SQLITE_IOERR_FSYNC,
        None => {}
    }
    i.file.borrow_mut().flush();
    SQLITE_OK
}
unsafe extern "C" fn x_size(f: *mut sqlite3_file, out: *mut sqlite3_int64) -> c_int {
    let i = inner(f);
    if enter!(Op::Size, &i.name, 0, 0).is_some() {
        return SQLITE_IOERR_FSTAT;
    }
    *out = i.file.borrow().data.len() as i64;
    SQLITE_OK
}
unsafe extern "C" fn x_lock(f: *mut sqlite3_file, level: c_int) -> c_int {
    let i = inner(f);
    if i.level >= level {
        return SQLITE_OK;
    }
    // another process holds the lock
    if enter!(Op::Lock, &i.name, level, 0).is_some() {
        return SQLITE_BUSY;
    }
    let mut s = i.file.borrow_mut();
    let other = |h: Option<usize>| h.is_some_and(|h| h != i.id);
    match level {
        SQLITE_LOCK_SHARED => {
            if other(s.pending_lock) {
                return SQLITE_BUSY;
            }
            s.shared += 1;
        }
        SQLITE_LOCK_RESERVED => {
            if other(s.reserved) {
                return SQLITE_BUSY;
            }
            s.reserved = Some(i.id);
        }
        _ => {
            if other(s.pending_lock) || other(s.reserved) {
                return SQLITE_BUSY;
            }
            s.pending_lock = Some(i.id);
            s.reserved = Some(i.id);
            if s.shared > 1 {
                i.level = SQLITE_LOCK_PENDING;
                return SQLITE_BUSY;
            }
        }
    }
    i.level = level;
    SQLITE_OK
}
unsafe extern "C" fn x_unlock(f: *mut sqlite3_file, level: c_int) -> c_int {
    let i = inner(f);
    if i.level <= level {
        return SQLITE_OK;
    }
    let mut s = i.file.borrow_mut();
    if s.reserved == Some(i.id) {
        s.reserved = None;
    }
    if s.pending_lock == Some(i.id) {
        s.pending_lock = None;
    }
    if level == SQLITE_LOCK_NONE && i.level >= SQLITE_LOCK_SHARED {
        s.shared -= 1;
    }
    i.level = level;
    SQLITE_OK
}
unsafe extern "C" fn x_reserved(f: *mut sqlite3_file, out: *mut c_int) -> c_int {
    *out = inner(f).file.borrow().reserved.is_some() as c_int;
    SQLITE_OK
}
unsafe extern "C" fn x_control(_: *mut sqlite3_file, _: c_int, _: *mut c_void) -> c_int {
    SQLITE_NOTFOUND
}
unsafe extern "C" fn x_sector(_: *mut sqlite3_file) -> c_int {
    SECTOR as c_int
}
unsafe extern "C" fn x_device(_: *mut sqlite3_file) -> c_int {
    0
}
unsafe extern "C" fn x_shm_map(f: *mut sqlite3_file, region: c_int, size: c_int, _extend: c_int, out: *mut *mut c_void) -> c_int {
    let mut s = inner(f).file.borrow_mut();
    while s.shm.len() <= region as usize {
        s.shm.push(vec![0u8; size as usize].into_boxed_slice());
    }
    *out = s.shm[region as usize].as_mut_ptr() as *mut c_void;
    SQLITE_OK
}
unsafe extern "C" fn x_shm_lock(_: *mut sqlite3_file, _: c_int, _: c_int, _: c_int) -> c_int {
    SQLITE_OK
}
unsafe extern "C" fn x_shm_barrier(_: *mut sqlite3_file) {}
unsafe extern "C" fn x_shm_unmap(_: *mut sqlite3_file, _: c_int) -> c_int {
    SQLITE_OK
}
unsafe extern "C" fn x_delete(_: *mut sqlite3_vfs, name: *const c_char, _sync: c_int) -> c_int {
    let n = text(name);
    if enter!(Op::Delete, &n, 0, 0).is_some() {
        return SQLITE_IOERR_DELETE;
    }
    match with(|d| d.files.remove(&n)) {
        Some(_) => SQLITE_OK,
        None => SQLITE_IOERR_DELETE_NOENT,
    }
}
unsafe extern "C" fn x_access(_: *mut sqlite3_vfs, name: *const c_char, flags: c_int, out: *mut c_int) -> c_int {
    let n = text(name);
    if enter!(Op::Access, &n, flags, 0).is_some() {
        return SQLITE_IOERR_ACCESS;
    }
    // as SQLite's unix VFS: an empty file does not exist
    *out = with(|d| d.files.get(&n).is_some_and(|f| flags != SQLITE_ACCESS_EXISTS || !f.borrow().data.is_empty())) as c_int;
    SQLITE_OK
}
unsafe extern "C" fn x_full(_: *mut sqlite3_vfs, name: *const c_char, n: c_int, out: *mut c_char) -> c_int {
    let mut s = text(name);
    if !s.starts_with('/') {
        s = format!("/simdisk/{s}");
    }
    if s.len() + 1 > n as usize {
        return SQLITE_CANTOPEN;
    }
    std::ptr::copy_nonoverlapping(s.as_ptr(), out as *mut u8, s.len());
    *out.add(s.len()) = 0;
    SQLITE_OK
}
unsafe extern "C" fn x_random(_: *mut sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    let b = std::slice::from_raw_parts_mut(out as *mut u8, n as usize);
    with(|d| d.rnd.fill(b));
    n
}
unsafe extern "C" fn x_sleep(_: *mut sqlite3_vfs, us: c_int) -> c_int {
    with(|d| d.sleep_us += us as u64);
    us
}
unsafe extern "C" fn x_time(_: *mut sqlite3_vfs, out: *mut f64) -> c_int {
    let mut t = 0i64;
    x_time64(std::ptr::null_mut(), &mut t);
    *out = t as f64 / 86_400_000.0;
    SQLITE_OK
}
unsafe extern "C" fn x_time64(_: *mut sqlite3_vfs, out: *mut sqlite3_int64) -> c_int {
    // milliseconds since noon, 24 November 4714 B.C.
    let us = with(|d| d.sleep_us + d.total as u64);
    *out = 210_866_760_000_000 + 1_709_251_200_000 + (us / 1000) as i64;
    SQLITE_OK
}
unsafe extern "C" fn x_last(_: *mut sqlite3_vfs, _: c_int, _: *mut c_char) -> c_int {
    0
}

struct Methods(sqlite3_io_methods);
unsafe impl Sync for Methods {}
static METHODS: Methods = Methods(sqlite3_io_methods {
    iVersion: 2,
    xClose: Some(x_close),
    xRead: Some(x_read),
    xWrite: Some(x_write),
    xTruncate: Some(x_truncate),
    xSync: Some(x_sync),
    xFileSize: Some(x_size),
    xLock: Some(x_lock),
    xUnlock: Some(x_unlock),
    xCheckReservedLock: Some(x_reserved),
    xFileControl: Some(x_control),
    xSectorSize: Some(x_sector),
    xDeviceCharacteristics: Some(x_device),
    xShmMap: Some(x_shm_map),
    xShmLock: Some(x_shm_lock),
    xShmBarrier: Some(x_shm_barrier),
    xShmUnmap: Some(x_shm_unmap),
    xFetch: None,
    xUnfetch: None,
});

fn register() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let v = Box::new(sqlite3_vfs {
            iVersion: 2,
            szOsFile: std::mem::size_of::<Handle>() as c_int,
            mxPathname: 512,
            pNext: std::ptr::null_mut(),
            zName: c"sim".as_ptr(),
            pAppData: std::ptr::null_mut(),
            xOpen: Some(x_open),
            xDelete: Some(x_delete),
            xAccess: Some(x_access),
            xFullPathname: Some(x_full),
            xDlOpen: None,
            xDlError: None,
            xDlSym: None,
            xDlClose: None,
            xRandomness: Some(x_random),
            xSleep: Some(x_sleep),
            xCurrentTime: Some(x_time),
            xGetLastError: Some(x_last),
            xCurrentTimeInt64: Some(x_time64),
            xSetSystemCall: None,
            xGetSystemCall: None,
            xNextSystemCall: None,
        });
        let rc = unsafe { sqlite3_vfs_register(Box::into_raw(v), 1) };
        assert_eq!(rc, SQLITE_OK, "register the simulated disk");
    });
}
