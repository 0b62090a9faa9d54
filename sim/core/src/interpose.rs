//! Process-level seams: the clock and the entropy source of the *whole* process (std, getrandom,
//! ring, ...) are replaced by the simulator's, per thread, while a simulation is active on that
//! thread. Threads without an active simulation get the real system calls.
use std::cell::Cell;

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<u64> = const { Cell::new(0) };
    static ENT_SEED: Cell<u64> = const { Cell::new(0) };
    static PARTY: Cell<usize> = const { Cell::new(MAXP - 1) };
    static DRAWS: Cell<[u32; MAXP]> = const { Cell::new([0; MAXP]) };
    /// (party, draw, variant): overrides one single draw of one party; with FROM set in the draw,
    /// every draw from that one on
    static OVR: Cell<[(usize, u32, u64); NOVR]> = const { Cell::new([(usize::MAX, 0, 0); NOVR]) };
    static ENT_BYTES: Cell<u64> = const { Cell::new(0) };
}
pub const MAXP: usize = 16;
pub const NOVR: usize = 48;
pub const FROM: u32 = 1 << 31;
/// simulated wall clock at simulated time 0 (2024-03-01)
pub const EPOCH_SECS: u64 = 1_709_251_200;
/// simulated monotonic clock at simulated time 0
pub const MONO_BASE: u64 = 1_000_000;

pub fn activate(seed: u64) {
    ENT_SEED.with(|c| c.set(seed));
    DRAWS.with(|c| c.set([0; MAXP]));
    OVR.with(|c| c.set([(usize::MAX, 0, 0); NOVR]));
    NOW.with(|c| c.set(0));
    PARTY.with(|c| c.set(MAXP - 1));
    ENT_BYTES.with(|c| c.set(0));
    ACTIVE.with(|c| c.set(true));
}
pub fn deactivate() {
    ACTIVE.with(|c| c.set(false));
}
pub fn set_now(ns: u64) {
    NOW.with(|c| c.set(ns));
}
pub fn set_party(p: usize) {
    PARTY.with(|c| c.set(p.min(MAXP - 1)));
}
pub fn party() -> usize {
    PARTY.with(|c| c.get())
}
pub fn set_overrides(o: &[(usize, u32, u64)]) {
    let mut a = [(usize::MAX, 0, 0); NOVR];
    for (d, s) in a.iter_mut().zip(o) {
        *d = *s;
    }
    OVR.with(|c| c.set(a));
}
pub fn draws() -> [u32; MAXP] {
    DRAWS.with(|c| c.get())
}
pub fn entropy_bytes() -> u64 {
    ENT_BYTES.with(|c| c.get())
}

/// Real wall clock (for budgets), never the simulated one.
pub fn real_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw_syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0, 0, 0, 0) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        unsafe { *libc::__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}

unsafe fn sim_random(buf: *mut u8, len: usize) {
    let p = PARTY.with(|c| c.get());
    let mut d = DRAWS.with(|c| c.get());
    let draw = d[p];
    d[p] += 1;
    DRAWS.with(|c| c.set(d));
    ENT_BYTES.with(|c| c.set(c.get() + len as u64));
    let mut variant = 0;
    for o in OVR.with(|c| c.get()) {
        if o.0 == p && (o.1 == draw || (o.1 & FROM != 0 && draw >= o.1 & !FROM)) {
            variant = o.2;
        }
    }
    let mut r = crate::rng::Rng64::new(crate::rng::mix(&[ENT_SEED.with(|c| c.get()), p as u64, draw as u64, variant]));
    r.fill(std::slice::from_raw_parts_mut(buf, len));
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if ACTIVE.try_with(|c| c.get()).unwrap_or(false) {
        let now = NOW.with(|c| c.get());
        let (s, n) = if id == libc::CLOCK_REALTIME {
            (EPOCH_SECS + now / 1_000_000_000, now % 1_000_000_000)
        } else {
            (MONO_BASE + now / 1_000_000_000, now % 1_000_000_000)
        };
        (*ts).tv_sec = s as i64;
        (*ts).tv_nsec = n as i64;
        0
    } else {
        ret(raw_syscall(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as i32
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if ACTIVE.try_with(|c| c.get()).unwrap_or(false) {
        if len > 0 {
            sim_random(buf, len);
        }
        len as isize
    } else {
        ret(raw_syscall(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
    }
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    if getrandom(buf, len, 0) == len as isize {
        0
    } else {
        -1
    }
}

/// libc's variadic `syscall`: with the C calling convention of x86-64 the arguments are in the same
/// registers as for a fixed seven-argument function.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom && ACTIVE.try_with(|c| c.get()).unwrap_or(false) {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}

/// The transport probes the kernel for UDP segmentation offload; inside a simulation it is absent,
/// so that the packet sequence does not depend on the host's kernel.
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, name: i32, val: *const libc::c_void, len: u32) -> i32 {
    if ACTIVE.try_with(|c| c.get()).unwrap_or(false) && level == libc::SOL_UDP {
        *libc::__errno_location() = libc::ENOPROTOOPT;
        return -1;
    }
    ret(raw_syscall(libc::SYS_setsockopt, fd as i64, level as i64, name as i64, val as i64, len as i64, 0)) as i32
}
