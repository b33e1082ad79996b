//! The process's clocks under the explorer's control: this binary's `clock_gettime` comes before libc's. Off (the real clocks) except
//! in the processes that explore time, see checks/times.rs.
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};

static REAL: AtomicUsize = AtomicUsize::new(0);
/// 0: off
static FACTOR: AtomicU64 = AtomicU64::new(0);
static FROZEN: AtomicU64 = AtomicU64::new(0);
/// per clock (0 wall, 1 monotonic): the real reading from which the factor applies, and the reading given then
static BASE: [AtomicI64; 2] = [AtomicI64::new(0), AtomicI64::new(0)];
static AT: [AtomicI64; 2] = [AtomicI64::new(0), AtomicI64::new(0)];

type F = unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> libc::c_int;

unsafe fn real() -> F {
    let mut p = REAL.load(SeqCst);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, b"clock_gettime\0".as_ptr() as *const _) as usize;
        REAL.store(p, SeqCst);
    }
    std::mem::transmute::<usize, F>(p)
}

fn which(id: libc::clockid_t) -> Option<usize> {
    match id {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => Some(0),
        libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_BOOTTIME => Some(1),
        _ => None,
    }
}

/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = real()(id, ts);
    let f = FACTOR.load(SeqCst);
    if r == 0 && (f != 0 || FROZEN.load(SeqCst) != 0) {
        if let Some(k) = which(id) {
            let now = (*ts).tv_sec as i64 * 1_000_000_000 + (*ts).tv_nsec as i64;
            let v = AT[k].load(SeqCst) + if FROZEN.load(SeqCst) != 0 { 0 } else { (now - BASE[k].load(SeqCst)) * f as i64 };
            (*ts).tv_sec = v.div_euclid(1_000_000_000) as _;
            (*ts).tv_nsec = v.rem_euclid(1_000_000_000) as _;
        }
    }
    r
}

fn read(id: libc::clockid_t, real_one: bool) -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        if real_one {
            real()(id, &mut ts);
        } else {
            clock_gettime(id, &mut ts);
        }
    }
    ts.tv_sec as i64 * 1_000_000_000 + ts.tv_nsec as i64
}

const IDS: [libc::clockid_t; 2] = [libc::CLOCK_REALTIME, libc::CLOCK_MONOTONIC];

/// from now on both clocks run this many times as fast (0: they stand still)
pub fn rate(f: u64) {
    let now = [read(IDS[0], false), read(IDS[1], false)];
    for k in 0..2 {
        BASE[k].store(read(IDS[k], true), SeqCst);
        AT[k].store(now[k], SeqCst);
    }
    FROZEN.store((f == 0) as u64, SeqCst);
    FACTOR.store(f, SeqCst);
}

/// set the wall clock, in seconds since 1970; the monotonic clock goes on as before
pub fn set_wall(ns: i64) {
    if FACTOR.load(SeqCst) == 0 && FROZEN.load(SeqCst) == 0 {
        rate(1);
    }
    BASE[0].store(read(IDS[0], true), SeqCst);
    AT[0].store(ns, SeqCst);
}

pub fn wall() -> i64 {
    read(IDS[0], false)
}
