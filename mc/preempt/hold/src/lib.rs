//! What the instrumented code calls at the start of every basic block: counts the points of the library's own code that the threads of
//! the server pass, and holds a thread at the one asked for.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};

thread_local! {
    static SERVES: Cell<bool> = const { Cell::new(false) };
}

/// this thread runs the server
pub fn serve() {
    let _ = SERVES.try_with(|s| s.set(true));
}

static ON: AtomicBool = AtomicBool::new(false);
static PASSED: AtomicU64 = AtomicU64::new(0);
/// hold the thread that passes with this many passed before it
static ARMED: AtomicU64 = AtomicU64::new(u64::MAX);
/// how many are held or were
static HELD: AtomicU64 = AtomicU64::new(0);
static AT: AtomicU64 = AtomicU64::new(0);
/// how many of them may go on, and whether all of them may
static FREE: Mutex<(u64, bool)> = Mutex::new((0, true));
static WAKE: Condvar = Condvar::new();

pub fn arm(at: Option<u64>) {
    *FREE.lock().unwrap_or_else(|e| e.into_inner()) = (0, false);
    HELD.store(0, SeqCst);
    PASSED.store(0, SeqCst);
    ARMED.store(at.unwrap_or(u64::MAX), SeqCst);
    ON.store(true, SeqCst);
}

/// another one, counted from here
pub fn again(at: u64) {
    PASSED.store(0, SeqCst);
    ARMED.store(at, SeqCst);
}

/// from here on nothing is held; says how many points were passed
pub fn disarm() -> u64 {
    ON.store(false, SeqCst);
    ARMED.store(u64::MAX, SeqCst);
    PASSED.load(SeqCst)
}

pub fn passed() -> u64 {
    PASSED.load(SeqCst)
}

pub fn held() -> u64 {
    HELD.load(SeqCst)
}

/// the function in which the thread was held
pub fn at() -> &'static str {
    let pc = AT.load(SeqCst) as usize;
    match map().funcs.iter().rev().find(|f| f.0 <= pc) {
        Some(f) => &f.2,
        None => "",
    }
}

/// all of them
pub fn free() {
    FREE.lock().unwrap_or_else(|e| e.into_inner()).1 = true;
    WAKE.notify_all();
}

/// the next in the order in which they were held
pub fn free_one() {
    FREE.lock().unwrap_or_else(|e| e.into_inner()).0 += 1;
    WAKE.notify_all();
}

struct Map {
    /// start, end, name of the library's functions
    funcs: Vec<(usize, usize, String)>,
    /// static memory that can be written
    data: Vec<(usize, usize)>,
}

static MAP: std::sync::OnceLock<Map> = std::sync::OnceLock::new();

fn map() -> &'static Map {
    MAP.get_or_init(load)
}

/// how many functions of the library are in this program
pub fn functions() -> usize {
    map().funcs.len()
}

/// the crate a symbol (v0 mangling, or the older one) is defined in is this one
fn of_library(s: &str) -> bool {
    if s.starts_with("_ZN") {
        return s.starts_with("_ZN8obsidian") || s.contains("$LT$obsidian..");
    }
    if !s.starts_with("_R") {
        return false;
    }
    let b = s.as_bytes();
    for i in 2..b.len() {
        if b[i] != b'C' {
            continue;
        }
        // C [s <base-62> _] <length> <name>
        let mut j = i + 1;
        if b.get(j) == Some(&b's') {
            j += 1;
            while b.get(j).map_or(false, |c| c.is_ascii_alphanumeric()) {
                j += 1;
            }
            if b.get(j) != Some(&b'_') {
                continue;
            }
            j += 1;
        }
        if b.get(j).map_or(false, |c| c.is_ascii_digit()) {
            return s[j..].starts_with("8obsidian");
        }
    }
    false
}

fn load() -> Map {
    let mut m = Map { funcs: vec![], data: vec![] };
    let f = std::fs::read("/proc/self/exe").unwrap_or_default();
    let u = |at: usize, n: usize| -> usize { f.get(at..at + n).map_or(0, |b| b.iter().rev().fold(0, |a, x| a << 8 | *x as usize)) };
    let (shoff, shnum) = (u(0x28, 8), u(0x3c, 2));
    let mut bias = None;
    let mut named = vec![];
    for s in 0..shnum {
        let h = shoff + s * 64;
        let (kind, flags, addr, off, size, link) = (u(h + 4, 4), u(h + 8, 8), u(h + 16, 8), u(h + 24, 8), u(h + 32, 8), u(h + 40, 4));
        // alloc, write, not thread-local
        if flags & 3 == 3 && flags & 0x400 == 0 {
            m.data.push((addr, addr + size));
        }
        if kind != 2 {
            continue;
        }
        let strings = u(shoff + link * 64 + 24, 8);
        for k in 0..size / 24 {
            let e = off + k * 24;
            let (name, info, value, len) = (strings + u(e, 4), u(e + 4, 1), u(e + 8, 8), u(e + 16, 8));
            if info & 15 != 2 {
                continue;
            }
            let end = f[name..].iter().position(|c| *c == 0).map_or(name, |n| name + n);
            let n = String::from_utf8_lossy(&f[name..end]).into_owned();
            if n == "hold_landmark" {
                bias = Some((hold_landmark as extern "C" fn() as usize).wrapping_sub(value));
            }
            if of_library(&n) {
                named.push((value, value + len, n));
            }
        }
    }
    if let Some(b) = bias {
        m.funcs = named.into_iter().map(|(s, e, n)| (s.wrapping_add(b), e.wrapping_add(b), n)).collect();
        m.funcs.sort();
        for d in m.data.iter_mut() {
            *d = (d.0.wrapping_add(b), d.1.wrapping_add(b));
        }
    } else {
        m.data.clear();
    }
    m
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn hold_landmark() {
    std::hint::black_box(0);
}

#[inline(never)]
fn pass(pc: usize) {
    let funcs = &map().funcs;
    let i = funcs.partition_point(|f| f.0 <= pc);
    if i == 0 || funcs[i - 1].1 < pc {
        return;
    }
    if PASSED.fetch_add(1, SeqCst) != ARMED.load(SeqCst) || !ON.load(SeqCst) {
        return;
    }
    ARMED.store(u64::MAX, SeqCst);
    AT.store(pc as u64, SeqCst);
    let wait = || {
        // nothing that this thread still calls is a point
        let _ = SERVES.try_with(|s| s.set(false));
        let me = HELD.fetch_add(1, SeqCst);
        let mut g = FREE.lock().unwrap_or_else(|e| e.into_inner());
        while !g.1 && g.0 <= me {
            g = WAKE.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        drop(g);
        let _ = SERVES.try_with(|s| s.set(true));
    };
    if std::thread::panicking() {
        wait()
    } else {
        tokio::task::block_in_place(wait)
    }
}

fn point(pc: usize) {
    if ON.load(SeqCst) && SERVES.try_with(|s| s.get()).unwrap_or(false) {
        pass(pc)
    }
}

fn access(addr: usize, pc: usize) {
    if ON.load(SeqCst) && SERVES.try_with(|s| s.get()).unwrap_or(false) && map().data.iter().any(|d| d.0 <= addr && addr < d.1) {
        pass(pc)
    }
}

#[no_mangle]
extern "C" fn hold_point(pc: usize) {
    point(pc)
}

#[no_mangle]
extern "C" fn hold_access(addr: usize, pc: usize) {
    access(addr, pc)
}

macro_rules! entry {
    ($($n:ident)*) => {$(
        #[no_mangle]
        #[unsafe(naked)]
        pub extern "C" fn $n() {
            core::arch::naked_asm!("mov rsi, [rsp]", "jmp {f}", f = sym hold_access)
        }
    )*};
}

#[no_mangle]
#[unsafe(naked)]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    core::arch::naked_asm!("mov rdi, [rsp]", "jmp {f}", f = sym hold_point)
}
entry! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
