//! Seams for every source of nondeterminism and fault the code under test can meet without knowing:
//! the allocator (logical clock, preemption points, allocation failure, budgets), hash seeds
//! (getrandom), the clock (clock_gettime) and blocking (futex).
//!
//! They act only while the current thread is inside a call into the code under test (`sut`), and are
//! transparent otherwise.
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;

use crate::sched::Sched;

pub const NEVER: u64 = u64::MAX;

/// Per simulated thread control block. Only ever touched by its own thread.
pub struct Ctl {
    /// Inside the code under test.
    pub active: Cell<bool>,
    /// Unwinding after a fault: no more ticks, faults or switches until the call returns.
    pub suspended: Cell<bool>,
    /// Ticks (allocations + yield points) in the current call.
    pub ticks: Cell<u64>,
    /// Steps (basic blocks of the code under test, allocations, yield points) in the current call.
    pub steps: Cell<u64>,
    /// Next step at which something has to be looked at.
    pub threshold: Cell<u64>,
    pub force_at: Cell<u64>,
    pub step_limit: Cell<u64>,
    /// All ticks and steps of this thread.
    pub total: Cell<u64>,
    pub total_steps: Cell<u64>,
    pub fail_at: Cell<u64>,
    /// Allocations, counted separately from other ticks, for fail_at.
    pub allocs: Cell<u64>,
    pub budget: Cell<u64>,
    pub live: Cell<i64>,
    pub peak: Cell<i64>,
    pub mem_limit: Cell<i64>,
    pub next_switch: Cell<u64>,
    pub fired: Cell<Fired>,
    pub sched: RefCell<Option<Arc<Sched>>>,
    pub me: Cell<usize>,
    pub op: Cell<u32>,
    pub hash_key: Cell<u64>,
    /// Decides what the process around the code under test looks like.
    pub world: u64,
    pub clock: Cell<i64>,
    pub futex_waits: Cell<u32>,
    pub last_panic: RefCell<Option<(String, String)>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fired { No, AllocFail, Budget, Memory, Deadlock }

thread_local! {
    static CTL: Cell<*const Ctl> = const { Cell::new(std::ptr::null()) };
}

fn ctl() -> Option<&'static Ctl> {
    let p = CTL.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if p.is_null() { None } else { Some(unsafe { &*p }) }
}

fn active() -> Option<&'static Ctl> { ctl().filter(|c| c.active.get() && !c.suspended.get()) }

pub struct SimAlloc;

/// Bytes allocated in this process, counted once somebody asked for it.
static HEAP: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
static mut WEIGHED: bool = false;
pub fn weigh() { unsafe { WEIGHED = true } }
pub fn heap() -> i64 { HEAP.load(std::sync::atomic::Ordering::Relaxed) }
#[inline]
fn weight(n: i64) { if unsafe { WEIGHED } { HEAP.fetch_add(n, std::sync::atomic::Ordering::Relaxed); } }

impl SimAlloc {
    #[inline]
    fn tick(size: usize) -> bool {
        let Some(c) = active() else { return true };
        let t = c.ticks.get() + 1;
        c.ticks.set(t);
        let a = c.allocs.get() + 1;
        c.allocs.set(a);
        let live = c.live.get() + size as i64;
        c.live.set(live);
        if live > c.peak.get() { c.peak.set(live) }
        if a == c.fail_at.get() { c.fired.set(Fired::AllocFail); return false }
        if t >= c.budget.get() { c.fired.set(Fired::Budget); return false }
        if live > c.mem_limit.get() { c.fired.set(Fired::Memory); return false }
        step(c);
        true
    }
    #[inline]
    fn free(size: usize) {
        if let Some(c) = active() { c.live.set(c.live.get() - size as i64) }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !Self::tick(l.size()) { return std::ptr::null_mut() }
        weight(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !Self::tick(l.size()) { return std::ptr::null_mut() }
        weight(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        Self::free(l.size());
        weight(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !Self::tick(n) { return std::ptr::null_mut() }
        Self::free(l.size());
        weight(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// A thread that goes on for this long without being preempted may be waiting for another one.
const PATIENCE: u64 = 3_000_000;

#[inline]
fn step(c: &Ctl) {
    let s = c.steps.get() + 1;
    c.steps.set(s);
    if s >= c.threshold.get() { look(c) }
}

fn set_threshold(c: &Ctl) { c.threshold.set(c.next_switch.get().min(c.force_at.get()).min(c.step_limit.get())) }

#[cold]
#[inline(never)]
fn look(c: &Ctl) {
    let s = c.steps.get();
    if s >= c.step_limit.get() { hang(s) }
    c.active.set(false);
    let sched = c.sched.borrow().clone();
    match sched {
        Some(x) => {
            if s >= c.next_switch.get() { let n = x.preempt(c.me.get(), c.op.get(), s); c.next_switch.set(n); }
            else { x.blocked_elsewhere(c.me.get(), c.op.get(), s) }
        },
        None => c.next_switch.set(NEVER),
    }
    c.force_at.set(s + PATIENCE);
    set_threshold(c);
    c.active.set(true);
}

/// Where the run reports to, for an end from inside.
static REPORT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
pub fn report_to(fd: i32) { REPORT.store(fd, std::sync::atomic::Ordering::Relaxed) }

extern "C" {
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}

/// The code under test does not come back: the run ends here, with that result.
fn hang(steps: u64) -> ! {
    if let Some(c) = ctl() { c.active.set(false) }
    let mut o = crate::plan::Outcome::default();
    o.violate("hang", format!("a call did not end within {steps} steps"));
    o.trace = 0x4a4a;
    let v = serde_json::to_vec(&o).unwrap();
    unsafe {
        write(REPORT.load(std::sync::atomic::Ordering::Relaxed), v.as_ptr(), v.len());
        _exit(0)
    }
}

// ---------------------------------------------------------------- instrumentation of the code under test

pub const COV_MAX: usize = 1 << 18;
static mut COV_DUMMY: [u8; 1] = [0];
static mut COV: *mut u8 = std::ptr::null_mut();
static mut GUARDS: u32 = 0;
static mut PCS: Vec<(usize, usize)> = Vec::new();

/// Blocks reached are marked in this array of `COV_MAX` bytes from now on.
pub fn cover_into(p: *mut u8) { unsafe { COV = p; let _ = &raw const COV_DUMMY; } }
pub fn blocks() -> usize { unsafe { GUARDS as usize } }
/// Addresses of all blocks, in order, and whether they are function entries.
pub fn block_pcs() -> Vec<(usize, usize)> {
    unsafe { (*(&raw const PCS)).iter().flat_map(|&(a, b)| (a..b).step_by(16).map(|p| (*(p as *const usize), *((p + 8) as *const usize)))).collect() }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut p: *mut u32, end: *mut u32) {
    if p == end || *p != 0 { return }
    while p < end { GUARDS += 1; *p = GUARDS; p = p.add(1) }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(a: usize, b: usize) { (*(&raw mut PCS)).push((a, b)) }

#[no_mangle]
pub unsafe extern "C-unwind" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
    let Some(c) = active() else { return };
    if !COV.is_null() { *COV.add((*g as usize).min(COV_MAX - 1)) = 1 }
    step(c);
}

/// A fault raised on purpose by the simulator; unwinds through the code under test.
pub struct Injected(pub u32);
struct OutOfMemory;

/// How a call into the code under test ended, other than by returning.
#[derive(Clone, Debug, PartialEq)]
pub enum Abort {
    /// An injected failure of a feed or the context came back out, with its number.
    Injected(u32),
    /// The injected allocation failure came back out.
    AllocFail,
    /// Work budget exceeded.
    Budget,
    /// Memory budget exceeded.
    Memory,
    /// Waited for a lock nobody releases.
    Deadlock,
    /// The code under test panicked by itself.
    Panic { msg: String, at: String },
}

pub fn install_hooks() {
    std::alloc::set_alloc_error_hook(|_| std::panic::panic_any(OutOfMemory));
    std::panic::set_hook(Box::new(|info| {
        if let Some(c) = ctl().filter(|c| c.active.get() || info.payload().is::<Injected>() || info.payload().is::<OutOfMemory>()) {
            // Everything from here on is bookkeeping and unwinding.
            c.suspended.set(true);
            let p = info.payload();
            let msg = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
                else { String::from("<non-string>") };
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if let Ok(mut lp) = c.last_panic.try_borrow_mut() { *lp = Some((msg, at)) }
        } else {
            if QUIET.with(|q| q.get()) { return }
            eprintln!("cmsim: {info}");
            // The code under test has no panic that a caller is told to expect.
            if let Some(l) = info.location() { if !l.file().starts_with("src/") && l.file().contains("/repo/src/") {
                let mut f = FOREIGN.lock().unwrap_or_else(|e| e.into_inner());
                if f.is_none() { *f = Some(info.to_string()) }
            } }
        }
    }));
}

/// The first panic of the code under test while it was called to find out what is right.
static FOREIGN: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
pub fn foreign_panic() -> Option<String> { FOREIGN.lock().unwrap_or_else(|e| e.into_inner()).clone() }

thread_local! { static QUIET: Cell<bool> = const { Cell::new(false) }; }
/// The result of `f`, none if it panics.
pub fn quietly<R>(f: impl FnOnce() -> R) -> Option<R> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.ok()
}

/// Identity of a simulated thread.
pub struct ThreadSetup { pub sched: Option<Arc<Sched>>, pub me: usize, pub hash_key: u64, pub clock: i64 }

/// Run `f` as a simulated thread on the current OS thread.
pub fn enter<R>(setup: ThreadSetup, f: impl FnOnce() -> R) -> R {
    let c = Ctl {
        active: Cell::new(false), suspended: Cell::new(false), ticks: Cell::new(0), total: Cell::new(0), total_steps: Cell::new(0),
        steps: Cell::new(0), threshold: Cell::new(NEVER), force_at: Cell::new(NEVER), step_limit: Cell::new(NEVER),
        fail_at: Cell::new(NEVER), allocs: Cell::new(0), budget: Cell::new(NEVER), live: Cell::new(0), peak: Cell::new(0),
        mem_limit: Cell::new(i64::MAX), next_switch: Cell::new(NEVER), fired: Cell::new(Fired::No),
        sched: RefCell::new(setup.sched), me: Cell::new(setup.me), op: Cell::new(0),
        hash_key: Cell::new(setup.hash_key), world: setup.hash_key, clock: Cell::new(setup.clock), futex_waits: Cell::new(0),
        last_panic: RefCell::new(None),
    };
    CTL.with(|p| p.set(&c));
    // std reads the thread's hash keys on first use; take them now, through the seam.
    c.active.set(true);
    let warm: std::collections::HashMap<u8, u8> = std::collections::HashMap::new();
    c.active.set(false);
    drop(warm);
    let r = catch_unwind(AssertUnwindSafe(f));
    CTL.with(|p| p.set(std::ptr::null()));
    match r { Ok(r) => r, Err(e) => resume_unwind(e) }
}

#[derive(Clone, Copy)]
pub struct Limits { pub fail_at: u64, pub budget: u64, pub mem: i64, pub steps: u64 }
impl Default for Limits { fn default() -> Self { Limits { fail_at: NEVER, budget: 40_000_000, mem: 2 << 30, steps: STEP_LIMIT } } }

#[derive(Clone, Copy, Debug, Default)]
pub struct Used { pub ticks: u64, pub allocs: u64, pub peak: i64, pub steps: u64 }

/// More steps than any call of any scenario has a use for.
const STEP_LIMIT: u64 = 3_000_000_000;

/// Call into the code under test.
pub fn sut<R>(op: u32, lim: Limits, f: impl FnOnce() -> R) -> (Result<R, Abort>, Used) {
    let c = ctl().expect("sut() outside of a simulated thread");
    assert!(!c.active.get(), "nested sut()");
    c.ticks.set(0);
    c.steps.set(0);
    c.allocs.set(0);
    c.live.set(0);
    c.peak.set(0);
    c.fail_at.set(lim.fail_at);
    c.budget.set(lim.budget);
    c.mem_limit.set(lim.mem);
    c.fired.set(Fired::No);
    c.op.set(op);
    c.futex_waits.set(0);
    c.suspended.set(false);
    *c.last_panic.borrow_mut() = None;
    c.next_switch.set(match &*c.sched.borrow() { Some(s) => s.first_switch(c.me.get(), op), None => NEVER });
    c.force_at.set(PATIENCE);
    c.step_limit.set(lim.steps);
    set_threshold(c);
    c.active.set(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    c.active.set(false);
    c.suspended.set(false);
    c.total.set(c.total.get() + c.ticks.get());
    c.total_steps.set(c.total_steps.get() + c.steps.get());
    let used = Used { ticks: c.ticks.get(), allocs: c.allocs.get(), peak: c.peak.get(), steps: c.steps.get() };
    let r = r.map_err(|e| classify(c, e));
    (r, used)
}

fn classify(c: &Ctl, e: Box<dyn Any + Send>) -> Abort {
    if let Some(i) = e.downcast_ref::<Injected>() { return Abort::Injected(i.0) }
    if e.downcast_ref::<OutOfMemory>().is_some() || c.fired.get() != Fired::No {
        return match c.fired.get() {
            Fired::AllocFail => Abort::AllocFail,
            Fired::Budget => Abort::Budget,
            Fired::Memory => Abort::Memory,
            Fired::Deadlock => Abort::Deadlock,
            Fired::No => Abort::Panic { msg: "capacity overflow or huge allocation".into(), at: String::new() },
        }
    }
    let (msg, at) = c.last_panic.borrow_mut().take().unwrap_or_default();
    Abort::Panic { msg, at }
}

/// Leave the code under test for a moment: a callback into the simulated environment.
pub fn callback<R>(f: impl FnOnce() -> R) -> R {
    let Some(c) = ctl().filter(|c| c.active.get()) else { return f() };
    c.active.set(false);
    let r = catch_unwind(AssertUnwindSafe(f));
    c.active.set(true);
    match r { Ok(r) => r, Err(e) => { c.suspended.set(true); resume_unwind(e) } }
}

/// Call back into the code under test from inside a callback, accounting its work to the outer call.
pub fn reenter<R>(f: impl FnOnce() -> R) -> R {
    let Some(c) = ctl() else { return f() };
    let was = c.active.replace(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    c.active.set(was);
    match r { Ok(r) => r, Err(e) => resume_unwind(e) }
}

/// Is the current thread unwinding through / inside the code under test?
pub fn in_callback_yield() {
    if let Some(c) = ctl() {
        if c.suspended.get() { return }
        c.ticks.set(c.ticks.get() + 1);
        let was = c.active.replace(true);
        step(c);
        c.active.set(was);
    }
}

/// Raise an injected failure.
pub fn inject(n: u32) -> ! {
    if let Some(c) = ctl() { c.suspended.set(true) }
    std::panic::panic_any(Injected(n))
}

pub fn thread_total() -> (u64, u64) { ctl().map(|c| (c.total.get(), c.total_steps.get())).unwrap_or((0, 0)) }

// ---------------------------------------------------------------- C library seams

unsafe fn raw6(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" { fn __errno_location() -> *mut i32; }

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) { *__errno_location() = -r as i32; -1 } else { r }
}

const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_GETPID: i64 = 39;
const SYS_GETCWD: i64 = 79;
const SYS_SCHED_GETAFFINITY: i64 = 204;

/// std reaches futex (and nothing else on the paths here) through `syscall`.
#[no_mangle]
pub unsafe extern "C-unwind" fn syscall(n: i64, a: i64, b: i64, c3: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX {
        if let Some(c) = active() {
            let cmd = b & 0x7f;
            if cmd == 0 || cmd == 9 {
                // FUTEX_WAIT / FUTEX_WAIT_BITSET: somebody else holds a lock. Let others run.
                let w = c.futex_waits.get() + 1;
                c.futex_waits.set(w);
                if w > 20_000 {
                    c.fired.set(Fired::Deadlock);
                    c.suspended.set(true);
                    std::panic::panic_any("deadlock");
                }
                c.ticks.set(c.ticks.get() + 1);
                c.steps.set(c.steps.get() + 1);
                c.active.set(false);
                let s = c.sched.borrow().clone();
                if let Some(s) = s { s.blocked_elsewhere(c.me.get(), c.op.get(), c.steps.get()) }
                c.active.set(true);
                return 0
            }
        }
    }
    if n == SYS_GETRANDOM { return getrandom(a as *mut u8, b as usize, c3 as u32) as i64 }
    ret(raw6(n, [a, b, c3, d, e, f]))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if let Some(c) = ctl().filter(|c| c.active.get()) {
        let mut k = c.hash_key.get();
        for i in 0..len { *buf.add(i) = crate::prng::splitmix(&mut k) as u8 }
        c.hash_key.set(k);
        return len as isize
    }
    ret(raw6(SYS_GETRANDOM, [buf as i64, len as i64, flags as i64, 0, 0, 0])) as isize
}

#[repr(C)]
pub struct Timespec { sec: i64, nsec: i64 }

/// The world of reference runs, where nothing unusual happens.
pub const REFERENCE: u64 = 0x5EED;

/// By how much the clock of a world moves on between two readings: slowly, fast, in jumps, and
/// backwards too, which only the monotonic clock never does.
fn clock_step(world: u64, now: i64, clk: i32) -> i64 {
    const US: i64 = 1_000;
    const S: i64 = 1_000_000_000;
    if world == REFERENCE { return US }
    let (mut k, mut j) = (world ^ 0xC10C, world ^ now as u64);
    let jump = crate::prng::splitmix(&mut j);
    match crate::prng::splitmix(&mut k) % 8 {
        0 | 1 => US,
        2 => 1_000 * US,
        3 => S,
        4 => 3600 * S,
        5 if jump % 4 == 0 => (jump >> 8) as i64 % 100 * S,
        5 => 50 * US,
        6 if clk == 0 => (jump >> 8) as i64 % (48 * 3600) * S - 24 * 3600 * S,
        6 => 50_000 * US,
        _ => if jump % 64 == 0 { 30 * 24 * 3600 * S } else { US },
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if let Some(c) = ctl().filter(|c| c.active.get()) {
        let t = c.clock.get().saturating_add(clock_step(c.world, c.clock.get(), clk));
        c.clock.set(t);
        (*ts).sec = t.div_euclid(1_000_000_000);
        (*ts).nsec = t.rem_euclid(1_000_000_000);
        return 0
    }
    ret(raw6(SYS_CLOCK_GETTIME, [clk as i64, ts as i64, 0, 0, 0, 0])) as i32
}

/// What the simulated environment holds under a name: the same for the whole run of a simulated thread.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const std::ffi::c_char) -> *const std::ffi::c_char {
    extern "C" { static environ: *const *const std::ffi::c_char; }
    let name = std::ffi::CStr::from_ptr(name).to_bytes();
    if let Some(c) = active() {
        const VALUES: [&std::ffi::CStr; 5] = [c"", c"0", c"1", c"x86_64-apple-darwin", c"/nowhere"];
        let mut k = name.iter().fold(c.world, |k, b| k.wrapping_mul(0x100000001b3) ^ *b as u64);
        let k = crate::prng::splitmix(&mut k) as usize;
        return if k & 1 == 0 { std::ptr::null() } else { VALUES[(k >> 1) % VALUES.len()].as_ptr() }
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if e.len() > name.len() && e[name.len()] == b'=' && e.starts_with(name) { return (*p).add(name.len() + 1) }
        p = p.add(1);
    }
    std::ptr::null()
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if let Some(c) = active() { let mut k = c.world; return (crate::prng::splitmix(&mut k) % 4_000_000) as i32 + 2 }
    raw6(SYS_GETPID, [0; 6]) as i32
}

/// How many processors there are.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, size: usize, mask: *mut u8) -> i32 {
    if let Some(c) = active() {
        let mut k = c.world ^ 0xC9;
        let n = 1usize << (crate::prng::splitmix(&mut k) % 7);
        for i in 0..size { *mask.add(i) = if 8 * i + 8 <= n { 0xFF } else if 8 * i < n { (1u8 << (n % 8)) - 1 } else { 0 } }
        return 0
    }
    let n = ret(raw6(SYS_SCHED_GETAFFINITY, [pid as i64, size as i64, mask as i64, 0, 0, 0]));
    if n < 0 { return -1 }
    for i in n as usize..size { *mask.add(i) = 0 }
    0
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut std::ffi::c_char, len: usize) -> *mut std::ffi::c_char {
    if let Some(c) = active() {
        let mut k = c.world;
        let n = crate::prng::splitmix(&mut k) as usize % 20 + 2;
        if buf.is_null() || len < n + 1 { *__errno_location() = 34; return std::ptr::null_mut() }
        for i in 0..n { *buf.add(i) = if i == 0 { b'/' } else { b'd' } as std::ffi::c_char }
        *buf.add(n) = 0;
        return buf
    }
    if ret(raw6(SYS_GETCWD, [buf as i64, len as i64, 0, 0, 0, 0])) < 0 { std::ptr::null_mut() } else { buf }
}
