//! Runs one case of the code under test in a thread of its own, as a pure function of
//! (input, hash seed):
//!  * `getrandom` is interposed, so the iteration order of every std HashMap/HashSet the code
//!    creates is derived from the case's `hash_seed`;
//!  * panics are caught and reported as an outcome;
//!  * heap allocations are counted, and a case that exceeds its work budget is reported as
//!    `OverBudget` (a deterministic stand-in for "does not terminate"; never a wall-clock limit).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicPtr, AtomicUsize, Ordering};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::Arc;
use std::time::{Duration, Instant};

thread_local! {
    static HASH_SEED: Cell<Option<u64>> = const { Cell::new(None) };
    static BUDGET_LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    static BYTES_LIVE: Cell<i64> = const { Cell::new(0) };
    static OVER: Cell<*const AtomicBool> = const { Cell::new(std::ptr::null()) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static CRASHED: Cell<*const AtomicBool> = const { Cell::new(std::ptr::null()) };
}

/// A stack overflow ends in SIGSEGV; a panic while panicking and a failed allocation end in
/// abort(): park the thread instead and tell whoever waits for its case. (std gives every thread
/// an alternate signal stack.)
extern "C" fn on_crash(signal: i32) {
    let flag = CRASHED.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if flag.is_null() {
        // not a case: die of it
        unsafe { sigaction_default(signal) };
        return;
    }
    unsafe { (*flag).store(true, Ordering::SeqCst) };
    loop {
        unsafe { pause() };
    }
}
unsafe fn sigaction_default(signal: i32) {
    let action = SigAction { handler: None, mask: [0; 16], flags: 0, restorer: 0 };
    sigaction(signal, &action, std::ptr::null_mut());
}
const SIGABRT: i32 = 6;
const SIGSEGV: i32 = 11;
const SA_ONSTACK: i32 = 0x0800_0000;
#[repr(C)]
struct SigAction {
    handler: Option<extern "C" fn(i32)>,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn pause() -> i32;
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
}

struct Counting;
#[global_allocator]
static GLOBAL: Counting = Counting;
const MAX_LIVE: i64 = 512 << 20;

#[inline]
fn charge(bytes: i64) {
    let _ = BUDGET_LEFT.try_with(|b| {
        let left = b.get();
        if left == u64::MAX {
            return;
        }
        let live = BYTES_LIVE.with(|l| {
            let n = l.get() + bytes;
            l.set(n);
            n
        });
        if left == 0 || live > MAX_LIVE {
            let flag = OVER.with(|o| o.get());
            if !flag.is_null() {
                unsafe { (*flag).store(true, Ordering::SeqCst) };
            }
            loop {
                std::thread::sleep(Duration::from_secs(3600));
            }
        }
        b.set(left - 1);
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        charge(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = BYTES_LIVE.try_with(|b| b.set(b.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        charge(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

extern "C" {
    fn syscall(num: i64, ...) -> i64;
}
const SYS_GETRANDOM: i64 = 318;

/// Interposes libc's getrandom, as std documents for its HashMap keys.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let seeded = HASH_SEED.try_with(|s| s.get()).unwrap_or(None);
    match seeded {
        Some(mut s) => {
            for i in 0..len {
                *buf.add(i) = splitmix(&mut s) as u8;
            }
            let _ = HASH_SEED.try_with(|c| c.set(Some(s)));
            len as isize
        }
        None => syscall(SYS_GETRANDOM, buf, len, flags as u64) as isize,
    }
}

#[derive(Debug, Clone)]
pub enum Outcome<T> {
    Done(T),
    Panic(String),
    OverBudget,
}

const ABORTED: &str = "aborted (stack overflow, panic in a panic, or out of memory)";
pub static OVER_BUDGETS: AtomicUsize = AtomicUsize::new(0);

pub fn install_hook() {
    let action = SigAction { handler: Some(on_crash), mask: [0; 16], flags: SA_ONSTACK, restorer: 0 };
    unsafe {
        sigaction(SIGABRT, &action, std::ptr::null_mut());
        sigaction(SIGSEGV, &action, std::ptr::null_mut());
    }
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} @ {}", msg, loc)));
        } else {
            default(info)
        }
    }));
}

/// Default work budget of a case: number of heap allocations.
pub const BUDGET: u64 = 40_000_000;
/// processor time after which a case that does not allocate either is taken not to terminate
const HANG_CPU_SECS: i64 = 120;
/// the same for plain code, where a case takes a fraction of a millisecond
const LIGHT_HANG_CPU_SECS: i64 = 30;
const HANG_WALL_SECS: u64 = 600;
/// a hanging case keeps a processor busy until the end of the run: stop shrinking at once
const HANG_WEIGHT: usize = 1000;

extern "C" {
    fn pthread_getcpuclockid(thread: std::os::unix::thread::RawPthread, clock: *mut i32) -> i32;
    fn pthread_self() -> std::os::unix::thread::RawPthread;
    fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
}
fn cpu_seconds<T>(h: &std::thread::JoinHandle<T>) -> i64 {
    use std::os::unix::thread::JoinHandleExt;
    if h.is_finished() {
        return 0;
    }
    let (mut clock, mut ts) = (0i32, [0i64; 2]);
    unsafe {
        if pthread_getcpuclockid(h.as_pthread_t(), &mut clock) != 0 || clock_gettime(clock, &mut ts) != 0 {
            return 0;
        }
    }
    ts[0]
}

/// What a worker is evaluating in its own thread, for the watcher in the main thread.
pub struct Slot {
    /// number of the case, odd while it runs
    sequence: AtomicUsize,
    case: AtomicPtr<()>,
    render: AtomicUsize,
    crashed: AtomicBool,
    over: AtomicBool,
    clock: AtomicI32,
}
pub type Render = fn(*const ()) -> (String, serde_json::Value);
thread_local! {
    static SLOT: Cell<Option<&'static Slot>> = const { Cell::new(None) };
}
impl Slot {
    /// a slot for the calling thread
    pub fn for_me() -> &'static Slot {
        let slot: &'static Slot = Box::leak(Box::new(Slot {
            sequence: AtomicUsize::new(0),
            case: AtomicPtr::new(std::ptr::null_mut()),
            render: AtomicUsize::new(0),
            crashed: AtomicBool::new(false),
            over: AtomicBool::new(false),
            clock: AtomicI32::new(0),
        }));
        let mut clock = 0;
        unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) };
        slot.clock.store(clock, Ordering::SeqCst);
        SLOT.with(|s| s.set(Some(slot)));
        slot
    }
    fn cpu(&self) -> i64 {
        let mut ts = [0i64; 2];
        unsafe { clock_gettime(self.clock.load(Ordering::SeqCst), &mut ts) };
        ts[0]
    }
    /// The case the worker will never get to the end of, with what became of it. `seen` is the
    /// watcher's memory of this slot.
    pub fn stuck(&self, seen: &mut (usize, i64)) -> Option<(String, String, serde_json::Value)> {
        let n = self.sequence.load(Ordering::SeqCst);
        if n % 2 == 0 {
            return None;
        }
        if seen.0 != n {
            *seen = (n, self.cpu());
        }
        let what = if self.crashed.load(Ordering::SeqCst) {
            ABORTED
        } else if self.over.load(Ordering::SeqCst) || self.cpu() - seen.1 > LIGHT_HANG_CPU_SECS {
            "did not finish within its work budget"
        } else {
            return None;
        };
        // the worker is parked, or has been in this case for all that time: its case stays where it is
        let render: Render = unsafe { std::mem::transmute(self.render.load(Ordering::SeqCst)) };
        let (sub, case) = render(self.case.load(Ordering::SeqCst));
        Some((sub, what.to_string(), case))
    }
}

/// Runs a case of plain code (no hash order to fix) in the calling thread, watched if it has a
/// slot.
pub fn run_light<T>(budget: u64, case: *const (), render: Render, f: impl FnOnce() -> T) -> Outcome<T> {
    let slot = SLOT.with(|s| s.get());
    if let Some(s) = slot {
        s.case.store(case as *mut (), Ordering::SeqCst);
        s.render.store(render as usize, Ordering::SeqCst);
        s.sequence.fetch_add(1, Ordering::SeqCst);
        OVER.with(|o| o.set(&s.over));
        CRASHED.with(|c| c.set(&s.crashed));
        BYTES_LIVE.with(|b| b.set(0));
        BUDGET_LEFT.with(|b| b.set(budget));
    }
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    if let Some(s) = slot {
        BUDGET_LEFT.with(|b| b.set(u64::MAX));
        CRASHED.with(|c| c.set(std::ptr::null()));
        OVER.with(|o| o.set(std::ptr::null()));
        s.sequence.fetch_add(1, Ordering::SeqCst);
    }
    match r {
        Ok(v) => Outcome::Done(v),
        Err(_) => Outcome::Panic(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub fn run_case<T, F>(hash_seed: u64, budget: u64, f: F) -> Outcome<T>
where
    T: Send + 'static,
    F: FnOnce() -> T + Send + 'static,
{
    let (tx, rx) = channel();
    let over = Arc::new(AtomicBool::new(false));
    let over2 = Arc::clone(&over);
    let crashed = Arc::new(AtomicBool::new(false));
    let crashed2 = Arc::clone(&crashed);
    let handle = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            HASH_SEED.with(|s| s.set(Some(hash_seed ^ 0x5bd1e995)));
            QUIET.with(|q| q.set(true));
            OVER.with(|o| o.set(Arc::as_ptr(&over2)));
            CRASHED.with(|c| c.set(Arc::as_ptr(&crashed2)));
            BYTES_LIVE.with(|b| b.set(0));
            BUDGET_LEFT.with(|b| b.set(budget));
            let r = catch_unwind(AssertUnwindSafe(f));
            if std::env::var_os("VH_WORK").is_some() && allocations_used(budget) > budget / 50 {
                eprintln!("work: {} of {budget}", allocations_used(budget));
            }
            BUDGET_LEFT.with(|b| b.set(u64::MAX));
            HASH_SEED.with(|s| s.set(None));
            let out = match r {
                Ok(v) => Outcome::Done(v),
                Err(_) => Outcome::Panic(
                    LAST_PANIC
                        .with(|p| p.borrow_mut().take())
                        .unwrap_or_else(|| "panic".into()),
                ),
            };
            let _ = tx.send(out);
        })
        .expect("spawn");
    let start = Instant::now();
    loop {
        match rx.recv_timeout(Duration::from_millis(50)) {
            Ok(v) => {
                let _ = handle.join();
                return v;
            }
            Err(RecvTimeoutError::Timeout) => {
                if crashed.load(Ordering::SeqCst) {
                    std::mem::forget(crashed);
                    OVER_BUDGETS.fetch_add(1, Ordering::SeqCst);
                    return Outcome::Panic(ABORTED.into());
                }
                if over.load(Ordering::SeqCst) {
                    // the thread sleeps for ever: leak it, and the flag it points to
                    std::mem::forget(over);
                    OVER_BUDGETS.fetch_add(1, Ordering::SeqCst);
                    return Outcome::OverBudget;
                }
                if start.elapsed().as_secs() > HANG_CPU_SECS as u64 && cpu_seconds(&handle) > HANG_CPU_SECS {
                    std::mem::forget(over);
                    OVER_BUDGETS.fetch_add(HANG_WEIGHT, Ordering::SeqCst);
                    return Outcome::OverBudget;
                }
                if start.elapsed().as_secs() > HANG_WALL_SECS {
                    eprintln!("INCONCLUSIVE: a case ran for more than {HANG_WALL_SECS} s without exceeding its work budget");
                    std::process::exit(3);
                }
            }
            Err(RecvTimeoutError::Disconnected) => {
                return Outcome::Panic("case thread vanished".into());
            }
        }
    }
}

/// Allocations charged so far in the current case (None outside a case).
pub fn allocations_used(budget: u64) -> u64 {
    budget.wrapping_sub(BUDGET_LEFT.with(|b| b.get()))
}
