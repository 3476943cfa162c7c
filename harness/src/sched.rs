//! Execution control: every execution of the code under test runs on a fresh thread with
//!  * a chosen hash seed: std's RandomState draws its per-thread keys from getrandom(2), which this
//!    binary interposes, so the iteration order of every HashMap/HashSet is a replayable schedule;
//!  * panics caught;
//!  * a budget of logical work (heap allocations), counted by the global allocator: a loop that does
//!    not terminate is observed as a budget overrun, independent of wall-clock time. Work that never
//!    allocates is bounded by thread CPU time instead (generous).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc;
use std::sync::Arc;
use std::time::Duration;

/// Live heap of one case beyond this is an overrun.
pub const LIVE_LIMIT: i64 = 256 << 20;

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
    static HASH_CTR: Cell<u64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FLAG: Cell<*const AtomicBool> = const { Cell::new(std::ptr::null()) };
}
pub static GETRANDOM_CALLS: AtomicU64 = AtomicU64::new(0);

fn fill(buf: *mut u8, len: usize) {
    GETRANDOM_CALLS.fetch_add(1, Ordering::Relaxed);
    let seed = HASH_SEED.with(|s| s.get());
    for i in 0..len {
        let c = HASH_CTR.with(|c| {
            let v = c.get();
            c.set(v + 1);
            v
        });
        let mut z = seed.wrapping_add((c / 8 + 1).wrapping_mul(0x9E3779B97F4A7C15));
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        unsafe { *buf.add(i) = (z >> (8 * (c % 8))) as u8 };
    }
}
/// Interposes libc's getrandom for the whole process.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill(buf, len);
    len as isize
}

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|v| v.set(v.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tick(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[inline]
fn tick(bytes: i64) {
    let over = ALLOCS
        .try_with(|a| {
            let v = a.get() + 1 + (bytes.max(0) as u64) / 1024;
            a.set(v);
            let live = LIVE.with(|x| {
                let y = x.get() + bytes;
                x.set(y);
                y
            });
            let lim = LIMIT.with(|l| l.get());
            v > lim || (live > LIVE_LIMIT && lim != u64::MAX)
        })
        .unwrap_or(false);
    if over {
        // Budget overrun: report to the supervisor and park this thread for good.
        let f = FLAG.with(|f| f.get());
        if !f.is_null() {
            unsafe { (*f).store(true, Ordering::SeqCst) };
        }
        loop {
            std::thread::park_timeout(Duration::from_secs(3600));
        }
    }
}

#[derive(Debug)]
pub enum Outcome<T> {
    Done { value: T, work: u64 },
    Panic { msg: String, work: u64 },
    /// More than the budgeted number of allocations: no termination within the bound.
    Overrun,
    /// CPU-time guard (no allocation for a long time).
    Spin,
    /// The wall-clock guard fired without the thread having used its CPU budget (loaded machine).
    Inconclusive,
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info).replace('\n', " ");
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut g) = p.try_borrow_mut() {
                *g = s;
            }
        });
    }));
}

fn thread_cpu(id: libc::pthread_t) -> Option<f64> {
    unsafe {
        let mut clk: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(id, &mut clk) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9)
    }
}

/// Runs `f` on a fresh thread under hash seed `hseed` and a work budget.
pub fn run<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(
    hseed: u64,
    work_limit: u64,
    cpu_limit_s: f64,
    f: F,
) -> Outcome<T> {
    let flag = Arc::new(AtomicBool::new(false));
    let flag2 = flag.clone();
    let (tx, rx) = mpsc::channel();
    let (idtx, idrx) = mpsc::channel();
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let _ = idtx.send(unsafe { libc::pthread_self() } as usize);
            HASH_SEED.with(|s| s.set(hseed));
            HASH_CTR.with(|s| s.set(0));
            // leaked on purpose when the thread is parked
            FLAG.with(|p| p.set(Arc::into_raw(flag2)));
            ALLOCS.with(|a| a.set(0));
            LIVE.with(|a| a.set(0));
            LIMIT.with(|l| l.set(work_limit));
            let r = catch_unwind(AssertUnwindSafe(f));
            LIMIT.with(|l| l.set(u64::MAX));
            let work = ALLOCS.with(|a| a.get());
            FLAG.with(|p| {
                let q = p.get();
                p.set(std::ptr::null());
                unsafe { drop(Arc::from_raw(q)) };
            });
            let _ = match r {
                Ok(v) => tx.send(Outcome::Done { value: v, work }),
                Err(e) => {
                    std::mem::forget(e);
                    let msg = LAST_PANIC.with(|p| p.borrow().clone());
                    tx.send(Outcome::Panic { msg, work })
                }
            };
        })
        .expect("spawn");
    let id = idrx.recv().expect("thread id") as libc::pthread_t;
    let t0 = std::time::Instant::now();
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(o) => {
                let _ = h.join();
                return o;
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                if flag.load(Ordering::SeqCst) {
                    return Outcome::Overrun;
                }
                if let Some(c) = thread_cpu(id) {
                    if c > cpu_limit_s {
                        return Outcome::Spin;
                    }
                }
                if t0.elapsed().as_secs_f64() > cpu_limit_s * 20.0 {
                    return Outcome::Inconclusive;
                }
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => {
                return Outcome::Panic {
                    msg: "case thread vanished".into(),
                    work: 0,
                }
            }
        }
    }
}

/// Hash-order fingerprint of the current thread: iteration order of a fixed set under this seed.
pub fn order_fingerprint() -> u64 {
    let s: std::collections::HashSet<u32> = (0..16).collect();
    s.iter().fold(1469598103934665603u64, |h, x| {
        (h ^ *x as u64).wrapping_mul(1099511628211)
    })
}
