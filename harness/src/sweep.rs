//! Tries many inputs on all cores. A panic of the code under test is a result like any other.
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

thread_local! {
    static CAUGHT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// For each thread, the second of its first call that has not returned, plus 1; or 0
static BUSY: Mutex<Vec<&'static AtomicU64>> = Mutex::new(Vec::new());
static START: OnceLock<Instant> = OnceLock::new();
/// Blocks of calls take a few seconds at most, on a busy machine
const LONG: u64 = 150;
thread_local! {
    static MINE: &'static AtomicU64 = {
        let a: &'static AtomicU64 = Box::leak(Box::new(AtomicU64::new(0)));
        BUSY.lock().unwrap().push(a);
        a
    };
}
fn now() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_secs()
}
/// The programs need less than 1 GB
const LARGE: u64 = 12 << 30;
/// Reports a call that does not return, or collects items without end, as the only violation of the program
fn watch() {
    let stop = |what: String| {
        let mut rep = crate::out::Report::default();
        rep.violation(what);
        rep.finish()
    };
    loop {
        std::thread::sleep(std::time::Duration::from_millis(50));
        let hung = |a: &&AtomicU64| {
            let t = a.load(Relaxed);
            t > 0 && now() + 1 - t.min(now() + 1) > LONG
        };
        if BUSY.lock().unwrap().iter().any(hung) {
            stop(format!("a call has not returned for {LONG} seconds"))
        }
        let pages = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse().ok());
        if pages.unwrap_or(0u64) * 4096 > LARGE {
            stop(format!("a call has taken {} GB of memory, without returning", LARGE >> 30))
        }
    }
}

/// No messages for the panics that are caught here; any other panic is an error of the harness
pub fn quiet() {
    now();
    std::thread::spawn(watch);
    std::panic::set_hook(Box::new(|info| {
        if CAUGHT.with(|c| c.get()) == 0 {
            eprintln!("harness error: {info}");
            std::process::exit(2);
        }
    }));
}
fn catch_unwind<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    let depth = CAUGHT.with(|c| c.replace(c.get() + 1));
    if depth == 0 {
        MINE.with(|m| m.store(now() + 1, Relaxed));
    }
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    if depth == 0 {
        MINE.with(|m| m.store(0, Relaxed));
    }
    CAUGHT.with(|c| c.set(depth));
    r
}

/// The result of a call, or None if it panicked
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(f).ok()
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
}

/// Checks `ok` for every index in 0..n; `explain` describes a failing index (panicked or not).
/// Returns the number of indices tried, and the failures (at most 20, sorted).
pub fn sweep<F, G>(n: u64, ok: F, explain: G) -> (u64, Vec<(u64, String)>)
where
    F: Fn(u64) -> bool + Sync,
    G: Fn(u64, bool) -> String + Sync,
{
    let block: u64 = (n / 2048).clamp(64, 1 << 20);
    let next = AtomicU64::new(0);
    let tried = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<(u64, String)>> = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| loop {
                let lo = next.fetch_add(block, Relaxed);
                if lo >= n || stop.load(Relaxed) {
                    break;
                }
                let hi = (lo + block).min(n);
                let mut bad: Vec<(u64, bool)> = Vec::new();
                let r = catch_unwind(|| {
                    let mut first = None;
                    for i in lo..hi {
                        if !ok(i) {
                            first = Some(i);
                            break;
                        }
                    }
                    first
                });
                match r {
                    Ok(None) => {}
                    Ok(Some(i)) => bad.push((i, false)),
                    Err(_) => {
                        for i in lo..hi {
                            match catch_unwind(|| ok(i)) {
                                Ok(true) => {}
                                Ok(false) => {
                                    bad.push((i, false));
                                    break;
                                }
                                Err(_) => {
                                    bad.push((i, true));
                                    break;
                                }
                            }
                        }
                    }
                }
                tried.fetch_add(hi - lo, Relaxed);
                if !bad.is_empty() {
                    let mut f = found.lock().unwrap();
                    for (i, p) in bad {
                        let text = catch_unwind(|| explain(i, p)).unwrap_or_else(|_| explain(i, true));
                        f.push((i, text));
                    }
                    if f.len() >= 20 {
                        stop.store(true, Relaxed);
                    }
                }
            });
        }
    });
    let mut f = found.into_inner().unwrap();
    f.sort();
    f.truncate(20);
    (tried.load(Relaxed), f)
}
