//! Counts what a thread allocates.

use std::alloc::Layout;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// Some thread may be measuring.
static METERING: AtomicBool = AtomicBool::new(false);

thread_local! {
    static MEASURING: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

#[derive(Clone, Copy, Debug)]
pub struct Usage
{
    /// The most bytes allocated at once.
    pub peak: u64,
    /// All bytes allocated.
    pub total: u64,
    pub calls: u64,
}

#[inline(always)]
pub fn metering() -> bool
{
    METERING.load(Relaxed)
}

#[cold]
pub fn grown(old: usize, new: usize)
{
    if !MEASURING.try_with(|m| m.get()).unwrap_or(false) {
        return;
    }
    let now = NOW.get() + new as i64 - old as i64;
    NOW.set(now);
    PEAK.set(PEAK.get().max(now));
    if new > 0 {
        TOTAL.set(TOTAL.get().saturating_add(new as u64));
        CALLS.set(CALLS.get() + 1);
    }
}

pub fn allocated(l: Layout)
{
    grown(0, l.size())
}

pub fn freed(l: Layout)
{
    grown(l.size(), 0)
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage)
{
    METERING.store(true, Relaxed);
    NOW.set(0);
    PEAK.set(0);
    TOTAL.set(0);
    CALLS.set(0);
    MEASURING.set(true);
    let t = f();
    MEASURING.set(false);
    let u = Usage {
        peak: PEAK.get() as u64,
        total: TOTAL.get(),
        calls: CALLS.get(),
    };
    (t, u)
}
