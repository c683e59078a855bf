//! Memory used by the current thread (fed by the allocator of the native back end).
use std::cell::Cell;
thread_local! { static NOW: Cell<isize> = const { Cell::new(0) }; static PEAK: Cell<isize> = const { Cell::new(0) }; }
#[inline]
pub fn add(n: usize) { let _ = NOW.try_with(|c| { let v = c.get() + n as isize; c.set(v); let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); }); }
#[inline]
pub fn sub(n: usize) { let _ = NOW.try_with(|c| c.set(c.get() - n as isize)); }
/// Start measuring from what is in use now.
pub fn reset() { NOW.with(|c| c.set(0)); PEAK.with(|c| c.set(0)) }
/// Most memory in use at once since the last reset.
pub fn peak() -> usize { PEAK.with(|c| c.get().max(0) as usize) }
/// A new scratch directory.
pub fn scratch() -> std::path::PathBuf {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let d = std::env::temp_dir().join(format!("rhverify-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    d
}
