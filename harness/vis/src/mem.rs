//! An allocator which counts what each thread has allocated.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}
pub struct Counting;
fn add(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
        let _ = BIGGEST.try_with(|p| p.set(p.get().max(n)));
        let _ = COUNT.try_with(|p| p.set(p.get() + 1));
        let _ = TOTAL.try_with(|p| p.set(p.get() + n as u64));
    });
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

#[derive(Debug, Clone, Copy)]
pub struct Used {
    /// most that was in use at once, over what was in use beforehand.
    pub peak: i64,
    /// the biggest allocation
    pub biggest: usize,
    /// how many allocations were made
    pub count: u64,
    /// how many bytes were allocated, whether or not they were given back
    pub total: u64,
}
/// What does this allocate?
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Used) {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    BIGGEST.with(|p| p.set(0));
    let count = COUNT.with(|p| p.get());
    let total = TOTAL.with(|p| p.get());
    let r = f();
    let u = Used {
        peak: PEAK.with(|p| p.get()) - live,
        biggest: BIGGEST.with(|p| p.get()),
        count: COUNT.with(|p| p.get()) - count,
        total: TOTAL.with(|p| p.get()) - total,
    };
    (r, u)
}
