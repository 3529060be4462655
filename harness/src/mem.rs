//! Counting allocator: what one thread holds on the heap, and the most it held.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; static PEAK: Cell<i64> = const { Cell::new(0) }; static BLOCKS: Cell<u64> = const { Cell::new(0) }; }
pub struct Counting;
fn add(n: i64) { let _ = LIVE.try_with(|l| { let v = l.get() + n; l.set(v); if n > 0 { let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); let _ = BLOCKS.try_with(|b| b.set(b.get() + 1)); } }); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); if !p.is_null() { add(l.size() as i64); } p }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { let p = System.alloc_zeroed(l); if !p.is_null() { add(l.size() as i64); } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l); add(-(l.size() as i64)); }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { let q = System.realloc(p, l, n); if !q.is_null() { add(n as i64 - l.size() as i64); } q }
}
/// Bytes live on this thread's account now.
pub fn live() -> i64 { LIVE.with(|l| l.get()) }
/// Starts a measurement; `since` then gives (bytes more than at the start, most bytes more at any time, blocks taken).
pub fn mark() -> (i64, u64) { let l = live(); PEAK.with(|p| p.set(l)); (l, BLOCKS.with(|b| b.get())) }
pub fn since(m: (i64, u64)) -> (i64, i64, u64) { (live() - m.0, PEAK.with(|p| p.get()) - m.0, BLOCKS.with(|b| b.get()) - m.1) }
