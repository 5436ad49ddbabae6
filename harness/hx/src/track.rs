// An allocator that, while a thread is being watched, keeps released blocks (overwritten) instead of reusing them, so
// that a use after release is visible and a second release is counted instead of crashing.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
pub struct Track;
struct Log { dead: Vec<(usize, Layout)>, twice: usize }
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static LOG: UnsafeCell<Log> = const { UnsafeCell::new(Log { dead: Vec::new(), twice: 0 }) };
}
unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let on = ON.try_with(|x| x.get()).unwrap_or(false) && !BUSY.try_with(|x| x.replace(true)).unwrap_or(true);
        if !on { System.dealloc(p, l); return; }
        LOG.with(|g| {
            let g = &mut *g.get();
            if g.dead.iter().any(|(q, _)| *q == p as usize) { g.twice += 1; }
            else { std::ptr::write_bytes(p, 0xA5, l.size()); g.dead.push((p as usize, l)); }
        });
        BUSY.with(|x| x.set(false));
    }
}
pub fn start() { ON.with(|x| x.set(true)); }
/// Was the block at this address released since the watch began?
pub fn released<T>(p: *const T) -> bool { LOG.with(|g| unsafe { (*g.get()).dead.iter().any(|(q, _)| *q == p as usize) }) }
pub fn twice() -> usize { LOG.with(|g| unsafe { (*g.get()).twice }) }
pub fn stop() {
    ON.with(|x| x.set(false));
    LOG.with(|g| unsafe {
        let g = &mut *g.get();
        for (p, l) in g.dead.drain(..) { System.dealloc(p as *mut u8, l); }
        g.twice = 0;
    });
}
/// Watch until dropped.
pub struct Watch;
impl Drop for Watch { fn drop(&mut self) { stop(); } }
pub fn watch() -> Watch { start(); Watch }
