//! An allocator that makes use of freed memory visible: freed blocks are overwritten and kept in
//! quarantine, and growing a block always moves it (realloc is the default alloc+copy+free).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

thread_local! {
    /// Freed memory is given out again at once, so that addresses repeat.
    static REUSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Runs with the memory of this thread given out again at once.
pub fn reusing<T>(f: impl FnOnce() -> T) -> T {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            REUSE.with(|r| r.set(self.0));
        }
    }
    let _reset = Reset(REUSE.with(|r| r.replace(true)));
    f()
}

const SLOTS: usize = 1 << 15;
const MAX_BYTES: usize = 96 << 20;

pub struct Poison {
    lock: AtomicBool,
    ring: UnsafeCell<[(usize, usize, usize); SLOTS]>,
    head: AtomicUsize,
    tail: AtomicUsize,
    bytes: AtomicUsize,
}
unsafe impl Sync for Poison {}

impl Poison {
    pub const fn new() -> Poison {
        Poison {
            lock: AtomicBool::new(false),
            ring: UnsafeCell::new([(0, 0, 0); SLOTS]),
            head: AtomicUsize::new(0),
            tail: AtomicUsize::new(0),
            bytes: AtomicUsize::new(0),
        }
    }
}

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc(layout);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0xCB, layout.size().min(1 << 16));
        }
        p
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        std::ptr::write_bytes(ptr, 0xDE, layout.size());
        if layout.size() > (1 << 20) || REUSE.with(|r| r.get()) {
            System.dealloc(ptr, layout);
            return;
        }
        while self.lock.swap(true, Ordering::Acquire) {
            std::hint::spin_loop();
        }
        let ring = &mut *self.ring.get();
        let (mut head, mut tail, mut bytes) =
            (self.head.load(Ordering::Relaxed), self.tail.load(Ordering::Relaxed), self.bytes.load(Ordering::Relaxed));
        while head - tail >= SLOTS || (bytes + layout.size() > MAX_BYTES && head > tail) {
            let (p, s, a) = ring[tail % SLOTS];
            System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(s, a));
            tail += 1;
            bytes -= s;
        }
        ring[head % SLOTS] = (ptr as usize, layout.size(), layout.align());
        head += 1;
        bytes += layout.size();
        self.head.store(head, Ordering::Relaxed);
        self.tail.store(tail, Ordering::Relaxed);
        self.bytes.store(bytes, Ordering::Relaxed);
        self.lock.store(false, Ordering::Release);
    }
}
