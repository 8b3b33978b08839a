//! A global allocator that, while tracking is on, notices blocks that are
//! freed twice or written after being freed (freed blocks are filled with a
//! pattern and kept until the end of the case) and counts blocks never freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, Ordering};

const SLOTS: usize = 1 << 16;
const FILL: u8 = 0xDD;

#[derive(Clone, Copy)]
struct Slot {
    ptr: usize,
    size: usize,
    align: usize,
    freed: bool,
}

struct Table {
    slots: UnsafeCell<[Slot; SLOTS]>,
    used: UnsafeCell<usize>,
    double: UnsafeCell<usize>,
}
unsafe impl Sync for Table {}

static TABLE: Table = Table {
    slots: UnsafeCell::new([Slot { ptr: 0, size: 0, align: 0, freed: false }; SLOTS]),
    used: UnsafeCell::new(0),
    double: UnsafeCell::new(0),
};
static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);

fn lock() {
    while LOCK.compare_exchange(false, true, Ordering::SeqCst, Ordering::SeqCst).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, Ordering::SeqCst);
}

pub struct Tracking;

unsafe fn find(p: usize) -> Option<usize> {
    let used = *TABLE.used.get();
    let slots = &*TABLE.slots.get();
    // the newest entry for an address is the one that counts
    for i in (0..used).rev() {
        if slots[i].ptr == p {
            return Some(i);
        }
    }
    None
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if ON.load(Ordering::SeqCst) && !p.is_null() {
            lock();
            let used = &mut *TABLE.used.get();
            if *used < SLOTS {
                (&mut *TABLE.slots.get())[*used] = Slot { ptr: p as usize, size: l.size(), align: l.align(), freed: false };
                *used += 1;
            }
            unlock();
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if *TABLE.used.get() > 0 {
            lock();
            if let Some(i) = find(p as usize) {
                let s = &mut (&mut *TABLE.slots.get())[i];
                if s.freed {
                    *TABLE.double.get() += 1;
                } else {
                    s.freed = true;
                    std::ptr::write_bytes(p, FILL, s.size);
                }
                unlock();
                return; // kept until the end of the case
            }
            unlock();
        }
        System.dealloc(p, l);
    }
}

#[global_allocator]
static GLOBAL: Tracking = Tracking;

pub fn on() {
    ON.store(true, Ordering::SeqCst);
}
pub fn off() {
    ON.store(false, Ordering::SeqCst);
}

pub struct Report {
    pub double_frees: usize,
    pub written_after_free: usize,
    pub leaked: usize,
}

/// Ends a case: reports, and gives the kept blocks back to the system
pub fn report() -> Report {
    off();
    lock();
    let mut r = Report { double_frees: 0, written_after_free: 0, leaked: 0 };
    unsafe {
        let used = *TABLE.used.get();
        let slots = &mut *TABLE.slots.get();
        for i in 0..used {
            let s = slots[i];
            if s.freed {
                let block = std::slice::from_raw_parts(s.ptr as *const u8, s.size);
                if block.iter().any(|&b| b != FILL) {
                    r.written_after_free += 1;
                }
                System.dealloc(s.ptr as *mut u8, Layout::from_size_align_unchecked(s.size, s.align));
            } else {
                r.leaked += 1;
            }
        }
        r.double_frees = *TABLE.double.get();
        *TABLE.double.get() = 0;
        *TABLE.used.get() = 0;
    }
    unlock();
    r
}
