//! A checking global allocator: the memory oracle of the harness.
//!
//! Every block carries a header and a tail canary. On release the layout is compared with the one
//! the block was requested with, the canary is verified, the block is poisoned and parked in a
//! quarantine, so that a later read of it yields poison and a later write or second release is
//! noticed. Nothing here allocates or panics: problems are recorded and the engine asks for them
//! after every case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

const LIVE: u64 = 0x4c49_5645_b10c_4c49;
const DEAD: u64 = 0xdead_b10c_dead_b10c;
const HEAD: usize = 64;
const TAIL: usize = 32;
const TAIL_BYTE: u8 = 0xC7;
const FRESH: u8 = 0xA5;
const POISON: u8 = 0xDB;

#[repr(C)]
struct Header {
    magic: u64,
    size: u64,
    align: u64,
    serial: u64,
}

pub struct Ledger;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None = 0,
    DoubleFree = 1,
    LayoutMismatch = 2,
    Overrun = 3,
    UnknownBlock = 4,
    WriteAfterFree = 5,
}

static FAULT: AtomicU64 = AtomicU64::new(0);
static FAULT_A: AtomicU64 = AtomicU64::new(0);
static FAULT_B: AtomicU64 = AtomicU64::new(0);
static SERIAL: AtomicU64 = AtomicU64::new(1);
static FAIL_ARMED: AtomicBool = AtomicBool::new(false);
static FAIL_SIZE: AtomicUsize = AtomicUsize::new(0);
static FAIL_ALIGN: AtomicUsize = AtomicUsize::new(0);
static FAIL_HITS: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static COUNT: Cell<Option<Stats>> = const { Cell::new(None) };
}

/// What the allocator saw during one measured call
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Stats {
    pub allocs: u64,
    pub frees: u64,
    /// Layout and address of the last allocation
    pub last_size: usize,
    pub last_align: usize,
    pub last_ptr: usize,
    /// Address of the last release
    pub freed_ptr: usize,
    /// Size and align given for the last release
    pub freed_size: usize,
    pub freed_align: usize,
}

const QN: usize = 2048;
struct Quarantine {
    slots: [(usize, usize, usize); QN], // (user ptr, size, align)
    at: usize,
    bytes: usize,
}
static mut QUAR: Quarantine = Quarantine {
    slots: [(0, 0, 0); QN],
    at: 0,
    bytes: 0,
};
static QLOCK: AtomicBool = AtomicBool::new(false);

fn set_fault(f: Fault, a: u64, b: u64) {
    if FAULT.compare_exchange(0, f as u64, Relaxed, Relaxed).is_ok() {
        FAULT_A.store(a, Relaxed);
        FAULT_B.store(b, Relaxed);
    }
}

/// The first memory fault since the last call, described
pub fn take_fault() -> Option<String> {
    let f = FAULT.swap(0, Relaxed);
    let (a, b) = (FAULT_A.load(Relaxed), FAULT_B.load(Relaxed));
    match f {
        0 => None,
        1 => Some("a heap block was released twice".to_string()),
        2 => Some(format!(
            "a heap block was released with another layout than it was requested with (requested size {} align {}, released size {} align {})",
            a >> 32, a & 0xffff_ffff, b >> 32, b & 0xffff_ffff
        )),
        3 => Some(format!("a write past the end of a heap block of {a} bytes")),
        4 => Some("an address which is no heap block was released".to_string()),
        _ => Some("a heap block was written to after it was released".to_string()),
    }
}

fn full(size: usize, align: usize) -> (usize, Layout) {
    let pre = HEAD.max(align);
    (
        pre,
        Layout::from_size_align(pre + size + TAIL, align.max(16)).unwrap(),
    )
}

unsafe fn header(p: usize) -> *mut Header {
    (p - HEAD) as *mut Header
}

unsafe fn evict(slot: (usize, usize, usize)) {
    let (p, size, align) = slot;
    let b = p as *const u8;
    let words = size / 8;
    let mut bad = false;
    let want = u64::from_ne_bytes([POISON; 8]);
    for i in 0..words {
        bad |= (b.add(i * 8) as *const u64).read_unaligned() != want;
    }
    for i in words * 8..size {
        bad |= b.add(i).read() != POISON;
    }
    if bad {
        set_fault(Fault::WriteAfterFree, 0, 0);
    }
    let (pre, l) = full(size, align);
    System.dealloc((p - pre) as *mut u8, l);
}

fn qlock() {
    while QLOCK.compare_exchange(false, true, std::sync::atomic::Ordering::Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn qunlock() {
    QLOCK.store(false, std::sync::atomic::Ordering::Release);
}

unsafe fn park(p: usize, size: usize, align: usize) {
    qlock();
    let q = &mut *std::ptr::addr_of_mut!(QUAR);
    let i = q.at % QN;
    let old = q.slots[i];
    q.slots[i] = (p, size, align);
    q.at += 1;
    q.bytes += size;
    if old.0 != 0 {
        q.bytes -= old.1;
        evict(old);
    }
    // Bound the bytes held back: oldest first
    let mut j = q.at;
    let mut n = 0;
    while q.bytes > 64 << 20 && n < QN - 1 {
        let k = j % QN;
        let s = q.slots[k];
        if s.0 != 0 {
            q.slots[k] = (0, 0, 0);
            q.bytes -= s.1;
            evict(s);
        }
        j += 1;
        n += 1;
    }
    qunlock();
}

/// Check every block in quarantine for late writes
pub fn sweep() {
    unsafe {
        qlock();
        let q = &mut *std::ptr::addr_of_mut!(QUAR);
        for k in 0..QN {
            let s = q.slots[k];
            if s.0 != 0 {
                q.slots[k] = (0, 0, 0);
                q.bytes -= s.1;
                evict(s);
            }
        }
        qunlock();
    }
}

unsafe impl GlobalAlloc for Ledger {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if FAIL_ARMED.load(Relaxed)
            && l.size() == FAIL_SIZE.load(Relaxed)
            && l.align() == FAIL_ALIGN.load(Relaxed)
        {
            FAIL_HITS.fetch_add(1, Relaxed);
            FAIL_ARMED.store(false, Relaxed);
            return std::ptr::null_mut();
        }
        let (pre, f) = full(l.size(), l.align());
        let base = System.alloc(f);
        if base.is_null() {
            return base;
        }
        let p = base.add(pre);
        let h = header(p as usize);
        (*h).magic = LIVE;
        (*h).size = l.size() as u64;
        (*h).align = l.align() as u64;
        (*h).serial = SERIAL.fetch_add(1, Relaxed);
        std::ptr::write_bytes(p, FRESH, l.size());
        std::ptr::write_bytes(p.add(l.size()), TAIL_BYTE, TAIL);
        let _ = COUNT.try_with(|c| {
            if let Some(mut s) = c.get() {
                s.allocs += 1;
                s.last_size = l.size();
                s.last_align = l.align();
                s.last_ptr = p as usize;
                c.set(Some(s));
            }
        });
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = COUNT.try_with(|c| {
            if let Some(mut s) = c.get() {
                s.frees += 1;
                s.freed_ptr = p as usize;
                s.freed_size = l.size();
                s.freed_align = l.align();
                c.set(Some(s));
            }
        });
        release(p as usize, Some(l));
    }
}

unsafe fn release(p: usize, l: Option<Layout>) {
    let h = header(p);
    match (*h).magic {
        LIVE => {}
        DEAD => return set_fault(Fault::DoubleFree, 0, 0),
        _ => return set_fault(Fault::UnknownBlock, 0, 0),
    }
    let (size, align) = ((*h).size as usize, (*h).align as usize);
    if let Some(l) = l {
        if l.size() != size || l.align() != align {
            set_fault(
                Fault::LayoutMismatch,
                ((size as u64) << 32) | align as u64,
                ((l.size() as u64) << 32) | l.align() as u64,
            );
        }
    }
    let tail = (p + size) as *const u8;
    for i in 0..TAIL {
        if tail.add(i).read() != TAIL_BYTE {
            set_fault(Fault::Overrun, size as u64, 0);
            break;
        }
    }
    (*h).magic = DEAD;
    std::ptr::write_bytes(p as *mut u8, POISON, size);
    park(p, size, align);
}

/// Run `f` and report what it did to the heap on this thread
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Stats) {
    COUNT.with(|c| c.set(Some(Stats::default())));
    let r = f();
    let s = COUNT.with(|c| c.replace(None)).unwrap_or_default();
    (r, s)
}

/// Stop measuring, e.g. after a panic went through `measure`
pub fn unmeasure() {
    COUNT.with(|c| c.set(None));
}

/// The serial number of the live heap block starting at `p`.
/// Only for addresses that are, or were, the start of a block of this allocator.
pub fn serial(p: usize) -> Option<u64> {
    if cfg!(miri) {
        return Some(0);
    }
    unsafe {
        let h = header(p);
        ((*h).magic == LIVE).then(|| (*h).serial)
    }
}

/// The layout the live heap block starting at `p` was requested with
pub fn layout(p: usize) -> Option<(usize, usize)> {
    unsafe {
        let h = header(p);
        ((*h).magic == LIVE).then(|| ((*h).size as usize, (*h).align as usize))
    }
}

/// Release a block the code under test left behind, if it's still that block
pub fn reclaim(p: usize, serial_then: u64) {
    if cfg!(miri) {
        return;
    }
    unsafe {
        let h = header(p);
        if (*h).magic == LIVE && (*h).serial == serial_then {
            release(p, None);
        }
    }
}

/// Make the next request of exactly this layout fail
pub fn arm_failure(size: usize, align: usize) {
    FAIL_SIZE.store(size, Relaxed);
    FAIL_ALIGN.store(align, Relaxed);
    FAIL_HITS.store(0, Relaxed);
    FAIL_ARMED.store(true, Relaxed);
}

pub fn disarm() -> usize {
    FAIL_ARMED.store(false, Relaxed);
    FAIL_HITS.load(Relaxed)
}
