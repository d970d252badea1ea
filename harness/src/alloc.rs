//! The allocator the harness runs under.  Blocks allocated inside `api` are
//! followed: fresh memory holds a pattern, freed memory is poisoned and held
//! back, every block has a canary behind it, growing always moves, and blocks
//! that are freed wrongly or written after they were freed are counted.
//! Fenced blocks moreover end where a page without access begins, and lose
//! access when they are freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub struct Monitor;

#[global_allocator]
static GLOBAL: Monitor = Monitor;

const HEAD: usize = 32;
const TAIL: usize = 16;
const LIVE: u64 = 0x4c49_5645_b10c_0001;
const FOLLOWED: u64 = 0x4c49_5645_b10c_0002;
const FREED: u64 = 0xdead_b10c_dead_b10c;
const CANARY: u8 = 0xc5;
const FRESH: u8 = 0xcd;
const POISON: u8 = 0xdd;

static ON: AtomicBool = AtomicBool::new(false);
static BAD: AtomicU64 = AtomicU64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static IN_API: Cell<bool> = const { Cell::new(false) };
}

/// Monitoring on (for the rest of the run).
pub fn start() {
    ON.store(true, SeqCst);
}
/// What is allocated in here is followed until it is freed.
pub fn api<T, F: FnOnce() -> T>(f: F) -> T {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            IN_API.with(|c| c.set(self.0));
        }
    }
    let _back = Back(IN_API.with(|c| c.replace(true)));
    f()
}
pub fn bad() -> u64 {
    BAD.load(SeqCst)
}
/// followed blocks not yet freed
pub fn blocks() -> i64 {
    BLOCKS.load(SeqCst)
}
/// followed blocks allocated so far
pub fn total() -> u64 {
    TOTAL.load(SeqCst)
}

// blocks that were freed, kept so that a late write or read shows
const RING: usize = 4096;
const RING_BYTES: usize = 16 << 20;
struct Ring {
    at: usize,
    n: usize,
    bytes: usize,
    items: [(usize, usize, usize); RING], // base, whole size, align
}
struct Locked(std::cell::UnsafeCell<Ring>);
unsafe impl Sync for Locked {}
static RING_LOCK: AtomicBool = AtomicBool::new(false);
static HELD: Locked = Locked(std::cell::UnsafeCell::new(Ring { at: 0, n: 0, bytes: 0, items: [(0, 0, 0); RING] }));

fn with_ring<T, F: FnOnce(&mut Ring) -> T>(f: F) -> T {
    while RING_LOCK.swap(true, SeqCst) {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *HELD.0.get() });
    RING_LOCK.store(false, SeqCst);
    r
}
unsafe fn check_poison(base: usize, whole: usize, off: usize) {
    let user = base + off;
    let size = whole - off - TAIL;
    let s = std::slice::from_raw_parts(user as *const u8, size);
    if s.iter().any(|&b| b != POISON) {
        BAD.fetch_add(1, SeqCst);
    }
}
unsafe fn release(item: (usize, usize, usize)) {
    let off = offset(item.2);
    check_poison(item.0, item.1, off);
    System.dealloc(item.0 as *mut u8, Layout::from_size_align_unchecked(item.1, item.2.max(16)));
}
fn hold(item: (usize, usize, usize)) {
    with_ring(|r| unsafe {
        while r.n == RING || (r.n > 0 && r.bytes + item.1 > RING_BYTES) {
            let old = r.items[r.at];
            r.at = (r.at + 1) % RING;
            r.n -= 1;
            r.bytes -= old.1;
            release(old);
        }
        let e = (r.at + r.n) % RING;
        r.items[e] = item;
        r.n += 1;
        r.bytes += item.1;
    });
}
/// Let go of everything held back, looking for late writes.
pub fn sweep() {
    with_ring(|r| unsafe {
        while r.n > 0 {
            let old = r.items[r.at];
            r.at = (r.at + 1) % RING;
            r.n -= 1;
            r.bytes -= old.1;
            release(old);
        }
    });
}

// Fenced blocks end at the end of a page, behind which nothing may be touched;
// when they are freed nothing of them may be touched either.
extern "C" {
    fn mmap(at: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(at: *mut u8, len: usize, prot: i32) -> i32;
    fn madvise(at: *mut u8, len: usize, advice: i32) -> i32;
}
const PAGE: usize = 4096;
const YARD: usize = 2 << 30;
static YARD_AT: AtomicUsize = AtomicUsize::new(0);
static YARD_USED: AtomicUsize = AtomicUsize::new(0);
static FENCED: AtomicBool = AtomicBool::new(false);

/// Blocks allocated from here on are fenced, or not.
pub fn fence(on: bool) {
    if on && YARD_AT.load(SeqCst) == 0 {
        // PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
        let at = unsafe { mmap(std::ptr::null_mut(), YARD, 0, 0x4022, -1, 0) };
        if at as isize == -1 {
            return;
        }
        YARD_AT.store(at as usize, SeqCst);
    }
    if blocks() == 0 && YARD_USED.load(SeqCst) > YARD / 2 {
        YARD_USED.store(0, SeqCst);
    }
    FENCED.store(on, SeqCst);
}
pub fn fencing() -> bool {
    FENCED.load(SeqCst)
}
fn in_yard(user: *mut u8) -> bool {
    let at = YARD_AT.load(SeqCst);
    at != 0 && (user as usize) >= at && (user as usize) < at + YARD
}
fn span(size: usize) -> usize {
    (size + HEAD + PAGE - 1) / PAGE * PAGE
}
unsafe fn fenced(l: Layout) -> *mut u8 {
    let whole = span(l.size() + l.align());
    let from = YARD_USED.fetch_add(whole + PAGE, SeqCst);
    if from + whole + PAGE > YARD {
        return std::ptr::null_mut();
    }
    let base = (YARD_AT.load(SeqCst) + from) as *mut u8;
    if mprotect(base, whole, 3) != 0 {
        return std::ptr::null_mut();
    }
    let user = ((base as usize + whole - l.size()) & !(l.align() - 1)) as *mut u8;
    let slack = base as usize + whole - (user as usize + l.size());
    std::ptr::write_bytes(user.add(l.size()), CANARY, slack);
    std::ptr::write_bytes(user, FRESH, l.size());
    let head = user.sub(HEAD) as *mut u64;
    head.write_unaligned(FOLLOWED);
    head.add(1).write_unaligned(l.size() as u64);
    head.add(2).write_unaligned(l.align() as u64);
    head.add(3).write_unaligned(base as u64);
    user
}
unsafe fn unfence(user: *mut u8, l: Layout) {
    let head = user.sub(HEAD) as *mut u64;
    let whole = span(l.size() + l.align());
    let base = head.add(3).read_unaligned() as usize;
    if head.read_unaligned() != FOLLOWED
        || head.add(1).read_unaligned() != l.size() as u64
        || head.add(2).read_unaligned() != l.align() as u64
        || base % PAGE != 0
    {
        BAD.fetch_add(1, SeqCst);
        return;
    }
    let slack = base + whole - (user as usize + l.size());
    let tail = std::slice::from_raw_parts(user.add(l.size()), slack);
    if tail.iter().any(|&b| b != CANARY) {
        BAD.fetch_add(1, SeqCst);
    }
    BLOCKS.fetch_sub(1, SeqCst);
    madvise(base as *mut u8, whole, 4);
    mprotect(base as *mut u8, whole, 0);
}
/// The text, allocated so that nothing may be read behind it.
pub fn tight(s: &str) -> String {
    api(|| s.to_string())
}

/// The same while fencing; a plain copy otherwise.
pub fn fit(s: &str) -> String {
    if fencing() { tight(s) } else { s.to_string() }
}

fn offset(align: usize) -> usize {
    (HEAD + align - 1) / align * align
}

unsafe impl GlobalAlloc for Monitor {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if FENCED.load(SeqCst) && ON.load(SeqCst) && IN_API.try_with(|c| c.get()).unwrap_or(false) {
            let user = fenced(l);
            if !user.is_null() {
                BLOCKS.fetch_add(1, SeqCst);
                TOTAL.fetch_add(1, SeqCst);
                return user;
            }
        }
        let off = offset(l.align());
        let whole = off + l.size() + TAIL;
        let base = System.alloc(Layout::from_size_align_unchecked(whole, l.align().max(16)));
        if base.is_null() {
            return base;
        }
        let user = base.add(off);
        let follow = ON.load(SeqCst) && IN_API.try_with(|c| c.get()).unwrap_or(false);
        let head = user.sub(HEAD) as *mut u64;
        head.write_unaligned(if follow { FOLLOWED } else { LIVE });
        head.add(1).write_unaligned(l.size() as u64);
        head.add(2).write_unaligned(l.align() as u64);
        std::ptr::write_bytes(user.add(l.size()), CANARY, TAIL);
        if follow {
            std::ptr::write_bytes(user, FRESH, l.size());
            BLOCKS.fetch_add(1, SeqCst);
            TOTAL.fetch_add(1, SeqCst);
        }
        user
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        if in_yard(user) {
            return unfence(user, l);
        }
        let head = user.sub(HEAD) as *mut u64;
        let magic = head.read_unaligned();
        if magic != LIVE && magic != FOLLOWED {
            BAD.fetch_add(1, SeqCst); // freed twice, or never allocated
            return;
        }
        if head.add(1).read_unaligned() != l.size() as u64 || head.add(2).read_unaligned() != l.align() as u64 {
            BAD.fetch_add(1, SeqCst);
            return;
        }
        let tail = std::slice::from_raw_parts(user.add(l.size()), TAIL);
        if tail.iter().any(|&b| b != CANARY) {
            BAD.fetch_add(1, SeqCst);
        }
        let off = offset(l.align());
        let whole = off + l.size() + TAIL;
        let base = user.sub(off);
        head.write_unaligned(FREED);
        if magic == FOLLOWED {
            BLOCKS.fetch_sub(1, SeqCst);
            std::ptr::write_bytes(user, POISON, l.size());
            hold((base as usize, whole, l.align()));
        } else {
            System.dealloc(base, Layout::from_size_align_unchecked(whole, l.align().max(16)));
        }
    }
    unsafe fn realloc(&self, user: *mut u8, l: Layout, size: usize) -> *mut u8 {
        // always moves
        let new = self.alloc(Layout::from_size_align_unchecked(size, l.align()));
        if !new.is_null() {
            std::ptr::copy_nonoverlapping(user, new, l.size().min(size));
            self.dealloc(user, l);
        }
        new
    }
}
