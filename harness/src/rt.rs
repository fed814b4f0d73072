//! Runtime accounting around calls into the library: executed edges, heap use, panics, and the shared
//! record of the case being run (which survives a crash of the worker process).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const EXIT_FUEL: i32 = 77;
pub const EXIT_MEM: i32 = 78;

extern "C" {
    fn clock_gettime(id: i32, t: *mut i64) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

// ---- executed edges -------------------------------------------------------------------------

pub const MAP: usize = 1 << 16;
pub struct Cov(UnsafeCell<[u8; MAP]>);
unsafe impl Sync for Cov {}
pub static COV: Cov = Cov(UnsafeCell::new([0; MAP]));
static GUARDS: AtomicUsize = AtomicUsize::new(0);
static FUEL: AtomicI64 = AtomicI64::new(i64::MAX);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    while s < e {
        let g = GUARDS.load(Relaxed) + 1;
        GUARDS.store(g, Relaxed);
        *s = (g % MAP) as u32;
        s = s.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let c = (COV.0.get() as *mut u8).add(*g as usize);
    *c = (*c).saturating_add(1);
    let f = FUEL.load(Relaxed);
    FUEL.store(f - 1, Relaxed);
    if f <= 0 {
        _exit(EXIT_FUEL);
    }
}

pub fn guards() -> usize {
    GUARDS.load(Relaxed)
}
pub fn cov_reset() {
    unsafe {
        std::ptr::write_bytes(COV.0.get() as *mut u8, 0, (guards() + 1).min(MAP));
    }
}
/// Bucketed hit counts of the last run, as (guard, bucket) pairs handed to f.
pub fn cov_each(mut f: impl FnMut(usize, u8)) {
    let m = unsafe { &*COV.0.get() };
    for i in 1..(guards() + 1).min(MAP) {
        if m[i] != 0 {
            let b = match m[i] {
                1 => 1,
                2 => 2,
                3 => 4,
                4..=7 => 8,
                8..=15 => 16,
                16..=31 => 32,
                32..=127 => 64,
                _ => 128,
            };
            f(i, b);
        }
    }
}

// ---- heap -----------------------------------------------------------------------------------

pub struct Counting;
static ARMED: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicI64 = AtomicI64::new(0);
static CAP: AtomicI64 = AtomicI64::new(i64::MAX);

#[inline]
fn grow(by: i64) {
    if ARMED.load(Relaxed) {
        if by > 0 {
            TOTAL.store(TOTAL.load(Relaxed) + by, Relaxed);
        }
        let l = LIVE.fetch_add(by, Relaxed) + by;
        if l > PEAK.load(Relaxed) {
            PEAK.store(l, Relaxed);
            if l > CAP.load(Relaxed) {
                unsafe { _exit(EXIT_MEM) }
            }
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        grow(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        TOTAL.store(TOTAL.load(Relaxed) + if ARMED.load(Relaxed) { l.size() as i64 } else { 0 }, Relaxed);
        grow(new as i64 - l.size() as i64);
        System.realloc(p, l, new)
    }
}

/// Edges and peak heap bytes of the last measured call.
#[derive(Clone, Copy, Default, Debug)]
pub struct Cost {
    pub edges: i64,
    pub peak: i64,
    /// Bytes requested over the whole call.
    pub total: i64,
    /// Processor time of the thread.
    pub nanos: i64,
    /// Bytes still held at the end (the result included).
    pub live: i64,
}

fn cpu_nanos() -> i64 {
    let mut t = [0i64; 2];
    unsafe {
        clock_gettime(3, t.as_mut_ptr());
    }
    t[0] * 1_000_000_000 + t[1]
}

/// Runs f with an edge allowance and a heap cap. Exceeding either ends the process with the exit codes above
/// (the parent reproduces and reports it). Panics come back as Err.
pub fn measured<T>(fuel: i64, cap: i64, f: impl FnOnce() -> T) -> (Result<T, String>, Cost) {
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    TOTAL.store(0, Relaxed);
    CAP.store(cap, Relaxed);
    FUEL.store(fuel, Relaxed);
    ARMED.store(true, Relaxed);
    let t0 = cpu_nanos();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let nanos = cpu_nanos() - t0;
    ARMED.store(false, Relaxed);
    let left = FUEL.load(Relaxed);
    FUEL.store(i64::MAX, Relaxed);
    let cost = Cost { edges: fuel - left, peak: PEAK.load(Relaxed), total: TOTAL.load(Relaxed), nanos, live: LIVE.load(Relaxed) };
    let r = r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()));
    (r, cost)
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        if !ARMED.load(Relaxed) {
            eprintln!("harness panic: {}", text);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

// ---- the record of the running case ---------------------------------------------------------

pub const REC_WORDS: usize = 1 << 20;
const HEAD: usize = 8;

/// Layout (u64 words): phase, kind (0 tape, 1 bytes), index, length, then tape words or bytes.
pub struct Record {
    p: *mut u64,
}
static REC: AtomicU64 = AtomicU64::new(0);

pub fn open_record(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(path)
        .expect("record file");
    f.set_len(((REC_WORDS + HEAD) * 8) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), (REC_WORDS + HEAD) * 8, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    REC.store(p as u64, Relaxed);
}

pub fn rec() -> Record {
    let p = REC.load(Relaxed) as *mut u64;
    assert!(!p.is_null());
    Record { p }
}

impl Record {
    pub fn start(&self, phase: usize, kind: u64, index: u64) {
        unsafe {
            *self.p = phase as u64;
            *self.p.add(1) = kind;
            *self.p.add(2) = index;
            *self.p.add(3) = 0;
        }
    }
    #[inline]
    pub fn put(&self, pos: usize, v: u64) {
        if pos < REC_WORDS {
            unsafe {
                *self.p.add(HEAD + pos) = v;
                *self.p.add(3) = pos as u64 + 1;
            }
        }
    }
    pub fn put_bytes(&self, b: &[u8]) {
        let k = b.len().min(REC_WORDS * 8);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(HEAD) as *mut u8, k);
            *self.p.add(3) = k as u64;
        }
    }
    pub fn tape(&self) -> Vec<u64> {
        unsafe {
            let k = *self.p.add(3) as usize;
            (0..k.min(REC_WORDS)).map(|i| *self.p.add(HEAD + i)).collect()
        }
    }
}

/// What a record file holds: (phase, index, case).
pub fn read_record(path: &str) -> Option<(usize, u64, crate::engine::Case)> {
    let b = std::fs::read(path).ok()?;
    let w = |i: usize| u64::from_ne_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    let k = w(3) as usize;
    let case = if w(1) == 0 {
        crate::engine::Case::Tape((0..k.min(REC_WORDS)).map(|i| w(HEAD + i)).collect())
    } else {
        crate::engine::Case::Bytes(b[HEAD * 8..HEAD * 8 + k].to_vec())
    };
    Some((w(0) as usize, w(2), case))
}
