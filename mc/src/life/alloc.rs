//! Every allocation of this process, Rust's and C's, goes through here: layouts are checked on release, blocks carry
//! canaries, fresh memory has a chosen pattern, released memory is poisoned and kept back until the case is over.
//! Also the scheduler's hook: each call is a scheduling point for controlled threads.
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};

extern "C" {
    fn __libc_malloc(n: usize) -> *mut u8;
    fn __libc_free(p: *mut u8);
}
const LIVE: u64 = 0x6c69_7665_b10c_0001;
const DEAD: u64 = 0xdead_dead_b10c_0002;
const CANARY: u64 = 0xc0a7_a11e_5eed_0003;
const POISON: u8 = 0xdd;

#[repr(C)]
struct Head { magic: u64, size: usize, raw: *mut u8, align: usize } // align 0: allocated by C

pub static FILL: AtomicU8 = AtomicU8::new(0xa5);
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static BYTES: AtomicI64 = AtomicI64::new(0);
static WATCH: AtomicBool = AtomicBool::new(false);
/// First memory error of the case: 0 none.
static ERR: AtomicU64 = AtomicU64::new(0);
pub static CALLS: AtomicU64 = AtomicU64::new(0);

const ERRS: [&str; 8] = ["", "released with another layout than it was allocated with", "released twice", "released although it was never allocated",
    "written past its end", "written after it was released", "allocated by Rust, released by C", "allocated by C, released by Rust"];
fn err(code: u64) { let _ = ERR.compare_exchange(0, code, SeqCst, SeqCst); }

// blocks kept back
const NQ: usize = 1 << 16;
static QN: AtomicUsize = AtomicUsize::new(0);
static mut QUAR: [*mut u8; NQ] = [std::ptr::null_mut(); NQ];

/// Start watching: errors cleared, released blocks are kept back.
pub fn watch() { ERR.store(0, SeqCst); QN.store(0, SeqCst); WATCH.store(true, SeqCst); }
/// Stop watching: releases what was kept back and returns the first error.
pub fn unwatch() -> Option<&'static str> {
    WATCH.store(false, SeqCst);
    let n = QN.load(SeqCst).min(NQ);
    for i in 0..n { unsafe {
        let p = QUAR[i];
        let h = &*(p.sub(32) as *const Head);
        for k in 0..h.size { if *p.add(k) != POISON { err(5); break; } }
        __libc_free(h.raw);
    } }
    QN.store(0, SeqCst);
    match ERR.load(SeqCst) { 0 => None, e => Some(ERRS[e as usize]) }
}

unsafe fn get(size: usize, align: usize, tag: usize, fill: Option<u8>) -> *mut u8 {
    super::sched::point();
    CALLS.fetch_add(1, SeqCst);
    let al = align.max(16);
    let Some(total) = size.checked_add(al + 32 + 8) else { return std::ptr::null_mut() };
    let raw = __libc_malloc(total);
    if raw.is_null() { return raw; }
    let p = ((raw as usize + 32 + al - 1) & !(al - 1)) as *mut u8;
    *(p.sub(32) as *mut Head) = Head { magic: LIVE, size, raw, align: tag };
    std::ptr::write_bytes(p, fill.unwrap_or(FILL.load(SeqCst)), size);
    (p.add(size) as *mut u64).write_unaligned(CANARY);
    BLOCKS.fetch_add(1, SeqCst); BYTES.fetch_add(size as i64, SeqCst);
    p
}
unsafe fn put(p: *mut u8, layout: Option<Layout>) {
    super::sched::point();
    if p.is_null() { return; }
    let h = &mut *(p.sub(32) as *mut Head);
    if h.magic != LIVE { err(if h.magic == DEAD { 2 } else { 3 }); return; }
    match layout {
        Some(l) => if h.align == 0 { err(7) } else if h.size != l.size() || h.align != l.align() { err(1) },
        None => if h.align != 0 { err(6) },
    }
    if (p.add(h.size) as *const u64).read_unaligned() != CANARY { err(4); }
    BLOCKS.fetch_sub(1, SeqCst); BYTES.fetch_sub(h.size as i64, SeqCst);
    h.magic = DEAD;
    std::ptr::write_bytes(p, POISON, h.size);
    if WATCH.load(SeqCst) {
        let i = QN.fetch_add(1, SeqCst);
        if i < NQ { QUAR[i] = p; return; }
    }
    __libc_free(h.raw);
}

pub struct Checked;
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { get(l.size(), l.align(), l.align(), None) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { get(l.size(), l.align(), l.align(), Some(0)) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { put(p, Some(l)) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = get(n, l.align(), l.align(), None);
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); put(p, Some(l)); }
        q
    }
}

#[no_mangle] pub unsafe extern "C" fn malloc(n: usize) -> *mut u8 { get(n, 16, 0, None) }
#[no_mangle] pub unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut u8 { match n.checked_mul(m) { Some(k) => get(k, 16, 0, Some(0)), None => std::ptr::null_mut() } }
#[no_mangle] pub unsafe extern "C" fn free(p: *mut u8) { put(p, None) }
#[no_mangle] pub unsafe extern "C" fn realloc(p: *mut u8, n: usize) -> *mut u8 {
    if p.is_null() { return malloc(n); }
    let q = malloc(n);
    if !q.is_null() {
        let h = &*(p.sub(32) as *const Head);
        if h.magic != LIVE { err(3); } else { std::ptr::copy_nonoverlapping(p, q, h.size.min(n)); put(p, None); }
    }
    q
}
#[no_mangle] pub unsafe extern "C" fn memalign(a: usize, n: usize) -> *mut u8 { get(n, a, 0, None) }
#[no_mangle] pub unsafe extern "C" fn aligned_alloc(a: usize, n: usize) -> *mut u8 { get(n, a, 0, None) }
#[no_mangle] pub unsafe extern "C" fn posix_memalign(out: *mut *mut u8, a: usize, n: usize) -> i32 { let p = get(n, a, 0, None); if p.is_null() { return 12; } *out = p; 0 }
#[no_mangle] pub unsafe extern "C" fn malloc_usable_size(p: *mut u8) -> usize { if p.is_null() { 0 } else { (*(p.sub(32) as *const Head)).size } }

/// A buffer whose end is the end of a page followed by an inaccessible one; the bytes before it are canaries.
pub struct Guarded { base: *mut u8, map: usize, pub p: *mut u8, pub n: usize }
impl Guarded {
    pub fn new(data: &[u8]) -> Guarded {
        let n = data.len();
        let body = (n + 64 + 4095) / 4096 * 4096;
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), body + 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(base as isize != -1);
            libc::mprotect(base.add(body).cast(), 4096, libc::PROT_NONE);
            std::ptr::write_bytes(base, 0x5a, body - n);
            let p = base.add(body - n);
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, n);
            Guarded { base, map: body + 4096, p, n }
        }
    }
    pub fn bytes(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.p, self.n) } }
    pub fn intact(&self) -> bool { unsafe { std::slice::from_raw_parts(self.base, self.p as usize - self.base as usize).iter().all(|b| *b == 0x5a) } }
}
impl Drop for Guarded { fn drop(&mut self) { unsafe { libc::munmap(self.base.cast(), self.map); } } }
