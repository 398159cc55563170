//! A controlled scheduler for two threads: exactly one runs; it is switched only at scheduling points (allocator calls,
//! function entries in the instrumented build, futex waits) and only where the schedule says.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};

thread_local! { static ID: Cell<i32> = const { Cell::new(-1) }; }
static ON: AtomicBool = AtomicBool::new(false);
/// whose turn it is
static TURN: AtomicU32 = AtomicU32::new(0);
static DONE: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];
/// points each thread has passed, and at which of its points it hands over
static PASSED: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static SWITCH_AT: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static WAITS: AtomicU64 = AtomicU64::new(0);
/// function entries count as points too
pub static FINE: AtomicBool = AtomicBool::new(false);
pub static DEADLOCK: AtomicBool = AtomicBool::new(false);

unsafe fn raw_futex(addr: *const AtomicU32, op: i64, val: u32) {
    std::arch::asm!("syscall", inlateout("rax") 202i64 => _, in("rdi") addr, in("rsi") op, in("rdx") val as i64, in("r10") 0i64, in("r8") 0i64, in("r9") 0i64, out("rcx") _, out("r11") _);
}
fn hand_over(to: u32) { TURN.store(to, SeqCst); unsafe { raw_futex(&TURN, 129, i32::MAX as u32) } }
fn await_turn(me: u32) { loop { let t = TURN.load(SeqCst); if t == me { return; } unsafe { raw_futex(&TURN, 128, t) } } }

#[inline]
pub fn point() {
    if !ON.load(std::sync::atomic::Ordering::Relaxed) { return; }
    slow_point();
}
#[cold]
fn slow_point() {
    let me = ID.try_with(|i| i.get()).unwrap_or(-1);
    if me < 0 { return; }
    let n = PASSED[me as usize].fetch_add(1, SeqCst) + 1;
    if n == SWITCH_AT[me as usize].load(SeqCst) { switch(me as u32); }
}
fn switch(me: u32) {
    let other = 1 - me;
    if DONE[other as usize].load(SeqCst) { return; }
    hand_over(other);
    await_turn(me);
}

/// Function entries of the instrumented build.
#[no_mangle] pub extern "C" fn verif_entry() { if ON.load(std::sync::atomic::Ordering::Relaxed) && FINE.load(std::sync::atomic::Ordering::Relaxed) { slow_point(); } }
std::arch::global_asm!(
    ".globl mcount", ".type mcount,@function", "mcount:",
    "push rbp", "mov rbp, rsp", "push rax", "push rcx", "push rdx", "push rsi", "push rdi", "push r8", "push r9", "push r10", "push r11", "push rbx",
    "sub rsp, 144",
    "and rsp, -16",
    "movups [rsp], xmm0", "movups [rsp+16], xmm1", "movups [rsp+32], xmm2", "movups [rsp+48], xmm3", "movups [rsp+64], xmm4", "movups [rsp+80], xmm5", "movups [rsp+96], xmm6", "movups [rsp+112], xmm7",
    "call verif_entry",
    "movups xmm0, [rsp]", "movups xmm1, [rsp+16]", "movups xmm2, [rsp+32]", "movups xmm3, [rsp+48]", "movups xmm4, [rsp+64]", "movups xmm5, [rsp+80]", "movups xmm6, [rsp+96]", "movups xmm7, [rsp+112]",
    "lea rsp, [rbp-80]",
    "pop rbx", "pop r11", "pop r10", "pop r9", "pop r8", "pop rdi", "pop rsi", "pop rdx", "pop rcx", "pop rax", "pop rbp", "ret",
    ".size mcount, .-mcount");

/// A thread that would sleep on a futex hands over instead and reports a spurious wake-up.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let me = if ON.load(SeqCst) { ID.try_with(|i| i.get()).unwrap_or(-1) } else { -1 };
    if me >= 0 && n == 202 && matches!(b & 0x7f, 0 | 9) {
        let other = 1 - me as u32;
        if DONE[other as usize].load(SeqCst) || WAITS.fetch_add(1, SeqCst) > 10_000 { DEADLOCK.store(true, SeqCst); libc::_exit(77); }
        hand_over(other);
        await_turn(me as u32);
        return 0;
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    if r < 0 && r > -4096 { *libc::__errno_location() = -r as i32; return -1; }
    r
}

/// One execution: thread `first` starts and hands over at its `i`-th point (0: never); the other one hands back at its
/// `j`-th point (0: never). Returns both results and how many points each thread had.
pub fn run<T: Send>(first: u32, i: u64, j: u64, f0: &(dyn Fn() -> T + Sync), f1: &(dyn Fn() -> T + Sync)) -> ([T; 2], [u64; 2]) {
    for k in 0..2 { DONE[k].store(false, SeqCst); PASSED[k].store(0, SeqCst); }
    WAITS.store(0, SeqCst);
    SWITCH_AT[first as usize].store(i, SeqCst);
    SWITCH_AT[1 - first as usize].store(j, SeqCst);
    TURN.store(2, SeqCst);
    let body = |me: u32, f: &(dyn Fn() -> T + Sync)| {
        await_turn(me);
        ID.with(|i| i.set(me as i32));
        let r = f();
        ID.with(|i| i.set(-1));
        DONE[me as usize].store(true, SeqCst);
        let other = 1 - me;
        if !DONE[other as usize].load(SeqCst) { hand_over(other); }
        r
    };
    std::thread::scope(|s| {
        let a = s.spawn(|| body(0, f0));
        let b = s.spawn(|| body(1, f1));
        ON.store(true, SeqCst);
        hand_over(first);
        let r = [a.join().unwrap(), b.join().unwrap()];
        ON.store(false, SeqCst);
        (r, [PASSED[0].load(SeqCst), PASSED[1].load(SeqCst)])
    })
}
