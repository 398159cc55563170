//! Checks that need to own the process's allocator and threads: C interface, handle lifecycles, two-thread schedules.
#[path = "../life/alloc.rs"] mod alloc;
#[path = "../life/sched.rs"] mod sched;
#[path = "../life/capi.rs"] mod capi;
#[path = "../life/qh.rs"] mod qh;
#[path = "../life/threads.rs"] mod threads;
use mcore::engine::*;
use mcore::checks::*;
use mcore::recolor::*;

#[global_allocator]
static A: alloc::Checked = alloc::Checked;

/// qhull explains itself at length on stderr whenever a build fails on purpose.
fn quietly<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let keep = libc::dup(2);
        let null = libc::open(b"/dev/null\0".as_ptr().cast(), libc::O_WRONLY);
        if std::env::var("MC_VERBOSE").is_err() { libc::dup2(null, 2); }
        let r = f();
        libc::dup2(keep, 2); libc::close(null); libc::close(keep);
        r
    }
}

fn check(id: &str, t: bool) -> Option<Check<'static>> { quietly(|| spaces(id, t)) }
fn spaces(id: &str, t: bool) -> Option<Check<'static>> {
    let mut v = vec![];
    let (property, rule, assumptions): (&'static str, &'static str, Vec<&'static str>) = match id {
        "F01" => {
            v.push(capi::interface("i23", 2, 3, mixed()[..5].to_vec()));
            v.push(capi::interface("i15", 1, 5, corners(255)[..6].to_vec()));
            v.push(capi::many());
            v.push(capi::shapes());
            if t { v.push(capi::interface("i32", 3, 2, mixed())); v.push(capi::interface("i24", 2, 4, mixed()[..4].to_vec())); }
            ("F01", "every call made by C code compiled against the shipped header gives what the library gives, byte for byte; buffers end at an inaccessible page and start after canaries; refusals are NULL or 0 and write nothing", vec![])
        }
        "F02" => {
            v.push(capi::sizes(t));
            v.push(capi::lifecycles(if t { 6 } else { 5 }));
            ("F02", "all protocol-conforming call sequences: results are those of the library whatever else is alive; every block is released once, with the layout it was allocated with, nothing is written after release, and in the end everything is given back", vec![])
        }
        "Q06" => {
            v.push(qh::lifecycles(if t { 5 } else { 4 }));
            ("Q06", "all sequences of building, reading and dropping hulls and triangulations, with failing builds: what a handle holds never changes, memory is released once and completely, and results do not depend on what fresh memory contains", vec![])
        }
        "T01" => {
            let n = threads::KINDS.len();
            for a in 0..n { for b in a..n { if b < 7 || b == 7 && matches!(a, 0 | 7) || b == 8 && matches!(a, 1 | 2 | 8) || t { v.push(threads::pair(a, b, 1, true)); } } }
            for a in 0..n { for b in a..n { if (a != 0 && b != 7 && (b != 8 || a == 2)) || (t && b != 0) { v.push(threads::pair(a, b, 2, false)); } } }
            if t { for (a, b) in [(2, 2), (2, 3), (3, 3), (5, 5), (3, 5), (6, 6), (3, 6)] { v.push(threads::pair(a, b, 2, true)); } }
            ("T01", "two real threads under a scheduler that switches only where the schedule says: every schedule with one preemption at any function entry or allocator call, and with two at any allocator calls; each thread's result must be what it is alone", vec!["interleavings inside a function body without calls are not explored; two threads, at most two preemptions"])
        }
        _ => return None,
    };
    Some(Check { property, spaces: v, rule, assumptions })
}
fn main() { mcore::cli(&["F01", "F02", "Q06", "T01"], check) }
