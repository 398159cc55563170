//! Exhaustive-exploration engine.
//!
//! A *space* is a finite, indexable set of cases (0..n). `explore` runs every case on the real code
//! in forked worker processes (work is handed out in chunks through shared memory, so all indices
//! are covered exactly once whatever the scheduling), with three safety nets that turn into
//! verdicts of their own: a case that kills the process (signal / exit), a case that burns more than
//! `cpu_limit_s` of CPU time (hang), and a case that panics where the oracle does not allow it.
//! A capped run (deadline reached) is reported as not exhaustive; nothing is ever sampled.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const OUT_BITS: usize = 1 << 20;
const MAX_WORKERS: usize = 64;
const NCOUNT: usize = 8;

#[repr(C)]
struct Shared {
    next: AtomicU64,
    done: AtomicU64,
    stop: AtomicU64,
    counts: [AtomicU64; NCOUNT],
    /// case a worker is executing, +1 (0 = idle)
    cur: [AtomicU64; MAX_WORKERS],
    /// remaining part of the worker's chunk: next index and end
    chunk_next: [AtomicU64; MAX_WORKERS],
    chunk_end: [AtomicU64; MAX_WORKERS],
    outcomes: [AtomicU64; OUT_BITS / 64],
}

/// Per-case context handed to the case function.
pub struct Ctx<'a> {
    sh: &'a Shared,
    viol: Vec<(String, String)>,
}

impl<'a> Ctx<'a> {
    /// A model state (input configuration / abstract state) visited.
    pub fn state(&mut self, n: u64) { self.sh.counts[0].fetch_add(n, SeqCst); }
    /// An operation of the real code executed and compared with the model.
    pub fn step(&mut self, n: u64) { self.sh.counts[1].fetch_add(n, SeqCst); }
    /// A complete operation history replayed on the real code.
    pub fn trace(&mut self, n: u64) { self.sh.counts[2].fetch_add(n, SeqCst); }
    /// Out of the property's domain (e.g. degenerate input).
    pub fn skip(&mut self) { self.sh.counts[3].fetch_add(1, SeqCst); }
    /// A case that exercises the property's interesting premise.
    pub fn nontrivial(&mut self) { self.sh.counts[4].fetch_add(1, SeqCst); }
    pub fn outcome(&mut self, h: u64) {
        let b = (mix(h) as usize) & (OUT_BITS - 1);
        let w = &self.sh.outcomes[b / 64];
        let m = 1u64 << (b % 64);
        if w.load(SeqCst) & m == 0 { w.fetch_or(m, SeqCst); }
    }
    /// Report a violation; `key` names what fails (call site / kind), `detail` is for humans.
    pub fn fail(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        if self.viol.len() < 4 { self.viol.push((key.into(), detail.into())); }
    }
    pub fn failed(&self) -> bool { !self.viol.is_empty() }
}

pub fn mix(mut h: u64) -> u64 {
    h ^= h >> 33; h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33; h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
    h ^ (h >> 33)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

#[derive(Clone, Debug)]
pub struct Violation { pub space: String, pub case: u64, pub key: String, pub detail: String, pub desc: String }

pub struct Space<'a> {
    pub name: String,
    pub n: u64,
    pub what: String,
    pub run: Box<dyn Fn(u64, &mut Ctx) + 'a>,
    pub desc: Box<dyn Fn(u64) -> String + 'a>,
    /// Panics inside the case are violations unless the case catches them itself.
    pub cpu_limit_s: u32,
}

#[derive(Default, Clone, Debug)]
pub struct SpaceStat { pub name: String, pub what: String, pub n: u64, pub done: u64, pub states: u64, pub steps: u64,
    pub traces: u64, pub skipped: u64, pub nontrivial: u64, pub outcomes: u64, pub wall: f64, pub samples: Vec<String> }

thread_local! { static PANIC_MSG: RefCell<String> = RefCell::new(String::new()); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let loc = info.location().map(|l| {
            let f = l.file();
            // stable part of the location only: file name, not line
            f.rsplit('/').next().unwrap_or(f).to_string()
        }).unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{} @ {}", msg, loc));
    }));
}

pub fn forget_panic() { PANIC_MSG.with(|m| *m.borrow_mut() = String::new()); }

/// Run `f`, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

extern "C" { fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32; }

fn arm_cpu_limit(secs: u32) {
    // ITIMER_VIRTUAL would miss kernel time; PROF counts both. SIGPROF kills the worker.
    let tv = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: secs as _, tv_usec: 0 },
    };
    unsafe { setitimer(2 /* ITIMER_PROF */, &tv, std::ptr::null_mut()); }
}

fn case_once(sp: &Space, i: u64, ctx: &mut Ctx) {
    if let Err(msg) = guarded(|| (sp.run)(i, ctx)) {
        ctx.fail(format!("panic: {}", first_line(&msg)), msg);
    }
}

pub fn first_line(s: &str) -> String { s.lines().next().unwrap_or("").chars().take(160).collect() }

pub fn scratch_dir() -> PathBuf {
    let p = std::env::var("MC_SCRATCH").unwrap_or_else(|_| format!("/tmp/mc-{}", std::process::id()));
    let p = PathBuf::from(p);
    let _ = std::fs::create_dir_all(&p);
    p
}

pub struct Limits { pub workers: usize, pub deadline: Instant, pub soft: Instant }

/// Runs all cases of `sp`. Returns statistics and the violations found.
pub fn explore(sp: &Space, lim: &Limits) -> (SpaceStat, Vec<Violation>) {
    let t0 = Instant::now();
    let size = std::mem::size_of::<Shared>();
    let sh: &Shared = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    };
    let workers = lim.workers.min(MAX_WORKERS).min(sp.n.max(1) as usize);
    let chunk = (sp.n / (workers as u64 * 64)).clamp(1, 256);
    let dir = scratch_dir();
    let vpath = |w: usize| dir.join(format!("viol-{}-{}", sanitize(&sp.name), w));
    for w in 0..workers { let _ = std::fs::remove_file(vpath(w)); }

    let spawn = |w: usize| -> i32 {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid > 0 { return pid; }
        // worker
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let fd = libc::open(b"/dev/null\0".as_ptr().cast(), libc::O_WRONLY);
            if std::env::var("MC_VERBOSE").is_err() { libc::dup2(fd, 2); }
            libc::dup2(fd, 1);
            let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
        }
        let mut vf = std::fs::OpenOptions::new().create(true).append(true).open(vpath(w)).unwrap();
        loop {
            if sh.stop.load(SeqCst) != 0 { break; }
            let (mut a, mut b) = (sh.chunk_next[w].load(SeqCst), sh.chunk_end[w].load(SeqCst));
            if a >= b {
                a = sh.next.fetch_add(chunk, SeqCst);
                if a >= sp.n { break; }
                b = (a + chunk).min(sp.n);
                sh.chunk_next[w].store(a, SeqCst);
                sh.chunk_end[w].store(b, SeqCst);
            }
            while a < b {
                if sh.stop.load(SeqCst) != 0 { break; }
                sh.cur[w].store(a + 1, SeqCst);
                // consumed before it runs: if it kills us, the replacement carries on after it
                sh.chunk_next[w].store(a + 1, SeqCst);
                arm_cpu_limit(sp.cpu_limit_s);
                let mut ctx = Ctx { sh, viol: vec![] };
                case_once(sp, a, &mut ctx);
                for (k, d) in ctx.viol.drain(..) {
                    let _ = writeln!(vf, "{}\t{}\t{}", a, esc(&k), esc(&d));
                }
                sh.done.fetch_add(1, SeqCst);
                sh.cur[w].store(0, SeqCst);
                a += 1;
            }
        }
        let _ = vf.flush();
        unsafe { libc::_exit(0) }
    };
    let mut pids: Vec<i32> = (0..workers).map(|w| spawn(w)).collect();
    let mut alive = workers;
    let mut crashes: Vec<(u64, String)> = vec![];
    while alive > 0 {
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) };
        if pid == 0 {
            std::thread::sleep(Duration::from_millis(2));
            // once something has crashed or hung there is an answer: no use in waiting for every other case to hang
            let until = if crashes.is_empty() { lim.deadline } else { lim.deadline.min(lim.soft) };
            if Instant::now() > until { sh.stop.store(1, SeqCst); }
            if Instant::now() > until + Duration::from_secs(60) {
                for p in &pids { if *p > 0 { unsafe { libc::kill(*p, libc::SIGKILL); } } }
            }
            continue;
        }
        if pid < 0 { break; }
        let Some(w) = pids.iter().position(|p| *p == pid) else { continue };
        let clean = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 && sh.cur[w].load(SeqCst) == 0;
        if clean { pids[w] = 0; alive -= 1; continue; }
        let c = sh.cur[w].swap(0, SeqCst);
        let why = if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGPROF { "hang (CPU limit)".to_string() } else { format!("killed by signal {}", s) }
        } else { format!("process exited with status {}", libc::WEXITSTATUS(st)) };
        let ours = libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL;
        if c > 0 && !ours { crashes.push((c - 1, why)); sh.done.fetch_add(1, SeqCst); }
        if crashes.len() >= 200 || ours { sh.stop.store(1, SeqCst); }
        if sh.stop.load(SeqCst) != 0 { pids[w] = 0; alive -= 1; } else { pids[w] = spawn(w); }
    }
    let mut viol = vec![];
    for (c, why) in crashes {
        viol.push(Violation { space: sp.name.clone(), case: c, key: format!("crash: {}", why), detail: why.clone(), desc: short((sp.desc)(c)) });
    }
    for w in 0..workers {
        if let Ok(s) = std::fs::read_to_string(vpath(w)) {
            for l in s.lines() {
                let mut it = l.splitn(3, '\t');
                let (Some(c), Some(k), Some(d)) = (it.next(), it.next(), it.next()) else { continue };
                let c: u64 = c.parse().unwrap_or(0);
                viol.push(Violation { space: sp.name.clone(), case: c, key: k.to_string(), detail: d.to_string(), desc: short((sp.desc)(c)) });
            }
        }
        let _ = std::fs::remove_file(vpath(w));
    }
    viol.sort_by(|a, b| a.case.cmp(&b.case).then(a.key.cmp(&b.key)));
    let g = |i: usize| sh.counts[i].load(SeqCst);
    let outcomes = sh.outcomes.iter().map(|w| w.load(SeqCst).count_ones() as u64).sum();
    let mut samples = vec![];
    if sp.n > 0 { for i in [0, sp.n / 2, sp.n - 1] { let d = short((sp.desc)(i)); if !samples.contains(&d) { samples.push(d); } } }
    let stat = SpaceStat { name: sp.name.clone(), what: sp.what.clone(), n: sp.n, done: sh.done.load(SeqCst), states: g(0), steps: g(1),
        traces: g(2), skipped: g(3), nontrivial: g(4), outcomes, wall: t0.elapsed().as_secs_f64(), samples };
    unsafe { libc::munmap(sh as *const Shared as *mut _, size); }
    (stat, viol)
}

fn sanitize(s: &str) -> String { s.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect() }
fn esc(s: &str) -> String { s.replace('\t', " ").replace('\n', " | ") }

/// Run one case in a child (for `replay`), showing stderr; returns the violations.
pub fn replay_one(sp: &Space, case: u64) -> Vec<Violation> {
    let one = Space { name: sp.name.clone(), n: 1, what: String::new(), cpu_limit_s: sp.cpu_limit_s,
        run: Box::new(|_, c| (sp.run)(case, c)), desc: Box::new(|_| (sp.desc)(case)) };
    let (_, mut v) = explore(&one, &Limits { workers: 1, deadline: Instant::now() + Duration::from_secs(600), soft: Instant::now() + Duration::from_secs(600) });
    for x in v.iter_mut() { x.case = case; }
    v
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c {
        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}

pub struct Check<'a> { pub property: &'static str, pub spaces: Vec<Space<'a>>, pub rule: &'static str, pub assumptions: Vec<&'static str> }

/// Known findings: lines of /verif/known_findings.tsv  `property \t space \t case-description \t key`
/// (exact match on all four). `fixed:` lines suppress nothing.
fn known() -> HashSet<(String, String, String, String)> {
    let p = std::env::var("MC_KNOWN").unwrap_or("/verif/known_findings.tsv".into());
    let mut s = HashSet::new();
    if let Ok(t) = std::fs::read_to_string(p) {
        for l in t.lines() {
            if l.starts_with('#') || l.starts_with("fixed:") || l.trim().is_empty() { continue; }
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() >= 4 { s.insert((f[0].into(), f[1].into(), f[2].into(), f[3].into())); }
        }
    }
    s
}

pub fn run_check(chk: &Check, budget: Duration) -> i32 {
    let t0 = Instant::now();
    let workers = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let deadline = t0 + budget;
    let mut stats = vec![];
    let mut viols: Vec<Violation> = vec![];
    let kn = known();
    let is_known = |v: &Violation| kn.contains(&(chk.property.to_string(), v.space.clone(), v.desc.clone(), v.key.clone()));
    for sp in &chk.spaces {
        if let Ok(only) = std::env::var("MC_SPACE") { if !only.split(',').any(|x| x == sp.name) { continue; } }
        let (st, v) = explore(sp, &Limits { workers, deadline, soft: t0 + budget / 3 });
        eprintln!("  {:<28} cases {}/{} states {} steps {} traces {} skipped {} nontrivial {} outcomes {} viol {} ({:.1}s)",
            st.name, st.done, st.n, st.states, st.steps, st.traces, st.skipped, st.nontrivial, st.outcomes, v.len(), st.wall);
        stats.push(st);
        viols.extend(v);
        if t0.elapsed() > budget / 3 && viols.iter().any(|v| !is_known(v)) { break; }
    }
    let mut fresh = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    for v in viols {
        if is_known(&v) {
            *known_hits.entry(format!("{} in space {} on {}", v.key, v.space, v.desc)).or_default() += 1;
        } else { fresh.push(v); }
    }
    for (k, _) in &known_hits { println!("KNOWN-FINDING: property={} {}", chk.property, k); }
    write_evidence(chk, &stats, &fresh, t0.elapsed().as_secs_f64(), known_hits.len());
    if fresh.is_empty() {
        let capped = stats.iter().any(|s| s.done < s.n);
        println!("OK property={} cases={} states={} steps={}{}", chk.property, stats.iter().map(|s| s.done).sum::<u64>(),
            stats.iter().map(|s| s.states).sum::<u64>(), stats.iter().map(|s| s.steps).sum::<u64>(), if capped { " (time cap hit: not exhaustive)" } else { "" });
        return 0;
    }
    let v = &fresh[0];
    let rp = write_replay(chk, v, fresh.len());
    let mut hist: BTreeMap<(String, String), (u64, usize)> = BTreeMap::new();
    for (i, x) in fresh.iter().enumerate() { hist.entry((x.space.clone(), x.key.clone())).or_insert((0, i)).0 += 1; }
    for ((s, k), (n, i)) in hist.iter().take(24) { eprintln!("  {} x{}: {} e.g. #{} {} [{}]", s, n, k, fresh[*i].case, fresh[*i].detail, fresh[*i].desc); }
    for x in fresh.iter().take(2) { eprintln!("  {}#{}: {} -- {} [{}]", x.space, x.case, x.key, x.detail, x.desc); }
    println!("VIOLATION property={} replay={}", chk.property, rp.display());
    1
}

fn write_replay(chk: &Check, v: &Violation, total: usize) -> PathBuf {
    let dir = PathBuf::from("/verif/evidence/replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.json", chk.property));
    let _ = std::fs::write(&p, format!(
        "{{\n \"property\": {}, \"space\": {}, \"case\": {},\n \"input\": {},\n \"key\": {},\n \"detail\": {},\n \"violations_in_run\": {},\n \"replay\": {}\n}}\n",
        js(chk.property), js(&v.space), v.case, js(&v.desc), js(&v.key), js(&v.detail), total,
        js(&format!("/verif/run.sh replay {} {} {}", chk.property, v.space, v.case))));
    p
}

fn write_evidence(chk: &Check, stats: &[SpaceStat], fresh: &[Violation], wall: f64, known: usize) {
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let sum = |f: fn(&SpaceStat) -> u64| stats.iter().map(f).sum::<u64>();
    let exhaustive = stats.iter().all(|s| s.done >= s.n);
    let mut samples: Vec<String> = vec![];
    for s in stats { for x in s.samples.iter().take(2) { if samples.len() < 12 { samples.push(js(&format!("{}: {}", s.name, x))); } } }
    let spaces: Vec<String> = stats.iter().map(|s| format!(
        "{{\"space\": {}, \"what\": {}, \"cases\": {}, \"cases_run\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"outside_domain\": {}, \"nontrivial\": {}, \"distinct_outcomes_at_least\": {}, \"wall_s\": {:.2}}}",
        js(&s.name), js(&s.what), s.n, s.done, s.states, s.steps, s.traces, s.skipped, s.nontrivial, s.outcomes, s.wall)).collect();
    let ass: Vec<String> = chk.assumptions.iter().map(|a| js(a)).collect();
    let txt = format!(
"{{
 \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",
 \"coverage\": {{
  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},
  \"evaluations\": {}, \"distinct_nontrivial\": {}, \"exhaustive\": {},
  \"rule\": {},
  \"samples\": [{}],
  \"spaces\": [
   {}
  ]
 }},
 \"assumptions\": [{}],
 \"wall_s\": {:.2}, \"violations\": {}, \"known_findings_hit\": {}
}}
", js(chk.property), js(tier), seed, sum(|s| s.states), sum(|s| s.steps), sum(|s| s.traces), sum(|s| s.done), sum(|s| s.nontrivial), exhaustive,
        js(chk.rule), samples.join(", "), spaces.join(",\n   "), ass.join(", "), wall, fresh.len(), known);
    let p = format!("/verif/evidence/{}.json", chk.property);
    let _ = std::fs::create_dir_all("/verif/evidence");
    let mut f = File::create(&p).expect("evidence file");
    f.write_all(txt.as_bytes()).unwrap();
}
/// Descriptions of large inputs, cut short; the replay command regenerates the input.
fn short(s: String) -> String { if s.chars().count() <= 600 { s } else { format!("{} ... ({} characters)", s.chars().take(600).collect::<String>(), s.len()) } }
