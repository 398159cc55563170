//! W01..W03: the web sources, run by node (mc/web/*.mjs) with the browser, the thread package and the wasm library replaced by
//! checking stand-ins. One node process per worker process; a case that hangs or dies is a verdict about that case.
use crate::engine::*;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, Command, Stdio};
use std::rc::Rc;

fn node(id: &str, what: &str, thorough: bool) -> Command {
    let mut c = Command::new("node");
    c.args(["--experimental-vm-modules", "--no-warnings", "/verif/mc/web/serve.mjs", what, id, if thorough { "thorough" } else { "quick" }]).stderr(Stdio::null());
    c
}
struct Server { pid: u32, child: Child, out: BufReader<std::process::ChildStdout> }
impl Server {
    fn start(id: &str, t: bool) -> Server {
        let mut c = node(id, "run", t);
        // dies with the worker
        unsafe { use std::os::unix::process::CommandExt; c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("node");
        let out = BufReader::new(child.stdout.take().unwrap());
        Server { pid: std::process::id(), child, out }
    }
    fn ask(&mut self, line: &str, seconds: i32) -> Result<String, &'static str> {
        if writeln!(self.child.stdin.as_mut().unwrap(), "{}", line).is_err() { return Err("the program ended"); }
        let mut p = libc::pollfd { fd: self.out.get_ref().as_raw_fd(), events: libc::POLLIN, revents: 0 };
        if self.out.buffer().is_empty() && unsafe { libc::poll(&mut p, 1, seconds * 1000) } == 0 { return Err("the program hung"); }
        let mut s = String::new();
        match self.out.read_line(&mut s) { Ok(n) if n > 0 => Ok(s.trim_end_matches('\n').to_string()), _ => Err("the program ended") }
    }
}
impl Drop for Server { fn drop(&mut self) { if self.pid == std::process::id() { let _ = self.child.kill(); let _ = self.child.wait(); } } }

pub fn check(id: &'static str, t: bool) -> Check<'static> {
    let o = node(id, "spaces", t).output().expect("node");
    let s = String::from_utf8(o.stdout).unwrap();
    let mut l = s.lines();
    let leak = |s: &str| -> &'static str { Box::leak(s.to_string().into_boxed_str()) };
    let rule = leak(l.next().expect("no answer from node"));
    let assumptions = l.next().unwrap().split('\t').map(leak).collect();
    let server: Rc<RefCell<Option<Server>>> = Rc::new(RefCell::new(None));
    let spaces = l.enumerate().map(|(k, l)| {
        let f: Vec<&str> = l.split('\t').collect();
        let (sv, sv2) = (server.clone(), server.clone());
        let with = move |sv: &Rc<RefCell<Option<Server>>>, line: String| -> Result<String, &'static str> {
            let mut g = sv.borrow_mut();
            if g.as_ref().map_or(true, |s| s.pid != std::process::id()) { std::mem::forget(g.take()); *g = Some(Server::start(id, t)); }
            let r = g.as_mut().unwrap().ask(&line, 60);
            if r.is_err() { *g = None; }
            r
        };
        let w2 = with.clone();
        Space { name: f[0].into(), n: f[1].parse().unwrap(), what: f[2].into(), cpu_limit_s: 600,
            run: Box::new(move |i, ctx| match with(&sv, format!("{} {}", k, i)) {
                Err(e) => { ctx.state(1); ctx.fail(e, "") }
                Ok(a) => {
                    let f: Vec<&str> = a.split('\t').collect();
                    let c: Vec<u64> = f[0].split(' ').map(|x| x.parse().unwrap()).collect();
                    ctx.state(c[0]); ctx.step(c[1]); ctx.trace(c[2]);
                    if c[3] > 0 { ctx.skip(); } if c[4] > 0 { ctx.nontrivial(); }
                    for h in f[1].split(' ').filter(|x| !x.is_empty()) { ctx.outcome(h.parse().unwrap()); }
                    if !f[2].is_empty() { ctx.fail(f[2], f[3]); }
                }
            }),
            desc: Box::new(move |i| w2(&sv2, format!("desc {} {}", k, i)).unwrap_or_default()) }
    }).collect();
    Check { property: id, spaces, rule, assumptions }
}
