//! The processes the harness drives: the compiler library server, the TypeScript worker and the command line program.
use crate::engine::{mix, Cfg, Run};
use crate::json::{self, J};
use std::collections::{HashSet, VecDeque};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
    fn setrlimit(res: i32, r: *const RLimit) -> i32;
    fn personality(p: u64) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn setgid(id: u32) -> i32;
    fn setuid(id: u32) -> i32;
}

pub enum Io {
    Timeout,
    Closed,
}

fn read_frame(out: &mut ChildStdout, limit: Duration) -> Result<Vec<u8>, Io> {
    let t0 = Instant::now();
    let mut buf: Vec<u8> = Vec::new();
    let mut want = 4usize;
    let mut header = true;
    loop {
        let mut p = PollFd { fd: out.as_raw_fd(), events: 1, revents: 0 };
        let left = limit.checked_sub(t0.elapsed()).ok_or(Io::Timeout)?;
        if unsafe { poll(&mut p, 1, left.as_millis().min(i32::MAX as u128) as i32) } <= 0 {
            continue;
        }
        let mut chunk = vec![0u8; (want - buf.len()).min(1 << 16)];
        match out.read(&mut chunk) {
            Ok(0) | Err(_) => return Err(Io::Closed),
            Ok(n) => buf.extend_from_slice(&chunk[..n]),
        }
        if buf.len() == want {
            if header {
                want = u32::from_le_bytes([buf[0], buf[1], buf[2], buf[3]]) as usize;
                buf.clear();
                header = false;
                if want == 0 {
                    return Ok(buf);
                }
            } else {
                return Ok(buf);
            }
        }
    }
}
fn write_frame(inp: &mut ChildStdin, body: &[u8]) -> std::io::Result<()> {
    inp.write_all(&(body.len() as u32).to_le_bytes())?;
    inp.write_all(body)?;
    inp.flush()
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: ChildStdout,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn spawn(mut c: Command, mem: Option<u64>) -> Run<Proc> {
    c.stdin(Stdio::piped()).stdout(Stdio::piped());
    if let Some(m) = mem {
        unsafe {
            c.pre_exec(move || {
                let r = RLimit { cur: m, max: m };
                setrlimit(9, &r);
                let none = RLimit { cur: 0, max: 0 };
                setrlimit(4, &none);
                // addresses are the same each time, where that is permitted: comparisons of them count as behaviour
                personality(0x0040000);
                Ok(())
            });
        }
    }
    let mut child = c.spawn().map_err(|e| format!("cannot start {:?}: {}", c.get_program(), e))?;
    let inp = child.stdin.take().unwrap();
    let out = child.stdout.take().unwrap();
    Ok(Proc { child, inp, out })
}

/// What the compiler did with a text.
#[derive(Clone, Debug, PartialEq)]
pub enum Reply {
    Ast(String),
    ParseErrorAt(usize, usize, usize),
    Module(String),
    Resolved(String),
    /// what became of compilations running at the same time
    Together(Vec<Reply>),
    ParseError(String),
    CheckError(String),
    /// panic, abort, stack overflow or memory exhaustion
    Crash(String),
    Hang,
}

pub struct Sut {
    cfg: Cfg,
    p: Option<Proc>,
    shard: usize,
    starts: u64,
    once: bool,
    seen: HashSet<u32>,
    said: Vec<(String, Reply)>,
    again: VecDeque<(String, Reply)>,
}
impl Sut {
    pub fn new(cfg: &Cfg, shard: usize) -> Run<Sut> {
        Ok(Sut { cfg: cfg.clone(), p: None, shard, starts: 0, once: false, seen: HashSet::new(), said: Vec::new(), again: VecDeque::new() })
    }
    fn start(&mut self) -> Run<()> {
        if self.p.is_none() {
            let mut c = Command::new(&self.cfg.sut_bin);
            c.stderr(Stdio::null());
            // hash maps in it are keyed by this, so that a run can be repeated
            self.starts += 1;
            c.env("VP_HASH", mix(&[self.shard as u64, self.starts]).to_string());
            self.p = Some(spawn(c, Some(4 << 30))?);
        }
        Ok(())
    }
    /// Makes the next compilation run in a fresh process. The one at hand lives on and grows old.
    pub fn next_aside(&mut self) {
        self.once = true;
    }
    fn aside(&mut self, text: &str) -> Run<Reply> {
        self.starts += 1;
        let mut fresh = Sut::new(&self.cfg, self.shard)?;
        fresh.starts = self.starts << 32;
        fresh.call(b'C', text)
    }
    fn call(&mut self, op: u8, text: &str) -> Run<Reply> {
        let mut req = vec![op];
        req.extend_from_slice(text.as_bytes());
        for limit in [30u64, 60] {
            self.start()?;
            let p = self.p.as_mut().unwrap();
            if write_frame(&mut p.inp, &req).is_err() {
                let st = p.child.wait();
                self.p = None;
                return Ok(Reply::Crash(format!("process ended: {:?}", st)));
            }
            match read_frame(&mut p.out, Duration::from_secs(limit)) {
                Err(Io::Closed) => {
                    let st = p.child.wait();
                    self.p = None;
                    return Ok(Reply::Crash(format!("process ended: {:?}", st)));
                }
                Err(Io::Timeout) => self.p = None,
                Ok(b) if b[0] == b'M' => {
                    let mut all = Vec::new();
                    let mut rest = &b[1..];
                    while rest.len() >= 5 {
                        let n = u32::from_le_bytes([rest[0], rest[1], rest[2], rest[3]]) as usize;
                        let body = String::from_utf8_lossy(&rest[5..4 + n]).to_string();
                        all.push(match rest[4] {
                            b'T' => Reply::Module(body),
                            b'p' => Reply::ParseError(body),
                            b'c' => Reply::CheckError(body),
                            _ => Reply::Crash(format!("panic: {}", body)),
                        });
                        rest = &rest[4 + n..];
                    }
                    return Ok(Reply::Together(all));
                }
                Ok(b) => {
                    let body = String::from_utf8(b[1..].to_vec()).map_err(|e| e.to_string())?;
                    return Ok(match b[0] {
                        b'A' => Reply::Ast(body),
                        b'E' => {
                            let v: Vec<usize> = body.split(' ').map(|x| x.parse().unwrap()).collect();
                            Reply::ParseErrorAt(v[0], v[1], v[2])
                        }
                        b'T' => Reply::Module(body),
                        b'R' => Reply::Resolved(body),
                        b'p' => Reply::ParseError(body),
                        b'c' => Reply::CheckError(body),
                        b'X' => Reply::Crash(format!("panic: {}", body)),
                        x => return Err(format!("unknown status {}", x)),
                    });
                }
            }
        }
        Ok(Reply::Hang)
    }
    pub fn parse(&mut self, text: &str) -> Run<Reply> {
        self.call(b'P', text)
    }
    pub fn resolve(&mut self, text: &str) -> Run<Reply> {
        self.call(b'R', text)
    }
    /// Compiles texts at the same time. The replies are those to the first text, then those to the second and so on.
    pub fn together(&mut self, texts: &[String]) -> Run<Reply> {
        self.call(b'M', &texts.iter().map(|t| format!("{:08x}{}", t.len(), t)).collect::<String>())
    }
    pub fn compile(&mut self, text: &str) -> Run<Reply> {
        let once = std::mem::take(&mut self.once);
        if let Some((t, r)) = self.again.pop_front() {
            if t == text {
                return Ok(r);
            }
            self.again.clear();
        }
        let r = if once { self.aside(text)? } else { self.call(b'C', text)? };
        self.said.push((text.to_string(), r.clone()));
        Ok(r)
    }
    /// Remembers the answers of `compile` from here on.
    pub fn record(&mut self) {
        self.said.clear();
        self.again.clear();
    }
    /// Gives the remembered answers again.
    pub fn repeat(&mut self) {
        self.again = std::mem::take(&mut self.said).into();
    }
    /// Whether the requests since the last call made the library do something none before did.
    pub fn news(&mut self) -> bool {
        let Some(p) = self.p.as_mut() else { return false };
        if write_frame(&mut p.inp, b"N").is_err() {
            self.p = None;
            return false;
        }
        match read_frame(&mut p.out, Duration::from_secs(30)) {
            Ok(b) if b[0] == b'N' => {
                let mut any = false;
                for c in b[1..].chunks_exact(4) {
                    any |= self.seen.insert(u32::from_le_bytes([c[0], c[1], c[2], c[3]]));
                }
                any
            }
            Ok(_) => false,
            Err(_) => {
                self.p = None;
                false
            }
        }
    }
    pub fn features(&self) -> &HashSet<u32> {
        &self.seen
    }
}

pub struct Js {
    cfg: Cfg,
    p: Option<Proc>,
    served: usize,
    /// whether a request allowed the faster way
    pub fast: bool,
}
impl Js {
    pub fn new(cfg: &Cfg) -> Js {
        Js { cfg: cfg.clone(), p: None, served: 0, fast: false }
    }
    pub fn call(&mut self, req: &J) -> Run<J> {
        let body = req.text();
        let mut last = String::new();
        // a fresh process now and then keeps memory bounded
        if self.served > 3000 {
            self.p = None;
            self.served = 0;
        }
        self.served += 1;
        for limit in [60u64, 120] {
            if self.p.is_none() {
                let mut c = Command::new("node");
                c.arg("--no-warnings").arg("--max-old-space-size=2500").arg("--stack-size=3900").arg(format!("{}/worker/worker.js", self.cfg.verif));
                self.p = Some(spawn(c, None)?);
            }
            let p = self.p.as_mut().unwrap();
            if write_frame(&mut p.inp, body.as_bytes()).is_err() {
                self.p = None;
                last = "the worker ended".into();
                continue;
            }
            match read_frame(&mut p.out, Duration::from_secs(limit)) {
                Ok(b) => {
                    let t = String::from_utf8(b).map_err(|e| e.to_string())?;
                    let j = json::parse(&t)?;
                    if let Some(e) = j.get("fatal").str() {
                        return Err(format!("worker: {}", e));
                    }
                    return Ok(j);
                }
                Err(Io::Timeout) => last = "the worker did not answer".into(),
                Err(Io::Closed) => last = "the worker ended".into(),
            }
            self.p = None;
        }
        if let Ok(d) = std::env::var("VP_DUMP") {
            let _ = std::fs::write(d, &body);
        }
        Err(format!("{} (request of {} bytes)", last, body.len()))
    }
}

pub struct CliRun {
    pub ok: bool,
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}
/// Runs the command line program in `dir`.
pub fn cli(cfg: &Cfg, dir: &str, args: &[String]) -> Run<CliRun> {
    cli_limited(cfg, dir, args, None)
}
/// The same as a user without any rights, or nothing if that cannot be done here. `own` is a place for a copy of the program.
pub fn cli_unprivileged(cfg: &Cfg, own: &str, dir: &str, args: &[String]) -> Option<CliRun> {
    if !std::path::Path::new(own).exists() {
        std::fs::copy(&cfg.cli_bin, own).ok()?;
        std::fs::set_permissions(own, std::os::unix::fs::PermissionsExt::from_mode(0o755)).ok()?;
    }
    let mut c = Command::new(own);
    c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(move || {
            let cpu = RLimit { cur: 60, max: 60 };
            setrlimit(0, &cpu);
            if setgid(65534) != 0 || setuid(65534) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    Some(ran(c.output().ok()?))
}
fn ran(o: std::process::Output) -> CliRun {
    CliRun {
        ok: o.status.success(),
        code: o.status.code(),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}
/// The same with these variables besides or in place of the usual ones, and something to read.
pub fn cli_around(cfg: &Cfg, dir: &str, args: &[String], clear: bool, vars: &[(String, String)], input: &[u8]) -> Run<CliRun> {
    let err = |e: std::io::Error| format!("cannot run {}: {}", cfg.cli_bin, e);
    let mut c = Command::new(&cfg.cli_bin);
    c.args(args).current_dir(dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if clear {
        c.env_clear();
    }
    for (k, v) in vars {
        c.env(k, v);
    }
    unsafe {
        c.pre_exec(move || {
            let r = RLimit { cur: 4 << 30, max: 4 << 30 };
            setrlimit(9, &r);
            let cpu = RLimit { cur: 60, max: 60 };
            setrlimit(0, &cpu);
            Ok(())
        });
    }
    let mut p = c.spawn().map_err(err)?;
    // short enough for the pipe; nobody has to read it
    if let Some(mut i) = p.stdin.take() {
        let _ = i.write_all(input);
    }
    Ok(ran(p.wait_with_output().map_err(err)?))
}
/// The same, where no file can grow beyond so many bytes.
pub fn cli_limited(cfg: &Cfg, dir: &str, args: &[String], bytes: Option<u64>) -> Run<CliRun> {
    let mut c = Command::new(&cfg.cli_bin);
    c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(move || {
            if let Some(b) = bytes {
                let r = RLimit { cur: b, max: b };
                setrlimit(1, &r);
                // writing fails instead of ending the process
                signal(25, 1);
            }
            let r = RLimit { cur: 4 << 30, max: 4 << 30 };
            setrlimit(9, &r);
            let cpu = RLimit { cur: 60, max: 60 };
            setrlimit(0, &cpu);
            Ok(())
        });
    }
    let o = c.output().map_err(|e| format!("cannot run {}: {}", cfg.cli_bin, e))?;
    Ok(ran(o))
}
