//! Runs the real tools as processes and observes everything that leaves them.
use crate::case::{Fail, Res};
use std::ffi::OsString;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Build {
    /// debug assertions and overflow checks on
    Checked,
    /// as released
    Release,
    /// address + undefined behaviour sanitizers, C code included
    Asan,
}

#[derive(Clone)]
pub struct Env {
    pub bins: [Option<PathBuf>; 3],
    pub scratch: PathBuf,
    pub thorough: bool,
    pub shim: Option<PathBuf>,
    pub verif: PathBuf,
}

pub enum In<'a> {
    Null,
    Bytes(&'a [u8]),
    /// real pipe, delivered in the given chunk sizes (cycled)
    Pipe(&'a [u8], &'a [usize]),
    Fd(File),
}

#[derive(Debug, Clone)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}

pub const CPU_LIMIT: u64 = 40;
pub const WALL_LIMIT: u64 = 240;

fn memfd(name: &str) -> Res<File> {
    let n = std::ffi::CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(n.as_ptr(), libc::MFD_CLOEXEC) };
    if fd < 0 {
        return Err(Fail::Inconclusive("memfd_create failed".into()));
    }
    Ok(unsafe { File::from_raw_fd(fd) })
}

pub struct Tool<'a> {
    pub env: &'a Env,
    pub bin: &'a str,
    pub build: Build,
    pub args: Vec<OsString>,
    pub vars: Vec<(String, String)>,
    pub cwd: Option<PathBuf>,
    pub stdin: In<'a>,
    pub stdout: Option<File>,
    pub cpu: u64,
    pub fsize: Option<u64>,
    pub exe: Option<PathBuf>,
    /// no address space limit (sanitizers, valgrind, interpreter)
    pub nolimit: bool,
    /// running out of CPU time is a verdict even under instrumentation
    pub strict_cpu: bool,
    /// circumstances that must not matter (bits, see `TWISTS`)
    pub twist: u32,
}

pub const TWISTS: &[&str] = &["on one processor", "with umask 077", "in a session of its own", "niced", "with 64 file descriptors", "with file descriptors left open", "under another program name", "with umask 0", "with SIGPIPE ignored"];

/// between fork and exec: only system calls
fn twist(t: u32) {
    unsafe {
        if t & 1 != 0 {
            let mut m: libc::cpu_set_t = std::mem::zeroed();
            if libc::sched_getaffinity(0, std::mem::size_of_val(&m), &mut m) == 0 {
                if let Some(k) = (0..libc::CPU_SETSIZE as usize).find(|&k| libc::CPU_ISSET(k, &m)) {
                    libc::CPU_ZERO(&mut m);
                    libc::CPU_SET(k, &mut m);
                    libc::sched_setaffinity(0, std::mem::size_of_val(&m), &m);
                }
            }
        }
        if t & 2 != 0 {
            libc::umask(0o077);
        }
        if t & 4 != 0 {
            libc::setsid();
        }
        if t & 8 != 0 {
            libc::setpriority(libc::PRIO_PROCESS, 0, 7);
        }
        if t & 16 != 0 {
            let r = libc::rlimit { rlim_cur: 64, rlim_max: 64 };
            libc::setrlimit(libc::RLIMIT_NOFILE, &r);
        }
        if t & 32 != 0 {
            for k in 20..40 {
                libc::dup2(2, k);
            }
        }
        if t & 128 != 0 {
            libc::umask(0);
        }
        if t & 256 != 0 {
            libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        }
    }
}

/// runs a tool with a terminal as standard output
pub fn on_terminal(t: Tool) -> Res<Out> {
    let (mut m, mut s) = (0, 0);
    unsafe {
        let mut ios: libc::termios = std::mem::zeroed();
        libc::cfmakeraw(&mut ios);
        ios.c_cflag |= libc::CS8 | libc::CREAD;
        let size = libc::winsize { ws_row: 24, ws_col: 80, ws_xpixel: 0, ws_ypixel: 0 };
        if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), &ios, &size) != 0 {
            return Err(Fail::Inconclusive("no pseudo terminal".into()));
        }
        for f in [m, s] {
            libc::fcntl(f, libc::F_SETFD, libc::FD_CLOEXEC);
        }
    }
    let mut master = unsafe { File::from_raw_fd(m) };
    let slave = unsafe { File::from_raw_fd(s) };
    let reader = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = master.read_to_end(&mut v); // ends with EIO when the other side is closed
        v
    });
    let o = t.stdout(slave).run();
    let v = reader.join().unwrap_or_default();
    let mut o = o?;
    o.out = v;
    Ok(o)
}

impl<'a> Tool<'a> {
    pub fn new(env: &'a Env, build: Build, bin: &'a str) -> Tool<'a> {
        Tool {
            env,
            bin,
            build,
            args: vec![],
            vars: vec![],
            cwd: None,
            stdin: In::Null,
            stdout: None,
            cpu: CPU_LIMIT,
            fsize: None,
            exe: None,
            nolimit: false,
            strict_cpu: false,
            twist: 0,
        }
    }
    pub fn arg(mut self, a: impl Into<OsString>) -> Self {
        self.args.push(a.into());
        self
    }
    pub fn args<S: Into<OsString>>(mut self, a: impl IntoIterator<Item = S>) -> Self {
        self.args.extend(a.into_iter().map(|x| x.into()));
        self
    }
    pub fn var(mut self, k: &str, v: &str) -> Self {
        self.vars.push((k.into(), v.into()));
        self
    }
    pub fn input(mut self, b: &'a [u8]) -> Self {
        self.stdin = In::Bytes(b);
        self
    }
    pub fn stdin(mut self, i: In<'a>) -> Self {
        self.stdin = i;
        self
    }
    pub fn stdout(mut self, f: File) -> Self {
        self.stdout = Some(f);
        self
    }
    pub fn cwd(mut self, d: impl Into<PathBuf>) -> Self {
        self.cwd = Some(d.into());
        self
    }
    pub fn describe(&self) -> String {
        let mut s = format!("{} ({:?} build)", self.bin, self.build);
        for a in &self.args {
            s.push(' ');
            s.push_str(&a.to_string_lossy().escape_debug().to_string());
        }
        s
    }

    /// Runs to completion. Killed by a crash signal is reported in `signal`.
    pub fn run(self) -> Res<Out> {
        let exe = match &self.exe {
            Some(p) => p.clone(),
            None => match &self.env.bins[self.build as usize] {
                Some(d) => d.join(self.bin),
                None => return Err(Fail::Inconclusive(format!("no {:?} build available", self.build))),
            },
        };
        let desc = self.describe();
        let mut c = Command::new(&exe);
        c.args(&self.args);
        c.env_clear();
        c.env("PATH", "/root/.cargo/bin:/usr/bin:/bin").env("RUST_BACKTRACE", "0").env("LC_ALL", "C");
        for (k, v) in &self.vars {
            c.env(k, v);
        }
        if let Some(d) = &self.cwd {
            c.current_dir(d);
        }
        let own_out = self.stdout.is_none();
        let mut outf = match self.stdout {
            Some(f) => f,
            None => memfd("out")?,
        };
        let mut errf = memfd("err")?;
        let dup = |f: &File| f.try_clone().map_err(|e| Fail::Inconclusive(format!("dup: {}", e)));
        c.stdout(Stdio::from(dup(&outf)?));
        c.stderr(Stdio::from(dup(&errf)?));
        let mut feeder: Option<(std::os::fd::OwnedFd, Vec<u8>, Vec<usize>)> = None;
        match self.stdin {
            In::Null => {
                c.stdin(Stdio::null());
            }
            In::Bytes(b) => {
                let mut f = memfd("in")?;
                f.write_all(b).and_then(|_| f.seek(SeekFrom::Start(0))).map_err(|e| Fail::Inconclusive(format!("memfd: {}", e)))?;
                c.stdin(Stdio::from(f));
            }
            In::Pipe(b, chunks) => {
                let mut fds = [0i32; 2];
                if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
                    return Err(Fail::Inconclusive("pipe failed".into()));
                }
                unsafe {
                    c.stdin(Stdio::from(File::from_raw_fd(fds[0])));
                    feeder = Some((std::os::fd::OwnedFd::from_raw_fd(fds[1]), b.to_vec(), chunks.to_vec()));
                }
            }
            In::Fd(f) => {
                c.stdin(Stdio::from(f));
            }
        }
        let nolimit = self.nolimit || self.build == Build::Asan;
        if self.twist != 0 {
            use std::os::unix::process::CommandExt;
            let t = self.twist;
            if t & 64 != 0 {
                let names = ["/x y/another name", "../up", "./bwt", "a", "", "-p", "bwt", "rle", "none", "/usr/bin/unbwt", "\u{e9}=%s"];
                c.arg0(names[crate::rng::hash_bytes(t as u64, self.args.iter().map(|a| a.len() as u8).chain(exe.as_os_str().len().to_le_bytes()).collect::<Vec<u8>>().as_slice()) as usize % names.len()]);
            }
            unsafe {
                c.pre_exec(move || {
                    twist(t);
                    Ok(())
                });
            }
        }
        if let Some(f) = self.fsize {
            // before the program starts: a quick one would have finished otherwise
            use std::os::unix::process::CommandExt;
            unsafe {
                c.pre_exec(move || {
                    let r = libc::rlimit { rlim_cur: f, rlim_max: f };
                    libc::setrlimit(libc::RLIMIT_FSIZE, &r);
                    Ok(())
                });
            }
        }
        if nolimit {
            use std::os::unix::process::CommandExt;
            unsafe {
                c.pre_exec(|| {
                    let r = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY };
                    libc::setrlimit(libc::RLIMIT_AS, &r);
                    Ok(())
                });
            }
        }
        let mut child = match c.spawn() {
            Ok(ch) => ch,
            Err(e) => return Err(Fail::Inconclusive(format!("cannot start {}: {}", exe.display(), e))),
        };
        drop(c); // closes our copies of the child's ends
        let pid = child.id() as i32;
        let lim = |res: u32, v: u64| unsafe {
            let r = libc::rlimit { rlim_cur: v, rlim_max: v + 5 };
            libc::prlimit(pid, res as _, &r, std::ptr::null_mut());
        };
        lim(libc::RLIMIT_CPU as u32, self.cpu);
        lim(libc::RLIMIT_CORE as u32, 0);
        if self.fsize.is_none() {
            lim(libc::RLIMIT_FSIZE as u32, OUTPUT_LIMIT);
        }
        if !nolimit {
            lim(libc::RLIMIT_AS as u32, 3 << 30);
        }
        let th = feeder.map(|(fd, b, chunks)| {
            std::thread::spawn(move || {
                let mut f = File::from(fd);
                let mut p = 0;
                let mut k = 0;
                while p < b.len() {
                    let l = chunks[k % chunks.len()].max(1).min(b.len() - p);
                    k += 1;
                    if f.write_all(&b[p..p + l]).is_err() {
                        return;
                    }
                    p += l;
                    if k < 64 {
                        // let the reader see this chunk on its own
                        use std::os::fd::AsRawFd;
                        let start = std::time::Instant::now();
                        loop {
                            std::thread::yield_now();
                            let mut left = 0i32;
                            if unsafe { libc::ioctl(f.as_raw_fd(), libc::FIONREAD, &mut left) } != 0 || left == 0 || start.elapsed().as_micros() > 600 {
                                break;
                            }
                        }
                    }
                }
            })
        });
        let st = wait_timeout(&mut child, &desc)?;
        if let Some(t) = th {
            let _ = t.join();
        }
        let mut out = Vec::new();
        let mut err = Vec::new();
        let rd = |f: &mut File, v: &mut Vec<u8>| -> Res {
            f.seek(SeekFrom::Start(0)).and_then(|_| f.read_to_end(v)).map_err(|e| Fail::Inconclusive(format!("{}", e)))?;
            Ok(())
        };
        if own_out {
            rd(&mut outf, &mut out)?;
        }
        rd(&mut errf, &mut err)?;
        let _ = errf.as_raw_fd();
        let o = Out { code: st.code(), signal: st.signal(), out, err };
        match o.signal {
            Some(libc::SIGKILL) | Some(libc::SIGTERM) => {
                // ended from outside (memory guard, operator) or hard CPU limit
                return Err(Fail::Inconclusive(format!("{} was killed from outside (signal {:?})", desc, o.signal)));
            }
            Some(libc::SIGXFSZ) if self.fsize.is_none() => {
                return Err(Fail::Violation(format!("{} writes more than {} MB on this input", desc, OUTPUT_LIMIT >> 20)));
            }
            Some(libc::SIGXCPU) if nolimit && !self.strict_cpu => {
                // instrumentation is slow
                return Err(Fail::Inconclusive(format!("{}: more than {} s of CPU time under instrumentation", desc, self.cpu)));
            }
            Some(libc::SIGXCPU) => {
                return Err(Fail::Violation(format!(
                    "{} does not terminate: still running after {} s of CPU time",
                    desc, self.cpu
                )));
            }
            _ => {}
        }
        if o.err.windows(19).any(|w| w == b"memory allocation o") && o.signal == Some(libc::SIGABRT) {
            return Err(Fail::Violation(format!("{} exhausts 3 GiB of memory on this input", desc)));
        }
        Ok(o)
    }

    /// Runs and requires exit status 0, with no output on stderr beyond logging.
    pub fn ok(self) -> Res<Vec<u8>> {
        let d = self.describe();
        let o = self.run()?;
        if o.code != Some(0) {
            return Err(Fail::Violation(format!("{} failed on valid input: {}", d, o.status())));
        }
        Ok(o.out)
    }
}

impl Out {
    pub fn status(&self) -> String {
        let e = String::from_utf8_lossy(&self.err);
        let e: String = e.chars().take(400).collect();
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {}, stderr: {}", c, e.escape_debug()),
            (_, Some(s)) => format!("killed by signal {}, stderr: {}", s, e.escape_debug()),
            _ => "unknown status".into(),
        }
    }
    /// failed in a controlled way (no crash signal)
    pub fn refused(&self) -> bool {
        matches!(self.code, Some(c) if c != 0)
    }
}

/// far more than any output that is asked for
const OUTPUT_LIMIT: u64 = 600 << 20;

/// Waits for the child; a blocked child that consumes no CPU is distinguished from a slow machine.
pub fn wait_timeout(child: &mut std::process::Child, desc: &str) -> Res<std::process::ExitStatus> {
    let pid = child.id() as i32;
    let start = Instant::now();
    let pfd = unsafe { libc::syscall(libc::SYS_pidfd_open, pid, 0) } as i32;
    if pfd < 0 {
        return child.wait().map_err(|e| Fail::Inconclusive(format!("{}", e)));
    }
    let _own = unsafe { File::from_raw_fd(pfd) };
    loop {
        let mut p = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut p, 1, 1000) };
        if r > 0 {
            return child.wait().map_err(|e| Fail::Inconclusive(format!("{}", e)));
        }
        if start.elapsed() > Duration::from_secs(WALL_LIMIT) {
            let stat = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
            let f: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
            let state = f.first().copied().unwrap_or("?");
            let cpu: u64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0u64)
                + f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0u64);
            let _ = child.kill();
            let _ = child.wait();
            if state == "S" && cpu < 200 {
                return Err(Fail::Violation(format!("{} is blocked for good: asleep after {} s", desc, WALL_LIMIT)));
            }
            return Err(Fail::Inconclusive(format!("{} exceeded the wall-clock watchdog", desc)));
        }
    }
}

/// key=value fields of a RESULT line
pub fn result_fields(out: &[u8]) -> Res<Vec<(String, String)>> {
    let s = String::from_utf8_lossy(out).to_string();
    let lines: Vec<&str> = s.lines().collect();
    if lines.len() != 1 || !s.ends_with('\n') || !lines[0].starts_with("RESULT ") {
        return Err(Fail::Violation(format!(
            "expected exactly one RESULT line on stdout, got {:?}",
            s.chars().take(300).collect::<String>()
        )));
    }
    // values may contain spaces only inside brackets (the list of mus)
    let rest = &lines[0][7..];
    let mut fields = Vec::new();
    let mut depth = 0;
    let mut cur = String::new();
    let mut toks = Vec::new();
    for ch in rest.chars() {
        match ch {
            '[' => depth += 1,
            ']' => depth -= 1,
            _ => {}
        }
        if ch.is_whitespace() && depth <= 0 {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(ch);
        }
    }
    if !cur.is_empty() {
        toks.push(cur);
    }
    for t in toks {
        match t.split_once('=') {
            Some((k, v)) if !k.is_empty() => {
                if fields.iter().any(|(a, _): &(String, String)| a == k) {
                    return Err(Fail::Violation(format!("RESULT line repeats the key {}: {:?}", k, rest)));
                }
                fields.push((k.to_string(), v.to_string()))
            }
            _ => return Err(Fail::Violation(format!("RESULT line has a field that is not key=value: {:?}", t))),
        }
    }
    Ok(fields)
}

pub fn field<'b>(f: &'b [(String, String)], k: &str) -> Res<&'b str> {
    f.iter()
        .find(|x| x.0 == k)
        .map(|x| x.1.as_str())
        .ok_or_else(|| Fail::Violation(format!("RESULT line has no field {}: {:?}", k, f)))
}
pub fn field_num(f: &[(String, String)], k: &str) -> Res<u64> {
    let v = field(f, k)?;
    v.parse().map_err(|_| Fail::Violation(format!("RESULT field {}={} is not a non-negative integer", k, v)))
}

/// a fresh scratch file name, unique per process
pub fn scratch(env: &Env, tag: &str) -> PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    env.scratch.join(format!("{}-{}-{}", tag, std::process::id(), N.fetch_add(1, Ordering::Relaxed)))
}

/// file removed when dropped
pub struct TempFile(pub PathBuf);
impl TempFile {
    pub fn with(env: &Env, tag: &str, b: &[u8]) -> Res<TempFile> {
        let p = scratch(env, tag);
        std::fs::write(&p, b).map_err(|e| Fail::Inconclusive(format!("cannot write {}: {}", p.display(), e)))?;
        Ok(TempFile(p))
    }
    pub fn none(env: &Env, tag: &str) -> TempFile {
        TempFile(scratch(env, tag))
    }
    pub fn path(&self) -> &std::path::Path {
        &self.0
    }
    pub fn arg(&self) -> OsString {
        self.0.clone().into_os_string()
    }
    pub fn read(&self) -> Res<Vec<u8>> {
        std::fs::read(&self.0).map_err(|e| Fail::Violation(format!("the requested output file was not written: {}", e)))
    }
}
impl Drop for TempFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

/// alternates builds by a hash of the case, so both are observed evenly
pub fn build_for(h: u64) -> Build {
    if h & 1 == 0 {
        Build::Checked
    } else {
        Build::Release
    }
}
