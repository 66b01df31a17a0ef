//! Properties of the tools as processes: channels, faults, reports, places, refusals.
use super::Check;
use crate::case::*;
use crate::cli::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::tools::*;
use crate::{ensure, model, violated, Obs};
use std::fs::File;
use std::os::fd::AsRawFd;

fn esc(b: &[u8]) -> String {
    b[..b.len().min(160)].escape_ascii().to_string()
}

/// what one run of a tool delivered, time and file name taken out
#[derive(PartialEq, Clone, Debug)]
struct Delivered {
    code: Option<i32>,
    out: Vec<u8>,
    file: Option<Vec<u8>>,
}
fn compare(what: &str, got: &Delivered, want: &Delivered) -> Res {
    ensure!(got.code == want.code, "{}: exit status {:?} instead of {:?}", what, got.code, want.code);
    same(&format!("{}: standard output", what), &got.out, &want.out)?;
    match (&got.file, &want.file) {
        (Some(a), Some(b)) => same(&format!("{}: output file", what), a, b),
        (None, None) => Ok(()),
        _ => Err(Fail::Violation(format!("{}: output file written in one run but not in the other", what))),
    }
}
fn crash_check(what: &str, o: &Out) -> Res {
    if let Some(s) = o.signal {
        violated!("{} was killed by signal {}: {}", what, s, o.status());
    }
    Ok(())
}

fn pick_spec(r: &mut Rng) -> &'static Spec {
    // each tool is as likely as any other, whatever the number of its variants
    let mut bins: Vec<&str> = SPECS.iter().map(|s| s.bin).collect();
    bins.dedup();
    bins.sort();
    bins.dedup();
    let b = *r.pick(&bins);
    let v: Vec<&Spec> = SPECS.iter().filter(|s| s.bin == b).collect();
    *r.pick(&v)
}

// ------------------------------------------------------------------ C23
pub struct C23;
const CHANNELS: &[&str] = &["file", "stdin", "pipe1", "pipe", "fifo", "devstdin-pipe", "procfd-pipe", "devfd-file", "file-behind-link", "stdin-midway", "socket", "pipe-with-end", "kernel-file"];

struct Fifo {
    path: std::path::PathBuf,
    stop: std::sync::Arc<std::sync::atomic::AtomicBool>,
    th: Option<std::thread::JoinHandle<()>>,
}
impl Fifo {
    fn new(env: &Env, data: &[u8], chunk: usize) -> Res<Fifo> {
        use std::os::unix::ffi::OsStrExt;
        let path = scratch(env, "fifo");
        let c = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
        if unsafe { libc::mkfifo(c.as_ptr(), 0o600) } != 0 {
            return Err(Fail::Inconclusive("mkfifo failed".into()));
        }
        let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let (d, s) = (data.to_vec(), stop.clone());
        let th = std::thread::spawn(move || {
            use std::io::Write;
            // opening without a reader fails, so this never blocks for good
            let fd = loop {
                let fd = unsafe { libc::open(c.as_ptr(), libc::O_WRONLY | libc::O_NONBLOCK | libc::O_CLOEXEC) };
                if fd >= 0 {
                    break fd;
                }
                if s.load(std::sync::atomic::Ordering::Relaxed) {
                    return;
                }
                std::thread::sleep(std::time::Duration::from_micros(200));
            };
            unsafe { libc::fcntl(fd, libc::F_SETFL, 0) };
            let mut f = unsafe { <File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
            for p in d.chunks(chunk.max(1)) {
                if f.write_all(p).is_err() {
                    return;
                }
            }
        });
        Ok(Fifo { path, stop, th: Some(th) })
    }
}
impl Drop for Fifo {
    fn drop(&mut self) {
        self.stop.store(true, std::sync::atomic::Ordering::Relaxed);
        if let Some(t) = self.th.take() {
            let _ = t.join();
        }
        let _ = std::fs::remove_file(&self.path);
    }
}

impl Check for C23 {
    fn boost(&self) -> usize {
        4
    }
    fn rule(&self) -> &'static str {
        "every tool and option set of the table in tools.rs, each input delivered as named file, seekable stdin, pipe byte by byte and in odd chunks, FIFO, socket, /dev/stdin, /proc/self/fd/0, symbolic link, a file of the kernel that has no size, and a file on stdin that is positioned behind its beginning, with prefix lengths 0, 1, around the size, and far beyond it (beside 2^31, 2^32, 2^63 and up to 2^64 - 1); everything delivered is compared with the run on exactly the prefix; each (tool, text, channel, prefix) is a case, non-trivial from two bytes"
    }
    fn generate(&self, g: &mut Gen) {
        for s in SPECS {
            for ch in 0..CHANNELS.len() {
                for p in 0..11 {
                    if p > 0 && !s.prefix {
                        continue;
                    }
                    g.case(|r| self.mk(r, s, ch, p, 400));
                }
            }
        }
        let n = g.n(6000, 60_000);
        g.many(n, |r| {
            let s = pick_spec(r);
            let m = if r.chance(1, 20) { 20_000 } else { 1200 };
            let ch = r.below(CHANNELS.len());
            let p = if s.prefix { r.below(14) } else { 0 };
            self.mk(r, s, ch, p, m)
        });
        // prefixes of telling lengths
        for s in SPECS.iter().filter(|s| s.prefix) {
            for _ in 0..g.n(1, 8) {
                for ch in [0, 1, 3] {
                    g.case(|r| {
                        let l = r.range(9000, 14_000);
                        let t = s.a_text_of(r, l);
                        let mut nums = vec![s.id as i64, ch, 0, r.next() as i64];
                        nums.extend(telling_lengths(r, t.len()).into_iter().take(40).map(|x| x as i64));
                        Case::new("prefixes", &nums, &[&t])
                    });
                }
            }
        }
        // more than a pipe holds, small pieces after a large one
        for s in SPECS {
            for ch in [2, 3, 3] {
                g.case(|r| {
                    let l = r.range(66_000, 90_000);
                    let t = s.a_text_of(r, l);
                    let p = if s.prefix && r.chance(1, 3) { 1 + r.below(l) as i64 } else { 0 };
                    Case::new("deliver", &[s.id as i64, if t.len() > 30_000 { 3 } else { ch }, p, r.next() as i64, 1], &[&t])
                });
            }
        }
        // more than a pipe holds
        let n = g.n(40, 400);
        g.many(n, |r| {
            let s = pick_spec(r);
            let ch = *r.pick(&[2, 3, 3, 3, 4, 5, 6, 10, 11]);
            let p = if s.prefix { r.below(14) } else { 0 };
            self.mk(r, s, ch, p, 200_000)
        });
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        if c.kind == "prefixes" {
            // the same text and channel with many prefix lengths
            for &p in c.nums.iter().skip(4) {
                let one = Case::new("deliver", &[c.nums[0], c.nums[1], p, c.nums[3]], &[&c.data[0]]);
                self.eval(env, &one, obs)?;
            }
            obs.add("prefixes of telling lengths", c.nums.len() as u64 - 4);
            return Ok(());
        }
        let s = &SPECS[c.nums[0] as usize];
        let ch = CHANNELS[c.nums[1] as usize];
        let p = c.nums[2] as u64;
        let t = &s.input(&c.data[0]);
        let h = c.hash();
        // a file whose size is not known before it is read
        let kernel = ["/proc/version", "/proc/filesystems", "/proc/devices"][(h >> 17) as usize % 3];
        let made;
        let t = if ch == "kernel-file" {
            made = std::fs::read(kernel).unwrap_or_default();
            // the reversion needs an encoded text
            if made.is_empty() || made.contains(&0) || made.len() > 5000 || s.input(&made) != made {
                obs.trivial = true;
                return Ok(());
            }
            &made
        } else {
            t
        };
        obs.trivial = t.len() < 2;
        let n = if p == 0 { t.len() } else { (p as u128).min(t.len() as u128) as usize };
        if n == 0 && !s.empty {
            return Ok(());
        }
        let argv = s.argv(n, c.nums[3] as u64);
        let build = if t.len() > 5000 { Build::Release } else { build_for(h) };
        let with_file = s.place != Place::No && h & 8 != 0;
        let deliver = |tool: Tool, of: &TempFile, path: Option<&str>| -> Res<Delivered> {
            let mut tool = tool.args(argv.iter().cloned());
            if with_file {
                tool = tool.arg("-o").arg(of.arg());
            }
            let d = tool.describe();
            let o = tool.run()?;
            crash_check(&d, &o)?;
            let ok = o.code == Some(0) || (s.bin == "is_stringattractor" && o.code == Some(2));
            ensure!(ok, "{} on {} bytes via {} with prefix {}: {}", d, t.len(), ch, p, o.status());
            Ok(Delivered { code: o.code, out: normalize(&o.out, path), file: if with_file { Some(of.read()?) } else { None } })
        };
        let of = TempFile::none(env, "base");
        let want = deliver(Tool::new(env, build, s.bin).input(&t[..n]), &of, None)?;
        let of = TempFile::none(env, "chan");
        let mut tool = Tool::new(env, build, s.bin);
        if s.prefix && (p > 0 || h & 16 != 0) {
            tool = tool.arg(if h & 32 == 0 { "-p" } else { "--prefixlength" }).arg(p.to_string());
        }
        let chunks: Vec<usize> = match ch {
            "pipe1" => vec![1],
            // a large piece, then small ones; pieces of a pipe's capacity; anything
            _ if h & 0x3000 == 0 || c.nums.len() > 4 => {
                let mut v = vec![[65_536, 40_000, 70_000, 131_072][(h >> 14) as usize % 4], 1 + (h >> 21) as usize % 40];
                v.extend(vec![1 + (h >> 30) as usize % 60; 300]);
                v
            }
            _ if h & 0x3000 == 0x1000 => vec![65_536],
            _ => vec![1 + (h >> 9) as usize % 17, 4096, 1 + (h >> 21) as usize % 5000, 8192, 8193],
        };
        let got = match ch {
            "file" | "file-behind-link" => {
                let f = TempFile::with(env, "in", t)?;
                let l = TempFile::none(env, "lnk");
                let path = if ch == "file" {
                    f.path().display().to_string()
                } else {
                    std::os::unix::fs::symlink(f.path(), l.path()).map_err(|e| Fail::Inconclusive(e.to_string()))?;
                    l.path().display().to_string()
                };
                deliver(tool.arg("-i").arg(&path), &of, Some(&path))?
            }
            "kernel-file" => deliver(tool.arg("-i").arg(kernel), &of, Some(kernel))?,
            "stdin" => deliver(tool.input(t), &of, None)?,
            "pipe1" | "pipe" => deliver(tool.stdin(In::Pipe(t, &chunks)), &of, None)?,
            "fifo" => {
                let f = Fifo::new(env, t, chunks[2 % chunks.len()])?;
                let path = f.path.display().to_string();
                deliver(tool.arg("-i").arg(&path), &of, Some(&path))?
            }
            "devstdin-pipe" => deliver(tool.arg("-i").arg("/dev/stdin").stdin(In::Pipe(t, &chunks)), &of, Some("/dev/stdin"))?,
            "procfd-pipe" => deliver(tool.arg("--infilename").arg("/proc/self/fd/0").stdin(In::Pipe(t, &chunks)), &of, Some("/proc/self/fd/0"))?,
            "stdin-midway" => {
                // what precedes the position of the shared file does not belong to the input
                use std::io::{Seek, Write};
                let f = TempFile::with(env, "mid", &[])?;
                let mut file = std::fs::OpenOptions::new().read(true).write(true).open(f.path()).map_err(|e| Fail::Inconclusive(e.to_string()))?;
                let before = 1 + (h >> 12) as usize % 100;
                let mut all: Vec<u8> = (0..before).map(|i| b'k' + (i % 5) as u8).collect();
                all.extend_from_slice(t);
                file.write_all(&all).and_then(|_| file.seek(std::io::SeekFrom::Start(before as u64))).map_err(|e| Fail::Inconclusive(e.to_string()))?;
                deliver(tool.stdin(In::Fd(file)), &of, None)?
            }
            "socket" => {
                use std::io::Write;
                let (a, mut b) = std::os::unix::net::UnixStream::pair().map_err(|e| Fail::Inconclusive(e.to_string()))?;
                let (d, k) = (t.clone(), chunks[2 % chunks.len()]);
                let th = std::thread::spawn(move || {
                    for p in d.chunks(k) {
                        if b.write_all(p).is_err() {
                            return;
                        }
                    }
                });
                let r = deliver(tool.stdin(In::Fd(File::from(std::os::fd::OwnedFd::from(a)))), &of, None);
                let _ = th.join();
                r?
            }
            // an empty piece is no end, the end comes with the last one
            "pipe-with-end" => deliver(tool.stdin(In::Pipe(t, &[t.len().max(1)])), &of, None)?,
            _ => deliver(tool.arg("-i").arg("/dev/stdin").input(t), &of, Some("/dev/stdin"))?,
        };
        compare(&format!("{} {:?} on {} bytes via {} with prefix length {}", s.bin, argv, t.len(), ch, p), &got, &want)?;
        obs.add(&format!("via {}", ch), 1);
        obs.seen("tool, channel and prefix class", (c.nums[0] as u64) << 16 | (c.nums[1] as u64) << 8 | if p == 0 { 0 } else { 1 + (p >= t.len() as u64) as u64 });
        obs.max("input length", t.len() as u64);
        Ok(())
    }
}
impl C23 {
    fn mk(&self, r: &mut Rng, s: &Spec, ch: usize, pc: usize, max: usize) -> Case {
        let mut t = s.a_text(r, max);
        if t.is_empty() && !s.empty {
            t.push(b'a');
        }
        let l = t.len();
        let p: i64 = match pc {
            0 => 0,
            1 => 1,
            2 => l as i64,
            3 => l as i64 + 1,
            4 => (l / 2).max(1) as i64,
            5 => l.saturating_sub(1).max(1) as i64,
            6 => i64::MAX,
            12 => telling_lengths(r, l).first().map_or(1, |&x| x as i64),
            13 => (l as i64) << r.range(1, 8),
            7 => 1 + r.below(l + 5) as i64,
            8 => u64::MAX as i64,
            9 => *r.pick(&[1i64 << 31, 1 << 32, 1 << 16, 1 << 33, i64::MIN, 1 << 48, u32::MAX as i64]),
            // agrees with a small number in its lower bits
            10 => (1i64 << *r.pick(&[16, 31, 32, 32, 33, 40, 63])) + r.range(1, l + 1) as i64,
            _ => 1 + r.below(l.max(1)) as i64,
        };
        let a = r.next() as i64;
        Case::new("deliver", &[s.id as i64, ch as i64, p, a], &[&t])
    }
}

// ------------------------------------------------------------------ C24
pub struct C24;
struct Faulted {
    d: Delivered,
    signal: Option<i32>,
    reads: u64,
    writes: u64,
    injected: u64,
    status: String,
}
const EIO: i64 = 5;
const ENOSPC: i64 = 28;
const EINTR: i64 = 4;
/// further reasons for which a read fails (not EBADF: the standard library takes it for an absent stream)
const RERR: &[i64] = &[5, 11, 12, 14, 21, 22, 61, 95, 104, 110, 113, 116, 121];
const WERR: &[i64] = &[1, 11, 12, 22, 27, 89, 104, 110, 116, 122];
impl C24 {
    #[allow(clippy::too_many_arguments)]
    fn go(&self, env: &Env, build: Build, bin: &str, argv: &[String], t: &[u8], path: Option<&TempFile>, with_file: bool, plan: &str) -> Res<Faulted> {
        let shim = env.shim.as_ref().ok_or_else(|| Fail::Inconclusive("no fault shim".into()))?;
        let log = TempFile::none(env, "shim");
        let of = TempFile::none(env, "out");
        let mut tool = Tool::new(env, build, bin)
            .args(argv.iter().cloned())
            .var("LD_PRELOAD", &shim.display().to_string())
            .var("SHIM_LOG", &log.path().display().to_string())
            .var("SHIM_PLAN", plan);
        let ps = path.map(|p| p.path().display().to_string());
        match &ps {
            Some(p) => tool = tool.arg("-i").arg(p),
            None => tool = tool.input(t),
        }
        if with_file {
            tool = tool.arg("-o").arg(of.arg());
        }
        let o = tool.run()?;
        let l = std::fs::read_to_string(log.path()).unwrap_or_default();
        let v: Vec<u64> = l.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if v.len() != 3 && plan.is_empty() {
            return Err(Fail::Inconclusive(format!("the fault shim left no log: {}", o.status())));
        }
        Ok(Faulted {
            d: Delivered {
                code: o.code,
                out: normalize(&o.out, ps.as_deref()),
                file: if with_file { std::fs::read(of.path()).ok() } else { None },
            },
            signal: o.signal,
            reads: v.first().copied().unwrap_or(0),
            writes: v.get(1).copied().unwrap_or(0),
            injected: v.get(2).copied().unwrap_or(1),
            status: o.status(),
        })
    }
}
impl Check for C24 {
    fn rule(&self) -> &'static str {
        "for every tool, option set, input source and output place of the table: one run to count the read and write calls, then a run for every single call index with each of: interrupted, short, failing once, failing for good (EIO, ENOSPC, EPIPE and, rotating, about twenty further error numbers; zero bytes written), short and then failing; plus interruptions and short transfers at every n-th call together, and real faults (/dev/full, file size limit, closed pipe, directory as input); a case is one (tool, options, source, place, text), its faults are counted in observed"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn min_nontrivial(&self) -> u64 {
        60
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the tools reach the kernel through read, readv, write and writev of the C library (as Rust's standard library does)",
            "for runs with very many calls, the first, last and randomly chosen indices stand for the others",
        ]
    }
    fn generate(&self, g: &mut Gen) {
        for s in SPECS {
            for src in 0..2i64 {
                for out in 0..2i64 {
                    if out == 1 && s.place == Place::No {
                        continue;
                    }
                    for size in 0..3 {
                        g.case(|r| {
                            let mut t = match size {
                                0 => s.a_text_of(r, 3),
                                1 => s.a_text(r, 60),
                                _ => s.a_text_of(r, 20_000),
                            };
                            if t.is_empty() {
                                t.push(b'b');
                            }
                            let a = r.next() as i64;
                            Case::new("faults", &[s.id as i64, src, out, a], &[&t])
                        });
                    }
                }
            }
        }
        let n = g.n(30, 600);
        g.many(n, |r| {
            let s = pick_spec(r);
            let mut t = s.a_text(r, 400);
            if t.is_empty() {
                t.push(b'b');
            }
            let (a, b, c) = (r.below(2) as i64, r.below(2) as i64, r.next() as i64);
            Case::new("faults", &[s.id as i64, a, b, c], &[&t])
        });
        let n = g.n(24, 200);
        g.many(n, |r| {
            let (b, a) = generator_args(r);
            let mut d: Vec<Vec<u8>> = vec![b.as_bytes().to_vec()];
            d.extend(a.iter().map(|x| x.as_bytes().to_vec()));
            let out = (r.chance(1, 2) && (b == "word" || b == "lyndonwords")) as i64;
            let x = r.next() as i64;
            Case { kind: "faults-gen".into(), nums: vec![out, x], data: d }
        });
        for out in 0..2i64 {
            g.case(|_| Case::new("faults-gen", &[out, 0], &[b"randomstring", b"-a", b"1", b"-p", b"3000"]));
        }
        for s in SPECS {
            for k in 0..5i64 {
                g.case(|r| {
                    let t = s.a_text_of(r, 5000);
                    let a = r.next() as i64;
                    Case::new("real", &[s.id as i64, k, a], &[&t])
                });
            }
        }
        for k in 0..4i64 {
            for (b, a) in [("word", "-nfibonacci -k10"), ("enumerate", "3 4"), ("lyndonwords", "-l 9"), ("randomstring", "-a 5 -p 5000"), ("generator_kmer", "")] {
                g.case(|_| {
                    let mut d: Vec<Vec<u8>> = vec![b.as_bytes().to_vec()];
                    d.extend(a.split_whitespace().map(|x| x.as_bytes().to_vec()));
                    Case { kind: "real-gen".into(), nums: vec![k], data: d }
                });
            }
        }
    }
    fn shrinkable(&self, c: &Case) -> bool {
        c.kind == "faults"
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        obs.add(&format!("cases {}", c.kind), 1);
        let h = c.hash();
        let strs = |d: &[Vec<u8>]| -> Vec<String> { d.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect() };
        match c.kind.as_str() {
            "faults" => {
                let s = &SPECS[c.nums[0] as usize];
                let t = &s.input(&c.data[0]);
                if t.is_empty() && !s.empty {
                    return Ok(());
                }
                let argv = if s.bin == "is_stringattractor" {
                    let mut v = vec!["-a".to_string()];
                    v.extend((0..t.len()).map(|x| x.to_string()));
                    v
                } else {
                    s.argv(t.len(), c.nums[3] as u64)
                };
                if argv.len() > 3000 {
                    obs.trivial = true;
                    return Ok(());
                }
                let f = if c.nums[1] == 1 { Some(TempFile::with(env, "in", t)?) } else { None };
                self.enumerate(env, s.bin, &argv, t, f.as_ref(), c.nums[2] == 1 && s.place != Place::No, h, obs)
            }
            "faults-gen" => {
                let v = strs(&c.data);
                self.enumerate(env, &v[0], &v[1..], &[], None, c.nums[0] == 1, h, obs)
            }
            "real" => {
                let s = &SPECS[c.nums[0] as usize];
                let t = &s.input(&c.data[0]);
                let argv = if s.bin == "is_stringattractor" { vec!["-a".into(), "0".into()] } else { s.argv(t.len(), c.nums[2] as u64) };
                self.real(env, s.bin, &argv, t, s.place, c.nums[1], h, obs)
            }
            "real-gen" => {
                let v = strs(&c.data);
                let place = if v[0] == "enumerate" || v[0] == "generator_kmer" { Place::No } else { Place::Instead };
                self.real(env, &v[0], &v[1..], &[], place, c.nums[0], h, obs)
            }
            k => Err(Fail::Inconclusive(format!("unknown kind {}", k))),
        }
    }
}
impl C24 {
    #[allow(clippy::too_many_arguments)]
    fn enumerate(&self, env: &Env, bin: &str, argv: &[String], t: &[u8], path: Option<&TempFile>, with_file: bool, h: u64, obs: &mut Obs) -> Res {
        let build = if t.len() > 3000 { Build::Release } else { build_for(h) };
        let what = |plan: &str| {
            format!(
                "{} {} ({}{:?} build), fault plan {}",
                bin,
                argv.iter().take(12).cloned().collect::<Vec<_>>().join(" "),
                if with_file { "output file, " } else { "" },
                build,
                plan
            )
        };
        let base = self.go(env, build, bin, argv, t, path, with_file, "")?;
        ensure!(base.d.code == Some(0), "{} without faults: {}", bin, base.status);
        let random = bin == "randomstring";
        let full = |d: &Delivered| -> bool {
            if random {
                // random output: completeness is its length
                d.out.len() == base.d.out.len() && d.file.as_ref().map(|f| f.len()) == base.d.file.as_ref().map(|f| f.len())
            } else {
                *d == base.d
            }
        };
        let mut rng = Rng::new(h);
        // the indices to hit
        let mut idx = |n: u64, obs: &mut Obs| -> Vec<u64> {
            let cap = if env.thorough { 80 } else { 14 };
            if n <= cap {
                obs.add("calls enumerated completely", 1);
                (1..=n).collect()
            } else {
                let mut v: Vec<u64> = (1..=4).chain(n - 3..=n).collect();
                while (v.len() as u64) < cap {
                    v.push(1 + rng.below(n as usize) as u64);
                }
                v.sort();
                v.dedup();
                v
            }
        };
        let ri = idx(base.reads, obs);
        let wi = idx(base.writes, obs);
        obs.add("read calls of fault-free runs", base.reads);
        obs.add("write calls of fault-free runs", base.writes);
        let mut plans: Vec<(String, bool, bool)> = Vec::new(); // plan, transient, sticky
        for i in &ri {
            for a in [format!("e{}", EINTR), "s1".into(), "s3".into()] {
                plans.push((format!("r:{}:{}", i, a), true, false));
            }
            let e = RERR[(h.wrapping_add(*i * 5) % RERR.len() as u64) as usize];
            plans.push((format!("r:{}:e{}", i, e), false, false));
            plans.push((format!("r:{}:E{}", i, RERR[((h >> 7).wrapping_add(*i * 3) % RERR.len() as u64) as usize]), false, true));
            plans.push((format!("r:{}:E{}", i, EIO), false, true));
            plans.push((format!("r:{}:e{},r:{}:e{}", i, EINTR, i + 1, EIO), false, false));
        }
        for i in &wi {
            for a in [format!("e{}", EINTR), "s1".into()] {
                plans.push((format!("w:{}:{}", i, a), true, false));
            }
            plans.push((format!("w:{}:e{}", i, EIO), false, false));
            for e in [EIO, ENOSPC, 32, WERR[(h.wrapping_add(*i * 5) % WERR.len() as u64) as usize]] {
                plans.push((format!("w:{}:E{}", i, e), false, true));
            }
            plans.push((format!("w:{}:z0", i), false, false));
            plans.push((format!("w:{}:s1,w:{}:E{}", i, i + 1, ENOSPC), false, true));
        }
        // many interruptions in a row
        for (op, list) in [('r', &ri), ('w', &wi)] {
            if let (Some(first), Some(last)) = (list.first(), list.last()) {
                let i = [*first, *last, list[(h >> 11) as usize % list.len()]][(h >> 9) as usize % 3];
                plans.push((format!("{}:{}:b{}", op, i, [3u32, 17, 40, 100, 300, 1100, 20_000][(h >> 15) as usize % 7]), true, false));
            }
            if t.len() < 3000 {
                plans.push((format!("{}*:1:b{}", op, [2u32, 9, 33, 70][(h >> 19) as usize % 4]), true, false));
            }
        }
        for p in [
            format!("r*:2:e{}", EINTR),
            format!("r*:3:e{}", EINTR),
            "r*:1:s1".into(),
            "r*:1:s7".into(),
            format!("w*:2:e{}", EINTR),
            "w*:1:s1".into(),
            "w*:1:s5".into(),
            format!("r*:2:e{},w*:2:e{},r*:3:s2,w*:3:s1", EINTR, EINTR),
        ] {
            if p.contains(":s1") && (t.len() > 5000 || base.writes > 3000) {
                continue;
            }
            plans.push((p, true, false));
        }
        for (plan, transient, sticky) in plans {
            let r = self.go(env, build, bin, argv, t, path, with_file, &plan)?;
            if r.injected == 0 {
                // the call did not occur this time: must simply be a normal run
                ensure!(full(&r.d), "{}: a run without any fault gave another result ({})", what(&plan), r.status);
                continue;
            }
            obs.add("faults injected", r.injected);
            obs.add(if transient { "runs with transient faults" } else { "runs with failing calls" }, 1);
            if let Some(sig) = r.signal {
                violated!("{}: killed by signal {} ({})", what(&plan), sig, r.status);
            }
            if transient {
                ensure!(r.d.code == Some(0), "{}: failed although every call could be repeated: {}", what(&plan), r.status);
                if !full(&r.d) {
                    compare(&what(&plan), &r.d, &base.d)?;
                    violated!("{}: incomplete output", what(&plan));
                }
            } else if r.d.code == Some(0) {
                ensure!(!sticky, "{}: exit status 0 although the calls kept failing", what(&plan));
                if !full(&r.d) {
                    violated!("{}: exit status 0 with incomplete output: \"{}\" instead of \"{}\"", what(&plan), esc(&r.d.out), esc(&base.d.out));
                }
            } else {
                obs.add("failing runs reported by exit status", 1);
            }
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn real(&self, env: &Env, bin: &str, argv: &[String], t: &[u8], place: Place, k: i64, h: u64, obs: &mut Obs) -> Res {
        let build = if t.len() > 3000 { Build::Release } else { build_for(h) };
        let tool = || Tool::new(env, build, bin).args(argv.iter().cloned()).input(t);
        let (o, name) = match k {
            0 => {
                let f = std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| Fail::Inconclusive(e.to_string()))?;
                (tool().stdout(f).run()?, "stdout on a full device")
            }
            1 => {
                if place == Place::No {
                    return Ok(());
                }
                (tool().arg("-o").arg("/dev/full").run()?, "output file on a full device")
            }
            2 => {
                // a pipe nobody reads
                let mut fds = [0i32; 2];
                unsafe {
                    libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC);
                    libc::close(fds[0]);
                }
                let f = unsafe { <File as std::os::fd::FromRawFd>::from_raw_fd(fds[1]) };
                (tool().stdout(f).run()?, "stdout to a closed pipe")
            }
            3 => {
                // a file that must not grow beyond a few bytes
                let of = TempFile::with(env, "lim", b"")?;
                let f = std::fs::OpenOptions::new().write(true).open(of.path()).map_err(|e| Fail::Inconclusive(e.to_string()))?;
                let mut tl = tool().stdout(f);
                tl.fsize = Some(1);
                (tl.run()?, "stdout beyond the file size limit")
            }
            _ => {
                // reading a directory fails
                let tl = Tool::new(env, build, bin).args(argv.iter().cloned()).arg("-i").arg(env.scratch.clone().into_os_string());
                let o = tl.run()?;
                crash_check(bin, &o)?;
                ensure!(o.code != Some(0), "{} {:?}: exit status 0 on an input that cannot be read", bin, argv);
                obs.add("real faults", 1);
                return Ok(());
            }
        };
        ensure!(
            o.code != Some(0),
            "{} {}: exit status 0 although its output could not be written ({})",
            bin,
            argv.join(" "),
            name
        );
        obs.add("real faults", 1);
        Ok(())
    }
}

// ------------------------------------------------------------------ C25
pub struct C25;
impl Check for C25 {
    fn boost(&self) -> usize {
        6
    }
    fn rule(&self) -> &'static str {
        "every analytic tool and option set on texts of its domain (structured, random, boundary and large lengths), from stdin, file and with prefix lengths, with and without logging and factor files; the line is parsed and its fields compared with the facts; non-trivial: at least two bytes"
    }
    fn generate(&self, g: &mut Gen) {
        for s in SPECS.iter().filter(|s| s.result.is_some()) {
            for l in [1usize, 2, 3, 9, 98, 99, 100, 255, 256, 257] {
                g.case(|r| {
                    let t = s.a_text_of(r, l);
                    let a = r.next() as i64;
                    Case::new("line", &[s.id as i64, a], &[&t])
                });
            }
            if s.empty {
                g.case(|_| Case::new("line", &[s.id as i64, 5], &[b""]));
            }
        }
        let n = g.n(6000, 60_000);
        g.many(n, |r| {
            let s = loop {
                let s = pick_spec(r);
                if s.result.is_some() {
                    break s;
                }
            };
            let m = if r.chance(1, 15) { 20_000 } else { 1500 };
            let t = s.a_text(r, m);
            let a = r.next() as i64;
            Case::new("line", &[s.id as i64, a], &[&t])
        });
        // lengths beyond 24 bits; mus would list millions of pairs
        for s in SPECS.iter().filter(|s| s.result.is_some() && s.bin != "mus") {
            for _ in 0..g.size(1, 3) {
                g.case(|r| {
                    let l = giant_length(r);
                    let sigma = r.range(4, 200);
                    let t: Vec<u8> = random_word(r, l, sigma).into_iter().map(|c| c + 1).collect();
                    Case::new("line", &[s.id as i64, 1 + 4 * r.below(2) as i64], &[&t])
                });
            }
        }
        let n = g.n(24, 200);
        g.many(n, |r| {
            let s = loop {
                let s = pick_spec(r);
                if s.result.is_some() {
                    break s;
                }
            };
            let l = r.log_range(20_000, 400_000);
            let t = s.a_text_of(r, l);
            let a = r.next() as i64;
            Case::new("line", &[s.id as i64, a], &[&t])
        });
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        let s = &SPECS[c.nums[0] as usize];
        let t = &s.input(&c.data[0]);
        let h = c.hash() ^ c.nums[1] as u64;
        obs.trivial = t.len() < 2;
        let p = if h & 3 == 0 { 1 + (h >> 10) as usize % (t.len() + 3) } else { 0 };
        let n = if p == 0 { t.len() } else { p.min(t.len()) };
        if n == 0 && !s.empty {
            return Ok(());
        }
        let build = if t.len() > 3000 { Build::Release } else { build_for(h) };
        let mut tool = Tool::new(env, build, s.bin).args(s.argv(n, h));
        let mut name = "none".to_string();
        let _keep: (Option<TempFile>, Option<TempDir>);
        if h & 4 != 0 {
            _keep = (None, None);
            tool = tool.input(t);
        } else if h & 8 == 0 {
            let f = TempFile::with(env, "in", t)?;
            name = f.path().display().to_string();
            tool = tool.arg("-i").arg(&name);
            _keep = (Some(f), None);
        } else {
            // the field must name the file as it was given, whatever the name looks like
            let d = TempDir::new(env)?;
            let m = NAMES[(h >> 20) as usize % NAMES.len()];
            name = if m == "L" { format!("long-{}.txt", "n".repeat(190)) } else { m.to_string() };
            if name == "link" {
                d.put("target-of-link", t)?;
                std::os::unix::fs::symlink("target-of-link", d.0.join("link")).map_err(|e| Fail::Inconclusive(e.to_string()))?;
            } else {
                d.put(&name, t)?;
            }
            obs.seen("input names", crate::rng::hash_bytes(2, name.as_bytes()));
            tool = tool.arg(if h & 0x100 == 0 { "-i" } else { "--infilename" }).arg(&name).cwd(&d.0);
            _keep = (None, Some(d));
        }
        if p > 0 {
            tool = tool.arg("-p").arg(p.to_string());
        }
        if h & 0x30 == 0 && n < 3000 {
            tool = tool.var("RUST_LOG", if h & 0x40 == 0 { "debug" } else { "info" });
            obs.add("runs with logging", 1);
        }
        let of = TempFile::none(env, "of");
        if s.place == Place::Beside && h & 0x80 == 0 {
            tool = tool.arg("-o").arg(of.arg());
        }
        let out = tool.ok()?;
        // a name with spaces has to be there as it was given; a plain one takes its place for reading the line
        let mut out = out;
        if name.chars().any(|c| c.is_whitespace()) {
            let line = String::from_utf8_lossy(&out).to_string();
            let spots: Vec<usize> = ["file=", "input="]
                .iter()
                .flat_map(|k| line.match_indices(&format!(" {}{}", k, name)).map(|m| m.0 + 1 + k.len()).collect::<Vec<_>>())
                .filter(|&p| line[p + name.len()..].starts_with([' ', '\n']))
                .collect();
            ensure!(!spots.is_empty(), "{} does not report the input {:?}: {:?}", s.bin, name, line);
            out = format!("{}plain{}", &line[..spots[0]], &line[spots[0] + name.len()..]).into_bytes();
            name = "plain".into();
        }
        let fs = result_fields(&out)?;
        let len = field_num(&fs, "length")?;
        let want = n as u64 + s.result.unwrap();
        ensure!(len == want, "{} {:?} reports length {}, it processed {} bytes{}", s.bin, s.args, len, n, if s.result == Some(1) { " and the terminator" } else { "" });
        let fname = match (fs.iter().find(|x| x.0 == "file"), fs.iter().find(|x| x.0 == "input")) {
            (Some(a), None) => &a.1,
            (None, Some(a)) => &a.1,
            _ => violated!("{} has no file or input field (or both): {:?}", s.bin, fs),
        };
        ensure!(*fname == name, "{} reports the input {:?}, it was {:?}", s.bin, fname, name);
        field_num(&fs, "time_ms")?;
        obs.add(&format!("lines of {}", s.bin), 1);
        obs.max("input length", t.len() as u64);
        let keys: Vec<&str> = fs.iter().map(|x| x.0.as_str()).collect();
        obs.seen("key sets", crate::rng::hash_bytes(1, keys.join(" ").as_bytes()));
        // fields that restate the options
        for (k, v) in &fs {
            let opt = match (k.as_str(), s.bin) {
                ("order", _) => {
                    let w = s.args.get(1).copied().unwrap_or("0");
                    Some(w.to_string())
                }
                ("no_dollar", _) => Some(s.args.iter().any(|a| *a == "-n" || *a == "--no-dollar").to_string()),
                ("use_matrix", _) => Some(s.args.iter().any(|a| *a == "-u" || *a == "--use-matrix").to_string()),
                _ => None,
            };
            if let Some(w) = opt {
                ensure!(*v == w, "{} reports {}={}, called with {}", s.bin, k, v, w);
            }
        }
        Ok(())
    }
}

/// names an input file may be given by, relative to the working directory ("L": a long one)
const NAMES: &[&str] = &[
    "in", "./in", ".//in", "sub/in", "sub/../in", "./sub/./in", "../here/in", "a=b", "50%", "%s%n", "none", "-", "0", "1e3", "true",
    "stdin", "in.txt", "in.", ".in", "..in", "a,b;c", "größe", "日本", "UPPER.TXT", "q'uote", "do\"uble", "back\\slash", "a\\nb", "$HOME",
    "~", "*", "?", "#x", "link", "L", "RESULT", "in.txt.txt", "a.b.c", "sub.dir/x.tar.gz", "a:b", "file:in", "{}", "{0}", "<in>", "&", "!", "@in", "+", "_", "^", "sub//in",
    " in", "in ", "two words", "a  b", "tab\tin", " ", "x length=7", "a file=b time_ms=x",
];
/// scratch directory whose working part is called "here"; removed when dropped
struct TempDir(std::path::PathBuf);
impl TempDir {
    fn new(env: &Env) -> Result<TempDir, Fail> {
        let p = crate::cli::scratch(env, "dir");
        let d = TempDir(p.join("here"));
        std::fs::create_dir_all(&d.0).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        Ok(d)
    }
    fn put(&self, name: &str, b: &[u8]) -> Res {
        if let Some(k) = name.rfind('/') {
            std::fs::create_dir_all(self.0.join("sub")).map_err(|e| Fail::Inconclusive(e.to_string()))?;
            std::fs::create_dir_all(self.0.join(&name[..k])).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        }
        std::fs::write(self.0.join(name), b).map_err(|e| Fail::Inconclusive(format!("{}: {}", name, e)))
    }
}
impl Drop for TempDir {
    fn drop(&mut self) {
        // the working directory is `here` inside the scratch folder made above
        if self.0.file_name() == Some(std::ffi::OsStr::new("here")) {
            if let Some(p) = self.0.parent() {
                let _ = std::fs::remove_dir_all(p);
            }
        }
    }
}

// ------------------------------------------------------------------ C29
pub struct C29;
/// lexparse size of a text given as bytes, naive suffix sorting (texts of 33 bytes)
fn lexparse_size(t: &[u8]) -> usize {
    let n = t.len();
    let mut sa: Vec<usize> = (0..n).collect();
    sa.sort_by(|&a, &b| t[a..].cmp(&t[b..]));
    let mut plcp = vec![0usize; n];
    for k in 1..n {
        let (a, b) = (sa[k - 1], sa[k]);
        plcp[b] = t[a..].iter().zip(&t[b..]).take_while(|(x, y)| x == y).count();
    }
    let (mut i, mut z) = (0, 0);
    while i < n {
        i += plcp[i].max(1);
        z += 1;
    }
    z
}
impl Check for C29 {
    fn rule(&self) -> &'static str {
        "the tool takes no input, so a case is one build run for a fixed CPU time and then stopped; every line it printed until then is an observation: parsed, checked as a pair of relabelings with the stated difference, and compared with an independent search over the same enumeration (which shows skipped or invented records)"
    }
    fn min_nontrivial(&self) -> u64 {
        2
    }
    fn shrinkable(&self, _c: &Case) -> bool {
        false
    }
    fn case_cpu_limit(&self) -> u64 {
        800
    }
    fn generate(&self, g: &mut Gen) {
        let secs = g.size(60, 240) as i64;
        g.case(|_| Case::new("records", &[0, secs], &[]));
        g.case(|_| Case::new("records", &[1, secs], &[]));
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        let build = if c.nums[0] == 0 { Build::Checked } else { Build::Release };
        let secs = c.nums[1] as u64;
        let exe = match &env.bins[build as usize] {
            Some(d) => d.join("enumerate_lexparse"),
            None => return Err(Fail::Inconclusive("no build".into())),
        };
        let of = TempFile::with(env, "lexrec", b"")?;
        let f = std::fs::OpenOptions::new().write(true).open(of.path()).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let mut ch = std::process::Command::new(exe)
            .env_clear()
            .env("RUST_BACKTRACE", "0")
            .stdin(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .stdout(std::process::Stdio::from(f))
            .spawn()
            .map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let start = std::time::Instant::now();
        let mut ended = None;
        while start.elapsed().as_secs() < secs {
            if let Ok(Some(st)) = ch.try_wait() {
                ended = Some(st);
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(50));
        }
        let _ = ch.kill();
        let _ = ch.wait();
        if let Some(st) = ended {
            violated!("enumerate_lexparse ended by itself ({:?}) although texts of length 32 remain", st);
        }
        let all = of.read()?;
        let all = match all.iter().rposition(|&b| b == b'\n') {
            Some(p) => &all[..p],
            None => violated!("enumerate_lexparse printed nothing within {} s", secs),
        };
        let text = String::from_utf8_lossy(all).to_string();
        let (mut num, mut record) = (0u64, 0usize);
        let mut count = 0u64;
        for line in text.split('\n') {
            let bad = || Fail::Violation(format!("malformed line {:?}", line));
            let (d, rest) = line.split_once(": ").ok_or_else(bad)?;
            let d: usize = d.parse().map_err(|_| bad())?;
            let (a, b) = rest.split_once(" <-> ").ok_or_else(bad)?;
            let un = |s: &str| -> Option<Vec<u8>> { Some(s.strip_prefix('"')?.strip_suffix("\\0\"")?.bytes().collect()) };
            let (a, b) = (un(a).ok_or_else(bad)?, un(b).ok_or_else(bad)?);
            for t in [&a, &b] {
                ensure!(t.len() == 32 && t.iter().all(|x| *x == b'a' || *x == b'b'), "text {:?} is no binary text of length 32", String::from_utf8_lossy(t));
            }
            let flip = |t: &[u8]| -> Vec<u8> { t.iter().map(|x| if *x == b'a' { b'b' } else { b'a' }).collect() };
            ensure!(a == b || a == flip(&b), "the texts of {:?} are no relabelings of each other", line);
            let z = |t: &[u8]| {
                let mut v = t.to_vec();
                v.push(0);
                lexparse_size(&v)
            };
            let (za, zb) = (z(&a), z(&b));
            ensure!(za.abs_diff(zb) == d, "line {:?}: the lexparse sizes are {} and {}", line, za, zb);
            ensure!(d >= record, "line {:?} after a distance of {}", line, record);
            // the next text of the enumeration whose difference reaches the record
            loop {
                let w: Vec<u8> = (0..32).map(|i| if num >> i & 1 == 1 { b'b' } else { b'a' }).collect();
                let dist = z(&w).abs_diff(z(&flip(&w)));
                num += 1;
                if dist >= record {
                    ensure!(dist == d, "line {:?} instead of the record {} of text {}", line, dist, String::from_utf8_lossy(&w));
                    ensure!(a == w || b == w, "line {:?} does not show text {}, which comes next with distance {}", line, String::from_utf8_lossy(&w), dist);
                    record = dist;
                    break;
                }
                ensure!(num < 1 << 32, "more lines than texts");
            }
            count += 1;
        }
        obs.add("lines checked", count);
        obs.max("texts passed in the enumeration", num);
        obs.max("record distance", record as u64);
        Ok(())
    }
}

// ------------------------------------------------------------------ C30
pub struct C30;
impl Check for C30 {
    fn boost(&self) -> usize {
        4
    }
    fn rule(&self) -> &'static str {
        "every tool and option set of the table plus all generators, on texts of the domain with emphasis on values at type boundaries (run lengths and alphabets around 256, lengths around powers of two, extreme bytes); each invocation executed by a build with debug assertions and overflow checks and by the release build, and stdout, output file and status compared; non-trivial: at least two bytes or a generator"
    }
    fn generate(&self, g: &mut Gen) {
        for s in SPECS {
            for b in [0u8, 1, 127, 128, 254, 255, b'0'] {
                if b == 0 && s.dom == Dom::ZeroFree {
                    continue;
                }
                for l in [1usize, 2, 254, 255, 256, 257, 258, 511, 512, 513, 1025] {
                    g.case(|r| {
                        let mut t = vec![b; l];
                        if r.chance(1, 3) {
                            t.push(b ^ 1 | 2);
                        }
                        let a = r.next() as i64;
                        Case::new("input", &[s.id as i64, a], &[&t])
                    });
                }
            }
            g.case(|r| {
                let lo = if s.dom == Dom::ZeroFree { 1 } else { 0 };
                let mut t: Vec<u8> = (lo..=255).collect();
                r.shuffle(&mut t);
                Case::new("input", &[s.id as i64, 3], &[&t])
            });
            if s.empty {
                g.case(|_| Case::new("input", &[s.id as i64, 1], &[b""]));
            }
        }
        let n = g.n(5000, 60_000);
        g.many(n, |r| {
            let s = pick_spec(r);
            let m = if r.chance(1, 20) { 5000 } else { 1200 };
            let t = s.a_text(r, m);
            let a = r.next() as i64;
            Case::new("input", &[s.id as i64, a], &[&t])
        });
        let n = g.n(60, 600);
        g.many(n, |r| {
            let s = loop {
                let s = pick_spec(r);
                // the others have assertions of quadratic cost
                if !["count_z", "bwt"].contains(&s.bin) || !s.args.is_empty() {
                    break s;
                }
            };
            let l = *r.pick(&[20_000usize, 65_535, 65_536, 65_537, 70_000]);
            let t = s.a_text_of(r, if s.bin == "count_z" { 3000 } else { l });
            let a = r.next() as i64;
            Case::new("input", &[s.id as i64, a], &[&t])
        });
        for n in ["fibonacci", "tribonacci", "kolakoski", "thue-morse", "period-doubling", "paper-folding", "quaternary-paper-folding", "power2", "vtm"] {
            for k in 0..=20u8 {
                g.case(|_| Case::new("gen", &[], &[b"word", b"-n", n.as_bytes(), b"-k", k.to_string().as_bytes()]));
            }
        }
        for k in 0..=13u8 {
            for n in ["binary-de-brujin", "fibonacci-lyndon-factor"] {
                g.case(|_| Case::new("gen", &[], &[b"word", b"-n", n.as_bytes(), b"-k", k.to_string().as_bytes()]));
            }
        }
        let n = g.n(200, 2000);
        g.many(n, |r| {
            let (b, a) = generator_args(r);
            let mut d: Vec<Vec<u8>> = vec![b.as_bytes().to_vec()];
            d.extend(a.iter().map(|x| x.as_bytes().to_vec()));
            Case { kind: "gen".into(), nums: vec![], data: d }
        });
        for a in ["--help", "--version", "-h"] {
            for s in SPECS {
                g.case(|_| Case::new("gen", &[], &[s.bin.as_bytes(), a.as_bytes()]));
            }
        }
        // nothing right to answer: neither build does
        for n in ["thue-morse", "period-doubling", "power2", "quaternary-paper-folding", "paper-folding"] {
            for k in (64..=86).chain(128..=140).chain(192..=204) {
                g.case(|_| Case::new("head", &[0], &[format!("word -n {} -k {}", n, k).as_bytes()]));
            }
        }
        for a in ["word -n fibonacci -k 255", "lyndonwords -s 0", "lyndonwords -l 1 -s 160", "lyndonwords -l 1 -s 255", "lyndonwords -l 2 -s 256", "lyndonwords -l 1 -s 257", "lyndonwords -l 1 -s 4294967298"] {
            g.case(|_| Case::new("head", &[0], &[a.as_bytes()]));
        }
        // too long to finish: the beginning
        for a in ["2 64", "2 1 64", "2 63 65", "26 14", "26 1 26", "26 1 300", "3 41", "4 32", "16 16", "10 20 21", "1 1 3000", "2 300 2000", "26 600"] {
            g.case(|_| Case::new("head", &[300_000], &[format!("enumerate {}", a).as_bytes()]));
        }
        for a in ["-l 64 -s 2", "-l 65 -s 3", "-l 3000", "-l 300 -s 26", "-l 33 -s 100", "-l 9 -s 159", "-l 14 -s 26", "-l 128 -s 128"] {
            g.case(|_| Case::new("head", &[300_000], &[format!("lyndonwords {}", a).as_bytes()]));
        }
    }
    fn shrinkable(&self, c: &Case) -> bool {
        c.kind == "input"
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        obs.add(&format!("cases {}", c.kind), 1);
        let h = c.hash();
        if c.kind == "head" {
            let a = String::from_utf8_lossy(&c.data[0]).to_string();
            let v: Vec<&str> = a.split_whitespace().collect();
            let mut res: Vec<Vec<u8>> = Vec::new();
            let mut codes = Vec::new();
            for b in [Build::Checked, Build::Release] {
                let mut t = Tool::new(env, b, v[0]).args(v[1..].iter().copied());
                if c.nums[0] == 0 {
                    t.cpu = 20;
                    let o = t.run()?;
                    crash_check(&a, &o)?;
                    codes.push((o.code, o.status()));
                    res.push(o.out);
                    continue;
                }
                t.fsize = Some(c.nums[0] as u64);
                let o = t.run()?;
                ensure!(o.signal == Some(libc::SIGXFSZ), "{} ({:?} build): ended with {} after {} bytes of output", a, b, o.status(), o.out.len());
                res.push(o.out);
            }
            if let [d, r] = &codes[..] {
                ensure!(d.0 == r.0, "{}: debug build {}; release build {} and output \"{}\"", a, d.1, r.1, esc(&res[1]));
            }
            same(&format!("{}: beginning of the output of the release build", a), &res[1], &res[0])?;
            obs.add("beginnings of endless runs compared", 1);
            return Ok(());
        }
        let fed;
        let (bin, argv, t, place) = if c.kind == "input" {
            let s = &SPECS[c.nums[0] as usize];
            fed = s.input(&c.data[0]);
            let t = &fed;
            obs.trivial = t.len() < 2;
            if t.is_empty() && !s.empty {
                return Ok(());
            }
            let p = if s.prefix && h & 7 == 0 { 1 + (h >> 10) as usize % (t.len() + 2) } else { 0 };
            let n = if p == 0 { t.len() } else { p.min(t.len()) };
            let mut argv = s.argv(n, c.nums[1] as u64);
            if p > 0 {
                argv.push("-p".into());
                argv.push(p.to_string());
            }
            (s.bin.to_string(), argv, &t[..], s.place)
        } else {
            let v: Vec<String> = c.data.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect();
            let place = if v[0] == "word" || v[0] == "lyndonwords" { Place::Instead } else { Place::No };
            (v[0].clone(), v[1..].to_vec(), &[][..], place)
        };
        let with_file = place != Place::No && h & 0x30 != 0 && !argv.iter().any(|a| a.starts_with("--h") || a.starts_with("--v") || a == "-h");
        let mut res = Vec::new();
        for b in [Build::Checked, Build::Release] {
            let of = TempFile::none(env, "of");
            let mut tool = Tool::new(env, b, &bin).args(argv.iter().cloned()).input(t);
            if with_file {
                tool = tool.arg("-o").arg(of.arg());
            }
            let o = tool.run()?;
            crash_check(&format!("{} ({:?} build)", bin, b), &o)?;
            res.push((
                Delivered { code: o.code, out: normalize(&o.out, None), file: if with_file { std::fs::read(of.path()).ok() } else { None } },
                o.status(),
            ));
        }
        let ok = |d: &Delivered| d.code == Some(0) || (bin == "is_stringattractor" && d.code == Some(2));
        if !ok(&res[0].0) || !ok(&res[1].0) {
            violated!("{} {:?} on a valid input: debug build {}; release build {}", bin, argv, res[0].1, res[1].1);
        }
        compare(&format!("{} {:?}: debug build against release build", bin, argv), &res[0].0, &res[1].0)?;
        obs.add("pairs of runs compared", 1);
        obs.add(&format!("pairs of {}", bin), 1);
        obs.max("input length", t.len() as u64);
        Ok(())
    }
}

// ------------------------------------------------------------------ C31
#[derive(Clone, Copy, PartialEq)]
enum Sink {
    File,
    Link,
    Dangling,
    Fifo,
    Null,
}
impl Sink {
    fn name(self) -> &'static str {
        match self {
            Sink::File => "a file",
            Sink::Link => "a link to a file",
            Sink::Dangling => "a link to a new file",
            Sink::Fifo => "a FIFO",
            Sink::Null => "/dev/null",
        }
    }
}
/// file names a program may trip over; the first one mostly
fn pick_name(h: u64, usual: &'static str) -> &'static &'static str {
    const NAMES: &[&str] = &["input.txt", "out put.dat", ".hidden", "größe", "text.gz", "%s%n", "a;b", "none", "stdin", "RESULT", "x=1 y", "\\0", "t.txt.tmp", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "*"];
    let i = (h & 31) as usize;
    NAMES.get(if i < NAMES.len() { i } else { usize::MAX }).unwrap_or_else(|| NAMES.iter().find(|n| **n == usual).unwrap())
}
/// the reading end of a FIFO
struct Sip {
    stop: std::sync::Arc<std::sync::atomic::AtomicBool>,
    th: Option<std::thread::JoinHandle<Vec<u8>>>,
}
impl Sip {
    fn new(path: &std::path::Path) -> Res<Sip> {
        use std::os::unix::ffi::OsStrExt;
        let c = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
        if unsafe { libc::mkfifo(c.as_ptr(), 0o600) } != 0 {
            return Err(Fail::Inconclusive("mkfifo failed".into()));
        }
        // open for both directions, so that neither side waits for the other
        let fd = unsafe { libc::open(c.as_ptr(), libc::O_RDWR | libc::O_NONBLOCK | libc::O_CLOEXEC) };
        if fd < 0 {
            return Err(Fail::Inconclusive("opening a FIFO failed".into()));
        }
        let mut f = unsafe { <File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
        let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let s = stop.clone();
        let th = std::thread::spawn(move || {
            use std::io::Read;
            let mut v = Vec::new();
            let mut b = [0u8; 65536];
            loop {
                // the flag is read first: what was written before it was set is still found
                let last = s.load(std::sync::atomic::Ordering::Acquire);
                match f.read(&mut b) {
                    Ok(n) if n > 0 => v.extend_from_slice(&b[..n]),
                    _ if last => return v,
                    _ => std::thread::sleep(std::time::Duration::from_micros(200)),
                }
            }
        });
        Ok(Sip { stop, th: Some(th) })
    }
    fn done(mut self) -> Vec<u8> {
        self.stop.store(true, std::sync::atomic::Ordering::Release);
        self.th.take().unwrap().join().unwrap_or_default()
    }
}
impl Drop for Sip {
    fn drop(&mut self) {
        self.stop.store(true, std::sync::atomic::Ordering::Release);
        if let Some(t) = self.th.take() {
            let _ = t.join();
        }
    }
}
pub struct C31;
impl Check for C31 {
    fn boost(&self) -> usize {
        4
    }
    fn rule(&self) -> &'static str {
        "every tool with input or output file in a directory of its own: output to new and existing files (shorter, longer, same content), links, FIFOs and /dev/null, under plain and odd names, relative and absolute, deep logging on and off; with the environment's places for temporary and cached files in that directory, and in half of the runs with a record of every file opened for writing; afterwards the directory listing, the input file, stdout and the output file are compared with a plain run; non-trivial: at least two bytes or a generator"
    }
    fn generate(&self, g: &mut Gen) {
        for s in SPECS {
            for v in 0..12i64 {
                g.case(|r| {
                    let mut t = s.a_text(r, 300);
                    if t.is_empty() && !s.empty {
                        t.push(b'a');
                    }
                    let a = r.next() as i64;
                    Case::new("place", &[s.id as i64, a, v], &[&t])
                });
            }
        }
        let n = g.n(3500, 35_000);
        g.many(n, |r| {
            let s = pick_spec(r);
            let m = if r.chance(1, 20) { 20_000 } else { 1000 };
            let mut t = s.a_text(r, m);
            if t.is_empty() && !s.empty {
                t.push(b'a');
            }
            let (a, v) = (r.next() as i64, r.below(12) as i64);
            Case::new("place", &[s.id as i64, a, v], &[&t])
        });
        let n = g.n(60, 600);
        g.many(n, |r| {
            let s = pick_spec(r);
            let l = r.log_range(9000, 300_000);
            let t = s.a_text_of(r, l);
            let (a, v) = (r.next() as i64, r.below(12) as i64);
            Case::new("place", &[s.id as i64, a, v], &[&t])
        });
        let n = g.n(400, 4000);
        g.many(n, |r| {
            let (b, a) = loop {
                let x = generator_args(r);
                if x.0 == "word" || x.0 == "lyndonwords" {
                    break x;
                }
            };
            let mut d: Vec<Vec<u8>> = vec![b.as_bytes().to_vec()];
            d.extend(a.iter().map(|x| x.as_bytes().to_vec()));
            Case { kind: "place-gen".into(), nums: vec![r.below(12) as i64], data: d }
        });
    }
    fn shrinkable(&self, c: &Case) -> bool {
        c.kind == "place"
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        obs.add(&format!("cases {}", c.kind), 1);
        let h = c.hash();
        let none = Vec::new();
        let fed;
        let (bin, argv, t, place, v) = if c.kind == "place" {
            let s = &SPECS[c.nums[0] as usize];
            fed = s.input(&c.data[0]);
            let t = &fed;
            obs.trivial = t.len() < 2;
            if t.is_empty() && !s.empty {
                return Ok(());
            }
            (s.bin.to_string(), s.argv(t.len(), c.nums[1] as u64), t, s.place, c.nums[2])
        } else {
            let v: Vec<String> = c.data.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect();
            (v[0].clone(), v[1..].to_vec(), &none, Place::Instead, c.nums[0])
        };
        let reads = c.kind == "place";
        let build = if t.len() > 3000 { Build::Release } else { build_for(h) };
        // the plain run, into a fresh file where there is a file
        let plain_out = {
            let o = Tool::new(env, build, &bin).args(argv.iter().cloned()).input(t).run()?;
            crash_check(&bin, &o)?;
            o
        };
        let fresh = if place == Place::Beside {
            let of = TempFile::none(env, "fresh");
            Tool::new(env, build, &bin).args(argv.iter().cloned()).input(t).arg("-o").arg(of.arg()).ok()?;
            Some(of.read()?)
        } else {
            None
        };
        // the watched run
        let dir = scratch(env, "dir");
        std::fs::create_dir(&dir).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        struct Rm(std::path::PathBuf);
        impl Drop for Rm {
            fn drop(&mut self) {
                let _ = std::fs::remove_dir_all(&self.0);
            }
        }
        let _rm = Rm(dir.clone());
        let wr = |n: &str, b: &[u8]| std::fs::write(dir.join(n), b).map_err(|e| Fail::Inconclusive(e.to_string()));
        let mut tool = Tool::new(env, build, &bin).args(argv.iter().cloned()).cwd(&dir);
        let by_file = reads && v % 2 == 0;
        let mut expect: Vec<String> = Vec::new();
        let iname = *pick_name(h >> 21, "input.txt");
        let name = if h & 1 == 0 { iname.to_string() } else { dir.join(iname).display().to_string() };
        if by_file {
            wr(iname, t)?;
            expect.push(iname.into());
            tool = tool.arg("-i").arg(&name);
        } else if reads {
            tool = tool.input(t);
        }
        let stamp = |p: &std::path::Path| {
            use std::os::unix::fs::MetadataExt;
            std::fs::metadata(p).map(|m| (m.ino(), m.mode(), m.mtime(), m.mtime_nsec(), m.nlink())).ok()
        };
        let before = stamp(&dir.join(iname));
        let to_file = place != Place::No && v % 3 != 0;
        let content = match place {
            Place::Instead => plain_out.out.clone(),
            _ => fresh.clone().unwrap_or_default(),
        };
        let fname = *pick_name(h >> 27, "out put.dat");
        let fname = if fname == iname { "result.dat" } else { fname };
        let sink = [Sink::File, Sink::File, Sink::File, Sink::File, Sink::Link, Sink::Dangling, Sink::Fifo, Sink::Null][(h >> 17 & 7) as usize];
        let mut reader = None;
        if to_file {
            let oname = match sink {
                Sink::Null => "/dev/null".to_string(),
                _ if h & 2 == 0 => fname.to_string(),
                _ => dir.join(fname).display().to_string(),
            };
            let inc = |e: std::io::Error| Fail::Inconclusive(e.to_string());
            let file = match sink {
                Sink::Link | Sink::Dangling => {
                    std::os::unix::fs::symlink("target.dat", dir.join(fname)).map_err(inc)?;
                    expect.push("target.dat".into());
                    "target.dat"
                }
                _ => fname,
            };
            match (sink, (h >> 4) % 4) {
                (Sink::Null, _) | (Sink::Dangling, _) | (Sink::File, 0) => {}
                (Sink::Fifo, _) => reader = Some(Sip::new(&dir.join(fname))?),
                (_, 1) => {
                    let mut old = content.clone();
                    old.extend_from_slice(b"this must not survive (1,2)\n");
                    wr(file, &old)?;
                    obs.add("longer files replaced", 1);
                }
                (_, 2) => wr(file, b"x")?,
                _ => {
                    wr(file, &vec![b'z'; content.len() + 10_000])?;
                    obs.add("longer files replaced", 1);
                }
            }
            if sink != Sink::Null {
                expect.push(fname.into());
            }
            tool = tool.arg(if h & 8 == 0 { "-o" } else { "--outfilename" }).arg(&oname);
        }
        let log = ["", "error", "info", "debug", "trace"][((h >> 9) % 5) as usize];
        if !log.is_empty() && t.len() < 3000 {
            tool = tool.var("RUST_LOG", log);
            obs.add("runs with logging", 1);
        }
        // where programs like to leave things
        if h >> 13 & 3 != 0 {
            for k in ["TMPDIR", "TMP", "TEMP", "HOME", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME"] {
                tool = tool.var(k, &dir.display().to_string());
            }
        }
        let trace = TempFile::none(env, "trace");
        if let (Some(shim), true) = (&env.shim, h >> 15 & 1 != 0) {
            tool = tool
                .var("LD_PRELOAD", &shim.display().to_string())
                .var("SHIM_PLAN", "")
                .var("SHIM_LOG", &scratch(env, "none").join("none").display().to_string())
                .var("SHIM_TRACE", &trace.path().display().to_string());
        }
        let d = tool.describe();
        let o = tool.run()?;
        crash_check(&d, &o)?;
        if let Ok(tr) = std::fs::read(trace.path()) {
            obs.add("runs with recorded file operations", 1);
            for l in String::from_utf8_lossy(&tr).lines().take(1000) {
                obs.add("files opened for writing", 1);
                let p = dir.join(l);
                if p.starts_with("/dev") || p.starts_with("/proc") || p == dir.join(fname) || (sink != Sink::File && p == dir.join("target.dat")) {
                    continue;
                }
                ensure!(!p.exists(), "{}: writes to {}", d, p.display());
            }
        }
        ensure!(o.code == plain_out.code, "{}: {}; the plain run ended with {:?}", d, o.status(), plain_out.code);
        let mut found: Vec<String> = std::fs::read_dir(&dir)
            .map_err(|e| Fail::Inconclusive(e.to_string()))?
            .filter_map(|e| e.ok())
            .map(|e| e.file_name().to_string_lossy().to_string())
            .collect();
        found.sort();
        expect.sort();
        ensure!(found == expect, "{}: the directory holds {:?} afterwards, expected {:?}", d, found, expect);
        if by_file {
            same(&format!("{}: the input file afterwards", d), &std::fs::read(dir.join(iname)).unwrap_or_default(), t)?;
            ensure!(stamp(&dir.join(iname)) == before, "{}: the input file was written, replaced or changed its mode", d);
            obs.add("input files compared", 1);
        }
        let path = if by_file { Some(name.as_str()) } else { None };
        let want_out = if to_file && place == Place::Instead { vec![] } else { normalize(&plain_out.out, None) };
        same(&format!("{}: standard output", d), &normalize(&o.out, path), &want_out)?;
        if to_file {
            let got = match (sink, reader) {
                (Sink::Null, _) => None,
                (_, Some(r)) => Some(r.done()),
                _ => Some(std::fs::read(dir.join(fname)).unwrap_or_default()),
            };
            if let Some(got) = got {
                same(&format!("{}: output to {}", d, sink.name()), &got, &content)?;
                obs.add("output files compared", 1);
            }
            obs.add(&format!("output to {}", sink.name()), 1);
        }
        obs.seen("tool, source, place and logging", crate::rng::hash_bytes(c.nums[0] as u64, format!("{}{}{}{}", bin, by_file, to_file, log).as_bytes()));
        Ok(())
    }
}

// ------------------------------------------------------------------ C32
pub struct C32;
impl Check for C32 {
    fn boost(&self) -> usize {
        4
    }
    fn rule(&self) -> &'static str {
        "invocations outside the domain: unreadable inputs and unwritable outputs for every tool, escape lists of unequal length, overlapping, or with the escape symbol, undecodable sequences at every kind of place, entropy_kmer orders outside 1..7, attractor positions beyond the text, enumerate arguments outside their ranges, zero bytes at every place of a text for the suffix-array based tools, malformed, unknown, missing and out-of-range options; every invocation in both builds; each distinct invocation is a case"
    }
    fn generate(&self, g: &mut Gen) {
        let mut bins: Vec<&str> = SPECS.iter().map(|s| s.bin).collect();
        bins.dedup();
        for s in SPECS {
            for k in 0..4i64 {
                g.case(|_| Case::new("unreadable", &[s.id as i64, k], &[]));
            }
            if s.place != Place::No {
                g.case(|r| {
                    let t = s.a_text_of(r, 20);
                    Case::new("unwritable", &[s.id as i64], &[&t])
                });
            }
            for o in ["--no-such-option", "-Q", "--prefixlength=x", "-p -1", "-p 99999999999999999999999", "-p 1.5", "-p", "-i", "stray-argument", "-p 0x10"] {
                g.case(|_| Case::new("args", &[], &[format!("{} {} {}", s.bin, s.args.join(" ").replace('@', "0"), o).as_bytes(), b"abc"]));
            }
        }
        for a in [
            "entropy_kmer -o 0",
            "entropy_kmer -o 8",
            "entropy_kmer -o 9",
            "entropy_kmer -o 255",
            "entropy_kmer -o 263",
            "entropy_kmer -o 65537",
            "entropy_kmer -o 4294967297",
            "entropy_kmer -o 18446744073709551615",
            "entropy_kmer",
            "entropy_kmer -o x",
            "entropy -o -1",
            "entropy -o one",
            "escape -e 256",
            "escape -e -1",
            "escape -e x",
            "escape -e 1 -f 256 -t 2",
            "escape -e 1 -f 2 -t 300",
            "escape -e 1 -f 2, -t 3",
            "escape -e 1 -f a -t 3",
            "enumerate",
            "enumerate 2",
            "enumerate 0 1",
            "enumerate 27 1",
            "enumerate 100 1",
            "enumerate 282 1",
            "enumerate 2 0",
            "enumerate 2 0 3",
            "enumerate 2 3 2",
            "enumerate 2 3 0",
            "enumerate 2 1 2 3",
            "enumerate a 1",
            "enumerate 2 b",
            "enumerate -1 2",
            "enumerate 2 1 x",
            "enumerate 4294967298 1",
            "word",
            "word -n fibonacci",
            "word -k 3",
            "word -n nosuchword -k 3",
            "word -n fibonacci -k 256",
            "word -n fibonacci -k 261",
            "word -n fibonacci -k -1",
            "word -n fibonacci -k x",
            "word -n fibonacci -k 3 stray",
            "lyndonwords -l x",
            "lyndonwords -l -1",
            "lyndonwords -s x",
            "lyndonwords -s 0",
            "lyndonwords -l 1 -s 160",
            "lyndonwords -l 2 -s 200",
            "lyndonwords -l 1 -s 255",
            "lyndonwords -l 1 -s 256",
            "lyndonwords -l 1 -s 257",
            "lyndonwords -l 2 -s 258",
            "lyndonwords -l 1 -s 65538",
            "lyndonwords -l 1 -s 4294967298",
            "lyndonwords -s 18446744073709551615",
            "word -n fibonacci -k 255",
            "lyndonwords stray",
            "randomstring",
            "randomstring -a x",
            "randomstring -a -1",
            "randomstring -a 3 -p x",
            "randomstring -a 3 stray",
            "is_stringattractor -a x",
            "is_stringattractor -a -1",
            "is_stringattractor -a 0 99999999999999999999999",
            "rle --human=x",
            "rle -z3",
            "mtf -p 3",
            "count_runs -p 3",
            "count_runs -o x",
        ] {
            g.case(|_| Case::new("args", &[], &[a.as_bytes(), b"abcabc"]));
        }
        for n in ["thue-morse", "period-doubling", "power2", "quaternary-paper-folding", "paper-folding"] {
            // the length has no representation
            for k in (64..=88).chain(128..=152).chain(192..=216) {
                g.case(|_| Case::new("args", &[], &[format!("word -n {} -k {}", n, k).as_bytes(), b""]));
            }
        }
        let n = g.n(600, 6000);
        g.many(n, |r| {
            // orders outside 1..=7
            let o = match r.below(3) {
                0 => r.range(8, 300) as u64,
                1 => r.log_range(8, 1 << 40) as u64,
                _ => r.next() | 1 << 20,
            };
            let t = text(r, Dom::ZeroFree, 50);
            Case::new("args", &[], &[format!("entropy_kmer -o {}", o).as_bytes(), &t])
        });
        g.many(n, |r| {
            let t = text(r, Dom::ZeroFree, 200);
            let mut v = vec!["is_stringattractor".to_string(), "-a".into()];
            for _ in 0..r.below(4) {
                v.push(r.below(t.len()).to_string());
            }
            let bad = match r.below(5) {
                4 => (1u64 << *r.pick(&[8, 16, 24, 31, 32, 33, 48, 63])) + r.below(t.len()) as u64,
                0 => t.len() as u64 + 1,
                1 => t.len() as u64 + 1 + r.below(100) as u64,
                2 => (1u64 << 32) + r.below(t.len()) as u64,
                _ => r.next() | 1 << 40,
            };
            if bad <= t.len() as u64 {
                v.push((t.len() + 1).to_string());
            }
            v.push(bad.to_string());
            for _ in 0..r.below(3) {
                v.push(r.below(t.len()).to_string());
            }
            Case::new("args", &[], &[v.join(" ").as_bytes(), &t])
        });
        g.many(2 * n, |r| {
            // bad lists for escape, in both directions
            let mut all: Vec<u8> = (0..=255).collect();
            r.shuffle(&mut all);
            let e = all[0];
            let k = if r.chance(1, 5) { r.range(7, 120) } else { r.range(1, 6) };
            let mut from = all[1..1 + k].to_vec();
            let mut to = all[1 + k..1 + 2 * k].to_vec();
            match r.below(8) {
                0 => {
                    to.pop();
                }
                5 => to.push(all[2 * k + 3]),
                6 => from.clear(),
                7 => to.clear(),
                1 => {
                    let p = r.below(k);
                    from[p] = e;
                }
                2 => {
                    let p = r.below(k);
                    to[p] = e;
                }
                3 => {
                    let p = r.below(k);
                    to[p] = from[r.below(k)];
                }
                _ => from.push(all[2 * k + 3]),
            }
            let l = |v: &[u8]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            let mut a = format!("escape -e {}", e);
            if !from.is_empty() {
                a.push_str(&format!(" -f {}", l(&from)));
            }
            if !to.is_empty() {
                a.push_str(&format!(" -t {}", l(&to)));
            }
            if r.chance(1, 3) {
                a.push_str(" --is-reversion");
            }
            let t: Vec<u8> = (0..length(r, 100)).map(|_| r.byte()).collect();
            Case::new("args", &[], &[a.as_bytes(), &t])
        });
        g.many(2 * n, |r| {
            // undecodable: an escape symbol followed by nothing, or by no to-symbol
            let mut all: Vec<u8> = (0..=255).collect();
            r.shuffle(&mut all);
            let k = r.range(1, 5);
            let (e, from, to) = (all[0], &all[1..1 + k], &all[1 + k..1 + 2 * k]);
            let plain = if r.chance(1, 25) { *r.pick(&[4096usize, 8192, 16384, 65536, 131072]) + r.below(40) - 20 } else { r.below(300) };
            let plain: Vec<u8> = (0..plain).map(|_| if r.chance(1, 2) { all[r.below(1 + 2 * k)] } else { r.byte() }).collect();
            let mut enc = super::bytes::escape_model(&plain, e, from, to);
            if r.chance(1, 2) {
                enc.push(e);
            } else {
                let bad = loop {
                    let b = r.byte();
                    if b != e && !to.contains(&b) {
                        break b;
                    }
                };
                enc.push(e);
                enc.push(bad);
                let tail: Vec<u8> = (0..r.below(20)).map(|_| *r.pick(&all[1 + 2 * k..])).collect();
                enc.extend_from_slice(&super::bytes::escape_model(&tail, e, from, to));
            }
            let l = |v: &[u8]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            let a = format!("escape --is-reversion -e {} -f {} -t {}", e, l(from), l(to));
            Case::new("undecodable", &[], &[a.as_bytes(), &enc])
        });
        g.many(n / 2, |r| {
            let wide = |r: &mut Rng, x: u64| x + (1u64 << *r.pick(&[8, 16, 31, 32, 33, 48]));
            let (s, lo, hi) = (r.range(1, 5) as u64, r.range(1, 4) as u64, r.range(1, 4) as u64);
            let a = match r.below(4) {
                0 => format!("{} {}", wide(r, s), lo),
                1 => format!("{} {} {}", wide(r, s), lo, lo + 1),
                2 => format!("{} {} {}", s, lo + hi, r.below((lo + hi) as usize)),
                // lengths of no use: more than there is memory for, but the arguments contradict each other anyway
                _ => format!("{} {} {}", s, wide(r, lo), hi),
            };
            Case::new("args", &[], &[format!("enumerate {}", a).as_bytes(), b""])
        });
        g.many(n / 2, |r| {
            // numbers that some narrower type would take for valid ones
            let x = r.below(256) as u64 + (1u64 << *r.pick(&[8, 16, 31, 32, 33, 48]));
            let a = match r.below(6) {
                0 => format!("word -n {} -k {}", r.pick(&["fibonacci", "thue-morse", "power2", "kolakoski"]), x),
                1 => format!("escape -e {}", x),
                2 => format!("escape -e 300 -f {} -t 4", x % 256),
                3 => format!("escape -e 1 -f {},7 -t 4,5", x),
                4 => format!("escape -e 1 -f 2,7 -t 4,{}", x),
                _ => format!("entropy_kmer -o {}", x),
            };
            Case::new("args", &[], &[a.as_bytes(), b"abcab"])
        });
        let big = g.n(40, 300);
        g.many(big, |r| {
            // a zero byte somewhere in a long text
            let l = if r.chance(1, 2) { r.log_range(500, 9000) } else { r.log_range(9000, 200_000) };
            let mut t = text_of(r, Dom::ZeroFree, l);
            let p = match r.below(4) {
                0 => l - 1 - r.below(5),
                1 => r.below(5),
                2 => (*r.pick(&[256usize, 4096, 8191, 8192, 65535, 65536])).min(l - 1),
                _ => r.below(l),
            };
            t[p] = 0;
            if p + 1 == l {
                t.push(b'q');
            }
            let b = *r.pick(&["bwt", "bwt -n", "count_r", "count_r -n", "entropy -o 1", "entropy -o 2", "entropy -o 6"]);
            Case::new("zero", &[], &[b.as_bytes(), &t])
        });
        g.many(3 * n, |r| {
            // a zero byte inside
            let mut t = text(r, Dom::ZeroFree, 400);
            for _ in 0..r.range(1, 3) {
                let p = r.below(t.len());
                t[p] = 0;
            }
            if t.last() == Some(&0) && r.chance(3, 4) {
                t.push(b'q');
            }
            let b = *r.pick(&["bwt", "bwt -n", "count_r", "count_r -n", "entropy -o 1", "entropy -o 2", "entropy -o 6"]);
            Case::new("zero", &[], &[b.as_bytes(), &t])
        });
        g.exhaustive(2, 1, 7, |w| {
            let t: Vec<u8> = w.iter().map(|x| [b'a', 0][*x as usize]).collect();
            let b = ["bwt", "bwt -n", "count_r", "count_r -n", "entropy -o 1"][crate::rng::hash_bytes(2, w) as usize % 5];
            Case::new("zero", &[], &[b.as_bytes(), &t])
        });
    }
    fn shrinkable(&self, c: &Case) -> bool {
        c.kind == "zero"
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        obs.add(&format!("cases {}", c.kind), 1);
        let mut strict = true;
        let mut tools: Vec<(Tool, Option<TempFile>)> = Vec::new();
        let nothing = std::path::Path::new("/nonexistent-directory-of-vmon");
        for b in [Build::Checked, Build::Release] {
            match c.kind.as_str() {
                "unreadable" => {
                    let s = &SPECS[c.nums[0] as usize];
                    let p = match c.nums[1] {
                        0 => nothing.join("x"),
                        1 => scratch(env, "missing"),
                        2 => env.scratch.clone(),
                        _ => "".into(),
                    };
                    tools.push((Tool::new(env, b, s.bin).args(s.argv(1, 0)).arg("-i").arg(p.into_os_string()), None));
                }
                "unwritable" => {
                    let s = &SPECS[c.nums[0] as usize];
                    strict = s.place == Place::Instead;
                    tools.push((
                        Tool::new(env, b, s.bin).args(s.argv(1, 0)).input(&c.data[0]).arg("-o").arg(nothing.join("o").into_os_string()),
                        None,
                    ));
                }
                "zero" => {
                    let t = &c.data[1];
                    let a = String::from_utf8_lossy(&c.data[0]).to_string();
                    let bare = a.contains("-n");
                    // only a zero byte in the last place of the (terminated) text is allowed
                    let inner = if bare { t.len().saturating_sub(1) } else { t.len() };
                    if !t[..inner].contains(&0) {
                        obs.trivial = true;
                        return Ok(());
                    }
                    let v: Vec<&str> = a.split_whitespace().collect();
                    tools.push((Tool::new(env, b, SPECS.iter().find(|s| s.bin == v[0]).unwrap().bin).args(v[1..].iter().copied()).input(t), None));
                }
                _ => {
                    strict = c.kind != "undecodable";
                    let a = String::from_utf8_lossy(&c.data[0]).to_string();
                    let v: Vec<String> = a.split_whitespace().map(|x| x.to_string()).collect();
                    let bin: &'static str = ["enumerate", "word", "lyndonwords", "randomstring"]
                        .into_iter()
                        .chain(SPECS.iter().map(|s| s.bin))
                        .find(|x| *x == v[0])
                        .ok_or_else(|| Fail::Inconclusive(format!("unknown tool {}", v[0])))?;
                    tools.push((Tool::new(env, b, bin).args(v[1..].iter().cloned()).input(&c.data[1]), None));
                }
            }
        }
        for (mut t, _f) in tools {
            t.cpu = 20;
            let d = t.describe();
            let o = t.run()?;
            crash_check(&d, &o)?;
            ensure!(o.code != Some(0), "{} accepts what is outside its domain: exit status 0, stdout \"{}\"", d, esc(&o.out));
            if strict {
                ensure!(o.out.is_empty(), "{} refuses with status {:?} but wrote a result: \"{}\"", d, o.code, esc(&o.out));
            }
            obs.add("refusals observed", 1);
            obs.seen("exit statuses", o.code.unwrap_or(-1) as u64);
        }
        let _ = model::runs(&[]);
        let _ = std::io::stdout().as_raw_fd();
        Ok(())
    }
}
