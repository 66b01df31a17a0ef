//! vmon: runtime monitors for stringology-rust.
//!
//! `vmon run ID`     run the check of a property: workers evaluate generated cases, the parent
//!                   watches them (crash, hang), merges what was observed and writes evidence
//! `vmon eval ID F`  evaluate one stored case (used for replay and for shrinking)
mod case;
mod checks;
mod cli;
mod gen;
mod json;
mod model;
mod rng;
mod tools;
mod types;

use case::{Case, Fail};
use checks::Check;
use cli::{Build, Env};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

/// What an evaluation reports beside its verdict.
#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    /// distinct observed behaviours (interleavings, outputs, states), by name
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub trivial: bool,
}
impl Obs {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let v = self.maxima.entry(k.to_string()).or_insert(0);
        *v = (*v).max(n);
    }
    pub fn seen(&mut self, k: &str, h: u64) {
        let s = self.sets.entry(k.to_string()).or_default();
        if s.len() < 200_000 {
            s.insert(h);
        }
    }
}

fn env_from_vars() -> Env {
    let p = |k: &str| std::env::var_os(k).map(PathBuf::from);
    Env {
        bins: [p("VMON_BINS_CHECKED"), p("VMON_BINS_RELEASE"), p("VMON_BINS_ASAN")],
        scratch: p("VMON_SCRATCH").unwrap_or_else(|| PathBuf::from("/tmp")),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        shim: p("VMON_SHIM"),
        verif: p("VMON_VERIF").unwrap_or_else(|| PathBuf::from("/verif")),
    }
}

const SLOT: usize = 64 << 20;

struct Shared {
    ptr: *mut u8,
}
impl Shared {
    fn open(path: &Path, create: bool) -> Shared {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path).expect("shared slot");
        f.set_len(SLOT as u64).expect("shared slot size");
        use std::os::fd::AsRawFd;
        let ptr = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(ptr != libc::MAP_FAILED, "mmap");
        Shared { ptr: ptr as *mut u8 }
    }
    fn counter(&self) -> u64 {
        unsafe { std::ptr::read_volatile(self.ptr as *const u64) }
    }
    /// written before a case is evaluated, so that the parent knows it after a crash
    fn put(&self, n: u64, c: &[u8]) {
        unsafe {
            let l = if c.len() + 16 <= SLOT { c.len() } else { 0 };
            std::ptr::write_volatile((self.ptr as *mut u64).add(1), 0);
            std::ptr::copy_nonoverlapping(c.as_ptr(), self.ptr.add(16), l);
            std::ptr::write_volatile((self.ptr as *mut u64).add(1), l as u64);
            std::ptr::write_volatile(self.ptr as *mut u64, n);
        }
    }
    fn get(&self) -> Vec<u8> {
        unsafe {
            let l = std::ptr::read_volatile((self.ptr as *const u64).add(1)) as usize;
            std::slice::from_raw_parts(self.ptr.add(16), l).to_vec()
        }
    }
}

fn evaluate(check: &dyn Check, env: &Env, c: &Case, obs: &mut Obs) -> Result<(), Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check.eval(env, c, obs))) {
        Ok(r) => r,
        Err(_) => Err(Fail::Inconclusive(format!("the monitor itself panicked: {}", case::last_panic()))),
    }
}

fn worker(id: &str, shard: u64, shards: u64, dir: &Path) -> i32 {
    let env = env_from_vars();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1) as u64;
    let secs: u64 = std::env::var("VMON_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(400);
    let check = match checks::by_id(id) {
        Some(c) => c,
        None => return 2,
    };
    let slot = Shared::open(&dir.join(format!("slot{}", shard)), true);
    let start = Instant::now();
    let mut obs = Obs::default();
    let (mut evals, mut nontrivial, mut inconclusive) = (0u64, 0u64, 0u64);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut report = String::new();
    let mut truncated = false;
    let mut found = false;
    let mut slowest = (Duration::ZERO, String::new());
    let stopfile = dir.join("stop");
    {
        let mut sink = |_i: u64, c: Case| -> bool {
            slot.put(evals + 1, &c.serialize());
            obs.trivial = false;
            let t0 = Instant::now();
            let r = evaluate(check.as_ref(), &env, &c, &mut obs);
            if t0.elapsed() > slowest.0 {
                slowest = (t0.elapsed(), c.show());
            }
            evals += 1;
            match r {
                Ok(()) => {
                    if !obs.trivial && hashes.insert(c.hash()) {
                        nontrivial += 1;
                        let n = nontrivial;
                        if n.is_power_of_two() && n > 4 {
                            samples.push(c.show());
                        }
                    }
                }
                Err(Fail::Violation(m)) => {
                    let f = dir.join(format!("viol-{}", shard));
                    let _ = std::fs::write(&f, c.serialize());
                    report.push_str(&format!("violation {}\n", m.replace('\n', " ")));
                    let _ = std::fs::write(&stopfile, b"");
                    found = true;
                    return false;
                }
                Err(Fail::Inconclusive(m)) => {
                    inconclusive += 1;
                    if inconclusive <= 3 {
                        report.push_str(&format!("inconclusive {} -- {}\n", m.replace('\n', " "), c.show().replace('\n', " ")));
                    }
                    if inconclusive > 20 {
                        return false;
                    }
                }
            }
            if start.elapsed() > Duration::from_secs(secs) {
                truncated = true;
                return false;
            }
            if evals % 8 == 0 && stopfile.exists() {
                return false;
            }
            true
        };
        let mut g = gen::Gen {
            seed,
            shard,
            shards,
            idx: 0,
            thorough: env.thorough,
            boost: check.boost(),
            sink: &mut sink,
            stopped: false,
        };
        check.generate(&mut g);
    }
    slot.put(u64::MAX, b"");
    let _ = found;
    report.push_str(&format!("evals {}\n", evals));
    report.push_str(&format!("inconclusives {}\n", inconclusive));
    report.push_str(&format!("truncated {}\n", truncated as u8));
    for (k, v) in &obs.counters {
        report.push_str(&format!("count {} {}\n", v, k));
    }
    for (k, v) in &obs.maxima {
        report.push_str(&format!("max {} {}\n", v, k));
    }
    for (k, v) in &obs.sets {
        for h in v {
            report.push_str(&format!("set {:x} {}\n", h, k));
        }
    }
    report.push_str(&format!("slow {} {}\n", slowest.0.as_millis(), slowest.1.replace('\n', " ")));
    for s in samples.iter().rev().take(4) {
        report.push_str(&format!("sample {}\n", s.replace('\n', " ")));
    }
    let hb: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    let _ = std::fs::write(dir.join(format!("hashes-{}", shard)), hb);
    let _ = std::fs::write(dir.join(format!("report-{}", shard)), report);
    0
}

fn cpu_ticks(pid: u32) -> u64 {
    let stat = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

enum EvalEnd {
    Held,
    Violated(String),
    Unknown(String),
}

/// evaluates a case in a process of its own
/// no process was started by this one (or it cannot be told)
fn childless(pid: u32) -> bool {
    let Ok(tasks) = std::fs::read_dir(format!("/proc/{}/task", pid)) else { return false };
    for t in tasks.flatten() {
        match std::fs::read_to_string(t.path().join("children")) {
            Ok(c) if c.trim().is_empty() => {}
            _ => return false,
        }
    }
    true
}

fn eval_isolated(id: &str, file: &Path, cpu_secs: u64) -> EvalEnd {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let mut ch = match std::process::Command::new(exe)
        .args(["eval", id])
        .arg(file)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return EvalEnd::Unknown(e.to_string()),
    };
    unsafe {
        let r = libc::rlimit { rlim_cur: cpu_secs, rlim_max: cpu_secs + 5 };
        libc::prlimit(ch.id() as i32, libc::RLIMIT_CPU, &r, std::ptr::null_mut());
    }
    let mut pipe = ch.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut out = String::new();
        let _ = pipe.read_to_string(&mut out);
        out
    });
    let start = Instant::now();
    let (mut ticks, mut since) = (0, Instant::now());
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(e) => return EvalEnd::Unknown(e.to_string()),
        }
        let t = cpu_ticks(ch.id());
        if t > ticks + 50 || !childless(ch.id()) {
            ticks = t;
            since = Instant::now();
        }
        let blocked = since.elapsed() > Duration::from_secs(60);
        if blocked || start.elapsed() > Duration::from_secs(700) {
            let _ = ch.kill();
            let _ = ch.wait();
            let _ = reader.join();
            return if blocked {
                EvalEnd::Violated("library code is blocked for good, without using the processor".into())
            } else {
                EvalEnd::Unknown("evaluation exceeded the wall-clock watchdog".into())
            };
        }
        std::thread::sleep(Duration::from_millis(if start.elapsed() < Duration::from_millis(200) { 1 } else { 10 }));
    };
    let out = reader.join().unwrap_or_default();
    match (st.code(), st.signal()) {
        (Some(0), _) => EvalEnd::Held,
        (Some(1), _) => EvalEnd::Violated(out.trim().to_string()),
        (_, Some(libc::SIGXCPU)) => EvalEnd::Violated(format!("evaluation still running after {} s of CPU time", cpu_secs)),
        (_, Some(s)) if [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&s) => {
            EvalEnd::Violated(format!("the process crashed with signal {}", s))
        }
        _ => EvalEnd::Unknown(format!("{:?} {}", st, out.trim())),
    }
}

/// greedy reduction of a failing case, within a small budget
fn shrink(id: &str, c: &Case, dir: &Path, crash_only: bool) -> Case {
    let start = Instant::now();
    let f = dir.join("shrink");
    let mut best = c.clone();
    let mut tries = 0;
    let mut fails = |cand: &Case| -> bool {
        tries += 1;
        if tries > 250 || start.elapsed() > Duration::from_secs(25) {
            return false;
        }
        if std::fs::write(&f, cand.serialize()).is_err() {
            return false;
        }
        matches!(eval_isolated(id, &f, 10), EvalEnd::Violated(m) if !crash_only || m.contains("crash"))
    };
    for d in 0..best.data.len() {
        let mut chunk = best.data[d].len() / 2;
        while chunk > 0 {
            let mut p = 0;
            let mut progress = false;
            while p < best.data[d].len() {
                let mut cand = best.clone();
                let hi = (p + chunk).min(cand.data[d].len());
                cand.data[d].drain(p..hi);
                if fails(&cand) {
                    best = cand;
                    progress = true;
                } else {
                    p += chunk;
                }
                if start.elapsed() > Duration::from_secs(25) {
                    return best;
                }
            }
            if !progress || chunk == 1 {
                chunk /= 2;
            }
        }
    }
    best
}

fn run(id: &str) -> i32 {
    let t0 = Instant::now();
    let env = env_from_vars();
    let check = match checks::by_id(id) {
        Some(c) => c,
        None => {
            eprintln!("no check {}", id);
            return 2;
        }
    };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let shards: u64 = std::env::var("VMON_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4))
        .clamp(1, 16);
    let shards = check.jobs().unwrap_or(shards);
    let dir = env.scratch.join("run");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch");
    let exe = std::env::current_exe().unwrap();
    struct W {
        ch: Option<std::process::Child>,
        slot: Shared,
        last: u64,
        ticks: u64,
        since: Instant,
        end: Option<Result<(), String>>,
    }
    let mut ws: Vec<W> = Vec::new();
    for s in 0..shards {
        let slot = Shared::open(&dir.join(format!("slot{}", s)), true);
        let ch = std::process::Command::new(&exe)
            .args(["worker", id, &s.to_string(), &shards.to_string()])
            .arg(&dir)
            .stdin(std::process::Stdio::null())
            .stderr(std::fs::File::create(dir.join(format!("err{}", s))).expect("scratch"))
            .spawn()
            .expect("worker");
        ws.push(W { ch: Some(ch), slot, last: 0, ticks: 0, since: Instant::now(), end: None });
    }
    // watch: a worker that makes no progress on one case for long CPU time hangs in library code
    let mut crashed: Option<(Vec<u8>, String)> = None;
    // the crash cannot be blamed on anything but a broken memory or an illegal operation
    let mut corrupt = false;
    let mut trouble: Vec<String> = Vec::new();
    loop {
        let mut alive = 0;
        for (nr, w) in ws.iter_mut().enumerate() {
            let Some(ch) = w.ch.as_mut() else { continue };
            match ch.try_wait() {
                Ok(Some(st)) => {
                    use std::os::unix::process::ExitStatusExt;
                    w.ch = None;
                    if st.code() == Some(0) {
                        w.end = Some(Ok(()));
                    } else if let Some(s) = st.signal() {
                        let m = format!("the process running library code crashed with signal {}", s);
                        w.end = Some(Err(m.clone()));
                        if [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&s) && w.slot.counter() != u64::MAX {
                            let err = std::fs::read(dir.join(format!("err{}", nr))).unwrap_or_default();
                            let err = String::from_utf8_lossy(&err).to_string();
                            let heap = ["free()", "double free", "malloc()", "malloc(): ", "corrupted", "munmap_chunk", "realloc()", "invalid pointer", "unaligned"];
                            corrupt |= [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&s) || heap.iter().any(|h| err.contains(h));
                            crashed.get_or_insert((w.slot.get(), format!("{} {}", m, err.lines().last().unwrap_or("").escape_debug())));
                            let _ = std::fs::write(dir.join("stop"), b"");
                        } else {
                            trouble.push(format!("worker ended by signal {}", s));
                        }
                    } else {
                        trouble.push(format!("worker exited with {:?}", st.code()));
                    }
                }
                Ok(None) => {
                    alive += 1;
                    let c = w.slot.counter();
                    let t = cpu_ticks(ch.id());
                    if c != w.last || c == 0 {
                        w.last = c;
                        w.ticks = t;
                        w.since = Instant::now();
                    } else if c != u64::MAX && t.saturating_sub(w.ticks) > 100 * check.case_cpu_limit() {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        w.ch = None;
                        let m = format!("library code does not return: {} s of CPU time on one case", check.case_cpu_limit());
                        w.end = Some(Err(m.clone()));
                        crashed.get_or_insert((w.slot.get(), m));
                        let _ = std::fs::write(dir.join("stop"), b"");
                    } else if c != u64::MAX && w.since.elapsed() > Duration::from_secs(180) && t.saturating_sub(w.ticks) < 100 && childless(ch.id()) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        w.ch = None;
                        crashed.get_or_insert((w.slot.get(), "library code is blocked for good".into()));
                        let _ = std::fs::write(dir.join("stop"), b"");
                    } else if w.since.elapsed() > Duration::from_secs(700) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        w.ch = None;
                        trouble.push("worker exceeded the wall-clock watchdog".into());
                    }
                }
                Err(e) => trouble.push(e.to_string()),
            }
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for nr in 0..shards {
        if let Ok(e) = std::fs::read(dir.join(format!("err{}", nr))) {
            eprint!("{}", String::from_utf8_lossy(&e).lines().take(5).map(|l| format!("worker: {}\n", l)).collect::<String>());
        }
    }
    // merge
    let (mut evals, mut inconc, mut trunc) = (0u64, 0u64, 0u64);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<String, u64> = BTreeMap::new();
    let mut sets: BTreeMap<String, HashSet<u64>> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut slow: (u64, String) = (0, String::new());
    let mut all: HashSet<u64> = HashSet::new();
    let mut violations: Vec<(Vec<u8>, String)> = Vec::new();
    for s in 0..shards {
        let rep = std::fs::read_to_string(dir.join(format!("report-{}", s))).unwrap_or_default();
        for l in rep.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let num = || v.split(' ').next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            let name = || v.split_once(' ').map(|x| x.1.to_string()).unwrap_or_default();
            match k {
                "evals" => evals += num(),
                "inconclusives" => inconc += num(),
                "truncated" => trunc += num(),
                "count" => *counters.entry(name()).or_insert(0) += num(),
                "max" => {
                    let e = maxima.entry(name()).or_insert(0);
                    *e = (*e).max(num());
                }
                "set" => {
                    let h = u64::from_str_radix(v.split(' ').next().unwrap_or("0"), 16).unwrap_or(0);
                    sets.entry(name()).or_default().insert(h);
                }
                "sample" => samples.push(v.to_string()),
                "slow" => {
                    if num() > slow.0 {
                        slow = (num(), name());
                    }
                }
                "violation" => {
                    if let Ok(b) = std::fs::read(dir.join(format!("viol-{}", s))) {
                        violations.push((b, v.to_string()));
                    }
                }
                "inconclusive" => trouble.push(v.to_string()),
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("hashes-{}", s))) {
            for c in b.chunks_exact(8) {
                all.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    if let Some((c, m)) = crashed {
        // reproduce on its own before calling it a violation
        let f = dir.join("crash");
        let _ = std::fs::write(&f, &c);
        match eval_isolated(id, &f, check.case_cpu_limit()) {
            EvalEnd::Violated(m2) => violations.push((c, format!("{} ({})", m, m2))),
            EvalEnd::Held if corrupt => violations.push((c, format!("{}, after the preceding calls in this process", m))),
            EvalEnd::Held => trouble.push(format!("{}, not reproduced on its own", m)),
            EvalEnd::Unknown(e) => trouble.push(format!("{}, reproduction inconclusive: {}", m, e)),
        }
    }
    let post = if violations.is_empty() { check.finish(&counters, &sets) } else { Ok(()) };
    let mut code = 0;
    if let Err(f) = post {
        match f {
            Fail::Violation(m) => violations.push((Case::new("summary", &[], &[]).serialize(), m)),
            Fail::Inconclusive(m) => trouble.push(m),
        }
    }
    if !violations.is_empty() {
        violations.sort_by_key(|v| v.0.len());
        let (b, m) = violations[0].clone();
        let mut msg = m;
        let mut final_bytes = b.clone();
        if let Some(c) = Case::parse(&b) {
            if c.kind != "summary" && check.shrinkable(&c) {
                let crash = msg.contains("crashed with signal");
                let small = shrink(id, &c, &dir, crash);
                if small != c {
                    let f = dir.join("small");
                    let _ = std::fs::write(&f, small.serialize());
                    if let EvalEnd::Violated(m2) = eval_isolated(id, &f, check.case_cpu_limit()) {
                        msg = m2;
                        final_bytes = small.serialize();
                    }
                }
            }
        }
        let rdir = env.verif.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{:016x}.case", id, rng::hash_bytes(3, &final_bytes)));
        let mut f = std::fs::File::create(&path).expect("replay file");
        let _ = writeln!(f, "# property {}: {}", id, msg.replace('\n', " "));
        let _ = writeln!(f, "# replay: ./check.sh replay {} {}", id, path.display());
        let _ = f.write_all(&final_bytes);
        let show = Case::parse(&final_bytes).map(|c| c.show()).unwrap_or_default();
        println!("observed: {}", msg);
        println!("case: {}", show);
        println!("VIOLATION property={} replay={}", id, path.display());
        code = 1;
    } else {
        if evals == 0 || (all.len() as u64) < check.min_nontrivial() {
            trouble.push(format!("too little was observed: {} evaluations, {} distinct non-trivial", evals, all.len()));
        }
        if !trouble.is_empty() {
            for t in trouble.iter().take(6) {
                eprintln!("INCONCLUSIVE {}: {}", id, t);
            }
            code = 2;
        }
    }
    // evidence
    samples.truncate(10);
    if samples.is_empty() {
        samples.push("(none kept)".into());
    }
    let mut j = String::from("{\n");
    let tier = if env.thorough { "thorough" } else { "quick" };
    j.push_str(&format!(
        " \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n",
        json::esc(id),
        tier,
        seed,
        check.level()
    ));
    j.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", evals, all.len()));
    j.push_str(&format!("  \"rule\": {},\n", json::esc(check.rule())));
    j.push_str("  \"observed\": {");
    let mut first = true;
    let mut put = |k: &str, v: u64, j: &mut String| {
        if !first {
            j.push_str(", ");
        }
        first = false;
        j.push_str(&format!("{}: {}", json::esc(k), v));
    };
    for (k, v) in &counters {
        put(k, *v, &mut j);
    }
    for (k, v) in &maxima {
        put(&format!("max {}", k), *v, &mut j);
    }
    for (k, v) in &sets {
        put(&format!("distinct {}", k), v.len() as u64, &mut j);
    }
    j.push_str("},\n");
    j.push_str(&format!("  \"workers\": {},\n  \"inconclusive\": {},\n  \"workers_stopped_by_time_budget\": {},\n", shards, inconc, trunc));
    j.push_str(&format!("  \"slowest_case_ms\": {},\n", slow.0));
    j.push_str(&format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|s| json::esc(s)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!(
        " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        check.assumptions().iter().map(|s| json::esc(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        violations.len()
    ));
    let ev = env.verif.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    if std::fs::write(ev.join(format!("{}.json", id)), j).is_err() {
        eprintln!("cannot write evidence");
        code = if code == 0 { 2 } else { code };
    }
    let _ = std::fs::remove_dir_all(&dir);
    if code == 0 {
        println!(
            "{} held on {} executions ({} distinct non-trivial cases), {:.1} s",
            id,
            evals,
            all.len(),
            t0.elapsed().as_secs_f64()
        );
        if std::env::var_os("VMON_VERBOSE").is_some() {
            println!("slowest case {} ms: {}; truncated {}", slow.0, slow.1, trunc);
            for (k, v) in &counters {
                println!("  {} = {}", k, v);
            }
            for (k, v) in &maxima {
                println!("  max {} = {}", k, v);
            }
            for (k, v) in &sets {
                println!("  distinct {} = {}", k, v.len());
            }
        }
    }
    code
}

fn main() {
    // whoever starts the checks may ignore or block signals, and would pass that on to the tools
    unsafe {
        for s in [libc::SIGXFSZ, libc::SIGXCPU, libc::SIGHUP, libc::SIGINT, libc::SIGTERM, libc::SIGUSR1, libc::SIGUSR2, libc::SIGALRM, libc::SIGCHLD] {
            libc::signal(s, libc::SIG_DFL);
        }
        let mut none: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut none);
        libc::sigprocmask(libc::SIG_SETMASK, &none, std::ptr::null_mut());
    }
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2]),
        Some("worker") => {
            case::install_panic_recorder();
            unsafe {
                // soft, so that sanitizers can be started without it
                let r = libc::rlimit { rlim_cur: 3 << 30, rlim_max: libc::RLIM_INFINITY };
                libc::setrlimit(libc::RLIMIT_AS, &r);
                let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &z);
            }
            // deep recursion in observed code needs the same stack as a main thread
            let go = || worker(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), Path::new(&a[5]));
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(go)) {
                Ok(c) => c,
                Err(_) => {
                    eprintln!("the workload generator panicked: {}", case::last_panic());
                    2
                }
            }
        }
        Some("eval") => {
            case::install_panic_recorder();
            unsafe {
                let r = libc::rlimit { rlim_cur: 3 << 30, rlim_max: libc::RLIM_INFINITY };
                libc::setrlimit(libc::RLIMIT_AS, &r);
            }
            let env = env_from_vars();
            let check = checks::by_id(&a[2]).expect("check");
            let c = Case::parse(&std::fs::read(&a[3]).expect("case file")).expect("case syntax");
            let mut obs = Obs::default();
            match evaluate(check.as_ref(), &env, &c, &mut obs) {
                Ok(()) => {
                    println!("held");
                    0
                }
                Err(Fail::Violation(m)) => {
                    println!("{}", m);
                    1
                }
                Err(Fail::Inconclusive(m)) => {
                    println!("inconclusive: {}", m);
                    2
                }
            }
        }
        Some("digest") => {
            case::install_panic_recorder();
            checks::mem::digest_command(&a[2], a[3].parse().unwrap())
        }
        Some("libwork") => libwork::command(&a[2..]),
        Some("work") => checks::work::work_command(&a[2..]),
        Some("list") => {
            for i in checks::IDS {
                println!("{}", i);
            }
            0
        }
        _ => {
            eprintln!("usage: vmon run ID | eval ID FILE | list");
            2
        }
    };
    let _ = Build::Checked;
    std::process::exit(code);
}
