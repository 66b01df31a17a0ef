//! Memory safety (C26) and purity (C27): sanitizers, memcheck, an interpreter, race detection and
//! recorded call histories, on the real library and tools.
use super::Check;
use crate::case::*;
use crate::cli::*;
use crate::gen::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::tools::*;
use crate::{ensure, violated, Obs};
use std::path::PathBuf;

fn path_var(k: &str) -> Res<PathBuf> {
    std::env::var_os(k).map(PathBuf::from).ok_or_else(|| Fail::Inconclusive(format!("{} is not set", k)))
}

/// tools whose work needs no foreign code, so that an interpreter can execute them
const PURE_TOOLS: &[&str] = &[
    "mtf", "rle", "escape", "reverse", "count_sigma", "count_runs", "entropy_kmer", "word", "lyndonwords", "enumerate",
    "randomstring", "lyndonfactorization",
];

fn some_bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    match r.below(10) {
        0 => vec![],
        1 | 2 => (0..length(r, max)).map(|_| r.byte()).collect(),
        3 => vec![*r.pick(&[0u8, 1, 10, 65, 127, 128, 255]); length(r, max)],
        4 | 5 => text(r, Dom::ZeroFree, max),
        6 => {
            let mut t = text(r, Dom::ZeroFree, max);
            let p = r.below(t.len());
            t[p] = 0;
            t
        }
        _ => text(r, Dom::All, max),
    }
}

fn list(v: &[u8]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

/// any invocation at all, within or outside the domain of the tool; first the name of the tool
fn invocation(r: &mut Rng, max: usize) -> (Vec<String>, Vec<u8>) {
    let s = |x: &str| x.to_string();
    match r.below(20) {
        0 | 1 => {
            let (b, a) = generator_args(r);
            let mut v = vec![s(b)];
            v.extend(a);
            (v, vec![])
        }
        2 => (vec![s("randomstring"), s("-a"), r.below(80).to_string(), s("-p"), r.log_range(1, 3000).to_string()], vec![]),
        3 => {
            let names = ["fibonacci", "kolakoski", "vtm", "power2", "binary-de-brujin", "tribonacci", "thue-morse"];
            (vec![s("word"), s("-n"), s(r.pick(&names)), s("-k"), r.below(16).to_string()], vec![])
        }
        4 | 5 => {
            // escape and its reversion on anything
            let mut all: Vec<u8> = (0..=255).collect();
            r.shuffle(&mut all);
            let k = r.below(20);
            let extra = if r.chance(1, 6) { 1 } else { 0 };
            let mut v = vec![s("escape"), s("-e"), all[0].to_string()];
            if k > 0 {
                v.extend([s("-f"), list(&all[1..1 + k]), s("-t"), list(&all[1 + k..1 + 2 * k + extra])]);
            }
            if r.chance(1, 2) {
                v.push(s("--is-reversion"));
            }
            if r.chance(1, 3) {
                v.extend([s("-p"), r.below(max).to_string()]);
            }
            let t = some_bytes(r, max);
            (v, t)
        }
        6 => {
            let o = *r.pick(&["0", "1", "7", "8", "9", "100", "18446744073709551615"]);
            let t = some_bytes(r, max);
            (vec![s(r.pick(&["entropy", "entropy_kmer"])), s("-o"), s(o)], t)
        }
        7 | 8 => {
            let t = some_bytes(r, max.min(300));
            let n = t.len() as u64;
            let mut v = vec![s("is_stringattractor"), s("-a")];
            for _ in 0..r.range(1, 6) {
                v.push(match r.below(12) {
                    0 => n.to_string(),
                    1 => (n + 1).to_string(),
                    2 => (1u64 << 32).wrapping_add(n).to_string(),
                    3 => u64::MAX.to_string(),
                    _ => r.below(t.len().max(1)).to_string(),
                });
            }
            (v, t)
        }
        _ => {
            let sp = r.pick(SPECS);
            let t = some_bytes(r, max);
            let mut v = vec![s(sp.bin)];
            v.extend(sp.argv(t.len(), r.next()));
            if sp.prefix && r.chance(1, 3) {
                let p = match r.below(4) {
                    0 => t.len() + 1 + r.below(10),
                    1 => t.len(),
                    _ => r.below(t.len() + 1),
                };
                v.extend([s("-p"), p.to_string()]);
            }
            if r.chance(1, 6) {
                v.push(s("--use-matrix"));
            }
            (v, t)
        }
    }
}

fn known(bin: &str) -> Option<&'static str> {
    ["enumerate", "word", "lyndonwords", "randomstring", "generator_kmer", "enumerate_lexparse"]
        .into_iter()
        .chain(SPECS.iter().map(|s| s.bin))
        .find(|x| *x == bin)
}

fn joined(a: &[String]) -> Vec<u8> {
    a.join("\n").into_bytes()
}
fn split(b: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(b).split('\n').map(|x| x.to_string()).collect()
}

fn has(hay: &[u8], needle: &str) -> bool {
    hay.windows(needle.len()).any(|w| w == needle.as_bytes())
}
fn line_with(hay: &[u8], needle: &str) -> String {
    String::from_utf8_lossy(hay)
        .lines()
        .skip_while(|l| !l.contains(needle))
        .take(9)
        .map(|l| l.trim().to_string())
        .collect::<Vec<_>>()
        .join(" | ")
        .chars()
        .take(700)
        .collect()
}

const ASAN: &str = "exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1:symbolize=0";

fn judge_asan(what: &str, o: &Out) -> Res {
    for m in ["ReserveShadowMemoryRange", "Shadow memory range interleaves", "setrlimit() failed"] {
        if has(&o.err, m) {
            return Err(Fail::Inconclusive(format!("the sanitizer cannot start: {}", line_with(&o.err, m))));
        }
    }
    for m in ["ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "runtime error:", "unsafe precondition"] {
        if has(&o.err, m) {
            violated!("{}: {}", what, line_with(&o.err, m));
        }
    }
    if let Some(s) = o.signal {
        violated!("{} was killed by signal {} under the sanitizers: {}", what, s, o.status());
    }
    ensure!(o.code != Some(99), "{}: a sanitizer ended it: {}", what, o.status());
    Ok(())
}

fn asan_run(t: impl Fn() -> Res<Out>, obs: &mut Obs, leak: impl Fn() -> Res<Out>) -> Res<Out> {
    let o = leak()?;
    if has(&o.err, "LeakSanitizer has encountered a fatal error") {
        obs.add("runs without leak detection (refused by the system)", 1);
        return t();
    }
    obs.add("runs with leak detection", 1);
    Ok(o)
}

// ------------------------------------------------------------------ C26
pub struct C26;
impl Check for C26 {
    fn rule(&self) -> &'static str {
        "executions under instrumentation: every tool, built with address and undefined-behaviour sanitizers (foreign C code included), on valid, hostile and degenerate input; every library function, used and misused, under the same sanitizers and under Miri; the library and the release tools under memcheck and the pure tools under Miri, which also see uninitialised memory; heap balance over repeated library calls; each distinct workload item is a case, non-trivial when the code under observation ran to its end"
    }
    fn min_nontrivial(&self) -> u64 {
        300
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "AddressSanitizer, UBSan (C code), memcheck and Miri report what they are documented to report; none is complete",
            "only executed paths are observed; code that calls into C is not interpreted by Miri",
            "the standard library is not instrumented by AddressSanitizer beyond its interceptors",
        ]
    }
    fn case_cpu_limit(&self) -> u64 {
        200
    }
    fn shrinkable(&self, c: &Case) -> bool {
        c.kind == "asan" || c.kind == "memcheck"
    }
    fn generate(&self, g: &mut Gen) {
        // the interpreter and memcheck first: they are slow, and must not be cut off
        // long texts: code that only works differently beyond some size
        for i in 0..g.n(2, 40) {
            g.case(|r| Case::new("miri-lib", &[(r.next() >> 2) as i64, i as i64, 1090, 1025], &[]));
        }
        for (min, max, count) in [(1i64, 60i64, 60i64), (1025, 1300, 12), (4090, 4200, 3), (65_000, 70_000, 1)] {
            for _ in 0..g.n(2, 20) {
                g.case(|r| Case::new("memcheck-lib", &[(r.next() >> 2) as i64, count, max, min], &[]));
            }
        }
        let n = g.n(8, 120);
        let size = if g.thorough { 28 } else { 20 };
        for i in 0..n {
            g.case(|r| Case::new("miri-lib", &[(r.next() >> 2) as i64, i as i64, size], &[]));
        }
        for i in 0..g.n(20, 300) {
            g.case(|r| {
                let b = PURE_TOOLS[i % PURE_TOOLS.len()];
                let (v, t) = loop {
                    let (v, t) = invocation(r, 60);
                    // the suffix sorter is foreign code
                    if v[0] != b || b == "lyndonfactorization" && t.is_empty() {
                        continue;
                    }
                    // the interpreter is slow: short lists of words only
                    let nums: Vec<f64> = v[1..].iter().filter_map(|x| x.parse().ok()).collect();
                    let words = match b {
                        "enumerate" => nums[0].powf(nums[2]),
                        "lyndonwords" => nums[0].powf(nums[1]),
                        _ => 0.0,
                    };
                    if words <= 700.0 {
                        break (v, t);
                    }
                };
                Case::new("miri-tool", &[], &[&t, &joined(&v)])
            });
        }
        for f in ["kolakoski", "fibonacci", "power2", "binary-de-brujin", "vtm"] {
            g.case(|r| {
                let k = r.range(0, 7).to_string();
                Case::new("miri-tool", &[], &[b"", &joined(&["word".into(), "-n".into(), f.into(), "-k".into(), k])])
            });
        }
        for s in SPECS {
            for _ in 0..g.n(2, 20) {
                g.case(|r| {
                    let t = s.input(&s.a_text(r, 300));
                    let mut v = vec![s.bin.to_string()];
                    v.extend(s.argv(t.len(), r.next()));
                    Case::new("memcheck", &[], &[&t, &joined(&v)])
                });
            }
        }
        for s in SPECS {
            for _ in 0..g.n(1, 12) {
                g.case(|r| {
                    let l = r.log_range(1030, if s.bin == "is_stringattractor" { 1500 } else { 9000 });
                    let t = s.input(&s.a_text_of(r, l));
                    let mut v = vec![s.bin.to_string()];
                    v.extend(s.argv(t.len(), r.next()));
                    Case::new("memcheck", &[], &[&t, &joined(&v)])
                });
            }
        }
        g.many(g.n(24, 500), |r| {
            let (v, t) = invocation(r, 2000);
            Case::new("memcheck", &[], &[&t, &joined(&v)])
        });
        g.case(|_| Case::new("memcheck", &[4000], &[b"", b"enumerate_lexparse"]));
        g.case(|_| Case::new("memcheck", &[20000], &[b"", b"generator_kmer"]));
        for (min, max, count) in [(1025i64, 1500i64, 40i64), (1, 5000, 40), (4000, 20_000, 8), (65_000, 140_000, 2)] {
            for _ in 0..g.n(3, 60) {
                g.case(|r| Case::new("asan-lib", &[(r.next() >> 2) as i64, count, max, min], &[]));
            }
        }
        for max in [12i64, 40, 40, 120, 300, 600] {
            for _ in 0..g.n(3, 60) {
                g.case(|r| Case::new("asan-lib", &[(r.next() >> 2) as i64, 30_000 / (max * max / 40 + 40), max, 1], &[]));
            }
        }
        g.many(g.n(60, 1500), |r| {
            let (m, k) = *r.pick(&[(60, 40), (600, 12), (3000, 6), (20_000, 2), (140_000, 1)]);
            let texts: Vec<Vec<u8>> = (0..k)
                .map(|_| {
                    let d = if r.chance(1, 3) { Dom::All } else { Dom::ZeroFree };
                    text(r, d, m)
                })
                .collect();
            let d: Vec<&[u8]> = texts.iter().map(|t| t.as_slice()).collect();
            Case::new("asan-given", &[(r.next() >> 2) as i64], &d)
        });
        g.many(g.n(160, 3000), |r| {
            let m = *r.pick(&[200, 200, 200, 4000, 20_000]);
            let t = text(r, Dom::ZeroFree, m);
            Case::new("heap", &[r.next() as i64 >> 4], &[&t])
        });
        g.many(g.n(2600, 60_000), |r| {
            let m = match r.below(20) {
                0 => 70_000,
                1..=3 => 3000,
                _ => 150,
            };
            let (v, t) = invocation(r, m);
            Case::new("asan", &[], &[&t, &joined(&v)])
        });
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        obs.add(&format!("cases {}", c.kind), 1);
        let home = std::env::var("HOME").unwrap_or_else(|_| "/root".into());
        match c.kind.as_str() {
            "heap" => heap(c, obs),
            "asan-lib" => {
                let exe = path_var("VMON_LW_ASAN")?;
                let run = |leaks: u8| {
                    let mut t = Tool::new(env, Build::Asan, "libwork")
                        .args(["ops".to_string(), c.nums[0].to_string(), c.nums[1].to_string(), c.nums[2].to_string(), "0".into(), "1".into(), c.nums.get(3).copied().unwrap_or(1).to_string()])
                        .var("ASAN_OPTIONS", &format!("{}:detect_leaks={}", ASAN, leaks));
                    t.exe = Some(exe.clone());
                    t.cpu = 120;
                    t.run()
                };
                let o = asan_run(|| run(0), obs, || run(1))?;
                judge_asan("the library under the sanitizers", &o)?;
                ops_line(&o, obs)
            }
            "asan-given" => {
                let mut b = Vec::new();
                for t in &c.data {
                    b.extend((t.len() as u32).to_le_bytes());
                    b.extend_from_slice(t);
                }
                let f = TempFile::with(env, "texts", &b)?;
                let exe = path_var("VMON_LW_ASAN")?;
                let run = |leaks: u8| {
                    let mut t = Tool::new(env, Build::Asan, "libwork")
                        .args(["given".to_string(), f.path().display().to_string(), c.nums[0].to_string()])
                        .var("ASAN_OPTIONS", &format!("{}:detect_leaks={}", ASAN, leaks));
                    t.exe = Some(exe.clone());
                    t.cpu = 120;
                    t.run()
                };
                let o = asan_run(|| run(0), obs, || run(1))?;
                judge_asan("the library under the sanitizers", &o)?;
                obs.add("texts under the sanitizers", c.data.len() as u64);
                ops_line(&o, obs)
            }
            "memcheck-lib" => {
                let me = std::env::current_exe().map_err(|e| Fail::Inconclusive(e.to_string()))?;
                let mut t = Tool::new(env, Build::Release, "valgrind")
                    .args(["-q", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite", "--show-leak-kinds=definite"])
                    .arg(me.into_os_string())
                    .args(["libwork".to_string(), "ops".into(), c.nums[0].to_string(), c.nums[1].to_string(), c.nums[2].to_string(), "0".into(), "1".into(), c.nums[3].to_string()]);
                t.exe = Some("/usr/bin/valgrind".into());
                t.nolimit = true;
                t.cpu = 240;
                let o = t.run()?;
                judge_memcheck("the library under memcheck", &o)?;
                if let Some(s) = o.signal {
                    violated!("the library under memcheck was killed by signal {}: {}", s, o.status());
                }
                ops_line(&o, obs)
            }
            "miri-lib" => {
                let mut t = Tool::new(env, Build::Checked, "miri")
                    .args(["lib".to_string(), "ops".into(), c.nums[0].to_string(), "1".into(), c.nums[2].to_string(), "0".into(), "1".into(), c.nums.get(3).copied().unwrap_or(1).to_string()])
                    .var("HOME", &home)
                    .var("MIRI_SEED", &(c.nums[1] as u64).to_string());
                t.exe = Some(path_var("VMON_MIRI")?);
                t.nolimit = true;
                t.cpu = 240;
                let o = t.run()?;
                judge_miri("the library under Miri", &o, obs)?;
                ops_line(&o, obs)
            }
            "asan" | "memcheck" | "miri-tool" => {
                let a = split(&c.data[1]);
                let Some(bin) = known(&a[0]) else {
                    obs.trivial = true;
                    return Ok(());
                };
                let what = format!("{} {}", bin, a[1..].join(" "));
                match c.kind.as_str() {
                    "asan" => {
                        let run = |leaks: u8| {
                            let mut t = Tool::new(env, Build::Asan, bin)
                                .args(a[1..].iter().cloned())
                                .input(&c.data[0])
                                .var("ASAN_OPTIONS", &format!("{}:detect_leaks={}", ASAN, leaks));
                            t.cpu = 120;
                            t.run()
                        };
                        let o = asan_run(|| run(0), obs, || run(1))?;
                        judge_asan(&what, &o)?;
                        obs.add(if o.code == Some(0) { "sanitized runs with status 0" } else { "sanitized runs that refuse" }, 1);
                        obs.seen("tools sanitized", hash_bytes(1, bin.as_bytes()));
                    }
                    "memcheck" => {
                        let Some(dir) = env.bins[Build::Release as usize].clone() else {
                            return Err(Fail::Inconclusive("no release build".into()));
                        };
                        let mut t = Tool::new(env, Build::Release, "valgrind")
                            .args(["-q", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite", "--show-leak-kinds=definite"])
                            .arg(dir.join(bin).into_os_string())
                            .args(a[1..].iter().cloned())
                            .input(&c.data[0]);
                        t.exe = Some("/usr/bin/valgrind".into());
                        t.nolimit = true;
                        t.cpu = 240;
                        if let Some(&l) = c.nums.first() {
                            // endless output: stop it by the size of what it may write
                            t.fsize = Some(l as u64);
                        }
                        let o = t.run()?;
                        judge_memcheck(&format!("{} under memcheck", what), &o)?;
                        match o.signal {
                            None => {}
                            Some(libc::SIGXFSZ) if !c.nums.is_empty() => {}
                            Some(s) => violated!("{} under memcheck was killed by signal {}: {}", what, s, o.status()),
                        }
                        obs.seen("tools under memcheck", hash_bytes(1, bin.as_bytes()));
                    }
                    _ => {
                        let mut t = Tool::new(env, Build::Checked, "miri")
                            .args(["bin", bin])
                            .args(a[1..].iter().cloned())
                            .input(&c.data[0])
                            .var("HOME", &home);
                        t.exe = Some(path_var("VMON_MIRI")?);
                        t.nolimit = true;
                        t.cpu = 240;
                        let o = t.run()?;
                        judge_miri(&what, &o, obs)?;
                        obs.seen("tools interpreted", hash_bytes(1, bin.as_bytes()));
                    }
                }
                Ok(())
            }
            _ => {
                obs.trivial = true;
                Ok(())
            }
        }
    }
}

fn judge_memcheck(what: &str, o: &Out) -> Res {
    if has(&o.err, "the 'impossible' happened") {
        return Err(Fail::Inconclusive("memcheck itself failed".into()));
    }
    for m in ["Invalid ", "uninitialised", "Mismatched", "are definitely lost", "Source and destination overlap"] {
        if has(&o.err, m) {
            violated!("{}: {}", what, line_with(&o.err, m));
        }
    }
    ensure!(o.code != Some(99), "{}: {}", what, o.status());
    Ok(())
}

fn judge_miri(what: &str, o: &Out, obs: &mut Obs) -> Res {
    for m in ["Undefined Behavior", "memory leaked", "the evaluated program leaked", "unsafe precondition"] {
        if has(&o.err, m) {
            violated!("{} (interpreted): {}", what, line_with(&o.err, m));
        }
    }
    if has(&o.err, "unsupported operation") {
        // reached code that the interpreter cannot execute
        obs.add("interpreted up to unsupported operations", 1);
        obs.trivial = true;
        return Ok(());
    }
    if has(&o.err, "could not compile") || has(&o.err, "error: failed to") || o.code == Some(2) && has(&o.err, "miri.sh") {
        return Err(Fail::Inconclusive(format!("Miri did not run: {}", o.status())));
    }
    if let Some(s) = o.signal {
        return Err(Fail::Inconclusive(format!("Miri was killed by signal {}", s)));
    }
    obs.add("interpreted executions", 1);
    Ok(())
}

fn ops_line(o: &Out, obs: &mut Obs) -> Res {
    let s = String::from_utf8_lossy(&o.out).to_string();
    if let Some(l) = s.lines().find(|l| l.starts_with("PANIC ")) {
        violated!("a library function panicked within its domain: {}", l.chars().take(400).collect::<String>());
    }
    let Some(l) = s.lines().find(|l| l.starts_with("OPS ")) else {
        if obs.trivial {
            return Ok(());
        }
        return Err(Fail::Inconclusive(format!("the library workload left no report: {}", o.status())));
    };
    for (k, name) in [("calls=", "library calls observed"), ("panics=", "misuses ended by a panic")] {
        if let Some(v) = l.split_whitespace().find_map(|w| w.strip_prefix(k)).and_then(|v| v.parse().ok()) {
            obs.add(name, v);
        }
    }
    Ok(())
}

/// bytes of heap in use
fn in_use() -> usize {
    let m = unsafe { libc::mallinfo2() };
    m.uordblks + m.hblkhd
}

/// after the first round every further round has to give back what it took
fn heap(c: &Case, obs: &mut Obs) -> Res {
    let t = &c.data[0];
    if t.is_empty() {
        obs.trivial = true;
        return Ok(());
    }
    let mut ops: Vec<&str> = libwork::FOREIGN.to_vec();
    ops.extend(["isa", "plcp", "lcp", "duval", "border", "conjugate", "kolakoski", "de-bruijn", "runs"]);
    if t.len() < 300 {
        ops.extend(["bbwt", "matrix-naive", "conjugates"]);
    }
    for o in ops {
        let reps = if t.len() > 300 { 4 } else { 12 };
        let mut n = 0;
        let mut round = || {
            for _ in 0..reps {
                n = libwork::digest(o, t, c.nums[0] as u64);
            }
        };
        round();
        let a = in_use();
        round();
        let b = in_use();
        round();
        let d = in_use();
        obs.add("library calls with balanced heap", 2 * reps as u64);
        let _ = n;
        if b > a && d > b && d - b >= (reps as usize) * 8 {
            // freed pieces that the allocator keeps at hand count as used, but only a few of every size
            let mut last = d;
            let mut least = d - b;
            for _ in 0..40 {
                round();
                let now = in_use();
                least = least.min(now.saturating_sub(last));
                last = now;
            }
            if least >= (reps as usize) * 8 {
                violated!("{} repeats of library operation {} on {} bytes leave {} more bytes of heap in use each time", reps, o, t.len(), least);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C27
pub struct C27;

fn history(r: &mut Rng, calls: usize, max: usize) -> Case {
    let long = max > 600;
    // texts that agree in what a careless cache would key on: length, first and last letters
    let base = if long {
        let l = r.log_range(600, max);
        text_of(r, Dom::ZeroFree, l)
    } else {
        text(r, Dom::ZeroFree, max)
    };
    let mut texts = vec![base.clone()];
    for _ in 0..5 {
        let mut t = base.clone();
        match r.below(5) {
            0 => {
                r.shuffle(&mut t);
            }
            4 => {
                // the same symbols, the same ends
                let (a, b) = (r.below(t.len()), r.below(t.len()));
                t.swap(a, b);
            }
            1 => t.reverse(),
            2 => {
                let p = r.below(t.len());
                t[p] = t[p].wrapping_add(1).max(1);
            }
            _ => {
                for x in t.iter_mut() {
                    *x = (*x ^ 1).max(1);
                }
            }
        }
        texts.push(t);
    }
    texts.push(text(r, Dom::ZeroFree, max));
    let ops: Vec<usize> = (0..libwork::names(false).len()).filter(|&i| !long || libwork::LINEAR.contains(&libwork::names(false)[i])).collect();
    let few: Vec<usize> = (0..4).map(|_| *r.pick(&ops)).collect();
    let focus = r.chance(1, 2);
    let mut nums = Vec::new();
    for _ in 0..calls {
        nums.push(*r.pick(if focus { &few } else { &ops }) as i64);
        nums.push(r.below(texts.len()) as i64);
        nums.push(if r.chance(1, 2) { r.below(14) } else { r.below(1 << 20) } as i64);
    }
    let d: Vec<&[u8]> = texts.iter().map(|t| t.as_slice()).collect();
    Case::new("history", &nums, &d)
}

/// one call of a history, alone in a fresh process
pub fn digest_command(file: &str, k: usize) -> i32 {
    let c = Case::parse(&std::fs::read(file).expect("case file")).expect("case syntax");
    let ops = libwork::names(false);
    let h = libwork::digest(ops[c.nums[3 * k] as usize % ops.len()], &c.data[c.nums[3 * k + 1] as usize % c.data.len()], c.nums[3 * k + 2] as u64);
    println!("{:x}", h);
    0
}

impl Check for C27 {
    fn rule(&self) -> &'static str {
        "recorded histories of library calls: the same calls in several orders, in fresh processes and on several threads have to give the same results; concurrent workloads on shared texts and on one shared word generator, natively, under the race detector and under Miri's scheduler with different seeds; tool runs repeated under different environments, working directories, logging levels and side by side; each distinct history or invocation is a case"
    }
    fn min_nontrivial(&self) -> u64 {
        200
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the race detector sees instrumented Rust and C code, not the precompiled standard library",
            "interleavings are sampled (scheduler, Miri seeds), not enumerated",
        ]
    }
    fn case_cpu_limit(&self) -> u64 {
        200
    }
    fn shrinkable(&self, _c: &Case) -> bool {
        false
    }
    fn generate(&self, g: &mut Gen) {
        for i in 0..g.n(16, 400) {
            g.case(|r| Case::new("miri-threads", &[(r.next() >> 2) as i64, i as i64, r.range(2, 4) as i64], &[]));
        }
        for _ in 0..g.n(60, 3000) {
            g.case(|r| {
                let max = *r.pick(&[8i64, 30, 60, 200]);
                Case::new("tsan", &[(r.next() >> 2) as i64, r.range(2, 8) as i64, r.range(20, 200) as i64, max], &[])
            });
        }
        g.many(g.n(150, 5000), |r| {
            let max = *r.pick(&[8i64, 30, 60, 300, 300, 1500]);
            Case::new("threads", &[(r.next() >> 2) as i64, r.range(2, 8) as i64, r.range(10, 300) as i64, max], &[])
        });
        g.many(g.n(500, 20_000), |r| {
            let max = *r.pick(&[6usize, 12, 40, 120, 300]);
            let calls = r.range(4, 40);
            history(r, calls, max)
        });
        g.many(g.n(60, 2000), |r| {
            let max = *r.pick(&[1500usize, 6000, 70_000]);
            let calls = r.range(4, if max > 10_000 { 8 } else { 20 });
            history(r, calls, max)
        });
        // words of all orders, in any order
        g.many(g.n(60, 2000), |r| {
            let names = libwork::names(false);
            let ops: Vec<usize> = (0..names.len()).filter(|&i| libwork::WORDS.contains(&names[i])).collect();
            let few: Vec<usize> = (0..r.range(1, 4)).map(|_| *r.pick(&ops)).collect();
            let mut nums = Vec::new();
            for _ in 0..r.range(6, 24) {
                nums.extend([*r.pick(&few) as i64, 0, ((r.below(1 << 17) << 3) | 7) as i64]);
            }
            Case::new("history", &nums, &[b"a"])
        });
        // one operation against itself or another one, from many threads
        let ops = libwork::names(false).len();
        for op in 0..ops {
            for with in 0..g.n(2, 12) {
                g.case(|r| {
                    let other = if with == 0 { op } else { r.below(ops) };
                    let max = if r.chance(1, 5) { 400 } else { r.range(2, 24) };
                    let texts: Vec<Vec<u8>> = (0..r.range(2, 5)).map(|_| text(r, Dom::ZeroFree, max)).collect();
                    let d: Vec<&[u8]> = texts.iter().map(|t| t.as_slice()).collect();
                    Case::new("duel", &[op as i64, other as i64], &d)
                });
            }
        }
        // the same few calls again and again
        for op in 0..libwork::names(false).len() {
            for _ in 0..g.n(1, 3) {
                g.case(|r| {
                    let max = r.range(3, 14);
                    let texts: Vec<Vec<u8>> = (0..2).map(|_| text(r, Dom::ZeroFree, max)).collect();
                    let nums = [op as i64, r.below(14) as i64, r.below(14) as i64];
                    Case::new("often", &nums, &[&texts[0], &texts[1]])
                });
            }
        }
        for s in SPECS {
            for _ in 0..g.n(12, 300) {
                g.case(|r| {
                    let t = s.input(&s.a_text(r, 600));
                    let mut v = vec![s.bin.to_string()];
                    v.extend(s.argv(t.len(), r.next()));
                    if s.prefix && r.chance(1, 4) {
                        v.extend(["-p".into(), r.below(t.len() + 2).to_string()]);
                        if s.bin == "is_stringattractor" {
                            v.pop();
                            v.push("0".into());
                        }
                    }
                    Case::new("env", &[(r.next() >> 2) as i64], &[&t, &joined(&v)])
                });
            }
        }
        g.many(g.n(100, 2000), |r| {
            let (b, a) = generator_args(r);
            let mut v = vec![b.to_string()];
            v.extend(a);
            Case::new("env", &[(r.next() >> 2) as i64], &[b"", &joined(&v)])
        });
        g.many(g.n(60, 2000), |r| {
            let s = r.pick(SPECS);
            let t = s.input(&s.a_text(r, 3000));
            let mut v = vec![s.bin.to_string()];
            v.extend(s.argv(t.len(), r.next()));
            Case::new("together", &[(r.next() >> 2) as i64], &[&t, &joined(&v)])
        });
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        obs.add(&format!("cases {}", c.kind), 1);
        let home = std::env::var("HOME").unwrap_or_else(|_| "/root".into());
        match c.kind.as_str() {
            "history" => self.history(env, c, obs),
            "often" => {
                let ops = libwork::names(false);
                let op = ops[c.nums[0] as usize % ops.len()];
                let go = |k: usize| libwork::digest(op, &c.data[k & 1], c.nums[1 + (k >> 1 & 1)] as u64);
                let first: Vec<u64> = (0..4).map(go).collect();
                let start = std::time::Instant::now();
                let mut calls = 0;
                while calls < 140_000 && start.elapsed().as_secs() < 4 {
                    for _ in 0..100 {
                        calls += 1;
                        ensure!(
                            go(calls) == first[calls & 3],
                            "library operation {} on \"{}\" gives another result at the call {} after its first",
                            op,
                            c.data[calls & 1].escape_ascii(),
                            calls
                        );
                    }
                }
                obs.add("calls repeated again and again", calls as u64);
                obs.max("calls of one operation in one process", calls as u64);
                Ok(())
            }
            "duel" => {
                let ops = libwork::names(false);
                let (a, b) = (ops[c.nums[0] as usize % ops.len()], ops[c.nums[1] as usize % ops.len()]);
                let (calls, bad) = libwork::duel(a, b, &c.data, 4, 250);
                if let Some(b) = bad {
                    violated!("concurrent calls: {}", b);
                }
                obs.add("concurrent calls of one or two operations", calls);
                obs.seen("operations called beside each other", hash_bytes(4, format!("{} {}", a, b).as_bytes()));
                Ok(())
            }
            "threads" => {
                let r = libwork::threads(c.nums[0] as u64, c.nums[1] as u64, c.nums[2] as u64, c.nums[3] as usize);
                if let Some(b) = r.bad.first() {
                    violated!("concurrent calls: {}", b.chars().take(500).collect::<String>());
                }
                obs.add("concurrent calls", r.calls);
                obs.add("hand-overs of the shared generator", r.switches as u64);
                obs.seen("interleavings of the shared generator", r.order);
                Ok(())
            }
            "tsan" | "miri-threads" => {
                let tsan = c.kind == "tsan";
                let mut t = Tool::new(env, Build::Checked, "libwork");
                if tsan {
                    t = t
                        .args(["threads".to_string(), c.nums[0].to_string(), c.nums[1].to_string(), c.nums[2].to_string(), c.nums[3].to_string()])
                        .var("TSAN_OPTIONS", "exitcode=66:halt_on_error=1:symbolize=0");
                    t.exe = Some(path_var("VMON_LW_TSAN")?);
                } else {
                    t = t
                        .args(["lib".to_string(), "threads".into(), c.nums[0].to_string(), c.nums[2].to_string(), "6".into(), "14".into()])
                        .var("HOME", &home)
                        .var("MIRI_PREEMPT", *[&"0.01", &"0.1", &"0.5"][c.nums[1] as usize % 3])
                        .var("MIRI_SEED", &(c.nums[1] as u64).to_string());
                    t.exe = Some(path_var("VMON_MIRI")?);
                }
                t.nolimit = true;
                t.cpu = 240;
                let o = t.run()?;
                if has(&o.err, "WARNING: ThreadSanitizer") {
                    violated!("concurrent library calls: {}", line_with(&o.err, "WARNING: ThreadSanitizer"));
                }
                if has(&o.err, "FATAL: ThreadSanitizer") || has(&o.err, "ERROR: ThreadSanitizer setrlimit") {
                    return Err(Fail::Inconclusive(format!("the race detector does not run here: {}", o.status())));
                }
                if !tsan {
                    judge_miri("concurrent library calls", &o, obs)?;
                }
                let s = String::from_utf8_lossy(&o.out).to_string();
                if let Some(l) = s.lines().find(|l| l.starts_with("DIFFERS ") || l.starts_with("WORDS ")) {
                    violated!("concurrent calls: {}", l.chars().take(500).collect::<String>());
                }
                let Some(l) = s.lines().find(|l| l.starts_with("THREADS ")) else {
                    if obs.trivial {
                        return Ok(());
                    }
                    return Err(Fail::Inconclusive(format!("the concurrent workload left no report: {}", o.status())));
                };
                let f = |k: &str| l.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("0").to_string();
                obs.add(if tsan { "concurrent calls under the race detector" } else { "concurrent calls interpreted" }, f("calls=").parse().unwrap_or(0));
                obs.seen(if tsan { "interleavings under the race detector" } else { "interleavings interpreted" }, hash_bytes(3, f("order=").as_bytes()));
                Ok(())
            }
            "env" | "together" => self.tools(env, c, obs),
            _ => {
                obs.trivial = true;
                Ok(())
            }
        }
    }
}

impl C27 {
    fn history(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        let ops = libwork::names(false);
        let calls: Vec<(usize, usize, u64)> = c
            .nums
            .chunks(3)
            .filter(|x| x.len() == 3)
            .map(|x| (x[0] as usize % ops.len(), x[1] as usize % c.data.len(), x[2] as u64))
            .collect();
        if calls.is_empty() || c.data.iter().any(|t| t.is_empty()) {
            obs.trivial = true;
            return Ok(());
        }
        let go = |i: usize| libwork::digest(ops[calls[i].0], &c.data[calls[i].1], calls[i].2);
        let n = calls.len();
        let first: Vec<u64> = (0..n).map(go).collect();
        let mut r = Rng::new(c.hash());
        let mut order: Vec<usize> = (0..n).collect();
        for round in 0..3 {
            match round {
                0 => order.reverse(),
                _ => r.shuffle(&mut order),
            }
            let mut last: Option<usize> = None;
            for &i in &order {
                let h = go(i);
                if h != first[i] {
                    let prev = last.map(|p| format!(" (after {} on {:?})", ops[calls[p].0], c.data[calls[p].1].escape_ascii().to_string()));
                    violated!(
                        "library operation {} on \"{}\" gives another result when the same calls are made in another order{}",
                        ops[calls[i].0],
                        c.data[calls[i].1][..c.data[calls[i].1].len().min(60)].escape_ascii(),
                        prev.unwrap_or_default().chars().take(200).collect::<String>()
                    );
                }
                last = Some(i);
            }
        }
        obs.add("calls repeated in other orders", 3 * n as u64);
        // fresh processes know no history
        let f = TempFile::with(env, "history", &c.serialize())?;
        for _ in 0..3 {
            let i = r.below(n);
            let mut t = Tool::new(env, Build::Checked, "vmon").arg("digest").arg(f.arg()).arg(i.to_string());
            t.exe = std::env::current_exe().ok();
            let out = t.run()?;
            let h = u64::from_str_radix(String::from_utf8_lossy(&out.out).trim(), 16)
                .map_err(|_| Fail::Inconclusive(format!("no digest from a fresh process: {}", out.status())))?;
            ensure!(
                h == first[i],
                "library operation {} on \"{}\" gives another result in a process of its own than within a history of calls",
                ops[calls[i].0],
                c.data[calls[i].1][..c.data[calls[i].1].len().min(60)].escape_ascii()
            );
            obs.add("calls repeated in fresh processes", 1);
        }
        for h in first {
            obs.seen("results", mix(h));
        }
        Ok(())
    }

    fn tools(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        let a = split(&c.data[1]);
        let Some(bin) = known(&a[0]) else {
            obs.trivial = true;
            return Ok(());
        };
        let t = &c.data[0];
        let build = build_for(c.hash() >> 3);
        let mk = || Tool::new(env, build, bin).args(a[1..].iter().cloned()).input(t);
        let what = mk().describe();
        let want = mk().run()?;
        let norm = normalize(&want.out, None);
        let check = |how: &str, o: &Out| -> Res {
            ensure!(o.code == want.code && o.signal == want.signal, "{} ends with {} {}, but {} before", what, o.status(), how, want.status());
            same(&format!("{} {}: standard output", what, how), &normalize(&o.out, None), &norm)
        };
        let mut r = Rng::new(c.hash());
        if c.kind == "together" {
            let mut outs: Vec<Res<Out>> = Vec::new();
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..6).map(|_| s.spawn(|| mk().run())).collect();
                for h in hs {
                    outs.push(h.join().unwrap_or_else(|_| Err(Fail::Inconclusive("thread".into()))));
                }
            });
            for o in outs {
                check("beside five other runs", &o?)?;
            }
            obs.add("tool runs side by side", 6);
            return Ok(());
        }
        let levels = ["off", "error", "warn", "info", "debug", "trace", "core=trace", "stringology=debug", "bogus=what", ""];
        let vars: Vec<(&str, Vec<&str>)> = vec![
            ("LC_ALL", vec!["C", "POSIX", "de_DE.UTF-8", "tr_TR.UTF-8", "nonsense"]),
            ("LANG", vec!["", "ja_JP.UTF-8"]),
            ("TZ", vec!["UTC", "Asia/Tokyo"]),
            ("MALLOC_PERTURB_", vec!["1", "85", "170", "255"]),
            ("MALLOC_ARENA_MAX", vec!["1"]),
            ("GLIBC_TUNABLES", vec!["glibc.malloc.tcache_count=0", "glibc.malloc.perturb=90"]),
            ("RUST_BACKTRACE", vec!["1", "full"]),
            ("RUST_LOG_STYLE", vec!["always", "never"]),
            ("COLUMNS", vec!["1", "40", "0"]),
            ("TERM", vec!["dumb", "xterm-256color"]),
            ("NO_COLOR", vec!["1"]),
            ("CLICOLOR_FORCE", vec!["1"]),
            ("HOME", vec!["/nonexistent"]),
            ("TMPDIR", vec!["/nonexistent"]),
            ("RAYON_NUM_THREADS", vec!["1"]),
            ("USER", vec!["nobody"]),
            ("DEBUG", vec!["1"]),
        ];
        let log = TempFile::none(env, "env");
        let mut asked: Vec<String> = Vec::new();
        if let Some(shim) = &env.shim {
            let o = mk().var("LD_PRELOAD", &shim.display().to_string()).var("SHIM_ENV", &log.path().display().to_string()).run()?;
            check("with its environment watched", &o)?;
            asked = String::from_utf8_lossy(&log.read().unwrap_or_default())
                .lines()
                .filter(|n| !n.is_empty() && !n.contains('=') && !n.starts_with("LD_") && !n.starts_with("SHIM_") && *n != "RUST_MIN_STACK")
                .map(|n| n.to_string())
                .collect();
            asked.sort();
            asked.dedup();
            for n in &asked {
                obs.seen("environment variables asked for", hash_bytes(3, n.as_bytes()));
            }
        }
        if want.out.len() < 100_000 {
            match on_terminal(mk()) {
                Ok(o) => {
                    check("on a terminal", &o)?;
                    obs.add("tool runs on a terminal", 1);
                }
                Err(Fail::Inconclusive(e)) if e.contains("pseudo terminal") => {}
                Err(e) => return Err(e),
            }
        }
        for k in 0..5 {
            let mut tool = mk();
            let mut how = String::from("repeated");
            if k > 0 {
                if r.chance(2, 3) {
                    let l = *r.pick(&levels);
                    tool = tool.var("RUST_LOG", l);
                    how.push_str(&format!(" with RUST_LOG={}", l));
                }
                for _ in 0..r.below(4) {
                    let (n, vs) = r.pick(&vars);
                    let v = *r.pick(vs);
                    tool = tool.var(n, v);
                    how.push_str(&format!(" {}={}", n, v));
                }
                if k == 4 {
                    // every variable the program asks for
                    for n in &asked {
                        let v = *r.pick(&["", "0", "1", "7", "yes", "nonsense", "/tmp", "C"]);
                        tool = tool.var(n, v);
                        how.push_str(&format!(" {}={}", n, v));
                    }
                }
                if r.chance(1, 2) {
                    tool.twist = 1 << r.below(TWISTS.len());
                    how.push_str(&format!(" {}", TWISTS[tool.twist.trailing_zeros() as usize]));
                }
                if r.chance(1, 2) {
                    let d = *r.pick(&["/", "/tmp", "/usr", "/dev"]);
                    tool = tool.cwd(d);
                    how.push_str(&format!(" in directory {}", d));
                }
            }
            let o = tool.run()?;
            check(&how, &o)?;
            obs.add("repeated tool runs", 1);
        }
        obs.seen("tools repeated", hash_bytes(1, bin.as_bytes()));
        Ok(())
    }
}
