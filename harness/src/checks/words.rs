//! Word generators and enumerators.
use super::Check;
use crate::case::*;
use crate::cli::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::{ensure, model, types, violated, Obs};
use stringology::{core, word};

/// runs the word tool
fn word_tool(env: &Env, name: &str, k: u8, h: u64) -> Res<Vec<u8>> {
    let ks = if h & 8 == 0 { k.to_string() } else { format!("{:02}", k) };
    let tool = Tool::new(env, build_for(h), "word").arg(if h & 2 == 0 { "-n" } else { "--name" }).arg(name).arg("-k").arg(ks);
    if (h >> 4) % 3 == 0 {
        let f = TempFile::none(env, "word");
        let o = tool.arg("-o").arg(f.arg()).ok()?;
        ensure!(o.is_empty(), "word wrote to stdout beside its output file");
        f.read()
    } else {
        tool.ok()
    }
}
fn lib_word(name: &str, k: u8) -> Res<Vec<u8>> {
    let f: fn(u8) -> Vec<u8> = match name {
        "fibonacci" => word::fibonacci_word,
        "fibonacci-lyndon-factor" => word::fibonacci_lyndonfactor,
        "tribonacci" => word::tribonacci_word,
        "kolakoski" => word::kolakoski_word,
        "thue-morse" => word::thuemorse_word,
        "period-doubling" => word::period_doubling_word,
        "paper-folding" => word::paperfolding_word,
        "quaternary-paper-folding" => word::quaternary_paperfolding_word,
        "binary-de-brujin" => word::binary_debruijn_word,
        "power2" => word::power2_sequence,
        "vtm" => word::vtm_word,
        _ => return Err(Fail::Inconclusive(format!("unknown word {}", name))),
    };
    call(&format!("{} of order {}", name, k), || f(k))
}
fn name_case(kind: &str, name: &str, k: u8, rep: i64) -> Case {
    Case::new(kind, &[k as i64, rep], &[name.as_bytes()])
}
fn name_of(c: &Case) -> String {
    String::from_utf8_lossy(&c.data[0]).to_string()
}

// ------------------------------------------------------------------ words beyond 32-bit lengths
/// (word, order with more than 2^31 letters or so, with more than 2^32)
const GIANT: [(&str, u8, u8); 8] = [
    ("thue-morse", 31, 32),
    ("period-doubling", 31, 32),
    ("vtm", 30, 31),
    ("fibonacci", 46, 47),
    ("tribonacci", 35, 36),
    ("power2", 31, 32),
    ("quaternary-paper-folding", 31, 32),
    ("paper-folding", 30, 31),
];
fn giant_cases(g: &mut Gen, names: &[&str]) {
    for (n, q, t) in GIANT.iter().filter(|x| names.contains(&x.0)) {
        g.case(|_| name_case("giant", n, *q, 0));
        if g.thorough {
            g.case(|_| name_case("giant", n, *t, 0));
        }
    }
}
/// words of fixed lengths beyond 2^64: there is nothing right to return
fn beyond_cases(g: &mut Gen, names: &[&str]) {
    for n in names {
        for k in 64..=255u8 {
            g.case(|_| name_case("beyond", n, k, 0));
        }
    }
}
fn beyond(name: &str, k: u8, obs: &mut Obs) -> Res {
    // a wrapped order would give a short word; do not wait for the long ones
    if k & 63 > 24 && name != "fibonacci" {
        obs.trivial = true;
        return Ok(());
    }
    if let Ok(Ok(w)) = attempt(|| lib_word(name, k)) {
        violated!("the {} word of order {} does not fit into any memory but a word of length {} is returned", name, k, w.len());
    }
    obs.add("words beyond all memory refused", 1);
    Ok(())
}
/// one giant word at a time, for the memory they need
fn giant(env: &Env, name: &str, k: u8, obs: &mut Obs) -> Res {
    use std::io::Read;
    use std::os::fd::AsRawFd;
    let lock = std::fs::File::create(env.scratch.join("giant.lock")).map_err(|e| Fail::Inconclusive(e.to_string()))?;
    while unsafe { libc::flock(lock.as_raw_fd(), libc::LOCK_EX | libc::LOCK_NB) } != 0 {
        // a worker that uses no processor time at all is taken for blocked
        let t = std::time::Instant::now();
        while t.elapsed().as_micros() < 1000 {}
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    let available = std::fs::read_to_string("/proc/meminfo")
        .ok()
        .and_then(|s| s.lines().find_map(|l| l.strip_prefix("MemAvailable:")?.trim().strip_suffix(" kB")?.parse::<u64>().ok()))
        .unwrap_or(0);
    if available < 16 << 20 {
        obs.trivial = true;
        obs.add("giant words left out for want of memory", 1);
        return Ok(());
    }
    let dir = env.bins[Build::Release as usize].clone().ok_or_else(|| Fail::Inconclusive("no release build".into()))?;
    let mut c = std::process::Command::new(dir.join("word"));
    c.args(["-n", name, "-k", &k.to_string()]).env_clear().stdin(std::process::Stdio::null());
    c.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
    unsafe {
        use std::os::unix::process::CommandExt;
        c.pre_exec(|| {
            let r = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &r);
            let r = libc::rlimit { rlim_cur: 300, rlim_max: 305 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            Ok(())
        });
    }
    let mut ch = c.spawn().map_err(|e| Fail::Inconclusive(e.to_string()))?;
    let mut out = ch.stdout.take().unwrap();
    let mut buf = vec![0u8; 1 << 20];
    let mut at = 0usize;
    let mut bad: Option<usize> = None;
    // words defined by concatenation of smaller ones: the blocks still to come
    let base: Vec<Vec<u8>> = if name == "fibonacci" || name == "tribonacci" {
        (0..=18).map(|j| model::iterate(b"a", j, |x| morphism(name, x))).collect()
    } else {
        vec![]
    };
    let mut blocks: Vec<u8> = vec![k];
    let mut in_block = 0;
    let parity = |i: usize| (i.count_ones() & 1) as u8;
    let want_len: usize = match name {
        "fibonacci" | "tribonacci" => {
            let n = if name == "fibonacci" { 2 } else { 3 };
            let mut v: Vec<usize> = base.iter().map(|b| b.len()).collect();
            while v.len() <= k as usize {
                v.push(v[v.len() - n..].iter().sum());
            }
            v[k as usize]
        }
        "vtm" => 3 << (k - 1),
        "paper-folding" => 2 << k,
        _ => 1 << k,
    };
    loop {
        let l = match out.read(&mut buf) {
            Ok(0) => break,
            Ok(l) => l,
            Err(e) => return Err(Fail::Inconclusive(e.to_string())),
        };
        let b = &buf[..l];
        let mut first = |f: &dyn Fn(usize) -> u8| bad = bad.or_else(|| (0..l).find(|&i| b[i] != f(at + i)).map(|i| at + i));
        match name {
            "thue-morse" => first(&|i| b'a' + parity(i)),
            "period-doubling" => first(&|i| b'a' + ((i + 1).trailing_zeros() & 1) as u8),
            "vtm" => first(&|i| b'b' + parity(i) - parity(i + 1)),
            "power2" => first(&|i| if (i + 1).is_power_of_two() { b'b' } else { b'a' }),
            "paper-folding" => first(&|i| b'0' + paper(i + 1) as u8),
            "quaternary-paper-folding" => first(&|i| b'a' + 2 * paper(2 * i + 1) as u8 + paper(2 * i + 2) as u8),
            _ => {
                let mut p = 0;
                while p < l && bad.is_none() {
                    let Some(k) = blocks.pop() else { break };
                    if k as usize >= base.len() {
                        if name == "tribonacci" {
                            blocks.push(k - 3);
                        }
                        blocks.push(k - 2);
                        blocks.push(k - 1);
                        continue;
                    }
                    let w = &base[k as usize][in_block..];
                    let m = w.len().min(l - p);
                    if b[p..p + m] != w[..m] {
                        bad = Some(at + p);
                    }
                    in_block += m;
                    if m < w.len() {
                        blocks.push(k);
                    } else {
                        in_block = 0;
                    }
                    p += m;
                }
            }
        }
        at += l;
        if bad.is_some() || at > want_len {
            let _ = ch.kill();
            break;
        }
    }
    drop(out);
    let st = ch.wait().map_err(|e| Fail::Inconclusive(e.to_string()))?;
    if let Some(i) = bad {
        violated!("{} word of order {}: letters from position {} on are wrong", name, k, i);
    }
    use std::os::unix::process::ExitStatusExt;
    if st.signal() == Some(libc::SIGKILL) && at <= want_len {
        return Err(Fail::Inconclusive("killed from outside".into()));
    }
    ensure!(st.success() && at == want_len, "{} word of order {}: {:?} after {} letters of {}", name, k, st, at, want_len);
    obs.max("word length", at as u64);
    obs.add("letters compared", at as u64);
    Ok(())
}

// ------------------------------------------------------------------ C18
pub struct C18;
fn morphism(name: &str, c: u8) -> &'static [u8] {
    match (name, c) {
        ("fibonacci", b'a') => b"ab",
        ("fibonacci", _) => b"a",
        ("tribonacci", b'a') => b"ab",
        ("tribonacci", b'b') => b"ac",
        ("tribonacci", _) => b"a",
        ("thue-morse", b'a') => b"ab",
        ("thue-morse", _) => b"ba",
        ("period-doubling", b'a') => b"ab",
        ("period-doubling", _) => b"aa",
        (_, b'a') => b"abc",
        (_, b'b') => b"ac",
        (_, _) => b"b",
    }
}
/// (name, order reached by the quick tier, by the thorough tier)
const MORPHIC: [(&str, u8, u8); 5] =
    [("fibonacci", 36, 38), ("tribonacci", 28, 29), ("thue-morse", 25, 26), ("period-doubling", 25, 26), ("vtm", 24, 25)];
impl Check for C18 {
    fn rule(&self) -> &'static str {
        "every order of each morphic word up to lengths of tens of millions of letters, library and word tool in both builds, and one order of more than 2^31 letters or so as a stream, compared with repeated application of the defining morphism, with the prefix relation and with the Lyndon factorization; Fibonacci and Tribonacci numbers for every order that fits 64 bits; every order is a distinct case"
    }
    fn min_nontrivial(&self) -> u64 {
        150
    }
    fn generate(&self, g: &mut Gen) {
        for (n, q, t) in MORPHIC {
            let top = if g.thorough { t } else { q };
            for k in 0..=top {
                g.case(|_| name_case("morphic", n, k, 0));
                for rep in 0..6 {
                    if rep < 2 || k <= 12 {
                        g.case(|_| name_case("tool", n, k, rep));
                    }
                }
            }
        }
        giant_cases(g, &["thue-morse", "period-doubling", "vtm", "fibonacci", "tribonacci"]);
        for k in 0..=(if g.thorough { 16 } else { 15 }) {
            g.case(|_| name_case("lyndon", "fibonacci-lyndon-factor", k, 0));
            for rep in 0..4 {
                g.case(|_| name_case("tool-lyndon", "fibonacci-lyndon-factor", k, rep));
            }
        }
        for k in 0..=91 {
            g.case(|_| Case::new("number", &[k], &[b"fibonacci"]));
        }
        for k in 0..=72 {
            g.case(|_| Case::new("number", &[k], &[b"tribonacci"]));
        }
        beyond_cases(g, &["thue-morse", "period-doubling"]);
        g.case(|_| name_case("beyond", "fibonacci", 255, 0));
    }
    fn shrinkable(&self, _c: &Case) -> bool {
        false
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        let name = name_of(c);
        let k = c.nums[0] as u8;
        obs.add(&format!("cases {}", c.kind), 1);
        match c.kind.as_str() {
            "giant" => giant(env, &name, k, obs),
            "beyond" => beyond(&name, k, obs),
            "morphic" | "tool" => {
                let w = if c.kind == "morphic" { lib_word(&name, k)? } else { word_tool(env, &name, k, c.hash())? };
                let want = model::iterate(b"a", k as usize, |x| morphism(&name, x));
                same(&format!("{} word of order {}", name, k), &w, &want)?;
                obs.max("word length", w.len() as u64);
                obs.add("letters compared", w.len() as u64);
                if c.kind == "morphic" && w.len() < 3_000_000 {
                    let next = lib_word(&name, k + 1)?;
                    ensure!(next.starts_with(&w), "the {} word of order {} is no prefix of the next", name, k);
                    if name == "fibonacci" {
                        let n = call("fibonacci_number", || word::fibonacci_number(k))?;
                        ensure!(n == w.len(), "fibonacci_number({}) = {} but the word has {} letters", k, n, w.len());
                    }
                    if name == "tribonacci" {
                        let n = call("tribonacci_number", || word::tribonacci_number(k))?;
                        ensure!(n == w.len(), "tribonacci_number({}) = {} but the word has {} letters", k, n, w.len());
                    }
                }
                // the morphism functions themselves
                let fs: [(&str, fn(u8) -> &'static [u8]); 4] = [
                    ("fibonacci", word::fibonacci_morphism),
                    ("tribonacci", word::tribonacci_morphism),
                    ("thue-morse", word::thuemorse_morphism),
                    ("vtm", word::vtm_morphism),
                ];
                for (n, f) in fs {
                    for x in [b'a', b'b', b'c'] {
                        if x != b'c' || n == "tribonacci" || n == "vtm" {
                            same(&format!("{} morphism", n), f(x), morphism(n, x))?;
                        }
                    }
                }
                Ok(())
            }
            "lyndon" | "tool-lyndon" => {
                let tool = c.kind == "tool-lyndon";
                let w = if tool { word_tool(env, &name, k, c.hash())? } else { lib_word(&name, k)? };
                ensure!(model::is_lyndon(&w), "the Fibonacci Lyndon factor {} is no Lyndon word", k);
                // factors 0..=k concatenate to a prefix of the infinite word, in non-increasing order
                let mut len = 0;
                let mut prev: Option<Vec<u8>> = None;
                let mut cat: Vec<u8> = Vec::new();
                for j in 0..=k {
                    let f = if j == k { w.clone() } else { lib_word(&name, j)? };
                    if let Some(p) = &prev {
                        ensure!(f <= *p, "Fibonacci Lyndon factors {} and {} are in increasing order", j - 1, j);
                    }
                    len += f.len();
                    cat.extend_from_slice(&f);
                    prev = Some(f);
                }
                let mut o = 0;
                let mut inf = vec![b'a'];
                while inf.len() < len {
                    o += 1;
                    inf = model::iterate(b"a", o, |x| morphism("fibonacci", x));
                }
                same("concatenated Fibonacci Lyndon factors", &cat, &inf[..len])?;
                obs.max("word length", w.len() as u64);
                Ok(())
            }
            "number" => {
                let fib = name == "fibonacci";
                let mut v: Vec<u128> = if fib { vec![1, 2] } else { vec![1, 2, 4] };
                let r = v.len();
                while v.len() <= k as usize {
                    let s = v[v.len() - r..].iter().sum();
                    v.push(s);
                }
                let want = v[k as usize];
                if want > u64::MAX as u128 {
                    obs.trivial = true;
                    return Ok(());
                }
                let got = call(&format!("{}_number({})", name, k), || {
                    if fib {
                        word::fibonacci_number(k)
                    } else {
                        word::tribonacci_number(k)
                    }
                })?;
                ensure!(got as u128 == want, "{}_number({}) = {}, expected {}", name, k, got, want);
                obs.add("numbers checked", 1);
                Ok(())
            }
            k => Err(Fail::Inconclusive(format!("unknown kind {}", k))),
        }
    }
}

// ------------------------------------------------------------------ C19
pub struct C19;
const FORMULA: [(&str, u8, u8); 4] =
    [("paper-folding", 24, 25), ("quaternary-paper-folding", 25, 26), ("kolakoski", 27, 28), ("power2", 25, 26)];
fn paper(i: usize) -> bool {
    (i >> i.trailing_zeros()) % 4 == 1
}
fn formula_word(name: &str, k: u8) -> Vec<u8> {
    match name {
        "paper-folding" => (1..=(2usize << k)).map(|i| if paper(i) { b'1' } else { b'0' }).collect(),
        "quaternary-paper-folding" => (0..(1usize << k))
            .map(|j| match (paper(2 * j + 1), paper(2 * j + 2)) {
                (false, false) => b'a',
                (false, true) => b'b',
                (true, false) => b'c',
                (true, true) => b'd',
            })
            .collect(),
        "power2" => (1..=(1usize << k)).map(|i| if i.is_power_of_two() { b'b' } else { b'a' }).collect(),
        _ => {
            // k rounds: the length after a round is the number of letters the word so far describes
            let mut w: Vec<u8> = vec![2, 2];
            for _ in 0..k {
                let len: usize = w.iter().map(|&x| x as usize).sum();
                // w is its own run-length sequence
                let mut v: Vec<u8> = Vec::with_capacity(len);
                let mut letter = 2u8;
                for &n in &w {
                    for _ in 0..n {
                        v.push(letter);
                    }
                    letter = 3 - letter;
                }
                w = v;
            }
            w.iter().map(|&x| if x == 2 { b'b' } else { b'a' }).collect()
        }
    }
}
impl Check for C19 {
    fn rule(&self) -> &'static str {
        "every order of the paperfolding, quaternary paperfolding, Kolakoski and power-of-two words up to tens of millions of letters, library and word tool in both builds, and one order of more than 2^31 letters as a stream, compared letter by letter with the closed formulas; every order is a distinct case"
    }
    fn min_nontrivial(&self) -> u64 {
        100
    }
    fn shrinkable(&self, _c: &Case) -> bool {
        false
    }
    fn generate(&self, g: &mut Gen) {
        for (n, q, t) in FORMULA {
            let top = if g.thorough { t } else { q };
            for k in 0..=top {
                g.case(|_| name_case("lib", n, k, 0));
                for rep in 0..8 {
                    if rep < 2 || k <= 14 {
                        g.case(|_| name_case("tool", n, k, rep));
                    }
                }
            }
        }
        giant_cases(g, &["power2", "quaternary-paper-folding", "paper-folding"]);
        beyond_cases(g, &["power2", "quaternary-paper-folding", "paper-folding"]);
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        let name = name_of(c);
        let k = c.nums[0] as u8;
        obs.add(&format!("cases {}", c.kind), 1);
        if c.kind == "giant" {
            return giant(env, &name, k, obs);
        }
        if c.kind == "beyond" {
            return beyond(&name, k, obs);
        }
        let w = if c.kind == "lib" { lib_word(&name, k)? } else { word_tool(env, &name, k, c.hash())? };
        same(&format!("{} word of order {}", name, k), &w, &formula_word(&name, k))?;
        if name == "kolakoski" {
            // self-description, independent of the construction
            let runs: Vec<u8> = model::run_list(&w).iter().map(|r| if r.1 == 2 { b'b' } else { b'a' }).collect();
            ensure!(model::run_list(&w).iter().all(|r| r.1 <= 2), "Kolakoski word with a run longer than two");
            let l = runs.len() - 1;
            same("run lengths of the Kolakoski word", &runs[..l], &w[..l])?;
        }
        obs.max("word length", w.len() as u64);
        obs.add("letters compared", w.len() as u64);
        Ok(())
    }
}

// ------------------------------------------------------------------ C20
pub struct C20;
impl Check for C20 {
    fn boost(&self) -> usize {
        20
    }
    fn rule(&self) -> &'static str {
        "every de Bruijn order up to a bound, library and tool, with all cyclic windows counted; the prenecklace test on every word up to a length over 2-4 letters and on longer structured words near the boundary, over slices, vectors and deques and on proper prefixes of longer texts; non-trivial: at least two letters"
    }
    fn generate(&self, g: &mut Gen) {
        let top = g.size(20, 22) as u8;
        for k in 0..=top {
            g.case(|_| name_case("db-lib", "binary-de-brujin", k, 0));
            for rep in 0..3 {
                if rep == 0 || k < 14 {
                    g.case(|_| name_case("db-tool", "binary-de-brujin", k, rep));
                }
            }
        }
        let t = g.thorough;
        g.exhaustive(2, 1, if t { 17 } else { 14 }, |w| Case::text("pre", w.to_vec()));
        g.exhaustive(3, 1, if t { 10 } else { 8 }, |w| Case::text("pre", w.to_vec()));
        g.exhaustive(4, 1, if t { 8 } else { 6 }, |w| Case::text("pre", spread(w, Dom::All)));
        let n = g.n(6000, 80_000);
        g.many(n, |r| {
            // start from a smallest rotation, so that both answers occur
            let w = text(r, Dom::All, 300);
            let mut v = model::rotate(&w, model::min_rotation(&w));
            match r.below(5) {
                0 => {}
                1 => {
                    let k = r.range(1, 5);
                    v = v.repeat(k);
                    v.truncate(r.range(1, 400));
                }
                2 => v.truncate(r.range(1, w.len())),
                3 => {
                    let p = r.below(v.len());
                    let d = v[r.below(w.len())];
                    v[p] = d;
                }
                _ => {
                    let l = v.len();
                    v.extend_from_within(..r.below(l) + 1);
                    let p = v.len() - 1;
                    if r.chance(1, 2) {
                        v[p] = v[p].wrapping_sub(1);
                    } else {
                        v[p] = v[p].wrapping_add(1);
                    }
                }
            }
            Case::text("pre", v)
        });
        // long words, with periods and mismatches beyond 8, 16 and 17 bits
        let n = g.size(400, 4000);
        g.many(n, |r| {
            let len = if r.chance(1, 8) { r.range(200_000, 600_000) } else { r.log_range(400, 200_000) };
            let p = match r.below(4) {
                0 => len,
                1 => *r.pick(&[255usize, 256, 257, 511, 512, 1024, 4096, 32_768, 65_535, 65_536, 65_537, 131_072]),
                2 => r.log_range(1, len),
                _ => len / r.range(1, 4).min(len),
            }
            .clamp(1, len);
            let u = text_of(r, Dom::All, p);
            let mut v = model::rotate(&u, model::min_rotation(&u));
            v = v.into_iter().cycle().take(len).collect();
            for _ in 0..r.below(3) {
                let at = if r.chance(1, 2) { len - 1 - r.below(len.min(20)) } else { r.below(len) };
                v[at] = match r.below(4) {
                    0 => v[at].wrapping_add(1),
                    1 => v[at].wrapping_sub(1),
                    2 => 255,
                    _ => v[r.below(len)],
                };
            }
            Case::text("pre-long", v)
        });
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        obs.add(&format!("cases {}", c.kind), 1);
        if c.kind == "pre-long" {
            let w = &c.data[0];
            // the longest prenecklace prefix: no suffix falls below the prefix before its end
            let z = model::z_array(w);
            let longest = (1..w.len()).filter(|&i| i + z[i] < w.len() && w[i + z[i]] < w[z[i]]).map(|i| i + z[i]).min().unwrap_or(w.len());
            obs.max("longest prenecklace", longest as u64);
            for m in [w.len(), longest, longest + 1, longest - 1, w.len() / 2, 255, 256, 257, 65_535, 65_536, 65_537] {
                if m >= 1 && m <= w.len() {
                    let want = m <= longest;
                    let got = call("is_necklace", || word::is_necklace(&w[..], m))?;
                    ensure!(got == want, "is_necklace on the first {} of {} letters: {}, expected {}", m, w.len(), got, want);
                    obs.add(if want { "long prenecklaces" } else { "other long words" }, 1);
                }
            }
            return Ok(());
        }
        if c.kind == "pre" {
            let w = &c.data[0];
            let n = w.len();
            if n == 0 {
                return Ok(());
            }
            obs.trivial = n < 2;
            // a prefix of a necklace: no suffix is smaller than the prefix of its length
            let pre = |w: &[u8]| (1..w.len()).all(|i| w[i..] >= w[..w.len() - i]);
            let want = pre(w);
            let got = call("is_necklace", || word::is_necklace(&w[..], n))?;
            ensure!(got == want, "is_necklace: {} for a word that is {}a prefix of a necklace", got, if want { "" } else { "not " });
            obs.add(if want { "prenecklaces" } else { "other words" }, 1);
            let got = call("is_necklace on a vector", || word::is_necklace(w, n))?;
            ensure!(got == want, "is_necklace on a vector: {}, expected {}", got, want);
            let mut d: std::collections::VecDeque<u8> = std::collections::VecDeque::with_capacity(n + 3);
            for x in &w[n / 2..] {
                d.push_back(*x);
            }
            for x in w[..n / 2].iter().rev() {
                d.push_front(*x);
            }
            let got = call("is_necklace on a deque", || word::is_necklace(&d, n))?;
            ensure!(got == want, "is_necklace on a deque: {}, expected {}", got, want);
            // only the first n letters count
            for m in [1, n / 3, n / 2, n - 1] {
                if m >= 1 {
                    let got = call("is_necklace on a prefix", || word::is_necklace(w, m))?;
                    let want = pre(&w[..m]);
                    ensure!(got == want, "is_necklace on the prefix of length {}: {}, expected {}", m, got, want);
                }
            }
            return Ok(());
        }
        let k = c.nums[0] as u8;
        let w = if c.kind == "db-lib" { lib_word("binary-de-brujin", k)? } else { word_tool(env, "binary-de-brujin", k, c.hash())? };
        let order = k as usize + 1;
        ensure!(w.len() == 1 << order, "de Bruijn word of order {} has {} letters, expected {}", k, w.len(), 1usize << order);
        ensure!(w.iter().all(|&x| x == b'a' || x == b'b'), "de Bruijn word with a letter other than a and b");
        let mut seen = vec![false; 1 << order];
        let mut x = 0usize;
        let mask = (1 << order) - 1;
        for i in 0..w.len() + order - 1 {
            x = (x << 1 | (w[i % w.len()] == b'b') as usize) & mask;
            if i + 1 >= order {
                ensure!(!seen[x], "de Bruijn word of order {} repeats the window ending at {}", k, i);
                seen[x] = true;
            }
        }
        obs.add("windows counted", w.len() as u64);
        obs.max("de Bruijn order", k as u64);
        Ok(())
    }
    fn shrinkable(&self, c: &Case) -> bool {
        c.kind.starts_with("pre")
    }
}

// ------------------------------------------------------------------ C21
pub struct C21;
fn mobius(n: u64) -> i64 {
    let mut m = n;
    let mut r = 1;
    let mut p = 2;
    while p * p <= m {
        if m % p == 0 {
            m /= p;
            if m % p == 0 {
                return 0;
            }
            r = -r;
        }
        p += 1;
    }
    if m > 1 {
        r = -r;
    }
    r
}
fn lyndon_count(s: u64, n: u64) -> u64 {
    let mut t: i128 = 0;
    for d in 1..=n {
        if n % d == 0 {
            t += mobius(d) as i128 * (s as i128).pow((n / d) as u32);
        }
    }
    (t / n as i128) as u64
}
fn check_lyndon_list(words: &[Vec<u8>], s: usize, n: usize) -> Res {
    let want: u64 = (1..=n as u64).map(|l| lyndon_count(s as u64, l)).sum();
    for (i, w) in words.iter().enumerate() {
        ensure!(!w.is_empty() && w.len() <= n, "Lyndon word {} has length {}, allowed are 1..={}", i, w.len(), n);
        ensure!(w.iter().all(|&x| (x as usize) < s), "word {} uses a letter beyond the alphabet", i);
        ensure!(model::is_lyndon(w), "listed word {} {:?} is no Lyndon word", i, w);
        if i > 0 {
            ensure!(words[i - 1] < *w, "word {} is not larger than the one before it", i);
        }
    }
    ensure!(words.len() as u64 == want, "{} Lyndon words were listed, there are {}", words.len(), want);
    Ok(())
}
/// all words of a length over s letters, in order
fn all_words(s: usize, l: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for _ in 0..l {
        v = v
            .into_iter()
            .flat_map(|w: Vec<u8>| {
                (0..s).map(move |x| {
                    let mut w = w.clone();
                    w.push(x as u8);
                    w
                })
            })
            .collect();
    }
    v
}
fn lines(b: &[u8]) -> Res<Vec<&[u8]>> {
    if b.is_empty() {
        return Ok(vec![]);
    }
    ensure!(b.last() == Some(&b'\n'), "the last line is not terminated");
    Ok(b[..b.len() - 1].split(|&x| x == b'\n').collect())
}
/// the Lyndon words of length at most l over 0..s in lexicographic order
fn lyndon_words(l: usize, s: usize) -> impl Iterator<Item = Vec<u8>> {
    std::iter::successors(Some(vec![0u8]), move |w| {
        let mut v: Vec<u8> = w.iter().copied().cycle().take(l).collect();
        while v.last() == Some(&((s - 1) as u8)) {
            v.pop();
        }
        *v.last_mut()? += 1;
        Some(v)
    })
}

impl Check for C21 {
    fn rule(&self) -> &'static str {
        "all parameter pairs of the Lyndon word, binary string and string enumerators up to an output size bound (library and tools), conjugates of structured texts, k-mer generator in both builds; outputs checked for membership, strict order and the exact count by Witt's formula; the beginnings of enumerations too long to finish; iterators polled after their end; every parameter choice is a distinct case"
    }
    fn generate(&self, g: &mut Gen) {
        let cap = g.size(250_000, 1_500_000) as u64;
        for s in 1..=26u64 {
            for l in 0..=24u64 {
                let total: u64 = (1..=l).map(|x| lyndon_count(s, x)).fold(0u64, |a, b| a.saturating_add(b));
                if total <= cap && (s > 1 || l <= 12) {
                    g.case(|_| Case::new("lyndon-lib", &[s as i64, l as i64], &[]));
                    if total <= cap / 4 {
                        g.case(|_| Case::new("lyndon-tool", &[s as i64, l as i64, 0], &[]));
                        g.case(|_| Case::new("lyndon-tool", &[s as i64, l as i64, 1], &[]));
                    }
                } else {
                    break;
                }
            }
        }
        for s in [27i64, 64, 100, 127, 128, 129, 200, 254, 255, 256] {
            for l in 1..=2 {
                g.case(|_| Case::new("lyndon-lib", &[s, l], &[]));
            }
        }
        for s in [27i64, 28, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 158, 159] {
            for l in 1..=2 {
                g.case(|_| Case::new("lyndon-tool", &[s, l, l - 1], &[]));
            }
        }
        let top = g.size(18, 21) as i64;
        for n in 0..=top {
            g.case(|_| Case::new("binary", &[n], &[]));
        }
        g.case(|_| Case::text("conjugates", vec![]));
        g.exhaustive(2, 1, 9, |w| Case::text("conjugates", spread(w, Dom::All)));
        let n = g.n(1000, 10_000);
        g.many(n, |r| Case::text("conjugates", text(r, Dom::All, 300)));
        let n = g.size(1500, 10_000);
        g.many(n, |r| Case::new("in-turn", &[(r.next() >> 2) as i64], &[]));
        let n = g.size(10, 60);
        g.many(n, |r| {
            let l = r.log_range(300, 6000);
            Case::text("conjugates-long", text_of(r, Dom::All, l))
        });
        g.case(|r| Case::text("conjugates-long", text_of(r, Dom::All, 65_700)));
        let cap = g.size(2_500_000, 12_000_000) as u64;
        for s in 1..=26u64 {
            for lo in 1..=20u64 {
                for hi in lo..=lo + 3 {
                    let mut total = 0u64;
                    for l in lo..=hi {
                        total = total.saturating_add(s.saturating_pow(l as u32).saturating_mul(l + 1));
                    }
                    if total <= cap {
                        g.case(|_| Case::new("enumerate", &[s as i64, lo as i64, hi as i64], &[]));
                    }
                }
            }
        }
        g.case(|_| Case::new("enumerate", &[1, 1, 300], &[]));
        // enumerations too long to finish: their beginning
        for (s, l) in [(2i64, 31i64), (2, 32), (2, 33), (2, 63), (2, 64), (2, 65), (2, 127), (2, 128), (2, 255), (2, 256), (2, 257), (2, 300), (2, 1000), (3, 40), (3, 300), (5, 27), (7, 260), (10, 20), (25, 300), (26, 7), (26, 13), (26, 14), (26, 70), (26, 600), (26, 70000)] {
            for build in 0..2 {
                g.case(|_| Case::new("enumerate-head", &[s, l, 60_000, l, build], &[]));
                // several lengths in one call, of which the head covers the first ones
                g.case(|_| Case::new("enumerate-head", &[s, 1, 1_000_000, l, build], &[]));
                g.case(|_| Case::new("enumerate-head", &[s, (l - 1).min(12), 200_000, l + 1, build], &[]));
            }
            g.case(|_| Case::new("lyndon-head", &[s, l, 2000], &[]));
            if l < 2000 {
                g.case(|_| Case::new("lyndon-head-tool", &[s, l, 60_000], &[]));
            }
        }
        for l in [17i64, 20, 24, 31, 32, 33, 40, 47, 48, 49, 62, 63, 64, 65, 66, 72, 80, 96, 100, 127, 128, 129, 192, 193, 200, 254, 255] {
            g.case(|_| Case::new("binary-head", &[l, 70_000], &[]));
        }
        for bits in 1..=7 {
            for (a, b) in [(0i64, 300i64), (0, 4096), (5, 1000), (100, 201), (0, 70_000), (0, 1), (0, 2), (3, 7), (0, 400_000)] {
                g.case(|_| Case::new("samples", &[a, b, bits], &[]));
            }
        }
        for rep in 0..4 {
            g.case(|_| Case::new("kmer", &[rep], &[]));
        }
    }
    fn shrinkable(&self, c: &Case) -> bool {
        c.kind.starts_with("conjugates")
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        obs.add(&format!("cases {}", c.kind), 1);
        let h = c.hash();
        match c.kind.as_str() {
            "lyndon-lib" => {
                let (s, l) = (c.nums[0] as usize, c.nums[1] as usize);
                let words = call("LyndonWordGenerator", || {
                    let mut it = core::LyndonWordGenerator::new(l, s);
                    let mut v = Vec::new();
                    for w in it.by_ref() {
                        v.push(w);
                        if v.len() > 5_000_000 {
                            break;
                        }
                    }
                    let again: Vec<_> = (0..700).map(|_| it.next()).collect();
                    (v, again)
                })?;
                ensure!(words.1.iter().all(|x| x.is_none()), "LyndonWordGenerator yields something after its end");
                obs.add("words listed", words.0.len() as u64);
                check_lyndon_list(&words.0, s, l)
            }
            "lyndon-tool" => {
                let (s, l) = (c.nums[0] as usize, c.nums[1] as usize);
                let mut tool = Tool::new(env, build_for(h), "lyndonwords").arg("-l").arg(l.to_string()).arg("-s").arg(s.to_string());
                let f = TempFile::none(env, "lw");
                let file = c.nums[2] == 1;
                if file {
                    tool = tool.arg("-o").arg(f.arg());
                }
                let mut out = tool.ok()?;
                if file {
                    ensure!(out.is_empty(), "lyndonwords wrote to stdout beside its output file");
                    out = f.read()?;
                }
                let words: Vec<Vec<u8>> = lines(&out)?.iter().map(|w| w.iter().map(|x| x.wrapping_sub(b'a')).collect()).collect();
                obs.add("words listed", words.len() as u64);
                check_lyndon_list(&words, s, l)
            }
            "binary" | "binary-head" => {
                let n = c.nums[0] as u8;
                let head = c.kind == "binary-head";
                let limit = if head { c.nums[1] as usize } else { (1usize << n) + 10 };
                let (v, again) = call("BinaryStringGenerator", || {
                    let mut it = core::BinaryStringGenerator::new(n);
                    let v: Vec<Vec<u8>> = it.by_ref().take(limit).collect();
                    (v, if head { vec![] } else { (0..700).map(|_| it.next()).collect::<Vec<_>>() })
                })?;
                ensure!(again.iter().all(|x| x.is_none()), "BinaryStringGenerator yields something after its end");
                let want = if head { limit } else { 1usize << n };
                ensure!(v.len() == want, "BinaryStringGenerator({}) yields {}{} strings, expected {}", n, v.len(), if v.len() == limit { " or more" } else { "" }, want);
                for (i, w) in v.iter().enumerate() {
                    let exp: Vec<u8> = (0..n as u32).rev().map(|b| if (i as u64).checked_shr(b).unwrap_or(0) & 1 == 1 { b'1' } else { b'0' }).collect();
                    same(&format!("binary string {} of length {}", i, n), w, &exp)?;
                }
                obs.add("words listed", v.len() as u64);
                Ok(())
            }
            "conjugates" => {
                let t = &c.data[0];
                let (v, again) = call("ConjugateIterator", || {
                    let mut it = core::ConjugateIterator::new(t);
                    let v: Vec<Vec<u8>> = it.by_ref().take(t.len() + 5).collect();
                    (v, (0..700).map(|_| it.next()).collect::<Vec<_>>())
                })?;
                ensure!(v.len() == t.len(), "{} conjugates for a text of length {}", v.len(), t.len());
                ensure!(again.iter().all(|x| x.is_none()), "ConjugateIterator yields something after its end");
                for (k, w) in v.iter().enumerate() {
                    same(&format!("conjugate {}", k), w, &model::rotate(t, k))?;
                }
                struct Turn;
                impl types::Visit for Turn {
                    fn go<T: Ord + Copy + std::fmt::Debug>(&mut self, ty: &str, w: &[T], _f: &dyn Fn(u8) -> T) -> Res {
                        let v = call("ConjugateIterator", || core::ConjugateIterator::new(w).take(w.len() + 5).collect::<Vec<Vec<T>>>())?;
                        ensure!(v.len() == w.len(), "{} conjugates for a text of {} symbols of type {}", v.len(), w.len(), ty);
                        for (k, x) in v.iter().enumerate() {
                            same_arr(&format!("conjugate {} over {}", k, ty), x, &model::rotate(w, k))?;
                        }
                        Ok(())
                    }
                }
                if t.len() <= 300 {
                    types::some_types(t, h, 3, obs, &mut Turn)?;
                }
                obs.add("words listed", v.len() as u64);
                Ok(())
            }
            "in-turn" => {
                // several enumerators at once, advanced in no particular order, one of them dropped on the way
                let mut r = Rng::new(c.nums[0] as u64);
                let texts: Vec<Vec<u8>> = (0..4).map(|_| text(&mut r, Dom::All, 40)).collect();
                type It<'a> = Box<dyn Iterator<Item = Vec<u8>> + 'a>;
                let mut its: Vec<(String, It, It)> = Vec::new();
                for t in texts.iter().take(r.range(2, 4)) {
                    let (l, s) = (r.range(1, 6), r.range(2, 4));
                    its.push(match r.below(3) {
                        0 => {
                            let want = lyndon_words(l, s).collect::<Vec<_>>();
                            (format!("LyndonWordGenerator({}, {})", l, s), Box::new(core::LyndonWordGenerator::new(l, s)), Box::new(want.into_iter()))
                        }
                        1 => {
                            let want: Vec<Vec<u8>> = (0..1usize << l).map(|i| (0..l).rev().map(|b| b'0' + (i >> b & 1) as u8).collect()).collect();
                            (format!("BinaryStringGenerator({})", l), Box::new(core::BinaryStringGenerator::new(l as u8)), Box::new(want.into_iter()))
                        }
                        _ => {
                            let want: Vec<Vec<u8>> = (0..t.len()).map(|k| model::rotate(t, k)).collect();
                            (format!("ConjugateIterator of {} letters", t.len()), Box::new(core::ConjugateIterator::new(t)), Box::new(want.into_iter()))
                        }
                    });
                }
                for step in 0..600 {
                    if its.is_empty() {
                        break;
                    }
                    if step % 100 == 99 && r.chance(1, 4) {
                        let _ = its.remove(r.below(its.len()));
                        continue;
                    }
                    let k = r.below(its.len());
                    let (name, it, want) = &mut its[k];
                    if r.chance(1, 8) {
                        let (lo, hi) = call("enumerator", || it.size_hint())?;
                        let left = want.size_hint().0;
                        ensure!(lo <= left && hi.is_none_or(|h| h >= left), "{} announces between {} and {:?} words, {} are left", name, lo, hi, left);
                    }
                    let skip = if r.chance(1, 5) { r.below(4) } else { 0 };
                    let (got, want) = (call("enumerator", || it.nth(skip))?, want.nth(skip));
                    ensure!(got == want, "{} beside other enumerators yields {:?} after {} more, expected {:?}", name, got, skip, want);
                    obs.add("words taken in turn", 1);
                }
                for (name, it, want) in its {
                    // what is left, taken as a whole
                    match r.below(3) {
                        0 => {
                            let (a, b) = (call("enumerator", || it.count())?, want.count());
                            ensure!(a == b, "{} counts {} words to its end, expected {}", name, a, b);
                        }
                        1 => {
                            let (a, b) = (call("enumerator", || it.last())?, want.last());
                            ensure!(a == b, "{} ends with {:?}, expected {:?}", name, a, b);
                        }
                        _ => {
                            let k = r.range(1, 5);
                            let (a, b): (Vec<_>, Vec<_>) = (call("enumerator", || it.step_by(k).collect())?, want.step_by(k).collect());
                            ensure!(a == b, "{} in steps of {} yields {:?}, expected {:?}", name, k, a, b);
                        }
                    }
                }
                Ok(())
            }
            "conjugates-long" => {
                let t = &c.data[0];
                let n = t.len();
                let mut it = core::ConjugateIterator::new(t);
                for k in 0..n {
                    let w = call("ConjugateIterator", || it.next())?;
                    let Some(w) = w else { violated!("ConjugateIterator ends after {} of {} conjugates", k, n) };
                    if w.len() != n || w[..n - k] != t[k..] || w[n - k..] != t[..k] {
                        same(&format!("conjugate {}", k), &w, &model::rotate(t, k))?;
                    }
                }
                ensure!(call("ConjugateIterator", || it.next())?.is_none(), "ConjugateIterator yields more than {} conjugates", n);
                obs.add("words listed", n as u64);
                Ok(())
            }
            "enumerate" => {
                let (s, lo, hi) = (c.nums[0] as usize, c.nums[1] as usize, c.nums[2] as usize);
                let mut tool = Tool::new(env, build_for(h), "enumerate").arg(s.to_string()).arg(lo.to_string());
                if hi != lo || h & 2 == 0 {
                    tool = tool.arg(hi.to_string());
                }
                let out = tool.ok()?;
                let mut want = Vec::new();
                for l in lo..=hi {
                    if s == 1 {
                        want.resize(want.len() + l, b'a');
                        want.push(b'\n');
                        continue;
                    }
                    for w in all_words(s, l) {
                        want.extend(w.iter().map(|x| x + b'a'));
                        want.push(b'\n');
                    }
                }
                obs.add("words listed", want.iter().filter(|&&x| x == b'\n').count() as u64);
                same(&format!("enumerate {} {} {}", s, lo, hi), &out, &want)
            }
            "enumerate-head" | "lyndon-head-tool" => {
                let (s, l, mut limit) = (c.nums[0] as usize, c.nums[1] as usize, c.nums[2] as usize + 4 * c.nums[1] as usize);
                let lyndon = c.kind == "lyndon-head-tool";
                let hi = if lyndon { l } else { c.nums[3] as usize };
                if hi > l {
                    // not more than there is
                    let mut total = 0usize;
                    for x in l..=hi {
                        total = total.saturating_add(s.saturating_pow(x as u32).saturating_mul(x + 1));
                    }
                    limit = limit.min(total / 2);
                }
                let mut tool = if lyndon {
                    Tool::new(env, build_for(h), "lyndonwords").arg("-l").arg(l.to_string()).arg("-s").arg(s.to_string())
                } else {
                    let b = if c.nums[4] == 0 { Build::Checked } else { Build::Release };
                    let t = Tool::new(env, b, "enumerate").arg(s.to_string()).arg(l.to_string());
                    if hi > l {
                        t.arg(hi.to_string())
                    } else {
                        t
                    }
                };
                tool.fsize = Some(limit as u64);
                let d = tool.describe();
                let o = tool.run()?;
                ensure!(o.signal == Some(libc::SIGXFSZ), "{}: ended with {} after {} bytes of output", d, o.status(), o.out.len());
                let mut want = Vec::new();
                if lyndon {
                    for w in lyndon_words(l, s) {
                        want.extend(w.iter().map(|x| x + b'a'));
                        want.push(b'\n');
                        if want.len() > limit {
                            break;
                        }
                    }
                } else {
                    let mut i = 0usize;
                    let mut l = l;
                    while want.len() <= limit {
                        if i == s.saturating_pow(l as u32) {
                            i = 0;
                            l += 1;
                        }
                        let mut w = vec![b'a'; l];
                        let mut k = i;
                        for x in w.iter_mut().rev() {
                            *x += (k % s) as u8;
                            k /= s;
                        }
                        want.extend(w);
                        want.push(b'\n');
                        i += 1;
                    }
                }
                obs.add("beginnings of long enumerations", 1);
                same(&format!("{}: beginning of the output", d), &o.out, &want[..o.out.len().min(want.len())])
            }
            "samples" => {
                let (a, b, bits) = (c.nums[0] as usize, c.nums[1] as usize, c.nums[2] as u8);
                let v = call("RandomStringGenerator", || core::RandomStringGenerator::new(a..b, bits).take(b - a + 10).collect::<Vec<_>>())?;
                ensure!(v.len() <= b - a, "RandomStringGenerator yields {} texts for the range {}..{}", v.len(), a, b);
                for (i, w) in v.iter().enumerate() {
                    ensure!(w.last() == Some(&0), "text {} of RandomStringGenerator({}..{}, {}) is not terminated by a zero byte", i, a, b, bits);
                    ensure!(
                        w[..w.len() - 1].iter().all(|&x| x >= 1 && x as usize <= 1 << bits),
                        "text {} of RandomStringGenerator({}..{}, {}) has a symbol outside 1..={}",
                        i,
                        a,
                        b,
                        bits,
                        1 << bits
                    );
                }
                obs.add("sample texts", v.len() as u64);
                Ok(())
            }
            "lyndon-head" => {
                let (s, l, n) = (c.nums[0] as usize, c.nums[1] as usize, (c.nums[2] as usize).min(10_000_000 / c.nums[1] as usize));
                let v = call("LyndonWordGenerator", || core::LyndonWordGenerator::new(l, s).take(n).collect::<Vec<_>>())?;
                ensure!(v.len() == n, "LyndonWordGenerator({}, {}) ends after {} words", l, s, v.len());
                for (i, (w, want)) in v.iter().zip(lyndon_words(l, s)).enumerate() {
                    same(&format!("word {} of LyndonWordGenerator({}, {})", i, l, s), w, &want)?;
                }
                obs.add("beginnings of long enumerations", 1);
                Ok(())
            }
            "kmer" => {
                let build = if c.nums[0] % 2 == 0 { Build::Checked } else { Build::Release };
                let out = Tool::new(env, build, "generator_kmer").ok()?;
                let mut l: Vec<&[u8]> = lines(&out)?;
                ensure!(l.iter().all(|w| w.len() == 8 && w.iter().all(|x| (b'a'..=b'd').contains(x))), "a line is no string of length 8 over a..d");
                ensure!(l.len() == 65536, "{} strings instead of 65536", l.len());
                l.sort();
                l.dedup();
                ensure!(l.len() == 65536, "only {} distinct strings", l.len());
                obs.add("words listed", 65536);
                Ok(())
            }
            k => Err(Fail::Inconclusive(format!("unknown kind {}", k))),
        }
    }
}

// ------------------------------------------------------------------ C22
pub struct C22;
impl Check for C22 {
    fn rule(&self) -> &'static str {
        "randomstring for every alphabet size 0..70 and lengths 0, 1, around the alphabet size, 5000 and larger, both builds, stdout and file; length, character class, number of distinct characters, use of the full alphabet for long strings, difference of two runs; the generator is seeded by the operating system, so runs differ between invocations; every (length, alphabet) is a distinct case"
    }
    fn shrinkable(&self, _c: &Case) -> bool {
        false
    }
    fn generate(&self, g: &mut Gen) {
        for a in 0..=70i64 {
            for l in [0i64, 1, 2, 10, 61, 62, 63, 100, 300, 6000, 20_000] {
                g.case(|_| Case::new("rand", &[a, l], &[]));
            }
            g.case(|r: &mut Rng| Case::new("rand", &[a, r.log_range(1, 5000) as i64], &[]));
            g.case(|r: &mut Rng| Case::new("rand", &[a, a + r.below(3) as i64], &[]));
        }
        for a in [100i64, 255, 256, 257, 1000, 1 << 40] {
            g.case(|_| Case::new("rand", &[a, 6000], &[]));
        }
        let n = g.n(4, 20);
        g.many(n, |r| Case::new("rand", &[r.below(64) as i64, r.log_range(50_000, 400_000) as i64], &[]));
        for l in [65_535i64, 65_536, 65_537, 131_072, 1_048_575, 1_048_576, 1_048_577, 3_000_000, 16_777_217] {
            for a in [0, 2, 61, 62] {
                g.case(|_| Case::new("rand", &[a, l], &[]));
            }
        }
        g.case(|_| Case::new("rand", &[5, -1], &[]));
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        let (a, l) = (c.nums[0] as usize, c.nums[1]);
        let h = c.hash();
        let run = |h: u64| -> Res<Vec<u8>> {
            let mut tool = Tool::new(env, build_for(h), "randomstring").arg(if h & 2 == 0 { "-a" } else { "--alphabet-size" }).arg(a.to_string());
            if l >= 0 {
                tool = tool.arg(if h & 4 == 0 { "-p" } else { "--prefixlength" }).arg(l.to_string());
            }
            if h & 24 == 0 {
                let f = TempFile::none(env, "rnd");
                let o = tool.arg("-o").arg(f.arg()).ok()?;
                ensure!(o.is_empty(), "randomstring wrote to stdout beside its output file");
                f.read()
            } else {
                tool.ok()
            }
        };
        let l = if l < 0 { 10 } else { l as usize };
        let mut outs = Vec::new();
        for k in 0..2 {
            let o = run(h.rotate_left(7 * k))?;
            ensure!(o.len() == l, "randomstring wrote {} of {} characters", o.len(), l);
            if let Some(x) = o.iter().find(|x| !x.is_ascii_alphanumeric()) {
                violated!("randomstring wrote the byte {}, which is not alphanumeric", x);
            }
            let mut d = o.clone();
            d.sort();
            d.dedup();
            let bound = if a == 0 { 62 } else { a.min(62) };
            ensure!(d.len() <= bound, "randomstring used {} distinct characters, at most {} were allowed", d.len(), bound);
            if l >= 6000 {
                // the chance of missing a character is below 1e-40
                ensure!(d.len() == bound, "a random string of length {} uses {} of {} characters", l, d.len(), bound);
                obs.add("long strings with the full alphabet", 1);
            }
            obs.seen("distinct strings", crate::rng::hash_bytes(9, &o));
            outs.push(o);
        }
        if a != 1 && l >= 300 {
            ensure!(outs[0] != outs[1], "two independent runs gave the same random string of length {}", l);
            obs.add("pairs of independent runs", 1);
        }
        obs.add("characters", 2 * l as u64);
        obs.max("length", l as u64);
        Ok(())
    }
}
