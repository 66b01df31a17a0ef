//! Byte filters: escape, mtf, rle, reverse, count_sigma and their composition.
use super::Check;
use crate::case::*;
use crate::cli::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::{ensure, model, violated, Obs};

fn note(obs: &mut Obs, c: &Case) {
    obs.add(&format!("cases {}", c.kind), 1);
    let n = c.data.first().map(|d| d.len()).unwrap_or(0);
    obs.max("input length", n as u64);
    obs.add("input bytes", n as u64);
    obs.trivial = n < 2;
}

/// feeds the input by stdin, a pipe in chunks, or a file, and takes the output from stdout or a file
fn filter(env: &Env, build: Build, bin: &str, args: &[String], t: &[u8], h: u64) -> Res<Vec<u8>> {
    let mut tool = Tool::new(env, build, bin).args(args.iter().cloned());
    let chunks = [1 + (h >> 13) as usize % 5, 1 + (h >> 17) as usize % 9000, 65_536, 8192];
    let mut keep = None;
    match (h >> 40) % 4 {
        0 => {
            let f = TempFile::with(env, "in", t)?;
            tool = tool.arg("-i").arg(f.arg());
            keep = Some(f);
        }
        1 => tool = tool.stdin(In::Pipe(t, &chunks)),
        _ => tool = tool.input(t),
    }
    let r = if (h >> 50) % 4 == 0 {
        let of = TempFile::none(env, "out");
        let o = tool.arg("-o").arg(of.arg()).ok()?;
        ensure!(o.is_empty(), "{} wrote to stdout beside its output file", bin);
        of.read()
    } else {
        tool.ok()
    };
    drop(keep);
    r
}

// ------------------------------------------------------------------ C14
pub struct C14;
fn list(v: &[u8]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
/// escape parameters: nums = [prefix, escape, from..., -1, to...]
fn escape_case(r: &mut Rng, max: usize) -> Case {
    let mut all: Vec<u8> = (0..=255).collect();
    r.shuffle(&mut all);
    for (k, b) in [0u8, 255, 254, 1].iter().enumerate() {
        if r.chance(1, 2) {
            let p = all.iter().position(|x| x == b).unwrap();
            all.swap(k, p);
        }
    }
    let n = *r.pick(&[0usize, 1, 1, 1, 2, 2, 3, 5, 20, 100, 127]);
    let e = all[0];
    let (from, to) = (&all[1..1 + n], &all[1 + n..1 + 2 * n]);
    let mut t = match r.below(4) {
        0 | 1 => text(r, Dom::All, max),
        2 => (0..length(r, max)).map(|_| r.byte()).collect(),
        _ => {
            // dense in the symbols that matter
            let k = 1 + 2 * n;
            (0..length(r, max)).map(|_| if r.chance(3, 4) { all[r.below(k)] } else { r.byte() }).collect()
        }
    };
    if r.chance(1, 40) {
        t.clear();
    }
    let p = match r.below(6) {
        0 => r.below(t.len() + 3),
        1 => t.len(),
        2 => r.range(1, t.len().max(1)),
        _ => 0,
    };
    let mut nums = vec![p as i64, e as i64];
    nums.extend(from.iter().map(|&x| x as i64));
    nums.push(-1);
    nums.extend(to.iter().map(|&x| x as i64));
    let mut c = Case::text("escape", t);
    c.nums = nums;
    c
}
pub fn escape_model(t: &[u8], e: u8, from: &[u8], to: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    for &b in t {
        if b == e {
            v.push(e);
            v.push(e);
        } else if let Some(k) = from.iter().position(|&x| x == b) {
            v.push(e);
            v.push(to[k]);
        } else {
            v.push(b);
        }
    }
    v
}
pub fn unescape_model(t: &[u8], e: u8, from: &[u8], to: &[u8]) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    let mut it = t.iter();
    while let Some(&b) = it.next() {
        if b == e {
            let n = *it.next()?;
            if n == e {
                v.push(e);
            } else {
                v.push(from[to.iter().position(|&x| x == n)?]);
            }
        } else {
            v.push(b);
        }
    }
    Some(v)
}
impl Check for C14 {
    fn boost(&self) -> usize {
        5
    }
    fn rule(&self) -> &'static str {
        "random escape symbol and random disjoint from/to lists of 0 to 127 symbols (0, 1, 254, 255 preferred), inputs over all bytes and dense in those symbols, with and without prefix length, lists comma-separated and repeated, via stdin, pipe and file; each output compared with the definition, scanned for from-symbols and reverted by the tool; non-trivial: at least two bytes"
    }
    fn generate(&self, g: &mut Gen) {
        g.exhaustive(4, 0, if g.thorough { 6 } else { 4 }, |w| {
            // symbols: escape, from, to, other
            let mut c = Case::text("escape", w.iter().map(|&x| [254u8, 0, 255, 7][x as usize]).collect());
            c.nums = vec![0, 254, 0, -1, 255];
            c
        });
        // every byte as escape symbol, every byte as from symbol
        for b in 0..256usize {
            g.case(|r| {
                let f = (b + 1 + r.below(255)) % 256;
                let mut to = r.below(256);
                while to == b || to == f {
                    to = r.below(256);
                }
                let mut t: Vec<u8> = (0..=255u8).chain((0..=255u8).rev()).collect();
                t.extend_from_slice(&[b as u8, f as u8, to as u8, b as u8, b as u8, to as u8]);
                let mut c = Case::text("escape", t);
                c.nums = vec![0, b as i64, f as i64, -1, to as i64];
                c
            });
        }
        let n = g.n(4000, 40_000);
        g.many(n, |r| escape_case(r, 2500));
        let n = g.n(40, 400);
        g.many(n, |r| escape_case(r, 100_000));
        let n = g.size(2, 12);
        g.many(n, |r| {
            let mut c = escape_case(r, 50);
            let l = giant_length(r);
            c.data[0] = if r.chance(1, 2) { text_of(r, Dom::All, l) } else { (0..l).map(|_| r.byte()).collect() };
            c.nums[0] = 0;
            c
        });
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        note(obs, c);
        let t = &c.data[0];
        let p = c.nums[0] as usize;
        let e = c.nums[1] as u8;
        let mid = c.nums.iter().position(|&x| x == -1).unwrap_or(2);
        let from: Vec<u8> = c.nums[2..mid].iter().map(|&x| x as u8).collect();
        let to: Vec<u8> = c.nums[mid + 1..].iter().map(|&x| x as u8).collect();
        let h = c.hash();
        let mut args: Vec<String> = Vec::new();
        let mut push = |a: &str, b: String| {
            args.push(a.into());
            args.push(b);
        };
        push(if h & 1 == 0 { "-e" } else { "--escape-symbol" }, e.to_string());
        if !from.is_empty() {
            match (h >> 1) % 3 {
                0 => {
                    push("-f", list(&from));
                    push("-t", list(&to));
                }
                1 => {
                    for x in &from {
                        push("-f", x.to_string());
                    }
                    for x in &to {
                        push("-t", x.to_string());
                    }
                }
                _ => {
                    let k = (h >> 30) as usize % (from.len() + 1);
                    if k > 0 {
                        push("--from-symbols", list(&from[..k]));
                    }
                    push("--to-symbols", list(&to));
                    if k < from.len() {
                        push("--from-symbols", list(&from[k..]));
                    }
                }
            }
        }
        let back = args.clone();
        if p > 0 || h & 64 != 0 {
            args.push("-p".into());
            args.push(p.to_string());
        }
        let input = if p == 0 { &t[..] } else { &t[..p.min(t.len())] };
        let enc = filter(env, build_for(h), "escape", &args, t, h)?;
        same("escaped data", &enc, &escape_model(input, e, &from, &to))?;
        if let Some(b) = enc.iter().find(|b| from.contains(b)) {
            violated!("the escaped data contains the symbol {} that was to be removed", b);
        }
        let mut args = back.clone();
        args.push("--is-reversion".into());
        let dec = filter(env, build_for(h >> 3), "escape", &args, &enc, h.rotate_left(17))?;
        same("reverted data", &dec, input)?;
        obs.add("reversions checked", 1);
        obs.add("escaped symbols seen", (enc.len() - input.len()) as u64);
        obs.seen("escape symbols", e as u64);
        obs.max("list length", from.len() as u64);
        if !input.is_empty() && h % 5 == 0 {
            // a prefix length given to the reversion counts restored bytes
            let q = 1 + (h >> 33) as usize % input.len();
            args.push("-p".into());
            args.push(q.to_string());
            let dec = filter(env, build_for(h >> 4), "escape", &args, &enc, h.rotate_left(27))?;
            same("reverted prefix", &dec, &input[..q])?;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C15
pub struct C15;
/// byte strings for filters that read one byte at a time
fn filter_cases(g: &mut Gen, kind: &str, quick: usize) {
    g.case(|_| Case::text(kind, vec![]));
    for b in 0..256usize {
        g.case(|_| Case::text(kind, vec![b as u8]));
        g.case(|r| {
            let o = r.byte();
            Case::text(kind, vec![b as u8, o, o, b as u8, b as u8])
        });
    }
    g.case(|_| Case::text(kind, (0..=255).collect()));
    g.case(|_| Case::text(kind, (0..=255).rev().collect()));
    g.case(|_| Case::text(kind, (0..=255).chain((0..=255).rev()).chain(0..=255).collect()));
    g.exhaustive(3, 2, if g.thorough { 8 } else { 6 }, |w| Case::text(kind, spread(w, Dom::All)));
    let n = g.n(quick, quick * 10);
    g.many(n, |r| Case::text(kind, text(r, Dom::All, 3000)));
    let n = g.n(quick / 20, quick / 2);
    g.many(n, |r| {
        let l = *r.pick(&[8191usize, 8192, 8193, 16384, 65535, 65536, 65537, 131072]);
        let l = if r.chance(1, 2) { l } else { r.log_range(3000, 300_000) };
        Case::text(kind, text_of(r, Dom::All, l))
    });
    let n = g.n(8, 60);
    g.many(n, |r| {
        let l = r.log_range(300_000, 2_000_000);
        Case::text(kind, text_of(r, Dom::All, l))
    });
    for _ in 0..g.size(1, 6) {
        g.case(|r| {
            let l = giant_length(r);
            Case::text(kind, text_of(r, Dom::All, l))
        });
    }
}
impl Check for C15 {
    fn boost(&self) -> usize {
        6
    }
    fn rule(&self) -> &'static str {
        "every single byte, permutations of all bytes, exhaustive small words, structured and random binary inputs up to megabytes via stdin, pipes in chunks and files; output compared with the list definition and decoded; non-trivial: at least two bytes"
    }
    fn generate(&self, g: &mut Gen) {
        filter_cases(g, "mtf", 2500);
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        note(obs, c);
        let t = &c.data[0];
        let h = c.hash();
        let build = if t.len() > 100_000 { Build::Release } else { build_for(h) };
        let out = filter(env, build, "mtf", &[], t, h)?;
        ensure!(out.len() == t.len(), "mtf wrote {} bytes for {} input bytes", out.len(), t.len());
        same("mtf output", &out, &model::mtf(t))?;
        same("decoded mtf output", &model::unmtf(&out), t)?;
        obs.add("outputs decoded", 1);
        for b in out.iter().take(2000) {
            obs.seen("list indices written", *b as u64);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C16
pub struct C16;
impl C16 {
    /// runs as a list of (byte, length), with splitting allowed only beyond 256
    fn judge_runs(&self, what: &str, got: &[(u8, usize)], t: &[u8], split: bool) -> Res {
        let mut dec = Vec::with_capacity(t.len());
        for &(b, n) in got {
            dec.resize(dec.len() + n, b);
            if dec.len() > t.len() + 100_000 {
                violated!("{}: expands to more than the input", what);
            }
        }
        same(&format!("{}: expansion", what), &dec, t)?;
        let mut p = 0;
        for (b, n) in model::run_list(t) {
            let mut k = 0;
            let mut sum = 0;
            while sum < n {
                let (c, l) = got[p];
                ensure!(c == b, "{}: pairs do not follow the runs", what);
                sum += l;
                p += 1;
                k += 1;
            }
            ensure!(sum == n, "{}: a pair crosses a run", what);
            ensure!(k == 1 || (split && n > 256), "{}: a run of {} times byte {} is written as {} pairs", what, n, b, k);
        }
        Ok(())
    }
}
impl Check for C16 {
    fn boost(&self) -> usize {
        6
    }
    fn rule(&self) -> &'static str {
        "binary inputs in all three modes: every byte, exhaustive words over {'0',x}, runs of lengths around 1, 127, 255..259, 511..513 at the beginning, middle and end, random and structured inputs, via stdin, pipes and files; each output parsed and expanded; non-trivial: at least two bytes"
    }
    fn generate(&self, g: &mut Gen) {
        let modes = ["rle", "human", "zero"];
        let exh = if g.thorough { 11 } else { 7 };
        for m in modes {
            g.exhaustive(2, 0, exh, |w| Case::text(m, w.iter().map(|&x| [b'0', b'q'][x as usize]).collect()));
            for b in 0..256usize {
                g.case(|_| Case::text(m, vec![b as u8]));
                g.case(|r| {
                    let k = r.range(1, 600);
                    let mut v = vec![b as u8; k];
                    v.push(r.byte());
                    Case::text(m, v)
                });
            }
        }
        // runs of telling lengths in telling places
        for n in (1..=6).chain(126..=130).chain(253..=260).chain(509..=516).chain(766..=771).chain([1024, 65535, 65536, 65537]) {
            for k in 0..9 {
                g.case(|r| {
                    let m = modes[k % 3];
                    let b = *r.pick(&[b'0', b'0', b'0', b'1', 0, 255, b'x']);
                    let o = *r.pick(&[b'0', b'/', b'1', 255]);
                    let mut v = match k / 3 {
                        0 => vec![],
                        _ => vec![o],
                    };
                    v.resize(v.len() + n, b);
                    if k / 3 != 1 {
                        v.push(o.wrapping_add(1));
                        if r.chance(1, 2) {
                            v.resize(v.len() + n, b);
                        }
                    }
                    Case::text(m, v)
                });
            }
        }
        let n = g.n(3500, 35_000);
        g.many(n, |r| {
            let mut t = text(r, Dom::All, 3000);
            if r.chance(1, 2) {
                // make a frequent byte the zero digit
                let b = t[r.below(t.len())];
                for x in t.iter_mut() {
                    if *x == b {
                        *x = b'0';
                    } else if *x == b'0' {
                        *x = b;
                    }
                }
            }
            Case::text(*r.pick(&modes), t)
        });
        let n = g.n(60, 600);
        g.many(n, |r| {
            let l = r.log_range(5000, 400_000);
            let sub = *r.pick(&[b'0', b'a', 0]);
            let mut t = text_of(r, Dom::All, l);
            if r.chance(1, 3) {
                let a = r.below(t.len());
                let k = r.below(t.len() - a);
                t[a..a + k].fill(sub);
            }
            Case::text(*r.pick(&modes), t)
        });
        for _ in 0..g.size(1, 4) {
            for m in modes {
                g.case(|r| {
                    let l = giant_length(r);
                    Case::text(m, text_of(r, Dom::All, l))
                });
            }
        }
        // long runs whose lengths have a round number of decimal or binary digits
        for m in modes {
            for n in [9usize, 99, 999, 9999, 32_767, 99_999, 131_071, 262_143, 524_287, 999_999, 1_048_575, 9_999_999, 16_777_215] {
                if n > 2_000_000 && m == "zero" && !g.thorough {
                    continue;
                }
                g.case(|r| {
                    let b = if m == "zero" { b'0' } else { r.byte() };
                    let mut v = Vec::with_capacity(n + 8);
                    if r.chance(1, 2) {
                        v.push(b.wrapping_add(1));
                    }
                    v.resize(v.len() + n + r.below(5), b);
                    if r.chance(1, 2) {
                        v.push(b.wrapping_add(7));
                    }
                    Case::text(m, v)
                });
            }
        }
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        note(obs, c);
        let t = &c.data[0];
        let h = c.hash();
        let long = model::run_list(t).iter().map(|r| r.1).max().unwrap_or(0);
        obs.max("run length", long as u64);
        let args: Vec<String> = match c.kind.as_str() {
            "human" => vec!["--human".into()],
            "zero" => vec![if h & 4 == 0 { "-z".into() } else { "--onlyzero".into() }],
            _ => vec![],
        };
        let out = filter(env, build_for(h), "rle", &args, t, h)?;
        match c.kind.as_str() {
            "rle" => {
                ensure!(out.len() % 2 == 0, "rle wrote an odd number of bytes");
                let got: Vec<(u8, usize)> = out.chunks(2).map(|p| (p[0], p[1] as usize + 1)).collect();
                self.judge_runs("rle", &got, t, true)
            }
            "human" => {
                let want: Vec<(char, usize)> = model::run_list(t).iter().map(|&(b, n)| (b as char, n)).collect();
                // parse "(c,n)" where c is one character, possibly a parenthesis or comma
                let s = match String::from_utf8(out) {
                    Ok(s) => s,
                    Err(_) => violated!("rle --human wrote bytes that are no text"),
                };
                let ch: Vec<char> = s.chars().collect();
                let mut p = 0;
                let mut got = Vec::new();
                while p < ch.len() {
                    let bad = || Fail::Violation(format!("rle --human: malformed pair at character {}", p));
                    if ch[p] != '(' || p + 2 >= ch.len() || ch[p + 2] != ',' {
                        return Err(bad());
                    }
                    let c = ch[p + 1];
                    let mut q = p + 3;
                    let mut d = String::new();
                    while q < ch.len() && ch[q].is_ascii_digit() {
                        d.push(ch[q]);
                        q += 1;
                    }
                    if q >= ch.len() || ch[q] != ')' {
                        return Err(bad());
                    }
                    got.push((c, d.parse::<usize>().map_err(|_| bad())?));
                    p = q + 1;
                }
                same_arr("rle --human", &got, &want)
            }
            _ => {
                let mut got = Vec::new();
                let mut p = 0;
                while p < out.len() {
                    if out[p] == b'0' {
                        ensure!(p + 1 < out.len(), "rle --onlyzero: a zero without a count at the end");
                        got.push((b'0', out[p + 1] as usize + 1));
                        p += 2;
                    } else {
                        got.push((out[p], 1));
                        p += 1;
                    }
                }
                // merge the verbatim bytes into runs, to judge only the zeros
                let mut merged: Vec<(u8, usize)> = Vec::new();
                for (b, n) in got {
                    match merged.last_mut() {
                        Some((c, k)) if *c == b && b != b'0' => *k += n,
                        _ => merged.push((b, n)),
                    }
                }
                self.judge_runs("rle --onlyzero", &merged, t, true)
            }
        }
    }
}

// ------------------------------------------------------------------ C17
pub struct C17;
impl Check for C17 {
    fn boost(&self) -> usize {
        8
    }
    fn rule(&self) -> &'static str {
        "all single bytes, texts using exactly 0..256 distinct bytes, structured and random binary inputs up to megabytes, via stdin, pipes and files; reverse compared byte by byte and applied twice, count_sigma against the set of bytes; non-trivial: at least two bytes"
    }
    fn generate(&self, g: &mut Gen) {
        filter_cases(g, "reverse", 1500);
        filter_cases(g, "sigma", 1200);
        // every number of distinct bytes
        for s in 0..=256usize {
            g.case(|r| {
                let mut all: Vec<u8> = (0..=255).collect();
                r.shuffle(&mut all);
                all.truncate(s);
                let mut v = all.clone();
                if s > 0 {
                    for _ in 0..r.below(2000) {
                        v.push(*r.pick(&all));
                    }
                    if r.chance(1, 2) {
                        r.shuffle(&mut v);
                    }
                }
                Case::text("sigma", v)
            });
        }
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        note(obs, c);
        let t = &c.data[0];
        let h = c.hash();
        match c.kind.as_str() {
            "reverse" => {
                let out = filter(env, build_for(h), "reverse", &[], t, h)?;
                let mut want = t.clone();
                want.reverse();
                same("reverse", &out, &want)?;
                if h % 3 == 0 {
                    let back = filter(env, build_for(h >> 1), "reverse", &[], &out, h.rotate_left(13))?;
                    same("reverse applied twice", &back, t)?;
                    obs.add("double reversals", 1);
                }
                Ok(())
            }
            _ => {
                let mut seen = [false; 256];
                for &b in t {
                    seen[b as usize] = true;
                }
                let want = seen.iter().filter(|x| **x).count() as u64;
                let mut tool = Tool::new(env, build_for(h), "count_sigma");
                let f;
                if h & 2 == 0 {
                    f = TempFile::with(env, "in", t)?;
                    tool = tool.arg("-i").arg(f.arg());
                } else {
                    tool = tool.input(t);
                }
                let out = tool.ok()?;
                let fs = result_fields(&out)?;
                let got = field_num(&fs, "sigma")?;
                ensure!(got == want, "count_sigma reports {} distinct bytes, there are {}", got, want);
                let l = field_num(&fs, "length")?;
                ensure!(l == t.len() as u64, "count_sigma reports length {}, the input has {}", l, t.len());
                obs.seen("alphabet sizes", want);
                Ok(())
            }
        }
    }
}

// ------------------------------------------------------------------ C28
pub struct C28;
impl Check for C28 {
    fn boost(&self) -> usize {
        2
    }
    fn rule(&self) -> &'static str {
        "arbitrary binary inputs through a real shell pipeline escape|bwt|mtf|rle with intermediate results captured; every stage inverted by independent decoders back to the original; run counts of count_r, count_runs and the decoded rle compared; non-trivial: at least two bytes"
    }
    fn generate(&self, g: &mut Gen) {
        g.exhaustive(4, 1, if g.thorough { 6 } else { 4 }, |w| {
            let mut c = Case::text("pipe", w.iter().map(|&x| [0u8, 254, 255, 5][x as usize]).collect());
            c.nums = vec![0, 254, 255];
            c
        });
        let n = g.n(1500, 15_000);
        g.many(n, |r| {
            let m = if r.chance(1, 12) { 60_000 } else { 2500 };
            let t = if r.chance(1, 3) { (0..length(r, m)).map(|_| r.byte()).collect() } else { text(r, Dom::All, m) };
            let mut c = Case::text("pipe", t);
            let (e, to) = loop {
                let a = r.range(1, 255) as i64;
                let b = r.range(1, 255) as i64;
                if a != b {
                    break if r.chance(1, 2) { (254, 255) } else { (a, b) };
                }
            };
            c.nums = vec![0, e, to];
            c
        });
        let n = g.n(6, 60);
        g.many(n, |r| {
            let l = r.log_range(100_000, 800_000);
            let mut c = Case::text("pipe", text_of(r, Dom::All, l));
            c.nums = vec![0, 254, 255];
            c
        });
        g.case(|r| {
            let l = r.range(2_000_000, 5_000_000);
            let mut c = Case::text("pipe", text_of(r, Dom::All, l));
            c.nums = vec![0, 254, 255];
            c
        });
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        note(obs, c);
        let t = &c.data[0];
        let (f, e, to) = (c.nums[0] as u8, c.nums[1] as u8, c.nums[2] as u8);
        let h = c.hash();
        let build = build_for(h);
        let dir = match &env.bins[build as usize] {
            Some(d) => d.display().to_string(),
            None => return Err(Fail::Inconclusive("no build".into())),
        };
        let esc = TempFile::none(env, "esc");
        let bwt = TempFile::none(env, "bwt");
        let mtf = TempFile::none(env, "mtf");
        let p = |x: &TempFile| x.path().display().to_string();
        let script = format!(
            "set -o pipefail; {d}/escape -f {f} -t {to} -e {e} | tee {esc} | {d}/bwt | tee {bwt} | {d}/mtf | tee {mtf} | {d}/rle",
            d = dir,
            f = f,
            to = to,
            e = e,
            esc = p(&esc),
            bwt = p(&bwt),
            mtf = p(&mtf)
        );
        let mut sh = Tool::new(env, build, "pipeline").arg("-c").arg(script).input(t);
        sh.exe = Some("/bin/bash".into());
        let rle = sh.ok()?;
        let (eb, bb, mb) = (esc.read()?, bwt.read()?, mtf.read()?);
        // backwards
        ensure!(rle.len() % 2 == 0, "rle output of odd length at the end of the pipeline");
        let mut m = Vec::new();
        for q in rle.chunks(2) {
            m.resize(m.len() + q[1] as usize + 1, q[0]);
        }
        same("expanded rle output", &m, &mb)?;
        let b = model::unmtf(&m);
        same("decoded mtf output", &b, &bb)?;
        let x = match model::unbwt(&b) {
            Some(x) => x,
            None => violated!("the BWT in the pipeline is not invertible"),
        };
        ensure!(x.last() == Some(&0), "the inverted BWT does not end in the terminator");
        same("inverted BWT", &x[..x.len() - 1], &eb)?;
        let y = match unescape_model(&eb, e, &[f], &[to]) {
            Some(y) => y,
            None => violated!("the escaped data cannot be reverted"),
        };
        same("data restored from the pipeline", &y, t)?;
        obs.add("inputs restored", 1);
        obs.max("pipeline output bytes", rle.len() as u64);
        // run counts
        let out = Tool::new(env, build_for(h >> 5), "count_r").input(&eb).ok()?;
        let r = field_num(&result_fields(&out)?, "bwt_runs")?;
        let out = Tool::new(env, build_for(h >> 6), "count_runs").input(&bb).ok()?;
        let s = String::from_utf8_lossy(&out).trim().parse::<u64>().map_err(|_| Fail::Violation("count_runs prints no number".into()))?;
        ensure!(r == s, "count_r of the escaped data reports {} runs, count_runs of its BWT {}", r, s);
        ensure!(s == model::runs(&bb) as u64, "count_runs reports {} runs, there are {}", s, model::runs(&bb));
        Ok(())
    }
}
