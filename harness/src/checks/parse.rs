//! Factorizations and substring statistics computed by the tools.
use super::Check;
use crate::case::*;
use crate::cli::*;
use crate::gen::*;
use crate::{ensure, model, violated, Obs};

/// parses "(a,b)(c,d)..." exactly
pub fn pairs(what: &str, b: &[u8]) -> Res<Vec<(u64, u64)>> {
    let mut v = Vec::new();
    let mut p = 0;
    let bad = |p: usize| Fail::Violation(format!("{}: malformed pair list at offset {}: \"{}\"", what, p, b[p.min(b.len())..(p + 30).min(b.len())].escape_ascii()));
    let num = |p: &mut usize| -> Option<u64> {
        let s = *p;
        while *p < b.len() && b[*p].is_ascii_digit() {
            *p += 1;
        }
        std::str::from_utf8(&b[s..*p]).ok()?.parse().ok()
    };
    while p < b.len() {
        if b[p] != b'(' {
            return Err(bad(p));
        }
        p += 1;
        let x = num(&mut p).ok_or_else(|| bad(p))?;
        if b.get(p) != Some(&b',') {
            return Err(bad(p));
        }
        p += 1;
        let y = num(&mut p).ok_or_else(|| bad(p))?;
        if b.get(p) != Some(&b')') {
            return Err(bad(p));
        }
        p += 1;
        v.push((x, y));
    }
    Ok(v)
}

fn base(env: &Env, c: &Case, obs: &mut Obs) {
    let _ = env;
    obs.add(&format!("cases {}", c.kind), 1);
    obs.max("text length", c.data[0].len() as u64);
    obs.add("text bytes", c.data[0].len() as u64);
    obs.trivial = c.data[0].len() < 2;
}

fn parse_cases(g: &mut Gen, zero_free: bool) {
    let dom = if zero_free { Dom::ZeroFree } else { Dom::All };
    let t = g.thorough;
    g.exhaustive(2, 1, if t { 11 } else { 9 }, |w| Case::text("small", spread(w, dom)));
    g.exhaustive(3, 1, if t { 7 } else { 6 }, |w| Case::text("small", spread(w, dom)));
    g.exhaustive(4, 1, if t { 6 } else { 4 }, |w| Case::text("small", spread(w, dom)));
    let n = g.n(5000, 60000);
    g.many(n, |r| Case::text("mid", text(r, dom, 1200)));
    let n = g.n(300, 4000);
    g.many(n, |r| Case::text("large", text(r, dom, 40_000)));
    let n = g.n(16, 120);
    g.many(n, |r| {
        let l = r.log_range(60_000, 300_000);
        Case::text("large", text_of(r, dom, l))
    });
    let n = g.size(4, 24);
    g.many(n, |r| {
        let l = huge_length(r);
        Case::text("large", text_of(r, dom, l))
    });
    // extremes of more than 2^20 letters: hardly anything repeats, hardly anything does not
    for k in 0..4usize {
        g.case(|r| {
            let l = r.range((1 << 20) + 10, 1_300_000);
            Case::text("large", extreme(r, dom, l, k))
        });
    }
    let n = g.n(3, 20);
    g.many(n, |r| {
        let base = r.range(66_000, 160_000);
        let total = base + r.range(60_000, 140_000);
        Case::text("far", far_copies(r, dom, base, total))
    });
    let n = g.n(40, 400);
    g.many(n, |r| {
        let base = r.log_range(100, 8000);
        Case::text("far", far_copies(r, dom, base, 3 * base))
    });
}

// ------------------------------------------------------------------ C09
pub struct C09;
impl Check for C09 {
    fn boost(&self) -> usize {
        3
    }
    fn rule(&self) -> &'static str {
        "texts over all byte values with and without terminator, exhaustive over small alphabets, highly repetitive, run-structured and long; factor counts and factor files of count_z judged against a suffix-automaton reference and decoded; non-trivial: at least two characters"
    }
    fn generate(&self, g: &mut Gen) {
        parse_cases(g, false);
        let n = g.n(600, 6000);
        g.many(n, |r| {
            let mut t = text(r, Dom::ZeroFree, 800);
            t.push(0);
            Case::text("mid", t)
        });
        // long distances and long factors: a block repeated far behind
        let n = g.n(12, 80);
        g.many(n, |r| {
            let l = r.range(60_000, 75_000);
            let a = text_of(r, Dom::All, l);
            let mut t = a.clone();
            if r.chance(1, 2) {
                let m = r.range(1, 70_000);
                t.extend((0..m).map(|_| 1u8));
            }
            t.extend_from_slice(&a);
            Case::text("large", t)
        });
        // factors and distances beyond 24 bits
        let n = g.size(1, 6);
        g.many(n, |r| {
            let letter = r.byte();
            let keep = |t: Vec<u8>| -> Vec<u8> { t.into_iter().filter(|&c| c != letter).collect() };
            let l = r.log_range(10, 60_000);
            let x = keep(text_of(r, Dom::All, l));
            let mut y = Vec::new();
            for _ in 0..r.range(1, 30) {
                if r.chance(1, 2) && !x.is_empty() {
                    let s = r.below(x.len());
                    let e = r.range(s, x.len());
                    y.extend_from_slice(&x[s..e]);
                } else {
                    y.extend(keep(text(r, Dom::All, 300)));
                }
            }
            Case::new("giant", &[giant_length(r) as i64, letter as i64], &[&x, &y])
        });
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        base(env, c, obs);
        let giant = c.kind == "giant";
        let h = c.hash();
        let (want, inflated);
        let t = if giant {
            // a run of a letter of its own between two texts: one factor for the letter, one for the rest of
            // the run, and those of the text in which the run is a single letter
            let (n, letter) = (c.nums[0] as usize, c.nums[1] as u8);
            let x = &c.data[0];
            let mut small = x.clone();
            small.push(letter);
            small.extend_from_slice(&c.data[1]);
            let mut w = model::lz77(&small);
            let mut p = 0;
            let k = w.iter().position(|l| {
                p += (*l).max(1);
                p == x.len() + 1
            });
            let Some(k) = k else { return Err(Fail::Inconclusive("the reference has no factor for the letter".into())) };
            w.insert(k + 1, n - 1);
            let mut t = x.clone();
            t.resize(x.len() + n, letter);
            t.extend_from_slice(&c.data[1]);
            obs.max("text length", t.len() as u64);
            (want, inflated) = (w, t);
            &inflated
        } else {
            if c.data[0].is_empty() {
                return Ok(());
            }
            want = model::lz77(&c.data[0]);
            &c.data[0]
        };
        // the checked build verifies its range minima linearly: long texts go to the release build
        let build = if t.len() > 3000 { Build::Release } else { build_for(h) };
        let with_file = giant || h & 12 != 0;
        let of = TempFile::none(env, "lz");
        let mut tool = Tool::new(env, build, "count_z").input(t);
        if with_file {
            tool = tool.arg("-o").arg(of.arg());
        }
        let out = tool.ok()?;
        let f = result_fields(&out)?;
        let z = field_num(&f, "factors")?;
        ensure!(z == want.len() as u64, "count_z reports {} factors, the greedy factorization has {}", z, want.len());
        obs.max("factors", z);
        if with_file {
            let fs = pairs("count_z factor file", &of.read()?)?;
            ensure!(fs.len() as u64 == z, "count_z wrote {} factors and reports {}", fs.len(), z);
            let mut dec: Vec<u8> = Vec::with_capacity(t.len());
            for (k, &(x, l)) in fs.iter().enumerate() {
                let l = l as usize;
                ensure!(l == want[k], "factor {} at text position {} has length {}, the greedy one has {}", k, dec.len(), l, want[k]);
                if l == 0 {
                    ensure!(x < 256, "factor {} carries the character code {}", k, x);
                    dec.push(x as u8);
                } else {
                    let d = x as usize;
                    ensure!(d >= 1 && d <= dec.len(), "factor {} refers {} back at text position {}", k, d, dec.len());
                    let s = dec.len() - d;
                    for p in 0..l {
                        let ch = dec[s + p];
                        dec.push(ch);
                    }
                }
                obs.max("factor length", l as u64);
            }
            same("decoded LZ77 factors", &dec, t)?;
            obs.add("factor files decoded", 1);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C10
pub struct C10;
impl Check for C10 {
    fn boost(&self) -> usize {
        4
    }
    fn rule(&self) -> &'static str {
        "texts over all byte values with and without terminator, exhaustive over small alphabets, unary, repetitive and long; counts and factor files of count_lexparse against a reference lexparse, and restored from the file alone; non-trivial: at least two characters"
    }
    fn generate(&self, g: &mut Gen) {
        // sources beyond 24 bits; random letters keep the reference fast
        let n = g.size(1, 6);
        g.many(n, |r| {
            let sigma = r.range(4, 256);
            let l = giant_length(r);
            Case::text("giant", random_word(r, l, sigma))
        });
        parse_cases(g, false);
        let n = g.n(600, 6000);
        g.many(n, |r| {
            let mut t = text(r, Dom::ZeroFree, 800);
            t.push(0);
            Case::text("mid", t)
        });
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        base(env, c, obs);
        let t = &c.data[0];
        if t.is_empty() {
            return Ok(());
        }
        let h = c.hash();
        let want = model::lexparse(t);
        let giant = c.kind == "giant";
        let with_file = giant || h & 12 != 0;
        let of = TempFile::none(env, "lex");
        let build = if giant { Build::Release } else { build_for(h) };
        let mut tool = Tool::new(env, build, "count_lexparse").input(t);
        if with_file {
            tool = tool.arg("-o").arg(of.arg());
        }
        let out = tool.ok()?;
        let f = result_fields(&out)?;
        let z = field_num(&f, "factors")?;
        ensure!(z == want.len() as u64, "count_lexparse reports {} phrases, expected {}", z, want.len());
        obs.max("phrases", z);
        if with_file {
            let fs = pairs("count_lexparse factor file", &of.read()?)?;
            let got: Vec<(usize, usize)> = fs.iter().map(|&(a, b)| (a as usize, b as usize)).collect();
            // restore the text from the file alone
            let n: usize = got.iter().map(|f| f.1.max(1)).sum();
            ensure!(n == t.len(), "the phrases cover {} of {} characters", n, t.len());
            let mut src: Vec<Result<u8, usize>> = Vec::with_capacity(n);
            for &(a, l) in &got {
                if l == 0 {
                    ensure!(a < 256, "explicit character code {}", a);
                    src.push(Ok(a as u8));
                } else {
                    for k in 0..l {
                        ensure!(a + k < n, "phrase refers beyond the text");
                        src.push(Err(a + k));
                    }
                }
            }
            let mut val: Vec<Option<u8>> = vec![None; n];
            for i in 0..n {
                let mut path = Vec::new();
                let mut p = i;
                let ch = loop {
                    if let Some(v) = val[p] {
                        break v;
                    }
                    match src[p] {
                        Ok(v) => {
                            val[p] = Some(v);
                            break v;
                        }
                        Err(q) => {
                            path.push(p);
                            if path.len() > n {
                                violated!("the phrases refer to each other in a cycle (text position {}): not decodable", i);
                            }
                            p = q;
                        }
                    }
                };
                for q in path {
                    val[q] = Some(ch);
                }
            }
            let dec: Vec<u8> = val.into_iter().map(|v| v.unwrap()).collect();
            same("decoded lexparse", &dec, t)?;
            same_arr("lexparse phrases", &got, &want)?;
            obs.add("factor files decoded", 1);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C11
pub struct C11;
pub fn parse_mus(f: &[(String, String)]) -> Res<Vec<(usize, usize)>> {
    let v = field(f, "mus")?;
    let inner = v.strip_prefix('[').and_then(|x| x.strip_suffix(']')).ok_or_else(|| Fail::Violation(format!("mus list malformed: {:.80}", v)))?;
    let mut out = Vec::new();
    let s: String = inner.chars().filter(|c| !c.is_whitespace()).collect();
    if s.is_empty() {
        return Ok(out);
    }
    for part in s.split("),") {
        let p = part.trim_start_matches('(').trim_end_matches(')');
        let (a, b) = p.split_once(',').ok_or_else(|| Fail::Violation(format!("mus list malformed near {:?}", part)))?;
        match (a.parse(), b.parse()) {
            (Ok(a), Ok(b)) => out.push((a, b)),
            _ => violated!("mus list malformed near {:?}", part),
        }
    }
    Ok(out)
}
impl Check for C11 {
    fn boost(&self) -> usize {
        4
    }
    fn rule(&self) -> &'static str {
        "zero-free texts, with and without a terminating zero byte, exhaustive over small alphabets (judged by counting every substring), larger ones by a suffix-array reference; non-trivial: at least two characters"
    }
    fn generate(&self, g: &mut Gen) {
        g.case(|_| Case::text("small", vec![]));
        g.case(|_| Case::text("small", vec![0]));
        parse_cases(g, true);
        let n = g.n(1500, 15000);
        g.many(n, |r| {
            let mut t = text(r, Dom::ZeroFree, 800);
            t.push(0);
            Case::text("mid", t)
        });
        g.exhaustive(3, 1, 5, |w| {
            let mut t = spread(w, Dom::ZeroFree);
            t.push(0);
            Case::text("small", t)
        });
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        base(env, c, obs);
        let t = &c.data[0];
        let body = if t.last() == Some(&0) { &t[..t.len() - 1] } else { &t[..] };
        if body.contains(&0) {
            return Ok(());
        }
        let want = if body.len() <= 14 { model::mus_naive(body) } else { model::mus(body) };
        let out = Tool::new(env, build_for(c.hash()), "mus").input(t).ok()?;
        let f = result_fields(&out)?;
        let got = parse_mus(&f)?;
        same_arr("minimal unique substrings", &got, &want)?;
        obs.add("MUSs listed", got.len() as u64);
        obs.max("MUSs in one text", got.len() as u64);
        obs.max("MUS length", got.iter().map(|x| x.1).max().unwrap_or(0) as u64);
        if got.iter().any(|x| x.0 + x.1 == body.len()) {
            obs.add("texts with a MUS touching the end", 1);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C12
pub struct C12;
impl Check for C12 {
    fn boost(&self) -> usize {
        3
    }
    fn rule(&self) -> &'static str {
        "zero-free texts (exhaustive small, random, repetitive, long) and orders from 0 beyond the text length; both tools against the definition; nums = [order, tool]; non-trivial: at least two characters"
    }
    fn generate(&self, g: &mut Gen) {
        let t = g.thorough;
        for k in 0..=3i64 {
            g.exhaustive(2, 0, if t { 9 } else { 6 }, |w| {
                let mut c = Case::text("e", spread(w, Dom::ZeroFree));
                c.nums = vec![k, 2];
                c
            });
        }
        for k in 4..=9i64 {
            g.exhaustive(2, 0, 4, |w| {
                let mut c = Case::text("e", spread(w, Dom::ZeroFree));
                c.nums = vec![k, 2];
                c
            });
        }
        let n = g.n(5000, 60000);
        g.many(n, |r| {
            let m = match r.below(12) {
                0 => 30_000,
                1..=3 => 3000,
                _ => 300,
            };
            let mut c = Case::text("e", text(r, Dom::ZeroFree, m));
            let k = match r.below(10) {
                0 => r.range(8, 40),
                1 => c.data[0].len().saturating_sub(2) + r.below(5),
                _ => r.range(0, 7),
            };
            c.nums = vec![k as i64, 2];
            c
        });
        let n = g.n(16, 120);
        g.many(n, |r| {
            let l = r.log_range(60_000, 400_000);
            let mut c = Case::text("e", text_of(r, Dom::ZeroFree, l));
            c.nums = vec![r.range(0, 7) as i64, 2];
            c
        });
        let n = g.size(4, 24);
        g.many(n, |r| {
            let l = huge_length(r);
            let mut c = Case::text("e", text_of(r, Dom::ZeroFree, l));
            c.nums = vec![r.range(0, 7) as i64, 2];
            c
        });
        for k in [0, 2] {
            g.case(|r| {
                let l = giant_length(r);
                let mut c = Case::text("e", text_of(r, Dom::ZeroFree, l));
                c.nums = vec![k, 2];
                c
            });
        }
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        base(env, c, obs);
        let t = &c.data[0];
        if t.contains(&0) {
            return Ok(());
        }
        let k = c.nums[0].max(0) as usize;
        let mut full = t.clone();
        full.push(0);
        let want = model::entropy(&full, k);
        let h = c.hash();
        let mut tools = vec!["entropy"];
        if (1..=7).contains(&k) {
            tools.push("entropy_kmer");
        }
        for tool in tools {
            let out = Tool::new(env, build_for(h), tool).arg("-o").arg(k.to_string()).input(t).ok()?;
            let f = result_fields(&out)?;
            let v = field(&f, "entropy")?;
            let x: f64 = v.parse().map_err(|_| Fail::Violation(format!("{}: entropy={} is not a number", tool, v)))?;
            ensure!(x.is_finite(), "{} -o {}: entropy={}", tool, k, v);
            // two summations of up to n terms of size n log n, divided by n
            let tol = 1e-9 + 1e-10 * want;
            ensure!((x - want).abs() <= tol, "{} -o {}: entropy {} instead of {}", tool, k, x, want);
            let o = field_num(&f, "order")?;
            ensure!(o as usize == k, "{} -o {} reports order {}", tool, k, o);
            obs.add(&format!("{} values", tool), 1);
        }
        if want > 0.0 {
            obs.add("positive entropies", 1);
        }
        obs.seen("orders", k as u64);
        obs.seen("entropy values", want.to_bits());
        Ok(())
    }
}

// ------------------------------------------------------------------ C13
pub struct C13;
impl C13 {
    fn case(t: Vec<u8>, set: &[usize]) -> Case {
        let mut c = Case::text("a", t);
        c.nums = set.iter().map(|&x| x as i64).collect();
        c
    }
}
impl Check for C13 {
    fn boost(&self) -> usize {
        6
    }
    fn rule(&self) -> &'static str {
        "zero-free texts and position sets: every subset for all small texts, plus random sets, minimal sets found by greedy removal, minimal sets with one position dropped or moved, and sets that leave exactly the occurrences of one substring alone, or touch it once; non-trivial: at least two characters"
    }
    fn generate(&self, g: &mut Gen) {
        let t = g.thorough;
        for len in 1..=(if t { 7usize } else { 5 }) {
            for mask in 0u32..1 << len {
                let set: Vec<usize> = (0..len).filter(|i| mask >> i & 1 == 1).collect();
                g.exhaustive(2, len, len, |w| C13::case(spread(w, Dom::ZeroFree), &set));
            }
        }
        for len in 1..=(if t { 5usize } else { 4 }) {
            for mask in 0u32..1 << len {
                let set: Vec<usize> = (0..len).filter(|i| mask >> i & 1 == 1).collect();
                g.exhaustive(3, len, len, |w| C13::case(spread(w, Dom::ZeroFree), &set));
            }
        }
        let n = g.n(4500, 60000);
        g.many(n, |r| {
            let m = if r.chance(1, 10) { 2500 } else { 120 };
            let t = if r.chance(1, 12) {
                let base = r.range(60, m.max(400) / 3);
                far_copies(r, Dom::ZeroFree, base, 3 * base)
            } else {
                text(r, Dom::ZeroFree, m)
            };
            let n = t.len();
            let mut set: Vec<usize> = match r.below(6) {
                0 => (0..r.below(n.min(12) + 1)).map(|_| r.below(n)).collect(),
                1 => (0..n).filter(|i| i % 2 == 0).collect(),
                _ => {
                    // greedily thin out the full set to a minimal attractor (short texts) or a random valid one
                    let mut s: Vec<usize> = (0..n).collect();
                    let mut order = s.clone();
                    r.shuffle(&mut order);
                    let budget = if n <= 60 { n } else { 40 };
                    if n > 60 {
                        // start from a coarse set: factor ends of LZ77 form an attractor
                        let mut p = 0;
                        s = model::lz77(&t)
                            .iter()
                            .map(|&l| {
                                p += l.max(1);
                                p - 1
                            })
                            .collect();
                        order = s.clone();
                        r.shuffle(&mut order);
                    }
                    for &x in order.iter().take(budget) {
                        let c: Vec<usize> = s.iter().copied().filter(|&y| y != x).collect();
                        if model::uncovered(&t, &c).is_empty() {
                            s = c;
                        }
                    }
                    match r.below(4) {
                        0 if !s.is_empty() => {
                            let k = r.below(s.len());
                            s.remove(k);
                        }
                        1 if !s.is_empty() => {
                            let k = r.below(s.len());
                            s[k] = if r.chance(1, 2) { (s[k] + 1).min(n - 1) } else { s[k].saturating_sub(1) };
                        }
                        _ => {}
                    }
                    s
                }
            };
            match r.below(4) {
                0 => r.shuffle(&mut set),
                1 => set.reverse(),
                2 if !set.is_empty() => {
                    let x = set[0];
                    set.push(x);
                }
                _ => {}
            }
            C13::case(t, &set)
        });
        // sets that leave (all occurrences of) one substring alone, and the next larger sets
        let n = g.n(700, 9000);
        g.many(n, |r| {
            let m = if r.chance(1, 3) { 2500 } else { 200 };
            let t = text(r, Dom::ZeroFree, m);
            let n = t.len();
            let i = if r.chance(1, 3) { 0 } else { r.below(n) };
            let l = match r.below(3) {
                0 => r.range(1, n - i),
                1 => r.log_range(1, n - i),
                _ => (n / 3).clamp(1, n - i),
            };
            let w = &t[i..i + l];
            let mut free = vec![false; n];
            for p in 0..=n - l {
                if &t[p..p + l] == w {
                    free[p..p + l].iter_mut().for_each(|f| *f = true);
                }
            }
            let mut set: Vec<usize> = (0..n).filter(|&p| !free[p]).collect();
            for _ in 0..*r.pick(&[0, 0, 1, 1, 2]) {
                set.push(if r.chance(1, 2) { i + r.below(l) } else { *r.pick(&[i, i + l - 1]) });
            }
            if set.is_empty() {
                set.push(r.below(n));
            }
            C13::case(t, &set)
        });
        // one single substring of a telling length is left alone: what it consists of occurs elsewhere
        let n = g.n(40, 600);
        g.many(n, |r| {
            let l = telling_lengths(r, 4000)[0].max(2);
            let sigma = r.range(2, 60);
            let w: Vec<u8> = random_word(r, l, sigma).into_iter().map(|c| c + b'A').collect();
            let parts: [&[u8]; 3] = [&w[..l - 1], &w[1..], &w];
            let mut order = [0, 1, 2];
            r.shuffle(&mut order);
            let (mut t, mut set) = (Vec::new(), Vec::new());
            for k in order {
                t.push(b'0' + k as u8);
                set.push(t.len() - 1);
                if k < 2 {
                    set.extend(t.len()..t.len() + l - 1);
                } else if r.chance(1, 4) {
                    set.push(t.len() + r.below(l));
                }
                t.extend_from_slice(parts[k]);
            }
            C13::case(t, &set)
        });
        let n = g.n(10, 60);
        g.many(n, |r| {
            let (big, sigma) = (r.chance(1, 2), r.range(1, 4));
            let l = if big { r.range(65_500, 140_000) } else { r.log_range(5000, 60_000) };
            let mut t: Vec<u8> = symbols(r, l, sigma).iter().map(|x| x + b'a').collect();
            if big && model::lz77(&t).len() > 3000 {
                // a repetitive text with the same beginning
                t.truncate(2000);
                while t.len() < l {
                    let (i, k) = (r.below(t.len()), r.log_range(20, 4000));
                    for p in i..i + k {
                        t.push(t[p]);
                    }
                    t.push(b'a' + r.below(sigma) as u8);
                }
            }
            let mut p = 0;
            let mut s = Vec::new();
            for f in model::lz77(&t) {
                p += f.max(1);
                s.push(p - 1);
                // an argument list has its limits, and the list of uncovered substrings of a long text has none
                if s.len() == 3000 {
                    break;
                }
            }
            t.truncate(p);
            C13::case(t, &s)
        });
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        base(env, c, obs);
        let t = &c.data[0];
        if t.is_empty() || t.contains(&0) || c.nums.iter().any(|&x| x < 0 || x as usize >= t.len()) {
            obs.trivial = true;
            return Ok(());
        }
        let set: Vec<usize> = c.nums.iter().map(|&x| x as usize).collect();
        let un = model::uncovered(t, &set);
        if t.len() <= 12 {
            // the reference itself against the definition
            let mut any = false;
            for i in 0..t.len() {
                for j in i + 1..=t.len() {
                    let w = &t[i..j];
                    any |= !(0..=t.len() - w.len()).any(|p| &t[p..p + w.len()] == w && set.iter().any(|&a| a >= p && a < p + w.len()));
                }
            }
            if any == un.is_empty() {
                return Err(Fail::Inconclusive("reference attractor test is wrong".into()));
            }
        }
        let mut tool = Tool::new(env, build_for(c.hash()), "is_stringattractor").input(t);
        if !set.is_empty() {
            tool = tool.arg("-a").args(set.iter().map(|x| x.to_string()));
        }
        let o = tool.run()?;
        let text = String::from_utf8_lossy(&o.out).to_string();
        let last = text.lines().last().unwrap_or("");
        if un.is_empty() {
            obs.add("valid attractors", 1);
            ensure!(o.code == Some(0) && last == "valid attractor", "the set is an attractor but the tool says {:?} ({})", last, o.status());
            ensure!(!text.contains("not covered"), "valid attractor with an uncovered substring reported");
        } else {
            obs.add("invalid sets", 1);
            ensure!(
                o.code == Some(2) && last == "not a valid attractor",
                "{} substring classes are uncovered, e.g. \"{}\", but the tool says {:?} ({})",
                un.len(),
                t[un[0].0 + 1 - un[0].1..=un[0].0].escape_ascii(),
                last,
                o.status()
            );
            // witnesses
            let plain = t.iter().all(|b| b.is_ascii_alphanumeric() || (*b > 32 && *b < 127 && *b != b'\''));
            let mut seen = 0;
            for l in text.lines() {
                if let Some(w) = l.strip_prefix("substring '").and_then(|x| x.strip_suffix("' not covered!")) {
                    seen += 1;
                    if plain {
                        let w = w.as_bytes();
                        if w == b"\0" {
                            // the terminator that the tool appends is indeed never covered
                            seen -= 1;
                            continue;
                        }
                        if w.is_empty() || w.len() > t.len() {
                            violated!("reported uncovered substring {:?} is not a substring of the text", String::from_utf8_lossy(w));
                        }
                        let mut occ = 0;
                        for p in 0..=t.len() - w.len() {
                            if &t[p..p + w.len()] == w {
                                occ += 1;
                                if set.iter().any(|&a| a >= p && a < p + w.len()) {
                                    violated!(
                                        "reported uncovered substring {:?} is covered by its occurrence at {}",
                                        String::from_utf8_lossy(w),
                                        p
                                    );
                                }
                            }
                        }
                        ensure!(occ > 0, "reported uncovered substring {:?} does not occur", String::from_utf8_lossy(w));
                        obs.add("witnesses checked", 1);
                        if seen > 200 {
                            break;
                        }
                    }
                }
            }
            ensure!(seen > 0 || !plain, "negative verdict without any uncovered substring");
            ensure!(text.contains("not covered!"), "negative verdict without any uncovered substring");
        }
        Ok(())
    }
}
