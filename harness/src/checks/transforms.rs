//! BWT family and Lyndon factorizations.
use super::{judge, Check};
use crate::case::*;
use crate::cli::*;
use crate::gen::*;
use crate::{ensure, model, types, violated, Obs};
use stringology::core;

fn with_dollar(t: &[u8]) -> Vec<u8> {
    let mut v = t.to_vec();
    v.push(0);
    v
}

fn note_text(obs: &mut Obs, t: &[u8]) {
    obs.max("text length", t.len() as u64);
    obs.add("text bytes", t.len() as u64);
    if t.len() < 2 {
        obs.trivial = true;
    }
}

/// A rotation of the input channel: mostly stdin, sometimes a file.
fn feed<'a>(env: &Env, t: Tool<'a>, text: &'a [u8], h: u64, keep: &mut Vec<TempFile>) -> Res<Tool<'a>> {
    if (h >> 8) % 4 == 0 {
        let f = TempFile::with(env, "in", text)?;
        let t = t.arg("-i").arg(f.arg());
        keep.push(f);
        Ok(t)
    } else {
        Ok(t.input(text))
    }
}

/// the same over other symbol types
enum What<'a> {
    Matrix,
    Duval,
    Bijective(&'a [u8]),
}
struct Symbols<'a> {
    what: What<'a>,
    t: &'a [u8],
}
impl types::Visit for Symbols<'_> {
    fn go<T: Ord + Copy + std::fmt::Debug>(&mut self, ty: &str, w: &[T], f: &dyn Fn(u8) -> T) -> Res {
        let mapped = |b: &[u8]| b.iter().map(|&x| f(x)).collect::<Vec<T>>();
        match self.what {
            What::Matrix => {
                let b = call("bwt_by_matrix_naive", || core::bwt_by_matrix_naive(w))?;
                same_arr(&format!("bwt_by_matrix_naive over {}", ty), &b, &mapped(&model::matrix_bwt(self.t)))?;
                let p = call("lyndon_conjugate", || core::lyndon_conjugate(w))?;
                ensure!(p < w.len(), "lyndon_conjugate over {} is {} for {} symbols", ty, p, w.len());
                let best = model::rotate(self.t, p);
                ensure!((0..w.len()).all(|k| best <= model::rotate(self.t, k)), "lyndon_conjugate over {} is {}, which is not the smallest rotation", ty, p);
                Ok(())
            }
            What::Duval => {
                let e = call("duval", || core::duval(w))?;
                judge(&format!("duval over {}", ty), model::check_lyndon_factorization(self.t, &e))
            }
            What::Bijective(want) => {
                let b = call("bbwt_naive", || core::bbwt_naive(w))?;
                same_arr(&format!("bijective BWT over {}", ty), &b, &mapped(want))
            }
        }
    }
}

// ------------------------------------------------------------------ C01
pub struct C01;
impl Check for C01 {
    fn boost(&self) -> usize {
        4
    }
    fn rule(&self) -> &'static str {
        "texts: all over 2-4 letters up to a length bound, plus random, periodic, morphic, repetitive, run-structured and boundary-length texts over many byte alphabets; a case is non-trivial if its text has at least two characters; kinds: lib (library on terminated text), bare (library without terminator), cli (bwt tool), reject (inner zero byte)"
    }
    fn generate(&self, g: &mut Gen) {
        let t = g.thorough;
        g.exhaustive(2, 1, if t { 14 } else { 11 }, |w| Case::text("lib", spread(w, Dom::ZeroFree)));
        g.exhaustive(3, 1, if t { 9 } else { 7 }, |w| Case::text("lib", spread(w, Dom::ZeroFree)));
        g.exhaustive(4, 1, if t { 7 } else { 5 }, |w| Case::text("bare", spread(w, Dom::ZeroFree)));
        g.exhaustive(2, 0, if t { 9 } else { 7 }, |w| Case::text("cli", spread(w, Dom::ZeroFree)));
        let n = g.n(2500, 30000);
        g.many(n, |r| Case::text("lib", text(r, Dom::ZeroFree, 3000)));
        g.many(n / 2, |r| Case::text("bare", text(r, Dom::ZeroFree, 3000)));
        let n = g.n(3000, 30000);
        g.many(n, |r| {
            let k = *r.pick(&["cli", "cli", "cli-bare"]);
            let m = if r.chance(1, 10) { 70000 } else { 2000 };
            Case::text(k, text(r, Dom::ZeroFree, m))
        });
        let n = g.n(600, 6000);
        g.many(n, |r| {
            let mut t = text(r, Dom::ZeroFree, 600);
            let p = r.below(t.len());
            // one or more zeros, the last of them not at the very end of the terminated text
            t[p] = 0;
            let k = *r.pick(&["reject-cli", "reject-cli", "reject-lib", "reject-bare"]);
            if k == "reject-bare" || k == "reject-lib" {
                let l = t.len();
                if p == l - 1 {
                    t.push(b'x');
                }
            }
            Case::text(k, t)
        });
        // a zero byte at the very end of an unterminated text is the terminator
        let n = g.n(100, 1000);
        g.many(n, |r| Case::text("cli-bare", with_dollar(&text(r, Dom::ZeroFree, 400))));
        let n = g.n(24, 160);
        g.many(n, |r| {
            let k = *r.pick(&["lib", "cli", "cli-bare"]);
            let l = r.log_range(60_000, 1_200_000);
            Case::text(k, text_of(r, Dom::ZeroFree, l))
        });
        let n = g.size(6, 40);
        g.many(n, |r| {
            let l = huge_length(r);
            Case::text(*r.pick(&["lib", "cli", "cli-bare"]), text_of(r, Dom::ZeroFree, l))
        });
        for _ in 0..g.size(1, 4) {
            g.case(|r| {
                let l = giant_length(r);
                Case::text("giant", text_of(r, Dom::ZeroFree, l))
            });
        }
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        let t = &c.data[0];
        note_text(obs, t);
        obs.add(&format!("cases {}", c.kind), 1);
        let h = c.hash();
        let mut keep = Vec::new();
        match c.kind.as_str() {
            "lib" | "bare" => {
                let full = if c.kind == "lib" { with_dollar(t) } else { t.clone() };
                let got = call("bwt_from_text_by_sa", || core::bwt_from_text_by_sa(&full))?;
                self.judge(&full, &got, obs)
            }
            "giant" => {
                // too long for the reference; a string whose letters can be followed back to the text in
                // one cycle is its transform
                if t.contains(&0) {
                    obs.trivial = true;
                    return Ok(());
                }
                let got = feed(env, Tool::new(env, Build::Release, "bwt"), t, h, &mut keep)?.ok()?;
                let full = with_dollar(t);
                ensure!(got.len() == full.len(), "the BWT of {} bytes has {} bytes", full.len(), got.len());
                match model::unbwt(&got) {
                    Some(back) => same("inverted BWT", &back, &full)?,
                    None => violated!("the BWT of a terminated text cannot be inverted"),
                }
                obs.add("inversions checked", 1);
                Ok(())
            }
            "cli" | "cli-bare" => {
                let bare = c.kind == "cli-bare";
                let full = if bare { t.clone() } else { with_dollar(t) };
                if full.is_empty() || full[..full.len() - 1].contains(&0) {
                    obs.trivial = true; // outside the domain (after shrinking)
                    return Ok(());
                }
                let mut tool = Tool::new(env, build_for(h), "bwt");
                if bare {
                    tool = tool.arg(if h & 2 == 0 { "-n" } else { "--no-dollar" });
                }
                let got = feed(env, tool, t, h, &mut keep)?.ok()?;
                self.judge(&full, &got, obs)
            }
            "reject-cli" => {
                if !t.contains(&0) {
                    return Ok(());
                }
                let tool = Tool::new(env, build_for(h), "bwt");
                let o = feed(env, tool, t, h, &mut keep)?.run()?;
                obs.add("rejections", o.refused() as u64);
                ensure!(o.refused(), "bwt accepted a text with an inner zero byte: {}", o.status());
                ensure!(o.out.is_empty(), "bwt rejected its input but wrote {} bytes", o.out.len());
                Ok(())
            }
            "reject-lib" | "reject-bare" => {
                let full = if c.kind == "reject-lib" { with_dollar(t) } else { t.clone() };
                if full.len() < 2 || !full[..full.len() - 1].contains(&0) {
                    return Ok(());
                }
                match attempt(|| core::bwt_from_text_by_sa(&full)) {
                    Err(_) => {
                        obs.add("rejections", 1);
                        Ok(())
                    }
                    Ok(b) => {
                        violated!("bwt_from_text_by_sa returned {} bytes for a text with an inner zero byte", b.len())
                    }
                }
            }
            k => Err(Fail::Inconclusive(format!("unknown kind {}", k))),
        }
    }
}
impl C01 {
    fn judge(&self, full: &[u8], got: &[u8], obs: &mut Obs) -> Res {
        same("BWT", got, &model::bwt(full))?;
        if full.last() == Some(&0) {
            match model::unbwt(got) {
                Some(back) => same("inverted BWT", &back, full)?,
                None => violated!("the BWT of a terminated text cannot be inverted"),
            }
            obs.add("inversions checked", 1);
        }
        obs.max("BWT runs", model::runs(got) as u64);
        Ok(())
    }
}

// ------------------------------------------------------------------ C02
pub struct C02;
impl Check for C02 {
    fn boost(&self) -> usize {
        2
    }
    fn rule(&self) -> &'static str {
        "texts over all byte values and over i32/u16/char alphabets, primitive and powers, exhaustive over small alphabets, rotations of the same text compared; a case is non-trivial if its text has at least two characters"
    }
    fn generate(&self, g: &mut Gen) {
        let t = g.thorough;
        g.exhaustive(2, 1, if t { 14 } else { 12 }, |w| Case::text("lib", spread(w, Dom::All)));
        g.exhaustive(3, 1, if t { 9 } else { 7 }, |w| Case::text("lib", spread(w, Dom::All)));
        g.exhaustive(4, 1, if t { 7 } else { 5 }, |w| Case::text("generic", spread(w, Dom::All)));
        g.exhaustive(2, 1, if t { 9 } else { 6 }, |w| Case::text("cli", spread(w, Dom::All)));
        let n = g.n(2000, 20000);
        g.many(n, |r| Case::text("lib", text(r, Dom::All, 300)));
        g.many(n / 2, |r| {
            // a power: the non-primitive case
            let u = text(r, Dom::All, 60);
            let k = r.range(2, 7);
            Case::text("lib", u.repeat(k))
        });
        g.many(n / 2, |r| Case::text("generic", text(r, Dom::All, 200)));
        g.many(n / 4, |r| Case::text("fast", text(r, Dom::All, 20000)));
        g.many(n / 10, |r| {
            let l = r.log_range(1, 500);
            let u = text_of(r, Dom::All, l);
            let k = r.log_range(2, 200);
            Case::text("fast", u.repeat(k))
        });
        let n = g.n(2500, 20000);
        g.many(n, |r| {
            let k = *r.pick(&["cli", "cli-bare"]);
            let t = match r.below(6) {
                0 => {
                    let u = text(r, Dom::All, 40);
                    let m = r.range(2, 8);
                    u.repeat(m)
                }
                1 | 2 => {
                    // around the switch between the two implementations
                    let l = r.range(95, 105);
                    text_of(r, Dom::All, l)
                }
                _ => text(r, Dom::All, 1500),
            };
            Case::text(k, t)
        });
        let n = g.n(12, 100);
        g.many(n, |r| {
            let l = r.log_range(60_000, 500_000);
            let k = *r.pick(&["fast", "cli", "cli-bare"]);
            Case::text(k, text_of(r, Dom::All, l))
        });
        let n = g.size(4, 24);
        g.many(n, |r| {
            let l = huge_length(r);
            Case::text(*r.pick(&["fast", "cli", "cli-bare"]), text_of(r, Dom::All, l))
        });
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        let t = &c.data[0];
        note_text(obs, t);
        obs.add(&format!("cases {}", c.kind), 1);
        if t.is_empty() {
            return Ok(());
        }
        let h = c.hash();
        match c.kind.as_str() {
            "lib" | "fast" => {
                let want = model::matrix_bwt(t);
                let prim = model::primitive(t);
                obs.add(if prim { "primitive texts" } else { "non-primitive texts" }, 1);
                let fast = call("bwt_by_matrix", || core::bwt_by_matrix(t))?;
                same("bwt_by_matrix", &fast, &want)?;
                if c.kind == "lib" {
                    let naive = call("bwt_by_matrix_naive", || core::bwt_by_matrix_naive(t))?;
                    same("bwt_by_matrix_naive", &naive, &want)?;
                }
                let p = call("lyndon_conjugate", || core::lyndon_conjugate(t))?;
                self.smallest(t, p)?;
                // conjugates share the transform
                let k = (h as usize / 7) % t.len();
                let rot = model::rotate(t, k);
                let b2 = call("bwt_by_matrix of a conjugate", || core::bwt_by_matrix(&rot))?;
                same("bwt_by_matrix of a conjugate", &b2, &want)?;
                obs.add("conjugates compared", 1);
                // with a terminator both transforms coincide
                if c.kind == "lib" && !t.contains(&0) {
                    let d = with_dollar(t);
                    let a = call("bwt_by_matrix", || core::bwt_by_matrix(&d))?;
                    let b = call("bwt_from_text_by_sa", || core::bwt_from_text_by_sa(&d))?;
                    same("matrix BWT against suffix array BWT of the terminated text", &a, &b)?;
                    let n = call("bwt_by_matrix_naive", || core::bwt_by_matrix_naive(&d))?;
                    same("naive matrix BWT against suffix array BWT of the terminated text", &n, &b)?;
                    obs.add("terminated texts compared", 1);
                }
                Ok(())
            }
            "generic" => {
                let a: Vec<i32> = t.iter().map(|&x| (x as i32 - 100) * 70_000).collect();
                let b: Vec<u16> = t.iter().map(|&x| x as u16 * 257).collect();
                let d: Vec<char> = t.iter().map(|&x| char::from_u32(x as u32 * 300 + 1).unwrap_or('z')).collect();
                let ga = call("bwt_by_matrix_naive::<i32>", || core::bwt_by_matrix_naive(&a))?;
                same_arr("bwt_by_matrix_naive::<i32>", &ga, &model::matrix_bwt(&a))?;
                let gb = call("bwt_by_matrix_naive::<u16>", || core::bwt_by_matrix_naive(&b))?;
                same_arr("bwt_by_matrix_naive::<u16>", &gb, &model::matrix_bwt(&b))?;
                let gd = call("bwt_by_matrix_naive::<char>", || core::bwt_by_matrix_naive(&d))?;
                same_arr("bwt_by_matrix_naive::<char>", &gd, &model::matrix_bwt(&d))?;
                let p = call("lyndon_conjugate::<i32>", || core::lyndon_conjugate(&a))?;
                self.smallest(&a, p)?;
                let p = call("lyndon_conjugate::<char>", || core::lyndon_conjugate(&d))?;
                self.smallest(&d, p)?;
                let mut v = Symbols { what: What::Matrix, t };
                types::some_types(t, h, 4, obs, &mut v)
            }
            "cli" | "cli-bare" => {
                let bare = c.kind == "cli-bare";
                let full = if bare { t.clone() } else { with_dollar(t) };
                let mut tool = Tool::new(env, build_for(h), "bwt").arg(if h & 2 == 0 { "-u" } else { "--use-matrix" });
                if bare {
                    tool = tool.arg("--no-dollar");
                }
                let mut keep = Vec::new();
                let got = feed(env, tool, t, h, &mut keep)?.ok()?;
                same("bwt --use-matrix", &got, &model::matrix_bwt(&full))
            }
            k => Err(Fail::Inconclusive(format!("unknown kind {}", k))),
        }
    }
}
impl C02 {
    fn smallest<T: Ord + Clone + std::fmt::Debug>(&self, t: &[T], p: usize) -> Res {
        ensure!(p < t.len(), "lyndon_conjugate returned position {} for a text of length {}", p, t.len());
        let q = model::min_rotation(t);
        if model::rotate(t, p) != model::rotate(t, q) {
            violated!("the conjugate at the reported position {} is larger than the one at {}", p, q);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C03
pub struct C03;
struct Chunked<'a> {
    b: &'a [u8],
    k: usize,
    chunks: Vec<usize>,
}
impl std::io::Read for Chunked<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let c = self.chunks[self.k % self.chunks.len()].max(1);
        self.k += 1;
        let n = c.min(buf.len()).min(self.b.len());
        buf[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}
impl Check for C03 {
    fn boost(&self) -> usize {
        5
    }
    fn rule(&self) -> &'static str {
        "byte strings over all 256 values with runs of telling lengths; count_runs fed through stdin, files and pipes in chunks, count_r under all four option combinations against the bwt tool's own output; non-trivial: at least two bytes"
    }
    fn generate(&self, g: &mut Gen) {
        g.case(|_| Case::text("runs", vec![]));
        g.case(|_| Case::text("lib", vec![]));
        let hi = g.size(10, 13);
        g.exhaustive(3, 1, hi.min(8), |w| Case::text("lib", spread(w, Dom::All)));
        g.exhaustive(2, 1, hi.min(7), |w| Case::text("runs", spread(w, Dom::All)));
        let n = g.n(3000, 30000);
        g.many(n, |r| Case::text("lib", text(r, Dom::All, 20000)));
        let n = g.n(1500, 15000);
        g.many(n, |r| {
            let m = if r.chance(1, 8) { 200_000 } else { 3000 };
            Case::text("runs", text(r, Dom::All, m))
        });
        let n = g.n(2500, 25000);
        g.many(n, |r| {
            let opt = r.below(4) as i64;
            let m = if r.chance(1, 8) { 30_000 } else { 1500 };
            let t = if r.chance(1, 4) {
                let l = r.range(95, 105);
                text_of(r, Dom::ZeroFree, l)
            } else {
                text(r, Dom::ZeroFree, m)
            };
            let mut c = Case::text("count_r", t);
            c.nums = vec![opt];
            c
        });
        let n = g.n(16, 100);
        g.many(n, |r| {
            let l = r.log_range(100_000, 1_000_000);
            let mut c = Case::text(*r.pick(&["runs", "count_r"]), text_of(r, Dom::ZeroFree, l));
            c.nums = vec![0];
            c
        });
        let n = g.size(6, 40);
        g.many(n, |r| {
            let l = huge_length(r);
            let mut c = Case::text(*r.pick(&["runs", "count_r"]), text_of(r, Dom::ZeroFree, l));
            c.nums = vec![0];
            c
        });
        for k in ["runs", "count_r"] {
            g.case(|r| {
                let l = giant_length(r);
                let mut c = Case::text(k, text_of(r, Dom::ZeroFree, l));
                c.nums = vec![0];
                c
            });
        }
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        let t = &c.data[0];
        note_text(obs, t);
        obs.add(&format!("cases {}", c.kind), 1);
        let h = c.hash();
        let want = model::runs(t);
        match c.kind.as_str() {
            "lib" => {
                let a = call("number_of_runs", || core::number_of_runs(&mut t.as_slice()))?;
                ensure!(a == want, "number_of_runs: got {}, expected {}", a, want);
                for chunks in [vec![1], vec![2, 1, 5], vec![(h % 97) as usize + 1, 256]] {
                    let mut r = Chunked { b: t, k: 0, chunks: chunks.clone() };
                    let a = call("number_of_runs", || core::number_of_runs(&mut r))?;
                    ensure!(a == want, "number_of_runs with chunks {:?}: got {}, expected {}", chunks, a, want);
                }
                obs.max("runs", want as u64);
                Ok(())
            }
            "runs" => {
                let mut tool = Tool::new(env, build_for(h), "count_runs");
                let mut keep = Vec::new();
                let chunks = [1 + (h % 7) as usize, 1 + (h >> 20) as usize % 4096, 65536];
                match (h >> 4) % 3 {
                    0 => {
                        let f = TempFile::with(env, "in", t)?;
                        tool = tool.arg("-i").arg(f.arg());
                        keep.push(f);
                    }
                    1 => tool = tool.stdin(In::Pipe(t, &chunks)),
                    _ => tool = tool.input(t),
                }
                let out = tool.ok()?;
                same("count_runs", &out, format!("{}\n", want).as_bytes())?;
                obs.max("runs", want as u64);
                Ok(())
            }
            "count_r" => {
                let opt = c.nums[0];
                let opts: &[&str] = match opt {
                    0 => &[],
                    1 => &["-n"],
                    2 => &["-u"],
                    _ => &["-u", "-n"],
                };
                if t.contains(&0) || t.is_empty() {
                    return Ok(());
                }
                let out = Tool::new(env, build_for(h), "count_r").args(opts.iter().copied()).input(t).ok()?;
                let f = result_fields(&out)?;
                let bwt = Tool::new(env, build_for(h), "bwt").args(opts.iter().copied()).input(t).ok()?;
                let r = field_num(&f, "bwt_runs")?;
                let l = field_num(&f, "length")?;
                ensure!(r == model::runs(&bwt) as u64, "count_r {:?} reports {} runs, the bwt has {}", opts, r, model::runs(&bwt));
                ensure!(l == bwt.len() as u64, "count_r {:?} reports length {}, the bwt has {}", opts, l, bwt.len());
                let full = if opts.contains(&"-n") { t.clone() } else { with_dollar(t) };
                let own = if opts.contains(&"-u") { model::matrix_bwt(&full) } else { model::bwt(&full) };
                ensure!(r == model::runs(&own) as u64, "count_r {:?} reports {} runs, expected {}", opts, r, model::runs(&own));
                obs.max("BWT runs", r);
                Ok(())
            }
            k => Err(Fail::Inconclusive(format!("unknown kind {}", k))),
        }
    }
}

// ------------------------------------------------------------------ C04
pub struct C04;
impl Check for C04 {
    fn boost(&self) -> usize {
        8
    }
    fn rule(&self) -> &'static str {
        "texts over all byte values (exhaustive over small alphabets, powers, monotone, morphic, random), library over u8/i32/char, the tool with its debug listing and factor file; non-trivial: at least two characters"
    }
    fn generate(&self, g: &mut Gen) {
        let t = g.thorough;
        g.exhaustive(2, 1, if t { 16 } else { 13 }, |w| Case::text("lib", spread(w, Dom::All)));
        g.exhaustive(3, 1, if t { 10 } else { 8 }, |w| Case::text("lib", spread(w, Dom::All)));
        g.exhaustive(5, 1, if t { 7 } else { 5 }, |w| Case::text("lib", spread(w, Dom::All)));
        g.exhaustive(2, 1, if t { 8 } else { 6 }, |w| Case::text("cli", spread(w, Dom::All)));
        let n = g.n(4000, 40000);
        g.many(n, |r| Case::text("lib", text(r, Dom::All, 3000)));
        let n = g.n(3000, 25000);
        g.many(n, |r| {
            let m = if r.chance(1, 10) { 60_000 } else { 1500 };
            let mut t = text(r, Dom::All, m);
            if r.chance(1, 6) {
                t.push(0);
            }
            Case::text("cli", t)
        });
        let n = g.n(20, 150);
        g.many(n, |r| {
            let l = r.log_range(50_000, 800_000);
            Case::text(*r.pick(&["lib", "cli"]), text_of(r, Dom::All, l))
        });
        let n = g.size(6, 40);
        g.many(n, |r| {
            let l = huge_length(r);
            Case::text(*r.pick(&["lib", "cli"]), text_of(r, Dom::All, l))
        });
        g.case(|r| {
            let l = giant_length(r);
            Case::text("cli", text_of(r, Dom::All, l))
        });
        let n = g.n(4, 30);
        g.many(n, |r| {
            let l = r.log_range(2000, 600_000);
            Case::text(*r.pick(&["lib", "cli", "cli"]), falling_lyndon(r, l))
        });
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        let t = &c.data[0];
        note_text(obs, t);
        obs.add(&format!("cases {}", c.kind), 1);
        if t.is_empty() {
            return Ok(());
        }
        let h = c.hash();
        match c.kind.as_str() {
            "lib" => {
                let f = call("duval", || core::duval(t))?;
                judge("duval", model::check_lyndon_factorization(t, &f))?;
                obs.max("factors", f.len() as u64);
                obs.seen("factor counts", f.len() as u64);
                let w: Vec<i32> = t.iter().map(|&x| x as i32 - 128).collect();
                let fw = call("duval::<i32>", || core::duval(&w))?;
                judge("duval::<i32>", model::check_lyndon_factorization(&w, &fw))?;
                if t.len() < 4000 {
                    // the reversed order of letters gives another factorization
                    let w: Vec<std::cmp::Reverse<char>> = t.iter().map(|&x| std::cmp::Reverse(x as char)).collect();
                    let fw = call("duval over a reversed order", || core::duval(&w))?;
                    judge("duval over a reversed order", model::check_lyndon_factorization(&w, &fw))?;
                    let mut v = Symbols { what: What::Duval, t };
                    types::some_types(t, h, 2, obs, &mut v)?;
                }
                let sa = model::sa(t);
                let isa: Vec<i32> = model::inverse(&sa).iter().map(|&x| x as i32).collect();
                let fi = call("isa_lyndon_factorization", || core::isa_lyndon_factorization(&isa))?;
                judge("isa_lyndon_factorization", model::check_lyndon_factorization(t, &fi))
            }
            "cli" => {
                let ends = model::lyndon_factors(t);
                judge("reference factorization", model::check_lyndon_factorization(t, &ends))
                    .map_err(|e| Fail::Inconclusive(format!("{:?}", e)))?;
                let of = TempFile::none(env, "lyndon");
                let debug = (h >> 3) % 3 == 0 && t.len() < 20_000;
                let want_file = (h >> 5) % 4 != 0;
                let mut tool = Tool::new(env, build_for(h), "lyndonfactorization");
                if debug {
                    tool = tool.var("RUST_LOG", "debug");
                }
                if want_file {
                    tool = tool.arg("-o").arg(of.arg());
                }
                let mut keep = Vec::new();
                let o = feed(env, tool, t, h, &mut keep)?.run()?;
                ensure!(o.code == Some(0), "lyndonfactorization failed: {}", o.status());
                let f = result_fields(&o.out)?;
                let k = field_num(&f, "factors")?;
                ensure!(k == ends.len() as u64, "lyndonfactorization reports {} factors, expected {}", k, ends.len());
                if debug {
                    let s = String::from_utf8_lossy(&o.err);
                    let list = format!("{:?}", ends);
                    ensure!(
                        s.lines().any(|l| l.ends_with(&list)),
                        "the debug listing does not show the ending positions {}: {}",
                        list.chars().take(120).collect::<String>(),
                        s.chars().take(300).collect::<String>()
                    );
                    obs.add("debug listings checked", 1);
                }
                if want_file {
                    let got = of.read()?;
                    let (full, cut) = expected_factor_file(t, &ends);
                    if got != full && Some(&got) != cut.as_ref() {
                        same("factor file", &got, if t.last() == Some(&0) { cut.as_ref().unwrap_or(&full) } else { &full })?;
                    }
                    obs.add("factor files checked", 1);
                }
                obs.max("factors", k);
                Ok(())
            }
            k => Err(Fail::Inconclusive(format!("unknown kind {}", k))),
        }
    }
}
/// the factor file, and the variant without a final factor that is just the terminating zero byte
pub fn expected_factor_file(t: &[u8], ends: &[usize]) -> (Vec<u8>, Option<Vec<u8>>) {
    let mut v = b">Factor 1\n".to_vec();
    v.extend_from_slice(&t[..ends[0] + 1]);
    let mut cut = None;
    for k in 1..ends.len() {
        let (a, b) = (ends[k - 1] + 1, ends[k] + 1);
        if k == ends.len() - 1 && t[a..b] == [0] {
            cut = Some(v.clone());
        }
        v.extend_from_slice(format!("\n>Factor {} : {} -> {}\n", k + 1, a, b).as_bytes());
        v.extend_from_slice(&t[a..b]);
    }
    (v, cut)
}

// ------------------------------------------------------------------ C05
pub struct C05;
impl Check for C05 {
    fn boost(&self) -> usize {
        30
    }
    fn rule(&self) -> &'static str {
        "texts over u8 and i32 alphabets, exhaustive over small alphabets, powers, Lyndon words, texts with equal Lyndon factors; each image compared with the definition and inverted by an independent inverse transform; non-trivial: at least two characters"
    }
    fn generate(&self, g: &mut Gen) {
        let t = g.thorough;
        g.exhaustive(2, 1, if t { 15 } else { 12 }, |w| Case::text("bbwt", spread(w, Dom::All)));
        g.exhaustive(3, 1, if t { 10 } else { 8 }, |w| Case::text("bbwt", spread(w, Dom::All)));
        g.exhaustive(4, 1, if t { 8 } else { 6 }, |w| Case::text("bbwt", spread(w, Dom::All)));
        let n = g.n(6000, 60000);
        g.many(n, |r| Case::text("bbwt", text(r, Dom::All, 200)));
        g.many(n / 4, |r| {
            let u = text(r, Dom::All, 30);
            let k = r.range(2, 8);
            let mut v = u.repeat(k);
            if r.chance(1, 2) {
                v.extend_from_slice(&u[..r.below(u.len())]);
            }
            Case::text("bbwt", v)
        });
        g.many(n / 4, |r| {
            // concatenations of words against each other's order, sharing long common prefixes
            let a = text(r, Dom::All, 12);
            let mut b = a.clone();
            b.extend_from_slice(&text(r, Dom::All, 4));
            let mut v = Vec::new();
            for _ in 0..r.range(2, 7) {
                v.extend_from_slice(if r.chance(1, 2) { &a } else { &b });
            }
            Case::text("bbwt", v)
        });
        g.many(n / 20, |r| Case::text("bbwt", text(r, Dom::All, 1500)));
        // sorting conjugates is quick where they differ early
        let n = g.n(12, 100);
        g.many(n, |r| {
            let l = if r.chance(1, 2) { r.range(65_530, 140_000) } else { r.log_range(3000, 300_000) };
            let sigma = r.range(2, 256);
            let mut t = random_word(r, l, sigma);
            match r.below(3) {
                0 => {}
                1 => {
                    // many long Lyndon factors: blocks in falling order
                    let b = r.range(50, 3000);
                    let mut v: Vec<Vec<u8>> = t.chunks(b).map(|x| x.to_vec()).collect();
                    v.sort_by(|a, b| b.cmp(a));
                    t = v.concat();
                }
                _ => {
                    let m = model::min_rotation(&t);
                    t = model::rotate(&t, m);
                }
            }
            Case::text("bbwt", t)
        });
    }
    fn eval(&self, _env: &Env, c: &Case, obs: &mut Obs) -> Res {
        let t = &c.data[0];
        note_text(obs, t);
        if t.is_empty() {
            return Ok(());
        }
        let b = call("bbwt_naive", || core::bbwt_naive(t))?;
        obs.max("text length, bijective BWT", t.len() as u64);
        ensure!(b.len() == t.len(), "bijective BWT has length {} for a text of length {}", b.len(), t.len());
        same("inverted bijective BWT", &model::unbbwt(&b), t)?;
        obs.add("inversions checked", 1);
        if t.len() <= 400 {
            same("bijective BWT", &b, &model::bbwt(t))?;
            obs.add("compared with the definition", 1);
        }
        let w: Vec<i32> = t.iter().map(|&x| x as i32 * 1000 - 40_000).collect();
        let bw = call("bbwt_naive::<i32>", || core::bbwt_naive(&w))?;
        same_arr("inverted bijective BWT over i32", &model::unbbwt(&bw), &w)?;
        if t.len() <= 1000 {
            let mut v = Symbols { what: What::Bijective(&b), t };
            types::some_types(t, c.hash(), 1, obs, &mut v)?;
        }
        if model::is_lyndon(t) && t.len() <= 3000 {
            obs.add("Lyndon words", 1);
            let m = call("bwt_by_matrix", || core::bwt_by_matrix(t))?;
            same("bijective BWT against the matrix BWT of a Lyndon word", &b, &m)?;
        }
        let k = model::lyndon_factors(t);
        obs.max("Lyndon factors", k.len() as u64);
        Ok(())
    }
}
