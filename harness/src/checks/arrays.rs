//! Suffix-array family, previous/next smaller values, borders and periods.
use super::{judge, Check};
use crate::case::*;
use crate::cli::Env;
use crate::gen::*;
use crate::rng::Rng;
use crate::{ensure, model, types, Obs};
use stringology::core;

fn ints(nums: &[i64]) -> Vec<usize> {
    nums.iter().map(|&x| x as usize).collect()
}

// ------------------------------------------------------------------ C06
pub struct C06;
impl Check for C06 {
    fn boost(&self) -> usize {
        12
    }
    fn rule(&self) -> &'static str {
        "texts over all byte values with and without terminator (exhaustive over small alphabets, unary, periodic, morphic, random, long), generic symbol and index types, random permutations; non-trivial: at least two characters"
    }
    fn generate(&self, g: &mut Gen) {
        let t = g.thorough;
        g.exhaustive(2, 1, if t { 15 } else { 12 }, |w| Case::text("text", spread(w, Dom::All)));
        g.exhaustive(3, 1, if t { 9 } else { 7 }, |w| Case::text("text", spread(w, Dom::All)));
        g.exhaustive(2, 1, if t { 12 } else { 9 }, |w| {
            let mut v = spread(w, Dom::ZeroFree);
            v.push(0);
            Case::text("text", v)
        });
        let n = g.n(5000, 50000);
        g.many(n, |r| Case::text("text", text(r, Dom::All, 2500)));
        g.many(n / 2, |r| {
            let l = if r.chance(1, 8) { 5000 } else { 300 };
            let n = length(r, l);
            let mut p: Vec<i64> = (0..n as i64).collect();
            match r.below(4) {
                0 => p.rotate_left(n / 3),
                1 => p.reverse(),
                _ => r.shuffle(&mut p),
            }
            Case::new("perm", &p, &[])
        });
        let n = g.n(24, 160);
        g.many(n, |r| {
            let l = r.log_range(40_000, 600_000);
            Case::text("big", text_of(r, Dom::All, l))
        });
        let n = g.size(6, 40);
        g.many(n, |r| {
            let l = huge_length(r);
            Case::text("big", text_of(r, Dom::All, l))
        });
        for k in 0..4usize {
            g.case(|r| {
                let l = r.range((1 << 20) + 10, 1_300_000);
                Case::text("big", extreme(r, Dom::All, l, k))
            });
        }
        let n = g.n(4, 24);
        g.many(n, |r| {
            let base = r.range(66_000, 200_000);
            let total = base + r.range(60_000, 300_000);
            Case::text("big", far_copies(r, Dom::All, base, total))
        });
        let n = g.n(40, 400);
        g.many(n, |r| {
            let base = r.log_range(100, 900);
            Case::text("text", far_copies(r, Dom::All, base, 3 * base))
        });
    }
    fn eval(&self, _env: &Env, c: &Case, obs: &mut Obs) -> Res {
        obs.add(&format!("cases {}", c.kind), 1);
        if c.kind == "perm" {
            let p = ints(&c.nums);
            let mut seen = vec![false; p.len()];
            for &x in &p {
                if x >= p.len() || seen[x] {
                    obs.trivial = true;
                    return Ok(()); // not a permutation (after shrinking)
                }
                seen[x] = true;
            }
            obs.trivial = p.len() < 2;
            let want = model::inverse(&p);
            let a = call("inverse_permutation::<usize>", || core::inverse_permutation(&p))?;
            same_arr("inverse_permutation::<usize>", &a, &want)?;
            let pi: Vec<i32> = p.iter().map(|&x| x as i32).collect();
            let a = call("inverse_permutation::<i32>", || core::inverse_permutation(&pi))?;
            let wi: Vec<i32> = want.iter().map(|&x| x as i32).collect();
            same_arr("inverse_permutation::<i32>", &a, &wi)?;
            let pi: Vec<u32> = p.iter().map(|&x| x as u32).collect();
            let a = call("inverse_permutation::<u32>", || core::inverse_permutation(&pi))?;
            let wi: Vec<u32> = want.iter().map(|&x| x as u32).collect();
            same_arr("inverse_permutation::<u32>", &a, &wi)?;
            // phi is defined for any ranking of positions
            if !p.is_empty() {
                let phi = call("compute_phi::<usize>", || core::compute_phi(&p))?;
                let n = p.len();
                for k in 0..n {
                    let want = p[(k + n - 1) % n];
                    ensure!(phi[p[k]] == want, "compute_phi: entry {} is {}, expected {}", p[k], phi[p[k]], want);
                }
            }
            return Ok(());
        }
        let t = &c.data[0];
        obs.max("text length", t.len() as u64);
        obs.trivial = t.len() < 2;
        if t.is_empty() {
            return Ok(());
        }
        let n = t.len();
        let sa = model::sa(t);
        judge("reference suffix array", model::sa_is_sorted(t, &sa)).map_err(|e| Fail::Inconclusive(format!("{:?}", e)))?;
        let lcp = model::lcp(t, &sa);
        let isa = model::inverse(&sa);
        if c.kind == "text" {
            let s = call("suffixarray_naive", || core::suffixarray_naive(t))?;
            judge("suffixarray_naive", model::sa_is_sorted(t, &s))?;
            let w: Vec<i64> = t.iter().map(|&x| -(x as i64)).collect();
            let s = call("suffixarray_naive::<i64>", || core::suffixarray_naive(&w))?;
            judge("suffixarray_naive::<i64>", model::sa_is_sorted(&w, &s))?;
        }
        if t.len() <= 1500 {
            let mut v = Symbols { what: What::Suffixes(&sa), t };
            types::some_types(t, c.hash(), if t.len() < 200 { 2 } else { 1 }, obs, &mut v)?;
        }
        if n < 128 {
            // the narrowest index types
            let s8: Vec<i8> = sa.iter().map(|&x| x as i8).collect();
            let a = call("inverse_permutation::<i8>", || core::inverse_permutation(&s8))?;
            same_arr("inverse_permutation::<i8>", &a, &isa.iter().map(|&x| x as i8).collect::<Vec<_>>())?;
            let p = call("compute_phi::<i8>", || core::compute_phi(&s8))?;
            same_arr("compute_phi::<i8>", &p, &(0..n).map(|i| s8[(isa[i] + n - 1) % n]).collect::<Vec<_>>())?;
            let w: Vec<u32> = (0..n).map(|i| lcp[isa[i]] as u32).collect();
            let l = call("compute_lcp::<i8>", || core::compute_lcp(&w, &s8))?;
            same_arr("compute_lcp::<i8>", &l, &lcp.iter().map(|&x| x as u32).collect::<Vec<_>>())?;
        }
        if n < 256 {
            let s8: Vec<u8> = sa.iter().map(|&x| x as u8).collect();
            let a = call("inverse_permutation::<u8>", || core::inverse_permutation(&s8))?;
            same_arr("inverse_permutation::<u8>", &a, &isa.iter().map(|&x| x as u8).collect::<Vec<_>>())?;
            let p = call("compute_phi::<u8>", || core::compute_phi(&s8))?;
            same_arr("compute_phi::<u8>", &p, &(0..n).map(|i| s8[(isa[i] + n - 1) % n]).collect::<Vec<_>>())?;
        }
        if n < 65536 {
            let s: Vec<u16> = sa.iter().map(|&x| x as u16).collect();
            let a = call("inverse_permutation::<u16>", || core::inverse_permutation(&s))?;
            same_arr("inverse_permutation::<u16>", &a, &isa.iter().map(|&x| x as u16).collect::<Vec<_>>())?;
            let s: Vec<i64> = sa.iter().map(|&x| x as i64).collect();
            let p = call("compute_phi::<i64>", || core::compute_phi(&s))?;
            same_arr("compute_phi::<i64>", &p, &(0..n).map(|i| s[(isa[i] + n - 1) % n]).collect::<Vec<_>>())?;
        }
        let b = call("bwt_from_sa", || core::bwt_from_sa(t, &sa))?;
        let want: Vec<u8> = sa.iter().map(|&p| t[(p + n - 1) % n]).collect();
        same("bwt_from_sa", &b, &want)?;
        let ch: Vec<char> = t.iter().map(|&x| x as char).collect();
        let b = call("bwt_from_sa::<char>", || core::bwt_from_sa(&ch, &sa))?;
        let wantc: Vec<char> = want.iter().map(|&x| x as char).collect();
        same_arr("bwt_from_sa::<char>", &b, &wantc)?;
        let si: Vec<i32> = sa.iter().map(|&x| x as i32).collect();
        let phi = call("compute_phi", || core::compute_phi(&si))?;
        let wphi: Vec<i32> = (0..n).map(|i| si[(isa[i] + n - 1) % n]).collect();
        same_arr("compute_phi", &phi, &wphi)?;
        let ii = call("inverse_permutation", || core::inverse_permutation(&si))?;
        let wi: Vec<i32> = isa.iter().map(|&x| x as i32).collect();
        same_arr("inverse suffix array", &ii, &wi)?;
        let plcp = call("compute_plcp", || core::compute_plcp(t, &wphi))?;
        let wplcp: Vec<u32> = (0..n).map(|i| lcp[isa[i]] as u32).collect();
        same_arr("compute_plcp", &plcp, &wplcp)?;
        let l = call("compute_lcp", || core::compute_lcp(&wplcp, &si))?;
        let wl: Vec<u32> = lcp.iter().map(|&x| x as u32).collect();
        same_arr("compute_lcp", &l, &wl)?;
        let l = call("compute_lcp::<usize>", || core::compute_lcp(&wplcp, &sa))?;
        same_arr("compute_lcp::<usize>", &l, &wl)?;
        obs.max("LCP value", lcp.iter().copied().max().unwrap_or(0) as u64);
        Ok(())
    }
}

/// the same over other symbol types
enum What<'a> {
    Suffixes(&'a [usize]),
    Values(&'a [u32], &'a [u32]),
    Borders(&'a [usize], bool),
}
struct Symbols<'a> {
    what: What<'a>,
    t: &'a [u8],
}
impl types::Visit for Symbols<'_> {
    fn go<T: Ord + Copy + std::fmt::Debug>(&mut self, ty: &str, w: &[T], _f: &dyn Fn(u8) -> T) -> Res {
        match &self.what {
            What::Suffixes(sa) => {
                let s = call("suffixarray_naive", || core::suffixarray_naive(w))?;
                judge(&format!("suffixarray_naive over {}", ty), model::sa_is_sorted(self.t, &s))?;
                let n = w.len();
                let b = call("bwt_from_sa", || core::bwt_from_sa(w, sa))?;
                let want: Vec<T> = sa.iter().map(|&p| w[(p + n - 1) % n]).collect();
                same_arr(&format!("bwt_from_sa over {}", ty), &b, &want)
            }
            What::Values(psv, nsv) => {
                let p = call("compute_psv", || core::compute_psv(w))?;
                same_arr(&format!("compute_psv over {}", ty), &p, psv)?;
                let q = call("compute_nsv", || core::compute_nsv(w))?;
                same_arr(&format!("compute_nsv over {}", ty), &q, nsv)
            }
            What::Borders(borders, primitive) => {
                let b = call("border_array", || core::border_array(w))?;
                same_arr(&format!("border_array over {}", ty), &b, borders)?;
                let p = call("is_primitive", || core::is_primitive(w))?;
                ensure!(p == *primitive, "is_primitive over {} is {}, expected {}", ty, p, primitive);
                Ok(())
            }
        }
    }
}

// ------------------------------------------------------------------ C07
pub struct C07;
fn array(r: &mut Rng, max: usize) -> Vec<i64> {
    let n = length(r, max);
    let span = *r.pick(&[1i64, 2, 3, 5, 10, 1000, 1 << 40]);
    let mut v: Vec<i64> = match r.below(9) {
        0 => {
            let mut p: Vec<i64> = (0..n as i64).collect();
            r.shuffle(&mut p);
            p
        }
        1 => {
            let mut x = 0i64;
            (0..n)
                .map(|_| {
                    x += r.below(3) as i64 - 1;
                    x
                })
                .collect()
        }
        2 => (0..n as i64).map(|i| (i % (span + 1)).min(7)).collect(),
        3 => {
            let t = text_of(r, Dom::All, n.max(1));
            model::sa(&t).iter().map(|&x| x as i64).collect()
        }
        7 => {
            // everything between two places of telling distance is larger than both, or smaller
            let mut v: Vec<i64> = (0..n).map(|_| 10 + r.below(1000) as i64).collect();
            for _ in 0..r.range(1, 4) {
                let i = if r.chance(1, 2) { 0 } else { r.below(n) };
                let d = length(r, n);
                let j = if r.chance(1, 3) { n - 1 } else { (i + d).min(n - 1) };
                let base = r.below(9) as i64;
                v[i] = base;
                v[j] = base + r.below(3) as i64 - 1;
            }
            v
        }
        8 => {
            // up and down
            let top = r.below(n) as i64;
            let step = r.range(1, 3) as i64;
            let flat = r.range(1, 3) as i64;
            let sign = if r.chance(1, 2) { 1 } else { -1 };
            (0..n as i64).map(|i| sign * (step * (i - top) / flat).abs()).collect()
        }
        4 => {
            let mut p: Vec<i64> = (0..n).map(|_| r.below(span.min(1 << 20) as usize) as i64).collect();
            p.sort();
            p
        }
        _ => (0..n).map(|_| (r.next() % span as u64) as i64 - span / 2).collect(),
    };
    if r.chance(1, 6) {
        v.reverse();
    }
    if v.is_empty() {
        v.push(3);
    }
    v
}
impl Check for C07 {
    fn boost(&self) -> usize {
        60
    }
    fn rule(&self) -> &'static str {
        "arrays: all over few values up to a length, permutations, suffix arrays, random walks, with and without duplicates, over i64/u8/String; non-trivial: at least two elements"
    }
    fn generate(&self, g: &mut Gen) {
        let t = g.thorough;
        for s in 2..=5 {
            let hi = [0, 0, 12, 8, 6, 5][s] + t as usize;
            g.exhaustive(s, 1, hi, |w| Case::new("arr", &w.iter().map(|&x| x as i64).collect::<Vec<_>>(), &[]));
        }
        let n = g.n(10000, 100000);
        g.many(n, |r| Case::new("arr", &array(r, 400), &[]));
        g.many(n / 20, |r| Case::new("arr", &array(r, 70_000), &[]));
        g.many(g.n(1, 4), |r| Case::new("arr", &array(r, 1_200_000), &[]));
        // long chains of candidates, to be passed at one place
        for k in 0..4i64 {
            g.case(|r| {
                let n = r.range(600_000, 1_200_000) as i64;
                let at = r.below(n as usize) as i64;
                let mut v: Vec<i64> = (0..n).map(|i| if k & 1 == 0 { i + 2 } else { n - i + 2 }).collect();
                let end = if k & 1 == 0 { n as usize - 1 } else { 0 };
                v[end] = if k & 2 == 0 { 1 } else { at };
                v[at as usize] += (k == 2) as i64;
                Case::new("arr", &v, &[])
            });
        }
    }
    fn eval(&self, _env: &Env, c: &Case, obs: &mut Obs) -> Res {
        let a = &c.nums;
        obs.trivial = a.len() < 2;
        obs.max("array length", a.len() as u64);
        if a.is_empty() {
            return Ok(());
        }
        let n = a.len();
        let inv = core::INVALID_VALUE;
        // reference: explicit stack of candidates
        let mut psv = vec![inv; n];
        let mut st: Vec<usize> = vec![];
        for i in 0..n {
            while let Some(&k) = st.last() {
                if a[k] >= a[i] {
                    st.pop();
                } else {
                    break;
                }
            }
            psv[i] = st.last().map(|&k| k as u32).unwrap_or(inv);
            st.push(i);
        }
        let mut nsv = vec![inv; n];
        st.clear();
        for i in (0..n).rev() {
            while let Some(&k) = st.last() {
                if a[k] >= a[i] {
                    st.pop();
                } else {
                    break;
                }
            }
            nsv[i] = st.last().map(|&k| k as u32).unwrap_or(inv);
            st.push(i);
        }
        let ties = a.windows(2).any(|w| w[0] == w[1]);
        obs.add(if ties { "arrays with equal neighbours" } else { "arrays without equal neighbours" }, 1);
        let p = call("compute_psv", || core::compute_psv(a))?;
        same_arr("compute_psv", &p, &psv)?;
        let q = call("compute_nsv", || core::compute_nsv(a))?;
        same_arr("compute_nsv", &q, &nsv)?;
        if a.iter().all(|&x| (0..256).contains(&x)) {
            let b: Vec<u8> = a.iter().map(|&x| x as u8).collect();
            let p = call("compute_psv::<u8>", || core::compute_psv(&b))?;
            same_arr("compute_psv::<u8>", &p, &psv)?;
            let s: Vec<String> = a.iter().map(|x| format!("{:04}", x)).collect();
            let q = call("compute_nsv::<String>", || core::compute_nsv(&s))?;
            same_arr("compute_nsv::<String>", &q, &nsv)?;
            let p = call("compute_psv::<String>", || core::compute_psv(&s))?;
            same_arr("compute_psv::<String>", &p, &psv)?;
            if a.len() <= 200_000 {
                let mut v = Symbols { what: What::Values(&psv, &nsv), t: &b };
                types::some_types(&b, c.hash(), 3, obs, &mut v)?;
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C08
pub struct C08;
impl Check for C08 {
    fn boost(&self) -> usize {
        40
    }
    fn rule(&self) -> &'static str {
        "texts over u8, char and String symbols: exhaustive small, powers, powers with one change, Fibonacci-like, random; non-trivial: at least two characters"
    }
    fn generate(&self, g: &mut Gen) {
        let t = g.thorough;
        g.exhaustive(2, 1, if t { 17 } else { 14 }, |w| Case::text("t", spread(w, Dom::All)));
        g.exhaustive(3, 1, if t { 11 } else { 9 }, |w| Case::text("t", spread(w, Dom::All)));
        let n = g.n(8000, 80000);
        g.many(n, |r| Case::text("t", text(r, Dom::All, 3000)));
        g.many(n, |r| {
            let m = if r.chance(1, 5) { 400 } else { 20 };
            let u = text(r, Dom::All, m);
            let k = r.range(2, 9);
            let mut v = u.repeat(k);
            match r.below(4) {
                0 => {
                    let i = r.below(v.len());
                    v[i] = v[i].wrapping_add(1);
                }
                1 => v.extend_from_slice(&u[..r.below(u.len())]),
                _ => {}
            }
            Case::text("t", v)
        });
        let n = g.n(30, 200);
        g.many(n, |r| {
            let l = r.log_range(60_000, 1_000_000);
            Case::text("t", text_of(r, Dom::All, l))
        });
        let n = g.size(8, 60);
        g.many(n, |r| {
            let l = huge_length(r);
            Case::text("t", text_of(r, Dom::All, l))
        });
    }
    fn eval(&self, _env: &Env, c: &Case, obs: &mut Obs) -> Res {
        let t = &c.data[0];
        obs.trivial = t.len() < 2;
        obs.max("text length", t.len() as u64);
        if t.is_empty() {
            return Ok(());
        }
        let want = model::borders(t);
        if t.len() < 200 {
            // the reference itself against the definition
            for i in 2..=t.len() {
                let b = (0..i).rev().find(|&l| t[..l] == t[i - l..i]).unwrap_or(0);
                if b != want[i] {
                    return Err(Fail::Inconclusive("reference borders are wrong".into()));
                }
            }
        }
        let b = call("border_array", || core::border_array(t))?;
        same_arr("border_array", &b, &want)?;
        let p = call("smallest_period", || core::smallest_period(&want))?;
        let wp = model::period(t);
        ensure!(p == wp, "smallest_period is {}, expected {}", p, wp);
        let pr = call("is_primitive", || core::is_primitive(t))?;
        let wpr = model::primitive(t);
        ensure!(pr == wpr, "is_primitive is {}, expected {}", pr, wpr);
        obs.add(if wpr { "primitive" } else { "non-primitive" }, 1);
        obs.seen("periods", wp as u64);
        if t.len() < 2000 {
            let mut v = Symbols { what: What::Borders(&want, wpr), t };
            types::some_types(t, c.hash(), 2, obs, &mut v)?;
            let s: Vec<char> = t.iter().map(|&x| x as char).collect();
            let b = call("border_array::<char>", || core::border_array(&s))?;
            same_arr("border_array::<char>", &b, &want)?;
            let s: Vec<String> = t.iter().map(|&x| x.to_string()).collect();
            let pr = call("is_primitive::<String>", || core::is_primitive(&s))?;
            ensure!(pr == wpr, "is_primitive::<String> is {}, expected {}", pr, wpr);
        }
        Ok(())
    }
}
