//! Every operation of the library as one call from (text, number) to a digest of its result, so
//! that the same workload can be executed natively, under sanitizers, under an interpreter, from
//! several threads, and be compared.
use std::panic::{catch_unwind, AssertUnwindSafe};
use stringology::{core, io, word};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(1);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

#[derive(Default)]
struct D(u64);
impl D {
    fn n(&mut self, x: u64) -> &mut D {
        self.0 = mix(self.0 ^ x).wrapping_add(x);
        self
    }
    fn b(&mut self, v: &[u8]) -> &mut D {
        self.n(v.len() as u64);
        for &x in v {
            self.n(x as u64);
        }
        self
    }
    fn a<T: Copy + TryInto<u64>>(&mut self, v: &[T]) -> &mut D {
        self.n(v.len() as u64);
        for &x in v {
            self.n(x.try_into().unwrap_or(u64::MAX));
        }
        self
    }
}

/// hands out a text in pieces, with interruptions
struct Pieces<'a> {
    t: &'a [u8],
    k: u64,
}
impl std::io::Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.k = mix(self.k);
        if self.k % 7 == 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let l = (1 + (self.k >> 8) as usize % 5)
            .min(buf.len())
            .min(self.t.len());
        buf[..l].copy_from_slice(&self.t[..l]);
        self.t = &self.t[l..];
        Ok(l)
    }
}

/// operations that ignore the text
pub const WORDS: &[&str] = &[
    "fibonacci", "fibonacci-lyndon-factor", "tribonacci", "kolakoski", "thue-morse", "period-doubling", "paper-folding",
    "quaternary-paper-folding", "de-bruijn", "power2", "vtm",
];
/// operations within the documented domain of each function
pub const PURE: &[&str] = &[
    "sa",
    "isa",
    "phi",
    "plcp",
    "lcp",
    "psv",
    "nsv",
    "psv-text",
    "nsv-text",
    "duval",
    "isa-lyndon",
    "border",
    "period",
    "primitive",
    "bbwt",
    "matrix-naive",
    "bwt-from-sa",
    "conjugate",
    "conjugates",
    "runs",
    "necklace",
    "lyndonwords",
    "binary",
    "fibonacci",
    "fibonacci-lyndon-factor",
    "tribonacci",
    "kolakoski",
    "thue-morse",
    "period-doubling",
    "paper-folding",
    "quaternary-paper-folding",
    "de-bruijn",
    "power2",
    "vtm",
    "numbers",
    "bit-size",
    "chars",
    "morphisms",
    "names",
];
/// operations that reach the C suffix sorter
pub const FOREIGN: &[&str] = &["bwt-sa", "bwt-sa-bare", "matrix"];
/// misuse: a panic is fine, anything else that goes wrong is not
pub const HOSTILE: &[&str] = &[
    "bad-plcp",
    "bad-lcp",
    "bad-isa",
    "bad-phi",
    "bad-bwt-from-sa",
    "bad-isa-lyndon",
    "bad-empty",
    "bad-necklace",
    "bad-zero",
    "bad-lyndonwords",
    "bad-random-strings",
    "bad-words",
];

/// operations whose time is not quadratic
pub const LINEAR: &[&str] = &[
    "isa", "phi", "plcp", "lcp", "psv", "nsv", "psv-text", "nsv-text", "duval", "isa-lyndon", "border", "period",
    "primitive", "bwt-from-sa", "conjugate", "runs", "chars", "names", "bwt-sa", "bwt-sa-bare", "bad-plcp", "bad-lcp",
    "bad-isa", "bad-phi", "bad-bwt-from-sa", "bad-isa-lyndon", "bad-zero",
];

/// the suffix array of a long text, by doubling with counting sort
pub fn suffix_array(t: &[u8]) -> Vec<i32> {
    let n = t.len();
    let mut rank: Vec<usize> = t.iter().map(|&c| c as usize + 1).collect();
    let mut sa: Vec<usize> = vec![0; n];
    let mut by_second: Vec<usize> = (0..n).collect();
    let mut sigma = 257;
    let mut k = 0;
    loop {
        let mut count = vec![0usize; sigma + 1];
        for &r in &rank {
            count[r] += 1;
        }
        for c in 1..=sigma {
            count[c] += count[c - 1];
        }
        for &i in by_second.iter().rev() {
            count[rank[i]] -= 1;
            sa[count[rank[i]]] = i;
        }
        let mut next = vec![1usize; n];
        for j in 1..n {
            let (a, b) = (sa[j - 1], sa[j]);
            let same = rank[a] == rank[b] && (k == 0 || rank.get(a + k) == rank.get(b + k));
            next[b] = next[a] + !same as usize;
        }
        if n == 0 || next[sa[n - 1]] == n {
            return sa.iter().map(|&x| x as i32).collect();
        }
        rank = next;
        sigma = n;
        k = if k == 0 { 1 } else { k * 2 };
        by_second.clear();
        by_second.extend(n - k..n);
        by_second.extend(sa.iter().filter(|&&i| i >= k).map(|&i| i - k));
    }
}

fn sa32(t: &[u8]) -> Vec<i32> {
    if t.len() > 300 {
        // several operations start from it
        thread_local!(static LAST: std::cell::RefCell<(Vec<u8>, Vec<i32>)> = const { std::cell::RefCell::new((Vec::new(), Vec::new())) });
        return LAST.with(|l| {
            let mut l = l.borrow_mut();
            if l.0 != t {
                *l = (t.to_vec(), suffix_array(t));
            }
            l.1.clone()
        });
    }
    core::suffixarray_naive(t)
        .iter()
        .map(|&x| x as i32)
        .collect()
}

/// garbage indices, some of them plausible
fn garbage(n: u64, len: usize, range: i64) -> Vec<i32> {
    let mut r = Rng(n);
    let l = match r.below(4) {
        0 => r.below(len + 3),
        _ => len,
    };
    (0..l)
        .map(|_| match r.below(12) {
            0 => -1,
            1 => i32::MIN,
            2 => i32::MAX,
            3 => range as i32,
            _ => r.below(range.max(1) as usize) as i32,
        })
        .collect()
}

/// words taken from an enumeration
const MANY: usize = if cfg!(miri) { 300 } else { 5000 };

fn run(name: &str, t: &[u8], n: u64) -> u64 {
    let mut d = D(1);
    let t = if t.len() > 600 && !LINEAR.contains(&name) { &t[..600] } else { t };
    // the orders of the words are small; at times they are not
    let high = !cfg!(miri) && n > 14 && n & 7 == 7;
    let up = |m: u64, top: u64| if high { ((n >> 3) % top) as u8 } else { (n % 13 % m) as u8 };
    match name {
        "sa" => d.a(&core::suffixarray_naive(t)),
        "isa" => d.a(&core::inverse_permutation(&sa32(t))),
        "phi" => d.a(&core::compute_phi(&sa32(t))),
        "plcp" => d.a(&core::compute_plcp(t, &core::compute_phi(&sa32(t)))),
        "lcp" => {
            let sa = sa32(t);
            let plcp = core::compute_plcp(t, &core::compute_phi(&sa));
            d.a(&core::compute_lcp(&plcp, &sa))
        }
        "psv" => d.a(&core::compute_psv(&sa32(t))),
        "nsv" => d.a(&core::compute_nsv(&sa32(t))),
        "psv-text" => d.a(&core::compute_psv(t)),
        "nsv-text" => d.a(&core::compute_nsv(t)),
        "duval" => d.a(&core::duval(t)),
        "isa-lyndon" => d.a(&core::isa_lyndon_factorization(&core::inverse_permutation(
            &sa32(t),
        ))),
        "border" => d.a(&core::border_array(t)),
        "period" => d.n(core::smallest_period(&core::border_array(t)) as u64),
        "primitive" => d.n(core::is_primitive(t) as u64),
        "bbwt" => d.b(&core::bbwt_naive(t)),
        "matrix-naive" => d.b(&core::bwt_by_matrix_naive(t)),
        "bwt-from-sa" => {
            let sa: Vec<usize> = sa32(t).iter().map(|&x| x as usize).collect();
            d.b(&core::bwt_from_sa(t, &sa))
        }
        "conjugate" => d.n(core::lyndon_conjugate(t) as u64),
        "conjugates" => {
            // the interpreter is slow
            let t = &t[..t.len().min(if cfg!(miri) { 40 } else { 600 })];
            for (i, c) in core::ConjugateIterator::new(t).enumerate() {
                if t.len() <= 40 || i % 16 == 0 {
                    d.b(&c);
                } else {
                    d.n(c.len() as u64).n(c[0] as u64).n(c[i - 1] as u64).n(c[c.len() - 1] as u64);
                }
            }
            &mut d
        }
        "runs" => d.n(core::number_of_runs(&mut Pieces { t, k: n }) as u64),
        "necklace" => {
            for i in 1..=t.len() {
                d.n(word::is_necklace(t, i) as u64);
            }
            &mut d
        }
        "lyndonwords" => {
            for w in core::LyndonWordGenerator::new(1 + (n % 6) as usize, 2 + (n >> 8) as usize % 4)
                .take(MANY)
            {
                d.b(&w);
            }
            &mut d
        }
        "binary" => {
            for w in core::BinaryStringGenerator::new((n % 12) as u8).take(MANY) {
                d.b(&w);
            }
            &mut d
        }
        "fibonacci" => d.b(&word::fibonacci_word(up(13, 25))),
        "fibonacci-lyndon-factor" => d.b(&word::fibonacci_lyndonfactor(up(9, 13))),
        "tribonacci" => d.b(&word::tribonacci_word(up(10, 18))),
        "kolakoski" => d.b(&word::kolakoski_word(up(13, 20))),
        "thue-morse" => d.b(&word::thuemorse_word(up(11, 19))),
        "period-doubling" => d.b(&word::period_doubling_word(up(11, 19))),
        "paper-folding" => d.b(&word::paperfolding_word(up(11, 18))),
        "quaternary-paper-folding" => d.b(&word::quaternary_paperfolding_word(up(11, 18))),
        "de-bruijn" => d.b(&word::binary_debruijn_word(up(8, 13))),
        "power2" => d.b(&word::power2_sequence(up(11, 20))),
        "vtm" => d.b(&word::vtm_word(up(10, 17))),
        "numbers" => {
            for i in 0..40 {
                d.n(word::fibonacci_number(i) as u64)
                    .n(word::tribonacci_number(i) as u64);
            }
            &mut d
        }
        "bit-size" => d.n(core::bit_size(1 + (n >> (n % 64)) as usize) as u64),
        "chars" => {
            let mut p = Pieces { t, k: n };
            while let Some(c) = io::read_char_or_end(&mut p) {
                d.n(c as u64);
            }
            &mut d
        }
        "morphisms" => d
            .b(word::thuemorse_morphism(b'a'))
            .b(word::fibonacci_morphism(b'b'))
            .b(word::tribonacci_morphism(b'c'))
            .b(word::vtm_morphism(b'a'))
            .b(word::fibonacci_lyndonfactor_morphism(b'a')),
        "names" => {
            let s = Some(String::from_utf8_lossy(t).to_string());
            d.b(core::get_filename(&s).as_bytes())
                .b(core::get_filename(&None).as_bytes());
            d.b(core::stringopt_stropt(&s).unwrap_or("").as_bytes())
        }
        #[cfg(not(feature = "pure"))]
        "bwt-sa" => {
            let mut v: Vec<u8> = t.iter().map(|&c| c.max(1)).collect();
            v.push(0);
            d.b(&core::bwt_from_text_by_sa(&v))
        }
        #[cfg(not(feature = "pure"))]
        "bwt-sa-bare" => d.b(&core::bwt_from_text_by_sa(
            &t.iter().map(|&c| c.max(1)).collect(),
        )),
        #[cfg(not(feature = "pure"))]
        "matrix" => d.b(&core::bwt_by_matrix(t)),

        "bad-plcp" => d.a(&core::compute_plcp(t, &garbage(n, t.len(), t.len() as i64))),
        "bad-lcp" => {
            let p: Vec<u32> = garbage(n, t.len(), t.len() as i64)
                .iter()
                .map(|&x| x as u32)
                .collect();
            d.a(&core::compute_lcp(
                &p,
                &garbage(mix(n), t.len(), t.len() as i64),
            ))
        }
        "bad-isa" => d.a(&core::inverse_permutation(&garbage(
            n,
            t.len(),
            t.len() as i64,
        ))),
        "bad-phi" => d.a(&core::compute_phi(&garbage(n, t.len(), t.len() as i64))),
        "bad-bwt-from-sa" => {
            let g: Vec<usize> = garbage(n, t.len(), t.len() as i64 + 1)
                .iter()
                .map(|&x| x as usize)
                .collect();
            d.b(&core::bwt_from_sa(t, &g))
        }
        "bad-isa-lyndon" => d.a(&core::isa_lyndon_factorization(&garbage(
            n,
            t.len(),
            t.len() as i64,
        ))),
        "bad-empty" => match n % 12 {
            0 => d.a(&core::suffixarray_naive::<u8>(&[])),
            1 => d.a(&core::compute_phi::<i32>(&[])),
            2 => d.a(&core::compute_psv::<u8>(&[])),
            3 => d.a(&core::compute_nsv::<u8>(&[])),
            4 => d.a(&core::duval::<u8>(&[])),
            5 => d.a(&core::border_array::<u8>(&[])),
            6 => d.n(core::smallest_period(&[]) as u64),
            7 => d.b(&core::bbwt_naive::<u8>(&[])),
            8 => d.n(core::lyndon_conjugate::<u8>(&[]) as u64),
            9 => d.a(&core::isa_lyndon_factorization(&[])),
            10 => d.a(&core::compute_plcp(&[], &[])),
            _ => d.b(&core::bwt_by_matrix_naive::<u8>(&[])),
        },
        "bad-necklace" => d.n(word::is_necklace(t, t.len() + 1 + (n % 5) as usize) as u64),
        #[cfg(not(feature = "pure"))]
        "bad-zero" => {
            let mut v = t.to_vec();
            let p = n as usize % v.len().max(1);
            if !v.is_empty() {
                v[p] = 0;
            }
            d.b(&core::bwt_from_text_by_sa(&v))
        }
        "bad-lyndonwords" => {
            for w in
                core::LyndonWordGenerator::new((n % 3) as usize, (n >> 8) as usize % 2).take(20)
            {
                d.b(&w);
            }
            for w in core::LyndonWordGenerator::new(2, 255 + (n % 4) as usize).take(600) {
                d.b(&w);
            }
            &mut d
        }
        "bad-random-strings" => {
            let lo = (n >> 8) as usize % 40;
            for w in core::RandomStringGenerator::new(lo..lo * 3, 1 + (n % 7) as u8).take(6) {
                d.n(w.len() as u64);
            }
            &mut d
        }
        "bad-words" => match n % 4 {
            0 => d.b(word::thuemorse_morphism(n as u8)),
            1 => d.b(word::vtm_morphism((n >> 8) as u8)),
            2 => d.n(word::fibonacci_number(90 + (n >> 8) as u8 % 100) as u64),
            _ => d.n(word::tribonacci_number(70 + (n >> 8) as u8 % 100) as u64),
        },
        _ => d.n(77),
    };
    d.0
}

pub const PANICKED: u64 = 0xdead_dead_dead_dead;

/// digest of the result of one operation; a panic is one possible result
pub fn digest(name: &str, t: &[u8], n: u64) -> u64 {
    catch_unwind(AssertUnwindSafe(|| run(name, t, n))).unwrap_or(PANICKED)
}

/// the command line of the workload
///   ops SEED COUNT MAXLEN [SHARD SHARDS [MINLEN]]   all operations on generated texts; with MINLEN only those
///                                                   that cope with long ones
///   given FILE SEED                                 the operations on the texts of a file, each behind its length
///   threads SEED THREADS CALLS MAXLEN               concurrent calls on shared texts, against a
///                                                   sequential reference
pub fn command(a: &[String]) -> i32 {
    let num = |i: usize, d: u64| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(d);
    std::panic::set_hook(Box::new(|_| {}));
    match a.first().map(|s| s.as_str()) {
        Some("ops") => {
            let (seed, count, max) = (num(1, 1), num(2, 10), num(3, 40) as usize);
            let (shard, shards) = (num(4, 0), num(5, 1).max(1));
            let min = num(6, 1) as usize;
            let mut calls = 0u64;
            let mut panics = 0u64;
            let mut all = 0u64;
            for i in 0..count {
                if i % shards != shard {
                    continue;
                }
                let mut r = Rng(mix(seed ^ mix(i)));
                let t = text_within(&mut r, min, max);
                for o in names(true) {
                    if min > 1 && !LINEAR.contains(&o) {
                        continue;
                    }
                    let h = digest(o, &t, r.next());
                    calls += 1;
                    panics += (h == PANICKED) as u64;
                    if !o.starts_with("bad-") {
                        if h == PANICKED {
                            println!("PANIC {} {:?}", o, &t[..t.len().min(100)]);
                        }
                        all = mix(all ^ h);
                    }
                }
            }
            println!("OPS calls={} panics={} digest={:x}", calls, panics, all);
            0
        }
        Some("given") => {
            let b = std::fs::read(&a[1]).expect("texts");
            let mut r = Rng(num(2, 1));
            let (mut calls, mut panics, mut all, mut p) = (0u64, 0u64, 0u64, 0);
            while p + 4 <= b.len() {
                let l = u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]) as usize;
                // no room behind the text
                let t: Vec<u8> = b[p + 4..p + 4 + l].to_vec();
                p += 4 + l;
                for o in names(true) {
                    if l > 600 && !LINEAR.contains(&o) {
                        continue;
                    }
                    let h = digest(o, &t, r.next());
                    calls += 1;
                    panics += (h == PANICKED) as u64;
                    if !o.starts_with("bad-") {
                        if h == PANICKED {
                            println!("PANIC {} {:?}", o, &t[..t.len().min(100)]);
                        }
                        all = mix(all ^ h);
                    }
                }
            }
            println!("OPS calls={} panics={} digest={:x}", calls, panics, all);
            0
        }
        Some("threads") => {
            let c = threads(num(1, 1), num(2, 4), num(3, 100), num(4, 60) as usize);
            for b in &c.bad {
                println!("{}", b);
            }
            println!(
                "THREADS calls={} words={} takers={} switches={} order={:x} bad={}",
                c.calls,
                c.words,
                c.takers,
                c.switches,
                c.order,
                c.bad.len()
            );
            !c.bad.is_empty() as i32
        }
        _ => {
            eprintln!("usage: libwork ops SEED COUNT MAXLEN [SHARD SHARDS [MINLEN]] | threads SEED THREADS CALLS MAXLEN");
            2
        }
    }
}

/// a text with some repetition
pub fn text(r: &mut Rng, max: usize) -> Vec<u8> {
    text_within(r, 1, max)
}
pub fn text_within(r: &mut Rng, min: usize, max: usize) -> Vec<u8> {
    let len = min + r.below(max + 1 - min.min(max));
    let sigma = [1usize, 2, 2, 3, 4, 26, 256][r.below(7)];
    let base = if sigma == 256 {
        0
    } else {
        [b'a', 1, 127, 250 - sigma as u8][r.below(4)]
    };
    let p = 1 + r.below(len);
    let period = r.below(3) == 0;
    let mut v: Vec<u8> = Vec::with_capacity(len);
    for i in 0..len {
        if period && i >= p {
            let c = v[i - p];
            v.push(c);
        } else {
            v.push(base.wrapping_add(r.below(sigma) as u8));
        }
    }
    if r.below(6) == 0 {
        v[len - 1] = 0;
    }
    v
}

use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;

/// A lock whose atomics are compiled with the harness: the race detector sees them, unlike those
/// of the precompiled standard library.
struct Lock<T> {
    held: AtomicBool,
    v: UnsafeCell<T>,
}
unsafe impl<T: Send> Sync for Lock<T> {}
impl<T> Lock<T> {
    fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        while self
            .held
            .compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed)
            .is_err()
        {
            std::thread::yield_now();
        }
        let r = f(unsafe { &mut *self.v.get() });
        self.held.store(false, Ordering::Release);
        r
    }
}

pub fn names(hostile: bool) -> Vec<&'static str> {
    let mut v: Vec<&str> = PURE.to_vec();
    if !cfg!(feature = "pure") {
        v.extend(FOREIGN);
    }
    if hostile {
        v.extend(HOSTILE);
    }
    v
}

type Shared = Lock<(u64, core::LyndonWordGenerator)>;
/// One operation called by all threads at once, on few short texts, as often as time permits: the shortest way
/// from one call into another. Returns the number of calls and the first difference.
pub fn duel(a: &str, b: &str, texts: &[Vec<u8>], threads: usize, millis: u64) -> (u64, Option<String>) {
    let nums = [1u64, 6];
    let want: Vec<Vec<u64>> = [a, b].iter().map(|o| texts.iter().flat_map(|t| nums.iter().map(|&n| digest(o, t, n))).collect()).collect();
    let barrier = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let start = std::time::Instant::now();
    let mut all = 0;
    let mut bad = None;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let (want, barrier, stop) = (&want, &barrier, &stop);
                s.spawn(move || {
                    barrier.fetch_add(1, Ordering::AcqRel);
                    while barrier.load(Ordering::Acquire) < threads as u64 {
                        std::thread::yield_now();
                    }
                    let mut calls = 0u64;
                    let mut r = Rng(mix(k as u64));
                    while !stop.load(Ordering::Relaxed) && start.elapsed().as_millis() < millis as u128 {
                        for _ in 0..32 {
                            let o = (k + (calls as usize >> 10)) % 2;
                            let i = r.below(texts.len());
                            let n = r.below(2);
                            calls += 1;
                            let got = digest([a, b][o], &texts[i], nums[n]);
                            if got != want[o][2 * i + n] {
                                stop.store(true, Ordering::Relaxed);
                                return (calls, Some(format!("{} on {:?} beside {} gives {:x}, alone {:x}", [a, b][o], &texts[i][..texts[i].len().min(60)], [b, a][o], got, want[o][2 * i + n])));
                            }
                        }
                    }
                    (calls, None)
                })
            })
            .collect();
        for h in hs {
            let (c, b) = h.join().expect("thread");
            all += c;
            bad = bad.take().or(b);
        }
    });
    (all, bad)
}

fn take(g: &Shared) -> Option<(u64, Vec<u8>)> {
    g.with(|(n, g)| {
        let w = g.next()?;
        *n += 1;
        Some((*n, w))
    })
}

/// what a concurrent execution looked like
pub struct Concurrent {
    pub calls: u64,
    pub words: usize,
    /// threads that got a word from the shared generator
    pub takers: usize,
    /// consecutive words that went to different threads
    pub switches: usize,
    /// fingerprint of which thread got which word
    pub order: u64,
    pub bad: Vec<String>,
}

/// concurrent calls on shared texts, compared with the same calls made one after another
pub fn threads(seed: u64, threads: u64, calls: u64, max: usize) -> Concurrent {
    let mut report: Vec<String> = Vec::new();
    let mut r = Rng(mix(seed));
    // several texts of the same lengths: a result kept for a length would show
    let mut texts: Vec<Vec<u8>> = (0..6).map(|_| text(&mut r, max)).collect();
    for i in 0..6 {
        let mut t = texts[i].clone();
        let p = r.below(t.len());
        t[p] = t[p].wrapping_add(1).max(1);
        texts.push(t);
    }
    let ops = names(false);
    let texts = Arc::new(texts);
    let barrier = Arc::new(AtomicU64::new(0));
    let mut plans: Vec<Vec<(usize, usize, u64)>> = Vec::new();
    for t in 0..threads {
        let mut r = Rng(mix(seed ^ mix(t + 99)));
        plans.push(
            (0..calls)
                .map(|_| (r.below(ops.len()), r.below(texts.len()), r.next() % 1000))
                .collect(),
        );
    }
    let (wl, ws) = if max > 30 { (8, 3) } else { (4, 3) };
    let gen = Arc::new(Lock {
        held: AtomicBool::new(false),
        v: UnsafeCell::new((0u64, core::LyndonWordGenerator::new(wl, ws))),
    });
    let mut hs = Vec::new();
    for plan in plans.clone() {
        let (texts, barrier, gen, ops) = (texts.clone(), barrier.clone(), gen.clone(), ops.clone());
        hs.push(std::thread::spawn(move || {
            barrier.fetch_add(1, Ordering::AcqRel);
            while barrier.load(Ordering::Acquire) < threads {
                std::thread::yield_now();
            }
            let mut res = Vec::new();
            let mut words = Vec::new();
            for (o, t, n) in plan {
                res.push(digest(ops[o], &texts[t], n));
                if let Some(w) = take(&gen) {
                    words.push(w);
                }
            }
            // whoever is left drains the shared generator
            while let Some(w) = take(&gen) {
                words.push(w);
                std::thread::yield_now();
            }
            (res, words)
        }));
    }
    let mut words: Vec<(u64, usize, Vec<u8>)> = Vec::new();
    let mut takers = 0usize;
    let done: Vec<_> = hs.into_iter().map(|h| h.join().expect("thread")).collect();
    for (k, (res, w)) in done.into_iter().enumerate() {
        takers += !w.is_empty() as usize;
        for (i, &(o, t, n)) in plans[k].iter().enumerate() {
            let want = digest(ops[o], &texts[t], n);
            if want != res[i] {
                report.push(format!(
                    "DIFFERS {} text {:?} number {}: {:x} concurrently, {:x} alone",
                    ops[o], texts[t], n, res[i], want
                ));
            }
        }
        words.extend(w.into_iter().map(|(i, w)| (i, k, w)));
    }
    words.sort();
    // the recorded history: word number i of the generator went to thread k
    let switches = words.windows(2).filter(|p| p[0].1 != p[1].1).count();
    let order = words.iter().fold(0, |h, w| mix(h ^ w.1 as u64));
    let got: Vec<&Vec<u8>> = words.iter().map(|w| &w.2).collect();
    let want: Vec<Vec<u8>> = core::LyndonWordGenerator::new(wl, ws).collect();
    let want: Vec<&Vec<u8>> = want.iter().collect();
    if got != want {
        report.push(format!(
            "WORDS the threads got {} words from the shared generator, which has {}: {:?} ...",
            got.len(),
            want.len(),
            &got[..got.len().min(5)]
        ));
    }
    Concurrent {
        calls: threads * calls,
        words: got.len(),
        takers,
        switches,
        order,
        bad: report,
    }
}

#[cfg(test)]
mod tests {
    #[test]
    fn doubling() {
        let mut r = super::Rng(5);
        for m in [1, 5, 30, 400] {
            for _ in 0..200 {
                let t = super::text(&mut r, m);
                let want: Vec<i32> = { let mut v: Vec<i32> = (0..t.len() as i32).collect(); v.sort_by_key(|&i| &t[i as usize..]); v };
                assert_eq!(super::suffix_array(&t), want);
            }
        }
    }
}
