//! Scaling of the work (C33): executed instructions, counted by callgrind, against the text size.
use super::Check;
use crate::case::*;
use crate::cli::*;
use crate::gen::*;
use crate::rng::{hash_bytes, Rng};
use crate::tools::*;
use crate::{ensure, Obs};
use std::hint::black_box;
use stringology::{core, word};

const FAMILIES: &[&str] = &[
    "unary", "random over 2", "random over 26", "random over 255", "fibonacci", "a^n b", "b a^n", "falling", "rising", "period 2",
    "period 7", "period 1000", "square", "b a^i", "b a^i backwards", "blocks a^sqrt b", "thue-morse", "a^n b a^n c", "staircase of Lyndon words", "runs of 255",
    "palindrome", "a^n b^n", "(ab)^n c", "c (ab)^n", "(ab)^n a a", "all letters in turn", "falling Lyndon words", "copies of a random part",
    "period-doubling", "(a^k b)^m with one change in the middle",
];

fn family(f: usize, n: usize) -> Vec<u8> {
    let mut r = Rng::new(f as u64);
    let cycle = |u: Vec<u8>| -> Vec<u8> { u.into_iter().cycle().take(n).collect() };
    let random = |r: &mut Rng, n: usize, s: usize, lo: u8| -> Vec<u8> { (0..n).map(|_| lo + r.below(s) as u8).collect() };
    let mut v: Vec<u8> = match f {
        0 => vec![b'a'; n],
        1 => random(&mut r, n, 2, b'a'),
        2 => random(&mut r, n, 26, b'a'),
        3 => random(&mut r, n, 255, 1),
        4 => {
            let (mut a, mut b) = (vec![b'a'], vec![b'a', b'b']);
            while b.len() < n {
                let c = [b.clone(), a].concat();
                a = b;
                b = c;
            }
            b
        }
        5 => {
            let mut v = vec![b'a'; n];
            v[n - 1] = b'b';
            v
        }
        6 => {
            let mut v = vec![b'a'; n];
            v[0] = b'b';
            v
        }
        7 => (0..n).map(|i| 255 - (i * 254 / n) as u8).collect(),
        8 => (0..n).map(|i| 1 + (i * 254 / n) as u8).collect(),
        9 => cycle(b"ab".to_vec()),
        10 => cycle(b"abaabac".to_vec()),
        11 => cycle(random(&mut r, 1000, 2, b'a')),
        12 => {
            let u = random(&mut r, n / 2, 2, b'a');
            [u.clone(), u].concat()
        }
        13 | 14 => {
            let mut v = Vec::new();
            let mut i = 1;
            while v.len() < n {
                v.push(b'b');
                v.resize(v.len() + i, b'a');
                i += 1;
            }
            v.truncate(n);
            if f == 14 {
                v.reverse();
            }
            v
        }
        15 => {
            let k = (n as f64).sqrt() as usize;
            let mut u = vec![b'a'; k];
            u.push(b'b');
            cycle(u)
        }
        16 => (0..n).map(|i: usize| b'a' + (i.count_ones() & 1) as u8).collect(),
        17 => {
            let k = n / 2 - 1;
            [vec![b'a'; k], vec![b'b'], vec![b'a'; k], vec![b'c']].concat()
        }
        18 => {
            // ab aab aaab ... backwards in the Lyndon order
            let mut v = Vec::new();
            let mut i = 1;
            while v.len() < n {
                v.resize(v.len() + i, b'a');
                v.extend_from_slice(b"bb");
                i += 1;
            }
            v
        }
        19 => (0..n).map(|i| b'a' + (i / 255 % 2) as u8).collect(),
        20 => {
            let mut u = random(&mut r, n / 2, 4, b'a');
            let back: Vec<u8> = u.iter().rev().copied().collect();
            u.extend(back);
            u
        }
        21 => [vec![b'a'; n / 2], vec![b'b'; n - n / 2]].concat(),
        22 => [cycle(b"ab".to_vec())[..n - 1].to_vec(), vec![b'c']].concat(),
        23 => [vec![b'c'], cycle(b"ab".to_vec())[..n - 1].to_vec()].concat(),
        24 => [cycle(b"ab".to_vec())[..(n - 2) & !1].to_vec(), b"aa".to_vec()].concat(),
        25 => cycle((1..=255).collect()),
        26 => {
            // w_i = c_i c_i+1^k with falling c_i
            let k = n / 200;
            (0..n).map(|i| 250 - (i / (k + 1)).min(240) as u8 + u8::from(i % (k + 1) != 0)).collect()
        }
        27 => {
            let base = random(&mut r, n / 8, 4, b'a');
            let mut v = base.clone();
            while v.len() < n {
                let (s, l) = (r.below(base.len()), r.log_range(1, base.len()));
                v.extend_from_slice(&base[s..(s + l).min(base.len())]);
                v.push(b'a' + r.below(4) as u8);
            }
            v.truncate(n);
            v
        }
        28 => (1..=n).map(|i: usize| b'a' + (i.trailing_zeros() & 1) as u8).collect(),
        _ => {
            let mut v = cycle(b"aaaaaaaaaaaaaaab".to_vec());
            v[n / 2] ^= 3;
            v
        }
    };
    v.resize(n, b'a');
    v
}

const OPS: &[&str] = &[
    "inverse_permutation", "compute_phi", "compute_plcp", "compute_lcp", "compute_psv of the suffix array", "compute_nsv of the suffix array",
    "compute_psv of the text", "compute_nsv of the text", "duval", "isa_lyndon_factorization", "border_array", "smallest_period", "is_primitive",
    "bwt_from_sa", "bwt_from_text_by_sa", "lyndon_conjugate", "number_of_runs", "is_necklace", "read_char_or_end",
];

struct Inputs {
    t: Vec<u8>,
    dollar: Vec<u8>,
    sa: Vec<i32>,
    sau: Vec<usize>,
    isa: Vec<i32>,
    phi: Vec<i32>,
    plcp: Vec<u32>,
    border: Vec<u32>,
}

/// the only code whose instructions are counted
#[no_mangle]
#[inline(never)]
pub extern "C" fn vmon_measured(op: usize, i: *const std::ffi::c_void) {
    if op >= OPS.len() {
        return; // ends the last measurement
    }
    let i = unsafe { &*(i as *const Inputs) };
    let t = &i.t;
    match op {
        0 => drop(black_box(core::inverse_permutation(&i.sa))),
        1 => drop(black_box(core::compute_phi(&i.sa))),
        2 => drop(black_box(core::compute_plcp(t, &i.phi))),
        3 => drop(black_box(core::compute_lcp(&i.plcp, &i.sa))),
        4 => drop(black_box(core::compute_psv(&i.sa))),
        5 => drop(black_box(core::compute_nsv(&i.sa))),
        6 => drop(black_box(core::compute_psv(t))),
        7 => drop(black_box(core::compute_nsv(t))),
        8 => drop(black_box(core::duval(t))),
        9 => drop(black_box(core::isa_lyndon_factorization(&i.isa))),
        10 => drop(black_box(core::border_array(t))),
        11 => {
            black_box(core::smallest_period(&i.border.iter().map(|&x| x as _).collect::<Vec<_>>()));
        }
        12 => {
            black_box(core::is_primitive(t));
        }
        13 => drop(black_box(core::bwt_from_sa(t, &i.sau))),
        14 => drop(black_box(core::bwt_from_text_by_sa(&i.dollar))),
        15 => {
            black_box(core::lyndon_conjugate(t));
        }
        16 => {
            black_box(core::number_of_runs(&mut t.as_slice()));
        }
        17 => {
            black_box(word::is_necklace(t, t.len()));
        }
        _ => {
            let mut r = t.as_slice();
            while let Some(c) = stringology::io::read_char_or_end(&mut r) {
                black_box(c);
            }
        }
    }
}

type WordFn = fn(u8) -> Vec<u8>;
/// generator, and two orders whose words differ in length by a factor of four or so
const WORDS: &[(&str, WordFn, u8, u8)] = &[
    ("fibonacci_word", word::fibonacci_word, 18, 21),
    ("tribonacci_word", word::tribonacci_word, 14, 16),
    ("kolakoski_word", word::kolakoski_word, 20, 23),
    ("thuemorse_word", word::thuemorse_word, 13, 15),
    ("period_doubling_word", word::period_doubling_word, 13, 15),
    ("paperfolding_word", word::paperfolding_word, 12, 14),
    ("quaternary_paperfolding_word", word::quaternary_paperfolding_word, 6, 7),
    ("binary_debruijn_word", word::binary_debruijn_word, 12, 14),
    ("power2_sequence", word::power2_sequence, 12, 14),
    ("vtm_word", word::vtm_word, 12, 14),
];

#[no_mangle]
#[inline(never)]
pub extern "C" fn vmon_measured_word(w: usize, k: usize) -> usize {
    if w < WORDS.len() {
        return black_box(WORDS[w].1(k as u8)).len();
    }
    match w - WORDS.len() {
        0 => core::LyndonWordGenerator::new(k, 2).map(|w| black_box(w).len()).sum(),
        1 => core::BinaryStringGenerator::new(k as u8).map(|w| black_box(w).len()).sum(),
        2 => {
            let t = family(1, 400);
            core::ConjugateIterator::new(&t[..k]).map(|w| black_box(w).len()).sum()
        }
        _ => core::LyndonWordGenerator::new(k, 5).map(|w| black_box(w).len()).sum(),
    }
}
const STREAMS: &[(&str, usize, usize)] = &[
    ("LyndonWordGenerator over 2 letters", 12, 14),
    ("BinaryStringGenerator", 10, 12),
    ("ConjugateIterator", 150, 300),
    ("LyndonWordGenerator over 5 letters", 5, 6),
];

/// generating tools with the arguments of a smaller and of a larger output
const GENERATORS: &[(&str, &str, &str)] = &[
    ("enumerate", "1 12000", "1 48000"),
    ("enumerate", "1 1 100", "1 1 200"),
    ("enumerate", "2 8", "2 10"),
    ("enumerate", "2 1 8", "2 1 10"),
    ("enumerate", "26 2", "26 3"),
    ("enumerate", "5 1 4", "5 1 5"),
    ("lyndonwords", "-l 11 -s 2", "-l 13 -s 2"),
    ("lyndonwords", "-l 2 -s 40", "-l 2 -s 80"),
    ("lyndonwords", "-l 4 -s 7", "-l 4 -s 10"),
    ("randomstring", "-a 0 -p 9000", "-a 0 -p 36000"),
    ("randomstring", "-a 62 -p 9000", "-a 62 -p 36000"),
    ("randomstring", "-a 7 -p 9000", "-a 7 -p 36000"),
    ("randomstring", "-a 1 -p 3000", "-a 1 -p 12000"),
    ("word", "-n fibonacci -k 18", "-n fibonacci -k 21"),
    ("word", "-n fibonacci-lyndon-factor -k 10", "-n fibonacci-lyndon-factor -k 12"),
    ("word", "-n tribonacci -k 13", "-n tribonacci -k 15"),
    ("word", "-n kolakoski -k 16", "-n kolakoski -k 19"),
    ("word", "-n thue-morse -k 13", "-n thue-morse -k 15"),
    ("word", "-n period-doubling -k 13", "-n period-doubling -k 15"),
    ("word", "-n paper-folding -k 12", "-n paper-folding -k 14"),
    ("word", "-n quaternary-paper-folding -k 13", "-n quaternary-paper-folding -k 15"),
    ("word", "-n binary-de-brujin -k 10", "-n binary-de-brujin -k 12"),
    ("word", "-n power2 -k 13", "-n power2 -k 15"),
    ("word", "-n vtm -k 12", "-n vtm -k 14"),
];

/// vmon work lib FAMILY N | vmon work word W K: prints what it did; counting is left to callgrind
pub fn work_command(a: &[String]) -> i32 {
    let num = |i: usize| a[i].parse::<usize>().unwrap();
    match a[0].as_str() {
        "lib" => {
            let t = family(num(1), num(2));
            let sa = libwork::suffix_array(&t);
            let phi = core::compute_phi(&sa);
            let plcp = core::compute_plcp(&t, &phi);
            let i = Inputs {
                dollar: [t.clone(), vec![0]].concat(),
                sau: sa.iter().map(|&x| x as usize).collect(),
                isa: core::inverse_permutation(&sa),
                border: core::border_array(&t).iter().map(|&x| x as u32).collect(),
                plcp,
                phi,
                sa,
                t,
            };
            for op in 0..=OPS.len() {
                vmon_measured(op, &i as *const Inputs as *const std::ffi::c_void);
            }
            println!("DONE");
        }
        _ => {
            let l = vmon_measured_word(num(1), num(2));
            vmon_measured(OPS.len(), std::ptr::null());
            println!("LENGTH {}", l);
        }
    }
    0
}

pub struct C33;

const SLACK: f64 = 400_000.0;
const CPU: u64 = 280;

fn judge(what: &str, a: u64, la: usize, b: u64, lb: usize, obs: &mut Obs) -> Res {
    obs.add("instructions counted", a + b);
    let growth = lb as f64 / la as f64;
    let limit = 1.5 * growth * a as f64 + SLACK;
    obs.max("share of the limit, in percent", (100.0 * b as f64 / limit) as u64);
    ensure!(
        b as f64 <= limit,
        "{}: {} instructions for {} symbols but {} for {}: {:.1} times the work for {:.1} times the size",
        what,
        a,
        la,
        b,
        lb,
        b as f64 / a.max(1) as f64,
        growth
    );
    obs.max("work per symbol, in instructions", b / lb.max(1) as u64);
    Ok(())
}

impl C33 {
    fn callgrind<'a>(&self, env: &'a Env, extra: &[String]) -> Tool<'a> {
        let mut t = Tool::new(env, Build::Release, "valgrind").arg("--tool=callgrind").args(extra.iter().cloned());
        t.exe = Some("/usr/bin/valgrind".into());
        t.nolimit = true;
        t.strict_cpu = true;
        t.cpu = CPU;
        t
    }
    /// instructions of a whole run
    fn total(&self, env: &Env, bin: &str, argv: &[String], t: &[u8]) -> Res<(u64, Out)> {
        let dir = env.bins[Build::Release as usize].clone().ok_or_else(|| Fail::Inconclusive("no release build".into()))?;
        let o = self.callgrind(env, &["--callgrind-out-file=/dev/null".into()]).arg(dir.join(bin).into_os_string()).args(argv.iter().cloned()).input(t).run()?;
        ensure!(o.code == Some(0), "{} {:?} on a valid input: {}", bin, argv, o.status());
        let e = String::from_utf8_lossy(&o.err).to_string();
        let n = e
            .lines()
            .find_map(|l| l.split("Collected : ").nth(1).and_then(|x| x.trim().parse::<u64>().ok()))
            .ok_or_else(|| Fail::Inconclusive(format!("callgrind reports no count: {}", o.status())))?;
        Ok((n, o))
    }
    /// instructions of every measured call of one process
    fn calls(&self, env: &Env, args: &[String], obs: &mut Obs) -> Res<(Vec<u64>, String)> {
        let dir = scratch(env, "cg");
        std::fs::create_dir(&dir).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        struct Rm(std::path::PathBuf);
        impl Drop for Rm {
            fn drop(&mut self) {
                let _ = std::fs::remove_dir_all(&self.0);
            }
        }
        let _rm = Rm(dir.clone());
        let me = std::env::current_exe().map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let f = dir.join("out");
        let o = self
            .callgrind(
                env,
                &[format!("--callgrind-out-file={}", f.display()), "--dump-before=vmon_measured*".into()],
            )
            .arg(me.into_os_string())
            .arg("work")
            .args(args.iter().cloned())
            .run()?;
        if o.code != Some(0) {
            return Err(Fail::Violation(format!("the library fails on valid input: {}", o.status())));
        }
        let mut v = Vec::new();
        // dump k holds what happened between the calls k - 1 and k
        for k in 2.. {
            let Ok(s) = std::fs::read(dir.join(format!("out.{}", k))) else { break };
            let s = String::from_utf8_lossy(&s).to_string();
            let n = s
                .lines()
                .find_map(|l| l.strip_prefix("totals: ").or(l.strip_prefix("summary: ")).and_then(|x| x.trim().parse::<u64>().ok()))
                .ok_or_else(|| Fail::Inconclusive("callgrind reports no total".into()))?;
            v.push(n);
        }
        obs.add("measured calls", v.len() as u64);
        Ok((v, String::from_utf8_lossy(&o.out).to_string()))
    }
}

impl Check for C33 {
    fn rule(&self) -> &'static str {
        "executed instructions (callgrind) of the analysing and transforming tools and of the library functions on thirty text families (unary, random, periodic, Fibonacci, monotone, block, staircase and palindromic texts, copies), each at two sizes apart by a factor of four, and of the word generators and enumerators, library and tools, at two output sizes; the growth must not exceed 1.5 times the growth of the size; each (tool or function, family, size) is a case"
    }
    fn min_nontrivial(&self) -> u64 {
        60
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["callgrind counts the instructions the program executes", "the text families stand for other texts; growth is observed up to the larger size only"]
    }
    fn case_cpu_limit(&self) -> u64 {
        200
    }
    fn shrinkable(&self, _c: &Case) -> bool {
        false
    }
    fn generate(&self, g: &mut Gen) {
        let thorough = g.thorough;
        for f in 0..FAMILIES.len() {
            for n in if g.thorough { vec![7_000, 40_000] } else { vec![7_000] } {
                g.case(|_| Case::new("lib", &[f as i64, n], &[]));
            }
        }
        for w in 0..WORDS.len() {
            g.case(|_| Case::new("word", &[w as i64, WORDS[w].2 as i64, WORDS[w].3 as i64], &[]));
            if g.thorough {
                g.case(|_| Case::new("word", &[w as i64, WORDS[w].2 as i64 + 1, WORDS[w].3 as i64 + 2], &[]));
            }
        }
        for (i, s) in STREAMS.iter().enumerate() {
            g.case(|_| Case::new("word", &[(WORDS.len() + i) as i64, s.1 as i64, s.2 as i64], &[]));
        }
        for i in 0..GENERATORS.len() {
            g.case(|_| Case::new("gen", &[i as i64], &[]));
        }
        for s in SPECS {
            if s.args.contains(&"-u") || s.args.contains(&"--use-matrix") || s.bin == "is_stringattractor" {
                continue;
            }
            for f in 0..FAMILIES.len() {
                g.case(|r| {
                    let n = if thorough { r.log_range(20_000, 100_000) } else { r.range(6_000, 9_000) };
                    Case::new("tool", &[s.id as i64, f as i64, n as i64, (r.next() >> 2) as i64], &[])
                });
            }
        }
    }
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res {
        obs.add(&format!("cases {}", c.kind), 1);
        match c.kind.as_str() {
            "lib" => {
                let (f, n) = (c.nums[0] as usize, c.nums[1] as usize);
                let (a, _) = self.calls(env, &["lib".into(), f.to_string(), n.to_string()], obs)?;
                let (b, _) = self.calls(env, &["lib".into(), f.to_string(), (4 * n).to_string()], obs)?;
                if a.len() != OPS.len() || b.len() != OPS.len() {
                    return Err(Fail::Inconclusive(format!("{} and {} measurements instead of {}", a.len(), b.len(), OPS.len())));
                }
                for k in 0..OPS.len() {
                    judge(&format!("{} on texts of the family \"{}\"", OPS[k], FAMILIES[f]), a[k], n, b[k], 4 * n, obs)?;
                    obs.seen("functions and families", hash_bytes(f as u64, OPS[k].as_bytes()));
                }
                Ok(())
            }
            "word" => {
                let mut m = Vec::new();
                for k in [c.nums[1], c.nums[2]] {
                    let (v, out) = self.calls(env, &["word".into(), c.nums[0].to_string(), k.to_string()], obs)?;
                    let l: usize = out.trim().strip_prefix("LENGTH ").and_then(|x| x.parse().ok()).unwrap_or(0);
                    if v.len() != 1 || l == 0 {
                        return Err(Fail::Inconclusive("no measurement".into()));
                    }
                    m.push((v[0], l));
                }
                let w = c.nums[0] as usize;
                let name = if w < WORDS.len() { WORDS[w].0 } else { STREAMS[w - WORDS.len()].0 };
                judge(&format!("{} with parameters {} and {}", name, c.nums[1], c.nums[2]), m[0].0, m[0].1, m[1].0, m[1].1, obs)
            }
            "gen" => {
                let (bin, small, large) = GENERATORS[c.nums[0] as usize];
                let mut m = Vec::new();
                for a in [small, large] {
                    let argv: Vec<String> = a.split(' ').map(|x| x.to_string()).collect();
                    let (n, o) = self.total(env, bin, &argv, &[])?;
                    m.push((n, o.out.len()));
                }
                judge(&format!("{} {} against {}", bin, small, large), m[0].0, m[0].1, m[1].0, m[1].1, obs)
            }
            "tool" => {
                let s = &SPECS[c.nums[0] as usize];
                let (f, n) = (c.nums[1] as usize, c.nums[2] as usize);
                let of = TempFile::none(env, "of");
                let mut m = Vec::new();
                for l in [n, 4 * n] {
                    let mut argv = s.argv(l, c.nums[3] as u64);
                    if s.place != Place::No && c.nums[3] & 1 == 0 {
                        argv.push("-o".into());
                        argv.push(of.path().display().to_string());
                    }
                    m.push(self.total(env, s.bin, &argv, &s.input(&family(f, l)))?.0);
                }
                obs.seen("tools and families", hash_bytes(f as u64 * 100 + s.id as u64, s.bin.as_bytes()));
                judge(&format!("{} {:?} on texts of the family \"{}\"", s.bin, s.args, FAMILIES[f]), m[0], n, m[1], 4 * n, obs)
            }
            _ => {
                obs.trivial = true;
                Ok(())
            }
        }
    }
}
