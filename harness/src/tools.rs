//! What every tool accepts, so that system-level properties can be observed on all of them.
use crate::gen::{length, text, text_of, Dom};
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    /// no output-file option
    No,
    /// the output file replaces stdout
    Instead,
    /// the output file gets the factors, stdout keeps the RESULT line
    Beside,
}

pub struct Spec {
    pub id: usize,
    pub bin: &'static str,
    pub args: &'static [&'static str],
    pub dom: Dom,
    pub empty: bool,
    pub prefix: bool,
    pub place: Place,
    /// prints a RESULT line; bytes added to the reported length
    pub result: Option<u64>,
}

const fn s(
    id: usize,
    bin: &'static str,
    args: &'static [&'static str],
    dom: Dom,
    empty: bool,
    prefix: bool,
    place: Place,
    result: Option<u64>,
) -> Spec {
    Spec { id, bin, args, dom, empty, prefix, place, result }
}

use Dom::{All, ZeroFree};
use Place::{Beside, Instead, No};
/// tools that read an input; "@" in an argument stands for a valid text position
pub const SPECS: &[Spec] = &[
    s(0, "bwt", &[], ZeroFree, true, true, Instead, None),
    s(1, "bwt", &["-n"], ZeroFree, false, true, Instead, None),
    s(2, "bwt", &["-u"], All, true, true, Instead, None),
    s(3, "bwt", &["-u", "-n"], All, false, true, Instead, None),
    s(4, "count_lexparse", &[], All, false, true, Beside, Some(0)),
    s(5, "count_r", &[], ZeroFree, true, true, No, Some(1)),
    s(6, "count_r", &["--no-dollar"], ZeroFree, false, true, No, Some(0)),
    s(7, "count_r", &["--use-matrix"], All, true, true, No, Some(1)),
    s(8, "count_runs", &[], All, true, false, No, None),
    s(9, "count_sigma", &[], All, true, true, No, Some(0)),
    s(10, "count_z", &[], All, false, true, Beside, Some(0)),
    s(11, "entropy", &[], All, true, true, No, Some(1)),
    s(12, "entropy", &["-o", "1"], ZeroFree, true, true, No, Some(1)),
    s(13, "entropy", &["--order", "3"], ZeroFree, true, true, No, Some(1)),
    s(14, "entropy_kmer", &["-o", "1"], All, true, true, No, Some(1)),
    s(15, "entropy_kmer", &["-o", "5"], All, true, true, No, Some(1)),
    s(16, "escape", &["-e", "254", "-f", "0,7", "-t", "255,8"], All, true, true, Instead, None),
    s(17, "escape", &["-e", "97"], All, true, true, Instead, None),
    s(18, "is_stringattractor", &["-a", "@", "@"], ZeroFree, false, true, No, None),
    s(19, "lyndonfactorization", &[], All, false, true, Beside, Some(0)),
    s(20, "mtf", &[], All, true, false, Instead, None),
    s(21, "mus", &[], ZeroFree, false, true, No, Some(0)),
    s(22, "reverse", &[], All, true, true, Instead, None),
    s(23, "rle", &[], All, true, false, Instead, None),
    s(24, "rle", &["--human"], All, true, false, Instead, None),
    s(25, "rle", &["-z"], All, true, false, Instead, None),
    s(26, "entropy", &["-o", "0"], All, true, true, No, Some(1)),
    s(27, "entropy_kmer", &["-o", "7"], All, true, true, No, Some(1)),
    // no prefix: with the reversion, a prefix length counts restored bytes
    s(28, "escape", &["-e", "254", "-f", "0,7", "-t", "255,8", "--is-reversion"], All, true, false, Instead, None),
    s(29, "escape", &["--is-reversion", "-e", "97"], All, true, false, Instead, None),
    s(30, "count_r", &["--use-matrix", "--no-dollar"], All, false, true, No, Some(0)),
    s(31, "rle", &["-z", "--human"], All, true, false, Instead, None),
    s(32, "entropy", &["-o", "12"], ZeroFree, true, true, No, Some(1)),
];

impl Spec {
    /// what the tool is fed with for a text: the text, or what it has to restore it from
    pub fn input(&self, t: &[u8]) -> Vec<u8> {
        match self.id {
            28 => t
                .iter()
                .flat_map(|&c| match c {
                    254 => vec![254, 254],
                    0 => vec![254, 255],
                    7 => vec![254, 8],
                    c => vec![c],
                })
                .collect(),
            29 => t.iter().flat_map(|&c| if c == 97 { vec![97, 97] } else { vec![c] }).collect(),
            _ => t.to_vec(),
        }
    }
    /// arguments for a text whose first `n` bytes are processed
    pub fn argv(&self, n: usize, h: u64) -> Vec<String> {
        let mut k = 0;
        self.args
            .iter()
            .map(|a| {
                if *a == "@" {
                    k += 7;
                    ((h >> k) as usize % n.max(1)).to_string()
                } else {
                    a.to_string()
                }
            })
            .collect()
    }
    /// is_stringattractor may list all substrings
    fn cap(&self, len: usize) -> usize {
        if self.bin == "is_stringattractor" {
            len.min(9000)
        } else {
            len
        }
    }
    /// some tools also take a text that brings its own terminator
    fn zero_end(&self, r: &mut Rng, mut t: Vec<u8>) -> Vec<u8> {
        if matches!(self.id, 1 | 6 | 21) && t.len() > 1 && r.chance(1, 6) {
            *t.last_mut().unwrap() = 0;
        }
        t
    }
    pub fn a_text(&self, r: &mut Rng, max: usize) -> Vec<u8> {
        let max = self.cap(max);
        if self.empty && r.chance(1, 40) {
            return vec![];
        }
        if self.dom == All && r.chance(1, 5) {
            return (0..length(r, max)).map(|_| r.byte()).collect();
        }
        let t = text(r, self.dom, max);
        self.zero_end(r, t)
    }
    pub fn a_text_of(&self, r: &mut Rng, len: usize) -> Vec<u8> {
        let t = text_of(r, self.dom, self.cap(len));
        self.zero_end(r, t)
    }
}

/// generators: they read nothing
pub fn generator_args(r: &mut Rng) -> (&'static str, Vec<String>) {
    let v = |x: &[&str]| x.iter().map(|y| y.to_string()).collect::<Vec<_>>();
    match r.below(12) {
        0..=5 => {
            let names = [
                "fibonacci",
                "fibonacci-lyndon-factor",
                "tribonacci",
                "kolakoski",
                "thue-morse",
                "period-doubling",
                "paper-folding",
                "quaternary-paper-folding",
                "binary-de-brujin",
                "power2",
                "vtm",
            ];
            let n = *r.pick(&names);
            let top = if n == "fibonacci-lyndon-factor" { 9 } else { 13 };
            let k = r.range(0, top).to_string();
            ("word", v(&["-n", n, "-k", &k]))
        }
        6 | 7 => {
            let s = r.range(1, 26);
            let l = if s <= 3 { r.range(0, 9) } else { r.range(0, 3) };
            ("lyndonwords", v(&["-s", &s.to_string(), "-l", &l.to_string()]))
        }
        8..=10 => {
            let s = r.range(1, 26);
            let l = if s <= 2 { r.range(1, 9) } else { r.range(1, 3) };
            let m = l + r.below(2);
            ("enumerate", v(&[&s.to_string(), &l.to_string(), &m.to_string()]))
        }
        _ => ("generator_kmer", vec![]),
    }
}

/// removes what legitimately differs between runs: the time and the file name
pub fn normalize(out: &[u8], path: Option<&str>) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(out.len());
    let find = |hay: &[u8], needle: &[u8], from: usize| -> Option<usize> {
        (from..hay.len().saturating_sub(needle.len() - 1)).find(|&p| &hay[p..p + needle.len()] == needle)
    };
    if !out.starts_with(b"RESULT ") {
        return out.to_vec();
    }
    let end = out.iter().position(|&c| c == b'\n').unwrap_or(out.len());
    let line = &out[..end];
    let mut line = match find(line, b"time_ms=", 0) {
        Some(p) => {
            let mut q = p + 8;
            while q < line.len() && line[q].is_ascii_digit() {
                q += 1;
            }
            if q == p + 8 {
                line.to_vec()
            } else {
                [&line[..p], b"time_ms=T", &line[q..]].concat()
            }
        }
        None => line.to_vec(),
    };
    if let Some(path) = path {
        for key in ["file=", "input="] {
            let pat = format!(" {}{}", key, path);
            if let Some(p) = find(&line, pat.as_bytes(), 0) {
                let q = p + pat.len();
                if q == line.len() || line[q] == b' ' {
                    line = [&line[..p], format!(" {}none", key).as_bytes(), &line[q..]].concat();
                }
            }
        }
    }
    v.extend_from_slice(&line);
    v.extend_from_slice(&out[end..]);
    v
}
