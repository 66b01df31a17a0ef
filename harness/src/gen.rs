//! Workload generation: text families that stress different structure, and exhaustive small texts.
use crate::case::Case;
use crate::rng::{mix, Rng};

/// Shards and numbers the cases of a check. Case i is made from a generator seeded by (seed, i).
pub struct Gen<'a> {
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub idx: u64,
    pub thorough: bool,
    /// multiplies the number of generated cases
    pub boost: usize,
    pub sink: &'a mut dyn FnMut(u64, Case) -> bool,
    pub stopped: bool,
}

impl Gen<'_> {
    pub fn case(&mut self, mk: impl FnOnce(&mut Rng) -> Case) {
        let i = self.idx;
        self.idx += 1;
        if self.stopped || mix(i) % self.shards != self.shard {
            return;
        }
        let mut r = Rng::new(mix(self.seed) ^ mix(i.wrapping_mul(0x2545F4914F6CDD1D)));
        let c = mk(&mut r);
        if !(self.sink)(i, c) {
            self.stopped = true;
        }
    }
    pub fn many(&mut self, n: usize, mut mk: impl FnMut(&mut Rng) -> Case) {
        for _ in 0..n {
            if self.stopped {
                return;
            }
            self.case(&mut mk);
        }
    }
    /// number of cases, quick or thorough
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        self.size(quick, thorough) * self.boost
    }
    /// a quantity that is not a number of cases
    pub fn size(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// every string of length lo..=hi over symbols 0..sigma
    pub fn exhaustive(&mut self, sigma: usize, lo: usize, hi: usize, mut mk: impl FnMut(&[u8]) -> Case) {
        for len in lo..=hi {
            let mut w = vec![0u8; len];
            loop {
                if self.stopped {
                    return;
                }
                self.case(|_| mk(&w));
                let mut p = len;
                let mut done = true;
                while p > 0 {
                    p -= 1;
                    if (w[p] as usize) + 1 < sigma {
                        w[p] += 1;
                        done = false;
                        break;
                    }
                    w[p] = 0;
                }
                if done {
                    break;
                }
            }
        }
    }
}

/// Which bytes may occur.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dom {
    ZeroFree,
    All,
}

const BOUNDARY: &[usize] = &[
    1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 98, 99, 100, 101, 127, 128, 129, 199, 200, 254, 255, 256,
    257, 258, 299, 300, 301, 399, 400, 401, 499, 500, 501, 510, 511, 512, 513, 514, 599, 600, 767, 768, 769, 999, 1000, 1001, 1023, 1024, 1025, 1499, 1500, 1501, 1999, 2000, 2001, 2047, 2048, 2049, 2999, 3000, 3001, 4095, 4096, 4097, 4999, 5000, 5001, 8191,
    8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 32767, 32768, 32769, 49999, 50000, 50001, 65534, 65535, 65536, 65537, 65538, 99999, 100000, 100001, 131071, 131072, 131073,
];
const RUNS: &[usize] = &[127, 128, 129, 253, 254, 255, 256, 257, 258, 259, 510, 511, 512, 513, 514, 767, 768, 769, 1024];

/// Numbers written in the sources under observation, with their neighbours: where behaviour depends on a size or
/// a count, it changes next to one of them. They guide the workload only.
fn numbers() -> &'static [usize] {
    static NUMBERS: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    NUMBERS.get_or_init(|| {
        let mut v = Vec::new();
        for dir in ["/repo/src", "/repo/src/bin"] {
            let mut files: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
            files.sort();
            for f in files {
                if f.extension().is_some_and(|x| x == "rs" || x == "c") {
                    numbers_of(&std::fs::read_to_string(f).unwrap_or_default(), &mut v);
                }
            }
        }
        v.retain(|x| !BOUNDARY.contains(x));
        v.sort();
        v.dedup();
        v
    })
}

fn numbers_of(source: &str, v: &mut Vec<usize>) {
    for line in source.lines().map(str::trim_start) {
        if line.starts_with("//") || line.starts_with("#[") {
            continue;
        }
        let mut shift = None;
        for w in line.split(|c: char| !c.is_ascii_alphanumeric() && c != '_' && c != '<') {
            if w == "<<" {
                continue;
            }
            let d = w.replace('_', "");
            let d = ["usize", "u64", "u32", "u16", "u8", "i64", "i32", "isize"].iter().find_map(|t| d.strip_suffix(t)).unwrap_or(&d).to_string();
            let n = match d.strip_prefix("0x") {
                Some(h) => usize::from_str_radix(h, 16).ok(),
                None => d.parse::<usize>().ok(),
            };
            if let Some(n) = n {
                let mut all = vec![n];
                if let Some(base) = shift.filter(|_| line.contains("<<") && n < 40) {
                    let base: usize = base;
                    all.push(base.min(1 << 20) << n);
                }
                for n in all {
                    if (6..20_000_000).contains(&n) {
                        v.extend([n - 1, n, n + 1]);
                    }
                }
                shift = Some(n);
            } else if !w.is_empty() {
                shift = None;
            }
        }
    }
}

/// Byte sequences written in the sources: strings, byte strings, characters, lists of small numbers. Where
/// behaviour depends on particular bytes, they are among them. They guide the workload only.
fn words_of(source: &str, v: &mut Vec<Vec<u8>>) {
    let source: String = source.lines().filter(|l| !l.trim_start().starts_with("//")).collect::<Vec<_>>().join("\n");
    let b = source.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' || b[i] == b'\'' {
            // a literal, with its escapes
            let quote = b[i];
            let mut w = Vec::new();
            let mut j = i + 1;
            while j < b.len() && b[j] != quote && w.len() <= 12 && b[j] != b'\n' {
                if b[j] == b'\\' && j + 1 < b.len() {
                    j += 1;
                    match b[j] {
                        b'n' => w.push(10),
                        b'r' => w.push(13),
                        b't' => w.push(9),
                        b'0' => w.push(0),
                        b'x' if j + 2 < b.len() => {
                            w.push(u8::from_str_radix(&source[j + 1..j + 3].chars().filter(|c| c.is_ascii()).collect::<String>(), 16).unwrap_or(0));
                            j += 2;
                        }
                        c => w.push(c),
                    }
                } else {
                    w.push(b[j]);
                }
                j += 1;
            }
            let closed = j < b.len() && b[j] == quote;
            if closed && !w.is_empty() && (quote == b'"' || w.len() <= 4) {
                v.push(w);
            }
            i = if closed { j + 1 } else { i + 1 };
            continue;
        }
        if b[i] == b'[' {
            if let Some(l) = b[i..].iter().take(80).position(|&c| c == b']') {
                let list: Option<Vec<u8>> = source
                    .get(i + 1..i + l)
                    .map(|s| s.split(',').map(str::trim).filter(|x| !x.is_empty()).map(|x| byte_literal(x)).collect::<Option<Vec<u8>>>())
                    .unwrap_or(None);
                if let Some(w) = list.filter(|w| w.len() >= 2 && w.len() <= 12) {
                    v.push(w);
                }
            }
        }
        if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let l = b[i..].iter().position(|c| !(c.is_ascii_alphanumeric() || *c == b'_')).unwrap_or(0);
            if let Some(c) = byte_literal(&source[i..i + l]) {
                if c > 8 {
                    v.push(vec![c]);
                }
            }
            i += l.max(1);
            continue;
        }
        i += 1;
    }
}
fn byte_literal(x: &str) -> Option<u8> {
    let d = x.replace('_', "");
    let d = d.strip_suffix("u8").unwrap_or(&d).to_string();
    if let Some(h) = d.strip_prefix("0x") {
        return u8::from_str_radix(h, 16).ok();
    }
    if let Some(c) = d.strip_prefix("b'").and_then(|c| c.strip_suffix('\'')) {
        return c.bytes().next().filter(|_| c.len() == 1);
    }
    d.parse().ok()
}

/// byte sequences that some program or other treats as special, and those of the sources
fn dictionary() -> &'static (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    static WORDS: std::sync::OnceLock<(Vec<Vec<u8>>, Vec<Vec<u8>>)> = std::sync::OnceLock::new();
    WORDS.get_or_init(|| {
        let known: &[&[u8]] = &[
            b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\x1f\x8b\x08", b"BZh9", b"\xfd7zXZ\0", b"PK\x03\x04", b"\x7fELF", b"%PDF-", b"#!", b"\r\n",
            b"\n\n", b"\r", b"\n", b"\t", b" ", b"\x1a", b"\x04", b"\x1b[", b">", b"@", b";", b"//", b"--", b"-", b"\\", b"\\0", b"\\n", b"\"", b"'", b"%s", b"%",
            b"{}", b"(", b")", b"(,)", b",", b"=", b"$", b"#", b"~", b"\x80", b"\xc0\x80", b"\xff", b"\x00", b"\xff\xff", b"\x00\x00", b"0", b"00", b"N", b"\xed\xa0\x80",
            b"none", b"file=", b"RESULT", b"EOF", b"0123456789", b"255", b"256",
        ];
        let mut v = Vec::new();
        for dir in ["/repo/src", "/repo/src/bin"] {
            let mut files: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
            files.sort();
            for f in files.iter().filter(|f| f.extension().is_some_and(|x| x == "rs")) {
                words_of(&std::fs::read_to_string(f).unwrap_or_default(), &mut v);
            }
        }
        v.sort();
        v.dedup();
        (known.iter().map(|w| w.to_vec()).collect(), v)
    })
}
/// a word of the dictionary
pub fn token(r: &mut Rng) -> Vec<u8> {
    let (known, found) = dictionary();
    if r.chance(1, 2) && !found.is_empty() {
        let k = found.iter().filter(|w| w.len() <= 3).count();
        if r.chance(1, 2) && k > 0 {
            return found.iter().filter(|w| w.len() <= 3).nth(r.below(k)).cloned().unwrap_or_default();
        }
        return r.pick(found).clone();
    }
    r.pick(known).clone()
}
/// places words of the dictionary into a text
fn sprinkle(r: &mut Rng, dom: Dom, v: &mut [u8]) {
    let put = |v: &mut [u8], w: &[u8], p: usize| {
        for (k, &c) in w.iter().enumerate() {
            if c != 0 || dom == Dom::All {
                if let Some(x) = v.get_mut(p + k) {
                    *x = c;
                }
            }
        }
    };
    let n = v.len();
    let w = token(r);
    match r.below(6) {
        0 | 1 => put(v, &w, 0),
        2 => put(v, &w, n.saturating_sub(w.len())),
        3 => {
            put(v, &w, 0);
            let u = if r.chance(1, 2) { w } else { token(r) };
            put(v, &u, n.saturating_sub(u.len()));
        }
        4 => {
            for _ in 0..r.range(1, 5) {
                let w = token(r);
                let p = r.below(n);
                put(v, &w, p);
            }
        }
        _ => {
            // everywhere
            let mut p = r.below(n);
            let most = length(r, n);
            while p < n {
                put(v, &w, p);
                p += w.len() + if r.chance(1, 2) { 0 } else { r.below(most + 1) };
            }
        }
    }
}

/// one of the numbers of the sources up to max
fn number(r: &mut Rng, max: usize) -> Option<usize> {
    let k = numbers().partition_point(|&x| x <= max);
    if k == 0 {
        return None;
    }
    Some(numbers()[r.below(k)])
}

pub fn length(r: &mut Rng, max: usize) -> usize {
    if max == 0 {
        return 0;
    }
    if r.chance(1, 16) {
        if let Some(n) = number(r, max) {
            return n;
        }
    }
    if r.chance(1, 4) {
        let k = BOUNDARY.iter().filter(|&&b| b <= max).count();
        BOUNDARY[r.below(k)]
    } else {
        r.log_range(1, max)
    }
}

/// An injective map of symbols 0..=255 to bytes allowed in the domain (at most 255 symbols when zero is excluded).
fn byte_map(r: &mut Rng, dom: Dom, sigma: usize) -> Vec<u8> {
    if sigma > 1 && sigma < 40 && r.chance(1, 12) {
        // bytes of the dictionary
        let mut v: Vec<u8> = Vec::new();
        for _ in 0..60 {
            for c in token(r) {
                if v.len() < sigma && !v.contains(&c) && (c != 0 || dom == Dom::All) {
                    v.push(c);
                }
            }
        }
        if v.len() == sigma {
            return v;
        }
    }
    let lo = if dom == Dom::ZeroFree { 1usize } else { 0 };
    let span = 256 - lo;
    let sigma = sigma.min(span);
    match r.below(9) {
        0..=2 if sigma <= 26 => (0..sigma).map(|i| b'a' + i as u8).collect(),
        3 => (0..sigma).map(|i| (lo + i) as u8).collect(),
        4 => (0..sigma).map(|i| (256 - sigma + i) as u8).collect(),
        5 if sigma <= 10 => (0..sigma).map(|i| b'0' + i as u8).collect(),
        6 if sigma <= 200 => {
            // around the sign boundary of a byte
            let s = (128 - sigma / 2).max(lo).min(256 - sigma);
            (0..sigma).map(|i| (s + i) as u8).collect()
        }
        _ => {
            let mut all: Vec<u8> = (lo..256).map(|x| x as u8).collect();
            r.shuffle(&mut all);
            all.truncate(sigma);
            // extremes are the interesting bytes
            if r.chance(1, 2) && !all.contains(&255) {
                let k = r.below(all.len());
                all[k] = 255;
            }
            if dom == Dom::All && r.chance(1, 2) && !all.contains(&0) {
                let k = r.below(all.len());
                all[k] = 0;
            }
            if r.chance(1, 2) {
                all.sort();
            }
            all
        }
    }
}

fn sigma_for(r: &mut Rng) -> usize {
    if r.chance(1, 6) {
        return r.range(1, 256);
    }
    *r.pick(&[1usize, 2, 2, 2, 2, 3, 3, 4, 4, 5, 8, 16, 26, 64, 128, 200, 255, 256])
}

pub fn random_word(r: &mut Rng, len: usize, sigma: usize) -> Vec<u8> {
    (0..len).map(|_| r.below(sigma) as u8).collect()
}

fn morphic(r: &mut Rng, len: usize) -> Vec<u8> {
    let rules: &[&[&[u8]]] = &[
        &[&[0, 1], &[0]],
        &[&[0, 1], &[1, 0]],
        &[&[0, 1], &[0, 0]],
        &[&[0, 1], &[0, 2], &[0]],
        &[&[0, 1, 2], &[0, 2], &[1]],
        &[&[0, 0, 1], &[0, 1]],
        &[&[0, 1, 1], &[1, 0]],
        &[&[0, 2], &[0, 1], &[1, 1, 2]],
    ];
    let m = *r.pick(rules);
    let mut w = vec![0u8];
    while w.len() < len {
        let mut n = Vec::with_capacity(w.len() * 2);
        for &c in &w {
            n.extend_from_slice(m[c as usize]);
            if n.len() > len + 4 && n.len() > w.len() {
                break;
            }
        }
        if n.len() <= w.len() {
            break;
        }
        w = n;
    }
    w.truncate(len);
    w
}

fn de_bruijn(k: usize, n: usize) -> Vec<u8> {
    // standard recursive construction by prenecklaces (FKM)
    let mut a = vec![0u8; k * n + 1];
    let mut seq = Vec::new();
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut [u8], seq: &mut Vec<u8>) {
        if t > n {
            if n % p == 0 {
                seq.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, seq);
            for j in a[t - p] + 1..k as u8 {
                a[t] = j;
                db(t + 1, t, k, n, a, seq);
            }
        }
    }
    db(1, 1, k, n, &mut a, &mut seq);
    seq
}

/// a text over symbols 0..256 with some structure
pub fn symbols(r: &mut Rng, len: usize, sigma: usize) -> Vec<u8> {
    let sigma = sigma.clamp(1, 256);
    let mut w: Vec<u8> = match r.below(18) {
        0..=2 => random_word(r, len, sigma),
        3 => {
            // runs of telling lengths
            let mut v = Vec::with_capacity(len + 1100);
            let mut last = 256;
            while v.len() < len {
                let mut c = r.below(sigma);
                if sigma > 1 {
                    while c == last {
                        c = r.below(sigma);
                    }
                }
                last = c;
                let l = match r.below(4) {
                    0 if r.chance(1, 8) => number(r, len).unwrap_or(1),
                    0 => *r.pick(RUNS),
                    1 => 1,
                    2 => r.range(1, 5),
                    _ => r.log_range(1, 700),
                };
                v.resize(v.len() + l, c as u8);
            }
            v
        }
        4 => {
            // powers of a short root with a few changes
            let p = length(r, len.max(2));
            let u = random_word(r, p, sigma);
            let mut v: Vec<u8> = (0..len).map(|i| u[i % p]).collect();
            for _ in 0..r.below(4) {
                let i = r.below(len);
                v[i] = r.below(sigma) as u8;
            }
            v
        }
        5 | 6 => morphic(r, len),
        7 => {
            // de Bruijn prefix or rotation
            // (all pairs of many symbols, or all words of a length over few)
            let mut k = sigma.clamp(2, 5);
            if r.chance(1, 3) {
                k = sigma.max(2);
                while k * k > len && k > 2 {
                    k -= 1;
                }
            }
            let mut n = 1;
            while k.pow(n as u32) < len && n < 18 {
                n += 1;
            }
            let b = de_bruijn(k, n);
            let o = if r.chance(1, 2) { 0 } else { r.below(b.len()) };
            (0..len).map(|i| b[(o + i) % b.len()]).collect()
        }
        8 | 9 => {
            // repetitive collection: copy from earlier text, overlaps allowed, occasional fresh letters
            let mut v = random_word(r, 1 + r.clone().below(4), sigma);
            while v.len() < len {
                if r.chance(1, 6) {
                    v.push(r.below(sigma) as u8);
                } else {
                    let s = r.below(v.len());
                    let l = length(r, (len / 3).max(2));
                    for k in 0..l {
                        let c = v[s + k];
                        v.push(c);
                    }
                }
            }
            v
        }
        10 => {
            // skewed / sticky Markov chain
            let mut c = 0usize;
            (0..len)
                .map(|_| {
                    if r.chance(1, 3) {
                        c = if r.chance(2, 3) { (c + 1) % sigma } else { r.below(sigma) };
                    }
                    c as u8
                })
                .collect()
        }
        11 => {
            // monotone texts: many or few Lyndon factors
            let mut v = random_word(r, len, sigma);
            v.sort();
            if r.chance(1, 2) {
                v.reverse();
            }
            v
        }
        12 => {
            // palindrome-like
            let h = random_word(r, len.div_ceil(2), sigma);
            let mut v = h.clone();
            v.extend(h.iter().rev());
            v
        }
        13 => {
            // Lyndon-structured: factors in a controlled order, with repetitions
            let mut v: Vec<u8> = Vec::new();
            let base = random_word(r, r.clone().range(1, 6), sigma);
            while v.len() < len {
                let k = r.range(1, 4);
                for _ in 0..k {
                    v.extend_from_slice(&base[..r.range(1, base.len())]);
                }
                if r.chance(1, 3) {
                    v.push((sigma - 1) as u8);
                }
            }
            v
        }
        14 => {
            // a word and its copies without the last, the first, or a middle letter: long substrings
            // that occur once although everything within them occurs again
            let k = (len / 3).max(1);
            let root = r.range(1, k);
            let u: Vec<u8> = if r.chance(1, 2) { random_word(r, k, sigma) } else { random_word(r, root, sigma).into_iter().cycle().take(k).collect() };
            let mut v = Vec::with_capacity(len + k);
            for i in 0..3 {
                if i > 0 {
                    v.push(r.below(sigma) as u8);
                }
                match (i, r.below(4)) {
                    (0, _) => v.extend_from_slice(&u),
                    (1, _) => v.extend_from_slice(&u[..k - 1]),
                    (_, 0) => {
                        let m = r.below(k);
                        v.extend_from_slice(&u[..m]);
                        v.extend_from_slice(&u[m + 1..]);
                    }
                    _ => v.extend_from_slice(&u[1..]),
                }
            }
            v
        }
        15 => {
            // Lyndon words of telling lengths, each smaller than the one before it, some repeated
            let mut v: Vec<u8> = Vec::with_capacity(len * 2);
            let mut c = sigma - 1;
            let most = r.range(1, len);
            while v.len() < len {
                if c + 1 >= sigma {
                    for _ in 0..r.below(4) {
                        v.push(c as u8);
                    }
                } else {
                    let l = length(r, most);
                    let s = v.len();
                    v.push(c as u8);
                    let k = r.range(1, sigma - 1 - c);
                    v.extend((1..l).map(|_| (c + 1 + r.below(k)) as u8));
                    if r.chance(1, 4) && l < len {
                        v.extend_from_within(s..);
                    }
                }
                c = c.saturating_sub(r.range(1, (sigma / 8).max(1)));
                if c == 0 && r.chance(1, 2) {
                    c = sigma - 1;
                }
            }
            v
        }
        16 => {
            // copies of telling lengths, from far away, each ended by a letter that does not go on with the copy
            let base = random_word(r, (len / r.clone().range(2, 5)).max(1), sigma);
            let mut v = base.clone();
            while v.len() < len {
                let l = length(r, base.len());
                let s = r.below(base.len() - l + 1);
                v.extend_from_slice(&base[s..s + l]);
                let next = base.get(s + l).map_or(0, |&c| c as usize);
                v.push(if sigma > 1 { ((next + r.range(1, sigma - 1)) % sigma) as u8 } else { 0 });
            }
            v
        }
        _ => {
            // all different symbols, repeated blocks
            let mut all: Vec<u8> = (0..sigma).map(|x| x as u8).collect();
            match r.below(3) {
                0 => {}
                1 => all.reverse(),
                _ => r.shuffle(&mut all),
            }
            (0..len).map(|i| all[i % all.len()]).collect()
        }
    };
    w.truncate(len);
    while w.len() < len {
        let c = r.below(sigma) as u8;
        w.push(c);
    }
    for c in w.iter_mut() {
        if *c as usize >= sigma {
            *c = (*c as usize % sigma) as u8;
        }
    }
    w
}

/// a byte text of the given length
pub fn text_of(r: &mut Rng, dom: Dom, len: usize) -> Vec<u8> {
    if len == 0 {
        return vec![];
    }
    if r.chance(1, 20) {
        // text with multi-byte UTF-8
        let words = ["größe ", "naïve ", "日本語", "Ω", "the ", "and ", "stringology ", "\n", "\u{1F600}", "é"];
        let mut v = Vec::new();
        while v.len() < len {
            v.extend_from_slice(r.pick(&words).as_bytes());
        }
        v.truncate(len);
        return v;
    }
    let sigma = sigma_for(r);
    let map = byte_map(r, dom, sigma);
    let mut v: Vec<u8> = symbols(r, len, map.len()).into_iter().map(|s| map[s as usize]).collect();
    if r.chance(1, 10) {
        sprinkle(r, dom, &mut v);
    }
    if r.chance(1, 8) {
        // special ends
        let lo = map.iter().min().copied().unwrap_or(1);
        let hi = map.iter().max().copied().unwrap_or(255);
        let extreme = *r.pick(&[lo, hi, 255, if dom == Dom::All { 0 } else { 1 }]);
        match r.below(6) {
            0 => v[0] = extreme,
            1 => v[len - 1] = extreme,
            // a run at an end
            4 => {
                let k = length(r, len);
                v[..k].fill(extreme);
            }
            5 => {
                let k = length(r, len);
                v[len - k..].fill(extreme);
            }
            2 => v[len - 1] = v[0],
            _ => {
                // a border
                let k = length(r, len / 2);
                v.copy_within(..k, len - k);
            }
        }
    }
    v
}

/// the telling lengths up to max, in random order
pub fn telling_lengths(r: &mut Rng, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = BOUNDARY.iter().chain(RUNS).chain(numbers()).copied().filter(|&x| x <= max).collect();
    v.sort();
    v.dedup();
    r.shuffle(&mut v);
    v
}

/// A long random part followed by copies of substrings of it, of telling lengths, each ended by a letter that does not
/// go on with the copy: repeats of exactly these lengths between far places.
pub fn far_copies(r: &mut Rng, dom: Dom, base: usize, total: usize) -> Vec<u8> {
    let sigma = *r.pick(&[3usize, 4, 8, 26, 200, 255]);
    let map = byte_map(r, dom, sigma);
    let sigma = map.len();
    let mut v = random_word(r, base, sigma);
    for l in telling_lengths(r, (total - base).min(base)) {
        if v.len() + l + 1 > total {
            continue;
        }
        let s = r.below(base - l + 1);
        v.extend_from_within(s..s + l);
        let next = v[s + l] as usize;
        v.push(((next + r.range(1, sigma - 1)) % sigma) as u8);
    }
    v.into_iter().map(|c| map[c as usize]).collect()
}

/// Lyndon words of telling lengths, each smaller than the one before it, some of them repeated
pub fn falling_lyndon(r: &mut Rng, total: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(total);
    let mut c = 253u8;
    for l in telling_lengths(r, total.min(140_000)) {
        if v.len() + l > total {
            continue;
        }
        let s = v.len();
        v.push(c);
        for _ in 1..l {
            v.push(r.range(c as usize + 1, 255) as u8);
        }
        if r.chance(1, 6) && v.len() + l <= total {
            v.extend_from_within(s..);
        }
        if c == 0 {
            break;
        }
        c -= 1;
    }
    v
}

/// a length around a million or two, often next to a power of two
pub fn huge_length(r: &mut Rng) -> usize {
    if r.chance(1, 2) {
        let b = *r.pick(&[1usize << 20, 1 << 20, 1_000_000, 1_048_575, 1 << 21, 2_000_000]);
        b + r.below(5) - 2
    } else {
        r.log_range(900_000, 2_200_000)
    }
}

/// beyond 24 bits
pub fn giant_length(r: &mut Rng) -> usize {
    if r.chance(1, 2) {
        (1usize << 24) + r.below(5) - 2
    } else {
        r.range(16_800_000, 19_000_000)
    }
}

pub fn text(r: &mut Rng, dom: Dom, max: usize) -> Vec<u8> {
    let l = length(r, max);
    text_of(r, dom, l)
}

/// maps exhaustive symbols to bytes in one of several ways, chosen by the word itself
pub fn spread(w: &[u8], dom: Dom) -> Vec<u8> {
    let h = crate::rng::hash_bytes(7, w);
    let maps: [&[u8; 5]; 5] = [
        b"abcde",
        b"aBZ~\xff",
        b"\x01\x02\x7f\x80\xff",
        b"\x7f\x80\x81\xfe\xff",
        b"0123\xfd",
    ];
    let m = maps[(h % 5) as usize];
    w.iter()
        .map(|&s| {
            let b = m[s as usize];
            if dom == Dom::All && h % 3 == 0 && s == 0 {
                0
            } else {
                b
            }
        })
        .collect()
}

/// very long texts of an extreme kind
pub fn extreme(r: &mut Rng, dom: Dom, len: usize, kind: usize) -> Vec<u8> {
    let lo = if dom == Dom::ZeroFree { 1 } else { 0 };
    match kind % 4 {
        0 => vec![r.range(lo, 255) as u8; len],
        1 => (0..len).map(|_| r.range(lo, 255) as u8).collect(),
        2 => {
            let (a, b) = (r.range(lo, 254) as u8, 255);
            (0..len).map(|_| if r.chance(1, 2) { a } else { b }).collect()
        }
        _ => {
            // a power of a short word with one letter changed
            let w: Vec<u8> = (0..r.range(2, 40)).map(|_| r.range(lo, 255) as u8).collect();
            let mut v: Vec<u8> = w.iter().cycle().take(len).copied().collect();
            let p = if r.chance(1, 2) { len - 1 - r.below(5) } else { r.below(len) };
            v[p] = v[p].wrapping_add(1).max(lo as u8);
            v
        }
    }
}
