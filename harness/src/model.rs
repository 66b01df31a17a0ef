//! Independent reference implementations. None of this uses the code under observation.
use std::collections::HashMap;

/// Suffix array by prefix doubling with counting sort; verified below by `sa_is_sorted`.
pub fn sa<T: Ord + Copy>(t: &[T]) -> Vec<usize> {
    let n = t.len();
    if n == 0 {
        return vec![];
    }
    let mut al: Vec<T> = t.to_vec();
    al.sort();
    al.dedup();
    let mut rank: Vec<u32> = t.iter().map(|c| al.binary_search(c).unwrap() as u32).collect();
    // initial order by first symbol
    let mut cnt = vec![0u32; al.len().max(n) + 2];
    for &r in &rank {
        cnt[r as usize + 1] += 1;
    }
    for i in 1..cnt.len() {
        cnt[i] += cnt[i - 1];
    }
    let mut sa = vec![0u32; n];
    for i in 0..n {
        let r = rank[i] as usize;
        sa[cnt[r] as usize] = i as u32;
        cnt[r] += 1;
    }
    let mut tmp = vec![0u32; n];
    let mut newrank = vec![0u32; n];
    let mut classes = {
        newrank[sa[0] as usize] = 0;
        for k in 1..n {
            let d = rank[sa[k] as usize] != rank[sa[k - 1] as usize];
            newrank[sa[k] as usize] = newrank[sa[k - 1] as usize] + d as u32;
        }
        std::mem::swap(&mut rank, &mut newrank);
        rank[sa[n - 1] as usize] as usize + 1
    };
    let mut h = 1usize;
    while classes < n {
        // order by second component (suffixes without one first), then stable by first
        let mut p = 0;
        for i in n - h.min(n)..n {
            tmp[p] = i as u32;
            p += 1;
        }
        for &s in &sa {
            if s as usize >= h {
                tmp[p] = s - h as u32;
                p += 1;
            }
        }
        for c in cnt[..=classes].iter_mut() {
            *c = 0;
        }
        for &r in &rank {
            cnt[r as usize + 1] += 1;
        }
        for i in 1..=classes {
            cnt[i] += cnt[i - 1];
        }
        for &s in &tmp {
            let r = rank[s as usize] as usize;
            sa[cnt[r] as usize] = s;
            cnt[r] += 1;
        }
        newrank[sa[0] as usize] = 0;
        let second = |i: u32| -> i64 {
            let j = i as usize + h;
            if j < n {
                rank[j] as i64
            } else {
                -1
            }
        };
        for k in 1..n {
            let (a, b) = (sa[k - 1], sa[k]);
            let d = rank[a as usize] != rank[b as usize] || second(a) != second(b);
            newrank[b as usize] = newrank[a as usize] + d as u32;
        }
        std::mem::swap(&mut rank, &mut newrank);
        classes = rank[sa[n - 1] as usize] as usize + 1;
        h *= 2;
    }
    sa.iter().map(|&x| x as usize).collect()
}

/// linear-time check that an array is the suffix array of t
pub fn sa_is_sorted<T: Ord + Copy>(t: &[T], sa: &[usize]) -> Result<(), String> {
    let n = t.len();
    if sa.len() != n {
        return Err(format!("length {} for a text of length {}", sa.len(), n));
    }
    let mut isa = vec![usize::MAX; n + 1];
    for (i, &p) in sa.iter().enumerate() {
        if p >= n || isa[p] != usize::MAX {
            return Err(format!("not a permutation: entry {} is {}", i, p));
        }
        isa[p] = i + 1;
    }
    isa[n] = 0;
    for i in 1..n {
        let (a, b) = (sa[i - 1], sa[i]);
        let ok = t[a] < t[b] || (t[a] == t[b] && isa[a + 1] < isa[b + 1]);
        if !ok {
            return Err(format!("suffixes {} and {} at ranks {} and {} are not in order", a, b, i - 1, i));
        }
    }
    Ok(())
}

pub fn inverse(p: &[usize]) -> Vec<usize> {
    let mut v = vec![0; p.len()];
    for (i, &x) in p.iter().enumerate() {
        v[x] = i;
    }
    v
}

/// longest common prefix with the lexicographic predecessor, in suffix array order (0 for the first)
pub fn lcp<T: Eq>(t: &[T], sa: &[usize]) -> Vec<usize> {
    let n = t.len();
    let isa = inverse(sa);
    let mut l = vec![0usize; n];
    let mut h = 0usize;
    for i in 0..n {
        if isa[i] == 0 {
            h = 0;
            continue;
        }
        let j = sa[isa[i] - 1];
        while i + h < n && j + h < n && t[i + h] == t[j + h] {
            h += 1;
        }
        l[isa[i]] = h;
        h = h.saturating_sub(1);
    }
    l
}

/// characters preceding the sorted suffixes
pub fn bwt(t: &[u8]) -> Vec<u8> {
    let n = t.len();
    sa(t).iter().map(|&p| t[(p + n - 1) % n]).collect()
}

/// inverse of the BWT of a text that ends in its unique smallest byte 0
pub fn unbwt(b: &[u8]) -> Option<Vec<u8>> {
    let n = b.len();
    let lf = lf_mapping(b);
    let mut out = vec![0u8; n];
    let mut k = 0usize; // row of the rotation starting with the terminator
    for i in (0..n).rev() {
        out[i] = b[k];
        k = lf[k];
    }
    // out is the text rotated: row 0 starts with the terminator, so its predecessor is the last letter before it
    if k != 0 {
        return None;
    }
    // out = [terminator, ...]? we collected letters preceding; the last collected is the terminator itself
    out.rotate_left(1);
    if *out.last()? != 0 {
        return None;
    }
    Some(out)
}

pub fn lf_mapping<T: Ord + Copy>(b: &[T]) -> Vec<usize> {
    let n = b.len();
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by_key(|&i| (b[i], i));
    let mut lf = vec![0; n];
    for (f, &l) in idx.iter().enumerate() {
        lf[l] = f;
    }
    lf
}

/// start of a lexicographically smallest rotation (two-candidate elimination)
pub fn min_rotation<T: Ord>(t: &[T]) -> usize {
    let n = t.len();
    let (mut i, mut j, mut k) = (0usize, 1usize, 0usize);
    while i < n && j < n && k < n {
        let a = &t[(i + k) % n];
        let b = &t[(j + k) % n];
        match a.cmp(b) {
            std::cmp::Ordering::Equal => {
                k += 1;
                continue;
            }
            std::cmp::Ordering::Greater => i += k + 1,
            std::cmp::Ordering::Less => j += k + 1,
        }
        if i == j {
            j += 1;
        }
        k = 0;
    }
    i.min(j)
}

pub fn rotate<T: Clone>(t: &[T], k: usize) -> Vec<T> {
    let mut v = t[k..].to_vec();
    v.extend_from_slice(&t[..k]);
    v
}

/// last column of the sorted rotation matrix: rank the rotations through the doubled text
pub fn matrix_bwt<T: Ord + Copy>(t: &[T]) -> Vec<T> {
    let n = t.len();
    let mut d = t.to_vec();
    d.extend_from_slice(t);
    sa(&d).into_iter().filter(|&p| p < n).map(|p| t[(p + n - 1) % n]).collect()
}

pub fn runs(t: &[u8]) -> usize {
    if t.is_empty() {
        0
    } else {
        1 + t.windows(2).filter(|w| w[0] != w[1]).count()
    }
}

pub fn z_array<T: Eq>(t: &[T]) -> Vec<usize> {
    let n = t.len();
    let mut z = vec![0; n];
    if n == 0 {
        return z;
    }
    z[0] = n;
    let (mut l, mut r) = (0, 0);
    for i in 1..n {
        let mut k = if i < r { z[i - l].min(r - i) } else { 0 };
        while i + k < n && t[k] == t[i + k] {
            k += 1;
        }
        z[i] = k;
        if i + k > r {
            l = i;
            r = i + k;
        }
    }
    z
}

/// a word is Lyndon iff it is smaller than each of its proper suffixes
pub fn is_lyndon<T: Ord>(w: &[T]) -> bool {
    if w.is_empty() {
        return false;
    }
    let z = z_array(w);
    (1..w.len()).all(|i| i + z[i] < w.len() && w[z[i]] < w[i + z[i]])
}

/// checks that ending positions (inclusive) are the Lyndon factorization, which is unique
pub fn check_lyndon_factorization<T: Ord>(t: &[T], ends: &[usize]) -> Result<(), String> {
    let mut start = 0usize;
    let mut prev: Option<(usize, usize)> = None;
    for &e in ends {
        if e < start || e >= t.len() {
            return Err(format!("ending position {} out of order (factor would start at {})", e, start));
        }
        let w = &t[start..=e];
        if !is_lyndon(w) {
            return Err(format!("factor [{}..{}] is not a Lyndon word", start, e));
        }
        if let Some((a, b)) = prev {
            if t[a..b] < *w {
                return Err(format!("factor [{}..{}] is larger than its predecessor", start, e));
            }
        }
        prev = Some((start, e + 1));
        start = e + 1;
    }
    if start != t.len() {
        return Err(format!("factors cover {} of {} characters", start, t.len()));
    }
    Ok(())
}

/// Lyndon factorization through prefix minima of the suffix ranks
pub fn lyndon_factors<T: Ord + Copy>(t: &[T]) -> Vec<usize> {
    let isa = inverse(&sa(t));
    let mut ends = Vec::new();
    let mut cur = isa.first().copied().unwrap_or(0);
    for (i, &r) in isa.iter().enumerate().skip(1) {
        if r < cur {
            ends.push(i - 1);
            cur = r;
        }
    }
    if !t.is_empty() {
        ends.push(t.len() - 1);
    }
    ends
}

/// compares u^infinity with v^infinity
pub fn omega_cmp<T: Ord>(u: &[T], uo: usize, v: &[T], vo: usize) -> std::cmp::Ordering {
    // by Fine and Wilf |u|+|v| letters decide
    for k in 0..u.len() + v.len() {
        let o = u[(uo + k) % u.len()].cmp(&v[(vo + k) % v.len()]);
        if o != std::cmp::Ordering::Equal {
            return o;
        }
    }
    std::cmp::Ordering::Equal
}

/// bijective BWT by definition
pub fn bbwt<T: Ord + Copy>(t: &[T]) -> Vec<T> {
    let ends = lyndon_factors(t);
    let mut conj: Vec<(usize, usize, usize)> = Vec::new(); // start, len, offset
    let mut s = 0;
    for e in ends {
        for o in 0..e + 1 - s {
            conj.push((s, e + 1 - s, o));
        }
        s = e + 1;
    }
    conj.sort_by(|a, b| omega_cmp(&t[a.0..a.0 + a.1], a.2, &t[b.0..b.0 + b.1], b.2));
    conj.iter().map(|&(s, l, o)| t[s + (o + l - 1) % l]).collect()
}

/// inverse bijective BWT: the cycles of the LF-mapping are the Lyndon factors
pub fn unbbwt<T: Ord + Copy>(b: &[T]) -> Vec<T> {
    let n = b.len();
    let lf = lf_mapping(b);
    let mut seen = vec![false; n];
    let mut factors: Vec<Vec<T>> = Vec::new();
    for i in 0..n {
        if seen[i] {
            continue;
        }
        let mut w = Vec::new();
        let mut k = i;
        while !seen[k] {
            seen[k] = true;
            w.push(b[k]);
            k = lf[k];
        }
        w.reverse();
        factors.push(w);
    }
    // cycles are met in order of their smallest conjugate: last one is the largest
    factors.reverse();
    factors.concat()
}

/// lengths of the longest proper border of each prefix, from the Z-array
pub fn borders<T: Eq>(t: &[T]) -> Vec<usize> {
    let n = t.len();
    let z = z_array(t);
    let mut b = vec![0usize; n + 1];
    for i in 1..n {
        if z[i] > 0 {
            // positions i..i+z[i]-1 extend a border starting at i
            b[i + z[i]] = b[i + z[i]].max(z[i]);
        }
    }
    for e in (1..n).rev() {
        b[e] = b[e].max(b[e + 1].saturating_sub(1));
    }
    b
}

/// least p >= 1 with t[i] == t[i+p] for all i
pub fn period<T: Eq>(t: &[T]) -> usize {
    let n = t.len();
    let z = z_array(t);
    (1..n).find(|&p| p + z[p] == n).unwrap_or(n)
}

pub fn primitive<T: Eq>(t: &[T]) -> bool {
    let n = t.len();
    let z = z_array(t);
    !(1..n).any(|d| n % d == 0 && d + z[d] == n)
}

/// Suffix automaton with first and minimum data per state.
pub struct Sam {
    pub len: Vec<usize>,
    pub link: Vec<usize>,
    pub first_end: Vec<usize>,
    next: Vec<Vec<(u8, u32)>>,
    pub state_of_prefix: Vec<usize>,
}

impl Sam {
    pub fn new(t: &[u8]) -> Sam {
        let mut m = Sam {
            len: vec![0],
            link: vec![usize::MAX],
            first_end: vec![0],
            next: vec![vec![]],
            state_of_prefix: Vec::with_capacity(t.len()),
        };
        let mut last = 0usize;
        for (i, &c) in t.iter().enumerate() {
            let cur = m.len.len();
            m.len.push(m.len[last] + 1);
            m.link.push(0);
            m.first_end.push(i);
            m.next.push(vec![]);
            let mut p = last;
            loop {
                if m.get(p, c).is_some() {
                    break;
                }
                m.next[p].push((c, cur as u32));
                if m.link[p] == usize::MAX {
                    p = usize::MAX;
                    break;
                }
                p = m.link[p];
            }
            if p != usize::MAX {
                let q = m.get(p, c).unwrap();
                if m.len[q] == m.len[p] + 1 {
                    m.link[cur] = q;
                } else {
                    let cl = m.len.len();
                    m.len.push(m.len[p] + 1);
                    m.link.push(m.link[q]);
                    m.first_end.push(m.first_end[q]);
                    let nx = m.next[q].clone();
                    m.next.push(nx);
                    loop {
                        let mut changed = false;
                        for e in m.next[p].iter_mut() {
                            if e.0 == c && e.1 == q as u32 {
                                e.1 = cl as u32;
                                changed = true;
                            }
                        }
                        if !changed || m.link[p] == usize::MAX {
                            break;
                        }
                        p = m.link[p];
                    }
                    m.link[q] = cl;
                    m.link[cur] = cl;
                }
            }
            last = cur;
            m.state_of_prefix.push(cur);
        }
        m
    }
    pub fn get(&self, s: usize, c: u8) -> Option<usize> {
        self.next[s].iter().find(|e| e.0 == c).map(|e| e.1 as usize)
    }
    /// states ordered by increasing length
    pub fn by_len(&self) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.len.len()).collect();
        v.sort_by_key(|&s| self.len[s]);
        v
    }
}

/// lengths of the factors of the greedy self-referential LZ77 factorization (0 = fresh letter)
pub fn lz77(t: &[u8]) -> Vec<usize> {
    let m = Sam::new(t);
    let mut out = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let mut s = 0usize;
        let mut l = 0usize;
        while i + l < t.len() {
            let q = m.get(s, t[i + l]).expect("substring of the text");
            // the first occurrence of t[i..=i+l] starts here:
            let start = m.first_end[q] - l;
            if start >= i {
                break;
            }
            s = q;
            l += 1;
        }
        out.push(l);
        i += l.max(1);
    }
    out
}

/// phrases (source, length) of the lexparse; length 0 carries the letter
pub fn lexparse(t: &[u8]) -> Vec<(usize, usize)> {
    let s = sa(t);
    let l = lcp(t, &s);
    let isa = inverse(&s);
    let mut out = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let r = isa[i];
        if l[r] == 0 {
            out.push((t[i] as usize, 0));
            i += 1;
        } else {
            out.push((s[r - 1], l[r]));
            i += l[r];
        }
    }
    out
}

/// minimal unique substrings (start, length)
pub fn mus(t: &[u8]) -> Vec<(usize, usize)> {
    let n = t.len();
    let s = sa(t);
    let l = lcp(t, &s);
    let isa = inverse(&s);
    // shortest unique prefix of each suffix
    let uniq: Vec<Option<usize>> = (0..n)
        .map(|i| {
            let r = isa[i];
            let a = l[r];
            let b = if r + 1 < n { l[r + 1] } else { 0 };
            let k = a.max(b) + 1;
            if i + k <= n {
                Some(k)
            } else {
                None
            }
        })
        .collect();
    let mut out = Vec::new();
    for i in 0..n {
        if let Some(k) = uniq[i] {
            // minimal iff dropping the first letter loses uniqueness
            let inner_unique = k >= 2 && matches!(uniq.get(i + 1), Some(Some(m)) if *m < k);
            if !inner_unique {
                out.push((i, k));
            }
        }
    }
    out
}

/// minimal unique substrings by counting occurrences of every substring
pub fn mus_naive(t: &[u8]) -> Vec<(usize, usize)> {
    let n = t.len();
    let mut cnt: HashMap<&[u8], u32> = HashMap::new();
    for i in 0..n {
        for j in i + 1..=n {
            *cnt.entry(&t[i..j]).or_insert(0) += 1;
        }
    }
    let mut out = Vec::new();
    for i in 0..n {
        for j in i + 1..=n {
            if cnt[&t[i..j]] == 1 && (j - i == 1 || (cnt[&t[i + 1..j]] > 1 && cnt[&t[i..j - 1]] > 1)) {
                out.push((i, j - i));
            }
        }
    }
    out
}

/// k-th order empirical entropy: contexts precede the counted letters, divided by the length
pub fn entropy(t: &[u8], k: usize) -> f64 {
    let n = t.len();
    if n == 0 {
        return 0.0;
    }
    let mut ctx: HashMap<&[u8], HashMap<u8, u64>> = HashMap::new();
    for i in k..n {
        *ctx.entry(&t[i - k..i]).or_default().entry(t[i]).or_insert(0) += 1;
    }
    let mut sum = 0f64;
    for m in ctx.values() {
        let tot: u64 = m.values().sum();
        if m.len() > 1 {
            for &c in m.values() {
                sum += c as f64 * (tot as f64 / c as f64).log2();
            }
        }
    }
    sum / n as f64
}

/// For a set of positions: the distinct substrings without an occurrence crossing the set,
/// as (end, minimal length) classes of the suffix automaton. Empty iff the set is an attractor.
pub fn uncovered(t: &[u8], set: &[usize]) -> Vec<(usize, usize)> {
    let m = Sam::new(t);
    let inf = usize::MAX / 2;
    let mut mark = vec![false; t.len()];
    for &p in set {
        mark[p] = true;
    }
    let mut best = vec![inf; m.len.len()];
    let mut back = inf;
    for e in 0..t.len() {
        back = if mark[e] { 0 } else { (back + 1).min(inf) };
        best[m.state_of_prefix[e]] = back;
    }
    let order = m.by_len();
    for &s in order.iter().rev() {
        if s != 0 {
            let l = m.link[s];
            if best[s] < best[l] {
                best[l] = best[s];
            }
        }
    }
    // a substring of length l in state s is covered iff l > best[s]; the shortest is the hardest
    let mut out = Vec::new();
    for s in 1..m.len.len() {
        let minlen = m.len[m.link[s]] + 1;
        if minlen <= best[s] {
            out.push((m.first_end[s], minlen));
        }
    }
    out
}

pub fn mtf(t: &[u8]) -> Vec<u8> {
    let mut list: Vec<u8> = (0..=255).collect();
    t.iter()
        .map(|&c| {
            let p = list.iter().position(|&x| x == c).unwrap();
            list.remove(p);
            list.insert(0, c);
            p as u8
        })
        .collect()
}
pub fn unmtf(e: &[u8]) -> Vec<u8> {
    let mut list: Vec<u8> = (0..=255).collect();
    e.iter()
        .map(|&p| {
            let c = list.remove(p as usize);
            list.insert(0, c);
            c
        })
        .collect()
}

/// maximal runs
pub fn run_list(t: &[u8]) -> Vec<(u8, usize)> {
    let mut v: Vec<(u8, usize)> = Vec::new();
    for &c in t {
        match v.last_mut() {
            Some((d, n)) if *d == c => *n += 1,
            _ => v.push((c, 1)),
        }
    }
    v
}

/// k-fold application of a morphism, starting from a word
pub fn iterate(start: &[u8], k: usize, f: impl Fn(u8) -> &'static [u8]) -> Vec<u8> {
    let mut w = start.to_vec();
    for _ in 0..k {
        let mut n = Vec::with_capacity(w.len() * 3);
        for &c in &w {
            n.extend_from_slice(f(c));
        }
        w = n;
    }
    w
}
