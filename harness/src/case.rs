//! A case is one generated workload item: everything an evaluation needs, so that it can be
//! stored, replayed and shrunk.
use crate::rng::hash_bytes;

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub kind: String,
    pub nums: Vec<i64>,
    pub data: Vec<Vec<u8>>,
}

impl Case {
    pub fn new(kind: &str, nums: &[i64], data: &[&[u8]]) -> Case {
        Case {
            kind: kind.to_string(),
            nums: nums.to_vec(),
            data: data.iter().map(|d| d.to_vec()).collect(),
        }
    }
    pub fn text(kind: &str, t: Vec<u8>) -> Case {
        Case {
            kind: kind.to_string(),
            nums: vec![],
            data: vec![t],
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = hash_bytes(1, self.kind.as_bytes());
        for n in &self.nums {
            h = crate::rng::mix(h ^ (*n as u64));
        }
        for d in &self.data {
            h = hash_bytes(h, d);
        }
        h
    }
    pub fn serialize(&self) -> Vec<u8> {
        let mut o = Vec::new();
        o.extend_from_slice(b"vmon-case 1\nkind ");
        o.extend_from_slice(self.kind.as_bytes());
        o.extend_from_slice(b"\nnums");
        for n in &self.nums {
            o.extend_from_slice(format!(" {}", n).as_bytes());
        }
        o.push(b'\n');
        for d in &self.data {
            o.extend_from_slice(format!("data {}\n", d.len()).as_bytes());
            const H: &[u8; 16] = b"0123456789abcdef";
            for b in d {
                o.push(H[(b >> 4) as usize]);
                o.push(H[(b & 15) as usize]);
            }
            o.push(b'\n');
        }
        o.extend_from_slice(b"end\n");
        o
    }
    pub fn parse(b: &[u8]) -> Option<Case> {
        let s = std::str::from_utf8(b).ok()?;
        let mut lines = s.lines().filter(|l| !l.starts_with('#'));
        if lines.next()? != "vmon-case 1" {
            return None;
        }
        let kind = lines.next()?.strip_prefix("kind ")?.to_string();
        let nums = lines
            .next()?
            .strip_prefix("nums")?
            .split_whitespace()
            .map(|x| x.parse::<i64>())
            .collect::<Result<Vec<_>, _>>()
            .ok()?;
        let mut data = Vec::new();
        loop {
            let l = lines.next()?;
            if l == "end" {
                break;
            }
            let n: usize = l.strip_prefix("data ")?.parse().ok()?;
            let hex = lines.next()?.as_bytes();
            if hex.len() != 2 * n {
                return None;
            }
            let v = |c: u8| -> u8 {
                if c.is_ascii_digit() {
                    c - b'0'
                } else {
                    c - b'a' + 10
                }
            };
            data.push(hex.chunks(2).map(|c| v(c[0]) << 4 | v(c[1])).collect());
        }
        Some(Case { kind, nums, data })
    }
    pub fn show(&self) -> String {
        let mut s = format!("{} {:?}", self.kind, &self.nums[..self.nums.len().min(40)]);
        if self.nums.len() > 40 {
            s.push_str(&format!(" and {} more", self.nums.len() - 40));
        }
        for d in &self.data {
            s.push_str(&format!(
                " [{} bytes] \"{}{}\"",
                d.len(),
                d[..d.len().min(60)].escape_ascii(),
                if d.len() > 60 { "..." } else { "" }
            ));
        }
        s
    }
}

/// Why an evaluation did not simply hold.
#[derive(Debug, Clone)]
pub enum Fail {
    /// the property is broken, with what was observed
    Violation(String),
    /// nothing can be concluded (harness or environment trouble)
    Inconclusive(String),
}
pub type Res<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! violated {
    ($($a:tt)*) => { return Err($crate::case::Fail::Violation(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::case::Fail::Violation(format!($($a)*))); } };
}

/// compares byte strings and describes the first difference
pub fn same(what: &str, got: &[u8], want: &[u8]) -> Res {
    if got == want {
        return Ok(());
    }
    let p = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let win = |v: &[u8]| -> String {
        let lo = p.saturating_sub(8);
        let hi = (p + 24).min(v.len());
        v[lo.min(v.len())..hi].escape_ascii().to_string()
    };
    Err(Fail::Violation(format!(
        "{}: differs from the expected value at offset {} (got {} bytes, ..\"{}\"; expected {} bytes, ..\"{}\")",
        what, p, got.len(), win(got), want.len(), win(want)
    )))
}

/// compares arrays and describes the first difference
pub fn same_arr<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> Res {
    if got == want {
        return Ok(());
    }
    let p = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(Fail::Violation(format!(
        "{}: differs from the expected value at index {}: got {:?} (of {}), expected {:?} (of {})",
        what,
        p,
        got.get(p),
        got.len(),
        want.get(p),
        want.len()
    )))
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_recorder() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs library code; a panic inside it is an observation, not a harness error.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}
/// Runs library code that has to return normally.
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    attempt(f).map_err(|p| Fail::Violation(format!("{} panicked on a valid input: {}", what, p)))
}
