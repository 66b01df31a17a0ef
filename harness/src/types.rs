//! Texts over other symbol types. Every mapping keeps the order of the bytes, so that what the
//! library computes about order and equality must be the same as for the bytes.
use crate::case::Res;
use crate::Obs;
use std::cmp::Reverse;
use std::fmt::Debug;

pub trait Visit {
    fn go<T: Ord + Copy + Debug>(&mut self, ty: &str, v: &[T], f: &dyn Fn(u8) -> T) -> Res;
}

/// ordered by a part of its fields only: the rest must not matter
#[derive(Clone, Copy, Debug)]
pub struct Keyed {
    noise: [u32; 5],
    key: i16,
}
impl PartialEq for Keyed {
    fn eq(&self, o: &Keyed) -> bool {
        self.key == o.key
    }
}
impl Eq for Keyed {}
impl PartialOrd for Keyed {
    fn partial_cmp(&self, o: &Keyed) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Keyed {
    fn cmp(&self, o: &Keyed) -> std::cmp::Ordering {
        self.key.cmp(&o.key)
    }
}

pub const TYPES: usize = 22;
/// how many of the types apply to every text
const WIDE: usize = 19;

/// Visits the text over `count` of the types, starting with one chosen by `h`, and over the tiny
/// types if the text has few enough letters.
pub fn some_types(t: &[u8], h: u64, count: usize, obs: &mut Obs, v: &mut impl Visit) -> Res {
    let mut letters: Vec<u8> = t.to_vec();
    letters.sort();
    letters.dedup();
    let mut picked: Vec<usize> = (0..count.min(WIDE)).map(|k| (h as usize % WIDE + k * 7) % WIDE).collect();
    if letters.len() <= 1 {
        picked.push(WIDE);
    }
    if letters.len() <= 2 {
        picked.push(WIDE + 1);
    }
    if letters.len() <= 3 {
        picked.push(WIDE + 2);
    }
    for k in picked {
        obs.seen("symbol types", k as u64);
        one(k, t, &letters, v)?;
    }
    Ok(())
}
fn one(k: usize, t: &[u8], letters: &[u8], v: &mut impl Visit) -> Res {
    macro_rules! on {
        ($n:expr, $f:expr) => {{
            let f = $f;
            let w: Vec<_> = t.iter().map(|&x| f(x)).collect();
            v.go($n, &w, &f)
        }};
    }
    let rank = |x: u8| letters.iter().position(|&l| l == x).unwrap_or(0);
    match k {
        0 => on!("i8", |x: u8| (x as i16 - 128) as i8),
        1 => on!("u16", |x: u8| x as u16 * 257),
        2 => on!("i16", |x: u8| (x as i32 * 257 - 32768) as i16),
        3 => on!("u32", |x: u8| (x as u32) << 24 | 0xffffff),
        4 => on!("i32", |x: u8| (x as i32 - 128) * 0x100_0000),
        5 => on!("u64", |x: u8| (x as u64) << 56),
        6 => on!("i64", |x: u8| (x as i64 - 128) << 56),
        7 => on!("u128", |x: u8| (x as u128) << 120),
        8 => on!("i128", |x: u8| (x as i128 - 128) * (1i128 << 64)),
        9 => on!("usize", |x: u8| x as usize + (1 << 40)),
        10 => on!("char", |x: u8| char::from_u32(x as u32 * 200 + 1).unwrap_or('\u{10ffff}')),
        11 => on!("[u8; 3]", |x: u8| [7, x, 9]),
        12 => on!("(i32, u64)", |x: u8| ((x >> 4) as i32 - 8, (x & 15) as u64)),
        13 => on!("Reverse<u8>", |x: u8| Reverse(255 - x)),
        14 => on!("Option<u8>", |x: u8| if x == 0 { None } else { Some(x - 1) }),
        15 => {
            static NAMES: [u8; 255] = [b'!'; 255];
            // of different lengths, each a prefix of the next
            on!("&str", |x: u8| std::str::from_utf8(&NAMES[..x as usize]).unwrap())
        }
        16 => on!("Result<u8, u8>", |x: u8| if x < 128 { Ok(x) } else { Err(x - 128) }),
        17 => on!("NonZeroU32", |x: u8| std::num::NonZeroU32::new(x as u32 * 16_843_009 / 2 + 1).unwrap()),
        18 => {
            let w: Vec<Keyed> = t
                .iter()
                .enumerate()
                .map(|(i, &x)| Keyed { noise: [i as u32, 1 << (i & 31), 0, !(i as u32), 3], key: x as i16 * 100 - 9000 })
                .collect();
            v.go("an own type", &w, &|x: u8| Keyed { noise: [0; 5], key: x as i16 * 100 - 9000 })
        }
        19 => on!("()", |_| ()),
        20 => on!("bool", |x: u8| rank(x) == 1),
        _ => on!("Ordering", |x: u8| [std::cmp::Ordering::Less, std::cmp::Ordering::Equal, std::cmp::Ordering::Greater][rank(x).min(2)]),
    }
}
