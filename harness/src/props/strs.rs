//! Generation of SMT strings (as code point vectors) shared by the string checks.
use crate::regen::{GROUPS, SPECIAL};
use crate::src::Src;
use aws_smt_strings::smt_strings::SmtString;

pub type W = Vec<u32>;

/// k-th word over an alphabet of n letters, all words of length <= max, in length order
pub fn small_word(s: &mut Src, alphabet: &[u32], max: usize) -> W {
    let n = s.us(max + 1);
    (0..n).map(|_| *s.pick(alphabet)).collect()
}

pub fn codes(s: &SmtString) -> W {
    s.iter().copied().collect()
}

/// a small alphabet for one case
pub fn alphabet(s: &mut Src) -> Vec<u32> {
    let n = 1 + s.us(3);
    if s.us(5) == 4 {
        let mut v = s.pick(GROUPS).to_vec();
        if s.us(3) == 0 {
            v.push(97);
        }
        return v;
    }
    (0..n)
        .map(|i| match s.us(4) {
            0 | 1 => 97 + i as u32,
            2 => *s.pick(SPECIAL),
            _ => s.below(0x30000) as u32,
        })
        .collect()
}

/// words with a lot of repetition: copies of pieces of earlier words, with small edits
pub fn word(s: &mut Src, al: &[u32], pieces: &[W], max: usize) -> W {
    let mut w: W = vec![];
    let parts = s.us(5);
    for _ in 0..parts {
        if w.len() >= max {
            break;
        }
        match s.us(4) {
            0 => {
                let n = s.us(6);
                for _ in 0..n {
                    w.push(*s.pick(al));
                }
            }
            1 => w.push(*s.pick(al)),
            2 => {
                let c = *s.pick(al);
                let n = s.us(6);
                w.extend(std::iter::repeat_n(c, n));
            }
            _ => {
                if pieces.is_empty() {
                    w.push(*s.pick(al));
                } else {
                    let p = s.pick(pieces).clone();
                    if !p.is_empty() {
                        let i = s.us(p.len());
                        let j = i + s.us(p.len() - i + 1);
                        w.extend_from_slice(&p[i..j]);
                    }
                }
            }
        }
    }
    w.truncate(max);
    w
}

/// integers around the interesting boundaries of a length
pub fn int(s: &mut Src, len: usize) -> i32 {
    let l = len as i64;
    let v = match s.us(8) {
        0..=3 => s.below(len as u64 + 3) as i64 - 1,
        4 => l + s.below(5) as i64 - 2,
        5 => -(s.below(4) as i64),
        6 => {
            let e = [i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, i32::MAX / 2, i32::MIN / 2, 1 << 30, -(1 << 30)];
            *s.pick(&e) as i64
        }
        _ => i32::MAX as i64 - l + s.below(5) as i64 - 2,
    };
    v.clamp(i32::MIN as i64, i32::MAX as i64) as i32
}

/// a length up to max, often next to a power of two
pub fn big_len(s: &mut Src, max: usize) -> usize {
    if s.us(2) == 0 {
        let k = 1usize << s.us(18);
        (k + s.us(3)).saturating_sub(1).min(max)
    } else {
        s.us(max + 1)
    }
}
/// keep the messages about long strings readable
pub fn clip(e: crate::engine::Stop) -> crate::engine::Stop {
    match e {
        crate::engine::Stop::Fail(m) if m.len() > 2_000 => {
            crate::engine::Stop::Fail(format!("{} ...", m.chars().take(2_000).collect::<String>()))
        }
        e => e,
    }
}

/// n and p <= n, enumerated: a length and a position in it
pub fn place(s: &mut Src, max: usize) -> (usize, usize) {
    let n = s.us(max + 1);
    (n, s.us(n + 1))
}
/// n copies of f with w inserted at position p
pub fn planted(f: u32, n: usize, p: usize, w: &[u32]) -> W {
    let mut v = vec![f; n];
    v.splice(p..p, w.iter().copied());
    v
}

/// a word of the same length that differs from w but agrees with it under a checksum someone might compare instead
/// (sum, exclusive or, polynomial hash with a usual base, low bits), or is a reordering of it
pub fn lookalike(s: &mut Src, w: &[u32]) -> W {
    const BASES: [i64; 14] = [1, 2, 3, 7, 10, 16, 31, 33, 37, 101, 131, 256, 257, 65536];
    let ok = |x: i64| (0..0x30000).contains(&x);
    let mut v = w.to_vec();
    if w.is_empty() {
        return v;
    }
    let n = w.len();
    let i = s.us(n);
    let j = if s.us(2) == 0 { (i + 1) % n } else { s.us(n) };
    match s.us(5) {
        0 | 1 => {
            // x B^k + y = (x + d) B^k + (y - d B^k), for neighbours or characters at a distance k
            let b = *s.pick(&BASES);
            let d = *s.pick(&[1i64, -1, 2, -2, 5, -7]);
            let (i, j) = (i.min(j), i.max(j));
            if i < j {
                let e = (0..j - i).fold(d, |e, _| e.saturating_mul(b));
                for (x, y) in [(d, e.saturating_neg()), (-d, e), (e.saturating_neg(), d), (e, -d)] {
                    if ok((w[i] as i64).saturating_add(x)) && ok((w[j] as i64).saturating_add(y)) {
                        v[i] = (w[i] as i64 + x) as u32;
                        v[j] = (w[j] as i64 + y) as u32;
                        break;
                    }
                }
            }
        }
        2 => {
            let m = 1u32 << s.us(17);
            if w[i] ^ m < 0x30000 && w[j] ^ m < 0x30000 {
                v[i] ^= m;
                v[j] ^= m;
            }
        }
        3 => {
            let m = *s.pick(&[128i64, 256, 4096, 0x10000, 0x20000]);
            let x = w[i] as i64;
            v[i] = if ok(x + m) {
                (x + m) as u32
            } else if ok(x - m) {
                (x - m) as u32
            } else {
                w[i]
            };
        }
        _ => match s.us(3) {
            0 => v.swap(i, j),
            1 => v.rotate_left(i),
            _ => v.reverse(),
        },
    }
    v
}
