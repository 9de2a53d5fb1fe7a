//! Choice-sequence source: every generated case is a function of a finite
//! sequence of bounded choices, which makes replay, exhaustive enumeration
//! and shrinking generic.  In every `below(n)` the value 0 is the simplest.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

enum Kind {
    Random(Rng),
    Replay,
    Exhaustive,
}

pub struct Src {
    kind: Kind,
    prefix: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    pub bounds: Vec<u64>,
    /// when set, every choice is flushed there as it is made
    pub log: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src {
            kind: Kind::Random(Rng::new(seed)),
            prefix: vec![],
            pos: 0,
            rec: vec![],
            bounds: vec![],
            log: None,
        }
    }
    pub fn replay(c: &[u64]) -> Src {
        Src {
            kind: Kind::Replay,
            prefix: c.to_vec(),
            pos: 0,
            rec: vec![],
            bounds: vec![],
            log: None,
        }
    }
    pub fn exhaustive(prefix: Vec<u64>) -> Src {
        Src {
            kind: Kind::Exhaustive,
            prefix,
            pos: 0,
            rec: vec![],
            bounds: vec![],
            log: None,
        }
    }
    /// The prefix of the next leaf of the choice tree in lexicographic order
    /// (None when this was the last leaf).
    pub fn next_prefix(&self) -> Option<Vec<u64>> {
        let mut i = self.rec.len();
        while i > 0 {
            i -= 1;
            if self.rec[i] + 1 < self.bounds[i] {
                let mut p = self.rec[..=i].to_vec();
                p[i] += 1;
                return Some(p);
            }
        }
        None
    }

    /// Number in 0..n  (n >= 1)
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        let n = n.max(1);
        let v = if self.pos < self.prefix.len() {
            let x = self.prefix[self.pos];
            if x < n {
                x
            } else {
                x % n
            }
        } else {
            match &mut self.kind {
                Kind::Random(r) => {
                    let x = r.next();
                    ((x as u128 * n as u128) >> 64) as u64
                }
                _ => 0,
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = write!(f, "{v},");
        }
        self.bounds.push(n);
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi, simplest is lo
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn range32(&mut self, lo: u32, hi: u32) -> u32 {
        self.range(lo as u64, hi as u64) as u32
    }
    /// true with probability num/den; the simplest is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, a: &'a [T]) -> &'a T {
        let i = self.us(a.len());
        &a[i]
    }
    /// index i with probability w[i]/sum(w)
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.below(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi as u64 {
                return i;
            }
            x -= wi as u64;
        }
        w.len() - 1
    }
    /// A length with a geometric-like distribution, at most max
    pub fn small_len(&mut self, max: usize) -> usize {
        let a = self.us(max + 1);
        let b = self.us(max + 1);
        a.min(b)
    }
}
