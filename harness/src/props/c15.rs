//! C15: LoopRange arithmetic equals arithmetic on integer sets.
use crate::engine::*;
use crate::regen::hash_of;
use crate::src::Src;
use crate::{ensure, fail};
use aws_smt_strings::loop_ranges::LoopRange;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "A case is a pair of loop ranges (finite intervals or upward-infinite), a scale factor and probe \
               integers. Non-trivial: neither range is [0,0] and they differ. Distinct: different pair and factor.",
        assumptions: &[
            "where the exact result has a finite bound above u32::MAX the documented panic is accepted (a returned \
             value must still satisfy the property)",
            "LoopRange::finite(i,j) is called with i <= j, as it requires",
        ],
        modes: vec![
            Mode::exh("small-bounds", small, 8).both(),
            Mode::random("large", large, 2_400_000, 40_000_000, 100_000).both(),
            Mode::exh("medium-bounds", medium, 64).thorough_only(),
        ],
    }
}

/// reference: [a,b] or [a,inf)
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct Rg(u64, Option<u64>);

impl Rg {
    fn has(&self, x: u64) -> bool {
        self.0 <= x && self.1.is_none_or(|b| x <= b)
    }
    fn mk(&self) -> LoopRange {
        match self.1 {
            Some(b) => LoopRange::finite(self.0 as u32, b as u32),
            None => LoopRange::infinite(self.0 as u32),
        }
    }
    fn fits(&self) -> bool {
        self.0 <= u32::MAX as u64 && self.1.is_none_or(|b| b <= u32::MAX as u64)
    }
    fn includes(&self, o: &Rg) -> bool {
        self.0 <= o.0
            && match (self.1, o.1) {
                (None, _) => true,
                (Some(_), None) => false,
                (Some(x), Some(y)) => y <= x,
            }
    }
}
fn sh(r: &Rg) -> String {
    match r.1 {
        Some(b) => format!("[{},{}]", r.0, b),
        None => format!("[{},inf)", r.0),
    }
}

/// The set denoted by a LoopRange, through its public interface
fn read(name: &str, r: &LoopRange) -> R<Rg> {
    let a = r.start() as u64;
    let g = if r.is_infinite() {
        Rg(a, None)
    } else {
        // greatest member by bisection
        if !r.contains(a as u32) {
            fail!("{name}: result {r} does not contain its start {a}");
        }
        let (mut lo, mut hi) = (a, u32::MAX as u64);
        while lo < hi {
            let mid = lo + (hi - lo).div_ceil(2);
            if r.contains(mid as u32) {
                lo = mid
            } else {
                hi = mid - 1
            }
        }
        Rg(a, Some(lo))
    };
    ensure!(g.mk() == *r, "{name}: inconsistent range {r:?}");
    Ok(g)
}

fn expect(name: &str, want: Rg, f: impl FnOnce() -> LoopRange) -> R {
    match no_panic(f) {
        Ok(r) => {
            let g = read(name, &r)?;
            ensure!(g == want, "{name} = {}, expected {}", sh(&g), sh(&want));
        }
        Err(m) => ensure!(!want.fits(), "{name} panics ({m}), expected {}", sh(&want)),
    }
    Ok(())
}

fn check(r: Rg, s: Rg, k: u64, probes: &[u64]) -> R {
    let (x, y) = (r.mk(), s.mk());
    for (g, l) in [(r, x), (s, y)] {
        ensure!(l.start() as u64 == g.0, "{}.start() = {}", sh(&g), l.start());
        ensure!(l.is_infinite() == g.1.is_none() && l.is_finite() == g.1.is_some(), "is_finite/is_infinite of {}", sh(&g));
        ensure!(l.is_point() == (g.1 == Some(g.0)), "is_point of {}", sh(&g));
        ensure!(l.is_zero() == (g == Rg(0, Some(0))), "is_zero of {}", sh(&g));
        ensure!(l.is_one() == (g == Rg(1, Some(1))), "is_one of {}", sh(&g));
        ensure!(l.is_all() == (g == Rg(0, None)), "is_all of {}", sh(&g));
        for p in probes {
            ensure!(l.contains(*p as u32) == g.has(*p), "{}.contains({p}) = {}", sh(&g), l.contains(*p as u32));
        }
        let want = Rg(g.0.saturating_sub(1), g.1.map(|b| b.saturating_sub(1)));
        expect(&format!("{}.shift()", sh(&g)), want, || l.shift())?;
        let want = if k == 0 { Rg(0, Some(0)) } else { Rg(g.0 * k, g.1.map(|b| b * k)) };
        expect(&format!("{}.scale({k})", sh(&g)), want, || l.scale(k as u32))?;
        expect(&format!("{}.add_point({k})", sh(&g)), Rg(g.0 + k, g.1.map(|b| b + k)), || l.add_point(k as u32))?;
    }
    ensure!((x == y) == (r == s), "{} == {} is {}", sh(&r), sh(&s), x == y);
    ensure!(x.includes(&y) == r.includes(&s), "{}.includes({}) = {}", sh(&r), sh(&s), x.includes(&y));
    ensure!(y.includes(&x) == s.includes(&r), "{}.includes({}) = {}", sh(&s), sh(&r), y.includes(&x));
    let sum = Rg(r.0 + s.0, r.1.zip(s.1).map(|(p, q)| p + q));
    expect(&format!("{}.add({})", sh(&r), sh(&s)), sum, || x.add(&y))?;
    for (a, b, l, m) in [(r, s, x, y), (s, r, y, x)] {
        check_mul(a, b, l, m)?;
    }
    Ok(())
}

/// greatest product, None if unbounded (0 * inf = 0)
fn max_product(r: Rg, s: Rg) -> Option<u64> {
    let zero = Rg(0, Some(0));
    if r == zero || s == zero {
        return Some(0);
    }
    r.1.zip(s.1).map(|(p, q)| p * q)
}

fn check_mul(r: Rg, s: Rg, x: LoopRange, y: LoopRange) -> R {
    let name = format!("{}.mul({})", sh(&r), sh(&s));
    let lo = if r == Rg(0, Some(0)) || s == Rg(0, Some(0)) { 0 } else { r.0 * s.0 };
    let hi = max_product(r, s);
    let hull = Rg(lo, hi);
    let m = match no_panic(|| x.mul(&y)) {
        Ok(m) => read(&name, &m)?,
        Err(p) => {
            ensure!(!hull.fits(), "{name} panics ({p}) although every product fits");
            // the interval returned by mul is not defined: right_mul_is_exact is unconstrained
            return Ok(());
        }
    };
    ensure!(m.includes(&hull), "{name} = {} does not contain all products (from {} on)", sh(&m), sh(&hull));
    // exactness: union over y in s of [y*a, y*b] against the interval m
    let (a, b, c) = (r.0 as u128, r.1.map(|b| b as u128), s.0 as u128);
    let d = s.1.map(|d| d as u128);
    // is the union an interval?
    let gap_free = if d == Some(c) {
        true
    } else if r == Rg(0, Some(0)) {
        true
    } else {
        match b {
            // [ya, inf): nested unless y = 0 gives {0}
            None => c > 0 || a <= 1,
            // worst gap between y = c and c+1
            Some(b) => c * b + 1 >= (c + 1) * a,
        }
    };
    let exact = gap_free && m == hull;
    let got = no_panic(|| x.right_mul_is_exact(&y));
    match got {
        Ok(g) => ensure!(
            g == exact,
            "{}.right_mul_is_exact({}) = {g}, but the union of the sums is {}the interval {} returned by mul",
            sh(&r),
            sh(&s),
            if exact { "" } else { "not " },
            sh(&m)
        ),
        Err(p) => fail!("{}.right_mul_is_exact({}) panics: {p}", sh(&r), sh(&s)),
    }
    Ok(())
}

/// the same by brute force on small bounds, on sets truncated at N
fn brute(r: Rg, s: Rg) -> R {
    let (x, y) = (r.mk(), s.mk());
    let big = r.0.max(s.0).max(r.1.unwrap_or(0)).max(s.1.unwrap_or(0)) as usize;
    let n = (big + 2) * (big + 2) + 4;
    let set = |g: &Rg| -> Vec<bool> { (0..=n).map(|i| g.has(i as u64)).collect() };
    let (sr, ss) = (set(&r), set(&s));
    let sum = |p: &[bool], q: &[bool]| -> Vec<bool> {
        let mut v = vec![false; n + 1];
        for i in 0..=n {
            if p[i] {
                for j in 0..=n - i {
                    if q[j] {
                        v[i + j] = true;
                    }
                }
            }
        }
        v
    };
    let add = read("add", &x.add(&y))?;
    ensure!(set(&add) == sum(&sr, &ss), "{}.add({}) = {} is not the set of sums", sh(&r), sh(&s), sh(&add));
    // union over k in s of the k-fold sums of r
    let mut acc = vec![false; n + 1];
    acc[0] = true;
    let mut union = vec![false; n + 1];
    let top = s.1.unwrap_or(n as u64);
    for k in 0..=top {
        if ss[k as usize] {
            for i in 0..=n {
                union[i] |= acc[i];
            }
        }
        if k <= 12 {
            let sc = read("scale", &x.scale(k as u32))?;
            ensure!(set(&sc) == acc, "{}.scale({k}) = {} is not the {k}-fold sum", sh(&r), sh(&sc));
        }
        if acc.iter().all(|b| !b) {
            break;
        }
        acc = sum(&acc, &sr);
    }
    let m = read("mul", &x.mul(&y))?;
    for i in 0..=n {
        if sr[i] {
            for j in 0..=n {
                if ss[j] && i * j <= n {
                    ensure!(m.has((i * j) as u64), "{}.mul({}) = {} misses {i}*{j}", sh(&r), sh(&s), sh(&m));
                }
            }
        }
    }
    let exact = set(&m) == union;
    let got = x.right_mul_is_exact(&y);
    ensure!(
        got == exact,
        "{}.right_mul_is_exact({}) = {got}; mul gives {}",
        sh(&r),
        sh(&s),
        sh(&m)
    );
    Ok(())
}

fn small_range(s: &mut Src, n: u64) -> Rg {
    // (i, j) with i <= j <= n, or (i, inf)
    let i = s.below(n + 1);
    let j = s.below(n + 2 - i);
    if i + j > n {
        Rg(i, None)
    } else {
        Rg(i, Some(i + j))
    }
}

fn nontriv(r: Rg, s: Rg) -> bool {
    let z = Rg(0, Some(0));
    r != z && s != z && r != s
}

fn exh(s: &mut Src, ctx: &mut Ctx, n: u64) -> R {
    let r = small_range(s, n);
    let t = small_range(s, n);
    if !ctx.begin(hash_of(&(r, t)), nontriv(r, t), || format!("{} {}", sh(&r), sh(&t))) {
        return Ok(());
    }
    let probes: Vec<u64> = (0..n + 4).chain([u32::MAX as u64]).collect();
    for k in 0..4 {
        check(r, t, k, &probes)?;
    }
    brute(r, t)
}
fn small(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 6)
}
fn medium(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 13)
}

fn number(s: &mut Src) -> u64 {
    match s.us(6) {
        0 => s.below(4),
        1 => s.below(20),
        2 => s.below(1 << 17),
        3 => {
            let k = s.below(33) as u32;
            let d = s.below(3);
            ((1u64 << k) + d).saturating_sub(1).min(u32::MAX as u64)
        }
        4 => u32::MAX as u64 - s.below(4),
        _ => s.below(1 << 32),
    }
}
fn big_range(s: &mut Src) -> Rg {
    let a = number(s);
    match s.us(5) {
        0 => Rg(a, None),
        1 => Rg(a, Some(a)),
        2 => Rg(a, Some((a + s.below(5)).min(u32::MAX as u64))),
        _ => {
            let b = number(s);
            Rg(a.min(b), Some(a.max(b)))
        }
    }
}
fn large(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut r = big_range(s);
    let t = big_range(s);
    // steer towards the exactness threshold c*(b-a) = a-1
    if s.us(3) == 0 && t.0 > 0 {
        let a = number(s).max(1);
        let w = (a - 1) / t.0 + s.below(3);
        let b = (a + w.saturating_sub(1)).min(u32::MAX as u64);
        if b >= a {
            r = Rg(a, Some(b));
        }
    }
    let k = number(s);
    let mut probes = vec![0, 1, u32::MAX as u64];
    for g in [r, t] {
        for p in [Some(g.0), g.1].into_iter().flatten() {
            probes.extend([p.saturating_sub(1), p, (p + 1).min(u32::MAX as u64)]);
        }
    }
    if !ctx.begin(hash_of(&(r, t, k)), nontriv(r, t), || format!("{} {} k={k}", sh(&r), sh(&t))) {
        return Ok(());
    }
    check(r, t, k, &probes)
}
