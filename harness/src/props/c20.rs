//! C20: CharSet operations are exact interval algebra.
use crate::engine::*;
use crate::ensure;
use crate::regen::{hash_of, SPECIAL};
use crate::src::Src;
use aws_smt_strings::character_sets::CharSet;
use std::cmp::Ordering;

const MAX: u32 = 0x2FFFF;

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "A case is a pair of intervals (or a list of intervals for inter_list) over [0,0x2FFFF], with probe \
               characters at every end point and its neighbours. Non-trivial: the two intervals differ and at least \
               one is neither a singleton nor the alphabet (lists: at least two elements). Distinct: different \
               intervals/list.",
        assumptions: &["intervals are built with start <= end <= 0x2FFFF, as CharSet::range requires"],
        modes: vec![
            Mode::exh("pairs", pairs, 8).both(),
            Mode::exh("pairs-powers-of-two", pairs_bits, 16),
            Mode::exh("triples", triples, 8),
            Mode::random("random-pairs", random_pairs, 1_600_000, 20_000_000, 50_000),
            Mode::random("random-lists", random_lists, 800_000, 10_000_000, 50_000),
        ],
    }
}

type I = (u32, u32);
fn cs(i: I) -> CharSet {
    CharSet::range(i.0, i.1)
}
fn sh(i: I) -> String {
    format!("[{:#x},{:#x}]", i.0, i.1)
}

const PTS: [u32; 13] = [0, 1, 2, 3, 4, 0x60, 0x61, 0xffff, MAX - 4, MAX - 3, MAX - 2, MAX - 1, MAX];

fn small_interval(s: &mut Src, pts: &[u32]) -> I {
    let n = pts.len();
    let k = s.us(n * (n + 1) / 2);
    let mut i = 0;
    let mut rest = k;
    while rest >= n - i {
        rest -= n - i;
        i += 1;
    }
    (pts[i], pts[i + rest])
}

fn is_in(x: u32, i: I) -> bool {
    i.0 <= x && x <= i.1
}

fn check_pair(a: I, b: I) -> R {
    let (x, y) = (cs(a), cs(b));
    let probes: Vec<u32> = [a.0, a.1, b.0, b.1, 0, MAX, (a.0 + a.1) / 2]
        .iter()
        .flat_map(|p| [p.saturating_sub(1), *p, *p + 1])
        .collect();
    for p in probes {
        ensure!(x.contains(p) == is_in(p, a), "{}.contains({p:#x}) = {}", sh(a), x.contains(p));
        ensure!(x.is_before(p) == (a.1 < p), "{}.is_before({p:#x}) = {}", sh(a), x.is_before(p));
        ensure!(x.is_after(p) == (a.0 > p), "{}.is_after({p:#x}) = {}", sh(a), x.is_after(p));
    }
    ensure!(x.size() == a.1 - a.0 + 1, "{}.size() = {}", sh(a), x.size());
    ensure!(x.is_singleton() == (a.0 == a.1), "{}.is_singleton() = {}", sh(a), x.is_singleton());
    ensure!(x.is_alphabet() == (a == (0, MAX)), "{}.is_alphabet() = {}", sh(a), x.is_alphabet());
    ensure!(is_in(x.pick(), a), "{}.pick() = {:#x}", sh(a), x.pick());
    ensure!((x == y) == (a == b), "{} == {} is {}", sh(a), sh(b), x == y);
    if a.0 == a.1 {
        ensure!(CharSet::singleton(a.0) == x, "singleton({:#x}) differs from range", a.0);
    }
    ensure!(
        x.covers(&y) == (a.0 <= b.0 && b.1 <= a.1),
        "{}.covers({}) = {}",
        sh(a),
        sh(b),
        x.covers(&y)
    );
    let (l, h) = (a.0.max(b.0), a.1.min(b.1));
    let want = if l <= h { Some((l, h)) } else { None };
    let got = x.inter(&y);
    ensure!(got == want.map(cs), "{}.inter({}) = {:?}", sh(a), sh(b), got);
    // a union of two intervals is an interval iff they overlap or are adjacent
    let want = if a.0 <= b.1 + 1 && b.0 <= a.1 + 1 { Some((a.0.min(b.0), a.1.max(b.1))) } else { None };
    let got = x.union(&y);
    ensure!(got == want.map(cs), "{}.union({}) = {:?}", sh(a), sh(b), got);
    let want = if a == b {
        Some(Ordering::Equal)
    } else if a.1 < b.0 {
        Some(Ordering::Less)
    } else if b.1 < a.0 {
        Some(Ordering::Greater)
    } else {
        None
    };
    let got = x.partial_cmp(&y);
    ensure!(got == want, "{}.partial_cmp({}) = {:?}", sh(a), sh(b), got);
    ensure!((x < y) == (want == Some(Ordering::Less)), "{} < {} is {}", sh(a), sh(b), x < y);
    ensure!((x > y) == (want == Some(Ordering::Greater)), "{} > {} is {}", sh(a), sh(b), x > y);
    ensure!(
        (x <= y) == matches!(want, Some(Ordering::Less | Ordering::Equal)),
        "{} <= {} is {}",
        sh(a),
        sh(b),
        x <= y
    );
    ensure!(
        (x >= y) == matches!(want, Some(Ordering::Greater | Ordering::Equal)),
        "{} >= {} is {}",
        sh(a),
        sh(b),
        x >= y
    );
    Ok(())
}

fn check_list(v: &[I]) -> R {
    let l = v.iter().map(|i| i.0).max().unwrap_or(0);
    let h = v.iter().map(|i| i.1).min().unwrap_or(MAX);
    let want = if l <= h { Some((l, h)) } else { None };
    let sets: Vec<CharSet> = v.iter().map(|i| cs(*i)).collect();
    let got = CharSet::inter_list(&sets);
    ensure!(
        got == want.map(cs),
        "inter_list({}) = {:?}",
        v.iter().map(|i| sh(*i)).collect::<Vec<_>>().join(", "),
        got
    );
    Ok(())
}

fn nontriv(a: I, b: I) -> bool {
    let plain = |i: I| i.0 != i.1 && i != (0, MAX);
    a != b && (plain(a) || plain(b))
}

fn pair_case(a: I, b: I, ctx: &mut Ctx) -> R {
    if !ctx.begin(hash_of(&(a, b)), nontriv(a, b), || format!("{} and {}", sh(a), sh(b))) {
        return Ok(());
    }
    ctx.label(if a.1 < b.0 || b.1 < a.0 {
        if a.1 + 1 == b.0 || b.1 + 1 == a.0 {
            "adjacent"
        } else {
            "apart"
        }
    } else {
        "overlapping"
    });
    check_pair(a, b)
}

fn pairs(s: &mut Src, ctx: &mut Ctx) -> R {
    let a = small_interval(s, &PTS);
    let b = small_interval(s, &PTS);
    pair_case(a, b, ctx)
}

fn pairs_bits(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut pts: Vec<u32> = (1..=17).flat_map(|k| [(1 << k) - 1, 1 << k]).collect();
    pts.extend([0, 0x2FFFE, MAX]);
    pts.sort_unstable();
    let a = small_interval(s, &pts);
    let b = small_interval(s, &pts);
    pair_case(a, b, ctx)
}

fn triples(s: &mut Src, ctx: &mut Ctx) -> R {
    let pts = [0u32, 1, 2, 0x61, MAX - 2, MAX - 1, MAX];
    let n = s.us(4);
    let v: Vec<I> = (0..n).map(|_| small_interval(s, &pts)).collect();
    if !ctx.begin(hash_of(&v), n >= 2, || v.iter().map(|i| sh(*i)).collect::<Vec<_>>().join(", ")) {
        return Ok(());
    }
    check_list(&v)
}

fn point(s: &mut Src) -> u32 {
    match s.us(3) {
        0 => *s.pick(SPECIAL),
        1 => s.below(0x30000) as u32,
        _ => s.below(0x200) as u32,
    }
}
fn near(s: &mut Src, others: &[u32]) -> u32 {
    if !others.is_empty() && s.us(3) != 0 {
        let p = *s.pick(others);
        match s.us(7) {
            0 => p,
            1 => p.saturating_sub(1),
            2 => (p + 1).min(MAX),
            3 => p.saturating_sub(2),
            4 => (p + 2).min(MAX),
            // apart by a power of two, or different in one bit
            5 => match 1 << s.us(18) {
                d if p + d <= MAX => p + d,
                d => p.saturating_sub(d),
            },
            _ => (p ^ 1 << s.us(18)).min(MAX),
        }
    } else {
        point(s)
    }
}
fn interval(s: &mut Src, others: &mut Vec<u32>) -> I {
    let a = near(s, others);
    let b = near(s, others);
    others.push(a);
    others.push(b);
    (a.min(b), a.max(b))
}

fn random_pairs(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut o = vec![];
    let a = interval(s, &mut o);
    let b = interval(s, &mut o);
    pair_case(a, b, ctx)
}

fn random_lists(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = if s.us(4) == 3 { s.us(80) } else { s.us(7) };
    let tight = if n > 7 { 40 } else { 5 };
    let mut v: Vec<I> = vec![];
    let mut o = vec![];
    // nested lists so that the intersection is often non-empty
    let c = point(s);
    for _ in 0..n {
        let mut i = interval(s, &mut o);
        if s.us(tight) != 0 {
            i = (i.0.min(c), i.1.max(c));
        }
        v.push(i);
    }
    if !ctx.begin(hash_of(&v), n >= 2, || v.iter().map(|i| sh(*i)).collect::<Vec<_>>().join(", ")) {
        return Ok(());
    }
    check_list(&v)
}
