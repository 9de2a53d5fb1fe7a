//! C06: string functions against direct transcriptions of the SMT-LIB definitions.
use super::strs::*;
use crate::engine::*;
use crate::ensure;
use crate::regen::{hash_of, show_word, sstr};
use crate::src::Src;
use aws_smt_strings::smt_strings::*;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "A case is three strings and two integers given to all ten functions. Non-trivial: the first string has \
               at least two characters and the pattern occurs in it or is empty, or an integer is outside \
               [0,length]. Distinct: different arguments.",
        assumptions: &["string lengths below i32::MAX"],
        modes: vec![
            Mode::exh("exhaustive-index", exh_index, 16).both(),
            Mode::exh("exhaustive-replace", exh_replace, 16),
            Mode::exh("every-position", positions, 16),
            Mode::random("random", random, 1_600_000, 30_000_000, 50_000).both(),
            Mode::random("lookalikes", lookalikes, 400_000, 8_000_000, 20_000),
            Mode::random("long", long, 16_000, 200_000, 500),
            Mode::random("huge", huge, 1_600, 60_000, 10),
        ],
    }
}

fn at(s: &[u32], i: i64) -> W {
    if 0 <= i && i < s.len() as i64 {
        vec![s[i as usize]]
    } else {
        vec![]
    }
}
fn substr(s: &[u32], m: i64, n: i64) -> W {
    let l = s.len() as i64;
    if 0 <= m && m < l && 0 < n {
        s[m as usize..(m + n).min(l) as usize].to_vec()
    } else {
        vec![]
    }
}
fn occurs_at(s: &[u32], p: &[u32], i: usize) -> bool {
    i + p.len() <= s.len() && s[i..i + p.len()] == *p
}
fn indexof(s: &[u32], p: &[u32], i: i64) -> i64 {
    if i < 0 || i > s.len() as i64 {
        return -1;
    }
    (i as usize..=s.len()).find(|k| occurs_at(s, p, *k)).map(|k| k as i64).unwrap_or(-1)
}
fn replace(s: &[u32], p: &[u32], r: &[u32]) -> W {
    match indexof(s, p, 0) {
        -1 => s.to_vec(),
        k => {
            let k = k as usize;
            [&s[..k], r, &s[k + p.len()..]].concat()
        }
    }
}
fn replace_all(s: &[u32], p: &[u32], r: &[u32]) -> W {
    if p.is_empty() {
        return s.to_vec();
    }
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if occurs_at(s, p, i) {
            out.extend_from_slice(r);
            i += p.len();
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    out
}

fn check_index(a: &[u32], b: &[u32], i: i32, n: i32) -> R {
    let (x, y) = (sstr(a), sstr(b));
    let (sa, sb) = (show_word(a), show_word(b));
    ensure!(codes(&x) == a, "construction of {sa}");
    ensure!(str_len(&x) as usize == a.len() && x.len() == a.len(), "str_len({sa}) = {}", str_len(&x));
    let g = codes(&str_at(&x, i));
    ensure!(g == at(a, i as i64), "str_at({sa}, {i}) = {}", show_word(&g));
    let g = codes(&str_substr(&x, i, n));
    ensure!(g == substr(a, i as i64, n as i64), "str_substr({sa}, {i}, {n}) = {}", show_word(&g));
    let g = str_indexof(&x, &y, i);
    let w = indexof(a, b, i as i64);
    ensure!(g as i64 == w, "str_indexof({sa}, {sb}, {i}) = {g}, expected {w}");
    Ok(())
}
fn check_rest(a: &[u32], b: &[u32], c: &[u32]) -> R {
    let (x, y, z) = (sstr(a), sstr(b), sstr(c));
    let (sa, sb, sc) = (show_word(a), show_word(b), show_word(c));
    let g = codes(&str_concat(&x, &y));
    ensure!(g == [a, b].concat(), "str_concat({sa}, {sb}) = {}", show_word(&g));
    let g = str_prefixof(&x, &y);
    ensure!(g == b.starts_with(a), "str_prefixof({sa}, {sb}) = {g}");
    let g = str_prefixof(&y, &x);
    ensure!(g == a.starts_with(b), "str_prefixof({sb}, {sa}) = {g}");
    let g = str_suffixof(&x, &y);
    ensure!(g == b.ends_with(a), "str_suffixof({sa}, {sb}) = {g}");
    let g = str_suffixof(&y, &x);
    ensure!(g == a.ends_with(b), "str_suffixof({sb}, {sa}) = {g}");
    let g = str_contains(&x, &y);
    ensure!(g == (indexof(a, b, 0) >= 0), "str_contains({sa}, {sb}) = {g}");
    let g = codes(&str_replace(&x, &y, &z));
    let w = replace(a, b, c);
    ensure!(g == w, "str_replace({sa}, {sb}, {sc}) = {}, expected {}", show_word(&g), show_word(&w));
    let g = codes(&str_replace_all(&x, &y, &z));
    let w = replace_all(a, b, c);
    ensure!(g == w, "str_replace_all({sa}, {sb}, {sc}) = {}, expected {}", show_word(&g), show_word(&w));
    Ok(())
}

fn nontriv(a: &[u32], b: &[u32], i: i32, n: i32) -> bool {
    let out = |k: i32| k < 0 || k as i64 > a.len() as i64;
    (a.len() >= 2 && indexof(a, b, 0) >= 0) || out(i) || out(n)
}
fn show_case(a: &[u32], b: &[u32], c: &[u32], i: i32, n: i32) -> String {
    format!("s={} p={} r={} i={i} n={n}", show_word(a), show_word(b), show_word(c))
}

fn exh_index(s: &mut Src, ctx: &mut Ctx) -> R {
    let a = small_word(s, &[97, 98], 5);
    let b = small_word(s, &[97, 98], 3);
    const IS: [i32; 12] = [0, 1, 2, 3, 4, 5, 6, -1, -2, i32::MAX, i32::MIN, i32::MAX - 3];
    let i = *s.pick(&IS);
    let n = *s.pick(&IS);
    if !ctx.begin(hash_of(&(&a, &b, i, n)), nontriv(&a, &b, i, n), || show_case(&a, &b, &[], i, n)) {
        return Ok(());
    }
    check_index(&a, &b, i, n)
}
fn exh_replace(s: &mut Src, ctx: &mut Ctx) -> R {
    let a = small_word(s, &[97, 98], 7);
    let b = small_word(s, &[97, 98], 4);
    let c = small_word(s, &[97, 98], 2);
    if !ctx.begin(hash_of(&(&a, &b, &c)), nontriv(&a, &b, 0, 0), || show_case(&a, &b, &c, 0, 0)) {
        return Ok(());
    }
    check_rest(&a, &b, &c)
}

fn random(s: &mut Src, ctx: &mut Ctx) -> R {
    let al = alphabet(s);
    let p = match s.us(6) {
        0 => vec![],
        _ => word(s, &al, &[], 6),
    };
    let a = word(s, &al, &[p.clone()], 24);
    let a = if s.us(2) == 0 { [word(s, &al, &[p.clone()], 6), p.clone(), a].concat() } else { a };
    // sometimes the pattern is a piece of the string
    let b = if s.us(3) == 0 && !a.is_empty() {
        let i = s.us(a.len());
        let j = i + s.us((a.len() - i).min(5) + 1);
        a[i..j].to_vec()
    } else {
        p
    };
    let c = word(s, &al, &[b.clone()], 8);
    let i = int(s, a.len());
    let n = int(s, a.len());
    if !ctx.begin(hash_of(&(&a, &b, &c, i, n)), nontriv(&a, &b, i, n), || show_case(&a, &b, &c, i, n)) {
        return Ok(());
    }
    ctx.label(match indexof(&a, &b, 0) {
        -1 => "no occurrence",
        _ if b.is_empty() => "empty pattern",
        _ => "occurrence",
    });
    check_index(&a, &b, i, n)?;
    check_index(&a, &b, indexof(&a, &b, 0) as i32 + 1, n)?;
    check_rest(&a, &b, &c)
}

fn long(s: &mut Src, ctx: &mut Ctx) -> R {
    let al = alphabet(s);
    let p = word(s, &al, &[], 40);
    let mut a = vec![];
    let n = s.us(60);
    for _ in 0..n {
        a.extend(match s.us(3) {
            0 => p.clone(),
            1 if !p.is_empty() => p[..s.us(p.len())].to_vec(),
            _ => word(s, &al, &[], 12),
        });
    }
    let c = word(s, &al, &[p.clone()], 30);
    let i = int(s, a.len());
    let n = int(s, a.len());
    if !ctx.begin(hash_of(&(&a, &p, &c, i, n)), nontriv(&a, &p, i, n), || {
        format!("|s|={} p={} i={i} n={n}", a.len(), show_word(&p))
    }) {
        return Ok(());
    }
    check_index(&a, &p, i, n)?;
    check_rest(&a, &p, &c)
}

/// strings of up to about a hundred thousand characters made of repeated blocks
fn huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let al = alphabet(s);
    let blk = {
        let mut b = word(s, &al, &[], 20);
        b.push(*s.pick(&al));
        b
    };
    let len = |s: &mut Src, max: usize| -> usize {
        if s.us(2) == 0 {
            let k = 1usize << s.us(17);
            (k + s.us(3)).saturating_sub(1).min(max)
        } else {
            s.us(max + 1)
        }
    };
    let max = if s.us(4) == 0 { 100_000 } else { 8_000 };
    let n = len(s, max);
    let mut a: W = blk.iter().copied().cycle().take(n).collect();
    for _ in 0..s.us(4) {
        // edits
        if !a.is_empty() {
            let i = match s.us(3) {
                0 => a.len() - 1 - s.us(a.len().min(30)),
                _ => s.us(a.len()),
            };
            match s.us(3) {
                0 => a[i] = *s.pick(&al),
                1 => a.insert(i, *s.pick(&al)),
                _ => {
                    a.remove(i);
                }
            }
        }
    }
    // a pattern: a piece of the string (long, or the end of it), possibly edited
    let mut p: W = if a.is_empty() {
        blk.clone()
    } else {
        let m = match s.us(3) {
            0 => 1 + s.us(a.len().min(8)),
            1 => 1 + s.us(a.len().min(300)),
            _ => 1 + len(s, 3_000.min(a.len() - 1)),
        };
        let i = match s.us(3) {
            0 => a.len() - m.min(a.len()),
            _ => s.us(a.len() - m.min(a.len()) + 1),
        };
        a[i..(i + m).min(a.len())].to_vec()
    };
    if s.us(2) == 0 && !p.is_empty() {
        let i = p.len() - 1 - if s.us(2) == 0 { 0 } else { s.us(p.len()) };
        p[i] = *s.pick(&al);
    }
    let c = word(s, &al, &[], 4);
    let i = int(s, a.len());
    let n = int(s, a.len());
    if !ctx.begin(hash_of(&(&a, &p, &c, i, n)), nontriv(&a, &p, i, n), || {
        format!("|s|={} of block {} |p|={} i={i} n={n}", a.len(), show_word(&blk), p.len())
    }) {
        return Ok(());
    }
    ctx.label(match a.len() {
        0..=255 => "length < 256",
        256..=4095 => "length < 4096",
        4096..=65535 => "length < 65536",
        _ => "length >= 65536",
    });
    let short = |e: Stop| match e {
        Stop::Fail(m) if m.len() > 2_000 => Stop::Fail(format!("{} ...", m.chars().take(2_000).collect::<String>())),
        e => e,
    };
    check_index(&a, &p, i, n).map_err(short)?;
    check_rest(&a, &p, &c).map_err(short)
}

/// one occurrence of a pattern, and one difference between two strings, at every position of a run
fn positions(s: &mut Src, ctx: &mut Ctx) -> R {
    const KINDS: [(u32, &[u32]); 12] = [
        (120, &[97]),
        (120, &[97, 98]),
        (98, &[97, 98]),
        (97, &[97, 98]),
        (97, &[98, 97]),
        (98, &[97, 98, 98]),
        (97, &[97, 97, 98]),
        (97, &[98, 97, 97, 98]),
        (120, &[97, 97, 97]),
        (120, &[97, 98, 97, 98, 97]),
        (0x2FFFF, &[0, 0x2FFFF, 0]),
        (97, &[0x10061, 97, 0x20061, 97, 97, 97, 97, 97, 0x2FFFF]),
    ];
    let (n, p) = place(s, if ctx.tier == Tier::Quick { 140 } else { 520 });
    let k = s.us(KINDS.len());
    let (f, w) = KINDS[k];
    if !ctx.begin(hash_of(&(n, p, k)), n >= 2, || format!("{} in the middle of {p} and {} times {f:#x}", show_word(w), n - p))
    {
        return Ok(());
    }
    let a = planted(f, n, p, w);
    let (i, m) = (p as i32, (n - p) as i32);
    for j in [0, i - 1, i, i + 1, n as i32 / 2] {
        check_index(&a, w, j, m).map_err(clip)?;
    }
    check_rest(&a, w, &[99]).map_err(clip)?;
    // pieces of the string as patterns: a prefix, a suffix, and both with a difference next to position p
    let q = p + w.len();
    let mut b = a[..q].to_vec();
    check_rest(&b, &a, &[]).map_err(clip)?;
    check_rest(&a, &a[p..], &[99, 100]).map_err(clip)?;
    b[q - 1] = 99;
    check_rest(&b, &a, &[]).map_err(clip)?;
    let mut b = a[p..].to_vec();
    b[0] = 99;
    check_rest(&b, &a, &[]).map_err(clip)
}

/// strings full of words that are easily confused with the pattern
fn lookalikes(s: &mut Src, ctx: &mut Ctx) -> R {
    let al = alphabet(s);
    let mut p = word(s, &al, &[], 10);
    if p.is_empty() || s.us(3) == 0 {
        p.push(s.below(0x30000) as u32);
    }
    let mut a = vec![];
    let n = s.us(8);
    for i in 0..n {
        match s.us(6) {
            0 if i > 1 => a.extend_from_slice(&p),
            1 => a.push(*s.pick(&al)),
            2 => a.extend_from_slice(&p[..s.us(p.len())]),
            _ => a.extend(lookalike(s, &p)),
        }
    }
    if s.us(2) == 0 {
        a.extend_from_slice(&p);
    }
    let q = lookalike(s, &p);
    let c = word(s, &al, &[p.clone()], 4);
    let (i, k) = (int(s, a.len()), int(s, a.len()));
    if !ctx.begin(hash_of(&(&a, &p, &c, i, k)), nontriv(&a, &p, i, k), || show_case(&a, &p, &c, i, k)) {
        return Ok(());
    }
    ctx.label(match indexof(&a, &p, 0) {
        -1 => "no occurrence",
        _ => "occurrence",
    });
    check_index(&a, &p, i, k)?;
    check_index(&a, &p, 0, k)?;
    check_rest(&a, &p, &c)?;
    check_rest(&q, &p, &c)?;
    check_rest(&a, &q, &c)
}
