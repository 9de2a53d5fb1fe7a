//! C09: lexicographic order and int/code conversions, in both build profiles.
use super::strs::*;
use crate::engine::*;
use crate::regen::{hash_of, show_word, sstr, SPECIAL};
use crate::src::Src;
use crate::{ensure, fail};
use aws_smt_strings::smt_strings::*;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "A case is a pair of strings (order), a string (to_int, to_code, is_digit) or an integer (from_int, \
               from_code). Non-trivial: the two strings differ; the string contains a digit; the integer is positive. \
               Distinct: different arguments.",
        assumptions: &["str_from_int(n) is checked for 32-bit n, the argument type of the API"],
        modes: vec![
            Mode::exh("order-exhaustive", order_exh, 8).both(),
            Mode::random("order-random", order_random, 800_000, 20_000_000, 50_000).both(),
            Mode::exh("codes-exhaustive", codes_exh, 8).both(),
            Mode::exh("digit-strings-exhaustive", digits_exh, 8).both(),
            Mode::exh("every-position", positions, 8).both(),
            Mode::random("to-int", to_int, 1_800_000, 40_000_000, 100_000).both(),
            Mode::random("huge", huge, 1_200, 60_000, 100).both(),
            Mode::random("from-int", from_int, 800_000, 40_000_000, 100_000).both(),
        ],
    }
}

fn check_order(a: &[u32], b: &[u32]) -> R {
    let (x, y) = (sstr(a), sstr(b));
    for (p, q, u, v) in [(a, b, &x, &y), (b, a, &y, &x), (a, a, &x, &x)] {
        // lexicographic order, from the definition
        let mut k = 0;
        while k < p.len() && k < q.len() && p[k] == q[k] {
            k += 1;
        }
        let lt = if k == q.len() {
            false
        } else if k == p.len() {
            true
        } else {
            p[k] < q[k]
        };
        let le = lt || p == q;
        ensure!(str_lt(u, v) == lt, "str_lt({}, {}) = {}", show_word(p), show_word(q), str_lt(u, v));
        ensure!(str_le(u, v) == le, "str_le({}, {}) = {}", show_word(p), show_word(q), str_le(u, v));
    }
    Ok(())
}

fn order_case(a: &[u32], b: &[u32], ctx: &mut Ctx) -> R {
    if !ctx.begin(hash_of(&(a, b)), a != b, || format!("{} {}", show_word(a), show_word(b))) {
        return Ok(());
    }
    check_order(a, b)
}
fn order_exh(s: &mut Src, ctx: &mut Ctx) -> R {
    let al = [97, 98, 0x2FFFF];
    let a = small_word(s, &al, 4);
    let b = small_word(s, &al, 4);
    order_case(&a, &b, ctx)
}
fn order_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let al = alphabet(s);
    let a = word(s, &al, &[], 20);
    let mut b = if s.us(4) == 0 { word(s, &al, &[a.clone()], 20) } else { a.clone() };
    // common prefix, then a difference
    match s.us(4) {
        0 => {
            let k = s.us(b.len() + 1);
            b.truncate(k)
        }
        1 => b.push(*s.pick(&al)),
        3 if s.us(2) == 0 => b = lookalike(s, &b),
        2 if !b.is_empty() => {
            let i = s.us(b.len());
            b[i] = match s.us(3) {
                0 => (b[i] + 1).min(0x2FFFF),
                1 => b[i].saturating_sub(1),
                _ => *s.pick(SPECIAL),
            }
        }
        _ => {}
    }
    order_case(&a, &b, ctx)
}

fn is_d(c: u32) -> bool {
    (0x30..=0x39).contains(&c)
}

/// None: the value does not fit a 32-bit integer
fn ref_to_int(w: &[u32]) -> Option<i64> {
    if w.is_empty() || !w.iter().all(|c| is_d(*c)) {
        return Some(-1);
    }
    let mut v: i64 = 0;
    for c in w {
        v = v * 10 + (*c as i64 - 0x30);
        if v > i32::MAX as i64 {
            return None;
        }
    }
    Some(v)
}

fn check_string(w: &[u32]) -> R {
    let x = sstr(w);
    let sw = show_word(w);
    let g = no_panic(|| str_to_int(&x));
    match (ref_to_int(w), g) {
        (Some(v), Ok(g)) => ensure!(g as i64 == v, "str_to_int({sw}) = {g}, expected {v}"),
        (Some(v), Err(p)) => fail!("str_to_int({sw}) panics ({p}), expected {v}"),
        (None, Ok(g)) => fail!("str_to_int({sw}) = {g}, but the value does not fit: a panic is documented"),
        (None, Err(_)) => {}
    }
    let g = str_is_digit(&x);
    ensure!(g == (w.len() == 1 && is_d(w[0])), "str_is_digit({sw}) = {g}");
    let g = str_to_code(&x);
    let v = if w.len() == 1 { w[0] as i32 } else { -1 };
    ensure!(g == v, "str_to_code({sw}) = {g}");
    Ok(())
}

fn codes_exh(s: &mut Src, ctx: &mut Ctx) -> R {
    // -16..=0x30010 : from_code, and to_code/is_digit/to_int of the one-character string
    let k = s.below(0x30000 + 32);
    let x = k as i32 - 16;
    if !ctx.begin(k, x > 0, || format!("code {x}")) {
        return Ok(());
    }
    check_code(x)?;
    if (0..=0x2FFFF).contains(&x) {
        check_string(&[x as u32])?;
    }
    check_from_int(x)
}

fn check_code(x: i32) -> R {
    let g = codes(&str_from_code(x));
    if (0..=0x2FFFF).contains(&x) {
        ensure!(g == [x as u32], "str_from_code({x}) = {}", show_word(&g));
        let r = str_to_code(&str_from_code(x));
        ensure!(r == x, "str_to_code(str_from_code({x})) = {r}");
    } else {
        ensure!(g.is_empty(), "str_from_code({x}) = {}, expected the empty string", show_word(&g));
    }
    Ok(())
}

fn check_from_int(n: i32) -> R {
    let s = str_from_int(n);
    let g = codes(&s);
    if n < 0 {
        ensure!(g.is_empty(), "str_from_int({n}) = {}", show_word(&g));
    } else {
        // decimal representation without leading zeros
        let mut d = vec![];
        let mut m = n;
        loop {
            d.push(0x30 + (m % 10) as u32);
            m /= 10;
            if m == 0 {
                break;
            }
        }
        d.reverse();
        ensure!(g == d, "str_from_int({n}) = {}", show_word(&g));
        match no_panic(|| str_to_int(&s)) {
            Ok(r) => ensure!(r == n, "str_to_int(str_from_int({n})) = {r}"),
            Err(p) => fail!("str_to_int(str_from_int({n})) panics: {p}"),
        }
    }
    Ok(())
}

fn digits_exh(s: &mut Src, ctx: &mut Ctx) -> R {
    // all strings of length <= 3 over digits and neighbours; then prefixes around i32::MAX
    let w: W = if s.us(2) == 0 {
        small_word(s, &[0x30, 0x31, 0x35, 0x39, 0x2f, 0x3a, 0x2d, 0x61, 0x660], 4)
    } else {
        // 2147483640 .. 2147483659 and shifted by a factor of ten, with 0..=2 leading zeros and an optional bad tail
        let base = *s.pick(&[2147483630u64, 21474836470, 4294967290, 42949672950, 8589934580, 1 << 40, 999999999, 9999999980]);
        let v = base + s.below(32);
        let z = s.us(3);
        let tail = s.us(3);
        let mut w: W = vec![0x30; z];
        w.extend(v.to_string().bytes().map(|b| b as u32));
        match tail {
            1 => w.push(0x61),
            2 => w.insert(0, 0x2d),
            _ => {}
        }
        w
    };
    if !ctx.begin(hash_of(&w), w.iter().any(|c| is_d(*c)), || show_word(&w)) {
        return Ok(());
    }
    check_string(&w)
}

fn to_int(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut w: W = match s.us(5) {
        0 => {
            let n = s.us(14);
            (0..n).map(|_| 0x30 + s.below(10) as u32).collect()
        }
        1 => (i32::MAX as u64 - 20 + s.below(40)).to_string().bytes().map(|b| b as u32).collect(),
        2 => {
            // wraps to something harmless modulo 2^31, 2^32, 2^64
            let k = [31u32, 32, 33, 63, 64];
            let v = (1u128 << *s.pick(&k)) * (1 + s.below(20) as u128) + s.below(1000) as u128;
            v.to_string().bytes().map(|b| b as u32).collect()
        }
        3 => s.below(1 << 40).to_string().bytes().map(|b| b as u32).collect(),
        _ => {
            let n = 9 + s.us(40);
            (0..n).map(|_| 0x30 + s.below(10) as u32).collect()
        }
    };
    if s.us(3) == 0 {
        let n = s.us(40);
        w.splice(0..0, std::iter::repeat_n(0x30, n));
    }
    if s.us(3) == 0 {
        let i = s.us(w.len() + 1);
        let c = match s.us(3) {
            0 => *s.pick(&[0x2fu32, 0x3a, 0x2d, 0x2b, 0x20, 0x61, 0x2e, 0x5f, 0x65]),
            1 => *s.pick(&[0x660u32, 0x6f0, 0xff11, 0x1d7ce, 0xb2, 0xbd, 0x130, 0x10030, 0x20039]),
            _ => *s.pick(SPECIAL),
        };
        w.insert(i, c);
    }
    if !ctx.begin(hash_of(&w), w.iter().any(|c| is_d(*c)), || show_word(&w)) {
        return Ok(());
    }
    ctx.label(match ref_to_int(&w) {
        None => "overflow",
        Some(-1) => "not a number",
        _ => "number",
    });
    check_string(&w)
}

fn from_int(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = match s.us(4) {
        0 => s.below(1 << 32) as u32 as i32,
        1 => {
            // powers of ten and two and their neighbours
            let p = if s.us(2) == 0 { 10i64.pow(s.below(10) as u32) } else { 1i64 << s.below(32) };
            (p + s.below(5) as i64 - 2).clamp(i32::MIN as i64, i32::MAX as i64) as i32
        }
        2 => *s.pick(&[0, 1, -1, i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1]),
        _ => {
            let k = s.below(31);
            s.below(1 << k) as i32
        }
    };
    if !ctx.begin(n as u32 as u64, n > 0, || format!("{n}")) {
        return Ok(());
    }
    check_from_int(n)?;
    check_code(n)
}

/// long strings: late differences for the order, many digits or leading zeros for the conversions
fn huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = big_len(s, 140_000);
    if s.us(2) == 0 {
        let al = alphabet(s);
        let mut blk = word(s, &al, &[], 12);
        blk.push(*s.pick(&al));
        let a: W = blk.iter().copied().cycle().take(n).collect();
        let mut b = a.clone();
        let far = |s: &mut Src| if n == 0 { 0 } else { n - 1 - if s.us(3) == 0 { s.us(n) } else { s.us(n.min(4)) } };
        for _ in 0..1 + s.us(2) {
            let i = far(s);
            match s.us(4) {
                0 => b.push(*s.pick(&al)),
                1 => b.truncate(i),
                _ if i < b.len() => {
                    b[i] = match s.us(3) {
                        0 => (b[i] + 1).min(0x2FFFF),
                        1 => b[i].saturating_sub(1),
                        _ => *s.pick(SPECIAL),
                    }
                }
                _ => {}
            }
        }
        if !ctx.begin(hash_of(&(&a, &b)), a != b, || {
            format!("order of |s|={} and |t|={}, block {}", a.len(), b.len(), show_word(&blk))
        }) {
            return Ok(());
        }
        ctx.label(if n >= 65_536 { "order, length >= 65536" } else { "order, length < 65536" });
        return check_order(&a, &b).map_err(clip);
    }
    let z = if s.us(4) == 0 { 0x31 + s.us(9) as u32 } else { 0x30 };
    let mut w: W = vec![z; n];
    let tail = match s.us(3) {
        0 => s.below(1 << 31),
        1 => (1 << 31) - 3 + s.below(6),
        _ => s.below(1 << 40),
    };
    w.extend(tail.to_string().bytes().map(|b| b as u32));
    if s.us(3) == 0 {
        let i = s.us(w.len());
        w[i] = *s.pick(&[0x2fu32, 0x3a, 0x2d, 0x660, 0x10030, 0x20039, 0x20]);
    }
    if !ctx.begin(hash_of(&w), true, || format!("{n} times {z:#x} and {tail}")) {
        return Ok(());
    }
    ctx.label(match ref_to_int(&w) {
        None => "overflow",
        Some(-1) => "not a number",
        _ => "number",
    });
    check_string(&w).map_err(clip)
}

/// a difference, or a character that is not a digit, at every position of a run
fn positions(s: &mut Src, ctx: &mut Ctx) -> R {
    let (n, p) = place(s, if ctx.tier == Tier::Quick { 140 } else { 520 });
    let k = s.us(14);
    if k < 6 {
        // after the first difference everything says the contrary
        let (f, x, rest) = [
            (97, 98, 96),
            (97, 96, 98),
            (0, 1, 0),
            (0x2FFFF, 0x2FFFE, 0x2FFFF),
            (0x10061, 0x20000, 0),
            (0xff, 0x100, 0),
        ][k];
        let a = vec![f; n + 1];
        let mut b = a.clone();
        b[p] = x;
        for c in &mut b[p + 1..] {
            *c = rest;
        }
        order_case(&a, &b, ctx).map_err(clip)?;
        b.truncate(p + 1);
        check_order(&a, &b).map_err(clip)?;
        b.truncate(p);
        return check_order(&a, &b).map_err(clip);
    }
    let (f, x) = [
        (0x30, 0x61),
        (0x31, 0x2f),
        (0x30, 0x3a),
        (0x39, 0x10030),
        (0x30, 0x31),
        (0x30, 0x39),
        (0x30, 0x130),
        (0x30, 0x660),
    ][k - 6];
    let w = planted(f, n, p, &[x]);
    if !ctx.begin(hash_of(&w), n > 0, || format!("{x:#x} after {p} and before {} times {f:#x}", n - p)) {
        return Ok(());
    }
    check_string(&w).map_err(clip)
}
