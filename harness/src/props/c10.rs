//! C10: regex replace uses the leftmost, shortest match.
use super::c01::{small_leaf, small_op};
use super::strs::*;
use crate::engine::*;
use crate::ensure;
use crate::refdfa::*;
use crate::regen::*;
use crate::src::Src;
use aws_smt_strings::smt_regular_expressions as smt;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "A case is (string, expression, replacement), through the SMT-LIB named functions. Non-trivial: the \
               expression matches a non-empty part of the string, or matches only at a position other than 0. Distinct: \
               different triple (exhaustive modes: different expression; all strings of the mode are then checked).",
        assumptions: &["strings of at most 24 characters (long-strings: 600, huge: 70,000)"],
        modes: vec![
            Mode::exh("exhaustive-1op", exh1, 16).thread(),
            Mode::exh("exhaustive-2ops", exh2, 32).thread(),
            Mode::exh("every-position", positions, 8).thread(),
            Mode::random("random", random, 160_000, 8_000_000, 8_000).thread(),
            Mode::random("long-strings", long, 12_000, 600_000, 500).thread(),
            Mode::random("huge", huge, 1_200, 60_000, 100).thread(),
            Mode::random("long-matches", long_match, 1_200, 60_000, 100).thread(),
            Mode::random("searching", searching, 80_000, 4_000_000, 4_000).thread(),
        ],
    }
}

/// shortest match at each position
fn matches(m: &Mat) -> Vec<(Option<usize>, Option<usize>)> {
    let n = m.len() - 1;
    (0..=n)
        .map(|i| {
            let any = (i..=n).find(|j| m[i] >> j & 1 == 1);
            let non_empty = (i + 1..=n).find(|j| m[i] >> j & 1 == 1);
            (any, non_empty)
        })
        .collect()
}

fn ref_replace(w: &[u32], m: &Mat, t: &[u32]) -> Vec<u32> {
    let x = matches(m);
    for (i, (any, _)) in x.iter().enumerate() {
        if let Some(j) = any {
            return [&w[..i], t, &w[*j..]].concat();
        }
    }
    w.to_vec()
}
fn ref_replace_all(w: &[u32], m: &Mat, t: &[u32]) -> Vec<u32> {
    let x = matches(m);
    let mut out = vec![];
    let mut i = 0;
    while i < w.len() {
        match x[i].1 {
            Some(j) => {
                out.extend(t);
                i = j;
            }
            None => {
                out.push(w[i]);
                i += 1;
            }
        }
    }
    out
}

fn check(w: &[u32], r: aws_smt_strings::regular_expressions::RegLan, i: usize, m: &Mat, t: &[u32]) -> R {
    let (s, ts) = (sstr(w), sstr(t));
    for (name, got, want) in [
        ("str_replace_re", codes(&smt::str_replace_re(&s, r, &ts)), ref_replace(w, m, t)),
        ("str_replace_re_all", codes(&smt::str_replace_re_all(&s, r, &ts)), ref_replace_all(w, m, t)),
    ] {
        ensure!(
            got == want,
            "{name}({}, r{i}, {}) = {}, expected {}",
            show_word(w),
            show_word(t),
            show_word(&got),
            show_word(&want)
        );
    }
    Ok(())
}

fn exh(s: &mut Src, ctx: &mut Ctx, nops: usize, len: usize) -> R {
    let mut ops = vec![small_leaf(s), small_leaf(s)];
    for _ in 0..nops {
        let o = small_op(s, ops.len());
        ops.push(o);
    }
    if !ctx.begin(hash_of(&ops), true, || show_prog(&ops)) {
        return Ok(());
    }
    let r = ops.len() - 1;
    let terms = build_smt(&ops);
    let mut words: Vec<Vec<u32>> = vec![vec![]];
    let mut i = 0;
    while i < words.len() {
        let w = words[i].clone();
        if w.len() < len {
            for c in [97, 98, 99] {
                let mut x = w.clone();
                x.push(c);
                words.push(x);
            }
        }
        i += 1;
    }
    for (i, w) in words.iter().enumerate() {
        let m = spans(&ops, w);
        let ts: [&[u32]; 3] = [&[], &[120], &[97, 98, 97]];
        for (j, t) in ts.iter().enumerate() {
            if nops == 1 || i % 3 == j {
                check(w, terms[r], r, &m[r], t)?;
            }
        }
    }
    ctx.count("replacements", words.len() as u64);
    Ok(())
}
fn exh1(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 1, 5)
}
fn exh2(s: &mut Src, ctx: &mut Ctx) -> R {
    let len = if ctx.tier == Tier::Quick { 3 } else { 5 };
    exh(s, ctx, 2, len)
}

fn finish(ctx: &mut Ctx, ops: Vec<Op>, rs: Vec<usize>, w: Vec<u32>, t: Vec<u32>) -> R {
    let m = spans(&ops, &w);
    let nt = rs.iter().any(|r| {
        let x = matches(&m[*r]);
        let first = x.iter().position(|y| y.0.is_some());
        x.iter().any(|y| y.1.is_some()) || first.is_some_and(|i| i > 0)
    });
    if !ctx.begin(hash_of(&(&ops, &w, &t)), nt, || {
        format!("{}; string {} replacement {}", show_prog(&ops), show_word(&w), show_word(&t))
    }) {
        return Ok(());
    }
    let terms = build_smt(&ops);
    for r in rs {
        let x = matches(&m[r]);
        ctx.label(match x.iter().position(|y| y.0.is_some()) {
            None => "no match",
            Some(0) if x[0].0 == Some(0) => "empty match in front",
            Some(0) => "match at 0",
            Some(i) if x[i].0 == Some(i) => "empty match later",
            _ => "match later",
        });
        check(&w, terms[r], r, &m[r], &t)?;
    }
    Ok(())
}

fn gen_text(s: &mut Src, pool: &[u32], max: usize) -> Vec<u32> {
    let n = s.us(max + 1);
    (0..n)
        .map(|_| match s.us(10) {
            0 => s.pick(pool).saturating_add(1).min(MAXC),
            1 => s.pick(pool).saturating_sub(1),
            _ => *s.pick(pool),
        })
        .collect()
}

fn random(s: &mut Src, ctx: &mut Ctx) -> R {
    let pool = gen_pool(s, 3);
    let mut cfg = CFG;
    cfg.max_ops = 1 + s.us(8);
    let ops = gen_ops(s, cfg, pool.clone(), |_, _| true);
    let w = gen_text(s, &pool, 10);
    let t = gen_text(s, &pool, 3);
    let rs = roots(&ops);
    finish(ctx, ops, rs, w, t)
}

/// Longer strings and larger expressions; matches found by running the reference automaton
fn long(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = match s.us(5) {
        0 => gen_wide(s),
        1 => gen_deep(s, 60),
        2 => gen_syn(s),
        _ => {
            let mut cfg = CFG;
            cfg.max_ops = 6;
            gen_prog(s, cfg)
        }
    };
    let r = p.last();
    let d = &p.dfa[r];
    // text: members, parts of members and noise
    let mut w: Vec<u32> = vec![];
    let parts = s.us(12);
    let max = *s.pick(&[8usize, 30, 60]);
    for _ in 0..parts {
        match s.us(3) {
            0 => {
                let n = s.us(6);
                w.extend((0..n).map(|_| *s.pick(&p.pool)));
            }
            _ => w.extend(gen_word(s, &p.atoms, d, max)),
        }
    }
    w.truncate(600);
    let t = gen_text(s, &p.pool, 5);
    let n = w.len();
    let live = d.live();
    let found: Vec<(Option<usize>, Option<usize>)> = (0..=n)
        .map(|i| {
            let any = if d.f[0] { Some(i) } else { None };
            let mut q = 0;
            for j in i..n {
                q = d.next(q, p.atoms.of(w[j]));
                if d.f[q] {
                    return (any.or(Some(j + 1)), Some(j + 1));
                }
                if !live[q] {
                    break;
                }
            }
            (any, None)
        })
        .collect();
    let hits = found.iter().filter(|x| x.1.is_some()).count();
    if !ctx.begin(hash_of(&(&p.ops, &w, &t)), hits > 0 && n > 24, || {
        format!("{}; string {} replacement {}", p.show(), show_word(&w), show_word(&t))
    }) {
        return Ok(());
    }
    if !light_prog(&p, 1500, HEAVY) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    ctx.label(match (n, hits) {
        (_, 0) => "no non-empty match",
        (0..=24, _) => "text of at most 24 characters",
        (25..=200, _) => "text of 25-200 characters",
        _ => "text of > 200 characters",
    });
    let one = match found.iter().enumerate().find_map(|(i, x)| x.0.map(|j| (i, j))) {
        Some((i, j)) => [&w[..i], &t[..], &w[j..]].concat(),
        None => w.clone(),
    };
    let mut all = vec![];
    let mut i = 0;
    while i < n {
        match found[i].1 {
            Some(j) => {
                all.extend(&t);
                i = j;
            }
            None => {
                all.push(w[i]);
                i += 1;
            }
        }
    }
    let terms = build_smt(&p.ops);
    let (sw, st) = (sstr(&w), sstr(&t));
    for (name, got, want) in [
        ("str_replace_re", codes(&smt::str_replace_re(&sw, terms[r], &st)), one),
        ("str_replace_re_all", codes(&smt::str_replace_re_all(&sw, terms[r], &st)), all),
    ] {
        ensure!(
            got == want,
            "{name}({}, r{r}, {}) = {}, expected {}",
            show_word(&w),
            show_word(&t),
            show_word(&got),
            show_word(&want)
        );
    }
    Ok(())
}

/// small alternations of words and character classes in longer strings, where
/// matches start late, overlap, nest and are prefixes of one another
fn searching(s: &mut Src, ctx: &mut Ctx) -> R {
    let pool = gen_pool(s, 2);
    let mut ops = vec![];
    let k = 1 + s.us(3);
    for _ in 0..k {
        let n = s.us(5);
        ops.push(match s.us(5) {
            0 => Op::AllChar,
            1 => Op::Char(*s.pick(&pool)),
            _ => Op::Str((0..n).map(|_| *s.pick(&pool)).collect()),
        });
    }
    let parts: Vec<usize> = (0..ops.len()).collect();
    ops.push(Op::UnionList(parts));
    for _ in 0..s.us(4) {
        let n = ops.len();
        let (x, y) = (n - 1, s.us(n));
        let l = s.range32(0, 2);
        match s.us(9) {
            0 => ops.push(Op::Plus(x)),
            1 => ops.push(Op::Concat(x, y)),
            2 => ops.push(Op::Concat(y, x)),
            3 => ops.push(Op::Loop(x, l, Some(l + 2))),
            4 => ops.push(Op::Opt(x)),
            5 => ops.extend([Op::Star(y), Op::Concat(x, n)]),
            6 => ops.extend([Op::Comp(y), Op::Inter(x, n)]),
            7 => ops.extend([Op::All, Op::ConcatList(vec![x, n, y])]),
            _ => ops.extend([Op::SigmaPlus, Op::Inter(x, n)]),
        }
    }
    let r = ops.len() - 1;
    let mut w = gen_text(s, &pool, 24);
    if s.us(3) == 0 {
        // words of the pattern, and words that are easily confused with them
        let words: Vec<Vec<u32>> =
            ops.iter().filter_map(|o| if let Op::Str(v) = o { Some(v.clone()) } else { None }).collect();
        if !words.is_empty() {
            w.truncate(s.us(4));
            for _ in 0..1 + s.us(5) {
                let v = s.pick(&words).clone();
                w.extend(if s.us(3) == 0 { v } else { lookalike(s, &v) });
            }
            w.truncate(24);
        }
    }
    let t = gen_text(s, &pool, 4);
    finish(ctx, ops, vec![r], w, t)
}

/// one piece of a linear pattern: a range of characters, optional, repeated
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Piece(u32, u32, bool, bool);

/// the shortest match at w[i..] of a linear pattern whose repeated pieces are optional
fn shortest(p: &[Piece], w: &[u32], i: usize, non_empty: bool) -> Option<usize> {
    let n = p.len();
    // active positions, in increasing order
    let close = |mut k: usize, out: &mut Vec<usize>| loop {
        if out.last().is_none_or(|l| *l < k) {
            out.push(k);
        }
        if k < n && p[k].2 {
            k += 1;
        } else {
            break;
        }
    };
    let mut cur = vec![];
    close(0, &mut cur);
    if cur.last() == Some(&n) && !non_empty {
        return Some(i);
    }
    for (j, c) in w.iter().enumerate().skip(i) {
        let mut set = std::collections::BTreeSet::new();
        for k in cur {
            if k < n && p[k].0 <= *c && *c <= p[k].1 {
                set.insert(if p[k].3 { k } else { k + 1 });
            }
        }
        let mut nxt = vec![];
        for k in set {
            close(k, &mut nxt);
        }
        nxt.sort_unstable();
        nxt.dedup();
        match nxt.last() {
            None => return None,
            Some(l) if *l == n => return Some(j + 1),
            _ => cur = nxt,
        }
    }
    None
}

/// long texts and linear patterns: words, ranges, optional and repeated pieces
fn huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let pool = gen_pool(s, 3);
    let (pmax, nmax) = *s.pick(&[(2usize, 70_000usize), (6, 20_000), (30, 6_000), (300, 1_500)]);
    let mut p: Vec<Piece> = vec![];
    let np = 1 + s.us(pmax);
    let mut r = Src::random(s.below(1 << 32));
    let mut stars = 0;
    for _ in 0..np {
        let (a, b) = match r.us(4) {
            0 => (*r.pick(&pool), *r.pick(&pool)),
            _ => {
                let c = *r.pick(&pool);
                (c, c)
            }
        };
        let (opt, rep) = if stars < 2 && r.us(5) == 0 { (r.us(2) == 0, r.us(2) == 0) } else { (false, false) };
        stars += (opt || rep) as usize;
        p.push(Piece(a.min(b), a.max(b), opt, rep));
    }
    // text: the pieces of the pattern, near misses and noise
    let n = big_len(s, nmax);
    let noise = 1 + s.us(4);
    let mut w: Vec<u32> = vec![];
    while w.len() < n {
        match r.us(noise + 2) {
            0 | 1 => {
                let cut = if r.us(2) == 0 { p.len() } else { r.us(p.len() + 1) };
                for q in &p[..cut] {
                    for _ in 0..if q.3 { r.us(4) } else { 1 } {
                        w.push(if r.us(2) == 0 { q.0 } else { q.1 });
                    }
                }
            }
            _ => {
                for _ in 0..1 + r.us(8) {
                    w.push(if r.us(6) == 0 { (*r.pick(&pool) + 1).min(MAXC) } else { *r.pick(&pool) });
                }
            }
        }
    }
    w.truncate(n);
    let t = gen_text(s, &pool, 3);
    linear_case(ctx, p, w, t)
}

/// matches of up to tens of thousands of characters: a start, a long repetition, an end
fn long_match(s: &mut Src, ctx: &mut Ctx) -> R {
    let a = *s.pick(&[97u32, 97, 0, 0xFFFE, MAXC - 8]);
    let one = |c: u32| Piece(c, c, false, false);
    let opt = s.us(2) == 0;
    // the repeated characters, and whether the start is among them
    let (rep, quad) = match s.us(4) {
        0 => ((a + 2, a + 2), false),
        1 => ((a + 2, a + 5), false),
        2 => ((a, a + 5), true),
        _ => ((a + 2, a + 6), false),
    };
    let ns = if quad { 1 } else { s.us(3) };
    let mut p: Vec<Piece> = (0..ns).map(|i| one(a + (i as u32 % 2))).collect();
    p.push(Piece(rep.0, rep.1, opt, true));
    let ne = 1 + s.us(3);
    let stop: Vec<u32> = (0..ne).map(|i| if i == 0 { a + 6 } else { a + 6 + s.us(2) as u32 }).collect();
    p.extend(stop.iter().map(|c| one(*c)));
    let mut r = Src::random(s.below(1 << 32));
    let quad = quad || ns == 0;
    let len = big_len(s, if quad { 1_200 } else { 40_000 });
    let mut w: Vec<u32> = vec![];
    let pieces = 1 + s.us(4);
    for k in 0..pieces {
        let m = r.us(4);
        w.extend((0..m).map(|_| a + r.us(8) as u32));
        w.extend((0..ns).map(|i| a + (i as u32 % 2)));
        let l = if k == 0 { len } else { r.us(60) };
        let style = r.us(3);
        for _ in 0..l {
            w.push(match style {
                0 => rep.0,
                1 => rep.1,
                _ => rep.0 + r.us((rep.1 - rep.0 + 1) as usize) as u32,
            });
        }
        match r.us(5) {
            // the match does not end here
            0 => w.push(a + 7),
            1 => w.extend(&stop[..ne - 1]),
            _ => w.extend(&stop),
        }
    }
    let pool: Vec<u32> = (a..a + 8).collect();
    let t = gen_text(s, &pool, 3);
    linear_case(ctx, p, w, t)
}

fn linear_case(ctx: &mut Ctx, p: Vec<Piece>, w: Vec<u32>, t: Vec<u32>) -> R {
    let n = w.len();
    let mut ops: Vec<Op> = vec![];
    let mut parts = vec![];
    for q in &p {
        ops.push(if q.0 == q.1 { Op::Char(q.0) } else { Op::Range(q.0, q.1) });
        let l = ops.len() - 1;
        match (q.2, q.3) {
            (true, true) => ops.push(Op::Star(l)),
            (true, false) => ops.push(Op::Opt(l)),
            (false, true) => ops.push(Op::Plus(l)),
            _ => (),
        }
        parts.push(ops.len() - 1);
    }
    ops.push(Op::ConcatList(parts));
    let e = ops.len() - 1;
    // one or more: one, then any number
    let lin: Vec<Piece> = p
        .iter()
        .flat_map(|q| match (q.2, q.3) {
            (false, true) => vec![Piece(q.0, q.1, false, false), Piece(q.0, q.1, true, true)],
            _ => vec![*q],
        })
        .collect();
    if !ctx.begin(hash_of(&(&p, &w, &t)), n > 600, || {
        let l: Vec<String> = p
            .iter()
            .take(20)
            .map(|q| {
                let x = match (q.2, q.3) {
                    (true, true) => "*",
                    (true, false) => "?",
                    (false, true) => "+",
                    _ => "",
                };
                format!("[{},{}]{x}", show_char(q.0), show_char(q.1))
            })
            .collect();
        format!("pattern of {} pieces {} on a string of {} characters", p.len(), l.join(" "), w.len())
    }) {
        return Ok(());
    }
    let one = match (0..=n).find_map(|i| shortest(&lin, &w, i, false).map(|j| (i, j))) {
        Some((i, j)) => [&w[..i], &t[..], &w[j..]].concat(),
        None => w.clone(),
    };
    let mut all = vec![];
    let mut i = 0;
    let mut hits = 0u64;
    while i < n {
        match shortest(&lin, &w, i, true) {
            Some(j) => {
                all.extend(&t);
                i = j;
                hits += 1;
            }
            None => {
                all.push(w[i]);
                i += 1;
            }
        }
    }
    ctx.count("matches", hits);
    ctx.label(match n {
        0..=599 => "text of < 600 characters",
        600..=9_999 => "text of 600-9999 characters",
        _ => "text of >= 10000 characters",
    });
    let term = build_smt(&ops)[e];
    let (sw, st) = (sstr(&w), sstr(&t));
    for (name, got, want) in [
        ("str_replace_re", codes(&smt::str_replace_re(&sw, term, &st)), one),
        ("str_replace_re_all", codes(&smt::str_replace_re_all(&sw, term, &st)), all),
    ] {
        if got != want {
            let k = got.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len()));
            crate::fail!(
                "{name} of a string of {n} characters differs from the expected result at position {k}: {} against {} \
                 (lengths {} and {})",
                show_word(&got[k.saturating_sub(5)..(k + 20).min(got.len())]),
                show_word(&want[k.saturating_sub(5)..(k + 20).min(want.len())]),
                got.len(),
                want.len()
            );
        }
    }
    Ok(())
}

/// one match at every position of a run of one character
fn positions(s: &mut Src, ctx: &mut Ctx) -> R {
    const A: u32 = 97;
    let one = |c: u32| Piece(c, c, false, false);
    let kinds: [(u32, Vec<Piece>, Vec<u32>); 10] = [
        (120, vec![one(A)], vec![A]),
        (120, vec![one(A), one(98)], vec![A, 98]),
        (98, vec![one(A), one(98)], vec![A]),
        (A, vec![one(A), one(98)], vec![98]),
        (120, vec![one(A), Piece(120, 120, true, true), one(98)], vec![A, 120, 120, 98]),
        (120, vec![Piece(A, 98, false, true), one(99)], vec![A, 98, 98, A, 99]),
        (120, vec![Piece(A, A, true, true), one(98)], vec![A, A, 98]),
        (A, vec![one(A), one(A), Piece(A, A, true, false), one(98)], vec![98]),
        (120, vec![Piece(0, 119, false, false), one(120), Piece(121, MAXC, false, false)], vec![A, 120, 0x2FFFF]),
        (98, vec![one(A), Piece(0, MAXC, false, false), Piece(0, MAXC, true, true), one(A)], vec![A, A, 98, A, 98]),
    ];
    let n = s.us(if ctx.tier == Tier::Quick { 101 } else { 301 });
    let k = s.us(kinds.len());
    let (f, p, w) = &kinds[k];
    if !ctx.begin(hash_of(&(n, k)), n > 0, || format!("way {k}, every position of {n} times {f:#x}")) {
        return Ok(());
    }
    let mut ops: Vec<Op> = vec![];
    let mut parts = vec![];
    for q in p {
        ops.push(if q.0 == q.1 { Op::Char(q.0) } else { Op::Range(q.0, q.1) });
        let l = ops.len() - 1;
        match (q.2, q.3) {
            (true, true) => ops.push(Op::Star(l)),
            (true, false) => ops.push(Op::Opt(l)),
            (false, true) => ops.push(Op::Plus(l)),
            _ => (),
        }
        parts.push(ops.len() - 1);
    }
    ops.push(Op::ConcatList(parts));
    let lin: Vec<Piece> = p
        .iter()
        .flat_map(|q| match (q.2, q.3) {
            (false, true) => vec![Piece(q.0, q.1, false, false), Piece(q.0, q.1, true, true)],
            _ => vec![*q],
        })
        .collect();
    let term = *build_smt(&ops).last().unwrap();
    let t = [MAXC, 99];
    for i in 0..=n {
        let text = planted(*f, n, i, w);
        let n = text.len();
        let one = match (0..=n).find_map(|i| shortest(&lin, &text, i, false).map(|j| (i, j))) {
            Some((i, j)) => [&text[..i], &t[..], &text[j..]].concat(),
            None => text.clone(),
        };
        let mut all = vec![];
        let mut j = 0;
        while j < n {
            match shortest(&lin, &text, j, true) {
                Some(e) => {
                    all.extend(t);
                    j = e;
                }
                None => {
                    all.push(text[j]);
                    j += 1;
                }
            }
        }
        let (sw, st) = (sstr(&text), sstr(&t));
        for (name, got, want) in [
            ("str_replace_re", codes(&smt::str_replace_re(&sw, term, &st)), one),
            ("str_replace_re_all", codes(&smt::str_replace_re_all(&sw, term, &st)), all),
        ] {
            ensure!(
                got == want,
                "{name} on {} = {}, expected {}",
                show_word(&text),
                show_word(&got),
                show_word(&want)
            );
        }
    }
    Ok(())
}
