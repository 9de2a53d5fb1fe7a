//! C19: the derivative closure is enumerated exactly and try_compile honours its bound.
use super::autom::*;
use super::c01::{at_root, small_ops};
use crate::engine::*;
use crate::refdfa::*;
use crate::regen::*;
use crate::src::Src;
use crate::{ensure, fail};
use aws_smt_strings::regular_expressions::{ReManager, RegLan, RE};
use std::collections::HashSet;

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "A case is a construction program whose result terms are closed under derivatives. Non-trivial: some \
               result term uses two or more operators and has at least three derivatives. Distinct: different sequence \
               of calls.",
        assumptions: &[
            "termination is judged by a bound on the number of derivatives: 20000 for the terms of the small exhaustive \
             world; random terms with more than 1500 (thorough: 6000) derivatives are skipped",
        ],
        modes: vec![
            Mode::exh("exhaustive-2ops", exh2, 16),
            Mode::random("random", random, 40_000, 2_000_000, 2_500),
            Mode::random("large", large, 1_200, 60_000, 100),
            Mode::random("wide", wide, 24_000, 1_200_000, 1_000),
            Mode::random("synonyms", synonyms, 24_000, 1_200_000, 1_000),
            Mode::random("deep", deep, 1_200, 60_000, 40),
            Mode::random("huge", huge, 240, 6_000, 6),
            Mode::random("beyond-16-bits", beyond16, 16, 400, 1),
            Mode::random("vast", vast, 8, 200, 1),
            Mode::random("many-classes", many_classes, 160, 6_000, 8),
            Mode::exh("exhaustive-3ops", exh3, 256).thorough_only(),
        ],
    }
}

fn addr(e: RegLan) -> usize {
    e as *const _ as usize
}

/// the enumerated terms (they are never freed, but the iterator ties them to the manager)
fn list(re: &mut ReManager, e: RegLan, max: usize) -> Vec<RegLan> {
    re.iter_derivatives(e).take(max).map(|x| unsafe { &*(x as *const RE) }).collect()
}

/// closure of e under char_derivative, computed here; None if larger than limit
fn closure(re: &mut ReManager, e: RegLan, at: &Atoms, limit: usize) -> Option<Vec<RegLan>> {
    let pr: Vec<u32> = probes(at).iter().map(|x| x.1).collect();
    let mut seen = HashSet::new();
    seen.insert(addr(e));
    let mut list = vec![e];
    let mut i = 0;
    while i < list.len() {
        let t = list[i];
        let mut pts = pr.clone();
        for (a, b) in intervals_of(t.char_ranges()) {
            pts.extend([a, b, a.saturating_sub(1), (b + 1).min(MAXC)]);
        }
        for c in pts {
            let d = re.char_derivative(t, c);
            if seen.insert(addr(d)) {
                list.push(d);
            }
        }
        if list.len() > limit {
            return None;
        }
        i += 1;
    }
    Some(list)
}

fn check_term(re: &mut ReManager, e: RegLan, at: &Atoms, limit: usize, order: u64, must: bool) -> R<usize> {
    let full = |re: &mut ReManager| -> R<Option<Vec<RegLan>>> {
        match closure(re, e, at, limit) {
            Some(c) => Ok(Some(c)),
            None if must => fail!("{e} has more than {limit} derivatives"),
            None => Ok(None),
        }
    };
    // the first operation that sees the term differs from case to case
    let early: Option<(usize, bool)> = match order % 4 {
        1 => Some((3, re.try_compile(e, 3).is_some())),
        2 => Some((1, re.try_compile(e, 1).is_some())),
        _ => None,
    };
    let cold = if order % 4 == 3 {
        Some(list(re, e, limit + 1))
    } else {
        None
    };
    let Some(cl) = full(re)? else { return Ok(0) };
    let n = cl.len();
    if let Some((b, some)) = early {
        ensure!(
            some == (n <= b),
            "try_compile({e}, {b}) on a fresh term returns {}, but the term has {n} derivatives",
            if some { "an automaton" } else { "None" }
        );
    }
    let got = match cold {
        Some(v) => v,
        None => list(re, e, limit + 1),
    };
    ensure!(got.len() <= limit, "iter_derivatives({e}) yields more than {limit} terms, the closure has {n}");
    ensure!(!got.is_empty() && std::ptr::eq(got[0], e), "iter_derivatives({e}) does not yield the term itself first");
    let mut seen = HashSet::new();
    for t in &got {
        ensure!(seen.insert(addr(t)), "iter_derivatives({e}) yields {t} twice");
    }
    let want: HashSet<usize> = cl.iter().map(|x| addr(x)).collect();
    for t in &cl {
        ensure!(seen.contains(&addr(t)), "iter_derivatives({e}) misses the derivative {t}");
    }
    for t in &got {
        ensure!(want.contains(&addr(t)), "iter_derivatives({e}) yields {t}, which is not an iterated derivative");
    }
    // distinct objects are distinct terms
    if n <= 60 {
        for i in 0..n {
            for j in 0..i {
                ensure!(cl[i] != cl[j], "two distinct objects in the closure of {e} are equal: {}", cl[i]);
            }
        }
    }
    // a second enumeration agrees
    let again = re.iter_derivatives(e).count();
    ensure!(again == n, "a second iter_derivatives({e}) yields {again} terms, the first {n}");
    // bounds
    let mut bounds = vec![0, 1, n - 1, n, n + 1, n + 1 + (order % 7) as usize, usize::MAX];
    bounds.push((order / 4) as usize % (n + 1));
    for b in bounds {
        let a = re.try_compile(e, b);
        let want = b > 0 && n <= b;
        match a {
            None => ensure!(!want, "try_compile({e}, {b}) = None, but the term has {n} derivatives"),
            Some(a) => {
                ensure!(want, "try_compile({e}, {b}) returns an automaton, but the term has {n} derivatives");
                ensure!(
                    a.num_states() == n && a.states().count() == n,
                    "try_compile({e}, {b}) has {} states, but the term has {n} derivatives",
                    a.num_states()
                );
            }
        }
    }
    let a = re.compile(e);
    ensure!(
        a.num_states() == n && a.states().count() == n,
        "compile({e}) has {} states, but the term has {n} derivatives",
        a.num_states()
    );
    Ok(n)
}

fn exh(s: &mut Src, ctx: &mut Ctx, k: usize) -> R {
    let ops = small_ops(s, k);
    let h = hash_of(&ops);
    if !ctx.begin(h, true, || show_prog(&ops)) {
        return Ok(());
    }
    let at = pool_atoms(&[97, 98]);
    let mut re = ReManager::new();
    let t = build(&mut re, &ops);
    for r in roots(&ops) {
        let n = check_term(&mut re, t[r], &at, 20_000, h, true).map_err(|x| at_root(x, r))?;
        size_label(ctx, n);
    }
    Ok(())
}
fn size_label(ctx: &mut Ctx, n: usize) {
    ctx.label(match n {
        0 => "closure too large, skipped",
        1..=2 => "closure 1-2",
        3..=10 => "closure 3-10",
        11..=50 => "closure 11-50",
        51..=300 => "closure 51-300",
        _ => "closure > 300",
    });
}
fn exh2(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 2)
}
fn exh3(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 3)
}

fn run(p: &Prog, order: u64, limit: usize, ctx: &mut Ctx) -> R {
    // size of the closure decides whether the case counts: build once, cheaply
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for r in &p.roots {
        let n = check_term(&mut re, t[*r], &p.atoms, limit, order, false).map_err(|x| at_root(x, *r))?;
        size_label(ctx, n);
    }
    Ok(())
}

fn random(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 4 + s.us(9);
    let p = gen_prog(s, cfg);
    let order = s.below(1 << 20);
    let nt = p.roots.iter().any(|r| p.weight(*r) >= 2 && p.dfa[*r].n() >= 3);
    if !ctx.begin(p.hash(), nt, || p.show()) {
        return Ok(());
    }
    label_ops(ctx, &p.ops);
    let limit = if ctx.tier == Tier::Quick { 1500 } else { 6000 };
    run(&p, order, limit, ctx)
}

fn big(s: &mut Src, ctx: &mut Ctx, p: Prog, limit: usize) -> R {
    let order = s.below(1 << 20);
    let nt = p.roots.iter().any(|r| p.weight(*r) >= 2 && p.dfa[*r].n() >= 3);
    if !ctx.begin(p.hash(), nt, || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !light_prog(&p, limit + 500, HEAVY) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    run(&p, order, limit, ctx)
}
/// many classes per term
fn wide(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_wide(s);
    big(s, ctx, p, 600)
}
/// one language written in several ways, and combined with itself
fn synonyms(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_syn(s);
    big(s, ctx, p, 1000)
}
/// closures of hundreds to thousands of terms
fn deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_deep(s, 400);
    big(s, ctx, p, 4000)
}

/// closures of thousands of terms
fn huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let max = huge_size(s, if ctx.tier == Tier::Quick { 10_000 } else { 66_000 });
    let p = gen_huge(s, max);
    huge_prog(s, ctx, p, max)
}
/// more than 65536 of them
fn beyond16(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_beyond(s);
    huge_prog(s, ctx, p, BEYOND)
}
/// hundreds of thousands of terms
fn vast(s: &mut Src, ctx: &mut Ctx) -> R {
    let max = if ctx.tier == Tier::Quick { 400_000 } else { 1_200_000 };
    let (ops, pool, _) = gen_vast(s, max);
    let order = s.below(1 << 20);
    if !ctx.begin(hash_of(&ops), true, || show_prog(&ops)) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &ops);
    let n = check_term(&mut re, t[ops.len() - 1], &pool_atoms(&pool), 3 * max as usize, order, true)?;
    ctx.label(if n > 100_000 { "more than 100000 terms" } else { "at most 100000 terms" });
    Ok(())
}

/// hundreds of derivative classes
fn many_classes(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_many_classes(s);
    huge_prog(s, ctx, p, BEYOND)
}
fn huge_prog(s: &mut Src, ctx: &mut Ctx, p: Prog, max: usize) -> R {
    let order = s.below(1 << 20);
    let nt = p.roots.iter().any(|r| p.weight(*r) >= 1 && p.dfa[*r].n() >= 20);
    if !ctx.begin(p.hash(), nt, || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !huge_fits(&p, max) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    run(&p, order, 4 * max + 200, ctx)
}

/// closures of hundreds of terms: long words, counted loops
fn large(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 4;
    cfg.loop_max = 40;
    cfg.str_len = 40;
    let p = gen_prog(s, cfg);
    let order = s.below(1 << 20);
    let nt = p.roots.iter().any(|r| p.weight(*r) >= 1 && p.dfa[*r].n() >= 20);
    if !ctx.begin(p.hash(), nt, || p.show()) {
        return Ok(());
    }
    if !light_prog(&p, 4500, HEAVY) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    run(&p, order, 4000, ctx)
}
