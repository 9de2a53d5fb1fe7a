//! C05: emptiness and witnesses are exact.
use super::c01::{at_root, small_ops};
use crate::engine::*;
use crate::refdfa::*;
use crate::regen::*;
use crate::src::Src;
use crate::{ensure, fail};
use aws_smt_strings::regular_expressions::{ReManager, RegLan};

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "A case is a construction program; is_empty_re and get_string are checked on its terms. Non-trivial: some \
               result term uses two or more operators and its language is neither all nor {epsilon} (empty languages \
               count when the term itself is not the empty term). Distinct: different sequence of calls.",
        assumptions: &["terms with more than 4000 derivatives are skipped when their language is empty or unreached"],
        modes: vec![
            Mode::exh("exhaustive-2ops", exh2, 16),
            Mode::random("random", random, 45_000, 2_500_000, 2_500),
            Mode::random("near-empty", near_empty, 30_000, 1_500_000, 1_500),
            Mode::random("wide", wide, 30_000, 1_500_000, 1_000),
            Mode::random("synonyms", synonyms, 24_000, 1_200_000, 1_000),
            Mode::random("deep", deep_programs, 1_600, 80_000, 50),
            Mode::random("deep-witness", deep, 4_000, 200_000, 400),
            Mode::random("huge", huge, 240, 6_000, 6),
            Mode::random("beyond-16-bits", beyond16, 16, 400, 1),
            Mode::random("vast", vast, 8, 200, 1),
            Mode::random("many-classes", many_classes, 160, 6_000, 8),
            Mode::exh("exhaustive-3ops", exh3, 256).thorough_only(),
        ],
    }
}

/// false: the closure is too large to search
fn tractable(re: &mut ReManager, e: RegLan) -> bool {
    let mut n = 0;
    for t in re.iter_derivatives(e) {
        if t.nullable {
            return true;
        }
        n += 1;
        if n > 4000 {
            return false;
        }
    }
    true
}

fn check_term(re: &mut ReManager, e: RegLan, d: &Dfa, at: &Atoms, first: bool, ctx: &mut Ctx) -> R {
    if d.n() > 1 && !tractable(re, e) {
        ctx.label("large closure skipped");
        return Ok(());
    }
    check_exact(re, e, d, at, first, ctx)
}
fn check_exact(re: &mut ReManager, e: RegLan, d: &Dfa, at: &Atoms, first: bool, ctx: &mut Ctx) -> R {
    let empty = d.is_empty();
    let test_empty = |re: &mut ReManager| -> R {
        let got = re.is_empty_re(e);
        ensure!(
            got == empty,
            "is_empty_re({e}) = {got}, but the language is {}",
            if empty { "empty" } else { "not empty" }
        );
        Ok(())
    };
    if first {
        test_empty(re)?;
    }
    let w = re.get_string(e);
    if !first {
        test_empty(re)?;
    }
    match w {
        None => ensure!(empty, "get_string({e}) = None, but the language is not empty"),
        Some(w) => {
            ensure!(!empty, "get_string({e}) = {w}, but the language is empty");
            let v: Vec<u32> = w.iter().copied().collect();
            ensure!(w.is_good() && v.iter().all(|c| *c <= MAXC), "get_string({e}) yields a malformed string {v:x?}");
            ensure!(d.accepts(at, &v), "get_string({e}) = {w} is not in the language");
            ensure!(re.str_in_re(&w, e), "get_string({e}) = {w} is rejected by str_in_re");
            match re.try_compile(e, 400) {
                Some(a) => ensure!(a.accepts(&w), "get_string({e}) = {w} is rejected by the compiled automaton"),
                None => ctx.label("not compiled"),
            }
            ctx.label(match v.len() {
                0 => "witness length 0",
                1..=3 => "witness length 1-3",
                4..=10 => "witness length 4-10",
                11..=255 => "witness length 11-255",
                _ => "witness length > 255",
            });
        }
    }
    if empty {
        ctx.label(if e.is_empty() { "empty term" } else { "empty language, other term" });
    }
    Ok(())
}

fn check_prog(p: &Prog, order: u64, ctx: &mut Ctx) -> R {
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for i in 0..t.len() {
        if i < 2 && !p.roots.contains(&i) {
            continue;
        }
        check_term(&mut re, t[i], &p.dfa[i], &p.atoms, (order >> (i % 64)) & 1 == 0, ctx).map_err(|x| at_root(x, i))?;
    }
    Ok(())
}

fn exh(s: &mut Src, ctx: &mut Ctx, k: usize) -> R {
    let ops = small_ops(s, k);
    if !ctx.begin(hash_of(&ops), true, || show_prog(&ops)) {
        return Ok(());
    }
    let Ok(p) = prog_of(ops, vec![97, 98]) else { return Err(Stop::Discard("reference cap")) };
    check_prog(&p, 0, ctx)
}
fn exh2(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 2)
}
fn exh3(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 3)
}

fn nontrivial(p: &Prog) -> bool {
    p.roots.iter().any(|r| (p.interesting(*r) || p.dfa[*r].is_empty()) && p.weight(*r) >= 2)
}

fn random(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 4 + s.us(9);
    let p = gen_prog(s, cfg);
    let order = s.below(1 << 16);
    if !ctx.begin(p.hash(), nontrivial(&p), || p.show()) {
        return Ok(());
    }
    label_ops(ctx, &p.ops);
    check_prog(&p, order, ctx)
}

/// intersections and differences that are empty or have few members
fn near_empty(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 5;
    let p = gen_prog(s, cfg);
    let n = p.ops.len();
    let (x, y) = (s.us(n), n - 1);
    let kind = s.us(6);
    let w = gen_word(s, &p.atoms, &p.dfa[y], 5);
    let w: Vec<u32> = w.iter().map(|c| p.atoms.lo(p.atoms.of(*c))).collect();
    let order = s.below(1 << 16);
    let mut ops = p.ops.clone();
    let lens = s.range32(0, 6);
    match kind {
        // language minus itself built differently
        0 => ops.extend([Op::Union(x, y), Op::Diff(y, n)]),
        1 => ops.extend([Op::Comp(y), Op::Concat(n, x), Op::Concat(y, x), Op::Inter(n + 1, n + 2)]),
        // all but one word
        2 => ops.extend([Op::Str(w), Op::Inter(y, n), Op::Concat(n + 1, x)]),
        // restrict the length
        3 => ops.extend([Op::AllChar, Op::Exp(n, lens), Op::Inter(y, n + 1), Op::Diff(n + 2, x)]),
        4 => ops.extend([Op::AllChar, Op::Loop(n, lens, None), Op::InterList(vec![y, n + 1, x])]),
        _ => ops.extend([Op::Star(y), Op::Comp(n), Op::Inter(n + 1, y), Op::Inter(n + 1, x)]),
    }
    // atoms stay valid: all characters are atom starts
    let mut dfa = p.dfa.clone();
    for o in &ops[n..] {
        match ref_dfa(&p.atoms, o, &dfa) {
            Ok(d) => dfa.push(d),
            Err(Cap) => return Err(Stop::Discard("reference cap")),
        }
    }
    if let Some(Op::Str(w)) = ops.get(n) {
        if !w.iter().all(|c| p.atoms.hi(p.atoms.of(*c)) == *c) {
            return Err(Stop::Discard("character is not an atom"));
        }
    }
    let roots = roots(&ops);
    let p = Prog { ops, pool: p.pool, atoms: p.atoms, dfa, roots };
    if !ctx.begin(p.hash(), nontrivial(&p), || p.show()) {
        return Ok(());
    }
    check_prog(&p, order, ctx)
}

/// dozens of alternatives; one of them, or what two of them share, is left over
fn wide(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_wide(s);
    let _caps = Caps::set(6000, 500);
    let mut b = Builder { ops: p.ops, pool: p.pool, atoms: p.atoms, dfa: p.dfa };
    for _ in 0..1 + s.us(3) {
        let n = b.ops.len();
        let (x, y, z) = (n - 1, s.us(n), s.us(n));
        match s.us(4) {
            0 => {
                b.push(Op::Diff(x, y));
            }
            1 => {
                b.push(Op::Inter(x, y));
            }
            2 => {
                // a union of some terms without the union of others
                let v: Vec<usize> = (0..n).filter(|i| b.ops[*i].is_leaf() && s.us(8) != 0).collect();
                if let Some(u) = b.push(Op::UnionList(v)) {
                    b.push(Op::Diff(y, u));
                }
            }
            _ => {
                b.push(Op::Concat(z, y)).and_then(|c| b.push(Op::Inter(c, x)));
            }
        }
    }
    let p = b.prog();
    let order = s.below(1 << 16);
    if !ctx.begin(p.hash(), nontrivial(&p), || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    check_roots(&p, order, ctx)
}

/// large counts, long words
fn synonyms(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_syn(s);
    let order = s.below(1 << 16);
    if !ctx.begin(p.hash(), nontrivial(&p), || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !light_prog(&p, 1000, HEAVY) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    check_roots(&p, order, ctx)
}

fn deep_programs(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_deep(s, 400);
    let order = s.below(1 << 16);
    if !ctx.begin(p.hash(), nontrivial(&p), || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !light_prog(&p, 4000, HEAVY) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    check_roots(&p, order, ctx)
}

/// thousands of derivatives
fn huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let max = huge_size(s, if ctx.tier == Tier::Quick { 30_000 } else { 70_000 });
    let mut p = gen_huge(s, max);
    // sometimes the empty language: the term and its complement, or a length no member has
    if s.us(3) == 0 {
        let _caps = Caps::set(4 * max + 2000, 3 * max + 1000);
        let mut b = Builder { ops: p.ops, pool: p.pool, atoms: p.atoms, dfa: p.dfa };
        let x = b.ops.len() - 1;
        let n = huge_num(s, max) as u32;
        if s.us(2) == 0 {
            b.push(Op::AllChar).and_then(|a| b.push(Op::Loop(a, n, None))).and_then(|l| b.push(Op::Inter(x, l)));
        } else {
            b.push(Op::AllChar).and_then(|a| b.push(Op::Loop(a, 0, Some(n)))).and_then(|l| b.push(Op::Diff(x, l)));
        }
        p = b.prog();
        p.roots = vec![p.ops.len() - 1];
    }
    huge_prog(s, ctx, p, max)
}
/// more than 65536 of them
fn beyond16(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_beyond(s);
    huge_prog(s, ctx, p, BEYOND)
}
/// the shortest member has up to hundreds of thousands of characters
fn vast(s: &mut Src, ctx: &mut Ctx) -> R {
    let max = if ctx.tier == Tier::Quick { 400_000 } else { 1_200_000 };
    let (ops, _, min) = gen_vast(s, max);
    let first = s.us(2) == 0;
    if !ctx.begin(hash_of(&ops), true, || show_prog(&ops)) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &ops);
    let e = t[ops.len() - 1];
    if first {
        ensure!(!re.is_empty_re(e), "is_empty_re({e}) = true, but a string of length {min} is a member");
    }
    let Some(w) = re.get_string(e) else {
        fail!("get_string({e}) = None, but a string of length {min} is a member");
    };
    ensure!(w.is_good(), "get_string({e}) yields a malformed string");
    ensure!(w.len() >= min, "get_string({e}) has length {}, the shortest member has length {min}", w.len());
    ensure!(re.str_in_re(&w, e), "get_string({e}), of length {}, is rejected by str_in_re", w.len());
    if !first {
        ensure!(!re.is_empty_re(e), "is_empty_re({e}) = true, but a string of length {min} is a member");
    }
    ctx.label(if min > 100_000 { "shortest member longer than 100000" } else { "shortest member up to 100000" });
    Ok(())
}

/// hundreds of derivative classes
fn many_classes(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_many_classes(s);
    huge_prog(s, ctx, p, BEYOND)
}
fn huge_prog(s: &mut Src, ctx: &mut Ctx, p: Prog, max: usize) -> R {
    let order = s.below(2);
    if !ctx.begin(p.hash(), nontrivial(&p), || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !huge_fits(&p, max) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    let r = p.roots[0];
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    check_exact(&mut re, t[r], &p.dfa[r], &p.atoms, order == 0, ctx).map_err(|x| at_root(x, r))
}

fn check_roots(p: &Prog, order: u64, ctx: &mut Ctx) -> R {
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for i in p.roots.iter().rev().take(6) {
        check_term(&mut re, t[*i], &p.dfa[*i], &p.atoms, (order >> (i % 64)) & 1 == 0, ctx).map_err(|x| at_root(x, *i))?;
    }
    Ok(())
}

/// shortest members are long: intersections of modular length constraints and counted patterns
fn deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let pool: Vec<u32> = gen_pool(s, 2);
    let atoms = pool_atoms(&pool);
    let mut ops = vec![Op::Char(pool[0]), Op::AllChar, Op::All];
    let mut parts = vec![];
    for _ in 0..2 + s.us(2) {
        let base = s.us(2);
        let m = 2 + s.us(5) as u32;
        let r = s.us(m as usize) as u32;
        let n = ops.len();
        ops.extend([Op::Exp(base, m), Op::Star(n), Op::Exp(base, r), Op::Concat(n + 1, n + 2)]);
        parts.push(n + 3);
    }
    if s.us(3) == 0 {
        let n = ops.len();
        let lo = s.range32(1, 30);
        ops.push(Op::Loop(1, lo, None));
        parts.push(n);
    }
    ops.push(Op::InterList(parts));
    if s.us(3) == 0 {
        let n = ops.len();
        let c = *s.pick(&pool);
        ops.extend([Op::Char(c), Op::Concat(n - 1, n)]);
    }
    let mut dfa: Vec<RDfa> = vec![];
    for o in &ops {
        match ref_dfa(&atoms, o, &dfa) {
            Ok(d) => dfa.push(d),
            Err(Cap) => return Err(Stop::Discard("reference cap")),
        }
    }
    let n = ops.len() - 1;
    let p = Prog { ops, pool, atoms, dfa, roots: vec![n] };
    if !ctx.begin(p.hash(), nontrivial(&p), || p.show()) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    check_term(&mut re, t[n], &p.dfa[n], &p.atoms, true, ctx).map_err(|x| at_root(x, n))
}
