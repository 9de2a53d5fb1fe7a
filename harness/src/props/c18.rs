//! C18: start_char / start_class are exact.
use super::autom::*;
use super::c01::{at_root, small_ops};
use crate::engine::*;
use crate::refdfa::*;
use crate::regen::*;
use crate::src::Src;
use crate::{ensure, fail};
use aws_smt_strings::character_sets::ClassId;
use aws_smt_strings::errors::Error;
use aws_smt_strings::regular_expressions::{ReManager, RegLan};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "A case is a construction program; start_char and start_class are evaluated on all its terms. Non-trivial: \
               some result term uses two or more operators and has a first character that can and one that cannot start \
               a member. Distinct: different sequence of calls.",
        assumptions: &["terms with more than 4000 derivatives are skipped (start_char explores them)"],
        modes: vec![
            Mode::exh("exhaustive-2ops", exh2, 16),
            Mode::random("random", random, 45_000, 2_500_000, 2_500),
            Mode::random("blocked", blocked, 30_000, 1_500_000, 1_500),
            Mode::random("wide", wide, 24_000, 1_200_000, 1_000),
            Mode::random("synonyms", synonyms, 24_000, 1_200_000, 1_000),
            Mode::random("deep", deep, 1_200, 60_000, 40),
            Mode::random("huge", huge, 240, 6_000, 6),
            Mode::random("beyond-16-bits", beyond16, 16, 400, 1),
            Mode::random("many-classes", many_classes, 160, 6_000, 8),
            Mode::exh("exhaustive-3ops", exh3, 256).thorough_only(),
        ],
    }
}

fn check_term(re: &mut ReManager, e: RegLan, d: &Dfa, at: &Atoms, class_first: bool, ctx: &mut Ctx) -> R {
    if re.iter_derivatives(e).take(4001).count() > 4000 {
        ctx.label("large closure skipped");
        return Ok(());
    }
    check_exact(re, e, d, at, class_first)
}
fn check_exact(re: &mut ReManager, e: RegLan, d: &Dfa, at: &Atoms, class_first: bool) -> R {
    let live = d.live();
    let starts = |c: u32| live[d.next(0, at.of(c))];
    let rs = intervals_of(e.char_ranges());
    let mut pts: Vec<u32> = probes(at).iter().map(|x| x.1).collect();
    for (a, b) in &rs {
        pts.extend([*a, *b, a.saturating_sub(1), (*b + 1).min(MAXC)]);
    }
    pts.sort_unstable();
    pts.dedup();
    let chars = |re: &mut ReManager| -> R {
        for c in &pts {
            let got = re.start_char(e, *c);
            ensure!(
                got == starts(*c),
                "start_char({e}, {}) = {got}, but {} member string starts with that character",
                show_char(*c),
                if got { "no" } else { "a" }
            );
        }
        Ok(())
    };
    if !class_first {
        chars(re)?;
    }
    let class_of = |c: u32| match rs.iter().position(|(a, b)| *a <= c && c <= *b) {
        Some(i) => ClassId::Interval(i),
        None => ClassId::Complement,
    };
    let mut ids: Vec<ClassId> = (0..rs.len()).map(ClassId::Interval).collect();
    let all = covers_all(&rs);
    if !all {
        ids.push(ClassId::Complement);
    }
    for cid in ids {
        match re.start_class(e, cid) {
            Ok(got) => {
                for c in pts.iter().filter(|c| class_of(**c) == cid) {
                    ensure!(
                        got == starts(*c),
                        "start_class({e}, {}) = {got}, but {} member string starts with {} of that class",
                        show_cid(cid),
                        if got { "no" } else { "a" },
                        show_char(*c)
                    );
                }
            }
            Err(x) => fail!("start_class({e}, {}) fails with {x:?}", show_cid(cid)),
        }
    }
    if class_first {
        chars(re)?;
    }
    let n = rs.len();
    let mut bad = vec![ClassId::Interval(n), ClassId::Interval(n + 1), ClassId::Interval(usize::MAX)];
    if all {
        bad.push(ClassId::Complement);
    }
    for b in bad {
        match re.start_class(e, b) {
            Err(Error::BadClassId) => (),
            r => fail!("start_class({e}, {}) = {r:?}, expected BadClassId ({n} ranges)", show_cid(b)),
        }
    }
    Ok(())
}

/// thousands of derivatives
fn huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let max = huge_size(s, if ctx.tier == Tier::Quick { 20_000 } else { 66_000 });
    let p = gen_huge(s, max);
    huge_prog(s, ctx, p, max)
}
/// more than 65536 of them
fn beyond16(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_beyond(s);
    huge_prog(s, ctx, p, BEYOND)
}
/// hundreds of derivative classes
fn many_classes(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_many_classes(s);
    huge_prog(s, ctx, p, BEYOND)
}
fn huge_prog(s: &mut Src, ctx: &mut Ctx, p: Prog, max: usize) -> R {
    let order = s.below(2);
    if !ctx.begin(p.hash(), nontrivial(&p), || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !huge_fits(&p, max) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    let r = p.roots[0];
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    check_exact(&mut re, t[r], &p.dfa[r], &p.atoms, order == 0).map_err(|x| at_root(x, r))
}

fn check_prog(p: &Prog, order: u64, ctx: &mut Ctx) -> R {
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for i in 0..t.len() {
        check_term(&mut re, t[i], &p.dfa[i], &p.atoms, (order >> (i % 64)) & 1 == 1, ctx).map_err(|x| at_root(x, i))?;
    }
    Ok(())
}

fn nontrivial(p: &Prog) -> bool {
    p.roots.iter().any(|r| {
        let d = &p.dfa[*r];
        let l = d.live();
        let n = (0..d.k).filter(|a| l[d.next(0, *a)]).count();
        p.weight(*r) >= 2 && n > 0 && n < d.k
    })
}

fn exh(s: &mut Src, ctx: &mut Ctx, k: usize) -> R {
    let ops = small_ops(s, k);
    if !ctx.begin(hash_of(&ops), true, || show_prog(&ops)) {
        return Ok(());
    }
    let Ok(p) = prog_of(ops, vec![97, 98]) else { return Err(Stop::Discard("reference cap")) };
    check_prog(&p, 0, ctx)
}
fn exh2(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 2)
}
fn exh3(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 3)
}

fn random(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 4 + s.us(8);
    let p = gen_prog(s, cfg);
    let order = s.below(1 << 16);
    if !ctx.begin(p.hash(), nontrivial(&p), || p.show()) {
        return Ok(());
    }
    label_ops(ctx, &p.ops);
    check_prog(&p, order, ctx)
}

/// dozens of alternatives and character classes
fn wide(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_wide(s);
    run_big(s, ctx, p)
}
/// one language written in several ways, and combined with itself
fn synonyms(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_syn(s);
    run_big(s, ctx, p)
}
/// the only members are long, or none
fn deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_deep(s, 300);
    run_big(s, ctx, p)
}
fn run_big(s: &mut Src, ctx: &mut Ctx, p: Prog) -> R {
    let order = s.below(1 << 16);
    if !ctx.begin(p.hash(), nontrivial(&p), || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !light_prog(&p, 3500, HEAVY) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for i in p.roots.iter().rev().take(4) {
        check_term(&mut re, t[*i], &p.dfa[*i], &p.atoms, (order >> (i % 64)) & 1 == 1, ctx).map_err(|x| at_root(x, *i))?;
    }
    Ok(())
}

/// first characters that look possible but lead nowhere (dead tails, disagreeing
/// conjuncts), and nullable prefixes
fn blocked(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 3;
    let p = gen_prog(s, cfg);
    let mut ops = p.ops.clone();
    let mut dfa = p.dfa.clone();
    let mut push = |o: Op| -> bool {
        match ref_dfa(&p.atoms, &o, &dfa) {
            Ok(d) => {
                dfa.push(d);
                ops.push(o);
                true
            }
            Err(Cap) => false,
        }
    };
    let mut n = p.ops.len();
    let rounds = 1 + s.us(3);
    for _ in 0..rounds {
        let (x, y, z) = (n - 1 - s.us(n.min(4)), s.us(n), s.us(n));
        let lens = s.range32(0, 3);
        let tpl = match s.us(7) {
            0 => vec![Op::Concat(x, y), Op::Concat(x, z), Op::Inter(n, n + 1)],
            1 => vec![Op::Inter(y, z), Op::Concat(x, n)],
            2 => vec![Op::Opt(x), Op::Concat(n, y), Op::Inter(n + 1, z)],
            3 => vec![Op::Comp(x), Op::Concat(n, y), Op::Inter(n + 1, x)],
            4 => vec![Op::AllChar, Op::Exp(n, lens), Op::Inter(x, n + 1), Op::Concat(n + 2, y)],
            5 => vec![Op::Diff(x, y), Op::Star(n), Op::Concat(n + 1, z)],
            _ => vec![Op::InterList(vec![x, y, z]), Op::Loop(n, 1, Some(2)), Op::Union(n + 1, y)],
        };
        for o in tpl {
            if !push(o) {
                return Err(Stop::Discard("reference cap"));
            }
            n += 1;
        }
    }
    let order = s.below(1 << 16);
    let roots = roots(&ops);
    let p = Prog { ops, pool: p.pool, atoms: p.atoms, dfa, roots };
    if !ctx.begin(p.hash(), nontrivial(&p), || p.show()) {
        return Ok(());
    }
    check_prog(&p, order, ctx)
}
