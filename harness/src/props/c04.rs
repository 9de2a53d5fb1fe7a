//! C04: minimize keeps the language and merges every pair of equivalent states.
use super::autom::*;
use super::c01::{at_root, small_ops};
use crate::engine::*;
use crate::ensure;
use crate::refdfa::*;
use crate::regen::*;
use crate::src::Src;
use aws_smt_strings::automata::Automaton;
use aws_smt_strings::regular_expressions::ReManager;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "A case is an automaton (assembled with AutomatonBuilder or compiled) that is minimized. Non-trivial: it \
               has at least three states, both final and non-final ones, and at least two residual languages. \
               Distinct: different transitions, finality and initial state / different construction calls.",
        assumptions: &["automata have at most 300 states (thorough: 900) and 24 character classes"],
        modes: vec![
            Mode::exh("all-3-state-2-letter", exh3, 8),
            Mode::exh("all-5-state-1-letter", exh5, 8),
            Mode::random("built-small", built_small, 150_000, 8_000_000, 10_000),
            Mode::random("built-large", built_large, 8_000, 400_000, 600),
            Mode::random("compiled", compiled, 25_000, 1_200_000, 2_000),
            Mode::random("compiled-wide", compiled_wide, 24_000, 1_200_000, 1_000),
            Mode::random("compiled-synonyms", synonyms, 24_000, 1_200_000, 1_000),
            Mode::random("compiled-deep", compiled_deep, 1_600, 80_000, 50),
            Mode::random("compiled-huge", compiled_huge, 400, 8_000, 6),
            Mode::random("beyond-16-bits", beyond16, 16, 400, 1),
            Mode::random("wide-alphabet", wide_alphabet, 160, 6_000, 16),
            Mode::random("built-huge", built_huge, 800, 24_000, 32),
            Mode::random("near-minimal", near_minimal, 20_000, 1_000_000, 2_000),
            Mode::exh("all-4-state-2-letter", exh4, 128).thorough_only(),
        ],
    }
}

/// minimize `aut` and compare with `before`
fn check(mut aut: Automaton, prune: bool, words: &[Vec<u32>], ctx: &mut Ctx) -> R<usize> {
    let before = tabulate(&aut, &[])?;
    let reach = before.reachable();
    let all_reach = reach.iter().all(|x| *x);
    let want = before.dfa().minimal().n();
    let acc: Vec<bool> = words.iter().map(|w| aut.accepts(&sstr(w))).collect();
    aut.minimize();
    let after = tabulate(&aut, &before.at.cuts)?;
    same_language("minimize", &before, &after)?;
    for (w, b) in words.iter().zip(acc) {
        ensure!(aut.accepts(&sstr(w)) == b, "minimize changes accepts({}) from {b}", show_word(w));
    }
    let n = aut.num_states();
    let (cls, m) = after.equiv();
    if m != n {
        for i in 0..n {
            for j in 0..i {
                if cls[i] == cls[j] {
                    return Err(Stop::Fail(format!(
                        "after minimize the states s{j} and s{i} accept the same strings ({n} states left, {m} residual languages)"
                    )));
                }
            }
        }
    }
    if all_reach {
        ensure!(n == want, "all states are reachable, the minimal automaton has {want} states, minimize leaves {n}");
        ctx.label("all reachable");
    } else {
        ctx.label("with unreachable states");
        ensure!(n == before.num_equiv(), "minimize leaves {n} states for {} residual languages", before.num_equiv());
    }
    let fin = after.f.iter().filter(|x| **x).count();
    ensure!(aut.num_final_states() == fin, "num_final_states is {} after minimize, {fin} states are final", aut.num_final_states());
    let ids: Vec<usize> = aut.final_states().map(|s| s.id()).collect();
    let want_ids: Vec<usize> = (0..n).filter(|i| after.f[*i]).collect();
    ensure!(ids == want_ids, "final_states lists {ids:?} after minimize, the final states are {want_ids:?}");
    ensure!(aut.initial_state().is_final() == before.f[before.init], "minimize changes the finality of the initial state");
    // once more: nothing left to do
    aut.minimize();
    ensure!(aut.num_states() == n, "a second minimize changes the number of states from {n} to {}", aut.num_states());
    let again = tabulate(&aut, &before.at.cuts)?;
    same_language("second minimize", &before, &again)?;
    if prune {
        aut.remove_unreachable_states();
        let last = tabulate(&aut, &before.at.cuts)?;
        same_language("minimize then remove_unreachable_states", &before, &last)?;
        ensure!(last.n() == want, "minimize and remove_unreachable_states leave {} states, the minimal automaton has {want}", last.n());
    }
    if n < before.n() {
        ctx.label("states merged");
    }
    Ok(n)
}

fn nontrivial(sp: &Spec) -> bool {
    sp.n >= 3 && sp.f.iter().any(|x| *x) && sp.f.iter().any(|x| !*x)
}

fn words(s: &mut Src, cuts: &[u32], n: usize, len: usize) -> Vec<Vec<u32>> {
    (0..n)
        .map(|_| {
            let l = s.us(len + 1);
            (0..l).map(|_| *s.pick(cuts)).collect()
        })
        .collect()
}

fn tiny(s: &mut Src, ctx: &mut Ctx, n: usize, k: usize) -> R {
    let mut t = vec![vec![0; k]; n];
    let mut calls = vec![];
    let mut f = vec![false; n];
    for i in 0..n {
        for a in 0..k {
            t[i][a] = s.us(n);
        }
        f[i] = s.us(2) == 1;
    }
    let sp0 = (&t, &f);
    let nt = f.iter().any(|x| *x) && f.iter().any(|x| !*x) && n >= 3;
    if !ctx.begin(hash_of(&sp0), nt, || format!("transitions {t:?} final {f:?}")) {
        return Ok(());
    }
    // letter 0 is [0,99], letter 1 the rest; the first states declare it one way, the others another
    let (l0, l1) = ((0, 99), (100, MAXC));
    for i in 0..n {
        if f[i] {
            calls.push(Call::Final(i));
        }
        if k == 1 {
            calls.push(Call::Default(i, t[i][0]));
        } else if i % 2 == 0 {
            calls.push(Call::Trans(i, l0, t[i][0]));
            calls.push(Call::Default(i, t[i][1]));
        } else {
            calls.push(Call::Trans(i, l0, t[i][0]));
            calls.push(Call::Trans(i, l1, t[i][1]));
        }
    }
    let sp = Spec { n, init: 0, cuts: vec![0, 100], t, f, calls };
    let aut = build_spec(&sp)?;
    check(aut, true, &[], ctx)?;
    Ok(())
}
fn exh3(s: &mut Src, ctx: &mut Ctx) -> R {
    tiny(s, ctx, 3, 2)
}
fn exh5(s: &mut Src, ctx: &mut Ctx) -> R {
    tiny(s, ctx, 5, 1)
}
fn exh4(s: &mut Src, ctx: &mut Ctx) -> R {
    tiny(s, ctx, 4, 2)
}

fn built(s: &mut Src, ctx: &mut Ctx, n: usize, k: usize) -> R {
    let sp = gen_spec(s, n, k);
    let ws = words(s, &sp.cuts, 2, n.min(12));
    let prune = s.us(2) == 0;
    if !ctx.begin(hash_of(&(&sp.t, &sp.f, sp.init, &sp.cuts)), nontrivial(&sp), || show_spec(&sp)) {
        return Ok(());
    }
    let aut = build_spec(&sp)?;
    check(aut, prune, &ws, ctx)?;
    Ok(())
}
fn built_small(s: &mut Src, ctx: &mut Ctx) -> R {
    built(s, ctx, 8, 3)
}
fn built_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = *s.pick(&[20usize, 40, 80, 160, 300]);
    let k = *s.pick(&[1usize, 2, 3, 6, 24]);
    let n = if ctx.tier == Tier::Thorough { 3 * n } else { n };
    built(s, ctx, n, k)
}

/// thousands of states
fn built_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = *s.pick(&[300usize, 1_000, 3_000, 6_000]);
    let sp = gen_huge_spec(s, n);
    built_huge_spec(s, ctx, sp)
}
/// more than 65536 states
fn wide_alphabet(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = gen_alphabet_spec(s);
    built_huge_spec(s, ctx, sp)
}
fn beyond16(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = gen_beyond_spec(s, Tour::Classes);
    built_huge_spec(s, ctx, sp)
}
fn built_huge_spec(s: &mut Src, ctx: &mut Ctx, sp: Spec) -> R {
    let prune = s.us(2) == 0;
    if !ctx.begin(hash_of(&(&sp.t, &sp.f, sp.init, &sp.cuts)), nontrivial(&sp), || show_spec(&sp)) {
        return Ok(());
    }
    ctx.label(if sp.n >= 1000 { "over 1000 states" } else if sp.cuts.len() >= 300 { "over 300 ranges" } else { "medium" });
    let aut = build_spec(&sp)?;
    let mut r = Src::random(sp.n as u64);
    let ws = words(&mut r, &sp.cuts, 2, 2 * sp.n);
    check(aut, prune, &ws, ctx)?;
    Ok(())
}

fn compiled(s: &mut Src, ctx: &mut Ctx) -> R {
    let (p, r) = if s.us(4) == 0 {
        let mut v: Vec<Op> = small_ops(s, 3);
        if s.us(2) == 0 {
            v.push(Op::Star(v.len() - 1));
        }
        let Ok(p) = prog_of(v, vec![97, 98]) else { return Err(Stop::Discard("reference cap")) };
        let r = p.last();
        (p, r)
    } else {
        let mut cfg = CFG;
        cfg.max_ops = 4 + s.us(9);
        cfg.pool = *s.pick(&[3usize, 3, 6]);
        let p = gen_prog(s, cfg);
        let r = *s.pick(&p.roots);
        (p, r)
    };
    let ws: Vec<Vec<u32>> = (0..2).map(|_| gen_word(s, &p.atoms, &p.dfa[r], 8)).collect();
    if !ctx.begin(hash_of(&(&p.ops, r)), p.interesting(r) && p.dfa[r].n() >= 3, || format!("minimize r{r} of {}", p.show())) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    let Some(aut) = re.try_compile(t[r], 400) else { return Err(Stop::Discard("too many derivatives")) };
    let n = check(aut, true, &ws, ctx).map_err(|x| at_root(x, r))?;
    ensure!(n == p.dfa[r].n(), "r{r}: minimize leaves {n} states, the language has {} residuals", p.dfa[r].n());
    Ok(())
}

fn compiled_big(s: &mut Src, ctx: &mut Ctx, p: Prog, limit: usize) -> R {
    let r = *s.pick(&p.roots);
    let len = 2 * p.dfa[r].n() + 5;
    let ws: Vec<Vec<u32>> = (0..2).map(|_| gen_word(s, &p.atoms, &p.dfa[r], len.min(300))).collect();
    if !ctx.begin(hash_of(&(&p.ops, r)), p.interesting(r) && p.dfa[r].n() >= 3, || format!("minimize r{r} of {}", p.show())) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !light_prog(&p, limit + 500, HEAVY) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    let Some(aut) = re.try_compile(t[r], limit) else { return Err(Stop::Discard("too many derivatives")) };
    let n = check(aut, true, &ws, ctx).map_err(|x| at_root(x, r))?;
    ensure!(n == p.dfa[r].n(), "r{r}: minimize leaves {n} states, the language has {} residuals", p.dfa[r].n());
    Ok(())
}
fn compiled_wide(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_wide(s);
    compiled_big(s, ctx, p, 300)
}
/// one language written in several ways, and combined with itself
fn synonyms(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_syn(s);
    compiled_big(s, ctx, p, 500)
}
fn compiled_deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_deep(s, 400);
    compiled_big(s, ctx, p, 3000)
}

fn compiled_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let max = huge_size(s, if ctx.tier == Tier::Quick { 6_000 } else { 20_000 });
    let p = gen_huge(s, max);
    compiled_big(s, ctx, p, 4 * max + 200)
}

/// minimal automata with a few states duplicated and a few in-edges redirected
/// to the duplicates, plus one optional mutation that keeps or breaks equivalence
fn near_minimal(s: &mut Src, ctx: &mut Ctx) -> R {
    let cuts = gen_cuts(s, 3);
    let at = Atoms::new(cuts.iter().copied());
    let k = at.len();
    let m = 2 + s.us(14);
    let mut t: Vec<Vec<usize>> = (0..m).map(|_| (0..k).map(|_| s.us(m)).collect()).collect();
    let mut f: Vec<bool> = (0..m).map(|_| s.us(3) == 0).collect();
    let dups = s.us(6);
    for _ in 0..dups {
        let o = s.us(t.len());
        let n = t.len();
        t.push(t[o].clone());
        f.push(f[o]);
        // redirect some edges into o to its copy
        for i in 0..n + 1 {
            for a in 0..k {
                if t[i][a] == o && s.us(2) == 0 {
                    t[i][a] = n;
                }
            }
        }
    }
    let n = t.len();
    if s.us(3) == 0 {
        let i = s.us(n);
        f[i] = !f[i];
    }
    let init = s.us(n);
    let mut calls = vec![];
    for i in 0..n {
        if f[i] {
            calls.push(Call::Final(i));
        }
        calls.extend(calls_for(s, &at, i, &t[i], true));
    }
    let sp = Spec { n, init, cuts, t, f, calls };
    if !ctx.begin(hash_of(&(&sp.t, &sp.f, sp.init, &sp.cuts)), nontrivial(&sp), || show_spec(&sp)) {
        return Ok(());
    }
    let aut = build_spec(&sp)?;
    check(aut, false, &[], ctx)?;
    Ok(())
}
