//! C02: compile yields a total automaton accepting exactly the language.
use super::autom::*;
use super::c01::{at_root, small_ops};
use crate::engine::*;
use crate::ensure;
use crate::refdfa::*;
use crate::regen::*;
use crate::src::Src;
use aws_smt_strings::automata::Automaton;
use aws_smt_strings::regular_expressions::{ReManager, RegLan};
use std::collections::HashSet;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "A case is a construction program whose result terms are compiled. Non-trivial: some result term uses two \
               or more operators (in the small exhaustive world: any), denotes a language other than none, all and \
               {epsilon}, and was compiled and walked. Distinct: different sequence of calls.",
        assumptions: &[
            "terms with more than 300 (thorough: 1500) derivatives are not compiled",
            "the reference automaton is minimal and has at most 260 states (wide: 500, deep: 2600)",
        ],
        modes: vec![
            Mode::exh("exhaustive-2ops", exh2, 16),
            Mode::random("random", random, 45_000, 2_500_000, 2_500),
            Mode::random("wide", wide, 30_000, 1_500_000, 1_000),
            Mode::random("synonyms", synonyms, 24_000, 1_200_000, 1_000),
            Mode::random("deep", deep, 1_600, 80_000, 50),
            Mode::random("huge", huge, 240, 6_000, 6),
            Mode::random("beyond-16-bits", beyond16, 16, 400, 1),
            Mode::random("many-classes", many_classes, 160, 6_000, 8),
            Mode::random("all-characters", all_chars, 120, 6_000, 15),
            Mode::exh("exhaustive-3ops", exh3, 256).thorough_only(),
        ],
    }
}

/// walk the product of the automaton and the reference
pub fn walk(aut: &Automaton, d: &Dfa, at: &Atoms) -> R<usize> {
    let n = aut.num_states();
    let mut points: Vec<Vec<(usize, u32)>> = vec![];
    for (i, s) in aut.states().enumerate() {
        ensure!(s.id() == i, "the {i}-th state has id {}", s.id());
        let rs = intervals_of(s.char_ranges());
        check_ranges(&format!("state s{i}"), &rs)?;
        let mut v: Vec<u32> = probes(at).iter().map(|x| x.1).collect();
        for (a, b) in rs {
            v.extend([a, b, a.saturating_sub(1), (b + 1).min(MAXC)]);
        }
        v.sort_unstable();
        v.dedup();
        // totality: every state (reached or not) has a successor inside the automaton
        for c in &v {
            let t = aut.next(s, *c).id();
            ensure!(t < n, "next(s{i}, {}) = s{t}, but there are {n} states", show_char(*c));
        }
        points.push(v.into_iter().map(|c| (at.of(c), c)).collect());
    }
    let init = aut.initial_state().id();
    ensure!(init < n, "initial state s{init}, but there are {n} states");
    let mut seen = HashSet::new();
    seen.insert((init, 0usize));
    let mut list = vec![(init, 0usize, 0usize, 0u32)];
    let mut i = 0;
    while i < list.len() {
        let (q, r, _, _) = list[i];
        if aut.state(q).is_final() != d.f[r] {
            let mut w = vec![];
            let mut j = i;
            while j != 0 {
                w.push(list[j].3);
                j = list[j].2;
            }
            w.reverse();
            return Err(Stop::Fail(format!(
                "the automaton {} {}, but the string is {} the language",
                if d.f[r] { "rejects" } else { "accepts" },
                show_word(&w),
                if d.f[r] { "in" } else { "not in" }
            )));
        }
        for (a, c) in &points[q] {
            let z = (aut.next(aut.state(q), *c).id(), d.next(r, *a));
            if seen.insert(z) {
                list.push((z.0, z.1, i, *c));
            }
        }
        i += 1;
    }
    Ok(list.len())
}

fn check_accepts(aut: &Automaton, d: &Dfa, at: &Atoms, words: &[Vec<u32>]) -> R {
    for w in words {
        let s = sstr(w);
        let want = d.accepts(at, w);
        let got = aut.accepts(&s);
        ensure!(got == want, "accepts({}) = {got}, expected {want}", show_word(w));
        let e = aut.str_next(aut.initial_state(), &s);
        ensure!(e.is_final() == want, "str_next({}) ends in final={}", show_word(w), e.is_final());
        for st in aut.states().take(6) {
            // composition along the string from any state
            let x = aut.str_next(st, &s).id();
            let y = w.iter().fold(st.id(), |q, c| aut.next(aut.state(q), *c).id());
            ensure!(x == y, "str_next(s{}, {}) = s{x}, but stepping with next gives s{y}", st.id(), show_word(w));
        }
    }
    Ok(())
}

/// true if the term was compiled
fn check_term(
    re: &mut ReManager,
    e: RegLan,
    d: &Dfa,
    at: &Atoms,
    limit: usize,
    both: bool,
    words: &[Vec<u32>],
    ctx: &mut Ctx,
) -> R<bool> {
    let Some(aut) = re.try_compile(e, limit) else {
        ctx.label("too many derivatives");
        return Ok(false);
    };
    let p = walk(&aut, d, at)?;
    ctx.count("pairs walked", p as u64);
    check_accepts(&aut, d, at, words)?;
    if both {
        let aut = re.compile(e);
        walk(&aut, d, at).map_err(|x| match x {
            Stop::Fail(m) => Stop::Fail(format!("compile: {m}")),
            d => d,
        })?;
        check_accepts(&aut, d, at, words)?;
    }
    Ok(true)
}

fn exh(s: &mut Src, ctx: &mut Ctx, k: usize) -> R {
    let ops = small_ops(s, k);
    if !ctx.begin(hash_of(&ops), true, || show_prog(&ops)) {
        return Ok(());
    }
    let Ok(p) = prog_of(ops, vec![97, 98]) else { return Err(Stop::Discard("reference cap")) };
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for r in &p.roots {
        check_term(&mut re, t[*r], &p.dfa[*r], &p.atoms, 2000, false, &[], ctx).map_err(|x| at_root(x, *r))?;
    }
    Ok(())
}
fn exh2(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 2)
}
fn exh3(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 3)
}

fn random(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 4 + s.us(9);
    cfg.pool = *s.pick(&[3usize, 3, 3, 6, 12]);
    let p = gen_prog(s, cfg);
    let both = s.us(2) == 0;
    let pre = s.us(3); // how the derivative cache is warmed first
    let nw = 3;
    let ws: Vec<Vec<Vec<u32>>> =
        p.roots.iter().map(|r| (0..nw).map(|_| gen_word(s, &p.atoms, &p.dfa[*r], 8)).collect()).collect();
    if !ctx.begin(p.hash(), p.nontrivial(), || p.show()) {
        return Ok(());
    }
    label_ops(ctx, &p.ops);
    let limit = if ctx.tier == Tier::Quick { 300 } else { 1500 };
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for (i, r) in p.roots.iter().enumerate() {
        if pre == 1 {
            for w in &ws[i] {
                re.str_in_re(&sstr(w), t[*r]);
            }
        } else if pre == 2 {
            re.is_empty_re(re.empty());
            let c = p.atoms.hi(p.atoms.len() - 1);
            re.char_derivative(t[*r], c);
        }
        check_term(&mut re, t[*r], &p.dfa[*r], &p.atoms, limit, both, &ws[i], ctx).map_err(|x| at_root(x, *r))?;
    }
    Ok(())
}

/// dozens of alternatives and character classes
fn wide(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_wide(s);
    run_big(s, ctx, p, 300, 30)
}
/// one language written in several ways, and combined with itself
fn synonyms(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_syn(s);
    run_big(s, ctx, p, 500, 30)
}
/// hundreds to thousands of states
fn deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_deep(s, 400);
    run_big(s, ctx, p, 3000, 600)
}
fn run_big(s: &mut Src, ctx: &mut Ctx, p: Prog, limit: usize, len: usize) -> R {
    let ws: Vec<Vec<Vec<u32>>> = p
        .roots
        .iter()
        .map(|r| (0..2).map(|_| gen_word(s, &p.atoms, &p.dfa[*r], len.min(2 * p.dfa[*r].n() + 5))).collect())
        .collect();
    if !ctx.begin(p.hash(), p.nontrivial(), || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !light_prog(&p, limit + 500, HEAVY) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for (i, r) in p.roots.iter().enumerate() {
        check_term(&mut re, t[*r], &p.dfa[*r], &p.atoms, limit, false, &ws[i], ctx).map_err(|x| at_root(x, *r))?;
    }
    Ok(())
}

/// thousands of states
fn huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let max = huge_size(s, if ctx.tier == Tier::Quick { 10_000 } else { 66_000 });
    let p = gen_huge(s, max);
    huge_prog(s, ctx, p, max)
}
/// more than 65536 of them
fn beyond16(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_beyond(s);
    huge_prog(s, ctx, p, BEYOND)
}
/// hundreds of derivative classes
fn many_classes(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_many_classes(s);
    huge_prog(s, ctx, p, BEYOND)
}
fn huge_prog(s: &mut Src, ctx: &mut Ctx, p: Prog, max: usize) -> R {
    let r = p.roots[0];
    let ws: Vec<Vec<u32>> = (0..3).map(|_| long_word(s, &p.atoms, &p.dfa[r], max + 10)).collect();
    let both = s.us(4) == 0;
    if !ctx.begin(p.hash(), p.nontrivial(), || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !huge_fits(&p, max) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    check_term(&mut re, t[r], &p.dfa[r], &p.atoms, 1_000_000, both, &ws, ctx).map_err(|x| at_root(x, r))?;
    Ok(())
}

/// every state times every one of the 196608 characters
fn all_chars(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 6;
    cfg.pool = 8;
    let p = gen_prog(s, cfg);
    let r = p.last();
    if !ctx.begin(p.hash(), p.interesting(r), || p.show()) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    let Some(aut) = re.try_compile(t[r], 24) else { return Err(Stop::Discard("more than 24 states")) };
    walk(&aut, &p.dfa[r], &p.atoms)?;
    // residual state of the reference for each automaton state
    let d = &p.dfa[r];
    let mut res: Vec<Option<usize>> = vec![None; aut.num_states()];
    let mut st = vec![(aut.initial_state().id(), 0usize)];
    while let Some((q, x)) = st.pop() {
        if res[q].is_some() {
            continue;
        }
        res[q] = Some(x);
        for (a, c) in probes(&p.atoms) {
            st.push((aut.next(aut.state(q), c).id(), d.next(x, a)));
        }
    }
    for q in aut.states() {
        for a in 0..p.atoms.len() {
            for c in p.atoms.lo(a)..=p.atoms.hi(a) {
                let z = aut.next(q, c).id();
                ensure!(z < aut.num_states(), "next(s{}, {}) = s{z} is not a state", q.id(), show_char(c));
                if let Some(x) = res[q.id()] {
                    // minimal reference: equal languages iff equal states
                    ensure!(
                        res[z] == Some(d.next(x, a)),
                        "r{r}: the successor of s{} on {} accepts the wrong language",
                        q.id(),
                        show_char(c)
                    );
                }
            }
        }
    }
    ctx.count("state-character steps", aut.num_states() as u64 * (MAXC as u64 + 1));
    Ok(())
}
