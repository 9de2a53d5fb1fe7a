//! C16: a claimed inclusion holds; unions lose nothing.
use crate::engine::*;
use crate::ensure;
use crate::refdfa::*;
use crate::regen::*;
use crate::src::Src;
use super::c01::{at_root, small_leaf, small_op};
use aws_smt_strings::regular_expressions::{ReManager, RegLan};

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "A case is a set of terms of one manager; included_in is evaluated on pairs of them and their unions are \
               compared with the reference. Non-trivial: included_in is true for some pair of different terms whose \
               right side is not the full and left side not the empty language, or a pair of patterns that look alike \
               is not included. Distinct: different sequence of calls.",
        assumptions: &["the answer false is never judged", "union walks are limited to 400 pairs"],
        modes: vec![
            Mode::exh("exhaustive-patterns", exh_patterns, 16),
            Mode::exh("exhaustive-1op-pairs", exh_pairs, 16),
            Mode::random("patterns", patterns, 150_000, 8_000_000, 6_000),
            Mode::random("long-patterns", long_patterns, 40_000, 2_000_000, 3_000),
            Mode::random("huge-patterns", huge_patterns, 1_600, 100_000, 200),
            Mode::random("wide", wide, 16_000, 800_000, 800),
            Mode::random("all-but-one", all_but_one, 16_000, 2_000_000, 2_000),
            Mode::random("random-pairs", random_pairs, 40_000, 2_000_000, 2_500),
            Mode::random("synonyms", synonyms, 16_000, 800_000, 1_000),
            Mode::random("weakened", weakened, 60_000, 3_000_000, 3_000),
        ],
    }
}

fn judge(ctx: &mut Ctx, t: &[RegLan], d: &[RDfa], i: usize, j: usize) -> R<bool> {
    let got = t[i].included_in(t[j]);
    if !got {
        ctx.label("no claim");
        return Ok(false);
    }
    let Ok(holds) = d[i].subset_of(&d[j]) else {
        ctx.label("inclusion not decided by the reference");
        return Ok(false);
    };
    ensure!(
        holds,
        "({}).included_in({}) is true for r{i}, r{j}, but the language of r{i} is not included",
        t[i],
        t[j]
    );
    let trivial = std::ptr::eq(t[i], t[j]) || d[i].is_empty() || d[j].comp().is_empty();
    ctx.label(if trivial { "trivial inclusion" } else { "claimed inclusion" });
    Ok(!trivial)
}

fn judge_union(re: &mut ReManager, p: &Prog, t: &[RegLan], v: &[usize]) -> R {
    // the union as a list, and pairwise
    let k = p.atoms.len();
    let mut d = Dfa::none(k);
    for i in v {
        match d.union(&p.dfa[*i]) {
            Ok(x) => d = x,
            Err(Cap) => return Ok(()),
        }
    }
    let e = re.union_list(v.iter().map(|i| t[*i]));
    bisim(re, e, &d, &p.atoms, 400).map_err(|x| match x {
        Stop::Fail(m) => Stop::Fail(format!("union_list of {v:?} is {e}: {m}")),
        s => s,
    })?;
    Ok(())
}

fn dfas(ops: &[Op], at: &Atoms) -> R<Vec<RDfa>> {
    let mut dfa: Vec<RDfa> = vec![];
    for o in ops {
        match ref_dfa(at, o, &dfa) {
            Ok(d) => dfa.push(d),
            Err(Cap) => return Err(Stop::Discard("reference cap")),
        }
    }
    Ok(dfa)
}

/// one item of a pattern: an index into a fixed list of small terms
fn items(pool: &[u32]) -> Vec<Op> {
    let (a, b) = (pool[0], pool[1]);
    vec![Op::All, Op::Char(a), Op::Char(b), Op::Range(a, b), Op::AllChar, Op::Star(1), Op::SigmaPlus, Op::Loop(4, 2, None), Op::Opt(4)]
}

/// all pairs of concatenations of up to 4 (thorough: 5) items out of Sigma*, a, [ab], .
fn exh_patterns(s: &mut Src, ctx: &mut Ctx) -> R {
    let max = if ctx.tier == Tier::Quick { 4 } else { 5 };
    let its = [0usize, 1, 3, 4];
    let one = |s: &mut Src| -> Vec<usize> {
        let n = s.us(max + 1);
        (0..n).map(|_| its[s.us(4)]).collect()
    };
    let u = one(s);
    if !ctx.begin(hash_of(&u), true, || format!("left side {u:?} of {}, all right sides", show_prog(&items(&[97, 98])))) {
        return Ok(());
    }
    let mut ops = items(&[97, 98]);
    let n = ops.len();
    ops.push(Op::ConcatList(u));
    let mut rights: Vec<Vec<usize>> = vec![vec![]];
    let mut i = 0;
    while i < rights.len() {
        if rights[i].len() < max.min(4) {
            for x in its {
                let mut v = rights[i].clone();
                v.push(x);
                rights.push(v);
            }
        }
        i += 1;
    }
    ops.extend(rights.into_iter().map(Op::ConcatList));
    let at = pool_atoms(&[97, 98]);
    let d = dfas(&ops, &at)?;
    let mut re = ReManager::new();
    let t = build(&mut re, &ops);
    for j in n + 1..ops.len() {
        judge(ctx, &t, &d, n, j)?;
    }
    Ok(())
}

fn exh_pairs(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut ops = vec![small_leaf(s), small_leaf(s)];
    let o = small_op(s, 2);
    ops.push(o);
    if !ctx.begin(hash_of(&ops), true, || format!("{} against all single-operator terms", show_prog(&ops))) {
        return Ok(());
    }
    // all other one-operator terms over the same leaves and a few more
    let base = 2;
    ops.extend([Op::Char(97), Op::Range(97, 98), Op::All, Op::SigmaPlus]);
    let x = [0usize, 1, 3, 4, 5, 6, base];
    for i in x {
        ops.extend([Op::Comp(i), Op::Star(i), Op::Plus(i), Op::Opt(i), Op::Loop(i, 1, Some(2)), Op::Loop(i, 2, None)]);
        for j in x {
            ops.extend([Op::Concat(i, j), Op::Union(i, j), Op::Inter(i, j)]);
        }
    }
    let p = match prog_of(ops, vec![97, 98]) {
        Ok(p) => p,
        Err(Cap) => return Err(Stop::Discard("reference cap")),
    };
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for j in 0..p.ops.len() {
        judge(ctx, &t, &p.dfa, base, j)?;
        judge(ctx, &t, &p.dfa, j, base)?;
        if j % 7 == 3 {
            judge_union(&mut re, &p, &t, &[base, j])?;
        }
    }
    Ok(())
}

/// concatenations of ranges and loops, the right side made by weakening or slightly changing the left
fn patterns(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut pool = gen_pool(s, 3);
    if pool.len() < 2 {
        let c = pool[0];
        pool.push(if c < MAXC { c + 1 } else { 5 });
        pool.sort_unstable();
    }
    let mut ops = items(&pool);
    // more ranges
    for _ in 0..2 {
        let (a, b) = (*s.pick(&pool), *s.pick(&pool));
        ops.push(Op::Range(a.min(b), a.max(b)));
    }
    let base = ops.len();
    let n = 1 + s.us(6);
    let left: Vec<usize> = (0..n)
        .map(|_| match s.us(8) {
            0 | 1 => 0,
            2 => 4,
            3 => s.us(base),
            4 => base - 1 - s.us(2),
            _ => 1 + s.us(3),
        })
        .collect();
    let weaken = |s: &mut Src, left: &[usize]| -> Vec<usize> {
        let mut v = left.to_vec();
        let edits = 1 + s.us(4);
        for _ in 0..edits {
            let n = v.len();
            let i = s.us(n + 1);
            match s.us(9) {
                // insert Sigma*
                0 | 1 => v.insert(i, 0),
                // a stretch becomes Sigma*
                2 | 3 if n > 0 => {
                    let i = i.min(n - 1);
                    let j = (i + 1 + s.us(3)).min(n);
                    v.splice(i..j, [0]);
                }
                // widen an item
                4 if n > 0 => {
                    let i = i.min(n - 1);
                    v[i] = match v[i] {
                        1 | 2 => 3,
                        3 => 4,
                        _ => 4,
                    };
                }
                // change an item
                5 if n > 0 => {
                    let i = i.min(n - 1);
                    v[i] = s.us(base);
                }
                // drop an item
                6 if n > 0 => {
                    let i = i.min(n - 1);
                    v.remove(i);
                }
                // duplicate an item
                7 if n > 0 && n < 9 => {
                    let i = i.min(n - 1);
                    let x = v[i];
                    v.insert(i, x);
                }
                // swap neighbours
                8 if n > 1 => {
                    let i = i.min(n - 2);
                    v.swap(i, i + 1);
                }
                _ => (),
            }
        }
        v
    };
    let a = weaken(s, &left);
    let b = weaken(s, &left);
    let c = weaken(s, &a);
    let first = ops.len();
    for v in [left, a, b, c] {
        ops.push(Op::ConcatList(v));
    }
    let join = s.us(5);
    match join {
        0 => ops.push(Op::Union(first + 1, first + 2)),
        1 => ops.push(Op::Inter(first, first + 2)),
        2 => ops.push(Op::Comp(first + 1)),
        3 => ops.push(Op::Union(first, first + 3)),
        _ => ops.push(Op::Inter(first + 1, first + 3)),
    }
    ops.push(Op::Comp(first));
    let at = pool_atoms(&pool);
    let d = dfas(&ops, &at)?;
    let n = ops.len();
    let roots = (first..n).collect();
    let p = Prog { ops, pool, atoms: at, dfa: d, roots };
    if !ctx.begin(p.hash(), true, || p.show()) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for i in first..n {
        for j in first..n {
            judge(ctx, &t, &p.dfa, i, j)?;
        }
    }
    judge_union(&mut re, &p, &t, &[first, first + 1, first + 2])?;
    judge_union(&mut re, &p, &t, &[first + 3, first + 1])?;
    judge_union(&mut re, &p, &t, &[n - 2, first + 3, first])
}

/// long patterns: runs of single-character items between Sigma*s, the right side a relaxation
/// or near-relaxation of the left with the same runs shifted, shared or cut
fn long_patterns(s: &mut Src, ctx: &mut Ctx) -> R {
    patterns_of(s, ctx, 4, 5, false)
}
/// tens to hundreds of pieces; where the reference automata are too large the claims are tried on members
fn huge_patterns(s: &mut Src, ctx: &mut Ctx) -> R {
    let (runs, len) = *s.pick(&[(3usize, 150usize), (2, 70), (10, 30), (40, 3), (80, 2)]);
    patterns_of(s, ctx, runs, len, true)
}

/// is w in the language of the concatenation of the items v?
fn linear_accepts(ops: &[Op], v: &[usize], w: &[u32]) -> bool {
    let n = v.len();
    let mut cur = vec![false; n + 1];
    cur[0] = true;
    let close = |cur: &mut [bool]| {
        for i in 0..n {
            if cur[i] && v[i] == 0 {
                cur[i + 1] = true;
            }
        }
    };
    close(&mut cur);
    for c in w {
        let mut nxt = vec![false; n + 1];
        for i in 0..n {
            if cur[i] {
                match &ops[v[i]] {
                    Op::All => nxt[i] = true,
                    Op::Char(x) => nxt[i + 1] |= x == c,
                    Op::Range(x, y) => nxt[i + 1] |= x <= c && c <= y,
                    _ => nxt[i + 1] = true,
                }
            }
        }
        close(&mut nxt);
        cur = nxt;
    }
    cur[n]
}

fn linear_member(r: &mut Src, ops: &[Op], pool: &[u32], v: &[usize]) -> Vec<u32> {
    let mut w = vec![];
    let style = r.us(4);
    for i in v {
        match &ops[*i] {
            Op::All => match style {
                0 => {}
                1 => w.push(r.below(MAXC as u64 + 1) as u32),
                _ => {
                    let n = r.us(5);
                    w.extend((0..n).map(|_| *r.pick(pool)));
                }
            },
            Op::Char(x) => w.push(*x),
            Op::Range(x, y) => w.push(if r.us(2) == 0 { *x } else { *y }),
            _ => w.push(if r.us(3) == 0 { r.below(MAXC as u64 + 1) as u32 } else { *r.pick(pool) }),
        }
    }
    w
}

fn patterns_of(s: &mut Src, ctx: &mut Ctx, max_runs: usize, max_len: usize, huge: bool) -> R {
    let a = *s.pick(&[97u32, 97, 0, MAXC - 2]);
    let pool = vec![a, a + 1, a + 2];
    let at = pool_atoms(&pool);
    let ops = vec![
        Op::All,
        Op::Char(a),
        Op::Char(a + 1),
        Op::Range(a, a + 1),
        Op::Range(a + 1, a + 2),
        Op::AllChar,
        Op::Range(a, a + 2),
    ];
    let k = ops.len();
    let run = |s: &mut Src| -> Vec<usize> {
        let n = 1 + s.us(max_len);
        let style = if huge { s.us(2) } else { s.us(3) };
        (0..n)
            .map(|_| match style {
                0 => 1 + s.us(2),
                1 => 1,
                _ => 1 + s.us(k - 1),
            })
            .collect()
    };
    let nruns = 1 + s.us(max_runs);
    let runs: Vec<Vec<usize>> = (0..nruns).map(|_| run(s)).collect();
    let sep: Vec<bool> = (0..=nruns).map(|_| s.us(4) != 0).collect();
    let assemble = |runs: &[Vec<usize>], sep: &[bool]| -> Vec<usize> {
        let mut v = vec![];
        for (i, r) in runs.iter().enumerate() {
            if sep[i.min(sep.len() - 1)] {
                v.push(0);
            }
            v.extend(r);
        }
        if sep[sep.len() - 1] {
            v.push(0);
        }
        v
    };
    let left = assemble(&runs, &sep);
    let change = |s: &mut Src| -> Vec<usize> {
        let mut r = runs.clone();
        let mut p = sep.clone();
        for _ in 0..1 + s.us(3) {
            let i = s.us(r.len());
            match s.us(9) {
                // separate more, or less
                0 => {
                    let j = s.us(p.len());
                    p[j] = true;
                }
                1 => {
                    let j = s.us(p.len());
                    p[j] = !p[j];
                }
                // cut a run at an end
                2 => {
                    let n = s.us(r[i].len() + 1);
                    r[i].truncate(n);
                }
                3 => {
                    let n = s.us(r[i].len() + 1);
                    r[i].drain(..n);
                }
                // widen
                4 | 5 => {
                    if !r[i].is_empty() {
                        let j = s.us(r[i].len());
                        r[i][j] = *s.pick(&[3usize, 5, 5, 6]);
                    }
                }
                // drop a run with one of its neighbours' separators
                6 => {
                    if r.len() > 1 {
                        r.remove(i);
                        p.remove(i);
                    }
                }
                // repeat part of a run after it
                7 => {
                    let n = s.us(r[i].len() + 1);
                    let w = r[i][..n].to_vec();
                    r.insert(i + 1, w);
                    p.insert(i + 1, true);
                }
                // overlap: next run starts with the end of this one
                _ => {
                    if i + 1 < r.len() && !r[i].is_empty() {
                        let x = *r[i].last().expect("non-empty");
                        r[i + 1].insert(0, x);
                    }
                }
            }
        }
        assemble(&r, &p)
    };
    let rights: Vec<Vec<usize>> = (0..3).map(|_| change(s)).collect();
    let seed = if huge { s.below(1 << 32) } else { 0 };
    let mut sides = vec![left.clone()];
    sides.extend(rights.iter().cloned());
    let mut ops = ops;
    let first = ops.len();
    ops.push(Op::ConcatList(left));
    ops.extend(rights.into_iter().map(Op::ConcatList));
    let rigid = sides.iter().all(|v| v.iter().all(|i| *i < 3) && v.len() < 200);
    if huge && !rigid {
        if !ctx.begin(hash_of(&ops), true, || show_prog(&ops)) {
            return Ok(());
        }
        let mut re = ReManager::new();
        let t = build(&mut re, &ops);
        let mut r = Src::random(seed);
        for i in 0..sides.len() {
            for j in 0..sides.len() {
                if i == j || sides[i] == sides[j] {
                    continue;
                }
                if !t[first + i].included_in(t[first + j]) {
                    ctx.label("no claim");
                    continue;
                }
                ctx.label("claimed inclusion, tried on members");
                for _ in 0..40 {
                    let w = linear_member(&mut r, &ops, &pool, &sides[i]);
                    ensure!(
                        linear_accepts(&ops, &sides[j], &w),
                        "({}).included_in({}) is true, but {} is in the first language only",
                        t[first + i],
                        t[first + j],
                        show_word(&w)
                    );
                }
            }
        }
        return Ok(());
    }
    let d = dfas(&ops, &at)?;
    let n = ops.len();
    let p = Prog { ops, pool, atoms: at, dfa: d, roots: (first..n).collect() };
    if !ctx.begin(p.hash(), true, || p.show()) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for i in first..n {
        for j in first..n {
            judge(ctx, &t, &p.dfa, i, j)?;
        }
    }
    if huge {
        return Ok(());
    }
    judge_union(&mut re, &p, &t, &[first, first + 1, first + 2, first + 3])
}

/// unions and intersections of many operands, pairs of their parts
fn wide(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_wide(s);
    let n = p.ops.len();
    let some: Vec<usize> = (0..6).map(|_| s.us(n)).chain(n.saturating_sub(6)..n).collect();
    let m = 3 + s.us(20);
    let v: Vec<usize> = (0..m).map(|_| s.us(n)).collect();
    if !ctx.begin(hash_of(&(&p.ops, &v)), p.nontrivial(), || format!("{}; union of {v:?}", p.show())) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for i in &some {
        for j in &some {
            judge(ctx, &t, &p.dfa, *i, *j)?;
        }
    }
    judge_union(&mut re, &p, &t, &v)?;
    for r in p.roots.iter().rev().take(3) {
        bisim(&mut re, t[*r], &p.dfa[*r], &p.atoms, 60).map_err(|x| at_root(x, *r))?;
    }
    Ok(())
}

/// a pattern against unions of many patterns below it and intersections of many patterns above
/// it, with at most one that is not; claims are tried on members of every operand
fn all_but_one(s: &mut Src, ctx: &mut Ctx) -> R {
    let a = *s.pick(&[97u32, 97, 0, MAXC - 3]);
    let pool: Vec<u32> = (a..a + 4).collect();
    // 0: Sigma*, 1..=4: characters, 5..=7: pairs, 8: the pool, 9: allchar
    let mut ops = vec![Op::All];
    ops.extend(pool.iter().map(|c| Op::Char(*c)));
    ops.extend((0..3).map(|i| Op::Range(a + i, a + i + 1)));
    ops.push(Op::Range(a, a + 3));
    ops.push(Op::AllChar);
    let len = 1 + s.us(8);
    let style = s.us(4);
    let base: Vec<usize> = (0..len)
        .map(|i| match style {
            0 => *s.pick(&[0usize, 1, 1, 2, 8]),
            1 => {
                if i % 2 == 0 {
                    0
                } else {
                    1 + s.us(9)
                }
            }
            2 => 1 + s.us(9),
            _ => s.us(10),
        })
        .collect();
    let m = *s.pick(&[2usize, 5, 9, 9, 20, 33, 33, 70]);
    let strong = |s: &mut Src| -> Vec<usize> {
        let mut v = vec![];
        let words = s.us(4) != 0;
        for x in &base {
            match x {
                0 if words => {
                    let n = s.us(4);
                    v.extend((0..n).map(|_| 1 + s.us(4)));
                }
                0 => {
                    if s.us(2) == 0 {
                        v.push(0);
                    }
                    let n = s.us(3);
                    v.extend((0..n).map(|_| 1 + s.us(9)));
                    if s.us(2) == 0 && v.last() != Some(&0) {
                        v.push(0);
                    }
                }
                5..=7 if s.us(2) == 0 => v.push(x - 4 + s.us(2)),
                8 if s.us(2) == 0 => v.push(1 + s.us(7)),
                9 if s.us(2) == 0 => v.push(1 + s.us(8)),
                _ => v.push(*x),
            }
        }
        v
    };
    let weak = |s: &mut Src| -> Vec<usize> {
        let mut v = base.clone();
        for _ in 0..1 + s.us(4) {
            let n = v.len();
            let i = s.us(n);
            match s.us(4) {
                0 => v.insert(s.us(n + 1), 0),
                1 => {
                    let j = (i + 1 + s.us(3)).min(n);
                    v.splice(i..j, [0]);
                }
                2 if v[i] != 0 => v[i] = 9,
                _ if (1..=4).contains(&v[i]) => v[i] = *s.pick(&[(v[i] + 4).min(7), v[i].max(2) + 3, 8, 9]),
                _ => {}
            }
        }
        v.dedup_by(|x, y| *x == 0 && *y == 0);
        v
    };
    let spoil = |s: &mut Src, v: &[usize]| -> Vec<usize> {
        let mut v = v.to_vec();
        let n = v.len();
        match s.us(4) {
            0 if n > 0 => {
                v.remove(s.us(n));
            }
            1 if n > 1 => {
                let i = s.us(n - 1);
                v.swap(i, i + 1);
            }
            2 => v.insert(s.us(n + 1), 1 + s.us(9)),
            _ if n > 0 => v[s.us(n)] = 1 + s.us(9),
            _ => v.push(1),
        }
        v
    };
    let spoiled = s.us(5) != 0;
    let side = |s: &mut Src, below: bool| -> Vec<Vec<usize>> {
        let mut l: Vec<Vec<usize>> = (0..m).map(|_| if below { strong(s) } else { weak(s) }).collect();
        if spoiled {
            let i = s.us(l.len());
            let x = spoil(s, &l[i]);
            let at = match s.us(4) {
                0 => 0,
                1 => s.us(l.len() + 1),
                _ => l.len(),
            };
            l.insert(at, x);
        }
        l
    };
    let below = side(s, true);
    let above = side(s, false);
    let seed = s.below(1 << 32);
    // the lists of items the terms stand for; (how many operands, joined how)
    let mut sides: Vec<(Vec<Vec<usize>>, bool)> = vec![(vec![base.clone()], true)];
    let first = ops.len();
    ops.push(Op::ConcatList(base));
    for (l, union) in [(&below, true), (&above, false)] {
        let i = ops.len();
        for v in l {
            ops.push(Op::ConcatList(v.clone()));
            sides.push((vec![v.clone()], true));
        }
        let idx: Vec<usize> = (i..ops.len()).collect();
        ops.push(if union { Op::UnionList(idx.clone()) } else { Op::InterList(idx.clone()) });
        sides.push((l.clone(), union));
        // the other way to join them, over every second one
        let half: Vec<usize> = idx.iter().copied().step_by(2).collect();
        ops.push(if union { Op::InterList(half.clone()) } else { Op::UnionList(half) });
        sides.push((l.iter().cloned().step_by(2).collect(), !union));
    }
    let (u, i) = (below.len() + 1, below.len() + above.len() + 3);
    let pick = [0, 1, u - 1, u, u + 1, u + 2, i - 1, i, i + 1, 1 + s.us(i), 1 + s.us(i)];
    if !ctx.begin(hash_of(&(&ops, seed)), true, || show_prog(&ops)) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &ops);
    let mut r = Src::random(seed);
    let member = |side: &(Vec<Vec<usize>>, bool), w: &[u32]| -> bool {
        if side.1 {
            side.0.iter().any(|v| linear_accepts(&ops, v, w))
        } else {
            side.0.iter().all(|v| linear_accepts(&ops, v, w))
        }
    };
    for x in pick {
        for y in pick {
            if x == y {
                continue;
            }
            let (e, f) = (t[first + x], t[first + y]);
            let (ec, fc) = (re.complement(e), re.complement(f));
            let direct = e.included_in(f);
            let dual = fc.included_in(ec);
            if !direct && !dual {
                ctx.label("no claim");
                continue;
            }
            ctx.label("claimed inclusion, tried on members");
            // members of the left side: of every operand, and those of the base pattern
            let n = sides[x].0.len();
            for k in 0..n + 4 {
                let v = if k < n { &sides[x].0[k] } else { &sides[0].0[0] };
                for _ in 0..if n < 10 { 6 } else { 2 } {
                    let w = linear_member(&mut r, &ops, &pool, v);
                    ensure!(
                        !member(&sides[x], &w) || member(&sides[y], &w),
                        "({}).included_in({}) is {direct} and between their complements {dual}, but {} is in the first language only",
                        e,
                        f,
                        show_word(&w)
                    );
                }
            }
        }
    }
    Ok(())
}

/// one language written in several ways, next to almost equal ones
fn synonyms(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_syn(s);
    let n = p.ops.len();
    let v: Vec<usize> = (0..2 + s.us(3)).map(|_| s.us(n)).collect();
    let some: Vec<usize> = (0..12).map(|_| s.us(n)).chain(n.saturating_sub(14)..n).collect();
    if !ctx.begin(hash_of(&(&p.ops, &v)), p.nontrivial(), || format!("{}; union of {v:?}", p.show())) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for i in &some {
        for j in &some {
            judge(ctx, &t, &p.dfa, *i, *j)?;
        }
    }
    judge_union(&mut re, &p, &t, &v)?;
    for r in &p.roots {
        bisim(&mut re, t[*r], &p.dfa[*r], &p.atoms, 200).map_err(|x| at_root(x, *r))?;
    }
    Ok(())
}

fn random_pairs(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 3 + s.us(9);
    let p = gen_prog(s, cfg);
    let n = p.ops.len();
    let v: Vec<usize> = (0..2 + s.us(3)).map(|_| s.us(n)).collect();
    if !ctx.begin(p.hash(), p.nontrivial(), || p.show()) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for i in 0..n {
        for j in 0..n {
            judge(ctx, &t, &p.dfa, i, j)?;
        }
    }
    judge_union(&mut re, &p, &t, &v)?;
    // unions of derivatives are formed while walking
    for r in &p.roots {
        bisim(&mut re, t[*r], &p.dfa[*r], &p.atoms, 200).map_err(|x| at_root(x, *r))?;
    }
    Ok(())
}

/// pairs related by construction, in both directions
fn weakened(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 4;
    let p = gen_prog(s, cfg);
    let mut ops = p.ops.clone();
    let k = 2 + s.us(4);
    for _ in 0..k {
        let n = ops.len();
        let (x, y, z) = (n - 1 - s.us(n.min(5)), s.us(n), s.us(n));
        let (i, j) = gen_loop_bounds(s, 3);
        let (a, b) = gen_loop_bounds(s, 3);
        match s.us(12) {
            0 => ops.push(Op::Union(x, y)),
            1 => ops.push(Op::Inter(x, y)),
            2 => ops.extend([Op::All, Op::Concat(x, n)]),
            3 => ops.extend([Op::All, Op::Concat(n, x)]),
            4 => ops.extend([Op::Loop(x, i, j), Op::Loop(x, a, b)]),
            5 => ops.extend([Op::Comp(x), Op::Comp(y)]),
            6 => ops.extend([Op::Union(y, z), Op::Inter(x, n)]),
            7 => ops.extend([Op::Concat(x, y), Op::Concat(x, z)]),
            8 => ops.extend([Op::Star(x), Op::Concat(n, x), Op::Concat(y, n)]),
            9 => ops.extend([Op::All, Op::ConcatList(vec![n, x, n]), Op::ConcatList(vec![n, x, n, y, n])]),
            10 => ops.extend([Op::Diff(x, y), Op::Comp(n)]),
            _ => ops.extend([Op::SigmaPlus, Op::Concat(x, n), Op::AllChar, Op::Concat(x, n + 2)]),
        }
    }
    let d = dfas(&ops, &p.atoms)?;
    let rs = roots(&ops);
    let n = ops.len();
    let v: Vec<usize> = (0..2 + s.us(3)).map(|_| n - 1 - s.us(n.min(6))).collect();
    let p = Prog { ops, pool: p.pool, atoms: p.atoms, dfa: d, roots: rs };
    if !ctx.begin(p.hash(), p.nontrivial(), || p.show()) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for i in 0..n {
        for j in 0..n {
            judge(ctx, &t, &p.dfa, i, j)?;
        }
    }
    judge_union(&mut re, &p, &t, &v)
}
