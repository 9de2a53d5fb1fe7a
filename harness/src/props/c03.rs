//! C03: derivatives are left quotients; derivative classes are uniform.
use super::autom::*;
use super::c01::small_ops;
use crate::engine::*;
use crate::refdfa::*;
use crate::regen::*;
use crate::src::Src;
use crate::{ensure, fail};
use aws_smt_strings::character_sets::{CharSet, ClassId};
use aws_smt_strings::errors::Error;
use aws_smt_strings::regular_expressions::{ReManager, RegLan};
use std::collections::{HashMap, HashSet};

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "A case is a construction program plus character sets and words; all classes, characters and sets are \
               checked on the first terms of the derivative closure of its results. Non-trivial: some examined term has \
               at least two derivative classes and a language other than none, all and {epsilon}. Distinct: different \
               sequence of calls and sets.",
        assumptions: &[
            "two derivatives are the same when they denote the same language",
            "language comparisons walk at most 400 (deep: 1500) (derivative, residual) pairs per term",
        ],
        modes: vec![
            Mode::exh("exhaustive-2ops", exh2, 16),
            Mode::random("random", random, 40_000, 2_000_000, 2_000),
            Mode::random("many-ranges", many_ranges, 12_000, 600_000, 1_000),
            Mode::random("wide", wide, 16_000, 800_000, 500),
            Mode::random("synonyms", synonyms, 16_000, 800_000, 500),
            Mode::random("deep", deep, 1_600, 80_000, 50),
            Mode::random("huge", huge, 240, 6_000, 6),
            Mode::random("beyond-16-bits", beyond16, 16, 400, 1),
            Mode::random("many-classes", many_classes, 160, 6_000, 8),
            Mode::random("all-characters", all_chars, 80, 4_000, 10),
            Mode::exh("exhaustive-3ops", exh3, 256).thorough_only(),
        ],
    }
}

fn add(x: Stop, what: impl FnOnce() -> String) -> Stop {
    match x {
        Stop::Fail(m) => Stop::Fail(format!("{}: {m}", what())),
        d => d,
    }
}

struct Look<'a> {
    re: &'a mut ReManager,
    d: &'a Dfa,
    at: &'a Atoms,
    seen: Seen,
    budget: usize,
    incomplete: bool,
}
impl Look<'_> {
    /// e must denote the residual language of state st
    fn lang(&mut self, e: RegLan, st: usize) -> R {
        let b = bisim_from(self.re, e, self.d, st, self.at, self.budget, &mut self.seen)?;
        if !b.complete {
            self.incomplete = true;
        }
        Ok(())
    }
}

/// characters at which the classes of t or the language can change
fn points(t: RegLan, at: &Atoms) -> Vec<u32> {
    let mut v: Vec<u32> = probes(at).iter().map(|x| x.1).collect();
    for (a, b) in intervals_of(t.char_ranges()) {
        v.extend([a, b, a.saturating_sub(1), (b + 1).min(MAXC), a + (b - a) / 2]);
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn check_term(l: &mut Look, t: RegLan, q: usize, sets: &[(u32, u32)]) -> R<usize> {
    let rs = intervals_of(t.char_ranges());
    check_ranges(&format!("derivative classes of {t}"), &rs)?;
    let n = rs.len();
    let all = covers_all(&rs);
    ensure!(t.num_deriv_classes() == n, "{t}: num_deriv_classes is {} but there are {n} ranges", t.num_deriv_classes());
    ensure!(t.empty_complement() == all, "{t}: empty_complement is {} but the ranges {} the alphabet", t.empty_complement(), if all { "cover" } else { "do not cover" });
    // the listed ids are exactly the non-empty classes
    let mut ids: Vec<ClassId> = t.class_ids().collect();
    let listed = ids.len();
    ids.sort_by_key(|c| match c {
        ClassId::Interval(i) => *i,
        ClassId::Complement => usize::MAX,
    });
    ids.dedup();
    let mut want: Vec<ClassId> = (0..n).map(ClassId::Interval).collect();
    if !all {
        want.push(ClassId::Complement);
    }
    ensure!(
        listed == ids.len() && ids == want,
        "{t}: class_ids lists {:?}; the classes are {:?}",
        t.class_ids().collect::<Vec<_>>(),
        want
    );
    let pts = points(t, l.at);
    let class_of = |c: u32| match rs.iter().position(|(a, b)| *a <= c && c <= *b) {
        Some(i) => ClassId::Interval(i),
        None => ClassId::Complement,
    };
    let mut by_class: HashMap<ClassId, RegLan> = HashMap::new();
    for cid in &want {
        ensure!(t.valid_class_id(*cid), "{t}: class id {} is listed but not valid", show_cid(*cid));
        match l.re.class_derivative(t, *cid) {
            Ok(d) => {
                by_class.insert(*cid, d);
                let u = l.re.class_derivative_unchecked(t, *cid);
                if !std::ptr::eq(u, d) {
                    // judged by language below: both must denote every quotient of the class
                    for c in pts.iter().filter(|c| class_of(**c) == *cid) {
                        l.lang(u, l.d.next(q, l.at.of(*c))).map_err(|x| add(x, || format!("class_derivative_unchecked({t}, {})", show_cid(*cid))))?;
                    }
                }
            }
            Err(e) => fail!("class_derivative({t}, {}) fails with {e:?}", show_cid(*cid)),
        }
    }
    for c in &pts {
        let want_state = l.d.next(q, l.at.of(*c));
        let cid = class_of(*c);
        let d = *by_class.get(&cid).expect("class");
        l.lang(d, want_state).map_err(|x| {
            add(x, || format!("class_derivative({t}, {}) against the quotient by {} of that class", show_cid(cid), show_char(*c)))
        })?;
        let e = l.re.char_derivative(t, *c);
        if !std::ptr::eq(d, e) {
            l.lang(e, want_state).map_err(|x| add(x, || format!("char_derivative({t}, {})", show_char(*c))))?;
        }
    }
    // invalid ids
    let mut bad = vec![ClassId::Interval(n), ClassId::Interval(n + 1), ClassId::Interval(usize::MAX)];
    if all {
        bad.push(ClassId::Complement);
    }
    for b in bad {
        ensure!(!t.valid_class_id(b), "{t} has {n} ranges but {} is a valid class id", show_cid(b));
        match l.re.class_derivative(t, b) {
            Err(Error::BadClassId) => (),
            r => fail!("class_derivative({t}, {}) = {r:?}, expected BadClassId", show_cid(b)),
        }
    }
    // sets: the classes themselves, gaps, and the given ones
    let mut ss: Vec<(u32, u32)> = rs.clone();
    let mut prev = 0u32;
    for (a, b) in &rs {
        if *a > prev {
            ss.push((prev, *a - 1));
            ss.push((prev, *a));
        }
        prev = *b + 1;
    }
    if prev <= MAXC {
        ss.push((prev, MAXC));
    }
    ss.push((0, MAXC));
    ss.extend(sets);
    for (a, b) in ss {
        let inside = rs.iter().any(|(x, y)| *x <= a && b <= *y);
        let outside = rs.iter().all(|(x, y)| b < *x || *y < a);
        let set = CharSet::range(a, b);
        match l.re.set_derivative(t, &set) {
            Ok(d) => {
                ensure!(
                    inside || outside,
                    "set_derivative({t}, {}) succeeds although the set meets more than one class",
                    show_set((a, b))
                );
                for c in pts.iter().copied().filter(|c| a <= *c && *c <= b).chain([a, b]) {
                    l.lang(d, l.d.next(q, l.at.of(c))).map_err(|x| {
                        add(x, || format!("set_derivative({t}, {}) against the quotient by {}", show_set((a, b)), show_char(c)))
                    })?;
                }
                let u = l.re.set_derivative_unchecked(t, &set);
                if !std::ptr::eq(u, d) {
                    l.lang(u, l.d.next(q, l.at.of(a))).map_err(|x| add(x, || format!("set_derivative_unchecked({t}, {})", show_set((a, b)))))?;
                }
            }
            Err(e) => ensure!(
                !inside && !outside,
                "set_derivative({t}, {}) fails with {e:?} although the set lies in {}",
                show_set((a, b)),
                if inside { "one class" } else { "the complementary class" }
            ),
        }
    }
    Ok(want.len())
}

/// examine the first `max` terms of the closure
fn check_closure(l: &mut Look, e: RegLan, max: usize, sets: &[(u32, u32)]) -> R<usize> {
    let mut seen: HashSet<usize> = HashSet::new();
    let mut list = vec![(e, 0usize)];
    seen.insert(e as *const _ as usize);
    let mut i = 0;
    let mut classes = 0;
    while i < list.len() && i < max {
        let (t, q) = list[i];
        classes = classes.max(check_term(l, t, q, sets)?);
        for (a, c) in probes(l.at) {
            let d = l.re.char_derivative(t, c);
            if seen.insert(d as *const _ as usize) {
                list.push((d, l.d.next(q, a)));
            }
        }
        i += 1;
    }
    Ok(classes)
}

fn run(s: &mut Src, ctx: &mut Ctx, p: Prog, terms: usize) -> R {
    let ends: Vec<u32> = probes(&p.atoms).iter().map(|x| x.1).collect();
    let sets: Vec<(u32, u32)> = (0..6)
        .map(|_| {
            let f = |s: &mut Src| match s.us(4) {
                0 => s.below(0x30000) as u32,
                1 => (*s.pick(&ends) + 1).min(MAXC),
                _ => *s.pick(&ends),
            };
            let (a, b) = (f(s), f(s));
            (a.min(b), a.max(b))
        })
        .collect();
    let words: Vec<(usize, Vec<u32>)> = (0..4)
        .map(|_| {
            let r = *s.pick(&p.roots);
            (r, gen_word(s, &p.atoms, &p.dfa[r], 6))
        })
        .collect();
    let nt = p.nontrivial() && p.atoms.len() >= 2;
    if !ctx.begin(hash_of(&(&p.ops, &sets)), nt, || format!("{} sets {}", p.show(), sets.iter().map(|x| show_set(*x)).collect::<Vec<_>>().join(" "))) {
        return Ok(());
    }
    label_ops(ctx, &p.ops);
    check_prog(&p, &sets, &words, terms, 400, ctx)
}

fn check_prog(p: &Prog, sets: &[(u32, u32)], words: &[(usize, Vec<u32>)], terms: usize, budget: usize, ctx: &mut Ctx) -> R {
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for r in &p.roots {
        let mut l = Look { re: &mut re, d: &p.dfa[*r], at: &p.atoms, seen: HashMap::new(), budget, incomplete: false };
        let c = check_closure(&mut l, t[*r], terms, sets).map_err(|x| add(x, || format!("r{r}")))?;
        if l.incomplete {
            ctx.label("walk limit reached");
        }
        ctx.label(match c {
            0 | 1 => "1 class",
            2..=4 => "2-4 classes",
            _ => ">4 classes",
        });
    }
    for (r, w) in words {
        let d = re.str_derivative(t[*r], &sstr(w));
        let q = p.dfa[*r].run(&p.atoms, w);
        let mut l = Look { re: &mut re, d: &p.dfa[*r], at: &p.atoms, seen: HashMap::new(), budget, incomplete: false };
        l.lang(d, q).map_err(|x| add(x, || format!("str_derivative(r{r}, {})", show_word(w))))?;
        if budget > 400 {
            // derivatives far from the term
            check_term(&mut l, d, q, sets).map_err(|x| add(x, || format!("r{r} after {}", show_word(w))))?;
        }
    }
    Ok(())
}

fn exh(s: &mut Src, ctx: &mut Ctx, k: usize) -> R {
    let ops = small_ops(s, k);
    if !ctx.begin(hash_of(&ops), true, || show_prog(&ops)) {
        return Ok(());
    }
    let Ok(p) = prog_of(ops, vec![97, 98]) else { return Err(Stop::Discard("reference cap")) };
    let sets = [(97, 97), (98, 98), (97, 98), (96, 97), (98, 99), (0, 96), (99, MAXC), (100, 200), (0, 99)];
    check_prog(&p, &sets, &[], 4, 400, ctx)
}
fn exh2(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 2)
}
fn exh3(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 3)
}

fn random(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 3 + s.us(9);
    let p = gen_prog(s, cfg);
    run(s, ctx, p, 12)
}

/// terms over many ranges: partitions with many classes, merged
fn many_ranges(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 4;
    cfg.pool = 14;
    let n = 3 + s.us(6);
    let pool = gen_pool(s, cfg.pool);
    let atoms = pool_atoms(&pool);
    let mut ops: Vec<Op> = vec![];
    for _ in 0..n {
        let (a, b) = (*s.pick(&pool), *s.pick(&pool));
        let (a, b) = match s.us(5) {
            0 => (0, a),
            1 => (a, MAXC),
            _ => (a.min(b), a.max(b)),
        };
        ops.push(Op::Range(a, b));
    }
    // union / concat alternatives of words of ranges
    for _ in 0..2 + s.us(4) {
        let l = ops.len();
        let k = 1 + s.us(3);
        ops.push(Op::ConcatList((0..k).map(|_| s.us(l.min(n + 2))).collect()));
    }
    let l = ops.len();
    let parts: Vec<usize> = (0..1 + s.us(5)).map(|_| n + s.us(l - n)).collect();
    ops.push(match s.us(3) {
        0 => Op::InterList(parts),
        _ => Op::UnionList(parts),
    });
    for _ in 0..s.us(3) {
        let l = ops.len();
        ops.push(match s.us(5) {
            0 => Op::Comp(l - 1),
            1 => Op::Star(l - 1),
            2 => Op::Concat(l - 1, s.us(l)),
            3 => Op::Inter(l - 1, s.us(l)),
            _ => Op::Diff(l - 1, s.us(l)),
        });
    }
    let mut dfa: Vec<RDfa> = vec![];
    for o in &ops {
        match ref_dfa(&atoms, o, &dfa) {
            Ok(d) => dfa.push(d),
            Err(Cap) => return Err(Stop::Discard("reference cap")),
        }
    }
    let roots = vec![ops.len() - 1];
    let p = Prog { ops, pool, atoms, dfa, roots };
    run(s, ctx, p, 6)
}

/// dozens of alternatives and character classes
fn wide(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_wide(s);
    run(s, ctx, p, 5)
}

/// one language written in several ways, and combined with itself
fn synonyms(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_syn(s);
    run(s, ctx, p, 5)
}

/// hundreds of derivatives
fn deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_deep(s, 300);
    let words: Vec<(usize, Vec<u32>)> = (0..3)
        .map(|_| {
            let r = *s.pick(&p.roots);
            (r, gen_word(s, &p.atoms, &p.dfa[r], 400.min(p.dfa[r].n() + 5)))
        })
        .collect();
    if !ctx.begin(p.hash(), p.nontrivial() && p.atoms.len() >= 2, || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !light_prog(&p, 4000, HEAVY) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    let c = p.pool[0];
    check_prog(&p, &[(c, c), (0, c), (c, MAXC)], &words, 4, 1500, ctx)
}

/// thousands of derivatives
fn huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let max = huge_size(s, if ctx.tier == Tier::Quick { 20_000 } else { 66_000 });
    let p = gen_huge(s, max);
    huge_prog(s, ctx, p, max)
}
/// more than 65536 of them
fn beyond16(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_beyond(s);
    huge_prog(s, ctx, p, BEYOND)
}
/// hundreds of derivative classes
fn many_classes(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_many_classes(s);
    run(s, ctx, p, 4)
}
fn huge_prog(s: &mut Src, ctx: &mut Ctx, p: Prog, max: usize) -> R {
    let r = p.roots[0];
    let words: Vec<(usize, Vec<u32>)> = (0..3).map(|_| (r, long_word(s, &p.atoms, &p.dfa[r], max + 10))).collect();
    if !ctx.begin(p.hash(), p.nontrivial() && p.atoms.len() >= 2, || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !huge_fits(&p, max) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    let c = p.pool[0];
    check_prog(&p, &[(c, c), (0, c), (c, MAXC)], &words, 3, 1500, ctx)
}

/// char_derivative for each of the 196608 characters
fn all_chars(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 6;
    cfg.pool = 8;
    let p = gen_prog(s, cfg);
    let r = p.last();
    if !ctx.begin(p.hash(), p.interesting(r), || p.show()) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    let d = &p.dfa[r];
    let mut seen = HashMap::new();
    let mut terms = vec![(t[r], 0usize)];
    for (a, c) in probes(&p.atoms).into_iter().take(3) {
        terms.push((re.char_derivative(t[r], c), d.next(0, a)));
    }
    for (e, q) in terms {
        for a in 0..p.atoms.len() {
            let z = d.next(q, a);
            let mut last: Option<RegLan> = None;
            for c in p.atoms.lo(a)..=p.atoms.hi(a) {
                let x = re.char_derivative(e, c);
                if last.is_some_and(|l| std::ptr::eq(l, x)) {
                    continue;
                }
                bisim_from(&mut re, x, d, z, &p.atoms, 2000, &mut seen)
                    .map_err(|m| add(m, || format!("char_derivative({e}, {})", show_char(c))))?;
                last = Some(x);
            }
        }
    }
    ctx.count("character derivatives", 4 * (MAXC as u64 + 1));
    Ok(())
}
