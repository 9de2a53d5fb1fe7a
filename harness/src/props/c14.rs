//! C14: pruning, alphabet, compiled successor table and enumerations agree with next.
use super::autom::*;
use super::c01::{at_root, small_ops};
use crate::engine::*;
use crate::refdfa::*;
use crate::regen::*;
use crate::src::Src;
use crate::{ensure, fail};
use aws_smt_strings::automata::Automaton;
use aws_smt_strings::character_sets::*;
use aws_smt_strings::errors::Error;
use aws_smt_strings::regular_expressions::ReManager;
use std::collections::HashMap;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "A case is an automaton (assembled with AutomatonBuilder or compiled). Non-trivial: at least three states \
               and two character classes. Distinct: different transitions, finality, initial state and way of \
               declaring them / different construction calls.",
        assumptions: &["automata have at most 1000 states and 80 character classes"],
        modes: vec![
            Mode::exh("small-exhaustive", exh, 16),
            Mode::random("built", built, 150_000, 8_000_000, 8_000),
            Mode::random("built-sparse", sparse, 20_000, 1_000_000, 2_000),
            Mode::random("built-large", large, 4_000, 200_000, 400),
            Mode::random("built-huge", huge, 1_600, 48_000, 64),
            Mode::random("compiled-wide", compiled_wide, 16_000, 800_000, 500),
            Mode::random("compiled-deep", compiled_deep, 1_200, 60_000, 40),
            Mode::random("beyond-16-bits", beyond16, 16, 400, 1),
            Mode::random("wide-alphabet", wide_alphabet, 160, 6_000, 16),
            Mode::random("compiled-huge", compiled_huge, 200, 6_000, 6),
            Mode::random("compiled-beyond-16-bits", compiled_beyond16, 4, 200, 1),
            Mode::random("compiled", compiled, 20_000, 1_000_000, 2_000),
        ],
    }
}

fn check_edges(aut: &Automaton, tb: &Table, sets: &[(u32, u32)]) -> R {
    let n = aut.num_states();
    for s in aut.states() {
        let id = s.id();
        let rs = intervals_of(s.char_ranges());
        check_ranges(&format!("state s{id}"), &rs)?;
        let k = rs.len();
        let all = covers_all(&rs);
        ensure!(s.num_successors() == k, "s{id}: num_successors is {}, char_ranges lists {k}", s.num_successors());
        let def = s.default_successor();
        ensure!(def.is_some() == s.has_default_successor(), "s{id}: has_default_successor is {}", s.has_default_successor());
        ensure!(
            aut.default_successor(s).map(|x| x.id()) == def,
            "s{id}: Automaton::default_successor and State::default_successor differ"
        );
        ensure!(def.is_some() || all, "s{id} has no default successor but its ranges do not cover the alphabet");
        let first_gap = (0..tb.k()).find(|a| range_of(&rs, tb.at.lo(*a)).is_none());
        if let (Some(d), Some(a)) = (def, first_gap) {
            ensure!(d == tb.next(id, a), "s{id}: the default successor is s{d} but next on {} is s{}", show_char(tb.at.lo(a)), tb.next(id, a));
        }
        // expected edges: one per range, one for the rest
        let mut want: Vec<(ClassId, usize)> =
            rs.iter().enumerate().map(|(i, r)| (ClassId::Interval(i), tb.next(id, tb.at.of(r.0)))).collect();
        if let Some(a) = first_gap {
            want.push((ClassId::Complement, tb.next(id, a)));
        }
        let key = |c: &ClassId| match c {
            ClassId::Interval(i) => *i,
            ClassId::Complement => usize::MAX,
        };
        let mut got: Vec<(ClassId, usize)> = aut.edges(s).map(|(c, t)| (c, t.id())).collect();
        got.sort_by_key(|(c, _)| key(c));
        ensure!(
            got == want,
            "edges(s{id}) = {}, next says {}",
            show_edges(&got),
            show_edges(&want)
        );
        let mut classes: Vec<ClassId> = s.char_classes().collect();
        classes.sort_by_key(key);
        let want_classes: Vec<ClassId> = want.iter().map(|x| x.0).collect();
        ensure!(classes == want_classes, "char_classes(s{id}) = {classes:?}, the classes are {want_classes:?}");
        for (c, t) in &want {
            ensure!(s.valid_class_id(*c), "s{id}: class id {} is not valid", show_cid(*c));
            let x = aut.class_next(s, *c).id();
            ensure!(x == *t, "class_next(s{id}, {}) = s{x}, next says s{t}", show_cid(*c));
        }
        ensure!(!s.valid_class_id(ClassId::Interval(k)), "s{id}: Interval({k}) is a valid class id of {k} ranges");
        ensure!(s.valid_class_id(ClassId::Complement) != all, "s{id}: validity of the complementary class");
        // picks: one in each class
        let picks: Vec<u32> = s.char_picks().collect();
        let class_of = |c: u32| match range_of(&rs, c) {
            Some(i) => ClassId::Interval(i),
            None => ClassId::Complement,
        };
        let mut pc: Vec<ClassId> = picks.iter().map(|c| class_of(*c)).collect();
        pc.sort_by_key(key);
        ensure!(pc == want_classes, "char_picks(s{id}) = {picks:x?} lie in classes {pc:?}, the classes are {want_classes:?}");
        for a in 0..tb.k() {
            for c in [tb.at.lo(a), tb.at.hi(a)] {
                let w = class_of(c);
                ensure!(s.class_of_char(c) == w, "s{id}: class_of_char({}) = {:?}, expected {w:?}", show_char(c), s.class_of_char(c));
                let m = s.char_maps_to_default(c);
                ensure!(m == (w == ClassId::Complement && def.is_some()), "s{id}: char_maps_to_default({}) = {m}", show_char(c));
            }
        }
        let mut ss = rs.clone();
        if let Some(a) = first_gap {
            ss.push((tb.at.lo(a), tb.at.hi(a)));
        }
        ss.extend(sets);
        for (a, b) in ss {
            let inside = range_of(&rs, a).is_some() && range_of(&rs, a) == range_of(&rs, b);
            let outside = !meets(&rs, (a, b));
            match aut.char_set_next(s, &CharSet::range(a, b)) {
                Ok(t) => {
                    ensure!(inside || outside, "char_set_next(s{id}, {}) succeeds on an ambiguous set", show_set((a, b)));
                    let w = aut.next(s, a).id();
                    ensure!(t.id() == w, "char_set_next(s{id}, {}) = s{}, next says s{w}", show_set((a, b)), t.id());
                }
                Err(Error::AmbiguousCharSet) if !inside && !outside => (),
                Err(e) => fail!("char_set_next(s{id}, {}) fails with {e:?}", show_set((a, b))),
            }
        }
    }
    let fin: Vec<usize> = (0..n).filter(|i| tb.f[*i]).collect();
    let got: Vec<usize> = aut.final_states().map(|s| s.id()).collect();
    ensure!(got == fin, "final_states lists {got:?}, the final states are {fin:?}");
    ensure!(aut.num_final_states() == fin.len(), "num_final_states is {}, {} states are final", aut.num_final_states(), fin.len());
    Ok(())
}

fn show_edges(e: &[(ClassId, usize)]) -> String {
    e.iter().map(|(c, t)| format!("{} -> s{t}", show_cid(*c))).collect::<Vec<_>>().join(", ")
}

fn check_alphabet(aut: &Automaton, tb: &Table) -> R<usize> {
    let n = aut.num_states();
    let p = aut.combined_char_partition();
    let col = |a: usize| (0..n).map(|s| tb.next(s, a)).collect::<Vec<usize>>();
    // classes of the reported partition, evaluated here from its intervals
    let rs: Vec<(u32, u32)> = (0..p.len()).map(|i| (p.start(i), p.end(i))).collect();
    check_ranges("combined_char_partition", &rs)?;
    let class_of = |c: u32| range_of(&rs, c);
    let pts = Atoms::new(tb.at.cuts.iter().copied().chain(rs.iter().flat_map(|(a, b)| [*a, *b + 1])));
    let mut seen: HashMap<Option<usize>, (u32, Vec<usize>)> = HashMap::new();
    for a in 0..pts.len() {
        let c = pts.lo(a);
        let x = col(tb.at.of(c));
        match seen.get(&class_of(c)) {
            None => {
                seen.insert(class_of(c), (c, x));
            }
            Some((d, y)) => {
                if let Some(s) = (0..n).find(|s| x[*s] != y[*s]) {
                    fail!(
                        "combined_char_partition puts {} and {} in one class, but s{s} moves to s{} and s{}",
                        show_char(*d),
                        show_char(c),
                        y[s],
                        x[s]
                    );
                }
            }
        }
    }
    let alpha = aut.pick_alphabet();
    let mut classes: Vec<Option<usize>> = alpha.iter().map(|c| class_of(*c)).collect();
    ensure!(
        alpha.iter().all(|c| *c <= MAXC),
        "pick_alphabet = {alpha:x?} contains something that is not a character"
    );
    classes.sort_unstable();
    let mut want: Vec<Option<usize>> = seen.keys().copied().collect();
    want.sort_unstable();
    ensure!(
        classes == want,
        "pick_alphabet = {alpha:x?}: expected one character of each of the {} classes",
        want.len()
    );
    let table = aut.compile_successors();
    ensure!(table.num_states() == n, "compiled table has {} states, the automaton {n}", table.num_states());
    ensure!(
        table.alphabet_size() == alpha.len(),
        "compiled table has {} characters, the alphabet {}",
        table.alphabet_size(),
        alpha.len()
    );
    for s in aut.states() {
        for (i, c) in alpha.iter().enumerate() {
            let x = table.eval(s.id() as u32, i as u32) as usize;
            let w = aut.next(s, *c).id();
            ensure!(
                x == w,
                "compiled table at (s{}, {i}) is {x}, next(s{}, {}) is s{w}",
                s.id(),
                s.id(),
                show_char(*c)
            );
        }
    }
    Ok(alpha.len())
}

fn check_prune(aut: &mut Automaton, tb: &Table) -> R {
    let reach = tb.reachable();
    let m = reach.iter().filter(|x| **x).count();
    aut.remove_unreachable_states();
    let after = tabulate(aut, &tb.at.cuts)?;
    ensure!(after.n() == m, "remove_unreachable_states leaves {} states, {m} are reachable", after.n());
    same_language("remove_unreachable_states", tb, &after)?;
    // isomorphic to the reachable part
    let mut to: HashMap<usize, usize> = HashMap::new();
    let mut back: HashMap<usize, usize> = HashMap::new();
    to.insert(tb.init, after.init);
    back.insert(after.init, tb.init);
    let mut st = vec![tb.init];
    let at = Atoms::new(tb.at.cuts.iter().chain(&after.at.cuts).copied());
    while let Some(s) = st.pop() {
        let q = to[&s];
        ensure!(tb.f[s] == after.f[q], "remove_unreachable_states changes the finality of a state");
        for a in 0..at.len() {
            let (x, y) = (tb.next(s, tb.at.of(at.lo(a))), after.next(q, after.at.of(at.lo(a))));
            match (to.get(&x), back.get(&y)) {
                (None, None) => {
                    to.insert(x, y);
                    back.insert(y, x);
                    st.push(x);
                }
                (Some(p), Some(r)) if *p == y && *r == x => (),
                _ => fail!(
                    "after remove_unreachable_states, old s{s} (new s{q}) moves on {} to s{y}, which is not old s{x}",
                    show_char(at.lo(a))
                ),
            }
        }
    }
    check_edges(aut, &after, &[])?;
    check_alphabet(aut, &after)?;
    // nothing left to remove
    aut.remove_unreachable_states();
    ensure!(aut.num_states() == m, "a second remove_unreachable_states leaves {} of {m} states", aut.num_states());
    Ok(())
}

fn check(mut aut: Automaton, order: usize, sets: &[(u32, u32)], ctx: &mut Ctx) -> R {
    let tb = tabulate(&aut, &[])?;
    let unreach = tb.reachable().iter().filter(|x| !**x).count();
    ctx.label(if unreach > 0 { "with unreachable states" } else { "all states reachable" });
    if order % 3 == 1 {
        let k = check_alphabet(&aut, &tb)?;
        ctx.count("table entries", (k * tb.n()) as u64);
    }
    check_edges(&aut, &tb, sets)?;
    if order % 3 != 1 {
        let k = check_alphabet(&aut, &tb)?;
        ctx.count("table entries", (k * tb.n()) as u64);
    }
    if order % 3 == 2 {
        aut.minimize();
        let tb = tabulate(&aut, &[])?;
        check_edges(&aut, &tb, sets)?;
        check_alphabet(&aut, &tb)?;
        return check_prune(&mut aut, &tb);
    }
    check_prune(&mut aut, &tb)
}

fn gen_sets(s: &mut Src, cuts: &[u32]) -> Vec<(u32, u32)> {
    (0..3)
        .map(|_| {
            let f = |s: &mut Src| match s.us(3) {
                0 => *s.pick(cuts),
                1 => s.pick(cuts).saturating_sub(1),
                _ => s.below(0x30000) as u32,
            };
            let (a, b) = (f(s), f(s));
            (a.min(b), a.max(b))
        })
        .collect()
}

fn run_spec(s: &mut Src, ctx: &mut Ctx, sp: Spec) -> R {
    let order = s.us(6);
    let sets = gen_sets(s, &sp.cuts);
    let nt = sp.n >= 3 && sp.cuts.len() >= 2;
    if !ctx.begin(hash_of(&(sp.init, &sp.calls)), nt, || show_spec(&sp)) {
        return Ok(());
    }
    let aut = build_spec(&sp)?;
    if sp.n >= 1000 {
        ctx.label("over 1000 states");
    }
    check(aut, order, &sets, ctx)
}

/// all automata with 3 states over two letters, each state declared in one of two ways
fn exh(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 3;
    let mut t = vec![vec![0; 2]; n];
    let mut calls = vec![];
    let mut f = vec![false; n];
    for i in 0..n {
        for a in 0..2 {
            t[i][a] = s.us(n);
        }
        f[i] = i == 1;
    }
    let ways = s.us(8);
    for i in 0..n {
        if f[i] {
            calls.push(Call::Final(i));
        }
        match ways >> i & 1 {
            0 => {
                calls.push(Call::Trans(i, (0, 99), t[i][0]));
                calls.push(Call::Default(i, t[i][1]));
            }
            _ => {
                calls.push(Call::Trans(i, (100, MAXC), t[i][1]));
                calls.push(Call::Trans(i, (0, 99), t[i][0]));
            }
        }
    }
    let sp = Spec { n, init: 0, cuts: vec![0, 100], t, f, calls };
    if !ctx.begin(hash_of(&(sp.init, &sp.calls)), true, || show_spec(&sp)) {
        return Ok(());
    }
    let aut = build_spec(&sp)?;
    check(aut, ways, &[(50, 150), (99, 100), (0, MAXC)], ctx)
}

fn built(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = gen_spec(s, 8, 5);
    run_spec(s, ctx, sp)
}
fn large(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = *s.pick(&[20usize, 60, 200, 300, 1000]);
    let k = *s.pick(&[2usize, 3, 12, 40]);
    let k = if n > 200 { k.min(3) } else { k };
    let sp = gen_spec(s, n, k);
    run_spec(s, ctx, sp)
}

/// many characters, few explicit transitions per state: the table is really compacted
/// thousands of states or of ranges
fn huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = *s.pick(&[600usize, 3_000, 8_000, 20_000]);
    let sp = gen_huge_spec(s, n);
    run_spec(s, ctx, sp)
}
/// more than 65536 states
fn wide_alphabet(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = gen_alphabet_spec(s);
    ctx.label(if sp.cuts.len() > 65_536 { "over 65536 ranges" } else { "up to 8000 ranges" });
    run_spec(s, ctx, sp)
}
fn beyond16(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = gen_beyond_spec(s, Tour::Classes);
    run_spec(s, ctx, sp)
}
fn sparse(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cuts = gen_cuts(s, 24);
    let extra = gen_cuts(s, 8);
    cuts.extend(extra);
    cuts.sort_unstable();
    cuts.dedup();
    let at = Atoms::new(cuts.iter().copied());
    let k = at.len();
    let n = 1 + s.us(30);
    let mut t = vec![];
    let mut f = vec![];
    let mut calls = vec![];
    for i in 0..n {
        let d = s.us(n);
        let mut row = vec![d; k];
        let m = s.us(5);
        for _ in 0..m {
            let a = s.us(k);
            row[a] = s.us(n);
        }
        let x = s.us(4) == 0;
        if x {
            calls.push(Call::Final(i));
        }
        f.push(x);
        let mut covered = 0;
        for a in 0..k {
            if row[a] != d || s.us(20) == 0 {
                calls.push(Call::Trans(i, (at.lo(a), at.hi(a)), row[a]));
                covered += 1;
            }
        }
        if covered < k {
            calls.push(Call::Default(i, d));
        }
        t.push(row);
    }
    let init = s.us(n);
    let sp = Spec { n, init, cuts, t, f, calls };
    run_spec(s, ctx, sp)
}

fn compiled_wide(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_wide(s);
    compiled_big(s, ctx, p, 150)
}
fn compiled_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let max = huge_size(s, if ctx.tier == Tier::Quick { 10_000 } else { 66_000 });
    let p = gen_huge(s, max);
    compiled_big(s, ctx, p, 4 * max + 200)
}
/// more than 65536 states
fn compiled_beyond16(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_beyond(s);
    compiled_big(s, ctx, p, BEYOND + 200)
}
fn compiled_deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_deep(s, 400);
    compiled_big(s, ctx, p, 1500)
}
fn compiled_big(s: &mut Src, ctx: &mut Ctx, p: Prog, limit: usize) -> R {
    let r = *s.pick(&p.roots);
    let order = s.us(6);
    let sets = gen_sets(s, &p.atoms.cuts);
    let nt = p.dfa[r].n() >= 3 && p.atoms.len() >= 2;
    if !ctx.begin(hash_of(&(&p.ops, r)), nt, || format!("automaton of r{r} of {}", p.show())) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !(limit > BEYOND && huge_fits(&p, BEYOND) || light_prog(&p, limit + 500, HEAVY)) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    let Some(aut) = re.try_compile(t[r], limit) else { return Err(Stop::Discard("too many derivatives")) };
    check(aut, order, &sets, ctx).map_err(|x| at_root(x, r))
}

fn compiled(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = if s.us(4) == 0 {
        let v = small_ops(s, 3);
        let Ok(p) = prog_of(v, vec![97, 98]) else { return Err(Stop::Discard("reference cap")) };
        p
    } else {
        let mut cfg = CFG;
        cfg.max_ops = 4 + s.us(9);
        cfg.pool = *s.pick(&[3usize, 3, 6, 12]);
        gen_prog(s, cfg)
    };
    let r = *s.pick(&p.roots);
    let order = s.us(6);
    let sets = gen_sets(s, &p.atoms.cuts);
    let nt = p.dfa[r].n() >= 3 && p.atoms.len() >= 2;
    if !ctx.begin(hash_of(&(&p.ops, r)), nt, || format!("automaton of r{r} of {}", p.show())) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    let Some(aut) = re.try_compile(t[r], 300) else { return Err(Stop::Discard("too many derivatives")) };
    check(aut, order, &sets, ctx).map_err(|x| at_root(x, r))
}
