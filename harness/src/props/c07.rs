//! C07: hash-consing. Stateful generation: histories of constructor, derivative,
//! compile, emptiness and membership calls on one manager; every earlier
//! construction is issued again later and must yield the very same object.
use super::c01::{at_root, small_ops};
use crate::engine::*;
use crate::refdfa::*;
use crate::regen::*;
use crate::src::Src;
use crate::{ensure, fail};
use aws_smt_strings::regular_expressions::{sub_terms, ReManager, RegLan};
use aws_smt_strings::smt_regular_expressions as smt;
use std::collections::HashSet;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "A case is a history on one manager: constructor calls interleaved with derivatives, compilations, \
               emptiness, witness and membership calls, and earlier constructor calls issued again. Non-trivial: at \
               least one operator (non-leaf) call is issued again with at least one other call that can create terms \
               in between (polluted/exhaustive modes: the program has two operators and its manager held other terms \
               before). Distinct: different history.",
        assumptions: &[
            "pointer identity is demanded for constructor calls with the same arguments in the same order, not for derivatives",
            "terms whose derivative closure exceeds the walk limit are compared up to that limit (counted by label)",
        ],
        modes: vec![
            Mode::exh("exhaustive-2ops", exh2, 16),
            Mode::random("history", history, 30_000, 1_500_000, 1_500),
            Mode::random("polluted", polluted, 16_000, 800_000, 1_000),
            Mode::random("synonyms", synonyms, 12_000, 600_000, 800),
            Mode::random("many-classes", many_classes, 160, 6_000, 8),
            Mode::random("wrappers", wrappers, 8_000, 400_000, 1_000).thread(),
            Mode::random("big-history", big, 160, 6_000, 8),
            Mode::random("many-pairs", pairs, 400, 16_000, 20),
            Mode::exh("exhaustive-3ops", exh3, 256).thorough_only(),
        ],
    }
}

fn same(a: RegLan, b: RegLan) -> bool {
    std::ptr::eq(a, b)
}

/// Equality is identity over a set of terms; complement is a fixed-point free involution
fn check_identity(list: &[RegLan], mut comp: impl FnMut(RegLan) -> RegLan) -> R {
    for (i, a) in list.iter().enumerate() {
        for b in &list[i..] {
            ensure!(
                (*a == *b) == same(a, b),
                "terms {a} and {b} are {} objects but == is {}",
                if same(a, b) { "the same" } else { "different" },
                *a == *b
            );
            ensure!(
                (a.cmp(b) == std::cmp::Ordering::Equal) == same(a, b),
                "terms {a} and {b}: cmp is {:?}",
                a.cmp(b)
            );
            ensure!((*a == *b) == (*b == *a), "== is not symmetric on {a} and {b}");
        }
        let c = comp(a);
        ensure!(!same(a, c) && **a != *c, "complement({a}) is that very term");
        ensure!(c.nullable != a.nullable, "complement({a}) = {c} has the same nullable flag {}", a.nullable);
        let cc = comp(c);
        ensure!(
            same(cc, a) && **a == *cc,
            "complement(complement(e)) is another object than e, for e = {a}: {cc}"
        );
        let c2 = comp(a);
        ensure!(same(c, c2) && c == c2, "complement({a}) yields two different objects {c} and {c2}");
    }
    Ok(())
}

/// terms, their sub-terms and some derivatives, without repetition
fn collect(re: &mut ReManager, t: &[RegLan], cap: usize) -> Vec<RegLan> {
    let mut seen: HashSet<usize> = HashSet::new();
    let mut v: Vec<RegLan> = vec![];
    fn add(e: RegLan, v: &mut Vec<RegLan>, seen: &mut HashSet<usize>, cap: usize) {
        if v.len() < cap && seen.insert(e as *const _ as usize) {
            v.push(e);
        }
    }
    for e in t {
        add(e, &mut v, &mut seen, cap);
    }
    for e in t {
        for x in sub_terms(e).take(20) {
            add(x, &mut v, &mut seen, cap);
        }
        for cid in e.class_ids().take(6).collect::<Vec<_>>() {
            let x = re.class_derivative_unchecked(e, cid);
            add(x, &mut v, &mut seen, cap);
        }
    }
    v
}

fn check_again(re: &mut ReManager, p: &[Op], t: &[RegLan], i: usize) -> R {
    let e = apply(re, &p[i], t);
    if matches!(p[i], Op::Deriv(..)) {
        return Ok(());
    }
    ensure!(
        same(e, t[i]),
        "r{i} = {} issued again yields another object: first {}, now {} (== is {})",
        show_op(&p[i]),
        t[i],
        e,
        e == t[i]
    );
    ensure!(e == t[i], "r{i} = {} issued again yields the same object but == is false", show_op(&p[i]));
    Ok(())
}

fn check_language(re: &mut ReManager, e: RegLan, d: &Dfa, at: &Atoms, limit: usize, i: usize, ctx: &mut Ctx) -> R {
    let b = bisim(re, e, d, at, limit).map_err(|x| at_root(x, i))?;
    if !b.complete {
        ctx.label("walk limit reached");
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Act {
    /// run op number i for the first time
    New(usize),
    Again(usize),
    Compile(usize),
    IsEmpty(usize),
    GetString(usize),
    Member(usize, Vec<u32>),
    StartChar(usize, u32),
    StrDeriv(usize, Vec<u32>),
    Iter(usize, usize),
    Comp(usize),
    /// an unrelated construction on another manager
    Other(usize),
    Language(usize),
}

fn show_act(a: &Act, ops: &[Op]) -> String {
    match a {
        Act::New(i) => format!("r{i}={}", show_op(&ops[*i])),
        Act::Again(i) => format!("again r{i}"),
        Act::Compile(i) => format!("try_compile r{i}"),
        Act::IsEmpty(i) => format!("is_empty_re r{i}"),
        Act::GetString(i) => format!("get_string r{i}"),
        Act::Member(i, w) => format!("str_in_re({}, r{i})", show_word(w)),
        Act::StartChar(i, c) => format!("start_char(r{i},{})", show_char(*c)),
        Act::StrDeriv(i, w) => format!("str_derivative(r{i},{})", show_word(w)),
        Act::Iter(i, n) => format!("iter_derivatives(r{i}).take({n})"),
        Act::Comp(i) => format!("complement twice r{i}"),
        Act::Other(i) => format!("other manager: ops 0..={i}"),
        Act::Language(i) => format!("walk r{i}"),
    }
}

fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    let pool = gen_pool(s, 3);
    let atoms = pool_atoms(&pool);
    let mut cfg = CFG;
    cfg.max_ops = 30;
    let mut dfa: Vec<RDfa> = vec![];
    let mut acts: Vec<Act> = vec![];
    let mut g = Gen { s, cfg, pool: pool.clone(), ops: vec![] };
    let first = g.leaf();
    let push = |g: &mut Gen, dfa: &mut Vec<RDfa>, acts: &mut Vec<Act>, o: Op| {
        let o = match ref_dfa(&atoms, &o, dfa) {
            Ok(d) => {
                dfa.push(d);
                o
            }
            Err(Cap) => {
                dfa.push(std::rc::Rc::new(Dfa::eps(atoms.len())));
                Op::Eps
            }
        };
        acts.push(Act::New(g.ops.len()));
        g.ops.push(o);
    };
    push(&mut g, &mut dfa, &mut acts, first);
    let steps = 4 + g.s.us(32);
    for _ in 0..steps {
        let n = g.ops.len();
        let k = g.s.weighted(&[30, 10, 12, 14, 26, 3, 4, 4, 4, 3, 2, 6, 2, 3]);
        match k {
            0 => {
                let o = g.operator();
                push(&mut g, &mut dfa, &mut acts, o)
            }
            1 => {
                let o = g.leaf();
                push(&mut g, &mut dfa, &mut acts, o)
            }
            2 => {
                for o in g.template() {
                    push(&mut g, &mut dfa, &mut acts, o)
                }
            }
            3 => {
                let i = g.s.us(n);
                let a = g.s.us(atoms.len());
                let c = if g.s.us(2) == 0 { atoms.lo(a) } else { atoms.hi(a) };
                push(&mut g, &mut dfa, &mut acts, Op::Deriv(i, c))
            }
            4 => {
                let i = g.s.us(n);
                acts.push(Act::Again(i))
            }
            _ => {
                let i = g.s.us(n);
                let a = match k {
                    5 => Act::Compile(i),
                    6 => Act::IsEmpty(i),
                    7 => Act::GetString(i),
                    8 => Act::Member(i, gen_word(g.s, &atoms, &dfa[i], 4)),
                    9 => Act::StartChar(i, atoms.lo(g.s.us(atoms.len()))),
                    10 => Act::StrDeriv(i, gen_word(g.s, &atoms, &dfa[i], 3)),
                    11 => Act::Comp(i),
                    12 => Act::Iter(i, g.s.us(6)),
                    _ if g.s.us(2) == 0 => Act::Other(i),
                    _ => Act::Language(i),
                };
                acts.push(a)
            }
        }
    }
    let ops = g.ops;
    let order = s.below(1 << 20);
    let nontrivial = ops.iter().any(|o| !o.is_leaf() && !matches!(o, Op::Deriv(..))) && ops.len() >= 4;
    if !ctx.begin(hash_of(&(&ops, &acts)), nontrivial, || {
        acts.iter().map(|a| show_act(a, &ops)).collect::<Vec<_>>().join("; ")
    }) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let mut other = ReManager::new();
    let mut t: Vec<RegLan> = vec![];
    for a in &acts {
        ctx.label(match a {
            Act::New(i) if matches!(ops[*i], Op::Deriv(..)) => "derivative",
            Act::New(i) if ops[*i].is_leaf() => "new leaf",
            Act::New(_) => "new operator",
            Act::Again(_) => "again",
            Act::Comp(_) => "complement",
            Act::Other(_) => "other manager",
            _ => "query",
        });
        match a {
            Act::New(i) => {
                let e = apply(&mut re, &ops[*i], &t);
                t.push(e);
                ensure!(
                    e.nullable == dfa[*i].f[0],
                    "r{i} = {}: nullable flag of {e} is {} but epsilon is {} the language",
                    show_op(&ops[*i]),
                    e.nullable,
                    if dfa[*i].f[0] { "in" } else { "not in" }
                );
            }
            Act::Again(i) => check_again(&mut re, &ops, &t, *i)?,
            Act::Compile(i) => {
                re.try_compile(t[*i], 60);
            }
            Act::IsEmpty(i) => {
                if closure_at_most(&mut re, t[*i], 300) {
                    re.is_empty_re(t[*i]);
                }
            }
            Act::GetString(i) => {
                if closure_at_most(&mut re, t[*i], 300) {
                    re.get_string(t[*i]);
                }
            }
            Act::Member(i, w) => {
                let got = re.str_in_re(&sstr(w), t[*i]);
                let want = dfa[*i].accepts(&atoms, w);
                ensure!(got == want, "str_in_re({}, r{i}) = {got} for r{i} = {}", show_word(w), t[*i]);
            }
            Act::StartChar(i, c) => {
                if closure_at_most(&mut re, t[*i], 300) {
                    re.start_char(t[*i], *c);
                }
            }
            Act::StrDeriv(i, w) => {
                let e = re.str_derivative(t[*i], &sstr(w));
                let st = dfa[*i].run(&atoms, w);
                ensure!(e.nullable == dfa[*i].f[st], "str_derivative(r{i}, {}) = {e}: wrong nullable flag", show_word(w));
            }
            Act::Iter(i, n) => {
                re.iter_derivatives(t[*i]).take(*n).for_each(drop);
            }
            Act::Comp(i) => check_identity(&t[*i..=*i], |e| re.complement(e))?,
            Act::Other(i) => {
                if ops.len() > *i && ops[..=*i].len() <= t.len() {
                    build(&mut other, &ops[..=*i]);
                }
            }
            Act::Language(i) => check_language(&mut re, t[*i], &dfa[*i], &atoms, 150, *i, ctx)?,
        }
    }
    finish(&mut re, &ops, &t, order)?;
    for (i, e) in t.iter().enumerate() {
        check_language(&mut re, e, &dfa[i], &atoms, 150, i, ctx)?;
    }
    finish(&mut re, &ops, &t, order >> 7)
}

fn closure_at_most(re: &mut ReManager, e: RegLan, n: usize) -> bool {
    re.iter_derivatives(e).take(n + 1).count() <= n
}

/// issue every construction again, in some order, and check identities of everything around
fn finish(re: &mut ReManager, ops: &[Op], t: &[RegLan], order: u64) -> R {
    let n = ops.len();
    let start = order as usize % n;
    for k in 0..n {
        let i = if order & 1 == 0 { (start + k) % n } else { (start + n - k) % n };
        check_again(re, ops, t, i)?;
    }
    let all = collect(re, t, 120);
    check_identity(&all, |e| re.complement(e))?;
    for i in 0..n {
        check_again(re, ops, t, i)?;
    }
    Ok(())
}

/// The same program in a fresh manager and in a manager with a past, its calls in another order
fn run_polluted(before: &[Op], touch: u64, p: &Prog, perm: u64, ctx: &mut Ctx) -> R {
    let mut re = ReManager::new();
    let b = build(&mut re, before);
    for (i, e) in b.iter().enumerate() {
        match (touch >> (2 * (i % 30))) & 3 {
            1 => {
                re.try_compile(e, 20);
            }
            2 => {
                re.iter_derivatives(e).take(10).for_each(drop);
            }
            3 => {
                re.complement(e);
            }
            _ => (),
        }
    }
    // operands before users, otherwise in an order chosen by perm
    let n = p.ops.len();
    let mut done: Vec<Option<RegLan>> = vec![None; n];
    let mut x = perm;
    let dummy = re.empty();
    for _ in 0..n {
        let ready: Vec<usize> =
            (0..n).filter(|i| done[*i].is_none() && p.ops[*i].operands().iter().all(|j| done[*j].is_some())).collect();
        x = crate::src::mix(x);
        let i = if perm == 0 { *ready.last().unwrap() } else { ready[x as usize % ready.len()] };
        let t: Vec<RegLan> = done.iter().map(|e| e.unwrap_or(dummy)).collect();
        done[i] = Some(apply(&mut re, &p.ops[i], &t));
    }
    let t: Vec<RegLan> = done.into_iter().map(|e| e.unwrap()).collect();
    for (i, e) in t.iter().enumerate() {
        ensure!(
            e.nullable == p.dfa[i].f[0],
            "r{i} = {e}: nullable flag is {} but epsilon is {} the language (built in a manager with other terms)",
            e.nullable,
            if p.dfa[i].f[0] { "in" } else { "not in" }
        );
    }
    for r in &p.roots {
        check_language(&mut re, t[*r], &p.dfa[*r], &p.atoms, 300, *r, ctx)?;
    }
    finish(&mut re, &p.ops, &t, perm >> 3)?;
    for (i, o) in before.iter().enumerate() {
        let _ = o;
        check_again(&mut re, before, &b, i)?;
    }
    Ok(())
}

fn exh(s: &mut Src, ctx: &mut Ctx, k: usize) -> R {
    let ops = small_ops(s, k);
    let h = s.us(4);
    if !ctx.begin(hash_of(&(&ops, h)), true, || format!("history {h}; {}", show_prog(&ops))) {
        return Ok(());
    }
    let Ok(p) = prog_of(ops, vec![97, 98]) else { return Err(Stop::Discard("reference cap")) };
    let (a, b) = (97, 98);
    let before: Vec<Op> = match h {
        0 => vec![],
        // b before a, complements early
        1 => vec![Op::Char(b), Op::Char(a), Op::Comp(0), Op::Range(a, b), Op::Str(vec![a, b])],
        // larger terms over the same letters first: their leaves get ids in another order
        2 => vec![
            Op::Str(vec![b, a]),
            Op::Star(0),
            Op::Range(a, b),
            Op::Comp(2),
            Op::Union(1, 3),
            Op::Str(vec![a, b]),
            Op::Plus(5),
            Op::Inter(4, 6),
            Op::AllChar,
            Op::Concat(8, 1),
        ],
        // other letters first, and everything the program needs in reverse
        _ => vec![
            Op::Range(a, b + 3),
            Op::Loop(0, 2, Some(3)),
            Op::All,
            Op::Concat(2, 1),
            Op::Comp(3),
            Op::Char(b),
            Op::Concat(5, 2),
            Op::Inter(4, 6),
            Op::Char(a),
            Op::Star(8),
        ],
    };
    run_polluted(&before, [0, 0x2222, 0x6d2a5, 0x99999][h], &p, h as u64, ctx)
}
fn exh2(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 2)
}
fn exh3(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 3)
}

fn polluted(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 7;
    let p = gen_prog(s, cfg);
    // the past: over the same characters, and sometimes exactly parts of the program
    let mut before = if s.us(3) == 0 {
        let k = s.us(p.ops.len()) + 1;
        p.ops[..k].to_vec()
    } else {
        vec![]
    };
    let mut g = Gen { s, cfg, pool: p.pool.clone(), ops: before };
    if g.ops.is_empty() {
        let l = g.leaf();
        g.ops.push(l);
    }
    let mut budget = 8;
    for _ in 0..1 + g.s.us(8) {
        let v = match g.s.us(3) {
            0 => vec![g.leaf()],
            1 => vec![g.operator()],
            _ => g.template(),
        };
        for o in v {
            let o = match &o {
                // keep the past small
                Op::Loop(..) | Op::Exp(..) | Op::SmtLoop(..) if budget == 0 => Op::Eps,
                Op::Loop(..) | Op::Exp(..) | Op::SmtLoop(..) => {
                    budget -= 1;
                    o
                }
                _ => o,
            };
            g.ops.push(o);
        }
    }
    before = g.ops;
    let touch = s.below(1 << 60);
    let perm = s.below(1 << 30);
    if !ctx.begin(hash_of(&(&p.ops, &before, touch, perm)), p.nontrivial() && before.len() >= 2, || {
        format!("before: {} | then: {}", show_prog(&before), p.show())
    }) {
        return Ok(());
    }
    run_polluted(&before, touch, &p, perm, ctx)
}

/// a program that writes one language in several ways; the past is another such program
fn synonyms(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_syn(s);
    let mut before = match s.us(3) {
        0 => vec![],
        1 => {
            let k = s.us(p.ops.len()) + 1;
            p.ops[..k].to_vec()
        }
        _ => {
            // the same program with some operands exchanged: other languages, same operators
            let mut v = p.ops.clone();
            for (i, o) in v.iter_mut().enumerate() {
                if i > 0 && s.us(4) == 0 {
                    match o {
                        Op::Concat(x, y) | Op::Union(x, y) | Op::Inter(x, y) | Op::Diff(x, y) => std::mem::swap(x, y),
                        Op::Comp(x) | Op::Star(x) | Op::Opt(x) | Op::Plus(x) => *x = s.us(i),
                        _ => (),
                    }
                }
            }
            v
        }
    };
    if before.is_empty() {
        before.push(Op::Eps);
    }
    let touch = s.below(1 << 60);
    let perm = s.below(1 << 30);
    if !ctx.begin(hash_of(&(&p.ops, &before, touch, perm)), p.nontrivial() && before.len() >= 2, || {
        format!("before: {} | then: {}", show_prog(&before), p.show())
    }) {
        return Ok(());
    }
    run_polluted(&before, touch, &p, perm, ctx)
}

/// terms with hundreds of derivative classes, with and without a past
fn many_classes(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut p = gen_many_classes(s);
    // the complement of the result is explored too, before or after it
    let n = p.ops.len();
    let mut b = Builder { ops: p.ops, pool: p.pool, atoms: p.atoms, dfa: p.dfa };
    let c = b.push(Op::Comp(n - 1));
    p = b.prog();
    p.roots = vec![n - 1];
    p.roots.extend(c);
    if s.us(2) == 0 {
        p.roots.reverse();
    }
    let before = if s.us(2) == 0 { p.ops[..1 + s.us(n)].to_vec() } else { vec![Op::Eps] };
    let touch = s.below(1 << 60);
    let perm = s.below(1 << 30);
    if !ctx.begin(hash_of(&(&p.ops, before.len(), touch, perm)), true, || {
        format!("before: the first {} calls | then: {}", before.len(), p.show())
    }) {
        return Ok(());
    }
    run_polluted(&before, touch, &p, perm, ctx)
}

/// The thread-local manager of the SMT-LIB named functions
fn wrappers(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 7;
    let p = gen_prog(s, cfg);
    let rounds = s.us(3);
    let mut past: Vec<Vec<Op>> = vec![];
    for _ in 0..rounds {
        let mut c = cfg;
        c.max_ops = 4;
        c.pool = 2;
        past.push(gen_prog(s, c).ops);
    }
    let mut ws: Vec<(usize, Vec<u32>)> = vec![];
    for _ in 0..8 {
        let i = s.us(p.ops.len());
        ws.push((i, gen_word(s, &p.atoms, &p.dfa[i], 5)));
    }
    let cut = s.us(p.ops.len());
    let start = s.us(p.ops.len());
    if !ctx.begin(hash_of(&(&p.ops, &past, &ws, cut, start)), p.nontrivial(), || {
        let b: Vec<String> = past.iter().map(|x| show_prog(x)).collect();
        format!("before: {} | then: {}", b.join(" | "), p.show())
    }) {
        return Ok(());
    }
    let mut old: Vec<Vec<RegLan>> = past.iter().map(|x| build_smt(x)).collect();
    let mut t: Vec<RegLan> = vec![];
    for (i, o) in p.ops.iter().enumerate() {
        if i == cut {
            // more unrelated terms in the middle
            for x in past.iter().rev() {
                old.push(build_smt(x));
            }
        }
        let e = apply_smt(o, &t);
        t.push(e);
        ensure!(
            e.nullable == p.dfa[i].f[0],
            "r{i} = {e}: nullable flag is {} (SMT-LIB named functions)",
            e.nullable
        );
    }
    let again = |k: usize| -> R {
        let n = p.ops.len();
        for j in 0..n {
            let i = (k + j) % n;
            let e = apply_smt(&p.ops[i], &t);
            ensure!(
                same(e, t[i]) && e == t[i],
                "r{i} = {} issued again with the SMT-LIB named functions yields another object: first {}, now {e}",
                show_op(&p.ops[i]),
                t[i]
            );
        }
        Ok(())
    };
    again(0)?;
    for (i, w) in &ws {
        let got = smt::str_in_re(&sstr(w), t[*i]);
        let want = p.dfa[*i].accepts(&p.atoms, w);
        ensure!(got == want, "str_in_re({}, r{i}) = {got} for r{i} = {}", show_word(w), t[*i]);
    }
    again(start)?;
    for (x, v) in past.iter().zip(&old) {
        let w = build_smt(x);
        for (i, (a, b)) in v.iter().zip(&w).enumerate() {
            ensure!(same(a, b), "{} of the earlier program {} issued again yields another object", show_op(&x[i]), show_prog(x));
        }
    }
    let mut all = t.clone();
    for v in &old {
        all.extend(v);
    }
    for e in &t {
        all.extend(sub_terms(e).take(10));
    }
    all.truncate(120);
    check_identity(&all, smt::re_comp)?;
    for (i, w) in &ws {
        let c = smt::re_comp(t[*i]);
        let got = smt::str_in_re(&sstr(w), c);
        let want = !p.dfa[*i].accepts(&p.atoms, w);
        ensure!(got == want, "str_in_re({}, re_comp(r{i})) = {got} for r{i} = {}", show_word(w), t[*i]);
    }
    Ok(())
}

/// A manager that already holds very many terms
fn big(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 10;
    let p = gen_prog(s, cfg);
    let q = gen_prog(s, cfg);
    let style = s.us(4);
    let count = *s.pick(&[100usize, 1_000, 10_000, 33_000, 70_000]);
    let from = *s.pick(&[0u32, 0x61, 0x1000, 0x2fff0]);
    let perm = s.below(1 << 30);
    if !ctx.begin(hash_of(&(&p.ops, &q.ops, style, count, from, perm)), p.nontrivial(), || {
        format!("{} | {count} terms of style {style} from {from:x} | {}", q.show(), p.show())
    }) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let early = build(&mut re, &q.ops);
    for r in &q.roots {
        re.iter_derivatives(early[*r]).take(20).for_each(drop);
    }
    let base = re.char(0x62);
    let base2 = re.plus(base);
    let mut filler: Vec<RegLan> = Vec::with_capacity(count);
    let make = |re: &mut ReManager, i: usize, prev: RegLan| -> RegLan {
        let c = (from + i as u32 * 3) % (MAXC + 1);
        match style {
            0 => re.char(c),
            1 => {
                let n = i as u32;
                re.smt_loop(base, n / 300 + 2, n / 300 + 2 + n % 300)
            }
            2 => {
                let x = re.char(c);
                re.concat(x, base2)
            }
            _ => {
                let x = re.char(c % 997);
                if i % 50 == 0 {
                    re.concat(x, base)
                } else {
                    re.concat(x, prev)
                }
            }
        }
    };
    let mut prev = base;
    for i in 0..count {
        prev = make(&mut re, i, prev);
        filler.push(prev);
    }
    let t = build(&mut re, &p.ops);
    for r in &p.roots {
        check_language(&mut re, t[*r], &p.dfa[*r], &p.atoms, 300, *r, ctx)?;
    }
    for r in &q.roots {
        check_language(&mut re, early[*r], &q.dfa[*r], &q.atoms, 300, *r, ctx)?;
    }
    finish(&mut re, &p.ops, &t, perm)?;
    finish(&mut re, &q.ops, &early, perm >> 3)?;
    let mut prev = base;
    for (i, f) in filler.iter().enumerate() {
        let e = make(&mut re, i, prev);
        ensure!(
            same(e, f) && e == *f,
            "construction {i} of {count} (style {style}) issued again yields another object: first {f}, now {e}"
        );
        prev = e;
    }
    // pairwise different constructions denote different terms: equality must see it
    for k in [1usize, 2, 3, 127, 128, 255, 256, 257, 299, 300, 512, 997, 1024, 4095, 4096, 16384, 32767, 32768, 65535, 65536] {
        for i in 0..filler.len().saturating_sub(k) {
            let (x, y) = (filler[i], filler[i + k]);
            if (x == y) != same(x, y) {
                fail!(
                    "constructions {i} and {} of {count} (style {style}): {x} and {y} are {} objects but == is {}",
                    i + k,
                    if same(x, y) { "the same" } else { "different" },
                    x == y
                );
            }
        }
    }
    // and they have the language they were built for
    for (i, f) in filler.iter().enumerate() {
        let c = (from + i as u32 * 3) % (MAXC + 1);
        let other = if c == 0 { 1 } else { c - 1 };
        let ok = match style {
            0 => re.str_in_re(&sstr(&[c]), f) && !re.str_in_re(&sstr(&[other]), f) && !f.nullable,
            1 if i % 64 == 0 => {
                let n = i as u32;
                let (lo, hi) = ((n / 300 + 2) as usize, (n / 300 + 2 + n % 300) as usize);
                let b = |k: usize| sstr(&vec![0x62; k]);
                re.str_in_re(&b(lo), f) && re.str_in_re(&b(hi), f) && !re.str_in_re(&b(lo - 1), f) && !re.str_in_re(&b(hi + 1), f)
            }
            2 => re.str_in_re(&sstr(&[c, 0x62]), f) && !re.str_in_re(&sstr(&[other, 0x62]), f),
            _ => true,
        };
        ensure!(ok, "construction {i} of {count} (style {style}, from {from:x}) has the wrong language: {f}");
    }
    let mut seen = HashSet::new();
    let distinct = filler.iter().filter(|e| seen.insert(**e as *const _ as usize)).count();
    let mut hs: HashSet<RegLan> = HashSet::new();
    let by_eq = filler.iter().filter(|e| hs.insert(e)).count();
    ensure!(distinct == by_eq, "{count} terms: {distinct} objects but {by_eq} classes under ==");
    let mut sorted = filler.clone();
    sorted.sort();
    for w in sorted.windows(2) {
        ensure!((w[0] == w[1]) == same(w[0], w[1]), "terms {} and {}: == is {} ", w[0], w[1], w[0] == w[1]);
    }
    ctx.count("filler terms", distinct as u64);
    let some: Vec<RegLan> = (0..60).map(|k| filler[k * filler.len() / 60]).chain(t.iter().copied()).collect();
    check_identity(&some, |e| re.complement(e))
}

/// Very many applications of one binary operator: every pair of operands must keep its own result
fn pairs(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = *s.pick(&[40usize, 300, 2_000, 5_000, 9_000]);
    let style = s.us(4);
    let kind = s.us(7);
    let from = *s.pick(&[0x63u32, 0x100, 0x1000, 0xff00, 0x20000]);
    let step = 1 + s.us(3) as u32;
    let max = if ctx.tier == Tier::Quick { 24_000 } else { 90_000 };
    let dists: Vec<usize> = (0..1 + s.us(6))
        .map(|_| match s.us(4) {
            0 => s.us(n),
            1 => s.us(4),
            2 => (1usize << s.us(14)) - s.us(2),
            _ => (1usize << s.us(14)) + s.us(2),
        })
        .map(|d| d % n)
        .collect();
    let rev = s.us(2) == 1;
    if !ctx.begin(hash_of(&(n, style, kind, from, step, &dists, rev)), true, || {
        format!("{n} operands of style {style}, operator {kind}, first character {from:x} step {step}, distances {dists:?}")
    }) {
        return Ok(());
    }
    let c = |i: usize| from + step * (i % n) as u32;
    let mut re = ReManager::new();
    let f = re.char(0x62);
    let t: Vec<RegLan> = (0..n)
        .map(|i| {
            let x = re.char(c(i));
            match style {
                0 => re.concat(x, f),
                1 => re.star(x),
                2 => re.exp(x, 2),
                _ => {
                    let y = re.char(c(i + 1));
                    re.concat(x, y)
                }
            }
        })
        .collect();
    let word = |i: usize| match style {
        0 => vec![c(i), 0x62],
        1 => vec![c(i)],
        2 => vec![c(i); 2],
        _ => vec![c(i), c(i + 1)],
    };
    let name = ["union", "inter", "diff", "concat", "inter of complements", "union of complements", "union_list"][kind];
    let make = |re: &mut ReManager, i: usize, j: usize| -> RegLan {
        let (x, y) = (t[i], t[j]);
        match kind {
            0 => re.union(x, y),
            1 => re.inter(x, y),
            2 => re.diff(x, y),
            3 => re.concat(x, y),
            4 | 5 => {
                let (x, y) = (re.complement(x), re.complement(y));
                if kind == 4 {
                    re.inter(x, y)
                } else {
                    re.union(x, y)
                }
            }
            _ => re.union_list([x, y, f]),
        }
    };
    let mut list: Vec<(usize, usize)> = vec![];
    'fill: for d in &dists {
        for i in 0..n {
            if list.len() >= max {
                break 'fill;
            }
            let j = (i + d) % n;
            list.push(if rev { (j, i) } else { (i, j) });
        }
    }
    let made: Vec<RegLan> = list.iter().map(|(i, j)| make(&mut re, *i, *j)).collect();
    ctx.count("operator applications", made.len() as u64);
    for (k, (i, j)) in list.iter().enumerate() {
        let e = make(&mut re, *i, *j);
        ensure!(
            same(e, made[k]) && e == made[k],
            "{name}({}, {}) issued again after {} others yields another object: first {}, now {e}",
            t[*i],
            t[*j],
            list.len(),
            made[k]
        );
    }
    for (k, (i, j)) in list.iter().enumerate() {
        let e = made[k];
        let (u, v) = (word(*i), word(*j));
        let eq = i == j;
        let want = match kind {
            0 | 6 => (true, true),
            1 => (eq, eq),
            2 => (!eq, false),
            3 => (style == 1, style == 1),
            4 => (false, false),
            _ => (!eq, !eq),
        };
        let got = (re.str_in_re(&sstr(&u), e), re.str_in_re(&sstr(&v), e));
        ensure!(
            got == want,
            "{name}({}, {}) = {e}: membership of {} and {} is {got:?}, expected {want:?}",
            t[*i],
            t[*j],
            show_word(&u),
            show_word(&v)
        );
        if kind == 3 {
            let uv = [&u[..], &v[..]].concat();
            let vu = [&v[..], &u[..]].concat();
            let got = (re.str_in_re(&sstr(&uv), e), re.str_in_re(&sstr(&vu), e));
            ensure!(got == (true, eq), "concat({}, {}) = {e}: membership of {} and its reverse is {got:?}", t[*i], t[*j], show_word(&uv));
        }
        if kind == 6 {
            ensure!(re.str_in_re(&sstr(&[0x62]), e), "union_list({}, {}, b) = {e} misses b", t[*i], t[*j]);
        }
    }
    let mut seen = HashSet::new();
    let objects: Vec<RegLan> = made.iter().copied().filter(|e| seen.insert(*e as *const _ as usize)).collect();
    let mut hs: HashSet<RegLan> = HashSet::new();
    let by_eq = objects.iter().filter(|e| hs.insert(e)).count();
    ensure!(objects.len() == by_eq, "{} objects but {by_eq} classes under ==", objects.len());
    let mut sorted = objects.clone();
    sorted.sort();
    for w in sorted.windows(2) {
        ensure!(w[0] != w[1], "distinct objects {} and {} are equal", w[0], w[1]);
    }
    let some: Vec<RegLan> = (0..40).map(|k| made[k * made.len() / 40]).collect();
    check_identity(&some, |e| re.complement(e))
}
