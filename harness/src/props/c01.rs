//! C01: membership equals the SMT-LIB denotation of the construction.
use crate::engine::*;
use crate::refdfa::*;
use crate::regen::*;
use crate::src::Src;
use crate::{ensure, fail};
use aws_smt_strings::regular_expressions::{ReManager, RegLan};
use aws_smt_strings::smt_regular_expressions as smt;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "A case is a construction program (straight-line sequence of constructor calls with sharing). It is \
               non-trivial if at least one of its result terms uses two or more operators and denotes a language \
               other than none, all and {epsilon} (span/unary modes: at least one checked word is in and one is out of \
               the language of an operator term). Distinct: different sequence of calls.",
        assumptions: &[
            "terms whose derivative closure exceeds the walk limit are compared up to that limit (counted by label)",
            "loop bounds are kept below the documented u32 overflow panics",
        ],
        modes: vec![
            Mode::exh("exhaustive-2ops", exh2, 16),
            Mode::random("random-dfa", random_dfa, 60_000, 3_000_000, 3_000),
            Mode::random("wrappers", wrappers, 15_000, 600_000, 1_500).thread(),
            Mode::random("spans", span_mode, 60_000, 3_000_000, 4_000),
            Mode::random("wide", wide, 30_000, 1_500_000, 1_000),
            Mode::random("synonyms", synonyms, 24_000, 1_200_000, 1_000),
            Mode::random("deep", deep, 1_600, 80_000, 50),
            Mode::random("huge", huge, 240, 6_000, 6),
            Mode::random("beyond-16-bits", beyond16, 16, 400, 1),
            Mode::random("many-classes", many_classes, 160, 6_000, 8),
            Mode::random("unary", unary, 16_000, 800_000, 1_000),
            Mode::exh("exhaustive-3ops", exh3, 256).thorough_only(),
        ],
    }
}

const A: u32 = 97;

/// leaves of the exhaustive small world
pub fn small_leaf(s: &mut Src) -> Op {
    match s.us(9) {
        0 => Op::Char(A),
        1 => Op::Char(A + 1),
        2 => Op::Range(A, A + 1),
        3 => Op::AllChar,
        4 => Op::All,
        5 => Op::Eps,
        6 => Op::Empty,
        7 => Op::SigmaPlus,
        _ => Op::Str(vec![A, A + 1]),
    }
}
/// an operation on terms 0..n that uses term n-1
pub fn small_op(s: &mut Src, n: usize) -> Op {
    let u = 12;
    let b = 2 * n - 1;
    let i = s.us(u + 4 * b);
    let x = n - 1;
    if i < u {
        return match i {
            0 => Op::Comp(x),
            1 => Op::Star(x),
            2 => Op::Plus(x),
            3 => Op::Opt(x),
            4 => Op::Exp(x, 0),
            5 => Op::Exp(x, 2),
            6 => Op::SmtLoop(x, 1, 2),
            7 => Op::SmtLoop(x, 2, 1),
            8 => Op::Loop(x, 0, Some(2)),
            9 => Op::Loop(x, 2, Some(3)),
            10 => Op::Loop(x, 2, None),
            _ => Op::Loop(x, 0, Some(0)),
        };
    }
    let (k, p) = ((i - u) / b, (i - u) % b);
    let (l, r) = if p < n { (p, x) } else { (x, p - n) };
    match k {
        0 => Op::Concat(l, r),
        1 => Op::Union(l, r),
        2 => Op::Inter(l, r),
        _ => Op::Diff(l, r),
    }
}
pub fn small_ops(s: &mut Src, k: usize) -> Vec<Op> {
    let mut v = vec![small_leaf(s), small_leaf(s)];
    for _ in 0..k {
        let o = small_op(s, v.len());
        v.push(o);
    }
    v
}

fn exh(s: &mut Src, ctx: &mut Ctx, k: usize) -> R {
    let ops = small_ops(s, k);
    // reference evaluation only for the cases of this process
    if !ctx.begin(hash_of(&ops), true, || show_prog(&ops)) {
        return Ok(());
    }
    let Ok(p) = prog_of(ops, vec![A, A + 1]) else { return Err(Stop::Discard("reference cap")) };
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    check_terms(&mut re, &p, &t, 2000, ctx)?;
    Ok(())
}
fn exh2(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 2)
}
fn exh3(s: &mut Src, ctx: &mut Ctx) -> R {
    exh(s, ctx, 3)
}

fn check_terms(re: &mut ReManager, p: &Prog, t: &[RegLan], limit: usize, ctx: &mut Ctx) -> R {
    for (i, e) in t.iter().enumerate() {
        ensure!(
            e.nullable == p.dfa[i].f[0],
            "r{i} = {}: nullable flag is {} but epsilon is {} the language",
            e,
            e.nullable,
            if p.dfa[i].f[0] { "in" } else { "not in" }
        );
    }
    for r in &p.roots {
        let b = bisim(re, t[*r], &p.dfa[*r], &p.atoms, limit).map_err(|x| at_root(x, *r))?;
        if !b.complete {
            ctx.label("walk limit reached");
        }
        ctx.count("pairs walked", b.pairs as u64);
    }
    Ok(())
}

pub fn at_root(x: Stop, r: usize) -> Stop {
    match x {
        Stop::Fail(m) => Stop::Fail(format!("r{r}: {m}")),
        d => d,
    }
}

fn words(s: &mut Src, p: &Prog, n: usize) -> Vec<(usize, Vec<u32>)> {
    (0..n)
        .map(|_| {
            let r = *s.pick(&p.roots);
            (r, gen_word(s, &p.atoms, &p.dfa[r], 7))
        })
        .collect()
}

fn check_words(p: &Prog, ws: &[(usize, Vec<u32>)], ctx: &mut Ctx, mut member: impl FnMut(usize, &[u32]) -> bool) -> R {
    for (r, w) in ws {
        let want = p.dfa[*r].accepts(&p.atoms, w);
        // the two reference semantics must agree
        let m = spans(&p.ops, w);
        assert_eq!(span_member(&m[*r]), want, "harness: reference semantics disagree");
        let got = member(*r, w);
        ensure!(
            got == want,
            "str_in_re({}, r{r}) = {got}, but the string is {}in the language",
            show_word(w),
            if want { "" } else { "not " }
        );
        ctx.label(if want { "word in" } else { "word out" });
    }
    Ok(())
}

fn random_dfa(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 4 + s.us(8);
    let p = gen_prog(s, cfg);
    let ws = words(s, &p, 6);
    if !ctx.begin(p.hash(), p.nontrivial(), || p.show()) {
        return Ok(());
    }
    label_ops(ctx, &p.ops);
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    check_terms(&mut re, &p, &t, 400, ctx)?;
    check_words(&p, &ws, ctx, |r, w| re.str_in_re(&sstr(w), t[r]))
}

/// dozens of alternatives and character classes
/// one language written in several ways, and combined with itself
fn synonyms(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_syn(s);
    let ws = words(s, &p, 4);
    if !ctx.begin(p.hash(), p.nontrivial(), || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for i in (0..t.len()).filter(|i| !p.roots.contains(i)) {
        bisim(&mut re, t[i], &p.dfa[i], &p.atoms, 40).map_err(|x| at_root(x, i))?;
    }
    check_terms(&mut re, &p, &t, 300, ctx)?;
    check_words(&p, &ws, ctx, |r, w| re.str_in_re(&sstr(w), t[r]))
}

fn wide(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_wide(s);
    let ws = words(s, &p, 4);
    if !ctx.begin(p.hash(), p.nontrivial(), || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    check_terms(&mut re, &p, &t, 150, ctx)?;
    check_words(&p, &ws, ctx, |r, w| re.str_in_re(&sstr(w), t[r]))
}

/// hundreds of states, strings of hundreds of characters
/// thousands of residuals
fn huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let max = huge_size(s, if ctx.tier == Tier::Quick { 20_000 } else { 66_000 });
    let p = gen_huge(s, max);
    huge_prog(s, ctx, p, max)
}
/// more than 65536 of them
fn beyond16(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_beyond(s);
    huge_prog(s, ctx, p, BEYOND)
}
/// hundreds of derivative classes
fn many_classes(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_many_classes(s);
    huge_prog(s, ctx, p, BEYOND)
}
fn huge_prog(s: &mut Src, ctx: &mut Ctx, p: Prog, max: usize) -> R {
    let r = p.roots[0];
    let ws: Vec<Vec<u32>> = (0..3).map(|_| long_word(s, &p.atoms, &p.dfa[r], max + 10)).collect();
    if !ctx.begin(p.hash(), p.nontrivial(), || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !huge_fits(&p, max) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    for w in &ws {
        let want = p.dfa[r].accepts(&p.atoms, w);
        let got = re.str_in_re(&sstr(w), t[r]);
        ensure!(got == want, "str_in_re({}, r{r}) = {got}, expected {want}", show_word(w));
        ctx.label(if want { "long word in" } else { "long word out" });
    }
    check_terms(&mut re, &p, &t, 10 * max, ctx)
}
fn deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_deep(s, 300);
    let ws: Vec<(usize, Vec<u32>)> = (0..4)
        .map(|_| {
            let r = *s.pick(&p.roots);
            let n = 2 * p.dfa[r].n() + 10;
            (r, gen_word(s, &p.atoms, &p.dfa[r], n.min(700)))
        })
        .collect();
    if !ctx.begin(p.hash(), p.nontrivial(), || p.show()) {
        return Ok(());
    }
    label_sizes(ctx, &p);
    if !light_prog(&p, 4000, HEAVY) {
        return Err(Stop::Discard("heavy derivatives"));
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    check_terms(&mut re, &p, &t, 4000, ctx)?;
    for (r, w) in &ws {
        let want = p.dfa[*r].accepts(&p.atoms, w);
        let got = re.str_in_re(&sstr(w), t[*r]);
        ensure!(got == want, "str_in_re({}, r{r}) = {got}, expected {want}", show_word(w));
        ctx.label(if want { "long word in" } else { "long word out" });
    }
    Ok(())
}

fn wrappers(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 7;
    let p = gen_prog(s, cfg);
    let mut ws = words(s, &p, 10);
    let r = p.last();
    for a in 0..p.atoms.len() {
        ws.push((r, vec![p.atoms.lo(a)]));
    }
    ws.push((r, vec![]));
    if !ctx.begin(p.hash(), p.nontrivial(), || p.show()) {
        return Ok(());
    }
    let t = build_smt(&p.ops);
    for (i, e) in t.iter().enumerate() {
        ensure!(
            e.nullable == p.dfa[i].f[0],
            "r{i} = {}: nullable flag is {} (SMT-LIB named wrappers)",
            e,
            e.nullable
        );
    }
    check_words(&p, &ws, ctx, |r, w| smt::str_in_re(&sstr(w), t[r]))
}

/// Large and nested loop bounds, deeper programs: membership of short words
/// decided by span matrices.
fn span_mode(s: &mut Src, ctx: &mut Ctx) -> R {
    let pool = gen_pool(s, 3);
    let mut cfg = CFG;
    cfg.max_ops = 14;
    cfg.str_len = 6;
    cfg.loop_max = *s.pick(&[3u32, 8, 40, 1000, 1 << 20, 1 << 31]);
    let mut weight: Vec<u64> = vec![];
    let ops = gen_ops(s, cfg, pool.clone(), |_, o| {
        let w = match o {
            Op::Exp(a, k) => weight[*a].saturating_mul(*k as u64 + 1),
            Op::SmtLoop(a, i, j) => weight[*a].saturating_mul((*i).max(*j) as u64 + 1),
            Op::Loop(a, i, j) => weight[*a].saturating_mul(j.unwrap_or(*i).max(*i) as u64 + 1),
            Op::Str(w) => 1 + w.len() as u64,
            o => 1 + o.operands().iter().map(|i| weight[*i]).sum::<u64>(),
        };
        if w > u32::MAX as u64 {
            return false;
        }
        weight.push(w);
        true
    });
    let rs = roots(&ops);
    let nw = 8;
    let mut ws = vec![];
    for _ in 0..nw {
        let n = s.us(8);
        let mut w = vec![];
        for _ in 0..n {
            w.push(match s.us(8) {
                7 => s.pick(&pool).saturating_add(1).min(MAXC),
                6 => s.pick(&pool).saturating_sub(1),
                _ => *s.pick(&pool),
            });
        }
        ws.push(w);
    }
    let mats: Vec<Vec<Mat>> = ws.iter().map(|w| spans(&ops, w)).collect();
    let nontrivial = rs.iter().any(|r| {
        !ops[*r].is_leaf() && mats.iter().any(|m| span_member(&m[*r])) && mats.iter().any(|m| !span_member(&m[*r]))
    });
    if !ctx.begin(hash_of(&(&ops, &ws)), nontrivial, || show_prog(&ops)) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &ops);
    for (w, m) in ws.iter().zip(&mats) {
        for r in 0..ops.len() {
            let want = span_member(&m[r]);
            let got = re.str_in_re(&sstr(w), t[r]);
            ensure!(
                got == want,
                "str_in_re({}, r{r}) = {got} where r{r} is built as {}, but the string is {}in the language",
                show_word(w),
                t[r],
                if want { "" } else { "not " }
            );
            if w.is_empty() {
                ensure!(t[r].nullable == want, "nullable flag of r{r} = {} is {}", t[r], t[r].nullable);
            }
        }
    }
    Ok(())
}

/// One-letter languages: a language is the set of its string lengths, truncated.
fn unary(s: &mut Src, ctx: &mut Ctx) -> R {
    const N: usize = 256;
    type B = [u64; N / 64];
    fn get(b: &B, i: usize) -> bool {
        b[i / 64] >> (i % 64) & 1 == 1
    }
    fn set(b: &mut B, i: usize) {
        b[i / 64] |= 1 << (i % 64)
    }
    fn shl(b: &B, k: usize) -> B {
        let mut r = [0; N / 64];
        let (q, m) = (k / 64, k % 64);
        for i in (q..N / 64).rev() {
            r[i] = b[i - q] << m;
            if m > 0 && i > q {
                r[i] |= b[i - q - 1] >> (64 - m);
            }
        }
        r
    }
    fn zip(a: &B, b: &B, f: impl Fn(u64, u64) -> u64) -> B {
        let mut r = [0; N / 64];
        for i in 0..N / 64 {
            r[i] = f(a[i], b[i]);
        }
        r
    }
    fn sum(a: &B, b: &B) -> B {
        let mut r = [0; N / 64];
        for i in 0..N {
            if get(a, i) {
                r = zip(&r, &shl(b, i), |x, y| x | y);
            }
        }
        r
    }
    fn pow(a: &B, mut e: u64) -> B {
        let mut r = [0; N / 64];
        set(&mut r, 0);
        let mut b = *a;
        while e > 0 {
            if e & 1 == 1 {
                r = sum(&r, &b);
            }
            e >>= 1;
            if e > 0 {
                b = sum(&b, &b);
            }
        }
        r
    }
    fn rep(a: &B, i: u32, j: Option<u32>) -> B {
        let mut o = *a;
        set(&mut o, 0);
        match j {
            None => sum(&pow(a, i as u64), &pow(&o, N as u64)),
            Some(j) if j < i => [0; N / 64],
            Some(j) => sum(&pow(a, i as u64), &pow(&o, (j - i) as u64)),
        }
    }
    let big = *s.pick(&[3u32, 5, 8, 12, 20, 20, 70, 130]);
    let nops = 1 + s.us(7);
    let leaf = match s.us(3) {
        0 => Op::AllChar,
        1 => Op::Char(A),
        _ => Op::Range(A, A + 2),
    };
    let mut ops = vec![leaf];
    let mut sem: Vec<B> = vec![[2, 0, 0, 0]];
    for _ in 0..nops {
        let n = ops.len();
        let x = n - 1 - s.us(n).min(s.us(n));
        let y = n - 1 - s.us(n);
        // complement is taken inside a^*
        let o = match s.weighted(&[8, 6, 4, 2, 2, 2, 2, 2]) {
            0 => {
                let (i, j) = gen_loop_bounds(s, big);
                Op::Loop(x, i, j)
            }
            1 => Op::Concat(x, y),
            2 => Op::Union(x, y),
            3 => Op::Opt(x),
            4 => Op::Exp(x, s.range32(0, big)),
            5 => Op::Inter(x, y),
            6 => Op::Diff(x, y),
            _ => Op::Plus(x),
        };
        let b = match &o {
            Op::Loop(x, i, j) => rep(&sem[*x], *i, *j),
            Op::Concat(x, y) => sum(&sem[*x], &sem[*y]),
            Op::Union(x, y) => zip(&sem[*x], &sem[*y], |p, q| p | q),
            Op::Inter(x, y) => zip(&sem[*x], &sem[*y], |p, q| p & q),
            Op::Diff(x, y) => zip(&sem[*x], &sem[*y], |p, q| p & !q),
            Op::Opt(x) => rep(&sem[*x], 0, Some(1)),
            Op::Plus(x) => rep(&sem[*x], 1, None),
            Op::Exp(x, k) => rep(&sem[*x], *k, Some(*k)),
            _ => unreachable!(),
        };
        ops.push(o);
        sem.push(b);
    }
    let rs = roots(&ops);
    let nontrivial = rs.iter().any(|r| {
        let c: u32 = sem[*r].iter().map(|x| x.count_ones()).sum();
        !ops[*r].is_leaf() && c > 0 && (c as usize) < N
    });
    if !ctx.begin(hash_of(&ops), nontrivial, || show_prog(&ops)) {
        return Ok(());
    }
    let mut re = ReManager::new();
    let t = build(&mut re, &ops);
    for r in rs {
        let mut e = t[r];
        for i in 0..N {
            if e.nullable != get(&sem[r], i) {
                fail!(
                    "r{r} built as {}: the string of {i} times 'a' is {}a member, expected {}",
                    t[r],
                    if e.nullable { "" } else { "not " },
                    get(&sem[r], i)
                );
            }
            if i > 60 && i % 4 == 3 && format!("{e}").len() > 4000 {
                ctx.label("large derivative: walk cut");
                break;
            }
            e = re.char_derivative(e, A);
        }
    }
    Ok(())
}
