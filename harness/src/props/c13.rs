//! C13: AutomatonBuilder::build accepts exactly complete deterministic specifications and keeps them.
use super::autom::*;
use crate::engine::*;
use crate::refdfa::*;
use crate::regen::{hash_of, show_char, show_word, sstr};
use crate::src::Src;
use crate::{ensure, fail};
use aws_smt_strings::automata::*;
use std::collections::{BTreeSet, HashMap};

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "A case is a sequence of builder calls followed by build. Non-trivial: at least two states and at least \
               two transitions with different labels. Distinct: different sequence of calls.",
        assumptions: &[
            "the default successor of a state is the last one declared",
            "a default declared where the transitions already cover the alphabet may be accepted or rejected",
        ],
        modes: vec![
            Mode::exh("one-state-grid", exh1, 16),
            Mode::random("small", small, 1_000_000, 25_000_000, 25_000),
            Mode::random("valid-large", valid_large, 30_000, 1_500_000, 3_000),
            Mode::random("valid-huge", huge, 1_600, 48_000, 64),
            Mode::random("beyond-16-bits", beyond16, 16, 400, 1),
            Mode::random("wide-alphabet", wide_alphabet, 160, 6_000, 16),
            Mode::random("history", history, 300_000, 7_000_000, 10_000),
            Mode::random("typed-states", typed, 20_000, 1_000_000, 4_000),
            Mode::exh("one-state-grid-deep", exh1_deep, 64).thorough_only(),
        ],
    }
}

enum Verdict {
    Valid,
    /// redundant default somewhere, otherwise fine
    Either,
    Conflict(usize, u32),
    Incomplete(usize, u32),
}

struct Ref {
    at: Atoms,
    states: Vec<usize>,
    finals: BTreeSet<usize>,
    /// successor of (state, atom), where defined
    succ: HashMap<(usize, usize), usize>,
    verdict: Verdict,
}

fn reference(init: usize, calls: &[Call]) -> Ref {
    let at = Atoms::new(calls.iter().flat_map(|c| match c {
        Call::Trans(_, (a, b), _) => vec![*a, *b + 1],
        _ => vec![],
    }));
    let mut states = BTreeSet::new();
    states.insert(init);
    let mut finals = BTreeSet::new();
    let mut defs = HashMap::new();
    let mut succ: HashMap<(usize, usize), usize> = HashMap::new();
    let mut conflict = None;
    for c in calls {
        match c {
            Call::Final(s) => {
                states.insert(*s);
                finals.insert(*s);
            }
            Call::Default(s, d) => {
                states.insert(*s);
                states.insert(*d);
                defs.insert(*s, *d);
            }
            Call::Trans(s, (x, y), d) => {
                states.insert(*s);
                states.insert(*d);
                for a in at.of(*x)..=at.of(*y) {
                    let o = *succ.entry((*s, a)).or_insert(*d);
                    if o != *d && conflict.is_none() {
                        conflict = Some((*s, at.lo(a)));
                    }
                }
            }
        }
    }
    let mut incomplete = None;
    let mut redundant = false;
    for s in &states {
        let mut missing = false;
        for a in 0..at.len() {
            if let std::collections::hash_map::Entry::Vacant(e) = succ.entry((*s, a)) {
                missing = true;
                match defs.get(s) {
                    Some(d) => {
                        e.insert(*d);
                    }
                    None => {
                        incomplete.get_or_insert((*s, at.lo(a)));
                    }
                }
            }
        }
        if !missing && defs.contains_key(s) {
            redundant = true;
        }
    }
    let verdict = match (conflict, incomplete) {
        (Some((s, c)), _) => Verdict::Conflict(s, c),
        (_, Some((s, c))) => Verdict::Incomplete(s, c),
        _ if redundant => Verdict::Either,
        _ => Verdict::Valid,
    };
    Ref { at, states: states.into_iter().collect(), finals, succ, verdict }
}

fn check_delta(r: &Ref, init: usize, aut: &Automaton) -> R {
    let n = r.states.len();
    ensure!(aut.num_states() == n, "the automaton has {} states, the specification names {n}", aut.num_states());
    ensure!(aut.states().count() == n, "states() lists {} states, the specification names {n}", aut.states().count());
    let nf = aut.states().filter(|s| s.is_final()).count();
    ensure!(nf == r.finals.len(), "{nf} states of the automaton are final, {} were marked", r.finals.len());
    ensure!(
        aut.num_final_states() == nf && aut.final_states().count() == nf,
        "num_final_states is {}, final_states lists {}, {nf} states are final",
        aut.num_final_states(),
        aut.final_states().count()
    );
    // isomorphism from the initial state
    let mut to: HashMap<usize, usize> = HashMap::new();
    let mut back: HashMap<usize, usize> = HashMap::new();
    let i = aut.initial_state().id();
    to.insert(init, i);
    back.insert(i, init);
    let mut st = vec![init];
    while let Some(s) = st.pop() {
        let q = aut.state(to[&s]);
        ensure!(
            q.is_final() == r.finals.contains(&s),
            "state {s} is {} in the automaton but was {} final",
            if q.is_final() { "final" } else { "not final" },
            if r.finals.contains(&s) { "marked" } else { "not marked" }
        );
        for a in 0..r.at.len() {
            let want = r.succ[&(s, a)];
            let mid = r.at.lo(a) + (r.at.hi(a) - r.at.lo(a)) / 2;
            for c in [r.at.lo(a), mid, r.at.hi(a)] {
                let d = aut.next(q, c).id();
                ensure!(d < n, "next({s}, {}) has id {d}, there are {n} states", show_char(c));
                match (to.get(&want), back.get(&d)) {
                    (None, None) => {
                        to.insert(want, d);
                        back.insert(d, want);
                        st.push(want);
                    }
                    (Some(x), Some(y)) if *x == d && *y == want => (),
                    (_, y) => fail!(
                        "next({s}, {}) is s{d}{}, the specification says {want}{}",
                        show_char(c),
                        match y {
                            Some(y) => format!(" = {y}"),
                            None => String::new(),
                        },
                        match to.get(&want) {
                            Some(x) => format!(" = s{x}"),
                            None => String::new(),
                        }
                    ),
                }
            }
        }
    }
    Ok(())
}

fn check_result(r: &Ref, init: usize, res: Result<Automaton, aws_smt_strings::errors::Error>) -> R<Option<Automaton>> {
    match (&r.verdict, res) {
        (Verdict::Valid, Err(e)) => fail!("build rejects a complete conflict-free specification with {e:?}"),
        (Verdict::Conflict(s, c), Ok(_)) => {
            fail!("build accepts two different successors for state {s} on {}", show_char(*c))
        }
        (Verdict::Incomplete(s, c), Ok(_)) => {
            fail!("build accepts although state {s} has no successor on {}", show_char(*c))
        }
        (_, Ok(a)) => {
            check_delta(r, init, &a)?;
            Ok(Some(a))
        }
        (_, Err(_)) => Ok(None),
    }
}

/// build with every state as the initial one, so that delta is checked from everywhere
fn check_all(init: usize, calls: &[Call], everywhere: bool, ctx: &mut Ctx) -> R {
    let r = reference(init, calls);
    ctx.label(match r.verdict {
        Verdict::Valid => "valid",
        Verdict::Either => "redundant default",
        Verdict::Conflict(..) => "conflicting",
        Verdict::Incomplete(..) => "incomplete",
    });
    let mut b = run_calls(init, calls);
    let ok = check_result(&r, init, b.build())?.is_some();
    // a builder gives the same answer again
    let again = b.build();
    ensure!(again.is_ok() == ok, "build gives a different answer the second time");
    check_result(&r, init, again).map_err(|x| match x {
        Stop::Fail(m) => Stop::Fail(format!("second build: {m}")),
        d => d,
    })?;
    if everywhere {
        for s in r.states.iter().filter(|s| **s != init) {
            let r2 = reference(*s, calls);
            // init may not be mentioned by any call
            check_result(&r2, *s, run_calls(*s, calls).build()).map_err(|x| match x {
                Stop::Fail(m) => Stop::Fail(format!("with initial state {s}: {m}")),
                d => d,
            })?;
        }
    }
    Ok(())
}

fn nontrivial(init: usize, calls: &[Call]) -> bool {
    let mut st = BTreeSet::from([init]);
    let mut labels = BTreeSet::new();
    for c in calls {
        match c {
            Call::Final(s) => {
                st.insert(*s);
            }
            Call::Default(s, d) => {
                st.extend([*s, *d]);
            }
            Call::Trans(s, l, d) => {
                st.extend([*s, *d]);
                labels.insert(*l);
            }
        }
    }
    st.len() >= 2 && labels.len() >= 2
}

const GRID: &[u32] = &[0, 1, 50, 51, 99, 100, MAXC - 1, MAXC];

/// all lists of up to k transitions of one state over a grid of labels and two targets
fn grid(s: &mut Src, ctx: &mut Ctx, k: usize, pts: &[u32]) -> R {
    let n = s.us(k + 1);
    let mut calls = vec![];
    for _ in 0..n {
        let i = s.us(pts.len());
        let j = i + s.us(pts.len() - i);
        calls.push(Call::Trans(0, (pts[i], pts[j]), 1 + s.us(2)));
    }
    match s.us(3) {
        0 => (),
        d => calls.insert(s.us(2).min(calls.len()), Call::Default(0, d)),
    }
    if !ctx.begin(hash_of(&calls), nontrivial(0, &calls), || show_calls(0, &calls)) {
        return Ok(());
    }
    // the other states are complete
    for t in [1, 2] {
        calls.push(Call::Default(t, 0));
    }
    calls.push(Call::Final(1));
    check_all(0, &calls, false, ctx)
}
fn exh1(s: &mut Src, ctx: &mut Ctx) -> R {
    grid(s, ctx, 3, &[0, 50, 51, 99, MAXC])
}
fn exh1_deep(s: &mut Src, ctx: &mut Ctx) -> R {
    grid(s, ctx, 4, &[0, 50, 51, 52, MAXC])
}

/// a list of calls that is right, or wrong in one place
fn gen_calls(s: &mut Src, max_states: usize, max_atoms: usize) -> (usize, Vec<Call>) {
    let sp = gen_spec(s, max_states, max_atoms);
    let mut calls = sp.calls.clone();
    let n = sp.n;
    let muts = s.weighted(&[4, 4, 1]);
    for _ in 0..muts {
        let i = s.us(calls.len());
        match s.us(9) {
            // forget something
            0 => {
                calls.remove(i);
            }
            // repeat something
            1 => {
                let c = calls[i].clone();
                let j = s.us(calls.len() + 1);
                calls.insert(j, c);
            }
            // repeat a label with another target
            2 => {
                if let Call::Trans(q, l, _) = calls[i] {
                    let j = s.us(calls.len() + 1);
                    calls.insert(j, Call::Trans(q, l, s.us(n)));
                }
            }
            // a sub-range again, same or other target
            3 => {
                if let Call::Trans(q, (a, b), d) = calls[i] {
                    let x = match s.us(4) {
                        0 => a,
                        1 => b,
                        _ => a + s.below((b - a) as u64 + 1) as u32,
                    };
                    let y = match s.us(3) {
                        0 => b,
                        1 => x,
                        _ => x + s.below((b - x) as u64 + 1) as u32,
                    };
                    let d = if s.us(2) == 0 { d } else { s.us(n) };
                    let j = s.us(calls.len() + 1);
                    calls.insert(j, Call::Trans(q, (x, y), d));
                }
            }
            // move an end point by one
            4 => {
                if let Call::Trans(_, (a, b), _) = &mut calls[i] {
                    match s.us(4) {
                        0 => *a = a.saturating_sub(1),
                        1 => *b = (*b + 1).min(MAXC),
                        2 => *a = (*a + 1).min(*b),
                        _ => *b = b.saturating_sub(1).max(*a),
                    }
                }
            }
            // change a target
            5 => match &mut calls[i] {
                Call::Trans(_, _, d) | Call::Default(_, d) => *d = s.us(n + 1),
                Call::Final(q) => *q = s.us(n + 1),
            },
            // an extra default
            6 => {
                let q = s.us(n);
                let d = s.us(n);
                calls.push(Call::Default(q, d));
            }
            // a new state, mentioned only
            7 => {
                let q = s.us(n);
                calls.push(match s.us(2) {
                    0 => Call::Final(n),
                    _ => Call::Default(q, n),
                });
            }
            // an extra transition
            _ => {
                let c = &sp.cuts;
                let (a, b) = (*s.pick(c), *s.pick(c));
                let q = s.us(n);
                let d = s.us(n);
                calls.push(Call::Trans(q, (a.min(b), a.max(b)), d));
            }
        }
        if calls.is_empty() {
            break;
        }
    }
    (sp.init, calls)
}

fn small(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 1 + s.us(6);
    let (init, calls) = gen_calls(s, n, 4);
    if !ctx.begin(hash_of(&(init, &calls)), nontrivial(init, &calls), || show_calls(init, &calls)) {
        return Ok(());
    }
    check_all(init, &calls, true, ctx)
}

fn valid_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = gen_spec(s, 40, 12);
    let w: Vec<u32> = (0..s.us(12)).map(|_| *s.pick(&sp.cuts)).collect();
    if !ctx.begin(hash_of(&(sp.init, &sp.calls)), nontrivial(sp.init, &sp.calls), || show_spec(&sp)) {
        return Ok(());
    }
    check_all(sp.init, &sp.calls, false, ctx)?;
    let aut = build_spec(&sp)?;
    let at = Atoms::new(sp.cuts.iter().copied());
    let mut q = sp.init;
    for c in &w {
        q = sp.t[q][at.of(*c)];
    }
    ensure!(
        aut.accepts(&sstr(&w)) == sp.f[q],
        "accepts({}) = {}, the specification {} it",
        show_word(&w),
        !sp.f[q],
        if sp.f[q] { "accepts" } else { "rejects" }
    );
    Ok(())
}

/// builds in between calls: every answer must be right for the calls made so far
fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    let (init, calls) = gen_calls(s, 4, 4);
    let at: Vec<usize> = (0..1 + s.us(4)).map(|_| s.us(calls.len() + 1)).collect();
    if !ctx.begin(hash_of(&(init, &calls, &at)), nontrivial(init, &calls), || {
        format!("{} with builds after {at:?} calls", show_calls(init, &calls))
    }) {
        return Ok(());
    }
    let mut b = AutomatonBuilder::new(&init);
    for i in 0..=calls.len() {
        if at.contains(&i) || i == calls.len() {
            let r = reference(init, &calls[..i]);
            check_result(&r, init, b.build()).map_err(|x| match x {
                Stop::Fail(m) => Stop::Fail(format!("build after {i} calls: {m}")),
                d => d,
            })?;
        }
        if i < calls.len() {
            add_call(&mut b, &calls[i]);
        }
    }
    Ok(())
}

/// thousands of states or of ranges, and one defect in it
fn huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = gen_huge_spec(s, 8_000);
    huge_spec(s, ctx, sp)
}
/// more than 65536 states
fn wide_alphabet(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = gen_alphabet_spec(s);
    huge_spec(s, ctx, sp)
}
fn beyond16(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = gen_beyond_spec(s, Tour::Any);
    huge_spec(s, ctx, sp)
}
fn huge_spec(s: &mut Src, ctx: &mut Ctx, sp: Spec) -> R {
    let mut r = Src::random(s.below(1 << 32));
    let defect = s.us(3);
    let w: Vec<u32> = (0..r.us(3000)).map(|_| *r.pick(&sp.cuts)).collect();
    if !ctx.begin(hash_of(&(sp.init, &sp.calls, defect)), nontrivial(sp.init, &sp.calls), || {
        format!("{} states, {} cut points, {} calls", sp.n, sp.cuts.len(), sp.calls.len())
    }) {
        return Ok(());
    }
    ctx.label(if sp.n >= 1000 { "over 1000 states" } else if sp.cuts.len() >= 300 { "over 300 ranges" } else { "medium" });
    let mut calls = sp.calls.clone();
    if defect > 0 {
        let i = r.us(calls.len());
        match (&calls[i], defect) {
            // (looking for the overlap is quadratic in the crate)
            (Call::Trans(q, (x, _), d), 1) if calls.len() < 20_000 || sp.n > 1_000 => {
                // a second successor for one character
                let c = Call::Trans(*q, (*x, *x), (*d + 1) % sp.n);
                calls.push(c);
            }
            (Call::Trans(..) | Call::Default(..), 2) => {
                // characters without successor, or the former successor of the default
                calls.remove(i);
            }
            _ => (),
        }
    }
    check_all(sp.init, &calls, false, ctx)?;
    if defect > 0 {
        return Ok(());
    }
    let aut = build_spec(&sp)?;
    let at = Atoms::new(sp.cuts.iter().copied());
    let q = w.iter().fold(sp.init, |q, c| sp.t[q][at.of(*c)]);
    ensure!(
        aut.accepts(&sstr(&w)) == sp.f[q],
        "accepts({}) = {} in an automaton of {} states",
        show_word(&w),
        !sp.f[q],
        sp.n
    );
    Ok(())
}
/// state names of other types: states that collide in a hash map, and have several representations
#[derive(Clone, Debug)]
struct Named {
    id: usize,
    buckets: u64,
    #[allow(dead_code)]
    comment: u32,
}
impl PartialEq for Named {
    fn eq(&self, other: &Self) -> bool {
        self.id == other.id
    }
}
impl Eq for Named {}
impl std::hash::Hash for Named {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (self.id as u64 % self.buckets).hash(h)
    }
}
fn typed(s: &mut Src, ctx: &mut Ctx) -> R {
    let (init, calls) = gen_calls(s, 5, 3);
    let kind = s.us(3);
    if !ctx.begin(hash_of(&(init, &calls, kind)), nontrivial(init, &calls), || show_calls(init, &calls)) {
        return Ok(());
    }
    match kind {
        0 => {
            typed_as(init, &calls, |i| ["A", "b", "", "state 3", "d4", "E5", "f6", "g7"][i % 8].to_string())
        }
        1 => {
            let n = std::cell::Cell::new(0);
            typed_as(init, &calls, |i| {
                n.set(n.get() + 1);
                Named { id: i, buckets: 1 + (init as u64 + calls.len() as u64) % 3, comment: n.get() }
            })
        }
        _ => typed_as(init, &calls, |i| (i % 2 == 0, [i as u8 / 2; 2], -(i as i64))),
    }
}
fn typed_as<T: Clone + Eq + std::hash::Hash>(init: usize, calls: &[Call], name: impl Fn(usize) -> T) -> R {
    let mut b = AutomatonBuilder::new(&name(init));
    for c in calls {
        match c {
            Call::Final(q) => b.mark_final(&name(*q)),
            Call::Default(q, d) => b.set_default_successor(&name(*q), &name(*d)),
            Call::Trans(q, (x, y), d) => b.add_transition(
                &name(*q),
                &aws_smt_strings::character_sets::CharSet::range(*x, *y),
                &name(*d),
            ),
        };
    }
    let r = reference(init, calls);
    check_result(&r, init, b.build()).map(|_| ())
}
