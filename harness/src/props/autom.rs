//! Shared: automaton specifications, tables extracted from automata, walks.
use crate::engine::*;
use crate::ensure;
use crate::refdfa::*;
use crate::regen::{show_char, show_word};
use crate::src::Src;
use aws_smt_strings::automata::*;
use aws_smt_strings::character_sets::{CharPartition, CharSet, ClassId};

/// the intervals of the classes that are not the complement
pub fn intervals_of<'a>(it: impl Iterator<Item = &'a CharSet>) -> Vec<(u32, u32)> {
    // CharSet has no public accessors for its bounds: a partition made of it does
    it.map(bounds).collect()
}
pub fn bounds(c: &CharSet) -> (u32, u32) {
    let p = CharPartition::from_set(c);
    (p.start(0), p.end(0))
}

pub fn show_set(s: (u32, u32)) -> String {
    format!("[{},{}]", show_char(s.0), show_char(s.1))
}

/// Transition table of an automaton over atoms. Every range end point of every
/// state is an atom boundary, so a state must be uniform on each atom.
pub struct Table {
    pub at: Atoms,
    pub t: Vec<u32>,
    pub f: Vec<bool>,
    pub init: usize,
}
impl Table {
    pub fn n(&self) -> usize {
        self.f.len()
    }
    pub fn k(&self) -> usize {
        self.at.len()
    }
    pub fn next(&self, s: usize, a: usize) -> usize {
        self.t[s * self.at.len() + a] as usize
    }
    pub fn reachable(&self) -> Vec<bool> {
        let mut seen = vec![false; self.n()];
        let mut st = vec![self.init];
        while let Some(s) = st.pop() {
            if !std::mem::replace(&mut seen[s], true) {
                for a in 0..self.k() {
                    st.push(self.next(s, a));
                }
            }
        }
        seen
    }
    /// renumbered so that the initial state is 0, as a Dfa value (not minimized)
    pub fn dfa(&self) -> Dfa {
        let n = self.n();
        let sw = |s: usize| {
            if s == self.init {
                0
            } else if s == 0 {
                self.init
            } else {
                s
            }
        };
        let mut t = vec![];
        let mut f = vec![];
        for s in 0..n {
            let o = sw(s);
            f.push(self.f[o]);
            for a in 0..self.k() {
                t.push(sw(self.next(o, a)) as u32);
            }
        }
        Dfa { k: self.k(), t, f }
    }
    pub fn num_equiv(&self) -> usize {
        Dfa::equiv(self.k(), &self.t, &self.f).1
    }
    pub fn equiv(&self) -> (Vec<u32>, usize) {
        Dfa::equiv(self.k(), &self.t, &self.f)
    }
}

pub fn tabulate(aut: &Automaton, extra: &[u32]) -> R<Table> {
    let n = aut.num_states();
    let mut cuts: Vec<u32> = extra.to_vec();
    let mut count = 0;
    for (i, s) in aut.states().enumerate() {
        count += 1;
        ensure!(s.id() == i, "the {i}-th state of the automaton has id {}", s.id());
        for (a, b) in intervals_of(s.char_ranges()) {
            cuts.push(a);
            cuts.push(b + 1);
        }
    }
    ensure!(count == n, "num_states is {n} but states() lists {count} states");
    let at = Atoms::new(cuts);
    let mut t = Vec::with_capacity(n * at.len());
    let mut f = vec![];
    for s in aut.states() {
        f.push(s.is_final());
        for a in 0..at.len() {
            let d = aut.next(s, at.lo(a)).id();
            ensure!(d < n, "next(s{}, {}) has id {d}, there are {n} states", s.id(), show_char(at.lo(a)));
            for c in [at.hi(a), at.lo(a) + (at.hi(a) - at.lo(a)) / 2] {
                let e = aut.next(s, c).id();
                ensure!(
                    e == d,
                    "state s{} moves to s{d} on {} and to s{e} on {}, although no range of a state separates them",
                    s.id(),
                    show_char(at.lo(a)),
                    show_char(c)
                );
            }
            t.push(d as u32);
        }
    }
    let init = aut.initial_state().id();
    ensure!(init < n, "initial state has id {init}, there are {n} states");
    Ok(Table { at, t, f, init })
}

/// Language comparison: every word must be accepted by both or by none
pub fn same_language(what: &str, x: &Table, y: &Table) -> R {
    let cuts = x.at.cuts.iter().chain(&y.at.cuts).copied();
    let at = Atoms::new(cuts);
    let mx: Vec<usize> = (0..at.len()).map(|a| x.at.of(at.lo(a))).collect();
    let my: Vec<usize> = (0..at.len()).map(|a| y.at.of(at.lo(a))).collect();
    let mut seen = std::collections::HashSet::new();
    let mut list = vec![(x.init, y.init, 0usize, 0u32)];
    seen.insert((x.init, y.init));
    let mut i = 0;
    while i < list.len() {
        let (p, q, _, _) = list[i];
        if x.f[p] != y.f[q] {
            let mut w = vec![];
            let mut j = i;
            while j != 0 {
                w.push(list[j].3);
                j = list[j].2;
            }
            w.reverse();
            return Err(Stop::Fail(format!(
                "{what}: the string {} is {} before and {} after",
                show_word(&w),
                if x.f[p] { "accepted" } else { "rejected" },
                if y.f[q] { "accepted" } else { "rejected" }
            )));
        }
        for a in 0..at.len() {
            let z = (x.next(p, mx[a]), y.next(q, my[a]));
            if seen.insert(z) {
                list.push((z.0, z.1, i, at.lo(a)));
            }
        }
        i += 1;
    }
    Ok(())
}

/// An abstract automaton that is turned into builder calls
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Spec {
    pub n: usize,
    pub init: usize,
    pub cuts: Vec<u32>,
    /// t[s][a] = target
    pub t: Vec<Vec<usize>>,
    pub f: Vec<bool>,
    /// builder calls, in order
    pub calls: Vec<Call>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Call {
    Final(usize),
    Default(usize, usize),
    Trans(usize, (u32, u32), usize),
}

pub fn show_call(c: &Call) -> String {
    match c {
        Call::Final(s) => format!("final {s}"),
        Call::Default(s, d) => format!("{s} -else-> {d}"),
        Call::Trans(s, l, d) => format!("{s} -{}-> {d}", show_set(*l)),
    }
}
pub fn show_calls(init: usize, calls: &[Call]) -> String {
    let l: Vec<String> = calls.iter().take(300).map(show_call).collect();
    let more = if calls.len() > 300 { format!("; ... {} calls", calls.len()) } else { String::new() };
    format!("new({init}); {}{more}", l.join("; "))
}

pub fn run_calls(init: usize, calls: &[Call]) -> AutomatonBuilder<usize> {
    let mut b = AutomatonBuilder::new(&init);
    for c in calls {
        add_call(&mut b, c);
    }
    b
}
pub fn add_call(b: &mut AutomatonBuilder<usize>, c: &Call) {
    match c {
        Call::Final(s) => {
            b.mark_final(s);
        }
        Call::Default(s, d) => {
            b.set_default_successor(s, d);
        }
        Call::Trans(s, (x, y), d) => {
            b.add_transition(s, &CharSet::range(*x, *y), d);
        }
    }
}

/// cut points of a random alphabet abstraction (first is 0)
pub fn gen_cuts(s: &mut Src, max: usize) -> Vec<u32> {
    let k = 1 + s.us(max);
    let mut v = vec![0];
    let style = s.us(3);
    for i in 1..k {
        v.push(match style {
            0 => 97 + i as u32,
            1 => match s.us(3) {
                0 => *s.pick(crate::regen::SPECIAL),
                1 => s.below(0x30000) as u32,
                _ => 97 + s.us(26) as u32,
            },
            _ => 10 * i as u32,
        });
    }
    if s.us(6) == 0 {
        v.push(MAXC);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// a large specification from one seed: many states, or many ranges in a few states
pub fn gen_huge_spec(s: &mut Src, states: usize) -> Spec {
    let mut r = Src::random(s.below(1 << 32));
    match s.us(4) {
        0 => gen_spec_with(&mut r, 3, 1200, false),
        1 => gen_spec_with(&mut r, 40, 200, false),
        2 => gen_spec_with(&mut r, states / 8, 3, false),
        _ => gen_spec_with(&mut r, states, 3, false),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tour {
    /// all states are reachable in most cases, and they fall into a few classes of equivalent ones
    Classes,
    /// all states are reachable in most cases, most of them different
    Any,
}

/// More states than 16 bits can count and few explicit transitions
pub fn gen_beyond_spec(s: &mut Src, reach: Tour) -> Spec {
    let mut r = Src::random(s.below(1 << 32));
    let mut n = match r.us(3) {
        0 => (1 << 16) + r.us(4) - 1,
        _ => (1 << 16) + r.us(5000),
    };
    let tour = r.us(3) != 0;
    let cuts = vec![97, 98, 99];
    let at = Atoms::new(cuts.iter().copied());
    let k = at.len();
    // states fall into m kinds; a few kinds have explicit transitions, in a few states only
    let m = 2 + r.us(12);
    let bt: Vec<usize> = (0..m).map(|_| r.us(m)).collect();
    let bf: Vec<bool> = (0..m).map(|_| r.us(3) == 0).collect();
    let classes = tour && reach == Tour::Classes;
    if classes {
        n = n.div_ceil(m) * m;
    }
    // default transitions that visit every state, in some order
    let mut perm: Vec<usize> = (0..n).collect();
    if tour && r.us(2) == 0 {
        for i in (1..n).rev() {
            perm.swap(i, r.us(i + 1));
        }
    }
    let mut after = vec![0; n];
    let mut kind: Vec<usize> = (0..n).map(|_| r.us(m)).collect();
    for j in 0..n {
        after[perm[j]] = perm[(j + 1) % n];
        if classes {
            kind[perm[j]] = j % m;
        }
    }
    let mut members: Vec<Vec<u32>> = vec![vec![]; m];
    for (i, c) in kind.iter().enumerate() {
        members[*c].push(i as u32);
    }
    let special = r.us(m + 1);
    let mut f: Vec<bool> = kind.iter().map(|c| bf[*c]).collect();
    let mut t = vec![];
    let mut calls = vec![];
    let mut late = vec![];
    let later = r.us(2) == 0;
    let mut left = if classes { 0 } else { r.us(1500) };
    for i in 0..n {
        let d = if tour { after[i] } else { *r.pick(&members[bt[kind[i]]]) as usize };
        let mut row = vec![d; k];
        let explicit = left > 0 && kind[i] == special && r.us(4) == 0;
        if explicit {
            left -= 1;
            for _ in 0..1 + r.us(2) {
                row[r.us(k)] = if reach == Tour::Any && r.us(2) == 0 { n - 1 - r.us(n - 65_500) } else { r.us(n) };
            }
        }
        for a in 0..k {
            if row[a] != d {
                let c = Call::Trans(i, (at.lo(a), at.hi(a)), row[a]);
                if later {
                    late.push(c);
                } else {
                    calls.push(c);
                }
            }
        }
        if row.contains(&d) {
            calls.push(Call::Default(i, d));
        }
        t.push(row);
    }
    calls.extend(late);
    if !classes && r.us(2) == 0 {
        let i = r.us(n);
        f[i] = !f[i];
    }
    for i in 0..n {
        if f[i] {
            calls.push(Call::Final(i));
        }
    }
    let init = r.us(n);
    Spec { n, init, cuts, t, f, calls }
}

/// Few states, up to a hundred thousand ranges of characters that are treated differently
pub fn gen_alphabet_spec(s: &mut Src) -> Spec {
    let mut r = Src::random(s.below(1 << 32));
    let k = match r.us(6) {
        0 | 1 => 250 + r.us(20),
        2 => 300 + r.us(1000),
        3 => 1000 + r.us(7000),
        4 => 65_530 + r.us(10),
        _ => 65_536 + r.us(32_000),
    };
    let n = 1 + r.us(if k > 20_000 { 3 } else { 8 });
    let total = MAXC as usize + 1;
    let step = 1 + r.us((total / k).min(4));
    let off = r.us(total - k * step + 1);
    let mut cuts = vec![0u32];
    cuts.extend((0..=k).map(|i| (off + i * step) as u32).filter(|c| *c != 0 && *c <= MAXC));
    let at = Atoms::new(cuts.iter().copied());
    let k = at.len();
    let mut t = vec![];
    let mut calls = vec![];
    let mut f = vec![];
    for i in 0..n {
        let d = r.us(n);
        let mut row = vec![d; k];
        match r.us(5) {
            0 => {}
            1 => row.iter_mut().for_each(|x| *x = r.us(n)),
            2 => row.iter_mut().enumerate().for_each(|(a, x)| *x = a % n),
            3 => {
                // mostly the default
                let m = 1 + r.us(20);
                for _ in 0..m {
                    row[r.us(k)] = r.us(n);
                }
            }
            _ => {
                let (a, b) = (r.us(k), r.us(k));
                for x in &mut row[a.min(b)..=a.max(b)] {
                    if r.us(3) == 0 {
                        *x = r.us(n);
                    }
                }
            }
        }
        let first = calls.len();
        for a in 0..k {
            if row[a] != d {
                calls.push(Call::Trans(i, (at.lo(a), at.hi(a)), row[a]));
            }
        }
        match r.us(3) {
            0 => calls[first..].reverse(),
            1 => shuffle(&mut r, &mut calls[first..]),
            _ => (),
        }
        if row.contains(&d) {
            calls.push(Call::Default(i, d));
        }
        t.push(row);
        f.push(r.us(2) == 0);
        if f[i] {
            calls.push(Call::Final(i));
        }
    }
    let init = r.us(n);
    Spec { n, init, cuts, t, f, calls }
}

/// builder calls for one state: explicit transitions, with a default where allowed
pub fn calls_for(s: &mut Src, at: &Atoms, st: usize, t: &[usize], split: bool) -> Vec<Call> {
    let k = at.len();
    let mut calls = vec![];
    // default: none, or the target of some atom
    let def = if s.us(4) == 0 { None } else { Some(t[s.us(k)]) };
    let mut covered = vec![true; k];
    if let Some(d) = def {
        let all = s.us(3) != 0;
        for a in 0..k {
            if t[a] == d && (all || s.us(2) == 0) {
                covered[a] = false;
            }
        }
    }
    let mut a = 0;
    while a < k {
        if !covered[a] {
            a += 1;
            continue;
        }
        let mut b = a;
        while b + 1 < k && covered[b + 1] && t[b + 1] == t[a] && s.us(4) != 0 {
            b += 1;
        }
        let (lo, hi) = (at.lo(a), at.hi(b));
        if split && hi > lo && s.us(6) == 0 {
            let m = lo + s.below((hi - lo) as u64) as u32;
            calls.push(Call::Trans(st, (lo, m), t[a]));
            calls.push(Call::Trans(st, (m + 1, hi), t[a]));
        } else {
            calls.push(Call::Trans(st, (lo, hi), t[a]));
        }
        a = b + 1;
    }
    if covered.iter().any(|c| !c) {
        calls.push(Call::Default(st, def.unwrap()));
    }
    calls
}

/// light shuffle of the calls
pub fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - s.us(i + 1).min(i);
        v.swap(i, j);
    }
}

/// Random complete deterministic automaton of one of several shapes
pub fn gen_spec(s: &mut Src, max_states: usize, max_atoms: usize) -> Spec {
    gen_spec_with(s, max_states, max_atoms, true)
}
fn gen_spec_with(s: &mut Src, max_states: usize, max_atoms: usize, split: bool) -> Spec {
    let cuts = gen_cuts(s, max_atoms);
    let at = Atoms::new(cuts.iter().copied());
    let k = at.len();
    let n = 1 + s.us(max_states);
    let mut t = vec![vec![0usize; k]; n];
    let mut f = vec![false; n];
    match s.weighted(&[3, 5, 3, 3]) {
        // uniform
        0 => {
            let dens = 1 + s.us(6);
            for i in 0..n {
                for a in 0..k {
                    t[i][a] = s.us(n);
                }
                f[i] = s.us(dens) == 0;
            }
        }
        // blown-up copy of a smaller automaton, possibly with one late difference
        1 => {
            let m = 1 + s.us(n);
            let mut bt = vec![vec![0usize; k]; m];
            let mut bf = vec![false; m];
            for i in 0..m {
                for a in 0..k {
                    bt[i][a] = s.us(m);
                }
                bf[i] = s.us(3) == 0;
            }
            let base: Vec<usize> = (0..n).map(|i| if i < m { i } else { s.us(m) }).collect();
            let mut copies: Vec<Vec<usize>> = vec![vec![]; m];
            for i in 0..n {
                copies[base[i]].push(i);
            }
            for i in 0..n {
                for a in 0..k {
                    let c = &copies[bt[base[i]][a]];
                    t[i][a] = c[s.us(c.len())];
                }
                f[i] = bf[base[i]];
            }
            if s.us(2) == 0 {
                let (i, a) = (s.us(n), s.us(k));
                t[i][a] = s.us(n);
            }
        }
        // long chain or ring with back edges: distinguishing words as long as the chain
        2 => {
            let ring = s.us(2) == 0;
            for i in 0..n {
                for a in 0..k {
                    t[i][a] = if a == 0 {
                        if i + 1 < n {
                            i + 1
                        } else if ring {
                            0
                        } else {
                            i
                        }
                    } else {
                        match s.us(4) {
                            0 => i,
                            1 => i / 2,
                            2 => n - 1,
                            _ => 0,
                        }
                    };
                }
            }
            let p = 1 + s.us(4);
            for i in 0..n {
                f[i] = if p == 1 { i == n - 1 } else { i % p == 0 };
            }
        }
        // layers (acyclic) ending in a sink
        _ => {
            for i in 0..n {
                for a in 0..k {
                    let left = n - 1 - i;
                    t[i][a] = if left == 0 { i } else { i + 1 + s.us(left.min(4)) };
                }
                f[i] = s.us(4) == 0;
            }
        }
    }
    let init = if s.us(3) == 0 { s.us(n) } else { 0 };
    let mut calls = vec![];
    for i in 0..n {
        if f[i] {
            calls.push(Call::Final(i));
        }
        calls.extend(calls_for(s, &at, i, &t[i], split));
    }
    if s.us(2) == 0 {
        shuffle(s, &mut calls);
    }
    Spec { n, init, cuts, t, f, calls }
}

pub fn build_spec(sp: &Spec) -> R<Automaton> {
    match run_calls(sp.init, &sp.calls).build() {
        Ok(a) => Ok(a),
        Err(e) => Err(Stop::Fail(format!("build rejects a complete deterministic specification: {e:?}"))),
    }
}

pub fn show_spec(sp: &Spec) -> String {
    show_calls(sp.init, &sp.calls)
}

/// The partition of a state's alphabet as reported by char_ranges is made of disjoint sorted intervals
pub fn check_ranges(who: &str, v: &[(u32, u32)]) -> R {
    for w in v.windows(2) {
        ensure!(
            w[0].1 < w[1].0,
            "{who}: ranges {} and {} overlap or are not sorted",
            show_set(w[0]),
            show_set(w[1])
        );
    }
    Ok(())
}
/// the range of a sorted list that contains c
pub fn range_of(v: &[(u32, u32)], c: u32) -> Option<usize> {
    let i = v.partition_point(|(_, b)| *b < c);
    (i < v.len() && v[i].0 <= c).then_some(i)
}
/// does a set meet some range of a sorted list?
pub fn meets(v: &[(u32, u32)], set: (u32, u32)) -> bool {
    let i = v.partition_point(|(_, b)| *b < set.0);
    i < v.len() && v[i].0 <= set.1
}
pub fn covers_all(v: &[(u32, u32)]) -> bool {
    v.iter().map(|(a, b)| (*b - *a) as u64 + 1).sum::<u64>() == MAXC as u64 + 1
}

pub fn show_cid(c: ClassId) -> String {
    match c {
        ClassId::Interval(i) => format!("Interval({i})"),
        ClassId::Complement => "Complement".into(),
    }
}
