//! Reference regular languages: canonical minimal complete DFAs over a finite
//! set of atoms (maximal intervals of characters the case cannot tell apart).
//! Nothing here uses the crate under test.

use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub const MAXC: u32 = 0x2FFFF;

/// Atoms: atom i is [cuts[i], cuts[i+1]-1]
#[derive(Debug, PartialEq, Eq)]
pub struct Atoms {
    pub cuts: Vec<u32>,
}
impl Atoms {
    /// from interval boundaries: every interval [a,b] contributes cut points a and b+1
    pub fn new(points: impl IntoIterator<Item = u32>) -> Atoms {
        let mut v: Vec<u32> = points.into_iter().filter(|x| *x <= MAXC).collect();
        v.push(0);
        v.sort_unstable();
        v.dedup();
        Atoms { cuts: v }
    }
    pub fn len(&self) -> usize {
        self.cuts.len()
    }
    pub fn lo(&self, i: usize) -> u32 {
        self.cuts[i]
    }
    pub fn hi(&self, i: usize) -> u32 {
        if i + 1 < self.cuts.len() {
            self.cuts[i + 1] - 1
        } else {
            MAXC
        }
    }
    pub fn of(&self, c: u32) -> usize {
        match self.cuts.binary_search(&c) {
            Ok(i) => i,
            Err(i) => i - 1,
        }
    }
}

/// Complete minimal DFA, states numbered in BFS order from the initial state 0
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Dfa {
    pub k: usize,
    pub t: Vec<u32>,
    pub f: Vec<bool>,
}

/// A resource cap was reached
#[derive(Debug)]
pub struct Cap;
pub type C<T> = Result<T, Cap>;

/// limits on the explored and on the minimal automaton of one reference operation
pub const CAP_RAW: usize = 4000;
pub const CAP_MIN: usize = 260;
pub const CAP_SETS: usize = 20_000_000;

thread_local! {
    static CAPS: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((CAP_RAW, CAP_MIN)) };
}
/// Other limits until the value is dropped
pub struct Caps((usize, usize));
impl Caps {
    pub fn set(raw: usize, min: usize) -> Caps {
        Caps(CAPS.with(|c| c.replace((raw, min))))
    }
}
impl Drop for Caps {
    fn drop(&mut self) {
        CAPS.with(|c| c.set(self.0));
    }
}

impl Dfa {
    pub fn n(&self) -> usize {
        self.f.len()
    }
    pub fn next(&self, s: usize, a: usize) -> usize {
        self.t[s * self.k + a] as usize
    }

    /// Build by exploration from a start value
    fn explore<S: Clone + Eq + std::hash::Hash>(
        k: usize,
        start: S,
        step: impl FnMut(&S, usize) -> S,
        fin: impl Fn(&S) -> bool,
    ) -> C<Dfa> {
        Dfa::explore_sets(k, start, step, fin, |_| 0)
    }
    /// the same with a limit on the total size of the state sets
    fn explore_sets<S: Clone + Eq + std::hash::Hash>(
        k: usize,
        start: S,
        mut step: impl FnMut(&S, usize) -> S,
        fin: impl Fn(&S) -> bool,
        size: impl Fn(&S) -> usize,
    ) -> C<Dfa> {
        let mut total = 0;
        let (cap_raw, cap_min) = CAPS.with(|c| c.get());
        let mut ids: HashMap<S, u32> = HashMap::new();
        let mut list = vec![start.clone()];
        ids.insert(start, 0);
        let mut t = vec![];
        let mut f = vec![];
        let mut i = 0;
        while i < list.len() {
            let s = list[i].clone();
            f.push(fin(&s));
            for a in 0..k {
                let d = step(&s, a);
                total += size(&d);
                if total > CAP_SETS {
                    return Err(Cap);
                }
                let id = match ids.get(&d) {
                    Some(x) => *x,
                    None => {
                        let x = list.len() as u32;
                        if list.len() >= cap_raw {
                            return Err(Cap);
                        }
                        ids.insert(d.clone(), x);
                        list.push(d);
                        x
                    }
                };
                t.push(id);
            }
            i += 1;
        }
        let m = Dfa { k, t, f }.minimal();
        if m.n() > cap_min {
            return Err(Cap);
        }
        Ok(m)
    }

    /// Class of each state under the residual-language equivalence, and number of classes
    pub fn equiv(k: usize, t: &[u32], f: &[bool]) -> (Vec<u32>, usize) {
        if f.len() <= 200 {
            Dfa::moore(k, t, f)
        } else {
            Dfa::hopcroft(k, t, f)
        }
    }
    fn moore(k: usize, t: &[u32], f: &[bool]) -> (Vec<u32>, usize) {
        let n = f.len();
        let mut cls: Vec<u32> = f.iter().map(|b| *b as u32).collect();
        let mut count = f.iter().collect::<HashSet<_>>().len();
        loop {
            let mut ids: HashMap<Vec<u32>, u32> = HashMap::new();
            let mut new = vec![0u32; n];
            for s in 0..n {
                let mut key = Vec::with_capacity(k + 1);
                key.push(cls[s]);
                for a in 0..k {
                    key.push(cls[t[s * k + a] as usize]);
                }
                let l = ids.len() as u32;
                new[s] = *ids.entry(key).or_insert(l);
            }
            let c = ids.len();
            cls = new;
            if c == count {
                return (cls, c);
            }
            count = c;
        }
    }

    fn hopcroft(k: usize, t: &[u32], f: &[bool]) -> (Vec<u32>, usize) {
        let n = f.len();
        // predecessors by letter: inv[start[a * n + s] .. start[a * n + s + 1]]
        let mut start = vec![0u32; k * n + 1];
        for s in 0..n {
            for a in 0..k {
                start[a * n + t[s * k + a] as usize + 1] += 1;
            }
        }
        for i in 0..k * n {
            start[i + 1] += start[i];
        }
        let mut fill = start.clone();
        let mut inv = vec![0u32; k * n];
        for s in 0..n {
            for a in 0..k {
                let x = &mut fill[a * n + t[s * k + a] as usize];
                inv[*x as usize] = s as u32;
                *x += 1;
            }
        }
        // partition: elems[first[b]..first[b] + size[b]], loc inverse of elems
        let mut elems: Vec<u32> = (0..n as u32).filter(|s| f[*s as usize]).collect();
        let nf = elems.len();
        elems.extend((0..n as u32).filter(|s| !f[*s as usize]));
        let mut loc = vec![0u32; n];
        for (i, s) in elems.iter().enumerate() {
            loc[*s as usize] = i as u32;
        }
        let mut first = vec![];
        let mut size: Vec<usize> = vec![];
        let mut cls = vec![0u32; n];
        for (from, len) in [(0, nf), (nf, n - nf)] {
            if len > 0 {
                for s in &elems[from..from + len] {
                    cls[*s as usize] = first.len() as u32;
                }
                first.push(from);
                size.push(len);
            }
        }
        let mut work: Vec<usize> = (0..first.len()).collect();
        let mut queued = vec![true; first.len()];
        let mut marked: Vec<usize> = vec![0; first.len()];
        while let Some(b) = work.pop() {
            queued[b] = false;
            let splitter: Vec<u32> = elems[first[b]..first[b] + size[b]].to_vec();
            for a in 0..k {
                let mut touched: Vec<usize> = vec![];
                for q in &splitter {
                    let i = a * n + *q as usize;
                    for j in start[i]..start[i + 1] {
                        let p = inv[j as usize] as usize;
                        let c = cls[p] as usize;
                        // move p into the marked front part of its block
                        let at = loc[p] as usize;
                        let to = first[c] + marked[c];
                        debug_assert!(at >= to);
                        if marked[c] == 0 {
                            touched.push(c);
                        }
                        let o = elems[to];
                        elems.swap(at, to);
                        loc[o as usize] = at as u32;
                        loc[p] = to as u32;
                        marked[c] += 1;
                    }
                }
                for c in touched {
                    let m = std::mem::replace(&mut marked[c], 0);
                    if m == size[c] {
                        continue;
                    }
                    // the smaller part becomes the new block
                    let new = first.len();
                    let (from, len) = if 2 * m <= size[c] { (first[c], m) } else { (first[c] + m, size[c] - m) };
                    if from == first[c] {
                        first[c] += m;
                    }
                    size[c] -= len;
                    first.push(from);
                    size.push(len);
                    marked.push(0);
                    for s in &elems[from..from + len] {
                        cls[*s as usize] = new as u32;
                    }
                    // the smaller part is queued; if c was queued both now are
                    queued.push(true);
                    work.push(new);
                }
            }
        }
        let c = first.len();
        (cls, c)
    }

    /// canonical minimal automaton (assumes complete)
    pub fn minimal(&self) -> Dfa {
        let (cls, _) = Dfa::equiv(self.k, &self.t, &self.f);
        let mut ids: HashMap<u32, u32> = HashMap::new();
        let mut rep = vec![0usize];
        ids.insert(cls[0], 0);
        let mut t = vec![];
        let mut f = vec![];
        let mut i = 0;
        while i < rep.len() {
            let s = rep[i];
            f.push(self.f[s]);
            for a in 0..self.k {
                let d = self.next(s, a);
                let l = rep.len() as u32;
                let id = *ids.entry(cls[d]).or_insert_with(|| {
                    rep.push(d);
                    l
                });
                t.push(id);
            }
            i += 1;
        }
        Dfa { k: self.k, t, f }
    }

    /// the language of state s
    pub fn from_state(&self, s: usize) -> Dfa {
        let sw = |x: usize| if x == 0 { s } else if x == s { 0 } else { x };
        let mut t = vec![];
        let mut f = vec![];
        for x in 0..self.n() {
            let o = sw(x);
            f.push(self.f[o]);
            for a in 0..self.k {
                t.push(sw(self.next(o, a)) as u32);
            }
        }
        Dfa { k: self.k, t, f }.minimal()
    }

    pub fn none(k: usize) -> Dfa {
        Dfa { k, t: vec![0; k], f: vec![false] }
    }
    pub fn all(k: usize) -> Dfa {
        Dfa { k, t: vec![0; k], f: vec![true] }
    }
    pub fn eps(k: usize) -> Dfa {
        Dfa { k, t: vec![1; 2 * k], f: vec![true, false] }
    }
    /// a word of atom sets
    pub fn word(k: usize, w: &[Vec<bool>]) -> C<Dfa> {
        let n = w.len();
        Dfa::explore(
            k,
            0usize,
            |s, a| if *s < n && w[*s][a] { *s + 1 } else { n + 1 },
            |s| *s == n,
        )
    }
    pub fn set(k: usize, s: Vec<bool>) -> Dfa {
        Dfa::word(k, &[s]).expect("small")
    }
    pub fn comp(&self) -> Dfa {
        let mut r = self.clone();
        r.f.iter_mut().for_each(|x| *x = !*x);
        r
    }
    fn product(&self, o: &Dfa, op: impl Fn(bool, bool) -> bool) -> C<Dfa> {
        Dfa::explore(
            self.k,
            (0usize, 0usize),
            |s, a| (self.next(s.0, a), o.next(s.1, a)),
            |s| op(self.f[s.0], o.f[s.1]),
        )
    }
    pub fn inter(&self, o: &Dfa) -> C<Dfa> {
        self.product(o, |x, y| x && y)
    }
    pub fn union(&self, o: &Dfa) -> C<Dfa> {
        self.product(o, |x, y| x || y)
    }
    pub fn diff(&self, o: &Dfa) -> C<Dfa> {
        self.product(o, |x, y| x && !y)
    }
    pub fn concat(&self, o: &Dfa) -> C<Dfa> {
        let add = |p: usize, mut s: Vec<u32>| {
            if self.f[p] && !s.contains(&0) {
                s.push(0);
            }
            s.sort_unstable();
            s.dedup();
            (p, s)
        };
        Dfa::explore_sets(
            self.k,
            add(0, vec![]),
            |st, a| {
                let s = st.1.iter().map(|q| o.next(*q as usize, a) as u32).collect();
                add(self.next(st.0, a), s)
            },
            |st| st.1.iter().any(|q| o.f[*q as usize]),
            |st| st.1.len(),
        )
    }
    /// No member is a proper prefix of another, and epsilon is not a member
    fn prefix_free(&self) -> bool {
        !self.f[0]
            && (0..self.n()).all(|s| {
                // minimal: the dead state is the only non-final sink
                !self.f[s]
                    || (0..self.k).all(|a| {
                        let d = self.next(s, a);
                        !self.f[d] && (0..self.k).all(|b| self.next(d, b) == d)
                    })
            })
    }
    /// powers i..=j of a prefix-free language: the factors can be counted deterministically
    fn rep_prefix_free(&self, i: u32, j: Option<u32>) -> C<Dfa> {
        let top = j.unwrap_or(i);
        // (factors complete, state in the current one or None between two); None: dead
        Dfa::explore(
            self.k,
            Some((0u32, None::<usize>)),
            |st, a| {
                let (c, q) = (*st)?;
                if c == top && j.is_some() {
                    return None;
                }
                let q = self.next(q.unwrap_or(0), a);
                if self.f[q] {
                    Some(((c + 1).min(top), None))
                } else if (0..self.k).all(|b| self.next(q, b) == q) {
                    None
                } else {
                    Some((c, Some(q)))
                }
            },
            |st| matches!(st, Some((c, None)) if *c >= i),
        )
    }

    /// Kleene star
    pub fn star(&self) -> C<Dfa> {
        // states: None = fresh initial state (accepting), Some(set)
        let norm = |mut s: Vec<u32>| {
            s.sort_unstable();
            s.dedup();
            if s.iter().any(|q| self.f[*q as usize]) && !s.contains(&0) {
                s.insert(0, 0);
            }
            s
        };
        Dfa::explore_sets(
            self.k,
            (true, vec![0u32]),
            |st, a| {
                let s = st.1.iter().map(|q| self.next(*q as usize, a) as u32).collect();
                (false, norm(s))
            },
            |st| st.0 || st.1.iter().any(|q| self.f[*q as usize]),
            |st| st.1.len(),
        )
    }
    pub fn power(&self, n: u32) -> C<Dfa> {
        if n > 2 && self.prefix_free() {
            return self.rep_prefix_free(n, Some(n));
        }
        self.power_slow(n)
    }
    fn power_slow(&self, n: u32) -> C<Dfa> {
        let mut r = Dfa::eps(self.k);
        let mut seen = 0;
        // square and multiply from the top bit, until nothing changes
        for i in (0..32 - n.leading_zeros()).rev() {
            if seen >= 1 && r.concat(self)? == r {
                return Ok(r);
            }
            r = r.concat(&r)?;
            seen *= 2;
            if n >> i & 1 == 1 {
                r = r.concat(self)?;
                seen += 1;
            }
        }
        debug_assert!(seen == n);
        Ok(r)
    }
    /// union of the powers i..=j (j None: infinite)
    pub fn rep(&self, i: u32, j: Option<u32>) -> C<Dfa> {
        if j.is_none_or(|j| i <= j) && self.prefix_free() {
            return self.rep_prefix_free(i, j);
        }
        self.rep_slow(i, j)
    }
    fn rep_slow(&self, i: u32, j: Option<u32>) -> C<Dfa> {
        match j {
            None => self.power_slow(i)?.concat(&self.star()?),
            Some(j) if j < i => Ok(Dfa::none(self.k)),
            Some(j) => {
                let o = self.union(&Dfa::eps(self.k))?;
                self.power_slow(i)?.concat(&o.power_slow(j - i)?)
            }
        }
    }
    pub fn is_empty(&self) -> bool {
        self.n() == 1 && !self.f[0]
    }
    /// states from which a final state is reachable
    pub fn live(&self) -> Vec<bool> {
        // minimal: a state is dead iff it is a non-final sink
        (0..self.n())
            .map(|s| self.f[s] || (0..self.k).any(|a| self.next(s, a) != s))
            .collect()
    }
    pub fn subset_of(&self, o: &Dfa) -> C<bool> {
        Ok(self.diff(o)?.is_empty())
    }
    pub fn run(&self, at: &Atoms, w: &[u32]) -> usize {
        w.iter().fold(0, |s, c| self.next(s, at.of(*c)))
    }
    pub fn accepts(&self, at: &Atoms, w: &[u32]) -> bool {
        self.f[self.run(at, w)]
    }
}

pub type RDfa = Rc<Dfa>;

#[cfg(test)]
mod tests {
    use super::*;
    use crate::src::Src;

    #[test]
    fn hopcroft_is_moore() {
        for seed in 0..3000 {
            let mut s = Src::random(seed);
            let n = 1 + s.us(60);
            let k = 1 + s.us(4);
            let t: Vec<u32> = (0..n * k)
                .map(|i| if s.us(3) == 0 { s.us(n) as u32 } else { ((i / k + 1 + i % k) % n) as u32 })
                .collect();
            let d = 1 + s.us(6);
            let f: Vec<bool> = (0..n).map(|_| s.us(d) == 0).collect();
            let (a, x) = Dfa::moore(k, &t, &f);
            let (b, y) = Dfa::hopcroft(k, &t, &f);
            assert_eq!(x, y);
            for i in 0..n {
                for j in 0..i {
                    assert_eq!(a[i] == a[j], b[i] == b[j]);
                }
            }
        }
    }

    #[test]
    fn prefix_free_repetition() {
        let mut tried = 0;
        for seed in 0..4000 {
            let mut s = Src::random(seed);
            let k = 1 + s.us(3);
            let mut d = Dfa::none(k);
            for _ in 0..1 + s.us(3) {
                let n = s.us(4);
                let w: Vec<Vec<bool>> = (0..n).map(|_| (0..k).map(|_| s.us(2) == 0).collect()).collect();
                d = d.union(&Dfa::word(k, &w).unwrap()).unwrap();
            }
            if s.us(2) == 0 {
                // a random automaton that stops at its first final states; the last state is dead
                let n = 2 + s.us(5);
                let f: Vec<bool> = (0..n).map(|i| i > 0 && i + 1 < n && s.us(2) == 0).collect();
                let t = (0..n * k).map(|i| if f[i / k] || i / k == n - 1 { n - 1 } else { s.us(n) } as u32).collect();
                d = Dfa { k, t, f }.union(&Dfa::none(k)).unwrap();
                assert!(d.prefix_free());
            }
            if !d.prefix_free() {
                continue;
            }
            tried += 1;
            for i in 0..5 {
                assert_eq!(d.rep(i, None).unwrap(), d.rep_slow(i, None).unwrap());
                for j in i..6 {
                    assert_eq!(d.rep(i, Some(j)).unwrap(), d.rep_slow(i, Some(j)).unwrap());
                }
                assert_eq!(d.power(i).unwrap(), d.power_slow(i).unwrap());
            }
        }
        assert!(tried > 500, "{tried}");
    }

    #[test]
    fn powers() {
        let at = Atoms::new([97, 98]);
        let a = Dfa::word(at.len(), &[vec![false, true, false]]).unwrap();
        let o = a.union(&Dfa::eps(3)).unwrap();
        for d in [&a, &o, &a.star().unwrap(), &Dfa::none(3), &Dfa::all(3)] {
            let mut r = Dfa::eps(3);
            for n in 0..20 {
                assert_eq!(d.power(n).unwrap(), r);
                r = r.concat(d).unwrap();
            }
        }
    }
}
