//! Regular-expression construction programs: generation, reference
//! semantics (DFA, span matrices), and execution against the crate.

use crate::engine::*;
use crate::refdfa::*;
use crate::src::{hash_bytes, Src};
use aws_smt_strings::character_sets::CharSet;
use aws_smt_strings::loop_ranges::LoopRange;
use aws_smt_strings::regular_expressions::{ReManager, RegLan};
use aws_smt_strings::smt_regular_expressions as smt;
use aws_smt_strings::smt_strings::SmtString;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Empty,
    Eps,
    All,
    AllChar,
    SigmaPlus,
    Char(u32),
    Range(u32, u32),
    CharSet(u32, u32),
    Str(Vec<u32>),
    SmtRange(Vec<u32>, Vec<u32>),
    Concat(usize, usize),
    ConcatList(Vec<usize>),
    Union(usize, usize),
    UnionList(Vec<usize>),
    Inter(usize, usize),
    InterList(Vec<usize>),
    Comp(usize),
    Diff(usize, usize),
    DiffList(usize, Vec<usize>),
    Star(usize),
    Plus(usize),
    Opt(usize),
    Exp(usize, u32),
    SmtLoop(usize, u32, u32),
    Loop(usize, u32, Option<u32>),
    /// derivative with respect to a character (only in histories, not a constructor)
    Deriv(usize, u32),
}
use Op::*;

impl Op {
    pub fn operands(&self) -> Vec<usize> {
        match self {
            Concat(a, b) | Union(a, b) | Inter(a, b) | Diff(a, b) => vec![*a, *b],
            ConcatList(v) | UnionList(v) | InterList(v) => v.clone(),
            DiffList(a, v) => {
                let mut w = vec![*a];
                w.extend(v);
                w
            }
            Comp(a) | Star(a) | Plus(a) | Opt(a) | Exp(a, _) | SmtLoop(a, _, _) | Loop(a, _, _) | Deriv(a, _) => vec![*a],
            _ => vec![],
        }
    }
    pub fn is_leaf(&self) -> bool {
        matches!(
            self,
            Empty | Eps | All | AllChar | SigmaPlus | Char(_) | Range(..) | CharSet(..) | Str(_) | SmtRange(..)
        )
    }
    pub fn name(&self) -> &'static str {
        match self {
            Empty => "none",
            Eps => "epsilon",
            All => "all",
            AllChar => "allchar",
            SigmaPlus => "sigma_plus",
            Char(_) => "char",
            Range(..) => "range",
            CharSet(..) => "char_set",
            Str(_) => "str",
            SmtRange(..) => "smt_range",
            Concat(..) => "concat",
            ConcatList(_) => "concat_list",
            Union(..) => "union",
            UnionList(_) => "union_list",
            Inter(..) => "inter",
            InterList(_) => "inter_list",
            Comp(_) => "complement",
            Diff(..) => "diff",
            DiffList(..) => "diff_list",
            Star(_) => "star",
            Plus(_) => "plus",
            Opt(_) => "opt",
            Exp(..) => "exp",
            SmtLoop(..) => "smt_loop",
            Loop(..) => "mk_loop",
            Deriv(..) => "derivative",
        }
    }
}

pub fn show_char(c: u32) -> String {
    match char::from_u32(c) {
        Some(x) if (0x21..0x7f).contains(&c) && x != '\'' && x != '\\' => format!("'{x}'"),
        _ => format!("#{c:x}"),
    }
}
pub fn show_word(w: &[u32]) -> String {
    if w.len() > 600 {
        let n = w.len();
        return format!("{}...{} ({n} characters)", show_word(&w[..40]), show_word(&w[n - 40..]));
    }
    if w.iter().all(|c| (0x20..0x7f).contains(c) && *c != 0x22) {
        format!("\"{}\"", w.iter().map(|c| char::from_u32(*c).unwrap()).collect::<String>())
    } else {
        format!("<{}>", w.iter().map(|c| show_char(*c)).collect::<Vec<_>>().join(" "))
    }
}

pub fn show_op(o: &Op) -> String {
    let l = |v: &Vec<usize>| v.iter().map(|i| format!("r{i}")).collect::<Vec<_>>().join(", ");
    match o {
        Char(c) => format!("char({})", show_char(*c)),
        Range(a, b) => format!("range({},{})", show_char(*a), show_char(*b)),
        CharSet(a, b) => format!("char_set({},{})", show_char(*a), show_char(*b)),
        Str(w) => format!("str({})", show_word(w)),
        SmtRange(a, b) => format!("smt_range({},{})", show_word(a), show_word(b)),
        DiffList(a, v) => format!("diff_list(r{a}; {})", l(v)),
        Exp(a, k) => format!("exp(r{a},{k})"),
        SmtLoop(a, i, j) => format!("smt_loop(r{a},{i},{j})"),
        Loop(a, i, None) => format!("mk_loop(r{a},[{i},inf))"),
        Loop(a, i, Some(j)) => format!("mk_loop(r{a},[{i},{j}])"),
        Deriv(a, c) => format!("derivative(r{a},{})", show_char(*c)),
        _ => {
            let v = o.operands();
            if v.is_empty() && o.is_leaf() {
                o.name().to_string()
            } else {
                format!("{}({})", o.name(), l(&v))
            }
        }
    }
}

pub fn show_prog(ops: &[Op]) -> String {
    ops.iter()
        .enumerate()
        .map(|(i, o)| format!("r{i}={}", show_op(o)))
        .collect::<Vec<_>>()
        .join("; ")
}

pub fn hash_of<T: std::hash::Hash>(x: &T) -> u64 {
    // a deterministic hasher (fnv over the std Hash byte stream)
    struct H(Vec<u8>);
    impl std::hash::Hasher for H {
        fn finish(&self) -> u64 {
            hash_bytes(&self.0)
        }
        fn write(&mut self, b: &[u8]) {
            self.0.extend_from_slice(b)
        }
    }
    use std::hash::Hasher;
    let mut h = H(vec![]);
    x.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------ execution

pub fn sstr(w: &[u32]) -> SmtString {
    SmtString::from(w)
}

/// Build through the methods of a manager
pub fn apply(re: &mut ReManager, o: &Op, t: &[RegLan]) -> RegLan {
    let l = |v: &Vec<usize>| v.iter().map(|i| t[*i]).collect::<Vec<RegLan>>();
    match o {
        Empty => re.empty(),
        Eps => re.epsilon(),
        All => re.full(),
        AllChar => re.all_chars(),
        SigmaPlus => re.sigma_plus(),
        Char(c) => re.char(*c),
        Range(a, b) => re.range(*a, *b),
        CharSet(a, b) => re.char_set(CharSet::range(*a, *b)),
        Str(w) => re.str(&sstr(w)),
        SmtRange(a, b) => re.smt_range(&sstr(a), &sstr(b)),
        Concat(a, b) => re.concat(t[*a], t[*b]),
        ConcatList(v) => re.concat_list(l(v)),
        Union(a, b) => re.union(t[*a], t[*b]),
        UnionList(v) => re.union_list(l(v)),
        Inter(a, b) => re.inter(t[*a], t[*b]),
        InterList(v) => re.inter_list(l(v)),
        Comp(a) => re.complement(t[*a]),
        Diff(a, b) => re.diff(t[*a], t[*b]),
        DiffList(a, v) => re.diff_list(t[*a], l(v)),
        Star(a) => re.star(t[*a]),
        Plus(a) => re.plus(t[*a]),
        Opt(a) => re.opt(t[*a]),
        Exp(a, k) => re.exp(t[*a], *k),
        SmtLoop(a, i, j) => re.smt_loop(t[*a], *i, *j),
        Loop(a, i, None) => re.mk_loop(t[*a], LoopRange::infinite(*i)),
        Loop(a, i, Some(j)) => re.mk_loop(t[*a], LoopRange::finite(*i, *j)),
        Deriv(a, c) => re.char_derivative(t[*a], *c),
    }
}

pub fn build(re: &mut ReManager, ops: &[Op]) -> Vec<RegLan> {
    let mut t: Vec<RegLan> = Vec::with_capacity(ops.len());
    for o in ops {
        let e = apply(re, o, &t);
        t.push(e);
    }
    t
}

/// Build through the SMT-LIB named wrappers
pub fn apply_smt(o: &Op, t: &[RegLan]) -> RegLan {
    let l = |v: &Vec<usize>| v.iter().map(|i| t[*i]).collect::<Vec<RegLan>>();
    let one = |c: u32| SmtString::from(c);
    match o {
        Empty => smt::re_none(),
        Eps => smt::str_to_re(&sstr(&[])),
        All => smt::re_all(),
        AllChar => smt::re_allchar(),
        SigmaPlus => smt::re_plus(smt::re_allchar()),
        Char(c) => smt::str_to_re(&one(*c)),
        Range(a, b) | CharSet(a, b) => smt::re_range(&one(*a), &one(*b)),
        Str(w) => smt::str_to_re(&sstr(w)),
        SmtRange(a, b) => smt::re_range(&sstr(a), &sstr(b)),
        Concat(a, b) => smt::re_concat(t[*a], t[*b]),
        ConcatList(v) => smt::re_concat_list(l(v)),
        Union(a, b) => smt::re_union(t[*a], t[*b]),
        UnionList(v) => smt::re_union_list(l(v)),
        Inter(a, b) => smt::re_inter(t[*a], t[*b]),
        InterList(v) => smt::re_inter_list(l(v)),
        Comp(a) => smt::re_comp(t[*a]),
        Diff(a, b) => smt::re_diff(t[*a], t[*b]),
        DiffList(a, v) => smt::re_diff_list(t[*a], l(v)),
        Star(a) => smt::re_star(t[*a]),
        Plus(a) => smt::re_plus(t[*a]),
        Opt(a) => smt::re_opt(t[*a]),
        Exp(a, k) => smt::re_power(t[*a], *k),
        SmtLoop(a, i, j) => smt::re_loop(t[*a], *i, *j),
        Loop(a, i, None) => smt::re_concat(smt::re_power(t[*a], *i), smt::re_star(t[*a])),
        Loop(a, i, Some(j)) => smt::re_loop(t[*a], *i, *j),
        Deriv(..) => unreachable!(),
    }
}

pub fn build_smt(ops: &[Op]) -> Vec<RegLan> {
    let mut t: Vec<RegLan> = Vec::with_capacity(ops.len());
    for o in ops {
        let e = apply_smt(o, &t);
        t.push(e);
    }
    t
}

// ------------------------------------------------------------ reference

fn smt_range_bounds(a: &[u32], b: &[u32]) -> Option<(u32, u32)> {
    if a.len() == 1 && b.len() == 1 && a[0] <= b[0] {
        Some((a[0], b[0]))
    } else {
        None
    }
}

pub fn ref_dfa(at: &Atoms, o: &Op, d: &[RDfa]) -> C<RDfa> {
    let k = at.len();
    let set = |a: u32, b: u32| (0..k).map(|i| a <= at.lo(i) && at.hi(i) <= b).collect::<Vec<bool>>();
    fn fold(z: Dfa, v: &[usize], d: &[RDfa], f: impl Fn(&Dfa, &Dfa) -> C<Dfa>) -> C<Dfa> {
        let mut r = z;
        for i in v {
            r = f(&r, &d[*i])?;
        }
        Ok(r)
    }
    let r = match o {
        Empty => Dfa::none(k),
        Eps => Dfa::eps(k),
        All => Dfa::all(k),
        AllChar => Dfa::set(k, vec![true; k]),
        SigmaPlus => Dfa::eps(k).comp(),
        Char(c) => Dfa::set(k, set(*c, *c)),
        Range(a, b) | CharSet(a, b) => Dfa::set(k, set(*a, *b)),
        Str(w) => Dfa::word(k, &w.iter().map(|c| set(*c, *c)).collect::<Vec<_>>())?,
        SmtRange(a, b) => match smt_range_bounds(a, b) {
            Some((x, y)) => Dfa::set(k, set(x, y)),
            None => Dfa::none(k),
        },
        Concat(a, b) => d[*a].concat(&d[*b])?,
        ConcatList(v) => fold(Dfa::eps(k), v, d, |x, y| x.concat(y))?,
        Union(a, b) => d[*a].union(&d[*b])?,
        UnionList(v) => fold(Dfa::none(k), v, d, |x, y| x.union(y))?,
        Inter(a, b) => d[*a].inter(&d[*b])?,
        InterList(v) => fold(Dfa::all(k), v, d, |x, y| x.inter(y))?,
        Comp(a) => d[*a].comp(),
        Diff(a, b) => d[*a].diff(&d[*b])?,
        DiffList(a, v) => fold((*d[*a]).clone(), v, d, |x, y| x.diff(y))?,
        Star(a) => d[*a].star()?,
        Plus(a) => d[*a].concat(&d[*a].star()?)?,
        Opt(a) => d[*a].union(&Dfa::eps(k))?,
        Exp(a, n) => d[*a].power(*n)?,
        SmtLoop(a, i, j) => d[*a].rep(*i, Some(*j))?,
        Loop(a, i, j) => d[*a].rep(*i, *j)?,
        Deriv(a, c) => d[*a].from_state(d[*a].next(0, at.of(*c))),
    };
    Ok(Rc::new(r))
}

/// Span matrices of all terms of the program for one word (|w| <= 31):
/// bit j of row i of m[r] iff w[i..j] belongs to the language of r.
pub type Mat = Vec<u32>;

pub fn spans(ops: &[Op], w: &[u32]) -> Vec<Mat> {
    let n = w.len();
    assert!(n <= 31);
    let ident: Mat = (0..=n).map(|i| 1u32 << i).collect();
    let full: Mat = (0..=n)
        .map(|i| (((1u64 << (n + 1)) - 1) & !((1u64 << i) - 1)) as u32)
        .collect();
    let zero: Mat = vec![0; n + 1];
    let mul = |a: &Mat, b: &Mat| -> Mat {
        a.iter()
            .map(|row| {
                let mut r = 0;
                let mut x = *row;
                while x != 0 {
                    let j = x.trailing_zeros() as usize;
                    x &= x - 1;
                    r |= b[j];
                }
                r
            })
            .collect()
    };
    let or = |a: &Mat, b: &Mat| -> Mat { a.iter().zip(b).map(|(x, y)| x | y).collect() };
    let and = |a: &Mat, b: &Mat| -> Mat { a.iter().zip(b).map(|(x, y)| x & y).collect() };
    let not = |a: &Mat| -> Mat { a.iter().zip(&full).map(|(x, y)| !x & y).collect() };
    let pow = |a: &Mat, e: u64| -> Mat {
        let mut r = ident.clone();
        let mut b = a.clone();
        let mut e = e;
        while e > 0 {
            if e & 1 == 1 {
                r = mul(&r, &b);
            }
            b = mul(&b, &b);
            e >>= 1;
        }
        r
    };
    let star = |a: &Mat| pow(&or(&ident, a), n as u64 + 1);
    let rep = |a: &Mat, i: u32, j: Option<u32>| match j {
        None => mul(&pow(a, i as u64), &star(a)),
        Some(j) if j < i => zero.clone(),
        Some(j) => mul(&pow(a, i as u64), &pow(&or(&ident, a), (j - i) as u64)),
    };
    let set = |a: u32, b: u32| -> Mat {
        (0..=n)
            .map(|i| if i < n && a <= w[i] && w[i] <= b { 1u32 << (i + 1) } else { 0 })
            .collect()
    };
    let mut m: Vec<Mat> = vec![];
    for o in ops {
        let x = match o {
            Empty => zero.clone(),
            Eps => ident.clone(),
            All => full.clone(),
            AllChar => set(0, MAXC),
            SigmaPlus => and(&full, &not(&ident)),
            Char(c) => set(*c, *c),
            Range(a, b) | CharSet(a, b) => set(*a, *b),
            Str(s) => (0..=n)
                .map(|i| {
                    if i + s.len() <= n && w[i..i + s.len()] == s[..] {
                        1u32 << (i + s.len())
                    } else {
                        0
                    }
                })
                .collect(),
            SmtRange(a, b) => match smt_range_bounds(a, b) {
                Some((x, y)) => set(x, y),
                None => zero.clone(),
            },
            Concat(a, b) => mul(&m[*a], &m[*b]),
            ConcatList(v) => v.iter().fold(ident.clone(), |x, i| mul(&x, &m[*i])),
            Union(a, b) => or(&m[*a], &m[*b]),
            UnionList(v) => v.iter().fold(zero.clone(), |x, i| or(&x, &m[*i])),
            Inter(a, b) => and(&m[*a], &m[*b]),
            InterList(v) => v.iter().fold(full.clone(), |x, i| and(&x, &m[*i])),
            Comp(a) => not(&m[*a]),
            Diff(a, b) => and(&m[*a], &not(&m[*b])),
            DiffList(a, v) => v.iter().fold(m[*a].clone(), |x, i| and(&x, &not(&m[*i]))),
            Star(a) => star(&m[*a]),
            Plus(a) => mul(&m[*a], &star(&m[*a])),
            Opt(a) => or(&ident, &m[*a]),
            Exp(a, k) => pow(&m[*a], *k as u64),
            SmtLoop(a, i, j) => rep(&m[*a], *i, Some(*j)),
            Loop(a, i, j) => rep(&m[*a], *i, *j),
            Deriv(..) => unreachable!(),
        };
        m.push(x);
    }
    m
}
pub fn span_member(m: &Mat) -> bool {
    let n = m.len() - 1;
    m[0] >> n & 1 == 1
}

// ------------------------------------------------------------ generation

/// Characters around which the crate's code has boundaries
pub const SPECIAL: &[u32] = &[
    0, 1, 0x20, 0x22, 0x2f, 0x30, 0x39, 0x3a, 0x41, 0x5c, 0x61, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xd800, 0xdfff,
    0xe000, 0xfffd, 0xffff, 0x10000, 0x2fffd, 0x2fffe, 0x2ffff, 0x0a, 0x7b, 0x7d, 0x85, 0xa0, 0x7ff, 0x800, 0x8000,
    0xdbff, 0xdc00, 0xfeff, 0xfffe, 0xfffc, 0x1ffff, 0x20000, 0x1f600, 0x2028,
];

/// Characters some text-processing code treats together: surrogate pairs, case pairs, digits of several scripts,
/// parts of escapes, composed and combining characters, characters equal modulo 2^8 or 2^16
pub const GROUPS: &[&[u32]] = &[
    &[0xd800, 0xdc00],
    &[0xdbff, 0xdfff],
    &[0xd83d, 0xde00, 0x1f600],
    &[0xdbff, 0xdc00, 0xd7ff],
    &[0xdfff, 0xd800, 0xe000],
    &[0xdfff, 0x10000, 0xffff],
    &[0x61, 0x41],
    &[0x73, 0x17f, 0x53],
    &[0x6b, 0x212a, 0x4b],
    &[0x69, 0x131, 0x130, 0x49],
    &[0xe9, 0x65, 0x301],
    &[0x30, 0x39, 0x660],
    &[0x31, 0x661, 0xff11, 0x1d7cf],
    &[0x5c, 0x75, 0x7b, 0x7d],
    &[0x5c, 0x75, 0x30, 0x61],
    &[0x22, 0x27, 0x5c],
    &[0x61, 0x161, 0x10061],
    &[0x61, 0x20061],
    &[0, 0x100, 0x10000],
    &[0xff, 0xffff, 0x2ffff],
    &[0x20, 0xa0, 0x3000, 0x09],
    &[0x0d, 0x0a],
    &[0xfffd, 0xfffe, 0xfeff],
    &[0x2d, 0x2b, 0x30, 0x31],
];

pub fn gen_pool(s: &mut Src, max: usize) -> Vec<u32> {
    let n = 1 + s.us(max);
    let mut v: Vec<u32> = vec![];
    let style = s.weighted(&[6, 2, 2, 1]);
    if style == 3 {
        v = s.pick(GROUPS).to_vec();
        v.truncate(n.max(2));
        v.sort_unstable();
        return v;
    }
    for i in 0..n {
        let c = match style {
            0 => 97 + i as u32,
            1 => {
                // letters with gaps
                97 + 2 * i as u32 + s.us(2) as u32
            }
            _ => match s.us(4) {
                0 => 97 + s.us(4) as u32,
                1 | 2 => *s.pick(SPECIAL),
                _ => s.below(0x30000) as u32,
            },
        };
        if !v.contains(&c) {
            v.push(c);
        }
    }
    v.sort_unstable();
    v
}

pub fn pool_atoms(pool: &[u32]) -> Atoms {
    Atoms::new(pool.iter().flat_map(|c| [*c, *c + 1]))
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub max_ops: usize,
    pub loop_max: u32,
    pub str_len: usize,
    pub pool: usize,
}

pub const CFG: Cfg = Cfg { max_ops: 10, loop_max: 4, str_len: 3, pool: 3 };

pub struct Prog {
    pub ops: Vec<Op>,
    pub pool: Vec<u32>,
    pub atoms: Atoms,
    pub dfa: Vec<RDfa>,
    /// ops that no other op uses
    pub roots: Vec<usize>,
}

impl Prog {
    pub fn last(&self) -> usize {
        self.ops.len() - 1
    }
    pub fn show(&self) -> String {
        show_prog(&self.ops)
    }
    pub fn hash(&self) -> u64 {
        hash_of(&self.ops)
    }
    /// operators below root r
    pub fn weight(&self, r: usize) -> usize {
        let mut seen = vec![false; self.ops.len()];
        let mut st = vec![r];
        let mut n = 0;
        while let Some(i) = st.pop() {
            if std::mem::replace(&mut seen[i], true) {
                continue;
            }
            if !self.ops[i].is_leaf() {
                n += 1;
            }
            st.extend(self.ops[i].operands());
        }
        n
    }
    /// language neither empty, nor everything, nor {eps}
    pub fn interesting(&self, r: usize) -> bool {
        let d = &self.dfa[r];
        let eps = d.n() == 2 && d.f[0] && !d.f[1] && (0..d.k).all(|a| d.next(1, a) == 1 && d.next(0, a) == 1);
        d.n() >= 2 && !eps
    }
    pub fn nontrivial(&self) -> bool {
        self.roots.iter().any(|r| self.interesting(*r) && self.weight(*r) >= 2)
    }
}

pub fn gen_loop_bounds(s: &mut Src, max: u32) -> (u32, Option<u32>) {
    let a = s.range32(0, max);
    let b = s.range32(0, max);
    let (i, j) = (a.min(b), a.max(b));
    match s.us(4) {
        0 => (i, None),
        _ => (i, Some(j)),
    }
}

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub cfg: Cfg,
    pub pool: Vec<u32>,
    pub ops: Vec<Op>,
}

impl Gen<'_> {
    fn ch(&mut self) -> u32 {
        *self.s.pick(&self.pool)
    }
    fn word(&mut self, max: usize) -> Vec<u32> {
        let n = self.s.us(max + 1);
        (0..n).map(|_| self.ch()).collect()
    }
    fn interval(&mut self) -> (u32, u32) {
        let (a, b) = (self.ch(), self.ch());
        match self.s.weighted(&[6, 1, 1]) {
            0 => (a.min(b), a.max(b)),
            1 => (0, a),
            _ => (a, MAXC),
        }
    }
    pub fn leaf(&mut self) -> Op {
        match self.s.weighted(&[6, 5, 4, 2, 2, 1, 1, 1, 1, 1]) {
            0 => Char(self.ch()),
            1 => {
                let (a, b) = self.interval();
                Range(a, b)
            }
            2 => {
                let m = self.cfg.str_len;
                Str(self.word(m))
            }
            3 => AllChar,
            4 => All,
            5 => Eps,
            6 => Empty,
            7 => SigmaPlus,
            8 => {
                let (a, b) = self.interval();
                CharSet(a, b)
            }
            _ => {
                if self.s.us(3) == 0 {
                    SmtRange(self.word(2), self.word(2))
                } else {
                    let (a, b) = (self.ch(), self.ch());
                    SmtRange(vec![a], vec![b])
                }
            }
        }
    }
    /// a recent term
    fn arg(&mut self) -> usize {
        let n = self.ops.len();
        let a = self.s.us(n);
        let b = self.s.us(n);
        n - 1 - a.min(b)
    }
    fn args(&mut self, max: usize) -> Vec<usize> {
        let n = self.s.us(max + 1);
        (0..n).map(|_| self.arg()).collect()
    }
    pub fn operator(&mut self) -> Op {
        let m = self.cfg.loop_max;
        match self.s.weighted(&[10, 8, 7, 5, 4, 3, 3, 3, 3, 3, 3, 3, 2, 2, 2]) {
            0 => Concat(self.arg(), self.arg()),
            1 => Union(self.arg(), self.arg()),
            2 => Inter(self.arg(), self.arg()),
            3 => Comp(self.arg()),
            4 => Star(self.arg()),
            5 => Diff(self.arg(), self.arg()),
            6 => Opt(self.arg()),
            7 => Plus(self.arg()),
            8 => {
                let a = self.arg();
                Exp(a, self.s.range32(0, m))
            }
            9 => {
                let a = self.arg();
                let (i, j) = (self.s.range32(0, m), self.s.range32(0, m));
                SmtLoop(a, i, j)
            }
            10 => {
                let a = self.arg();
                let (i, j) = gen_loop_bounds(self.s, m);
                Loop(a, i, j)
            }
            11 => ConcatList(self.args(4)),
            12 => UnionList(self.args(4)),
            13 => InterList(self.args(4)),
            _ => DiffList(self.arg(), self.args(3)),
        }
    }
    /// several ops at once, aimed at the rewrite rules
    pub fn template(&mut self) -> Vec<Op> {
        let m = self.cfg.loop_max;
        let n = self.ops.len();
        let x = self.arg();
        match self.s.us(11) {
            // R^.. R^..
            0 => {
                let (i, j) = gen_loop_bounds(self.s, m);
                let (k, l) = gen_loop_bounds(self.s, m);
                vec![Loop(x, i, j), Loop(x, k, l), Concat(n, n + 1)]
            }
            // R R^..  or  R^.. R  possibly with a tail
            1 => {
                let (i, j) = gen_loop_bounds(self.s, m);
                let y = self.arg();
                match self.s.us(4) {
                    0 => vec![Loop(x, i, j), Concat(x, n)],
                    1 => vec![Loop(x, i, j), Concat(n, x)],
                    2 => vec![Loop(x, i, j), Concat(n, y), Concat(x, n + 1)],
                    _ => vec![Loop(x, i, j), Concat(x, y), Concat(n, n + 1)],
                }
            }
            // (R^..)^..
            2 => {
                let (i, j) = gen_loop_bounds(self.s, m);
                let (k, l) = gen_loop_bounds(self.s, m);
                vec![Loop(x, i, j), Loop(n, k, l)]
            }
            // complementary pairs among other operands
            3 => {
                let mut v = self.args(2);
                v.push(x);
                v.push(n);
                let p = self.s.us(v.len());
                let l = v.len() - 1;
                v.swap(p, l);
                let u = if self.s.us(2) == 0 { UnionList(v) } else { InterList(v) };
                vec![Comp(x), u]
            }
            // pattern Sigma* p Sigma* q ...
            4 => {
                let mut o = vec![All];
                let mut l = vec![];
                let parts = 1 + self.s.us(5);
                for _ in 0..parts {
                    match self.s.us(5) {
                        0 | 1 => l.push(n),
                        2 | 3 => {
                            let c = self.ch();
                            o.push(Char(c));
                            l.push(n + o.len() - 1);
                        }
                        _ => {
                            let (a, b) = self.interval();
                            o.push(Range(a, b));
                            l.push(n + o.len() - 1);
                        }
                    }
                }
                o.push(ConcatList(l));
                o
            }
            // x and a relaxation of x, joined
            5 => {
                let mut o = vec![All];
                match self.s.us(4) {
                    0 => o.push(Concat(x, n)),
                    1 => o.push(Concat(n, x)),
                    2 => {
                        o.push(Concat(n, x));
                        o.push(Concat(n + 1, n));
                    }
                    _ => {
                        let y = self.arg();
                        o.push(Union(x, y));
                    }
                }
                let r = n + o.len() - 1;
                let y = self.arg();
                o.push(match self.s.us(3) {
                    0 => UnionList(vec![x, r, y]),
                    1 => UnionList(vec![r, y, x]),
                    _ => InterList(vec![r, x]),
                });
                o
            }
            // De Morgan shapes
            6 => {
                let y = self.arg();
                vec![Comp(x), Comp(y), if self.s.us(2) == 0 { Union(n, n + 1) } else { Inter(n, n + 1) }, Comp(n + 2)]
            }
            // right/left nested concats with shared pieces
            7 => {
                let y = self.arg();
                let z = self.arg();
                if self.s.us(2) == 0 {
                    vec![Concat(x, y), Concat(n, z), Concat(y, z), Concat(x, n + 2), Union(n + 1, n + 3)]
                } else {
                    vec![Concat(x, y), Concat(x, z), Union(n, n + 1)]
                }
            }
            // epsilon joined with x, then repeated
            8 => {
                let (i, j) = gen_loop_bounds(self.s, m);
                vec![Opt(x), Loop(n, i, j)]
            }
            // bounded loop next to something overlapping
            9 => {
                let (i, j) = gen_loop_bounds(self.s, m);
                let y = self.arg();
                vec![Union(x, y), Loop(n, i, j), Concat(n + 1, x)]
            }
            // diff
            _ => {
                let y = self.arg();
                vec![Concat(x, y), Star(x), Diff(n + 1, n)]
            }
        }
    }
}

/// Generate a program; `accept` evaluates the reference for one op (false = too large)
pub fn gen_ops(s: &mut Src, cfg: Cfg, pool: Vec<u32>, mut accept: impl FnMut(&[Op], &Op) -> bool) -> Vec<Op> {
    let mut g = Gen { s, cfg, pool, ops: vec![] };
    let leaves = 1 + g.s.us(3);
    for _ in 0..leaves {
        let o = g.leaf();
        if accept(&g.ops, &o) {
            g.ops.push(o);
        }
    }
    let total = 1 + g.s.us(cfg.max_ops);
    for _ in 0..total {
        let new = match g.s.weighted(&[10, 3, 4]) {
            0 => vec![g.operator()],
            1 => vec![g.leaf()],
            _ => g.template(),
        };
        for o in new {
            let o = if accept(&g.ops, &o) {
                o
            } else {
                // keep indices valid
                let z = Eps;
                accept(&g.ops, &z);
                z
            };
            g.ops.push(o);
        }
    }
    g.ops
}

pub fn roots(ops: &[Op]) -> Vec<usize> {
    let mut used = vec![false; ops.len()];
    for o in ops {
        for i in o.operands() {
            used[i] = true;
        }
    }
    (0..ops.len()).filter(|i| !used[*i]).collect()
}

pub fn gen_prog(s: &mut Src, cfg: Cfg) -> Prog {
    let pool = gen_pool(s, cfg.pool);
    let atoms = pool_atoms(&pool);
    let mut dfa: Vec<RDfa> = vec![];
    let ops = gen_ops(s, cfg, pool.clone(), |_, o| match ref_dfa(&atoms, o, &dfa) {
        Ok(d) => {
            dfa.push(d);
            true
        }
        Err(Cap) => false,
    });
    let roots = roots(&ops);
    Prog { ops, pool, atoms, dfa, roots }
}

/// program from given ops (exhaustive modes)
pub fn prog_of(ops: Vec<Op>, pool: Vec<u32>) -> C<Prog> {
    let atoms = pool_atoms(&pool);
    let mut dfa: Vec<RDfa> = vec![];
    for o in &ops {
        let d = ref_dfa(&atoms, o, &dfa)?;
        dfa.push(d);
    }
    let roots = roots(&ops);
    Ok(Prog { ops, pool, atoms, dfa, roots })
}

/// An incrementally checked program: ops are only added when the reference fits
pub struct Builder {
    pub ops: Vec<Op>,
    pub pool: Vec<u32>,
    pub atoms: Atoms,
    pub dfa: Vec<RDfa>,
}
impl Builder {
    pub fn new(pool: Vec<u32>) -> Builder {
        let atoms = pool_atoms(&pool);
        Builder { ops: vec![], pool, atoms, dfa: vec![] }
    }
    /// the index of the op, or None when its reference is too large
    pub fn push(&mut self, o: Op) -> Option<usize> {
        let d = ref_dfa(&self.atoms, &o, &self.dfa).ok()?;
        self.dfa.push(d);
        self.ops.push(o);
        Some(self.ops.len() - 1)
    }
    pub fn prog(self) -> Prog {
        let roots = roots(&self.ops);
        Prog { ops: self.ops, pool: self.pool, atoms: self.atoms, dfa: self.dfa, roots }
    }
    /// `n` random operators over recent terms and the given ones
    pub fn tail(&mut self, s: &mut Src, n: usize, loop_max: u32) {
        for _ in 0..n {
            let l = self.ops.len();
            let x = l - 1;
            let y = if s.us(2) == 0 { l - 1 - s.us(l.min(3)) } else { s.us(l) };
            let o = match s.us(13) {
                0 => Op::Comp(x),
                1 => Op::Star(x),
                2 => Op::Opt(x),
                3 => Op::Plus(x),
                4 => {
                    let (i, j) = gen_loop_bounds(s, loop_max);
                    Op::Loop(x, i, j)
                }
                5 => Op::Concat(x, y),
                6 => Op::Concat(y, x),
                7 => Op::Union(x, y),
                8 => Op::Union(y, x),
                9 => Op::Inter(x, y),
                10 => Op::Inter(y, x),
                11 => Op::Diff(x, y),
                _ => Op::Diff(y, x),
            };
            self.push(o);
        }
    }
}

/// Hundreds of derivative classes: letter i or a small range, followed by one of a few tails
pub fn gen_many_classes(s: &mut Src) -> Prog {
    let _caps = Caps::set(60_000, 3000);
    let k = match s.us(8) {
        0 => 255 + s.us(4),
        1 | 2 => 60 + s.us(80),
        3 => 300 + s.us(300),
        _ => 130 + s.us(170),
    };
    let step = 1 + s.us(4) as u32;
    let w = s.us(step as usize) as u32;
    let top = s.us(4) == 0;
    let base = if top { MAXC + 1 - step * k as u32 - s.us(2) as u32 } else { *s.pick(&[0u32, 48, 97, 1000, 0xD000, 0xFF00]) };
    let tails = 2 + s.us(4);
    let twice = s.us(4);
    let shift = s.us(step as usize + 1) as u32;
    let end = s.us(8);
    let fin = s.us(4);
    let mut r = Src::random(s.below(1 << 32));
    let (x, y) = (base, base + step);
    // the cut points of all ranges
    let cell = |i: usize| {
        let a = (base + i as u32 * step).min(MAXC);
        (a, (a + w).min(MAXC))
    };
    let moved = |i: usize| {
        let (a, b) = cell(i);
        ((a + shift).min(MAXC), (b + shift).min(MAXC))
    };
    let mut cuts: Vec<u32> = vec![0, x, x + 1, y, y + 1];
    for i in 0..k {
        for (a, b) in [cell(i), moved(i)] {
            cuts.extend([a, b + 1]);
        }
    }
    let mut b = Builder { ops: vec![], pool: vec![x, y], atoms: Atoms::new(cuts), dfa: vec![] };
    let tail: Vec<usize> = (0..tails)
        .filter_map(|i| {
            b.push(match i {
                0 => Op::Str(vec![x]),
                1 => Op::Str(vec![x, y]),
                2 => Op::Eps,
                3 => Op::Str(vec![y]),
                _ => Op::Str(vec![y, y, x]),
            })
        })
        .collect();
    let mut unions = vec![];
    for u in 0..1 + (twice == 0) as usize {
        let mut v = vec![];
        for i in 0..k {
            let (p, q) = if u == 0 { cell(i) } else { moved(i) };
            let t = *r.pick(&tail);
            let o = if p == q { Op::Char(p) } else { Op::Range(p, q) };
            v.extend(b.push(o).and_then(|c| b.push(Op::Concat(c, t))));
        }
        unions.extend(b.push(Op::UnionList(v)));
    }
    if unions.is_empty() {
        unions.extend(b.push(Op::Eps));
    }
    let l = unions[0];
    let m = *unions.last().unwrap();
    let o = match end {
        0 => Op::Comp(l),
        1 => Op::Star(l),
        2 => Op::Concat(m, l),
        3 => Op::Opt(l),
        4 => Op::Inter(l, m),
        5 => Op::Diff(l, m),
        6 => Op::Union(m, l),
        _ => Op::Exp(l, 2),
    };
    b.push(o);
    let z = b.ops.len() - 1;
    match fin {
        0 => {
            b.push(Op::Comp(z));
        }
        1 => {
            b.push(Op::Concat(tail[0], z));
        }
        2 => {
            b.push(Op::Opt(z)).and_then(|o| b.push(Op::Concat(o, m)));
        }
        _ => (),
    }
    let n = b.ops.len() - 1;
    let mut p = b.prog();
    // both the result and its complement
    p.roots = vec![n];
    p
}

/// Many characters, many alternatives: unions and intersections of dozens of
/// pieces, partitions with dozens of classes
pub fn gen_wide(s: &mut Src) -> Prog {
    let _caps = Caps::set(6000, 500);
    let np = *s.pick(&[4usize, 8, 12, 20, 36]);
    let pool: Vec<u32> = match s.us(5) {
        0 => (0..np as u32).map(|i| 97 + i).collect(),
        1 => (0..np as u32).map(|i| 48 + 2 * i).collect(),
        2 => (0..np as u32).map(|i| 97 + 3 * i).collect(),
        3 => {
            let mut v: Vec<u32> = (0..np).map(|_| s.below(400) as u32).collect();
            v.sort_unstable();
            v.dedup();
            v
        }
        _ => {
            let mut v: Vec<u32> =
                (0..np).map(|_| if s.us(2) == 0 { *s.pick(SPECIAL) } else { s.below(0x30000) as u32 }).collect();
            v.sort_unstable();
            v.dedup();
            v
        }
    };
    let np = pool.len();
    let mut b = Builder::new(pool.clone());
    let max = *s.pick(&[6usize, 12, 20, 30]);
    let n = 3 + s.us(max);
    // 6: operands of one shape with something in common
    let style = s.us(8).min(6);
    let shape = s.us(6);
    let x0 = if style == 6 && shape == 2 { Op::Char(*s.pick(&pool)) } else { Op::AllChar };
    let mut pieces: Vec<usize> = vec![];
    for i in 0..n {
        let at = |i: usize| pool[i % np];
        let x = match style {
            // one successor per character: disjoint first characters
            0 => {
                let l = s.us(3);
                let mut w = vec![at(i)];
                w.extend((0..l).map(|_| *s.pick(&pool)));
                if l == 0 {
                    w.push(at(i + 1));
                }
                b.push(Op::Str(w))
            }
            // dictionary
            1 => {
                let l = 1 + s.us(6);
                let w: Vec<u32> = (0..l).map(|_| pool[s.us(np.min(4))]).collect();
                b.push(Op::Str(w))
            }
            // range followed by a word
            2 | 3 => {
                let (p, q) = if style == 2 { (s.us(np), s.us(np)) } else { (i % np, i % np + s.us(2)) };
                let (lo, hi) = (pool[p.min(q).min(np - 1)], pool[p.max(q).min(np - 1)]);
                let r = match s.us(12) {
                    0 => Op::Range(0, hi),
                    1 => Op::Range(lo, MAXC),
                    _ => Op::Range(lo, hi),
                };
                let r = b.push(r);
                match (r, s.us(3)) {
                    (Some(_), 0) => r,
                    (Some(r), _) => {
                        let l = 1 + s.us(2);
                        let w = (0..l).map(|_| *s.pick(&pool)).collect();
                        b.push(Op::Str(w)).and_then(|w| b.push(Op::Concat(r, w)))
                    }
                    _ => None,
                }
            }
            // single characters or short words, optional
            4 => {
                let x = match s.us(3) {
                    0 => Op::Str(vec![at(i), *s.pick(&pool)]),
                    1 => Op::Range(at(i).min(at(i + 1)), at(i).max(at(i + 1))),
                    _ => Op::Char(at(i)),
                };
                b.push(x).and_then(|x| match s.us(4) {
                    0 => Some(x),
                    1 => b.push(Op::Star(x)),
                    _ => b.push(Op::Opt(x)),
                })
            }
            6 => {
                let (p, q) = (i % np, (i % np + np / 2).min(np - 1));
                // a range around the middle of the pool
                let r = Op::Range(pool[p.min(np / 2)], pool[q.max(np / 2)]);
                match shape {
                    0 => b.push(r),
                    1 => b.push(if s.us(2) == 0 { Op::Char(at(i)) } else { Op::Str(vec![at(i), *s.pick(&pool)]) })
                        .and_then(|x| b.push(Op::Comp(x))),
                    2 => b.push(x0.clone()).and_then(|x| {
                        let (k, m) = (s.us(8), 6 + s.us(8));
                        let j = if s.us(4) == 0 { None } else { Some(m as u32) };
                        b.push(Op::Loop(x, k.min(m) as u32, j))
                    }),
                    3 => b.push(Op::Char(at(i))).and_then(|x| {
                        let a = b.push(Op::All)?;
                        b.push(match s.us(3) {
                            0 => Op::ConcatList(vec![a, x, a]),
                            1 => Op::Concat(a, x),
                            _ => Op::Concat(x, a),
                        })
                    }),
                    4 => b.push(r).and_then(|x| b.push(if s.us(4) == 0 { Op::Plus(x) } else { Op::Star(x) })),
                    _ => b.push(r).and_then(|x| {
                        let y = b.push(Op::Range(pool[0], at(i)))?;
                        b.push(if s.us(2) == 0 { Op::Concat(x, y) } else { Op::Concat(y, x) })
                    }),
                }
            }
            // whatever
            _ => {
                let o = match s.us(5) {
                    0 => Op::AllChar,
                    1 => Op::Char(*s.pick(&pool)),
                    2 => Op::Str((0..s.us(4)).map(|_| *s.pick(&pool)).collect()),
                    _ => {
                        let (p, q) = (*s.pick(&pool), *s.pick(&pool));
                        Op::Range(p.min(q), p.max(q))
                    }
                };
                b.push(o).and_then(|x| match s.us(5) {
                    0 => b.push(Op::Comp(x)),
                    1 => b.push(Op::Plus(x)),
                    _ => Some(x),
                })
            }
        };
        pieces.extend(x);
    }
    if pieces.is_empty() {
        pieces.extend(b.push(Op::Eps));
    }
    // one or two joins of the pieces
    let joins = 1 + s.us(2);
    for _ in 0..joins {
        let v: Vec<usize> = match s.us(3) {
            0 | 1 => pieces.clone(),
            _ => pieces.iter().copied().filter(|_| s.us(2) == 0).collect(),
        };
        let o = match s.us(8) {
            0 => {
                let c: Vec<usize> = v.iter().filter_map(|x| b.push(Op::Comp(*x))).collect();
                Op::InterList(c)
            }
            1..=4 if style == 6 => Op::InterList(v),
            1 | 2 if style == 4 => Op::ConcatList(v),
            1 => Op::ConcatList(v.iter().copied().take(5).collect()),
            _ => Op::UnionList(v),
        };
        if b.push(o).is_none() {
            b.push(Op::UnionList(pieces.iter().copied().take(2).collect()));
        }
    }
    let k = s.us(4);
    b.tail(s, k, 3);
    b.prog()
}

/// Few characters, large automata: long words, large loop bounds, modular
/// lengths, non-deterministic suffixes
pub fn gen_deep(s: &mut Src, size: usize) -> Prog {
    let _caps = Caps::set(24_000, 2600);
    let pool = match s.us(3) {
        0 => vec![97],
        1 => vec![97, 98],
        _ => gen_pool(s, 2),
    };
    let np = pool.len();
    let mut b = Builder::new(pool.clone());
    let unit = |b: &mut Builder, s: &mut Src| -> usize {
        let o = match s.us(8) {
            0 | 1 => Op::Char(pool[0]),
            2 => Op::Char(*s.pick(&pool)),
            3 => Op::AllChar,
            4 => Op::Range(pool[0], pool[np - 1]),
            5 => Op::Str(vec![pool[0], pool[np - 1]]),
            _ => Op::Str((0..1 + s.us(3)).map(|_| *s.pick(&pool)).collect()),
        };
        b.push(o).expect("small")
    };
    // the body of a loop and the length of its longest member: some have members
    // of several lengths
    let body = |b: &mut Builder, s: &mut Src| -> (usize, usize) {
        let x = unit(b, s);
        if s.us(3) != 0 {
            return (x, 1);
        }
        let o = match s.us(6) {
            0 => Op::Opt(x),
            1 => Op::Loop(x, s.us(3) as u32, Some(2 + s.us(2) as u32)),
            2 => Op::Union(x, unit(b, s)),
            3 => {
                let y = unit(b, s);
                let e = b.push(Op::Eps).expect("small");
                Op::UnionList(vec![x, y, e])
            }
            4 => Op::Plus(x),
            _ => {
                let y = unit(b, s);
                let z = b.push(Op::Opt(y)).expect("small");
                Op::Concat(x, z)
            }
        };
        b.push(o).map_or((x, 1), |x| (x, 3))
    };
    // a value up to m with many small ones and some at powers of two
    let num = |s: &mut Src, m: usize| -> usize {
        match s.us(4) {
            0 => s.us(m + 1),
            1 => s.us(m.min(20) + 1),
            2 => {
                let p = 1usize << s.us((usize::BITS - m.leading_zeros()) as usize);
                (p + s.us(3)).saturating_sub(1).min(m)
            }
            _ => m / 2 + s.us(m / 2 + 1),
        }
    };
    let rounds = 1 + s.us(2);
    for _ in 0..rounds {
        match s.us(7) {
            // a long word, searched for
            0 => {
                let n = num(s, size);
                let period = 1 + s.us(7);
                let base: Vec<u32> = (0..period).map(|_| *s.pick(&pool)).collect();
                let noise = s.us(3);
                let w: Vec<u32> =
                    (0..n).map(|i| if noise > 0 && s.us(20) == 0 { *s.pick(&pool) } else { base[i % period] }).collect();
                let x = b.push(Op::Str(w));
                let a = b.push(Op::All).expect("small");
                if let Some(x) = x {
                    match s.us(4) {
                        0 => (),
                        1 => {
                            b.push(Op::Concat(a, x));
                        }
                        2 => {
                            b.push(Op::ConcatList(vec![a, x, a]));
                        }
                        _ => {
                            b.push(Op::Star(x));
                        }
                    }
                }
            }
            // a large counted loop
            1 => {
                let (x, len) = body(&mut b, s);
                let (i, j) = (num(s, size / len), num(s, size / len));
                let o = match s.us(5) {
                    0 => Op::Exp(x, i as u32),
                    1 => Op::Loop(x, i as u32, None),
                    2 => Op::SmtLoop(x, i.min(j) as u32, i.max(j) as u32),
                    _ => Op::Loop(x, i.min(j) as u32, Some(i.max(j) as u32)),
                };
                b.push(o);
            }
            // modular lengths
            2 => {
                let x = unit(&mut b, s);
                let mut v = vec![];
                let mut room = size.max(4);
                for _ in 0..2 + s.us(3) {
                    let m = 2 + s.us(room.min(13) - 1);
                    room = (room / m).max(2);
                    let r = s.us(m);
                    let w = b
                        .push(Op::Exp(x, m as u32))
                        .and_then(|e| b.push(Op::Star(e)))
                        .and_then(|st| b.push(Op::Exp(x, r as u32)).and_then(|e| b.push(Op::Concat(st, e))));
                    v.extend(w);
                }
                if s.us(3) == 0 {
                    v.extend(b.push(Op::Loop(x, num(s, size) as u32, None)));
                }
                b.push(match s.us(4) {
                    0 => Op::UnionList(v),
                    _ => Op::InterList(v),
                });
            }
            // the n-th character from the end
            3 => {
                let n = s.us(9).min(size / 8) as u32;
                let c = b.push(Op::Char(*s.pick(&pool))).expect("small");
                let any = if s.us(2) == 0 { b.push(Op::AllChar) } else { b.push(Op::Range(pool[0], pool[np - 1])) };
                let any = any.expect("small");
                let st = b.push(Op::Star(any)).expect("small");
                let l = match s.us(3) {
                    0 => b.push(Op::Exp(any, n)),
                    1 => b.push(Op::Loop(any, n / 2, Some(n))),
                    _ => b.push(Op::Loop(any, 0, Some(n))),
                };
                if let Some(l) = l {
                    b.push(Op::ConcatList(vec![st, c, l]));
                }
            }
            // nested loops
            4 => {
                let x = unit(&mut b, s);
                let y = unit(&mut b, s);
                let (i, k) = (num(s, 8), num(s, (size / 8).max(2)));
                let lo = s.us(i + 1);
                let lo2 = s.us(k + 1);
                if let Some(l) = b.push(Op::Loop(x, lo as u32, Some(i as u32))) {
                    if let Some(c) = b.push(Op::Concat(l, y)) {
                        b.push(Op::Loop(c, lo2 as u32, Some(k as u32)));
                    }
                }
            }
            // long words with common parts
            5 => {
                let base: Vec<u32> = (0..num(s, size / 3 + 1)).map(|_| *s.pick(&pool)).collect();
                let mut v = vec![];
                for _ in 0..2 + s.us(5) {
                    let from = s.us(base.len() / 4 + 1);
                    let to = base.len() - s.us(base.len() / 4 + 1);
                    let mut w = base[from.min(to)..to].to_vec();
                    if s.us(2) == 0 {
                        w.push(*s.pick(&pool));
                    }
                    v.extend(b.push(Op::Str(w)));
                }
                b.push(Op::UnionList(v));
            }
            // a sequence of loops
            _ => {
                let mut v = vec![];
                for _ in 0..2 + s.us(3) {
                    let x = unit(&mut b, s);
                    let (i, j) = (num(s, size / 6 + 1) as u32, num(s, size / 6 + 1) as u32);
                    v.extend(match s.us(4) {
                        0 => b.push(Op::Loop(x, i, None)),
                        1 => b.push(Op::Exp(x, i)),
                        _ => b.push(Op::Loop(x, i.min(j), Some(i.max(j)))),
                    });
                }
                b.push(Op::ConcatList(v));
            }
        }
    }
    if b.ops.is_empty() {
        b.push(Op::Eps);
    }
    let k = s.us(4);
    b.tail(s, k, 3);
    b.prog()
}

/// What `gen_syn` builds in several ways
#[derive(Clone, Debug)]
pub enum Syn {
    Empty,
    Eps,
    Full,
    Any,
    Word(Vec<u32>),
    Set(u32, u32),
    Cat(Vec<Syn>),
    Alt(Vec<Syn>),
    And(Vec<Syn>),
    Not(Box<Syn>),
    Rep(Box<Syn>, u32, Option<u32>),
}

fn syn_word(s: &mut Src, pool: &[u32]) -> Vec<u32> {
    match s.us(4) {
        // periodic
        0 | 1 => {
            let u: Vec<u32> = (0..1 + s.us(3)).map(|_| *s.pick(pool)).collect();
            let k = 1 + s.us(4);
            let mut w: Vec<u32> = vec![];
            for _ in 0..k {
                w.extend(&u);
            }
            w
        }
        _ => (0..1 + s.us(5)).map(|_| *s.pick(pool)).collect(),
    }
}

fn syn_gen(s: &mut Src, pool: &[u32], depth: usize) -> Syn {
    if depth == 0 || s.us(4) == 0 {
        return match s.weighted(&[10, 5, 2, 2, 1, 1]) {
            0 => Syn::Word(syn_word(s, pool)),
            1 => {
                let (a, b) = (*s.pick(pool), *s.pick(pool));
                Syn::Set(a.min(b), a.max(b))
            }
            2 => Syn::Any,
            3 => Syn::Full,
            4 => Syn::Eps,
            _ => Syn::Empty,
        };
    }
    let kids = |s: &mut Src| -> Vec<Syn> { (0..2 + s.us(2)).map(|_| syn_gen(s, pool, depth - 1)).collect() };
    match s.weighted(&[6, 5, 2, 2, 5]) {
        0 => Syn::Cat(kids(s)),
        1 => Syn::Alt(kids(s)),
        2 => Syn::And(kids(s)),
        3 => Syn::Not(Box::new(syn_gen(s, pool, depth - 1))),
        _ => {
            let (i, j) = gen_loop_bounds(s, 4);
            Syn::Rep(Box::new(syn_gen(s, pool, depth - 1)), i, j)
        }
    }
}

/// the same with one detail changed
fn syn_near(s: &mut Src, a: &Syn, pool: &[u32]) -> Syn {
    let list = |s: &mut Src, v: &[Syn], swap: bool| -> Vec<Syn> {
        let mut v = v.to_vec();
        let i = s.us(v.len());
        match s.us(5) {
            0 if v.len() > 1 => {
                v.remove(i);
            }
            1 if v.len() > 1 && swap => {
                let j = (i + 1) % v.len();
                v.swap(i, j);
            }
            _ => v[i] = syn_near(s, &v[i], pool),
        }
        v
    };
    match a {
        Syn::Word(w) => {
            let mut w = w.clone();
            let i = s.us(w.len());
            match s.us(5) {
                0 => w.insert(i, *s.pick(pool)),
                1 => {
                    w.remove(i);
                }
                2 => {
                    let j = s.us(w.len());
                    w.swap(i, j);
                }
                3 => w.push(*s.pick(pool)),
                _ => w[i] = *s.pick(pool),
            }
            if w.is_empty() {
                Syn::Eps
            } else {
                Syn::Word(w)
            }
        }
        Syn::Set(a, b) => match s.us(3) {
            0 => Syn::Set(*a, *a),
            1 => Syn::Set(*b, *b),
            _ => Syn::Any,
        },
        Syn::Any => Syn::Set(pool[0], pool[pool.len() - 1]),
        Syn::Full => Syn::Rep(Box::new(Syn::Any), 1, None),
        Syn::Eps => Syn::Word(vec![pool[0]]),
        Syn::Empty => Syn::Eps,
        Syn::Cat(v) => Syn::Cat(list(s, v, true)),
        Syn::Alt(v) => Syn::Alt(list(s, v, false)),
        Syn::And(v) => Syn::And(list(s, v, false)),
        Syn::Not(x) => Syn::Not(Box::new(syn_near(s, x, pool))),
        Syn::Rep(x, i, j) => match s.us(5) {
            0 => Syn::Rep(x.clone(), i + 1, j.map(|j| j + 1)),
            1 => Syn::Rep(x.clone(), *i, j.map(|j| j + 1)),
            2 => Syn::Rep(x.clone(), i.saturating_sub(1), *j),
            // repeat the last letter only
            3 => match &**x {
                Syn::Word(w) if w.len() > 1 => {
                    let n = w.len() - 1;
                    let last = Syn::Rep(Box::new(Syn::Word(vec![w[n]])), *i, *j);
                    Syn::Cat(vec![Syn::Word(w[..n].to_vec()), last])
                }
                Syn::Cat(v) => {
                    let mut v = v.clone();
                    let l = v.pop().expect("two at least");
                    v.push(Syn::Rep(Box::new(l), *i, *j));
                    Syn::Cat(v)
                }
                _ => Syn::Rep(Box::new(syn_near(s, x, pool)), *i, *j),
            },
            _ => Syn::Rep(Box::new(syn_near(s, x, pool)), *i, *j),
        },
    }
}

/// concatenation of terms, nested in some way
fn syn_cat(b: &mut Builder, s: &mut Src, v: &[usize]) -> Option<usize> {
    match v.len() {
        0 => return b.push(Op::Eps),
        1 => return Some(v[0]),
        _ => (),
    }
    match s.us(4) {
        0 => b.push(Op::ConcatList(v.to_vec())),
        k => {
            let m = match k {
                1 => 1,
                2 => v.len() - 1,
                _ => 1 + s.us(v.len() - 1),
            };
            let x = syn_cat(b, s, &v[..m])?;
            let y = syn_cat(b, s, &v[m..])?;
            b.push(Op::Concat(x, y))
        }
    }
}

fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - s.us(i + 1);
        v.swap(i, j);
    }
}

/// union (or intersection) of terms in some way
fn syn_join(b: &mut Builder, s: &mut Src, v: &[usize], union: bool) -> Option<usize> {
    let mut v = v.to_vec();
    shuffle(s, &mut v);
    if s.us(4) == 0 && !v.is_empty() {
        let x = *s.pick(&v);
        v.push(x);
    }
    match s.us(5) {
        // pairwise
        0 | 1 if !v.is_empty() => {
            let mut x = v[0];
            for y in &v[1..] {
                let (l, r) = if s.us(2) == 0 { (x, *y) } else { (*y, x) };
                x = b.push(if union { Op::Union(l, r) } else { Op::Inter(l, r) })?;
            }
            Some(x)
        }
        // De Morgan
        2 => {
            let mut w = vec![];
            for x in v {
                w.push(b.push(Op::Comp(x))?);
            }
            let x = b.push(if union { Op::InterList(w) } else { Op::UnionList(w) })?;
            b.push(Op::Comp(x))
        }
        // by differences
        3 if v.len() == 2 => {
            let c = b.push(Op::Comp(v[1]))?;
            if union {
                // x + y = not (not y - x)
                let d = b.push(Op::Diff(c, v[0]))?;
                b.push(Op::Comp(d))
            } else {
                b.push(Op::Diff(v[0], c))
            }
        }
        _ => b.push(if union { Op::UnionList(v) } else { Op::InterList(v) }),
    }
}

fn syn_set(b: &mut Builder, s: &mut Src, lo: u32, hi: u32) -> Option<usize> {
    match s.us(6) {
        0 if lo == hi => b.push(Op::Char(lo)),
        1 => b.push(Op::CharSet(lo, hi)),
        // two halves
        2 if lo < hi => {
            let m = b.atoms.cuts.iter().copied().find(|c| *c > lo && *c <= hi);
            match m {
                Some(m) => {
                    let x = b.push(Op::Range(lo, m - 1))?;
                    let y = b.push(Op::Range(m, hi))?;
                    syn_join(b, s, &[x, y], true)
                }
                None => b.push(Op::Range(lo, hi)),
            }
        }
        // two overlapping ranges
        3 => {
            let x = b.push(Op::Range(0, hi))?;
            let y = b.push(Op::Range(lo, MAXC))?;
            syn_join(b, s, &[x, y], false)
        }
        4 => b.push(Op::SmtRange(vec![lo], vec![hi])),
        _ => b.push(Op::Range(lo, hi)),
    }
}

fn syn_rep(b: &mut Builder, s: &mut Src, x: usize, i: u32, j: Option<u32>, depth: usize) -> Option<usize> {
    let plain = |b: &mut Builder| b.push(Op::Loop(x, i, j));
    if depth == 0 {
        return plain(b);
    }
    match (s.us(6), i, j) {
        (0, 0, None) => b.push(Op::Star(x)),
        (0, 1, None) => b.push(Op::Plus(x)),
        (0, 0, Some(1)) => b.push(Op::Opt(x)),
        (0, _, Some(j)) if i == j => b.push(Op::Exp(x, i)),
        (0, _, Some(j)) => b.push(Op::SmtLoop(x, i, j)),
        // split
        (1 | 2, ..) => {
            let k = s.range32(0, i);
            let j2 = j.map(|j| j - i);
            let l = j2.map_or(0, |m| s.range32(0, m));
            let r1 = syn_rep(b, s, x, k, Some(k + l), depth - 1)?;
            let r2 = syn_rep(b, s, x, i - k, j2.map(|m| i - k + m - l), depth - 1)?;
            let v = if s.us(2) == 0 { [r1, r2] } else { [r2, r1] };
            syn_cat(b, s, &v)
        }
        // union of two parts
        (3, ..) => {
            let m = s.range32(i, j.unwrap_or(i + 3));
            let r1 = syn_rep(b, s, x, i, Some(m), depth - 1)?;
            let m = s.range32(i, m + 1);
            let r2 = syn_rep(b, s, x, m.min(j.unwrap_or(m)), j, depth - 1)?;
            syn_join(b, s, &[r1, r2], true)
        }
        // nested
        (4, ..) => match j {
            Some(j) if i == j && i > 1 => {
                let f = (2..=i).find(|f| i % f == 0).unwrap_or(i);
                let e = syn_rep(b, s, x, f, Some(f), depth - 1)?;
                syn_rep(b, s, e, i / f, Some(i / f), depth - 1)
            }
            Some(j) if i == 0 => {
                let o = b.push(Op::Opt(x))?;
                b.push(Op::Loop(o, s.range32(0, j), Some(j)))
            }
            None if i <= 1 => {
                let e = syn_rep(b, s, x, i, None, depth - 1)?;
                syn_rep(b, s, e, i, None, depth - 1)
            }
            _ => plain(b),
        },
        // written out
        (5, ..) => {
            let mut v = vec![x; i as usize];
            match j {
                Some(j) if j > i => {
                    let o = b.push(Op::Opt(x))?;
                    v.extend(vec![o; (j - i) as usize]);
                }
                None => v.push(b.push(Op::Star(x))?),
                _ => (),
            }
            shuffle(s, &mut v);
            syn_cat(b, s, &v)
        }
        _ => plain(b),
    }
}

/// a term for `a`, written in a randomly chosen way
fn syn_build(b: &mut Builder, s: &mut Src, a: &Syn) -> Option<usize> {
    let x = match a {
        Syn::Empty => b.push(Op::Empty)?,
        Syn::Eps => match s.us(3) {
            0 => b.push(Op::Str(vec![]))?,
            _ => b.push(Op::Eps)?,
        },
        Syn::Full => match s.us(4) {
            0 => {
                let x = b.push(Op::Empty)?;
                b.push(Op::Comp(x))?
            }
            1 => {
                let x = b.push(Op::AllChar)?;
                b.push(Op::Star(x))?
            }
            2 => {
                let x = b.push(Op::SigmaPlus)?;
                b.push(Op::Opt(x))?
            }
            _ => b.push(Op::All)?,
        },
        Syn::Any => match s.us(3) {
            0 => b.push(Op::Range(0, MAXC))?,
            _ => b.push(Op::AllChar)?,
        },
        Syn::Set(lo, hi) => syn_set(b, s, *lo, *hi)?,
        Syn::Word(w) => match s.us(6) {
            // letters
            0 => {
                let mut v = vec![];
                for c in w {
                    v.push(syn_set(b, s, *c, *c)?);
                }
                syn_cat(b, s, &v)?
            }
            // two parts
            1 => {
                let m = s.us(w.len() + 1);
                let l = syn_build(b, s, &Syn::Word(w[..m].to_vec()))?;
                let r = syn_build(b, s, &Syn::Word(w[m..].to_vec()))?;
                b.push(Op::Concat(l, r))?
            }
            // powers
            2 | 3 => {
                let n = w.len();
                let p = (1..n).find(|p| n % p == 0 && (0..n - p).all(|i| w[i] == w[i + p]));
                match p {
                    Some(p) => {
                        let u = b.push(Op::Str(w[..p].to_vec()))?;
                        let k = (n / p) as u32;
                        syn_rep(b, s, u, k, Some(k), 2)?
                    }
                    None => {
                        // runs of one letter
                        let mut v = vec![];
                        let mut i = 0;
                        while i < n {
                            let mut j = i;
                            while j < n && w[j] == w[i] {
                                j += 1;
                            }
                            let c = b.push(Op::Char(w[i]))?;
                            let k = (j - i) as u32;
                            v.push(syn_rep(b, s, c, k, Some(k), 1)?);
                            i = j;
                        }
                        syn_cat(b, s, &v)?
                    }
                }
            }
            _ => b.push(Op::Str(w.clone()))?,
        },
        Syn::Cat(l) => {
            // distribute over the first union
            if let (Some(i), 0) = (l.iter().position(|x| matches!(x, Syn::Alt(_))), s.us(3)) {
                let Syn::Alt(alt) = &l[i] else { unreachable!() };
                let v: Vec<Syn> = alt
                    .iter()
                    .map(|x| {
                        let mut m = l.clone();
                        m[i] = x.clone();
                        Syn::Cat(m)
                    })
                    .collect();
                let mut w = vec![];
                for x in &v {
                    w.push(syn_build(b, s, x)?);
                }
                syn_join(b, s, &w, true)?
            } else {
                let mut v = vec![];
                for x in l {
                    v.push(syn_build(b, s, x)?);
                }
                if s.us(5) == 0 {
                    let e = b.push(Op::Eps)?;
                    v.insert(s.us(v.len() + 1), e);
                }
                syn_cat(b, s, &v)?
            }
        }
        Syn::Alt(l) | Syn::And(l) => {
            let union = matches!(a, Syn::Alt(_));
            let mut v = vec![];
            for x in l {
                v.push(syn_build(b, s, x)?);
            }
            if s.us(6) == 0 {
                // the neutral element, or an operand already covered
                let e = match (union, s.us(2)) {
                    (true, 0) => b.push(Op::Empty)?,
                    (false, 0) => b.push(Op::All)?,
                    (true, _) => b.push(Op::Inter(v[0], v[v.len() - 1]))?,
                    (false, _) => b.push(Op::Union(v[0], v[v.len() - 1]))?,
                };
                v.push(e);
            }
            syn_join(b, s, &v, union)?
        }
        Syn::Not(x) => match (&**x, s.us(3)) {
            (Syn::Alt(l) | Syn::And(l), 0) => {
                let mut v = vec![];
                for y in l {
                    let t = syn_build(b, s, y)?;
                    v.push(b.push(Op::Comp(t))?);
                }
                syn_join(b, s, &v, matches!(**x, Syn::And(_)))?
            }
            (_, 1) => {
                let f = b.push(Op::All)?;
                let t = syn_build(b, s, x)?;
                b.push(Op::Diff(f, t))?
            }
            _ => {
                let t = syn_build(b, s, x)?;
                b.push(Op::Comp(t))?
            }
        },
        Syn::Rep(x, i, j) => {
            let t = syn_build(b, s, x)?;
            syn_rep(b, s, t, *i, *j, 2)?
        }
    };
    // laws that hold everywhere
    Some(match s.us(14) {
        0 => {
            let c = b.push(Op::Comp(x))?;
            b.push(Op::Comp(c))?
        }
        1 => {
            let y = syn_build(b, s, a)?;
            let o = match s.us(4) {
                0 => Op::Union(x, y),
                1 => Op::Inter(x, y),
                2 => Op::UnionList(vec![y, x]),
                _ => Op::InterList(vec![y, x]),
            };
            b.push(o)?
        }
        2 => b.push(Op::Loop(x, 1, Some(1)))?,
        _ => x,
    })
}

/// A few languages written in several ways, next to almost equal ones, then combined
pub fn gen_syn(s: &mut Src) -> Prog {
    let _caps = Caps::set(6_000, 400);
    let pool = match s.us(5) {
        0 => vec![97, 98],
        1 | 2 => vec![97, 98, 99],
        3 => gen_pool(s, 3),
        // characters that terms are printed with
        _ => vec![0x26, 0x28, 0x29, 0x2b, 0x32, 0x5e, 0x61],
    };
    let mut b = Builder::new(pool.clone());
    let k = 1 + s.us(3);
    let a = syn_gen(s, &pool, k);
    let mut v = vec![];
    for i in 0..2 + s.us(3) {
        let x = match i {
            0 | 1 => a.clone(),
            _ => syn_near(s, &a, &pool),
        };
        v.extend(syn_build(&mut b, s, &x));
    }
    if s.us(3) == 0 {
        let x = syn_near(s, &a, &pool);
        v.extend(syn_build(&mut b, s, &x));
    }
    if v.is_empty() {
        v.extend(b.push(Op::Eps));
    }
    shuffle(s, &mut v);
    let (x, y) = (v[0], v[v.len() - 1]);
    let c = |s: &mut Src, b: &mut Builder| b.push(Op::Char(*s.pick(&pool))).expect("small");
    match s.us(8) {
        0 => {
            b.push(Op::Inter(x, y));
            b.push(Op::InterList(v));
        }
        1 => {
            b.push(Op::Union(x, y));
            b.push(Op::UnionList(v));
        }
        2 => {
            b.push(Op::Diff(x, y));
            b.push(Op::Diff(y, x));
        }
        3 => {
            let (i, j) = gen_loop_bounds(s, 3);
            b.push(Op::Concat(x, y));
            b.push(Op::Concat(y, x));
            b.push(Op::Loop(x, i, j));
        }
        // told apart by what comes before
        4 | 5 => {
            let mut w = vec![];
            for (i, x) in v.iter().enumerate() {
                let l = b.push(Op::Char(pool[i % pool.len()])).expect("small");
                w.extend(b.push(Op::Concat(l, *x)));
            }
            b.push(Op::UnionList(w));
        }
        // or after
        6 => {
            let mut w = vec![];
            for x in &v {
                let l = c(s, &mut b);
                w.extend(b.push(Op::Concat(*x, l)));
            }
            b.push(if s.us(2) == 0 { Op::UnionList(w) } else { Op::InterList(w) });
        }
        _ => {
            let l = c(s, &mut b);
            let w = [x, l, y];
            let o = Op::ConcatList(w.to_vec());
            b.push(o);
        }
    }
    let k = s.us(4);
    b.tail(s, k, 3);
    b.prog()
}

/// A size up to m: near a power of two, anything, or small
pub fn huge_num(s: &mut Src, m: usize) -> usize {
    match s.us(8) {
        0 => s.us(m.min(40) + 1),
        1 | 2 => m / 2 + s.us(m / 2 + 1),
        3 => s.us(m + 1),
        4 => {
            let d = *s.pick(&[10usize, 100, 1000, 10_000, 100_000]);
            (d + s.us(3)).saturating_sub(1).min(m)
        }
        _ => {
            let k = 5 + s.us(13);
            ((1usize << k) + s.us(3) - 1).min(m)
        }
    }
}

/// Linear or modular languages with up to about `max` residuals, in a few families
pub fn gen_huge(s: &mut Src, max: usize) -> Prog {
    let _caps = Caps::set(3 * max + 2000, 2 * max + 1000);
    let pool = match s.us(3) {
        0 => vec![97],
        1 => vec![97, 98],
        _ => gen_pool(s, 2),
    };
    let np = pool.len();
    let mut b = Builder::new(pool.clone());
    let (first, last) = (pool[0], pool[np - 1]);
    // a unit and the length of its members
    let unit = |b: &mut Builder, s: &mut Src, c: u32| -> (usize, usize) {
        let (o, l) = match s.us(8) {
            0..=3 => (Op::Char(c), 1),
            4 => (Op::AllChar, 1),
            5 => (Op::Range(first, last), 1),
            _ => {
                let l = 2 + s.us(4);
                let mut w = vec![c];
                w.extend((1..l).map(|_| *s.pick(&pool)));
                (Op::Str(w), l)
            }
        };
        (b.push(o).expect("small"), l)
    };
    // a counted repetition with about n residuals
    let counted = |b: &mut Builder, s: &mut Src, c: u32, m: usize| -> Option<usize> {
        let (x, l) = unit(b, s, c);
        let (i, j) = (huge_num(s, m / l) as u32, huge_num(s, m / l) as u32);
        let o = match s.us(6) {
            0 | 1 => Op::Exp(x, i),
            2 => Op::Loop(x, i, None),
            3 => Op::Loop(x, 0, Some(j)),
            4 => Op::SmtLoop(x, i.min(j), i.max(j)),
            _ => Op::Loop(x, i.min(j), Some(i.max(j))),
        };
        b.push(o)
    };
    match s.us(9) {
        0 | 1 => {
            counted(&mut b, s, first, max);
        }
        // a long word
        2 => {
            let n = huge_num(s, max.min(9_000));
            let period = 1 + s.us(7);
            let base: Vec<u32> = (0..period).map(|_| *s.pick(&pool)).collect();
            let noise = s.us(3);
            let w = (0..n).map(|i| if noise > 0 && s.us(50) == 0 { *s.pick(&pool) } else { base[i % period] }).collect();
            b.push(Op::Str(w));
        }
        // counted repetitions one after the other
        3 => {
            let mut v = vec![];
            for i in 0..2 + s.us(2) {
                v.extend(counted(&mut b, s, pool[i % np], max / 3));
            }
            if b.push(Op::ConcatList(v.clone())).is_none() {
                b.push(Op::ConcatList(v.into_iter().take(1).collect()));
            }
        }
        // far position
        4 => {
            let (x, _) = if s.us(2) == 0 { (b.push(Op::AllChar).expect("small"), 1) } else { unit(&mut b, s, first) };
            let n = huge_num(s, max) as u32;
            let e = b.push(Op::Exp(x, n));
            let c = b.push(Op::Char(last));
            let a = match s.us(3) {
                0 => b.push(Op::Star(x)),
                1 => b.push(Op::All),
                _ => b.push(Op::Eps),
            };
            b.push(Op::ConcatList([e, c, a].into_iter().flatten().collect()));
        }
        // two counted repetitions combined
        5 => {
            let x = counted(&mut b, s, first, max / 2);
            let c = if s.us(2) == 0 { first } else { last };
            let y = counted(&mut b, s, c, max / 2);
            if let (Some(x), Some(y)) = (x, y) {
                b.push(match s.us(4) {
                    0 => Op::Union(x, y),
                    1 => Op::Inter(x, y),
                    2 => Op::Diff(x, y),
                    _ => Op::Diff(y, x),
                });
            }
        }
        // cycles
        6 => {
            let (x, l) = unit(&mut b, s, first);
            let p = 1 + huge_num(s, (max as f64).sqrt() as usize * 2 / l);
            let q = 1 + s.us((max / p / l).max(1));
            let mut v = vec![];
            for m in [p, q] {
                let r = s.us(m);
                let e = b.push(Op::Exp(x, m as u32)).and_then(|e| b.push(Op::Star(e)));
                let f = b.push(Op::Exp(x, r as u32));
                if let (Some(e), Some(f)) = (e, f) {
                    v.extend(b.push(Op::Concat(f, e)));
                }
            }
            b.push(if s.us(3) == 0 { Op::UnionList(v) } else { Op::InterList(v) });
        }
        // a counted repetition of a counted repetition
        7 => {
            let n = 1 + huge_num(s, (max as f64).sqrt() as usize * 2);
            let m = 1 + s.us(max / n + 1) as u32;
            let (x, _) = unit(&mut b, s, first);
            let y = b.push(Op::Char(if s.us(3) == 0 { first } else { last })).expect("small");
            let l = s.us(m as usize + 1) as u32;
            let k = s.us(3);
            let z = match s.us(4) {
                0 => b.push(Op::Loop(x, s.us(n + 1) as u32, Some(n as u32))),
                1 => b.push(Op::Opt(y)).and_then(|o| b.push(Op::Concat(x, o))),
                _ => b.push(Op::Exp(x, n as u32)).and_then(|e| b.push(Op::Concat(e, y))),
            };
            if let Some(z) = z {
                b.push(match k {
                    0 => Op::Exp(z, m),
                    1 => Op::Loop(z, l, Some(m)),
                    _ => Op::Loop(z, m, None),
                });
            }
        }
        // many words: a tree of common prefixes
        _ => {
            let words = 2 + s.us(60);
            let len = 1 + s.us((max / words).clamp(1, 60));
            let mut v = vec![];
            let mut ws: Vec<Vec<u32>> = vec![];
            for _ in 0..words {
                let mut w: Vec<u32> = match ws.last() {
                    Some(p) if s.us(4) != 0 => p[..s.us(p.len() + 1)].to_vec(),
                    _ => vec![],
                };
                while w.len() < len {
                    w.push(*s.pick(&pool));
                }
                v.extend(b.push(Op::Str(w.clone())));
                ws.push(w);
            }
            b.push(Op::UnionList(v));
        }
    }
    if b.ops.is_empty() {
        b.push(Op::Eps);
    }
    for _ in 0..s.us(3) {
        let x = b.ops.len() - 1;
        match s.us(8) {
            0 | 1 => {
                b.push(Op::Comp(x));
            }
            2 => {
                b.push(Op::Opt(x));
            }
            3 | 4 => {
                let c = b.push(Op::Char(*s.pick(&pool))).expect("small");
                b.push(if s.us(2) == 0 { Op::Concat(c, x) } else { Op::Concat(x, c) });
            }
            5 => {
                let w = (0..s.us(6)).map(|_| *s.pick(&pool)).collect();
                let y = b.push(Op::Str(w)).expect("small");
                b.push(match s.us(3) {
                    0 => Op::Union(x, y),
                    1 => Op::Diff(x, y),
                    _ => Op::Diff(y, x),
                });
            }
            6 => {
                let (y, _) = unit(&mut b, s, last);
                if let Some(y) = b.push(Op::Star(y)) {
                    b.push(if s.us(2) == 0 { Op::Inter(x, y) } else { Op::Union(y, x) });
                }
            }
            _ => {
                b.push(Op::Star(x));
            }
        }
    }
    // a failed last op leaves small leaves after the large term: keep only what the large one needs
    let big = (0..b.ops.len()).max_by_key(|i| (b.dfa[*i].n(), *i)).unwrap();
    b.ops.truncate(big + 1);
    b.dfa.truncate(big + 1);
    let mut p = b.prog();
    p.roots = vec![big];
    p
}

/// A word made from one seed: a walk through live states until it ends (or to `max` characters),
/// complete, cut short, or with one edit
pub fn long_word(s: &mut Src, at: &Atoms, d: &Dfa, max: usize) -> Vec<u32> {
    let mut r = Src::random(s.below(1 << 32));
    let live = d.live();
    let mut w = vec![];
    let mut st = 0;
    // keep to one letter for a while: long runs get further than fair choices
    let mut keep = 0;
    let stop = if s.us(3) == 0 { s.us(max + 1) } else { max };
    while w.len() < stop {
        let good: Vec<usize> = (0..d.k).filter(|a| live[d.next(st, *a)]).collect();
        if good.is_empty() {
            break;
        }
        if !good.contains(&keep) || r.us(500) == 0 {
            keep = *r.pick(&good);
        }
        let (lo, hi) = (at.lo(keep), at.hi(keep));
        w.push(match r.us(3) {
            0 => lo,
            1 => hi,
            _ => lo + r.below((hi - lo) as u64 + 1) as u32,
        });
        st = d.next(st, keep);
    }
    let n = w.len();
    let edit = s.us(6);
    let near = |s: &mut Src| if s.us(2) == 0 { n - 1 - s.us(n.min(3)) } else { s.us(n) };
    match edit {
        1 => {
            w.pop();
        }
        2 => w.push(at.lo(s.us(at.len()))),
        3 if n > 0 => {
            let i = near(s);
            w[i] = at.lo(s.us(at.len()));
        }
        4 if n > 0 => {
            let i = near(s);
            w.remove(i);
        }
        5 if n > 0 => {
            let i = near(s);
            w.insert(i, at.lo(s.us(at.len())));
        }
        _ => (),
    }
    w
}

/// A language whose residuals are more than 16 bits can count
pub const BEYOND: usize = 72_000;
pub fn gen_beyond(s: &mut Src) -> Prog {
    let _caps = Caps::set(3 * BEYOND, 2 * BEYOND);
    let pool = if s.us(2) == 0 { vec![97, 98] } else { gen_pool(s, 2) };
    let (first, last) = (pool[0], pool[pool.len() - 1]);
    let mut b = Builder::new(pool.clone());
    let (x, l) = match s.us(5) {
        0 | 1 => (b.push(Op::Char(first)), 1),
        2 => (b.push(Op::AllChar), 1),
        3 => (b.push(Op::Range(first, last)), 1),
        _ => (b.push(Op::Str(vec![first, last])), 2),
    };
    let x = x.expect("small");
    let n = match s.us(3) {
        0 => (1 << 16) + s.us(4) - 1,
        _ => (1 << 16) + s.us(5000),
    } / l;
    let n = n as u32;
    let y = b.push(Op::Char(last)).expect("small");
    let form = s.us(6);
    let i = s.us(n as usize) as u32;
    match form {
        0 => b.push(Op::Exp(x, n)),
        1 => b.push(Op::Loop(x, n, None)),
        2 => b.push(Op::Loop(x, 0, Some(n))),
        3 => b.push(Op::Loop(x, i, Some(n))),
        4 => b.push(Op::Exp(x, n)).and_then(|e| b.push(Op::Concat(e, y))),
        _ => b.push(Op::Exp(x, n)).and_then(|e| b.push(Op::Star(e))),
    };
    let r = b.ops.len() - 1;
    match s.us(6) {
        0 => {
            b.push(Op::Comp(r));
        }
        1 => {
            let w = (0..s.us(4)).map(|_| *s.pick(&pool)).collect();
            let w = b.push(Op::Str(w)).expect("small");
            b.push(Op::Union(r, w));
        }
        2 => {
            b.push(Op::Star(y)).and_then(|z| b.push(Op::Concat(r, z)));
        }
        3 => {
            b.push(Op::Concat(y, r));
        }
        _ => (),
    }
    let n = b.ops.len() - 1;
    let mut p = b.prog();
    p.roots = vec![n];
    p
}

/// A counted loop with hundreds of thousands of derivatives. The reference is a count: the result is
/// the program and the length of its shortest member
pub fn gen_vast(s: &mut Src, max: u32) -> (Vec<Op>, Vec<u32>, usize) {
    let pool = if s.us(2) == 0 { vec![97, 98] } else { gen_pool(s, 2) };
    let (first, last) = (pool[0], pool[pool.len() - 1]);
    let (unit, l) = match s.us(5) {
        0 | 1 => (Op::Char(first), 1),
        2 => (Op::AllChar, 1),
        3 => (Op::Range(first, last), 1),
        _ => (Op::Str(vec![first, last, first]), 3),
    };
    let n = s.range32(max / 4, max) / l;
    let i = s.range32(1, n);
    let (body, min) = match s.us(4) {
        0 => (Op::Exp(0, n), n),
        1 => (Op::Loop(0, n, None), n),
        _ => (Op::Loop(0, i, Some(n)), i),
    };
    let mut ops = vec![unit, body];
    let mut min = (min * l) as usize;
    match s.us(3) {
        0 => {
            ops.extend([Op::Char(last), Op::Concat(1, 2)]);
            min += 1;
        }
        1 => {
            ops.extend([Op::Char(first), Op::Concat(2, 1)]);
            min += 1;
        }
        _ => (),
    }
    (ops, pool, min)
}

/// the closure of the result is about as large as its reference: no term of it is expensive to explore
pub fn huge_fits(p: &Prog, max: usize) -> bool {
    // long words are deep terms, but cheap ones
    let words = p.ops.iter().any(|o| matches!(o, Op::Str(w) if w.len() > 100));
    light_prog(p, 3 * max + 100, if words { 30_000_000 } else { 16 * max + 1000 })
}
/// half of the huge cases stay below a few thousand residuals
pub fn huge_size(s: &mut Src, max: usize) -> usize {
    match s.us(4) {
        0 => max,
        1 => max / 4,
        _ => max / 16,
    }
}

/// size of the largest result language
pub fn label_sizes(ctx: &mut Ctx, p: &Prog) {
    let n = p.roots.iter().map(|r| p.dfa[*r].n()).max().unwrap_or(0);
    ctx.label(match n {
        0..=10 => "minimal automaton 1-10 states",
        11..=50 => "minimal automaton 11-50 states",
        51..=255 => "minimal automaton 51-255 states",
        256..=4095 => "minimal automaton 256-4095 states",
        4096..=16383 => "minimal automaton 4096-16383 states",
        16384..=65535 => "minimal automaton 16384-65535 states",
        _ => "minimal automaton > 65535 states",
    });
    ctx.label(match p.atoms.len() {
        0..=10 => "characters in 1-10 groups",
        11..=30 => "characters in 11-30 groups",
        _ => "characters in > 30 groups",
    });
}

pub fn label_ops(ctx: &mut Ctx, ops: &[Op]) {
    for o in ops {
        ctx.label(&format!("op:{}", o.name()));
    }
}

/// A word: mostly guided through live states of d, over atom end points
pub fn gen_word(s: &mut Src, at: &Atoms, d: &Dfa, max: usize) -> Vec<u32> {
    let live = d.live();
    let mut w = vec![];
    let mut st = 0;
    let n = s.us(max + 1);
    for _ in 0..n {
        let guided = s.us(4) != 0;
        let good: Vec<usize> = (0..d.k).filter(|a| live[d.next(st, *a)]).collect();
        let a = if guided && !good.is_empty() { *s.pick(&good) } else { s.us(d.k) };
        let (lo, hi) = (at.lo(a), at.hi(a));
        w.push(match s.us(3) {
            0 => lo,
            1 => hi,
            _ => lo + s.below((hi - lo) as u64 + 1) as u32,
        });
        st = d.next(st, a);
    }
    w
}

/// the characters at which the behaviour of a term over `at` may change
pub fn probes(at: &Atoms) -> Vec<(usize, u32)> {
    let mut v = vec![];
    for a in 0..at.len() {
        v.push((a, at.lo(a)));
        if at.hi(a) != at.lo(a) {
            v.push((a, at.hi(a)));
        }
        if at.hi(a) - at.lo(a) >= 2 {
            v.push((a, at.lo(a) + (at.hi(a) - at.lo(a)) / 2));
        }
    }
    v
}

/// The derivative closure of e has at most `terms` terms and these are small
/// on average: exploring it is cheap
pub fn light(re: &mut ReManager, e: RegLan, at: &Atoms, terms: usize, budget: usize) -> bool {
    let mut seen = std::collections::HashSet::new();
    seen.insert(e as *const _ as usize);
    let mut list = vec![e];
    let mut work = 0;
    let mut i = 0;
    while i < list.len() {
        let t = list[i];
        // a long word is a deep term, but a cheap one
        let cap = if budget > 10_000_000 { 400 } else { 40_000 };
        let n = aws_smt_strings::regular_expressions::sub_terms(t).take(cap).count();
        // the operands of a union are compared with one another
        work += n + n.min(400) * n / 32;
        if work > budget || list.len() > terms {
            return false;
        }
        for a in 0..at.len() {
            let d = re.char_derivative(t, at.lo(a));
            if seen.insert(d as *const _ as usize) {
                list.push(d);
            }
        }
        i += 1;
    }
    true
}
/// the same for all results of a program, on a manager of its own
pub fn light_prog(p: &Prog, terms: usize, budget: usize) -> bool {
    let mut re = ReManager::new();
    let t = build(&mut re, &p.ops);
    p.roots.iter().all(|r| light(&mut re, t[*r], &p.atoms, terms, budget))
}
pub const HEAVY: usize = 100_000;

pub struct Bisim {
    pub pairs: usize,
    pub terms: usize,
    pub complete: bool,
}

/// Check language equality of a term with a reference DFA by a synchronous
/// walk: every (derivative, state) pair reached must agree on nullability.
pub fn bisim(re: &mut ReManager, e: RegLan, d: &Dfa, at: &Atoms, limit: usize) -> R<Bisim> {
    bisim_from(re, e, d, 0, at, limit, &mut HashMap::new())
}

pub type Seen = HashMap<(usize, usize), ()>;

pub fn bisim_from(
    re: &mut ReManager,
    e: RegLan,
    d: &Dfa,
    start: usize,
    at: &Atoms,
    limit: usize,
    seen: &mut Seen,
) -> R<Bisim> {
    let key = |e: RegLan, s: usize| (e as *const _ as usize, s);
    let mut list: Vec<(RegLan, usize, usize, u32)> = vec![];
    let mut info = Bisim { pairs: 0, terms: 0, complete: true };
    if seen.insert(key(e, start), ()).is_none() {
        list.push((e, start, 0, 0));
    }
    let pr = probes(at);
    let mut i = 0;
    while i < list.len() {
        let (t, s, _, _) = list[i];
        if t.nullable != d.f[s] {
            let mut w = vec![];
            let mut j = i;
            while j != 0 {
                w.push(list[j].3);
                j = list[j].2;
            }
            w.reverse();
            return Err(Stop::Fail(format!(
                "after {} the term {} is nullable={} but the reference language {} that string",
                show_word(&w),
                t,
                t.nullable,
                if d.f[s] { "contains" } else { "does not contain" }
            )));
        }
        if list.len() > limit {
            info.complete = false;
            break;
        }
        for (a, c) in &pr {
            let x = re.char_derivative(t, *c);
            let s2 = d.next(s, *a);
            if seen.insert(key(x, s2), ()).is_none() {
                list.push((x, s2, i, *c));
            }
        }
        i += 1;
    }
    info.pairs = list.len();
    Ok(info)
}

#[cfg(test)]
mod tests {
    use super::*;

    /// the two references agree: automata against the matrices of sub-word membership
    #[test]
    fn automata_against_spans() {
        for seed in 0..6000 {
            let mut s = Src::random(seed);
            let p = match s.us(8) {
                0 => gen_wide(&mut s),
                1 => gen_deep(&mut s, 60),
                2 => gen_huge(&mut s, 200),
                _ => {
                    let mut cfg = CFG;
                    cfg.max_ops = 1 + s.us(12);
                    gen_prog(&mut s, cfg)
                }
            };
            for _ in 0..6 {
                let i = s.us(p.ops.len());
                let mut w = gen_word(&mut s, &p.atoms, &p.dfa[i], 20);
                w.truncate(30);
                let m = spans(&p.ops, &w);
                for (j, d) in p.dfa.iter().enumerate() {
                    assert_eq!(d.accepts(&p.atoms, &w), m[j][0] >> w.len() & 1 == 1, "seed {seed} r{j} of {}", p.show());
                }
            }
        }
    }
}
