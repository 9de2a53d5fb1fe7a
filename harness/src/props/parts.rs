//! Reference model of character partitions: sorted disjoint intervals.
use crate::engine::*;
use crate::ensure;
use crate::regen::SPECIAL;
use crate::src::Src;
use aws_smt_strings::character_sets::{CharPartition, CharSet, ClassId};

pub const MAX: u32 = 0x2FFFF;
pub type I = (u32, u32);

pub fn show(p: &[I]) -> String {
    if p.len() > 300 {
        return format!("{} ... {} ({} intervals)", show(&p[..6]), show(&p[p.len() - 6..]), p.len());
    }
    format!(
        "{{{}}}",
        p.iter().map(|i| format!("[{:#x},{:#x}]", i.0, i.1)).collect::<Vec<_>>().join(" ")
    )
}
pub fn cs(i: &I) -> CharSet {
    CharSet::range(i.0, i.1)
}

/// class of a character: Some(index) or None for the complement
pub fn class(p: &[I], x: u32) -> Option<usize> {
    // sorted and disjoint
    let k = p.partition_point(|i| i.1 < x);
    (k < p.len() && p[k].0 <= x).then_some(k)
}
pub fn covers_alphabet(p: &[I]) -> bool {
    let mut next = 0u64;
    for i in p {
        if i.0 as u64 != next {
            return false;
        }
        next = i.1 as u64 + 1;
    }
    next == MAX as u64 + 1
}
pub fn to_id(c: Option<usize>) -> ClassId {
    match c {
        Some(i) => ClassId::Interval(i),
        None => ClassId::Complement,
    }
}

pub fn probes(p: &[I]) -> Vec<u32> {
    let mut v = vec![0, 1, MAX - 1, MAX];
    for i in p {
        v.extend([i.0.saturating_sub(1), i.0, i.0 + (i.1 - i.0) / 2, i.1, (i.1 + 1).min(MAX)]);
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn by_push(p: &[I]) -> CharPartition {
    let mut r = CharPartition::new();
    for i in p {
        r.push(i.0, i.1);
    }
    r
}

/// The structural queries: intervals, complement, class ids, picks, class of characters
pub fn check_structure(name: &str, q: &CharPartition, p: &[I]) -> R {
    let n = p.len();
    let full = covers_alphabet(p);
    let got: Vec<(u32, u32)> = (0..q.len()).map(|i| q.get(i)).collect();
    ensure!(got == p, "{name}: intervals are {}, expected {}", show(&got), show(p));
    ensure!(q.len() == n && q.is_empty() == (n == 0), "{name}: len/is_empty wrong");
    let rs: Vec<CharSet> = q.ranges().copied().collect();
    ensure!(rs == p.iter().map(cs).collect::<Vec<_>>(), "{name}: ranges() = {rs:?}, expected {}", show(p));
    for (i, iv) in p.iter().enumerate() {
        ensure!(
            q.start(i) == iv.0 && q.end(i) == iv.1 && q.interval(i) == cs(iv),
            "{name}: start/end/interval({i}) wrong on {}",
            show(p)
        );
        let x = q.pick(i);
        ensure!(iv.0 <= x && x <= iv.1, "{name}: pick({i}) = {x:#x} on {}", show(p));
        let x = q.pick_in_class(ClassId::Interval(i));
        ensure!(iv.0 <= x && x <= iv.1, "{name}: pick_in_class(Interval({i})) = {x:#x} on {}", show(p));
    }
    ensure!(q.empty_complement() == full, "{name}: empty_complement() = {} on {}", q.empty_complement(), show(p));
    if !full {
        for x in [q.pick_complement(), q.pick_in_class(ClassId::Complement)] {
            ensure!(
                x <= MAX && class(p, x).is_none(),
                "{name}: witness {x:#x} is not in the complementary class of {}",
                show(p)
            );
        }
    }
    let want = n + !full as usize;
    ensure!(q.num_classes() == want, "{name}: num_classes() = {} on {}", q.num_classes(), show(p));
    for i in [0, 1, n.wrapping_sub(1), n, n + 1, n + 2, usize::MAX] {
        ensure!(
            q.valid_class_id(ClassId::Interval(i)) == (i < n),
            "{name}: valid_class_id(Interval({i})) wrong on {}",
            show(p)
        );
    }
    ensure!(
        q.valid_class_id(ClassId::Complement) == !full,
        "{name}: valid_class_id(Complement) wrong on {}",
        show(p)
    );
    // every non-empty class listed once, each pick in its class
    let mut ids: Vec<Option<usize>> = vec![];
    for c in q.class_ids().take(n + 5) {
        ids.push(match c {
            ClassId::Interval(i) => Some(i),
            ClassId::Complement => None,
        });
    }
    let picks: Vec<u32> = q.picks().take(n + 5).collect();
    ensure!(
        picks.iter().all(|x| *x <= MAX),
        "{name}: picks() yields a non-character: {picks:x?} on {}",
        show(p)
    );
    let mut pc: Vec<Option<usize>> = picks.iter().map(|x| class(p, *x)).collect();
    let mut all: Vec<Option<usize>> = (0..n).map(Some).collect();
    if !full {
        all.push(None);
    }
    all.sort();
    ids.sort();
    pc.sort();
    ensure!(ids == all, "{name}: class_ids() lists {ids:?} on {}", show(p));
    ensure!(pc == all, "{name}: picks() = {picks:x?} do not pick one character per class of {}", show(p));
    for x in probes(p) {
        let c = q.class_of_char(x);
        ensure!(c == to_id(class(p, x)), "{name}: class_of_char({x:#x}) = {c:?} on {}", show(p));
    }
    Ok(())
}

/// A random partition
pub fn gen(s: &mut Src, max: usize) -> Vec<I> {
    let n = s.us(max + 1);
    let style = s.us(4);
    let mut pts: Vec<u32> = vec![];
    let base = if style == 2 { s.below(0x2FF00) as u32 } else { 0 };
    for _ in 0..2 * n {
        pts.push(match style {
            0 => s.below(0x30000) as u32,
            1 => {
                if s.us(2) == 0 {
                    *s.pick(SPECIAL)
                } else {
                    s.below(0x30000) as u32
                }
            }
            2 => base + s.below(6 * n as u64 + 4) as u32,
            _ => {
                if s.us(2) == 0 {
                    s.below(8) as u32
                } else {
                    MAX - s.below(8) as u32
                }
            }
        });
    }
    pts.sort_unstable();
    let mut v: Vec<I> = vec![];
    let mut i = 0;
    while i + 1 < pts.len() {
        let (mut a, b) = (pts[i], pts[i + 1]);
        if let Some(l) = v.last() {
            if a <= l.1 {
                a = l.1 + 1;
            }
            // adjacent intervals
            if s.us(4) == 0 {
                a = l.1 + 1;
            }
        } else if s.us(4) == 0 {
            a = 0;
        }
        if a <= b && a <= MAX {
            v.push((a, b));
        }
        i += 2;
    }
    if let Some(l) = v.last_mut() {
        if s.us(4) == 0 {
            l.1 = MAX;
        }
    }
    v
}

/// Thousands of short intervals with short gaps
pub fn gen_many(seed: u64, n: usize) -> Vec<I> {
    let mut s = Src::random(seed);
    let (w, g) = (1 + s.below(4), s.below(4));
    // now and then no gaps for a long time, or a large one
    let mut a: u64 = match s.us(3) {
        0 => 0,
        1 => s.below(300),
        _ => s.below(0x10000),
    };
    let mut v = vec![];
    while v.len() < n && a <= MAX as u64 {
        let mut b = (a + s.below(w)).min(MAX as u64);
        if s.us(5000) == 0 {
            b = (b + s.below(5000)).min(MAX as u64);
        }
        v.push((a as u32, b as u32));
        a = b + 1 + s.below(g + 1);
        if s.us(3000) == 0 {
            a += s.below(3000);
        }
    }
    if let Some(l) = v.last_mut() {
        if s.us(4) == 0 {
            l.1 = MAX;
        }
    }
    v
}

/// Partitions of a fixed cell structure: every cell is in the complement (0),
/// starts an interval (1) or continues the previous one (2)
pub fn cells(s: &mut Src, cell: &[I]) -> Option<Vec<I>> {
    let mut v: Vec<I> = vec![];
    let mut open = false;
    let mut ok = true;
    for c in cell {
        match s.us(3) {
            0 => open = false,
            1 => {
                v.push(*c);
                open = true
            }
            _ => {
                if open {
                    v.last_mut().unwrap().1 = c.1
                } else {
                    ok = false
                }
            }
        }
    }
    if ok {
        Some(v)
    } else {
        None
    }
}

pub fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - s.us(i + 1);
        v.swap(i, j);
    }
}
