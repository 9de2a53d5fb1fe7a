//! C12: merge_partitions is the coarsest common refinement.
use super::parts::*;
use crate::engine::*;
use crate::ensure;
use crate::regen::hash_of;
use crate::src::Src;
use aws_smt_strings::character_sets::{merge_partition_list, merge_partitions, CharPartition};

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "A case is a pair or a list of partitions. Non-trivial: at least two non-empty partitions. Distinct: \
               different pair/list.",
        assumptions: &[
            "classes are intervals, so two characters separated by an interval of a different class are in different \
             intervals of the merge even when both partitions class them alike (nested intervals): the oracle is the \
             unique list of maximal intervals on which the pair of classes is constant, without the run of characters \
             outside both partitions",
        ],
        modes: vec![
            Mode::exh("pairs-of-cells", pairs, 8).both(),
            Mode::exh("triples-of-cells", triples, 8),
            Mode::random("random-pairs", random_pairs, 450_000, 8_000_000, 20_000),
            Mode::random("thousands", thousands, 240, 8_000, 8),
            Mode::random("one-into-many", one_into_many, 12_000, 600_000, 800),
            Mode::random("random-lists", random_lists, 180_000, 3_000_000, 8_000),
        ],
    }
}

/// reference: cut at every boundary, tag each elementary segment with the tuple of classes,
/// merge equal neighbours, drop the segments outside everything
pub fn ref_merge(ps: &[Vec<I>]) -> Vec<I> {
    let mut cuts: Vec<u32> = vec![0];
    for p in ps {
        for i in p {
            cuts.push(i.0);
            if i.1 < MAX {
                cuts.push(i.1 + 1);
            }
        }
    }
    cuts.sort_unstable();
    cuts.dedup();
    let mut out: Vec<(I, Vec<Option<usize>>)> = vec![];
    for (k, a) in cuts.iter().enumerate() {
        let b = if k + 1 < cuts.len() { cuts[k + 1] - 1 } else { MAX };
        let tag: Vec<Option<usize>> = ps.iter().map(|p| class(p, *a)).collect();
        match out.last_mut() {
            Some(l) if l.1 == tag => l.0 .1 = b,
            _ => out.push(((*a, b), tag)),
        }
    }
    out.into_iter().filter(|(_, t)| t.iter().any(|x| x.is_some())).map(|(i, _)| i).collect()
}

fn check_pair(a: &[I], b: &[I]) -> R {
    let (p, q) = (by_push(a), by_push(b));
    let want = ref_merge(&[a.to_vec(), b.to_vec()]);
    let m = merge_partitions(&p, &q);
    check_structure(&format!("merge_partitions({}, {})", show(a), show(b)), &m, &want)?;
    let m = merge_partitions(&q, &p);
    check_structure(&format!("merge_partitions({}, {})", show(b), show(a)), &m, &want)?;
    Ok(())
}

fn check_list(l: &[Vec<I>], orders: &[Vec<usize>]) -> R {
    let want = ref_merge(l);
    for o in orders {
        let ps: Vec<CharPartition> = o.iter().map(|i| by_push(&l[*i])).collect();
        let name = || {
            format!(
                "merge_partition_list({})",
                o.iter().map(|i| show(&l[*i])).collect::<Vec<_>>().join(", ")
            )
        };
        let m = merge_partition_list(ps.iter());
        ensure!(m.len() <= 4 * want.len() + 4, "{}: {} intervals, expected {}", name(), m.len(), want.len());
        check_structure(&name(), &m, &want)?;
    }
    Ok(())
}

fn pairs(s: &mut Src, ctx: &mut Ctx) -> R {
    const C: [I; 6] = [(0, 0), (1, 1), (2, 0x61), (0x62, MAX - 2), (MAX - 1, MAX - 1), (MAX, MAX)];
    let (a, b) = (cells(s, &C), cells(s, &C));
    let (Some(a), Some(b)) = (a, b) else { return Ok(()) };
    if !ctx.begin(hash_of(&(&a, &b)), !a.is_empty() && !b.is_empty(), || format!("{} {}", show(&a), show(&b))) {
        return Ok(());
    }
    check_pair(&a, &b)
}

fn triples(s: &mut Src, ctx: &mut Ctx) -> R {
    const C: [I; 4] = [(0, 0), (1, 0x61), (0x62, MAX - 1), (MAX, MAX)];
    let l: Vec<Option<Vec<I>>> = (0..3).map(|_| cells(s, &C)).collect();
    let Some(l) = l.into_iter().collect::<Option<Vec<Vec<I>>>>() else { return Ok(()) };
    if !ctx.begin(hash_of(&l), l.iter().filter(|p| !p.is_empty()).count() >= 2, || {
        l.iter().map(|p| show(p)).collect::<Vec<_>>().join(" ")
    }) {
        return Ok(());
    }
    check_list(&l, &[vec![0, 1, 2], vec![2, 0, 1], vec![1, 2, 0]])
}

/// a second partition that shares boundaries with the first
fn related(s: &mut Src, a: &[I], max: usize) -> Vec<I> {
    if s.us(3) == 0 || a.is_empty() {
        return gen(s, max);
    }
    let mut pts: Vec<u32> = probes(a);
    let extra = s.us(4);
    for _ in 0..extra {
        pts.push(s.below(0x30000) as u32);
    }
    let mut v: Vec<I> = vec![];
    let n = s.us(max + 1);
    let mut ends: Vec<u32> = (0..2 * n).map(|_| *s.pick(&pts)).collect();
    ends.sort_unstable();
    for c in ends.chunks(2) {
        if c.len() == 2 && v.last().is_none_or(|l: &I| l.1 < c[0]) {
            v.push((c[0], c[1]));
        }
    }
    v
}

fn random_pairs(s: &mut Src, ctx: &mut Ctx) -> R {
    let a = gen(s, 12);
    let b = related(s, &a, 12);
    if !ctx.begin(hash_of(&(&a, &b)), !a.is_empty() && !b.is_empty(), || format!("{} {}", show(&a), show(&b))) {
        return Ok(());
    }
    check_pair(&a, &b)
}

fn thousands(s: &mut Src, ctx: &mut Ctx) -> R {
    let sizes = [1usize, 40, 260, 1_000, 5_000, 40_000, 200_000];
    let (n, m) = (*s.pick(&sizes), *s.pick(&sizes));
    let (a, b) = (gen_many(s.below(1 << 32), n), gen_many(s.below(1 << 32), m));
    let many = s.us(4) == 0;
    if !ctx.begin(hash_of(&(&a, &b, many)), !a.is_empty() && !b.is_empty(), || format!("{} {}", show(&a), show(&b))) {
        return Ok(());
    }
    if many {
        // the same intervals dealt out to many partitions
        let k = 2 + n % 97;
        let l: Vec<Vec<I>> = (0..k).map(|i| a.iter().skip(i).step_by(k).take(3_000 / k).copied().collect()).collect();
        let o: Vec<usize> = (0..k).collect();
        let r: Vec<usize> = (0..k).rev().collect();
        ctx.label("list of many partitions");
        return check_list(&l, &[o, r]);
    }
    ctx.label(match a.len() + b.len() {
        0..=255 => "intervals < 256",
        256..=4095 => "intervals < 4096",
        4096..=65535 => "intervals < 65536",
        _ => "intervals >= 65536",
    });
    check_pair(&a, &b)
}

/// a partition of tens to hundreds of intervals and many of one or two intervals, whose ends are
/// ends of the others or next to them
fn one_into_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = *s.pick(&[3usize, 12, 20, 40, 70, 140, 300]);
    let base = gen_many(s.below(1 << 32), n);
    if base.is_empty() {
        return Err(Stop::Discard("empty partition"));
    }
    let end = |s: &mut Src| -> u32 {
        let (a, b) = base[s.us(base.len())];
        match s.us(8) {
            0 | 1 => a,
            2 | 3 => b,
            4 => a.saturating_sub(1),
            5 => (b + 1).min(MAX),
            6 => a + (b - a) / 2,
            _ => *s.pick(&[0, MAX, a]),
        }
    };
    let k = 1 + s.us(30);
    let mut l: Vec<Vec<I>> = vec![base.clone()];
    if s.us(3) == 0 {
        // the intervals dealt out
        let d = 2 + s.us(4);
        l = (0..d).map(|i| base.iter().skip(i).step_by(d).copied().collect()).collect();
    }
    for _ in 0..k {
        let (a, b, c, d) = (end(s), end(s), end(s), end(s));
        let mut v = vec![(a.min(b), a.max(b))];
        let x = (c.min(d), c.max(d));
        if s.us(4) == 0 && (x.1 < v[0].0 || v[0].1 < x.0) {
            v.push(x);
            v.sort_unstable();
        }
        let at = if s.us(3) == 0 { s.us(l.len() + 1) } else { l.len() };
        l.insert(at, v);
    }
    if !ctx.begin(hash_of(&l), true, || l.iter().map(|p| show(p)).collect::<Vec<_>>().join(" ")) {
        return Ok(());
    }
    for p in l.iter().rev().take(3) {
        check_pair(&base, p)?;
        check_pair(p, &base)?;
    }
    let o: Vec<usize> = (0..l.len()).collect();
    let r: Vec<usize> = (0..l.len()).rev().collect();
    check_list(&l, &[o, r])
}

fn random_lists(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.us(7);
    let mut l: Vec<Vec<I>> = vec![];
    for i in 0..n {
        let p = if i == 0 || s.us(2) == 0 {
            gen(s, 6)
        } else {
            let k = s.us(i);
            let base = l[k].clone();
            related(s, &base, 6)
        };
        l.push(p);
    }
    // the empty partition is neutral
    if s.us(2) == 0 {
        let k = s.us(l.len() + 1);
        l.insert(k, vec![]);
    }
    let mut orders = vec![(0..l.len()).collect::<Vec<_>>()];
    for _ in 0..2 {
        let mut o = orders[0].clone();
        shuffle(s, &mut o);
        orders.push(o);
    }
    if !ctx.begin(hash_of(&l), l.iter().filter(|p| !p.is_empty()).count() >= 2, || {
        l.iter().map(|p| show(p)).collect::<Vec<_>>().join(" ")
    }) {
        return Ok(());
    }
    check_list(&l, &orders)
}
