//! C11: CharPartition queries agree with the set-theoretic meaning.
use super::parts::*;
use crate::engine::*;
use crate::regen::hash_of;
use crate::src::Src;
use crate::{ensure, fail};
use aws_smt_strings::character_sets::{CharPartition, CharSet, ClassId, CoverResult};
use aws_smt_strings::errors::Error;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "A case is a partition (list of disjoint intervals) queried with every interval over its boundary \
               characters, or a list of possibly overlapping sets offered to try_from_iter in several orders. \
               Non-trivial: at least one interval and at least one query set that is not the alphabet; lists: at \
               least two sets. Distinct: different partition/list.",
        assumptions: &["push is only called with increasing disjoint intervals, as it requires"],
        modes: vec![
            Mode::exh("cells", cells_mode, 8).both(),
            Mode::exh("pairs-and-triples-of-sets", small_lists, 8),
            Mode::random("random", random, 180_000, 3_000_000, 5_000),
            Mode::random("thousands", thousands, 240, 8_000, 8),
            Mode::random("random-lists", random_lists, 240_000, 4_000_000, 10_000),
        ],
    }
}

pub const CELLS7: [I; 7] =
    [(0, 0), (1, 1), (2, 2), (3, MAX - 3), (MAX - 2, MAX - 2), (MAX - 1, MAX - 1), (MAX, MAX)];

fn check_cover(name: &str, q: &CharPartition, p: &[I], set: I) -> R {
    let c = cs(&set);
    let inside = p.iter().position(|i| i.0 <= set.0 && set.1 <= i.1);
    let meets = p.iter().any(|i| i.0 <= set.1 && set.0 <= i.1);
    let want = match (inside, meets) {
        (Some(i), _) => CoverResult::CoveredBy(i),
        (None, false) => CoverResult::DisjointFromAll,
        _ => CoverResult::Overlaps,
    };
    let got = q.interval_cover(&c);
    ensure!(
        got == want,
        "{name}: interval_cover([{:#x},{:#x}]) = {got:?}, expected {want:?}, on {}",
        set.0,
        set.1,
        show(p)
    );
    let got = q.class_of_set(&c);
    let want = match want {
        CoverResult::CoveredBy(i) => Ok(ClassId::Interval(i)),
        CoverResult::DisjointFromAll => Ok(ClassId::Complement),
        CoverResult::Overlaps => Err(Error::AmbiguousCharSet),
    };
    ensure!(
        got == want,
        "{name}: class_of_set([{:#x},{:#x}]) = {got:?}, expected {want:?}, on {}",
        set.0,
        set.1,
        show(p)
    );
    ensure!(
        q.good_char_set(&c) == want.is_ok(),
        "{name}: good_char_set([{:#x},{:#x}]) = {} on {}",
        set.0,
        set.1,
        q.good_char_set(&c),
        show(p)
    );
    Ok(())
}

fn all_ways(p: &[I], orders: &[Vec<usize>]) -> R<Vec<(&'static str, CharPartition)>> {
    let mut v = vec![("push", by_push(p))];
    if p.len() == 1 {
        v.push(("from_set", CharPartition::from_set(&cs(&p[0]))));
        let mut q = CharPartition::from_set(&cs(&p[0]));
        let _ = &mut q;
    }
    if !p.is_empty() {
        // from_set followed by push
        let mut q = CharPartition::from_set(&cs(&p[0]));
        for i in &p[1..] {
            q.push(i.0, i.1);
        }
        v.push(("from_set+push", q));
    }
    for o in orders {
        let l: Vec<CharSet> = o.iter().map(|i| cs(&p[*i])).collect();
        match CharPartition::try_from_iter(l.iter().copied()) {
            Ok(q) => v.push(("try_from_iter", q)),
            Err(e) => fail!("try_from_iter({l:?}) = {e:?} although the sets are pairwise disjoint"),
        }
        match CharPartition::try_from_list(&l) {
            Ok(q) => v.push(("try_from_list", q)),
            Err(e) => fail!("try_from_list({l:?}) = {e:?} although the sets are pairwise disjoint"),
        }
        // built from a prefix, then extended
        let k = l.len() / 2;
        if k > 0 {
            if let Ok(mut q) = CharPartition::try_from_list(&p[..k].iter().map(cs).collect::<Vec<_>>()) {
                for i in &p[k..] {
                    q.push(i.0, i.1);
                }
                v.push(("try_from_list+push", q));
            }
        }
    }
    Ok(v)
}

fn cells_mode(s: &mut Src, ctx: &mut Ctx) -> R {
    let Some(p) = cells(s, &CELLS7) else { return Ok(()) };
    if !ctx.begin(hash_of(&p), !p.is_empty(), || show(&p)) {
        return Ok(());
    }
    let n = p.len();
    let orders = vec![(0..n).collect::<Vec<_>>(), (0..n).rev().collect()];
    let pts = [0, 1, 2, 3, 4, 0x61, MAX - 4, MAX - 3, MAX - 2, MAX - 1, MAX];
    for (name, q) in all_ways(&p, &orders)? {
        check_structure(name, &q, &p)?;
        for i in 0..pts.len() {
            for j in i..pts.len() {
                ctx.count("queries", 1);
                check_cover(name, &q, &p, (pts[i], pts[j]))?;
            }
        }
    }
    Ok(())
}

fn list_case(l: &[I], ctx: &mut Ctx, orders: Vec<Vec<usize>>) -> R {
    let mut sorted = l.to_vec();
    sorted.sort_unstable();
    let disjoint = sorted.windows(2).all(|w| w[0].1 < w[1].0);
    ctx.label(if disjoint { "disjoint list" } else { "overlapping list" });
    for o in orders {
        let v: Vec<CharSet> = o.iter().map(|i| cs(&l[*i])).collect();
        for (name, r) in
            [("try_from_iter", CharPartition::try_from_iter(v.iter().copied())), ("try_from_list", CharPartition::try_from_list(&v))]
        {
            match r {
                Ok(q) => {
                    ensure!(disjoint, "{name}({v:?}) succeeds on sets that are not pairwise disjoint");
                    check_structure(name, &q, &sorted)?;
                }
                Err(e) => ensure!(!disjoint, "{name}({v:?}) = {e:?} although the sets are pairwise disjoint"),
            }
        }
    }
    Ok(())
}

fn small_lists(s: &mut Src, ctx: &mut Ctx) -> R {
    let pts = [0, 1, 2, 3, MAX - 1, MAX];
    let n = s.us(4);
    let k = pts.len();
    let l: Vec<I> = (0..n)
        .map(|_| {
            let i = s.us(k);
            let j = i + s.us(k - i);
            (pts[i], pts[j])
        })
        .collect();
    if !ctx.begin(hash_of(&l), n >= 2, || show(&l)) {
        return Ok(());
    }
    list_case(&l, ctx, vec![(0..n).collect()])
}

fn random(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen(s, 24);
    let mut orders = vec![];
    for _ in 0..2 {
        let mut o: Vec<usize> = (0..p.len()).collect();
        shuffle(s, &mut o);
        orders.push(o);
    }
    let pr = probes(&p);
    let mut sets = vec![];
    for _ in 0..40 {
        let i = s.us(pr.len());
        // mostly short spans of boundary characters
        let j = match s.us(3) {
            0 => i,
            1 => (i + s.us(6)).min(pr.len() - 1),
            _ => i + s.us(pr.len() - i),
        };
        sets.push((pr[i], pr[j]));
    }
    if !ctx.begin(hash_of(&(&p, &sets)), !p.is_empty(), || {
        format!("{} queried with {} sets, first {}", show(&p), sets.len(), show(&sets[..3]))
    }) {
        return Ok(());
    }
    for (name, q) in all_ways(&p, &orders)? {
        check_structure(name, &q, &p)?;
        for i in &sets {
            check_cover(name, &q, &p, *i)?;
        }
    }
    ctx.count("queries", sets.len() as u64);
    Ok(())
}

fn thousands(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = *s.pick(&[200usize, 300, 1_000, 5_000, 40_000, 200_000]);
    let p = gen_many(s.below(1 << 32), n);
    let seed = s.below(1 << 32);
    let way = s.us(3);
    if !ctx.begin(hash_of(&(&p, seed)), !p.is_empty(), || show(&p)) {
        return Ok(());
    }
    let mut r = Src::random(seed);
    let mut list: Vec<CharSet> = p.iter().map(cs).collect();
    let (name, q) = match way {
        0 => ("push", by_push(&p)),
        _ => {
            if way == 2 {
                shuffle(&mut r, &mut list);
            }
            match CharPartition::try_from_list(&list) {
                Ok(q) => ("try_from_list", q),
                Err(e) => fail!("try_from_list on {} pairwise disjoint sets fails with {e:?}", p.len()),
            }
        }
    };
    check_structure(name, &q, &p)?;
    let pr = probes(&p);
    for _ in 0..1000 {
        let i = r.us(pr.len());
        let j = match r.us(3) {
            0 => i,
            1 => (i + r.us(6)).min(pr.len() - 1),
            _ => i + r.us(pr.len() - i),
        };
        check_cover(name, &q, &p, (pr[i], pr[j]))?;
    }
    ctx.count("queries", 1000);
    // one overlap among very many sets must be found
    if p.len() >= 2 {
        let i = r.us(list.len());
        let extra = match r.us(3) {
            0 => list[i],
            1 => CharSet::singleton(p[r.us(p.len())].0),
            _ => CharSet::singleton(p[r.us(p.len())].1),
        };
        let at = r.us(list.len() + 1);
        list.insert(at, extra);
        ensure!(
            CharPartition::try_from_list(&list).is_err(),
            "try_from_list accepts {} sets of which {extra} overlaps another one",
            list.len()
        );
    }
    ctx.label(match p.len() {
        0..=255 => "intervals < 256",
        256..=4095 => "intervals < 4096",
        4096..=65535 => "intervals < 65536",
        _ => "intervals >= 65536",
    });
    Ok(())
}

fn random_lists(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut l = gen(s, 12);
    // break disjointness now and then, by little
    match s.us(4) {
        0 if l.len() >= 2 => {
            let i = s.us(l.len() - 1);
            let j = i + 1 + s.us(l.len() - i - 1);
            match s.us(4) {
                0 => l[i].1 = l[j].0,
                1 => l[j].0 = l[i].1,
                2 => l[i].1 = l[j].1,
                _ => l[j] = (l[i].0, l[i].0),
            }
        }
        1 if !l.is_empty() => {
            let i = s.us(l.len());
            let x = l[i];
            let j = s.us(l.len() + 1);
            l.insert(j, x);
        }
        _ => {}
    }
    for x in l.iter_mut() {
        if x.0 > x.1 {
            *x = (x.1, x.0);
        }
    }
    let mut orders = vec![];
    for _ in 0..3 {
        let mut o: Vec<usize> = (0..l.len()).collect();
        shuffle(s, &mut o);
        orders.push(o);
    }
    if !ctx.begin(hash_of(&l), l.len() >= 2, || show(&l)) {
        return Ok(());
    }
    list_case(&l, ctx, orders)
}
