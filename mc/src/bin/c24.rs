//! C24: uniform-cost exploration yields every reachable square once, by rising cost.
use mc::model::*;
use mc::search::*;
use mc::*;
use sqrid::*;
use std::collections::{BTreeMap, HashMap};

const TOO_MUCH: u128 = usize::MAX as u128;

fn judge<P: Sp>(name: &str, it: &mut dyn Iterator<Item = (P, Dir)>, pr: &Priced, q: &Sq<P>, o: usize, low: &[Option<u128>], c: &mut Ctx) -> Res {
    let n = pr.lay.n();
    let mut seen = vec![false; n];
    let mut last = 0u128;
    let mut count = 0;
    while let Some((p, d)) = it.next() {
        c.step();
        let i = q.ix(&p);
        if count == 0 {
            same!(i, o, "{name} from {:?}: the first square is {p:?}", q.p[o]);
        }
        count += 1;
        let Some(cost) = low[i] else {
            bad!("{name} from {:?}: yields {p:?}, which can not be reached", q.p[o]);
        };
        if seen[i] {
            bad!("{name} from {:?}: yields {p:?} twice", q.p[o]);
        }
        seen[i] = true;
        if cost < last {
            bad!("{name} from {:?}: yields {p:?} of cost {cost} after a square of cost {last}", q.p[o]);
        }
        last = cost;
        if i == o || cost >= TOO_MUCH {
            continue;
        }
        // The reverse of the last step of a lowest-cost path
        let good = dirs(pr.lay.diag).contains(&d)
            && neigh(pr.lay.w, pr.lay.h, i, d).is_some_and(|j| {
                let b = opposite(d);
                let step = pr.cost[j][di(b)] as u128;
                pr.lay.succ(j, b) == Some(i)
                    && low[j].is_some_and(|l| l + step == cost)
                    // with a free step, the path to j must not pass through i
                    && (step > 0 || n > 100 || pr.lowest_without(o, i)[j] == low[j])
            });
        if !good {
            bad!("{name} from {:?}: {p:?} of cost {cost} reported with {d:?}, which is not the way back along a lowest-cost path", q.p[o]);
        }
    }
    if let Some(i) = (0..n).find(|&i| !seen[i] && low[i].is_some_and(|l| l < TOO_MUCH)) {
        bad!("{name} from {:?}: ends without {:?} (cost {:?})", q.p[o], q.p[i], low[i]);
    }
    if let Some(x) = it.next() {
        bad!("{name} from {:?}: goes on after its end with {x:?}", q.p[o]);
    }
    Ok(())
}

type Go<'a, P> = &'a dyn Fn(P, Dir) -> Option<(P, usize)>;
type Make<P> = for<'a> fn(Go<'a, P>, &P) -> Box<dyn Iterator<Item = (P, Dir)> + 'a>;

/// The variant that keeps the costs in a grid exists only for some types.
fn on_grid<'a, P: Sp, const D: bool, const W: usize, const S: usize>(go: Go<'a, P>, p: &P) -> Box<dyn Iterator<Item = (P, Dir)> + 'a> {
    Box::new(ucs::UcsIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(go, p))
}

fn case<P: Sp, const D: bool, const W: usize, const S: usize>(pr: &Priced, q: &Sq<P>, origins: &[usize], grid: Option<Make<P>>, maps: bool, c: &mut Ctx) -> Res {
    let go = pr.go(q);
    let go: Go<P> = &go;
    for &o in origins {
        c.state();
        let low = pr.lowest(o);
        c.outcome(&low);
        let p = &q.p[o];
        if let Some(grid) = grid {
            judge("with a grid", &mut *grid(go, p), pr, q, o, &low, c)?;
        }
        if maps {
            judge("with a hash map", &mut ucs::UcsIterator::<_, (HashMap<P, usize>, usize), P, D, W, S>::new(go, p), pr, q, o, &low, c)?;
            judge("with a tree map", &mut ucs::UcsIterator::<_, (BTreeMap<P, usize>, usize), P, D, W, S>::new(go, p), pr, q, o, &low, c)?;
        }
    }
    Ok(())
}

fn kinds<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check, prices: Prices, most: usize, every: bool) {
    let q = Sq::<Pos<X, Y>>::new();
    let some = spots(q.w, q.h, most);
    let what = format!("{} origins{}", some.len(), if every { ", with a grid, a hash map, a tree map" } else { ", with a grid" });
    priced(k, if every { "all variants" } else { "" }, prices, q.w, q.h, D, &what, move |pr, c| case::<Pos<X, Y>, D, W, S>(pr, &q, &some, Some(on_grid::<Pos<X, Y>, D, W, S>), every, c));
}

fn user<P: Sp, const D: bool>(k: &mut Check, name: &str, prices: Prices, q: Sq<P>, most: usize) {
    let some = spots(q.w, q.h, most);
    priced(k, name, prices, q.w, q.h, D, &format!("positions of type {name}, hash and tree maps, {} origins", some.len()), move |pr, c| case::<P, D, 0, 1>(pr, &q, &some, None, true, c));
}

/// Whatever way items are taken.
fn protocol<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check) {
    let q = Sq::<Pos<X, Y>>::new();
    priced(k, "taken in every way", Prices::Patterns, q.w, q.h, D, "every origin, with a grid and a hash map; every prefix of single steps, then every other way of going on", move |pr, c| {
        let go = pr.go(&q);
        let go: Go<Pos<X, Y>> = &go;
        for p in &q.p {
            let new = || ucs::UcsIterator::<_, Grid<usize, Pos<X, Y>, S>, _, D, W, S>::new(go, p);
            let mut all = vec![];
            let mut it = new();
            while let Some(x) = it.next() {
                if all.len() > S {
                    bad!("from {p:?}: more items than there are squares");
                }
                all.push(x);
            }
            iter::forward(&new, &all, &|| format!("from {p:?}"), c)?;
            iter::forward(&|| ucs::UcsIterator::<_, (HashMap<_, usize>, usize), _, D, W, S>::new(go, p), &all, &|| format!("with a hash map from {p:?}"), c)?;
        }
        Ok(())
    });
}

fn main() {
    let mut k = Check::new("C24", "cost assignments x origins explored", "squares yielded, each judged against the lowest costs");
    let deep = k.thorough();
    const ALL: usize = usize::MAX;
    const M: usize = usize::MAX;
    let st = |v: &[i64]| Prices::Steps(v.iter().map(|c| if *c < 0 { None } else { Some(*c as usize) }).collect());
    let en = |v: &[i64]| Prices::Entering(v.iter().map(|c| if *c < 0 { None } else { Some(*c as usize) }).collect());
    let huge = || Prices::Steps(vec![None, Some(0), Some(1), Some(M / 2), Some(M / 2 + 1), Some(M - 1), Some(M)]);
    both_diags! { kinds(&mut k, st(&[-1, 0, 1, 2, 7]), ALL, true); (0, 0) (1, 0) (0, 1) (2, 0) }
    both_diags! { kinds(&mut k, st(&[-1, 0, 1, 3]), ALL, false); (0, 2) (3, 0) (0, 3) }
    both_diags! { kinds(&mut k, huge(), ALL, true); (1, 0) (2, 0) }
    both_diags! { kinds(&mut k, huge(), ALL, false); (0, 1) (0, 2) (3, 0) }
    kinds::<1, 1, false, 1, 4>(&mut k, st(&[-1, 0, 1, 3]), ALL, true);
    kinds::<1, 1, false, 1, 4>(&mut k, st(&[-1, 0, 1, 2, 5]), ALL, false);
    kinds::<1, 1, false, 1, 4>(&mut k, Prices::Steps(vec![None, Some(1), Some(M / 2), Some(M - 1)]), ALL, false);
    kinds::<1, 1, true, 1, 4>(&mut k, st(&[-1, 1, 3]), ALL, true);
    kinds::<2, 1, false, 1, 6>(&mut k, st(&[1, 3]), ALL, true);
    kinds::<1, 2, false, 1, 6>(&mut k, st(&[0, 1]), ALL, false);
    kinds::<2, 1, true, 1, 6>(&mut k, en(&[-1, 0, 1, 2, 5]), ALL, true);
    kinds::<1, 2, false, 1, 6>(&mut k, en(&[-1, 0, 1, 2, 5]), ALL, false);
    kinds::<2, 2, false, 1, 9>(&mut k, en(&[-1, 1, 4]), ALL, false);
    kinds::<2, 2, true, 1, 9>(&mut k, en(&[-1, 1, 4]), ALL, false);
    kinds::<2, 2, true, 1, 9>(&mut k, en(&[0, 1, 5]), ALL, false);
    both_diags! { kinds(&mut k, en(&[1, 5]), 5, false); (3, 3) }
    both_diags! { kinds(&mut k, Prices::Patterns, 20, true); (6, 4) (7, 3) (32, 0) (0, 31) (2, 10) }
    both_diags! { kinds(&mut k, Prices::Patterns, 12, false); (4, 5) (3, 7) (15, 3) (9, 9) (30, 31) (99, 9) (255, 0) (0, 256) (63, 63) }
    both_diags! { kinds(&mut k, Prices::Patterns, 4, false); (65535, 0) (0, 65535) (127, 127) (255, 255) }
    both_diags! { protocol(&mut k); (0, 0) (1, 1) (2, 1) (0, 3) }
    // Prices next to each other that must not be confused, whatever the costs are kept in
    for b in [255, 65535, 1 << 24, (1 << 31) - 1, (1 << 32) - 1, 1 << 53, M / 2 - 1] {
        kinds::<1, 1, false, 1, 4>(&mut k, Prices::Steps(vec![Some(0), Some(1), Some(b), Some(b + 1)]), ALL, false);
    }
    for b in [127, 255, 32767, 65535, 1 << 23, 1 << 24, (1 << 31) - 1, (1 << 32) - 1, 1 << 48, 1 << 52, 1 << 53, 1 << 56, M / 4, M / 2 - 1, M - 2] {
        both_diags! { kinds(&mut k, Prices::Steps(vec![Some(0), Some(1), Some(b), Some(b + 1)]), ALL, true); (1, 0) (0, 2) }
        kinds::<1, 1, false, 1, 4>(&mut k, Prices::Entering(vec![Some(0), Some(1), Some(b - 1), Some(b), Some(b + 1)]), ALL, true);
        kinds::<1, 2, true, 1, 6>(&mut k, Prices::Entering(vec![Some(1), Some(b), Some(b + 1)]), ALL, true);
        kinds::<2, 1, false, 1, 6>(&mut k, Prices::Entering(vec![Some(1), Some(b), Some(b + 1)]), ALL, true);
    }
    if deep {
        both_diags! { protocol(&mut k); (2, 2) (3, 2) (4, 3) }
        kinds::<1, 1, true, 1, 4>(&mut k, st(&[-1, 0, 1, 3]), ALL, false);
        kinds::<1, 1, false, 1, 4>(&mut k, st(&[-1, 0, 1, 2, 3, 7, 20]), ALL, false);
        kinds::<2, 1, false, 1, 6>(&mut k, st(&[-1, 1, 3]), ALL, false);
        kinds::<1, 2, false, 1, 6>(&mut k, st(&[-1, 0, 1]), ALL, false);
        both_diags! { kinds(&mut k, en(&[-1, 0, 1, 4]), ALL, false); (2, 2) (3, 1) (1, 3) }
        both_diags! { kinds(&mut k, en(&[-1, 1, 5]), ALL, false); (3, 2) (2, 3) }
        both_diags! { kinds(&mut k, en(&[1, 9]), ALL, false); (3, 3) (4, 2) (2, 4) }
        both_diags! { kinds(&mut k, Prices::Patterns, 4, false); (65535, 1) (1, 65535) (299, 217) }
    }
    user::<Mix53, true>(&mut k, "Mix53", Prices::Patterns, Sq::new(), ALL);
    user::<Off1, false>(&mut k, "Off1", Prices::Patterns, Sq::new(), ALL);
    user::<Off2, true>(&mut k, "Off2", en(&[-1, 0, 1, 4]), Sq::new(), ALL);
    user::<Off2, false>(&mut k, "Off2", st(&[1, 3]), Sq::new(), ALL);
    user::<OneCol, true>(&mut k, "OneCol", st(&[-1, 0, 1, 2, 7]), Sq::new(), ALL);
    user::<OneSq, true>(&mut k, "OneSq", st(&[-1, 0, 1]), Sq::new(), ALL);
    user::<(u8, u8), false>(&mut k, "(u8,u8)", Prices::Patterns, Sq::new(), 3);
    user::<(i8, i8), true>(&mut k, "(i8,i8)", Prices::Patterns, Sq::new(), 3);
    macro_rules! part {
        ($($t:ident $n:literal $x:expr, $y:expr;)*) => { $(
            user::<($t, $t), false>(&mut k, concat!("(", stringify!($t), ",", stringify!($t), ") ", $n), Prices::Patterns, Sq::part($x as i128, $y as i128, 6, 7), ALL);
            user::<($t, $t), true>(&mut k, concat!("(", stringify!($t), ",", stringify!($t), ") ", $n), en(&[-1, 1, 3]), Sq::part($x as i128, $y as i128, 3, 2), ALL);
        )* }
    }
    part! {
        i32 "around zero" -3, -3;
        i32 "at the limits" i32::MIN, i32::MAX - 8;
        i16 "at the limits" i16::MAX - 8, i16::MIN;
        i8 "around zero" -2, -4;
        u16 "at the limits" u16::MAX - 8, 0;
        u32 "in the middle" 1_000_000, 3_000_000_000u32;
        u64 "at the limits" u64::MAX / 2 - 8, u64::MAX / 4;
        u128 "across 64 bits" (u64::MAX as i128 - 2), (u64::MAX as i128 - 3);
    }
    k.assume("movement functions that answer the same for the same arguments and lead to the adjacent square");
    k.assume("squares whose lowest total is usize::MAX or more may be missing");
    k.run()
}
