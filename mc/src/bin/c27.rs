//! C27: A* exploration yields every reachable square once, best estimate first.
use mc::model::*;
use mc::search::*;
use mc::*;
use sqrid::*;
use std::collections::{BTreeMap, HashMap};

type Go<'a, P> = &'a dyn Fn(P, Dir) -> Option<P>;
type Squares<'a, P> = Box<dyn Iterator<Item = (P, Dir)> + 'a>;
type Make<P> = for<'a> fn(Go<'a, P>, &P, &P) -> Squares<'a, P>;

/// The variant that keeps the distances in a grid exists only for some types.
fn on_grid<'a, P: Sp, const D: bool, const W: usize, const S: usize>(go: Go<'a, P>, o: &P, t: &P) -> Squares<'a, P> {
    Box::new(astar::AstarIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(go, o, t))
}

/// Lower bound of the number of steps between two squares.
fn bound(w: usize, diag: bool, a: usize, b: usize) -> usize {
    let dx = (a % w).abs_diff(b % w);
    let dy = (a / w).abs_diff(b / w);
    if diag {
        dx.max(dy)
    } else {
        dx + dy
    }
}

fn judge<P: Sp>(name: &str, it: &mut dyn Iterator<Item = (P, Dir)>, lay: &Lay, q: &Sq<P>, o: usize, t: usize, dist: &[Option<usize>], seen: &mut [bool], c: &mut Ctx) -> Res {
    let say = || format!("{name} from {:?} to {:?}", q.p[o], q.p[t]);
    seen.fill(false);
    let mut last = 0;
    let mut count = 0;
    while let Some((p, d)) = it.next() {
        c.step();
        let Some(i) = q.find(&p) else { bad!("{}: yields {p:?}, where no step leads", say()) };
        if count == 0 {
            same!(i, o, "{}: the first square is {p:?}", say());
        }
        count += 1;
        let Some(steps) = dist[i] else { bad!("{}: yields {p:?}, which can not be reached", say()) };
        if seen[i] {
            bad!("{}: yields {p:?} twice", say());
        }
        seen[i] = true;
        let est = steps + bound(lay.w, lay.diag, i, t);
        if est < last {
            bad!("{}: yields {p:?} ({steps} steps from the origin, estimate {est}) after a square of estimate {last}", say());
        }
        last = est;
        if i == o {
            continue;
        }
        let good = dirs(lay.diag).contains(&d) && neigh(lay.w, lay.h, i, d).is_some_and(|j| lay.succ(j, opposite(d)) == Some(i) && dist[j].is_some_and(|x| x + 1 == steps));
        if !good {
            bad!("{}: {p:?}, {steps} steps from the origin, reported with {d:?}, which is not the way back along a shortest path", say());
        }
    }
    if let Some(i) = (0..lay.n()).find(|&i| !seen[i] && dist[i].is_some()) {
        bad!("{}: ends without {:?}, {:?} steps from the origin", say(), q.p[i], dist[i]);
    }
    if let Some(x) = it.next() {
        bad!("{}: goes on after its end with {x:?}", say());
    }
    Ok(())
}

fn case<P: Sp, const D: bool>(lay: &Lay, q: &Sq<P>, spots: &[usize], grid: Option<Make<P>>, maps: bool, c: &mut Ctx) -> Res {
    let go = lay.go(q);
    let go: Go<P> = &go;
    let mut seen = vec![false; lay.n()];
    for &o in spots {
        let dist = lay.dist(o);
        c.outcome(&dist);
        for &t in spots {
            c.state();
            let (p, d) = (&q.p[o], &q.p[t]);
            if let Some(grid) = grid {
                judge("with a grid", &mut *grid(go, p, d), lay, q, o, t, &dist, &mut seen, c)?;
            }
            if maps {
                judge("with a hash map", &mut astar::AstarIterator::<_, (HashMap<P, usize>, usize), P, D, 0, 0>::new(go, p, d), lay, q, o, t, &dist, &mut seen, c)?;
                judge("with a tree map", &mut astar::AstarIterator::<_, (BTreeMap<P, usize>, usize), P, D, 0, 0>::new(go, p, d), lay, q, o, t, &dist, &mut seen, c)?;
            }
        }
    }
    Ok(())
}

fn lays<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check, kind: Kind, most: usize, every: bool) {
    let q = Sq::<Pos<X, Y>>::new();
    let some = if matches!(kind, Kind::Lanes(_)) { ends(q.w, q.h) } else { spots(q.w, q.h, most) };
    let name = format!("{} {}x{} {}{}", kind.bounds(), q.w, q.h, if D { 8 } else { 4 }, if every { ", every variant" } else { "" });
    layouts(k, &name, kind, q.w, q.h, D, &format!("{} origins x destinations", some.len()), move |lay, c| case::<Pos<X, Y>, D>(lay, &q, &some, Some(on_grid::<Pos<X, Y>, D, W, S>), every, c));
}

fn user<P: Sp, const D: bool>(k: &mut Check, name: &str, kind: Kind, q: Sq<P>, most: usize) {
    let some = spots(q.w, q.h, most);
    let fam = format!("{name} {} {}", kind.bounds(), if D { 8 } else { 4 });
    layouts(k, &fam, kind, q.w, q.h, D, &format!("positions of type {name}, hash and tree maps, {} origins x destinations", some.len()), move |lay, c| case::<P, D>(lay, &q, &some, None, true, c));
}

/// Whatever way items are taken.
fn protocol<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check) {
    let q = Sq::<Pos<X, Y>>::new();
    let name = format!("{} {}x{} {}, taken in every way", Kind::Mazes.bounds(), q.w, q.h, if D { 8 } else { 4 });
    layouts(k, &name, Kind::Mazes, q.w, q.h, D, "every origin, first and last square as destination, with a grid and a hash map; every prefix of single steps, then every other way of going on", move |lay, c| {
        let go = lay.go(&q);
        let go: Go<Pos<X, Y>> = &go;
        for p in &q.p {
            for d in [&q.p[0], &q.p[q.n() - 1]] {
                let new = || astar::AstarIterator::<_, Grid<usize, Pos<X, Y>, S>, _, D, W, S>::new(go, p, d);
                let mut all = vec![];
                let mut it = new();
                while let Some(x) = it.next() {
                    if all.len() > S {
                        bad!("from {p:?} to {d:?}: more items than there are squares");
                    }
                    all.push(x);
                }
                iter::forward(&new, &all, &|| format!("from {p:?} to {d:?}"), c)?;
                iter::forward(&|| astar::AstarIterator::<_, (HashMap<_, usize>, usize), _, D, W, S>::new(go, p, d), &all, &|| format!("with a hash map from {p:?} to {d:?}"), c)?;
            }
        }
        Ok(())
    });
}

fn main() {
    let mut k = Check::new("C27", "layouts x origins x destinations", "squares yielded, each judged against the distances");
    let deep = k.thorough();
    const ALL: usize = usize::MAX;
    both_diags! { lays(&mut k, Kind::Edges, ALL, true); (0, 0) (1, 0) (0, 2) (3, 0) }
    lays::<1, 1, false, 1, 4>(&mut k, Kind::Edges, ALL, true);
    lays::<1, 1, true, 1, 4>(&mut k, Kind::Edges, ALL, true);
    lays::<2, 1, false, 1, 6>(&mut k, Kind::Edges, ALL, false);
    lays::<1, 2, false, 1, 6>(&mut k, Kind::Edges, ALL, false);
    both_diags! { lays(&mut k, Kind::Walls, ALL, true); (2, 1) (1, 2) (2, 2) }
    both_diags! { lays(&mut k, Kind::Walls, ALL, false); (3, 2) (2, 3) }
    both_diags! { lays(&mut k, Kind::FewWalls(3), ALL, false); (3, 3) (4, 2) }
    both_diags! { lays(&mut k, Kind::FewMissing(1), ALL, true); (3, 2) (3, 3) }
    both_diags! { lays(&mut k, Kind::Mazes, ALL, true); (6, 4) (4, 6) (32, 0) (0, 31) (2, 10) (9, 9) }
    both_diags! { lays(&mut k, Kind::Mazes, 9, true); (30, 31) (99, 2) (15, 15) (63, 63) }
    both_diags! { lays(&mut k, Kind::Mazes, 4, false); (255, 3) (3, 256) (99, 99) (127, 127) (65535, 0) (0, 65535) }
    both_diags! { protocol(&mut k); (0, 0) (1, 1) (2, 1) (0, 3) }
    user::<Mix53, true>(&mut k, "Mix53", Kind::Mazes, Sq::new(), ALL);
    user::<Mix26, false>(&mut k, "Mix26", Kind::Walls, Sq::new(), ALL);
    user::<Off1, false>(&mut k, "Off1", Kind::Mazes, Sq::new(), ALL);
    user::<Off2, true>(&mut k, "Off2", Kind::Walls, Sq::new(), ALL);
    user::<Off3, true>(&mut k, "Off3", Kind::FewWalls(1), Sq::new(), ALL);
    user::<Off4, false>(&mut k, "Off4", Kind::FewWalls(2), Sq::new(), ALL);
    user::<OneCol, true>(&mut k, "OneCol", Kind::Walls, Sq::new(), ALL);
    user::<OneSq, true>(&mut k, "OneSq", Kind::Walls, Sq::new(), ALL);
    user::<(i8, i8), true>(&mut k, "(i8,i8)", Kind::Mazes, Sq::new(), 3);
    user::<(u8, u8), false>(&mut k, "(u8,u8)", Kind::Mazes, Sq::new(), 3);
    macro_rules! part {
        ($($t:ident $n:literal $x:expr, $y:expr;)*) => { $(
            user::<($t, $t), false>(&mut k, concat!("(", stringify!($t), ",", stringify!($t), ") ", $n), Kind::Mazes, Sq::part($x as i128, $y as i128, 6, 7), 9);
            user::<($t, $t), true>(&mut k, concat!("(", stringify!($t), ",", stringify!($t), ") ", $n), Kind::Walls, Sq::part($x as i128, $y as i128, 3, 2), 9);
        )* }
    }
    part! {
        i32 "around zero" -3, -3;
        i32 "at the limits" i32::MIN, i32::MAX - 8;
        i16 "at the limits" i16::MAX - 8, i16::MIN;
        i8 "around zero" -2, -4;
        u16 "at the limits" u16::MAX - 8, 0;
        u32 "in the middle" 1_000_000, 3_000_000_000u32;
        u64 "at the limits" u64::MAX / 2 - 8, u64::MAX / 4;
        u128 "across 64 bits" (u64::MAX as i128 - 2), (u64::MAX as i128 - 3);
    }
    both_diags! { lays(&mut k, Kind::Lanes(3), 0, false); (59, 4) (4, 59) (299, 4) (4, 299) (1999, 4) (4, 1999) }
    both_diags! { lays(&mut k, Kind::Lanes(1), 0, true); (39, 4) (4, 299) }
    both_diags! { lays(&mut k, Kind::Lanes(1), 0, false); (65535, 4) (4, 65535) }
    if deep {
        both_diags! { protocol(&mut k); (2, 2) (3, 2) (4, 3) }
        lays::<2, 1, false, 1, 6>(&mut k, Kind::Edges, ALL, true);
        both_diags! { lays(&mut k, Kind::Walls, ALL, false); (3, 3) (4, 2) (2, 4) }
        both_diags! { lays(&mut k, Kind::FewWalls(3), ALL, true); (3, 3) (4, 3) (4, 4) }
        both_diags! { lays(&mut k, Kind::FewMissing(2), ALL, true); (3, 3) (2, 4) }
        both_diags! { lays(&mut k, Kind::Mazes, 9, true); (127, 127) (255, 255) (65535, 0) (0, 65535) }
        both_diags! { lays(&mut k, Kind::Mazes, 4, false); (65535, 1) (1, 65535) (299, 217) }
    }
    k.assume("movement functions that answer the same for the same arguments and lead to the adjacent square");
    k.run()
}
