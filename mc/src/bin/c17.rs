//! C17: breadth-first search returns a shortest path to a nearest goal.
use mc::model::*;
use mc::search::*;
use mc::*;
use sqrid::*;

type Answer<P> = Result<(P, Vec<Dir>), Error>;

fn judge<P: Sp>(name: &str, r: &Answer<P>, lay: &Lay, q: &Sq<P>, o: usize, goal: &dyn Fn(usize) -> bool, dist: &[Option<usize>], what: &dyn Fn() -> String, c: &mut Ctx) -> Res {
    c.step();
    let best = (0..lay.n()).filter(|i| goal(*i)).filter_map(|i| dist[i]).min();
    match (r, best) {
        (Err(Error::DestinationUnreachable), None) => Ok(()),
        (Ok((p, path)), Some(b)) => {
            let i = q.ix(p);
            if !goal(i) {
                bad!("{name} from {:?} to {}: arrives at {p:?}, which is no goal", q.p[o], what());
            }
            match lay.walk(o, path) {
                Err(e) => bad!("{name} from {:?} to {}: {e}", q.p[o], what()),
                Ok(e) if e != i => bad!("{name} from {:?} to {}: path {} leads to {:?} instead of {p:?}", q.p[o], what(), show(path), q.p[e]),
                Ok(_) => {}
            }
            same!(path.len(), b, "{name} from {:?} to {}: length of path {}", q.p[o], what(), show(path));
            Ok(())
        }
        (r, b) => bad!("{name} from {:?} to {}: got {}, shortest distance is {b:?}", q.p[o], what(), match r {
            Ok((p, path)) => format!("{p:?} by {}", show(path)),
            Err(e) => format!("{e:?}"),
        }),
    }
}

/// Sets of goals to look for.
#[derive(Clone, Copy)]
enum Goals {
    /// Every subset of the squares
    All,
    /// None, every single square, every pair
    Pairs,
    /// None, every single square
    Single,
    /// None, some squares
    Some(usize),
}

fn goal_sets(g: Goals, w: usize, h: usize) -> Vec<Vec<usize>> {
    let n = w * h;
    match g {
        Goals::All => (0..1u64 << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect(),
        Goals::Pairs => {
            let mut v = vec![vec![]];
            for a in 0..n {
                v.push(vec![a]);
                for b in a + 1..n {
                    v.push(vec![a, b]);
                }
            }
            v
        }
        Goals::Single => std::iter::once(vec![]).chain((0..n).map(|i| vec![i])).collect(),
        Goals::Some(most) => {
            let s = spots(w, h, most);
            let mut v: Vec<Vec<usize>> = vec![vec![], (0..n).collect(), s.clone()];
            v.extend(s.into_iter().map(|i| vec![i]));
            v
        }
    }
}

fn case<P: Sp, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(lay: &Lay, q: &Sq<P>, origins: &[usize], goals: &[Vec<usize>], every: bool, c: &mut Ctx) -> Res {
    let go = lay.go(q);
    let go: &dyn Fn(P, Dir) -> Option<P> = &go;
    let mut is = vec![false; lay.n()];
    for &o in origins {
        let dist = lay.dist(o);
        c.outcome(&dist);
        let p = &q.p[o];
        for gs in goals {
            c.state();
            gs.iter().for_each(|i| is[*i] = true);
            let goal = |i: usize| is[i];
            let what = || format!("{:?}", if gs.len() > 8 { vec![] } else { gs.iter().map(|i| q.p[*i]).collect::<Vec<P>>() });
            let f = |p: P| is[q.ix(&p)];
            let f: &dyn Fn(P) -> bool = &f;
            macro_rules! j {
                ($name:expr, $r:expr) => {
                    judge($name, &$r, lay, q, o, &goal, &dist, &what, c)?
                };
            }
            j!("bfs_path", Sqrid::<X, Y, D, W, S>::bfs_path(go, p, f));
            if every {
                j!("bfs_path_grid", Sqrid::<X, Y, D, W, S>::bfs_path_grid(go, p, f));
                j!("bfs_path_hash", Sqrid::<X, Y, D, W, S>::bfs_path_hash(go, p, f));
                j!("bfs_path_btree", Sqrid::<X, Y, D, W, S>::bfs_path_btree(go, p, f));
                j!("bf::search_path_grid", bf::search_path_grid::<_, _, P, D, W, S>(go, p, f));
                j!("bf::search_path_hash", bf::search_path_hash::<_, _, P, D, W, S>(go, p, f));
                j!("bf::search_path_btree", bf::search_path_btree::<_, _, P, D, W, S>(go, p, f));
                let mixed = bf::search_path::<_, _, Grid<Option<Dir>, P, S>, std::collections::BTreeSet<P>, P, D, W, S>(go, p, f);
                j!("bf::search_path with a grid and a tree set", mixed);
                // The map of moves and the goal found lead to the same path
                let r = bf::search_mapmov::<_, _, Grid<Option<Dir>, P, S>, Gridbool<P, W>, P, D, W, S>(go, p, f);
                let r = r.and_then(|(d, m)| camefrom_into_path::<Grid<Option<Dir>, P, S>, P, W, S>(m, p, &d).map(|v| (d, v)));
                j!("bf::search_mapmov", r);
            }
            gs.iter().for_each(|i| is[*i] = false);
        }
    }
    Ok(())
}

fn kinds<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check, kind: Kind, goals: Goals, every: bool) {
    let q = Sq::<Pos<X, Y>>::new();
    let name = format!(
        "{} {}x{} {} {}",
        kind.name(),
        q.w,
        q.h,
        if D { 8 } else { 4 },
        match goals {
            Goals::All => "all goals",
            Goals::Pairs => "pairs of goals",
            Goals::Single => "single goals",
            Goals::Some(_) => "some goals",
        }
    );
    let origins = match kind {
        Kind::Mazes | Kind::Broad => spots(q.w, q.h, if S > 3000 { 3 } else { 10 }),
        _ => (0..S).collect(),
    };
    let gs = goal_sets(goals, q.w, q.h);
    let g = match goals {
        Goals::All => "every set of goals",
        Goals::Pairs => "no goal, every goal, every two goals",
        Goals::Single => "no goal, every single goal",
        Goals::Some(_) => "no goal, everything a goal, a few goals",
    };
    let what = format!("{} origins, {g}{}", origins.len(), if every { ", every variant and entry point" } else { ", default variant" });
    layouts(k, &name, kind, q.w, q.h, D, &what, move |lay, c| case::<Pos<X, Y>, X, Y, D, W, S>(lay, &q, &origins, &gs, every, c));
}

fn user<P: Sp, const D: bool>(k: &mut Check, name: &str, kind: Kind, q: Sq<P>) {
    let origins: Vec<usize> = spots(q.w, q.h, if q.n() > 1000 { 4 } else { 40 });
    let goals = goal_sets(if q.n() <= 36 { Goals::Single } else { Goals::Some(6) }, q.w, q.h);
    layouts(k, &format!("{name} {}", if D { 8 } else { 4 }), kind, q.w, q.h, D, "user-defined position type, hash and tree variants", move |lay, c| {
        let go = lay.go(&q);
        let go: &dyn Fn(P, Dir) -> Option<P> = &go;
        for &o in &origins {
            let dist = lay.dist(o);
            for gs in &goals {
                c.state();
                let mut is = vec![false; lay.n()];
                gs.iter().for_each(|i| is[*i] = true);
                let goal = |i: usize| is[i];
                let f = |p: P| q.find(&p).is_some_and(|i| goal(i));
                let f: &dyn Fn(P) -> bool = &f;
                let what = || format!("{:?}", if gs.len() > 8 { vec![] } else { gs.iter().map(|i| q.p[*i]).collect::<Vec<P>>() });
                judge("bfs_path_hash", &Sqrid::<0, 0, D, 0, 0>::bfs_path_hash(go, &q.p[o], f), lay, &q, o, &goal, &dist, &what, c)?;
                judge("bfs_path_btree", &Sqrid::<0, 0, D, 0, 0>::bfs_path_btree(go, &q.p[o], f), lay, &q, o, &goal, &dist, &what, c)?;
            }
            c.outcome(&dist);
        }
        Ok(())
    });
}

fn main() {
    let mut k = Check::new("C17", "layouts x origins x goal sets searched", "answers of the real searches, each judged against the distance model");
    let deep = k.thorough();
    both_diags! { kinds(&mut k, Kind::Walls, Goals::All, true); (0, 0) (1, 1) (2, 1) }
    both_diags! { kinds(&mut k, Kind::Walls, Goals::All, false); (1, 0) (0, 1) (2, 0) (0, 2) (1, 2) (5, 0) (0, 5) }
    both_diags! { kinds(&mut k, Kind::Walls, Goals::Pairs, false); (2, 2) (3, 1) (1, 3) }
    both_diags! { kinds(&mut k, Kind::Walls, Goals::Single, false); (3, 2) (2, 3) (4, 1) (1, 4) }
    both_diags! { kinds(&mut k, Kind::Edges, Goals::All, true); (1, 1) }
    both_diags! { kinds(&mut k, Kind::Edges, Goals::All, false); (1, 0) (0, 1) (2, 0) (0, 2) (3, 0) (0, 3) (4, 0) (0, 4) }
    kinds::<2, 1, false, 1, 6>(&mut k, Kind::Edges, Goals::Pairs, false);
    kinds::<1, 2, false, 1, 6>(&mut k, Kind::Edges, Goals::Pairs, false);
    both_diags! { kinds(&mut k, Kind::FewWalls(2), Goals::Single, false); (4, 4) (5, 3) (7, 3) }
    both_diags! { kinds(&mut k, Kind::FewMissing(2), Goals::Single, false); (2, 2) (3, 1) (1, 3) (3, 3) }
    both_diags! { kinds(&mut k, Kind::Mazes, Goals::Some(20), true); (6, 4) (7, 3) (32, 0) (0, 31) (2, 10) }
    both_diags! { kinds(&mut k, Kind::Mazes, Goals::Some(12), false); (4, 4) (3, 7) (15, 3) (9, 9) (10, 2) (30, 31) (99, 9) (255, 0) (256, 0) (0, 256) (99, 99) }
    both_diags! { kinds(&mut k, Kind::Mazes, Goals::Some(4), false); (65535, 0) (0, 65535) (255, 255) (299, 217) }
    if deep {
        both_diags! { kinds(&mut k, Kind::Walls, Goals::All, false); (2, 2) (3, 1) (1, 3) }
        both_diags! { kinds(&mut k, Kind::Walls, Goals::Single, false); (3, 3) (4, 2) (2, 4) }
        both_diags! { kinds(&mut k, Kind::FewMissing(3), Goals::Single, false); (2, 2) (3, 2) }
        both_diags! { kinds(&mut k, Kind::FewWalls(3), Goals::Single, false); (4, 4) (5, 3) (7, 3) }
        kinds::<2, 1, false, 1, 6>(&mut k, Kind::Edges, Goals::All, true);
        kinds::<2, 1, true, 1, 6>(&mut k, Kind::Edges, Goals::Single, false);
        kinds::<3, 1, false, 1, 8>(&mut k, Kind::Edges, Goals::Single, false);
        both_diags! { kinds(&mut k, Kind::Mazes, Goals::Some(4), false); (65535, 1) (1, 65535) }
    }
    user::<Mix53, true>(&mut k, "Mix53", Kind::Mazes, Sq::new());
    user::<Off1, false>(&mut k, "Off1", Kind::FewWalls(1), Sq::new());
    user::<Off2, true>(&mut k, "Off2", Kind::Walls, Sq::new());
    user::<Off2, false>(&mut k, "Off2", Kind::Edges, Sq::new());
    user::<Off3, false>(&mut k, "Off3", Kind::Mazes, Sq::new());
    user::<OneCol, true>(&mut k, "OneCol", Kind::Edges, Sq::new());
    user::<OneSq, true>(&mut k, "OneSq", Kind::Edges, Sq::new());
    user::<(u8, u8), false>(&mut k, "pairs of u8", Kind::Mazes, Sq::new());
    user::<(i8, i8), true>(&mut k, "pairs of i8", Kind::Mazes, Sq::new());
    macro_rules! part {
        ($($t:ident $n:literal $x:expr, $y:expr;)*) => { $(
            user::<($t, $t), false>(&mut k, concat!("(", stringify!($t), ",", stringify!($t), ") ", $n), Kind::Mazes, Sq::part($x as i128, $y as i128, 6, 7));
            user::<($t, $t), true>(&mut k, concat!("(", stringify!($t), ",", stringify!($t), ") ", $n), Kind::Walls, Sq::part($x as i128, $y as i128, 3, 2));
        )* }
    }
    part! {
        i32 "around zero" -3, -3;
        i32 "at the limits" i32::MIN, i32::MAX - 8;
        i16 "at the limits" i16::MAX - 8, i16::MIN;
        i8 "around zero" -2, -4;
        u16 "at the limits" u16::MAX - 8, 0;
        u32 "in the middle" 1_000_000, 3_000_000_000u32;
        u64 "at the limits" u64::MAX / 2 - 8, u64::MAX / 4;
        u128 "across 64 bits" (u64::MAX as i128 - 2), (u64::MAX as i128 - 3);
    }
    k.assume("movement functions and goal predicates that answer the same for the same arguments; steps lead to the adjacent square");
    k.run()
}
