//! C18: A* returns a shortest path whenever there is one.
use mc::model::*;
use mc::search::*;
use mc::*;
use sqrid::*;

fn judge<P: Sp>(name: &str, r: &Result<Vec<Dir>, Error>, lay: &Lay, q: &Sq<P>, o: usize, d: usize, dist: &[Option<usize>], c: &mut Ctx) -> Res {
    c.step();
    match (r, dist[d]) {
        (Err(Error::DestinationUnreachable), None) => Ok(()),
        (Ok(path), Some(b)) => {
            match lay.walk(o, path) {
                Err(e) => bad!("{name} from {:?} to {:?}: {e}", q.p[o], q.p[d]),
                Ok(e) if e != d => bad!("{name} from {:?} to {:?}: path {} leads to {:?}", q.p[o], q.p[d], show(path), q.p[e]),
                Ok(_) => {}
            }
            same!(path.len(), b, "{name} from {:?} to {:?}: length of path {}", q.p[o], q.p[d], show(path));
            Ok(())
        }
        (r, b) => bad!("{name} from {:?} to {:?}: got {}, shortest distance is {b:?}", q.p[o], q.p[d], match r {
            Ok(path) => show(path),
            Err(e) => format!("{e:?}"),
        }),
    }
}

fn case<P: Sp, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(lay: &Lay, q: &Sq<P>, origins: &[usize], dests: &[usize], every: bool, c: &mut Ctx) -> Res {
    let go = lay.go(q);
    let go: &dyn Fn(P, Dir) -> Option<P> = &go;
    for &o in origins {
        let dist = lay.dist(o);
        c.outcome(&dist);
        let p = &q.p[o];
        for &d in dests {
            c.state();
            let t = &q.p[d];
            macro_rules! j {
                ($name:expr, $r:expr) => {
                    judge($name, &$r, lay, q, o, d, &dist, c)?
                };
            }
            j!("astar_path", Sqrid::<X, Y, D, W, S>::astar_path(go, p, t));
            if every {
                j!("astar_path_grid", Sqrid::<X, Y, D, W, S>::astar_path_grid(go, p, t));
                j!("astar_path_hash", Sqrid::<X, Y, D, W, S>::astar_path_hash(go, p, t));
                j!("astar_path_btree", Sqrid::<X, Y, D, W, S>::astar_path_btree(go, p, t));
                j!("astar::search_path_grid", astar::search_path_grid::<_, P, D, W, S>(go, p, t));
                j!("astar::search_path_hash", astar::search_path_hash::<_, P, D, W, S>(go, p, t));
                j!("astar::search_path_btree", astar::search_path_btree::<_, P, D, W, S>(go, p, t));
                let r = astar::search_mapmov::<_, Grid<Option<Dir>, P, S>, Grid<usize, P, S>, P, D, W, S>(go, p, t);
                j!("astar::search_mapmov", r.and_then(|m| camefrom_into_path::<Grid<Option<Dir>, P, S>, P, W, S>(m, p, t)));
                // The iterator behind it reaches the destination exactly when there is a way
                let it = astar::AstarIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(go, p, t);
                same!(it.into_iter().any(|m| m.0 == *t), dist[d].is_some(), "AstarIterator from {p:?} reaches {t:?}");
            }
        }
    }
    Ok(())
}

fn kinds<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check, kind: Kind, most: usize, every: bool) {
    let q = Sq::<Pos<X, Y>>::new();
    let name = format!("{} {}x{} {}", kind.name(), q.w, q.h, if D { 8 } else { 4 });
    let some = if matches!(kind, Kind::Lanes(_)) { ends(q.w, q.h) } else { spots(q.w, q.h, most) };
    let what = format!("{} origins x {} destinations{}", some.len(), some.len(), if every { ", every variant and entry point" } else { ", default variant" });
    layouts(k, &name, kind, q.w, q.h, D, &what, move |lay, c| case::<Pos<X, Y>, X, Y, D, W, S>(lay, &q, &some, &some, every, c));
}

/// Other position types, whole or in part.
fn user<P: Sp, const D: bool>(k: &mut Check, name: &str, kind: Kind, q: Sq<P>, most: usize) {
    let some: Vec<usize> = spots(q.w, q.h, most);
    let title = format!("{name} {} {}", kind.name(), if D { 8 } else { 4 });
    layouts(k, &title, kind, q.w, q.h, D, &format!("positions of type {name}, hash and tree variants, {} origins x destinations", some.len()), move |lay, c| {
        let go = lay.go(&q);
        let go: &dyn Fn(P, Dir) -> Option<P> = &go;
        for &o in &some {
            let dist = lay.dist(o);
            for &d in &some {
                c.state();
                judge("astar_path_hash", &Sqrid::<0, 0, D, 0, 0>::astar_path_hash(go, &q.p[o], &q.p[d]), lay, &q, o, d, &dist, c)?;
                judge("astar_path_btree", &Sqrid::<0, 0, D, 0, 0>::astar_path_btree(go, &q.p[o], &q.p[d]), lay, &q, o, d, &dist, c)?;
            }
            c.outcome(&dist);
        }
        Ok(())
    });
}

fn main() {
    let mut k = Check::new("C18", "layouts x origins x destinations searched", "answers of the real searches, each judged against the distance model");
    let deep = k.thorough();
    const ALL: usize = usize::MAX;
    both_diags! { kinds(&mut k, Kind::Walls, ALL, true); (0, 0) (1, 1) (2, 1) (2, 2) }
    both_diags! { kinds(&mut k, Kind::Walls, ALL, false); (1, 0) (0, 1) (2, 0) (0, 2) (1, 2) (5, 0) (0, 5) (3, 1) (1, 3) (3, 2) (2, 3) (4, 1) (1, 4) }
    both_diags! { kinds(&mut k, Kind::Edges, ALL, true); (1, 1) }
    both_diags! { kinds(&mut k, Kind::Edges, ALL, false); (1, 0) (0, 1) (2, 0) (0, 2) (3, 0) (0, 3) (4, 0) (0, 4) }
    kinds::<2, 1, false, 1, 6>(&mut k, Kind::Edges, ALL, false);
    kinds::<1, 2, false, 1, 6>(&mut k, Kind::Edges, ALL, false);
    both_diags! { kinds(&mut k, Kind::FewWalls(2), ALL, false); (4, 4) (5, 3) (7, 3) }
    both_diags! { kinds(&mut k, Kind::FewMissing(2), ALL, false); (2, 2) (3, 1) (1, 3) (3, 3) }
    // A* goes wrong, if it does, around obstacles: all 4x4 layouts from the corners
    both_diags! { kinds(&mut k, Kind::Walls, if deep { ALL } else { 5 }, false); (3, 3) }
    both_diags! { kinds(&mut k, Kind::Mazes, 20, true); (6, 4) (7, 3) (32, 0) (0, 31) (2, 10) }
    both_diags! { kinds(&mut k, Kind::Mazes, 12, false); (4, 5) (3, 7) (15, 3) (9, 9) (10, 2) (30, 31) (99, 9) (255, 0) (256, 0) (0, 256) (63, 63) }
    both_diags! { kinds(&mut k, Kind::Mazes, 5, false); (65535, 0) (0, 65535) (127, 127) (255, 130) }
    both_diags! { kinds(&mut k, Kind::Lanes(3), 0, false); (59, 4) (4, 59) (299, 4) (4, 299) (1999, 4) (4, 1999) }
    both_diags! { kinds(&mut k, Kind::Lanes(1), 0, true); (39, 4) (4, 299) }
    both_diags! { kinds(&mut k, Kind::Lanes(1), 0, false); (65535, 4) (4, 65535) }
    if deep {
        both_diags! { kinds(&mut k, Kind::Walls, ALL, false); (4, 2) (2, 4) (5, 1) (1, 5) (6, 1) }
        both_diags! { kinds(&mut k, Kind::FewMissing(3), ALL, false); (2, 2) (3, 2) }
        both_diags! { kinds(&mut k, Kind::FewWalls(3), ALL, false); (4, 4) (5, 3) (7, 3) }
        both_diags! { kinds(&mut k, Kind::FewWalls(5), 6, false); (4, 4) }
        kinds::<2, 1, true, 1, 6>(&mut k, Kind::Edges, ALL, false);
        kinds::<3, 1, false, 1, 8>(&mut k, Kind::Edges, ALL, false);
        kinds::<2, 2, false, 1, 9>(&mut k, Kind::Edges, 4, false);
        both_diags! { kinds(&mut k, Kind::Mazes, 4, false); (65535, 1) (1, 65535) (255, 255) (299, 217) }
    }
    user::<Mix53, true>(&mut k, "Mix53", Kind::Mazes, Sq::new(), ALL);
    user::<Mix26, false>(&mut k, "Mix26", Kind::FewWalls(2), Sq::new(), ALL);
    user::<Off1, false>(&mut k, "Off1", Kind::FewWalls(1), Sq::new(), ALL);
    user::<Off1, true>(&mut k, "Off1", Kind::Mazes, Sq::new(), ALL);
    user::<Off2, true>(&mut k, "Off2", Kind::Walls, Sq::new(), ALL);
    user::<Off2, false>(&mut k, "Off2", Kind::Edges, Sq::new(), ALL);
    user::<Off3, false>(&mut k, "Off3", Kind::FewWalls(1), Sq::new(), ALL);
    user::<Off3, true>(&mut k, "Off3", Kind::Mazes, Sq::new(), ALL);
    user::<Off4, true>(&mut k, "Off4", Kind::FewWalls(2), Sq::new(), ALL);
    user::<OneCol, true>(&mut k, "OneCol", Kind::Edges, Sq::new(), ALL);
    user::<OneSq, true>(&mut k, "OneSq", Kind::Edges, Sq::new(), ALL);
    user::<(u8, u8), false>(&mut k, "(u8,u8)", Kind::Mazes, Sq::new(), 4);
    user::<(i8, i8), true>(&mut k, "(i8,i8)", Kind::Mazes, Sq::new(), 4);
    macro_rules! part {
        ($($t:ident $n:literal $x:expr, $y:expr;)*) => { $(
            user::<($t, $t), false>(&mut k, concat!("(", stringify!($t), ",", stringify!($t), ") ", $n), Kind::Mazes, Sq::part($x as i128, $y as i128, 6, 7), ALL);
            user::<($t, $t), true>(&mut k, concat!("(", stringify!($t), ",", stringify!($t), ") ", $n), Kind::FewWalls(1), Sq::part($x as i128, $y as i128, 5, 4), ALL);
        )* }
    }
    part! {
        i32 "around zero" -3, -3;
        i32 "at the limits" i32::MIN, i32::MAX - 8;
        i16 "at the limits" i16::MAX - 8, i16::MIN;
        i8 "around zero" -2, -4;
        u16 "at the limits" u16::MAX - 8, 0;
        u64 "at the limits" u64::MAX / 2 - 8, u64::MAX / 4;
        u128 "across 64 bits" (u64::MAX as i128 - 2), (u64::MAX as i128 - 3);
        u128 "beyond 64 bits" i128::MAX - 20, (1i128 << 100);
    }
    k.assume("movement functions that answer the same for the same arguments and lead to the adjacent square");
    k.run()
}
