//! C20: search results do not depend on the storage variant or on repetition.
use mc::search::*;
use mc::*;
use sqrid::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

type HMap<K, V> = (HashMap<K, V>, V);
type BMap<K, V> = (BTreeMap<K, V>, V);
type Dirs = Option<Dir>;
type Path = Result<Vec<Dir>, Error>;
type Step<'a, P> = &'a dyn Fn(P, Dir) -> Option<P>;
type Paid<'a, P> = &'a dyn Fn(P, Dir) -> Option<(P, usize)>;

fn put(p: &Path) -> String {
    match p {
        Ok(p) if p.len() <= 60 => format!("path [{}]", show(p)),
        Ok(p) => format!("path of {} steps [{} ...]", p.len(), show(&p[..40])),
        Err(e) => format!("{e:?}"),
    }
}

/// All variants against the first one, each of them run twice.
macro_rules! alike {
    ($c:ident, $what:expr, $show:expr; $( $name:literal => $run:expr ),+ $(,)?) => {{
        let mut first = None;
        $(
            for again in [false, true] {
                $c.step();
                let r = $run;
                match &first {
                    None => first = Some(($name, r)),
                    Some((fname, f)) => {
                        if *f != r {
                            bad!("{}: {} answers {}, {}{} answers {}", $what, fname, $show(f), $name, if again { " run again" } else { "" }, $show(&r));
                        }
                    }
                }
            }
        )+
        first.unwrap().1
    }};
}

/// What a came-from map says of every square.
fn read<M: MapPos<Dirs, P, W, S>, P: PosT, const W: usize, const S: usize>(q: &[P], m: &M) -> Vec<Dirs> {
    q.iter().map(|p| *m.get(p)).collect()
}

/// A traversal: in full, and continued from clones taken on the way.
fn whole<T, I: Iterator<Item = T> + Clone>(it: I) -> Vec<T>
where
    T: PartialEq + std::fmt::Debug,
{
    it.collect()
}

fn cloned<T: PartialEq + std::fmt::Debug, I: Iterator<Item = T> + Clone>(name: &str, mut it: I, all: &[T], c: &mut Ctx) -> Res {
    // clones at every point of a small traversal, at a few of a large one
    let every = if all.len() <= 40 { 1 } else { all.len() / 5 };
    for at in 0..=all.len() {
        if at % every == 0 || at == all.len() {
            c.step();
            let rest: Vec<T> = it.clone().collect();
            if rest != all[at..] {
                bad!("{name}: a clone taken after {at} items continues with {rest:?}, expected {:?}", &all[at..]);
            }
        }
        if it.next().as_ref() != all.get(at) {
            bad!("{name}: item {at} differs after cloning");
        }
    }
    Ok(())
}

fn num_items<T>(v: &[T]) -> String
where
    T: std::fmt::Debug,
{
    if v.len() <= 12 {
        format!("{v:?}")
    } else {
        format!("{} items starting with {:?}", v.len(), &v[..12])
    }
}

/// What is possible with maps alone.
struct Bare<P> {
    bf: Vec<Vec<(P, Dir)>>,
    ucs: Vec<(P, Dir)>,
}

/// The variants that keep their data in grids, together with the others.
fn from_origin<P: Sp, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(go: Step<P>, pay: Paid<P>, o: &P, c: &mut Ctx) -> Result<Bare<P>, Viol> {
    let bf = alike! { c, format!("breadth-first traversal from {o:?}"), |v: &Vec<Vec<(P, Dir)>>| num_items(v);
        "Sqrid::bf_iter" => whole(Sqrid::<X, Y, D, W, S>::bf_iter(go, o)),
        "Sqrid::bf_iter_grid" => whole(Sqrid::<X, Y, D, W, S>::bf_iter_grid(go, o)),
        "Sqrid::bf_iter_hash" => whole(Sqrid::<X, Y, D, W, S>::bf_iter_hash(go, o)),
        "Sqrid::bf_iter_btree" => whole(Sqrid::<X, Y, D, W, S>::bf_iter_btree(go, o)),
        "bf::bf_iter_grid" => whole(bf::bf_iter_grid::<_, P, D, W, S>(go, o)),
        "bf::bf_iter_hash" => whole(bf::bf_iter_hash::<_, P, D, W, S>(go, o)),
        "bf::bf_iter_btree" => whole(bf::bf_iter_btree::<_, P, D, W, S>(go, o)),
        "bf::bf_iter<Gridbool>" => whole(bf::bf_iter::<_, Gridbool<P, W>, P, D, W, S>(go, o)),
        "bf::bf_iter<HashSet>" => whole(bf::bf_iter::<_, HashSet<P>, P, D, W, S>(go, o)),
        "bf::bf_iter<BTreeSet>" => whole(bf::bf_iter::<_, BTreeSet<P>, P, D, W, S>(go, o)),
    };
    cloned("bf_iter", Sqrid::<X, Y, D, W, S>::bf_iter(go, o), &bf, c)?;
    cloned("bf_iter_hash", Sqrid::<X, Y, D, W, S>::bf_iter_hash(go, o), &bf, c)?;
    cloned("bf_iter_btree", Sqrid::<X, Y, D, W, S>::bf_iter_btree(go, o), &bf, c)?;
    let ucs = alike! { c, format!("uniform-cost exploration from {o:?}"), |v: &Vec<(P, Dir)>| num_items(v);
        "UcsIterator<Grid>" => whole(ucs::UcsIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(pay, o)),
        "UcsIterator<HashMap>" => whole(ucs::UcsIterator::<_, HMap<P, usize>, P, D, W, S>::new(pay, o)),
        "UcsIterator<BTreeMap>" => whole(ucs::UcsIterator::<_, BMap<P, usize>, P, D, W, S>::new(pay, o)),
    };
    cloned("UcsIterator<Grid>", ucs::UcsIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(pay, o), &ucs, c)?;
    cloned("UcsIterator<HashMap>", ucs::UcsIterator::<_, HMap<P, usize>, P, D, W, S>::new(pay, o), &ucs, c)?;
    Ok(Bare { bf, ucs })
}

fn to_dest<P: Sp, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(q: &Sq<P>, go: Step<P>, pay: Paid<P>, o: &P, t: &P, c: &mut Ctx) -> Result<[Path; 3], Viol> {
    let at = |f: &P, t: &P| format!("from {f:?} to {t:?}");
    let found = |p: P| p == *t;
    let found: &dyn Fn(P) -> bool = &found;
    type R<P> = Result<(P, Vec<Dir>), Error>;
    let sh = |r: &R<P>| match r {
        Ok((p, v)) => format!("{p:?} by {}", put(&Ok(v.clone()))),
        Err(e) => format!("{e:?}"),
    };
    let b = alike! { c, format!("breadth-first search {}", at(o, t)), sh;
        "bfs_path" => Sqrid::<X, Y, D, W, S>::bfs_path(go, o, found),
        "bfs_path_grid" => Sqrid::<X, Y, D, W, S>::bfs_path_grid(go, o, found),
        "bfs_path_hash" => Sqrid::<X, Y, D, W, S>::bfs_path_hash(go, o, found),
        "bfs_path_btree" => Sqrid::<X, Y, D, W, S>::bfs_path_btree(go, o, found),
        "bf::search_path_grid" => bf::search_path_grid::<_, _, P, D, W, S>(go, o, found),
        "bf::search_path_hash" => bf::search_path_hash::<_, _, P, D, W, S>(go, o, found),
        "bf::search_path_btree" => bf::search_path_btree::<_, _, P, D, W, S>(go, o, found),
        "bf::search_path<HashMap, Gridbool>" => bf::search_path::<_, _, HMap<P, Dirs>, Gridbool<P, W>, P, D, W, S>(go, o, found),
    };
    alike! { c, format!("breadth-first came-from map {}", at(o, t)), |v: &Result<(P, Vec<Dirs>), Error>| format!("{v:?}");
        "bf::search_mapmov<Grid>" => bf::search_mapmov::<_, _, Grid<Dirs, P, S>, Gridbool<P, W>, P, D, W, S>(go, o, found).map(|(p, m)| (p, read::<_, _, W, S>(&q.p, &m))),
        "bf::search_mapmov<HashMap>" => bf::search_mapmov::<_, _, HMap<P, Dirs>, HashSet<P>, P, D, W, S>(go, o, found).map(|(p, m)| (p, read::<_, _, W, S>(&q.p, &m))),
        "bf::search_mapmov<BTreeMap>" => bf::search_mapmov::<_, _, BMap<P, Dirs>, BTreeSet<P>, P, D, W, S>(go, o, found).map(|(p, m)| (p, read::<_, _, W, S>(&q.p, &m))),
    };
    let a = alike! { c, format!("A* {}", at(o, t)), put;
        "astar_path" => Sqrid::<X, Y, D, W, S>::astar_path(go, o, t),
        "astar_path_grid" => Sqrid::<X, Y, D, W, S>::astar_path_grid(go, o, t),
        "astar_path_hash" => Sqrid::<X, Y, D, W, S>::astar_path_hash(go, o, t),
        "astar_path_btree" => Sqrid::<X, Y, D, W, S>::astar_path_btree(go, o, t),
        "astar::search_path_grid" => astar::search_path_grid::<_, P, D, W, S>(go, o, t),
        "astar::search_path_hash" => astar::search_path_hash::<_, P, D, W, S>(go, o, t),
        "astar::search_path_btree" => astar::search_path_btree::<_, P, D, W, S>(go, o, t),
        "astar::search_path<BTreeMap, Grid>" => astar::search_path::<_, BMap<P, Dirs>, Grid<usize, P, S>, P, D, W, S>(go, o, t),
    };
    alike! { c, format!("A* came-from map {}", at(o, t)), |v: &Result<Vec<Dirs>, Error>| format!("{v:?}");
        "astar::search_mapmov<Grid>" => astar::search_mapmov::<_, Grid<Dirs, P, S>, Grid<usize, P, S>, P, D, W, S>(go, o, t).map(|m| read::<_, _, W, S>(&q.p, &m)),
        "astar::search_mapmov<HashMap>" => astar::search_mapmov::<_, HMap<P, Dirs>, HMap<P, usize>, P, D, W, S>(go, o, t).map(|m| read::<_, _, W, S>(&q.p, &m)),
        "astar::search_mapmov<BTreeMap>" => astar::search_mapmov::<_, BMap<P, Dirs>, BMap<P, usize>, P, D, W, S>(go, o, t).map(|m| read::<_, _, W, S>(&q.p, &m)),
    };
    let u = alike! { c, format!("uniform-cost search {}", at(o, t)), put;
        "ucs_path" => Sqrid::<X, Y, D, W, S>::ucs_path(pay, o, t),
        "ucs_path_grid" => Sqrid::<X, Y, D, W, S>::ucs_path_grid(pay, o, t),
        "ucs_path_hash" => Sqrid::<X, Y, D, W, S>::ucs_path_hash(pay, o, t),
        "ucs_path_btree" => Sqrid::<X, Y, D, W, S>::ucs_path_btree(pay, o, t),
        "ucs::search_path_grid" => ucs::search_path_grid::<_, P, D, W, S>(pay, o, t),
        "ucs::search_path_hash" => ucs::search_path_hash::<_, P, D, W, S>(pay, o, t),
        "ucs::search_path_btree" => ucs::search_path_btree::<_, P, D, W, S>(pay, o, t),
        "ucs::search_path<Grid, HashMap>" => ucs::search_path::<_, Grid<Dirs, P, S>, HMap<P, usize>, P, D, W, S>(pay, o, t),
    };
    alike! { c, format!("uniform-cost came-from map {}", at(o, t)), |v: &Result<Vec<Dirs>, Error>| format!("{v:?}");
        "ucs::search_mapmov<Grid>" => ucs::search_mapmov::<_, Grid<Dirs, P, S>, Grid<usize, P, S>, P, D, W, S>(pay, o, t).map(|m| read::<_, _, W, S>(&q.p, &m)),
        "ucs::search_mapmov<HashMap>" => ucs::search_mapmov::<_, HMap<P, Dirs>, HMap<P, usize>, P, D, W, S>(pay, o, t).map(|m| read::<_, _, W, S>(&q.p, &m)),
        "ucs::search_mapmov<BTreeMap>" => ucs::search_mapmov::<_, BMap<P, Dirs>, BMap<P, usize>, P, D, W, S>(pay, o, t).map(|m| read::<_, _, W, S>(&q.p, &m)),
    };
    Ok([b.map(|(_, v)| v), a, u])
}

/// The searches that serve one destination have to agree on its distance.
fn agree<P: Sp>(r: &[Path; 3], o: &P, t: &P) -> Res {
    let len = |p: &Path| p.as_ref().map(|v| v.len()).map_err(|e| format!("{e:?}"));
    for (name, other) in [("A*", &r[1]), ("uniform-cost search", &r[2])] {
        if len(&r[0]) != len(other) {
            bad!("from {o:?} to {t:?}: breadth-first search answers {}, {name} {}", put(&r[0]), put(other));
        }
    }
    Ok(())
}

fn case<P: Sp, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(pr: &Priced, uniform: bool, q: &Sq<P>, origins: &[usize], dests: &[usize], c: &mut Ctx) -> Res {
    let go = pr.lay.go(q);
    let go: Step<P> = &go;
    let pay = pr.go(q);
    let pay: Paid<P> = &pay;
    for &o in origins {
        let r = from_origin::<P, X, Y, D, W, S>(go, pay, &q.p[o], c)?;
        c.outcome(&(&r.bf.len(), r.ucs.len()));
        if uniform {
            // the two explorations reach the same squares
            let mut a: Vec<P> = r.bf.iter().flatten().map(|x| x.0).collect();
            a.push(q.p[o]);
            let mut b: Vec<P> = r.ucs.iter().map(|x| x.0).collect();
            a.sort();
            b.sort();
            same!(b, a, "squares reached from {:?}: uniform-cost exploration against breadth-first traversal", q.p[o]);
        }
        for &d in dests {
            c.state();
            let r = to_dest::<P, X, Y, D, W, S>(q, go, pay, &q.p[o], &q.p[d], c)?;
            if uniform {
                agree(&r, &q.p[o], &q.p[d])?;
            }
        }
    }
    Ok(())
}

/// Layouts whose steps all cost the same.
fn lays<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check, kind: Kind, price: usize, most: usize) {
    let q = Sq::<Pos<X, Y>>::new();
    let some = spots(q.w, q.h, most);
    let name = format!("{} {}x{} {} price {}", kind.bounds(), q.w, q.h, if D { 8 } else { 4 }, costly(Some(price)));
    layouts(k, &name, kind, q.w, q.h, D, &format!("every step costs {}, {} origins x destinations, every variant", costly(Some(price)), some.len()), move |lay, c| {
        let pr = Priced { lay: lay.clone(), cost: vec![[price; 8]; lay.n()] };
        case::<Pos<X, Y>, X, Y, D, W, S>(&pr, true, &q, &some, &some, c)
    });
}

/// Different costs.
fn costs<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check, prices: Prices, most: usize) {
    let q = Sq::<Pos<X, Y>>::new();
    let some = spots(q.w, q.h, most);
    priced(k, "", prices, q.w, q.h, D, &format!("{} origins x destinations, every variant", some.len()), move |pr, c| case::<Pos<X, Y>, X, Y, D, W, S>(pr, false, &q, &some, &some, c));
}

/// Types without grids: hash against tree.
fn user<P: Sp, const D: bool>(k: &mut Check, name: &str, kind: Kind, q: Sq<P>, price: usize, most: usize) {
    let some = spots(q.w, q.h, most);
    let fam = format!("{name} {} {}", kind.bounds(), if D { 8 } else { 4 });
    layouts(k, &fam, kind, q.w, q.h, D, &format!("positions of type {name}, hash against tree variants, {} origins x destinations", some.len()), move |lay, c| {
        let pr = Priced { lay: lay.clone(), cost: vec![[price; 8]; lay.n()] };
        let go = lay.go(&q);
        let go: Step<P> = &go;
        let pay = pr.go(&q);
        let pay: Paid<P> = &pay;
        for &o in &some {
            let o = &q.p[o];
            let bf = alike! { c, format!("breadth-first traversal from {o:?}"), |v: &Vec<Vec<(P, Dir)>>| num_items(v);
                "bf_iter_hash" => whole(Sqrid::<0, 0, D, 0, 0>::bf_iter_hash(go, o)),
                "bf_iter_btree" => whole(Sqrid::<0, 0, D, 0, 0>::bf_iter_btree(go, o)),
            };
            cloned("bf_iter_hash", Sqrid::<0, 0, D, 0, 0>::bf_iter_hash(go, o), &bf, c)?;
            let ucs = alike! { c, format!("uniform-cost exploration from {o:?}"), |v: &Vec<(P, Dir)>| num_items(v);
                "UcsIterator<HashMap>" => whole(ucs::UcsIterator::<_, HMap<P, usize>, P, D, 0, 0>::new(pay, o)),
                "UcsIterator<BTreeMap>" => whole(ucs::UcsIterator::<_, BMap<P, usize>, P, D, 0, 0>::new(pay, o)),
            };
            c.outcome(&(bf.len(), ucs.len()));
            for &t in &some {
                let t = &q.p[t];
                c.state();
                let found = |p: P| p == *t;
                let found: &dyn Fn(P) -> bool = &found;
                let b = alike! { c, format!("breadth-first search from {o:?} to {t:?}"), put;
                    "bfs_path_hash" => Sqrid::<0, 0, D, 0, 0>::bfs_path_hash(go, o, found).map(|x| x.1),
                    "bfs_path_btree" => Sqrid::<0, 0, D, 0, 0>::bfs_path_btree(go, o, found).map(|x| x.1),
                };
                let a = alike! { c, format!("A* from {o:?} to {t:?}"), put;
                    "astar_path_hash" => Sqrid::<0, 0, D, 0, 0>::astar_path_hash(go, o, t),
                    "astar_path_btree" => Sqrid::<0, 0, D, 0, 0>::astar_path_btree(go, o, t),
                };
                let u = alike! { c, format!("uniform-cost search from {o:?} to {t:?}"), put;
                    "ucs_path_hash" => Sqrid::<0, 0, D, 0, 0>::ucs_path_hash(pay, o, t),
                    "ucs_path_btree" => Sqrid::<0, 0, D, 0, 0>::ucs_path_btree(pay, o, t),
                };
                agree(&[b, a, u], o, t)?;
            }
        }
        Ok(())
    });
}

/// Several goals: the same one has to be picked.
fn goals<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check, kind: Kind, all: bool) {
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    let q = Sq::<P<X, Y>>::new();
    let n = q.n();
    let sets: Vec<u64> = if all { (0..1u64 << n).collect() } else { (0..n).flat_map(|a| (0..a).map(move |b| 1u64 << a | 1 << b)).collect() };
    let name = format!("goal sets, {} {}x{} {}", kind.bounds(), q.w, q.h, if D { 8 } else { 4 });
    layouts(k, &name, kind, q.w, q.h, D, &format!("every origin, {}, every variant of breadth-first search", if all { "every set of goals" } else { "every two goals" }), move |lay, c| {
        let go = lay.go(&q);
        let go: Step<P<X, Y>> = &go;
        for o in 0..n {
            for &s in &sets {
                c.state();
                let found = |p: P<X, Y>| s >> q.ix(&p) & 1 == 1;
                let found: &dyn Fn(P<X, Y>) -> bool = &found;
                let o = &q.p[o];
                let r = alike! { c, format!("breadth-first search from {o:?} with goals {s:b}"), |v: &Result<(P<X, Y>, Vec<Dir>), Error>| format!("{v:?}");
                    "bfs_path" => Sqrid::<X, Y, D, W, S>::bfs_path(go, o, found),
                    "bfs_path_grid" => Sqrid::<X, Y, D, W, S>::bfs_path_grid(go, o, found),
                    "bfs_path_hash" => Sqrid::<X, Y, D, W, S>::bfs_path_hash(go, o, found),
                    "bfs_path_btree" => Sqrid::<X, Y, D, W, S>::bfs_path_btree(go, o, found),
                };
                c.outcome(&r.ok());
            }
        }
        Ok(())
    });
}

fn main() {
    let mut k = Check::new("C20", "layouts or cost assignments x origins x destinations", "runs of real searches, each compared with the other variants");
    let deep = k.thorough();
    const ALL: usize = usize::MAX;
    let st = |v: &[i64]| Prices::Steps(v.iter().map(|c| if *c < 0 { None } else { Some(*c as usize) }).collect());
    let en = |v: &[i64]| Prices::Entering(v.iter().map(|c| if *c < 0 { None } else { Some(*c as usize) }).collect());
    both_diags! { lays(&mut k, Kind::Edges, 1, ALL); (0, 0) (1, 0) (0, 2) (3, 0) }
    lays::<1, 1, false, 1, 4>(&mut k, Kind::Edges, 5, ALL);
    lays::<1, 1, true, 1, 4>(&mut k, Kind::Edges, 1, ALL);
    both_diags! { lays(&mut k, Kind::Walls, 3, ALL); (2, 1) (1, 2) (2, 2) }
    both_diags! { lays(&mut k, Kind::FewWalls(2), 1, 6); (3, 3) (4, 2) }
    both_diags! { lays(&mut k, Kind::FewMissing(1), 2, 6); (3, 2) }
    both_diags! { lays(&mut k, Kind::Mazes, 1, 8); (6, 4) (4, 6) (32, 0) (0, 31) (2, 10) (9, 9) }
    both_diags! { lays(&mut k, Kind::Mazes, 1_000_000_007, 4); (7, 3) (15, 15) (30, 31) (99, 2) }
    lays::<0, 2, true, 1, 3>(&mut k, Kind::Edges, usize::MAX / 4, ALL);
    both_diags! { costs(&mut k, st(&[-1, 0, 1, 3]), ALL); (1, 0) (0, 2) }
    costs::<1, 1, false, 1, 4>(&mut k, st(&[0, 1, 4]), ALL);
    both_diags! { costs(&mut k, en(&[-1, 1, 3]), 4); (2, 1) }
    costs::<2, 2, true, 1, 9>(&mut k, en(&[1, 3]), 4);
    costs::<2, 0, false, 1, 3>(&mut k, Prices::Steps(vec![None, Some(1), Some(usize::MAX / 2), Some(usize::MAX - 1), Some(usize::MAX)]), ALL);
    both_diags! { costs(&mut k, Prices::Patterns, 6); (6, 4) (3, 7) (15, 3) }
    goals::<1, 1, true, 1, 4>(&mut k, Kind::Edges, true);
    both_diags! { goals(&mut k, Kind::Walls, false); (2, 2) (3, 1) }
    user::<mc::model::Mix53, true>(&mut k, "Mix53", Kind::Mazes, Sq::new(), 1, 8);
    user::<mc::model::Off1, false>(&mut k, "Off1", Kind::Mazes, Sq::new(), 2, 8);
    user::<mc::model::Off2, true>(&mut k, "Off2", Kind::Walls, Sq::new(), 1, ALL);
    user::<(i8, i8), true>(&mut k, "(i8,i8)", Kind::Mazes, Sq::new(), 1, 3);
    if deep {
        both_diags! { lays(&mut k, Kind::Walls, 2, ALL); (3, 1) (3, 2) (2, 3) }
        both_diags! { lays(&mut k, Kind::FewWalls(3), 1, ALL); (3, 3) }
        lays::<2, 1, false, 1, 6>(&mut k, Kind::Edges, 1, ALL);
        both_diags! { lays(&mut k, Kind::FewMissing(2), 1, 6); (3, 3) }
        both_diags! { costs(&mut k, en(&[-1, 0, 1, 3]), ALL); (3, 1) (1, 2) }
        costs::<1, 1, true, 1, 4>(&mut k, st(&[-1, 1, 3]), ALL);
        costs::<2, 2, false, 1, 9>(&mut k, en(&[-1, 1, 4]), 4);
        both_diags! { lays(&mut k, Kind::Mazes, 7, 4); (63, 63) (255, 3) (3, 255) }
        both_diags! { goals(&mut k, Kind::Walls, true); (2, 1) (1, 2) }
    }
    macro_rules! part {
        ($($t:ident $n:literal $x:expr, $y:expr;)*) => { $(
            user::<($t, $t), false>(&mut k, concat!("(", stringify!($t), ",", stringify!($t), ") ", $n), Kind::Mazes, Sq::part($x as i128, $y as i128, 6, 7), 3, 9);
            user::<($t, $t), true>(&mut k, concat!("(", stringify!($t), ",", stringify!($t), ") ", $n), Kind::Walls, Sq::part($x as i128, $y as i128, 3, 2), 3, 9);
        )* }
    }
    part! {
        i32 "around zero" -3, -3;
        i32 "at the limits" i32::MIN, i32::MAX - 8;
        i16 "at the limits" i16::MAX - 8, i16::MIN;
        i8 "around zero" -2, -4;
        u16 "at the limits" u16::MAX - 8, 0;
        u32 "in the middle" 1_000_000, 3_000_000_000u32;
        u64 "at the limits" u64::MAX / 2 - 8, u64::MAX / 4;
        u128 "across 64 bits" (u64::MAX as i128 - 2), (u64::MAX as i128 - 3);
    }
    k.assume("movement functions that answer the same for the same arguments and lead to the adjacent square");
    k.assume("agreement of the three searches on lengths: the same positive cost for every step, totals below usize::MAX");
    k.run()
}


