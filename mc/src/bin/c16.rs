//! C16: breadth-first traversal yields exactly the squares at each distance.
use mc::model::*;
use mc::search::*;
use mc::*;
use sqrid::*;
use std::collections::{BTreeSet, HashMap, HashSet};

/// By which moves every square is entered from a square one step nearer.
fn entering(lay: &Lay, dist: &[Option<usize>]) -> Vec<u8> {
    let mut v = vec![0u8; lay.n()];
    for j in 0..lay.n() {
        let Some(dj) = dist[j] else { continue };
        for d in dirs(lay.diag) {
            if let Some(i) = lay.succ(j, *d) {
                if dist[i] == Some(dj + 1) {
                    v[i] |= 1 << di(*d);
                }
            }
        }
    }
    v
}

/// Compare the groups of one traversal with the distances.
fn judge<P: Sp>(name: &str, it: &mut dyn Iterator<Item = Vec<(P, Dir)>>, lay: &Lay, q: &Sq<P>, o: usize, dist: &[Option<usize>], enter: &[u8], c: &mut Ctx) -> Res {
    let last = dist.iter().flatten().max().copied().unwrap_or(0);
    let mut counts = vec![0usize; last + 1];
    dist.iter().flatten().for_each(|d| counts[*d] += 1);
    let mut seen = vec![false; lay.n()];
    for k in 1..=last {
        let Some(grp) = it.next() else {
            bad!("{name} from {:?}: ends before group {k} of {last}", q.p[o]);
        };
        c.steps += grp.len() as u64;
        for (p, d) in &grp {
            let Some(i) = q.find(p) else { bad!("{name} from {:?}: {p:?} in group {k}, where no step leads", q.p[o]) };
            if dist[i] != Some(k) || seen[i] {
                bad!("{name} from {:?}: {p:?} in group {k}, its distance is {:?}{}", q.p[o], dist[i], if seen[i] { ", and it appears twice" } else { "" });
            }
            seen[i] = true;
            // The reverse of a move that enters it from the previous group
            if !dirs(lay.diag).contains(d) || enter[i] >> di(opposite(*d)) & 1 == 0 {
                bad!("{name} from {:?}: {p:?} in group {k} reported with {d:?}, but no square of the previous group leads there by {:?}", q.p[o], opposite(*d));
            }
        }
        same!(grp.len(), counts[k], "{name} from {:?}: number of squares in group {k}", q.p[o]);
    }
    for _ in 0..2 {
        if let Some(g) = it.next() {
            bad!("{name} from {:?}: goes on after the last group with {} squares", q.p[o], g.len());
        }
    }
    Ok(())
}

fn case<P: Sp, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(lay: &Lay, q: &Sq<P>, origins: &[usize], every: bool, c: &mut Ctx) -> Res {
    for &o in origins {
        c.state();
        let dist = lay.dist(o);
        c.outcome(&dist);
        let enter = entering(lay, &dist);
        let go = lay.go(q);
        let go: &dyn Fn(P, Dir) -> Option<P> = &go;
        let p = &q.p[o];
        macro_rules! j {
            ($name:expr, $it:expr) => {
                judge($name, &mut $it, lay, q, o, &dist, &enter, c)?
            };
        }
        j!("bf_iter", Sqrid::<X, Y, D, W, S>::bf_iter(go, p));
        if every {
            j!("bf_iter_grid", Sqrid::<X, Y, D, W, S>::bf_iter_grid(go, p));
            j!("bf_iter_hash", Sqrid::<X, Y, D, W, S>::bf_iter_hash(go, p));
            j!("bf_iter_btree", Sqrid::<X, Y, D, W, S>::bf_iter_btree(go, p));
            j!("bf::bf_iter_grid", bf::bf_iter_grid::<_, P, D, W, S>(go, p));
            j!("bf::bf_iter_hash", bf::bf_iter_hash::<_, P, D, W, S>(go, p));
            j!("bf::bf_iter_btree", bf::bf_iter_btree::<_, P, D, W, S>(go, p));
            j!("bf::bf_iter with a tree set", bf::bf_iter::<_, BTreeSet<P>, P, D, W, S>(go, p));
            j!("BfIterator::new with a hash set", bf::BfIterator::<_, HashSet<P>, P, D, W, S>::new(go, p));
        }
    }
    Ok(())
}

/// Every mixture of calls.
fn mixed<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check, kind: Kind) {
    let q = Sq::<Pos<X, Y>>::new();
    let name = format!("mixed calls {}x{} {}", q.w, q.h, if D { 8 } else { 4 });
    layouts(k, &name, kind, q.w, q.h, D, "every origin (of large grids: some): groups taken one by one, then every way of going on: nth, skip, step_by, take, find, fold, count, last..., up to and beyond the end, and then the rest", move |lay, c| {
        let go = lay.go(&q);
        let go: &dyn Fn(Pos<X, Y>, Dir) -> Option<Pos<X, Y>> = &go;
        for o in spots(q.w, q.h, 8) {
            let p = &q.p[o];
            let what = |n: &'static str| move || format!("{n} from {p:?}");
            macro_rules! j {
                ($n:literal, $it:expr) => {{
                    let mut all = vec![];
                    let mut it = $it;
                    while let Some(g) = it.next() {
                        if all.len() > S {
                            bad!("{} from {p:?} has more groups than there are squares", $n);
                        }
                        all.push(g);
                    }
                    iter::forward(&|| $it, &all, &what($n), c)?;
                }};
            }
            j!("bf_iter", Sqrid::<X, Y, D, W, S>::bf_iter(go, p));
            j!("bf_iter_hash", Sqrid::<X, Y, D, W, S>::bf_iter_hash(go, p));
            j!("bf_iter_btree", Sqrid::<X, Y, D, W, S>::bf_iter_btree(go, p));
        }
        Ok(())
    });
}

fn kinds<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check, kind: Kind, every: bool) {
    let q = Sq::<Pos<X, Y>>::new();
    let name = format!("{} {}x{} {}", kind.name(), q.w, q.h, if D { 8 } else { 4 });
    let origins = match kind {
        Kind::Mazes | Kind::Broad => spots(q.w, q.h, if S > 3000 { 4 } else { 12 }),
        _ => (0..S).collect(),
    };
    let what = format!("{} origins{}", origins.len(), if every { ", every variant and entry point" } else { ", default variant" });
    layouts(k, &name, kind, q.w, q.h, D, &what, move |lay, c| case::<Pos<X, Y>, X, Y, D, W, S>(lay, &q, &origins, every, c));
}

/// Movement functions that lead anywhere: every table in which the given
/// directions of every square lead nowhere or to any square.
fn tables<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check, used: &'static [Dir], every: bool) {
    let q = Sq::<Pos<X, Y>>::new();
    let base = S as u64 + 1;
    let entries = S * used.len();
    k.fam(
        format!("tables {}x{} {} {used:?}", q.w, q.h, if D { 8 } else { 4 }),
        format!("every movement function in which the moves {used:?} of each of {S} squares lead nowhere or to any square (itself and distant ones included), other moves lead nowhere; every origin"),
        base.pow(entries as u32),
        move |i, c| {
            let t = digs(i, base, entries);
            let mut lay = Lay { w: q.w, h: q.h, diag: D, to: vec![[NO; 8]; S], desc: String::new() };
            for s in 0..S {
                for (n, d) in used.iter().enumerate() {
                    let v = t[s * used.len() + n] as u32;
                    if v > 0 {
                        lay.to[s][di(*d)] = v - 1;
                    }
                }
            }
            c.note(|| format!("table {t:?}"));
            case::<Pos<X, Y>, X, Y, D, W, S>(&lay, &q, &(0..S).collect::<Vec<_>>(), every, c).map_err(|e| Viol::from(format!("moves {used:?} lead to {t:?} (0: nowhere, n: square n-1): {}", e.detail)))
        },
    );
}

/// User-defined positions; only the sets that suit any position.
fn user<P: Sp, const D: bool>(k: &mut Check, name: &str, kind: Kind) {
    let q = Sq::<P>::new();
    let origins: Vec<usize> = spots(q.w, q.h, if q.n() > 1000 { 5 } else { 50 });
    layouts(k, &format!("{name} {}", if D { 8 } else { 4 }), kind, q.w, q.h, D, "user-defined position type, hash and tree variants", move |lay, c| {
        for &o in &origins {
            c.state();
            let dist = lay.dist(o);
            let go = lay.go(&q);
            let go: &dyn Fn(P, Dir) -> Option<P> = &go;
            let enter = entering(lay, &dist);
            judge("bf_iter_hash", &mut Sqrid::<0, 0, D, 0, 0>::bf_iter_hash(go, &q.p[o]), lay, &q, o, &dist, &enter, c)?;
            judge("bf_iter_btree", &mut Sqrid::<0, 0, D, 0, 0>::bf_iter_btree(go, &q.p[o]), lay, &q, o, &dist, &enter, c)?;
            c.outcome(&dist);
        }
        Ok(())
    });
}

/// Positions without end: the first groups around an origin, with the real
/// addition of directions as movement function.
fn unbounded<T: 'static, const D: bool>(k: &mut Check, name: &str, origins: Vec<(T, T)>, groups: usize, lim: (i128, i128))
where
    (T, T): Sp,
    T: BoundedInt + Send + Sync,
{
    k.fam(format!("pairs of {name} {}", if D { 8 } else { 4 }), format!("first {groups} groups around {} origins, at the limits of the type among them", origins.len()), origins.len() as u64, move |i, c| {
        let o = origins[i as usize];
        let (ox, oy) = xy(&o);
        c.note(|| format!("around {ox},{oy}"));
        // distance in an unbounded or cut-off quadrant is geometric
        let d = |x: i128, y: i128| if D { (x - ox).abs().max((y - oy).abs()) } else { (x - ox).abs() + (y - oy).abs() };
        for variant in 0..2 {
            let go = |p: (T, T), d: Dir| (p + d).ok();
            let mut it: Box<dyn Iterator<Item = Vec<((T, T), Dir)>>> = match variant {
                0 => Box::new(Sqrid::<0, 0, D, 0, 0>::bf_iter_hash(go, &o)),
                _ => Box::new(Sqrid::<0, 0, D, 0, 0>::bf_iter_btree(go, &o)),
            };
            for g in 1..=groups as i128 {
                let mut want: HashMap<(i128, i128), ()> = HashMap::new();
                for x in ox - g..=ox + g {
                    for y in oy - g..=oy + g {
                        if d(x, y) == g && lim.0 <= x && x <= lim.1 && lim.0 <= y && y <= lim.1 {
                            want.insert((x, y), ());
                        }
                    }
                }
                let got = it.next();
                let Some(grp) = got else {
                    if want.is_empty() {
                        break;
                    }
                    bad!("around {ox},{oy}: ends before group {g}");
                };
                c.state();
                for (p, dir) in &grp {
                    c.step();
                    let (x, y) = xy(p);
                    if want.remove(&(x, y)).is_none() {
                        bad!("around {ox},{oy}: {p:?} in group {g} (its distance is {}), or twice", d(x, y));
                    }
                    let (fx, fy) = off(*dir);
                    if d(x + fx as i128, y + fy as i128) != g - 1 {
                        bad!("around {ox},{oy}: {p:?} in group {g} reported with {dir:?}");
                    }
                }
                if !want.is_empty() {
                    bad!("around {ox},{oy}: {:?} missing from group {g}", want.keys().next());
                }
            }
        }
        c.outcome(&i);
        Ok(())
    });
}

fn main() {
    let mut k = Check::new("C16", "layouts x origins traversed", "squares yielded, each compared with the distance model");
    let deep = k.thorough();
    both_diags! { kinds(&mut k, Kind::Walls, true); (0, 0) (5, 0) (0, 5) (1, 1) (2, 1) (2, 2) }
    both_diags! { kinds(&mut k, Kind::Walls, false); (1, 0) (0, 1) (2, 0) (0, 2) (1, 2) (3, 1) (1, 3) }
    both_diags! { kinds(&mut k, Kind::Walls, false); (4, 1) (1, 4) (3, 2) (2, 3) }
    both_diags! { kinds(&mut k, Kind::Edges, true); (1, 1) }
    both_diags! { kinds(&mut k, Kind::Edges, false); (1, 0) (0, 1) (2, 0) (0, 2) (4, 0) (0, 4) }
    both_diags! { kinds(&mut k, Kind::FewWalls(2), false); (3, 3) (4, 4) (5, 3) (7, 3) }
    both_diags! { kinds(&mut k, Kind::FewMissing(2), false); (2, 2) (3, 1) (1, 3) }
    kinds::<2, 1, false, 1, 6>(&mut k, Kind::Edges, false);
    kinds::<1, 2, false, 1, 6>(&mut k, Kind::Edges, false);
    if deep {
        both_diags! { kinds(&mut k, Kind::Walls, false); (3, 3) (4, 2) (2, 4) }
        both_diags! { kinds(&mut k, Kind::FewMissing(3), false); (2, 2) (3, 3) }
        kinds::<2, 1, true, 1, 6>(&mut k, Kind::Edges, false);
        kinds::<3, 1, false, 1, 8>(&mut k, Kind::Edges, false);
        kinds::<2, 2, false, 1, 9>(&mut k, Kind::Edges, false);
        both_diags! { kinds(&mut k, Kind::FewWalls(3), false); (4, 4) (5, 3) (7, 3) }
    }
    tables::<1, 0, false, 1, 2>(&mut k, &CARDINAL, true);
    tables::<0, 1, false, 1, 2>(&mut k, &CARDINAL, true);
    tables::<1, 0, true, 1, 2>(&mut k, &[Dir::N, Dir::NE, Dir::SE, Dir::NW], true);
    tables::<2, 0, false, 1, 3>(&mut k, &[Dir::N, Dir::E], true);
    tables::<2, 0, false, 1, 3>(&mut k, &[Dir::E, Dir::S, Dir::W], false);
    tables::<0, 2, true, 1, 3>(&mut k, &[Dir::SW, Dir::NE], true);
    tables::<1, 1, false, 1, 4>(&mut k, &[Dir::W], true);
    tables::<1, 1, false, 1, 4>(&mut k, &[Dir::S, Dir::N], false);
    tables::<1, 1, true, 1, 4>(&mut k, &[Dir::SE], true);
    tables::<2, 1, false, 1, 6>(&mut k, &[Dir::S], true);
    if deep {
        tables::<2, 0, false, 1, 3>(&mut k, &CARDINAL, false);
        tables::<1, 1, true, 1, 4>(&mut k, &[Dir::NE, Dir::SW], false);
        tables::<1, 0, true, 1, 2>(&mut k, &COMPASS, false);
        tables::<3, 1, false, 1, 8>(&mut k, &[Dir::E], false);
    }
    both_diags! { kinds(&mut k, Kind::Mazes, true); (6, 4) (7, 3) (32, 0) (0, 31) (2, 10) }
    both_diags! { kinds(&mut k, Kind::Mazes, false); (4, 4) (3, 7) (31, 0) (15, 3) (9, 9) (10, 2) }
    both_diags! { kinds(&mut k, Kind::Mazes, false); (63, 0) (0, 63) (30, 31) (99, 9) (255, 0) (0, 255) (256, 0) (0, 256) (255, 2) (2, 256) (99, 99) }
    both_diags! { mixed(&mut k, Kind::Walls); (0, 0) (3, 0) (0, 4) (2, 1) (1, 2) }
    both_diags! { mixed(&mut k, Kind::Mazes); (3, 3) (7, 1) (1, 6) }
    both_diags! { kinds(&mut k, Kind::Broad, true); (6, 4) (10, 10) (63, 63) (255, 2) }
    both_diags! { kinds(&mut k, Kind::Broad, false); (299, 217) (511, 511) }
    user::<(u8, u8), true>(&mut k, "pairs of u8, broad", Kind::Broad);
    user::<Off1, false>(&mut k, "Off1, broad", Kind::Broad);
    large(&mut k, deep);
    user::<Mix53, true>(&mut k, "Mix53", Kind::Mazes);
    user::<Mix53, false>(&mut k, "Mix53", Kind::Mazes);
    user::<Off1, true>(&mut k, "Off1", Kind::Mazes);
    user::<Off1, false>(&mut k, "Off1", Kind::FewWalls(2));
    user::<Off2, true>(&mut k, "Off2", Kind::Walls);
    user::<Off2, false>(&mut k, "Off2", Kind::Edges);
    user::<Off3, false>(&mut k, "Off3", Kind::Mazes);
    user::<OneCol, true>(&mut k, "OneCol", Kind::Edges);
    user::<OneSq, true>(&mut k, "OneSq", Kind::Edges);
    user::<(u8, u8), false>(&mut k, "pairs of u8", Kind::Mazes);
    user::<(i8, i8), true>(&mut k, "pairs of i8", Kind::Mazes);
    let g = if deep { 60 } else { 20 };
    macro_rules! endless {
        ($($t:ident)*) => { $( {
            let v = [<$t>::MIN, <$t>::MIN + 5, 0, 7, <$t>::MAX - 3, <$t>::MAX];
            let o: Vec<($t, $t)> = v.iter().flat_map(|x| v.iter().map(move |y| (*x, *y))).collect();
            let lim = (<$t>::MIN as i128, if <$t>::BITS == 128 { i128::MAX } else { <$t>::MAX as i128 });
            unbounded::<$t, false>(&mut k, stringify!($t), o.clone(), g, lim);
            unbounded::<$t, true>(&mut k, stringify!($t), o, g, lim);
        } )* }
    }
    endless!(i32 u64 i16);
    k.assume("movement functions that answer the same for the same arguments");
    k.run()
}

fn large(k: &mut Check, deep: bool) {
    both_diags! { kinds(k, Kind::Mazes, false); (65535, 0) (0, 65535) (255, 255) (299, 217) }
    if deep {
        both_diags! { kinds(k, Kind::Mazes, true); (65535, 1) (1, 65535) (256, 255) }
    }
}
