//! C21: following a came-from map gives the path, or the right error, for every map.
use mc::model::*;
use mc::search::*;
use mc::*;
use sqrid::*;
use std::collections::{BTreeMap, HashMap};

type Dirs = Option<Dir>;
type Path = Result<Vec<Dir>, Error>;
type HMap<P> = (HashMap<P, Dirs>, Dirs);
type BMap<P> = (BTreeMap<P, Dirs>, Dirs);

/// A map of our own, which has all directions of a part of the positions.
struct Own<'a, P> {
    v: &'a [Dirs],
    q: &'a Sq<P>,
    /// the answer elsewhere
    none: Dirs,
}

impl<P: Sp, const W: usize, const S: usize> MapPos<Dirs, P, W, S> for Own<'_, P> {
    fn new(_: Dirs) -> Self {
        unreachable!()
    }
    fn get(&self, p: &P) -> &Dirs {
        match at(self.q, p) {
            Some(i) => &self.v[i],
            None => &self.none,
        }
    }
    fn set(&mut self, _: P, _: Dirs) {
        unreachable!()
    }
}

/// Number of a position that may be outside the part.
fn at<P: Sp>(q: &Sq<P>, p: &P) -> Option<usize> {
    let f = q.p[0].tuple();
    let t = p.tuple();
    let (x, y) = (num(t.0) - num(f.0), num(t.1) - num(f.1));
    if x < 0 || y < 0 || x >= q.w as i128 || y >= q.h as i128 {
        None
    } else {
        Some(y as usize * q.w + x as usize)
    }
}

/// Where the walk from the destination comes along, and how it ends when
/// nothing stops it.
fn follow(w: usize, h: usize, map: &[Dirs], dest: usize) -> (Vec<usize>, Error) {
    let mut seen = vec![false; w * h];
    let mut way = vec![dest];
    let mut i = dest;
    loop {
        if seen[i] {
            way.pop();
            return (way, Error::Loop);
        }
        seen[i] = true;
        match map[i].and_then(|d| neigh(w, h, i, d)) {
            None => return (way, Error::InvalidMovement),
            Some(j) => {
                i = j;
                way.push(j);
            }
        }
    }
}

fn judge(name: &str, got: &Path, map: &[Dirs], way: &[usize], end: &Error, orig: usize, dest: usize, o: &dyn std::fmt::Debug, d: &dyn std::fmt::Debug, c: &mut Ctx) -> Res {
    c.step();
    let at = if map[dest].is_none() { None } else { way.iter().position(|i| *i == orig) };
    let ok = match (got, at) {
        (Ok(path), Some(n)) => path.len() == n && path.iter().rev().zip(way).all(|(p, i)| map[*i] == Some(opposite(*p))),
        (Err(Error::DestinationUnreachable), None) => map[dest].is_none(),
        (Err(Error::Loop), None) => map[dest].is_some() && matches!(end, Error::Loop),
        (Err(Error::InvalidMovement), None) => map[dest].is_some() && matches!(end, Error::InvalidMovement),
        _ => false,
    };
    if !ok {
        let got = match got {
            Ok(p) => format!("path [{}]", show(p)),
            Err(e) => format!("{e:?}"),
        };
        let want = match at {
            Some(n) => format!("path [{}]", show(&way[..n].iter().rev().map(|i| opposite(map[*i].unwrap())).collect::<Vec<_>>())),
            None if map[dest].is_none() => "DestinationUnreachable".into(),
            None => format!("{end:?}"),
        };
        bad!("{name} from {o:?} to {d:?}: got {got}, expected {want}");
    }
    Ok(())
}

fn text(w: usize, map: &[Dirs]) -> String {
    if map.len() > 64 {
        return format!("{} squares", map.len());
    }
    map.chunks(w).map(|r| r.iter().map(|d| d.map_or("-".into(), |d| format!("{d:?}"))).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join("/")
}

/// Every origin and destination of a list on one map.
fn on<P: Sp, const W: usize, const S: usize>(q: &Sq<P>, map: &[Dirs], origs: &[usize], dests: &[usize], more: Option<&dyn Fn(&P, &P) -> Vec<(&'static str, Path)>>, c: &mut Ctx) -> Res {
    for &d in dests {
        let (way, end) = follow(q.w, q.h, map, d);
        c.outcome(&(way.len(), matches!(end, Error::Loop)));
        for &o in origs {
            c.state();
            let (po, pd) = (&q.p[o], &q.p[d]);
            let r = camefrom_into_path::<_, P, W, S>(Own { v: map, q, none: None }, po, pd);
            judge("camefrom_into_path", &r, map, &way, &end, o, d, po, pd, c).map_err(|e| Viol::from(format!("map {}: {}", text(q.w, map), e.detail)))?;
            if let Some(f) = more {
                for (name, r) in f(po, pd) {
                    judge(name, &r, map, &way, &end, o, d, po, pd, c).map_err(|e| Viol::from(format!("map {}: {}", text(q.w, map), e.detail)))?;
                }
            }
        }
    }
    Ok(())
}

fn grid<P: Sp, const S: usize>(q: &Sq<P>, map: &[Dirs]) -> Grid<Dirs, P, S> {
    let mut g = Grid::<Dirs, P, S>::repeat(None);
    q.p.iter().zip(map).for_each(|(p, d)| g[*p] = *d);
    g
}

/// With and without an entry for the positions that have no direction.
fn hash<P: Sp>(q: &Sq<P>, map: &[Dirs], all: bool) -> HMap<P> {
    (q.p.iter().zip(map).filter(|(_, d)| all || d.is_some()).map(|(p, d)| (*p, *d)).collect(), None)
}

fn tree<P: Sp>(q: &Sq<P>, map: &[Dirs], all: bool) -> BMap<P> {
    (q.p.iter().zip(map).filter(|(_, d)| all || d.is_some()).map(|(p, d)| (*p, *d)).collect(), None)
}

/// All the ways for a type that has grids.
fn every<P: Sp, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(q: &Sq<P>, map: &[Dirs], o: &P, d: &P) -> Vec<(&'static str, Path)> {
    vec![
        ("camefrom_into_path of a grid", camefrom_into_path::<Grid<Dirs, P, S>, P, W, S>(grid(q, map), o, d)),
        ("camefrom_into_path of a hash map", camefrom_into_path::<HMap<P>, P, W, S>(hash(q, map, false), o, d)),
        ("camefrom_into_path of a hash map with empty entries", camefrom_into_path::<HMap<P>, P, W, S>(hash(q, map, true), o, d)),
        ("camefrom_into_path of a tree map", camefrom_into_path::<BMap<P>, P, W, S>(tree(q, map, false), o, d)),
        ("camefrom_into_path of a tree map with empty entries", camefrom_into_path::<BMap<P>, P, W, S>(tree(q, map, true), o, d)),
        ("Sqrid::camefrom_into_path of a grid", Sqrid::<X, Y, D, W, S>::camefrom_into_path::<P, Grid<Dirs, P, S>>(grid(q, map), o, d)),
        ("Sqrid::camefrom_into_path of a hash map", Sqrid::<X, Y, D, W, S>::camefrom_into_path::<P, HMap<P>>(hash(q, map, false), o, d)),
        ("Sqrid::camefrom_into_path of a tree map", Sqrid::<X, Y, D, W, S>::camefrom_into_path::<P, BMap<P>>(tree(q, map, true), o, d)),
    ]
}

fn pick(v: &[usize], dirs: &[Dir]) -> Vec<Dirs> {
    v.iter().map(|a| if *a == 0 { None } else { Some(dirs[*a - 1]) }).collect()
}

/// Every map, in every implementation or only in our own.
fn all<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check, ways: bool) {
    let q = Sq::<Pos<X, Y>>::new();
    let n = q.n();
    let ds = dirs(D);
    let everyone: Vec<usize> = (0..n).collect();
    k.fam(
        format!("{}x{} every map, {} directions{}", q.w, q.h, ds.len(), if ways { ", all ways" } else { "" }),
        format!("{}x{}, every assignment of a direction of {} or none to every square, every origin and destination{}", q.w, q.h, ds.len(), if ways { ", grids, hash maps, tree maps, by the function and the method" } else { ", by the function" }),
        (ds.len() as u64 + 1).pow(n as u32),
        move |i, c| {
            let map = pick(&digs(i, ds.len() as u64 + 1, n).iter().map(|x| *x as usize).collect::<Vec<_>>(), ds);
            c.note(|| text(q.w, &map));
            let f = |o: &Pos<X, Y>, d: &Pos<X, Y>| every::<Pos<X, Y>, X, Y, D, W, S>(&q, &map, o, d);
            on::<Pos<X, Y>, W, S>(&q, &map, &everyone, &everyone, if ways { Some(&f) } else { None }, c)
        },
    );
}

/// Every map on a part of a huge or shifted type; beyond it there is nothing.
fn part<P: Sp>(k: &mut Check, name: &'static str, w: usize, h: usize) {
    let (x0, x1, y0, y1) = bounds::<P>();
    let n = w * h;
    let xs = [x0, x0 + 1.min(x1 - x0 - w as i128 + 1), (x0 + x1) / 2, x1 - w as i128 + 1];
    let ys = [y0, y0 + 1.min(y1 - y0 - h as i128 + 1), (y0 + y1) / 2, y1 - h as i128 + 1];
    let mut places: Vec<(i128, i128)> = xs.iter().flat_map(|x| ys.iter().map(move |y| (*x, *y))).filter(|(x, y)| x0 <= *x && *x <= x1 - w as i128 + 1 && y0 <= *y && *y <= y1 - h as i128 + 1).collect();
    places.sort();
    places.dedup();
    let maps = 9u64.pow(n as u32);
    let everyone: Vec<usize> = (0..n).collect();
    k.fam(
        format!("{name} {w}x{h} every map"),
        format!("positions of type {name}: every map with directions (8 or none) only for {w}x{h} squares, at {} places of the type (corners, border, centre); every origin and destination, hash and tree maps", places.len()),
        maps * places.len() as u64,
        move |i, c| {
            let (x, y) = places[(i / maps) as usize];
            let q = Sq::<P>::part(x, y, w, h);
            let map = pick(&digs(i % maps, 9, n).iter().map(|x| *x as usize).collect::<Vec<_>>(), &COMPASS);
            c.note(|| format!("at {x},{y}: {}", text(w, &map)));
            let f = |o: &P, d: &P| {
                vec![
                    ("camefrom_into_path of a hash map", camefrom_into_path::<HMap<P>, P, 0, 0>(hash(&q, &map, false), o, d)),
                    ("Sqrid::camefrom_into_path of a tree map", Sqrid::<0, 0, true, 0, 0>::camefrom_into_path::<P, BMap<P>>(tree(&q, &map, true), o, d)),
                ]
            };
            on::<P, 0, 0>(&q, &map, &everyone, &everyone, Some(&f), c).map_err(|e| Viol::from(format!("{name} at {x},{y}: {}", e.detail)))
        },
    );
}

/// Origins that the walk has no chance to reach, as far away as the type goes.
fn far<P: Sp>(k: &mut Check, name: &'static str, w: usize, h: usize) {
    let (x0, x1, y0, y1) = bounds::<P>();
    let n = w * h;
    let corners = [(x0, y0), (x1, y0), (x0, y1), (x1, y1)];
    let maps = 9u64.pow(n as u32);
    k.fam(
        format!("{name} {w}x{h} far origins"),
        format!("positions of type {name}: every map with directions (8 or none) only for {w}x{h} squares at a corner of the type; origins at the other corners and the centre, hash and tree maps"),
        maps * 4,
        move |i, c| {
            let (cx, cy) = corners[(i / maps) as usize];
            let q = Sq::<P>::part(if cx == x0 { cx } else { cx - w as i128 + 1 }, if cy == y0 { cy } else { cy - h as i128 + 1 }, w, h);
            let map = pick(&digs(i % maps, 9, n).iter().map(|x| *x as usize).collect::<Vec<_>>(), &COMPASS);
            c.note(|| format!("at {cx},{cy}: {}", text(w, &map)));
            for d in 0..n {
                let (way, end) = follow(w, h, &map, d);
                for (ox, oy) in corners.into_iter().chain([((x0 + x1) / 2, (y0 + y1) / 2)]) {
                    let o = mk::<P>(ox, oy);
                    if at(&q, &o).is_some() {
                        continue;
                    }
                    c.state();
                    let t = &q.p[d];
                    judge("camefrom_into_path of a hash map", &camefrom_into_path::<HMap<P>, P, 0, 0>(hash(&q, &map, false), &o, t), &map, &way, &end, usize::MAX, d, &o, t, c)?;
                    judge("Sqrid::camefrom_into_path of a tree map", &Sqrid::<0, 0, true, 0, 0>::camefrom_into_path::<P, BMap<P>>(tree(&q, &map, true), &o, t), &map, &way, &end, usize::MAX, d, &o, t, c)?;
                }
                c.outcome(&(way.len(), matches!(end, Error::Loop)));
            }
            Ok(())
        },
    );
}

/// A tail of every length leading into a loop of every length, on two columns
/// (rows, if turned), in a larger type.
fn rho<P: Sp>(k: &mut Check, name: &str, len: usize, turned: bool) {
    let (w, h) = if turned { (len, 2) } else { (2, len) };
    let (x0, x1, y0, y1) = bounds::<P>();
    assert!(x1 - x0 + 1 >= w as i128 && y1 - y0 + 1 >= h as i128);
    let l = len as u64;
    k.fam(
        format!("{name} {w}x{h} tails and loops"),
        format!("positions of type {name}, {w}x{h} squares: a tail of t squares that leads into a loop of 2 to {} squares or into nothing, for every t and every loop that fits; destinations all along, origins everywhere", 2 * len),
        // start of the loop, its length, closed or not
        l * l * 2,
        move |i, c| {
            let q = Sq::<P>::part(x1 - w as i128 + 1, y0, w, h);
            let (tail, k, closed) = ((i / 2 / l) as usize, (i / 2 % l) as usize, i % 2 == 0);
            if tail + k >= len {
                return Ok(());
            }
            // along the column 0 down to tail + k, over to column 1 and back up to `tail`
            let sq = |side: usize, along: usize| if turned { side * w + along } else { along * w + side };
            let (fwd, back, over, home) = if turned { (Dir::E, Dir::W, Dir::S, Dir::N) } else { (Dir::S, Dir::N, Dir::E, Dir::W) };
            let mut map = vec![None; w * h];
            for a in 0..tail + k {
                map[sq(0, a)] = Some(fwd);
            }
            map[sq(0, tail + k)] = Some(over);
            for a in tail..=tail + k {
                map[sq(1, a)] = Some(back);
            }
            map[sq(1, tail)] = if closed { Some(home) } else { None };
            c.note(|| format!("tail {tail}, loop {}", 2 * (k + 1)));
            let dests: Vec<usize> = (0..=tail + k).map(|a| sq(0, a)).chain([sq(1, tail), sq(1, len - 1)]).collect();
            let dests: Vec<usize> = if len > 16 { vec![dests[0], dests[tail / 2], dests[tail], dests[tail + k], sq(1, tail)] } else { dests };
            let origs: Vec<usize> = if len > 16 { vec![sq(0, 0), sq(0, tail), sq(0, (tail + k + 1).min(len - 1)), sq(0, tail + k), sq(1, tail), sq(1, tail + k), sq(1, len - 1), sq(1, 0)] } else { (0..w * h).collect() };
            let f = |o: &P, d: &P| vec![("camefrom_into_path of a hash map", camefrom_into_path::<HMap<P>, P, 0, 0>(hash(&q, &map, false), o, d))];
            on::<P, 0, 0>(&q, &map, &origs, &dests, if len > 16 { None } else { Some(&f) }, c)
        },
    );
}

/// One way through all the squares of a type, closed to a loop or not, read as
/// a map with every destination (small) or some.
fn tour<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check) {
    let q = Sq::<Pos<X, Y>>::new();
    let n = q.n();
    let (w, h) = (q.w, q.h);
    let some = spots(w, h, 24);
    // the squares along the way, by rows or by columns, forward or backward
    let ways = 4u64;
    // what the last square says: nothing, or a direction
    k.fam(
        format!("{w}x{h} tour {}", if D { 8 } else { 4 }),
        format!("{w}x{h}: the way through all squares by rows or by columns, forward or backward, whose last square says each of 8 directions or none; {} origins and destinations, grid, hash and tree maps", some.len()),
        ways * 9,
        move |i, c| {
            let mut order: Vec<usize> = if i % 2 == 0 {
                (0..h).flat_map(|y| (0..w).map(move |x| y * w + if y % 2 == 0 { x } else { w - 1 - x })).collect()
            } else {
                (0..w).flat_map(|x| (0..h).map(move |y| (if x % 2 == 0 { y } else { h - 1 - y }) * w + x)).collect()
            };
            if i / 2 % 2 == 1 {
                order.reverse();
            }
            let mut map = vec![None; n];
            for s in order.windows(2) {
                map[s[0]] = COMPASS.iter().find(|d| neigh(w, h, s[0], **d) == Some(s[1])).copied();
            }
            let last = (i / ways) as usize;
            map[order[n - 1]] = if last == 0 { None } else { Some(COMPASS[last - 1]) };
            let mut some = some.clone();
            some.extend([order[0], order[n - 1], order[n / 2], order[n.saturating_sub(2)]]);
            c.note(|| format!("{} {}, last square {:?}", if i % 2 == 0 { "rows" } else { "columns" }, if i / 2 % 2 == 0 { "forward" } else { "backward" }, map[order[n - 1]]));
            let f = |o: &Pos<X, Y>, d: &Pos<X, Y>| every::<Pos<X, Y>, X, Y, D, W, S>(&q, &map, o, d);
            let ways = n <= 300;
            if !ways {
                let (o, d) = (&q.p[order[n - 1]], &q.p[order[0]]);
                let (way, end) = follow(w, h, &map, order[0]);
                for (name, r) in every::<Pos<X, Y>, X, Y, D, W, S>(&q, &map, o, d) {
                    judge(name, &r, &map, &way, &end, order[n - 1], order[0], o, d, c)?;
                }
            }
            if n > 20_000 {
                some.truncate(6);
                some.extend([order[0], order[n - 1], order[n / 2]]);
            }
            on::<Pos<X, Y>, W, S>(&q, &map, &some, &some, if ways { Some(&f) } else { None }, c)
        },
    );
}

/// A long way, known by its shape alone: through a rectangle row by row, or
/// around it. Nothing is stored, so it can be as long as one likes.
struct Shape {
    x0: i128,
    y0: i128,
    w: i128,
    h: i128,
    ring: bool,
    /// the square that does not follow the shape, and what it says
    odd: (i128, i128),
    says: Dirs,
}

static SAYS: [Dirs; 5] = [None, Some(Dir::N), Some(Dir::E), Some(Dir::S), Some(Dir::W)];

impl Shape {
    /// Direction by the shape: number in SAYS.
    fn shape(&self, x: i128, y: i128) -> usize {
        let (x, y) = (x - self.x0, y - self.y0);
        if x < 0 || y < 0 || x >= self.w || y >= self.h {
            return 0;
        }
        if self.ring {
            // clockwise
            match () {
                _ if y == 0 && x < self.w - 1 => 2,
                _ if x == self.w - 1 && y < self.h - 1 => 3,
                _ if y == self.h - 1 && x > 0 => 4,
                _ if x == 0 => 1,
                _ => 0,
            }
        } else {
            // down, row by row
            match (y % 2, x) {
                (0, x) if x < self.w - 1 => 2,
                (1, x) if x > 0 => 4,
                _ => 3,
            }
        }
    }
    fn says(&self, x: i128, y: i128) -> Dirs {
        if (x, y) == self.odd {
            self.says
        } else {
            SAYS[self.shape(x, y)]
        }
    }
}

impl<P: PosT, const W: usize, const S: usize> MapPos<Dirs, P, W, S> for &Shape {
    fn new(_: Dirs) -> Self {
        unreachable!()
    }
    fn get(&self, p: &P) -> &Dirs {
        let (x, y) = xy(p);
        if (x, y) == self.odd {
            &self.says
        } else {
            &SAYS[self.shape(x, y)]
        }
    }
    fn set(&mut self, _: P, _: Dirs) {
        unreachable!()
    }
}

/// Ways of up to millions of steps.
fn long<P: Sp>(k: &mut Check, name: &str, w: i128, h: i128) {
    let (x0, x1, y0, y1) = bounds::<P>();
    assert!(x1 - x0 + 1 >= w && y1 - y0 + 1 >= h && w > 1 && h > 1);
    k.fam(
        format!("{name} {w}x{h} long ways"),
        format!("positions of type {name}, maps that only exist as rules: through all squares of a rectangle of {w}x{h} squares row by row, and around it; the last square says a direction of 4 or none; origins at the end, the middle, the second and the first square of the way, and beside it"),
        2 * 5,
        move |i, c| {
            let ring = i % 2 == 1;
            let (sx, sy) = (x1 - w + 1, y0);
            let len = if ring { 2 * (w + h) - 4 } else { w * h };
            // square number j of the way
            let nth = |j: i128| -> (i128, i128) {
                if ring {
                    match j {
                        j if j < w - 1 => (sx + j, sy),
                        j if j < w + h - 2 => (sx + w - 1, sy + j - (w - 1)),
                        j if j < 2 * w + h - 3 => (sx + w - 1 - (j - (w + h - 2)), sy + h - 1),
                        j => (sx, sy + h - 1 - (j - (2 * w + h - 3))),
                    }
                } else {
                    let (x, y) = (j % w, j / w);
                    (sx + if y % 2 == 0 { x } else { w - 1 - x }, sy + y)
                }
            };
            let m = Shape { x0: sx, y0: sy, w, h, ring, odd: nth(len - 1), says: SAYS[(i / 2) as usize] };
            c.note(|| format!("{}, last square says {:?}", if ring { "around" } else { "through" }, m.says));
            // what happens after the last square
            let (lx, ly) = nth(len - 1);
            let loops = match m.says {
                None => false,
                Some(d) => {
                    let (x, y) = (lx + off(d).0 as i128, ly + off(d).1 as i128);
                    x >= x0 && x <= x1 && y >= y0 && y <= y1 && m.says(x, y).is_some()
                }
            };
            let first = nth(0);
            let dest = mk::<P>(first.0, first.1);
            let beside = if x1 - x0 + 1 > w { Some((sx - 1, sy)) } else if y1 - y0 + 1 > h { Some((sx, sy + h)) } else { None };
            // (the square beside the way is reached if the last square leads there)
            let beside = beside.filter(|b| m.says.is_none_or(|d| *b != (lx + off(d).0 as i128, ly + off(d).1 as i128)));
            for (at, o) in [len - 1, len / 2, 1, 0].into_iter().map(|j| (Some(j), nth(j))).chain(beside.map(|b| (None, b))) {
                c.state();
                c.step();
                let r = camefrom_into_path::<&Shape, P, 0, 0>(&m, &mk::<P>(o.0, o.1), &dest);
                // told apart by the square where the way starts, which has to say something
                let what = || format!("from {first:?} {} {w}x{h} squares, last one says {:?}, to {o:?}", if ring { "around" } else { "through" }, m.says);
                match (at, r) {
                    (Some(j), Ok(p)) => {
                        if p.len() as i128 != j {
                            bad!("{}: path of {} steps instead of {j}", what(), p.len());
                        }
                        for (n, d) in p.iter().enumerate() {
                            let (x, y) = nth(j - 1 - n as i128);
                            if m.says(x, y).map(opposite) != Some(*d) {
                                bad!("{}: step {n} of {j} is {d:?}", what());
                            }
                        }
                    }
                    (Some(j), Err(e)) => bad!("{}: {e:?}, though {j} steps lead there", what()),
                    (None, Ok(p)) => bad!("{}: path of {} steps to a square that the way does not visit", what(), p.len()),
                    (None, Err(e)) => {
                        if e != if loops { Error::Loop } else { Error::InvalidMovement } {
                            bad!("{}: {e:?}, the way {}", what(), if loops { "never ends" } else { "ends" });
                        }
                    }
                }
            }
            c.outcome(&(len, loops));
            Ok(())
        },
    );
}

fn main() {
    let mut k = Check::new("C21", "maps x origins x destinations", "conversions by the real code, each compared with the walk along the map");
    let deep = k.thorough();
    all::<0, 0, true, 1, 1>(&mut k, true);
    all::<1, 0, true, 1, 2>(&mut k, true);
    all::<0, 1, true, 1, 2>(&mut k, true);
    all::<2, 0, true, 1, 3>(&mut k, true);
    all::<0, 2, true, 1, 3>(&mut k, true);
    all::<1, 1, true, 1, 4>(&mut k, true);
    all::<1, 1, false, 1, 4>(&mut k, true);
    all::<3, 0, true, 1, 4>(&mut k, true);
    all::<0, 3, true, 1, 4>(&mut k, true);
    all::<2, 1, true, 1, 6>(&mut k, false);
    all::<1, 2, true, 1, 6>(&mut k, false);
    all::<0, 5, true, 1, 6>(&mut k, false);
    all::<5, 0, false, 1, 6>(&mut k, false);
    all::<0, 7, false, 1, 8>(&mut k, false);
    all::<1, 3, false, 1, 8>(&mut k, false);
    all::<3, 1, false, 1, 8>(&mut k, false);
    all::<2, 2, false, 1, 9>(&mut k, false);
    part::<(i8, i8)>(&mut k, "(i8,i8)", 2, 2);
    part::<(u8, u8)>(&mut k, "(u8,u8)", 2, 2);
    part::<(i16, i16)>(&mut k, "(i16,i16)", 2, 2);
    part::<(u16, u16)>(&mut k, "(u16,u16)", 1, 3);
    part::<(i32, i32)>(&mut k, "(i32,i32)", 2, 2);
    part::<(u32, u32)>(&mut k, "(u32,u32)", 3, 1);
    part::<(u64, u64)>(&mut k, "(u64,u64)", 2, 2);
    part::<Mix53>(&mut k, "Mix53", 2, 2);
    part::<Off1>(&mut k, "Off1", 2, 2);
    part::<Off2>(&mut k, "Off2", 2, 2);
    part::<Off4>(&mut k, "Off4", 2, 2);
    part::<OneCol>(&mut k, "OneCol", 1, 3);
    part::<OneSq>(&mut k, "OneSq", 1, 1);
    far::<(u64, u64)>(&mut k, "(u64,u64)", 1, 2);
    far::<(i8, i8)>(&mut k, "(i8,i8)", 2, 1);
    far::<(u8, u8)>(&mut k, "(u8,u8)", 1, 2);
    far::<(i16, i16)>(&mut k, "(i16,i16)", 2, 1);
    far::<(i32, i32)>(&mut k, "(i32,i32)", 2, 2);
    far::<(u32, u32)>(&mut k, "(u32,u32)", 2, 1);
    far::<Off1>(&mut k, "Off1", 2, 1);
    far::<Pos<65535, 65535>>(&mut k, "Pos<65535,65535>", 2, 2);
    rho::<Pos<1, 15>>(&mut k, "Pos<1,15>", 16, false);
    rho::<Pos<15, 1>>(&mut k, "Pos<15,1>", 16, true);
    rho::<Pos<1, 65535>>(&mut k, "Pos<1,65535>", 120, false);
    rho::<Pos<65535, 1>>(&mut k, "Pos<65535,1>", 120, true);
    rho::<(i8, i8)>(&mut k, "(i8,i8)", 80, false);
    rho::<(u32, u32)>(&mut k, "(u32,u32)", 14, true);
    rho::<(i32, i32)>(&mut k, "(i32,i32)", 300, false);
    rho::<(u64, u64)>(&mut k, "(u64,u64)", 150, true);
    both_diags! { tour(&mut k); (0, 0) (4, 0) (0, 4) (4, 4) (5, 3) (3, 5) (7, 2) (2, 11) (0, 40) (40, 0) (12, 20) }
    tour::<30, 31, false, 32, 992>(&mut k);
    tour::<9, 255, false, 81, 2560>(&mut k);
    tour::<255, 9, false, 81, 2560>(&mut k);
    tour::<0, 65535, false, 2049, 65536>(&mut k);
    tour::<65535, 0, false, 2049, 65536>(&mut k);
    tour::<1, 9999, false, 626, 20000>(&mut k);
    tour::<1, 65535, false, 4097, 131072>(&mut k);
    tour::<65535, 1, false, 4097, 131072>(&mut k);
    long::<Pos<1, 2>>(&mut k, "Pos<1,2>", 2, 2);
    long::<Pos<15, 15>>(&mut k, "Pos<15,15>", 8, 9);
    long::<Pos<255, 255>>(&mut k, "Pos<255,255>", 256, 256);
    long::<Pos<1023, 1023>>(&mut k, "Pos<1023,1023>", 1024, 1024);
    long::<Pos<65535, 65535>>(&mut k, "Pos<65535,65535>", 4097, 4099);
    long::<(u16, u16)>(&mut k, "(u16,u16)", 65535, 60);
    long::<(u32, u32)>(&mut k, "(u32,u32)", 3, 6_000_001);
    long::<(i32, i32)>(&mut k, "(i32,i32)", 3_000_001, 2);
    long::<(u64, u64)>(&mut k, "(u64,u64)", 1025, 1024);
    if deep {
        long::<Pos<65535, 65535>>(&mut k, "Pos<65535,65535>", 65536, 1025);
        long::<(i16, i16)>(&mut k, "(i16,i16)", 513, 65536);
        long::<(u64, u64)>(&mut k, "(u64,u64)", 2, 9_000_001);
        all::<6, 0, true, 1, 7>(&mut k, false);
        all::<0, 6, true, 1, 7>(&mut k, false);
        all::<1, 3, true, 1, 8>(&mut k, false);
        all::<3, 1, true, 1, 8>(&mut k, false);
        all::<1, 4, false, 1, 10>(&mut k, false);
        all::<4, 1, false, 1, 10>(&mut k, false);
        all::<2, 1, true, 1, 6>(&mut k, true);
        part::<(i8, i8)>(&mut k, "(i8,i8)", 2, 3);
        part::<(u16, u16)>(&mut k, "(u16,u16)", 3, 2);
        part::<(u64, u64)>(&mut k, "(u64,u64)", 1, 4);
        rho::<Pos<1, 999>>(&mut k, "Pos<1,999>", 1000, false);
        rho::<Pos<999, 1>>(&mut k, "Pos<999,1>", 1000, true);
        rho::<(i16, i16)>(&mut k, "(i16,i16)", 700, false);
        tour::<255, 255, false, 2049, 65536>(&mut k);
        tour::<3, 65535, false, 8193, 262144>(&mut k);
        tour::<65535, 3, false, 8193, 262144>(&mut k);
    }
    k.run()
}
