//! Shared by the checks of the searches: layouts (which steps are allowed),
//! their enumeration, and what a path has to be.
use crate::model::*;
use crate::*;
use sqrid::*;
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::Arc;

pub trait Sp: PosT + Copy + Ord + Hash + Debug + Send + Sync + std::ops::Add<Dir, Output = Result<Self, Error>> + 'static {}
impl<P: PosT + Copy + Ord + Hash + Debug + Send + Sync + std::ops::Add<Dir, Output = Result<P, Error>> + 'static> Sp for P {}

pub const NO: u32 = u32::MAX;

/// Number of a direction, clockwise from north.
pub fn di(d: Dir) -> usize {
    match d {
        Dir::N => 0,
        Dir::NE => 1,
        Dir::E => 2,
        Dir::SE => 3,
        Dir::S => 4,
        Dir::SW => 5,
        Dir::W => 6,
        Dir::NW => 7,
    }
}

/// Which steps are allowed. When only the four directions are searched, the
/// diagonal ones are there all the same: a search that used them would get
/// somewhere, and be found out.
#[derive(Clone)]
pub struct Lay {
    pub w: usize,
    pub h: usize,
    pub diag: bool,
    pub to: Vec<[u32; 8]>,
    pub desc: String,
}

impl Lay {
    pub fn n(&self) -> usize {
        self.w * self.h
    }
    pub fn new(w: usize, h: usize, diag: bool, desc: String, allowed: impl Fn(usize, Dir, usize) -> bool) -> Lay {
        let to = (0..w * h)
            .map(|i| {
                let mut t = [NO; 8];
                for d in COMPASS {
                    if let Some(j) = neigh(w, h, i, d) {
                        if allowed(i, d, j) {
                            t[di(d)] = j as u32;
                        }
                    }
                }
                t
            })
            .collect();
        Lay { w, h, diag, to, desc }
    }
    /// Blocked squares can not be entered.
    pub fn walls(w: usize, h: usize, diag: bool, blocked: impl Fn(usize) -> bool) -> Lay {
        let b: Vec<bool> = (0..w * h).map(blocked).collect();
        let desc = if w * h <= 64 {
            format!("walls {}", (0..h).map(|y| (0..w).map(|x| if b[y * w + x] { '#' } else { '.' }).collect::<String>()).collect::<Vec<_>>().join("/"))
        } else {
            format!("{} walls", b.iter().filter(|x| **x).count())
        };
        Lay::new(w, h, diag, desc, |_, _, j| !b[j])
    }
    pub fn succ(&self, i: usize, d: Dir) -> Option<usize> {
        let t = self.to[i][di(d)];
        if t == NO {
            None
        } else {
            Some(t as usize)
        }
    }
    /// Number of steps from `o` to every square.
    pub fn dist(&self, o: usize) -> Vec<Option<usize>> {
        distances(self.n(), o, |i, f| {
            for d in dirs(self.diag) {
                if let Some(j) = self.succ(i, *d) {
                    f(j)
                }
            }
        })
    }
    /// Where a path leads, if every step is allowed.
    pub fn walk(&self, o: usize, path: &[Dir]) -> Result<usize, String> {
        let mut i = o;
        for (k, d) in path.iter().enumerate() {
            if !dirs(self.diag).contains(d) {
                return Err(format!("step {k} of {} is diagonal", show(path)));
            }
            i = self.succ(i, *d).ok_or_else(|| format!("step {k} of {} is not allowed", show(path)))?;
        }
        Ok(i)
    }
    /// The movement function given to the real searches.
    pub fn go<'a, P: Sp>(&'a self, q: &'a Sq<P>) -> impl Fn(P, Dir) -> Option<P> + 'a {
        move |p, d| {
            let t = q.find(&p).map_or(NO, |i| self.to[i][di(d)]);
            if t == NO {
                None
            } else {
                Some(q.p[t as usize])
            }
        }
    }
}

pub fn show(path: &[Dir]) -> String {
    if path.len() > 60 {
        format!("path of {} steps", path.len())
    } else {
        path.iter().map(|d| format!("{d:?}")).collect::<Vec<_>>().join(" ")
    }
}

/// The squares of a position type, numbered in reading order.
pub struct Sq<P> {
    pub p: Vec<P>,
    pub w: usize,
    pub h: usize,
    x0: i128,
    y0: i128,
}

impl<P: Sp> Sq<P> {
    pub fn new() -> Sq<P> {
        let (x0, x1, y0, y1) = bounds::<P>();
        let p = (y0..=y1).flat_map(|y| (x0..=x1).map(move |x| mk::<P>(x, y))).collect();
        Sq { p, w: (x1 - x0) as usize + 1, h: (y1 - y0) as usize + 1, x0, y0 }
    }
    /// Only the given part of a type.
    pub fn part(x0: i128, y0: i128, w: usize, h: usize) -> Sq<P> {
        let p = (0..h as i128).flat_map(|y| (0..w as i128).map(move |x| mk::<P>(x0 + x, y0 + y))).collect();
        Sq { p, w, h, x0, y0 }
    }
    pub fn ix(&self, p: &P) -> usize {
        let t = p.tuple();
        let (x, y) = (num(t.0) - self.x0, num(t.1) - self.y0);
        y as usize * self.w + x as usize
    }
    /// The number of a square, if it is in the part that is looked at.
    pub fn find(&self, p: &P) -> Option<usize> {
        let t = p.tuple();
        let rel = |v: i128, z: i128, n: usize| v.checked_sub(z).and_then(|v| usize::try_from(v).ok()).filter(|v| *v < n);
        Some(rel(num(t.1), self.y0, self.h)? * self.w + rel(num(t.0), self.x0, self.w)?)
    }
    pub fn n(&self) -> usize {
        self.p.len()
    }
}

/// All layouts of a kind.
#[derive(Clone)]
pub enum Kind {
    /// Every set of blocked squares
    Walls,
    /// Every set of allowed directed steps
    Edges,
    /// Every set of at most this many blocked squares
    FewWalls(usize),
    /// Every set of at most this many forbidden directed steps
    FewMissing(usize),
    /// Hand-picked shapes for any size
    Mazes,
    /// Two long lanes from one end to the other, each with up to this many
    /// obstacles at its start, middle or end, in every combination
    Lanes(usize),
    /// Steps that lead far away, so that very many squares are equally far
    Broad,
}

fn choose(n: u64, k: u64) -> u64 {
    let mut r = 1;
    for i in 0..k {
        r = r * (n - i) / (i + 1);
    }
    r
}

/// The `i`-th subset of `0..n` with at most `k` members.
fn few(n: usize, k: usize, mut i: u64) -> Vec<usize> {
    for m in 0..=k {
        let c = choose(n as u64, m as u64);
        if i < c {
            // combinatorial number system
            let mut out = vec![];
            let mut start = 0;
            let mut left = m;
            while left > 0 {
                let c = choose((n - start - 1) as u64, left as u64 - 1);
                if i < c {
                    out.push(start);
                    left -= 1;
                } else {
                    i -= c;
                }
                start += 1;
            }
            return out;
        }
        i -= c;
    }
    unreachable!()
}

/// The directed steps that exist in an open grid.
pub fn steps(w: usize, h: usize, diag: bool) -> Vec<(usize, Dir)> {
    (0..w * h).flat_map(|i| dirs(diag).iter().filter(move |d| neigh(w, h, i, **d).is_some()).map(move |d| (i, *d))).collect()
}

fn h_tree(free: &mut [bool], w: usize, x: usize, y: usize, rx: usize, ry: usize) {
    if rx == 0 || ry == 0 {
        free[y * w + x] = true;
        return;
    }
    (x - rx..=x + rx).for_each(|x| free[y * w + x] = true);
    for x in [x - rx, x + rx] {
        for y in y - ry..=y + ry {
            free[y * w + x] = true;
        }
        h_tree(free, w, x, y - ry, rx / 2, ry / 2);
        h_tree(free, w, x, y + ry, rx / 2, ry / 2);
    }
}

pub fn mazes(w: usize, h: usize, diag: bool) -> Vec<Lay> {
    let mut v = vec![];
    let mut walls = |name: &str, b: &dyn Fn(usize, usize) -> bool| {
        let mut l = Lay::walls(w, h, diag, |i| b(i % w, i / w));
        l.desc = name.to_string();
        v.push(l);
    };
    walls("open", &|_, _| false);
    walls("serpentine of rows", &|x, y| y % 2 == 1 && x != if y % 4 == 1 { w - 1 } else { 0 });
    walls("serpentine of columns", &|x, y| x % 2 == 1 && y != if x % 4 == 1 { h - 1 } else { 0 });
    if w > 2 && h > 2 && w * h < 100_000 {
        walls("checkerboard", &|x, y| (x + y) % 2 == 1);
        walls("wall across", &|x, y| x == w / 2 && y != h - 1);
        walls("wall down", &|x, y| y == h / 2 && x != 0);
        walls("pocket", &|x, y| (x == w - 2 && y > 0 && y < h - 1) || (y == 1 || y == h - 2) && x > 0 && x < w - 1);
        walls("cut in two", &|x, _| x == w / 2);
        walls("every third", &|x, y| (x * 7 + y * 13) % 3 == 0);
        walls("pillars", &|x, y| x % 2 == 1 && y % 2 == 1);
        walls("frame", &|x, y| x > 0 && y > 0 && x < w - 1 && y < h - 1);
        // spiral: rings with a gap each, opening alternately
        walls("rings", &|x, y| {
            let r = x.min(y).min(w - 1 - x).min(h - 1 - y);
            r % 2 == 1 && !(r % 4 == 1 && (x, y) == (r, h / 2)) && !(r % 4 == 3 && (x, y) == (w - 1 - r, h / 2))
        });
    }
    if w > 6 && h > 6 {
        // all of its tips are equally far from the middle
        let mut free = vec![false; w * h];
        h_tree(&mut free, w, (w - 1) / 2, (h - 1) / 2, (w + 1) / 4, (h + 1) / 4);
        walls("H-tree", &|x, y| !free[y * w + x]);
    }
    let mut oneway = |name: &str, a: &dyn Fn(usize, Dir, usize) -> bool| v.push(Lay::new(w, h, diag, name.to_string(), a));
    oneway("one way, east and south", &|_, d, _| off(d).0 >= 0 && off(d).1 >= 0);
    oneway("one way, west and north", &|_, d, _| off(d).0 <= 0 && off(d).1 <= 0);
    oneway("boustrophedon one way", &|i, d, _| {
        let (x, y) = (i % w, i / w);
        let e = y % 2 == 0;
        match d {
            Dir::E => e,
            Dir::W => !e,
            Dir::S => x == if e { w - 1 } else { 0 },
            _ => false,
        }
    });
    oneway("backward boustrophedon one way", &|i, d, _| {
        let (x, y) = (i % w, i / w);
        let e = y % 2 == 1;
        match d {
            Dir::E => e,
            Dir::W => !e,
            Dir::N => x == if e { w - 1 } else { 0 },
            _ => false,
        }
    });
    oneway("one-way streets", &|i, d, _| {
        let (x, y) = (i % w, i / w);
        match d {
            Dir::E => y % 2 == 0,
            Dir::W => y % 2 == 1,
            Dir::S => x % 2 == 0,
            Dir::N => x % 2 == 1,
            Dir::NE | Dir::SW => (x + y) % 3 == 0,
            Dir::SE | Dir::NW => (x + y) % 3 == 1,
        }
    });
    oneway("nothing", &|_, _, _| false);
    v
}

/// Five rows (or columns): a lane of two, a closed one open at its ends only,
/// a lane of two. No diagonal shortcuts.
pub fn lanes(w: usize, h: usize, diag: bool, most: usize, i: u64) -> Lay {
    let (len, wide) = (w.max(h), w.min(h));
    assert!(wide == 5 && len >= 16 * most.max(1));
    let way = |v: usize| if v == 0 { (0, 0) } else { ((v - 1) / most, (v - 1) % most + 1) };
    let each = (3 * most + 1) as u64;
    let ways = [way((i % each) as usize), way((i / each) as usize)];
    let mut shut = vec![];
    for (n, (place, count)) in ways.iter().enumerate() {
        let first = match place {
            0 => 3,
            1 => len / 2,
            _ => len - 4 * count - 1,
        };
        // the lane away from the middle is entered and left again
        for b in 0..*count {
            shut.push((first + 4 * b, [[1, 0], [3, 4]][n][b % 2]));
        }
    }
    let at = |i: usize| if w >= h { (i % w, i / w) } else { (i / w, i % w) };
    let name = |n: usize| format!("{} obstacles at the {}", ways[n].1, ["start", "middle", "end"][ways[n].0]);
    Lay::new(w, h, diag, format!("lanes with {} and {}", name(0), name(1)), |_, d, j| {
        let (x, y) = at(j);
        di(d) % 2 == 0 && !(y == 2 && x > 0 && x < len - 1) && !shut.contains(&(x, y))
    })
}

/// The two ends of the lanes.
pub fn ends(w: usize, h: usize) -> Vec<usize> {
    if w >= h {
        vec![2 * w, 2 * w + w - 1]
    } else {
        vec![2, (h - 1) * w + 2]
    }
}

const BROAD: [&str; 5] = ["tree", "tree from the last square", "tree with ways back", "every square from several, forward", "every square from several, backward"];

pub fn broad(w: usize, h: usize, diag: bool, i: u64) -> Lay {
    let n = w * h;
    let ways = dirs(diag).len();
    let mut to = vec![[NO; 8]; n];
    for s in 0..n {
        for (k, d) in dirs(diag).iter().enumerate() {
            let child = ways * s + k + 1;
            let t = match i {
                0 if child < n => child,
                1 if ways * (n - 1 - s) + k + 1 < n => n - 1 - (ways * (n - 1 - s) + k + 1),
                2 if k == 0 => s.saturating_sub(1) / ways,
                2 if child < n => child,
                3 => (ways * s + k + 1) % n,
                4 => n - 1 - (ways * s + k + 1) % n,
                _ => continue,
            };
            to[s][di(*d)] = t as u32;
        }
    }
    Lay { w, h, diag, to, desc: format!("broad: {}", BROAD[i as usize]) }
}

impl Kind {
    pub fn name(&self) -> String {
        match self {
            Kind::Walls => "walls".to_string(),
            Kind::Edges => "steps".to_string(),
            Kind::FewWalls(n) => format!("{n} walls"),
            Kind::FewMissing(n) => format!("{n} missing"),
            Kind::Mazes => "shapes".to_string(),
            Kind::Lanes(n) => format!("lanes with {n} obstacles"),
            Kind::Broad => "broad".to_string(),
        }
    }
    pub fn bounds(&self) -> String {
        match self {
            Kind::Walls => "every set of blocked squares".into(),
            Kind::Edges => "every set of allowed directed steps".into(),
            Kind::FewWalls(k) => format!("every set of at most {k} blocked squares"),
            Kind::FewMissing(k) => format!("every set of at most {k} forbidden directed steps"),
            Kind::Mazes => "the hand-picked shapes of search.rs (open, serpentines, pockets, rings, one-way streets, H-tree, ...)".into(),
            Kind::Lanes(k) => format!("two lanes, each with 0 to {k} obstacles at its start, middle or end"),
            Kind::Broad => format!("steps that lead far away: {}", BROAD.join(", ")),
        }
    }
    pub fn count(&self, w: usize, h: usize, diag: bool) -> u64 {
        match self {
            Kind::Walls => 1 << (w * h),
            Kind::Edges => 1 << steps(w, h, diag).len(),
            Kind::FewWalls(k) => (0..=*k).map(|m| choose((w * h) as u64, m as u64)).sum(),
            Kind::FewMissing(k) => (0..=*k).map(|m| choose(steps(w, h, diag).len() as u64, m as u64)).sum(),
            Kind::Mazes => mazes(w, h, diag).len() as u64,
            Kind::Lanes(k) => (3 * *k as u64 + 1).pow(2),
            Kind::Broad => BROAD.len() as u64,
        }
    }
}

/// A family: `f` on every layout of the kind.
pub fn layouts(k: &mut Check, name: &str, kind: Kind, w: usize, h: usize, diag: bool, what: &str, f: impl Fn(&Lay, &mut Ctx) -> Res + Send + Sync + 'static) {
    let st = steps(w, h, diag);
    let mz = Arc::new(if matches!(kind, Kind::Mazes) { mazes(w, h, diag) } else { vec![] });
    let n = kind.count(w, h, diag);
    let bounds = format!("{w}x{h}, {} directions, {}; {what}", if diag { 8 } else { 4 }, kind.bounds());
    let num: std::collections::HashMap<(usize, usize), u32> = st.iter().enumerate().map(|(b, (i, d))| ((*i, di(*d)), b as u32)).collect();
    k.fam(name.to_string(), bounds, n, move |i, c| {
        let lay = match &kind {
            Kind::Walls => Lay::walls(w, h, diag, |j| i >> j & 1 == 1),
            Kind::Edges => Lay::new(w, h, diag, format!("steps {:?}", st.iter().enumerate().filter(|(b, _)| i >> b & 1 == 1).map(|(_, s)| s).collect::<Vec<_>>()), |j, d, _| match num.get(&(j, di(d))) {
                Some(b) => i >> b & 1 == 1,
                None => true,
            }),
            Kind::FewWalls(k) => {
                let s = few(w * h, *k, i);
                Lay::walls(w, h, diag, |j| s.contains(&j))
            }
            Kind::FewMissing(k) => {
                let s: Vec<(usize, Dir)> = few(st.len(), *k, i).into_iter().map(|b| st[b]).collect();
                Lay::new(w, h, diag, format!("open without steps {s:?}"), |j, d, _| !s.contains(&(j, d)))
            }
            Kind::Mazes => mz[i as usize].clone(),
            Kind::Lanes(k) => lanes(w, h, diag, *k, i),
            Kind::Broad => broad(w, h, diag, i),
        };
        c.note(|| lay.desc.clone());
        f(&lay, c).map_err(|e| Viol::from(format!("{w}x{h}, {} directions, {}: {}", if diag { 8 } else { 4 }, lay.desc, e.detail)))
    });
}

/// Squares to start from / go to in a big grid: corners, middle, borders.
pub fn spots(w: usize, h: usize, most: usize) -> Vec<usize> {
    let n = w * h;
    if n <= most {
        return (0..n).collect();
    }
    let (e, f) = (w - 1, h - 1);
    let (a, b) = (1.min(e), f.saturating_sub(1));
    let all = [(0, 0), (e, f), (w / 2, h / 2), (e, 0), (0, f), (e, h / 2), (w / 2, b), (a, f), (a, 0), (w / 2, 0), (0, h / 2), (0, b), (e, b), (w / 2, f), (a, h / 2), (a, b)];
    let mut v: Vec<usize> = vec![];
    for i in all.map(|(x, y)| y * w + x) {
        if !v.contains(&i) && v.len() < most {
            v.push(i);
        }
    }
    v.sort();
    v
}

/// `f::<X, Y, D, WORDS, SIZE>(args)` for both settings of the diagonals, with
/// the parameters sqrid_create! computes.
#[macro_export]
macro_rules! both_diags {
    ($f:ident $args:tt ; $( ($x:literal, $y:literal) )*) => { $(
        $f::<$x, $y, false, { (($x as usize + 1) * ($y as usize + 1)) / 32 + 1 }, { ($x as usize + 1) * ($y as usize + 1) }> $args;
        $f::<$x, $y, true, { (($x as usize + 1) * ($y as usize + 1)) / 32 + 1 }, { ($x as usize + 1) * ($y as usize + 1) }> $args;
    )* };
}

/* ------------------------------------------------------------------ costs */

/// Allowed steps with costs.
pub struct Priced {
    pub lay: Lay,
    pub cost: Vec<[usize; 8]>,
}

impl Priced {
    /// `price` gives the cost of a step from a square in a direction to a
    /// square; None: not allowed. Diagonal steps that are not to be used are
    /// free of charge.
    pub fn new(w: usize, h: usize, diag: bool, desc: String, price: impl Fn(usize, Dir, usize) -> Option<usize>) -> Priced {
        let mut cost = vec![[0; 8]; w * h];
        for i in 0..w * h {
            for d in dirs(diag) {
                if let Some(j) = neigh(w, h, i, *d) {
                    cost[i][di(*d)] = price(i, *d, j).unwrap_or(0);
                }
            }
        }
        let lay = Lay::new(w, h, diag, desc, |i, d, j| (!diag && di(d) % 2 == 1) || price(i, d, j).is_some());
        Priced { lay, cost }
    }
    pub fn go<'a, P: Sp>(&'a self, q: &'a Sq<P>) -> impl Fn(P, Dir) -> Option<(P, usize)> + 'a {
        move |p, d| {
            let i = q.find(&p)?;
            let t = self.lay.to[i][di(d)];
            if t == NO {
                None
            } else {
                Some((q.p[t as usize], self.cost[i][di(d)]))
            }
        }
    }
    fn each(&self, i: usize, f: &mut dyn FnMut(usize, u128)) {
        for d in dirs(self.lay.diag) {
            if let Some(j) = self.lay.succ(i, *d) {
                f(j, self.cost[i][di(*d)] as u128)
            }
        }
    }
    /// Lowest cost of every square (Bellman-Ford for small layouts, otherwise
    /// repeated relaxation with a work list).
    pub fn lowest(&self, o: usize) -> Vec<Option<u128>> {
        self.lowest_without(o, usize::MAX)
    }
    /// The same, never passing through a square.
    pub fn lowest_without(&self, o: usize, without: usize) -> Vec<Option<u128>> {
        let n = self.lay.n();
        if n <= 100 {
            return costs(n, o, |i, f| {
                if i != without {
                    self.each(i, f)
                }
            });
        }
        // Large: work list ordered by cost, squares relaxed again whenever
        // they improve (correct whatever the order)
        let mut d: Vec<Option<u128>> = vec![None; n];
        d[o] = Some(0);
        let mut work = std::collections::BTreeSet::from([(0u128, o)]);
        while let Some((c, i)) = work.pop_first() {
            if d[i] != Some(c) || i == without {
                continue;
            }
            self.each(i, &mut |j, k| {
                let nc = c + k;
                if d[j].map_or(true, |x| nc < x) {
                    d[j] = Some(nc);
                    work.insert((nc, j));
                }
            });
        }
        d
    }
    /// Cost of a path all of whose steps are allowed.
    pub fn walk(&self, o: usize, path: &[Dir]) -> Result<(usize, u128), String> {
        let end = self.lay.walk(o, path)?;
        let mut i = o;
        let mut total = 0u128;
        for d in path {
            total += self.cost[i][di(*d)] as u128;
            i = self.lay.succ(i, *d).unwrap();
        }
        Ok((end, total))
    }
}

pub fn costly(v: Option<usize>) -> String {
    match v {
        None => "-".into(),
        Some(v) if v > usize::MAX / 8 => {
            for k in [2, 3, 4] {
                for e in 0..3 {
                    if v == usize::MAX / k + e {
                        return format!("MAX/{k}+{e}");
                    }
                    if v == usize::MAX / k - e {
                        return format!("MAX/{k}-{e}");
                    }
                }
            }
            format!("MAX-{}", usize::MAX - v)
        }
        Some(v) => v.to_string(),
    }
}

/// Every assignment of prices from a list to every step / to entering every square.
#[derive(Clone)]
pub enum Prices {
    Steps(Vec<Option<usize>>),
    Entering(Vec<Option<usize>>),
    /// Patterns for any size
    Patterns,
}

type Pattern = (&'static str, fn(usize, usize, Dir) -> Option<usize>);
const PATTERNS: [Pattern; 14] = [
    ("all 1", |_, _, _| Some(1)),
    ("all 0", |_, _, _| Some(0)),
    ("all 1000000007", |_, _, _| Some(1_000_000_007)),
    ("by column and row", |x, y, _| Some((x * 7 + y * 13) % 5)),
    ("squared noise", |x, y, _| Some(((x * 2654435761 + y * 40503) >> 3) % 17 * ((x + y) % 3))),
    ("by direction", |_, _, d| Some([1, 3, 2, 9, 5, 4, 3, 8][di(d)])),
    ("cardinal dear, diagonal cheap", |_, _, d| Some(if di(d) % 2 == 0 { 10 } else { 1 })),
    ("cardinal cheap, diagonal dear", |_, _, d| Some(if di(d) % 2 == 0 { 1 } else { 10 })),
    ("serpentine", |x, y, d| if matches!(d, Dir::N | Dir::S) && (y + x) % 4 != 0 { None } else { Some(1 + x % 2) }),
    ("free middle row", |_, y, _| Some(if y % 4 == 2 { 0 } else { 6 })),
    ("dear diagonal band", |x, y, _| Some(if x.abs_diff(y) <= 1 { 1 } else { 50 })),
    ("growing", |x, y, _| Some(1 << ((x + y) % 30))),
    ("walls and tolls", |x, y, _| if (x * 5 + y * 3) % 7 == 0 { None } else { Some((x + 2 * y) % 4) }),
    ("one way east, dear back", |_, _, d| Some(if off(d).0 >= 0 { 2 } else { 1_000_000 })),
];

impl Prices {
    pub fn count(&self, w: usize, h: usize, diag: bool) -> u64 {
        match self {
            Prices::Steps(v) => (v.len() as u64).pow(steps(w, h, diag).len() as u32),
            Prices::Entering(v) => (v.len() as u64).pow((w * h) as u32),
            Prices::Patterns => PATTERNS.len() as u64,
        }
    }
    pub fn name(&self) -> String {
        let l = |v: &Vec<Option<usize>>| v.iter().map(|p| costly(*p)).collect::<Vec<_>>().join(",");
        match self {
            Prices::Steps(v) => format!("steps[{}]", l(v)),
            Prices::Entering(v) => format!("entering[{}]", l(v)),
            Prices::Patterns => "patterns".into(),
        }
    }
    pub fn bounds(&self) -> String {
        match self {
            Prices::Steps(_) => "every assignment of these costs to the directed steps (-: not allowed)".into(),
            Prices::Entering(_) => "every assignment of these costs to the entering of each square (-: blocked)".into(),
            Prices::Patterns => format!("{} patterns of costs: {}", PATTERNS.len(), PATTERNS.iter().map(|p| p.0).collect::<Vec<_>>().join(", ")),
        }
    }
}

/// A family: `f` on every assignment of prices.
pub fn priced(k: &mut Check, name: &str, prices: Prices, w: usize, h: usize, diag: bool, what: &str, f: impl Fn(&Priced, &mut Ctx) -> Res + Send + Sync + 'static) {
    let st = steps(w, h, diag);
    let n = prices.count(w, h, diag);
    let nd = if diag { 8 } else { 4 };
    let num: Vec<[u32; 8]> = {
        let mut v = vec![[NO; 8]; w * h];
        if w * h < 1000 {
            st.iter().enumerate().for_each(|(b, (i, d))| v[*i][di(*d)] = b as u32);
        }
        v
    };
    k.fam(format!("{} {name} {w}x{h} {nd}", prices.name()), format!("{w}x{h}, {nd} directions, {}; {what}", prices.bounds()), n, move |i, c| {
        let p = match &prices {
            Prices::Steps(v) => {
                let a = digs(i, v.len() as u64, st.len());
                Priced::new(w, h, diag, String::new(), |s, d, _| v[a[num[s][di(d)] as usize] as usize])
            }
            Prices::Entering(v) => {
                let a = digs(i, v.len() as u64, w * h);
                Priced::new(w, h, diag, String::new(), |_, _, j| v[a[j] as usize])
            }
            Prices::Patterns => Priced::new(w, h, diag, PATTERNS[i as usize].0.into(), |s, d, _| PATTERNS[i as usize].1(s % w, s / w, d)),
        };
        let desc = || match &prices {
            Prices::Patterns => PATTERNS[i as usize].0.to_string(),
            _ => st
                .iter()
                .filter(|(s, d)| p.lay.succ(*s, *d).is_some())
                .map(|(s, d)| format!("{s}{d:?}:{}", costly(Some(p.cost[*s][di(*d)]))))
                .collect::<Vec<_>>()
                .join(" "),
        };
        c.note(desc);
        f(&p, c).map_err(|e| Viol::from(format!("{w}x{h}, {nd} directions, step costs {}: {}", desc(), e.detail)))
    });
}
