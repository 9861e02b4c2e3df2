//! C26: searches ask only about squares they reached, and no further than needed.
use mc::model::*;
use mc::search::*;
use mc::*;
use sqrid::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

type HMap<K, V> = (HashMap<K, V>, V);
type BMap<K, V> = (BTreeMap<K, V>, V);
type Dirs = Option<Dir>;

/// What a search asked its functions.
struct Log<P> {
    steps: RefCell<Vec<(P, Dir)>>,
    goals: RefCell<Vec<P>>,
}

impl<P: Sp> Log<P> {
    fn new() -> Log<P> {
        Log { steps: RefCell::new(vec![]), goals: RefCell::new(vec![]) }
    }
    fn clear(&self) {
        self.steps.borrow_mut().clear();
        self.goals.borrow_mut().clear();
    }
}

/// How far (in whatever the search counts) a search may look.
struct Far<'a> {
    /// None: can not be reached
    level: &'a [Option<u128>],
    most: u128,
}

struct Judge<'a, P> {
    q: &'a Sq<P>,
    diag: bool,
    /// Steps asked about, bit per direction
    seen: Vec<u8>,
    goal: Vec<bool>,
    used: Vec<usize>,
    /// Questions judged so far
    at: usize,
    at_goal: usize,
}

impl<'a, P: Sp> Judge<'a, P> {
    fn new(q: &'a Sq<P>, diag: bool) -> Judge<'a, P> {
        Judge { q, diag, seen: vec![0; q.n()], goal: vec![false; q.n()], used: vec![], at: 0, at_goal: 0 }
    }
    fn start(&mut self, log: &Log<P>) {
        log.clear();
        for i in self.used.drain(..) {
            self.seen[i] = 0;
            self.goal[i] = false;
        }
        self.at = 0;
        self.at_goal = 0;
    }
    /// Look at the new questions.
    fn look(&mut self, name: &str, o: usize, to: &dyn Fn() -> String, log: &Log<P>, far: &Far, c: &mut Ctx) -> Res {
        let say = || format!("{name} from {:?}{}", self.q.p[o], to());
        let level = |p: &P, what: &str| -> Result<usize, Viol> {
            let Some(i) = self.q.find(p) else {
                bad!("{}: {what} {p:?}, where no step leads", say());
            };
            match far.level[i] {
                None => bad!("{}: {what} {p:?}, which can not be reached", say()),
                Some(l) if l > far.most => bad!("{}: {what} {p:?}, which is at {l}, while looking at {} at most was enough", say(), far.most),
                Some(_) => Ok(i),
            }
        };
        let steps = log.steps.borrow();
        for (p, d) in &steps[self.at..] {
            c.step();
            let i = level(p, "asks for the steps from")?;
            if !dirs(self.diag).contains(d) {
                bad!("{}: asks for the diagonal step {d:?} from {p:?}", say());
            }
            if self.seen[i] >> di(*d) & 1 == 1 {
                bad!("{}: asks again for the step {d:?} from {p:?}", say());
            }
            self.seen[i] |= 1 << di(*d);
            self.used.push(i);
        }
        let goals = log.goals.borrow();
        for p in &goals[self.at_goal..] {
            c.step();
            let i = level(p, "asks whether the goal is")?;
            if self.goal[i] {
                bad!("{}: asks again whether the goal is {p:?}", say());
            }
            self.goal[i] = true;
            self.used.push(i);
        }
        self.at = steps.len();
        self.at_goal = goals.len();
        Ok(())
    }
}

fn wide(v: &[Option<usize>]) -> Vec<Option<u128>> {
    v.iter().map(|d| d.map(|d| d as u128)).collect()
}

/// Lower bound of the number of steps between two squares.
fn bound(w: usize, diag: bool, a: usize, b: usize) -> u128 {
    let dx = (a % w).abs_diff(b % w) as u128;
    let dy = (a / w).abs_diff(b / w) as u128;
    if diag {
        dx.max(dy)
    } else {
        dx + dy
    }
}

macro_rules! variants {
    ($j:ident, $log:ident, $o:expr, $to:expr, $far:expr, $c:ident; $( $name:expr => $run:expr ),+ $(,)?) => { $(
        $j.start(&$log);
        let _ = $run;
        $j.look($name, $o, $to, &$log, $far, $c)?;
    )+ };
}

/// Run an iteration, looking after every item; `most` is given the item.
macro_rules! stepwise {
    ($j:ident, $log:ident, $o:expr, $levels:expr, $first:expr, $c:ident; $( $name:literal => $it:expr, $most:expr );+ $(;)?) => { $({
        $j.start(&$log);
        let mut it = $it;
        let mut most: u128 = $first;
        $j.look($name, $o, &|| " before its first item".into(), &$log, &Far { level: $levels, most }, $c)?;
        let mut k = 0;
        while let Some(item) = it.next() {
            k += 1;
            most = most.max($most(&item));
            $j.look($name, $o, &|| format!(" after {k} items"), &$log, &Far { level: $levels, most }, $c)?;
        }
        let _ = it.next();
        $j.look($name, $o, &|| " after its end".into(), &$log, &Far { level: $levels, most: u128::MAX }, $c)?;
    })+ };
}

type Go<'a, P> = &'a dyn Fn(P, Dir) -> Option<P>;
type Found<'a, P> = &'a dyn Fn(P) -> bool;
type Pay<'a, P> = &'a dyn Fn(P, Dir) -> Option<(P, usize)>;
type Groups<'a, P> = Box<dyn Iterator<Item = Vec<(P, Dir)>> + 'a>;
type Squares<'a, P> = Box<dyn Iterator<Item = (P, Dir)> + 'a>;

/// The variants that keep their data in grids; the first ones are the defaults.
struct OnGrid<P> {
    bf_iter: for<'a> fn(Go<'a, P>, &P) -> Groups<'a, P>,
    bfs: [(&'static str, fn(Go<P>, &P, Found<P>)); 3],
    astar: [(&'static str, fn(Go<P>, &P, &P)); 3],
    ucs_iter: for<'a> fn(Pay<'a, P>, &P) -> Squares<'a, P>,
    ucs: [(&'static str, fn(Pay<P>, &P, &P)); 3],
}

fn bf_on_grid<'a, P: Sp, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(go: Go<'a, P>, p: &P) -> Groups<'a, P> {
    Box::new(Sqrid::<X, Y, D, W, S>::bf_iter(go, p))
}

fn ucs_on_grid<'a, P: Sp, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(go: Pay<'a, P>, p: &P) -> Squares<'a, P> {
    Box::new(ucs::UcsIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(go, p))
}

fn on_grid<P: Sp, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>() -> OnGrid<P> {
    OnGrid {
        bf_iter: bf_on_grid::<P, X, Y, D, W, S>,
        bfs: [
            ("bfs_path", |go, p, f| drop(Sqrid::<X, Y, D, W, S>::bfs_path(go, p, f))),
            ("bfs_path_grid", |go, p, f| drop(Sqrid::<X, Y, D, W, S>::bfs_path_grid(go, p, f))),
            ("bf::search_mapmov", |go, p, f| drop(bf::search_mapmov::<_, _, Grid<Dirs, P, S>, Gridbool<P, W>, P, D, W, S>(go, p, f))),
        ],
        astar: [
            ("astar_path", |go, p, d| drop(Sqrid::<X, Y, D, W, S>::astar_path(go, p, d))),
            ("astar_path_grid", |go, p, d| drop(Sqrid::<X, Y, D, W, S>::astar_path_grid(go, p, d))),
            ("astar::search_mapmov", |go, p, d| drop(astar::search_mapmov::<_, Grid<Dirs, P, S>, Grid<usize, P, S>, P, D, W, S>(go, p, d))),
        ],
        ucs_iter: ucs_on_grid::<P, X, Y, D, W, S>,
        ucs: [
            ("ucs_path", |go, p, d| drop(Sqrid::<X, Y, D, W, S>::ucs_path(go, p, d))),
            ("ucs_path_grid", |go, p, d| drop(Sqrid::<X, Y, D, W, S>::ucs_path_grid(go, p, d))),
            ("ucs::search_mapmov", |go, p, d| drop(ucs::search_mapmov::<_, Grid<Dirs, P, S>, Grid<usize, P, S>, P, D, W, S>(go, p, d))),
        ],
    }
}

/// Breadth-first and A*.
fn plain<P: Sp, const D: bool>(lay: &Lay, q: &Sq<P>, origins: &[usize], dests: &[usize], grid: Option<&OnGrid<P>>, every: bool, c: &mut Ctx) -> Res {
    let log = Log::new();
    let inner = lay.go(q);
    let go = |p: P, d: Dir| {
        log.steps.borrow_mut().push((p, d));
        inner(p, d)
    };
    let go: &dyn Fn(P, Dir) -> Option<P> = &go;
    let mut j = Judge::new(q, D);
    for &o in origins {
        let dist = wide(&lay.dist(o));
        c.outcome(&dist);
        let p = &q.p[o];
        let mut k = 0u128;
        let mut count = || {
            k += 1;
            k
        };
        if let Some(g) = grid {
            stepwise! { j, log, o, &dist, 0, c;
                "bf_iter" => (g.bf_iter)(go, p), |_: &Vec<(P, Dir)>| count();
            }
        }
        if every || grid.is_none() {
            let mut k = 0u128;
            let mut count = || {
                k += 1;
                k
            };
            stepwise! { j, log, o, &dist, 0, c;
                "bf_iter_hash" => Sqrid::<0, 0, D, 0, 0>::bf_iter_hash(go, p), |_: &Vec<(P, Dir)>| count();
            }
            let mut k = 0u128;
            let mut count = || {
                k += 1;
                k
            };
            stepwise! { j, log, o, &dist, 0, c;
                "bf_iter_btree" => Sqrid::<0, 0, D, 0, 0>::bf_iter_btree(go, p), |_: &Vec<(P, Dir)>| count();
            }
        }
        for n in 0..=dests.len() {
            // every destination, then none at all, then all of them
            c.state();
            let t: &[usize] = if n < dests.len() { &dests[n..=n] } else { &[] };
            search_to::<P, D>(&log, go, lay, q, o, t, &dist, &mut j, grid, every, c)?;
        }
        search_to::<P, D>(&log, go, lay, q, o, dests, &dist, &mut j, grid, every, c)?;
        if dests.len() > 3 {
            search_to::<P, D>(&log, go, lay, q, o, &dests[dests.len() - 2..], &dist, &mut j, grid, every, c)?;
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn search_to<P: Sp, const D: bool>(log: &Log<P>, go: &dyn Fn(P, Dir) -> Option<P>, lay: &Lay, q: &Sq<P>, o: usize, t: &[usize], dist: &[Option<u128>], j: &mut Judge<P>, grid: Option<&OnGrid<P>>, every: bool, c: &mut Ctx) -> Res {
    let p = &q.p[o];
    let to = || format!(" to {:?}", t.iter().take(8).map(|t| q.p[*t]).collect::<Vec<P>>());
    let found = |p: P| {
        log.goals.borrow_mut().push(p);
        q.find(&p).is_some_and(|i| t.contains(&i))
    };
    let found: &dyn Fn(P) -> bool = &found;
    let most = t.iter().filter_map(|t| dist[*t]).min().unwrap_or(u128::MAX);
    let far = Far { level: dist, most };
    if let Some(g) = grid {
        for (name, run) in &g.bfs[..if every { 3 } else { 1 }] {
            variants! { j, log, o, &to, &far, c; name => run(go, p, found) }
        }
    }
    if every || grid.is_none() {
        variants! { j, log, o, &to, &far, c;
            "bfs_path_hash" => Sqrid::<0, 0, D, 0, 0>::bfs_path_hash(go, p, found),
            "bfs_path_btree" => Sqrid::<0, 0, D, 0, 0>::bfs_path_btree(go, p, found),
        }
    }
    let [t] = t else { return Ok(()) };
    let t = *t;
    // A*: squares on no shortest path even if nothing was in the way are not looked at
    let est: Vec<Option<u128>> = dist.iter().enumerate().map(|(i, d)| d.map(|d| d + bound(lay.w, D, i, t))).collect();
    let far = Far { level: &est, most: dist[t].unwrap_or(u128::MAX) };
    let d = &q.p[t];
    if let Some(g) = grid {
        for (name, run) in &g.astar[..if every { 3 } else { 1 }] {
            variants! { j, log, o, &to, &far, c; name => run(go, p, d) }
        }
    }
    if every || grid.is_none() {
        variants! { j, log, o, &to, &far, c;
            "astar_path_hash" => Sqrid::<0, 0, D, 0, 0>::astar_path_hash(go, p, d),
            "astar_path_btree" => Sqrid::<0, 0, D, 0, 0>::astar_path_btree(go, p, d),
        }
        let reached = |x: &(P, Dir)| q.find(&x.0).and_then(|i| est[i]).unwrap_or(u128::MAX);
        stepwise! { j, log, o, &est, bound(lay.w, D, o, t), c;
            "AstarIterator" => astar::AstarIterator::<_, HMap<P, usize>, P, D, 0, 0>::new(go, p, d), reached;
        }
    }
    Ok(())
}

/// Uniform cost.
fn paid<P: Sp, const D: bool>(pr: &Priced, q: &Sq<P>, origins: &[usize], dests: &[usize], grid: Option<&OnGrid<P>>, every: bool, c: &mut Ctx) -> Res {
    const TOO_MUCH: u128 = usize::MAX as u128;
    let log = Log::new();
    let inner = pr.go(q);
    let go = |p: P, d: Dir| {
        log.steps.borrow_mut().push((p, d));
        inner(p, d)
    };
    let go: &dyn Fn(P, Dir) -> Option<(P, usize)> = &go;
    let mut j = Judge::new(q, D);
    for &o in origins {
        let low = pr.lowest(o);
        c.outcome(&low);
        let p = &q.p[o];
        let reached = |x: &(P, Dir)| q.find(&x.0).and_then(|i| low[i]).unwrap_or(u128::MAX);
        if let Some(g) = grid {
            stepwise! { j, log, o, &low, 0, c;
                "UcsIterator with a grid" => (g.ucs_iter)(go, p), reached;
            }
        }
        if every || grid.is_none() {
            stepwise! { j, log, o, &low, 0, c;
                "UcsIterator with a hash map" => ucs::UcsIterator::<_, HMap<P, usize>, P, D, 0, 0>::new(go, p), reached;
                "UcsIterator with a tree map" => ucs::UcsIterator::<_, BMap<P, usize>, P, D, 0, 0>::new(go, p), reached;
            }
        }
        for &t in dests {
            c.state();
            let d = &q.p[t];
            let to = || format!(" to {d:?}");
            let far = Far { level: &low, most: low[t].filter(|l| *l < TOO_MUCH).unwrap_or(u128::MAX) };
            if let Some(g) = grid {
                for (name, run) in &g.ucs[..if every { 3 } else { 1 }] {
                    variants! { j, log, o, &to, &far, c; name => run(go, p, d) }
                }
            }
            if every || grid.is_none() {
                variants! { j, log, o, &to, &far, c;
                    "ucs_path_hash" => Sqrid::<0, 0, D, 0, 0>::ucs_path_hash(go, p, d),
                    "ucs_path_btree" => Sqrid::<0, 0, D, 0, 0>::ucs_path_btree(go, p, d),
                }
            }
        }
    }
    Ok(())
}

fn lays<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check, kind: Kind, most: usize, every: bool) {
    let q = Sq::<Pos<X, Y>>::new();
    let some = spots(q.w, q.h, most);
    let name = format!("{} {}x{} {}{}", kind.bounds(), q.w, q.h, if D { 8 } else { 4 }, if every { ", every variant" } else { "" });
    layouts(k, &name, kind, q.w, q.h, D, &format!("breadth-first traversal and search, A*: {} origins x destinations", some.len()), move |lay, c| plain::<Pos<X, Y>, D>(lay, &q, &some, &some, Some(&on_grid::<Pos<X, Y>, X, Y, D, W, S>()), every, c));
}

fn costs<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check, prices: Prices, most: usize, every: bool) {
    let q = Sq::<Pos<X, Y>>::new();
    let some = spots(q.w, q.h, most);
    priced(k, if every { "every variant" } else { "" }, prices, q.w, q.h, D, &format!("uniform-cost exploration and search: {} origins x destinations", some.len()), move |pr, c| paid::<Pos<X, Y>, D>(pr, &q, &some, &some, Some(&on_grid::<Pos<X, Y>, X, Y, D, W, S>()), every, c));
}

fn user<P: Sp, const D: bool>(k: &mut Check, name: &str, kind: Kind, q: Sq<P>, most: usize) {
    let some = spots(q.w, q.h, most);
    let fam = format!("{name} {} {}", kind.bounds(), if D { 8 } else { 4 });
    layouts(k, &fam, kind, q.w, q.h, D, &format!("positions of type {name}, hash and tree variants of all searches, every step costs 3, {} origins x destinations", some.len()), move |lay, c| {
        plain::<P, D>(lay, &q, &some, &some, None, true, c)?;
        let pr = Priced { lay: lay.clone(), cost: vec![[3; 8]; lay.n()] };
        paid::<P, D>(&pr, &q, &some, &some, None, true, c)
    });
}

fn main() {
    let mut k = Check::new("C26", "layouts or cost assignments x origins x destinations", "questions the searches asked their functions, each judged against the distances");
    let deep = k.thorough();
    const ALL: usize = usize::MAX;
    const M: usize = usize::MAX;
    let st = |v: &[i64]| Prices::Steps(v.iter().map(|c| if *c < 0 { None } else { Some(*c as usize) }).collect());
    let en = |v: &[i64]| Prices::Entering(v.iter().map(|c| if *c < 0 { None } else { Some(*c as usize) }).collect());
    both_diags! { lays(&mut k, Kind::Edges, ALL, true); (0, 0) (1, 0) (0, 2) (3, 0) }
    lays::<1, 1, false, 1, 4>(&mut k, Kind::Edges, ALL, true);
    lays::<1, 1, true, 1, 4>(&mut k, Kind::Edges, ALL, true);
    both_diags! { lays(&mut k, Kind::Walls, ALL, true); (2, 1) (1, 2) (2, 2) }
    both_diags! { lays(&mut k, Kind::Walls, ALL, false); (3, 2) (2, 3) }
    both_diags! { lays(&mut k, Kind::FewWalls(2), ALL, false); (3, 3) (4, 2) }
    both_diags! { lays(&mut k, Kind::FewMissing(1), 8, true); (3, 2) (3, 3) }
    both_diags! { lays(&mut k, Kind::Mazes, 8, true); (6, 4) (4, 6) (32, 0) (0, 31) (2, 10) (9, 9) (15, 15) }
    both_diags! { lays(&mut k, Kind::Mazes, 4, false); (30, 31) (99, 2) (63, 63) (255, 3) (99, 99) }
    both_diags! { costs(&mut k, st(&[-1, 0, 1, 3]), ALL, true); (1, 0) (0, 2) }
    costs::<1, 1, false, 1, 4>(&mut k, st(&[0, 1, 4]), ALL, true);
    both_diags! { costs(&mut k, en(&[-1, 1, 3]), ALL, true); (2, 1) }
    costs::<2, 2, true, 1, 9>(&mut k, en(&[1, 3]), ALL, true);
    costs::<2, 2, false, 1, 9>(&mut k, en(&[-1, 0, 2]), ALL, false);
    costs::<2, 0, false, 1, 3>(&mut k, Prices::Steps(vec![None, Some(1), Some(M / 2), Some(M - 1), Some(M)]), ALL, true);
    both_diags! { costs(&mut k, Prices::Patterns, 9, true); (6, 4) (3, 7) (15, 3) (9, 9) }
    both_diags! { costs(&mut k, Prices::Patterns, 4, false); (30, 31) (99, 2) (63, 63) }
    user::<Mix53, true>(&mut k, "Mix53", Kind::Mazes, Sq::new(), ALL);
    user::<Off1, false>(&mut k, "Off1", Kind::Mazes, Sq::new(), ALL);
    user::<Off2, true>(&mut k, "Off2", Kind::Walls, Sq::new(), ALL);
    user::<Off4, false>(&mut k, "Off4", Kind::FewWalls(2), Sq::new(), ALL);
    user::<OneCol, true>(&mut k, "OneCol", Kind::Walls, Sq::new(), ALL);
    user::<(i8, i8), true>(&mut k, "(i8,i8)", Kind::Mazes, Sq::new(), 3);
    macro_rules! part {
        ($($t:ident $n:literal $x:expr, $y:expr;)*) => { $(
            user::<($t, $t), false>(&mut k, concat!("(", stringify!($t), ",", stringify!($t), ") ", $n), Kind::Mazes, Sq::part($x as i128, $y as i128, 6, 7), 9);
            user::<($t, $t), true>(&mut k, concat!("(", stringify!($t), ",", stringify!($t), ") ", $n), Kind::Walls, Sq::part($x as i128, $y as i128, 3, 2), 9);
        )* }
    }
    part! {
        i32 "around zero" -3, -3;
        i32 "at the limits" i32::MIN, i32::MAX - 8;
        i16 "at the limits" i16::MAX - 8, i16::MIN;
        i8 "around zero" -2, -4;
        u16 "at the limits" u16::MAX - 8, 0;
        u32 "in the middle" 1_000_000, 3_000_000_000u32;
        u64 "at the limits" u64::MAX / 2 - 8, u64::MAX / 4;
        u128 "across 64 bits" (u64::MAX as i128 - 2), (u64::MAX as i128 - 3);
    }
    if deep {
        lays::<2, 1, false, 1, 6>(&mut k, Kind::Edges, ALL, true);
        both_diags! { lays(&mut k, Kind::Walls, ALL, false); (3, 3) }
        both_diags! { lays(&mut k, Kind::FewWalls(3), ALL, true); (3, 3) (4, 3) }
        both_diags! { lays(&mut k, Kind::FewMissing(2), ALL, true); (3, 3) }
        both_diags! { lays(&mut k, Kind::Mazes, 9, false); (127, 127) (255, 255) (65535, 0) (0, 65535) }
        both_diags! { costs(&mut k, en(&[-1, 0, 1, 3]), ALL, true); (3, 1) (1, 2) (2, 2) }
        costs::<1, 1, true, 1, 4>(&mut k, st(&[-1, 1, 3]), ALL, true);
        both_diags! { costs(&mut k, Prices::Patterns, 9, true); (127, 127) (255, 0) }
    }
    k.assume("movement functions that answer the same for the same arguments and lead to the adjacent square");
    k.run()
}
