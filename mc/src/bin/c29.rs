//! C29: searches and iterations under way at the same time do not influence
//! one another.
//!
//! What is enumerated is how several of them are interleaved: taking turns,
//! cloned, nested in a movement function, cut off by a panic, on two threads
//! that are switched at every pair of questions.
use mc::search::*;
use mc::*;
use sqrid::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Condvar, Mutex, OnceLock};

type HMap<K, V> = (HashMap<K, V>, V);
type BMap<K, V> = (BTreeMap<K, V>, V);
type Dirs = Option<Dir>;

/// Called with the number of the question (1, 2, ...) that a search asks.
type Hook<'a> = &'a dyn Fn(usize);

/// Something that runs from beginning to end, asking questions meanwhile.
struct Op {
    name: String,
    run: Box<dyn Fn(Hook) -> String + Send + Sync>,
}

/// An iteration that can be paused and cloned.
trait Walk {
    fn step(&mut self) -> Option<String>;
    fn dup(&self) -> Box<dyn Walk>;
}

impl<T: std::fmt::Debug, I: Iterator<Item = T> + Clone + 'static> Walk for I {
    fn step(&mut self) -> Option<String> {
        self.next().map(|x| format!("{x:?}"))
    }
    fn dup(&self) -> Box<dyn Walk> {
        Box::new(self.clone())
    }
}

struct Iter {
    name: String,
    new: Box<dyn Fn() -> Box<dyn Walk> + Send + Sync>,
}

/// A search or iteration with what it gives when nothing else is under way.
struct Alone<T> {
    it: T,
    gives: Vec<String>,
    asks: usize,
}

#[derive(Default)]
struct World {
    ops: Vec<Op>,
    iters: Vec<Iter>,
}

fn whole<T, I: Iterator<Item = T>>(it: I) -> Vec<T> {
    it.collect()
}

/// What a came-from map says of every square.
fn read<M: MapPos<Dirs, P, W, S>, P: PosT, const W: usize, const S: usize>(q: &[P], m: &M) -> Vec<Dirs> {
    q.iter().map(|p| *m.get(p)).collect()
}

fn world<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(all: &mut World, name: &str, o: usize, t: usize, price: impl Fn(usize, Dir, usize) -> Option<usize>) {
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    let q: &'static Sq<P<X, Y>> = Box::leak(Box::new(Sq::new()));
    let pr: &'static Priced = Box::leak(Box::new(Priced::new(q.w, q.h, D, String::new(), price)));
    let (o, t) = (&q.p[o], &q.p[t]);
    let go: &'static (dyn Fn(P<X, Y>, Dir) -> Option<P<X, Y>> + Sync) = Box::leak(Box::new(pr.lay.go(q)));
    let pay: &'static (dyn Fn(P<X, Y>, Dir) -> Option<(P<X, Y>, usize)> + Sync) = Box::leak(Box::new(pr.go(q)));
    macro_rules! op {
        ($($n:literal => |$go:ident, $pay:ident, $found:ident| $run:expr),+ $(,)?) => { $(
            all.ops.push(Op {
                name: format!("{} in {name}", $n),
                run: Box::new(move |hook| {
                    let n = Cell::new(0);
                    let tick = || {
                        n.set(n.get() + 1);
                        hook(n.get());
                    };
                    let $go = |p: P<X, Y>, d: Dir| {
                        tick();
                        go(p, d)
                    };
                    let $pay = |p: P<X, Y>, d: Dir| {
                        tick();
                        pay(p, d)
                    };
                    let $found = |p: P<X, Y>| {
                        tick();
                        p == *t
                    };
                    let _ = (&$go, &$pay, &$found);
                    format!("{:?}", $run)
                }),
            });
        )+ };
    }
    op! {
        "bfs_path" => |go, pay, found| Sqrid::<X, Y, D, W, S>::bfs_path(go, o, found),
        "bfs_path_hash" => |go, pay, found| Sqrid::<X, Y, D, W, S>::bfs_path_hash(go, o, found),
        "bfs_path_btree" => |go, pay, found| Sqrid::<X, Y, D, W, S>::bfs_path_btree(go, o, found),
        "astar_path" => |go, pay, found| Sqrid::<X, Y, D, W, S>::astar_path(go, o, t),
        "astar_path_hash" => |go, pay, found| Sqrid::<X, Y, D, W, S>::astar_path_hash(go, o, t),
        "astar_path_btree" => |go, pay, found| Sqrid::<X, Y, D, W, S>::astar_path_btree(go, o, t),
        "ucs_path" => |go, pay, found| Sqrid::<X, Y, D, W, S>::ucs_path(pay, o, t),
        "ucs_path_hash" => |go, pay, found| Sqrid::<X, Y, D, W, S>::ucs_path_hash(pay, o, t),
        "ucs_path_btree" => |go, pay, found| Sqrid::<X, Y, D, W, S>::ucs_path_btree(pay, o, t),
        "bf::search_mapmov" => |go, pay, found| bf::search_mapmov::<_, _, Grid<Dirs, _, S>, Gridbool<_, W>, _, D, W, S>(go, o, found).map(|(p, m)| (p, read::<_, _, W, S>(&q.p, &m))),
        "astar::search_mapmov" => |go, pay, found| astar::search_mapmov::<_, Grid<Dirs, _, S>, Grid<usize, _, S>, _, D, W, S>(go, o, t).map(|m| read::<_, _, W, S>(&q.p, &m)),
        "ucs::search_mapmov" => |go, pay, found| ucs::search_mapmov::<_, Grid<Dirs, _, S>, Grid<usize, _, S>, _, D, W, S>(pay, o, t).map(|m| read::<_, _, W, S>(&q.p, &m)),
        "bf_iter" => |go, pay, found| whole(Sqrid::<X, Y, D, W, S>::bf_iter(go, o)),
        "bf_iter_hash" => |go, pay, found| whole(Sqrid::<X, Y, D, W, S>::bf_iter_hash(go, o)),
        "bf_iter_btree" => |go, pay, found| whole(Sqrid::<X, Y, D, W, S>::bf_iter_btree(go, o)),
        "AstarIterator" => |go, pay, found| whole(astar::AstarIterator::<_, Grid<usize, _, S>, _, D, W, S>::new(go, o, t)),
        "AstarIterator with a hash map" => |go, pay, found| whole(astar::AstarIterator::<_, HMap<_, usize>, _, D, W, S>::new(go, o, t)),
        "UcsIterator" => |go, pay, found| whole(ucs::UcsIterator::<_, Grid<usize, _, S>, _, D, W, S>::new(pay, o)),
        "UcsIterator with a tree map" => |go, pay, found| whole(ucs::UcsIterator::<_, BMap<_, usize>, _, D, W, S>::new(pay, o)),
    }
    macro_rules! iter {
        ($($n:literal => $new:expr),+ $(,)?) => { $(
            all.iters.push(Iter { name: format!("{} in {name}", $n), new: Box::new(move || Box::new($new)) });
        )+ };
    }
    iter! {
        "bf_iter" => Sqrid::<X, Y, D, W, S>::bf_iter(go, o),
        "bf_iter_hash" => bf::bf_iter::<_, HashSet<_>, _, D, W, S>(go, o),
        "bf_iter_btree" => bf::bf_iter::<_, BTreeSet<_>, _, D, W, S>(go, o),
        "AstarIterator" => astar::AstarIterator::<_, Grid<usize, _, S>, _, D, W, S>::new(go, o, t),
        "AstarIterator with a hash map" => astar::AstarIterator::<_, HMap<_, usize>, _, D, W, S>::new(go, o, t),
        "AstarIterator with a tree map" => astar::AstarIterator::<_, BMap<_, usize>, _, D, W, S>::new(go, o, t),
        "UcsIterator" => ucs::UcsIterator::<_, Grid<usize, _, S>, _, D, W, S>::new(pay, o),
        "UcsIterator with a hash map" => ucs::UcsIterator::<_, HMap<_, usize>, _, D, W, S>::new(pay, o),
        "UcsIterator with a tree map" => ucs::UcsIterator::<_, BMap<_, usize>, _, D, W, S>::new(pay, o),
        "iter_horizontal" => P::<X, Y>::iter_horizontal(),
        "iter_vertical" => P::<X, Y>::iter_vertical(),
        "iter_range" => P::<X, Y>::iter_range(P::FIRST, P::LAST),
        "iter_in_x" => P::<X, Y>::iter_in_x(PosT::tuple(t).0),
        "iter_in_y" => P::<X, Y>::iter_in_y(PosT::tuple(t).1),
        "Dir::iter" => Dir::iter::<D>(),
    }
}

fn all(deep: bool) -> World {
    let mut v = World::default();
    world::<2, 1, false, 1, 6>(&mut v, "3x2", 0, 5, |i, d, j| if (i, j) == (1, 4) { None } else { Some(di(d) + j) });
    world::<2, 1, true, 1, 6>(&mut v, "3x2 with a wall, 8 directions", 5, 0, |i, d, j| if j == 4 { None } else { Some(i + di(d) * 2) });
    world::<2, 1, false, 1, 6>(&mut v, "3x2 cut in two", 0, 2, |_, _, j| if j == 2 || j == 5 { None } else { Some(0) });
    world::<0, 3, false, 1, 4>(&mut v, "1x4", 3, 0, |i, _, _| Some(i));
    world::<1, 1, true, 1, 4>(&mut v, "2x2, 8 directions", 1, 2, |_, d, _| Some(1 + di(d) % 2 * 3));
    if deep {
        world::<2, 2, false, 1, 9>(&mut v, "3x3", 0, 8, |i, d, j| if j == 4 { None } else { Some((i * 3 + di(d)) % 4) });
        world::<3, 2, true, 1, 12>(&mut v, "4x3, 8 directions", 11, 1, |i, d, j| if j == 6 || j == 5 { None } else { Some((i * 3 + di(d)) % 4) });
        world::<5, 5, false, 2, 36>(&mut v, "6x6", 35, 0, |_, _, j| if j % 6 == 3 && j != 9 { None } else { Some(j % 3) });
    }
    v
}

type Both = (Vec<Alone<Op>>, Vec<Alone<Iter>>);

/// Everything, with what it gives alone.
fn both(deep: bool) -> &'static Both {
    static B: OnceLock<Both> = OnceLock::new();
    B.get_or_init(|| {
        let v = all(deep);
        let ops = v
            .ops
            .into_iter()
            .map(|it| {
                let asks = Cell::new(0);
                let gives = vec![(it.run)(&|n| asks.set(n))];
                Alone { it, gives, asks: asks.get() }
            })
            .collect();
        let iters = v
            .iters
            .into_iter()
            .map(|it| {
                let mut w = (it.new)();
                let mut gives = vec![];
                while let Some(s) = w.step() {
                    gives.push(s);
                    assert!(gives.len() < 100, "{} does not end", it.name);
                }
                Alone { it, gives, asks: 0 }
            })
            .collect();
        (ops, iters)
    })
}

fn right(op: &Alone<Op>, got: &str, when: &dyn Fn() -> String, c: &mut Ctx) -> Res {
    c.step();
    if got != op.gives[0] {
        bad!("{}: {} gives {got}, alone it gives {}", when(), op.it.name, op.gives[0]);
    }
    Ok(())
}

/// An iteration under way.
struct Going<'a> {
    it: &'a Alone<Iter>,
    walk: Box<dyn Walk>,
    at: usize,
}

impl<'a> Going<'a> {
    fn new(it: &'a Alone<Iter>) -> Going<'a> {
        Going { it, walk: (it.it.new)(), at: 0 }
    }
    fn len(&self) -> usize {
        self.it.gives.len()
    }
    /// Some items, at most as many as there are and the end.
    fn go(&mut self, n: usize, when: &dyn Fn() -> String, c: &mut Ctx) -> Res {
        for _ in 0..n {
            c.step();
            let got = self.walk.step();
            let want = self.it.gives.get(self.at);
            if got.as_ref() != want {
                bad!("{}: item {} of {} is {got:?}, alone it is {want:?}", when(), self.at, self.it.it.name);
            }
            if got.is_none() {
                return Ok(());
            }
            self.at += 1;
        }
        Ok(())
    }
    fn end(&mut self, when: &dyn Fn() -> String, c: &mut Ctx) -> Res {
        self.go(usize::MAX, when, c)
    }
}

/// All ways for two iterations to take turns, up to three turns each.
fn turns(a: usize, b: usize, most: usize, f: &mut dyn FnMut([usize; 4]) -> Res) -> Res {
    for i in 0..=a + 1 {
        for j in 0..=b + 1 {
            f([i, j, 0, 0])?;
            if (a + 2) * (b + 2) > most {
                continue;
            }
            for k in 1..=(a + 1).saturating_sub(i) {
                for l in 1..=(b + 1).saturating_sub(j) {
                    f([i, j, k, l])?;
                }
            }
        }
    }
    Ok(())
}

fn taking_turns(a: &Alone<Iter>, b: &Alone<Iter>, most: usize, c: &mut Ctx) -> Res {
    turns(a.gives.len(), b.gives.len(), most, &mut |[i, j, k, l]| {
        c.state();
        let when = || format!("{i} items of {}, {j} of {}, {k} of the first, {l} of the second, the rest of the first, the rest of the second", a.it.name, b.it.name);
        let (mut x, mut y) = (Going::new(a), Going::new(b));
        for (n, m) in [(i, j), (k, l)] {
            x.go(n, &when, c)?;
            y.go(m, &when, c)?;
        }
        x.end(&when, c)?;
        y.end(&when, c)?;
        if k == 0 {
            // the first one is begun again before the second one ends, or dropped half way
            let when = || format!("{i} items of {}, {j} of {}, the first one dropped and begun again", a.it.name, b.it.name);
            let (mut x, mut y) = (Going::new(a), Going::new(b));
            x.go(i, &when, c)?;
            y.go(j, &when, c)?;
            drop(x);
            let mut x = Going::new(a);
            y.end(&when, c)?;
            x.end(&when, c)?;
        }
        Ok(())
    })
}

fn clones(a: &Alone<Iter>, c: &mut Ctx) -> Res {
    let n = a.gives.len();
    for s in 0..=n + 1 {
        let rest = n.saturating_sub(s);
        turns(rest, rest, 100, &mut |[i, j, k, l]| {
            for which in 0..3 {
                c.state();
                let mut x = Going::new(a);
                let when = || format!("{} cloned after {s} items, {i} more of the first, {j} of the second, {k} of the first, {l} of the second, the rest of the first, the rest of the second{}", a.it.name, ["", " (the clone being the first)", " (the first one dropped)"][which]);
                x.go(s, &when, c)?;
                let mut y = Going { it: a, walk: x.walk.dup(), at: x.at };
                if which == 1 {
                    std::mem::swap(&mut x, &mut y);
                }
                for (n, m) in [(i, j), (k, l)] {
                    x.go(n, &when, c)?;
                    y.go(m, &when, c)?;
                }
                if which == 2 {
                    drop(x);
                } else {
                    x.end(&when, c)?;
                }
                // and a clone of the clone
                let mut z = Going { it: a, walk: y.walk.dup(), at: y.at };
                y.end(&when, c)?;
                z.end(&when, c)?;
            }
            Ok(())
        })?;
    }
    Ok(())
}

fn nested(a: &Alone<Op>, b: &Alone<Op>, c: &mut Ctx) -> Res {
    for n in 1..=a.asks {
        c.state();
        let inner = Cell::new(None);
        let got = (a.it.run)(&|k| {
            if k == n {
                inner.set(Some((b.it.run)(&|_| {})));
            }
        });
        right(b, &inner.take().unwrap_or("no answer".into()), &|| format!("inside question {n} of {}", a.it.name), c)?;
        right(a, &got, &|| format!("while question {n} ran {}", b.it.name), c)?;
    }
    Ok(())
}

/// An iteration that is begun in one question of a search, goes on in the later
/// ones and ends after the search.
fn across(a: &Alone<Op>, b: &Alone<Iter>, c: &mut Ctx) -> Res {
    for n in 1..=a.asks {
        for every in [1, 3] {
            c.state();
            let it = Cell::new(None);
            let res = Cell::new(Ok(()));
            let when = || format!("{} begun in question {n} of {}, continued every {every} questions", b.it.name, a.it.name);
            let cc = std::cell::RefCell::new(&mut *c);
            let got = (a.it.run)(&|k| {
                if k == n {
                    it.set(Some(Going::new(b)));
                }
                if k >= n && (k - n) % every == 0 {
                    if let Some(mut g) = it.take() {
                        let r = g.go(1, &when, &mut cc.borrow_mut());
                        it.set(Some(g));
                        if r.is_err() {
                            res.set(r);
                        }
                    }
                }
            });
            res.into_inner()?;
            right(a, &got, &when, c)?;
            match it.take() {
                Some(mut g) if g.at < g.len() => g.end(&when, c)?,
                _ => (),
            }
        }
    }
    Ok(())
}

struct Enough(usize);

/// Runs until a question panics.
fn cut(a: &Alone<Op>, n: usize, c: &mut Ctx) -> Res {
    c.step();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        (a.it.run)(&|k| {
            if k == n {
                std::panic::resume_unwind(Box::new(Enough(n)));
            }
        })
    }));
    match r {
        Ok(s) => bad!("{} gives {s} though question {n} panics", a.it.name),
        Err(e) => match e.downcast_ref::<Enough>() {
            Some(Enough(k)) if *k == n => Ok(()),
            _ => bad!("{}: the panic of question {n} becomes another one", a.it.name),
        },
    }
}

fn panics(a: &Alone<Op>, b: &Alone<Op>, c: &mut Ctx) -> Res {
    for n in 1..=a.asks {
        c.state();
        cut(a, n, c)?;
        right(b, &(b.it.run)(&|_| {}), &|| format!("after question {n} of {} has panicked", a.it.name), c)?;
    }
    // one that panics inside another one that goes on
    for n in [1, a.asks / 2, a.asks] {
        for m in [1, b.asks / 2, b.asks] {
            if n == 0 || m == 0 {
                continue;
            }
            c.state();
            let res = Cell::new(Ok(()));
            let cc = std::cell::RefCell::new(&mut *c);
            let got = (b.it.run)(&|k| {
                if k == m {
                    res.set(cut(a, n, &mut cc.borrow_mut()));
                }
            });
            res.into_inner()?;
            right(b, &got, &|| format!("question {m} ran {} up to a panic in its question {n}", a.it.name), c)?;
        }
    }
    Ok(())
}

fn panics_beside(a: &Alone<Op>, b: &Alone<Iter>, c: &mut Ctx) -> Res {
    for n in 1..=a.asks {
        for at in 0..=b.gives.len() {
            c.state();
            let when = || format!("{} paused after {at} items while {} panics in question {n}", b.it.name, a.it.name);
            let mut g = Going::new(b);
            g.go(at, &when, c)?;
            cut(a, n, c)?;
            g.end(&when, c)?;
            drop(g);
        }
    }
    Ok(())
}

const FREE: usize = 2;

/// The turn of two threads; only the one whose turn it is runs.
struct Baton {
    turn: Mutex<usize>,
    change: Condvar,
}

impl Baton {
    fn wait(&self, me: usize) {
        let mut t = self.turn.lock().unwrap();
        while *t != me && *t != FREE {
            t = self.change.wait(t).unwrap();
        }
    }
    fn give(&self, to: usize) {
        let mut t = self.turn.lock().unwrap();
        if *t != FREE {
            *t = to;
        }
        self.change.notify_all();
    }
}

/// Thread 0 runs up to question n, thread 1 up to question m, then thread 0 to
/// its end, then thread 1.
fn threads(a: &Alone<Op>, b: &Alone<Op>, some: usize, c: &mut Ctx) -> Res {
    let stride = |n: usize| if n <= some { 1 } else { n.div_ceil(some) };
    for n in (1..=a.asks).step_by(stride(a.asks)) {
        for m in (1..=b.asks).step_by(stride(b.asks)) {
            c.state();
            let baton = Arc::new(Baton { turn: Mutex::new(0), change: Condvar::new() });
            let (x, y) = std::thread::scope(|s| {
                let start = |me: usize, op: &'static Alone<Op>, at: usize| {
                    let baton = baton.clone();
                    s.spawn(move || {
                        baton.wait(me);
                        let r = caught(|| {
                            (op.it.run)(&|k| {
                                if k == at {
                                    baton.give(1 - me);
                                    baton.wait(me);
                                }
                            })
                        });
                        // the other one may run to its end
                        baton.give(FREE);
                        r.unwrap_or_else(|e| format!("panic: {e}"))
                    })
                };
                // the checks live as long as the program
                let (a, b): (&'static Alone<Op>, &'static Alone<Op>) = unsafe { (std::mem::transmute(a), std::mem::transmute(b)) };
                let (ta, tb) = (start(0, a, n), start(1, b, m));
                (ta.join(), tb.join())
            });
            let when = || format!("thread 1 runs {} up to question {n}, thread 2 {} up to question {m}, then thread 1 to its end, then thread 2", a.it.name, b.it.name);
            right(a, &x.unwrap_or("panic".into()), &when, c)?;
            right(b, &y.unwrap_or("panic".into()), &when, c)?;
        }
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("C29", "schedules: ways in which two searches or iterations overlap", "results compared with those of the same search run alone");
    let deep = k.thorough();
    let w = all(deep);
    let (no, ni) = (w.ops.len() as u64, w.iters.len() as u64);
    drop(w);
    let most = k.pick(80, 200);
    let some = k.pick(12, 40);
    let worlds = k.pick(5, 8);
    let them = format!("{no} searches and explorations ({} entry points, in {worlds} grids)", no / worlds);
    let its = format!("{ni} iterations ({} kinds, in {worlds} grids)", ni / worlds);
    k.fam("taking turns", format!("every ordered pair of {its}: every division into two turns of the first and two of the second; into three each if there are at most {most} combinations of positions; dropping and beginning again at every pair of positions"), ni * ni, move |i, c| {
        let v = &both(deep).1;
        let (a, b) = (&v[(i / ni) as usize], &v[(i % ni) as usize]);
        c.note(|| format!("{} and {}", a.it.name, b.it.name));
        c.outcome(&(&a.gives, &b.gives));
        taking_turns(a, b, most, c)
    });
    k.fam("clones", format!("{its}: cloned after every number of items; original and clone taking turns in every way of up to three turns each, either one dropped, a clone of the clone"), ni, move |i, c| {
        let a = &both(deep).1[i as usize];
        c.note(|| a.it.name.clone());
        c.outcome(&a.gives);
        clones(a, c)
    });
    let pair = move |i: u64| {
        let v = &both(deep).0;
        (&v[(i / no) as usize], &v[(i % no) as usize])
    };
    let mixed = move |i: u64| {
        let v = both(deep);
        (&v.0[(i / ni) as usize], &v.1[(i % ni) as usize])
    };
    k.fam("nested", format!("every ordered pair of {them}: the second run inside every single question of the first"), no * no, move |i, c| {
        let (a, b) = pair(i);
        c.note(|| format!("{} runs {}", a.it.name, b.it.name));
        c.outcome(&(&a.gives, &b.gives));
        nested(a, b, c)
    });
    k.fam("across", format!("{them}, and during each of them every one of {its}: begun in every question, continued in every (third) later one, ended after the search"), no * ni, move |i, c| {
        let (a, b) = mixed(i);
        c.note(|| format!("{} during {}", b.it.name, a.it.name));
        c.outcome(&(&a.gives, &b.gives));
        across(a, b, c)
    });
    k.fam("panics", format!("every ordered pair of {them}: the first one cut off by a panic in every single question, then the second; the first one cut off in its first, middle or last question inside the first, middle or last question of the second"), no * no, move |i, c| {
        let (a, b) = pair(i);
        c.note(|| format!("{} panics, then {}", a.it.name, b.it.name));
        c.outcome(&(&a.gives, &b.gives));
        panics(a, b, c)
    });
    k.fam("panics beside", format!("{its} paused at every item while each of {them} is cut off by a panic in every single question"), no * ni, move |i, c| {
        let (a, b) = mixed(i);
        c.note(|| format!("{} paused, {} panics", b.it.name, a.it.name));
        c.outcome(&(&a.gives, &b.gives));
        panics_beside(a, b, c)
    });
    let per = no / worlds;
    let few = k.pick(2, 4);
    k.fam("threads", format!("every ordered pair of {} searches (in {few} grids) on two threads that run one at a time: every pair of questions ({some} spread ones, if there are more) at which the first one and then the second one is preempted", per * few), (per * few) * (per * few), move |i, c| {
        let n = per * few;
        let v = &both(deep).0;
        let (a, b) = (&v[(i / n) as usize], &v[(i % n) as usize]);
        c.note(|| format!("{} and {}", a.it.name, b.it.name));
        c.outcome(&(&a.gives, &b.gives));
        threads(a, b, some, c)
    });
    k.assume("movement functions and goal predicates that answer the same for the same arguments");
    k.run()
}
