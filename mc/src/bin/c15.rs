//! C15: every position map and position set implementation behaves as a map and a set.
use mc::model::*;
use mc::*;
use sqrid::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;

trait Pp: PosT + Copy + Ord + Hash + Debug + Send + Sync + 'static {}
impl<P: PosT + Copy + Ord + Hash + Debug + Send + Sync + 'static> Pp for P {}

trait Item: Copy + PartialEq + Debug + Send + Sync + 'static {
    fn of(i: u64) -> Self;
}
impl Item for u8 {
    fn of(i: u64) -> u8 {
        i as u8
    }
}
impl Item for u64 {
    fn of(i: u64) -> u64 {
        u64::MAX - i
    }
}
impl Item for Option<Dir> {
    fn of(i: u64) -> Option<Dir> {
        if i == 0 {
            None
        } else {
            Some(COMPASS[i as usize % 8])
        }
    }
}
impl Item for (usize, Dir) {
    fn of(i: u64) -> (usize, Dir) {
        (i as usize, COMPASS[i as usize % 8])
    }
}

fn squares<P: Pp>() -> Vec<P> {
    let (x0, x1, y0, y1) = bounds::<P>();
    (y0..=y1).flat_map(|y| (x0..=x1).map(move |x| mk::<P>(x, y))).collect()
}

/// What a map implementation is asked to do, as an object.
trait Map<T, P> {
    fn name(&self) -> &'static str;
    fn get(&self, p: &P) -> T;
    fn set(&mut self, p: P, t: T);
    fn copy(&self) -> Box<dyn Map<T, P>>;
}

struct M<B, const S: usize>(B, &'static str);

impl<T: Item, P: Pp, B: MapPos<T, P, 1, S> + Clone + 'static, const S: usize> Map<T, P> for M<B, S> {
    fn name(&self) -> &'static str {
        self.1
    }
    fn get(&self, p: &P) -> T {
        *self.0.get(p)
    }
    fn set(&mut self, p: P, t: T) {
        self.0.set(p, t)
    }
    fn copy(&self) -> Box<dyn Map<T, P>> {
        Box::new(M::<B, S>(self.0.clone(), self.1))
    }
}

fn map<T: Item, P: Pp, B: MapPos<T, P, 1, S> + Clone + 'static, const S: usize>(init: T, name: &'static str) -> Box<dyn Map<T, P>> {
    Box::new(M::<B, S>(B::new(init), name))
}

type Maps<T, P> = fn(T) -> Vec<Box<dyn Map<T, P>>>;

fn all_maps<T: Item, P: Pp, const S: usize>(init: T) -> Vec<Box<dyn Map<T, P>>> {
    let mut v = no_grid::<T, P>(init);
    v.push(map::<T, P, Grid<T, P, S>, S>(init, "grid"));
    v
}

/// For positions that have no grid.
fn no_grid<T: Item, P: Pp>(init: T) -> Vec<Box<dyn Map<T, P>>> {
    vec![map::<T, P, (HashMap<P, T>, T), 0>(init, "hash map"), map::<T, P, (BTreeMap<P, T>, T), 0>(init, "tree map")]
}

trait Set<P> {
    fn name(&self) -> &'static str;
    fn contains(&self, p: &P) -> bool;
    fn insert(&mut self, p: P);
    fn remove(&mut self, p: &P);
    fn set(&mut self, p: P, add: bool);
    fn copy(&self) -> Box<dyn Set<P>>;
}

struct St<B, const W: usize>(B, &'static str);

impl<P: Pp, B: SetPos<P, W, 0> + Clone + 'static, const W: usize> Set<P> for St<B, W> {
    fn name(&self) -> &'static str {
        self.1
    }
    fn contains(&self, p: &P) -> bool {
        self.0.contains(p)
    }
    fn insert(&mut self, p: P) {
        self.0.insert(p)
    }
    fn remove(&mut self, p: &P) {
        self.0.remove(p)
    }
    fn set(&mut self, p: P, add: bool) {
        self.0.set(p, add)
    }
    fn copy(&self) -> Box<dyn Set<P>> {
        Box::new(St::<B, W>(self.0.clone(), self.1))
    }
}

type Sets<P> = fn() -> Vec<Box<dyn Set<P>>>;

fn all_sets<P: Pp, const W: usize>() -> Vec<Box<dyn Set<P>>> {
    let mut v = no_gridbool::<P>();
    v.push(Box::new(St::<_, W>(Gridbool::<P, W>::default(), "boolean grid")));
    v
}

fn no_gridbool<P: Pp>() -> Vec<Box<dyn Set<P>>> {
    vec![Box::new(St::<_, 1>(HashSet::<P>::default(), "hash set")), Box::new(St::<_, 1>(BTreeSet::<P>::default(), "tree set"))]
}

fn check_map<T: Item, P: Pp>(g: &dyn Map<T, P>, m: &[T], ps: &[P], what: &dyn Fn() -> String, c: &mut Ctx) -> Res {
    for (p, t) in ps.iter().zip(m) {
        same!(g.get(p), *t, "{}: {} at {p:?}", g.name(), what());
        c.step();
    }
    Ok(())
}

fn check_set<P: Pp>(g: &dyn Set<P>, m: &[bool], ps: &[P], what: &dyn Fn() -> String, c: &mut Ctx) -> Res {
    for (p, t) in ps.iter().zip(m) {
        same!(g.contains(p), *t, "{}: {} contains {p:?}", g.name(), what());
        c.step();
    }
    Ok(())
}

/// All sequences of `depth` operations, every square read after each.
fn map_histories<T: Item, P: Pp>(k: &mut Check, name: &str, make: Maps<T, P>, values: u64, depth: u32) {
    let ps = squares::<P>();
    let n = ps.len() as u64;
    let ops = n * values;
    k.fam(
        format!("map histories {name}"),
        format!("all sequences of 0 to {depth} sets ({n} squares x {values} values) x {values} initial items, all implementations in lockstep, every square read after every step"),
        ops.pow(depth) * values,
        move |i, c| {
            let init = T::of(i % values);
            let mut rest = i / values;
            let mut gs = make(init);
            let mut m = vec![init; n as usize];
            let mut trace = vec![];
            for g in &gs {
                check_map(&**g, &m, &ps, &|| format!("new({init:?})"), c)?;
            }
            for _ in 0..depth {
                let o = rest % ops;
                rest /= ops;
                let (s, v) = ((o % n) as usize, T::of(o / n));
                m[s] = v;
                trace.push((s, v));
                c.state();
                for g in gs.iter_mut() {
                    g.set(ps[s], v);
                    check_map(&**g, &m, &ps, &|| format!("new({init:?}), sets {trace:?}"), c)?;
                }
            }
            c.outcome(&format!("{m:?}"));
            c.note(|| format!("new({init:?}), sets {trace:?}"));
            Ok(())
        },
    );
}

/// Every content reached, each set from every content.
fn map_transitions<T: Item, P: Pp>(k: &mut Check, name: &str, make: Maps<T, P>, values: u64) {
    let ps = squares::<P>();
    let n = ps.len();
    k.fam(
        format!("map transitions {name}"),
        format!("all {values}^{n} contents (set in order and in reverse) x every set from each"),
        values.pow(n as u32) * 2,
        move |i, c| {
            let m: Vec<T> = digs(i / 2, values, n).into_iter().map(|d| T::of(d as u64)).collect();
            let mut order: Vec<usize> = (0..n).collect();
            if i % 2 == 1 {
                order.reverse();
            }
            c.note(|| format!("{m:?}"));
            let mut gs = make(T::of(0));
            for g in gs.iter_mut() {
                for s in &order {
                    // the initial item is left alone where it is wanted, or stored
                    if m[*s] != T::of(0) || i % 2 == 1 {
                        g.set(ps[*s], m[*s]);
                    }
                }
                check_map(&**g, &m, &ps, &|| format!("content {m:?}"), c)?;
                for s in 0..n {
                    for v in 0..values {
                        let mut g2 = g.copy();
                        let mut m2 = m.clone();
                        g2.set(ps[s], T::of(v));
                        m2[s] = T::of(v);
                        c.state();
                        check_map(&*g2, &m2, &ps, &|| format!("content {m:?}, then {:?} at {s}", T::of(v)), c)?;
                    }
                }
            }
            c.outcome(&i);
            Ok(())
        },
    );
}

/// All sequences of set operations.
fn set_histories<P: Pp>(k: &mut Check, name: &str, make: Sets<P>, depth: u32) {
    let ps = squares::<P>();
    let n = ps.len() as u64;
    let ops = n * 4;
    k.fam(
        format!("set histories {name}"),
        format!("all sequences of 0 to {depth} operations (insert, remove, set true, set false x {n} squares), all implementations in lockstep, every square read after every step"),
        ops.pow(depth),
        move |i, c| {
            let mut rest = i;
            let mut gs = make();
            let mut m = vec![false; n as usize];
            let mut trace = vec![];
            for _ in 0..depth {
                let o = rest % ops;
                rest /= ops;
                let (s, op) = ((o % n) as usize, (o / n) as usize);
                m[s] = op % 2 == 0;
                trace.push((["insert", "remove", "set true", "set false"][op], s));
                c.state();
                for g in gs.iter_mut() {
                    match op {
                        0 => g.insert(ps[s]),
                        1 => g.remove(&ps[s]),
                        2 => g.set(ps[s], true),
                        _ => g.set(ps[s], false),
                    }
                    check_set(&**g, &m, &ps, &|| format!("after {trace:?}"), c)?;
                }
            }
            c.outcome(&m);
            c.note(|| format!("{trace:?}"));
            Ok(())
        },
    );
}

fn set_transitions<P: Pp>(k: &mut Check, name: &str, make: Sets<P>) {
    let ps = squares::<P>();
    let n = ps.len();
    k.fam(format!("set transitions {name}"), format!("all 2^{n} contents (inserted in order, or all inserted and the others removed) x every operation from each"), 2 << n, move |i, c| {
        let m: Vec<bool> = (0..n).map(|j| i >> (j + 1) & 1 == 1).collect();
        c.note(|| format!("{m:?}"));
        c.outcome(&m);
        let mut gs = make();
        for g in gs.iter_mut() {
            for s in 0..n {
                if m[s] || i % 2 == 1 {
                    g.insert(ps[s]);
                }
            }
            for s in (0..n).rev() {
                if !m[s] && i % 2 == 1 {
                    g.remove(&ps[s]);
                }
            }
            check_set(&**g, &m, &ps, &|| format!("content {m:?}"), c)?;
            for s in 0..n {
                for op in 0..4 {
                    let mut g2 = g.copy();
                    let mut m2 = m.clone();
                    match op {
                        0 => g2.insert(ps[s]),
                        1 => g2.remove(&ps[s]),
                        2 => g2.set(ps[s], true),
                        _ => g2.set(ps[s], false),
                    }
                    m2[s] = op % 2 == 0;
                    c.state();
                    check_set(&*g2, &m2, &ps, &|| format!("content {m:?}, then operation {op} at {s}"), c)?;
                }
            }
        }
        Ok(())
    });
}

/// Large position types: every one of `n` squares set to something of its own
/// in one order, a part of them set again.
fn filled<P: Pp>(k: &mut Check, name: &str, maps: Maps<u64, P>, sets: Sets<P>, ps: Vec<P>) {
    let n = ps.len();
    let strides: Vec<usize> = [1, 7, 31, 101].into_iter().filter(|s| n % s != 0 || *s == 1).collect();
    k.fam(
        format!("filled {name}"),
        format!("{n} squares set to distinct items in orders of stride {strides:?}, every third one set again or removed, everything read"),
        strides.len() as u64,
        move |i, c| {
            let st = strides[i as usize];
            let order: Vec<usize> = (0..n).map(|j| j * st % n).collect();
            let mut m = vec![7u64; n];
            let mut b = vec![false; n];
            let (mut gs, mut ss) = (maps(7), sets());
            let go = |part: &dyn Fn(usize) -> bool, v: &dyn Fn(usize) -> u64, add: bool, m: &mut Vec<u64>, b: &mut Vec<bool>, gs: &mut Vec<Box<dyn Map<u64, P>>>, ss: &mut Vec<Box<dyn Set<P>>>| {
                for &s in order.iter().filter(|s| part(**s)) {
                    m[s] = v(s);
                    b[s] = add;
                    gs.iter_mut().for_each(|g| g.set(ps[s], v(s)));
                    ss.iter_mut().for_each(|g| if add { g.insert(ps[s]) } else { g.remove(&ps[s]) });
                }
            };
            go(&|s| s % 5 != 0, &|s| s as u64, true, &mut m, &mut b, &mut gs, &mut ss);
            gs.iter().try_for_each(|g| check_map(&**g, &m, &ps, &|| "filled".to_string(), c))?;
            ss.iter().try_for_each(|g| check_set(&**g, &b, &ps, &|| "filled".to_string(), c))?;
            go(&|s| s % 3 == 0, &|s| s as u64 + 1_000_000, false, &mut m, &mut b, &mut gs, &mut ss);
            gs.iter().try_for_each(|g| check_map(&**g, &m, &ps, &|| "set again".to_string(), c))?;
            ss.iter().try_for_each(|g| check_set(&**g, &b, &ps, &|| "some removed".to_string(), c))?;
            c.state();
            c.outcome(&st);
            Ok(())
        },
    );
}

fn dim<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    let name = format!("{}x{}", X as u32 + 1, Y as u32 + 1);
    filled(k, &name, all_maps::<u64, Pos<X, Y>, S>, all_sets::<Pos<X, Y>, W>, squares::<Pos<X, Y>>());
}

fn main() {
    let mut k = Check::new(
        "C15",
        "operations applied to all implementations in lockstep with the model",
        "reads compared with the model",
    );
    let deep = k.thorough();
    macro_rules! hist {
        ($t:ty; $v:expr; $d:expr; $($x:literal $y:literal),+) => { $( {
            const S: usize = ($x + 1) * ($y + 1);
            map_histories(&mut k, &format!("{}x{} of {}", $x + 1, $y + 1, stringify!($t)), all_maps::<$t, Pos<$x, $y>, S>, $v, $d);
        } )+ }
    }
    hist!(u8; 3; if deep { 5 } else { 4 }; 1 0, 0 1);
    hist!(u8; 2; if deep { 5 } else { 4 }; 1 1, 2 0);
    hist!(Option<Dir>; 3; 3; 1 1, 0 2, 2 1);
    hist!((usize, Dir); 2; 3; 2 1, 1 2);
    hist!(u64; 2; if deep { 4 } else { 3 }; 2 2);
    macro_rules! trans {
        ($t:ty; $v:expr; $($x:literal $y:literal),+) => { $( {
            const S: usize = ($x + 1) * ($y + 1);
            map_transitions(&mut k, &format!("{}x{} of {}", $x + 1, $y + 1, stringify!($t)), all_maps::<$t, Pos<$x, $y>, S>, $v);
        } )+ }
    }
    trans!(u8; 3; 0 0, 1 0, 1 1, 2 1, 1 2, 5 0);
    trans!(Option<Dir>; 2; 2 2, 3 1);
    if deep {
        trans!(u8; 3; 6 0, 0 7, 3 1);
        trans!(u64; 2; 3 2, 2 3);
    }
    macro_rules! sets {
        ($d:expr; $($x:literal $y:literal),+) => { $( {
            const S: usize = ($x + 1) * ($y + 1);
            set_histories(&mut k, &format!("{}x{}", $x + 1, $y + 1), all_sets::<Pos<$x, $y>, { (S + 31) / 32 }>, $d);
        } )+ }
    }
    sets!(if deep { 6 } else { 5 }; 1 0, 0 1);
    sets!(if deep { 5 } else { 4 }; 1 1);
    sets!(3; 2 1, 1 2, 2 2);
    macro_rules! strans {
        ($($x:literal $y:literal),+) => { $( {
            const S: usize = ($x + 1) * ($y + 1);
            set_transitions(&mut k, &format!("{}x{}", $x + 1, $y + 1), all_sets::<Pos<$x, $y>, { (S + 31) / 32 }>);
        } )+ }
    }
    strans!(0 0, 2 1, 1 2, 2 2, 8 0, 0 9, 3 1);
    if deep {
        strans!(3 2, 2 3);
    }
    // User-defined positions; those that do not start at zero have no grid
    map_histories(&mut k, "Mix53", all_maps::<u8, Mix53, 15>, 2, 2);
    set_histories(&mut k, "Mix53", all_sets::<Mix53, 1>, 2);
    map_histories(&mut k, "Off2", no_grid::<u8, Off2>, 2, 3);
    map_histories(&mut k, "OneCol", no_grid::<u8, OneCol>, 3, 3);
    map_transitions(&mut k, "Off2", no_grid::<u8, Off2>, 3);
    set_histories(&mut k, "Off2", no_gridbool::<Off2>, 3);
    set_transitions(&mut k, "Off2", no_gridbool::<Off2>);
    set_histories(&mut k, "Off4", no_gridbool::<Off4>, 2);
    filled(&mut k, "Off1", no_grid::<u64, Off1>, no_gridbool::<Off1>, squares::<Off1>());
    filled(&mut k, "Off3", no_grid::<u64, Off3>, no_gridbool::<Off3>, squares::<Off3>());
    filled(&mut k, "Byte3", all_maps::<u64, Byte3, 768>, all_sets::<Byte3, 24>, squares::<Byte3>());
    filled(&mut k, "Three256", all_maps::<u64, Three256, 768>, all_sets::<Three256, 24>, squares::<Three256>());
    dims_small!(each_dim, dim(&mut k));
    dims_mid!(each_dim, dim(&mut k));
    each_dim! { dim(&mut k); (255, 255) (300, 217) (65535, 0) (0, 65535) (65535, 1) (1, 65535) }
    // Pairs of integers are positions too: the limits of the types
    let far = |v: &[i32]| -> Vec<(i32, i32)> { v.iter().flat_map(|x| v.iter().map(move |y| (*x, *y))).collect() };
    filled(&mut k, "pairs of i32", no_grid::<u64, (i32, i32)>, no_gridbool::<(i32, i32)>, far(&[i32::MIN, i32::MIN + 1, -256, -2, -1, 0, 1, 2, 255, 256, 65536, i32::MAX - 1, i32::MAX]));
    let far: Vec<(u8, u8)> = (0..=255).flat_map(|x| (0..=255).map(move |y| (x, y))).collect();
    filled(&mut k, "pairs of u8", no_grid::<u64, (u8, u8)>, no_gridbool::<(u8, u8)>, far);
    k.assume("std's HashMap, BTreeMap, HashSet and BTreeSet behave as documented");
    k.run()
}
