//! C10: a grid is an independent cell per position, however it is accessed.
use mc::model::*;
use mc::*;
use sqrid::*;
use std::fmt::Debug;

trait Pp: PosT + Copy + PartialEq + Debug + Send + Sync + 'static {}
impl<P: PosT + Copy + PartialEq + Debug + Send + Sync + 'static> Pp for P {}

trait Item: Clone + PartialEq + Debug + Default + Send + Sync + 'static {
    fn of(i: u64) -> Self;
}
impl Item for u8 {
    fn of(i: u64) -> u8 {
        i as u8
    }
}
impl Item for u32 {
    fn of(i: u64) -> u32 {
        i as u32
    }
}
impl Item for i64 {
    fn of(i: u64) -> i64 {
        if i % 2 == 0 { i as i64 } else { -(i as i64) }
    }
}
impl Item for (u16, Option<Dir>) {
    fn of(i: u64) -> Self {
        (i as u16, if i % 9 == 8 { None } else { Some(COMPASS[i as usize % 9]) })
    }
}
impl Item for bool {
    fn of(i: u64) -> bool {
        i % 2 == 1
    }
}
impl Item for String {
    fn of(i: u64) -> String {
        format!("{i}")
    }
}

/// All positions in reading order, built by the model.
fn squares<P: Pp>() -> Vec<P> {
    let (x0, x1, y0, y1) = bounds::<P>();
    assert!(x0 == 0 && y0 == 0);
    (0..=y1).flat_map(|y| (0..=x1).map(move |x| mk::<P>(x, y))).collect()
}

struct Sq<P> {
    p: Vec<P>,
    w: usize,
    h: usize,
}

impl<P: Pp> Sq<P> {
    fn new() -> Sq<P> {
        let p = squares::<P>();
        let (_, x1, _, y1) = bounds::<P>();
        Sq { p, w: x1 as usize + 1, h: y1 as usize + 1 }
    }
    fn ytype(&self, y: usize) -> P::Ytype {
        self.p[y * self.w].tuple().1
    }
}

/// Cell by cell, for the given cells.
fn read_cells<T: Item, P: Pp, const S: usize>(g: &Grid<T, P, S>, m: &[T], q: &Sq<P>, which: impl Iterator<Item = usize>, c: &mut Ctx) -> Res {
    for i in which {
        let p = q.p[i];
        same!(g.get(&p), &m[i], "get({p:?})");
        same!(&g[p], &m[i], "g[{p:?}]");
        same!(&g[&p], &m[i], "g[&{p:?}]");
        let (x, y) = (i % q.w, i / q.w);
        same!(&g.line(q.ytype(y))[x], &m[i], "line({y})[{x}]");
        same!(&g.as_array()[i], &m[i], "as_array()[{i}]");
        same!(&g.as_ref()[i], &m[i], "as_ref()[{i}]");
        c.steps += 6;
    }
    Ok(())
}

/// Everything as a whole.
fn read_whole<T: Item, P: Pp, const S: usize>(g: &mut Grid<T, P, S>, m: &[T], q: &Sq<P>, c: &mut Ctx) -> Res {
    c.state();
    same!(m.len(), S, "number of cells");
    same!(&g.as_array()[..], m, "as_array");
    let r: &[T; S] = g.as_ref();
    same!(&r[..], m, "as_ref");
    if !g.iter().eq(m.iter()) {
        bad!("iter: got {:?}, expected {:?}", g.iter().collect::<Vec<_>>(), m);
    }
    if !(&*g).into_iter().eq(m.iter()) {
        bad!("(&g).into_iter: got {:?}, expected {:?}", (&*g).into_iter().collect::<Vec<_>>(), m);
    }
    let mut k = 0;
    for (p, v) in g.iter_pos() {
        if k >= S || p != q.p[k] || v != &m[k] {
            bad!("iter_pos item {k}: got {p:?} {v:?}, expected {:?}", q.p.get(k).map(|p| (p, &m[k])));
        }
        k += 1;
    }
    same!(k, S, "number of items of iter_pos");
    for y in 0..q.h {
        let row = &m[y * q.w..(y + 1) * q.w];
        same!(g.line(q.ytype(y)), row, "line({y})");
        same!(&*g.line_mut(q.ytype(y)), row, "line_mut({y})");
    }
    same!(&g.as_array_mut()[..], m, "as_array_mut");
    same!(&g.as_mut()[..], m, "as_mut");
    if !g.iter_mut().map(|v| &*v).eq(m.iter()) {
        bad!("iter_mut differs from {m:?}");
    }
    if !(&mut *g).into_iter().map(|v| &*v).eq(m.iter()) {
        bad!("(&mut g).into_iter differs from {m:?}");
    }
    let (a, b) = (g.clone(), g.clone());
    let inner = a.into_inner();
    same!(&inner[..], m, "into_inner");
    let owned: Vec<T> = b.into_iter().collect();
    same!(&owned[..], m, "into_iter");
    same!(Grid::<T, P, S>::SIZE, m.len(), "SIZE");
    c.steps += 12 + 2 * q.h as u64;
    Ok(())
}

/// The ways of writing one cell that work for any item.
const WRITES: usize = 11;
fn write<T: Item, P: Pp, const S: usize>(g: &mut Grid<T, P, S>, how: usize, i: usize, v: T, m: &[T], q: &Sq<P>) -> &'static str {
    let p = q.p[i];
    let (x, y) = (i % q.w, i / q.w);
    match how {
        0 => {
            *g.get_mut(&p) = v;
            "get_mut"
        }
        1 => {
            g[p] = v;
            "index by position"
        }
        2 => {
            g[&p] = v;
            "index by reference"
        }
        3 => {
            *g.iter_mut().nth(i).unwrap() = v;
            "iter_mut"
        }
        4 => {
            *(&mut *g).into_iter().nth(i).unwrap() = v;
            "&mut into_iter"
        }
        5 => {
            g.line_mut(q.ytype(y))[x] = v;
            "line_mut"
        }
        6 => {
            g.as_array_mut()[i] = v;
            "as_array_mut"
        }
        7 => {
            let a: &mut [T; S] = g.as_mut();
            a[i] = v;
            "as_mut"
        }
        8 => {
            g.extend([(p, v)]);
            "extend"
        }
        9 => {
            // nested rows that repeat the current content, the written cell last
            let mut rows: Vec<Vec<T>> = (0..y).map(|r| m[r * q.w..(r + 1) * q.w].to_vec()).collect();
            let mut last = m[y * q.w..i].to_vec();
            last.push(v);
            rows.push(last);
            g.extend_from_vecvec(rows).unwrap();
            "extend_from_vecvec"
        }
        _ => {
            *g.iter_mut().rev().nth(S - 1 - i).unwrap() = v;
            "iter_mut from the back"
        }
    }
}

/// Further ways, for Copy items.
const CWRITES: usize = 3;
fn cwrite<T: Item + Copy, P: Pp, const S: usize>(g: &mut Grid<T, P, S>, how: usize, i: usize, v: T, m: &[T], q: &Sq<P>) -> &'static str {
    let p = q.p[i];
    match how {
        0 => {
            g.extend([(p, &v)]);
            "extend of references to items"
        }
        1 => {
            g.extend(&[(p, v)]);
            "extend of references to pairs"
        }
        2 => {
            <Grid<T, P, S> as MapPos<T, P, 0, S>>::set(g, p, v);
            "MapPos::set"
        }
        _ => write(g, how - CWRITES, i, v, m, q),
    }
}

fn cread<T: Item + Copy, P: Pp, const S: usize>(g: &Grid<T, P, S>, m: &[T], q: &Sq<P>, which: impl Iterator<Item = usize>, c: &mut Ctx) -> Res {
    for i in which {
        same!(<Grid<T, P, S> as MapPos<T, P, 0, S>>::get(g, &q.p[i]), &m[i], "MapPos::get({:?})", q.p[i]);
        c.step();
    }
    Ok(())
}

fn build<T: Item, P: Pp, const S: usize>(m: &[T]) -> Box<Grid<T, P, S>> {
    Box::new(m.iter().cloned().collect::<Grid<T, P, S>>())
}

/// Every content over `base` values x every write of one cell in every way.
fn all_contents<T: Item + Copy, P: Pp, const S: usize>(k: &mut Check, name: &str, base: u64) {
    let q = Sq::<P>::new();
    k.fam(
        format!("transitions {name}"),
        format!("all {base}^{S} contents x every cell x {base} values x {} ways of writing, all ways of reading after each", WRITES + CWRITES),
        base.pow(S as u32),
        move |i, c| {
            let m0: Vec<T> = digs(i, base, S).into_iter().map(|d| T::of(d as u64)).collect();
            c.note(|| format!("content {m0:?}"));
            let g0 = build::<T, P, S>(&m0);
            read_whole(&mut g0.clone(), &m0, &q, c)?;
            for j in 0..S {
                for v in 0..base {
                    for how in 0..WRITES + CWRITES {
                        let mut g = g0.clone();
                        let mut m = m0.clone();
                        m[j] = T::of(v);
                        let w = cwrite(&mut g, how, j, T::of(v), &m0, &q);
                        let r = read_cells(&g, &m, &q, 0..S, c)
                            .and_then(|_| cread(&g, &m, &q, 0..S, c))
                            .and_then(|_| read_whole(&mut g, &m, &q, c));
                        if let Err(e) = r {
                            bad!("content {m0:?}, {:?} written to cell {j} by {w}: {}", T::of(v), e.detail);
                        }
                    }
                }
            }
            c.outcome(&g0.as_array().iter().map(|v| format!("{v:?}")).collect::<Vec<_>>());
            Ok(())
        },
    );
}

/// All histories of `depth` writes starting from repeat/default/collect.
fn histories<P: Pp, const S: usize>(k: &mut Check, name: &str, depth: u32) {
    let q = Sq::<P>::new();
    let ops = ((WRITES + CWRITES) * S * 2) as u64;
    k.fam(
        format!("histories {name}"),
        format!("all sequences of {depth} writes (way x cell x 2 values) after each of 3 ways of creating the grid, one live grid per history, all ways of reading at the end"),
        ops.pow(depth) * 3,
        move |i, c| {
            let start = i % 3;
            let mut rest = i / 3;
            let mut m = vec![0u8; S];
            let mut g: Grid<u8, P, S> = match start {
                0 => Grid::default(),
                1 => {
                    m = vec![7; S];
                    Grid::repeat(7)
                }
                _ => {
                    m = (0..S as u8).map(|v| v + 10).collect();
                    m.iter().collect()
                }
            };
            let mut trace = vec![];
            for _ in 0..depth {
                let o = rest % ops;
                rest /= ops;
                let (how, o) = (o as usize % (WRITES + CWRITES), o as usize / (WRITES + CWRITES));
                let (cell, v) = (o % S, 1 + (o / S) as u8);
                let w = cwrite(&mut g, how, cell, v, &m, &q);
                m[cell] = v;
                trace.push((w, cell, v));
                c.step();
            }
            c.note(|| format!("{trace:?} -> {m:?}"));
            c.outcome(&m);
            read_cells(&g, &m, &q, 0..S, c)
                .and_then(|_| cread(&g, &m, &q, 0..S, c))
                .and_then(|_| read_whole(&mut g, &m, &q, c))
                .map_err(|e| format!("start {start}, {trace:?}: {}", e.detail).into())
        },
    );
}

/// Bulk extensions: all sequences of up to `len` pairs, the last one on a cell wins.
fn bulk<P: Pp, const S: usize>(k: &mut Check, name: &str, len: u32) {
    let q = Sq::<P>::new();
    let one = S as u64 * 2;
    let total: u64 = (0..=len).map(|l| one.pow(l)).sum();
    k.fam(
        format!("bulk extension {name}"),
        format!("all sequences of 0 to {len} (position, value) pairs x 3 forms of extend, plus filling of every line and of the whole grid"),
        total,
        move |mut i, c| {
            let mut l = 0;
            while i >= one.pow(l) {
                i -= one.pow(l);
                l += 1;
            }
            let pairs: Vec<(P, u8)> = (0..l).map(|n| { let o = (i / one.pow(n)) % one; (q.p[o as usize / 2], 100 + n as u8 * 2 + (o % 2) as u8) }).collect();
            let mut m: Vec<u8> = (0..S as u8).collect();
            let g0 = build::<u8, P, S>(&m);
            for (p, v) in &pairs {
                let at = q.p.iter().position(|x| x == p).unwrap();
                m[at] = *v;
            }
            c.note(|| format!("extend with {pairs:?}"));
            for form in 0..3 {
                let mut g = g0.clone();
                match form {
                    0 => g.extend(pairs.iter().copied()),
                    1 => g.extend(pairs.iter().map(|(p, v)| (*p, v))),
                    _ => g.extend(pairs.iter()),
                }
                read_whole(&mut g, &m, &q, c).map_err(|e| Viol::from(format!("extend form {form} with {pairs:?}: {}", e.detail)))?;
            }
            // Fill each line, then the whole grid
            for y in 0..q.h {
                let mut g = g0.clone();
                let mut m: Vec<u8> = (0..S as u8).collect();
                g.line_mut(q.ytype(y)).fill(200);
                m[y * q.w..(y + 1) * q.w].fill(200);
                read_whole(&mut g, &m, &q, c)?;
            }
            let mut g = g0.clone();
            for v in &mut *g {
                *v += 1;
            }
            read_whole(&mut g, &(1..=S as u8).collect::<Vec<_>>(), &q, c)
        },
    );
}

/// Distinct content everywhere: every cell x every way of writing.
fn labelled<T: Item + Copy, P: Pp, const S: usize>(k: &mut Check, name: &str) {
    let q = Sq::<P>::new();
    let full = S <= 400;
    let mut cells: Vec<usize> = (0..S).collect();
    if S > 2000 {
        let w = q.w;
        let mut v: Vec<usize> = vec![0, 1, 2, w - 1, w, w + 1, S / 2, (S - w).saturating_sub(1), S - w, S - w + 1, S - 2, S - 1, 31, 32, 255, 256, 257, 65534, 65535, 65536];
        v.retain(|i| *i < S);
        v.sort();
        v.dedup();
        cells = v;
    }
    let all = cells.len() == S;
    k.fam(
        format!("labelled {name}"),
        format!("{S} cells of distinct content; {} x {} ways of writing; after each, {}", if all { "every cell".to_string() } else { format!("cells {cells:?}") }, WRITES + CWRITES, if full { "every cell read in every way" } else { "the array and the written cell's surroundings read, every cell in every way once per cell" }),
        cells.len() as u64,
        move |i, c| {
            let j = cells[i as usize];
            let m0: Vec<T> = (0..S as u64).map(T::of).collect();
            let mut g = build::<T, P, S>(&m0);
            let mut m = m0;
            for how in 0..WRITES + CWRITES {
                let v = T::of(S as u64 + 3 + how as u64 * 5);
                let w = cwrite(&mut g, how, j, v, &m, &q);
                m[j] = v;
                let r = if g.as_array()[..] != m[..] {
                    let d = (0..S).find(|&n| g.as_array()[n] != m[n]).unwrap();
                    bad!("{v:?} written to cell {j} by {w}: cell {d} is {:?}, expected {:?}", g.as_array()[d], m[d]);
                } else if full {
                    read_cells(&g, &m, &q, 0..S, c).and_then(|_| cread(&g, &m, &q, 0..S, c))
                } else {
                    let near = [0, 1, q.w - 1, q.w, q.w + 1];
                    let near: Vec<usize> = near.iter().flat_map(|d| [j.checked_sub(*d), Some(j + d)]).flatten().filter(|n| *n < S).collect();
                    read_cells(&g, &m, &q, near.iter().copied(), c).and_then(|_| cread(&g, &m, &q, near.iter().copied(), c))
                };
                r.map_err(|e| Viol::from(format!("{v:?} written to cell {j} by {w}: {}", e.detail)))?;
                c.step();
            }
            if full || i == 0 {
                read_cells(&g, &m, &q, 0..S, c)?;
                cread(&g, &m, &q, 0..S, c)?;
            }
            read_whole(&mut g, &m, &q, c)
        },
    );
}

/// Items that own memory.
fn owned<P: Pp, const S: usize>(k: &mut Check, name: &str) {
    let q = Sq::<P>::new();
    k.fam(
        format!("owned items {name}"),
        format!("{S} cells of distinct strings; every cell x {WRITES} ways of writing, every way of reading"),
        S as u64,
        move |i, c| {
            let j = i as usize;
            let mut m: Vec<String> = (0..S as u64).map(String::of).collect();
            let mut g = build::<String, P, S>(&m);
            for how in 0..WRITES {
                let v = format!("new {how}");
                let w = write(&mut g, how, j, v.clone(), &m, &q);
                m[j] = v;
                read_cells(&g, &m, &q, 0..S, c)
                    .and_then(|_| read_whole(&mut g, &m, &q, c))
                    .map_err(|e| Viol::from(format!("cell {j} written by {w}: {}", e.detail)))?;
            }
            Ok(())
        },
    );
}

/// repeat, default and negation.
fn creation<P: Pp, const S: usize>(k: &mut Check, name: &str) {
    let q = Sq::<P>::new();
    k.fam(format!("creation {name}"), "repeat of 3 values, default, MapPos::new, negation of distinct items", 6, move |i, c| {
        let fill = [0i64, 1, -5][i as usize % 3];
        match i {
            0..=2 => {
                let mut g = Box::new(Grid::<i64, P, S>::repeat(fill));
                read_whole(&mut g, &vec![fill; S], &q, c)?;
                let mut g = Box::new(<Grid<i64, P, S> as MapPos<i64, P, 0, S>>::new(fill));
                read_whole(&mut g, &vec![fill; S], &q, c)
            }
            3 => read_whole(&mut Box::new(Grid::<i64, P, S>::default()), &vec![0; S], &q, c),
            4 => {
                let m: Vec<i64> = (0..S as i64).map(|v| v - 3).collect();
                let g = build::<i64, P, S>(&m);
                let n: Vec<i64> = m.iter().map(|v| -v).collect();
                read_whole(&mut Box::new(-*g), &n, &q, c)?;
                read_whole(&mut Box::new(-(-*g)), &m, &q, c)
            }
            _ => read_whole(&mut Box::new(Grid::<u8, P, S>::default()), &vec![0u8; S], &q, c),
        }
    });
}

/// Every mixture of calls on the iterators.
fn mixed<P: Pp, const S: usize>(k: &mut Check, name: &str) {
    let q = Sq::<P>::new();
    k.fam(
        format!("mixed calls on the iterators of {name}"),
        "distinct items: of iter, iter_pos, iteration by reference and by value and of every line items taken one by one, then every way of going on: nth, skip, step_by, take, find, fold, count, last..., up to and beyond the end, and then the rest",
        1,
        move |_, c| {
            let m: Vec<u32> = (0..S as u32).map(|i| i * 7 + 3).collect();
            let g = build::<u32, P, S>(&m);
            iter::forward(&|| g.iter().copied(), &m, &|| format!("iter of {S} items"), c)?;
            iter::forward(&|| g.iter_pos().map(|(p, v)| (p, *v)), &q.p.iter().copied().zip(m.iter().copied()).collect::<Vec<_>>(), &|| format!("iter_pos of {S} items"), c)?;
            iter::forward(&|| (&*g).into_iter().copied(), &m, &|| format!("iteration by reference of {S} items"), c)?;
            iter::forward(&|| (*g).clone().into_iter(), &m, &|| format!("iteration by value of {S} items"), c)?;
            for y in 0..q.h {
                iter::forward(&|| g.line(q.ytype(y)).iter().copied(), &m[y * q.w..(y + 1) * q.w], &|| format!("line {y}"), c)?;
            }
            Ok(())
        },
    );
}

fn dim_small<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    let name = format!("{}x{}", X as u32 + 1, Y as u32 + 1);
    labelled::<u32, Pos<X, Y>, S>(k, &name);
    owned::<Pos<X, Y>, S>(k, &name);
    creation::<Pos<X, Y>, S>(k, &name);
}

fn dim_mid<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    let name = format!("{}x{}", X as u32 + 1, Y as u32 + 1);
    labelled::<u32, Pos<X, Y>, S>(k, &name);
    creation::<Pos<X, Y>, S>(k, &name);
}

fn main() {
    let mut k = Check::new(
        "C10",
        "complete grid contents after a write, read in every way and compared with an array",
        "calls of a reading or writing path of the real grid, each compared with the array model",
    );
    let deep = k.thorough();
    macro_rules! contents {
        ($($base:literal: $($x:literal $y:literal),+;)*) => { $( $( {
            const S: usize = ($x + 1) * ($y + 1);
            all_contents::<u8, Pos<$x, $y>, S>(&mut k, &format!("{}x{} {} values", $x + 1, $y + 1, $base), $base);
        } )+ )* }
    }
    contents! {
        4: 0 0, 1 0, 0 1, 2 0, 0 2, 1 1;
        2: 3 0, 0 3, 2 1, 1 2, 4 0, 0 4, 3 1, 1 3, 2 2;
    }
    if k.thorough() {
        contents! {
            3: 2 1, 1 2, 5 0, 0 5, 6 0, 0 6, 3 1, 1 3;
            2: 4 1, 1 4, 9 0, 0 9, 3 2, 2 3;
        }
    }
    all_contents::<bool, Pos<2, 1>, 6>(&mut k, "3x2 booleans", 2);
    all_contents::<(u16, Option<Dir>), Pos<1, 1>, 4>(&mut k, "2x2 pairs with directions", 3);
    histories::<Pos<1, 0>, 2>(&mut k, "2x1", if deep { 3 } else { 2 });
    histories::<Pos<0, 1>, 2>(&mut k, "1x2", if deep { 3 } else { 2 });
    histories::<Pos<1, 1>, 4>(&mut k, "2x2", if deep { 3 } else { 2 });
    histories::<Pos<2, 1>, 6>(&mut k, "3x2", 2);
    histories::<Pos<1, 2>, 6>(&mut k, "2x3", 2);
    bulk::<Pos<1, 1>, 4>(&mut k, "2x2", if deep { 5 } else { 4 });
    bulk::<Pos<2, 1>, 6>(&mut k, "3x2", if deep { 4 } else { 3 });
    bulk::<Pos<0, 2>, 3>(&mut k, "1x3", if deep { 6 } else { 4 });
    bulk::<Mix26, 12>(&mut k, "Mix26", 2);
    dims_small!(each_dim, dim_small(&mut k));
    dims_mid!(each_dim, dim_mid(&mut k));
    dims_large!(each_dim, dim_mid(&mut k));
    macro_rules! user {
        ($($p:ident $s:literal)*) => { $(
            labelled::<u32, $p, $s>(&mut k, stringify!($p));
            creation::<$p, $s>(&mut k, stringify!($p));
        )* }
    }
    user!(Mix53 15 Mix26 12 Byte3 768 Three256 768 Sq44 16);
    owned::<Mix53, 15>(&mut k, "Mix53");
    owned::<Mix26, 12>(&mut k, "Mix26");
    mixed::<Pos<0, 0>, 1>(&mut k, "1x1");
    mixed::<Pos<3, 2>, 12>(&mut k, "4x3");
    mixed::<Pos<1, 6>, 14>(&mut k, "2x7");
    mixed::<Pos<5, 5>, 36>(&mut k, "6x6");
    mixed::<Mix53, 15>(&mut k, "Mix53");
    k.assume("cells of a type without interior mutability; grids exist only for position types that start at zero (others have no linear index)");
    k.run()
}
