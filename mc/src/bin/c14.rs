//! C14: grids compare by content, whatever history produced them.
use mc::gb::*;
use mc::model::*;
use mc::*;
use sqrid::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

trait Po: Pp + Ord + Hash {}
impl<P: Pp + Ord + Hash> Po for P {}

/// Two independent hashers: the standard one, and one that records what it is fed.
#[derive(Default)]
struct Record(Vec<u8>);
impl Hasher for Record {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend(b);
        self.0.push(0xAA);
    }
}

fn hashes<T: Hash>(t: &T) -> (u64, Vec<u8>) {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    let mut r = Record::default();
    t.hash(&mut r);
    (h.finish(), r.0)
}

/// Everything there is to say about two objects of known contents.
fn judge<G: Ord + Hash + Debug + Clone, T: Ord>(a: &G, ma: &[T], b: &G, mb: &[T], what: &dyn Fn() -> String, c: &mut Ctx) -> Res {
    c.step();
    let want = ma.cmp(mb);
    let eq = want == Ordering::Equal;
    if (a == b) != eq || (a != b) == eq {
        bad!("{}: == gives {}, contents are {}", what(), a == b, if eq { "equal" } else { "different" });
    }
    let got = a.cmp(b);
    if got != want {
        bad!("{}: compared as {got:?}, contents are {want:?}", what());
    }
    if a.partial_cmp(b) != Some(want) || (a < b) != want.is_lt() || (a <= b) != want.is_le() || (a > b) != want.is_gt() || (a >= b) != want.is_ge() {
        bad!("{}: partial comparison differs from {want:?}", what());
    }
    if eq && hashes(a) != hashes(b) {
        bad!("{}: equal, but hash differently", what());
    }
    // Overwritten by a copy of the other
    let mut x = a.clone();
    if x != *a || x.cmp(b) != want {
        bad!("{}: a copy of the first differs from it", what());
    }
    x.clone_from(b);
    if x != *b || *b != x || x.cmp(b) != Ordering::Equal || a.cmp(&x) != want || hashes(&x) != hashes(b) {
        bad!("{}: the first, overwritten by a copy of the second, differs from the second", what());
    }
    x.clone_from(a);
    if x != *a || x.cmp(b) != want || hashes(&x) != hashes(a) {
        bad!("{}: the second, overwritten by a copy of the first, differs from the first", what());
    }
    // The provided methods of the order
    let (hi, lo) = (a.clone().max(b.clone()), a.clone().min(b.clone()));
    let (whi, wlo) = if want.is_lt() { (b, a) } else { (a, b) };
    if hi != *whi || lo != *wlo || x.clamp(lo, hi) != *a {
        bad!("{}: max, min or clamp disagree with the order {want:?}", what());
    }
    let (mut h1, mut h2) = (Record::default(), Record::default());
    Hash::hash_slice(std::slice::from_ref(a), &mut h1);
    Hash::hash_slice(std::slice::from_ref(b), &mut h2);
    if eq && h1.0 != h2.0 {
        bad!("{}: equal, but hash differently as slices", what());
    }
    Ok(())
}

type Op<G> = fn(&mut G);

fn target(op: usize, w: usize, h: usize, i: usize) -> usize {
    let (x, y) = (i % w, i / w);
    let (nx, ny) = match op {
        0 => (w - 1 - x, y),
        1 => (x, h - 1 - y),
        2 => (w - 1 - y, x),
        _ => (y, w - 1 - x),
    };
    ny * w + nx
}

fn moved<T: Clone>(op: usize, w: usize, h: usize, m: &[T]) -> Vec<T> {
    let mut r = m.to_vec();
    for i in 0..m.len() {
        r[target(op, w, h, i)] = m[i].clone();
    }
    r
}

fn bflips<P: Pp, const W: usize>() -> Vec<(usize, Op<Gridbool<P, W>>)> {
    vec![(0, Gridbool::flip_h), (1, Gridbool::flip_v)]
}

fn ball<const X: u16, const W: usize>() -> Vec<(usize, Op<Gridbool<Pos<X, X>, W>>)> {
    let mut v = bflips();
    v.push((2, Gridbool::<Pos<X, X>, W>::rotate_cw));
    v.push((3, Gridbool::<Pos<X, X>, W>::rotate_cc));
    v
}

/// All histories, merged by representation: every representation reached with
/// some content must be equal to every other one with that content.
fn reach<P: Po, const W: usize>(k: &mut Check, name: &str, ops: Vec<(usize, Op<Gridbool<P, W>>)>) {
    let q = Sq::<P>::new();
    let n = q.n();
    k.fam(
        format!("boolean histories {name}"),
        format!("all representations reachable by all ways of creation, writing, flipping{}; all pairs of the up to 2^{n} contents", if ops.len() > 2 { " and rotating" } else { "" }),
        1,
        move |_, c| {
            let mut seen: BTreeMap<Vec<bool>, Vec<(Gridbool<P, W>, String)>> = BTreeMap::new();
            let mut todo: Vec<(Gridbool<P, W>, Vec<bool>, String)> = vec![
                (Gridbool::ALL_TRUE, vec![true; n], "ALL_TRUE".into()),
                (Gridbool::ALL_FALSE, vec![false; n], "ALL_FALSE".into()),
                (Gridbool::default(), vec![false; n], "default".into()),
                (Gridbool::repeat(true), vec![true; n], "repeat(true)".into()),
                (Gridbool::repeat(false), vec![false; n], "repeat(false)".into()),
                ((0..n).map(|_| true).collect(), vec![true; n], "booleans".into()),
                (q.p.iter().copied().collect(), vec![true; n], "positions".into()),
            ];
            while let Some((g, m, how)) = todo.pop() {
                let e = seen.entry(m.clone()).or_default();
                let mut new = true;
                for (o, oh) in e.iter() {
                    judge(&g, &m, o, &m, &|| format!("{} made by {how} and by {oh}", show(&m)), c)?;
                    new &= o.as_inner() != g.as_inner();
                }
                if !new {
                    continue;
                }
                c.state();
                e.push((g, how.clone()));
                let how = |s: String| if how.len() > 150 { format!("... {s}") } else { format!("{how}, {s}") };
                for i in 0..n {
                    for v in [false, true] {
                        for way in [0, 3, 7] {
                            let mut g2 = g;
                            let w = write(&mut g2, way, q.p[i], v);
                            let mut m2 = m.clone();
                            m2[i] = v;
                            todo.push((g2, m2, how(format!("{v} at {i} by {w}"))));
                        }
                    }
                }
                for (op, f) in &ops {
                    let mut g2 = g;
                    f(&mut g2);
                    todo.push((g2, moved(*op, q.w, q.h, &m), how(format!("transformation {op}"))));
                }
                todo.push((g.iter().collect(), m.clone(), how("collected again as booleans".into())));
                todo.push((g.iter_t().collect(), m.clone(), how("collected again as positions".into())));
                let mut g2 = g;
                g2.set_iter_t(q.p.iter().copied());
                todo.push((g2, vec![true; n], how("everything set".into())));
                g2.set_iter_f(q.p.iter().copied());
                todo.push((g2, vec![false; n], how("everything cleared".into())));
            }
            same!(seen.len() as u64, 1u64 << n, "contents reached");
            c.note(|| format!("{} contents", seen.len()));
            // All pairs, in order
            let all: Vec<(&Vec<bool>, &Gridbool<P, W>)> = seen.iter().flat_map(|(m, v)| v.iter().map(move |g| (m, &g.0))).collect();
            for (ma, a) in &all {
                for (mb, b) in &all {
                    judge(*a, ma, *b, mb, &|| format!("{} and {}", show(ma), show(mb)), c)?;
                }
                c.outcome(ma);
            }
            Ok(())
        },
    );
}

/// The same content made in many ways, for any size.
fn made<P: Po, const W: usize>(m: &[bool], q: &Sq<P>, ops: &[(usize, Op<Gridbool<P, W>>)]) -> Vec<(&'static str, Gridbool<P, W>)> {
    let n = m.len();
    let t = || (0..n).filter(|i| m[*i]).map(|i| q.p[i]);
    let f = || (0..n).filter(|i| !m[*i]).map(|i| q.p[i]);
    let mut v: Vec<(&'static str, Gridbool<P, W>)> = vec![];
    v.push(("collecting booleans", m.iter().copied().collect()));
    v.push(("collecting positions", t().collect()));
    let mut g = Gridbool::ALL_FALSE;
    g.set_iter_t(t());
    v.push(("setting from ALL_FALSE", g));
    let mut g = Gridbool::ALL_TRUE;
    g.set_iter_f(f());
    v.push(("clearing from ALL_TRUE", g));
    let mut g = Gridbool::repeat(true);
    for i in 0..n {
        g.set(&q.p[i], m[i]);
    }
    v.push(("setting everything from repeat(true)", g));
    let mut g = Gridbool::repeat(true);
    g.set_iter_f(q.p.iter().copied());
    for p in t() {
        SetPos::<P, W, 0>::insert(&mut g, p);
    }
    v.push(("clearing repeat(true), then inserting", g));
    for (op, f) in ops {
        // content such that transforming gives m
        let back = match op {
            2 => 3,
            3 => 2,
            o => *o,
        };
        let src = moved(back, q.w, q.h, m);
        let mut g = Gridbool::ALL_TRUE;
        for i in 0..n {
            if !src[i] {
                g.set_f(&q.p[i]);
            }
        }
        f(&mut g);
        v.push((["flip_h", "flip_v", "rotate_cw", "rotate_cc"][*op], g));
    }
    v
}

fn contents(n: usize, i: u64, cells: &[usize]) -> Vec<bool> {
    let nc = cells.len() as u64;
    match i {
        0 => vec![false; n],
        1 => vec![true; n],
        2 => (0..n).map(|j| j % 2 == 0).collect(),
        _ => {
            let (kind, a) = ((i - 3) / nc, cells[((i - 3) % nc) as usize]);
            (0..n).map(|j| if kind == 0 { j == a } else { j != a }).collect()
        }
    }
}

fn cells(n: usize, w: usize) -> Vec<usize> {
    if n <= 140 {
        return (0..n).collect();
    }
    let mut v = vec![0, 1, 30, 31, 32, 33, 63, 64, w - 1, w, n / 2, 65535, 65536, n - 65, n - 64, n - 34, n - 33, n - 32, n - 31, n - 2, n - 1, n / 32 * 32, n / 32 * 32 - 1];
    v.retain(|i| *i < n);
    v.sort();
    v.dedup();
    v
}

/// Many ways to the same content, and the order of neighbouring contents.
fn ways<P: Po, const W: usize>(k: &mut Check, name: &str, ops: Vec<(usize, Op<Gridbool<P, W>>)>) {
    let q = Sq::<P>::new();
    let n = q.n();
    let cs = cells(n, q.w);
    let total = 3 + 2 * cs.len() as u64;
    k.fam(
        format!("boolean ways {name}"),
        format!("{n} squares: all false, all true, alternating, each of {} squares alone and all but each; made in {} ways, all pairs of ways; ordered against every other of these contents", cs.len(), 6 + ops.len()),
        total,
        move |i, c| {
            let m = contents(n, i, &cs);
            c.note(|| show(&m));
            c.outcome(&m);
            let all = made(&m, &q, &ops);
            for (na, a) in &all {
                c.state();
                for (nb, b) in &all {
                    judge(a, &m, b, &m, &|| format!("{} made by {na} and by {nb}", show(&m)), c)?;
                }
            }
            let others: Vec<u64> = if n <= 2000 { (0..total).collect() } else { vec![0, 1, 2, 3, 4, total - 2, total - 1, (i + 1) % total] };
            let nw = all.len();
            for j in others {
                let m2 = contents(n, j, &cs);
                let (na, a) = &all[(i as usize + j as usize) % nw];
                let b: Gridbool<P, W> = match j % 2 {
                    0 => m2.iter().copied().collect(),
                    _ => {
                        let mut g = Gridbool::ALL_TRUE;
                        g.set_iter_f((0..n).filter(|i| !m2[*i]).map(|i| q.p[i]));
                        g
                    }
                };
                judge(a, &m, &b, &m2, &|| format!("{} made by {na}, and {}", show(&m), show(&m2)), c)?;
                judge(&b, &m2, a, &m, &|| format!("{}, and {} made by {na}", show(&m2), show(&m)), c)?;
            }
            Ok(())
        },
    );
}

trait Item: Clone + Ord + Hash + Debug + Default + Send + Sync + 'static {
    fn of(i: usize) -> Self;
}
impl Item for u8 {
    fn of(i: usize) -> u8 {
        i as u8
    }
}
impl Item for i16 {
    fn of(i: usize) -> i16 {
        (i as i16) * 300 - 300
    }
}
impl Item for String {
    fn of(i: usize) -> String {
        ["b", "", "ab"][i % 3].to_string()
    }
}
impl Item for Option<Dir> {
    fn of(i: usize) -> Option<Dir> {
        [None, Some(Dir::N), Some(Dir::NW)][i % 3]
    }
}

/// Grids of values: all pairs of contents, each made in several ways.
fn grids<T: Item, P: Po, const S: usize>(k: &mut Check, name: &str, base: u64) {
    let q = Sq::<P>::new();
    k.fam(
        format!("grids {name}"),
        format!("all pairs of the {base}^{S} contents, each made in 8 ways"),
        base.pow(S as u32),
        move |i, c| {
            let content = |i: u64| -> Vec<T> { digs(i, base, S).into_iter().map(|d| T::of(d as usize)).collect() };
            let m = content(i);
            c.note(|| format!("{m:?}"));
            c.outcome(&m);
            let mk = |m: &[T], way: usize| -> Grid<T, P, S> {
                let mut g = Grid::<T, P, S>::default();
                match way {
                    0 => g = m.iter().cloned().collect(),
                    1 => {
                        for i in 0..S {
                            g[q.p[i]] = m[i].clone();
                        }
                    }
                    2 => g.extend((0..S).rev().map(|i| (q.p[i], m[i].clone()))),
                    3 => g.extend_from_vecvec(m.chunks(q.w).map(|r| r.to_vec()).collect()).unwrap(),
                    4 => g = Grid::try_from(m.chunks(q.w).map(|r| r.to_vec()).collect::<Vec<_>>()).unwrap(),
                    5 => {
                        g = moved(0, q.w, q.h, m).into_iter().collect();
                        g.flip_h();
                    }
                    6 => {
                        g = moved(1, q.w, q.h, m).into_iter().collect();
                        g.flip_v();
                    }
                    _ => {
                        // Something else first
                        g = (0..S).map(T::of).collect();
                        g.iter_mut().zip(m).for_each(|(a, b)| *a = b.clone());
                    }
                }
                g
            };
            let all: Vec<Grid<T, P, S>> = (0..8).map(|w| mk(&m, w)).collect();
            for (wa, a) in all.iter().enumerate() {
                c.state();
                for (wb, b) in all.iter().enumerate() {
                    judge(a, &m, b, &m, &|| format!("{m:?} made in ways {wa} and {wb}"), c)?;
                }
            }
            for j in 0..base.pow(S as u32) {
                let m2 = content(j);
                judge(&all[j as usize % 8], &m, &mk(&m2, (i + j) as usize % 8), &m2, &|| format!("{m:?} and {m2:?}"), c)?;
            }
            Ok(())
        },
    );
}

/// Larger grids of values that differ in up to two squares.
fn grids_large<P: Po, const S: usize>(k: &mut Check, name: &str) {
    let q = Sq::<P>::new();
    let cs = cells(S, q.w);
    let n = cs.len() as u64;
    k.fam(
        format!("grids {name}"),
        format!("{S} squares; every pair of deviations of +1 or -1 in one of {n} squares each"),
        n,
        move |i, c| {
            let m0: Vec<i32> = (0..S as i32).map(|v| v % 7 * 1000).collect();
            let g0: Grid<i32, P, S> = m0.iter().collect();
            for j in &cs {
                for d in [(-1, -1), (-1, 1), (1, -1), (1, 1), (0, 1), (0, -1)] {
                    let (mut a, mut ma, mut b, mut mb) = (g0, m0.clone(), g0, m0.clone());
                    let p = cs[i as usize];
                    a[q.p[p]] += d.0;
                    ma[p] += d.0;
                    b[q.p[*j]] += d.1;
                    mb[*j] += d.1;
                    c.state();
                    judge(&a, &ma, &b, &mb, &|| format!("square {p} {:+} and square {j} {:+}", d.0, d.1), c)?;
                }
            }
            Ok(())
        },
    );
}

fn dim<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    ways::<Pos<X, Y>, W>(k, &format!("{}x{}", X as u32 + 1, Y as u32 + 1), bflips());
}

fn sdim<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    if S % 32 == 0 {
        ways::<Pos<X, Y>, W>(k, &format!("{}x{}, spare word", X as u32 + 1, Y as u32 + 1), bflips());
    }
}

fn square<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    sq::<X, W>(k, &format!("{}x{} with rotations", X as u32 + 1, X as u32 + 1));
}

fn sq<const X: u16, const W: usize>(k: &mut Check, name: &str) {
    ways::<Pos<X, X>, W>(k, name, ball());
}

fn main() {
    let mut k = Check::new("C14", "contents, each made by several histories", "pairs of objects compared in every way");
    macro_rules! reachable {
        ($f:ident; $($x:literal $y:literal),+) => { $( {
            const S: usize = ($x + 1) * ($y + 1);
            reach::<Pos<$x, $y>, { (S + 31) / 32 }>(&mut k, &format!("{}x{}", $x + 1, $y + 1), $f());
        } )+ }
    }
    reachable!(ball; 0 0, 1 1, 2 2);
    reachable!(bflips; 1 0, 0 1, 2 0, 0 2, 2 1, 1 2, 3 1, 1 3, 7 0, 0 7, 4 0, 0 4);
    if k.thorough() {
        reachable!(bflips; 4 1, 1 4, 10 0, 0 10);
    }
    dims_small!(each_dim, dim(&mut k));
    dims_mid!(each_dim, dim(&mut k));
    dims_mid!(each_sdim, sdim(&mut k));
    dims_square!(each_dim, square(&mut k));
    sq::<7, 3>(&mut k, "8x8 with rotations, spare word");
    each_dim! { dim(&mut k); (255, 255) (32767, 0) (32768, 1) (65534, 0) (65535, 0) (0, 65535) (300, 217) }
    macro_rules! vals {
        ($t:ty; $base:literal; $($x:literal $y:literal),+) => { $( {
            const S: usize = ($x + 1) * ($y + 1);
            grids::<$t, Pos<$x, $y>, S>(&mut k, &format!("{}x{} of {}", $x + 1, $y + 1, stringify!($t)), $base);
        } )+ }
    }
    vals!(u8; 3; 0 0, 1 0, 0 1, 1 1, 3 0, 0 3, 2 0, 4 0);
    vals!(u8; 2; 2 1, 1 2, 3 1);
    vals!(i16; 3; 1 1, 2 0, 0 2);
    vals!(String; 3; 1 1, 2 0);
    vals!(Option<Dir>; 3; 1 1, 0 2);
    if k.thorough() {
        vals!(i16; 2; 2 2, 4 1);
    }
    macro_rules! big {
        ($($x:literal $y:literal),+) => { $( grids_large::<Pos<$x, $y>, { ($x + 1) * ($y + 1) }>(&mut k, &format!("{}x{}", $x + 1, $y + 1)); )+ }
    }
    big!(5 5, 7 3, 9 9, 31 2, 99 2, 255 2, 2 255);
    macro_rules! user {
        ($($p:ident $w:literal)*) => { $( ways::<$p, $w>(&mut k, stringify!($p), bflips()); )* }
    }
    user!(Mix53 1 Mix26 1 Byte3 24 Three256 24 Sq44 1);
    k.assume("as_inner_mut is used only on the bits that stand for squares");
    k.assume("items whose own comparison is a total order");
    k.run()
}
