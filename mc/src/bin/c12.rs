//! C12: flipping or rotating a grid moves every cell to the transformed position.
use mc::model::*;
use mc::*;
use sqrid::*;
use std::collections::BTreeMap;
use std::fmt::Debug;

trait Pp: PosT + Copy + PartialEq + Debug + Send + Sync + 'static {}
impl<P: PosT + Copy + PartialEq + Debug + Send + Sync + 'static> Pp for P {}

fn wh<P: Pp>() -> (usize, usize) {
    let (_, x1, _, y1) = bounds::<P>();
    (x1 as usize + 1, y1 as usize + 1)
}

fn at<P: Pp>(i: usize) -> P {
    let (w, _) = wh::<P>();
    mk::<P>((i % w) as i128, (i / w) as i128)
}

const OPS: [&str; 4] = ["flip_h", "flip_v", "rotate_cw", "rotate_cc"];

/// Where the content of square `i` has to go.
fn target(op: usize, w: usize, h: usize, i: usize) -> usize {
    let (x, y) = (i % w, i / w);
    let (nx, ny) = match op {
        0 => (w - 1 - x, y),
        1 => (x, h - 1 - y),
        2 => (w - 1 - y, x),
        _ => (y, w - 1 - x),
    };
    ny * w + nx
}

fn moved<T: Clone>(op: usize, w: usize, h: usize, m: &[T]) -> Vec<T> {
    let mut r = m.to_vec();
    for i in 0..m.len() {
        r[target(op, w, h, i)] = m[i].clone();
    }
    r
}

/// A grid with its transformations as functions, so that square and other
/// grids are treated alike.
type Op<G> = fn(&mut G);

/// Also the positions themselves must follow the map (they do, by C05); this
/// relates the moved contents to the real transformations of positions.
fn same_as_positions<P: Pp>(op: usize, i: usize) -> Res {
    let (w, h) = wh::<P>();
    let p = at::<P>(i);
    let q = match op {
        0 => p.flip_h(),
        1 => p.flip_v(),
        _ => return Ok(()),
    };
    same!(q, at::<P>(target(op, w, h, i)), "{} of {p:?}", OPS[op]);
    Ok(())
}

/// Explore everything reachable from distinct contents by the transformations.
fn closure<T: Clone + PartialEq + Debug + Ord + Send + Sync + 'static, P: Pp, const S: usize>(
    k: &mut Check,
    name: &str,
    what: &str,
    item: fn(usize) -> T,
    ops: Vec<(usize, Op<Grid<T, P, S>>)>,
) where
    T: Default,
{
    let (w, h) = wh::<P>();
    let nops = ops.len();
    k.fam(
        format!("grid {name} {what}"),
        format!("every content reachable from {S} distinct items by {nops} transformations, every transformation from each, every square"),
        1,
        move |_, c| {
            let m0: Vec<T> = (0..S).map(item).collect();
            let mut seen: BTreeMap<Vec<T>, ()> = BTreeMap::new();
            let mut todo = vec![(m0.clone(), Box::new(m0.iter().cloned().collect::<Grid<T, P, S>>()), vec![])];
            seen.insert(m0, ());
            while let Some((m, g, path)) = todo.pop() {
                c.state();
                for (op, f) in &ops {
                    let mut g2 = g.clone();
                    f(&mut g2);
                    let m2 = moved(*op, w, h, &m);
                    c.steps += S as u64;
                    if let Some(i) = (0..S).find(|&i| g2.as_array()[i] != m2[i]) {
                        bad!("{} after {path:?}: square {:?} holds {:?}, expected {:?}", OPS[*op], at::<P>(i), g2.as_array()[i], m2[i]);
                    }
                    let few: Vec<usize> = if S <= 1200 { (0..S).collect() } else { vec![0, 1, w - 1, S / 2, S - 1] };
                    for i in few {
                        same!(g2.get(&at::<P>(i)), &m2[i], "{} after {path:?}: square {:?}", OPS[*op], at::<P>(i));
                        same_as_positions::<P>(*op, i)?;
                    }
                    if !seen.contains_key(&m2) {
                        let mut p = path.clone();
                        p.push(OPS[*op]);
                        seen.insert(m2.clone(), ());
                        todo.push((m2, g2, p));
                    }
                }
            }
            c.note(|| format!("{} contents reached", seen.len()));
            c.outcome(&seen.len());
            // the transformations generate a group of at most 8 elements
            if seen.len() > 8 {
                bad!("{} contents reached, at most 8 expected", seen.len());
            }
            Ok(())
        },
    );
}

/// Boolean grids: contents given as a function of (case, square).
fn boolean<P: Pp, const W: usize>(
    k: &mut Check,
    name: &str,
    bounds: String,
    s: usize,
    n: u64,
    content: impl Fn(u64, usize) -> bool + Send + Sync + 'static,
    ops: Vec<(usize, Op<Gridbool<P, W>>)>,
) {
    let (w, h) = wh::<P>();
    let maps: Vec<Vec<usize>> = (0..4).map(|op| if op < 2 || w == h { (0..s).map(|i| target(op, w, h, i)).collect() } else { vec![] }).collect();
    let p: Vec<P> = (0..s).map(at::<P>).collect();
    k.fam(
        format!("boolean grid {name}"),
        format!("{bounds}; every transformation, and every pair of them"),
        n,
        move |i, c| {
            let m: Vec<bool> = (0..s).map(|j| content(i, j)).collect();
            let mut g = Gridbool::<P, W>::ALL_FALSE;
            for j in 0..s {
                if m[j] {
                    g.set_t(&p[j]);
                }
            }
            c.note(|| format!("true squares {:?}", (0..s).filter(|j| m[*j]).take(20).collect::<Vec<_>>()));
            c.outcome(&m);
            for (op, f) in &ops {
                c.state();
                let mut g2 = g;
                f(&mut g2);
                for j in 0..s {
                    let t = maps[*op][j];
                    if g2.get(&p[t]) != m[j] {
                        bad!("{} of the boolean grid with {} true squares: square {:?} is {}, {:?} was {}", OPS[*op], m.iter().filter(|b| **b).count(), p[t], !m[j], p[j], m[j]);
                    }
                }
                for (op2, f2) in &ops {
                    let mut g3 = g2;
                    f2(&mut g3);
                    for j in 0..s {
                        let t = maps[*op2][maps[*op][j]];
                        if g3.get(&p[t]) != m[j] {
                            bad!("{} then {}: square {:?} is {}, {:?} was {}", OPS[*op], OPS[*op2], p[t], !m[j], p[j], m[j]);
                        }
                    }
                    // inverses
                    if (*op < 2 && op == op2 || *op >= 2 && *op + *op2 == 5) && g3 != g {
                        bad!("{} then {} does not restore the boolean grid", OPS[*op], OPS[*op2]);
                    }
                }
                if *op >= 2 {
                    let mut g4 = g;
                    for _ in 0..4 {
                        f(&mut g4);
                    }
                    if g4 != g {
                        bad!("four times {} does not restore the boolean grid", OPS[*op]);
                    }
                }
                c.steps += s as u64 * (1 + ops.len() as u64);
            }
            Ok(())
        },
    );
}

fn gflips<T, P: Pp, const S: usize>() -> Vec<(usize, Op<Grid<T, P, S>>)> {
    vec![(0, Grid::flip_h), (1, Grid::flip_v)]
}

fn bflips<P: Pp, const W: usize>() -> Vec<(usize, Op<Gridbool<P, W>>)> {
    vec![(0, Gridbool::flip_h), (1, Gridbool::flip_v)]
}

fn gall<T, const X: u16, const S: usize>() -> Vec<(usize, Op<Grid<T, Pos<X, X>, S>>)> {
    let mut v = gflips();
    v.push((2, Grid::<T, Pos<X, X>, S>::rotate_cw));
    v.push((3, Grid::<T, Pos<X, X>, S>::rotate_cc));
    v
}

fn ball<const X: u16, const W: usize>() -> Vec<(usize, Op<Gridbool<Pos<X, X>, W>>)> {
    let mut v = bflips();
    v.push((2, Gridbool::<Pos<X, X>, W>::rotate_cw));
    v.push((3, Gridbool::<Pos<X, X>, W>::rotate_cc));
    v
}

fn name(x: u16, y: u16) -> String {
    format!("{}x{}", x as u32 + 1, y as u32 + 1)
}

/// Enough contents to determine where every square goes: the bits of the
/// square numbers and their complements; for smaller grids also every square
/// alone and all but each.
fn planes<P: Pp, const W: usize>(k: &mut Check, nm: &str, s: usize, ops: Vec<(usize, Op<Gridbool<P, W>>)>) {
    let bits = (usize::BITS - (s - 1).leading_zeros()).max(1) as u64;
    let single = if s <= 150 { s as u64 } else { 0 };
    boolean::<P, W>(
        k,
        nm,
        format!("the {bits} bit planes of the square numbers and their complements{}", if single > 0 { ", every square alone, all but each" } else { "" }),
        s,
        2 * bits + 2 * single,
        move |i, j| {
            if i < 2 * bits {
                (j >> (i / 2) & 1 == 1) == (i % 2 == 0)
            } else {
                (j as u64 == (i - 2 * bits) / 2) == (i % 2 == 0)
            }
        },
        ops,
    );
}

fn flips<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    let nm = name(X, Y);
    closure::<u32, Pos<X, Y>, S>(k, &format!("{nm} flips"), "of numbers", |i| i as u32 * 7 + 1, gflips());
    planes::<Pos<X, Y>, W>(k, &format!("{nm} flips"), S, bflips());
}

/// Boolean grids with the number of words sqrid_create! computes.
fn flips_words<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    if (X as usize + 1) * (Y as usize + 1) % 32 == 0 {
        planes::<Pos<X, Y>, W>(k, &format!("{} flips, spare word", name(X, Y)), S, bflips());
    }
}

fn square<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check)
where
    [(); 0]: Sized,
{
    let nm = name(X, Y);
    sq::<X, W, S>(k, &nm);
}

fn sq<const X: u16, const W: usize, const S: usize>(k: &mut Check, nm: &str) {
    closure::<u32, Pos<X, X>, S>(k, nm, "of numbers", |i| i as u32 * 7 + 1, gall());
    if S <= 1100 {
        closure::<String, Pos<X, X>, S>(k, nm, "of strings", |i| format!("{i}"), gall());
        closure::<(bool, u64), Pos<X, X>, S>(k, nm, "of pairs", |i| (i % 2 == 0, i as u64 / 2), gall());
    }
    planes::<Pos<X, X>, W>(k, nm, S, ball());
}

fn main() {
    let mut k = Check::new(
        "C12",
        "grid contents to which every transformation is applied",
        "squares whose content is compared with that of the square it has to come from",
    );
    dims_small!(each_dim, flips(&mut k));
    dims_mid!(each_dim, flips(&mut k));
    dims_mid!(each_sdim, flips_words(&mut k));
    dims_square!(each_dim, square(&mut k));
    sq::<7, 3, 64>(&mut k, "8x8, spare word");
    sq::<31, 33, 1024>(&mut k, "32x32, spare word");
    large(&mut k);
    macro_rules! contents {
        ($f:ident; $($x:literal $y:literal),+) => { $( {
            const S: usize = ($x + 1) * ($y + 1);
            boolean::<Pos<$x, $y>, { (S + 31) / 32 }>(&mut k, &format!("{} all contents", name($x, $y)), format!("all 2^{S} contents"), S, 1 << S, |i, j| i >> j & 1 == 1, $f());
        } )+ }
    }
    contents!(ball; 0 0, 1 1, 2 2);
    contents!(bflips; 1 0, 2 0, 3 0, 4 0, 0 1, 0 2, 0 3, 0 4, 2 1, 1 2, 3 1, 1 3, 4 1, 1 4, 5 1, 1 5, 3 2, 2 3);
    if k.thorough() {
        contents!(ball; 3 3);
        contents!(bflips; 4 2, 2 4, 4 3, 3 4);
    }
    macro_rules! user {
        ($($p:ident $w:literal $s:literal)*) => { $(
            closure::<u32, $p, $s>(&mut k, stringify!($p), "of numbers", |i| i as u32 * 7 + 1, gflips());
            planes::<$p, $w>(&mut k, stringify!($p), $s, bflips());
        )* }
    }
    user!(Mix53 1 15 Mix26 1 12 Byte3 24 768 Three256 24 768 Sq44 1 16);
    k.assume("the bit planes of the square numbers determine where each square's boolean goes if a transformation treats squares independently of the content; for the smallest grids every content is explored");
    k.run()
}

fn large(k: &mut Check) {
    dims_square_large!(each_dim, square(k));
    each_dim! { flips(k);
        (255, 255) (256, 255) (300, 217) (32767, 0) (0, 32767) (32768, 1) (1, 32768)
        (65534, 0) (0, 65534) (65535, 0) (0, 65535) (65535, 1) (1, 65535) }
}
