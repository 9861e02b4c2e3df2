//! C06: the direction from one square to another leads there by the shortest way.
//!
//! That every walk takes the minimum number of steps follows by induction from
//! a statement about single steps, which is checked for every pair of squares:
//! the direction is none exactly at the destination, and otherwise the square
//! it leads to is inside and exactly one step closer.
use mc::model::*;
use mc::*;
use sqrid::{direction_to, Dir, Error, Pos, PosT};

type Lim = (i128, i128, i128, i128);
type Xy = (i128, i128);

fn dist(a: Xy, b: Xy, diag: bool) -> u128 {
    let (dx, dy) = ((a.0 - b.0).unsigned_abs(), (a.1 - b.1).unsigned_abs());
    if diag {
        dx.max(dy)
    } else {
        dx + dy
    }
}

fn pair<P: PosT, const D: bool>(a: Xy, b: Xy, l: Lim, c: &mut Ctx) -> Res
where
    P: std::ops::Add<Dir, Output = Result<P, Error>>,
{
    let (p, q) = (mk::<P>(a.0, a.1), mk::<P>(b.0, b.1));
    c.add(1, 2);
    let d = direction_to::<P, D>(&p, &q);
    let Some(d) = d else {
        if a != b {
            bad!("direction_to::<D={D}>({p:?}, {q:?}) is none");
        }
        return Ok(());
    };
    if a == b {
        bad!("direction_to::<D={D}>({p:?}, {q:?}) is {d:?}");
    }
    let o = off(d);
    if !D && o.0 != 0 && o.1 != 0 {
        bad!("direction_to::<D={D}>({p:?}, {q:?}) is {d:?}, a diagonal");
    }
    let n = (a.0 + o.0 as i128, a.1 + o.1 as i128);
    if n.0 < l.0 || n.0 > l.1 || n.1 < l.2 || n.1 > l.3 {
        bad!("direction_to::<D={D}>({p:?}, {q:?}) is {d:?}, which leaves the grid");
    }
    if dist(n, b, D) + 1 != dist(a, b, D) {
        bad!("direction_to::<D={D}>({p:?}, {q:?}) is {d:?}, which is not a step of a shortest way");
    }
    match p + d {
        Ok(r) if xy(&r) == n => Ok(()),
        r => bad!("{p:?} + {d:?} gave {r:?}"),
    }
}

fn both<P: PosT>(a: Xy, b: Xy, l: Lim, c: &mut Ctx) -> Res
where
    P: std::ops::Add<Dir, Output = Result<P, Error>>,
{
    pair::<P, true>(a, b, l, c)?;
    pair::<P, false>(a, b, l, c)
}

/// The whole walk, actually walked.
fn walk<P: PosT, const D: bool>(a: Xy, b: Xy, c: &mut Ctx) -> Res
where
    P: std::ops::Add<Dir, Output = Result<P, Error>>,
{
    let (mut p, q) = (mk::<P>(a.0, a.1), mk::<P>(b.0, b.1));
    let want = dist(a, b, D);
    let mut n = 0;
    while let Some(d) = direction_to::<P, D>(&p, &q) {
        p = match p + d {
            Ok(r) => r,
            Err(e) => bad!("walk D={D} from {a:?} to {b:?} leaves the grid at {p:?}: {e:?}"),
        };
        n += 1;
        c.step();
        if n > want {
            bad!("walk D={D} from {a:?} to {b:?} takes more than {want} steps");
        }
    }
    c.state();
    same!((p, n), (q, want), "walk D={D} from {a:?} to {b:?}: end and steps");
    Ok(())
}

fn all<P: PosT + 'static>(k: &mut Check, name: String)
where
    P: std::ops::Add<Dir, Output = Result<P, Error>>,
{
    let l = bounds::<P>();
    let n = (l.1 - l.0 + 1).saturating_mul(l.3 - l.2 + 1);
    let most = k.pick(600, 4500);
    if n <= most {
        let s: Vec<Xy> = (l.2..=l.3).flat_map(|y| (l.0..=l.1).map(move |x| (x, y))).collect();
        let walks = n <= k.pick(130, 600);
        k.fam(format!("pairs in {name}"), format!("all ordered pairs of {n} squares, with and without diagonals{}", if walks { ", walked to the end" } else { "" }), n as u64, move |i, c| {
            let a = s[i as usize];
            for &b in &s {
                both::<P>(a, b, l, c)?;
                if walks {
                    walk::<P, true>(a, b, c)?;
                    walk::<P, false>(a, b, c)?;
                }
            }
            c.note(|| format!("from {a:?}"));
            Ok(())
        });
    } else {
        // Every order type of two coordinates, at every distance near 0, powers of two and the extent
        let few = |lo: i128, hi: i128| -> Vec<i128> {
            let m = lo + (hi - lo) / 2;
            let v: std::collections::BTreeSet<i128> =
                [lo, lo + 1, lo + 2, m - 1, m, m + 1, hi - 2, hi - 1, hi, -256, -128, -2, -1, 0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 1 << 31, (1 << 31) + 1, 1 << 32]
                    .into_iter().filter(|a| lo <= *a && *a <= hi).collect();
            v.into_iter().collect()
        };
        let (xs, ys) = (few(l.0, l.1), few(l.2, l.3));
        let nx = xs.len();
        k.fam(format!("pairs in {name}"), format!("all pairs with x coordinates in {nx} and y coordinates in {} values next to the limits, the middle and the 8/16/32-bit boundaries", ys.len()), (nx * nx) as u64, move |i, c| {
            let (ax, bx) = (xs[i as usize % nx], xs[i as usize / nx]);
            for &ay in &ys {
                for &by in &ys {
                    both::<P>((ax, ay), (bx, by), l, c)?;
                }
            }
            Ok(())
        });
    }
}

fn fixed<const X: u16, const Y: u16>(k: &mut Check) {
    all::<Pos<X, Y>>(k, format!("Pos<{X},{Y}>"));
}

fn main() {
    let mut k = Check::new("C06", "ordered pairs of squares", "steps judged to be on a shortest way");
    dims_small!(each_xy, fixed(&mut k));
    each_xy! { fixed(&mut k);
        (6, 6) (8, 8) (10, 5) (19, 19) (23, 23) (31, 7) (7, 31) (99, 2) (2, 99) (255, 0) (0, 255) (256, 1) (1, 256)
        (60, 60) (255, 255) (300, 217) (32767, 3) (65535, 0) (0, 65535) (65535, 65535) }
    all::<(u8, u8)>(&mut k, "(u8,u8)".into());
    all::<(u16, u16)>(&mut k, "(u16,u16)".into());
    all::<(u32, u32)>(&mut k, "(u32,u32)".into());
    all::<(u64, u64)>(&mut k, "(u64,u64)".into());
    all::<(i8, i8)>(&mut k, "(i8,i8)".into());
    all::<(i16, i16)>(&mut k, "(i16,i16)".into());
    all::<(i32, i32)>(&mut k, "(i32,i32)".into());
    all::<Mix53>(&mut k, "user type 5x3".into());
    all::<Mix26>(&mut k, "user type 2x6".into());
    all::<Byte3>(&mut k, "user type 256x3".into());
    all::<Off4>(&mut k, "user type -2..1 x -2..1".into());
    all::<Off2>(&mut k, "user type 1..3 x -1..0".into());
    all::<Off3>(&mut k, "user type 65530..65535 x -32768..-32764".into());
    all::<OneCol>(&mut k, "user type 5 x 7..9".into());
    all::<OneSq>(&mut k, "user type 9 x -9".into());
    all::<Three256>(&mut k, "user type 3x256".into());
    all::<Off1>(&mut k, "user type -3..3 x 2..6".into());
    k.run()
}
