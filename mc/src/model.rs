//! Reference model: plain arithmetic on plain integers.

use sqrid::{BoundedI16, BoundedI32, BoundedInt, BoundedU16, BoundedU8, Dir, Error, PosT};

/// Offset of a direction (x grows to the east, y to the south).
pub fn off(d: Dir) -> (i64, i64) {
    match d {
        Dir::N => (0, -1),
        Dir::NE => (1, -1),
        Dir::E => (1, 0),
        Dir::SE => (1, 1),
        Dir::S => (0, 1),
        Dir::SW => (-1, 1),
        Dir::W => (-1, 0),
        Dir::NW => (-1, -1),
    }
}

pub const CARDINAL: [Dir; 4] = [Dir::N, Dir::E, Dir::S, Dir::W];
pub const COMPASS: [Dir; 8] = [Dir::N, Dir::NE, Dir::E, Dir::SE, Dir::S, Dir::SW, Dir::W, Dir::NW];

/// The directions a search may use.
pub fn dirs(diag: bool) -> &'static [Dir] {
    if diag {
        &COMPASS
    } else {
        &CARDINAL
    }
}

pub fn opposite(d: Dir) -> Dir {
    let (x, y) = off(d);
    *COMPASS.iter().find(|e| off(**e) == (-x, -y)).unwrap()
}

/// Index of the neighbour of square `i` of a `w`x`h` grid, if inside.
pub fn neigh(w: usize, h: usize, i: usize, d: Dir) -> Option<usize> {
    let (dx, dy) = off(d);
    let (x, y) = ((i % w) as i64 + dx, (i / w) as i64 + dy);
    if x < 0 || y < 0 || x >= w as i64 || y >= h as i64 {
        None
    } else {
        Some(y as usize * w + x as usize)
    }
}

/// Shortest distances in steps from `src`; `succ(i, f)` calls `f` with every successor.
pub fn distances(n: usize, src: usize, mut succ: impl FnMut(usize, &mut dyn FnMut(usize))) -> Vec<Option<usize>> {
    let mut d = vec![None; n];
    d[src] = Some(0);
    let mut q = std::collections::VecDeque::from([src]);
    while let Some(i) = q.pop_front() {
        let di: usize = d[i].unwrap();
        succ(i, &mut |j| {
            if d[j].is_none() {
                d[j] = Some(di + 1);
                q.push_back(j);
            }
        });
    }
    d
}

/// Lowest costs from `src`, by relaxing until nothing changes (Bellman-Ford).
pub fn costs(n: usize, src: usize, mut succ: impl FnMut(usize, &mut dyn FnMut(usize, u128))) -> Vec<Option<u128>> {
    let mut d: Vec<Option<u128>> = vec![None; n];
    d[src] = Some(0);
    loop {
        let mut changed = false;
        for i in 0..n {
            let Some(di) = d[i] else { continue };
            succ(i, &mut |j, c| {
                let nc = di + c;
                if d[j].map_or(true, |o| nc < o) {
                    d[j] = Some(nc);
                    changed = true;
                }
            });
        }
        if !changed {
            return d;
        }
    }
}

/// Values of interest of any integer type: around zero, the powers of two, the
/// limits of all types, and around the given values.
pub fn interesting(around: &[i128], near: i128) -> Vec<i128> {
    let mut v = std::collections::BTreeSet::new();
    let mut put = |c: i128| {
        for d in -near..=near {
            if let Some(x) = c.checked_add(d) {
                v.insert(x);
            }
        }
    };
    put(0);
    for k in 0..127 {
        put(1i128 << k);
        put(-(1i128 << k));
    }
    put(i128::MAX);
    put(i128::MIN);
    for &a in around {
        put(a);
        // the same value modulo the size of each type
        for k in [8, 16, 32, 64] {
            put(a.saturating_add(1i128 << k));
            put(a.saturating_sub(1i128 << k));
            put((1i128 << k).saturating_sub(a));
        }
        put(a.saturating_neg());
    }
    v.into_iter().collect()
}

/* ------------------------------------------------- user-defined positions */

/// A coordinate converted to i128
pub fn num<B: BoundedInt>(b: B) -> i128 {
    match b.try_into() {
        Ok(u) => u as i128,
        // Negative, or too big for usize
        Err(_) => b.to_string().parse().unwrap(),
    }
}

/// Define a position type as a user would.
#[macro_export]
macro_rules! user_pos {
    ($(#[$m:meta])* $name:ident, $xt:ty, $yt:ty, $w:expr, $h:expr, both) => {
        $crate::user_pos!(@base $name, $xt, $yt);
        impl PosT for $name {
            type Xtype = $xt;
            type Ytype = $yt;
            const WIDTH: usize = $w;
            const HEIGHT: usize = $h;
            fn new_(xy: ($xt, $yt)) -> Self { $name(xy.0, xy.1) }
            fn x(&self) -> $xt { self.0 }
            fn y(&self) -> $yt { self.1 }
        }
    };
    ($(#[$m:meta])* $name:ident, $xt:ty, $yt:ty, $w:expr, $h:expr, tuple) => {
        $crate::user_pos!(@base $name, $xt, $yt);
        impl PosT for $name {
            type Xtype = $xt;
            type Ytype = $yt;
            const WIDTH: usize = $w;
            const HEIGHT: usize = $h;
            fn new_(xy: ($xt, $yt)) -> Self { $name(xy.0, xy.1) }
            fn tuple(&self) -> ($xt, $yt) { (self.0, self.1) }
        }
    };
    (@base $name:ident, $xt:ty, $yt:ty) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $name(pub $xt, pub $yt);
        impl Default for $name {
            fn default() -> Self { $name(<$xt as BoundedInt>::MIN, <$yt as BoundedInt>::MIN) }
        }
        impl std::ops::Add<Dir> for $name {
            type Output = Result<$name, Error>;
            fn add(self, d: Dir) -> Self::Output {
                let (x, y) = ((self.0, self.1) + d)?;
                Ok($name(x, y))
            }
        }
    };
}

// Coordinates that start at zero:
user_pos!(Mix53, BoundedU8<0, 4>, BoundedI32<0, 2>, 5, 3, both);
user_pos!(Mix26, BoundedI16<0, 1>, BoundedU16<0, 5>, 2, 6, tuple);
user_pos!(Byte3, u8, BoundedU16<0, 2>, 256, 3, both);
user_pos!(Three256, BoundedU8<0, 2>, u8, 3, 256, tuple);
user_pos!(Sq44, BoundedU8<0, 3>, BoundedU16<0, 3>, 4, 4, both);
// Coordinates that start elsewhere:
user_pos!(Off1, BoundedI16<-3, 3>, BoundedU8<2, 6>, 7, 5, both);
user_pos!(Off2, BoundedU8<1, 3>, BoundedI32<-1, 0>, 3, 2, tuple);
user_pos!(Off3, BoundedU16<65530, 65535>, BoundedI16<-32768, -32764>, 6, 5, both);
user_pos!(Off4, BoundedI16<-2, 1>, BoundedI16<-2, 1>, 4, 4, both);
user_pos!(OneCol, BoundedI16<5, 5>, BoundedU8<7, 9>, 1, 3, both);
user_pos!(OneSq, BoundedU8<9, 9>, BoundedI16<-9, -9>, 1, 1, tuple);

/// Position number `i` of type `P` in reading order, by the bounds of the type.
pub fn mk<P: PosT>(x: i128, y: i128) -> P {
    fn conv<B: BoundedInt>(v: i128) -> B {
        match B::try_from(v) {
            Ok(b) => b,
            // u128 above i128::MAX is never asked for
            Err(_) => panic!("model asked for a coordinate outside the type"),
        }
    }
    P::new_((conv::<P::Xtype>(x), conv::<P::Ytype>(y)))
}

/// Coordinates of a position as plain numbers
pub fn xy<P: PosT>(p: &P) -> (i128, i128) {
    let t = p.tuple();
    (num(t.0), num(t.1))
}

/// Bounds of a position type: (xmin, xmax, ymin, ymax)
pub fn bounds<P: PosT>() -> (i128, i128, i128, i128) {
    let n = |s: String| s.parse::<i128>().unwrap_or(i128::MAX);
    (
        n(P::Xtype::MIN.to_string()),
        n(P::Xtype::MAX.to_string()),
        n(P::Ytype::MIN.to_string()),
        n(P::Ytype::MAX.to_string()),
    )
}
