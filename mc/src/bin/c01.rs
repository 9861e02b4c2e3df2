//! C01: a position is created exactly when its coordinates are inside the grid.
use mc::model::*;
use mc::*;
use sqrid::{BoundedInt, BoundedU16, Error, Pos, PosT};

fn want(x: i128, y: i128, xm: i128, ym: i128) -> bool {
    0 <= x && x <= xm && 0 <= y && y <= ym
}

fn judge<const X: u16, const Y: u16>(r: Result<Pos<X, Y>, Error>, x: i128, y: i128, how: &str, c: &mut Ctx) -> Res {
    c.step();
    let ok = want(x, y, X as i128, Y as i128);
    match r {
        Ok(p) => {
            if !ok {
                bad!("Pos<{X},{Y}>: {how}({x},{y}) accepted as {p:?}");
            }
            if (p.x() as i128, p.y() as i128) != (x, y) {
                bad!("Pos<{X},{Y}>: {how}({x},{y}) gave {p:?}");
            }
        }
        Err(Error::OutOfBounds) => {
            if ok {
                bad!("Pos<{X},{Y}>: {how}({x},{y}) refused");
            }
        }
        Err(e) => bad!("Pos<{X},{Y}>: {how}({x},{y}) failed with {e:?}"),
    }
    Ok(())
}

fn all_u16<const X: u16, const Y: u16>(x: u16, y: u16, panics: bool, c: &mut Ctx) -> Res {
    c.state();
    let (a, b) = (x as i128, y as i128);
    judge(Pos::<X, Y>::new(x, y), a, b, "new", c)?;
    judge(Pos::<X, Y>::try_from((x, y)), a, b, "try_from (u16,u16)", c)?;
    judge(Pos::<X, Y>::try_from(&(x, y)), a, b, "try_from &(u16,u16)", c)?;
    judge(<Pos<X, Y> as PosT>::new(x, y), a, b, "PosT::new u16", c)?;
    judge(Pos::<X, Y>::try_from((x as i32, y as i32)), a, b, "try_from (i32,i32)", c)?;
    judge(Pos::<X, Y>::try_from(&(x as i32, y as i32)), a, b, "try_from &(i32,i32)", c)?;
    if panics || want(a, b, X as i128, Y as i128) {
        let r = caught(|| Pos::<X, Y>::new_unwrap(x, y)).map_err(|_| Error::OutOfBounds);
        judge(r, a, b, "new_unwrap", c)?;
    }
    if let Ok(p) = Pos::<X, Y>::new(x, y) {
        same!(p.tuple(), (x, y), "tuple of {p:?}");
        same!(<(u16, u16)>::from(p), (x, y), "(u16,u16)::from {p:?}");
        same!(<(u16, u16)>::from(&p), (x, y), "(u16,u16)::from &{p:?}");
        same!(<(i32, i32)>::from(p), (x as i32, y as i32), "(i32,i32)::from {p:?}");
        same!(<(i32, i32)>::from(&p), (x as i32, y as i32), "(i32,i32)::from &{p:?}");
        same!(p.to_string(), format!("({x},{y})"), "Display of {p:?}");
        c.add(0, 6);
    }
    Ok(())
}

fn ys(m: u16) -> Vec<u16> {
    let mut v = std::collections::BTreeSet::new();
    for i in 0..8u16 {
        v.insert(i);
        v.insert(m.saturating_sub(i));
        v.insert(m.saturating_add(i));
    }
    for i in [127, 128, 255, 256, 257, 32767, 32768, 32769, 65534, 65535] {
        v.insert(i);
    }
    v.into_iter().collect()
}

/// Every u16 for one coordinate against a set of values for the other.
fn lines<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    let cols = ys(Y);
    let rows = ys(X);
    let (nc, nr) = (cols.len() as u64, rows.len() as u64);
    k.fam(
        format!("u16 pairs {X}x{Y}"),
        format!("Pos<{X},{Y}>: every x in 0..=65535 with y in {cols:?}; every y with x in {rows:?}"),
        (nc + nr) * 16,
        move |i, c| {
            let part = (i % 16) as u32;
            let j = (i / 16) as usize;
            for v in part * 4096..(part + 1) * 4096 {
                let v = v as u16;
                let panics = v < 600 || v > 65000 || v.abs_diff(X) < 100 || v.abs_diff(Y) < 100;
                if j < cols.len() {
                    all_u16::<X, Y>(v, cols[j], panics, c)?;
                } else {
                    all_u16::<X, Y>(rows[j - cols.len()], v, panics, c)?;
                }
            }
            c.note(|| format!("Pos<{X},{Y}> line {j} part {part}"));
            Ok(())
        },
    );
}

/// Every square of a block of coordinates around the grid.
fn block<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    let m = X.max(Y) as u64 + 4;
    let m = m.min(260);
    k.fam(format!("u16 block {X}x{Y}"), format!("Pos<{X},{Y}>: every pair in 0..={m}"), m + 1, move |i, c| {
        for y in 0..=m {
            all_u16::<X, Y>(i as u16, y as u16, true, c)?;
        }
        Ok(())
    });
}

/// i32 coordinates whose low 16 bits are near the grid, for all high parts.
fn wraps<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    k.fam(
        format!("i32 wraps {X}x{Y}"),
        format!("Pos<{X},{Y}>: i32 coordinates k*65536+d for all 65536 k and d around 0, XMAX and YMAX"),
        64,
        move |i, c| {
            let ds: Vec<i64> = [0i64, X as i64, Y as i64].iter().flat_map(|d| (-2..=2).map(move |e| d + e)).collect();
            for k in (i as i64 * 1024)..((i as i64 + 1) * 1024) {
                let k = k - 32768;
                for &d in &ds {
                    let Ok(v) = i32::try_from(k * 65536 + d) else { continue };
                    c.state();
                    for o in [0i32, X as i32, Y as i32, -1, v] {
                        judge(Pos::<X, Y>::try_from((v, o)), v as i128, o as i128, "try_from (i32,i32)", c)?;
                        judge(Pos::<X, Y>::try_from(&(o, v)), o as i128, v as i128, "try_from &(i32,i32)", c)?;
                    }
                }
            }
            Ok(())
        },
    );
}

/// Literally every i32.
fn every_i32<const X: u16, const Y: u16>(k: &mut Check) {
    k.fam(format!("every i32 {X}x{Y}"), format!("Pos<{X},{Y}>: try_from((v, YMAX)) and try_from((XMAX, v)) for all 2^32 v"), 1 << 12, move |i, c| {
        let base = (i as i64) << 20;
        for v in base..base + (1 << 20) {
            let v = (v - (1i64 << 31)) as i32;
            let r = Pos::<X, Y>::try_from((v, Y as i32));
            let ok = v >= 0 && v <= X as i32;
            if r != (if ok { Ok(Pos((BoundedU16(v as u16), BoundedU16(Y)))) } else { Err(Error::OutOfBounds) }) {
                bad!("Pos<{X},{Y}>::try_from(({v},{Y})) gave {r:?}");
            }
            let r = Pos::<X, Y>::try_from((X as i32, v));
            let ok = v >= 0 && v <= Y as i32;
            if r != (if ok { Ok(Pos((BoundedU16(X), BoundedU16(v as u16)))) } else { Err(Error::OutOfBounds) }) {
                bad!("Pos<{X},{Y}>::try_from(({X},{v})) gave {r:?}");
            }
        }
        c.add(1 << 20, 2 << 20);
        Ok(())
    });
}

/// Linear indices.
fn index<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    let size = (X as usize + 1) * (Y as usize + 1);
    let full = size + 70000;
    let step = 8192usize;
    let mut extra: Vec<usize> = vec![];
    for b in 0..64 {
        for d in 0..4usize {
            extra.push((1usize << b).wrapping_add(d));
            extra.push((1usize << b).wrapping_sub(d));
            // the same square when one coordinate is cut to 16 or 32 bits
            for cut in [16, 32, 48] {
                extra.push((X as usize + 1).wrapping_mul(1usize << cut).wrapping_add(d));
                extra.push((X as usize + 1).wrapping_mul(1usize << cut).wrapping_mul(b + 1).wrapping_add(d));
                extra.push(size.wrapping_mul(1usize << cut).wrapping_add(b));
            }
        }
        extra.push(usize::MAX - b);
        extra.push(usize::MAX / 2 + b);
        extra.push((X as usize + 1) * (b << 10));
    }
    let n = full.div_ceil(step);
    k.fam(
        format!("index {X}x{Y}"),
        format!("Pos<{X},{Y}> from every usize in 0..{full} and {} values around powers of two and 16/32/48-bit wraps", extra.len()),
        n as u64 + 1,
        move |i, c| {
            let w = X as usize + 1;
            let h = Y as usize + 1;
            let mut one = |v: usize| -> Res {
                c.state();
                let (x, y) = ((v % w) as i128, (v / w) as i128);
                // an index is inside exactly when it is less than the number of squares
                same!(y < h as i128, v < size, "model");
                judge(Pos::<X, Y>::try_from(v), x, y, &format_args!("try_from usize {v} = ").to_string(), c)?;
                judge(<Pos<X, Y> as PosT>::tryfrom_usize(v), x, y, "tryfrom_usize", c)
            };
            if i as usize == n {
                for &v in &extra {
                    one(v)?;
                }
            } else {
                for v in i as usize * step..((i as usize + 1) * step).min(full) {
                    one(v)?;
                }
            }
            Ok(())
        },
    );
}

/// PosT::new with every pair of integer types.
fn newtype<T, U, const X: u16, const Y: u16>(k: &mut Check, t: &'static str, u: &'static str)
where
    T: BoundedInt + TryInto<i128>,
    U: BoundedInt + TryInto<i128>,
    BoundedU16<0, X>: TryFrom<T>,
    BoundedU16<0, Y>: TryFrom<U>,
{
    k.fam(
        format!("PosT::new {t},{u} {X}x{Y}"),
        format!("Pos<{X},{Y}>: pairs of values of interest of both types (around 0, XMAX, YMAX, all powers of two, those shifted by 2^8..2^64, type limits)"),
        1,
        |_, c| {
            let vals = interesting(&[X as i128, Y as i128], 1);
            // values above i128::MAX are outside every grid
            let xs: Vec<(T, i128)> = vals.iter().filter_map(|v| T::try_from(*v).ok()).chain([T::MAX, T::MIN]).map(|v| (v, v.try_into().unwrap_or(i128::MAX))).collect();
            let ys: Vec<(U, i128)> = vals.iter().filter_map(|v| U::try_from(*v).ok()).chain([U::MAX, U::MIN]).map(|v| (v, v.try_into().unwrap_or(i128::MAX))).collect();
            for &(a, ia) in &xs {
                for &(b, ib) in &ys {
                    c.state();
                    judge(<Pos<X, Y> as PosT>::new(a, b), ia, ib, "PosT::new", c)?;
                }
            }
            Ok(())
        },
    );
}

macro_rules! newtypes {
    ($k:expr, $x:literal, $y:literal; $($t:ident)*) => { $( newtypes!(@ $k, $x, $y, $t; usize u8 u16 u32 u64 u128 isize i8 i16 i32 i64 i128); )* };
    (@ $k:expr, $x:literal, $y:literal, $t:ident; $($u:ident)*) => { $( newtype::<$t, $u, $x, $y>(&mut $k, stringify!($t), stringify!($u)); )* };
}

macro_rules! newtypes_eq {
    ($k:expr, $x:literal, $y:literal; $($t:ident)*) => { $( newtype::<$t, $t, $x, $y>(&mut $k, stringify!($t), stringify!($t)); )* };
}

/// From the positions of another grid.
fn from_src<P: PosT, const X: u16, const Y: u16>(c: &mut Ctx) -> Res
where
    BoundedU16<0, X>: TryFrom<<P::Xtype as BoundedInt>::Inner>,
    BoundedU16<0, Y>: TryFrom<<P::Ytype as BoundedInt>::Inner>,
    <P::Xtype as BoundedInt>::Inner: BoundedInt,
    <P::Ytype as BoundedInt>::Inner: BoundedInt,
{
    let (x0, x1, y0, y1) = bounds::<P>();
    let pick = |lo: i128, hi: i128, m: i128| -> Vec<i128> {
        let mut v: Vec<i128> = if hi - lo < 40 {
            (lo..=hi).collect()
        } else {
            interesting(&[m], 2).into_iter().filter(|x| lo <= *x && *x <= hi).collect()
        };
        v.push(lo);
        v.push(hi);
        v
    };
    for y in pick(y0, y1, Y as i128) {
        for x in pick(x0, x1, X as i128) {
            c.state();
            let p: P = mk(x, y);
            judge(Pos::<X, Y>::tryfrom_pos(p), x, y, "tryfrom_pos", c)?;
        }
    }
    Ok(())
}

fn from_others<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    k.fam(
        format!("tryfrom_pos into {X}x{Y}"),
        format!("Pos<{X},{Y}>::tryfrom_pos from all positions of small grids and boundary positions of large grids, integer pairs and user-defined types"),
        1,
        move |_, c| {
            macro_rules! srcs { ($($x:literal $y:literal),*) => { $( from_src::<Pos<$x, $y>, X, Y>(c)?; )* } }
            srcs!(0 0, 2 1, 1 2, 4 4, 5 3, 255 256, 65535 0, 0 65535, 65535 65535);
            from_src::<(u8, u8), X, Y>(c)?;
            from_src::<(u16, u16), X, Y>(c)?;
            from_src::<(u32, u32), X, Y>(c)?;
            from_src::<(u64, u64), X, Y>(c)?;
            from_src::<(i8, i8), X, Y>(c)?;
            from_src::<(i16, i16), X, Y>(c)?;
            from_src::<(i32, i32), X, Y>(c)?;
            from_src::<Mix53, X, Y>(c)?;
            from_src::<Mix26, X, Y>(c)?;
            from_src::<Byte3, X, Y>(c)?;
            from_src::<Three256, X, Y>(c)?;
            from_src::<Off1, X, Y>(c)?;
            from_src::<Off2, X, Y>(c)?;
            from_src::<Off3, X, Y>(c)?;
            from_src::<OneCol, X, Y>(c)?;
            Ok(())
        },
    );
}

/// Creation of pairs of integers and user-defined positions.
fn generic<P: PosT + 'static>(k: &mut Check, name: &'static str) {
    k.fam(format!("PosT::new {name}"), "i128, i64, i32, u16 and usize arguments of interest", 1, move |_, c| {
        let (x0, x1, y0, y1) = bounds::<P>();
        let vx = interesting(&[x0, x1], 1);
        let vy = interesting(&[y0, y1], 1);
        for &x in &vx {
            for &y in &vy {
                c.state();
                let ok = x0 <= x && x <= x1 && y0 <= y && y <= y1;
                let mut j = |r: Result<P, Error>, how: &str| -> Res {
                    c.step();
                    match r {
                        Ok(p) => {
                            if !ok || xy(&p) != (x, y) {
                                bad!("{name}::new {how} ({x},{y}) gave {p:?}");
                            }
                        }
                        Err(Error::OutOfBounds) if !ok => {}
                        Err(e) => bad!("{name}::new {how} ({x},{y}) failed: {e:?}"),
                    }
                    Ok(())
                };
                j(P::new(x, y), "i128")?;
                if let (Ok(a), Ok(b)) = (i64::try_from(x), i64::try_from(y)) {
                    j(P::new(a, b), "i64")?;
                }
                if let (Ok(a), Ok(b)) = (i32::try_from(x), i16::try_from(y)) {
                    j(P::new(a, b), "i32,i16")?;
                }
                if let (Ok(a), Ok(b)) = (u16::try_from(x), usize::try_from(y)) {
                    j(P::new(a, b), "u16,usize")?;
                }
                if let (Ok(a), Ok(b)) = (u64::try_from(x), u128::try_from(y)) {
                    j(P::new(a, b), "u64,u128")?;
                }
            }
        }
        Ok(())
    });
}

fn consts<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    k.fam(format!("constants {X}x{Y}"), format!("Pos<{X},{Y}>: default, named positions and bounded-tuple conversions"), 1, move |_, c| {
        c.state();
        let t = |p: Pos<X, Y>| (p.x(), p.y());
        same!(t(Pos::<X, Y>::default()), (0, 0), "default");
        same!(t(Pos::<X, Y>::FIRST), (0, 0), "FIRST");
        same!(t(Pos::<X, Y>::LAST), (X, Y), "LAST");
        same!(t(Pos::<X, Y>::first()), (0, 0), "first()");
        same!(t(Pos::<X, Y>::last()), (X, Y), "last()");
        for p in [Pos::<X, Y>::FIRST, Pos::<X, Y>::LAST, Pos::<X, Y>::CENTER] {
            same!(Pos::<X, Y>::from(p.0), p, "from bounded tuple");
            same!(Pos::<X, Y>::from(&p.0), p, "from &bounded tuple");
            same!(Pos::<X, Y>::new_(p.into_tuple()), p, "into_tuple");
            same!(p.inner_tuple(), (p.x(), p.y()), "inner_tuple");
        }
        c.add(0, 17);
        Ok(())
    });
}

fn main() {
    let mut k = Check::new("C01", "requested coordinate pairs, indices and source positions", "creations by one API form, judged by the bounds of the grid");
    dims_small!(each_dim, block(&mut k));
    each_dim! { from_others(&mut k); (0, 0) (1, 1) (3, 0) (0, 3) (4, 2) (2, 4) }
    dims_small!(each_dim, consts(&mut k));
    dims_mid!(each_dim, consts(&mut k));
    dims_mid!(each_dim, index(&mut k));
    dims_small!(each_dim, index(&mut k));
    dims_large!(each_dim, index(&mut k));
    each_dim! { index(&mut k); (2, 1023) (1023, 2) }
    each_dim! { block(&mut k); (31, 2) (2, 31) (255, 0) (0, 255) (254, 255) (255, 254) (256, 255) }
    each_dim! { from_others(&mut k); (255, 256) (127, 128) (65534, 65535) (32767, 32768) }
    each_dim! { wraps(&mut k); (0, 0) (4, 2) (2, 4) (255, 256) (300, 10) (32767, 32768) (65534, 65535) (65535, 65534) (65535, 65535) }
    if k.thorough() {
        dims_small!(each_dim, lines(&mut k));
        dims_mid!(each_dim, lines(&mut k));
        dims_large!(each_dim, lines(&mut k));
        dims_small!(each_dim, wraps(&mut k));
        dims_mid!(each_dim, wraps(&mut k));
        dims_large!(each_dim, wraps(&mut k));
        each_xy! { every_i32(&mut k); (0, 0) (4, 2) (255, 256) (32767, 32768) (65534, 65535) (65535, 65535) }
    } else {
        each_dim! { lines(&mut k); (0, 0) (4, 2) (255, 256) (32767, 32768) (65534, 65535) (65535, 65535) }
    }
    each_xy! { every_i32(&mut k); (6, 3) (40000, 65535) }
    newtypes!(k, 4, 2; usize u8 u16 u32 u64 u128 isize i8 i16 i32 i64 i128);
    newtypes_eq!(k, 255, 65535; usize u8 u16 u32 u64 u128 isize i8 i16 i32 i64 i128);
    newtypes_eq!(k, 65534, 128; usize u8 u16 u32 u64 u128 isize i8 i16 i32 i64 i128);
    generic::<(u8, u8)>(&mut k, "(u8,u8)");
    generic::<(u16, u16)>(&mut k, "(u16,u16)");
    generic::<(u32, u32)>(&mut k, "(u32,u32)");
    generic::<(u64, u64)>(&mut k, "(u64,u64)");
    generic::<(i8, i8)>(&mut k, "(i8,i8)");
    generic::<(i16, i16)>(&mut k, "(i16,i16)");
    generic::<(i32, i32)>(&mut k, "(i32,i32)");
    generic::<Mix53>(&mut k, "Mix53");
    generic::<Mix26>(&mut k, "Mix26");
    generic::<Byte3>(&mut k, "Byte3");
    generic::<Three256>(&mut k, "Three256");
    generic::<Off1>(&mut k, "Off1");
    generic::<Off2>(&mut k, "Off2");
    generic::<Off3>(&mut k, "Off3");
    generic::<OneCol>(&mut k, "OneCol");
    generic::<OneSq>(&mut k, "OneSq");
    k.run()
}
