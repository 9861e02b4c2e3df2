//! C02: positions and linear indices correspond one to one in reading order.
use mc::model::*;
use mc::*;
use sqrid::{BoundedInt, Error, Pos, PosT};

/// One square of a zero-based type: index there and back.
fn square<P: PosT>(x: i128, y: i128, w: u128, c: &mut Ctx) -> Res {
    c.state();
    let p: P = mk(x, y);
    let i = (y as u128 * w + x as u128) as usize;
    same!(p.to_usize(), i, "to_usize of ({x},{y})");
    match P::tryfrom_usize(i) {
        Ok(q) if q == p => {}
        r => bad!("tryfrom_usize({i}) gave {r:?}, expected {p:?}"),
    }
    c.add(0, 2);
    Ok(())
}

fn refused<P: PosT>(i: usize, c: &mut Ctx) -> Res {
    c.step();
    match P::tryfrom_usize(i) {
        Err(Error::OutOfBounds) => Ok(()),
        r => bad!("tryfrom_usize({i}) gave {r:?}, expected the out-of-bounds error"),
    }
}

/// Indices around the end of the grid, and far beyond it.
fn beyond<P: PosT>(size: u128, c: &mut Ctx) -> Res {
    let mut v: Vec<u128> = (0..300).map(|d| size + d).collect();
    for k in 0..64 {
        for d in 0..3u128 {
            v.push((1u128 << k) + d);
            v.push((1u128 << k) * size + d);
            v.push((1u128 << k) * 65537 + d);
        }
        v.push(u64::MAX as u128 - k as u128);
    }
    for i in v {
        if i >= size && i <= usize::MAX as u128 {
            refused::<P>(i as usize, c)?;
        }
    }
    Ok(())
}

fn whole<P: PosT + 'static>(k: &mut Check, name: String, w: usize, h: usize) {
    k.fam(name.clone(), "every square and the indices beyond the grid", h.div_ceil(64) as u64 + 1, move |i, c| {
        let i = i as usize;
        if i == h.div_ceil(64) {
            same!(P::width(), w, "width()");
            same!(P::height(), h, "height()");
            same!(P::dimensions(), w * h, "dimensions()");
            same!(P::WIDTH, w, "WIDTH");
            same!(P::HEIGHT, h, "HEIGHT");
            same!(P::first().to_usize(), 0, "index of first()");
            same!(P::last().to_usize(), w * h - 1, "index of last()");
            same!(xy(&P::first()), (0, 0), "first()");
            same!(xy(&P::last()), (w as i128 - 1, h as i128 - 1), "last()");
            same!(xy(&P::default()), (0, 0), "default()");
            c.add(1, 10);
            return beyond::<P>(w as u128 * h as u128, c);
        }
        for y in i * 64..((i + 1) * 64).min(h) {
            for x in 0..w {
                square::<P>(x as i128, y as i128, w as u128, c)?;
            }
        }
        c.note(|| format!("rows {}.. of {name}", i * 64));
        Ok(())
    });
}

fn fixed<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    whole::<Pos<X, Y>>(k, format!("squares of Pos<{X},{Y}>"), w, h);
    k.fam(format!("usize and constants of Pos<{X},{Y}>"), "From/TryFrom usize on every square, named positions", 1, move |_, c| {
        for i in 0..w * h {
            let p = match Pos::<X, Y>::try_from(i) {
                Ok(p) => p,
                Err(e) => bad!("try_from({i}) failed: {e:?}"),
            };
            same!((p.x() as usize, p.y() as usize), (i % w, i / w), "try_from({i})");
            same!(usize::from(p), i, "usize::from({p:?})");
            same!(usize::from(&p), i, "usize::from(&{p:?})");
            c.add(1, 3);
        }
        let t = |p: Pos<X, Y>| (p.x(), p.y());
        same!(Pos::<X, Y>::SIZE, w * h, "SIZE");
        same!((Pos::<X, Y>::XMAX, Pos::<X, Y>::YMAX), (X, Y), "XMAX, YMAX");
        same!(t(Pos::<X, Y>::FIRST), (0, 0), "FIRST");
        same!(t(Pos::<X, Y>::TOP_LEFT), (0, 0), "TOP_LEFT");
        same!(t(Pos::<X, Y>::TOP_RIGHT), (X, 0), "TOP_RIGHT");
        same!(t(Pos::<X, Y>::BOTTOM_LEFT), (0, Y), "BOTTOM_LEFT");
        same!(t(Pos::<X, Y>::BOTTOM_RIGHT), (X, Y), "BOTTOM_RIGHT");
        same!(t(Pos::<X, Y>::LAST), (X, Y), "LAST");
        // The centre is approximate on even sizes: at most half a square off.
        let (cx, cy) = t(Pos::<X, Y>::CENTER);
        if (2 * cx as i64 - X as i64).abs() > 1 || (2 * cy as i64 - Y as i64).abs() > 1 {
            bad!("CENTER is ({cx},{cy})");
        }
        c.add(0, 9);
        Ok(())
    });
}

/// WIDTH and HEIGHT of Pos are u16, so grids of 65536 have none.
fn widths<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    k.fam(format!("width of Pos<{X},{Y}>"), "Pos::WIDTH, Pos::HEIGHT", 1, |_, c| {
        same!(Pos::<X, Y>::WIDTH as usize, X as usize + 1, "WIDTH");
        same!(Pos::<X, Y>::HEIGHT as usize, Y as usize + 1, "HEIGHT");
        c.add(1, 2);
        Ok(())
    });
}

/// Types too large to enumerate in the quick tier: every row and every column
/// with a set of coordinates of the other axis.
fn lines<P: PosT + 'static>(k: &mut Check, name: &'static str, w: u128, h: u128) {
    let near = |m: u128| -> Vec<i128> {
        let mut v: Vec<i128> = interesting(&[m as i128], 1).into_iter().filter(|x| *x >= 0 && *x < m as i128).collect();
        v.push(m as i128 - 1);
        v
    };
    let (xs, ys) = (near(w), near(h));
    let full = w <= 65536 && h <= 65536;
    k.fam(
        format!("lines of {name}"),
        if full { "all x with y around the powers of two and the limits, and the other way round" } else { "x and y around the powers of two and the limits" },
        (xs.len() + ys.len()) as u64,
        move |i, c| {
            let i = i as usize;
            if i < xs.len() {
                let all: Vec<i128> = if full { (0..h as i128).collect() } else { ys.clone() };
                for y in all {
                    square::<P>(xs[i], y, w, c)?;
                }
            } else {
                let all: Vec<i128> = if full { (0..w as i128).collect() } else { xs.clone() };
                for x in all {
                    square::<P>(x, ys[i - xs.len()], w, c)?;
                }
            }
            if i == 0 {
                same!(P::width() as u128, w, "width()");
                same!(P::height() as u128, h, "height()");
                same!(P::WIDTH as u128, w, "WIDTH");
                same!(P::HEIGHT as u128, h, "HEIGHT");
                if w * h <= usize::MAX as u128 {
                    same!(P::dimensions() as u128, w * h, "dimensions()");
                    beyond::<P>(w * h, c)?;
                }
            }
            Ok(())
        },
    );
}

/// Every index of a 2^32-square grid.
fn all_indices<P: PosT + 'static>(k: &mut Check, name: &'static str) {
    k.fam(format!("all indices of {name}"), "2^32 squares", 1 << 14, |i, c| {
        for v in (i as usize) << 18..(i as usize + 1) << 18 {
            let p = match P::tryfrom_usize(v) {
                Ok(p) => p,
                Err(e) => bad!("index {v}: {e:?}"),
            };
            let (x, y): (Result<usize, _>, Result<usize, _>) = (p.x().try_into(), p.y().try_into());
            if x.ok() != Some(v & 65535) || y.ok() != Some(v >> 16) || p.to_usize() != v {
                bad!("index {v} gave {p:?}");
            }
        }
        c.add(1 << 18, 2 << 18);
        Ok(())
    });
}

fn main() {
    let mut k = Check::new("C02", "squares (or indices outside the grid) visited", "conversions compared with y*width+x");
    dims_small!(each_dim, fixed(&mut k));
    dims_mid!(each_dim, fixed(&mut k));
    dims_large!(each_dim, fixed(&mut k));
    dims_small!(each_dim, widths(&mut k));
    dims_mid!(each_dim, widths(&mut k));
    each_dim! { widths(&mut k); (65534, 65534) (65534, 0) (0, 65534) (32767, 32768) }
    each_dim! { fixed(&mut k); (511, 1023) (1023, 511) }
    whole::<(u8, u8)>(&mut k, "squares of (u8,u8)".into(), 256, 256);
    whole::<Mix53>(&mut k, "squares of user type 5x3".into(), 5, 3);
    whole::<Mix26>(&mut k, "squares of user type 2x6".into(), 2, 6);
    whole::<Byte3>(&mut k, "squares of user type 256x3".into(), 256, 3);
    whole::<Three256>(&mut k, "squares of user type 3x256".into(), 3, 256);
    whole::<Sq44>(&mut k, "squares of user type 4x4".into(), 4, 4);
    lines::<(u16, u16)>(&mut k, "(u16,u16)", 65536, 65536);
    lines::<(u32, u32)>(&mut k, "(u32,u32)", 1 << 32, 1 << 32);
    lines::<Pos<65535, 65535>>(&mut k, "Pos<65535,65535>", 65536, 65536);
    lines::<Pos<65534, 65535>>(&mut k, "Pos<65534,65535>", 65535, 65536);
    lines::<Pos<65535, 65534>>(&mut k, "Pos<65535,65534>", 65536, 65535);
    lines::<Pos<40000, 256>>(&mut k, "Pos<40000,256>", 40001, 257);
    if k.thorough() {
        all_indices::<Pos<65535, 65535>>(&mut k, "Pos<65535,65535>");
        all_indices::<(u16, u16)>(&mut k, "(u16,u16)");
    }
    k.assume("coordinates start at zero: signed pairs and user types whose coordinates start elsewhere have no linear index");
    k.run()
}
