//! C07: a move lands on the adjacent square or is refused at the edge.
use mc::model::*;
use mc::*;
use sqrid::*;

/// Expected coordinates of a move between limits.
fn moved(x: i128, y: i128, d: Dir, l: (i128, i128, i128, i128)) -> Option<(i128, i128)> {
    let (dx, dy) = off(d);
    let (nx, ny) = (x.checked_add(dx as i128)?, y.checked_add(dy as i128)?);
    (l.0 <= nx && nx <= l.1 && l.2 <= ny && ny <= l.3).then_some((nx, ny))
}

fn judge<T: PartialEq + std::fmt::Debug>(got: Result<T, Error>, want: &Option<T>, what: &dyn Fn() -> String, c: &mut Ctx) -> Res {
    c.step();
    match (&got, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Err(Error::OutOfBounds), None) => Ok(()),
        _ => bad!("{}: got {got:?}, expected {want:?}", what()),
    }
}

fn square<const X: u16, const Y: u16>(x: u16, y: u16, c: &mut Ctx) -> Res {
    let p = match Pos::<X, Y>::new(x, y) {
        Ok(p) => p,
        Err(e) => bad!("Pos<{X},{Y}>::new({x},{y}): {e:?}"),
    };
    c.state();
    for d in COMPASS {
        let want = moved(x as i128, y as i128, d, (0, X as i128, 0, Y as i128)).map(|(a, b)| Pos((BoundedU16(a as u16), BoundedU16(b as u16))));
        let what = || format!("Pos<{X},{Y}> ({x},{y}) + {d:?}");
        judge(p + d, &want, &what, c)?;
        judge(&p + d, &want, &what, c)?;
        judge(pos_dir_add(p, d), &want, &what, c)?;
        judge(pos_dir_add_ok(p, d).ok_or(Error::OutOfBounds), &want, &what, c)?;
        judge((p.0 + d).map(Pos), &want, &what, c)?;
        judge((&p.0 + d).map(Pos), &want, &what, c)?;
        if let Some(q) = want {
            judge(q + -d, &Some(p), &|| format!("{q:?} + -{d:?}"), c)?;
            judge(q + d.flip(), &Some(p), &|| format!("{q:?} + {d:?}.flip()"), c)?;
            judge(q + opposite(d), &Some(p), &|| format!("{q:?} + the opposite of {d:?}"), c)?;
        }
    }
    Ok(())
}

fn around(m: u16) -> Vec<u16> {
    let mut v: std::collections::BTreeSet<u32> = Default::default();
    for b in [0u32, m as u32, m as u32 / 2, 127, 128, 255, 256, 32767, 32768, 65535] {
        for d in 0..3 {
            v.insert(b + d);
            v.insert(b.saturating_sub(d));
        }
    }
    v.into_iter().filter(|x| *x <= m as u32).map(|x| x as u16).collect()
}

fn fixed<const X: u16, const Y: u16>(k: &mut Check) {
    let small = (X as u64 + 1) * (Y as u64 + 1) <= 140_000;
    let rows: Vec<u16> = if small { (0..=Y).collect() } else { around(Y) };
    k.fam(format!("Pos<{X},{Y}>"), if small { "every square, 8 directions, every form of the move, and back" } else { "coordinates around the limits, the middle and 8/15/16-bit boundaries; 8 directions, every form, and back" }, rows.len() as u64, move |i, c| {
        let cols: Vec<u16> = if small { (0..=X).collect() } else { around(X) };
        for x in cols {
            square::<X, Y>(x, rows[i as usize], c)?;
        }
        Ok(())
    });
}

/// Values of a type to try: all of an 8-bit range, or what is interesting.
fn values<T: BoundedInt>() -> Vec<(T, i128)> {
    let n = |s: String| s.parse::<i128>().unwrap_or(i128::MAX);
    let lo = n(T::MIN.to_string());
    // the part of u128 that the model cannot hold has a family of its own
    let hi = T::MAX.to_string().parse::<i128>().unwrap_or(i128::MAX - 5);
    let v: Vec<i128> = if hi.saturating_sub(lo) < 300 {
        (lo..=hi).collect()
    } else {
        // limits of every type and their neighbours
        let mut v = std::collections::BTreeSet::from([lo, lo + 1, hi - 1, hi, 0, 1, -1]);
        for b in [7, 8, 15, 16, 31, 32, 63, 64] {
            for s in [-1i128, 1] {
                for d in -1..=1 {
                    v.insert(s * (1i128 << b) + d);
                }
            }
        }
        v.into_iter().filter(|x| lo <= *x && *x <= hi).collect()
    };
    // what the type itself refuses is not a value of it
    v.into_iter().filter_map(|v| T::try_from(v).ok().map(|t| (t, v))).collect()
}

fn tuple<T: BoundedInt + 'static, U: BoundedInt + 'static>(k: &mut Check, t: &str, u: &str) {
    k.fam(format!("({t},{u})"), "all values of 8-bit and small bounded types, limits of all types and neighbours of the others; 8 directions, both forms, and back", 1, |_, c| {
        let n = |s: String| s.parse::<i128>().unwrap_or(i128::MAX);
        let l = (n(T::MIN.to_string()), n(T::MAX.to_string()), n(U::MIN.to_string()), n(U::MAX.to_string()));
        let (xs, ys) = (values::<T>(), values::<U>());
        if xs.is_empty() || ys.is_empty() {
            bad!("no values");
        }
        for &(x, ix) in &xs {
            for &(y, iy) in &ys {
                c.state();
                for d in COMPASS {
                    let what = || format!("({x},{y}) + {d:?} of ({},{})", std::any::type_name::<T>(), std::any::type_name::<U>());
                    let want = moved(ix, iy, d, l).map(|(a, b)| (a.to_string(), b.to_string()));
                    let got = (x, y) + d;
                    judge(got.clone().map(|(a, b)| (a.to_string(), b.to_string())), &want, &what, c)?;
                    judge((&(x, y) + d).map(|(a, b)| (a.to_string(), b.to_string())), &want, &what, c)?;
                    if let Ok(q) = got {
                        judge(q + -d, &Some((x, y)), &|| format!("{} and back", what()), c)?;
                    }
                }
            }
        }
        c.note(|| format!("{} x {} values", xs.len(), ys.len()));
        Ok(())
    });
}

/// u128 next to its upper limit, which the model's i128 cannot hold.
fn top128(k: &mut Check) {
    k.fam("(u128,u128) near the upper limits", "20 values below 2^128 and around 2^127 on each axis", 1, |_, c| {
        let v: Vec<u128> = (0..20).map(|d| u128::MAX - d).chain((0..20).map(|d| (1u128 << 127) - 10 + d)).chain([0, 1]).collect();
        let go = |x: u128, d: i64| match d {
            0 => Some(x),
            1 => x.checked_add(1),
            _ => x.checked_sub(1),
        };
        for &x in &v {
            for &y in &v {
                c.state();
                for d in COMPASS {
                    let o = off(d);
                    let want = go(x, o.0).zip(go(y, o.1));
                    judge((x, y) + d, &want, &|| format!("({x},{y}) + {d:?}"), c)?;
                    judge(&(x, y) + d, &want, &|| format!("({x},{y}) + {d:?}"), c)?;
                    // and as one axis only
                    let want = go(x, o.0).zip(if o.1 < 0 { None } else { Some((-128i128 + o.1 as i128) as i8) });
                    judge((x, -128i8) + d, &want, &|| format!("({x},-128i8) + {d:?}"), c)?;
                }
            }
        }
        Ok(())
    });
}

macro_rules! tuples {
    ($k:expr; $($t:ident)*) => { $( tuples!(@ $k, $t; usize u8 u16 u32 u64 u128 isize i8 i16 i32 i64 i128); )* };
    (@ $k:expr, $t:ident; $($u:ident)*) => { $( tuple::<$t, $u>(&mut $k, stringify!($t), stringify!($u)); )* };
}

type A1 = BoundedI8<-5, 7>;
type A2 = BoundedU8<3, 9>;
type A3 = BoundedI16<-300, -290>;
type A4 = BoundedU64<{ u64::MAX - 4 }, { u64::MAX }>;
type A5 = BoundedI128<{ i128::MIN }, { i128::MIN + 3 }>;
type A6 = BoundedU32<0, 0>;
type A7 = BoundedI32<{ i32::MAX - 3 }, { i32::MAX }>;
type A8 = BoundedIsize<-1, 1>;
type A9 = BoundedU128<0, 70>;
type A10 = BoundedI64<{ i64::MIN }, { i64::MIN + 2 }>;
type A11 = BoundedU8<0, 255>;
type A12 = BoundedI8<-128, 127>;
type A13 = BoundedU16<255, 257>;

fn short<T>() -> String {
    std::any::type_name::<T>().replace("sqrid::sqrid::boundedint::", "")
}

macro_rules! btuples {
    ($k:expr; $($t:ident)*) => { $( btuples!(@ $k, $t; A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11 A12 A13); )* };
    (@ $k:expr, $t:ident; $($u:ident)*) => { $( tuple::<$t, $u>(&mut $k, &short::<$t>(), &short::<$u>()); )* };
}

fn main() {
    let mut k = Check::new("C07", "squares / pairs of values", "moves compared with integer arithmetic");
    dims_small!(each_xy, fixed(&mut k));
    each_xy! { fixed(&mut k);
        (30, 0) (31, 0) (0, 31) (10, 5) (31, 7) (7, 31) (99, 2) (2, 99) (254, 0) (255, 0) (256, 0) (0, 254) (0, 255) (0, 256)
        (255, 255) (300, 217) (32767, 1) (32768, 0) (0, 32768) (65534, 0) (65535, 0) (0, 65534) (0, 65535) (65535, 1) (1, 65535)
        (32767, 32768) (65534, 65535) (65535, 65535) (255, 65535) (65535, 255) }
    tuples!(k; usize u8 u16 u32 u64 u128 isize i8 i16 i32 i64 i128);
    btuples!(k; A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11 A12 A13);
    macro_rules! mixed { ($($t:ident $u:ident),*) => { $( tuple::<$t, $u>(&mut k, stringify!($t), stringify!($u)); tuple::<$u, $t>(&mut k, stringify!($u), stringify!($t)); )* } }
    mixed!(A1 u8, A2 i8, A3 u16, A4 u64, A5 i128, A6 i32, A7 u32, A8 usize, A9 isize, A10 i64, A11 i16, A12 u128);
    top128(&mut k);
    k.run()
}
