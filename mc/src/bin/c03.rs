//! C03: stepping forward and back through positions never skips or repeats a square.
use mc::model::*;
use mc::*;
use sqrid::{BoundedInt, Pos, PosT};

type Lim = (i128, i128, i128, i128);

fn square<P: PosT>(x: i128, y: i128, l: Lim, c: &mut Ctx) -> Res {
    let (x0, x1, y0, y1) = l;
    c.add(1, 4);
    let p: P = mk(x, y);
    let want = |ok: bool, x: i128, y: i128| if ok { Some(mk::<P>(x, y)) } else { None };
    let n = if x < x1 { want(true, x + 1, y) } else { want(y < y1, x0, y.saturating_add(1)) };
    same!(p.next(), n, "next of {p:?}");
    let n2 = if y < y1 { want(true, x, y + 1) } else { want(x < x1, x.saturating_add(1), y0) };
    same!(p.next_y(), n2, "next_y of {p:?}");
    let b = if x > x0 { want(true, x - 1, y) } else { want(y > y0, x1, y.saturating_sub(1)) };
    same!(p.prev(), b, "prev of {p:?}");
    let b2 = if y > y0 { want(true, x, y - 1) } else { want(x > x0, x.saturating_sub(1), y1) };
    same!(p.prev_y(), b2, "prev_y of {p:?}");
    if let Some(q) = n {
        same!(q.prev(), Some(p), "prev of next of {p:?}");
    }
    if let Some(q) = n2 {
        same!(q.prev_y(), Some(p), "prev_y of next_y of {p:?}");
    }
    if let Some(q) = b {
        same!(q.next(), Some(p), "next of prev of {p:?}");
    }
    if let Some(q) = b2 {
        same!(q.next_y(), Some(p), "next_y of prev_y of {p:?}");
    }
    c.add(0, 4);
    Ok(())
}

fn whole<P: PosT + 'static>(k: &mut Check, name: String) {
    let l = bounds::<P>();
    let h = (l.3 - l.2 + 1) as u64;
    k.fam(name, "every square, four steps each and back", h.div_ceil(32) + 1, move |i, c| {
        if i == h.div_ceil(32) {
            return walk::<P>(l, c);
        }
        for y in i * 32..((i + 1) * 32).min(h) {
            for x in l.0..=l.1 {
                square::<P>(x, l.2 + y as i128, l, c)?;
            }
        }
        Ok(())
    });
}

/// From the first square to the last and back, both ways, counting.
fn walk<P: PosT>(l: Lim, c: &mut Ctx) -> Res {
    let n = ((l.1 - l.0 + 1) * (l.3 - l.2 + 1)) as u64;
    let mut go = |start: P, end: P, step: &dyn Fn(&P) -> Option<P>, what: &str| -> Res {
        let mut p = start;
        let mut count = 1;
        while let Some(q) = step(&p) {
            p = q;
            count += 1;
            if count > n {
                bad!("{what} from {start:?} goes on after {n} squares");
            }
        }
        c.add(0, count);
        same!(count, n, "squares visited by {what}");
        same!(p, end, "last square of {what}");
        Ok(())
    };
    go(P::first(), P::last(), &|p| p.next(), "next")?;
    go(P::first(), P::last(), &|p| p.next_y(), "next_y")?;
    go(P::last(), P::first(), &|p| p.prev(), "prev")?;
    go(P::last(), P::first(), &|p| p.prev_y(), "prev_y")
}

fn fixed<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    whole::<Pos<X, Y>>(k, format!("Pos<{X},{Y}>"));
}

/// Every row and every column against a set of values of the other axis.
fn edges<P: PosT + 'static>(k: &mut Check, name: &'static str) {
    let l = bounds::<P>();
    let near = |lo: i128, hi: i128| -> Vec<i128> { interesting(&[lo, hi], 2).into_iter().filter(|v| lo <= *v && *v <= hi).collect() };
    let (xs, ys) = (near(l.0, l.1), near(l.2, l.3));
    k.fam(format!("edges of {name}"), "x and y around the powers of two and the limits (all values of one axis for 16-bit types)", (xs.len() + ys.len()) as u64, move |i, c| {
        let i = i as usize;
        let all = |lo: i128, hi: i128, few: &Vec<i128>| -> Vec<i128> {
            if hi - lo <= 65535 {
                (lo..=hi).collect()
            } else {
                few.clone()
            }
        };
        if i < xs.len() {
            for y in all(l.2, l.3, &ys) {
                square::<P>(xs[i], y, l, c)?;
            }
        } else {
            for x in all(l.0, l.1, &xs) {
                square::<P>(x, ys[i - xs.len()], l, c)?;
            }
        }
        Ok(())
    });
}

/// The upper end of (u128,u128), which the model's i128 cannot hold.
fn top128(k: &mut Check) {
    k.fam("top of (u128,u128)", "the 101x101 squares at each corner", 4, |i, c| {
        const M: u128 = u128::MAX;
        let base = |far: bool, d: u128| if far { M - d } else { d };
        for a in 0..101 {
            for b in 0..101 {
                let (x, y) = (base(i & 1 == 1, a), base(i & 2 == 2, b));
                let p = (x, y);
                c.add(1, 4);
                let n = if x < M { Some((x + 1, y)) } else if y < M { Some((0, y + 1)) } else { None };
                same!(PosT::next(&p), n, "next of {p:?}");
                let n = if y < M { Some((x, y + 1)) } else if x < M { Some((x + 1, 0)) } else { None };
                same!(p.next_y(), n, "next_y of {p:?}");
                let n = if x > 0 { Some((x - 1, y)) } else if y > 0 { Some((M, y - 1)) } else { None };
                same!(p.prev(), n, "prev of {p:?}");
                let n = if y > 0 { Some((x, y - 1)) } else if x > 0 { Some((x - 1, M)) } else { None };
                same!(p.prev_y(), n, "prev_y of {p:?}");
            }
        }
        Ok(())
    });
}

fn main() {
    let mut k = Check::new("C03", "squares visited", "steps (next, next_y, prev, prev_y) compared with the model");
    dims_small!(each_dim, fixed(&mut k));
    dims_mid!(each_dim, fixed(&mut k));
    dims_large!(each_dim, fixed(&mut k));
    whole::<(u8, u8)>(&mut k, "(u8,u8)".into());
    whole::<(i8, i8)>(&mut k, "(i8,i8)".into());
    whole::<Mix53>(&mut k, "user type 5x3".into());
    whole::<Mix26>(&mut k, "user type 2x6".into());
    whole::<Byte3>(&mut k, "user type 256x3".into());
    whole::<Three256>(&mut k, "user type 3x256".into());
    whole::<Off1>(&mut k, "user type -3..3 x 2..6".into());
    whole::<Off2>(&mut k, "user type 1..3 x -1..0".into());
    whole::<Off3>(&mut k, "user type 65530..65535 x -32768..-32764".into());
    whole::<Off4>(&mut k, "user type -2..1 x -2..1".into());
    whole::<OneCol>(&mut k, "user type 5 x 7..9".into());
    whole::<OneSq>(&mut k, "user type 9 x -9".into());
    edges::<(u16, u16)>(&mut k, "(u16,u16)");
    edges::<(i16, i16)>(&mut k, "(i16,i16)");
    edges::<(u32, u32)>(&mut k, "(u32,u32)");
    edges::<(i32, i32)>(&mut k, "(i32,i32)");
    edges::<(u64, u64)>(&mut k, "(u64,u64)");
    edges::<Pos<65535, 65535>>(&mut k, "Pos<65535,65535>");
    edges::<Pos<65534, 65535>>(&mut k, "Pos<65534,65535>");
    top128(&mut k);
    if k.thorough() {
        whole::<Pos<4095, 1023>>(&mut k, "Pos<4095,1023>".into());
        whole::<Pos<1023, 4095>>(&mut k, "Pos<1023,4095>".into());
    }
    k.run()
}
