//! C05: flips, rotations, distance and containment of positions follow the geometry.
use mc::model::*;
use mc::*;
use sqrid::{BoundedInt, Error, Pos, PosT};

type Lim = (i128, i128, i128, i128);
type Xy = (i128, i128);

fn one<P: PosT>(x: i128, y: i128, l: Lim, c: &mut Ctx) -> Res {
    let (x0, x1, y0, y1) = l;
    let p: P = mk(x, y);
    c.add(1, 6);
    same!(xy(&p.flip_h()), (x0 + (x1 - x), y), "flip_h of ({x},{y})");
    same!(xy(&p.flip_v()), (x, y0 + (y1 - y)), "flip_v of ({x},{y})");
    same!(p.flip_h().flip_h(), p, "flip_h twice of ({x},{y})");
    same!(p.flip_v().flip_v(), p, "flip_v twice of ({x},{y})");
    let (ex, ey) = (x == x0 || x == x1, y == y0 || y == y1);
    same!(p.is_corner(), ex && ey, "is_corner of ({x},{y})");
    same!(p.is_side(), ex || ey, "is_side of ({x},{y})");
    Ok(())
}

/// Squares of one axis: all, or around the limits and powers of two.
fn axis(lo: i128, hi: i128, most: i128) -> Vec<i128> {
    if hi - lo < most {
        (lo..=hi).collect()
    } else {
        interesting(&[lo, hi, (lo + hi) / 2], 2).into_iter().filter(|v| lo <= *v && *v <= hi).collect()
    }
}

fn squares<P: PosT + 'static>(k: &mut Check, name: String) {
    let l = bounds::<P>();
    let ys = axis(l.2, l.3, 1000);
    let n = ys.len() as u64;
    k.fam(format!("flips and borders of {name}"), "every square (of axes longer than 1000: around the limits, the middle and the powers of two)", n, move |i, c| {
        let y = ys[i as usize];
        for x in axis(l.0, l.1, 1000) {
            one::<P>(x, y, l, c)?;
        }
        Ok(())
    });
}

/// All pairs or triples of a set of squares.
fn set<P: PosT>(l: Lim, most: usize) -> Vec<Xy> {
    let n = (l.1 - l.0 + 1).checked_mul(l.3 - l.2 + 1);
    if n.is_some_and(|n| n <= most as i128) {
        return (l.2..=l.3).flat_map(|y| (l.0..=l.1).map(move |x| (x, y))).collect();
    }
    // corners, sides, middle and what is next to them
    let few = |lo: i128, hi: i128| {
        let m = lo + (hi - lo) / 2;
        let mut v = std::collections::BTreeSet::from([lo, lo + 1, m, m + 1, hi - 1, hi, 0, -1]);
        v.retain(|a| lo <= *a && *a <= hi);
        v
    };
    let (xs, ys) = (few(l.0, l.1), few(l.2, l.3));
    ys.iter().flat_map(|y| xs.iter().map(move |x| (*x, *y))).collect()
}

fn pairs<P: PosT + 'static>(k: &mut Check, name: String) {
    let l = bounds::<P>();
    let most = k.pick(400, 4096);
    let s = set::<P>(l, most);
    k.fam(format!("distances in {name}"), format!("all ordered pairs of {} squares (all of grids up to {most}, otherwise limits, middle and next to them)", s.len()), s.len() as u64, move |i, c| {
        let (ax, ay) = s[i as usize];
        let a: P = mk(ax, ay);
        for &(bx, by) in &s {
            let want = (ax - bx).unsigned_abs() + (ay - by).unsigned_abs();
            if want > usize::MAX as u128 {
                continue;
            }
            let b: P = mk(bx, by);
            c.add(1, 1);
            same!(a.manhattan(&b) as u128, want, "distance from {a:?} to {b:?}");
        }
        c.note(|| format!("from {a:?} to {} squares", s.len()));
        Ok(())
    });
    let most = k.pick(80, 200);
    let s = set::<P>(l, most);
    k.fam(format!("containment in {name}"), format!("all triples of {} squares (all of grids up to {most}, otherwise limits, middle and next to them)", s.len()), s.len() as u64, move |i, c| {
        let (px, py) = s[i as usize];
        let p: P = mk(px, py);
        for &(ax, ay) in &s {
            let a: P = mk(ax, ay);
            for &(bx, by) in &s {
                let b: P = mk(bx, by);
                let want = ax.min(bx) <= px && px <= ax.max(bx) && ay.min(by) <= py && py <= ay.max(by);
                c.add(1, 1);
                if p.inside(&a, &b) != want {
                    bad!("{p:?} inside {a:?} and {b:?}: got {}, expected {want}", !want);
                }
            }
        }
        Ok(())
    });
}

fn judge_box<P: PosT>(v: &[Xy], c: &mut Ctx) -> Res {
    c.add(1, 4);
    let it = || v.iter().map(|&(x, y)| mk::<P>(x, y));
    let got = P::tlbr_of(it());
    // however much the iterator tells about its length
    let mut i = it();
    let forms = [P::tlbr_of(it().filter(|_| true)), P::tlbr_of(std::iter::from_fn(move || i.next())), P::tlbr_of(it().take(v.len() / 2).chain(it().skip(v.len() / 2)))];
    for f in forms {
        same!(f, got.clone(), "bounding box of {v:?} by another iterator");
    }
    if v.is_empty() {
        same!(got, Err(Error::Empty), "bounding box of nothing");
        return Ok(());
    }
    let x = |f: fn(i128, i128) -> i128| v.iter().map(|p| p.0).reduce(f).unwrap();
    let y = |f: fn(i128, i128) -> i128| v.iter().map(|p| p.1).reduce(f).unwrap();
    let want = (mk::<P>(x(i128::min), y(i128::min)), mk::<P>(x(i128::max), y(i128::max)));
    same!(got, Ok(want), "bounding box of {v:?}");
    Ok(())
}

fn boxes<P: PosT + 'static>(k: &mut Check, name: String) {
    let l = bounds::<P>();
    let s = set::<P>(l, 16);
    let n = (l.1 - l.0 + 1).saturating_mul(l.3 - l.2 + 1);
    let most = k.pick(12, 16);
    if n <= most {
        let s = s.clone();
        k.fam(format!("boxes of subsets of {name}"), format!("all 2^{} subsets, in reading order and reversed", s.len()), 1 << s.len(), move |i, c| {
            let mut v: Vec<Xy> = (0..s.len()).filter(|b| i >> b & 1 == 1).map(|b| s[b]).collect();
            judge_box::<P>(&v, c)?;
            v.reverse();
            judge_box::<P>(&v, c)
        });
    }
    let s = if s.len() > 40 { s.into_iter().step_by(2).collect() } else { s };
    k.fam(format!("boxes of sequences in {name}"), format!("all sequences of up to 3 of {} squares, with repetition", s.len()), s.len() as u64 + 1, move |i, c| {
        if i as usize == s.len() {
            return judge_box::<P>(&[], c);
        }
        let a = s[i as usize];
        judge_box::<P>(&[a], c)?;
        for &b in &s {
            judge_box::<P>(&[a, b], c)?;
            for &d in &s {
                judge_box::<P>(&[a, b, d], c)?;
            }
        }
        Ok(())
    });
}

fn rotations<P: PosT + 'static>(k: &mut Check, name: String)
where
    <P::Xtype as BoundedInt>::Inner: std::ops::Sub<Output = <P::Xtype as BoundedInt>::Inner>,
    <P::Ytype as BoundedInt>::Inner: std::ops::Sub<Output = <P::Ytype as BoundedInt>::Inner>,
    P::Xtype: TryFrom<<P::Ytype as BoundedInt>::Inner>,
    P::Ytype: TryFrom<<P::Xtype as BoundedInt>::Inner>,
{
    let l = bounds::<P>();
    assert_eq!((l.0, l.1), (l.2, l.3));
    let ys = axis(l.2, l.3, 1000);
    k.fam(format!("rotations of {name}"), "every square (of axes longer than 1000: around the limits, the middle and the powers of two)", ys.len() as u64, move |i, c| {
        let y = ys[i as usize];
        for x in axis(l.0, l.1, 1000) {
            let p: P = mk(x, y);
            c.add(1, 6);
            let (cw, cc) = (p.rotate_cw(), p.rotate_cc());
            same!(xy(&cw), (l.0 + (l.1 - y), x), "rotate_cw of {p:?}");
            same!(xy(&cc), (y, l.0 + (l.1 - x)), "rotate_cc of {p:?}");
            same!(cw.rotate_cc(), p, "rotate_cw and back of {p:?}");
            same!(cc.rotate_cw(), p, "rotate_cc and back of {p:?}");
            same!(cw.rotate_cw().rotate_cw().rotate_cw(), p, "four rotations of {p:?}");
            same!(cw.rotate_cw(), cc.rotate_cc(), "half turns of {p:?}");
        }
        Ok(())
    });
}

fn all<P: PosT + 'static>(k: &mut Check, name: &str) {
    squares::<P>(k, name.into());
    pairs::<P>(k, name.into());
    boxes::<P>(k, name.into());
}

fn fixed<const X: u16, const Y: u16>(k: &mut Check) {
    all::<Pos<X, Y>>(k, &format!("Pos<{X},{Y}>"));
}

fn square<const X: u16, const Y: u16>(k: &mut Check) {
    rotations::<Pos<X, X>>(k, format!("Pos<{X},{X}>"));
}

fn main() {
    let mut k = Check::new("C05", "squares, pairs and triples of squares, collections", "results compared with the model");
    dims_small!(each_xy, fixed(&mut k));
    each_xy! { fixed(&mut k);
        (6, 6) (8, 8) (10, 5) (19, 19) (31, 7) (7, 31) (99, 2) (2, 99) (255, 0) (0, 255) (256, 1) (1, 256)
        (255, 255) (300, 217) (32767, 32768) (65535, 0) (0, 65535) (65535, 65535) (65534, 65535) }
    dims_square!(each_xy, square(&mut k));
    dims_square_large!(each_xy, square(&mut k));
    each_xy! { square(&mut k); (32767, 32767) (32768, 32768) (65534, 65534) (65535, 65535) }
    all::<(u8, u8)>(&mut k, "(u8,u8)");
    all::<(u16, u16)>(&mut k, "(u16,u16)");
    all::<(u32, u32)>(&mut k, "(u32,u32)");
    all::<(i8, i8)>(&mut k, "(i8,i8)");
    all::<(i16, i16)>(&mut k, "(i16,i16)");
    all::<(i32, i32)>(&mut k, "(i32,i32)");
    all::<(u64, u64)>(&mut k, "(u64,u64)");
    all::<Mix53>(&mut k, "user type 5x3");
    all::<Mix26>(&mut k, "user type 2x6");
    all::<Byte3>(&mut k, "user type 256x3");
    all::<Three256>(&mut k, "user type 3x256");
    all::<Off1>(&mut k, "user type -3..3 x 2..6");
    all::<Off2>(&mut k, "user type 1..3 x -1..0");
    all::<Off3>(&mut k, "user type 65530..65535 x -32768..-32764");
    all::<Off4>(&mut k, "user type -2..1 x -2..1");
    all::<OneCol>(&mut k, "user type 5 x 7..9");
    all::<OneSq>(&mut k, "user type 9 x -9");
    rotations::<(u8, u8)>(&mut k, "(u8,u8)".into());
    rotations::<(u16, u16)>(&mut k, "(u16,u16)".into());
    rotations::<(u32, u32)>(&mut k, "(u32,u32)".into());
    rotations::<(i8, i8)>(&mut k, "(i8,i8)".into());
    rotations::<(i16, i16)>(&mut k, "(i16,i16)".into());
    rotations::<(i32, i32)>(&mut k, "(i32,i32)".into());
    rotations::<Sq44>(&mut k, "user type 4x4".into());
    rotations::<Off4>(&mut k, "user type -2..1 x -2..1".into());
    k.assume("positions rotate only if both axes have the same range of values; distances fit usize");
    k.run()
}
