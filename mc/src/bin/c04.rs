//! C04: every traversal yields each of its squares exactly once and in order.
use mc::model::*;
use mc::*;
use sqrid::{PosTIter, Pos, PosT};

/// Run an iterator to its end and beyond.
fn drain<T: PartialEq + std::fmt::Debug>(
    it: &mut impl Iterator<Item = T>,
    want: &mut dyn Iterator<Item = T>,
    what: &dyn Fn() -> String,
    c: &mut Ctx,
) -> Res {
    for i in 0u64.. {
        let w = want.next();
        let g = it.next();
        c.step();
        if g != w {
            bad!("{}: item {i} is {g:?}, expected {w:?}", what());
        }
        if w.is_none() {
            break;
        }
    }
    for _ in 0..3 {
        c.step();
        if let Some(g) = it.next() {
            bad!("{}: yields {g:?} after the end", what());
        }
    }
    Ok(())
}

fn hint(h: (usize, Option<usize>), n: u128, what: &dyn Fn() -> String, c: &mut Ctx) -> Res {
    c.step();
    if h.0 as u128 > n || h.1.is_some_and(|u| (u as u128) < n) {
        bad!("{}: size hint {h:?} of a fresh iterator does not bracket {n}", what());
    }
    Ok(())
}

type Lim = (i128, i128, i128, i128);

fn order(l: Lim, xfirst: bool) -> Box<dyn Iterator<Item = (i128, i128)>> {
    let (x0, x1, y0, y1) = l;
    if xfirst {
        Box::new((y0..=y1).flat_map(move |y| (x0..=x1).map(move |x| (x, y))))
    } else {
        Box::new((x0..=x1).flat_map(move |x| (y0..=y1).map(move |y| (x, y))))
    }
}

/// All interleavings of front and back, with cloned iterators; `depth` calls.
fn interleave<const XF: bool, P: PosT>(it: PosTIter<XF, P>, seq: &[P], depth: usize, c: &mut Ctx) -> Res {
    c.state();
    if depth == 0 {
        return Ok(());
    }
    let mut a = it;
    let w = seq.first().copied();
    let g = a.next();
    same!(g, w, "front of {} remaining of {}", seq.len(), std::any::type_name::<P>());
    c.step();
    interleave(a, if seq.is_empty() { seq } else { &seq[1..] }, depth - 1, c)?;
    let mut b = it;
    let w = seq.last().copied();
    let g = b.next_back();
    same!(g, w, "back of {} remaining of {}", seq.len(), std::any::type_name::<P>());
    c.step();
    interleave(b, if seq.is_empty() { seq } else { &seq[..seq.len() - 1] }, depth - 1, c)
}

/// front*a, back*b, front*rest and the mirror of that
fn switches<const XF: bool, P: PosT>(seq: &[P], a: usize, mirror: bool, c: &mut Ctx) -> Res {
    let n = seq.len();
    for b in 0..=(n - a) {
        let mut it = P::iter_orientation::<XF>();
        let (mut lo, mut hi) = (0, n);
        let mut take = |front: bool| -> Res {
            let (g, w) = if front {
                (it.next(), if lo < hi { lo += 1; Some(seq[lo - 1]) } else { None })
            } else {
                (it.next_back(), if lo < hi { hi -= 1; Some(seq[hi]) } else { None })
            };
            if g != w {
                bad!("{} XFIRST={XF}: {a} from one end (mirror {mirror}), {b} from the other: got {g:?}, expected {w:?}", std::any::type_name::<P>());
            }
            Ok(())
        };
        for _ in 0..a {
            take(!mirror)?;
        }
        for _ in 0..b {
            take(mirror)?;
        }
        for _ in 0..(n - a - b + 2) {
            take(!mirror)?;
        }
        take(mirror)?;
        c.add(1, n as u64 + 3);
    }
    Ok(())
}

fn orient<const XF: bool, P: PosT>(l: Lim, c: &mut Ctx) -> Res {
    let n = (l.1 - l.0 + 1) as u128 * (l.3 - l.2 + 1) as u128;
    let name = std::any::type_name::<P>();
    let what = move |s: &str| { let s = s.to_string(); move || format!("{name} {s} XFIRST={XF}") };
    let seq = || order(l, XF).map(|(x, y)| mk::<P>(x, y));
    hint(P::iter_orientation::<XF>().size_hint(), n, &what("iter_orientation"), c)?;
    drain(&mut P::iter_orientation::<XF>(), &mut seq(), &what("iter_orientation"), c)?;
    drain(&mut PosTIter::<XF, P>::default(), &mut seq(), &what("PosTIter::default"), c)?;
    // (in reverse, from a list: the model's iterator is boxed)
    let all: Vec<P> = seq().collect();
    drain(&mut P::iter_orientation::<XF>().rev(), &mut all.iter().rev().copied(), &what("rev"), c)?;
    same!(P::iter_orientation::<XF>().count() as u128, n, "{name} count");
    same!(P::iter_orientation::<XF>().last(), all.last().copied(), "{name} last");
    c.add(n as u64, 2);
    if all.len() <= 400 {
        for i in 0..all.len() + 2 {
            let mut it = P::iter_orientation::<XF>();
            same!(it.nth(i), all.get(i).copied(), "{name} nth({i})");
            same!(it.next(), all.get(i + 1).copied(), "{name} next after nth({i})");
            let mut it = P::iter_orientation::<XF>();
            let w = |i: usize| if i < all.len() { Some(all[all.len() - 1 - i]) } else { None };
            same!(it.nth_back(i), w(i), "{name} nth_back({i})");
            same!(it.next_back(), w(i + 1), "{name} next_back after nth_back({i})");
            c.add(0, 4);
        }
        let f = P::iter_orientation::<XF>().fold(vec![], |mut v, p| { v.push(p); v });
        if f != all {
            bad!("{name} fold visits {f:?}");
        }
        let f = P::iter_orientation::<XF>().rfold(vec![], |mut v, p| { v.insert(0, p); v });
        if f != all {
            bad!("{name} rfold visits {f:?}");
        }
    }
    Ok(())
}

/// Rows, columns and axes.
fn lines<P: PosT>(l: Lim, c: &mut Ctx) -> Res {
    let (x0, x1, y0, y1) = l;
    let name = std::any::type_name::<P>();
    for x in x0..=x1 {
        let px = mk::<P>(x, y0).x();
        let what = || format!("{name} iter_in_x({x})");
        hint(P::iter_in_x(px).size_hint(), (y1 - y0 + 1) as u128, &what, c)?;
        drain(&mut P::iter_in_x(px), &mut (y0..=y1).map(|y| mk::<P>(x, y)), &what, c)?;
        same!(P::iter_in_x(px).count() as i128, y1 - y0 + 1, "{name} iter_in_x({x}) count");
        same!(P::iter_in_x(px).last(), Some(mk::<P>(x, y1)), "{name} iter_in_x({x}) last");
        c.state();
    }
    for y in y0..=y1 {
        let py = mk::<P>(x0, y).y();
        let what = || format!("{name} iter_in_y({y})");
        hint(P::iter_in_y(py).size_hint(), (x1 - x0 + 1) as u128, &what, c)?;
        drain(&mut P::iter_in_y(py), &mut (x0..=x1).map(|x| mk::<P>(x, y)), &what, c)?;
        same!(P::iter_in_y(py).count() as i128, x1 - x0 + 1, "{name} iter_in_y({y}) count");
        same!(P::iter_in_y(py).last(), Some(mk::<P>(x1, y)), "{name} iter_in_y({y}) last");
        c.state();
    }
    axes::<P>(l, c)
}

fn axes<P: PosT>(l: Lim, c: &mut Ctx) -> Res {
    let (x0, x1, y0, y1) = l;
    let name = std::any::type_name::<P>();
    hint(P::iter_x().size_hint(), (x1 - x0 + 1) as u128, &|| format!("{name} iter_x"), c)?;
    drain(&mut P::iter_x(), &mut (x0..=x1).map(|x| mk::<P>(x, y0).x()), &|| format!("{name} iter_x"), c)?;
    hint(P::iter_y().size_hint(), (y1 - y0 + 1) as u128, &|| format!("{name} iter_y"), c)?;
    drain(&mut P::iter_y(), &mut (y0..=y1).map(|y| mk::<P>(x0, y).y()), &|| format!("{name} iter_y"), c)
}

fn range<P: PosT>(r: Lim, c: &mut Ctx) -> Res {
    let (a, b, top, bot) = r;
    let name = std::any::type_name::<P>();
    let what = || format!("{name} iter_range(({a},{top}),({b},{bot}))");
    let n = (b - a + 1) as u128 * (bot - top + 1) as u128;
    let (tl, br) = (mk::<P>(a, top), mk::<P>(b, bot));
    hint(P::iter_range(tl, br).size_hint(), n, &what, c)?;
    drain(&mut P::iter_range(tl, br), &mut order(r, true).map(|(x, y)| mk::<P>(x, y)), &what, c)?;
    c.add(1, 1);
    Ok(())
}

/// Every mixture of the provided methods.
fn protocols<P: PosT + Ord + 'static>(l: Lim, most: i128, c: &mut Ctx) -> Res {
    let (x0, x1, y0, y1) = l;
    let name = std::any::type_name::<P>();
    let list = |r: Lim, xf: bool| order(r, xf).map(|(x, y)| mk::<P>(x, y)).collect::<Vec<P>>();
    let (w, h) = (x1 - x0 + 1, y1 - y0 + 1);
    if w <= most && h <= most && w * h <= most {
        iter::both(&P::iter, &list(l, true), &|| format!("{name} iter"), c)?;
        iter::both(&P::iter_vertical, &list(l, false), &|| format!("{name} iter_vertical"), c)?;
        iter::extremes(&P::iter, &|| format!("{name} iter"), c)?;
        iter::extremes(&P::iter_vertical, &|| format!("{name} iter_vertical"), c)?;
        iter::extremes(&|| P::iter_vertical().rev(), &|| format!("{name} iter_vertical, reversed"), c)?;
    }
    if h <= most {
        for x in [x0, (x0 + x1) / 2, x1] {
            iter::extremes(&|| P::iter_in_x(mk::<P>(x, y0).x()), &|| format!("{name} iter_in_x({x})"), c)?;
            iter::forward(&|| P::iter_in_x(mk::<P>(x, y0).x()), &list((x, x, y0, y1), true), &|| format!("{name} iter_in_x({x})"), c)?;
        }
        iter::forward(&P::iter_y, &(y0..=y1).map(|y| mk::<P>(x0, y).y()).collect::<Vec<_>>(), &|| format!("{name} iter_y"), c)?;
    }
    if w <= most {
        for y in [y0, (y0 + y1) / 2, y1] {
            iter::extremes(&|| P::iter_in_y(mk::<P>(x0, y).y()), &|| format!("{name} iter_in_y({y})"), c)?;
            iter::forward(&|| P::iter_in_y(mk::<P>(x0, y).y()), &list((x0, x1, y, y), true), &|| format!("{name} iter_in_y({y})"), c)?;
        }
        iter::forward(&P::iter_x, &(x0..=x1).map(|x| mk::<P>(x, y0).x()).collect::<Vec<_>>(), &|| format!("{name} iter_x"), c)?;
    }
    let corners = |lo: i128, hi: i128| [(lo, lo), (lo, (lo + 1).min(hi)), (lo, (lo + 3).min(hi)), ((lo + hi) / 2, ((lo + hi) / 2 + 2).min(hi)), ((hi - 2).max(lo), hi), (hi, hi), ((hi - 1).max(lo), hi)];
    for (a, b) in corners(x0, x1) {
        for (t, o) in corners(y0, y1) {
            iter::extremes(&|| P::iter_range(mk::<P>(a, t), mk::<P>(b, o)), &|| format!("{name} iter_range(({a},{t}),({b},{o}))"), c)?;
            iter::forward(&|| P::iter_range(mk::<P>(a, t), mk::<P>(b, o)), &list((a, b, t, o), true), &|| format!("{name} iter_range(({a},{t}),({b},{o}))"), c)?;
        }
    }
    Ok(())
}

/// All traversals of a type small enough to enumerate its squares.
fn whole<P: PosT + Ord + 'static>(k: &mut Check, name: String) {
    let l = bounds::<P>();
    let n = ((l.1 - l.0 + 1) * (l.3 - l.2 + 1)) as u64;
    let deep = k.pick(10, 14);
    let wide = k.pick(150, 1100);
    k.fam(format!("whole, rows, columns and axes of {name}"), "horizontally, vertically, reversed, nth, fold, count, last; every row, every column, both axes; three calls beyond the end; fresh size hints", 4, move |i, c| match i {
        0 => orient::<true, P>(l, c),
        1 => orient::<false, P>(l, c),
        2 => lines::<P>(l, c),
        _ => {
            let all = |xf| order(l, xf).map(|(x, y)| mk::<P>(x, y)).collect::<Vec<P>>();
            if n <= 70000 {
                same!(P::iter().collect::<Vec<_>>(), all(true), "iter");
                same!(P::iter_horizontal().collect::<Vec<_>>(), all(true), "iter_horizontal");
                same!(P::iter_vertical().collect::<Vec<_>>(), all(false), "iter_vertical");
                c.add(1, 3 * n);
            }
            Ok(())
        }
    });
    if n <= deep {
        k.fam(format!("both ends of {name}"), format!("all 2^{} interleavings of front and back, horizontally and vertically", n + 2), 2, move |i, c| {
            c.note(|| format!("{n} squares, vertical: {}", i == 1));
            if i == 0 {
                interleave(P::iter_orientation::<true>(), &order(l, true).map(|(x, y)| mk::<P>(x, y)).collect::<Vec<_>>(), n as usize + 2, c)
            } else {
                interleave(P::iter_orientation::<false>(), &order(l, false).map(|(x, y)| mk::<P>(x, y)).collect::<Vec<_>>(), n as usize + 2, c)
            }
        });
    } else if n <= wide {
        k.fam(format!("both ends of {name}"), "all sequences that change ends at most twice, horizontally and vertically, starting from either end", (n + 1) * 4, move |i, c| {
            let a = (i / 4) as usize;
            let mirror = i & 1 == 1;
            if i & 2 == 0 {
                switches::<true, P>(&order(l, true).map(|(x, y)| mk::<P>(x, y)).collect::<Vec<_>>(), a, mirror, c)
            } else {
                switches::<false, P>(&order(l, false).map(|(x, y)| mk::<P>(x, y)).collect::<Vec<_>>(), a, mirror, c)
            }
        });
    }
    let most = k.pick(14, 40);
    k.fam(format!("mixed calls on {name}"), format!("whole, rows, columns and axes of at most {most} squares, ranges of at most 4x4 at the limits and in the middle: items taken one by one (from both ends if possible), then every way of going on: nth, nth_back, skip, step_by, take, position, find, fold, count, last, max, min..., up to and beyond the end, and then the rest"), 1, move |_, c| protocols::<P>(l, most, c));
    let pairs = |lo: i128, hi: i128, most: i128| -> Vec<(i128, i128)> {
        let v: Vec<i128> = if hi - lo < most { (lo..=hi).collect() } else { [lo, lo + 1, lo + 2, (lo + hi) / 2, hi - 2, hi - 1, hi].into() };
        v.iter().flat_map(|a| v.iter().filter(move |b| *b >= a).map(move |b| (*a, *b))).collect()
    };
    let most = k.pick(13, 40);
    let (px, py) = (pairs(l.0, l.1, most), pairs(l.2, l.3, most));
    let big = n > 3000;
    k.fam(
        format!("ranges of {name}"),
        "every top-left and bottom-right corner (of large grids: coordinates next to the limits and in the middle; at most 3000 squares each)",
        px.len() as u64,
        move |i, c| {
            let (a, b) = px[i as usize];
            for &(t, o) in &py {
                if !big || (b - a + 1) * (o - t + 1) <= 3000 {
                    range::<P>((a, b, t, o), c)?;
                }
            }
            Ok(())
        },
    );
}

fn fixed<const X: u16, const Y: u16>(k: &mut Check) {
    whole::<Pos<X, Y>>(k, format!("Pos<{X},{Y}>"));
}

/// The first million squares from each end of types too large to finish.
fn partial<P: PosT + Ord + 'static>(k: &mut Check, name: &'static str) {
    let l = bounds::<P>();
    let m = k.pick(300_000, 20_000_000);
    k.fam(format!("mixed calls on {name}"), "ranges of at most 4x4 at the limits and in the middle, every mixture of calls", 1, move |_, c| protocols::<P>(l, 0, c));
    k.fam(format!("ends of {name}"), format!("the first and the last {m} squares, both orientations; rows, columns and ranges at the limits"), 6, move |i, c| {
        let (x0, x1, y0, y1) = l;
        fn go<const XF: bool, P: PosT>(l: Lim, m: usize, back: bool, c: &mut Ctx) -> Res {
            let (x0, x1, y0, y1) = l;
            let mut it = P::iter_orientation::<XF>();
            let (mut x, mut y) = if back { (x1, y1) } else { (x0, y0) };
            // The model, one coordinate first and then the other
            for j in 0..m {
                let g = if back { it.next_back() } else { it.next() };
                if g != Some(mk::<P>(x, y)) {
                    bad!("{} XFIRST={XF} back={back}: item {j} is {g:?}, expected ({x},{y})", std::any::type_name::<P>());
                }
                let (fast, slow, f0, f1, s) = if XF { (&mut x, &mut y, x0, x1, if back { -1 } else { 1 }) } else { (&mut y, &mut x, y0, y1, if back { -1 } else { 1 }) };
                if !back && *fast == f1 {
                    *fast = f0;
                    *slow += s;
                } else if back && *fast == f0 {
                    *fast = f1;
                    *slow += s;
                } else {
                    *fast += s;
                }
            }
            // The two ends do not disturb each other
            let g = if back { it.next() } else { it.next_back() };
            let w = if back { mk::<P>(x0, y0) } else { mk::<P>(x1, y1) };
            same!(g, Some(w), "other end after {m}");
            c.add(m as u64, m as u64);
            Ok(())
        }
        match i {
            0 => go::<true, P>(l, m, false, c),
            1 => go::<true, P>(l, m, true, c),
            2 => go::<false, P>(l, m, false, c),
            3 => go::<false, P>(l, m, true, c),
            4 => {
                for (a, b) in [(x0, x0 + 3), (x0 + 1, x0 + 2), (x1 - 3, x1), (x1 - 2, x1 - 1), (x0, x0), (x1, x1), (-1, 1)] {
                    for (t, o) in [(y0, y0 + 3), (y0 + 1, y0 + 2), (y1 - 3, y1), (y1 - 2, y1 - 1), (y0, y0), (y1, y1), (-1, 1)] {
                        if a >= x0 && t >= y0 {
                            range::<P>((a, b, t, o), c)?;
                        }
                    }
                }
                Ok(())
            }
            _ => {
                if x1 - x0 <= 65535 {
                    axes::<P>(l, c)?;
                    for x in [x0, x0 + 1, x1 - 1, x1] {
                        drain(&mut P::iter_in_x(mk::<P>(x, y0).x()), &mut (y0..=y1).map(|y| mk::<P>(x, y)), &|| format!("iter_in_x({x})"), c)?;
                    }
                    for y in [y0, y0 + 1, y1 - 1, y1] {
                        drain(&mut P::iter_in_y(mk::<P>(x0, y).y()), &mut (x0..=x1).map(|x| mk::<P>(x, y)), &|| format!("iter_in_y({y})"), c)?;
                    }
                    // whole rows and columns as ranges
                    range::<P>((x0, x1, y1, y1), c)?;
                    range::<P>((x1, x1, y0, y1), c)?;
                    range::<P>((x0, x1, y0, y0), c)?;
                    range::<P>((x0, x0, y0, y1), c)?;
                }
                Ok(())
            }
        }
    });
}

fn main() {
    let mut k = Check::new("C04", "iterator states visited (squares of a whole traversal, front/back choices, ranges)", "calls of next, next_back, nth... compared with the model");
    dims_small!(each_xy, fixed(&mut k));
    each_xy! { fixed(&mut k);
        (30, 0) (31, 0) (0, 31) (0, 30) (8, 6) (6, 8) (10, 2) (2, 10) (15, 1) (1, 15) (10, 10) (12, 4) (4, 12)
        (31, 3) (3, 31) (99, 1) (1, 99) (254, 1) (1, 254) (255, 0) (0, 255) (256, 1) (1, 256) (255, 2) (2, 255) (99, 100)
        (65535, 0) (0, 65535) (65534, 1) (1, 65534) (300, 217) }
    whole::<(u8, u8)>(&mut k, "(u8,u8)".into());
    whole::<(i8, i8)>(&mut k, "(i8,i8)".into());
    whole::<Mix53>(&mut k, "user type 5x3".into());
    whole::<Mix26>(&mut k, "user type 2x6".into());
    whole::<Byte3>(&mut k, "user type 256x3".into());
    whole::<Three256>(&mut k, "user type 3x256".into());
    whole::<Off1>(&mut k, "user type -3..3 x 2..6".into());
    whole::<Off2>(&mut k, "user type 1..3 x -1..0".into());
    whole::<Off3>(&mut k, "user type 65530..65535 x -32768..-32764".into());
    whole::<OneCol>(&mut k, "user type 5 x 7..9".into());
    whole::<OneSq>(&mut k, "user type 9 x -9".into());
    k.fam("mixed calls on long lines", "a row and a column of 256 squares, every mixture of calls", 4, |i, c| {
        let all: Vec<(u8, u8)> = (0..=255).map(|x| (x, 255)).collect();
        match i {
            0 => iter::forward(&|| <(u8, u8)>::iter_in_y(255), &all, &|| "(u8,u8) iter_in_y(255)".into(), c),
            1 => iter::forward(&|| <(i8, i8)>::iter_in_x(-128), &(-128..=127).map(|y| (-128, y)).collect::<Vec<(i8, i8)>>(), &|| "(i8,i8) iter_in_x(-128)".into(), c),
            2 => iter::forward(&|| <(u8, u8)>::iter_range((0, 255), (255, 255)), &all, &|| "(u8,u8) iter_range".into(), c),
            _ => iter::forward(&|| Pos::<0, 256>::iter_in_x(0.try_into().unwrap()), &(0..257).map(|y| mk::<Pos<0, 256>>(0, y)).collect::<Vec<_>>(), &|| "Pos<0,256> iter_in_x(0)".into(), c),
        }
    });
    partial::<(u16, u16)>(&mut k, "(u16,u16)");
    partial::<(i16, i16)>(&mut k, "(i16,i16)");
    partial::<(u32, u32)>(&mut k, "(u32,u32)");
    partial::<(i32, i32)>(&mut k, "(i32,i32)");
    partial::<(u64, u64)>(&mut k, "(u64,u64)");
    partial::<Pos<65535, 65535>>(&mut k, "Pos<65535,65535>");
    k.assume("ranges are given by their top-left and bottom-right corners, in that order");
    k.assume("size hints are only judged on fresh iterators whose number of squares fits usize");
    k.run()
}
