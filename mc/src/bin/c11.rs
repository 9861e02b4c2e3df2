//! C11: building a grid from a sequence or nested rows accepts exactly what fits.
use mc::model::*;
use mc::*;
use sqrid::*;
use std::fmt::Debug;

trait Pp: PosT + Copy + PartialEq + Debug + Send + Sync + 'static {}
impl<P: PosT + Copy + PartialEq + Debug + Send + Sync + 'static> Pp for P {}

fn wh<P: Pp>() -> (usize, usize) {
    let (_, x1, _, y1) = bounds::<P>();
    (x1 as usize + 1, y1 as usize + 1)
}

fn at<P: Pp>(i: usize) -> P {
    let (w, _) = wh::<P>();
    mk::<P>((i % w) as i128, (i / w) as i128)
}

fn label(i: usize) -> u32 {
    (i as u32).wrapping_mul(2654435761) ^ 0x5bd1
}

/// The forms of a sequence of `len` items (None: endless).
const FORMS: usize = 4;
fn seq<T: Clone + 'static>(form: usize, len: Option<usize>, item: impl Fn(usize) -> T + 'static) -> Box<dyn Iterator<Item = T>> {
    let n = len.unwrap_or(usize::MAX);
    match form {
        // Exact size hint
        0 => Box::new((0..n).map(item)),
        // Size hint that only has an upper limit
        1 => Box::new((0..n).filter(|_| true).map(item)),
        // No size hint at all
        2 => {
            let mut i = 0;
            Box::new(std::iter::from_fn(move || {
                if i == n {
                    return None;
                }
                i += 1;
                Some(item(i - 1))
            }))
        }
        // Two pieces
        _ => {
            let item = std::rc::Rc::new(item);
            let other = item.clone();
            let cut = n / 2;
            Box::new((0..cut).map(move |i| other(i)).chain((cut..n).map(move |i| item(i))))
        }
    }
}

fn lengths(s: usize) -> Vec<Option<usize>> {
    let mut v: Vec<usize> = if s <= 70 {
        (0..=s + 3).collect()
    } else {
        let mut v = vec![0, 1, 31, 32, 33, 63, 64, 65, s / 2, s - 33, s - 32, s - 31, s - 2, s - 1, s, s + 1, s + 2, s + 31, s + 32, s + 33, 2 * s];
        v.push(s / 32 * 32);
        v.push(s / 32 * 32 + 32);
        v
    };
    v.sort();
    v.dedup();
    let mut v: Vec<Option<usize>> = v.into_iter().map(Some).collect();
    v.push(None);
    v
}

fn grid_is<T: PartialEq + Debug, P: Pp, const S: usize>(g: &Grid<T, P, S>, want: impl Fn(usize) -> T, what: &dyn Fn() -> String, c: &mut Ctx) -> Res {
    for (i, v) in g.as_array().iter().enumerate() {
        let w = want(i);
        if *v != w {
            bad!("{}: square {:?} holds {v:?}, expected {w:?}", what(), at::<P>(i));
        }
    }
    c.steps += S as u64;
    // and by position
    let some: Vec<usize> = if S <= 2000 { (0..S).collect() } else { vec![0, 1, S / 2, S - 2, S - 1] };
    for i in some {
        same!(g.get(&at::<P>(i)), &want(i), "{}: square {:?}", what(), at::<P>(i));
    }
    Ok(())
}

fn gb_is<P: Pp, const W: usize>(g: &Gridbool<P, W>, s: usize, want: impl Fn(usize) -> bool, what: &dyn Fn() -> String, c: &mut Ctx) -> Res {
    for i in 0..s {
        if g.get(&at::<P>(i)) != want(i) {
            bad!("{}: square {:?} is {}, expected {}", what(), at::<P>(i), g.get(&at::<P>(i)), want(i));
        }
    }
    c.steps += s as u64;
    Ok(())
}

/// Sequences of every length into grids of values and of booleans.
fn sequences<P: Pp, const W: usize, const S: usize>(k: &mut Check, name: &str) {
    let lens = lengths(S);
    let bounds = if S <= 70 { format!("every length from 0 to {}, and endless", S + 3) } else { format!("lengths {:?} (None: endless)", lens) };
    k.fam(format!("sequences {name}"), format!("{bounds}; x {FORMS} iterator forms; values, references, strings, booleans"), lens.len() as u64, move |i, c| {
        let len = lens[i as usize];
        let fits = len == Some(S);
        c.note(|| format!("{len:?} items for {S} squares"));
        for form in 0..FORMS {
            c.state();
            let what = || format!("{len:?} items (form {form}) for {S} squares");
            // Values
            let r = caught(|| Box::new(seq(form, len, label).collect::<Grid<u32, P, S>>()));
            c.outcome(&r.is_ok());
            match (&r, fits) {
                (Ok(g), true) => grid_is(g, label, &what, c)?,
                (Err(_), false) => {}
                (Ok(_), false) => bad!("{}: accepted", what()),
                (Err(e), true) => bad!("{}: refused, {e}", what()),
            }
            // References
            if len.is_some() {
                let v: Vec<u32> = seq(form, len, label).collect();
                let r = caught(|| Box::new(v.iter().collect::<Grid<u32, P, S>>()));
                match (&r, fits) {
                    (Ok(g), true) => grid_is(g, label, &what, c)?,
                    (Err(_), false) => {}
                    (Ok(_), false) => bad!("{} (references): accepted", what()),
                    (Err(e), true) => bad!("{} (references): refused, {e}", what()),
                }
                // Forms whose size hint does not tell the length
                let r = caught(|| Box::new(v.iter().filter(|_| true).collect::<Grid<u32, P, S>>()));
                same!(r.is_ok(), fits, "{} (references, filtered): accepted", what());
            }
            if S <= 1000 {
                let r = caught(|| Box::new(seq(form, len, |i| format!("s{i}")).collect::<Grid<String, P, S>>()));
                match (&r, fits) {
                    (Ok(g), true) => grid_is(g, |i| format!("s{i}"), &what, c)?,
                    (Err(_), false) => {}
                    (Ok(_), false) => bad!("{} (strings): accepted", what()),
                    (Err(e), true) => bad!("{} (strings): refused, {e}", what()),
                }
            }
            // Booleans
            let pats: [fn(usize) -> bool; 3] = [|i| label(i) % 3 == 0, |_| true, |_| false];
            for (n, pat) in pats.into_iter().enumerate() {
                let r = caught(|| seq(form, len, pat).collect::<Gridbool<P, W>>());
                match (&r, fits) {
                    (Ok(g), true) => gb_is(g, S, pat, &what, c)?,
                    (Err(_), false) => {}
                    (Ok(_), false) => bad!("{} (booleans, pattern {n}): accepted", what()),
                    (Err(e), true) => bad!("{} (booleans, pattern {n}): refused, {e}", what()),
                }
            }
            c.steps += 4;
        }
        Ok(())
    });
}

/// All contents of a boolean grid, as a sequence of booleans and as a
/// sequence of positions (in order, reversed, duplicated).
fn bool_contents<P: Pp, const W: usize, const S: usize>(k: &mut Check, name: &str) {
    k.fam(format!("boolean contents {name}"), format!("all 2^{S} contents x booleans, positions in order, in reverse, twice, one of them more often than there are squares"), 1 << S, move |i, c| {
        let bit = |j: usize| i >> j & 1 == 1;
        c.note(|| format!("content {i:#b}"));
        let g: Gridbool<P, W> = (0..S).map(bit).collect();
        gb_is(&g, S, bit, &|| format!("content {i:#b} from booleans"), c)?;
        c.outcome(g.as_inner());
        let ps: Vec<P> = (0..S).filter(|j| bit(*j)).map(at::<P>).collect();
        let forms: [Vec<P>; 3] = [ps.clone(), ps.iter().rev().copied().collect(), ps.iter().chain(ps.iter()).copied().collect()];
        for f in forms {
            let g: Gridbool<P, W> = f.iter().copied().collect();
            gb_is(&g, S, bit, &|| format!("from positions {f:?}"), c)?;
        }
        // One of them very often, before the others
        for r in [S, W * 32, 2 * W * 32 + 1] {
            let Some(first) = ps.get(i as usize % ps.len().max(1)) else { break };
            let f = || std::iter::repeat_n(*first, r).chain(ps.iter().copied());
            let g: Gridbool<P, W> = f().collect();
            gb_is(&g, S, bit, &|| format!("from positions {first:?} {r} times, then {ps:?}"), c)?;
            let g: Gridbool<P, W> = f().filter(|_| true).collect();
            gb_is(&g, S, bit, &|| format!("from a filtered sequence of positions {first:?} {r} times, then {ps:?}"), c)?;
        }
        let g: Gridbool<P, W> = (0..S).filter(|j| bit(*j)).map(at::<P>).filter(|_| true).collect();
        gb_is(&g, S, bit, &|| format!("from positions of content {i:#b}"), c)?;
        c.states += 5;
        Ok(())
    });
}

/// Positions of a big boolean grid: none, each alone, all but each, all.
fn positions<P: Pp, const W: usize, const S: usize>(k: &mut Check, name: &str) {
    let mut some: Vec<usize> = if S <= 300 { (0..S).collect() } else { vec![0, 1, 31, 32, 63, 64, 255, 256, 257, S / 2, S - 34, S - 33, S - 32, S - 31, S - 2, S - 1] };
    some.dedup();
    k.fam(
        format!("positions {name}"),
        format!("no position, all, each of {} alone, all but each of them", some.len()),
        2 + 2 * some.len() as u64,
        move |i, c| {
            let want = |j: usize| match i {
                0 => false,
                1 => true,
                _ => (j == some[(i as usize - 2) / 2]) == (i % 2 == 0),
            };
            let g: Gridbool<P, W> = (0..S).filter(|j| want(*j)).map(at::<P>).collect();
            c.state();
            gb_is(&g, S, want, &|| format!("case {i}"), c)
        },
    );
}

/// Judge one nested-row shape.
fn shape<P: Pp, const S: usize>(rows: &[usize], c: &mut Ctx) -> Res {
    let (w, h) = wh::<P>();
    let outside = rows.iter().enumerate().any(|(y, l)| *l > 0 && y >= h || *l > w);
    // More (empty) rows than the grid has: nothing falls outside, and nothing has to be stored
    let spare = !outside && rows.len() > h;
    let item = |x: usize, y: usize| 1 + y as u64 * 1_000_000 + x as u64;
    let build = || -> Vec<Vec<u64>> { rows.iter().enumerate().map(|(y, l)| (0..*l).map(|x| item(x, y)).collect()).collect() };
    let covered = |i: usize| i / w < rows.len() && i % w < rows[i / w];
    let what = || format!("rows of lengths {} for {w}x{h}", if rows.len() > 20 { format!("{:?}... ({} rows)", &rows[..20], rows.len()) } else { format!("{rows:?}") });
    c.state();
    // A new grid
    match Grid::<u64, P, S>::try_from(build()).map(Box::new) {
        Ok(g) => {
            if outside {
                bad!("try_from {}: accepted although an item falls outside", what());
            }
            grid_is(&g, |i| if covered(i) { item(i % w, i / w) } else { 0 }, &|| format!("try_from {}", what()), c)?;
            c.outcome(&1);
        }
        Err(e) => {
            same!(e, Error::OutOfBounds, "try_from {}: error", what());
            if !outside && !spare {
                bad!("try_from {}: refused although everything fits", what());
            }
            c.outcome(&2);
        }
    }
    // An existing grid
    let old = |i: usize| u64::MAX - i as u64;
    let mut g: Box<Grid<u64, P, S>> = Box::new((0..S).map(old).collect());
    match g.extend_from_vecvec(build()) {
        Ok(()) => {
            if outside {
                bad!("extend_from_vecvec {}: accepted although an item falls outside", what());
            }
            grid_is(&g, |i| if covered(i) { item(i % w, i / w) } else { old(i) }, &|| format!("extend_from_vecvec {}", what()), c)?;
        }
        Err(e) => {
            same!(e, Error::OutOfBounds, "extend_from_vecvec {}: error", what());
            if !outside && !spare {
                bad!("extend_from_vecvec {}: refused although everything fits", what());
            }
            // Whatever was stored must be at its own place
            for (i, v) in g.as_array().iter().enumerate() {
                if *v != old(i) && !(covered(i) && *v == item(i % w, i / w)) {
                    bad!("extend_from_vecvec {}: refused, but square {:?} now holds {v}", what(), at::<P>(i));
                }
            }
            c.steps += S as u64;
        }
    }
    c.step();
    Ok(())
}

/// All shapes of nested rows up to `extra` too many rows and items.
fn nested<P: Pp, const S: usize>(k: &mut Check, name: &str, extra: usize) {
    let (w, h) = wh::<P>();
    let base = (w + extra + 1) as u64;
    let counts: Vec<u64> = (0..=h + extra).map(|r| base.pow(r as u32)).collect();
    let total = counts.iter().sum();
    k.fam(
        format!("nested rows {name}"),
        format!("every shape of 0 to {} rows of 0 to {} items each", h + extra, w + extra),
        total,
        move |mut i, c| {
            let mut r = 0;
            while i >= counts[r] {
                i -= counts[r];
                r += 1;
            }
            let rows: Vec<usize> = digs(i, base, r).into_iter().map(|d| d as usize).collect();
            c.note(|| format!("row lengths {rows:?}"));
            shape::<P, S>(&rows, c)
        },
    );
}

/// Shapes of big grids: full, then one or two rows that deviate.
fn nested_large<P: Pp, const S: usize>(k: &mut Check, name: &str) {
    let (w, h) = wh::<P>();
    let near = |n: usize, d: usize| -> Vec<usize> {
        let mut v = vec![0, 1, n / 2];
        for b in [n, 256, 65536, 2 * n] {
            for e in 0..=d {
                v.push(b.saturating_sub(e));
                v.push(b + e);
            }
        }
        v.push(65536 + n);
        v.push(65536 + n / 2);
        v.push(256 + n);
        v.sort();
        v.dedup();
        v
    };
    let lens = near(w, 1);
    let counts: Vec<usize> = near(h, 1).into_iter().filter(|r| *r <= 140000).collect();
    let mut at: Vec<Option<usize>> = vec![None, Some(0), Some(h - 1), Some(h), Some(h / 2)];
    at.dedup();
    let (nl, nc, na) = (lens.len() as u64, counts.len() as u64, at.len() as u64);
    let fill: [usize; 2] = [0, w];
    let deep = k.thorough();
    k.fam(
        format!("nested rows {name}"),
        format!("row counts {counts:?} x all rows empty or full except one at {at:?} of length {lens:?}{}", if deep { "" } else { " (not both count and length far off)" }),
        nl * nc * na * 2,
        move |i, c| {
            let d = digits(i, &[nl, nc, na, 2]);
            let f = fill[d[3] as usize];
            let n = counts[d[1] as usize];
            if f * n > 400_000 {
                // the same deviation is explored with empty rows
                return Ok(());
            }
            // quick: not two far-off numbers at once
            let far = |v: usize, n: usize| v != 0 && v != n && v != n + 1;
            if !deep && (far(n, h) && far(lens[d[0] as usize], w) || far(n, h) && f * n > 20_000) {
                return Ok(());
            }
            let mut rows = vec![f; n];
            if let Some(y) = at[d[2] as usize] {
                if y < n {
                    rows[y] = lens[d[0] as usize];
                } else {
                    return Ok(());
                }
            } else if d[0] != 0 {
                return Ok(());
            }
            c.note(|| format!("{n} rows of {f}, one of {}", lens[d[0] as usize]));
            shape::<P, S>(&rows, c)
        },
    );
}

fn dim<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    let name = format!("{}x{}", X as u32 + 1, Y as u32 + 1);
    if k.fams.iter().any(|f| f.name == format!("sequences {name}")) {
        return;
    }
    sequences::<Pos<X, Y>, W, S>(k, &name);
    positions::<Pos<X, Y>, W, S>(k, &name);
}

fn dim_big<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    let name = format!("{}x{}", X as u32 + 1, Y as u32 + 1);
    dim::<X, Y, W, S>(k);
    nested_large::<Pos<X, Y>, S>(k, &name);
}

fn main() {
    let mut k = Check::new(
        "C11",
        "sequences and nested-row shapes given to the real constructors",
        "squares of the resulting grids compared with what was given, and refusals",
    );
    let deep = k.thorough();
    dims_small!(each_dim, dim(&mut k));
    dims_mid!(each_dim, dim(&mut k));
    macro_rules! nest {
        ($e:expr; $($x:literal $y:literal),+) => { $(
            nested::<Pos<$x, $y>, { ($x + 1) * ($y + 1) }>(&mut k, concat!($x, "+1 x ", $y, "+1"), $e);
        )+ }
    }
    nest!(3; 0 0, 1 0, 2 0, 0 1, 1 1, 2 1);
    nest!(2; 0 2, 1 2, 3 0, 3 1, 4 0);
    nest!(1; 2 2, 0 3, 1 3, 2 3, 3 2, 6 1, 0 4, 0 5, 1 4);
    if deep {
        nest!(2; 2 2, 2 3, 3 3, 6 2, 4 2, 1 4);
        nest!(1; 0 7, 2 5, 9 3);
    }
    dim_large(&mut k);
    macro_rules! contents {
        ($($x:literal $y:literal),+) => { $( {
            const S: usize = ($x + 1) * ($y + 1);
            bool_contents::<Pos<$x, $y>, { (S + 31) / 32 }, S>(&mut k, concat!($x, "+1 x ", $y, "+1"));
        } )+ }
    }
    contents!(0 0, 1 0, 0 1, 1 1, 2 1, 1 2, 2 2, 3 2, 2 3, 11 0, 0 11);
    if deep {
        contents!(3 3, 4 3, 3 4);
    }
    macro_rules! user {
        ($($p:ident $w:literal $s:literal)*) => { $(
            sequences::<$p, $w, $s>(&mut k, stringify!($p));
            positions::<$p, $w, $s>(&mut k, stringify!($p));
            nested_large::<$p, $s>(&mut k, concat!(stringify!($p), " large"));
        )* }
    }
    user!(Mix53 1 15 Mix26 1 12 Byte3 24 768 Three256 24 768 Sq44 1 16);
    nested::<Mix53, 15>(&mut k, "Mix53", 1);
    nested::<Sq44, 16>(&mut k, "Sq44", 1);
    k.assume("surplus empty rows may be accepted or refused (no item falls outside)");
    k.assume("after a refused extension, squares hold either their old item or the item given for them");
    k.run()
}

fn dim_large(k: &mut Check) {
    each_dim! { dim_big(k);
        (255, 255) (256, 2) (2, 256) (300, 217) (255, 0) (0, 255)
        (32767, 0) (0, 32767) (32768, 1) (1, 32768)
        (65534, 0) (0, 65534) (65535, 0) (0, 65535) (65535, 1) (1, 65535) }
}
